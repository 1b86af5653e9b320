-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Differential expressions in unknown functions, as trees, with an exact   *)
(* meaning and an exact Frechet derivative on Chebyshev series; and the     *)
(* ultraspherical bases in which equations are discretised.                 *)
(*   num c | x | par p | fun j | cf (a known function) | add l r | sub l r  *)
(*   | mul l r | neg l | quo l c (division by a number) | pow l k           *)
(*   | d l k (k-th derivative) | int i a b (integral of x^i u_1^a u_2^b)    *)
(***************************************************************************)
EXTENDS Cheb, Json
\* the context of an evaluation: [dom, pars (a function of names), cf (a series)]
HLen(c) == RMul(<<1, 2>>, RSub(c.dom[2], c.dom[1]))
XSer(c) == PAdd(PMono(1, HLen(c)), PConst(RMul(<<1, 2>>, RAdd(c.dom[1], c.dom[2]))))
Dx(c, p, k) == PScale(PDiffN(p, k), RPow(RInv(HLen(c)), k))
DSum(c, p) == RMul(HLen(c), PSum(p))

RECURSIVE PProdSeq(_, _, _)
PProdSeq(c, U, e) == \* x^i prod_j u_j^e_j with e = <<i, e_1, e_2..>>
  LET RECURSIVE go(_)
      go(j) == IF j = 0 THEN PPow(XSer(c), e[1]) ELSE PMul(PPow(U[j], e[j + 1]), go(j - 1))
  IN go(Len(U))

RECURSIVE Ev(_, _, _)
Ev(c, e, U) ==
  CASE e.t = "num" -> PConst(e.c)
    [] e.t = "x"   -> XSer(c)
    [] e.t = "par" -> PConst(c.pars[e.p])
    [] e.t = "fun" -> U[e.j]
    [] e.t = "cf"  -> c.cf
    [] e.t = "add" -> PAdd(Ev(c, e.l, U), Ev(c, e.r, U))
    [] e.t = "sub" -> PSub(Ev(c, e.l, U), Ev(c, e.r, U))
    [] e.t = "mul" -> PMul(Ev(c, e.l, U), Ev(c, e.r, U))
    [] e.t = "neg" -> PNeg(Ev(c, e.l, U))
    [] e.t = "quo" -> PScale(Ev(c, e.l, U), RInv(e.c))
    [] e.t = "pow" -> PPow(Ev(c, e.l, U), e.k)
    [] e.t = "d"   -> Dx(c, Ev(c, e.l, U), e.k)
    [] e.t = "int" -> PConst(DSum(c, PProdSeq(c, U, e.e)))

\* Frechet derivative at U in direction W
RECURSIVE DEv(_, _, _, _)
DEv(c, e, U, W) ==
  CASE e.t \in {"num", "x", "par", "cf"} -> PZero
    [] e.t = "fun" -> W[e.j]
    [] e.t = "add" -> PAdd(DEv(c, e.l, U, W), DEv(c, e.r, U, W))
    [] e.t = "sub" -> PSub(DEv(c, e.l, U, W), DEv(c, e.r, U, W))
    [] e.t = "mul" -> PAdd(PMul(DEv(c, e.l, U, W), Ev(c, e.r, U)), PMul(Ev(c, e.l, U), DEv(c, e.r, U, W)))
    [] e.t = "neg" -> PNeg(DEv(c, e.l, U, W))
    [] e.t = "quo" -> PScale(DEv(c, e.l, U, W), RInv(e.c))
    [] e.t = "pow" -> IF e.k = 0 THEN PZero
                      ELSE PScale(PMul(PPow(Ev(c, e.l, U), e.k - 1), DEv(c, e.l, U, W)), RInt(e.k))
    [] e.t = "d"   -> Dx(c, DEv(c, e.l, U, W), e.k)
    [] e.t = "int" -> LET part(j) == IF e.e[j + 1] = 0 THEN PZero
                                     ELSE PScale(PMul(W[j], PProdSeq(c, U, [e.e EXCEPT ![j + 1] = @ - 1])), RInt(e.e[j + 1]))
                          RECURSIVE go(_)
                          go(j) == IF j = 0 THEN PZero ELSE PAdd(part(j), go(j - 1))
                      IN PConst(DSum(c, go(Len(U))))
\* derivative with respect to a parameter
RECURSIVE PEv(_, _, _, _)
PEv(c, e, U, p) ==
  CASE e.t \in {"num", "x", "cf", "fun", "int"} -> PZero
    [] e.t = "par" -> IF e.p = p THEN PConst(ROne) ELSE PZero
    [] e.t = "add" -> PAdd(PEv(c, e.l, U, p), PEv(c, e.r, U, p))
    [] e.t = "sub" -> PSub(PEv(c, e.l, U, p), PEv(c, e.r, U, p))
    [] e.t = "mul" -> PAdd(PMul(PEv(c, e.l, U, p), Ev(c, e.r, U)), PMul(Ev(c, e.l, U), PEv(c, e.r, U, p)))
    [] e.t = "neg" -> PNeg(PEv(c, e.l, U, p))
    [] e.t = "quo" -> PScale(PEv(c, e.l, U, p), RInv(e.c))
    [] e.t = "pow" -> IF e.k = 0 THEN PZero
                      ELSE PScale(PMul(PPow(Ev(c, e.l, U), e.k - 1), PEv(c, e.l, U, p)), RInt(e.k))
    [] e.t = "d"   -> Dx(c, PEv(c, e.l, U, p), e.k)

RECURSIVE HasFun(_), Order(_), HasPar(_, _)
HasFun(e) == CASE e.t = "fun" -> TRUE [] e.t = "int" -> TRUE
               [] e.t \in {"add", "sub", "mul"} -> HasFun(e.l) \/ HasFun(e.r)
               [] e.t \in {"neg", "quo", "pow", "d"} -> HasFun(e.l)
               [] OTHER -> FALSE
Order(e) == CASE e.t \in {"add", "sub", "mul"} -> Max({Order(e.l), Order(e.r)})
              [] e.t \in {"neg", "quo", "pow"} -> Order(e.l)
              [] e.t = "d" -> IF HasFun(e.l) THEN e.k + Order(e.l) ELSE 0
              [] OTHER -> 0
HasPar(e, p) == CASE e.t = "par" -> e.p = p
               [] e.t \in {"add", "sub", "mul"} -> HasPar(e.l, p) \/ HasPar(e.r, p)
               [] e.t \in {"neg", "quo", "pow", "d"} -> HasPar(e.l, p)
               [] OTHER -> FALSE
\* a bound for the degrees of all products in an expression in functions of degree d
RECURSIVE DegB(_, _)
DegB(e, d) == CASE e.t \in {"num", "par"} -> 0 [] e.t = "x" -> 1 [] e.t = "cf" -> 1 [] e.t = "fun" -> d
               [] e.t \in {"add", "sub"} -> Max({DegB(e.l, d), DegB(e.r, d)})
               [] e.t = "mul" -> DegB(e.l, d) + DegB(e.r, d)
               [] e.t = "pow" -> e.k * DegB(e.l, d)
               [] e.t \in {"neg", "quo", "d"} -> DegB(e.l, d)
               [] e.t = "int" -> e.e[1] + d * FoldSeq(LAMBDA a, b : a + b, 0, Tail(e.e))
-----------------------------------------------------------------------------
(* T -> C^(1) -> ... -> C^(m) *)
UpOne(p, lam) ==   \* C^(lam) -> C^(lam + 1); lam = 0 is the basis T
  LET f(k) == IF lam = 0 THEN (IF k = 0 THEN ROne ELSE <<1, 2>>) ELSE RMk(lam, k + lam)
      S == DOMAIN p \cup {k - 2 : k \in {j \in DOMAIN p : j >= 2}}
  IN PNorm(TLCEval([k \in S |-> RSub(RMul(f(k), Coef(p, k)), RMul(f(k + 2), Coef(p, k + 2)))]))
RECURSIVE Up(_, _, _)
Up(p, l1, l2) == IF l1 >= l2 THEN p ELSE Up(UpOne(p, l1), l1 + 1, l2)
\* the m-th derivative maps T to C^(m) diagonally: T_k -> 2^(m-1) (m-1)! k C^(m)_(k-m)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
DUltra(p, m) == IF m = 0 THEN p
  ELSE PNorm(TLCEval([k \in {j - m : j \in {i \in DOMAIN p : i >= m}} |-> RMul(RInt(2 ^ (m - 1) * Fact(m - 1) * (k + m)), Coef(p, k + m))]))
=============================================================================
