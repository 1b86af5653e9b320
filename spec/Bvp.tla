--------------------------------- MODULE Bvp --------------------------------
(***************************************************************************)
(* A boundary value problem: equations (trees of Expr), boundary conditions *)
(* and integral constraints, on an interval, with parameters.  The machine  *)
(*   Lin     linearises at a point with parameters and a number of          *)
(*           coefficients per function,                                     *)
(*   Apply   applies the matrix of the linearisation to functions: boundary *)
(*           functionals first, then for every equation the coefficients of *)
(*           F'(u)w in the basis C^(m), m the order of the problem, without *)
(*           the last m,                                                    *)
(*   Res     evaluates the residual in the same representation at a point,  *)
(*   Call    evaluates the residual as a function, Norm its norm,           *)
(*   DPar    differentiates the residual with respect to a parameter,       *)
(*   Comb    forms linear combinations of linearisations at two points,     *)
(*   Adj     applies the adjoint where all coefficients are constants,      *)
(*   Solve   solves the linearised equations.                               *)
(***************************************************************************)
EXTENDS Expr, Randomization
CONSTANTS Ops, Depth
VARIABLES prob, at, hist, step
vars == <<prob, at, hist, step>>
NF == Len(prob.eqns)
Ctx(pars) == [dom |-> prob.dom, pars |-> pars, cf |-> prob.cf]
SeqMap(s, Op(_)) == TLCEval([i \in DOMAIN s |-> Op(s[i])])
VJson(a) == [i \in DOMAIN a |-> PJson(a[i])]
VBad(a) == \E i \in DOMAIN a : PIsBad(a[i])
VDeg(a) == Max({0} \cup {Deg(a[i]) : i \in DOMAIN a})
\* a boundary condition: sum of terms [f, d, h, c] = c times the d-th derivative of function f at the point h/2 of [-1, 1], minus r
RECURSIVE BcVal(_, _, _)
BcVal(c, terms, U) == IF terms = <<>> THEN RZero
  ELSE LET t == Head(terms) IN RAdd(RMul(t.c, PEval(Dx(c, U[t.f], t.d), t.h)), BcVal(c, Tail(terms), U))
Fval(c, U) == TLCEval([i \in 1..NF |-> IF prob.cts = <<>> THEN Ev(c, prob.eqns[i], U) ELSE PAdd(Ev(c, prob.eqns[i], U), Ev(c, prob.cts[i], U))])
Flin(c, U, W) == TLCEval([i \in 1..NF |-> IF prob.cts = <<>> THEN DEv(c, prob.eqns[i], U, W) ELSE PAdd(DEv(c, prob.eqns[i], U, W), DEv(c, prob.cts[i], U, W))])
Up0(a) == SeqMap(a, LAMBDA p : Up(p, 0, prob.m))
Rows(b, F) == [bc |-> b, eq |-> VJson(Up0(F))]
RowsOK(b, F) == (\A i \in DOMAIN b : ~IsBad(b[i])) /\ ~VBad(F) /\ ~VBad(Up0(F))
Log(r) == hist' = Append(hist, r) /\ step' = step + 1
BcLin(c, W) == TLCEval([i \in DOMAIN prob.bcs |-> BcVal(c, prob.bcs[i].terms, W)])
BcRes(c, U) == TLCEval([i \in DOMAIN prob.bcs |-> RSub(BcVal(c, prob.bcs[i].terms, U), prob.bcs[i].r)])

Lin(U, pars, n) ==
  LET F == Fval(Ctx(pars), U) b == BcRes(Ctx(pars), U) IN
  /\ RowsOK(b, F) /\ VDeg(F) < n - prob.m - 1
  /\ at' = [u |-> U, pars |-> pars, n |-> n]
  /\ Log([op |-> "Lin", u |-> VJson(U), pars |-> pars, n |-> n, rows |-> Rows(b, F)])
  /\ UNCHANGED prob
\* all products formed on the way to F'(u)w have to fit
Fits(W) == LET d == VDeg(at.u) IN
  \A i \in 1..NF : /\ DegB(prob.eqns[i], d) + VDeg(W) < at.n - prob.m
                   /\ prob.cts # <<>> => DegB(prob.cts[i], d) + VDeg(W) < at.n - prob.m
Apply(W) ==
  LET c == Ctx(at.pars) F == Flin(c, at.u, W) b == BcLin(c, W) IN
  /\ RowsOK(b, F) /\ Fits(W)
  /\ Log([op |-> "Apply", w |-> VJson(W), rows |-> Rows(b, F)]) /\ UNCHANGED <<prob, at>>
Solve(W) ==
  LET c == Ctx(at.pars) F == Flin(c, at.u, W) b == BcLin(c, W) IN
  /\ RowsOK(b, F) /\ Fits(W)
  /\ Log([op |-> "Solve", w |-> VJson(W), rows |-> Rows(b, F)]) /\ UNCHANGED <<prob, at>>
Res(U) ==
  LET F == Fval(Ctx(at.pars), U) b == BcRes(Ctx(at.pars), U) IN
  /\ RowsOK(b, F) /\ VDeg(F) < at.n - prob.m - 1
  /\ Log([op |-> "Res", u |-> VJson(U), rows |-> Rows(b, F)]) /\ UNCHANGED <<prob, at>>
Call(U) ==
  LET F == Fval(Ctx(at.pars), U) IN
  /\ ~VBad(F) /\ VDeg(F) < at.n
  /\ Log([op |-> "Call", u |-> VJson(U), val |-> VJson(F)]) /\ UNCHANGED <<prob, at>>
Norm(U) ==
  LET F == Fval(Ctx(at.pars), U) b == BcRes(Ctx(at.pars), U) H == HLen(Ctx(at.pars))
      f2 == TLCEval(RSumSet(DOMAIN F, LAMBDA i : RMul(H, PInner(F[i], F[i])))) b2 == TLCEval(RSumSet(DOMAIN b, LAMBDA i : RMul(b[i], b[i]))) IN
  /\ ~VBad(F) /\ VDeg(F) < at.n /\ ~IsBad(f2) /\ ~IsBad(b2)
  /\ Log([op |-> "Norm", u |-> VJson(U), f2 |-> f2, b2 |-> b2]) /\ UNCHANGED <<prob, at>>
DPar(U, p) ==
  LET F == TLCEval([i \in 1..NF |-> PEv(Ctx(at.pars), prob.eqns[i], U, p)]) IN
  /\ p \in DOMAIN prob.cpars /\ (\E i \in 1..NF : HasPar(prob.eqns[i], p)) /\ ~VBad(F)
  /\ Log([op |-> "DPar", u |-> VJson(U), p |-> p, val |-> VJson(F)]) /\ UNCHANGED <<prob, at>>
\* linear combinations of linearisations at two points act as combinations
Lc(c1, F, c2, G) == TLCEval([i \in DOMAIN F |-> PAdd(PScale(F[i], c1), PScale(G[i], c2))])
Comb(U2, pars, c1, c2, W) ==
  LET F == Lc(c1, Flin(Ctx(at.pars), at.u, W), c2, Flin(Ctx(pars), U2, W)) IN
  /\ ~VBad(F) /\ ~VBad(Up0(F)) /\ Fits(W)
  /\ \A i \in 1..NF : DegB(prob.eqns[i], VDeg(U2)) + VDeg(W) < at.n - prob.m
  /\ Log([op |-> "Comb", u |-> VJson(U2), pars |-> pars, c1 |-> c1, c2 |-> c2, w |-> VJson(W), rows |-> Rows(<<>>, F)]) /\ UNCHANGED <<prob, at>>
\* with constant coefficients the adjoint (rows and columns exchanged, d/dx -> -d/dx) is the reflected transposed operator
NoX(e) == LET RECURSIVE go(_)
              go(g) == CASE g.t \in {"x", "cf", "int"} -> FALSE
                         [] g.t \in {"add", "sub", "mul"} -> go(g.l) /\ go(g.r)
                         [] g.t \in {"neg", "quo", "pow", "d"} -> go(g.l)
                         [] OTHER -> TRUE
          IN go(e)
Adj(W) ==
  LET c == Ctx(at.pars) unit(i, p) == [j \in 1..NF |-> IF j = i THEN p ELSE PZero]
      part(i, j) == PFlip(DEv(c, prob.eqns[j], at.u, unit(i, PFlip(W[j]))))
      F == TLCEval([i \in 1..NF |-> IF NF = 1 THEN part(i, 1) ELSE PAdd(part(i, 1), part(i, 2))]) IN
  /\ prob.cts = <<>> /\ VDeg(at.u) = 0 /\ (\A i \in 1..NF : NoX(prob.eqns[i])) /\ ~VBad(F) /\ ~VBad(Up0(F)) /\ Fits(W)
  /\ Log([op |-> "Adj", w |-> VJson(W), rows |-> Rows(<<>>, F)]) /\ UNCHANGED <<prob, at>>
-----------------------------------------------------------------------------
(* simulation: problems are grown from lists of random numbers *)
Pick(S) == RandomElement(S)
Nums == <<<<1, 1>>, <<2, 1>>, <<-1, 1>>, <<3, 1>>, <<1, 2>>, <<-3, 2>>, <<-2, 1>>, <<1, 4>>>>
Par(k) == <<"a", "b">>[(k % 2) + 1]
Leaf(r, nf) ==
  LET k == r % 10 q == r \div 10 IN
  IF k = 0 THEN [t |-> "num", c |-> Nums[(q % 8) + 1]]
  ELSE IF k = 1 THEN [t |-> "x"]
  ELSE IF k = 2 THEN [t |-> "par", p |-> Par(q)]
  ELSE IF k = 3 /\ q % 3 = 0 THEN [t |-> "cf"]
  ELSE IF k <= 6 THEN [t |-> "fun", j |-> (q % nf) + 1]
  ELSE [t |-> "d", l |-> [t |-> "fun", j |-> (q % nf) + 1], k |-> IF k = 9 THEN 2 ELSE 1]
Int0(r, nf) == LET q == r \div 100 IN
  [t |-> "int", e |-> IF nf = 1 THEN <<<<0, 1>>, <<1, 1>>, <<0, 2>>, <<2, 1>>>>[(q % 4) + 1] ELSE <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<0, 1, 1>>, <<0, 0, 2>>, <<1, 0, 1>>>>[(q % 6) + 1]]
\* an expression that is a number whatever the functions are (u - u, an integral) has no derivative in the language
Varies(e, nf) == HasFun(e) /\ LET v == Ev([dom |-> <<RInt(-1), ROne>>, pars |-> ("a" :> RInt(2)) @@ ("b" :> RInt(3)), cf |-> PMono(1, ROne)], e,
                                         [j \in 1..nf |-> PAdd(PMono(j + 1, ROne), PMono(j, <<1, 2>>))]) IN PIsBad(v) \/ Deg(v) > 0
RECURSIVE Grow(_, _, _, _, _)
Grow(rs, i, d, nf, ints) ==
  LET r == rs[i] k == r % 12 q == r \div 12 sub(j) == Grow(rs, 2 * i + j, d - 1, nf, ints) IN
  IF d = 0 THEN (IF ints /\ q % 5 = 0 THEN Int0(r, nf) ELSE Leaf(r, nf))
  ELSE CASE k <= 3 -> [t |-> "mul", l |-> sub(0), r |-> sub(1)]
         [] k <= 5 -> [t |-> "add", l |-> sub(0), r |-> sub(1)]
         [] k = 6 -> [t |-> "sub", l |-> sub(0), r |-> sub(1)]
         [] k = 7 -> [t |-> "neg", l |-> sub(0)]
         [] k = 8 -> [t |-> "pow", l |-> sub(0), k |-> 2 + (q % 2)]
         [] k = 9 -> IF Varies(sub(0), nf) THEN [t |-> "d", l |-> sub(0), k |-> 1] ELSE sub(0)
         [] k = 10 -> [t |-> "quo", l |-> sub(0), c |-> <<<<2, 1>>, <<4, 1>>, <<-1, 1>>>>[(q % 3) + 1]]
         [] OTHER -> sub(0)
Main(m, j) == IF m = 0 THEN [t |-> "fun", j |-> j] ELSE [t |-> "d", l |-> [t |-> "fun", j |-> j], k |-> m]
Grown(rs, d, nf, ints, lead) == [t |-> "add", l |-> lead, r |-> Grow(rs, 1, d, nf, ints)]
\* the leading term cannot be cancelled by others: its coefficient is odd one out
Lead(m, j, r) == IF r % 3 = 0 THEN [t |-> "mul", l |-> [t |-> "mul", l |-> [t |-> "num", c |-> <<5, 1>>], r |-> [t |-> "par", p |-> "a"]], r |-> Main(m, j)]
                 ELSE [t |-> "mul", l |-> [t |-> "num", c |-> <<5, 2>>], r |-> Main(m, j)]
Doms == {<<RInt(-1), ROne>>, <<RZero, ROne>>, <<RZero, RInt(2)>>, <<RInt(-2), RInt(2)>>, <<RInt(1), RInt(3)>>, <<RInt(-1), RInt(3)>>}
CoefPool == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 1>>}
RandSeries(z, top) == LET D == TLCEval(RandomSubset(Pick(1..2), 0..top)) IN PNorm(TLCEval([i \in D |-> Pick(CoefPool)]))
RandVec(z, top) == TLCEval([j \in 1..NF |-> RandSeries(z + j, top)])
ParPool == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<-2, 1>>, <<0, 1>>}
RandBc(z, nf) == [terms |-> TLCEval([i \in 1..Pick({1, 1, 1, 2}) |-> [f |-> Pick(1..nf), d |-> Pick({0, 0, 1, 1, 2}), h |-> Pick({-2, -2, 2, 2, 0, 1, -1}), c |-> Pick({ROne, ROne, RInt(2), <<-1, 2>>})]]),
                  r |-> Pick({RZero, ROne, RInt(-2), <<3, 2>>}), text |-> Pick(1..3)]
New == /\ step = 0 /\ step' = 1 /\ at' = at
       /\ \E nf \in {Pick({1, 1, 1, 2})} : \E dom \in {Pick(Doms)} : \E rs \in {[i \in 1..40 |-> Pick(0..5999)]} : \E rt \in {[i \in 1..40 |-> Pick(0..5999)]} :
          \E d \in {IF nf = 1 THEN Pick({1, 2, 3}) ELSE Pick({1, 2})} : \E ints \in {Pick(1..4) = 1} : \E m0 \in {Pick({0, 1, 1, 2, 2, 2, 3, 4})} :
          LET g1 == TLCEval(Grow(rs, 1, d, nf, ints)) g2 == TLCEval(Grow(rt, 1, d, nf, ints))
              m == Max({m0, Order(g1)} \cup (IF nf = 2 THEN {Order(g2)} ELSE {}))
              e1 == [t |-> "add", l |-> Lead(m, 1, rs[39]), r |-> g1]
              m2 == rt[40] % (m + 1)
              e2 == [t |-> "add", l |-> Lead(m2, 2, rt[39]), r |-> g2] IN
          /\ prob' = [dom |-> dom, eqns |-> IF nf = 1 THEN <<e1>> ELSE IF rs[40] % 2 = 0 THEN <<e1, e2>> ELSE <<e2, e1>>, m |-> m,
                      cf |-> PAdd(PMono(1, Pick(CoefPool)), PConst(Pick(CoefPool))),
                      cts |-> IF Pick(1..5) = 1 THEN [i \in 1..nf |-> IF i = 1 THEN [t |-> "sub", l |-> Int0(rs[38], nf), r |-> [t |-> "par", p |-> "b"]] ELSE [t |-> "num", c |-> RZero]] ELSE <<>>,
                      bcs |-> TLCEval([i \in 1..(IF Pick(1..8) = 1 THEN 0 ELSE IF m = 0 THEN 1 ELSE m * nf) |-> RandBc(i, nf)]),
                      cpars |-> IF Pick(1..4) = 1 THEN ("a" :> 1) ELSE [z \in {} |-> 0]]
          /\ hist' = <<[op |-> "New", dom |-> dom, eqns |-> prob'.eqns, m |-> m, cf |-> PJson(prob'.cf), cts |-> prob'.cts, bcs |-> prob'.bcs, cpar |-> DOMAIN prob'.cpars = {"a"}]>>
RandPars(z) == ("a" :> Pick(ParPool)) @@ ("b" :> Pick(ParPool))
Sizes == {12, 16, 17, 24, 33}
Top == IF prob.m + Len(prob.eqns) > 3 THEN 2 ELSE 3
RandStep(op) ==
  IF at.n = 0 \/ op = "Lin" THEN \E U \in {RandVec(step, Top)} : \E n \in {Pick(Sizes)} : \E p \in {RandPars(step)} : Lin(U, TLCEval(p), n)
  ELSE CASE op = "Apply" -> \E W \in {RandVec(step, Pick({1, 2, 3, 5, 9}))} : Apply(W)
         [] op = "Solve" -> \E W \in {RandVec(step, Pick({1, 2, 3}))} : Solve(W)
         [] op = "Res" -> \E U \in {RandVec(step, Top)} : Res(U)
         [] op = "Call" -> \E U \in {RandVec(step, Top)} : Call(U)
         [] op = "Norm" -> \E U \in {RandVec(step, 1)} : Norm(U)
         [] op = "Comb" -> \E U \in {RandVec(step, Top)} : \E p \in {RandPars(step)} : \E W \in {RandVec(step, Pick({1, 2, 4}))} : \E c1, c2 \in {Pick({ROne, RInt(-1), RInt(2), <<1, 2>>, <<-3, 2>>})} : Comb(U, TLCEval(p), c1, c2, W)
         [] op = "LinC" -> \E U \in {RandVec(step, 0)} : \E n \in {Pick(Sizes)} : \E p \in {RandPars(step)} : Lin(U, TLCEval(p), n)
         [] op = "Adj" -> \E W \in {RandVec(step, Pick({1, 2, 4}))} : Adj(W)
         [] op = "DPar" -> \E U \in {RandVec(step, Top)} : DPar(U, "a")
Emit == /\ step > 0 /\ (step = Depth + 1) /\ step' = Depth + 2
        /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<prob, at, hist>>
SimInit == prob = <<>> /\ at = [n |-> 0] /\ hist = <<>> /\ step = 0
SimNext == New \/ (\E op \in Ops : step > 0 /\ step <= Depth /\ RandStep(op)) \/ Emit
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
