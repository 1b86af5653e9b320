------------------------------ MODULE ExprLaws ------------------------------
(* Laws of the meaning of expressions, checked by TLC over all small trees. *)
EXTENDS Expr
CONSTANTS Depth
VARIABLES e, u, w, dom, go
vars == <<e, u, w, dom, go>>
Leaves == {[t |-> "num", c |-> <<1, 2>>], [t |-> "x"], [t |-> "par", p |-> "a"], [t |-> "fun", j |-> 1], [t |-> "fun", j |-> 2],
           [t |-> "d", l |-> [t |-> "fun", j |-> 1], k |-> 1], [t |-> "int", e |-> <<1, 1, 1>>]}
RECURSIVE Trees(_)
Trees(n) == IF n = 0 THEN Leaves
  ELSE LET S == Trees(n - 1) IN
       S \cup {[t |-> o, l |-> a, r |-> b] : o \in {"add", "mul"}, a \in S, b \in Leaves}
         \cup {[t |-> "d", l |-> a, k |-> 1] : a \in S} \cup {[t |-> "pow", l |-> a, k |-> 2] : a \in S} \cup {[t |-> "sub", l |-> [t |-> "x"], r |-> a] : a \in S}
Sers == {PZero, PMono(1, ROne), PAdd(PMono(2, <<1, 2>>), PConst(RInt(-1)))}
Init == /\ e = [t |-> "x"] /\ go = FALSE /\ u \in Sers \X Sers /\ w \in {<<PMono(1, ROne), PConst(RInt(2))>>, <<PConst(ROne), PMono(2, ROne)>>}
        /\ dom \in {<<RInt(-1), ROne>>, <<RZero, RInt(4)>>}
\* (expressions are chosen in a step: TLC checks initial states in one thread)
Next == ~go /\ go' = TRUE /\ e' \in Trees(Depth) /\ UNCHANGED <<u, w, dom>>
Spec == Init /\ [][Next]_vars
C == [dom |-> dom, pars |-> ("a" :> RInt(3)), cf |-> PMono(1, RInt(2))]
Ca(v) == [C EXCEPT !.pars = ("a" :> v)]
S2(a, b, op(_, _)) == <<op(a[1], b[1]), op(a[2], b[2])>>
Sc(a, r) == <<PScale(a[1], r), PScale(a[2], r)>>
Ok(p) == ~PIsBad(p)
\* central differences with steps 1 and 2 determine the derivative of an expression of degree at most four
F(s) == Ev(C, e, S2(u, Sc(w, RInt(s)), PAdd))
Frechet == LET d == PSub(PScale(PSub(F(1), F(-1)), <<2, 3>>), PScale(PSub(F(2), F(-2)), <<1, 12>>)) D == DEv(C, e, u, w) IN
           Ok(d) /\ Ok(D) => d = D
Lin == LET a == DEv(C, e, u, w) b == DEv(C, e, u, Sc(w, RInt(-3))) IN Ok(a) /\ Ok(b) => b = PScale(a, RInt(-3))
Par(v) == Ev(Ca(v), e, u)
ParD == LET d == PSub(PScale(PSub(Par(RInt(4)), Par(RInt(2))), <<2, 3>>), PScale(PSub(Par(RInt(5)), Par(ROne)), <<1, 12>>))
            D == IF e.t = "int" THEN PZero ELSE PEv(C, e, u, "a") IN Ok(d) /\ Ok(D) => d = D
\* ultraspherical bases
Bases == \A m \in 0..4 : LET p == F(1) a == Up(PDiffN(p, m), 0, m) b == DUltra(p, m) IN Ok(a) /\ Ok(b) => a = b
NoFun == ~HasFun(e) => DEv(C, e, u, w) = PZero
=============================================================================
