-------------------------------- MODULE QnErr -------------------------------
(***************************************************************************)
(* The error oriented quasi-Newton iteration on vectors of two rational     *)
(* components with a diagonal inner product: one Jacobian, rank one         *)
(* updates through the recursion over all earlier corrections, contraction  *)
(* control, callbacks.  The environment answers every linear solve.         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Sequences, SequencesExt, TLC, Json
CONSTANTS Pool,      \* vectors, relative to 1/2^k
          Pars,      \* [miter, tol, thmax, stop, w, called]
          Fails
VARIABLES par, ph, x, k, d, resp, cbs, ret, itr
vars == <<par, ph, x, k, d, resp, cbs, ret, itr>>

VAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
VScl(c, a) == <<RMul(c, a[1]), RMul(c, a[2])>>
VIn(a, b) == RAdd(RMul(a[1], b[1]), RMul(par.w, RMul(a[2], b[2])))
VBad(a) == IsBad(a[1]) \/ IsBad(a[2])
VZero == <<RZero, RZero>>
Stop(n) == par.stop # 0 /\ n >= par.stop
Half(n) == RPow(<<1, 2>>, n)

None == [x |-> VZero, ok |-> FALSE, k |-> -1, neval |-> -1]
Init == /\ par \in Pars
        /\ ph = "first" /\ x \in {<<ROne, RZero>>, <<<<-1, 2>>, <<2, 1>>>>} /\ k = 0 /\ d = <<>> /\ resp = <<[x0 |-> x]>>
        /\ cbs = <<>> /\ ret = None /\ itr \in IF par.called THEN {3} ELSE {0}
NJ == IF par.called THEN 0 ELSE 1
Return(xv, ok, kk) == ph' = "done" /\ ret' = [x |-> xv, ok |-> ok, k |-> kk, neval |-> NJ]
Sq(a) == VIn(a, a)
Tol2 == RMul(par.tol, par.tol)
Th2 == RMul(par.thmax, par.thmax)

\* the first correction: given by the caller, or solved for
First ==
  /\ ph = "first"
  /\ \E v \in Pool, ok \in (IF Fails /\ ~par.called THEN BOOLEAN ELSE {TRUE}) :
     /\ ~IsBad(Sq(v)) /\ Sq(v) # RZero /\ Sq(v) # Tol2
     /\ UNCHANGED <<par, x, k, itr>>
     /\ resp' = Append(resp, [of |-> x, v |-> v, ok |-> ok])
     /\ IF ~ok THEN UNCHANGED <<d, cbs>> /\ Return(x, FALSE, 0)
        ELSE /\ d' = <<v>>
             /\ IF par.called THEN ph' = "step" /\ UNCHANGED <<cbs, ret>>
                ELSE /\ cbs' = <<[k |-> 0, n2 |-> Sq(v)]>>
                     /\ IF Stop(1) THEN Return(x, FALSE, 0) ELSE ph' = "take" /\ UNCHANGED ret

Take ==   \* apply the current correction
  /\ ph = "take"
  /\ UNCHANGED <<par, d, resp, cbs, itr>>
  /\ IF k > par.miter THEN Return(x, FALSE, k) /\ UNCHANGED <<x, k>>
     ELSE /\ x' = VAdd(x, d[k + 1]) /\ ~VBad(x')
          /\ Sq(d[k + 1]) # Tol2
          /\ IF RLess(Sq(d[k + 1]), Tol2) THEN k' = k + 1 /\ Return(x', TRUE, k + 1)
             ELSE UNCHANGED <<k, ret>> /\ ph' = "step"

RECURSIVE Back(_, _)
Back(v, i) == IF i > k THEN v
              ELSE Back(VAdd(v, VScl(RDiv(VIn(v, d[i]), Sq(d[i])), d[i + 1])), i + 1)
Step ==
  /\ ph = "step"
  /\ \E v0 \in {VScl(Half(k + 1), p) : p \in Pool}, ok \in (IF Fails /\ k > 0 THEN BOOLEAN ELSE {TRUE}) :
     /\ UNCHANGED <<par, x, itr>>
     /\ resp' = Append(resp, [of |-> x, v |-> v0, ok |-> ok])
     /\ IF ~ok THEN UNCHANGED <<d, k, cbs>> /\ Return(x, FALSE, k)
        ELSE LET v == Back(v0, 1)
                 al == RDiv(VIn(v, d[k + 1]), Sq(d[k + 1]))
                 th2 == RDiv(Sq(v), Sq(d[k + 1]))
                 nd == VScl(RInv(RSub(ROne, al)), v)
             IN /\ ~VBad(v) /\ ~IsBad(al) /\ ~IsBad(th2) /\ ~RIsZero(RSub(ROne, al)) /\ ~VBad(nd) /\ ~IsBad(Sq(nd)) /\ ~RIsZero(Sq(nd))
                /\ th2 # Th2
                /\ d' = Append(d, nd) /\ k' = k + 1
                /\ cbs' = Append(cbs, [k |-> itr + k + 1, n2 |-> Sq(d[k + 1])])
                /\ IF RLess(Th2, th2) \/ Stop(Len(cbs')) THEN Return(x, FALSE, k + 1)
                   ELSE ph' = "take" /\ UNCHANGED ret

Emit == /\ ph = "done" /\ ph' = "end"
        /\ PrintT("BEHAVIOUR " \o ToJson([alg |-> "qnerr", par |-> par, resp |-> resp, cbs |-> cbs, itr |-> itr, ret |-> ret]))
        /\ UNCHANGED <<par, x, k, d, resp, cbs, ret, itr>>
Steps == First \/ Take \/ Step
Spec == Init /\ [][Steps]_vars
SimSpec == Init /\ [][Steps \/ Emit]_vars
-----------------------------------------------------------------------------
Finished == ph \in {"done", "end"}
\* success means that the last correction, already applied, was below the tolerance
SuccessMeansConverged == Finished /\ ret.ok => RLess(Sq(d[Len(d)]), Tol2) /\ ret.k = Len(d)
\* the contraction control: with the default bound no accepted correction is longer than the one before
Contracts == RLeq(par.thmax, <<1, 2>>) => \A i \in 2..(IF ret.ok THEN Len(d) ELSE Len(d) - 1) : RLeq(Sq(d[i]), Sq(d[i - 1]))
Bounded == Finished => Len(resp) <= par.miter + 4 /\ ret.k <= par.miter + 1
\* the iterate is the initial guess plus the corrections applied
RECURSIVE SumTo(_, _)
SumTo(i, a) == IF i = 0 THEN a ELSE SumTo(i - 1, VAdd(a, d[i]))
Applied == Finished => IF par.called THEN \E n \in 1..Len(d) : VAdd(ret.x, d[1]) = SumTo(n, resp[1].x0)
                       ELSE \E n \in 0..Len(d) : ret.x = SumTo(n, resp[1].x0)
CallbacksCount == \A i, j \in DOMAIN cbs : i < j => cbs[i].k < cbs[j].k
\* ---- instances
R(a, b) == <<a, b>>
SmallPool == {<<ROne, RZero>>, <<RZero, R(1, 2)>>, <<R(-1, 4), R(1, 4)>>, <<R(1, 256), RZero>>}
BigPool == {<<ROne, RZero>>, <<RZero, R(1, 2)>>, <<R(1, 2), R(1, 2)>>, <<R(-1, 4), R(1, 4)>>, <<R(1, 256), RZero>>, <<R(1, 8), R(-1, 2)>>,
            <<R(-1, 2), RZero>>, <<R(1, 64), R(1, 128)>>, <<R(1, 4), R(-1, 8)>>, <<RZero, R(-1, 32)>>, <<R(1, 16), RZero>>, <<R(3, 4), RZero>>, <<R(-1, 8), R(1, 8)>>}
Q(m, t, th, s, w, c) == [miter |-> m, tol |-> t, thmax |-> th, stop |-> s, w |-> w, called |-> c]
SmallPars == {Q(m, R(1, 50), R(1, 2), s, w, c) : m \in {1, 3}, s \in {0, 1, 2}, w \in {ROne, R(2, 1)}, c \in BOOLEAN}
BigPars == {Q(m, t, th, s, w, c) : m \in {1, 2, 4, 8}, t \in {R(1, 50), R(1, 20)}, th \in {R(1, 2), R(3, 4), R(1, 5), R(5, 3)}, s \in {0, 1, 2, 4}, w \in {ROne, R(2, 1)}, c \in BOOLEAN}
SimPars == {p \in BigPars : p.stop = 0 \/ (p.miter = 8 /\ p.thmax = R(1, 2) /\ p.w = ROne)}
=============================================================================
