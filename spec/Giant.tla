-------------------------------- MODULE Giant -------------------------------
(***************************************************************************)
(* The damped inexact Newton iteration with an iterative linear solver, for *)
(* linear problems whose preconditioner is exact (so that the inner         *)
(* iteration converges in one step and the outer control is exact rational  *)
(* arithmetic).  The environment chooses residual values and Jacobians      *)
(* (multiples of the identity, powers of two; 0: singular) per point.       *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Sequences, SequencesExt, TLC, Json
CONSTANTS Firsts, Ratios, Curbs, Jacs, Pars    \* Pars: [miter, tol, rho, mode]
VARIABLES par, ph, x, k, dx, db, lam, hk, red, a, F, njac, ret, acc, last, kind
vars == <<par, ph, x, k, dx, db, lam, hk, red, a, F, njac, ret, acc, last, kind>>
Inf == <<30001, 1>>
RMin(u, v) == IF u = Inf THEN v ELSE IF v = Inf THEN u ELSE IF RLeq(u, v) THEN u ELSE v
RMax(u, v) == IF RLeq(u, v) THEN v ELSE u
Away(u, v) == u # v
Lmin == IF par.mode = "extremely" THEN RZero ELSE <<1, 10000>>      \* (1e-8: never reached in the box)
Restr == par.mode = "extremely"
None == [x |-> RZero, ok |-> FALSE, k |-> -1, njac |-> -1]
Init == /\ par \in Pars /\ ph = "lin" /\ x \in {ROne, <<-3, 2>>} /\ k = 0 /\ dx = RZero /\ db = RZero
        /\ lam = (CASE par.mode = "mildly" -> ROne [] par.mode = "highly" -> <<1, 100>> [] OTHER -> <<1, 10000>>)
        /\ hk = RZero /\ red = FALSE /\ a = RZero /\ F = <<>> /\ njac = 0 /\ ret = None /\ acc = <<>> /\ last = RZero
        /\ kind = x
Return(xv, ok, kk) == ph' = "done" /\ ret' = [x |-> xv, ok |-> ok, k |-> kk, njac |-> njac']
Inv(h) == IF RIsZero(h) THEN Inf ELSE RInv(RMul(h, RAdd(ROne, par.rho)))
Known(p) == {i \in DOMAIN F : F[i].at = p}
Val(p) == F[CHOOSE i \in Known(p) : TRUE].f

Lin ==
  /\ ph = "lin"
  /\ UNCHANGED <<par, red, db, kind>>
  /\ IF k > par.miter THEN UNCHANGED <<x, k, dx, lam, hk, a, F, njac, acc, last>> /\ Return(x, FALSE, k)
     ELSE \E j \in Jacs, d0 \in IF k = 0 THEN Firsts ELSE {RZero} :
       /\ njac' = njac + 1 /\ a' = j
       /\ LET f == IF k = 0 THEN RNeg(RMul(IF RIsZero(j) THEN ROne ELSE j, d0)) ELSE Val(x) IN
          /\ ~IsBad(f) /\ ~(RIsZero(j) /\ RIsZero(f))
          /\ F' = Append(F, [at |-> x, f |-> f, a |-> j, jac |-> TRUE])
          /\ IF RIsZero(j) THEN Return(x, FALSE, k) /\ UNCHANGED <<x, k, dx, lam, hk, acc, last>>
             ELSE LET d == RDiv(RNeg(f), j)
                      hp == IF k = 0 THEN RZero ELSE RMul(RDiv(RAbs(d), RAbs(dx)), hk)
                      l == IF k = 0 THEN lam ELSE RMin(ROne, Inv(hp)) IN
                  /\ ~IsBad(d) /\ ~IsBad(hp) /\ (k > 0 => ~IsBad(Inv(hp))) /\ ~IsBad(l) /\ (k > 0 => Away(Inv(hp), ROne)) /\ Away(RAbs(d), par.tol)
                  /\ dx' = d /\ hk' = hp /\ lam' = l /\ last' = d
                  /\ IF RLess(RAbs(d), par.tol) THEN x' = RAdd(x, d) /\ ~IsBad(x') /\ k' = k + 1 /\ Return(x', TRUE, k + 1) /\ UNCHANGED acc
                     ELSE UNCHANGED <<x, k, ret, acc>> /\ ph' = "trial"
Clear == red' = FALSE
Accept(tr, th) == /\ x' = tr /\ k' = k + 1 /\ acc' = Append(acc, [lam |-> lam, theta |-> th]) /\ ph' = "lin" /\ Clear /\ UNCHANGED ret
Trial ==
  /\ ph = "trial"
  /\ UNCHANGED <<par, dx, a, njac, kind>>
  /\ IF RLess(lam, Lmin) THEN Return(x, FALSE, k) /\ UNCHANGED <<x, k, db, lam, hk, red, F, acc, last>>
     ELSE LET tr == RAdd(x, RMul(lam, dx)) IN
       /\ ~IsBad(tr)
       /\ \E d \in IF Known(tr) # {} THEN {RDiv(RNeg(Val(tr)), a)}
                   ELSE {RMul(dx, r) : r \in Ratios} \cup {RMul(dx, RAdd(RSub(ROne, lam), RMul(r, lam))) : r \in Curbs} :
          LET th == RDiv(RAbs(d), RAbs(dx))
              w == RAbs(RSub(d, RMul(RSub(ROne, lam), dx)))
              h == RDiv(RMul(RInt(2), w), RMul(RMul(lam, lam), RAbs(dx)))
              bound == IF Restr THEN RSub(ROne, RMul(<<1, 4>>, lam)) ELSE ROne
              ln == RMin(ROne, Inv(h))
              f == RNeg(RMul(a, d)) IN
          \* (a vanishing defect is below the resolution of the inner iteration when its initial guess is not zero)
          /\ (RIsZero(w) => lam = ROne)
          /\ ~IsBad(d) /\ ~IsBad(h) /\ ~IsBad(Inv(h)) /\ ~IsBad(th) /\ ~IsBad(w) /\ ~IsBad(h) /\ ~IsBad(f) /\ ~IsBad(bound) /\ ~IsBad(ln)
          /\ Away(th, bound) /\ Away(Inv(h), ROne) /\ Away(RAbs(d), par.tol)
          /\ F' = (IF Known(tr) # {} THEN F ELSE Append(F, [at |-> tr, f |-> f, a |-> RZero, jac |-> FALSE]))
          /\ db' = d /\ hk' = h /\ last' = d
          /\ IF RLess(bound, th)
             THEN LET l2 == RMin(Inv(h), RMul(<<1, 2>>, lam))
                      l3 == IF RLeq(lam, Lmin) THEN l2 ELSE RMax(l2, Lmin) IN
                  /\ ~IsBad(l3) /\ Away(l2, Lmin)
                  /\ lam' = l3 /\ red' = TRUE /\ UNCHANGED <<x, k, ph, ret, acc>>
             ELSE IF lam = ROne /\ ln = ROne
                  THEN /\ UNCHANGED lam
                       /\ IF RLess(RAbs(d), par.tol)
                          THEN x' = RAdd(tr, d) /\ ~IsBad(x') /\ k' = k + 1 /\ Return(x', TRUE, k + 1) /\ UNCHANGED <<acc, red>>
                          ELSE Accept(tr, th)
                  ELSE /\ Away(ln, RMul(RInt(4), lam))
                       /\ IF RLess(RMul(RInt(4), lam), ln) /\ ~red
                          THEN lam' = ln /\ UNCHANGED <<x, k, ph, ret, acc, red>>
                          ELSE UNCHANGED lam /\ Accept(tr, th)
Emit == /\ ph = "done" /\ ph' = "end"
        /\ PrintT("BEHAVIOUR " \o ToJson([alg |-> "giant", par |-> par, F |-> F, x0 |-> kind, acc |-> acc, ret |-> ret]))
        /\ UNCHANGED <<par, x, k, dx, db, lam, hk, red, a, F, njac, ret, acc, last, kind>>
Steps == Lin \/ Trial
Spec == Init /\ [][Steps]_vars
SimSpec == Init /\ [][Steps \/ Emit]_vars
-----------------------------------------------------------------------------
Finished == ph \in {"done", "end"}
SuccessMeansConverged == Finished /\ ret.ok => RLess(RAbs(last), par.tol)
Limited == njac <= par.miter + 1
Monotone == \A i \in DOMAIN acc : RLeq(acc[i].lam, ROne) /\ RLess(RZero, acc[i].lam) /\ RLess(acc[i].theta, ROne)
LamOK == ph = "trial" => RLeq(lam, ROne) /\ RLess(RZero, lam)
SingularFails == (Finished /\ RIsZero(a)) => ~ret.ok
\* ---- instances
R(u, v) == <<u, v>>
P(m, t, r, s) == [miter |-> m, tol |-> t, rho |-> r, mode |-> s]
SmallFirsts == {ROne, R(1, 256)}
SmallRatios == {R(1, 4), R(3, 2), R(1, 128), RZero}
SmallCurbs == {R(1, 8)}
SmallJacs == {ROne, R(-2, 1), RZero}
SmallPars == {P(m, R(1, 100), r, s) : m \in {0, 2, 3}, r \in {ROne, R(1, 10)}, s \in {"mildly", "highly"}}
BigFirsts == {ROne, R(-2, 1), R(1, 2), R(3, 4), R(1, 256), R(4, 1)}
BigRatios == {R(1, 4), R(-1, 4), R(1, 8), R(3, 8), R(1, 2), R(3, 4), R(7, 8), R(5, 4), R(3, 2), R(1, 64), R(-1, 128), R(1, 3), RZero, R(-3, 2), R(1, 200)}
BigCurbs == {R(1, 16), R(-1, 8), R(1, 2), R(-1, 32), R(1, 10), R(1, 9), RZero}
BigJacs == {ROne, R(-2, 1), R(1, 2), R(4, 1), R(-1, 4), R(2, 1), R(8, 1), R(1, 8), RZero}
SimPars == {P(m, t, r, s) : m \in {1, 3, 6, 20}, t \in {R(1, 100), R(1, 30)}, r \in {ROne, R(1, 10), R(1, 4)}, s \in {"mildly", "highly", "extremely"}}
=============================================================================
