-------------------------------- MODULE Nleq --------------------------------
(***************************************************************************)
(* The error oriented damped Newton iteration, its quasi-Newton phase, and  *)
(* the plain Newton iteration, against an arbitrary (scripted) problem.     *)
(* Iterates and corrections are exact rationals (vectors along one          *)
(* direction).  The environment answers every linear solve - Jacobian at    *)
(* `at', residual of `of' - with a correction or a failure; callbacks may   *)
(* ask to stop.  A behaviour is one complete solve; it is emitted with all  *)
(* answers of the environment, so that the harness can play it against the  *)
(* code and compare every point at which the code linearises or evaluates,  *)
(* every callback and the result.                                          *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Sequences, SequencesExt, TLC, Json

CONSTANTS Alg,        \* "nleq" or "standard"
          Ratios,     \* pool of answers relative to the previous correction
          Curbs,      \* pool of answers relative to the predicted simplified correction
          Firsts,     \* pool of first corrections
          Pars,       \* set of parameter records
          Fails       \* may linear solves fail?

VARIABLES par, ph, k, x, dx, dxbar, lam, red, xl, fx, ndx, neval, ncb, resp, qn, qs, qk, cbs, acc, ret, last
vars == <<par, ph, k, x, dx, dxbar, lam, red, xl, fx, ndx, neval, ncb, resp, qn, qs, qk, cbs, acc, ret, last>>
Inf == <<30001, 1>>      \* larger than any rational of the box
RMin(a, b) == IF a = Inf THEN b ELSE IF b = Inf THEN a ELSE IF RLeq(a, b) THEN a ELSE b
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
Lt(a, b) == RLess(a, b)

None == [x |-> RZero, ok |-> FALSE, k |-> -1, neval |-> -1]
Init == /\ par \in Pars
        /\ ph = "top" /\ k = 0 /\ x \in {ROne, <<-3, 2>>} /\ dx = RZero /\ dxbar = RZero
        /\ lam = par.lam /\ red = FALSE /\ xl = RZero /\ fx = RZero /\ ndx = RZero /\ neval = 0 /\ ncb = 0
        /\ resp = <<[x0 |-> x]>> /\ qn = FALSE /\ qs = <<>> /\ qk = 0 /\ cbs = <<>> /\ acc = <<>> /\ ret = None
        /\ last = [d |-> RZero, at |-> RZero]

Return(xv, ok) == /\ ph' = "done" /\ ret' = [x |-> xv, ok |-> ok, k |-> k', neval |-> neval']
\* the answer of the environment to the Jacobian at a, residual of p: one and the same whenever asked
Seen(a, p) == {i \in DOMAIN resp : "at" \in DOMAIN resp[i] /\ resp[i].at = a /\ resp[i].of = p}
Answer(a, p, d, ok) ==
  IF Seen(a, p) = {} THEN resp' = Append(resp, [at |-> a, of |-> p, d |-> d, ok |-> ok])
  ELSE /\ LET i == CHOOSE i \in Seen(a, p) : TRUE IN resp[i].d = d /\ resp[i].ok = ok
       /\ UNCHANGED resp
\* ratio of the answer to the correction before; "fail" is a failing solve
Answers(base) == LET ds == IF RIsZero(base) THEN Firsts ELSE {RMul(base, r) : r \in Ratios}
                 IN {<<d, TRUE>> : d \in ds} \cup (IF Fails THEN {<<ROne, FALSE>>} ELSE {})
Stop(n) == par.stop # 0 /\ n >= par.stop
\* comparisons with a tolerance or a threshold are only exact away from ties
Away(a, b) == a # b

\* ---------------------------------------------------------------- plain Newton
Std ==
  /\ Alg = "standard" /\ ph = "top"
  /\ IF k >= par.miter
     THEN /\ UNCHANGED <<par, k, x, dx, dxbar, lam, red, xl, fx, ndx, neval, ncb, resp, qn, qs, qk, cbs, acc, last>>
          /\ Return(x, FALSE)
     ELSE \E ans \in Answers(dx) : LET d == ans[1] ok == ans[2] IN
          /\ ~IsBad(d) /\ Away(RAbs(d), par.tol)
          /\ xl' = x /\ fx' = x /\ neval' = neval + 1
          /\ Answer(x, x, d, ok)
          /\ UNCHANGED <<par, dxbar, lam, red, qn, qs, qk>>
          /\ IF ~ok THEN /\ UNCHANGED <<k, x, dx, ndx, ncb, cbs, acc, last>> /\ Return(x, FALSE)
             ELSE /\ x' = RAdd(x, d) /\ ~IsBad(x') /\ dx' = d /\ ndx' = RAbs(d) /\ k' = k + 1
                  /\ acc' = Append(acc, [lam |-> ROne, theta |-> RZero])
                  /\ last' = [d |-> d, at |-> x']
                  /\ IF Lt(RAbs(d), par.tol) THEN /\ UNCHANGED <<ncb, cbs>> /\ Return(x', TRUE)
                     ELSE /\ ncb' = ncb + 1 /\ cbs' = Append(cbs, [k |-> k', n |-> RAbs(d)])
                          /\ IF Stop(ncb') THEN Return(x', FALSE) ELSE ph' = "top" /\ UNCHANGED ret

\* ---------------------------------------------------------------- damped Newton
Top ==
  /\ Alg = "nleq" /\ ph = "top"
  /\ UNCHANGED <<par, k, x, dx, dxbar, lam, red, ndx, ncb, resp, qn, qs, qk, cbs, acc, last>>
  /\ IF k >= par.miter THEN UNCHANGED <<xl, fx, neval>> /\ Return(x, FALSE)
     ELSE /\ xl' = x /\ neval' = neval + 1 /\ fx' = IF k = 0 THEN x ELSE fx
          /\ ph' = "solve" /\ UNCHANGED ret

Solve ==
  /\ ph = "solve"
  /\ \E ans \in Answers(IF k = 0 THEN RZero ELSE dxbar) : LET d == ans[1] ok == ans[2] IN
     /\ ~IsBad(d) /\ Away(RAbs(d), par.tol)
     /\ Answer(xl, fx, d, ok)
     /\ UNCHANGED <<par, dxbar, xl, fx, neval, ncb, qn, qs, qk, cbs, acc>>
     /\ IF ~ok THEN UNCHANGED <<k, x, dx, lam, red, ndx, last>> /\ Return(x, FALSE)
        ELSE /\ dx' = d /\ ndx' = RAbs(d) /\ red' = FALSE
             /\ last' = [d |-> d, at |-> RAdd(x, d)]
             /\ IF Lt(RAbs(d), par.tol)
                THEN /\ x' = RAdd(x, d) /\ ~IsBad(x') /\ k' = k + 1 /\ UNCHANGED lam /\ Return(x', TRUE)
                ELSE /\ UNCHANGED <<k, x, ret>> /\ ph' = "trial"
                     /\ IF k = 0 THEN UNCHANGED lam
                        ELSE LET s == RAbs(RSub(dxbar, d))
                                 mue == IF RIsZero(s) THEN Inf
                                        ELSE RMul(RDiv(RMul(RAbs(dx), RAbs(dxbar)), RMul(s, RAbs(d))), lam)
                             IN /\ ~IsBad(s) /\ ~IsBad(mue) /\ Away(mue, ROne) /\ Away(mue, par.lmin)
                                /\ lam' = RMin(ROne, mue)

Accept(tr, db, th, succ) ==   \* leave the damping loop
  /\ k' = k + 1
  /\ ncb' = ncb + 1 /\ cbs' = Append(cbs, [k |-> k + 1, n |-> RMul(lam, ndx)]) /\ ~IsBad(RMul(lam, ndx))
  /\ LET xa == IF succ THEN RAdd(tr, db) ELSE tr
         run == qn' /\ par.useqn IN
     /\ ~IsBad(xa)
     /\ IF Stop(ncb') THEN /\ x' = (IF succ THEN xa ELSE x) /\ UNCHANGED <<acc, qs, qk>> /\ Return(x', FALSE)
        ELSE /\ acc' = Append(acc, [lam |-> lam, theta |-> th]) /\ x' = xa
             /\ IF succ THEN UNCHANGED <<qs, qk>> /\ Return(xa, TRUE)
                ELSE /\ UNCHANGED ret
                     /\ IF run THEN /\ ph' = "qn" /\ qs' = <<dx>> /\ qk' = 0 ELSE ph' = "top" /\ UNCHANGED <<qs, qk>>

Trial ==
  /\ ph = "trial"
  /\ UNCHANGED <<par, dx, xl, ndx, neval>>
  /\ IF RLeq(lam, par.lmin)
     THEN UNCHANGED <<k, x, dxbar, lam, red, fx, ncb, resp, qn, qs, qk, cbs, acc, last>> /\ Return(x, FALSE)
     ELSE LET tr == RAdd(x, RMul(lam, dx)) IN
       /\ ~IsBad(tr)
       /\ fx' = tr
       /\ \E ans \in Answers(dx) \cup {<<RMul(dx, RAdd(RSub(ROne, lam), RMul(r, lam))), TRUE>> : r \in Curbs} : LET db == ans[1] ok == ans[2] IN
          /\ ~IsBad(db) /\ Away(RAbs(db), par.tol)
          /\ Answer(xl, tr, db, ok)
          /\ IF ~ok THEN UNCHANGED <<k, x, dxbar, lam, red, ncb, qn, qs, qk, cbs, acc, last>> /\ Return(x, FALSE)
             ELSE
             LET th == RDiv(RAbs(db), ndx)
                 w == RAbs(RSub(db, RMul(RSub(ROne, lam), dx)))
                 mue == IF RIsZero(w) THEN Inf ELSE RDiv(RMul(RMul(<<1, 2>>, ndx), RMul(lam, lam)), w)
                 bound == IF par.restr THEN RSub(ROne, RMul(lam, <<1, 4>>)) ELSE ROne
                 lnew == RMin(ROne, mue)
             IN
             /\ ~IsBad(th) /\ ~IsBad(w) /\ ~IsBad(mue) /\ ~IsBad(bound)
             /\ Away(th, bound) /\ Away(mue, ROne) /\ Away(mue, par.lmin)
             /\ dxbar' = db
             /\ last' = [d |-> db, at |-> RAdd(tr, db)]
             /\ IF Lt(bound, th)
                THEN /\ lam' = RMax(RMin(mue, RMul(<<1, 2>>, lam)), par.lmin) /\ ~IsBad(lam')
                     /\ red' = TRUE
                     /\ UNCHANGED <<k, x, ncb, qn, qs, qk, cbs, acc, ret, ph>>
                ELSE IF lam = ROne /\ lnew = ROne
                     THEN /\ UNCHANGED <<lam, red>>
                          /\ IF Lt(RAbs(db), par.tol)
                             THEN UNCHANGED qn /\ Accept(tr, db, th, TRUE)
                             ELSE Away(th, par.thmax) /\ qn' = Lt(th, par.thmax) /\ Accept(tr, db, th, FALSE)
                     ELSE /\ Away(lnew, RMul(RInt(4), lam))
                          /\ IF Lt(RMul(RInt(4), lam), lnew) /\ ~red
                             THEN lam' = lnew /\ UNCHANGED <<k, x, red, ncb, qn, qs, qk, cbs, acc, ret, ph>>
                             ELSE UNCHANGED <<lam, red, qn>> /\ Accept(tr, db, th, FALSE)

\* ---------------------------------------------------------------- quasi-Newton phase
QExit(ok, xv, kq) == /\ k' = k + kq /\ x' = xv /\ fx' = xv /\ qn' = (IF ok THEN qn ELSE FALSE) /\ ph' = "top"
RECURSIVE Project(_, _, _)     \* the recursion over earlier corrections (one direction)
Project(v, i, m) == IF i > m THEN v ELSE Project(RAdd(v, RMul(RDiv(v, qs[i]), qs[i + 1])), i + 1, m)
QStep ==
  /\ ph = "qn"
  /\ UNCHANGED <<par, dx, dxbar, lam, red, xl, neval, ret>>
  /\ LET xn == IF qk = 0 THEN x ELSE RAdd(x, qs[qk + 1])   \* the first step has been taken already
     IN
     /\ ~IsBad(xn)
     /\ IF qk > par.miter - k + 1
        THEN UNCHANGED <<ncb, resp, qs, qk, cbs, ndx, acc, last>> /\ QExit(FALSE, x, qk)
        ELSE IF qk > 0 /\ Lt(RAbs(qs[qk + 1]), par.tol)
        THEN /\ acc' = Append(acc, [lam |-> ROne, theta |-> RZero]) /\ last' = [d |-> qs[qk + 1], at |-> xn]
             /\ UNCHANGED <<ncb, resp, qs, qk, cbs, ndx>> /\ QExit(TRUE, xn, qk + 1)
        ELSE \E ans \in Answers(qs[qk + 1]) : LET v0 == ans[1] ok == ans[2] IN
             /\ ~IsBad(v0)
             /\ Answer(xl, xn, v0, ok)
             /\ acc' = IF qk = 0 THEN acc ELSE Append(acc, [lam |-> ROne, theta |-> RZero])
             /\ IF ~ok THEN UNCHANGED <<ncb, qs, qk, cbs, ndx, last>> /\ QExit(FALSE, xn, qk)
                ELSE LET v == Project(v0, 1, qk)
                         al == RDiv(v, qs[qk + 1])
                         th == RAbs(al)
                         nd == RDiv(v, RSub(ROne, al))
                     IN
                     /\ ~IsBad(v) /\ ~IsBad(al) /\ ~RIsZero(RSub(ROne, al)) /\ ~IsBad(nd)
                     \* (a zero correction would be divided by)
                     /\ ~RIsZero(nd)
                     /\ Away(th, par.thmax) /\ Away(RAbs(nd), par.tol)
                     /\ ncb' = ncb + 1
                     /\ cbs' = Append(cbs, [k |-> k + qk + 1, n |-> RAbs(qs[qk + 1])])
                     /\ last' = [d |-> nd, at |-> RAdd(xn, nd)]
                     /\ IF Lt(par.thmax, th) \/ Stop(ncb')
                        THEN UNCHANGED qs /\ UNCHANGED <<qk, ndx>> /\ QExit(FALSE, xn, qk + 1)
                        ELSE /\ qs' = Append(qs, nd) /\ qk' = qk + 1 /\ ndx' = RAbs(nd)
                             /\ x' = xn /\ UNCHANGED <<k, fx, qn, ph>>

Emit == /\ ph = "done" /\ ph' = "end"
        /\ PrintT("BEHAVIOUR " \o ToJson([alg |-> Alg, par |-> par, resp |-> resp, cbs |-> cbs, acc |-> Len(acc), ret |-> ret]))
        /\ UNCHANGED <<par, k, x, dx, dxbar, lam, red, xl, fx, ndx, neval, ncb, resp, qn, qs, qk, cbs, acc, ret, last>>
Steps == Std \/ Top \/ Solve \/ Trial \/ QStep
Spec == Init /\ [][Steps]_vars
SimSpec == Init /\ [][Steps \/ Emit]_vars
-----------------------------------------------------------------------------
(* What a user relies on, on the model *)
Finished == ph \in {"done", "end"}
\* success means that the last correction at the returned point was below the tolerance
SuccessMeansConverged == Finished /\ ret.ok => Lt(RAbs(last.d), par.tol) /\ ret.x = last.at
\* no more linearisations than allowed
Limited == neval <= par.miter
\* every accepted damped step passed the monotonicity test, with a damping factor in (lmin, 1]
Monotone == Alg = "nleq" => \A i \in DOMAIN acc : /\ RLeq(acc[i].lam, ROne)
                                                  /\ Lt(par.lmin, acc[i].lam)
                                                  /\ Lt(acc[i].theta, ROne)
                                                  /\ (par.restr => Lt(acc[i].theta, RSub(ROne, RMul(acc[i].lam, <<1, 4>>))))
LamOK == Alg = "nleq" /\ ph = "trial" => RLeq(lam, ROne) /\ RLess(RZero, lam)
\* a failing linear solve, or a callback that asks to stop outside the quasi-Newton phase, ends in failure
FailsFail == (Finished /\ resp # <<>> /\ "ok" \in DOMAIN resp[Len(resp)] /\ ~resp[Len(resp)].ok) => ~ret.ok
StopStops == Finished /\ ret.ok => ~(Alg = "standard" /\ Stop(ncb))
CallbacksCount == \A i, j \in DOMAIN cbs : i < j => cbs[i].k < cbs[j].k
\* an initial guess whose correction vanishes is accepted after one linearisation
=============================================================================
