------------------------------- MODULE Problems ------------------------------
(***************************************************************************)
(* Whole problems with known answers.                                       *)
(*   NewBvp   a boundary value problem whose exact solution is chosen first:*)
(*            the forcing is minus the value of the equations there and the *)
(*            boundary data are its boundary values;                        *)
(*   NewEig   a reaction diffusion system, linearised at a constant state,  *)
(*            whose eigenfunctions are sines or cosines: for every wave     *)
(*            number a matrix R - D (k pi / L)^2 acts on the amplitudes.    *)
(* Then Solve / Eigs with options.                                          *)
(***************************************************************************)
EXTENDS Bvp
PBad(U) == \E i \in DOMAIN U : PIsBad(U[i])
\* degree in the unknowns: at most 1 for linear problems
RECURSIVE UDeg(_)
UDeg(e) == CASE e.t = "fun" -> 1
             [] e.t \in {"num", "par", "x", "cf"} -> 0
             [] e.t \in {"add", "sub"} -> Max({UDeg(e.l), UDeg(e.r)})
             [] e.t = "mul" -> UDeg(e.l) + UDeg(e.r)
             [] e.t = "pow" -> e.k * UDeg(e.l)
             [] e.t \in {"neg", "quo", "d"} -> UDeg(e.l)
             [] e.t = "int" -> FoldSeq(LAMBDA a, b : a + b, 0, Tail(e.e))
Linear(p) == \A i \in DOMAIN p.eqns : UDeg(p.eqns[i]) <= 1
\* boundary conditions at the two ends that go with order m: [d, h, c] terms without data
Ends(m, r) == LET T(d, h) == <<[d |-> d, h |-> h, c |-> ROne]>>
                  Rob(h) == <<[d |-> 0, h |-> h, c |-> RInt(2)], [d |-> 1, h |-> h, c |-> IF h > 0 THEN ROne ELSE RInt(-1)]>> IN
  CASE m = 0 -> <<>>
    [] m = 1 -> <<IF r % 2 = 0 THEN T(0, -2) ELSE T(0, 2)>>
    [] m = 2 -> CASE r % 5 = 0 -> <<T(0, -2), T(0, 2)>> [] r % 5 = 1 -> <<T(1, -2), T(0, 2)>> [] r % 5 = 2 -> <<T(0, 2), T(1, 2)>>
                  [] r % 5 = 3 -> <<Rob(-2), T(0, 2)>> [] OTHER -> <<Rob(-2), Rob(2)>>
    [] m = 3 -> IF r % 2 = 0 THEN <<T(0, -2), T(1, -2), T(0, 2)>> ELSE <<T(0, -2), T(1, 2), T(0, 2)>>
    [] m = 4 -> IF r % 2 = 0 THEN <<T(0, -2), T(1, -2), T(0, 2), T(1, 2)>> ELSE <<T(0, -2), T(2, -2), T(0, 2), T(2, 2)>>
BcsOf(m, rs, nf) == FlattenSeq([j \in 1..nf |-> LET E == Ends(m, rs[j]) IN [i \in DOMAIN E |->
                      [terms |-> [q \in DOMAIN E[i] |-> [f |-> j] @@ E[i][q]], r |-> RZero, text |-> (rs[i + 2] % 3) + 1]]])
WithData(p, U, pars) == LET c == [dom |-> p.dom, pars |-> pars, cf |-> p.cf] IN
  [p EXCEPT !.bcs = TLCEval([i \in DOMAIN p.bcs |-> [p.bcs[i] EXCEPT !.r = BcVal(c, p.bcs[i].terms, U)]])]
PosPars == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<5, 4>>}
NewBvp ==
  \E nf \in {Pick({1, 1, 1, 2})} : \E dom \in {Pick(Doms)} : \E rs \in {[i \in 1..40 |-> Pick(0..5999)]} : \E rt \in {[i \in 1..40 |-> Pick(0..5999)]} :
  \E cf0 \in {TLCEval(PAdd(PMono(1, Pick(CoefPool)), PConst(Pick(CoefPool))))} : \E adaptive \in {Pick(1..3) # 1} : \E d \in {Pick({0, 1, 2})} : \E ints \in {Pick(1..5) = 1} : \E m \in {Pick({1, 2, 2, 2, 2, 3, 4})} :
  LET g1 == TLCEval(Grow(rs, 1, d, nf, ints)) g2 == TLCEval(Grow(rt, 1, d, nf, ints))
      e1 == [t |-> "add", l |-> Lead(m, 1, rs[39]), r |-> g1]
      e2 == [t |-> "add", l |-> Lead(m, 2, rt[39]), r |-> g2]
      p0 == [dom |-> dom, eqns |-> IF nf = 1 THEN <<e1>> ELSE <<e1, e2>>, m |-> m, cf |-> cf0, cts |-> <<>>,
             bcs |-> BcsOf(m, rs, nf), cpars |-> [z \in {} |-> 0]] IN
  /\ Order(g1) < m /\ (nf = 2 => Order(g2) < m)
  /\ \E U \in {TLCEval([j \in 1..nf |-> RandSeries(step + j, IF ~adaptive /\ UDeg(g1) <= 1 /\ UDeg(g2) <= 1 THEN 5 ELSE 3)])} : \E V \in {TLCEval([j \in 1..nf |-> RandSeries(step + j, 3)])} :
     \E pars \in {TLCEval(("a" :> Pick(PosPars)) @@ ("b" :> Pick(PosPars)))} : \E eps \in {Pick({<<0, 1>>, <<1, 1000>>, <<1, 100>>, <<1, 10>>})} :
     LET p == WithData(p0, U, pars) c == [dom |-> dom, pars |-> pars, cf |-> p.cf] F == TLCEval([i \in 1..nf |-> PNeg(Ev(c, p.eqns[i], U))]) 
         G == TLCEval(IF Linear(p) /\ Pick(1..2) = 1 THEN V ELSE [j \in 1..nf |-> PAdd(U[j], PScale(V[j], eps))]) IN
     /\ ~PBad(F) /\ VDeg(F) < 14 /\ (\A i \in DOMAIN p.bcs : ~IsBad(p.bcs[i].r))
     /\ prob' = p /\ at' = at
     /\ hist' = [op |-> "Bvp", dom |-> dom, eqns |-> p.eqns, m |-> m, cf |-> PJson(p.cf), force |-> VJson(F), bcs |-> p.bcs, pars |-> pars, u |-> VJson(U), guess |-> VJson(G),
                 linear |-> Linear(p), near |-> eps[1] = 0 \/ eps[2] = 1000, method |-> Pick({"giant", "nleq", "qnerr", "lu", "qr"}), adaptive |-> adaptive, n |-> Pick({20, 24, 33})]
-----------------------------------------------------------------------------
(* d_i u_i'' + g_i(u) with g polynomial, no derivatives, linearised at constants *)
RECURSIVE React(_, _, _, _)
React(rs, i, d, nf) ==
  LET r == rs[i] k == r % 8 q == r \div 8 sub(j) == React(rs, 2 * i + j, d - 1, nf) IN
  IF d = 0 THEN (IF k = 0 THEN [t |-> "num", c |-> Nums[(q % 8) + 1]] ELSE IF k = 1 THEN [t |-> "par", p |-> Par(q)] ELSE [t |-> "fun", j |-> (q % nf) + 1])
  ELSE CASE k <= 2 -> [t |-> "mul", l |-> sub(0), r |-> sub(1)]
         [] k <= 4 -> [t |-> "add", l |-> sub(0), r |-> sub(1)]
         [] k = 5 -> [t |-> "sub", l |-> sub(0), r |-> sub(1)]
         [] k = 6 -> [t |-> "pow", l |-> sub(0), k |-> 2]
         [] OTHER -> [t |-> "neg", l |-> sub(0)]
Diffs == <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>>>
NewEig ==
  \E nf \in {Pick({1, 1, 2})} : \E dom \in {Pick(Doms)} : \E rs \in {[i \in 1..40 |-> Pick(0..5999)]} : \E rt \in {[i \in 1..40 |-> Pick(0..5999)]} : \E d \in {Pick({1, 2, 3})} :
  \E kind \in {Pick({"DD", "NN", "DN", "ND"})} : \E C \in {TLCEval([j \in 1..nf |-> PConst(Pick(CoefPool \cup {RZero}))])} : \E pars \in {TLCEval(("a" :> Pick(PosPars)) @@ ("b" :> Pick(PosPars)))} :
  LET g == TLCEval([i \in 1..nf |-> React(IF i = 1 THEN rs ELSE rt, 1, d, nf)]) D == [i \in 1..nf |-> Diffs[(rs[30 + i] % 4) + 1]]
      c == [dom |-> dom, pars |-> pars, cf |-> PZero]
      unit(j) == [i \in 1..nf |-> IF i = j THEN PConst(ROne) ELSE PZero]
      R == TLCEval([i \in 1..nf |-> TLCEval([j \in 1..nf |-> Coef(DEv(c, g[i], C, unit(j)), 0)])])
      Len2 == RMul(RSub(dom[2], dom[1]), RSub(dom[2], dom[1]))
      k2(k) == CASE kind = "DD" -> RInt((k + 1) * (k + 1)) [] kind = "NN" -> RInt(k * k) [] OTHER -> RMk((2 * k + 1) * (2 * k + 1), 4)
      f(i) == [t |-> "add", l |-> [t |-> "mul", l |-> [t |-> "num", c |-> D[i]], r |-> Main(2, i)], r |-> g[i]]
      end(h, s) == [j \in 1..nf |-> [terms |-> <<[f |-> j, d |-> IF s = "D" THEN 0 ELSE 1, h |-> h, c |-> ROne]>>, r |-> RZero, text |-> (rs[j] % 3) + 1]] IN
  /\ (\A i \in 1..nf : HasFun(g[i])) /\ (\A i, j \in 1..nf : ~IsBad(R[i][j]))
  /\ prob' = [dom |-> dom] /\ at' = at
  /\ hist' = [op |-> "Eig", dom |-> dom, eqns |-> [i \in 1..nf |-> f(i)], bcs |-> end(-2, IF kind \in {"DD", "DN"} THEN "D" ELSE "N") \o end(2, IF kind \in {"DD", "ND"} THEN "D" ELSE "N"),
              pars |-> pars, u |-> VJson(C), R |-> R, D |-> D, q |-> [k \in 1..5 |-> RMul(k2(k - 1), RInv(Len2))], n |-> Pick({33, 40, 48}), none |-> (\A i \in 1..nf : UDeg(g[i]) <= 1) /\ Pick(1..2) = 1]
-----------------------------------------------------------------------------
(* laws: the chosen function solves the problem, and it is no solution of the problem with other data *)
FromJ1(s) == PNorm([k \in {s[i][1] : i \in DOMAIN s} |-> LET r == CHOOSE t \in {s[i] : i \in DOMAIN s} : t[1] = k IN <<r[2], r[3]>>])
FromJ(a) == [i \in DOMAIN a |-> FromJ1(a[i])]
Exact == step > 0 /\ hist # <<>> /\ hist.op = "Bvp" => LET c == Ctx(hist.pars) U == FromJ(hist.u) F == Fval(c, U) IN
           \A i \in 1..NF : PAdd(F[i], FromJ(hist.force)[i]) = PZero /\ \A k \in DOMAIN prob.bcs : BcRes(c, U)[k] = RZero
Go == step = 0 /\ step' = 1 /\ (IF "Eig" \in Ops /\ Pick(1..4) = 1 THEN NewEig ELSE NewBvp)
Out == step = 1 /\ step' = 2 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<prob, at, hist>>
ProbSpec == SimInit /\ [][Go \/ Out]_vars
=============================================================================
