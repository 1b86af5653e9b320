-------------------------------- MODULE Cheb -------------------------------
(***************************************************************************)
(* Exact algebra of finite Chebyshev series  p = sum_k c_k T_k  on [-1, 1]. *)
(* A series is a function from a finite set of degrees to nonzero rationals *)
(* (sparse, so that series of degree 40 or 300 are as cheap as short ones). *)
(* The operators below are the definitions that the implementation has to   *)
(* agree with; ChebLaws checks them against pointwise semantics.            *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, SequencesExt, TLC

PZero == [k \in {} |-> RZero]
PBadP == (0 :> Bad)
Deg(p) == IF DOMAIN p = {} THEN 0 ELSE CHOOSE k \in DOMAIN p : \A j \in DOMAIN p : j <= k
Coef(p, k) == IF k \in DOMAIN p THEN p[k] ELSE RZero
PIsBad(p) == \E k \in DOMAIN p : IsBad(p[k])
\* forget zero coefficients (keep Bad ones: they poison the series)
PNorm(f) == LET S == {k \in DOMAIN f : ~RIsZero(f[k])} IN TLCEval([k \in S |-> f[k]])

PConst(r) == PNorm((0 :> r))
PMono(k, r) == PNorm((k :> r))

PAdd(p, q) == PNorm(TLCEval([k \in DOMAIN p \cup DOMAIN q |-> RAdd(Coef(p, k), Coef(q, k))]))
PScale(p, r) == PNorm(TLCEval([k \in DOMAIN p |-> RMul(p[k], r)]))
PNeg(p) == TLCEval([k \in DOMAIN p |-> RNeg(p[k])])
PSub(p, q) == PAdd(p, PNeg(q))

RSumSet(S, Op(_)) == FoldSet(LAMBDA x, acc : RAdd(acc, Op(x)), RZero, S)

\* T_i T_j = (T_{i+j} + T_{|i-j|}) / 2
PMul(p, q) ==
  LET degs == {i + j : i \in DOMAIN p, j \in DOMAIN q}
              \cup {Abs(i - j) : i \in DOMAIN p, j \in DOMAIN q}
      at(k) == RMul(<<1, 2>>, RSumSet(DOMAIN p, LAMBDA i :
                 RMul(p[i], RAdd(RAdd(IF k >= i THEN Coef(q, k - i) ELSE RZero,
                                      Coef(q, i + k)),
                                 IF k > 0 /\ i >= k THEN Coef(q, i - k) ELSE RZero))))
  IN PNorm(TLCEval([k \in degs |-> at(k)]))

RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN PConst(ROne) ELSE PMul(p, PPow(p, n - 1))

\* derivative with respect to the variable on [-1, 1]
PDiff(p) ==
  LET n == Deg(p)
      at(k) == LET S == {j \in DOMAIN p : j > k /\ (j - k) % 2 = 1}
               IN RSumSet(S, LAMBDA j : RMul(RInt(IF k = 0 THEN j ELSE 2 * j), p[j]))
  IN IF n = 0 THEN PZero ELSE PNorm(TLCEval([k \in 0..(n - 1) |-> at(k)]))
RECURSIVE PDiffN(_, _)
PDiffN(p, n) == IF n = 0 THEN p ELSE PDiffN(PDiff(p), n - 1)

\* values of T_k at x = h/2, h in -2..2, times two
TwoT(k, h) == CASE h = 2  -> 2
                [] h = -2 -> IF k % 2 = 0 THEN 2 ELSE -2
                [] h = 0  -> IF k % 4 = 0 THEN 2 ELSE IF k % 4 = 2 THEN -2 ELSE 0
                [] h = 1  -> <<2, 1, -1, -2, -1, 1>>[(k % 6) + 1]
                [] h = -1 -> <<2, -1, -1>>[(k % 3) + 1]
PEval(p, h) == RSumSet(DOMAIN p, LAMBDA k : RMul(p[k], RMk(TwoT(k, h), 2)))

\* indefinite integral that vanishes at -1
PCum(p) ==
  LET degs == {k + 1 : k \in DOMAIN p} \cup {k - 1 : k \in {j \in DOMAIN p : j > 1}}
      at(r) == RMul(RMk(1, 2 * r), RSub(RMul(IF r = 1 THEN RInt(2) ELSE ROne, Coef(p, r - 1)),
                                        Coef(p, r + 1)))
      b == PNorm(TLCEval([r \in degs |-> at(r)]))
  IN PSub(b, PConst(PEval(b, -2)))

\* definite integral over [-1, 1] as a set of exact terms and as a number
PSumTerms(p) == {<<k, RMul(p[k], RMk(2, 1 - k * k))>> : k \in {j \in DOMAIN p : j % 2 = 0}}
PSum(p) == RSumSet({k \in DOMAIN p : k % 2 = 0}, LAMBDA k : RMul(p[k], RMk(2, 1 - k * k)))
PInner(p, q) == PSum(PMul(p, q))
\* weighted inner product, in units of pi: int p q / sqrt(1 - x^2) = pi/2 (2 c0 d0 + sum c_k d_k)
PInnerW(p, q) == RMul(<<1, 2>>, RAdd(RMul(Coef(p, 0), Coef(q, 0)),
                   RSumSet(DOMAIN p \cap DOMAIN q, LAMBDA k : RMul(p[k], q[k]))))

\* p(-x) and p composed with the affine map x -> al x + be
PFlip(p) == TLCEval([k \in DOMAIN p |-> IF k % 2 = 1 THEN RNeg(p[k]) ELSE p[k]])
RECURSIVE TAffine(_, _, _)
TAffine(k, al, be) ==
  IF k = 0 THEN PConst(ROne)
  ELSE LET lin == PAdd(PMono(1, al), PConst(be)) IN
       IF k = 1 THEN lin
       ELSE PSub(PMul(PScale(lin, RInt(2)), TAffine(k - 1, al, be)), TAffine(k - 2, al, be))
PAffine(p, al, be) == FoldSet(LAMBDA k, acc : PAdd(acc, PScale(TAffine(k, al, be), p[k])),
                              PZero, DOMAIN p)

\* JSON form: <<degree, num, den>> triples in degree order
PJson(p) == SetToSortSeq({<<k, p[k][1], p[k][2]>> : k \in DOMAIN p}, LAMBDA x, y : x[1] < y[1])
=============================================================================
