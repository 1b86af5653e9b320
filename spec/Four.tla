-------------------------------- MODULE Four -------------------------------
(***************************************************************************)
(* Exact algebra of finite Fourier series  p = sum_k c_k e^{i pi k x}  with *)
(* Gaussian rational coefficients <<re, im>>, sparse over integer           *)
(* frequencies.  x runs over [-1, 1].  Bad is absorbing as in Rat.          *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, SequencesExt, TLC

GZero == <<RZero, RZero>>
GOne == <<ROne, RZero>>
GI == <<RZero, ROne>>
GR(r) == <<r, RZero>>
GBadP(g) == IsBad(g[1]) \/ IsBad(g[2])
GIsZero(g) == RIsZero(g[1]) /\ RIsZero(g[2])
GAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
GNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
GSub(a, b) == GAdd(a, GNeg(b))
GMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
GScale(a, r) == <<RMul(a[1], r), RMul(a[2], r)>>
GConj(a) == <<a[1], RNeg(a[2])>>
GAbs2(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
GInv(a) == GScale(GConj(a), RInv(GAbs2(a)))
\* i^n
GIPow(n) == CASE n % 4 = 0 -> GOne [] n % 4 = 1 -> GI [] n % 4 = 2 -> GNeg(GOne) [] OTHER -> GNeg(GI)
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN GOne ELSE GMul(a, GPow(a, n - 1))

FZero == [k \in {} |-> GZero]
FNorm(f) == LET S == {k \in DOMAIN f : ~GIsZero(f[k])} IN TLCEval([k \in S |-> f[k]])
FC(p, k) == IF k \in DOMAIN p THEN p[k] ELSE GZero
FIsBad(p) == \E k \in DOMAIN p : GBadP(p[k])
FDeg(p) == Max({0} \cup {Abs(k) : k \in DOMAIN p})
FConst(g) == FNorm((0 :> g))
FMono(k, g) == FNorm((k :> g))
FAdd(p, q) == FNorm(TLCEval([k \in DOMAIN p \cup DOMAIN q |-> GAdd(FC(p, k), FC(q, k))]))
FNeg(p) == TLCEval([k \in DOMAIN p |-> GNeg(p[k])])
FSub(p, q) == FAdd(p, FNeg(q))
FMulC(p, g) == FNorm(TLCEval([k \in DOMAIN p |-> GMul(p[k], g)]))
GSumSet(S, Op(_)) == FoldSet(LAMBDA x, acc : GAdd(acc, Op(x)), GZero, S)
FMul(p, q) == LET degs == {i + j : i \in DOMAIN p, j \in DOMAIN q}
              IN FNorm(TLCEval([k \in degs |-> GSumSet(DOMAIN p, LAMBDA i : GMul(p[i], FC(q, k - i)))]))
RECURSIVE FPow(_, _)
FPow(p, n) == IF n = 0 THEN FConst(GOne) ELSE FMul(p, FPow(p, n - 1))
\* complex conjugate, real and imaginary part of the function
FConj(p) == TLCEval([k \in {-j : j \in DOMAIN p} |-> GConj(p[-k])])
FRe(p) == FMulC(FAdd(p, FConj(p)), GR(<<1, 2>>))
FIm(p) == FMulC(FSub(p, FConj(p)), <<RZero, <<-1, 2>>>>)
FReal(p) == FConj(p) = p
\* derivative and the integral that vanishes at x = -1, in units of pi^n and pi^-1
FDiffN(p, n) == FNorm(TLCEval([k \in DOMAIN p |-> GMul(p[k], GMul(GIPow(n), GR(RPow(RInt(k), n))))]))
FEval(p, h) == GSumSet(DOMAIN p, LAMBDA k : GMul(p[k], GIPow(k * h)))    \* at x = h/2
FMean(p) == FC(p, 0)
FCum(p) == LET b == TLCEval([k \in DOMAIN p \ {0} |-> GMul(p[k], GMul(GNeg(GI), GR(RMk(1, k))))])
           IN FSub(b, FConst(FEval(b, -2)))
\* shift by a/2: q(x) = p(x - a/2)
FShift(p, a) == TLCEval([k \in DOMAIN p |-> GMul(p[k], GIPow(-k * a))])
\* coefficientwise product (convolution up to a factor)
FHad(p, q) == FNorm(TLCEval([k \in DOMAIN p \cap DOMAIN q |-> GMul(p[k], q[k])]))
\* sum_k p_k conj(q_k)
FDot(p, q) == GSumSet(DOMAIN p \cap DOMAIN q, LAMBDA k : GMul(p[k], GConj(q[k])))

GJson(g) == <<g[1][1], g[1][2], g[2][1], g[2][2]>>
FJson(p) == SetToSortSeq({<<k>> \o GJson(p[k]) : k \in DOMAIN p}, LAMBDA x, y : x[1] < y[1])
=============================================================================
