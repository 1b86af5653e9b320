------------------------------ MODULE FourLaws ------------------------------
(* The algebra of Four against pointwise meaning, exhaustively over small series. *)
EXTENDS Four
CONSTANTS Freqs, Nums
FreqsSmall == {-1, 0, 2}
FreqsBig == {-2, 0, 1, 3}
VARIABLES p, q, done
vars == <<p, q, done>>
Coefs == {g \in {<<RInt(a), RMk(b, 2)>> : a \in Nums, b \in Nums} : TRUE}
Series == {FNorm(f) : f \in UNION {[S -> Coefs] : S \in {T \in SUBSET Freqs : Cardinality(T) <= 2}}}
Init == p \in Series /\ q = FZero /\ done = FALSE
Next == ~done /\ done' = TRUE /\ p' = p /\ q' \in Series
Spec == Init /\ [][Next]_vars
HS == -2..2
EvalAdd == \A h \in HS : FEval(FAdd(p, q), h) = GAdd(FEval(p, h), FEval(q, h))
EvalMul == \A h \in HS : FEval(FMul(p, q), h) = GMul(FEval(p, h), FEval(q, h))
MulComm == FMul(p, q) = FMul(q, p)
Leibniz == FDiffN(FMul(p, q), 1) = FAdd(FMul(FDiffN(p, 1), q), FMul(p, FDiffN(q, 1)))
ConjMul == FConj(FMul(p, q)) = FMul(FConj(p), FConj(q))
Parts == /\ FAdd(FRe(p), FMulC(FIm(p), GI)) = p
         /\ FReal(FRe(p)) /\ FReal(FIm(p))
         /\ \A h \in HS : FEval(FRe(p), h) = GR(FEval(p, h)[1]) /\ FEval(FIm(p), h) = GR(FEval(p, h)[2])
Periodic == FEval(p, -2) = FEval(p, 2)
CumDiff == GIsZero(FMean(p)) => FDiffN(FCum(p), 1) = p /\ GIsZero(FEval(FCum(p), -2))
DiffCum == FCum(FDiffN(p, 1)) = FSub(p, FConst(FEval(p, -2)))
ShiftEval == \A a \in {-1, 1, 2, 3} : \A h \in HS : FEval(FShift(p, a), h) = FEval(p, h - a)
\* inner product = mean of p conj(q); integration by parts
DotMean == FDot(p, q) = FMean(FMul(p, FConj(q)))
Adjoint == FDot(FDiffN(p, 1), q) = GNeg(FDot(p, FDiffN(q, 1)))
\* convolution commutes with shifts and derivatives
ConvShift == FHad(FShift(p, 1), q) = FShift(FHad(p, q), 1)
ConvDiff == FHad(FDiffN(p, 1), q) = FDiffN(FHad(p, q), 1)
NoBad == ~FIsBad(FMul(p, q))
=============================================================================
