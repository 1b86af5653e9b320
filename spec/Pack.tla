-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* Surgery on sparse matrices and stacked coefficient vectors.  A matrix is *)
(* a sequence of rows of small integers, where Tiny stands for a number     *)
(* below machine precision (stored, but to be eliminated) and TinyK for one *)
(* just above it (to be kept).  Operations are in place or make a copy as   *)
(* the implementation documents.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Randomization
CONSTANTS Depth, MaxN, Vals
VARIABLES A, hist, step
vars == <<A, hist, step>>
Tiny == 1000
TinyK == 1001
NR(M) == Len(M)
NC(M) == Len(M[1])
RowsOf(M, I) == [k \in 1..Len(I) |-> M[I[k]]]
ColsOf(M, J) == [i \in 1..NR(M) |-> [k \in 1..Len(J) |-> M[i][J[k]]]]
\* indices of 1..n without D, in order
Rest(n, D) == SetToSortSeq((1..n) \ D, LAMBDA a, b : a < b)
Log(r) == hist' = Append(hist, r) /\ step' = step + 1
Op(name, arg, B) == A' = B /\ Log([op |-> name, arg |-> arg, res |-> B])
DelRows(D) == D # 1..NR(A) /\ Op("DelRows", SetToSeq(D), RowsOf(A, Rest(NR(A), D)))
DelCols(D) == D # 1..NC(A) /\ Op("DelCols", SetToSeq(D), ColsOf(A, Rest(NC(A), D)))
DelRow(i) == NR(A) > 1 /\ i <= NR(A) /\ Op("DelRow", <<i>>, RowsOf(A, Rest(NR(A), {i})))
DelCol(j) == NC(A) > 1 /\ j <= NC(A) /\ Op("DelCol", <<j>>, ColsOf(A, Rest(NC(A), {j})))
Append1(B) == NR(A) + NR(B) <= MaxN /\ Op("Append", B, A \o B)
FlipRows(p) == Op("FlipRows", p, RowsOf(A, p))
FlipCols(p) == Op("FlipCols", p, ColsOf(A, p))
Zap == Op("Zap", <<>>, [i \in 1..NR(A) |-> [j \in 1..NC(A) |-> IF A[i][j] = Tiny THEN 0 ELSE A[i][j]]])
\* stacked vectors: the columns of A one after the other; bw boundary entries come first in each column
Flat(M) == [k \in 1..(NR(M) * NC(M)) |-> M[((k - 1) % NR(M)) + 1][((k - 1) \div NR(M)) + 1]]
RemoveBc(bw) == bw < NR(A) /\ Op("RemoveBc", <<bw>>, SubSeq(A, bw + 1, NR(A)))
ReplaceBc(bw) == bw <= NR(A) /\ Op("ReplaceBc", <<bw>>, SubSeq(A, bw + 1, NR(A)) \o [i \in 1..bw |-> [j \in 1..NC(A) |-> 0]])
GetBc(bw) == bw > 0 /\ bw <= NR(A) /\ Log([op |-> "GetBc", arg |-> <<bw>>, res |-> Flat(SubSeq(A, 1, bw))]) /\ UNCHANGED A
Pow2(k) == Log([op |-> "Pow2", arg |-> <<k>>, res |-> IF k <= 1 THEN 2 ELSE CHOOSE p \in {2 ^ e : e \in 0..30} : p >= k /\ p < 2 * k]) /\ UNCHANGED A
-----------------------------------------------------------------------------
Rect == step > 0 => NR(A) > 0 /\ NC(A) > 0 /\ \A i \in 1..NR(A) : Len(A[i]) = NC(A)
Mats(S, n) == UNION {[1..r -> [1..c -> S]] : r \in 1..n, c \in 1..n}
MCInit == A \in Mats(Vals, 2) /\ hist = <<>> /\ step = 1
MCNext == /\ step < Depth
          /\ \/ \E D \in SUBSET (1..NR(A)) : DelRows(D)
             \/ \E D \in SUBSET (1..NC(A)) : DelCols(D)
             \/ \E i \in 1..NR(A) : DelRow(i)
             \/ \E i \in 1..NC(A) : DelCol(i)
             \/ \E bw \in 0..2 : RemoveBc(bw) \/ ReplaceBc(bw) \/ GetBc(bw)
             \/ \E p \in {q \in [1..NR(A) -> 1..NR(A)] : \A a, b \in 1..NR(A) : a # b => q[a] # q[b]} : FlipRows(p)
             \/ Zap \/ Append1(A)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<A, step>>
\* deleting rows one by one is deleting the set; the boundary entries and the rest are the whole
OneByOne == step > 0 /\ NR(A) > 2 => \A i \in 1..(NR(A) - 1) : \A j \in (i + 1)..NR(A) :
   RowsOf(A, Rest(NR(A), {i, j})) = LET B == RowsOf(A, Rest(NR(A), {j})) IN RowsOf(B, Rest(NR(B), {i}))
Split == step > 0 => \A bw \in 1..(NR(A) - 1) : SubSeq(A, 1, bw) \o SubSeq(A, bw + 1, NR(A)) = A
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
SimVals == {0, 0, 1, 2, -3, Tiny, TinyK, 7}
RandMat(z, r, c) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> IF Pick(1..3) = 1 THEN 0 ELSE Pick(SimVals)])])
New == \E r \in {Pick(1..MaxN)} : \E c \in {Pick(1..MaxN)} : \E B \in {RandMat(step, r, c)} : A' = B /\ Log([op |-> "New", arg |-> <<>>, res |-> B])
RandPerm(z, n) == TLCEval(LET S == TLCEval([i \in 1..n |-> Pick(1..1000000) * 10 + i]) IN
   [k \in 1..n |-> SetToSortSeq({S[i] : i \in 1..n}, LAMBDA a, b : a < b)[k] % 10])
RandStep(k) ==
  IF step = 0 \/ k = 0 THEN New
  ELSE CASE k = 1 -> \E m \in {Pick(0..2)} : \E D \in {TLCEval(IF m > NR(A) THEN {} ELSE RandomSubset(m, 1..NR(A)))} : DelRows(D)
         [] k = 2 -> \E m \in {Pick(0..2)} : \E D \in {TLCEval(IF m > NC(A) THEN {} ELSE RandomSubset(m, 1..NC(A)))} : DelCols(D)
         [] k = 3 -> \E i \in {Pick(1..NR(A))} : DelRow(i)
         [] k = 4 -> \E i \in {Pick(1..NC(A))} : DelCol(i)
         [] k = 5 -> \E r \in {Pick(1..3)} : \E B \in {RandMat(step, r, NC(A))} : Append1(B)
         [] k = 6 -> \E p \in {RandPerm(step, NR(A))} : FlipRows(p)
         [] k = 7 -> \E p \in {RandPerm(step, NC(A))} : FlipCols(p)
         [] k = 8 -> Zap
         [] k = 9 -> \E bw \in {Pick(0..3)} : RemoveBc(bw)
         [] k = 10 -> \E bw \in {Pick(0..3)} : ReplaceBc(bw)
         [] k = 11 -> \E bw \in {Pick(1..3)} : GetBc(bw)
         [] k = 12 -> \E m \in {IF Pick(1..2) = 1 THEN Pick(0..40) ELSE 2 ^ Pick(1..14) + Pick(-1..1)} : Pow2(m)
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<A, hist>>
SimInit == A = <<>> /\ hist = <<>> /\ step = 0
SimNext == (\E k \in 0..12 : step < Depth /\ RandStep(k)) \/ Emit
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
