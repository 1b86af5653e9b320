------------------------------- MODULE RatMat -------------------------------
(* Linear algebra over the rationals: matrices are sequences of rows.        *)
EXTENDS Rat, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Vec(n, F(_)) == [i \in 1..n |-> F(i)]
Zeros(n) == [i \in 1..n |-> RZero]
Mat(m, n, F(_, _)) == [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]
Cols(M) == Len(M[1])
T(M) == Mat(Cols(M), Len(M), LAMBDA i, j : M[j][i])
Dot(u, v) == RSumSeq([i \in DOMAIN u |-> RMul(u[i], v[i])])
MV(M, v) == [i \in DOMAIN M |-> Dot(M[i], v)]
MM(A, B) == LET C == T(B) IN Mat(Len(A), Cols(B), LAMBDA i, j : Dot(A[i], C[j]))
VAdd(u, v) == [i \in DOMAIN u |-> RAdd(u[i], v[i])]
VScale(c, v) == [i \in DOMAIN v |-> RMul(c, v[i])]
Fine(v) == \A i \in DOMAIN v : ~IsBad(v[i])
FineM(M) == \A i \in DOMAIN M : Fine(M[i])
\* Gauss-Jordan elimination in the first nc columns
RECURSIVE Reduce(_, _, _, _, _)
Reduce(M, r, c, nc, piv) ==
  IF r > Len(M) \/ c > nc THEN [m |-> M, p |-> piv]
  ELSE LET S == {i \in r..Len(M) : ~RIsZero(M[i][c])} IN
    IF S = {} THEN Reduce(M, r, c + 1, nc, piv)
    ELSE LET k == Min(S)
             w == VScale(RInv(M[k][c]), M[k])
             N == TLCEval([i \in DOMAIN M |-> IF i = r THEN w ELSE LET row == IF i = k THEN M[r] ELSE M[i] IN VAdd(row, VScale(RNeg(row[c]), w))])
         IN Reduce(N, r + 1, c + 1, nc, Append(piv, c))
RREF(M) == Reduce(M, 1, 1, Cols(M), <<>>)
Rank(M) == LET R == RREF(M) IN IF FineM(R.m) THEN Len(R.p) ELSE -1
Regular(M) == Len(M) = Cols(M) /\ Rank(M) = Len(M)
Solve(M, f) == LET R == Reduce([i \in DOMAIN M |-> Append(M[i], f[i])], 1, 1, Cols(M), <<>>) IN
  IF FineM(R.m) /\ Len(R.p) = Cols(M) THEN [i \in DOMAIN f |-> R.m[i][Cols(M) + 1]] ELSE <<Bad>>
\* basis of the null space with one vector: the free component is 1
Null(M) == LET R == RREF(M) n == Cols(M) free == CHOOSE j \in 1..n : \A k \in DOMAIN R.p : R.p[k] # j IN
  [j \in 1..n |-> IF j = free THEN ROne ELSE LET S == {i \in DOMAIN R.p : R.p[i] = j} IN IF S = {} THEN Bad ELSE RNeg(R.m[Min(S)][free])]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
  ELSE RSumSeq([i \in DOMAIN M |-> IF RIsZero(M[i][1]) THEN RZero ELSE
     LET D == Det([k \in 1..(Len(M) - 1) |-> Tail(M[IF k < i THEN k ELSE k + 1])]) IN RMul(M[i][1], IF i % 2 = 1 THEN D ELSE RNeg(D))])
\* least squares solution of least norm: A = B C with B, C of full rank
Pinv(A, f) == LET R == RREF(A) r == Len(R.p)
                  B == Mat(Len(A), r, LAMBDA i, j : A[i][R.p[j]])
                  C == SubSeq(R.m, 1, r)
                  y == Solve(MM(T(B), B), MV(T(B), f))
              IN IF ~FineM(R.m) \/ ~Fine(y) THEN <<Bad>> ELSE LET z == Solve(MM(C, T(C)), y) IN IF Fine(z) THEN MV(T(C), z) ELSE <<Bad>>
=============================================================================
