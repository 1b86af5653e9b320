------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Linear systems.  A core matrix A over the rationals, regular or with a   *)
(* one dimensional null space, is bordered by rows and columns one after    *)
(* the other; rows and columns of borders are exchanged, and the systems    *)
(* (and their adjoints) are solved in between.  All answers - solutions,    *)
(* null vectors, determinants, solutions of least norm of rank deficient    *)
(* and of wide systems, of systems at folds - are exact.  The invariants    *)
(* check that the answers satisfy their equations, and the block            *)
(* eliminations the implementation is built on.                             *)
(***************************************************************************)
EXTENDS RatMat, Json, Randomization
CONSTANTS Depth, Entries
EMC == {-1, 0, 2}
ESmall == {0, -1}
VARIABLES core, bord, hist, step
vars == <<core, bord, hist, step>>

\* the core with the first k borders
RECURSIVE Full(_, _, _)
Full(A, B, k) == IF k = 0 THEN A ELSE LET M == Full(A, B, k - 1) b == B[k] IN
  Append([i \in DOMAIN M |-> Append(M[i], b.c[i])], Append(b.b, b.d))
Whole == Full(core, bord, Len(bord))
Size == Len(core) + Len(bord)
Good(A, B) == \A k \in 1..Len(B) : Regular(Full(A, B, k))
Singular(A) == ~Regular(A)
-----------------------------------------------------------------------------
Empty == <<>>
Rec(r) == hist' = Append(hist, r) /\ step' = step + 1
Core(A) == /\ core = Empty /\ Rank(A) >= Len(A) - 1 /\ Rank(A) > 0 /\ core' = A /\ bord' = <<>> /\ Rec([op |-> "Core", a |-> A, sing |-> Singular(A)])
Border(b, c, d) == /\ core # Empty /\ Len(bord) < (IF Singular(core) THEN 1 ELSE 3)
                   /\ bord' = Append(bord, [b |-> b, c |-> c, d |-> d]) /\ Good(core, bord') /\ Rec([op |-> "Border", b |-> b, c |-> c, d |-> d]) /\ UNCHANGED core
Row(k, b, d) == /\ k \in DOMAIN bord /\ bord' = [bord EXCEPT ![k] = [@ EXCEPT !.b = b, !.d = d]] /\ Good(core, bord')
                /\ Rec([op |-> "Row", k |-> k, b |-> b, d |-> d]) /\ UNCHANGED core
Col(k, c, d) == /\ k \in DOMAIN bord /\ bord' = [bord EXCEPT ![k] = [@ EXCEPT !.c = c, !.d = d]] /\ Good(core, bord')
                /\ Rec([op |-> "Col", k |-> k, c |-> c, d |-> d]) /\ UNCHANGED core
Ask(r, x) == Fine(x) /\ Rec(r @@ [x |-> x]) /\ UNCHANGED <<core, bord>>
Unit(n) == [i \in 1..n |-> IF i = n THEN ROne ELSE RZero]
SolveA(f, adj) == /\ core # Empty /\ (bord # <<>> \/ Regular(core)) /\ Ask([op |-> "Solve", f |-> f, adj |-> adj], Solve(IF adj THEN T(Whole) ELSE Whole, f))
NullA(adj) == /\ bord # <<>> /\ Ask([op |-> "Unit", adj |-> adj], Solve(IF adj THEN T(Whole) ELSE Whole, Unit(Size)))
ZeroA(f) == /\ bord # <<>> /\ Ask([op |-> "Zero", f |-> f], Solve(Whole, Append(f, RZero)))
\* the solution of least norm of the equations without the last row
MinNorm(f) == /\ bord # <<>> /\ Ask([op |-> "MinNorm", f |-> f], Pinv(SubSeq(Whole, 1, Size - 1), f))
DetA == core # Empty /\ Ask([op |-> "Det"], <<Det(Whole), Det(core)>>)
\* singular core: null vectors (up to a factor), particular solutions of A x = A g
Nulls == core # Empty /\ Singular(core) /\ Fine(Null(T(core))) /\ Ask([op |-> "Nulls", y |-> Null(T(core))], Null(core))
Part(g, adj) == core # Empty /\ Singular(core) /\ Ask([op |-> "Part", adj |-> adj], MV(IF adj THEN T(core) ELSE core, g))
\* wide or rank deficient systems
Least(A, f) == Rank(A) > 0 /\ Ask([op |-> "Least", a |-> A, f |-> f, rank |-> Rank(A)], Pinv(A, f))
Tangent(A) == Rank(A) = Len(A) /\ Cols(A) = Len(A) + 1 /\ Ask([op |-> "Tangent", a |-> A], Null(A))
\* upper Hessenberg matrices
Hess(H) == Ask([op |-> "Hess", a |-> H], <<Det(H)>>)
Factor(A) == Ask([op |-> "Factor", a |-> A], <<Det(A)>>)
\* the system at a fold:  A x + c1 z = f,  B x + A y + c2 z = g,  phi y = h
FoldM(A, B, p, c1, c2) == LET n == Len(A) IN
  Append([i \in 1..(2 * n) |-> [j \in 1..(2 * n + 1) |->
     IF i <= n THEN (IF j <= n THEN A[i][j] ELSE IF j <= 2 * n THEN RZero ELSE c1[i])
     ELSE IF j <= n THEN B[i - n][j] ELSE IF j <= 2 * n THEN A[i - n][j - n] ELSE c2[i - n]]],
   [j \in 1..(2 * n + 1) |-> IF j <= n \/ j > 2 * n THEN RZero ELSE p[j - n]])
Fold(B, c1, c2, f, adj) == /\ core # Empty /\ Singular(core) /\ Len(core) <= 3
  /\ LET p == Null(core) M == FoldM(core, B, p, c1, c2) IN Fine(p) /\ ~RIsZero(Dot(Null(T(core)), c1)) /\ Regular(M)
       /\ Ask([op |-> "Fold", b |-> B, c1 |-> c1, c2 |-> c2, f |-> f, adj |-> adj, p |-> p], Solve(IF adj THEN T(M) ELSE M, f))
\* preconditioned iteration: diagonally dominant systems
Dominant(M) == \A i \in DOMAIN M : RLess(RMul(<<2, 1>>, RSumSeq([j \in DOMAIN M |-> IF j = i THEN RZero ELSE RAbs(M[i][j])])), RAbs(M[i][i]))
Iter(M, f, y) == Dominant(M) /\ Dominant(T(M)) /\ Ask([op |-> "Iter", a |-> M, f |-> f, y |-> y], Solve(M, f))
-----------------------------------------------------------------------------
\* every answer satisfies its equations
Last1 == hist[Len(hist)]
Answers == hist # <<>> /\ "x" \in DOMAIN Last1 =>
  LET r == Last1 x == r.x M == IF "adj" \in DOMAIN r /\ r.adj THEN T(Whole) ELSE Whole IN
  CASE r.op = "Solve" -> MV(M, x) = r.f
    [] r.op = "Unit" -> MV(M, x) = Unit(Size)
    [] r.op = "Zero" -> MV(M, x) = Append(r.f, RZero)
    [] r.op = "MinNorm" -> MV(SubSeq(Whole, 1, Size - 1), x) = r.f /\ RIsZero(Dot(x, Solve(Whole, Unit(Size))))
    [] r.op = "Nulls" -> MV(core, x) = Zeros(Len(core)) /\ MV(T(core), r.y) = Zeros(Len(core))
    [] r.op = "Det" -> (RIsZero(x[1]) <=> Singular(Whole)) /\ Det(T(Whole)) = x[1]
    [] r.op = "Tangent" -> MV(r.a, x) = Zeros(Len(r.a)) /\ \E i \in DOMAIN x : ~RIsZero(x[i])
    [] r.op = "Least" -> LET res == VAdd(MV(r.a, x), VScale(<<-1, 1>>, r.f)) IN MV(T(r.a), res) = Zeros(Cols(r.a)) /\ (Rank(r.a) = Cols(r.a) - 1 => RIsZero(Dot(x, Null(r.a))))
    [] OTHER -> TRUE
\* block elimination, regular core: det of the whole = det(core) * (d - b A^-1 c), and deflated elimination for singular ones
Block == Len(bord) = 1 => LET b == bord[1] IN
  IF Regular(core) THEN LET s == RMul(Det(core), RSub(b.d, Dot(b.b, Solve(core, b.c)))) IN IsBad(s) \/ s = Det(Whole)
  ELSE LET p == Null(core) q == Null(T(core)) n == Len(core) x == Solve(Whole, Unit(n + 1)) IN
       ~RIsZero(Dot(b.b, p)) /\ ~RIsZero(Dot(b.c, q)) /\ x = Append(VScale(RInv(Dot(b.b, p)), p), RZero)
Init == core = Empty /\ bord = <<>> /\ hist = <<>> /\ step = 0
E1 == {RInt(e) : e \in Entries}
Vecs(n) == [1..n -> E1]
MCNext == step < Depth /\
  CASE core = Empty -> \E A \in [1..2 -> Vecs(2)] : Core(A)
    [] bord = <<>> -> (\E b, c \in Vecs(2) : \E d \in {RZero, ROne} : Border(b, c, d)) \/ Nulls
    [] OTHER -> \/ \E f \in Vecs(3) : \E adj \in BOOLEAN : SolveA(f, adj)
                \/ \E adj \in BOOLEAN : NullA(adj)
                \/ \E f \in Vecs(2) : MinNorm(f) \/ ZeroA(f)
                \/ \E k \in {1} : \E b \in Vecs(2) : Row(k, b, ROne) \/ Col(k, b, RZero)
                \/ DetA
                \/ LET M == SubSeq(Whole, 1, 2) IN Tangent(M) \/ \E f \in Vecs(2) : Least(M, f)
MCSpec == Init /\ [][MCNext]_vars
View == <<core, bord, step, IF hist = <<>> THEN <<>> ELSE Last1>>
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
Small == {<<0, 1>>, <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-2, 1>>, <<3, 1>>, <<1, 2>>}
RV(n, z) == TLCEval([i \in 1..n |-> Pick(Small)])
RM(m, n, z) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Pick(Small)]])
\* of given rank: a product
RR(m, n, r, z) == MM(RM(m, r, z), RM(r, n, z))
RandStep(q) ==
  IF core = Empty THEN q = 1 /\ \E n \in {Pick({1, 2, 3, 3, 4})} : \E A \in {TLCEval(IF n > 1 /\ Pick(1..5) < 4 THEN RR(n, n, n - 1, step) ELSE RM(n, n, step))} : (n > 1 \/ Regular(A)) /\ FineM(A) /\ Core(A)
  ELSE LET n == Len(core) s == Size IN
     CASE q \in {1, 2} -> \E b \in {RV(s, hist)} : \E c \in {RV(s, step)} : \E d \in {Pick(Small)} : Border(b, c, d)
       [] q = 3 -> bord # <<>> /\ \E k \in {Pick(DOMAIN bord)} : \E b \in {RV(n + k - 1, hist)} : \E d \in {Pick(Small)} : Row(k, b, d)
       [] q = 4 -> bord # <<>> /\ \E k \in {Pick(DOMAIN bord)} : \E b \in {RV(n + k - 1, hist)} : \E d \in {Pick(Small)} : Col(k, b, d)
       [] q \in {5, 6} -> \E f \in {RV(s, hist)} : SolveA(f, q = 5)
       [] q = 7 -> \E a \in {Pick(BOOLEAN)} : NullA(a)
       [] q = 8 -> \E f \in {RV(s - 1, hist)} : ZeroA(f)
       [] q = 9 -> \E f \in {RV(s - 1, hist)} : MinNorm(f)
       [] q = 10 -> DetA
       [] q \in {11, 18} -> Nulls \/ \E g \in {RV(n, hist)} : \E a \in {Pick(BOOLEAN)} : Part(g, a)
       [] q = 12 -> \E m \in {Pick(1..4)} : \E k \in {m + Pick(0..2)} : \E r \in {Pick(1..m)} : \E A \in {TLCEval(IF Pick(1..3) = 1 THEN RR(m, k, r, hist) ELSE RM(m, k, hist))} : FineM(A) /\ \E f \in {RV(m, step)} : Least(A, f)
       [] q = 13 -> \E m \in {Pick(1..4)} : \E A \in {RM(m, m + 1, hist)} : Tangent(A)
       [] q = 14 -> \E m \in {Pick(2..5)} : \E A \in {RM(m, m, hist)} : Hess(TLCEval(Mat(m, m, LAMBDA i, j : IF i > j + 1 THEN RZero ELSE A[i][j])))
       [] q = 15 -> \E m \in {Pick(1..4)} : \E A \in {TLCEval(IF m > 1 /\ Pick(1..2) = 1 THEN RR(m, m, m - 1, hist) ELSE RM(m, m, hist))} : FineM(A) /\ Factor(A)
       [] q \in {16, 19} -> \E B \in {RM(n, n, hist)} : \E c \in {RV(n, hist)} : \E d \in {RV(n, step)} : \E f \in {RV(2 * n + 1, hist)} : \E a \in {Pick(BOOLEAN)} : Fold(B, c, d, f, a)
       [] q = 17 -> \E m \in {Pick(1..4)} : \E A \in {RM(m, m, hist)} : \E f \in {RV(m, hist)} : \E y \in {RV(m, step)} :
            Iter(TLCEval(Mat(m, m, LAMBDA i, j : IF i = j THEN RAdd(A[i][i], RInt(IF i % 2 = 0 THEN 19 ELSE -23)) ELSE A[i][j])), f, y)
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<core, bord, hist>>
SimNext == (\E q \in 1..19 : step < Depth /\ RandStep(q)) \/ Emit
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
