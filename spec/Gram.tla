------------------------------- MODULE Gram --------------------------------
(***************************************************************************)
(* Inner products of the columns of functions, and what is built on them:   *)
(* orthogonal factorisations F = Q R, least squares approximation, linear   *)
(* functionals u |-> <F, u> of Sobolev type, Sobolev norms, signed norms    *)
(* and normalisation.  Columns are exact polynomials of the variable of     *)
(* [-1, 1]; the domain enters through its half width h: integrals carry a   *)
(* factor h and every derivative a factor 1/h.                              *)
(***************************************************************************)
EXTENDS Cheb, RatMat, Json
CONSTANTS Depth, NCols
VARIABLES F, U, dom, hist, step
vars == <<F, U, dom, hist, step>>
H == RMul(<<1, 2>>, RSub(dom[2], dom[1]))
Cs(S) == [i \in DOMAIN S |-> PJson(S[i])]
FineP(S) == \A i \in DOMAIN S : ~PIsBad(S[i])
Max1(a, b) == IF a > b THEN a ELSE b
MaxDeg(S) == Max({Deg(S[i]) : i \in DOMAIN S})
\* the matrix of the coefficients, its rank is the rank of the factorisation
CoefM(S) == LET n == MaxDeg(S) + 1 IN Mat(n, Len(S), LAMBDA i, j : Coef(S[j], i - 1))
RankOf(S) == IF MaxDeg(S) = 0 /\ \A i \in DOMAIN S : S[i] = PZero THEN 0 ELSE Rank(CoefM(S))
GramM(S, V) == Mat(Len(S), Len(V), LAMBDA i, j : PInner(S[i], V[j]))
\* Gram-Schmidt without square roots: q[k] = f[k] - sum_j l[j][k] q[j]; a zero column adds nothing
RECURSIVE Ortho(_, _)
Ortho(S, k) ==
  IF k = 0 THEN [q |-> <<>>, l |-> <<>>]
  ELSE LET P == Ortho(S, k - 1)
           l == TLCEval([j \in 1..(k - 1) |-> IF P.q[j] = PZero THEN RZero ELSE RDiv(PInner(S[k], P.q[j]), PInner(P.q[j], P.q[j]))])
           d == FoldSet(LAMBDA j, acc : PSub(acc, PScale(P.q[j], l[j])), S[k], 1..(k - 1))
       IN [q |-> Append(P.q, d), l |-> Append(P.l, l)]
FineO(O) == \A k \in DOMAIN O.q : ~PIsBad(O.q[k]) /\ Fine(O.l[k]) /\ ~IsBad(PInner(O.q[k], O.q[k]))
\* sum over the columns and over the derivatives up to the order
RECURSIVE Sob(_, _, _)
Sob(S, V, o) ==
  LET here == RSumSeq([i \in DOMAIN S |-> PInner(PDiffN(S[i], o), PDiffN(V[i], o))])
      mine == RMul(here, IF o = 0 THEN H ELSE RInv(RPow(H, 2 * o - 1)))
  IN IF o = 0 THEN mine ELSE RAdd(mine, Sob(S, V, o - 1))
RECURSIVE Quart(_, _)
\* fourth powers of the W(k,4) norm
Quart(S, k) == LET D == [i \in DOMAIN S |-> PPow(PDiffN(S[i], k), 2)]
                   mine == RMul(RSumSeq([i \in DOMAIN S |-> PInner(D[i], D[i])]), IF k = 0 THEN H ELSE RInv(RPow(H, 4 * k - 1)))
               IN IF k = 0 THEN mine ELSE RAdd(mine, Quart(S, k - 1))
-----------------------------------------------------------------------------
Base(op) == [op |-> op]
Log(r) == step' = step + 1 /\ hist' = Append(hist, r @@ [f |-> Cs(F), u |-> Cs(U), d |-> dom])
Keep == UNCHANGED <<F, U, dom>>
Same == [F |-> F, U |-> U]
Make(S, V, a, b) == hist = <<>> /\ FineP(S) /\ FineP(V) /\ Len(S) = Len(V) /\ RLess(a, b) /\ F' = S /\ U' = V /\ dom' = <<a, b>> /\ step' = step + 1
  /\ hist' = <<[op |-> "Make", f |-> Cs(S), u |-> Cs(V), d |-> <<a, b>>]>>
\* one column becomes a combination of two
Combine(k, i, j, r) == LET c == PAdd(F[i], PScale(F[j], r)) IN ~PIsBad(c) /\ F' = [F EXCEPT ![k] = c] /\ UNCHANGED <<U, dom>>
  /\ step' = step + 1 /\ hist' = Append(hist, [op |-> "Combine", k |-> k, i |-> i, j |-> j, r |-> r, f |-> Cs(F'), u |-> Cs(U), d |-> dom])
Times(k) == LET c == PMul(F[k], PMono(1, ROne)) IN ~PIsBad(c) /\ Deg(c) <= 6 /\ F' = [F EXCEPT ![k] = c] /\ UNCHANGED <<U, dom>>
  /\ step' = step + 1 /\ hist' = Append(hist, [op |-> "Times", k |-> k, f |-> Cs(F'), u |-> Cs(U), d |-> dom])
Swap == F # U /\ F' = U /\ U' = F /\ UNCHANGED dom /\ step' = step + 1 /\ hist' = Append(hist, [op |-> "Swap", f |-> Cs(U), u |-> Cs(F), d |-> dom])
\* the factorisation exists always; its exact entries are given while they fit
Qr == LET G == TLCEval(GramM(F, F)) O == TLCEval(Ortho(F, Len(F))) rk == RankOf(F) IN rk > 0 /\ FineM(G) /\ Keep
  /\ Log([op |-> "Qr", g |-> G, rank |-> rk, q |-> IF FineO(O) THEN Cs(O.q) ELSE <<>>, l |-> IF FineO(O) THEN O.l ELSE <<>>,
          n |-> IF FineO(O) THEN [k \in DOMAIN O.q |-> PInner(O.q[k], O.q[k])] ELSE <<>>])
\* best approximation of a column of U by the columns of F
Project(k) == RankOf(F) = Len(F) /\
  LET x == Solve(TLCEval(GramM(F, F)), TLCEval([i \in DOMAIN F |-> PInner(F[i], U[k])])) IN Fine(x) /\ Keep /\ Log([op |-> "Project", k |-> k, x |-> x])
Pair(o) == LET x == Sob(F, U, o) IN ~IsBad(x) /\ Keep /\ Log([op |-> "Pair", o |-> o, x |-> x])
\* in units of pi, in the variable of [-1, 1]; with weighted products the domain enters by its half width
Weighted == LET g == Mat(Len(F), Len(U), LAMBDA i, j : PInnerW(F[i], U[j])) IN FineM(g) /\ Keep /\ Log([op |-> "Weighted", g |-> g])
Cross == LET g == GramM(F, U) IN FineM(g) /\ Keep /\ Log([op |-> "Cross", g |-> g])
Norms(o) == LET x == Sob(F, F, o) IN ~IsBad(x) /\ Keep /\ Log([op |-> "Norms", o |-> o, x |-> x])
Norm4(o) == LET x == Quart(F, o) IN ~IsBad(x) /\ Keep /\ Log([op |-> "Norm4", o |-> o, x |-> x])
\* sign at the left end point: of the function or of its derivative; one for constants
Signed(k) == LET p == F[k] D == PDiff(p) x == PInner(p, p) c == D = PZero IN ~IsBad(x) /\ Keep
  /\ Log([op |-> "Signed", k |-> k, x |-> x, sd |-> IF c THEN 1 ELSE RSgn(PEval(D, -2)), sf |-> IF c THEN 1 ELSE RSgn(PEval(p, -2))])
Normalize == LET x == Sob(F, F, 0) IN ~IsBad(x) /\ ~RIsZero(x) /\ Keep /\ Log([op |-> "Normalize", x |-> x])
-----------------------------------------------------------------------------
(* Laws *)
G == GramM(F, F)
\* F = Q R with orthogonal columns, and zero columns exactly where the rank does not grow
Factored == F # <<>> => LET O == TLCEval(Ortho(F, Len(F))) IN FineO(O) =>
  /\ \A k \in DOMAIN F : FoldSet(LAMBDA j, acc : PAdd(acc, PScale(O.q[j], O.l[k][j])), O.q[k], 1..(k - 1)) = F[k]
  /\ \A i, j \in DOMAIN F : i < j => RIsZero(PInner(O.q[i], O.q[j]))
  /\ Cardinality({k \in DOMAIN F : O.q[k] # PZero}) = RankOf(F)
\* the determinant of the Gram matrix is the product of the squared norms; Cauchy-Schwarz
Semi == F # <<>> => LET O == TLCEval(Ortho(F, Len(F))) d == Det(G) n == FoldSet(LAMBDA k, acc : RMul(acc, PInner(O.q[k], O.q[k])), ROne, DOMAIN F) IN
  /\ (FineO(O) /\ ~IsBad(d) /\ ~IsBad(n)) => d = n
  /\ G = T(G)
  /\ (FineM(G) /\ ~IsBad(d)) => ((RIsZero(d) <=> RankOf(F) < Len(F)) /\ d[1] >= 0)
\* integration by parts: <f', u'> = [f' u] - <f'', u>
Parts == F # <<>> => \A i \in DOMAIN F : LET D == PDiff(F[i]) x == RSub(RSub(RMul(PEval(D, 2), PEval(U[i], 2)), RMul(PEval(D, -2), PEval(U[i], -2))), PInner(PDiff(D), U[i]))
                                           y == PInner(D, PDiff(U[i])) IN IsBad(x) \/ IsBad(y) \/ x = y
\* the residual of the best approximation is orthogonal to the columns
Best == (hist # <<>> /\ hist[Len(hist)].op = "Project") => LET r == hist[Len(hist)]
          res == FoldSet(LAMBDA i, acc : PSub(acc, PScale(F[i], r.x[i])), U[r.k], DOMAIN F) IN PIsBad(res) \/ \A i \in DOMAIN F : LET z == PInner(F[i], res) IN IsBad(z) \/ RIsZero(z)
Positive == (hist # <<>> /\ hist[Len(hist)].op \in {"Norms", "Norm4", "Signed"}) => hist[Len(hist)].x[1] >= 0
-----------------------------------------------------------------------------
Init == F = <<>> /\ U = <<>> /\ dom = <<RZero, ROne>> /\ hist = <<>> /\ step = 0
Polys == {PNorm((0 :> a) @@ (1 :> b) @@ (2 :> c)) : a, b \in {RZero, ROne}, c \in {RZero, <<-1, 2>>}}
MCNext == step < Depth /\
  IF hist = <<>> THEN \E S \in [1..NCols -> Polys] : \E s \in {PMono(1, ROne), PMono(3, RInt(2))} : \E b \in (IF NCols = 2 THEN {RInt(3)} ELSE {ROne, RInt(3)}) : Make(S, [i \in 1..NCols |-> IF i = 1 THEN s ELSE S[i - 1]], <<-1, 1>>, b)
  ELSE \/ \E k \in DOMAIN F : Times(k) \/ Project(k) \/ Signed(k)
       \/ \E k, i, j \in DOMAIN F : i # j /\ Combine(k, i, j, <<-1, 1>>)
       \/ Swap \/ Qr \/ Cross \/ Weighted \/ Normalize
       \/ \E o \in 0..2 : Pair(o) \/ Norms(o) \/ Norm4(o)
MCSpec == Init /\ [][MCNext]_vars
View == <<F, U, dom, step, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
Small == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-2, 1>>, <<3, 1>>, <<1, 2>>, <<-3, 2>>}
RP(n, z) == PNorm(TLCEval([k \in 0..(Pick(0..n) + 0 * z) |-> IF Pick(1..3) = 1 THEN RZero ELSE Pick(Small)]))
Ends == {<<<<-1, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<3, 1>>>>, <<<<-2, 1>>, <<1, 2>>>>, <<<<5, 1>>, <<6, 1>>>>}
RandStep(q) ==
  IF hist = <<>> THEN q = 1 /\ \E m \in {Pick({1, 1, 2, 2, 3, 4})} : \E S \in {TLCEval([i \in 1..m |-> RP(5, step)])} : \E V \in {TLCEval([i \in 1..m |-> RP(6, step)])} : \E d \in {Pick(Ends)} : Make(S, V, d[1], d[2])
  ELSE CASE q = 1 -> \E k \in {Pick(DOMAIN F)} : Times(k)
         [] q = 2 -> \E k \in {Pick(DOMAIN F)} : \E i \in {Pick(DOMAIN F)} : \E j \in {Pick(DOMAIN F)} : \E r \in {Pick(Small)} : i # j /\ Combine(k, i, j, r)
         [] q = 3 -> Swap
         [] q \in {4, 5, 6} -> Qr
         [] q = 7 -> \E k \in {Pick(DOMAIN F)} : Project(k)
         [] q \in {8, 9} -> \E o \in {Pick(0..3)} : Pair(o)
         [] q = 10 -> Weighted
         [] q = 11 -> Cross
         [] q = 12 -> \E o \in {Pick(0..3)} : Norms(o)
         [] q = 13 -> \E o \in {Pick(0..1)} : Norm4(o)
         [] q = 14 -> \E k \in {Pick(DOMAIN F)} : Signed(k)
         [] q = 15 -> Normalize
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<F, U, dom, hist>>
SimNext == (\E q \in 1..15 : step < Depth /\ RandStep(q)) \/ Emit
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
