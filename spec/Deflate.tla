------------------------------- MODULE Deflate ------------------------------
(***************************************************************************)
(* Deflation of known solutions.  The deflated residual of a problem F is   *)
(*    eta(u) F(u),   eta(u) = prod_k (shift + 1 / |u - u_k|^p)              *)
(* with the H1 norm of vectors of functions on an interval.  The machine    *)
(* learns solutions, moves the point u, and answers queries: the factor,    *)
(* its derivative in a direction, the derivative of the deflated residual   *)
(* eta F' + F eta' applied to a vector, and the functional that represents  *)
(* a function.  Exact rational arithmetic for even p.                      *)
(***************************************************************************)
EXTENDS Cheb, Json, Randomization
CONSTANTS Ops, MaxKnown, Depth,
          Series(_)      \* a set of series to choose from
VARIABLES dom, m, u, ks, hist, step
vars == <<dom, m, u, ks, hist, step>>

H == RMul(<<1, 2>>, RSub(dom[2], dom[1]))      \* half length
ZipV(a, b, Op(_, _)) == TLCEval([i \in DOMAIN a |-> Op(a[i], b[i])])
VSub(a, b) == ZipV(a, b, PSub)
VAdd(a, b) == ZipV(a, b, PAdd)
DDx(a, j) == TLCEval([i \in DOMAIN a |-> PScale(PDiffN(a[i], j), RPow(RInv(H), j))])
L2(a, b) == RMul(H, RSumSet(DOMAIN a, LAMBDA i : PInner(a[i], b[i])))
\* the Sobolev inner product of order q
RECURSIVE Sob(_, _, _)
Sob(a, b, q) == IF q < 0 THEN RZero ELSE RAdd(Sob(a, b, q - 1), L2(DDx(a, q), DDx(b, q)))
H1(a, b) == Sob(a, b, 1)
VBad(a) == \E i \in DOMAIN a : PIsBad(a[i])

\* one factor and its derivative in direction v
N2(w) == H1(w, w)
One(w, s, p) == RAdd(s, RInv(RPow(N2(w), p \div 2)))
DOne(w, v, p) == RMul(RInt(-p), RMul(H1(w, v), RInv(RPow(N2(w), p \div 2 + 1))))
\* product rule
RECURSIVE Eta(_, _, _, _), DEta(_, _, _, _, _)
Eta(x, K, s, p) == IF K = <<>> THEN ROne ELSE RMul(One(VSub(x, Head(K)), s, p), Eta(x, Tail(K), s, p))
DEta(x, K, s, p, v) == IF K = <<>> THEN RZero
   ELSE LET w == VSub(x, Head(K)) IN
        RAdd(RMul(DOne(w, v, p), Eta(x, Tail(K), s, p)), RMul(One(w, s, p), DEta(x, Tail(K), s, p, v)))
\* the derivative of eta F at a point with F = b and F' the diagonal matrix d, on coefficient vectors; its inverse
\* (dv: the derivative of eta on the vector)
Jac(e, d, b, w, dw) == TLCEval([i \in DOMAIN w |-> RAdd(RMul(e, RMul(d[i], w[i])), RMul(b[i], dw))])
Apart == \A i \in DOMAIN ks : \E j \in DOMAIN u : VSub(u, ks[i])[j] # PZero

Init0(D, M, U) == dom = D /\ m = M /\ u = U /\ ks = <<>> /\ hist = <<>> /\ step = 0
Log(r) == hist' = Append(hist, r) /\ step' = step + 1
VJson(a) == [i \in DOMAIN a |-> PJson(a[i])]
Learn(k) == /\ Len(ks) < MaxKnown /\ k # u
            /\ ks' = Append(ks, k) /\ Log([op |-> "Learn", k |-> VJson(k)]) /\ UNCHANGED <<dom, m, u>>
Move(x) == /\ \A i \in DOMAIN ks : ks[i] # x
           /\ u' = x /\ Log([op |-> "Move", u |-> VJson(x)]) /\ UNCHANGED <<dom, m, ks>>
Query(s, p, v, pad) ==
  LET e == Eta(u, ks, s, p) de == DEta(u, ks, s, p, v) IN
  /\ ~IsBad(e) /\ ~IsBad(de)
  /\ Log([op |-> "Query", s |-> s, p |-> p, v |-> VJson(v), pad |-> pad, eta |-> e, deta |-> de])
  /\ UNCHANGED <<dom, m, u, ks>>
\* the linearised deflated residual on the coefficients of w (padded to n each): diagonal d, residual b
CoefVec(w, n) == TLCEval([i \in 1..(n * m) |-> Coef(w[((i - 1) \div n) + 1], (i - 1) % n)])
Linear(w, d, b, n) ==
  LET e == Eta(u, ks, ROne, 2)
      de == DEta(u, ks, ROne, 2, w)
      jw == Jac(e, d, b, CoefVec(w, n), de) IN
  /\ ~IsBad(e) /\ ~IsBad(de) /\ \A i \in DOMAIN jw : ~IsBad(jw[i])
  /\ \A i \in DOMAIN w : Deg(w[i]) < n
  /\ Log([op |-> "Linear", w |-> VJson(w), d |-> d, b |-> b, n |-> n, jw |-> jw])
  /\ UNCHANGED <<dom, m, u, ks>>
\* a function as a functional
Pair(f, v, q, n) ==
  LET r == Sob(f, v, q) IN
  /\ ~IsBad(r) /\ \A i \in DOMAIN v : Deg(v[i]) < n
  /\ Log([op |-> "Pair", f |-> VJson(f), v |-> VJson(v), q |-> q, n |-> n, val |-> r])
  /\ UNCHANGED <<dom, m, u, ks>>
-----------------------------------------------------------------------------
(* exhaustive instance *)
MCVecs == IF m = 1 THEN {<<p>> : p \in Series(0)} ELSE {<<p, q>> : p \in Series(0), q \in {PZero, PMono(1, ROne)}}
MCInit == \E D \in {<<RZero, RInt(2)>>, <<RInt(-1), RInt(3)>>} : Init0(D, 1, <<PMono(1, ROne)>>) \/ Init0(D, 2, <<PMono(1, ROne), PZero>>)
MCNext == /\ step < Depth
          /\ \/ \E k \in MCVecs : Learn(k)
             \/ \E x \in MCVecs : Move(x)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<dom, m, u, ks>>
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* the factor does not depend on the order in which solutions were learnt, and exceeds shift^number
OrderFree == LET e == Eta(u, ks, ROne, 2) IN ~IsBad(e) => Eta(u, Rev(ks), ROne, 2) \in {e, Bad}
Pushes == LET e == Eta(u, ks, ROne, 2) IN ~IsBad(e) /\ ks # <<>> => RLess(ROne, e)
\* the derivative is linear in the direction, and is the closed formula
Linear2 == \A v \in MCVecs : \A w \in MCVecs :
   LET a == DEta(u, ks, ROne, 2, v) b == DEta(u, ks, ROne, 2, w) c == DEta(u, ks, ROne, 2, VAdd(v, w)) IN
   ~IsBad(a) /\ ~IsBad(b) /\ ~IsBad(c) => c = RAdd(a, b)
RECURSIVE Closed(_, _, _, _)
Closed(x, K, v, p) == IF K = <<>> THEN RZero
   ELSE LET w == VSub(x, Head(K)) IN
        RAdd(RDiv(H1(w, v), RMul(One(w, ROne, p), RPow(N2(w), p \div 2 + 1))), Closed(x, Tail(K), v, p))
ClosedOK == \A v \in MCVecs : \A p \in {2, 4} :
   LET a == DEta(u, ks, ROne, p, v) c == RMul(RMul(RInt(-p), Eta(u, ks, ROne, p)), Closed(u, ks, v, p)) IN
   ~IsBad(a) /\ ~IsBad(c) => a = c
\* moving away from a single known solution along u - k lowers the factor
Away1 == Len(ks) = 1 => LET w == VSub(u, ks[1]) d == DEta(u, ks, ROne, 2, w) IN ~IsBad(d) => RLess(d, RZero)
\* Sherman and Morrison: the inverse of the linearised deflated residual, for a diagonal matrix
InverseOK == \A w \in MCVecs :
   LET n == 2 d == [i \in 1..(n * m) |-> RInt(i)] b == [i \in 1..(n * m) |-> <<1, i>>]
       e == Eta(u, ks, ROne, 2)
       fun(z) == [c \in 1..m |-> PNorm(TLCEval([k \in 0..(n - 1) |-> z[(c - 1) * n + k + 1]]))]
       D(z) == DEta(u, ks, ROne, 2, fun(z))
       y == Jac(e, d, b, CoefVec(w, n), D(CoefVec(w, n)))
       g == TLCEval([i \in DOMAIN y |-> RDiv(y[i], d[i])])
       h == TLCEval([i \in DOMAIN y |-> RDiv(b[i], d[i])])
       den == RAdd(e, D(h))
       f == RDiv(D(g), den)
       z == TLCEval([i \in DOMAIN y |-> RDiv(RSub(g[i], RMul(f, h[i])), e)]) IN
   ((\A i \in DOMAIN w : Deg(w[i]) < n) /\ ~IsBad(den) /\ ~RIsZero(den) /\ \A i \in DOMAIN z : ~IsBad(z[i])) => z = CoefVec(w, n)
MCSmall(z) == {PConst(ROne), PMono(1, RInt(-1)), PMono(2, <<1, 2>>)}
MCSeries(z) == {PZero, PConst(ROne), PMono(1, RInt(-1)), PMono(2, <<1, 2>>), PAdd(PConst(<<1, 2>>), PMono(1, ROne))}
-----------------------------------------------------------------------------
(* simulation *)
Pick(S) == RandomElement(S)
CoefPool == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 1>>, <<0, 1>>}
RandSeries(z) == LET k == Pick(1..8) IN
   IF k = 1 THEN PZero ELSE IF k <= 3 THEN PConst(Pick(CoefPool \ {<<0, 1>>}))
   ELSE LET D == TLCEval(RandomSubset(Pick(1..2), 0..Pick({2, 3, 4}))) IN PNorm(TLCEval([i \in D |-> Pick(CoefPool)]))
RandVec(z, n) == IF n = 1 THEN <<TLCEval(RandSeries(z))>> ELSE <<TLCEval(RandSeries(z)), TLCEval(RandSeries(z + 1))>>
\* near a point: one coefficient changed, so that norms stay simple
RandNear(z, x) == LET i == Pick(DOMAIN x) IN [x EXCEPT ![i] = PAdd(@, PMono(Pick(0..2), Pick(CoefPool \ {<<0, 1>>})))]
Doms == {<<RInt(-1), ROne>>, <<RZero, ROne>>, <<RZero, RInt(2)>>, <<RInt(-1), RInt(3)>>, <<RInt(1), RInt(3)>>, <<RInt(-8), RInt(8)>>, <<<<-1, 2>>, <<3, 2>>>>}
\* (the domain is drawn in the first step, since initial states are computed once)
Start == /\ step = 0
         /\ \E D \in {Pick(Doms)} : \E M \in {Pick({1, 2})} :
            /\ dom' = D /\ m' = M /\ u' = (IF M = 1 THEN <<PConst(ROne)>> ELSE <<PConst(ROne), PZero>>)
            /\ ks' = <<>> /\ step' = 1 /\ hist' = <<[op |-> "New", dom |-> D, u |-> VJson(u')]>>
RandStep(op) ==
  CASE op = "Learn" -> \E k \in {IF Pick(1..3) = 1 THEN RandVec(step, m) ELSE RandNear(step, u)} : Learn(TLCEval(k))
    [] op = "Move" -> \E x \in {IF Pick(1..3) = 1 THEN RandVec(step, m) ELSE RandNear(step, u)} : Move(TLCEval(x))
    [] op = "Query" -> \E v \in {RandVec(step, m)} : \E s \in {Pick({ROne, <<1, 2>>, RInt(2)})} : \E p \in {Pick({2, 2, 4})} : \E pad \in {Pick({0, 1, 4})} :
                         Query(s, p, TLCEval(v), pad)
    [] op = "Linear" -> \E w \in {RandVec(step, m)} : \E n \in {Pick({5, 6})} :
                         \E d \in {[i \in 1..(n * m) |-> Pick({ROne, RInt(-2), <<1, 2>>, RInt(4)})]} : \E b \in {[i \in 1..(n * m) |-> Pick({RZero, ROne, RInt(-1), <<1, 2>>})]} :
                         Linear(TLCEval(w), TLCEval(d), TLCEval(b), n)
    [] op = "Pair" -> \E f \in {RandVec(step, m)} : \E v \in {RandVec(step + 7, m)} : \E q \in {Pick(0..2)} : \E n \in {Pick({5, 6, 9, 17})} : Pair(TLCEval(f), TLCEval(v), q, n)
Emit == /\ step = Depth + 1 /\ step' = Depth + 2
        /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<dom, m, u, ks, hist>>
SimNext == Start \/ (\E op \in Ops : step > 0 /\ step <= Depth /\ RandStep(op)) \/ Emit
SimSpec == Init0(<<RZero, ROne>>, 1, <<PZero>>) /\ [][SimNext]_vars
=============================================================================
