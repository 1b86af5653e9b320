-------------------------------- MODULE Ultra -------------------------------
(***************************************************************************)
(* Coefficient vectors of functions in the ultraspherical bases C^(lam)     *)
(* (lam = 0: Chebyshev polynomials).  The machine carries one function, the *)
(* basis it is represented in and the length of the vector, through         *)
(*   Up, Down   changes of basis,   Diff   T -> C^(m) of the derivative,    *)
(*   Mult       multiplication operators in any basis,                      *)
(*   Cut        the same where the product does not fit: its first n        *)
(*              coefficients,                                               *)
(*   Int, At, Conv, Back   integral, point evaluation, direct conversion    *)
(*              between two bases, and conversion to a function.            *)
(***************************************************************************)
EXTENDS Expr, Randomization
CONSTANTS Depth, MaxLam
VARIABLES f, lam, n, hist, step
vars == <<f, lam, n, hist, step>>
\* the first n coefficients
Trunc(p, k) == TLCEval([i \in {j \in DOMAIN p : j < k} |-> p[i]])
Rep(p, l) == Up(p, 0, l)
Log(r) == hist' = Append(hist, r) /\ step' = step + 1
Ok(p) == ~PIsBad(p)
Set(p, k) == LET r == p IN /\ Deg(p) < k
             /\ f' = p /\ n' = k /\ lam' = 0 /\ Log([op |-> "Set", n |-> k, vec |-> PJson(r)])
Move(l, name) == LET r == Rep(f, l) IN
  /\ Ok(r) /\ lam' = l /\ UNCHANGED <<f, n>> /\ Log([op |-> name, l1 |-> lam, l2 |-> l, vec |-> PJson(r)])
UpTo(l) == l > lam /\ l <= MaxLam /\ Move(l, "Up")
DownTo(l) == l >= 0 /\ l < lam /\ Move(l, "Down")
Diff(m) == LET p == PDiffN(f, m) r == Rep(p, m) IN
  /\ lam = 0 /\ m <= MaxLam /\ Ok(p) /\ Ok(r) /\ f' = p /\ lam' = m /\ n' = n /\ Log([op |-> "Diff", m |-> m, vec |-> PJson(r)])
Mult(g) == LET p == PMul(f, g) r == Rep(p, lam) IN
  /\ Deg(g) < n /\ Deg(p) < n /\ Ok(p) /\ Ok(r) /\ f' = p /\ UNCHANGED <<lam, n>> /\ Log([op |-> "Mult", lam |-> lam, g |-> PJson(g), vec |-> PJson(r)])
Cut(g) == LET p == PMul(f, g) r == Rep(p, lam) IN
  /\ Deg(g) < n /\ Deg(f) + Deg(g) >= n /\ Ok(p) /\ Ok(r) /\ Log([op |-> "Cut", lam |-> lam, g |-> PJson(g), vec |-> PJson(Trunc(r, n))]) /\ UNCHANGED <<f, lam, n>>
Integ == LET r == PSum(f) IN lam = 0 /\ ~IsBad(r) /\ Log([op |-> "Int", vec |-> PJson(PConst(r))]) /\ UNCHANGED <<f, lam, n>>
At(h) == LET r == PEval(f, h) IN lam = 0 /\ ~IsBad(r) /\ Log([op |-> "At", h |-> h, val |-> r]) /\ UNCHANGED <<f, lam, n>>
Conv(l) == LET r == Rep(f, l) IN Ok(r) /\ Log([op |-> "Conv", l1 |-> lam, l2 |-> l, vec |-> PJson(r)]) /\ UNCHANGED <<f, lam, n>>
Back == Log([op |-> "Back", lam |-> lam, vec |-> PJson(f)]) /\ UNCHANGED <<f, lam, n>>
-----------------------------------------------------------------------------
(* laws, checked over small functions: the bases are linear, evaluation at   *)
(* 1 of C^(lam)_k is binomial, multiplication is a ring action in any basis  *)
RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 THEN 1 ELSE (Binom(a, b - 1) * (a - b + 1)) \div b
AtOne(r, l) == RSumSet(DOMAIN r, LAMBDA k : RMul(r[k], RInt(IF l = 0 THEN 1 ELSE Binom(k + 2 * l - 1, k))))
ValueKept == step > 0 => \A l \in 0..MaxLam : LET r == Rep(f, l) IN Ok(r) => LET v == AtOne(r, l) w == PEval(f, 2) IN IsBad(v) \/ IsBad(w) \/ v = w
DiagDiff == step > 0 => \A m \in 0..MaxLam : LET a == Rep(PDiffN(f, m), m) b == DUltra(f, m) IN Ok(a) /\ Ok(b) => a = b
Fits == step > 0 => Deg(f) < n
Coefs == {ROne, <<-1, 1>>, <<1, 2>>, <<2, 1>>}
Small == {PZero} \cup {PMono(k, c) : k \in 0..4, c \in {ROne, <<-1, 2>>}} \cup {PAdd(PMono(k, ROne), PMono(j, RInt(2))) : k \in 0..2, j \in 3..5}
MCInit == f = PZero /\ lam = 0 /\ n = 0 /\ hist = <<>> /\ step = 0
MCNext == /\ hist' = <<>> /\ step < Depth /\ step' = step + 1
          /\ \/ step = 0 /\ f' \in Small /\ n' \in {6, 9} /\ lam' = 0
             \/ step > 0 /\ (\E l \in 0..MaxLam : lam' = l) /\ UNCHANGED <<f, n>>
             \/ step > 0 /\ lam = 0 /\ (\E m \in 1..MaxLam : f' = PDiffN(f, m) /\ lam' = m) /\ n' = n
             \/ step > 0 /\ (\E g \in Small : f' = PMul(f, g) /\ Deg(f') < n) /\ UNCHANGED <<lam, n>>
MCSpec == MCInit /\ [][MCNext]_vars
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
Pool == Coefs \cup {<<-2, 1>>, <<3, 1>>, <<-1, 4>>, <<3, 2>>}
RandSeries(z, top) == LET D == TLCEval(RandomSubset(Min({Pick(1..3), top + 1}), 0..top)) IN PNorm(TLCEval([i \in D |-> Pick(Pool)]))
RandStep(k) ==
  IF step = 0 \/ k = 0 THEN \E m \in {Pick({2, 3, 4, 5, 6, 8, 9, 12, 17, 20, 33, 110})} : \E p \in {RandSeries(step, Min({m - 1, Pick({3, 6, 12, 30})}))} : Set(p, m)
  ELSE CASE k = 1 -> \E l \in {Pick(1..MaxLam)} : UpTo(l)
         [] k = 2 -> \E l \in {Pick(0..MaxLam)} : DownTo(l)
         [] k = 3 -> \E m \in {Pick(1..MaxLam)} : Diff(m)
         [] k = 4 -> \E g \in {RandSeries(step, Min({n - 1, Pick({0, 1, 2, 3, 6})}))} : Mult(g)
         [] k = 5 -> \E g \in {RandSeries(step, n - 1)} : n < 40 /\ Cut(g)
         [] k = 6 -> Integ
         [] k = 7 -> \E h \in {Pick(-2..2)} : At(h)
         [] k = 8 -> \E l \in {Pick(0..MaxLam)} : Conv(l)
         [] k = 9 -> Back
         [] k = 10 -> \E l \in {Pick(0..MaxLam)} : UpTo(l) \/ DownTo(l)
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<f, lam, n, hist>>
SimNext == (\E k \in 0..10 : step < Depth /\ RandStep(k)) \/ Emit
SimSpec == MCInit /\ [][SimNext]_vars
=============================================================================
