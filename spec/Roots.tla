-------------------------------- MODULE Roots -------------------------------
(***************************************************************************)
(* Zeros and extreme values.  The machine carries a function with one or    *)
(* several components on an interval; every component is P(T_d(x)) with T_d *)
(* a Chebyshev polynomial (d = 1: a polynomial) and P known either by its   *)
(* zeros ("R": P = c * prod (t - r) * prod (t^2 + q)) or by the zeros of    *)
(* its derivative ("E": P = c0 + integral of such a product), so that all   *)
(* zeros, or all extrema, of the component are known exactly:               *)
(*   zeros      x = cos((acos(r) + 2 pi k)/d) for the zeros r in (-1, 1);   *)
(*   extrema    of P over [-1, 1], which T_d maps onto [-1, 1].             *)
(* A periodic function (per) is such a component with x = cos(phase), which  *)
(* takes every value of [-1, 1]: it has the same extreme values.            *)
(* Actions build the function (from coefficients, by sampling, by           *)
(* arithmetic), change it (scale, multiply by a factor, add a constant,     *)
(* restrict, lengthen, add a component) and ask for zeros, extreme values   *)
(* and the maximum norm.  Asking changes nothing.                           *)
(***************************************************************************)
EXTENDS Cheb, Randomization, Json
CONSTANTS Depth, Kinds, Top
VARIABLES kind, cols, dom, hist, step, per
vars == <<kind, cols, dom, hist, step, per>>

One == <<-1, 1>>
Lin(r) == PAdd(PMono(1, ROne), PConst(RNeg(r)))
Quad(q) == PAdd(PMono(2, <<1, 2>>), PConst(RAdd(<<1, 2>>, q)))
\* P o T_d in the Chebyshev basis: T_k(T_d) = T_{k d}
Inner(p, d) == TLCEval([j \in {k * d : k \in DOMAIN p} |-> p[j \div d]])
ProdLin(S) == FoldSet(LAMBDA r, acc : PMul(acc, Lin(r)), PConst(ROne), S)
ProdQuad(S) == FoldSet(LAMBDA q, acc : PMul(acc, Quad(q)), PConst(ROne), S)
\* value at any rational point
RECURSIVE TAt(_, _)
TAt(k, x) == IF k = 0 THEN ROne ELSE IF k = 1 THEN x
             ELSE RSub(RMul(RMul(RInt(2), x), TAt(k - 1, x)), TAt(k - 2, x))
ValAt(p, x) == RSumSet(DOMAIN p, LAMBDA k : RMul(p[k], TAt(k, x)))

\* a component: the outer polynomial, the degree of the inner one, its known
\* points (zeros of P, or of P') and whether it is constant
Comp(p, d, pts) == [p |-> p, d |-> d, pts |-> pts]
Prod(S, Q, c) == PScale(PMul(ProdLin(S), ProdQuad(Q)), c)
RComp(S, Q, c, d) == Comp(Prod(S, Q, c), d, S)
EComp(S, Q, c, c0, d) == Comp(PAdd(PCum(Prod(S, Q, c)), PConst(c0)), d, S)
Within(r) == RLess(One, r) /\ RLess(r, ROne)
Inside(S) == {r \in S : Within(r)}
Series(c) == Inner(c.p, c.d)
Good(c) == ~PIsBad(c.p)
IsConst(c) == Deg(c.p) = 0
\* candidates for the extreme values of P over [-1, 1] and the values there
Cand(c) == IF IsConst(c) THEN {RZero} ELSE Inside(c.pts) \cup {ROne, One}
Vals(c) == {ValAt(c.p, x) : x \in Cand(c)}
HasVals(c) == kind = "E" /\ \A v \in Vals(c) : ~IsBad(v)
MinOf(S) == CHOOSE v \in S : \A w \in S : RLeq(v, w)
MaxOf(S) == CHOOSE v \in S : \A w \in S : RLeq(w, v)
AbsMax(c) == MaxOf({RAbs(v) : v \in Vals(c)})

Json1(c) == [s |-> PJson(Series(c)), d |-> c.d, roots |-> SetToSortSeq(Inside(c.pts), RLess)]
JCols == [i \in 1..Len(cols) |-> Json1(cols[i])]
Rec(r) == hist' = Append(hist, r) /\ step' = step + 1
\* the record of an action that leaves the function cs on the domain dm
Chg(r, cs, dm) == /\ \A i \in DOMAIN cs : Good(cs[i])
                  /\ cols' = cs /\ dom' = dm
                  /\ Rec(r @@ [dom |-> dm, cols |-> [i \in DOMAIN cs |-> Json1(cs[i])]])
Map1(F(_)) == [i \in DOMAIN cols |-> F(cols[i])]

Make(k, cs, dm, how, pr) == /\ step = 0 /\ kind' = k /\ per' = pr /\ Chg([op |-> "Make", how |-> how, per |-> pr], cs, dm)
Scale(c) == /\ step > 0 /\ Chg([op |-> "Scale", c |-> c], Map1(LAMBDA x : [x EXCEPT !.p = PScale(x.p, c)]), dom) /\ UNCHANGED <<kind, per>>
\* multiplication by (x - r), x in [-1, 1]
Times(r) == /\ step > 0 /\ ~per /\ kind = "R" /\ \A i \in DOMAIN cols : cols[i].d = 1 /\ r \notin cols[i].pts
            /\ Chg([op |-> "Times", r |-> r], Map1(LAMBDA x : Comp(PMul(x.p, Lin(r)), 1, x.pts \cup {r})), dom) /\ UNCHANGED <<kind, per>>
Shift(c) == /\ step > 0 /\ kind = "E" /\ Chg([op |-> "Shift", c |-> c], Map1(LAMBDA x : [x EXCEPT !.p = PAdd(x.p, PConst(c))]), dom) /\ UNCHANGED <<kind, per>>
\* restriction to the image of [l, u]: x = al y + be
Back(x, al, be) == RDiv(RSub(x, be), al)
Narrow(l, u) == LET al == RDiv(RSub(u, l), RInt(2)) be == RDiv(RAdd(u, l), RInt(2))
                    to(x) == RAdd(dom[1], RMul(RDiv(RSub(dom[2], dom[1]), RInt(2)), RAdd(x, ROne)))
                    dm == <<to(l), to(u)>>
                    tr(c) == Comp(PAffine(c.p, al, be), 1, {Back(x, al, be) : x \in c.pts})
                    cs == Map1(tr)
                IN /\ step > 0 /\ ~per /\ RLess(l, u) /\ ~IsBad(dm[1]) /\ ~IsBad(dm[2]) /\ RLess(dm[1], dm[2])
                   /\ \A i \in DOMAIN cols : cols[i].d = 1 /\ \A x \in cs[i].pts : ~IsBad(x) /\ x \notin {One, ROne}
                   /\ Chg([op |-> "Narrow"], cs, dm) /\ UNCHANGED <<kind, per>>
Longer(n) == /\ step > 0 /\ ~per /\ Chg([op |-> "Longer", n |-> n], cols, dom) /\ UNCHANGED <<kind, per>>
Column(c) == /\ step > 0 /\ ~per /\ Len(cols) < 3 /\ Chg([op |-> "Column"], Append(cols, c), dom) /\ UNCHANGED <<kind, per>>
\* queries
Same == UNCHANGED <<kind, cols, dom, per>>
Roots == step > 0 /\ kind = "R" /\ Rec([op |-> "Roots"]) /\ Same
Extremes == /\ step > 0 /\ \A i \in DOMAIN cols : HasVals(cols[i])
            /\ Rec([op |-> "Extremes", vals |-> [i \in DOMAIN cols |-> LET v == Vals(cols[i]) IN <<MinOf(v), MaxOf(v)>>]]) /\ Same
NormInf == /\ step > 0 /\ \A i \in DOMAIN cols : HasVals(cols[i])
           /\ Rec([op |-> "NormInf", val |-> MaxOf({AbsMax(cols[i]) : i \in DOMAIN cols})]) /\ Same
-----------------------------------------------------------------------------
(* laws, checked over a grid of components                                   *)
Grid == {<<j, 4>> : j \in -4..4}
Ks == DOMAIN cols
\* the known points are zeros of the right polynomial, and simple ones
Simple == \A i \in Ks : LET c == cols[i] q == IF kind = "R" THEN c.p ELSE PDiff(c.p) IN
  ~IsConst(c) => \A r \in c.pts : LET v == ValAt(q, r) w == ValAt(PDiff(q), r) IN IsBad(v) \/ (RIsZero(v) /\ (IsBad(w) \/ ~RIsZero(w)))
\* no zero is missing: the sign changes between neighbouring grid points
\* exactly when an odd number of known points lies between them
Sg(v) == RSgn(v)
Count(S, a, b) == Cardinality({r \in S : RLess(a, r) /\ RLess(r, b)})
Complete == \A i \in Ks : LET c == cols[i] q == IF kind = "R" THEN c.p ELSE PDiff(c.p) IN
  ~IsConst(c) => \A a, b \in Grid : RLess(a, b) =>
    LET v == ValAt(q, a) w == ValAt(q, b) IN
      (~IsBad(v) /\ ~IsBad(w) /\ ~RIsZero(v) /\ ~RIsZero(w)) => ((Sg(v) # Sg(w)) <=> (Count(c.pts, a, b) % 2 = 1))
\* nothing on the grid exceeds the extreme values
Extremal == \A i \in Ks : LET c == cols[i] IN HasVals(c) =>
  \A x \in Grid : LET v == ValAt(c.p, x) IN IsBad(v) \/ (RLeq(MinOf(Vals(c)), v) /\ RLeq(v, MaxOf(Vals(c))))
\* the composed component takes the outer one's values (compared where T_d is rational)
Composed == \A i \in Ks : LET c == cols[i] IN \A h \in {-2, -1, 0, 1, 2} :
  LET v == PEval(Series(c), h) w == ValAt(c.p, <<TwoT(c.d, h), 2>>) t == RMk(TwoT(c.d, h), 2) u == ValAt(c.p, t) IN IsBad(v) \/ IsBad(u) \/ v = u

Pts0 == {<<-1, 2>>, <<0, 1>>, <<1, 3>>, <<3, 4>>, <<3, 2>>, <<-2, 1>>}
MCComps(k) == LET Ss == {S \in SUBSET Pts0 : Cardinality(S) <= Top} IN
  IF k = "R" THEN {RComp(S, Q, c, d) : S \in Ss, Q \in {{}, {<<1, 2>>}}, c \in {ROne, <<-1, 2>>}, d \in {1, 2, 3}}
  ELSE {EComp(S, {}, c, c0, d) : S \in Ss, c \in {ROne, RZero, <<-1, 2>>}, c0 \in {RZero, <<1, 2>>}, d \in {1, 2, 3}}
MCInit == kind = "R" /\ cols = <<>> /\ dom = <<One, ROne>> /\ hist = <<>> /\ step = 0 /\ per = FALSE
MCNext == step < Depth /\
  \/ \E k \in Kinds : \E c \in MCComps(k) : Make(k, <<c>>, <<One, ROne>>, "coeffs", FALSE)
  \/ \E c \in {RZero, <<2, 1>>, <<-1, 3>>} : Shift(c) \/ (c # RZero /\ Scale(c))
  \/ \E r \in {<<-1, 3>>, <<1, 4>>, <<4, 3>>} : Times(r)
  \/ \E l \in {<<-1, 1>>, <<-1, 4>>} : \E u \in {<<1, 1>>, <<1, 2>>} : Narrow(l, u)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<kind, cols, dom, step, per>>
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
RootPool == {<<a, b>> : a \in {-1, 1}, b \in {2, 3, 4, 5}} \cup {<<a, b>> : a \in {-3, -2, 2, 3}, b \in {5, 7}} \cup {<<a, 4>> : a \in {-3, 3}} \cup {<<a, 3>> : a \in {-2, 2, -4, 4}}
            \cup {<<0, 1>>, <<3, 2>>, <<-3, 2>>, <<2, 1>>, <<9, 10>>, <<-9, 10>>, <<5, 4>>, <<-5, 4>>}
Doms == {<<<<-1, 1>>, ROne>>, <<RZero, ROne>>, <<<<-2, 1>>, <<3, 1>>>>, <<<<1, 2>>, <<5, 2>>>>, <<<<-7, 1>>, <<-5, 1>>>>, <<RZero, <<100, 1>>>>}
Cs == {ROne, <<-1, 1>>, <<1, 2>>, <<3, 1>>, <<-5, 2>>, <<1, 100>>, <<40, 1>>}
Degs(z) == IF Pick(1..3) = 1 THEN Pick({2, 3, 5, 8, 17, 26, 40, 51, 60, 99, 130, 171, 257, 300, 520}) ELSE 1
RandComp(k, d) == LET S == RandomSubset(Pick({0, 1, 2, 2, 3, 3, 4}), RootPool)
                      Q == IF Pick(1..4) = 1 THEN {Pick({<<1, 2>>, <<1, 5>>, <<2, 1>>})} ELSE {} IN
  IF k = "R" THEN RComp(S, Q, Pick(IF Pick(1..12) = 1 THEN {RZero} ELSE Cs), d)
  ELSE EComp(S, Q, Pick(IF Pick(1..9) = 1 THEN {RZero} ELSE Cs), Pick(Cs \cup {RZero}), d)
\* nothing is claimed about the zeros of the zero function; zeros at the ends are decided by rounding
Fit(k, c) == Good(c) /\ (k = "R" => \A x \in c.pts : x \notin {One, ROne}) /\ Deg(c.p) * c.d <= 1300
RandStep(q) ==
  IF step = 0 THEN q = 1 /\ \E k \in {Pick(Kinds)} : \E d \in {Degs(step)} : \E c \in {TLCEval(RandComp(k, d))} : \E m \in {Pick(1..3)} : \E c2 \in {TLCEval(RandComp(k, Degs(c)))} :
         \E how \in {Pick({"coeffs", "padded", "call"})} : \E dm \in {Pick(Doms)} :
           Fit(k, c) /\ Fit(k, c2) /\ \E pr \in {k = "E" /\ Pick(1..5) = 1 /\ Deg(c.p) * c.d <= 7 /\ Deg(c2.p) * c2.d <= 7} :
             Make(k, IF m = 1 THEN <<c, c2>> ELSE <<c>>, dm, how, pr)
  ELSE CASE q = 1 -> \E c \in {Pick(Cs)} : Scale(c)
         [] q = 2 -> \E r \in {Pick(RootPool)} : Times(r)
         [] q = 3 -> \E c \in {Pick(Cs)} : Shift(c)
         [] q = 4 -> \E l \in {Pick({<<-1, 1>>, <<-3, 4>>, <<-1, 4>>, <<0, 1>>})} : \E u \in {Pick({<<1, 1>>, <<1, 2>>, <<3, 4>>, <<1, 4>>})} : Narrow(l, u)
         [] q = 5 -> \E n \in {Pick({5, 20, 60, 130, 600})} : Longer(n)
         [] q = 6 -> \E c \in {TLCEval(RandComp(kind, Degs(step)))} : Fit(kind, c) /\ Column(c)
         [] q \in {7, 10} -> Roots
         [] q \in {8, 11} -> Extremes
         [] q = 9 -> NormInf
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<kind, cols, dom, hist, per>>
SimNext == (\E q \in 1..11 : step < Depth /\ RandStep(q)) \/ Emit
SimSpec == MCInit /\ [][SimNext]_vars
=============================================================================
