------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* Functions that are not polynomials.  A machine of three registers, each  *)
(* holding a function with one or two components on one interval; every     *)
(* component is an expression over polynomials and geometric kernels        *)
(*   geo(r) = (1 - r^2) / (1 - 2 r x + r^2) = 1 + 2 sum r^k T_k,            *)
(* combined by arithmetic, quotients, real powers and smooth functions.     *)
(* The state carries a rational enclosure [lo, hi] of the values of every   *)
(* component: an action is enabled only where its result is smooth on the   *)
(* whole interval (divisors and arguments of abs have a sign, arguments of  *)
(* log, sqrt and real powers are positive), so that every function of a     *)
(* behaviour is one the implementation has to represent to rounding.        *)
(* Periodic functions (per) are such expressions in x = cos(phase).         *)
(* In-place operations and operations with a target change the target, and  *)
(* nothing else.                                                            *)
(***************************************************************************)
EXTENDS Cheb, Randomization, Json
CONSTANTS Depth, MaxTree
VARIABLES reg, per, dom, hist, step
vars == <<reg, per, dom, hist, step>>
Regs == 1..3

RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
\* enclosures are rounded outwards to multiples of 1/64
Floor(r) == IF IsBad(r) THEN Bad ELSE RMk((r[1] * 64) \div r[2], 64)
Ceil(r) == IF IsBad(r) THEN Bad ELSE RMk(-((-r[1] * 64) \div r[2]), 64)
Out(t, lo, hi, n) == [t |-> t, lo |-> Floor(lo), hi |-> Ceil(hi), n |-> n, sp |-> FALSE]
\* sp: sparse in high degrees.  No sampling procedure resolves transcendental
\* functions of these reliably; products and powers have a known degree.
Sp(c, b) == [c EXCEPT !.sp = b]
Fine(c) == ~IsBad(c.lo) /\ ~IsBad(c.hi) /\ RLess(c.lo, <<200, 1>>) /\ RLess(<<-200, 1>>, c.hi) /\ RLess(c.hi, <<200, 1>>) /\ RLess(<<-200, 1>>, c.lo) /\ c.n <= MaxTree
Min4(S) == CHOOSE v \in S : \A w \in S : RLeq(v, w)
Max4(S) == CHOOSE v \in S : \A w \in S : RLeq(w, v)
Some(S) == \A v \in S : ~IsBad(v)
\* components
Poly(p) == LET r == RSumSet(DOMAIN p \ {0}, LAMBDA k : RAbs(p[k])) IN
  Out([k |-> "poly", s |-> PJson(p)], RSub(Coef(p, 0), r), RAdd(Coef(p, 0), r), 1)
Geo(r) == LET a == RDiv(RSub(ROne, RAbs(r)), RAdd(ROne, RAbs(r))) IN Out([k |-> "geo", r |-> r], a, RInv(a), 1)
Node(op, l, r) == [k |-> op, l |-> l.t, r |-> r.t]
SumC(f, g) == Sp(Out(Node("add", f, g), RAdd(f.lo, g.lo), RAdd(f.hi, g.hi), f.n + g.n), f.sp \/ g.sp)
DifC(f, g) == Sp(Out(Node("sub", f, g), RSub(f.lo, g.hi), RSub(f.hi, g.lo), f.n + g.n), f.sp \/ g.sp)
MulC(f, g) == LET S == {RMul(x, y) : x \in {f.lo, f.hi}, y \in {g.lo, g.hi}} IN
  IF Some(S) THEN Sp(Out(Node("mul", f, g), Min4(S), Max4(S), f.n + g.n), f.sp \/ g.sp) ELSE Out(f.t, Bad, Bad, 0)
Away == <<1, 8>>
Pos(f) == RLeq(Away, f.lo)
Neg(f) == RLeq(f.hi, RNeg(Away))
Signed(f) == Pos(f) \/ Neg(f)
InvC(f) == IF Signed(f) THEN Out([k |-> "inv", l |-> f.t], RInv(f.hi), RInv(f.lo), f.n) ELSE Out(f.t, Bad, Bad, 0)
DivC(f, g) == LET S == {RDiv(x, y) : x \in {f.lo, f.hi}, y \in {g.lo, g.hi}} IN
  IF Signed(g) /\ Some(S) /\ ~g.sp /\ (f.sp => g.t.k = "num") THEN Sp( Out(Node("div", f, g), Min4(S), Max4(S), f.n + g.n), f.sp) ELSE Out(f.t, Bad, Bad, 0)
NumC(c) == Out([k |-> "num", c |-> c], c, c, 1)
AbsC(f) == Sp(IF Pos(f) THEN Out([k |-> "abs", l |-> f.t], f.lo, f.hi, f.n) ELSE IF Neg(f) THEN Out([k |-> "abs", l |-> f.t], RNeg(f.hi), RNeg(f.lo), f.n) ELSE Out(f.t, Bad, Bad, 0), f.sp)
\* whole and half powers, e = twice the exponent
HalfLo(x) == RMin(x, ROne)
HalfHi(x) == RMax(x, ROne)
PowEnc(f, e) == \* for positive f: monotone; half powers enclosed between x and 1
  LET k == e \div 2 odd == e % 2 = 1
      a == IF odd THEN HalfLo(f.lo) ELSE ROne  b == IF odd THEN HalfHi(f.hi) ELSE ROne
      lo == IF k >= 0 THEN RPow(f.lo, k) ELSE RPow(RInv(f.hi), -k)
      hi == IF k >= 0 THEN RPow(f.hi, k) ELSE RPow(RInv(f.lo), -k)
  IN <<RMul(lo, a), RMul(hi, b)>>
PowC(f, e) == Sp(IF f.sp /\ e \notin {4, 6, 8} THEN Out(f.t, Bad, Bad, 0) ELSE IF Pos(f) /\ (e < 4 \/ e % 2 = 0) THEN LET v == PowEnc(f, e) IN Out([k |-> "pow", l |-> f.t, e |-> e], v[1], v[2], f.n)
              ELSE IF e \in {4, 6} THEN LET m == RMax(RAbs(f.lo), RAbs(f.hi)) v == RPow(m, e \div 2) IN Out([k |-> "pow", l |-> f.t, e |-> e], RNeg(v), v, f.n)
              ELSE Out(f.t, Bad, Bad, 0), f.sp)
\* smooth functions
IntFloor(r) == r[1] \div r[2]
IntCeil(r) == -((-r[1]) \div r[2])
ExpLo(k) == IF k >= 0 THEN <<ROne, <<5, 2>>, <<7, 1>>, <<20, 1>>, <<54, 1>>>>[Min({k, 4}) + 1]
            ELSE IF k >= -3 THEN <<<<1, 3>>, <<1, 8>>, <<1, 21>>>>[-k] ELSE RZero
ExpHi(k) == IF k > 0 THEN <<<<11, 4>>, <<15, 2>>, <<41, 2>>, <<55, 1>>>>[k]
            ELSE IF k = 0 THEN ROne ELSE IF k >= -3 THEN <<<<3, 8>>, <<1, 7>>, <<1, 20>>>>[-k] ELSE <<1, 50>>
FunC(u, f) ==
  LET w(lo, hi) == IF f.sp /\ u \notin {"square", "negative", "absolute"} THEN Out(f.t, Bad, Bad, 0) ELSE Sp(Out([k |-> "fun", u |-> u, l |-> f.t], lo, hi, f.n + 1), f.sp)
      small == RLeq(<<-10, 1>>, f.lo) /\ RLeq(f.hi, <<10, 1>>)
  IN CASE u = "exp" /\ RLeq(f.hi, <<4, 1>>) -> w(ExpLo(IntFloor(f.lo)), ExpHi(IntCeil(f.hi)))
       [] u \in {"sin", "cos", "tanh"} /\ small -> w(<<-1, 1>>, ROne)
       [] u = "arctan" /\ small -> w(<<-8, 5>>, <<8, 5>>)
       [] u = "log" /\ Pos(f) -> w(RSub(ROne, RInv(f.lo)), RSub(f.hi, ROne))
       [] u = "sqrt" /\ Pos(f) -> w(HalfLo(f.lo), HalfHi(f.hi))
       [] u = "square" -> LET m == RMax(RAbs(f.lo), RAbs(f.hi)) IN w(RZero, RMul(m, m))
       [] u = "reciprocal" /\ Signed(f) -> w(RInv(f.hi), RInv(f.lo))
       [] u = "negative" -> w(RNeg(f.hi), RNeg(f.lo))
       [] u = "absolute" /\ Pos(f) -> w(f.lo, f.hi)
       [] u = "absolute" /\ Neg(f) -> w(RNeg(f.hi), RNeg(f.lo))
       [] OTHER -> Out(f.t, Bad, Bad, 0)
Funs == {"exp", "sin", "cos", "tanh", "arctan", "log", "sqrt", "square", "reciprocal", "negative", "absolute"}
-----------------------------------------------------------------------------
Empty == <<>>
Has(i) == reg[i] # Empty
Zipped(i, j) == Has(i) /\ Has(j) /\ Len(reg[i]) = Len(reg[j])
Json1(f) == [i \in DOMAIN f |-> f[i].t]
Bounds(f) == [i \in DOMAIN f |-> <<f[i].lo, f[i].hi>>]
Rec(r) == hist' = Append(hist, r) /\ step' = step + 1
Put(k, f, r) == /\ \A i \in DOMAIN f : Fine(f[i])
                /\ reg' = [reg EXCEPT ![k] = f]
                /\ Rec(r @@ [k |-> k, f |-> Json1(f), b |-> Bounds(f)]) /\ UNCHANGED <<per, dom>>
Each(i, F(_)) == [x \in DOMAIN reg[i] |-> F(reg[i][x])]
Both(i, j, F(_, _)) == [x \in DOMAIN reg[i] |-> F(reg[i][x], reg[j][x])]

Make(k, f, how) == Put(k, f, [op |-> "Make", how |-> how, dom |-> dom, per |-> per])
BinF(o, f, g) == CASE o = "add" -> SumC(f, g) [] o = "sub" -> DifC(f, g) [] o = "mul" -> MulC(f, g) [] o = "div" -> DivC(f, g)
Bin(o, i, j, k) == Zipped(i, j) /\ Put(k, Both(i, j, LAMBDA f, g : BinF(o, f, g)), [op |-> "Bin", o |-> o, i |-> i, j |-> j])
IBin(o, i, j) == Zipped(i, j) /\ Put(i, Both(i, j, LAMBDA f, g : BinF(o, f, g)), [op |-> "IBin", o |-> o, i |-> i, j |-> j])
\* c / f, and f o c
RDivN(c, i, k) == Has(i) /\ Put(k, Each(i, LAMBDA f : DivC(NumC(c), f)), [op |-> "RDiv", c |-> c, i |-> i])
NumOp(o, c, i, k) == Has(i) /\ Put(k, Each(i, LAMBDA f : BinF(o, f, NumC(c))), [op |-> "Num", o |-> o, c |-> c, i |-> i])
Pow(e, i, k) == Has(i) /\ Put(k, Each(i, LAMBDA f : PowC(f, e)), [op |-> "Pow", e |-> e, i |-> i])
IPow(e, i) == Has(i) /\ Put(i, Each(i, LAMBDA f : PowC(f, e)), [op |-> "IPow", e |-> e, i |-> i])
AbsA(i, k) == Has(i) /\ Put(k, Each(i, AbsC), [op |-> "Abs", i |-> i])
Un(u, i, k) == Has(i) /\ Put(k, Each(i, LAMBDA f : FunC(u, f)), [op |-> "Fun", u |-> u, i |-> i])
\* with a target: the target takes the value
UnTo(u, i, k) == Has(i) /\ Has(k) /\ Put(k, Each(i, LAMBDA f : FunC(u, f)), [op |-> "FunTo", u |-> u, i |-> i])
\* construction with a limited number of coefficients: resolved exactly when the
\* limit is generous; the truncated one is as good as an interpolant of that length
Short(r, L) == /\ ~per /\ RLeq(<<3, 4>>, RAbs(r))
               /\ Rec([op |-> "Short", r |-> r, len |-> L, ok |-> L > 1000, per |-> per, dom |-> dom]) /\ UNCHANGED <<reg, per, dom>>
\* the magnitude of a function does not matter: 10^e f is as short and, relative to
\* its size, as accurate as f (non-periodic functions: relative to one where they are smaller)
Scaled(i, e) == /\ Has(i) /\ \A x \in DOMAIN reg[i] : ~reg[i][x].sp
                /\ Rec([op |-> "Scaled", i |-> i, e |-> e, f |-> Json1(reg[i])]) /\ UNCHANGED <<reg, per, dom>>
\* comparison: a function equals its copy, and differs from one with other values at the first point of the interval
Eq(i) == Has(i) /\ Rec([op |-> "Eq", i |-> i, same |-> TRUE]) /\ UNCHANGED <<reg, per, dom>>
Ne(i, j) == /\ Zipped(i, j) /\ \E x \in DOMAIN reg[i] : RLess(reg[i][x].hi, reg[j][x].lo) \/ RLess(reg[j][x].hi, reg[i][x].lo)
            /\ Rec([op |-> "Eq", i |-> i, j |-> j, same |-> FALSE]) /\ UNCHANGED <<reg, per, dom>>
-----------------------------------------------------------------------------
(* the exact value at x = h/2 of an expression without transcendental parts  *)
RECURSIVE Val(_, _)
Val(t, h) ==
  CASE t.k = "poly" -> RSumSeq([i \in DOMAIN t.s |-> RMul(<<t.s[i][2], t.s[i][3]>>, RMk(TwoT(t.s[i][1], h), 2))])
    [] t.k = "geo" -> RDiv(RSub(ROne, RMul(t.r, t.r)), RAdd(RSub(ROne, RMul(t.r, RInt(h))), RMul(t.r, t.r)))
    [] t.k = "num" -> t.c
    [] t.k = "add" -> RAdd(Val(t.l, h), Val(t.r, h))
    [] t.k = "sub" -> RSub(Val(t.l, h), Val(t.r, h))
    [] t.k = "mul" -> RMul(Val(t.l, h), Val(t.r, h))
    [] t.k = "div" -> RDiv(Val(t.l, h), Val(t.r, h))
    [] t.k = "abs" -> LET v == Val(t.l, h) IN IF IsBad(v) THEN Bad ELSE RAbs(v)
    [] t.k = "pow" -> LET v == Val(t.l, h) IN IF t.e % 2 = 1 \/ IsBad(v) THEN Bad ELSE IF t.e >= 0 THEN RPow(v, t.e \div 2) ELSE RPow(RInv(v), -(t.e \div 2))
    [] t.k = "fun" -> LET v == Val(t.l, h) IN IF IsBad(v) THEN Bad ELSE CASE t.u = "square" -> RMul(v, v) [] t.u = "reciprocal" -> RInv(v) [] t.u = "negative" -> RNeg(v) [] t.u = "absolute" -> RAbs(v) [] OTHER -> Bad
    [] OTHER -> Bad
\* every function lies in its enclosure, and rational values of squares of
\* roots, quotients times divisors ... agree
Enclosed == \A i \in Regs : \A x \in DOMAIN reg[i] : \A h \in -2..2 :
  LET v == Val(reg[i][x].t, h) IN IsBad(v) \/ (RLeq(reg[i][x].lo, v) /\ RLeq(v, reg[i][x].hi))
Ordered == \A i \in Regs : \A x \in DOMAIN reg[i] : RLeq(reg[i][x].lo, reg[i][x].hi)
\* cancelling: (f * g) / g takes the values of f
Cancels == \A i \in Regs : \A x \in DOMAIN reg[i] : LET t == reg[i][x].t IN
  (t.k = "div" /\ t.l.k = "mul") => \A h \in -2..2 : LET v == Val(t, h) w == Val(t.l.l, h) IN (t.l.r = t.r /\ ~IsBad(v) /\ ~IsBad(w)) => v = w
MCPolys == {PAdd(PConst(a), PMono(k, b)) : a \in {RZero, <<2, 1>>, <<-3, 2>>}, k \in {1, 3}, b \in {ROne, <<-1, 2>>}}
Doms == {<<<<-1, 1>>, ROne>>, <<RZero, ROne>>, <<<<-2, 1>>, <<3, 1>>>>, <<<<1, 2>>, <<5, 2>>>>, <<<<-7, 1>>, <<-5, 1>>>>, <<RZero, <<20, 1>>>>}
MCInit == reg = [i \in Regs |-> Empty] /\ per = FALSE /\ dom = <<<<-1, 1>>, ROne>> /\ hist = <<>> /\ step = 0
Cs == {<<2, 1>>, <<-1, 2>>, <<3, 1>>}
MCNext == step < Depth /\
  IF step = 0 THEN \E p \in MCPolys : Make(1, <<Poly(p)>>, "call")
  ELSE IF step = 1 THEN \E p \in MCPolys \cup {RZero} : Make(2, <<IF p = RZero THEN Geo(<<1, 2>>) ELSE Poly(p)>>, "call")
  ELSE \/ \E o \in {"add", "sub", "mul", "div"} : \E i, j \in {1, 2} : IBin(o, i, j)
       \/ \E i \in {1, 2} : \E e \in {-4, -2, -1, 1, 3, 4, 6} : IPow(e, i)
       \/ \E u \in Funs : \E i \in {1, 2} : Un(u, i, i)
       \/ \E i \in {1, 2} : AbsA(i, i) \/ (\E c \in Cs : RDivN(c, i, i))
MCSpec == MCInit /\ [][MCNext]_vars
View == <<reg, step>>
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
Pool == {<<1, 1>>, <<-1, 1>>, <<1, 2>>, <<-1, 2>>, <<1, 4>>, <<-3, 4>>, <<2, 1>>, <<1, 10>>}
SimInit == /\ reg = [i \in Regs |-> Empty] /\ hist = <<>> /\ step = 0 /\ per \in {TRUE, FALSE} /\ dom \in Doms
RandPoly(z) == LET D == TLCEval(RandomSubset(Pick(1..3), 0..7)) IN
  PNorm(TLCEval([i \in D \cup {0} |-> IF i = 0 /\ Pick(1..4) > 1 THEN Pick({<<2, 1>>, <<-2, 1>>, <<5, 2>>, <<4, 1>>, <<-3, 1>>, <<3, 1>>}) ELSE Pick(Pool)]))
\* a single high degree: from coefficients only, samples on a coarse grid could not tell it from a low one
Steep(z) == Sp(Poly(PAdd(PConst(Pick({RZero, <<2, 1>>, <<-3, 1>>})), PMono(Pick({8, 12, 16, 16, 20, 32, 32, 33, 40}), Pick({ROne, <<1, 2>>, <<-1, 1>>})))), TRUE)
RandComp(z) == IF Pick(1..3) = 1 THEN Geo(Pick({<<1, 2>>, <<-1, 3>>, <<3, 4>>, <<-2, 3>>, <<9, 10>>, <<-1, 2>>})) ELSE Poly(RandPoly(z))
Empties == {i \in Regs : ~Has(i)}
Full == {i \in Regs : Has(i)}
RandStep(q) ==
  IF step < 2 THEN q = 1 /\ \E k \in {Pick(Empties)} : \E f \in {TLCEval(<<RandComp(hist), RandComp(step)>>)} : \E m \in {IF step = 0 THEN Pick({1, 1, 2}) ELSE CHOOSE m \in 1..2 : \E i \in Full : Len(reg[i]) = m} :
       \E how \in {Pick({"call", "call", "minSamples", "resample", "coeffs"})} : (IF Pick(1..4) = 1 THEN \E g \in {TLCEval(<<Steep(hist), Steep(step)>>)} : Make(k, SubSeq(g, 1, m), "coeffs") ELSE Make(k, SubSeq(f, 1, m), how))
  ELSE \E i \in {Pick(Full)} : \E j \in {Pick(Full)} : \E k \in {Pick(Regs)} : \E c \in {Pick(Cs \cup Pool)} :
     CASE q = 1 -> \E o \in {Pick({"add", "sub", "mul", "div", "div", "div"})} : Bin(o, i, j, k)
       [] q = 2 -> \E o \in {Pick({"add", "sub", "mul", "div", "div"})} : IBin(o, i, j)
       [] q = 3 -> RDivN(c, i, k)
       [] q = 4 -> \E o \in {Pick({"add", "sub", "mul", "div"})} : NumOp(o, c, i, k)
       [] q = 5 -> \E e \in {Pick({-6, -4, -2, -1, 1, 3, 4, 6, 8, 2, 0})} : Pow(e, i, k)
       [] q = 6 -> \E e \in {Pick({-4, -2, 1, 4, 6})} : IPow(e, i)
       [] q = 7 -> AbsA(i, k)
       [] q \in {8, 11} -> \E u \in {Pick(Funs)} : Un(u, i, k)
       [] q = 9 -> \E u \in {Pick(Funs)} : UnTo(u, i, k)
       [] q = 10 -> Eq(i) \/ Ne(i, j)
       [] q = 13 -> \E r \in {Pick({<<3, 4>>, <<-4, 5>>, <<9, 10>>, <<19, 20>>})} : \E L \in {Pick({20, 33, 40, 64, 65, 1025, 2048, 4000})} : Short(r, L)
       [] q = 15 -> Scaled(i, Pick({-6, -4, -2, 2, 4, 6}))
       [] q = 14 -> (\A x \in DOMAIN reg[i] : ~reg[i][x].sp) /\ Make(k, reg[i], Pick({"call", "minSamples", "resample"}))
       [] q = 12 -> \E k2 \in {Pick(Regs)} : \E m \in {Len(reg[i])} : \E f \in {TLCEval(<<RandComp(hist), RandComp(step)>>)} : Make(k2, SubSeq(f, 1, m), Pick({"call", "coeffs"}))
Emit == /\ step = Depth /\ step' = Depth + 1 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<reg, per, dom, hist>>
SimNext == (\E q \in 1..15 : step < Depth /\ RandStep(q)) \/ Emit
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
