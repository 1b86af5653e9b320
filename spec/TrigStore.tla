------------------------------ MODULE TrigStore -----------------------------
(***************************************************************************)
(* A store of periodic functions (array valued, real or complex), as a user *)
(* sees it.  Same machine as FunStore: variables name objects, operations   *)
(* create fresh objects, in-place operations change one object.             *)
(*                                                                         *)
(* object = [dom, pe, cols]; dom = <<c, r, e>>: the interval                *)
(* [(c - r) pi^e, (c + r) pi^e]; the function is pi^pe times the series.    *)
(***************************************************************************)
EXTENDS Four, Json, Randomization

CONSTANTS Ops, Names, MaxHeap, Depth
VARIABLES heap, env, out, hist, step
vars == <<heap, env, out, hist, step>>

Doms == { <<RZero, ROne, 0>>, <<RZero, ROne, 1>>, <<ROne, ROne, 1>>, <<ROne, ROne, 0>>,
          <<RZero, RInt(2), 1>>, <<RInt(3), RInt(2), 0>>, <<<<1, 2>>, <<1, 2>>, 1>>, <<RInt(-2), <<1, 2>>, 0>> }

OBad(o) == \E i \in DOMAIN o.cols : FIsBad(o.cols[i])
ODeg(o) == Max({0} \cup {FDeg(o.cols[i]) : i \in DOMAIN o.cols})
OTerms(o) == Max({0} \cup {Cardinality(DOMAIN o.cols[i]) : i \in DOMAIN o.cols})
OReal(o) == \A i \in DOMAIN o.cols : FReal(o.cols[i])
OZero(o) == \A i \in DOMAIN o.cols : o.cols[i] = FZero
ObjJson(o) == [dom |-> o.dom, pe |-> o.pe, cols |-> [i \in DOMAIN o.cols |-> FJson(o.cols[i])]]
MapCols(o, Op(_)) == [o EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> Op(@[i])])]
ZipCols(o1, o2, Op(_, _)) == [o1 EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> Op(@[i], o2.cols[i])])]

Live == {env[n] : n \in {m \in Names : env[m] # 0}}
Fresh == CHOOSE i \in 1..MaxHeap : i \notin Live
CanAlloc == \E i \in 1..MaxHeap : i \notin Live
Log(rec) == /\ out' = rec /\ hist' = Append(hist, rec) /\ step' = step + 1
Alloc(x, o, rec) ==
  /\ ~OBad(o) /\ Abs(o.pe) <= 4 /\ CanAlloc
  /\ LET i == Fresh IN
       /\ heap' = (i :> o) @@ heap
       /\ env' = [env EXCEPT ![x] = i]
       /\ Log(rec @@ [res |-> "new", x |-> x, id |-> i, obj |-> ObjJson(o)])
Update(i, o, rec) ==
  /\ ~OBad(o) /\ Abs(o.pe) <= 4
  /\ heap' = [heap EXCEPT ![i] = o] /\ UNCHANGED env
  /\ Log(rec @@ [res |-> "upd", id |-> i, obj |-> ObjJson(o)])
Return(v, rec) == UNCHANGED <<heap, env>> /\ Log(rec @@ [res |-> "val", val |-> v])
Raises(what, rec) == UNCHANGED <<heap, env>> /\ Log(rec @@ [res |-> "raise", why |-> what])

Bound(y) == env[y] # 0
Ob(y) == heap[env[y]]
Cols(y) == Len(Ob(y).cols)
SameDom(y, z) == Ob(y).dom = Ob(z).dom
-----------------------------------------------------------------------------
New(x, o, mode, pad) == Alloc(x, o, [op |-> "New", mode |-> mode, pad |-> pad])
AliasOf(x, y) == /\ Bound(y) /\ env' = [env EXCEPT ![x] = env[y]] /\ UNCHANGED heap
                 /\ Log([op |-> "Alias", res |-> "alias", x |-> x, y |-> y, id |-> env[y]])
Copy(x, y, mode) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "Copy", mode |-> mode, y |-> y])

BinObj(f, o1, o2) == CASE f = "add" -> ZipCols(o1, o2, FAdd)
                       [] f = "sub" -> ZipCols(o1, o2, FSub)
                       [] f = "mul" -> [ZipCols(o1, o2, FMul) EXCEPT !.pe = o1.pe + o2.pe]
BinOk(f, o1, o2) == IF f = "mul" THEN OTerms(o1) * OTerms(o2) <= 40 /\ ODeg(o1) + ODeg(o2) <= 200
                    ELSE o1.pe = o2.pe
Bin(x, y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z) THEN Raises("domain", [op |-> "Bin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Cols(y) = Cols(z) /\ BinOk(f, Ob(y), Ob(z))
          /\ Alloc(x, BinObj(f, Ob(y), Ob(z)), [op |-> "Bin", f |-> f, y |-> y, z |-> z])
IBin(y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z) THEN Raises("domain", [op |-> "IBin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Cols(y) = Cols(z) /\ BinOk(f, Ob(y), Ob(z))
          /\ Update(env[y], BinObj(f, Ob(y), Ob(z)), [op |-> "IBin", f |-> f, y |-> y, z |-> z])

ScalCol(f, p, g) == CASE f \in {"add", "radd"} -> FAdd(p, FConst(g))
                      [] f = "sub" -> FSub(p, FConst(g))
                      [] f = "rsub" -> FSub(FConst(g), p)
                      [] f \in {"mul", "rmul"} -> FMulC(p, g)
                      [] f = "div" -> FMulC(p, GInv(g))
ScalOps == {"add", "radd", "sub", "rsub", "mul", "rmul", "div"}
IScalOps == {"add", "sub", "mul", "div"}
ScalOk(f, o, g) == /\ (f = "div" => ~GIsZero(g))
                   /\ (f \in {"add", "radd", "sub", "rsub"} => o.pe = 0)
Scal(x, y, f, g) == /\ Bound(y) /\ ScalOk(f, Ob(y), g)
                    /\ Alloc(x, MapCols(Ob(y), LAMBDA p : ScalCol(f, p, g)), [op |-> "Scal", f |-> f, y |-> y, c |-> GJson(g)])
IScal(y, f, g) == /\ Bound(y) /\ ScalOk(f, Ob(y), g)
                  /\ Update(env[y], MapCols(Ob(y), LAMBDA p : ScalCol(f, p, g)), [op |-> "IScal", f |-> f, y |-> y, c |-> GJson(g)])
Arr(x, y, f, gs) ==
  /\ Bound(y) /\ Len(gs) = Cols(y) /\ \A i \in DOMAIN gs : ScalOk(f, Ob(y), gs[i])
  /\ Alloc(x, [Ob(y) EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> ScalCol(f, @[i], gs[i])])],
           [op |-> "Arr", f |-> f, y |-> y, cs |-> [i \in DOMAIN gs |-> GJson(gs[i])]])
Neg(x, y) == Bound(y) /\ Alloc(x, MapCols(Ob(y), FNeg), [op |-> "Neg", y |-> y])
Power(x, y, n) ==
  /\ Bound(y) /\ OTerms(Ob(y)) <= 5 /\ ODeg(Ob(y)) * n <= 6
  /\ Alloc(x, [MapCols(Ob(y), LAMBDA p : FPow(p, n)) EXCEPT !.pe = @ * n], [op |-> "Power", y |-> y, n |-> n])

\* d^n/dx^n = (i pi k)^n / (r pi^e)^n
DiffObj(o, n) == [MapCols(o, LAMBDA p : FMulC(FDiffN(p, n), GR(RPow(RInv(o.dom[2]), n)))) EXCEPT !.pe = @ + n * (1 - o.dom[3])]
DiffOp(x, y, n) == Bound(y) /\ Alloc(x, DiffObj(Ob(y), n), [op |-> "Diff", y |-> y, n |-> n])
ZeroMean(o) == \A i \in DOMAIN o.cols : GIsZero(FMean(o.cols[i]))
Cumsum(x, y) ==
  /\ Bound(y)
  /\ IF ~ZeroMean(Ob(y)) THEN Raises("mean", [op |-> "Cumsum", y |-> y])
     \* (rounding noise left where a function cancelled has no particular mean)
     ELSE LET o == Ob(y) IN (\A i \in DOMAIN o.cols : o.cols[i] # FZero) /\
          Alloc(x, [MapCols(o, LAMBDA p : FMulC(FCum(p), GR(o.dom[2]))) EXCEPT !.pe = @ - (1 - o.dom[3])],
                [op |-> "Cumsum", y |-> y])
\* values are <<pi exponent, list of Gaussian rationals>>
ValOk(v) == \A i \in DOMAIN v : ~GBadP(v[i])
VJ(pe, v) == <<pe, [i \in DOMAIN v |-> GJson(v[i])]>>
Sum(y) == /\ Bound(y)
          /\ LET o == Ob(y)  v == [i \in DOMAIN o.cols |-> GScale(FMean(o.cols[i]), RMul(RInt(2), o.dom[2]))]
             IN ValOk(v) /\ Return(VJ(o.pe + o.dom[3], v), [op |-> "Sum", y |-> y])
Inner(y, z) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z) THEN Raises("domain", [op |-> "Inner", y |-> y, z |-> z])
     ELSE LET o == Ob(y)  p == Ob(z)  m == Len(o.cols)  l == Len(p.cols)
              v == [t \in 1..(m * l) |-> GScale(FDot(o.cols[((t - 1) \div l) + 1], p.cols[((t - 1) % l) + 1]), RMul(RInt(2), o.dom[2]))]
          IN ValOk(v) /\ Return(VJ(o.pe + p.pe + o.dom[3], v), [op |-> "Inner", y |-> y, z |-> z, rows |-> m])
\* squares of L2, H1, H2 norms: one term per derivative
Sq(o) == FoldSet(LAMBDA i, acc : GAdd(acc, GScale(FDot(o.cols[i], o.cols[i]), RMul(RInt(2), o.dom[2]))), GZero, DOMAIN o.cols)
Norm(y, k) ==
  /\ Bound(y)
  /\ LET o == Ob(y)  v == [j \in 1..(k + 1) |-> Sq(DiffObj(o, j - 1))]
         es == [j \in 1..(k + 1) |-> 2 * DiffObj(o, j - 1).pe + o.dom[3]]
     IN ValOk(v) /\ Return(<<es, VJ(0, v)[2]>>, [op |-> "Norm", k |-> k, y |-> y])
Eval(y, h) == /\ Bound(y)
              /\ LET v == [i \in DOMAIN Ob(y).cols |-> FEval(Ob(y).cols[i], h)]
                 IN ValOk(v) /\ Return(VJ(Ob(y).pe, v), [op |-> "Eval", y |-> y, h |-> h])
EvalOut(y, side) == Bound(y) /\ Raises("outside", [op |-> "EvalOut", y |-> y, side |-> side])
\* np.roll: shift by a/2 in units of half the period / 1
Roll(x, y, a) == Bound(y) /\ Alloc(x, MapCols(Ob(y), LAMBDA p : FShift(p, a)), [op |-> "Roll", y |-> y, a |-> a])
\* circular convolution over the period, and the adhesion operator (product of coefficients)
Conv(x, y, z) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z) THEN Raises("domain", [op |-> "Conv", y |-> y, z |-> z])
     ELSE /\ Cols(y) = 1 /\ Cols(z) = 1
          /\ LET o == Ob(y) IN
             Alloc(x, [o EXCEPT !.cols = <<FMulC(FHad(@[1], Ob(z).cols[1]), GR(RMul(RInt(2), o.dom[2])))>>,
                                !.pe = @ + Ob(z).pe + o.dom[3]], [op |-> "Conv", y |-> y, z |-> z])
Adhesion(x, y, z) ==
  /\ Bound(y) /\ Bound(z) /\ SameDom(y, z) /\ Cols(y) = 1 /\ Cols(z) = 1
  /\ Alloc(x, [Ob(y) EXCEPT !.cols = <<FHad(@[1], Ob(z).cols[1])>>, !.pe = @ + Ob(z).pe], [op |-> "Adhesion", y |-> y, z |-> z])

ColOf(x, y, i) == /\ Bound(y) /\ i \in 1..Cols(y)
                  /\ Alloc(x, [Ob(y) EXCEPT !.cols = <<@[i]>>], [op |-> "Col", y |-> y, i |-> i])
ColBad(y) == Bound(y) /\ Raises("index", [op |-> "ColBad", y |-> y, i |-> Cols(y) + 1])
Prolong(y, k) == Bound(y) /\ Update(env[y], Ob(y), [op |-> "Prolong", y |-> y, n |-> 2 * ODeg(Ob(y)) + 1 + k])
ProlongFn(x, y, k) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "ProlongFn", y |-> y, n |-> 2 * ODeg(Ob(y)) + 1 + k])
Simplify(y) == Bound(y) /\ Update(env[y], Ob(y), [op |-> "Simplify", y |-> y])
RoundTrip(x, y, mode) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "RoundTrip", mode |-> mode, y |-> y])
Like(x, y, mode) == Bound(y) /\ Alloc(x, [MapCols(Ob(y), LAMBDA p : IF mode = "zeros" THEN FZero ELSE FConst(GOne)) EXCEPT !.pe = 0],
                                      [op |-> "Like", mode |-> mode, y |-> y])
Part(x, y, mode) == Bound(y) /\ Alloc(x, MapCols(Ob(y), LAMBDA p : CASE mode = "real" -> FRe(p) [] mode = "imag" -> FIm(p) [] mode = "conj" -> FConj(p)),
                                      [op |-> "Part", mode |-> mode, y |-> y])
\* sampled as a function on an interval (real functions): same values
AsCheb(y) == Bound(y) /\ OReal(Ob(y)) /\ ODeg(Ob(y)) <= 5 /\ Return(<<>>, [op |-> "AsCheb", y |-> y])
-----------------------------------------------------------------------------
Init == /\ heap = [i \in {} |-> 0] /\ env = [n \in Names |-> 0] /\ out = [op |-> "Init"] /\ hist = <<>> /\ step = 0

Pick(S) == RandomElement(S)
CoefPool == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 4>>, <<5, 1>>, <<-5, 2>>, <<1, 8>>}
GPool == {<<a, b>> : a, b \in CoefPool} \cup {<<a, RZero>> : a \in CoefPool} \cup {<<RZero, a>> : a \in CoefPool}
RScalars == CoefPool \cup {<<4, 1>>, <<-7, 1>>, <<0, 1>>, <<1, 16>>}
\* scalars: mostly real
RandScalar(u) == IF Pick(1..4) = 1 THEN Pick(GPool) ELSE GR(Pick(RScalars))

FreqPool(u) == IF Pick(1..3) = 1 THEN {0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 32, 40} ELSE 0..4
RandReal(u) == LET D == TLCEval(RandomSubset(Pick(1..3), FreqPool(u)))
                   f == TLCEval([k \in D |-> IF k = 0 THEN GR(Pick(CoefPool)) ELSE Pick(GPool)])
               IN FNorm(TLCEval([k \in D \cup {-j : j \in D} |-> IF k >= 0 THEN f[k] ELSE GConj(f[-k])]))
RandCplx(u) == LET D == TLCEval(RandomSubset(Pick(1..3), FreqPool(u) \cup {-1, -2, -3, -4}))
               IN TLCEval([k \in D |-> Pick(GPool)])
RandSeries(u) == LET kind == Pick(1..14) IN
  IF kind = 1 THEN FZero
  ELSE IF kind = 2 THEN FConst(GR(Pick(CoefPool)))
  ELSE IF kind = 3 THEN LET k == Pick({1, 2, 3, 4, 6, 8}) a == GR(Pick(CoefPool)) IN TLCEval((k :> a) @@ ((-k) :> a))
  ELSE IF kind <= 10 THEN RandReal(u) ELSE RandCplx(u)
RandCols(m) == IF m = 1 THEN <<TLCEval(RandSeries(step))>>
               ELSE IF m = 2 THEN <<TLCEval(RandSeries(step)), TLCEval(RandSeries(step))>>
               ELSE <<TLCEval(RandSeries(step)), TLCEval(RandSeries(step)), TLCEval(RandSeries(step))>>
BoundNames == {n \in Names : env[n] # 0}
Mates(y) == LET S == {z \in BoundNames : SameDom(y, z) /\ Cols(y) = Cols(z)} IN
            IF S # {} /\ Pick(1..6) # 1 THEN S ELSE BoundNames
NewShape == LET S == {<<heap[i].dom, Len(heap[i].cols)>> : i \in Live} IN
            IF S # {} /\ Pick(1..5) # 1 THEN Pick(S) ELSE <<Pick(Doms), Pick({1, 1, 2, 3})>>
\* an even number of coefficients can hold the series with highest frequency K
\* only if the two highest coefficients agree (a cosine)
TopCos(cs, K) == \A i \in DOMAIN cs : FC(cs[i], K) = FC(cs[i], -K)

RandStep(op) ==
  \E x \in {IF (\E n \in Names : env[n] = 0) /\ Pick(1..2) = 1 THEN Pick({n \in Names : env[n] = 0}) ELSE Pick(Names)} :
  \E y \in {IF BoundNames = {} THEN x ELSE Pick(BoundNames)} :
  \E z \in {IF BoundNames = {} THEN x ELSE Pick(Mates(y))} :
  \E c \in {TLCEval(RandScalar(step))} :
   CASE op = "New" -> \E sh \in {NewShape} : \E cs \in {RandCols(sh[2])} :
                        LET K == Max({FDeg(cs[i]) : i \in DOMAIN cs}) IN
                        \E md \in {Pick({"coeffs", "values", "array"} \cup (IF K <= 5 THEN {"call"} ELSE {})
                                        \cup (IF K >= 1 /\ TopCos(cs, K) THEN {"ecoeffs", "evalues"} ELSE {}))} :
                        \E pad \in {Pick({0, 0, 1, 2, 5, 8})} :
                        New(x, [dom |-> sh[1], pe |-> 0, cols |-> cs], md, pad)
     [] op = "Alias" -> AliasOf(x, y)
     [] op = "Copy" -> \E md \in {Pick({"npcopy", "deepcopy", "pos"})} : Copy(x, y, md)
     [] op = "Bin" -> \E f \in {Pick({"add", "sub", "mul"})} : Bin(x, y, z, f)
     [] op = "IBin" -> \E f \in {Pick({"add", "sub", "mul"})} : IBin(y, z, f)
     [] op = "Scal" -> \E f \in {Pick(ScalOps)} : Scal(x, y, f, c)
     [] op = "IScal" -> \E f \in {Pick(IScalOps)} : IScal(y, f, c)
     [] op = "Arr" -> \E f \in {Pick({"add", "sub", "mul", "div"})} : Bound(y) /\
                        \E cs \in {TLCEval([i \in 1..Cols(y) |-> GR(Pick(RScalars))])} : Arr(x, y, f, cs)
     [] op = "Neg" -> Neg(x, y)
     [] op = "Power" -> \E n \in {Pick(1..3)} : Power(x, y, n)
     [] op = "Diff" -> \E n \in {Pick(1..4)} : DiffOp(x, y, n)
     [] op = "Cumsum" -> Cumsum(x, y)
     [] op = "Sum" -> Sum(y)
     [] op = "Inner" -> Inner(y, z)
     [] op = "Norm" -> \E k \in {Pick(0..2)} : Norm(y, k)
     [] op = "Eval" -> \E h \in {Pick(-2..2)} : Eval(y, h)
     [] op = "EvalOut" -> \E s \in {Pick({"left", "right"})} : EvalOut(y, s)
     [] op = "Roll" -> \E a \in {Pick({-3, -2, -1, 0, 1, 2, 3, 4})} : Roll(x, y, a)
     [] op = "Conv" -> Conv(x, y, z)
     [] op = "Adhesion" -> Adhesion(x, y, z)
     [] op = "Col" -> \E i \in {Pick(1..3)} : ColOf(x, y, i)
     [] op = "ColBad" -> ColBad(y)
     [] op = "Prolong" -> \E k \in {Pick({0, 1, 2, 3, 8, 20})} : Prolong(y, k)
     [] op = "ProlongFn" -> \E k \in {Pick({0, 1, 2, 3, 8, 20})} : ProlongFn(x, y, k)
     [] op = "Simplify" -> Simplify(y)
     [] op = "RoundTrip" -> \E md \in {Pick({"values", "coeffs"})} : RoundTrip(x, y, md)
     [] op = "Like" -> \E md \in {Pick({"zeros", "ones"})} : Like(x, y, md)
     [] op = "Part" -> \E md \in {Pick({"real", "imag", "conj"})} : Part(x, y, md)
     [] op = "AsCheb" -> AsCheb(y)

Emit == /\ step = Depth
        /\ PrintT("BEHAVIOUR " \o ToJson(hist))
        /\ step' = Depth + 1
        /\ UNCHANGED <<heap, env, out, hist>>
SimNext == (\E op \in Ops : step < Depth /\ RandStep(op)) \/ Emit
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
