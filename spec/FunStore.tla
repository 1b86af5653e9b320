------------------------------ MODULE FunStore ------------------------------
(***************************************************************************)
(* A store of array-valued functions on bounded intervals, as a user of the *)
(* library sees it: variables name function objects, operations create      *)
(* fresh objects, in-place operations change exactly one object (which all  *)
(* variables naming it then see), everything else leaves the store alone.   *)
(*                                                                         *)
(* heap : object id -> [dom, cols]   dom = <<a, b>> rationals, cols = exact *)
(*                                   Chebyshev series in the variable that  *)
(*                                   runs over [-1, 1]                      *)
(* env  : variable name -> object id (0: unbound)                           *)
(* out  : what the last operation returned or did, for the replay harness   *)
(***************************************************************************)
EXTENDS Cheb, Json, Randomization

CONSTANTS Ops,       \* operations offered in this instance
          Names,     \* variable names
          MaxHeap,   \* bound on objects
          Depth      \* length of a behaviour

VARIABLES heap, env, out, hist, step
vars == <<heap, env, out, hist, step>>

Doms == { <<<<-1, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<2, 1>>>>,
          <<<<-2, 1>>, <<3, 1>>>>, <<<<1, 1>>, <<3, 1>>>>, <<<<-1, 2>>, <<3, 2>>>>,
          <<<<-8, 1>>, <<8, 1>>>>, <<<<-3, 1>>, <<-1, 1>>>>, <<<<3, 1>>, <<13, 1>>>> }

HalfLen(d) == RMul(<<1, 2>>, RSub(d[2], d[1]))

OBad(o) == \E i \in DOMAIN o.cols : PIsBad(o.cols[i])
\* Size of an object: its longest column
ODeg(o) == Max({0} \cup {Deg(o.cols[i]) : i \in DOMAIN o.cols})
OTerms(o) == Max({0} \cup {Cardinality(DOMAIN o.cols[i]) : i \in DOMAIN o.cols})
ObjJson(o) == [dom |-> o.dom, cols |-> [i \in DOMAIN o.cols |-> PJson(o.cols[i])]]

MapCols(o, Op(_)) == [o EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> Op(@[i])])]
ZipCols(o1, o2, Op(_, _)) ==
  [o1 EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> Op(@[i], o2.cols[i])])]

-----------------------------------------------------------------------------
(* The effect of an operation: bind a variable to a fresh object, change an *)
(* object, return a value, or raise.                                        *)

Live == {env[n] : n \in {m \in Names : env[m] # 0}}
Fresh == CHOOSE i \in 1..MaxHeap : i \notin Live   \* ids are recycled, harness maps them anew
CanAlloc == \E i \in 1..MaxHeap : i \notin Live

Log(rec) == /\ out' = rec
            /\ hist' = Append(hist, rec)
            /\ step' = step + 1

Alloc(x, o, rec) ==
  /\ ~OBad(o)
  /\ CanAlloc
  /\ LET i == Fresh IN
       /\ heap' = (i :> o) @@ heap
       /\ env' = [env EXCEPT ![x] = i]
       /\ Log(rec @@ [res |-> "new", x |-> x, id |-> i, obj |-> ObjJson(o)])

Update(i, o, rec) ==
  /\ ~OBad(o)
  /\ heap' = [heap EXCEPT ![i] = o]
  /\ UNCHANGED env
  /\ Log(rec @@ [res |-> "upd", id |-> i, obj |-> ObjJson(o)])

Return(v, rec) ==
  /\ UNCHANGED <<heap, env>>
  /\ Log(rec @@ [res |-> "val", val |-> v])

Raises(what, rec) ==
  /\ UNCHANGED <<heap, env>>
  /\ Log(rec @@ [res |-> "raise", why |-> what])

Bound(y) == env[y] # 0
Ob(y) == heap[env[y]]
Cols(y) == Len(Ob(y).cols)

SameDom(y, z) == Ob(y).dom = Ob(z).dom
-----------------------------------------------------------------------------
(* Operations *)

\* construct from coefficients / from values on a grid / from an array of values / from
\* a callable that is sampled adaptively (only low degrees: sampling on 17 points cannot
\* tell T_64 from a constant); pad extra (zero) coefficients
New(x, o, mode, pad) == Alloc(x, o, [op |-> "New", mode |-> mode, pad |-> pad])

AliasOf(x, y) ==
  /\ Bound(y)
  /\ env' = [env EXCEPT ![x] = env[y]]
  /\ UNCHANGED heap
  /\ Log([op |-> "Alias", res |-> "alias", x |-> x, y |-> y, id |-> env[y]])

Copy(x, y, mode) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "Copy", mode |-> mode, y |-> y])

BinObj(f, o1, o2) == CASE f = "add" -> ZipCols(o1, o2, PAdd)
                       [] f = "sub" -> ZipCols(o1, o2, PSub)
                       [] f = "mul" -> ZipCols(o1, o2, PMul)

\* keep products affordable and exact
MulOk(f, o1, o2) == f = "mul" =>
   /\ OTerms(o1) * OTerms(o2) <= 40
   /\ ODeg(o1) + ODeg(o2) <= 400

Bin(x, y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z)
     THEN Raises("domain", [op |-> "Bin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Cols(y) = Cols(z)
          /\ MulOk(f, Ob(y), Ob(z))
          /\ Alloc(x, BinObj(f, Ob(y), Ob(z)), [op |-> "Bin", f |-> f, y |-> y, z |-> z])

\* y f= z
IBin(y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z)
     THEN Raises("domain", [op |-> "IBin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Cols(y) = Cols(z)
          /\ MulOk(f, Ob(y), Ob(z))
          /\ Update(env[y], BinObj(f, Ob(y), Ob(z)), [op |-> "IBin", f |-> f, y |-> y, z |-> z])

ScalCol(f, p, c) == CASE f = "add"  -> PAdd(p, PConst(c))
                      [] f = "radd" -> PAdd(p, PConst(c))
                      [] f = "sub"  -> PSub(p, PConst(c))
                      [] f = "rsub" -> PSub(PConst(c), p)
                      [] f = "mul"  -> PScale(p, c)
                      [] f = "rmul" -> PScale(p, c)
                      [] f = "div"  -> PScale(p, RInv(c))
ScalOps == {"add", "radd", "sub", "rsub", "mul", "rmul", "div"}
IScalOps == {"add", "sub", "mul", "div"}
ScalObj(f, o, c) == MapCols(o, LAMBDA p : ScalCol(f, p, c))
Scal(x, y, f, c) == /\ Bound(y) /\ (f = "div" => c[1] # 0)
                    /\ Alloc(x, ScalObj(f, Ob(y), c), [op |-> "Scal", f |-> f, y |-> y, c |-> c])
IScal(y, f, c) == /\ Bound(y) /\ (f = "div" => c[1] # 0)
                  /\ Update(env[y], ScalObj(f, Ob(y), c), [op |-> "IScal", f |-> f, y |-> y, c |-> c])

\* one constant per column
ArrOps == {"add", "sub", "mul", "div"}
Arr(x, y, f, cs) ==
  /\ Bound(y) /\ Len(cs) = Cols(y)
  /\ (f = "div" => \A i \in DOMAIN cs : cs[i][1] # 0)
  /\ Alloc(x, [Ob(y) EXCEPT !.cols = TLCEval([i \in DOMAIN @ |-> ScalCol(f, @[i], cs[i])])],
           [op |-> "Arr", f |-> f, y |-> y, cs |-> cs])

Neg(x, y) == Bound(y) /\ Alloc(x, MapCols(Ob(y), PNeg), [op |-> "Neg", y |-> y])

\* n-th power by a small integer
Power(x, y, n) ==
  /\ Bound(y) /\ OTerms(Ob(y)) <= 4 /\ ODeg(Ob(y)) * n <= 80
  /\ Alloc(x, MapCols(Ob(y), LAMBDA p : PPow(p, n)), [op |-> "Power", y |-> y, n |-> n])

\* derivative with respect to the variable of the domain
DiffObj(o, n) == LET s == RPow(RInv(HalfLen(o.dom)), n) IN
                 MapCols(o, LAMBDA p : PScale(PDiffN(p, n), s))
DiffOp(x, y, n) ==
  /\ Bound(y)
  /\ Alloc(x, DiffObj(Ob(y), n), [op |-> "Diff", y |-> y, n |-> n])

CumObj(o) == MapCols(o, LAMBDA p : PScale(PCum(p), HalfLen(o.dom)))
Cumsum(x, y) == Bound(y) /\ Alloc(x, CumObj(Ob(y)), [op |-> "Cumsum", y |-> y])

\* definite integrals: exact terms per column, the harness adds them up
SumVal(o) == [i \in DOMAIN o.cols |->
                 SetToSeq({RMul(t[2], HalfLen(o.dom)) : t \in PSumTerms(o.cols[i])})]
\* duplicate terms would be lost in a set: keep the degree with the term
SumTermsJson(p, s) == SetToSortSeq({<<t[1], RMul(t[2], s)[1], RMul(t[2], s)[2]>> : t \in PSumTerms(p)},
                                   LAMBDA u, v : u[1] < v[1])
TermsBad(ts) == \E i \in DOMAIN ts : ts[i][3] = 0
Sum(y) == /\ Bound(y)
          /\ LET v == [i \in DOMAIN Ob(y).cols |-> SumTermsJson(Ob(y).cols[i], HalfLen(Ob(y).dom))]
             IN /\ \A i \in DOMAIN v : ~TermsBad(v[i])
                /\ Return(v, [op |-> "Sum", y |-> y])

\* Gram matrix of the columns
Inner(y, z) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z)
     THEN Raises("domain", [op |-> "Inner", y |-> y, z |-> z])
     ELSE /\ OTerms(Ob(y)) * OTerms(Ob(z)) <= 30
          /\ LET s == HalfLen(Ob(y).dom)
                 v == TLCEval([i \in DOMAIN Ob(y).cols |-> TLCEval([j \in DOMAIN Ob(z).cols |->
                        SumTermsJson(PMul(Ob(y).cols[i], Ob(z).cols[j]), s)])])
             IN /\ \A i \in DOMAIN v : \A j \in DOMAIN v[i] :
                      ~TermsBad(v[i][j]) /\ ~PIsBad(PMul(Ob(y).cols[i], Ob(z).cols[j]))
                /\ Return(v, [op |-> "Inner", y |-> y, z |-> z])

\* weighted inner products of corresponding columns, in units of pi
InnerW(y, z) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF ~SameDom(y, z)
     THEN Raises("domain", [op |-> "InnerW", y |-> y, z |-> z])
     ELSE /\ Cols(y) = Cols(z)
          /\ LET v == [i \in DOMAIN Ob(y).cols |->
                         RMul(HalfLen(Ob(y).dom), PInnerW(Ob(y).cols[i], Ob(z).cols[i]))]
             IN (\A i \in DOMAIN v : ~IsBad(v[i])) /\ Return(v, [op |-> "InnerW", y |-> y, z |-> z])

\* p-th powers of norms of the whole array-valued function: exact terms, one list per contribution
Squares(o) == [i \in DOMAIN o.cols |-> SumTermsJson(PMul(o.cols[i], o.cols[i]), HalfLen(o.dom))]
NormTerms(o, kind) ==
  CASE kind = "l2" -> Squares(o)
    [] kind = "l4" -> [i \in DOMAIN o.cols |-> SumTermsJson(PPow(o.cols[i], 4), HalfLen(o.dom))]
    [] kind = "h1" -> Squares(o) \o Squares(DiffObj(o, 1))
    [] kind = "h2" -> Squares(o) \o Squares(DiffObj(o, 1)) \o Squares(DiffObj(o, 2))
NormKinds == {"l2", "l4", "h1", "h2"}
Norm(y, kind) ==
  /\ Bound(y) /\ OTerms(Ob(y)) <= 3 /\ ODeg(Ob(y)) <= (IF kind = "l2" THEN 40 ELSE 9)
  /\ LET v == TLCEval(NormTerms(Ob(y), kind))
     IN /\ \A i \in DOMAIN v : ~TermsBad(v[i])
        /\ Return(v, [op |-> "Norm", kind |-> kind, y |-> y])

\* values at the points a + (h + 2)/4 (b - a), h in -2..2
Eval(y, h) ==
  /\ Bound(y)
  /\ LET v == [i \in DOMAIN Ob(y).cols |-> PEval(Ob(y).cols[i], h)]
     IN (\A i \in DOMAIN v : ~IsBad(v[i])) /\ Return(v, [op |-> "Eval", y |-> y, h |-> h])

\* evaluation outside of the domain is refused
EvalOut(y, side) == Bound(y) /\ Raises("outside", [op |-> "EvalOut", y |-> y, side |-> side])

\* the part of each column over <<s1, s2>> in the variable on [-1, 1], again on [-1, 1]
RestrictTo(x, y, s1, s2) ==
  /\ Bound(y) /\ ODeg(Ob(y)) <= 7 /\ OTerms(Ob(y)) <= 4
  /\ Ob(y).dom = <<RInt(-1), ROne>>
  /\ LET al == RMul(<<1, 2>>, RSub(s2, s1))  be == RMul(<<1, 2>>, RAdd(s1, s2))
     IN Alloc(x, MapCols(Ob(y), LAMBDA p : PAffine(p, al, be)),
              [op |-> "Restrict", y |-> y, s |-> <<s1, s2>>])

ColOf(x, y, i) == /\ Bound(y) /\ i \in 1..Cols(y)
                  /\ Alloc(x, [Ob(y) EXCEPT !.cols = <<@[i]>>], [op |-> "Col", y |-> y, i |-> i])
SliceOf(x, y, i, j) == /\ Bound(y) /\ 1 <= i /\ i <= j /\ j <= Cols(y)
                       /\ Alloc(x, [Ob(y) EXCEPT !.cols = SubSeq(@, i, j)],
                                [op |-> "Slice", y |-> y, i |-> i, j |-> j])
\* a column number that does not exist is refused
ColBad(y) == Bound(y) /\ Raises("index", [op |-> "ColBad", y |-> y, i |-> Cols(y) + 1])
HStack(x, y, z) == /\ Bound(y) /\ Bound(z) /\ SameDom(y, z) /\ Cols(y) + Cols(z) <= 4
                   /\ Alloc(x, [Ob(y) EXCEPT !.cols = @ \o Ob(z).cols],
                            [op |-> "HStack", y |-> y, z |-> z])

\* changes of representation: same function, in place or as a new object
Prolong(y, k) == Bound(y) /\ Update(env[y], Ob(y), [op |-> "Prolong", y |-> y, n |-> ODeg(Ob(y)) + 1 + k])
ProlongFn(x, y, k) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "ProlongFn", y |-> y, n |-> ODeg(Ob(y)) + 1 + k])
Simplify(y) == Bound(y) /\ Update(env[y], Ob(y), [op |-> "Simplify", y |-> y])
RoundTrip(x, y, mode) == Bound(y) /\ (mode \in {"ultra1", "ultra2"} => ODeg(Ob(y)) <= 40) /\ Alloc(x, Ob(y), [op |-> "RoundTrip", mode |-> mode, y |-> y])
Like(x, y, mode) == Bound(y) /\ Alloc(x, MapCols(Ob(y), LAMBDA p : IF mode = "zeros" THEN PZero ELSE PConst(ROne)),
                                      [op |-> "Like", mode |-> mode, y |-> y])
Part(x, y, mode) == Bound(y) /\ Alloc(x, MapCols(Ob(y), LAMBDA p : IF mode = "imag" THEN PZero ELSE p),
                                      [op |-> "Part", mode |-> mode, y |-> y])
-----------------------------------------------------------------------------
Init == /\ heap = [i \in {} |-> 0]
        /\ env = [n \in Names |-> 0]
        /\ out = [op |-> "Init"]
        /\ hist = <<>>
        /\ step = 0

\* ---- random instance: one successor per state, parameters drawn at random ----
Pick(S) == RandomElement(S)
DegPool == (0..12) \cup {15, 16, 17, 24, 31, 32, 33, 40, 64}
BigDegs == {100, 128, 150, 200}
CoefPool == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 4>>, <<5, 1>>, <<-5, 2>>, <<7, 3>>, <<1, 8>>}
Scalars == CoefPool \cup {<<0, 1>>, <<4, 1>>, <<-7, 1>>, <<1, 16>>}

RandSeries(u) ==   \* the argument keeps TLC from evaluating it once and for all
  LET kind == Pick(1..12) IN
  IF kind = 1 THEN PZero
  ELSE IF kind = 2 THEN PConst(Pick(CoefPool))
  ELSE IF kind = 3 THEN PMono(Pick(BigDegs), Pick(CoefPool))
  ELSE LET D == TLCEval(RandomSubset(Pick(1..4), IF kind <= 8 THEN 0..6 ELSE DegPool))
       IN TLCEval([k \in D |-> Pick(CoefPool)])

RandCols(m) == IF m = 1 THEN <<TLCEval(RandSeries(step))>>
               ELSE IF m = 2 THEN <<TLCEval(RandSeries(step)), TLCEval(RandSeries(step))>>
               ELSE <<TLCEval(RandSeries(step)), TLCEval(RandSeries(step)), TLCEval(RandSeries(step))>>
BoundNames == {n \in Names : env[n] # 0}
\* prefer operands that fit together
Mates(y) == LET S == {z \in BoundNames : SameDom(y, z) /\ Cols(y) = Cols(z)} IN
            IF S # {} /\ Pick(1..6) # 1 THEN S ELSE BoundNames
\* the domain and the number of columns of a new function: often those of a live one
NewShape == LET S == {<<heap[i].dom, Len(heap[i].cols)>> : i \in Live} IN
            IF S # {} /\ Pick(1..5) # 1 THEN Pick(S) ELSE <<Pick(Doms), Pick({1, 1, 2, 3})>>

RandStep(op) ==
  \E x \in {IF (\E n \in Names : env[n] = 0) /\ Pick(1..2) = 1 THEN Pick({n \in Names : env[n] = 0}) ELSE Pick(Names)} :
  \E y \in {IF BoundNames = {} THEN x ELSE Pick(BoundNames)} :
  \E z \in {IF BoundNames = {} THEN x ELSE Pick(Mates(y))} :
  \E c \in {Pick(Scalars)} :
   CASE op = "New" -> \E sh \in {NewShape} : \E cs \in {RandCols(sh[2])} : \E md \in {Pick(IF \A i \in DOMAIN cs : Deg(cs[i]) <= 12 THEN {"coeffs", "values", "call", "array"}
                                       ELSE {"coeffs", "values", "array"})} :
                        \E pad \in {Pick({0, 0, 1, 2, 5, 11, 30})} :
                        New(x, [dom |-> sh[1], cols |-> cs], md, pad)
     [] op = "Alias" -> AliasOf(x, y)
     [] op = "Copy" -> \E md \in {Pick({"npcopy", "deepcopy", "pos"})} : Copy(x, y, md)
     [] op = "Bin" -> \E f \in {Pick({"add", "sub", "mul"})} : Bin(x, y, z, f)
     [] op = "IBin" -> \E f \in {Pick({"add", "sub", "mul"})} : IBin(y, z, f)
     [] op = "Scal" -> \E f \in {Pick(ScalOps)} : Scal(x, y, f, c)
     [] op = "IScal" -> \E f \in {Pick(IScalOps)} : IScal(y, f, c)
     [] op = "Arr" -> \E f \in {Pick(ArrOps)} : Bound(y) /\
                        \E cs \in {TLCEval([i \in 1..Cols(y) |-> Pick(Scalars)])} : Arr(x, y, f, cs)
     [] op = "Neg" -> Neg(x, y)
     [] op = "Power" -> \E n \in {Pick(1..4)} : Power(x, y, n)
     [] op = "Diff" -> \E n \in {Pick(1..3)} : DiffOp(x, y, n)
     [] op = "Cumsum" -> Cumsum(x, y)
     [] op = "Sum" -> Sum(y)
     [] op = "Inner" -> Inner(y, z)
     [] op = "InnerW" -> InnerW(y, z)
     [] op = "Norm" -> \E k \in {Pick(NormKinds)} : Norm(y, k)
     [] op = "Eval" -> \E h \in {Pick(-2..2)} : Eval(y, h)
     [] op = "EvalOut" -> \E s \in {Pick({"left", "right"})} : EvalOut(y, s)
     [] op = "Restrict" -> \E s \in {Pick({<<RInt(-1), RZero>>, <<RZero, ROne>>, <<<<-1, 2>>, <<1, 2>>>>,
                                          <<RInt(-1), <<1, 2>>>>, <<<<1, 2>>, ROne>>, <<RInt(-1), ROne>>})} :
                             RestrictTo(x, y, s[1], s[2])
     [] op = "Col" -> \E i \in {Pick(1..3)} : ColOf(x, y, i)
     [] op = "Slice" -> \E i \in {Pick(1..3)} : \E j \in {Pick(1..3)} : SliceOf(x, y, i, j)
     [] op = "ColBad" -> ColBad(y)
     [] op = "HStack" -> HStack(x, y, z)
     [] op = "Prolong" -> \E k \in {Pick({0, 1, 3, 8, 20})} : Prolong(y, k)
     [] op = "ProlongFn" -> \E k \in {Pick({0, 1, 3, 8, 20})} : ProlongFn(x, y, k)
     [] op = "Simplify" -> Simplify(y)
     [] op = "RoundTrip" -> \E md \in {Pick({"hdf5", "values", "coeffs", "ultra1", "ultra2", "iter"})} : RoundTrip(x, y, md)
     [] op = "Like" -> \E md \in {Pick({"zeros", "ones"})} : Like(x, y, md)
     [] op = "Part" -> \E md \in {Pick({"real", "imag", "conj"})} : Part(x, y, md)

\* One step: in simulation mode TLC draws one of the operations that are enabled.
Emit == /\ step = Depth
        /\ PrintT("BEHAVIOUR " \o ToJson(hist))
        /\ step' = Depth + 1
        /\ UNCHANGED <<heap, env, out, hist>>
SimNext == (\E op \in Ops : step < Depth /\ RandStep(op)) \/ Emit
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
