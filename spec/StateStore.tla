----------------------------- MODULE StateStore -----------------------------
(***************************************************************************)
(* A store of state vectors: Cartesian products of functions and named      *)
(* parameters, with inner product weights and a namespace of the remaining  *)
(* parameters of the problem.                                              *)
(*                                                                         *)
(* object = [kind, dom, reals, funcs, w, ns]                                *)
(*   kind   defl (one function), cont (function, parameter), twoc (function,*)
(*          two parameters), two (two functions, two parameters)            *)
(*   reals  sequence of <<name, value>> : the active parameters             *)
(*   funcs  sequence of array valued functions (sequences of series)        *)
(*   w      weights: functions first, then parameters                       *)
(*   ns     name -> value of every other parameter                          *)
(* A Moore-Penrose pair is [kind |-> "mp", u, v, n2]: a state and a tangent *)
(* v / sqrt(n2).                                                            *)
(***************************************************************************)
EXTENDS Cheb, Json, Randomization

CONSTANTS Ops, Names, MaxHeap, Depth
VARIABLES heap, env, out, hist, step
vars == <<heap, env, out, hist, step>>

Kinds == {"defl", "cont", "twoc", "two"}
NReals(k) == CASE k = "defl" -> 0 [] k = "cont" -> 1 [] OTHER -> 2
NFuncs(k) == IF k = "two" THEN 2 ELSE 1
Pars == {"lam", "mu", "al", "be", "D"}
Doms == { <<<<-1, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<4, 1>>>>, <<<<-2, 1>>, <<3, 1>>>> }
HalfLen(d) == RMul(<<1, 2>>, RSub(d[2], d[1]))

FBad(f) == \E i \in DOMAIN f : PIsBad(f[i])
SBad(s) == (\E i \in DOMAIN s.funcs : FBad(s.funcs[i])) \/ (\E i \in DOMAIN s.reals : IsBad(s.reals[i][2]))
OBad(o) == IF o.kind = "mp" THEN SBad(o.u) \/ SBad(o.v) \/ IsBad(o.n2) ELSE SBad(o)
RJ(r) == <<r[1], r[2]>>
SJson(s) == [kind |-> s.kind, dom |-> s.dom,
             reals |-> [i \in DOMAIN s.reals |-> <<s.reals[i][1], s.reals[i][2][1], s.reals[i][2][2]>>],
             funcs |-> [i \in DOMAIN s.funcs |-> [j \in DOMAIN s.funcs[i] |-> PJson(s.funcs[i][j])]],
             w |-> s.w,
             ns |-> {<<n, s.ns[n][1], s.ns[n][2]>> : n \in DOMAIN s.ns}]
OJson(o) == IF o.kind = "mp" THEN [kind |-> "mp", u |-> SJson(o.u), v |-> SJson(o.v), n2 |-> o.n2] ELSE SJson(o)

\* component-wise maps
MapS(s, F(_), G(_)) == [s EXCEPT !.funcs = TLCEval([i \in DOMAIN @ |-> TLCEval([j \in DOMAIN @[i] |-> F(@[i][j])])]),
                                 !.reals = TLCEval([i \in DOMAIN @ |-> <<@[i][1], G(@[i][2])>>])]
ZipS(s, t, F(_, _), G(_, _)) ==
  [s EXCEPT !.funcs = TLCEval([i \in DOMAIN @ |-> TLCEval([j \in DOMAIN @[i] |-> F(@[i][j], t.funcs[i][j])])]),
            !.reals = TLCEval([i \in DOMAIN @ |-> <<@[i][1], G(@[i][2], t.reals[i][2])>>])]
\* inner product of the product space
FInner(f, g, d) == RMul(HalfLen(d), RSumSeq([j \in DOMAIN f |-> PInner(f[j], g[j])]))
SInnerOf(s, t, FI(_, _, _)) ==
  RAdd(RSumSeq([i \in DOMAIN s.funcs |-> RMul(s.w[i], FI(s.funcs[i], t.funcs[i], s.dom))]),
       RSumSeq([i \in DOMAIN s.reals |-> RMul(s.w[Len(s.funcs) + i], RMul(s.reals[i][2], t.reals[i][2]))]))
SInner(s, t) == SInnerOf(s, t, FInner)
\* weighted: <<coefficient of pi, rational part>>
FInnerW(f, g, d) == RMul(HalfLen(d), RSumSeq([j \in DOMAIN f |-> PInnerW(f[j], g[j])]))
SInnerW(s, t) == << RSumSeq([i \in DOMAIN s.funcs |-> RMul(s.w[i], FInnerW(s.funcs[i], t.funcs[i], s.dom))]),
                    RSumSeq([i \in DOMAIN s.reals |-> RMul(s.w[Len(s.funcs) + i], RMul(s.reals[i][2], t.reals[i][2]))]) >>
SNorm2(s) == SInner(s, s)
SNorm4(s) == RAdd(RSumSeq([i \in DOMAIN s.funcs |-> RMul(s.w[i], RMul(HalfLen(s.dom),
                          RSumSeq([j \in DOMAIN s.funcs[i] |-> PSum(PPow(s.funcs[i][j], 4))])))]),
                  RSumSeq([i \in DOMAIN s.reals |-> RMul(s.w[Len(s.funcs) + i], RPow(s.reals[i][2], 4))]))
SDeg(s) == Max({0} \cup {Deg(s.funcs[i][j]) : i \in DOMAIN s.funcs, j \in DOMAIN s.funcs[1]})
STerms(s) == Max({0} \cup {Cardinality(DOMAIN s.funcs[i][j]) : i \in DOMAIN s.funcs, j \in DOMAIN s.funcs[1]})
ParNames(s) == [i \in DOMAIN s.reals |-> s.reals[i][1]]
Shape(s) == <<s.kind, s.dom, ParNames(s), Len(s.funcs[1])>>
Known(s) == {s.reals[i][1] : i \in DOMAIN s.reals} \cup DOMAIN s.ns
Value(s, n) == IF n \in DOMAIN s.ns THEN s.ns[n] ELSE LET i == CHOOSE i \in DOMAIN s.reals : s.reals[i][1] = n IN s.reals[i][2]
-----------------------------------------------------------------------------
Live == {env[n] : n \in {m \in Names : env[m] # 0}}
Fresh == CHOOSE i \in 1..MaxHeap : i \notin Live
CanAlloc == \E i \in 1..MaxHeap : i \notin Live
Log(rec) == /\ out' = rec /\ hist' = Append(hist, rec) /\ step' = step + 1
Alloc(x, o, rec) ==
  /\ ~OBad(o) /\ CanAlloc
  /\ LET i == Fresh IN
       /\ heap' = (i :> o) @@ heap
       /\ env' = [env EXCEPT ![x] = i]
       /\ Log(rec @@ [res |-> "new", x |-> x, id |-> i, obj |-> OJson(o)])
Update(i, o, rec) ==
  /\ ~OBad(o) /\ heap' = [heap EXCEPT ![i] = o] /\ UNCHANGED env
  /\ Log(rec @@ [res |-> "upd", id |-> i, obj |-> OJson(o)])
Return(v, rec) == UNCHANGED <<heap, env>> /\ Log(rec @@ [res |-> "val", val |-> v])
Raises(what, rec) == UNCHANGED <<heap, env>> /\ Log(rec @@ [res |-> "raise", why |-> what])
Bound(y) == env[y] # 0
Ob(y) == heap[env[y]]
IsMp(y) == Ob(y).kind = "mp"
Plain(y) == Bound(y) /\ ~IsMp(y)
-----------------------------------------------------------------------------
New(x, o, how) == Alloc(x, o, [op |-> "New", how |-> how])
AliasOf(x, y) == /\ Bound(y) /\ env' = [env EXCEPT ![x] = env[y]] /\ UNCHANGED heap
                 /\ Log([op |-> "Alias", res |-> "alias", x |-> x, y |-> y, id |-> env[y]])
Deep(x, y) == Bound(y) /\ Alloc(x, Ob(y), [op |-> "Deep", y |-> y])

BinS(f, s, t) == CASE f = "add" -> ZipS(s, t, PAdd, RAdd)
                   [] f = "sub" -> ZipS(s, t, PSub, RSub)
                   [] f = "mul" -> ZipS(s, t, PMul, RMul)
\* is the positive rational r a square, and of what
ISqrt(n) == LET S == {k \in 0..180 : k * k = n} IN IF S = {} THEN -1 ELSE CHOOSE k \in S : TRUE
RSqrt(r) == IF IsBad(r) \/ ISqrt(r[1]) < 0 \/ ISqrt(r[2]) < 0 THEN Bad ELSE <<ISqrt(r[1]), ISqrt(r[2])>>
\* the pair with normalised tangent (a vanishing tangent stays)
Mp(u, v) == LET n == SNorm2(v) IN [kind |-> "mp", u |-> u, v |-> v, n2 |-> IF RIsZero(n) THEN ROne ELSE n]
\* v1 / sqrt(n1) (+-) v2 / sqrt(n2) is a multiple of v1 (+-) v2 sqrt(n1 / n2)
MpBin(f, o, p) == LET r == RSqrt(RDiv(o.n2, p.n2))
                      v2 == MapS(p.v, LAMBDA q : PScale(q, r), LAMBDA a : RMul(a, r))
                  IN Mp(BinS(f, o.u, p.u), BinS(f, o.v, v2))
BinO(f, o, p) == IF o.kind = "mp" THEN MpBin(f, o, p) ELSE BinS(f, o, p)
St(o) == IF o.kind = "mp" THEN o.u ELSE o
Fits(o, p) == (o.kind = "mp") = (p.kind = "mp") /\ Shape(St(o)) = Shape(St(p))
MulOk(f, o, p) == /\ (f = "mul" => o.kind # "mp" /\ STerms(o) * STerms(p) <= 30 /\ SDeg(o) + SDeg(p) <= 120)
                  /\ (o.kind = "mp" => ~IsBad(RSqrt(RDiv(o.n2, p.n2))))
Bin(x, y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF Ob(y).kind # Ob(z).kind THEN Raises("kind", [op |-> "Bin", f |-> f, y |-> y, z |-> z])
     ELSE IF St(Ob(y)).dom # St(Ob(z)).dom THEN ~IsMp(y) /\ Raises("domain", [op |-> "Bin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Fits(Ob(y), Ob(z)) /\ MulOk(f, Ob(y), Ob(z))
          /\ Alloc(x, BinO(f, Ob(y), Ob(z)), [op |-> "Bin", f |-> f, y |-> y, z |-> z])
IBin(y, z, f) ==
  /\ Bound(y) /\ Bound(z)
  /\ IF Ob(y).kind # Ob(z).kind THEN Raises("kind", [op |-> "IBin", f |-> f, y |-> y, z |-> z])
     ELSE IF St(Ob(y)).dom # St(Ob(z)).dom THEN ~IsMp(y) /\ Raises("domain", [op |-> "IBin", f |-> f, y |-> y, z |-> z])
     ELSE /\ Fits(Ob(y), Ob(z)) /\ MulOk(f, Ob(y), Ob(z))
          /\ Update(env[y], BinO(f, Ob(y), Ob(z)), [op |-> "IBin", f |-> f, y |-> y, z |-> z])

ScalP(f, p, c) == CASE f \in {"add", "radd"} -> PAdd(p, PConst(c)) [] f = "sub" -> PSub(p, PConst(c))
                    [] f = "rsub" -> PSub(PConst(c), p) [] f \in {"mul", "rmul"} -> PScale(p, c) [] f = "div" -> PScale(p, RInv(c))
ScalR(f, a, c) == CASE f \in {"add", "radd"} -> RAdd(a, c) [] f = "sub" -> RSub(a, c) [] f = "rsub" -> RSub(c, a)
                    [] f \in {"mul", "rmul"} -> RMul(a, c) [] f = "div" -> RDiv(a, c)
ScalS(f, s, c) == MapS(s, LAMBDA p : ScalP(f, p, c), LAMBDA a : ScalR(f, a, c))
ScalO(f, o, c) == IF o.kind = "mp" THEN Mp(ScalS(f, o.u, c), ScalS(f, o.v, c)) ELSE ScalS(f, o, c)
ScalOps == {"add", "radd", "sub", "rsub", "mul", "rmul", "div"}
IScalOps == {"add", "sub", "mul", "div"}
ScalOk(f, o, c) == /\ (f = "div" => ~RIsZero(c))
                   /\ (o.kind = "mp" => f \in {"mul", "rmul", "div"} /\ ~RIsZero(c))
Scal(x, y, f, c) == /\ Bound(y) /\ ScalOk(f, Ob(y), c)
                    /\ Alloc(x, ScalO(f, Ob(y), c), [op |-> "Scal", f |-> f, y |-> y, c |-> c])
IScal(y, f, c) == /\ Bound(y) /\ ScalOk(f, Ob(y), c)
                  /\ Update(env[y], ScalO(f, Ob(y), c), [op |-> "IScal", f |-> f, y |-> y, c |-> c])
NegO(o) == IF o.kind = "mp" THEN Mp(MapS(o.u, PNeg, RNeg), MapS(o.v, PNeg, RNeg)) ELSE MapS(o, PNeg, RNeg)
Neg(x, y) == Bound(y) /\ Alloc(x, NegO(Ob(y)), [op |-> "Neg", y |-> y])
LikeS(s, mode) == MapS(s, LAMBDA p : IF mode = "zeros" THEN PZero ELSE PConst(ROne), LAMBDA a : IF mode = "zeros" THEN RZero ELSE ROne)
Like(x, y, mode) == Plain(y) /\ Alloc(x, LikeS(Ob(y), mode), [op |-> "Like", mode |-> mode, y |-> y])
Part(x, y, mode) == Plain(y) /\ Alloc(x, IF mode = "imag" THEN LikeS(Ob(y), "zeros") ELSE Ob(y), [op |-> "Part", mode |-> mode, y |-> y])
Prolong(y, k) == Plain(y) /\ Update(env[y], Ob(y), [op |-> "Prolong", y |-> y, n |-> SDeg(Ob(y)) + 1 + k])
Simplify(y) == Plain(y) /\ Update(env[y], Ob(y), [op |-> "Simplify", y |-> y])
\* pair of a state and a tangent (constructed from copies)
MpNew(x, y, z) == /\ Plain(y) /\ Plain(z) /\ Shape(Ob(y)) = Shape(Ob(z))
                  /\ Alloc(x, [kind |-> "mp", u |-> Ob(y), v |-> Ob(z), n2 |-> ROne], [op |-> "MpNew", y |-> y, z |-> z])
MpPart(x, y, which) == Bound(y) /\ IsMp(y) /\ (which = "v" => Ob(y).n2 = ROne) /\
                       Alloc(x, IF which = "u" THEN Ob(y).u ELSE Ob(y).v, [op |-> "MpPart", y |-> y, which |-> which])
\* namespace
SetNs(y, n, v) == Plain(y) /\ n \notin {Ob(y).reals[i][1] : i \in DOMAIN Ob(y).reals} /\
                  Update(env[y], [Ob(y) EXCEPT !.ns = (n :> v) @@ @], [op |-> "SetNs", y |-> y, n |-> n, v |-> v])
\* another state kind with other active parameters, everything else kept
Rest(s, ps) == [n \in Known(s) \ {ps[i][1] : i \in DOMAIN ps} |-> Value(s, n)]
Switched(s, kind, ps) ==
  [kind |-> kind, dom |-> s.dom, reals |-> ps,
   funcs |-> IF kind = "two" THEN <<s.funcs[1], [j \in DOMAIN s.funcs[1] |-> PZero]>> ELSE <<s.funcs[1]>>,
   w |-> [i \in 1..(NFuncs(kind) + NReals(kind)) |-> ROne], ns |-> Rest(s, ps)]
FromState(x, y, kind, ps) ==
  Plain(y) /\ Len(ps) = NReals(kind) /\ (Len(ps) = 2 => ps[1][1] # ps[2][1]) /\
  Alloc(x, Switched(Ob(y), kind, ps), [op |-> "FromState", y |-> y, kind |-> kind,
                                       ps |-> [i \in DOMAIN ps |-> <<ps[i][1], ps[i][2][1], ps[i][2][2]>>]])
SameNames(y, n) == Plain(y) /\ Raises("names", [op |-> "SameNames", y |-> y, n |-> n])
\* coefficient vector and back (weights and namespace are not part of it), and a file and back
Coeffs(x, y) == Plain(y) /\ Ob(y).kind # "two" /\
   Alloc(x, [Ob(y) EXCEPT !.ns = [n \in {} |-> RZero], !.w = [i \in DOMAIN @ |-> ROne]], [op |-> "Coeffs", y |-> y])
File(x, y) == Plain(y) /\ Ob(y).kind = "cont" /\ Alloc(x, Ob(y), [op |-> "File", y |-> y])

Inner(y, z, how) ==
  /\ Plain(y) /\ Plain(z) /\ Ob(y).kind = Ob(z).kind /\ ParNames(Ob(y)) = ParNames(Ob(z)) /\ Len(Ob(y).funcs[1]) = Len(Ob(z).funcs[1])
  /\ IF Ob(y).dom # Ob(z).dom THEN Raises("domain", [op |-> "Inner", how |-> how, y |-> y, z |-> z])
     ELSE LET v == IF how = "innerw" THEN SInnerW(Ob(y), Ob(z)) ELSE <<RZero, SInner(Ob(y), Ob(z))>>
          IN ~IsBad(v[1]) /\ ~IsBad(v[2]) /\ Return(v, [op |-> "Inner", how |-> how, y |-> y, z |-> z])
Norm(y, p) == /\ Plain(y) /\ (p = 4 => STerms(Ob(y)) <= 3 /\ SDeg(Ob(y)) <= 20)
              /\ LET v == IF p = 2 THEN SNorm2(Ob(y)) ELSE SNorm4(Ob(y))
                 IN ~IsBad(v) /\ Return(v, [op |-> "Norm", p |-> p, y |-> y])
\* a copy, normalised in place
Normalize(y) == Plain(y) /\ LET v == SNorm2(Ob(y)) IN ~IsBad(v) /\ Return(v, [op |-> "Normalize", y |-> y, obj |-> OJson(Ob(y))])
Mass(y) == Plain(y) /\ LET s == Ob(y) v == [i \in DOMAIN s.funcs |-> RMul(HalfLen(s.dom), RSumSeq([j \in DOMAIN s.funcs[i] |-> PSum(s.funcs[i][j])]))]
                       IN (\A i \in DOMAIN v : ~IsBad(v[i])) /\ Return(v, [op |-> "Mass", y |-> y])
-----------------------------------------------------------------------------
Init == /\ heap = [i \in {} |-> 0] /\ env = [n \in Names |-> 0] /\ out = [op |-> "Init"] /\ hist = <<>> /\ step = 0

Pick(S) == RandomElement(S)
CoefPool == {<<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 4>>, <<5, 1>>, <<-5, 2>>}
Scalars == CoefPool \cup {<<0, 1>>, <<4, 1>>, <<-7, 1>>, <<1, 8>>}
WPool == {<<1, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>}
RandSeries(u) ==
  LET kind == Pick(1..8) IN
  IF kind = 1 THEN PZero
  ELSE IF kind \in {2, 3} THEN PConst(Pick(CoefPool))
  ELSE LET D == TLCEval(RandomSubset(Pick(1..3), IF kind <= 7 THEN 0..6 ELSE 0..40))
       IN TLCEval([k \in D |-> Pick(CoefPool)])
RandFunc(m) == IF m = 1 THEN <<TLCEval(RandSeries(step))>> ELSE <<TLCEval(RandSeries(step)), TLCEval(RandSeries(step))>>
RandNames(k) == LET a == Pick(Pars) b == Pick(Pars \ {a}) IN <<a, b>>
RandShape(u) == LET S == {Shape(St(heap[i])) : i \in Live} IN
   IF S # {} /\ Pick(1..4) # 1 THEN Pick(S)
   ELSE LET k == Pick(Kinds) nm == RandNames(step) IN <<k, Pick(Doms), SubSeq(nm, 1, NReals(k)), Pick({1, 1, 2})>>
RandState(sh) ==
  LET k == sh[1]
      nsd == TLCEval(RandomSubset(Pick(0..3), Pars) \ {sh[3][i] : i \in DOMAIN sh[3]})
  IN [kind |-> k, dom |-> sh[2], reals |-> TLCEval([i \in DOMAIN sh[3] |-> <<sh[3][i], Pick(Scalars)>>]),
      funcs |-> IF k = "two" THEN <<RandFunc(sh[4]), RandFunc(sh[4])>> ELSE <<RandFunc(sh[4])>>,
      w |-> TLCEval([i \in 1..(NFuncs(k) + NReals(k)) |-> Pick(WPool)]),
      ns |-> TLCEval([n \in nsd |-> Pick(Scalars)])]
BoundNames == {n \in Names : env[n] # 0}
Mates(y) == LET S == {z \in BoundNames : Fits(Ob(y), Ob(z))} IN IF S # {} /\ Pick(1..8) # 1 THEN S ELSE BoundNames

RandStep(op) ==
  \E x \in {IF (\E n \in Names : env[n] = 0) /\ Pick(1..2) = 1 THEN Pick({n \in Names : env[n] = 0}) ELSE Pick(Names)} :
  \E y \in {IF BoundNames = {} THEN x ELSE Pick(BoundNames)} :
  \E z \in {IF BoundNames = {} THEN x ELSE Pick(Mates(y))} :
  \E c \in {Pick(Scalars)} :
   CASE op = "New" -> \E sh \in {TLCEval(RandShape(step))} : \E o \in {TLCEval(RandState(sh))} : \E h \in {Pick({"kw", "ns"})} : New(x, o, h)
     [] op = "Alias" -> AliasOf(x, y)
     [] op = "Deep" -> Deep(x, y)
     [] op = "Bin" -> \E f \in {Pick({"add", "sub", "mul"})} : Bin(x, y, z, f)
     [] op = "IBin" -> \E f \in {Pick({"add", "sub", "mul"})} : IBin(y, z, f)
     [] op = "Scal" -> \E f \in {Pick(ScalOps)} : Scal(x, y, f, c)
     [] op = "IScal" -> \E f \in {Pick(IScalOps)} : IScal(y, f, c)
     [] op = "Neg" -> Neg(x, y)
     [] op = "Like" -> \E md \in {Pick({"zeros", "ones"})} : Like(x, y, md)
     [] op = "Part" -> \E md \in {Pick({"real", "imag", "conj"})} : Part(x, y, md)
     [] op = "Prolong" -> \E k \in {Pick({0, 1, 5, 20})} : Prolong(y, k)
     [] op = "Simplify" -> Simplify(y)
     [] op = "MpNew" -> MpNew(x, y, z)
     [] op = "MpPart" -> \E h \in {Pick({"u", "v"})} : MpPart(x, y, h)
     [] op = "SetNs" -> \E n \in {Pick(Pars)} : SetNs(y, n, c)
     [] op = "FromState" -> \E k \in {Pick(Kinds)} : \E nm \in {TLCEval(RandNames(step))} :
                              FromState(x, y, k, [i \in 1..NReals(k) |-> <<nm[i], Pick(Scalars)>>])
     [] op = "SameNames" -> \E n \in {Pick(Pars)} : SameNames(y, n)
     [] op = "Coeffs" -> Coeffs(x, y)
     [] op = "File" -> File(x, y)
     [] op = "Inner" -> \E h \in {Pick({"inner", "dot", "innerw"})} : Inner(y, z, h)
     [] op = "Norm" -> \E p \in {Pick({2, 2, 4})} : Norm(y, p)
     [] op = "Normalize" -> Normalize(y)
     [] op = "Mass" -> Mass(y)

Emit == /\ step = Depth
        /\ PrintT("BEHAVIOUR " \o ToJson(hist))
        /\ step' = Depth + 1
        /\ UNCHANGED <<heap, env, out, hist>>
SimNext == (\E op \in Ops : step < Depth /\ RandStep(op)) \/ Emit
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
