---------------------------- MODULE StateStoreMC ----------------------------
(* Exhaustive small instance of StateStore. *)
EXTENDS StateStore
CONSTANT MaxLevel
D1 == <<RInt(0), RInt(1)>>
D2 == <<RInt(-1), RInt(1)>>
Two1 == <<PConst(ROne)>>
Fs == {<<PMono(1, RInt(2))>>, <<PConst(ROne)>>}
NoNs == [n \in {} |-> RZero]
Seeds == { [kind |-> "cont", dom |-> D1, reals |-> <<<<"lam", RInt(3)>>>>, funcs |-> <<<<PConst(RInt(4))>>>>, w |-> <<ROne, ROne>>, ns |-> ("mu" :> RInt(2))],
           [kind |-> "cont", dom |-> D1, reals |-> <<<<"lam", RInt(-1)>>>>, funcs |-> <<<<PMono(1, RInt(2))>>>>, w |-> <<ROne, RInt(2)>>, ns |-> NoNs],
           [kind |-> "defl", dom |-> D2, reals |-> <<>>, funcs |-> <<<<PMono(2, ROne)>>>>, w |-> <<ROne>>, ns |-> ("lam" :> RInt(2)) @@ ("mu" :> ROne)],
           [kind |-> "two", dom |-> D2, reals |-> <<<<"mu", ROne>>, <<"lam", RInt(2)>>>>, funcs |-> <<<<PConst(ROne)>>, <<PMono(1, ROne)>>>>,
            w |-> <<ROne, RInt(2), ROne, ROne>>, ns |-> ("D" :> ROne)] }
Consts == {RInt(-2), <<1, 2>>}
MCNext ==
  \/ \E x \in Names, o \in Seeds : New(x, o, "kw")
  \/ \E x, y \in Names : x # y /\ AliasOf(x, y)
  \/ \E x, y \in Names : Deep(x, y) \/ Neg(x, y) \/ Coeffs(x, y) \/ Part(x, y, "imag") \/ Like(x, y, "ones")
  \/ \E x, y, z \in Names, f \in {"add", "sub", "mul"} : Bin(x, y, z, f)
  \/ \E y, z \in Names, f \in {"add", "sub", "mul"} : IBin(y, z, f)
  \/ \E x, y \in Names, f \in {"rsub", "mul", "div"}, c \in Consts : Scal(x, y, f, c)
  \/ \E y \in Names, f \in {"sub", "mul", "div"}, c \in Consts : IScal(y, f, c)
  \/ \E x, y, z \in Names : MpNew(x, y, z)
  \/ \E x, y \in Names, h \in {"u", "v"} : MpPart(x, y, h)
  \/ \E y \in Names, n \in {"lam", "al"} : SetNs(y, n, ROne)
  \/ \E x, y \in Names, a, b \in {"lam", "mu", "D"}, k \in Kinds : a # b /\
        FromState(x, y, k, SubSeq(<<<<a, RInt(5)>>, <<b, RInt(7)>>>>, 1, NReals(k)))
  \/ \E y, z \in Names : Inner(y, z, "inner") \/ Norm(y, 2)
MCSpec == Init /\ [][MCNext]_vars
Shallow == TLCGet("level") < MaxLevel
View == <<heap, env, out>>
States == {heap[i] : i \in Live}
Plains == {o \in States : o.kind # "mp"} \cup {o.u : o \in {p \in States : p.kind = "mp"}}
TypeOK == \A n \in Names : env[n] = 0 \/ (env[n] \in DOMAIN heap /\ ~OBad(heap[env[n]]))
\* an active parameter is never also among the others; names of active parameters differ
NamesOK == \A s \in Plains : /\ \A i \in DOMAIN s.reals : s.reals[i][1] \notin DOMAIN s.ns
                             /\ Len(s.reals) = 2 => s.reals[1][1] # s.reals[2][1]
                             /\ Len(s.w) = Len(s.reals) + Len(s.funcs)
\* results of arithmetic on pairs carry a tangent of norm one (or zero)
Tangent == \A o \in States : o.kind = "mp" /\ out.op \in {"Bin", "IBin", "Scal", "IScal", "Neg"} /\ out.res \in {"new", "upd"} /\ heap[out.id] = o
             => LET n == SNorm2(o.v) IN IsBad(n) \/ n = o.n2 \/ (RIsZero(n) /\ o.n2 = ROne)
\* the inner product is an inner product
InnerOK == \A s, t \in {p \in Plains : p.kind = "cont" /\ p.dom = D1} :
             LET a == SInner(s, t) b == SInner(t, s) q == SNorm2(s) r == SNorm2(t)
                 sum == BinS("add", s, t) IN
             /\ (s.w = t.w /\ ~IsBad(a) => a = b)
             /\ (~IsBad(q) => q[1] >= 0)
             /\ (s.w = t.w /\ ~IsBad(RMul(a, a)) /\ ~IsBad(RMul(q, r)) => RLeq(RMul(a, a), RMul(q, r)))
             /\ (s.w = t.w => LET n == SNorm2(sum) e == RAdd(RAdd(q, r), RMul(RInt(2), a)) IN IsBad(n) \/ IsBad(e) \/ n = e)
Local == [][ /\ (out'.res \in {"val", "raise"} => UNCHANGED <<heap, env>>)
             /\ (out'.res = "upd" => env' = env /\ \A i \in Live : i # out'.id => heap'[i] = heap[i])
             /\ (out'.res = "new" => out'.id \notin Live /\ \A i \in Live : heap'[i] = heap[i])
             /\ (out'.res = "alias" => heap' = heap) ]_vars
\* no operation renames a parameter; changing the kind of a state loses none and keeps the values of the others
Keeps == [][ /\ (out'.op \in {"IBin", "IScal"} /\ out'.res = "upd" =>
                    ParNames(St(heap'[out'.id])) = ParNames(St(heap[out'.id])) /\ St(heap'[out'.id]).ns = St(heap[out'.id]).ns)
             /\ (out'.op = "FromState" =>
                    LET s == heap[env[out'.y]] t == heap'[out'.id] IN
                    /\ Known(s) \subseteq Known(t)
                    /\ \A n \in Known(s) : n \in DOMAIN t.ns => t.ns[n] = Value(s, n)
                    /\ t.funcs[1] = s.funcs[1]) ]_vars
=============================================================================
