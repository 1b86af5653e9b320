----------------------------- MODULE FunStoreMC -----------------------------
(***************************************************************************)
(* Exhaustive instance of FunStore with a second, independent account of    *)
(* every object: its values at the five points -1, -1/2, 0, 1/2, 1, updated *)
(* pointwise by the meaning of each operation.  Checked: both accounts agree*)
(* (the series algebra means what it says); operations are local (nothing   *)
(* but the named object changes); variables always name live objects of one *)
(* shape; derivative and integral are inverse to each other.                *)
(***************************************************************************)
EXTENDS FunStore
CONSTANT MaxLevel
VARIABLE shadow     \* object id -> column -> values at h = -2..2 (as 1..5)
mcvars == <<heap, env, out, hist, step, shadow>>

HS == -2..2
Vals(o) == [i \in DOMAIN o.cols |-> [j \in 1..5 |-> PEval(o.cols[i], j - 3)]]
D1 == <<RInt(-1), ROne>>
D2 == <<RInt(0), RInt(4)>>
Seeds == { [dom |-> D1, cols |-> <<PMono(2, ROne)>>],
           [dom |-> D1, cols |-> <<PAdd(PMono(3, <<1, 2>>), PConst(RInt(-1)))>>],
           [dom |-> D2, cols |-> <<PMono(1, RInt(2))>>],
           [dom |-> D1, cols |-> <<PZero, PMono(5, ROne)>>] }
Consts == {RInt(2), <<-1, 2>>}

V2(f, u, v) == CASE f = "add" -> RAdd(u, v) [] f = "sub" -> RSub(u, v) [] f = "mul" -> RMul(u, v)
VS(f, u, c) == CASE f \in {"add", "radd"} -> RAdd(u, c) [] f = "sub" -> RSub(u, c) [] f = "rsub" -> RSub(c, u)
                 [] f \in {"mul", "rmul"} -> RMul(u, c) [] f = "div" -> RDiv(u, c)
\* the object an operation produced or changed
Tgt == out'.id
Sh(v) == shadow' = (Tgt :> v) @@ shadow
Map1(s, Op(_)) == TLCEval([i \in DOMAIN s |-> TLCEval([j \in 1..5 |-> Op(s[i][j])])])
Map2(s, t, Op(_, _)) == TLCEval([i \in DOMAIN s |-> TLCEval([j \in 1..5 |-> Op(s[i][j], t[i][j])])])
S(y) == shadow[env[y]]

MCInit == Init /\ shadow = [i \in {} |-> 0]
MCNext ==
  \/ \E x \in Names, o \in Seeds : New(x, o, "coeffs", 0) /\ Sh(Vals(o))
  \/ \E x, y \in Names : x # y /\ AliasOf(x, y) /\ UNCHANGED shadow
  \/ \E x, y \in Names : Copy(x, y, "npcopy") /\ Sh(S(y))
  \/ \E x, y, z \in Names, f \in {"add", "sub", "mul"} :
        Bin(x, y, z, f) /\ IF out'.res = "new" THEN Sh(Map2(S(y), S(z), LAMBDA u, v : V2(f, u, v)))
                           ELSE UNCHANGED shadow
  \/ \E y, z \in Names, f \in {"add", "sub", "mul"} :
        IBin(y, z, f) /\ IF out'.res = "upd" THEN Sh(Map2(S(y), S(z), LAMBDA u, v : V2(f, u, v)))
                         ELSE UNCHANGED shadow
  \/ \E x, y \in Names, f \in ScalOps, c \in Consts :
        Scal(x, y, f, c) /\ Sh(Map1(S(y), LAMBDA u : VS(f, u, c)))
  \/ \E y \in Names, f \in IScalOps, c \in Consts :
        IScal(y, f, c) /\ Sh(Map1(S(y), LAMBDA u : VS(f, u, c)))
  \/ \E x, y \in Names : Neg(x, y) /\ Sh(Map1(S(y), LAMBDA u : RNeg(u)))
  \/ \E x, y \in Names : DiffOp(x, y, 1) /\ Sh(Vals(heap'[Tgt]))
  \/ \E x, y \in Names : Cumsum(x, y) /\ Sh(Vals(heap'[Tgt]))
  \/ \E x, y \in Names, i \in 1..2 : ColOf(x, y, i) /\ Sh(<<S(y)[i]>>)
  \/ \E x, y, z \in Names : HStack(x, y, z) /\ Sh(S(y) \o S(z))
  \/ \E y \in Names : Simplify(y) /\ UNCHANGED shadow
  \/ \E x, y \in Names : RestrictTo(x, y, RZero, ROne) /\
        LET o == heap'[Tgt] IN
        /\ \A i \in DOMAIN o.cols : /\ PEval(o.cols[i], -2) = S(y)[i][3]
                                    /\ PEval(o.cols[i], 0) = S(y)[i][4]
                                    /\ PEval(o.cols[i], 2) = S(y)[i][5]
        /\ Sh(Vals(o))
MCSpec == MCInit /\ [][MCNext]_mcvars

Shallow == TLCGet("level") < MaxLevel
View == <<heap, env, shadow>>
TypeOK == \A n \in Names : env[n] = 0 \/ (env[n] \in DOMAIN heap /\ ~OBad(heap[env[n]]))
\* the shadow may be out of the exact range; then it says nothing
Meaning == \A i \in Live : LET v == Vals(heap[i]) s == shadow[i] IN
             \A c \in DOMAIN v : \A j \in 1..5 : IsBad(v[c][j]) \/ IsBad(s[c][j]) \/ v[c][j] = s[c][j]
Calculus == \A i \in Live : LET o == heap[i] IN
             /\ OBad(CumObj(o)) \/ OBad(DiffObj(CumObj(o), 1)) \/ DiffObj(CumObj(o), 1) = o
             /\ \A c \in DOMAIN o.cols : PEval(CumObj(o).cols[c], -2) \in {RZero, Bad}
\* nothing but the object that the operation names changes, and only creating
\* operations bind a variable
Local == [][ /\ (out'.res \in {"val", "raise"} => UNCHANGED <<heap, env>>)
             /\ (out'.res = "upd" => /\ env' = env
                                     /\ \A i \in Live : i # out'.id => heap'[i] = heap[i])
             /\ (out'.res = "new" => /\ out'.id \notin Live
                                     /\ \A i \in Live : heap'[i] = heap[i]
                                     /\ \A n \in Names : n # out'.x => env'[n] = env[n])
             /\ (out'.res = "alias" => heap' = heap) ]_mcvars
=============================================================================
