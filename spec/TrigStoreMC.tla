----------------------------- MODULE TrigStoreMC ----------------------------
(***************************************************************************)
(* Exhaustive instance of TrigStore with a second account of every object:  *)
(* its values at the points -1, -1/2, 0, 1/2, 1 of the reference interval,   *)
(* updated pointwise by the meaning of each operation.                      *)
(***************************************************************************)
EXTENDS TrigStore
CONSTANT MaxLevel
VARIABLE shadow
mcvars == <<heap, env, out, hist, step, shadow>>

HS == -2..2
Vals(o) == [i \in DOMAIN o.cols |-> [j \in 1..5 |-> FEval(o.cols[i], j - 3)]]
D1 == <<RZero, ROne, 1>>
D2 == <<ROne, RInt(2), 0>>
Cos1 == (1 :> GR(<<1, 2>>)) @@ ((-1) :> GR(<<1, 2>>))
Seeds == { [dom |-> D1, pe |-> 0, cols |-> <<Cos1>>],
           [dom |-> D1, pe |-> 0, cols |-> <<FAdd(FMono(3, <<ROne, RInt(2)>>), FConst(GOne))>>],
           [dom |-> D2, pe |-> 0, cols |-> <<FMono(1, GI)>>],
           [dom |-> D1, pe |-> 0, cols |-> <<FZero, FMono(-2, GR(RInt(2)))>>] }
Consts == {GR(RInt(2)), <<RZero, <<-1, 2>>>>}
V2(f, u, v) == CASE f = "add" -> GAdd(u, v) [] f = "sub" -> GSub(u, v) [] f = "mul" -> GMul(u, v)
VS(f, u, c) == CASE f \in {"add", "radd"} -> GAdd(u, c) [] f = "sub" -> GSub(u, c) [] f = "rsub" -> GSub(c, u)
                 [] f \in {"mul", "rmul"} -> GMul(u, c) [] f = "div" -> GMul(u, GInv(c))
Tgt == out'.id
Sh(v) == shadow' = (Tgt :> v) @@ shadow
Map1(s, Op(_)) == TLCEval([i \in DOMAIN s |-> TLCEval([j \in 1..5 |-> Op(s[i][j])])])
Map2(s, t, Op(_, _)) == TLCEval([i \in DOMAIN s |-> TLCEval([j \in 1..5 |-> Op(s[i][j], t[i][j])])])
S(y) == shadow[env[y]]
\* index of the point h - a on the circle (1 and 5 are the same point)
At(j, a) == ((j - 1 - a) % 4) + 1

MCInit == Init /\ shadow = [i \in {} |-> 0]
MCNext ==
  \/ \E x \in Names, o \in Seeds : New(x, o, "coeffs", 0) /\ Sh(Vals(o))
  \/ \E x, y \in Names : x # y /\ AliasOf(x, y) /\ UNCHANGED shadow
  \/ \E x, y \in Names : Copy(x, y, "npcopy") /\ Sh(S(y))
  \/ \E x, y, z \in Names, f \in {"add", "sub", "mul"} :
        Bin(x, y, z, f) /\ IF out'.res = "new" THEN Sh(Map2(S(y), S(z), LAMBDA u, v : V2(f, u, v))) ELSE UNCHANGED shadow
  \/ \E y, z \in Names, f \in {"add", "sub", "mul"} :
        IBin(y, z, f) /\ IF out'.res = "upd" THEN Sh(Map2(S(y), S(z), LAMBDA u, v : V2(f, u, v))) ELSE UNCHANGED shadow
  \/ \E x, y \in Names, f \in ScalOps, c \in Consts : Scal(x, y, f, c) /\ Sh(Map1(S(y), LAMBDA u : VS(f, u, c)))
  \/ \E y \in Names, f \in IScalOps, c \in Consts : IScal(y, f, c) /\ Sh(Map1(S(y), LAMBDA u : VS(f, u, c)))
  \/ \E x, y \in Names : Neg(x, y) /\ Sh(Map1(S(y), GNeg))
  \/ \E x, y \in Names : Part(x, y, "conj") /\ Sh(Map1(S(y), GConj))
  \/ \E x, y \in Names : Part(x, y, "imag") /\ Sh(Map1(S(y), LAMBDA u : GR(u[2])))
  \/ \E x, y \in Names, a \in {1, -2} : Roll(x, y, a) /\
        Sh([i \in DOMAIN S(y) |-> [j \in 1..5 |-> S(y)[i][At(j, a)]]])
  \/ \E x, y \in Names : DiffOp(x, y, 1) /\ Sh(Vals(heap'[Tgt]))
  \/ \E x, y \in Names : Cumsum(x, y) /\ (IF out'.res = "new" THEN Sh(Vals(heap'[Tgt])) ELSE UNCHANGED shadow)
  \/ \E x, y \in Names, i \in 1..2 : ColOf(x, y, i) /\ Sh(<<S(y)[i]>>)
  \/ \E y \in Names : Simplify(y) /\ UNCHANGED shadow
MCSpec == MCInit /\ [][MCNext]_mcvars
Shallow == TLCGet("level") < MaxLevel
View == <<heap, env, shadow>>
TypeOK == \A n \in Names : env[n] = 0 \/ (env[n] \in DOMAIN heap /\ ~OBad(heap[env[n]]))
Meaning == \A i \in Live : LET v == Vals(heap[i]) s == shadow[i] IN
             \A c \in DOMAIN v : \A j \in 1..5 : GBadP(v[c][j]) \/ GBadP(s[c][j]) \/ v[c][j] = s[c][j]
Calculus == \A i \in Live : LET o == heap[i]
                                d == DiffObj(o, 1)
                                back == [MapCols(d, LAMBDA p : FMulC(FCum(p), GR(o.dom[2]))) EXCEPT !.pe = @ - (1 - o.dom[3])]
                            IN OBad(d) \/ OBad(back) \/ (back.pe = o.pe /\ \A c \in DOMAIN o.cols :
                                  back.cols[c] = FSub(o.cols[c], FConst(FEval(o.cols[c], -2))))
Local == [][ /\ (out'.res \in {"val", "raise"} => UNCHANGED <<heap, env>>)
             /\ (out'.res = "upd" => /\ env' = env
                                     /\ \A i \in Live : i # out'.id => heap'[i] = heap[i])
             /\ (out'.res = "new" => /\ out'.id \notin Live
                                     /\ \A i \in Live : heap'[i] = heap[i]
                                     /\ \A n \in Names : n # out'.x => env'[n] = env[n])
             /\ (out'.res = "alias" => heap' = heap) ]_mcvars
=============================================================================
