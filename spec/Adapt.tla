-------------------------------- MODULE Adapt -------------------------------
(***************************************************************************)
(* The adaptive solver: a problem is solved on growing grids until two      *)
(* consecutive successful solutions agree.  The nonlinear solver is the     *)
(* environment: per grid it succeeds or fails and its result is near or far *)
(* from the present state.  States are named: 0 is the guess, k the result  *)
(* on the k-th grid.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Shapes, NMins, NMaxs, Ups, Fails
VARIABLES par, script, cur, stat, hist
vars == <<par, script, cur, stat, hist>>
RECURSIVE Log2Up(_)
Log2Up(n) == IF n <= 2 THEN 1 ELSE 1 + Log2Up((n + 1) \div 2)    \* exponent of the next power of two
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Grids(p) == IF p.constant THEN <<1>>
            ELSE LET top == 2 ^ (Log2Up(p.shape) + Hi(p.up - 1, 0))
                     S == {Hi(p.shape, Lo(top, 1 + 2 ^ e)) : e \in Lo(7, p.nmin)..p.nmax}
                 IN SetToSortSeq(S, <)
Pars == [shape : Shapes, nmin : NMins, nmax : NMaxs, up : Ups, fails : Fails, constant : BOOLEAN]
K == Len(script)
Ok(j) == script[j].ok
Init == /\ par \in {p \in Pars : p.nmax >= Lo(7, p.nmin) /\ (p.constant => p.shape = 1)}
        /\ script = <<>> /\ cur = 0 /\ stat = "run" /\ hist = <<>>
Solve(ok, near) ==
  LET g == Grids(par) k == K + 1
      allfail == ~ok /\ \A j \in 1..K : ~Ok(j)
      agree == ok /\ near /\ k > 1
      last == k = Len(g)
  IN /\ stat = "run"
     /\ script' = Append(script, [n |-> g[k], ok |-> ok, near |-> near, from |-> cur])
     /\ cur' = IF ok /\ ~agree THEN k ELSE cur
     /\ stat' = IF agree THEN "agree" ELSE IF allfail /\ k >= par.fails THEN "failed" ELSE IF last THEN "end" ELSE "run"
     /\ UNCHANGED <<par, hist>>
Next == \E ok, near \in BOOLEAN : Solve(ok, near)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == stat # "run"
Success == Ok(K)
\* grids grow, start at the size of the guess or above, and are bounded
Growing == LET g == Grids(par) IN Len(g) > 0 /\ \A j \in 1..(Len(g) - 1) : g[j] < g[j + 1]
Enough == ~par.constant => \A j \in 1..Len(Grids(par)) : Grids(par)[j] >= par.shape
Bounded == K <= Len(Grids(par))
\* what is returned is the guess or what a successful solve returned
Honest == cur # 0 => Ok(cur)
\* after success the answer is within the tolerance of the last solution, or is that solution
Sound == Done /\ Success => cur = K \/ (script[K].near /\ K > 1 /\ script[K].from = cur)
\* no solution, no success
NoLuck == Done /\ (\A j \in 1..K : ~Ok(j)) => cur = 0 /\ ~Success /\ K <= Hi(par.fails, 1)
\* every solve starts from the best solution so far
Starts == \A j \in 1..K : LET S == {i \in 1..(j - 1) : Ok(i)} IN
          script[j].from = IF S = {} THEN 0 ELSE CHOOSE i \in S : \A h \in S : h <= i
-----------------------------------------------------------------------------
Pick(S) == RandomElement(S)
SimInit == par = [shape |-> 0] /\ script = <<>> /\ cur = 0 /\ stat = "new" /\ hist = <<>>
Start == /\ stat = "new" /\ stat' = "run" /\ UNCHANGED <<script, cur, hist>>
         /\ \E p \in {[shape |-> Pick(Shapes), nmin |-> Pick(NMins), nmax |-> Pick(NMaxs), up |-> Pick(Ups), fails |-> Pick(Fails), constant |-> Pick(1..12) = 1]} :
            p.nmax >= Lo(7, p.nmin) /\ (p.constant => p.shape = 1) /\ par' = p
Play == stat = "run" /\ \E ok \in {Pick(1..9) > (IF \A j \in 1..K : ~Ok(j) THEN 3 ELSE 2)} : \E near \in {Pick(1..6) = 1} : Solve(ok, near)
Emit == /\ Done /\ stat # "new" /\ stat # "out" /\ stat' = "out"
        /\ PrintT("BEHAVIOUR " \o ToJson([par |-> par, script |-> script, answer |-> cur, ok |-> Success, n |-> script[K].n]))
        /\ UNCHANGED <<par, script, cur, hist>>
SimSpec == SimInit /\ [][Start \/ Play \/ Emit]_vars
=============================================================================
