------------------------------- MODULE Seeker -------------------------------
(***************************************************************************)
(* Searching for several solutions with deflation.  The problem has a       *)
(* finite set of solutions; the seeker remembers those it has learnt.  A    *)
(* search either fails and changes nothing, or it returns a solution that   *)
(* has not been learnt before, which it then learns if asked to.            *)
(* SeekPlan samples requests; SeekerTrace checks recorded runs against the  *)
(* steps of this machine.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS NSol, MaxSteps
VARIABLES known, hist, found
vars == <<known, hist, found>>
Sols == 1..NSol
Init == known = <<>> /\ hist = <<>> /\ found = {}
Ran(s) == {s[i] : i \in DOMAIN s}
\* requests
Search(learn, s) ==       \* s = 0: failure
  /\ IF s = 0 THEN UNCHANGED <<known, found>>
     ELSE /\ s \in Sols \ Ran(known)
          /\ known' = IF learn THEN Append(known, s) ELSE known
          /\ found' = found \cup {s}
  /\ hist' = Append(hist, [learn |-> learn, s |-> s])
Tell(s) ==                \* the user adds a solution
  /\ s \in Sols \ Ran(known)
  /\ known' = Append(known, s) /\ UNCHANGED found
  /\ hist' = Append(hist, [tell |-> s])
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E learn \in BOOLEAN, s \in 0..NSol : Search(learn, s)
           \/ \E s \in Sols : Tell(s)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in DOMAIN known : i # j => known[i] # known[j]
Bounded == Len(known) <= NSol
NoRepeat == \A i, j \in DOMAIN hist : (i < j /\ "s" \in DOMAIN hist[i] /\ "s" \in DOMAIN hist[j] /\ hist[i].s # 0 /\ hist[i].learn) => hist[j].s # hist[i].s
Monotone == [][\E n \in 0..1 : Len(known') = Len(known) + n /\ SubSeq(known', 1, Len(known)) = known]_vars
=============================================================================
