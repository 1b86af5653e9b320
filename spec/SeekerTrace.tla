----------------------------- MODULE SeekerTrace ----------------------------
(* Recorded searches are behaviours of Seeker.  A trace is                  *)
(* [nsol, steps]; a step has what, learn, s (index of the solution that was *)
(* returned, 0 for failure, -1 for something that is no solution), known    *)
(* (indices of the seeker's known solutions afterwards; -1 likewise).       *)
EXTENDS Integers, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, known, verdict
vars == <<t, i, known, verdict>>
Ran(s) == {s[j] : j \in DOMAIN s}
Clause(st) ==
  IF st.what = "tell" THEN IF st.known = Append(known, st.s) THEN "ok" ELSE "tell"
  ELSE IF st.s = -1 THEN "not a solution"
  ELSE IF st.s # 0 /\ st.s \in Ran(known) THEN "known solution again"
  ELSE IF st.s = 0 /\ st.near /\ known = <<>> THEN "nothing found next to a solution"
  ELSE IF st.s = 0 /\ st.known # known THEN "failure changed the known solutions"
  ELSE IF st.s # 0 /\ ~st.learn /\ st.known # known THEN "learnt without being asked"
  ELSE IF st.s # 0 /\ st.learn /\ st.known # Append(known, st.s) THEN "not learnt"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ i = 1 /\ known = <<>> /\ verdict = ""
Step == /\ verdict = "" /\ i <= Len(Traces[t].steps)
        /\ LET st == Traces[t].steps[i] c == Clause(st) IN
           IF c = "ok" THEN known' = st.known /\ i' = i + 1 /\ UNCHANGED <<t, verdict>>
           ELSE verdict' = c /\ UNCHANGED <<t, i, known>>
Finish == /\ verdict = "" /\ i > Len(Traces[t].steps) /\ verdict' = "ok" /\ UNCHANGED <<t, i, known>>
Report == /\ verdict \notin {"", "said"}
          /\ PrintT("VERDICT " \o ToJson([t |-> t, v |-> verdict, at |-> i, op |-> "Seek"]))
          /\ verdict' = "said" /\ UNCHANGED <<t, i, known>>
Spec == Init /\ [][Step \/ Finish \/ Report]_vars
\* accepted steps are steps of the machine
Refines == [][i' = i + 1 => LET st == Traces[t].steps[i] IN
               \/ st.what = "tell" /\ known' = Append(known, st.s)
               \/ st.what = "seek" /\ st.s = 0 /\ known' = known
               \/ st.what = "seek" /\ st.s \in (1..Traces[t].nsol) \ Ran(known) /\ known' = (IF st.learn THEN Append(known, st.s) ELSE known)]_vars
=============================================================================
