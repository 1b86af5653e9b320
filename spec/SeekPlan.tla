------------------------------ MODULE SeekPlan ------------------------------
(* Requests for Seeker: problems with constant solutions (the roots of a polynomial in every unknown) *)
(* and searches from constant guesses.  Roots are rationals; guesses are not roots.                  *)
EXTENDS Rat, FiniteSets, Sequences, TLC, Json, Randomization
CONSTANT Depth
VARIABLES prob, hist, step
vars == <<prob, hist, step>>
Pick(S) == RandomElement(S)
RootSets == {<<RZero, <<1, 4>>, ROne>>, <<RInt(-1), RZero, ROne>>, <<RZero, ROne>>, <<RInt(-1), <<1, 2>>>>, <<RZero, <<1, 2>>, ROne>>, <<<<1, 2>>, <<3, 2>>>>, <<RInt(-1), <<1, 2>>, RInt(2)>>}
Pairs == {<<RZero, ROne>>, <<RInt(-1), <<1, 2>>>>, <<<<1, 2>>, <<3, 2>>>>}
Ran(s) == {s[i] : i \in DOMAIN s}
Guess == {<<1, 10>>, <<-3, 10>>, <<3, 5>>, <<6, 5>>, <<9, 10>>, <<-6, 5>>, <<7, 20>>, <<7, 4>>}
Init == prob = <<>> /\ hist = <<>> /\ step = 0
New == /\ step = 0 /\ step' = 1
       /\ \E two \in {Pick(1..4) = 1} : \E dom \in {Pick({<<RZero, ROne>>, <<RZero, RInt(2)>>, <<RInt(-1), ROne>>})} :
          prob' = [roots |-> IF two THEN <<Pick(Pairs), Pick(Pairs)>> ELSE <<Pick(RootSets)>>, dom |-> dom,
                   method |-> IF Pick(1..2) = 1 THEN "nleq" ELSE "giant", e |-> Pick({RInt(2), RInt(4)}), n |-> Pick({10, 16}), text |-> Pick(1..2) = 1]
       /\ UNCHANGED hist
Seek == /\ step > 0 /\ step <= Depth /\ step' = step + 1 /\ UNCHANGED prob
        /\ \E near \in {Pick(1..3) = 1} :
           \E g \in {[j \in DOMAIN prob.roots |-> IF near THEN RAdd(Pick(Ran(prob.roots[j])), <<1, 20>>) ELSE Pick(Guess)]} : \E what \in {IF Pick(1..7) = 1 THEN "tell" ELSE "seek"} :
           hist' = Append(hist, [what |-> what, guess |-> TLCEval(g), near |-> near, learn |-> Pick(1..5) # 1, which |-> Pick(1..4)])
Emit == /\ step = Depth + 1 /\ step' = Depth + 2 /\ PrintT("BEHAVIOUR " \o ToJson([prob |-> prob, steps |-> hist])) /\ UNCHANGED <<prob, hist>>
SimSpec == Init /\ [][New \/ Seek \/ Emit]_vars
=============================================================================
