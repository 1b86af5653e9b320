------------------------------- MODULE NleqRun ------------------------------
(* Instances of Nleq: exhaustive over a small environment, simulation over a large one. *)
EXTENDS Nleq
R(a, b) == <<a, b>>
SmallRatios == {R(1, 4), R(-3, 4), R(3, 2), R(1, 128)}
SmallCurbs == {R(1, 8)}
SmallFirsts == {ROne, R(1, 256)}
P(m, t, l, lm, th, r, q, s) == [miter |-> m, tol |-> t, lam |-> l, lmin |-> lm, thmax |-> th, restr |-> r, useqn |-> q, stop |-> s]
SmallPars == {P(m, R(1, 100), l, R(1, 10), R(1, 2), r, q, s) : m \in {2, 3}, l \in {ROne, R(1, 4)}, r \in BOOLEAN, q \in BOOLEAN, s \in {0, 2}}
MidPars == {P(m, R(1, 100), l, R(1, 10), R(1, 2), r, TRUE, s) : m \in {3, 4}, l \in {ROne, R(1, 4)}, r \in BOOLEAN, s \in {0, 3}}
BigRatios == {R(1, 4), R(-1, 4), R(1, 8), R(3, 8), R(1, 2), R(-1, 2), R(3, 4), R(7, 8), R(25, 32), R(1, 1), R(5, 4), R(3, 2), R(-2, 1), R(1, 64), R(-1, 128), R(1, 16), R(1, 3), R(0, 1)}
BigCurbs == {R(1, 16), R(-1, 8), R(1, 2), R(-1, 32), R(1, 10), R(1, 9)}
BigFirsts == {ROne, R(-2, 1), R(1, 2), R(3, 4), R(1, 256), R(4, 1)}
BigPars == {P(m, t, l, lm, th, r, q, s) : m \in {1, 2, 3, 5, 8, 12}, t \in {R(1, 100), R(1, 30)}, l \in {ROne, R(1, 100), R(1, 2), R(1, 8), R(1, 16)},
              lm \in {R(1, 10000), R(1, 10), R(1, 50)}, th \in {R(1, 2), R(1, 5)}, r \in BOOLEAN, q \in BOOLEAN, s \in {0, 1, 2, 4}}
\* mostly without interruption
SimPars == {p \in BigPars : p.stop = 0 \/ (p.miter = 8 /\ p.tol = R(1, 100))}
=============================================================================
