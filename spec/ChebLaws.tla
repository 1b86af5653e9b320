------------------------------ MODULE ChebLaws ------------------------------
(***************************************************************************)
(* Checks the series algebra of Cheb against independent pointwise          *)
(* semantics and the laws of calculus, on every pair of a pool of series.   *)
(* One state per pair; the laws are invariants.                             *)
(***************************************************************************)
EXTENDS Cheb
CONSTANTS Degs, Nums
NumsSmall == {-2, 1, 3}
VARIABLES p, q
vars == <<p, q>>
\* all series with at most two terms
Pool == {PZero} \cup {PMono(k, RInt(n)) : k \in Degs, n \in Nums}
        \cup {PAdd(PMono(j, RInt(n)), PMono(k, RMk(m, 2))) : j \in Degs, k \in Degs, n \in Nums, m \in Nums}
Init == p \in Pool /\ q = PZero
Next == q = PZero /\ q' \in (Pool \ {PZero}) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
H == -2..2
EvalAdd == \A h \in H : PEval(PAdd(p, q), h) = RAdd(PEval(p, h), PEval(q, h))
EvalMul == \A h \in H : PEval(PMul(p, q), h) = RMul(PEval(p, h), PEval(q, h))
MulComm == PMul(p, q) = PMul(q, p)
Leibniz == PDiff(PMul(p, q)) = PAdd(PMul(PDiff(p), q), PMul(p, PDiff(q)))
CumDiff == PDiff(PCum(p)) = p
CumLeft == PEval(PCum(p), -2) = RZero
CumSum  == PEval(PCum(p), 2) = PSum(p)
DiffSum == PSum(PDiff(p)) = RSub(PEval(p, 2), PEval(p, -2))
Parts   == RAdd(PInner(PDiff(p), q), PInner(p, PDiff(q)))
             = RSub(PEval(PMul(p, q), 2), PEval(PMul(p, q), -2))
Affine  == \A h \in {-2, 0, 2} :
             LET al == <<1, 2>> be == <<1, 2>> IN
             \* x = h/2 -> (h/2 + 1)/2 in {0, 1/2, 1}
             PEval(PAffine(p, al, be), h) = PEval(p, (h + 2) \div 2)
FlipEval == \A h \in H : PEval(PFlip(p), h) = PEval(p, -h)
NoBad == ~PIsBad(PMul(p, q)) /\ ~PIsBad(PCum(p))
=============================================================================
