CONSTANT Degs = {0, 1, 2, 3, 5}
CONSTANT Nums <- NumsSmall
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EvalAdd EvalMul MulComm Leibniz CumDiff CumLeft CumSum DiffSum Parts Affine FlipEval NoBad
