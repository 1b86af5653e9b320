"""Replays Linear.tla on the linear solvers."""
from common import *
import contextlib
import io
import scipy.sparse as sps
from funpy.linalg import BEM, BEMW, BMatrix, QR, QRCholesky, ExactLinearSolver, gbit
from funpy.linalg.lucp import lucp
from funpy.linalg.nullspace import null_vector
from funpy.linalg.fold_solve import FoldSolver
from funpy.linalg.helpers import detH, slogdet_hessenberg, logdet

TOL = 1e-8


def arr(m):
    return np.array([[fr(x) for x in r] for r in m], dtype=float) if m and isinstance(m[0][0], list) else np.array([fr(x) for x in m], dtype=float)


def near(x, y, what, tol=TOL):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    if x.shape != y.shape:
        return (what, 'shape %s instead of %s' % (x.shape, y.shape))
    if not np.all(np.abs(x - y) <= tol * (1 + np.max(np.abs(y)))):
        return (what, '%s instead of %s' % (x, y))


def parallel(x, y, what):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    nx, ny = np.linalg.norm(x), np.linalg.norm(y)
    if x.shape != y.shape or not nx > 1e-8 * ny or np.linalg.norm(x / nx - np.sign(np.dot(x, y)) * y / ny) > TOL:
        return (what, '%s is no multiple of %s' % (x, y))


def solvers(core, bord, sing):
    """all the implementations of the bordered system"""
    out = {}
    qr = QR(core.copy(), tol=1e-10)
    if bool(qr.is_singular) != sing:
        raise ValueError('QR says is_singular = %s' % qr.is_singular)
    if not bord:
        return {'QR': qr}
    s = qr
    for b, c, d in bord:
        s = BEM(s, b.copy(), c.copy(), d)
    out['BEM'] = s
    if not sing:
        out['BEMW'] = BEMW(QR(core.copy(), tol=1e-10), [b.copy() for b, _, _ in bord], [c.copy() for _, c, _ in bord], [d for _, _, d in bord])
    return out


def run(item, params):
    ops, bad = {}, None
    core = None
    for step, r in enumerate(item):
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        x = arr(r['x']) if 'x' in r else None
        h = len(json.dumps(item[:step + 1]))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'Core':
                    core, sing, bord = arr(r['a']), r['sing'], []
                    S = solvers(core, bord, sing)
                elif op == 'Border':
                    bord.append([arr(r['b']), arr(r['c']), fr(r['d'])])
                    S = solvers(core, bord, sing)
                elif op in ('Row', 'Col'):
                    k = r['k'] - 1
                    v = arr(r['b'] if op == 'Row' else r['c'])
                    bord[k][0 if op == 'Row' else 1], bord[k][2] = v, fr(r['d'])
                    if k == len(bord) - 1:
                        (S['BEM'].update_row if op == 'Row' else S['BEM'].update_col)(v.copy(), fr(r['d']))
                    else:
                        S['BEM'] = solvers(core, bord, sing)['BEM']
                    if not sing:
                        (S['BEMW'].update_row if op == 'Row' else S['BEMW'].update_col)(k, v.copy(), fr(r['d']))
                elif op in ('Solve', 'Unit', 'Zero', 'MinNorm', 'Det'):
                    f = arr(r['f']) if 'f' in r else None
                    keep = None if f is None else f.copy()
                    for name, s in S.items():
                        if op == 'Solve':
                            bad = bad or near(s.solve_adj(f) if r['adj'] else s.solve(f), x, 'solution/' + name)
                        elif op == 'Unit':
                            bad = bad or near(s.solve_null_adj() if r['adj'] else s.solve_null(), x, 'unit/' + name)
                        elif op == 'Zero':
                            bad = bad or near(s.solve_zero(f), x, 'zero/' + name)
                        elif op == 'MinNorm':
                            bad = bad or near(s.min_norm(f), x, 'least norm/' + name)
                        elif op == 'Det' and (not sing or name == 'QR') and name != 'BEMW':
                            bad = bad or near([s.det()], x[:1], 'determinant/' + name)
                            if name == 'QR' and not sing and s.det_sign() != np.sign(x[1]):
                                bad = bad or ('determinant', 'sign %s of %s' % (s.det_sign(), x[1]))
                    if op in ('Solve', 'Unit') and len(bord) == 1 and len(core) > 1 and not r.get('adj'):
                        b = BMatrix(core.copy(), *bord[0])
                        bad = bad or near(b.solve(f) if op == 'Solve' else b.solve_null(), x, 'solution/BMatrix')
                    if op == 'Solve':
                        M = core
                        for b, c, d in bord:
                            M = np.block([[M, c[:, None]], [b[None], np.array([[d]])]])
                        if sing or bord:
                            pass
                        A = M.T.copy() if r['adj'] else M
                        kw = {'method': 'qr' if h % 2 else 'lu'}
                        y, ok = ExactLinearSolver(sps.csc_matrix(A) if h % 3 else A.copy(), **kw).solve(f.copy())
                        bad = bad or near(y, x, 'solution/exact ' + kw['method'])
                    if op == 'Det':
                        bad = bad or near([QRCholesky(core.copy()).det()], x[1:], 'determinant/QRCholesky')
                        if not sing:
                            sg, ld = logdet(sps.csc_matrix(core))
                            bad = bad or near([sg * np.exp(ld)], x[1:], 'determinant/sparse')
                    if f is not None and not np.array_equal(f, keep):
                        bad = bad or ('interference', 'the right hand side was changed')
                elif op == 'Nulls':
                    phi, psi = solvers(core, [], sing)['QR'].null()
                    bad = parallel(phi, x, 'null vector') or parallel(psi, arr(r['y']), 'left null vector')
                    phi = null_vector(core.copy())
                    psi = null_vector(core.copy(), right=False, left=True)
                    bad = bad or parallel(phi, x, 'null vector') or parallel(psi, arr(r['y']), 'left null vector')
                    bad = bad or near([np.linalg.norm(phi), np.linalg.norm(psi)], [1, 1], 'norm of null vectors')
                elif op == 'Part':
                    q = solvers(core, [], sing)['QR']
                    y = q.particular_adj(x.copy()) if r['adj'] else q.particular(x.copy())
                    bad = near((core.T if r['adj'] else core) @ y, x, 'particular')
                elif op == 'Least':
                    A, f = arr(r['a']), arr(r['f'])
                    for sparse in (False, True):
                        q = QRCholesky(sps.csc_matrix(A) if sparse else A.copy())
                        if q.rank != r['rank']:
                            bad = bad or ('rank', '%s instead of %s' % (q.rank, r['rank']))
                        else:
                            bad = bad or near(q.solve(f.copy()), x, 'least norm/%s' % ('sparse' if sparse else 'dense'))
                elif op == 'Tangent':
                    t = QRCholesky(arr(r['a'])).tangent_vector()
                    bad = parallel(t, x, 'tangent') or near([np.linalg.norm(t)], [1], 'tangent')
                elif op == 'Hess':
                    H = arr(r['a'])
                    bad = near([detH(H.copy())], x, 'determinant/detH')
                    if x[0] != 0 and not bad:
                        s, l = slogdet_hessenberg(H.copy())
                        bad = near([s * np.exp(l)], x, 'determinant/slogdet')
                elif op == 'Factor':
                    A = arr(r['a'])
                    B = A.copy()
                    L, U, p, q = lucp(B, full=bool(h % 2))
                    L, U = (np.asarray(m.toarray() if sps.issparse(m) else m) for m in (L, U))
                    if not np.array_equal(A, B):
                        bad = ('interference', 'the matrix was changed')
                    elif sorted(p) != list(range(len(A))) or sorted(q) != list(range(len(A))):
                        bad = ('permutation', '%s %s' % (p, q))
                    else:
                        bad = near(L @ U, A[p][:, q], 'factors') or near(np.triu(L, 1), 0 * A, 'lower') or near(np.tril(U, -1), 0 * A, 'upper') or \
                            near(np.diag(L), np.ones(len(A)), 'unit') or (np.max(np.abs(L)) > 1 + 1e-12 and ('pivot', 'entries of L exceed one') or None) or near([abs(np.prod(np.diag(U)))], np.abs(x), 'determinant')
                elif op == 'Fold':
                    qr = QR(core.copy(), tol=1e-10)
                    B = arr(r['b'])
                    s = FoldSolver(qr, lambda v: v, lambda v: B @ v, arr(r['c1']), arr(r['c2']))
                    s.ddx_adj = lambda v: B.T @ v
                    phi = qr.null()[0]
                    k = int(np.argmax(np.abs(arr(r['p']))))
                    fac = phi[k] / arr(r['p'])[k]
                    # the last equation holds for the null vector used by the solver
                    f, n = arr(r['f']), len(core)
                    if r['adj']:
                        y = np.array(s.solve_adj(f.copy()), dtype=float)
                        y[-1] *= fac
                    else:
                        f[-1] *= fac
                        y = s.solve(f.copy())
                    bad = near(y, x, 'fold', 1e-6)
                elif op == 'Iter':
                    A, f, y0 = arr(r['a']), arr(r['f']), arr(r['y'])
                    k0 = y0.copy()
                    P = sps.csr_matrix(np.diag(1 / np.diag(A)))
                    tol = 1e-9
                    start = y0 if h % 2 else None
                    y, ok, it, nm, npc = gbit(sps.csr_matrix(A), P, f.copy(), y=start, tol=tol, giant_simple=False)
                    if not ok:
                        bad = ('convergence', 'no success after %d iterations' % it)
                    else:
                        bad = near(y, x, 'iterative', 1e-8)
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            return {'fails': [{'op': op, 'clause': bad[0], 'detail': '%s | %s' % (bad[1], json.dumps(r))}], 'steps': step + 1, 'ops': ops}
    return {'fails': [], 'steps': len(item), 'ops': ops}


if __name__ == '__main__':
    main(run)
