"""Replays Deflate.tla: deflation factor, its derivative, the linearised deflated residual and functionals."""
from common import *
import contextlib, io
import scipy.sparse as sp
import scipy.sparse.linalg as LAS
from funpy.fun import Fun, Functional
from funpy.newton.deflation import deflation, deflation_linearization
from funpy.newton.FrechetDeflated import FrechetDeflated
from funpy.newton.FrechetDeflatedPrecond import FrechetDeflatedPrecond


def run(item, params):
    ops, fails = {}, []
    st = {}
    h = len(json.dumps(item))

    def mk(cols, pad=0):
        return Fun(coeffs=dense(cols, pad), simplify=False, domain=list(st['dom']))

    def stacked(cols, n):
        c = np.zeros((n, len(cols)), order='F')
        d = dense(cols)
        c[:d.shape[0]] = d
        return c.flatten(order='F')

    def close(a, b, sc=1.0):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b), initial=0) <= 1e-9 * max(1.0, sc, np.max(np.abs(b), initial=0))

    def values(f):
        return f(to_dom(XI, *st['dom'])).reshape(len(XI), -1)

    def same(where):
        for n, (f, cols) in {'the point': (st['u'], st['uc']), **{'solution %d' % i: k for i, k in enumerate(zip(st['ks'], st['kc']))}}.items():
            if not close(values(f), cheb_eval(cols, XI), 10):
                return '%s was changed' % n
    for step, r in enumerate(item):
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        bad = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'New':
                    st.update(dom=[fr(c) for c in r['dom']], ks=[], kc=[])
                    st.update(u=mk(r['u'], h % 4), uc=r['u'])
                elif op == 'Learn':
                    st['ks'].append(mk(r['k'], (h + step) % 3))
                    st['kc'].append(r['k'])
                elif op == 'Move':
                    st.update(u=mk(r['u'], (h + step) % 5), uc=r['u'])
                elif op == 'Query':
                    s, p = fr(r['s']), r['p']
                    kw = {} if s == 1 and p == 2 else dict(shift=s, power=float(p))
                    e0 = deflation(st['u'], known_solutions=st['ks'], **kw)
                    if not close(e0, fr(r['eta'])):
                        bad = ('value', 'deflation factor %r instead of %r' % (e0, fr(r['eta'])))
                    v = mk(r['v'])
                    n = max(st['u'].n, v.n) + r['pad']
                    e, D = deflation_linearization(st['u'], known_solutions=st['ks'], n=n, **kw)
                    if not close(e, fr(r['eta'])):
                        bad = bad or ('value', 'deflation factor %r instead of %r' % (e, fr(r['eta'])))
                    if D is None:
                        if st['ks']:
                            bad = bad or ('value', 'no derivative of the deflation factor')
                    else:
                        d = D(stacked(r['v'], n))
                        if not close(d, fr(r['deta']), abs(fr(r['eta']))):
                            bad = bad or ('value', 'derivative of the deflation factor %r instead of %r' % (d, fr(r['deta'])))
                elif op == 'Linear':
                    n, m = r['n'], len(r['w'])
                    M = sp.diags([fr(x) for x in r['d']], format='csr')
                    b = np.array([fr(x) for x in r['b']])
                    e, D = deflation_linearization(st['u'], known_solutions=st['ks'], n=n)
                    w, want = stacked(r['w'], n), np.array([fr(x) for x in r['jw']])
                    J = FrechetDeflated(M, eta=e, b=b.copy() if st['ks'] else None, deta=D)
                    got = J.dot(w)
                    if not close(got, want):
                        bad = ('value', 'linearised deflated residual %s instead of %s' % (got, want))
                    P = FrechetDeflatedPrecond(LAS.splu(M.tocsc()), b.copy() if st['ks'] else None, ks=len(st['ks']), functional=D, eta=e)
                    # the inverse exists unless the Sherman-Morrison denominator vanishes
                    den = e + (D(b / M.diagonal()) if st['ks'] else 0.0)
                    if abs(den) > 1e-2:
                        got = P.dot(want)
                        if not close(got, w, np.max(np.abs(want)) / abs(den) * 10):
                            bad = bad or ('inverse', 'preconditioner of the linearised deflated residual gives %s instead of %s' % (got, w))
                elif op == 'Pair':
                    f = mk(r['f'], h % 3)
                    q = r['q']
                    F = Functional(f, n=r['n'], order=q) if q or h % 2 else Functional(f, n=r['n'])
                    got = F(stacked(r['v'], r['n']))
                    if not close(got, fr(r['val'])):
                        bad = ('value', 'functional of order %d gives %r instead of %r' % (q, got, fr(r['val'])))
                    got = np.asarray(F).ravel().dot(stacked(r['v'], r['n']))
                    if not close(got, fr(r['val'])):
                        bad = bad or ('value', 'row of the functional of order %d gives %r instead of %r' % (q, got, fr(r['val'])))
                    if not close(values(f), cheb_eval(r['f'], XI), 10):
                        bad = bad or ('interference', 'the function of the functional was changed')
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if not bad and op != 'New':
            c = same(op)
            bad = c and ('interference', c)
        if bad:
            fails.append({'op': op, 'clause': bad[0], 'detail': str(bad[1])[:500], 'step': step, 'rec': r})
            break
    return {'fails': fails, 'steps': len(item), 'ops': ops}


if __name__ == '__main__':
    main(run)
