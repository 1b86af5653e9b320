"""Replays Problems.tla: boundary value problems and spectra with known answers, through the top level operations."""
from common import *
import contextlib, io
from numpy.polynomial import chebyshev as npc, polynomial as npp
from funpy.fun import Fun
from funpy.colloc.chebOp import ChebOp
from funpy.colloc.eig import eigs
from funpy.newton.NewtonSystem import NewtonSystem
from funpy.vectorspaces import DeflationState
from bvp import text


def operator(r, h):
    names = [['u', 'v'], ['w1', 'w2'], ['p', 'q']][h % 3][:len(r['eqns'])]
    dom = [fr(c) for c in r['dom']]
    half, mid = (dom[1] - dom[0]) / 2, (dom[0] + dom[1]) / 2
    pars = {k: fr(v) for k, v in r['pars'].items()}

    def poly(col):
        """the text of a Chebyshev series as a polynomial in x"""
        c = dense([col])[:, 0]
        p = npc.cheb2poly(c)
        q = np.zeros(1)
        for a in p[::-1]:        # substitute (x - mid) / half
            q = npp.polyadd(npp.polymul(q, [-mid / half, 1 / half]), [a])
        return ' + '.join('(%r)*x**%d' % (float(a), k) for k, a in enumerate(q) if k and a) + (' + ' if np.any(q[1:]) else '') + '(%r)' % float(q[0])

    cf, eqn = {}, [text(e, names, h + 11 * i) for i, e in enumerate(r['eqns'])]
    if 'cf' in r:
        cf['c'] = 'lambda x: ' + poly(r['cf'])
        for i, f in enumerate(r['force']):
            if f:
                if (h + i) % 2 and len(f) == 1 and f[0][0] == 0:
                    eqn[i] += ' + (%r)' % (f[0][1] / f[0][2])
                elif (h // 2 + i) % 2:
                    eqn[i] += ' + ' + poly(f)
                else:
                    cf['g%d' % i] = 'lambda x: ' + poly(f) + ' + 0 * x'
                    eqn[i] += ' + g%d' % i
    o = ChebOp(functions=list(names), parameters=dict(pars), domain=list(dom), n=r['n'], constant_functions=cf)
    o.eqn = eqn
    bcs = []
    for bc in r['bcs']:
        s = ''
        for t in bc['terms']:
            f, pt, cc = names[t['f'] - 1], mid + half * t['h'] / 2, fr(t['c'])
            ev = '%s(%r)' % (f, pt) if t['d'] == 0 else 'np.diff(%s)(%r)' % (f, pt) if t['d'] == 1 and bc['text'] != 2 else 'np.diff(%s, n=%d)(%r)' % (f, t['d'], pt)
            s += (' + ' if s else '') + (ev if cc == 1 and h % 2 else '(%r) * %s' % (cc, ev))
        if bc['r'][0] or h % 2:
            s += ' - (%r)' % fr(bc['r'])
        bcs.append(eval('lambda %s: %s' % (', '.join(names), s), {'np': np}) if bc['text'] == 3 else s)
    o.bcs = bcs
    return o, dom, pars


def cond(o, u, pars, n):
    """condition of the linearisation, as the code computes it (used to leave out problems without a stable answer)"""
    o.setDisc(n)
    M = NewtonSystem(DeflationState(u=u, **pars).prolong(n), o).colloc.matrix()[0].toarray()
    s = 1 / np.maximum(np.max(np.abs(M), axis=1, keepdims=True), 1e-300)
    return np.linalg.cond(M * s) if M.shape[0] == M.shape[1] else np.inf


def contraction(r, h, mk, pars):
    """how far the linearisation at the first guess is from the one at the solution on the first grids: Newton's method
    is only expected to converge when this is small"""
    q = 0.0
    for n in (5, 9, 17, 33):
        try:
            M = []
            for cols in (r['u'], r['guess']):
                o = operator(r, h)[0]
                o.setDisc(n)
                M.append(NewtonSystem(DeflationState(u=mk(cols), **pars).prolong(n), o).colloc.matrix()[0].toarray())
            q = max(q, np.linalg.norm(np.linalg.solve(M[0], M[1]) - np.eye(len(M[0])), 2))
        except np.linalg.LinAlgError:
            return np.inf
    return q


def values(f, dom):
    return f(to_dom(XI, *dom)).reshape(len(XI), -1)


def run(item, params):
    r, h = item, len(json.dumps(item))
    op, ops, bad, text_ = r['op'], {}, None, ''
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            o, dom, pars = operator(r, h)
            text_ = '%s %s on %s' % (o.eqn, [b if isinstance(b, str) else '<lambda>' for b in o.bcs], dom)
            mk = lambda cols, n=0: Fun(coeffs=dense(cols, max(0, n - dense(cols).shape[0])), simplify=False, domain=list(dom))
            if op == 'Bvp':
                c = cond(operator(r, h)[0], mk(r['u']), pars, r['n'])
                ops['stable' if c < 1e9 else 'unstable'] = 1
                if c < 1e9:
                    g = mk(r['guess'])
                    first = g if h % 3 else DeflationState(u=g, **pars)
                    kg = g.coeffs.copy()
                    kw = {} if r['method'] == 'giant' and h % 2 else {'method': r['method']}
                    if not r['adaptive']:
                        kw['adaptive'] = False
                    try:
                        sol, ok, res = o.solve(first, state=h % 5 == 0, **kw)
                    except (np.linalg.LinAlgError, RuntimeError) as ex:
                        if 'singular' not in str(ex).lower():
                            raise
                        sol, ok, res = None, False, np.inf     # a singular linearisation on the way
                    u = sol.u if h % 5 == 0 and sol is not None else sol
                    e = cheb_eval(r['u'], XI)
                    v = values(u, dom) if u is not None else None
                    sc = max(1.0, np.max(np.abs(e)))
                    tol = max(1e-6, c * 1e-13) * sc
                    ops[r['method']] = 1
                    if ok:
                        ops['success'] = 1
                        if v.shape != e.shape or not np.all(np.isfinite(v)):
                            bad = ('answer', 'success with shape or values that cannot be: %s' % (v.shape,))
                        else:
                            err = np.max(np.abs(v - e))
                            if err > tol and (r['linear'] or r['near'] or np.squeeze(res) > 1e-6 * sc or err < 1e-2):
                                bad = ('answer', 'success (%s), but the answer is %.2e away from the solution, residual %.2e, condition %.1e' % (r['method'], err, np.squeeze(res), c))
                            elif err <= tol and not np.squeeze(res) < 1e-4 * max(1.0, sc, max([1.0] + [abs(a / b) for f in r['force'] for _, a, b in f])):
                                bad = ('residual', 'at the solution the reported residual is %r' % res)
                    elif r['adaptive'] and (r['linear'] or r['near']) and c < 1e7 and (r['linear'] or contraction(r, h, mk, pars) < 0.1):
                        bad = ('failure', 'no success (%s, condition %.1e)' % (r['method'], c))
            else:
                n = r['n']
                f = None if r['none'] else mk(r['u'], n)
                ok, lam = eigs(o, f)
                q = [fr(x) for x in r['q']]
                R, D = np.array([[fr(x) for x in row] for row in r['R']]), np.diag([fr(x) for x in r['D']])
                modes = [np.linalg.eigvals(R - D * k * np.pi**2) for k in q]
                exp = np.concatenate(modes[:4])
                last = max(np.max(np.real(np.linalg.eigvals(R - D * k * np.pi**2))) for k in q[4:])
                ops['eig'] = len(lam)
                sc = max(1.0, np.max(np.abs(exp)))
                lam = np.asarray(lam).ravel()
                if not ok:
                    bad = ('failure', 'no eigenvalues')
                else:
                    gap = np.max([np.min(np.abs(lam - x)) for x in exp]) if lam.size else np.inf
                    # defective clusters move as the square root of rounding errors
                    if gap > 1e-5 * sc:
                        bad = ('spectrum', 'the eigenvalues %s are not found: %s' % (np.round(exp, 5).tolist(), np.sort_complex(lam)[::-1][:8]))
                    else:
                        low = lam[np.real(lam) > last + 1e-3 * sc]
                        if len(low) and max(np.min(np.abs(exp - x)) for x in low) > 1e-5 * sc:
                            bad = ('spectrum', 'spurious eigenvalues among %s, expected %s' % (np.round(low, 5), np.round(exp, 5).tolist()))
    except Timeout:
        raise
    except Exception:
        bad = ('error', short_tb())
    return {'fails': [{'op': op, 'clause': bad[0], 'detail': bad[1] + ' | ' + text_}] if bad else [], 'steps': 1, 'ops': ops}


if __name__ == '__main__':
    main(run)
