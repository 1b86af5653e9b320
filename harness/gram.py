"""Replays Gram.tla: orthogonal factorisations, least squares, functionals, Sobolev norms, signs and scaling."""
from common import *
from funpy.fun import Fun, qr, norm, norm2, wkpnorm, h1norm, h2norm, normh, sturm_norm, sturm_norm_alt, normalize, innerw
from funpy.functional import Functional
from funpy.norms import sprod

RT = 1e-9


def mk(cols, dom, extra=0):
    return Fun(coeffs=np.asfortranarray(np.vstack((dense(cols), np.zeros((extra, len(cols)))))), simplify=False, domain=np.array(dom))


def mat(g):
    return np.array([[fr(x) for x in row] for row in g])


def near(got, want, what, tol=RT, scale=0.0):
    got, want = np.asarray(got), np.asarray(want, dtype=float)
    if got.shape != want.shape and got.size != want.size:
        return ('shape', '%s has shape %s instead of %s' % (what, got.shape, want.shape))
    got = got.reshape(want.shape)
    s = max(1e-6, scale, np.max(np.abs(want)))
    if not np.all(np.abs(got - want) <= tol * s):
        return (what, '%s is %s instead of %s' % (what, np.array2string(got, precision=12), np.array2string(want, precision=12)))


def same(f, cols, dom, what):
    if not np.allclose(np.asarray(f.domain, float), dom, atol=1e-12):
        return (what, 'domain %s' % (f.domain,))
    return near(f(to_dom(XI, *dom)), cheb_eval(cols, XI), what, 1e-10)


def run(item, params):
    ops, bad = {}, None
    f = u = None
    for step, r in enumerate(item):
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        dom = [fr(x) for x in r['d']]
        half = (dom[1] - dom[0]) / 2
        var = len(json.dumps(r)) % 4
        m = len(r['f'])
        try:
            if op == 'Make':
                f, u = mk(r['f'], dom, var), mk(r['u'], dom, (var * 3) % 4)
            elif op == 'Combine':
                cols = [f[j] for j in range(m)]
                cols[r['k'] - 1] = f[r['i'] - 1] + f[r['j'] - 1] * fr(r['r'])
                f = np.hstack(cols) if m > 1 else cols[0]
            elif op == 'Times':
                x = mk([[[1, 1, 1]]], dom)
                cols = [f[j] for j in range(m)]
                cols[r['k'] - 1] = f[r['k'] - 1] * x
                f = np.hstack(cols) if m > 1 else cols[0]
            elif op == 'Swap':
                f, u = u, f
            elif op == 'Qr':
                Q, R = qr(f)
                g = half * mat(r['g'])
                s = np.sqrt(np.max(np.abs(g)))
                vs = np.max(np.abs(cheb_eval(r['f'], XI)))
                rk = r['rank'] == m
                dl = [half * fr(x) for x in r['n']]
                # close to dependent columns: only the product and the norms are determined
                good = rk and np.linalg.cond(g) < 1e8
                if Q.m != m or R.shape != (m, m):
                    bad = ('shape', 'Q has %d columns, R is %s' % (Q.m, R.shape))
                bad = bad or near(np.tril(R, -1), np.zeros((m, m)), 'lower triangle of R', 1e-12, s)
                bad = bad or near(R.T @ R, g, 'R*R', RT)
                if np.any(np.diag(R) < -1e-9 * s):
                    bad = bad or ('sign', 'diagonal of R is %s' % np.diag(R))
                v = np.asarray(Q(to_dom(XI, *dom))).reshape(len(XI), m)
                bad = bad or near(v @ R, cheb_eval(r['f'], XI), 'Q R', 1e-8, vs)
                if good:
                    bad = bad or near(np.inner(Q, Q), np.eye(m), 'Q*Q', 1e-8)
                    if dl:
                        R0 = np.diag(np.sqrt(dl))
                        for k, row in enumerate(r['l']):
                            for j, l in enumerate(row):
                                R0[j, k] = fr(l) * np.sqrt(dl[j])
                        bad = bad or near(R, R0, 'R', 1e-8) or near(v, cheb_eval(r['q'], XI) / np.sqrt(dl), 'Q', 1e-7)
            elif op == 'Project':
                w = u[r['k'] - 1] if len(r['u']) > 1 else u
                Q, R = qr(f)
                x = [fr(c) for c in r['x']]
                b = np.asarray(np.inner(Q, w), dtype=float).reshape(-1)
                c = np.linalg.cond(R)
                if c < 1e7:
                    bad = near(np.linalg.solve(R, b), x, 'best approximation', 1e-10 * c + 1e-9)
            elif op == 'Pair':
                o, x = r['o'], fr(r['x'])
                lim = 1e-9 * np.sqrt(abs(wkp2(f, o) * wkp2(u, o))) + 1e-12
                got = [('functional', Functional(f, order=o, n=u.shape[0])(u)), ('functional', Functional(f, order=o, n=u.shape[0])(u.coeffs))]
                if u.shape[0] == f.shape[0]:
                    got.append(('functional', Functional(f, order=o)(u)))
                got.append(('functional', Functional(u, order=o, n=f.shape[0])(f)))
                if o == 0:
                    got += [('product', np.dot(f, u)), ('product', sprod(f, u)), ('scaled product', sprod(f, u, scale=2.0) / 4)]
                for what, y in got:
                    y = np.asarray(y).squeeze()
                    if y.ndim or not abs(y - x) <= lim:
                        bad = (what, '%s of order %d is %r instead of %r' % (what, o, y, x))
            elif op == 'Weighted':
                bad = weighted(f, u, mat(r['g']), half, dom)
            elif op == 'Cross':
                bad = near(np.inner(f, u), half * mat(r['g']), 'inner product', RT, half * np.sqrt(abs(norm2(f) * norm2(u)) / half**2))
            elif op == 'Norms':
                o, x = r['o'], np.sqrt(fr(r['x']))
                vals = [wkpnorm(f, k=o), wkpnorm(f, p=2, k=o)]
                vals += {0: [norm(f), f.norm(), normh(f), norm(f, p=2), np.sqrt(norm2(f))], 1: [h1norm(f)], 2: [h2norm(f)]}.get(o, [])
                for y in vals:
                    bad = bad or near(y, x, 'norm', 1e-9)
            elif op == 'Norm4':
                o, x = r['o'], fr(r['x'])**0.25
                for y in [wkpnorm(f, p=4, k=o)] + ([norm(f, p=4), norm2(f, p=4)**0.25] if o == 0 else [h1norm(f, p=4)]):
                    bad = bad or near(y, x, 'norm', 1e-9)
            elif op == 'Signed':
                g = f[r['k'] - 1] if m > 1 else f
                x = np.sqrt(half * fr(r['x']))
                bad = near(sturm_norm(g), r['sd'] * x, 'signed norm') if r['sd'] else None
                bad = bad or (near(sturm_norm_alt(g), r['sf'] * x, 'signed norm') if r['sf'] else None)
            elif op == 'Normalize':
                x = np.sqrt(fr(r['x']))
                g = normalize(f)
                bad = near(norm(g), 1.0, 'norm') or near(np.asarray(g(to_dom(XI, *dom))).reshape(len(XI), m) * x, cheb_eval(r['f'], XI), 'direction', 1e-9)
            bad = bad or same(f, r['f'], dom, 'function afterwards') or same(u, r['u'], dom, 'function afterwards')
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            return {'fails': [{'op': op, 'clause': bad[0], 'detail': '%s | %s' % (bad[1], json.dumps(r))}], 'steps': step + 1, 'ops': ops}
    return {'fails': [], 'steps': len(item), 'ops': ops}


def wkp2(f, o):
    s, g = 0.0, f
    for j in range(o + 1):
        s += float(np.trace(np.atleast_2d(np.inner(g, g))))
        g = np.diff(g)
    return s


def weighted(f, u, g, half, dom):
    x = np.pi * half * g
    s = np.max(np.abs(x)) + 1e-3
    y = np.asarray(innerw(f, u))
    want = np.diag(x) if y.shape != x.shape else x
    bad = near(y, want, 'weighted product', RT, s)
    if dom == [-1, 1] and not bad:
        bad = near(Functional(f, weighted=True, n=u.shape[0])(u), np.trace(x), 'weighted functional', RT, s * len(x))
    return bad or near(norm(f, weighted=True)**2, np.sum(innerw(f, f)), 'weighted norm')


if __name__ == '__main__':
    main(run)
