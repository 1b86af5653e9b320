"""Replays Analytic.tla: construction from callables, quotients, powers and smooth functions of functions."""
from common import *
from funpy.fun import Fun

OFF = 0.7
XG = np.unique(np.concatenate((XI, np.cos(np.linspace(0, np.pi, 301)))))


def val(t, x):
    """(values, accumulated rounding error) of an expression at points of the model's variable"""
    k = t['k']
    if k == 'poly':
        v = sum((a / b) * np.cos(n * np.arccos(np.clip(x, -1, 1))) for n, a, b in t['s']) + 0 * x
        return v, BASE * max(1e-3, sum(abs(a / b) for _, a, b in t['s']))
    if k == 'geo':
        r = fr(t['r'])
        v = (1 - r * r) / (1 - 2 * r * x + r * r)
        return v, BASE * np.max(v) * 2
    if k == 'num':
        return fr(t['c']) + 0 * x, 0.0
    f, e = val(t['l'], x)
    F, m = np.max(np.abs(f)) + 20 * e, np.min(np.abs(f))
    if k in ('add', 'sub', 'mul', 'div'):
        g, d = val(t['r'], x)
        G, n = np.max(np.abs(g)), np.min(np.abs(g))
        if k == 'add':
            return f + g, e + d
        if k == 'sub':
            return f - g, e + d
        v, s = (f * g, F * d + G * e) if k == 'mul' else (f / g, e / n + F * d / n**2)
    elif k == 'inv':
        v, s = 1 / f, e / m**2
    elif k == 'abs':
        v, s = np.abs(f), e
    elif k == 'pow':
        p = t['e'] / 2
        v = np.float_power(f, p)
        s = e * abs(p) * (F**(p - 1) if p >= 1 else m**(p - 1))
    else:
        u = t['u']
        v = getattr(np, u)(f)
        s = e * {'exp': np.max(np.abs(v)), 'log': 1 / m if m else 0, 'sqrt': 0.5 / np.sqrt(m) if m else 0, 'square': 2 * F, 'reciprocal': 1 / m**2 if m else 0}.get(u, 1.0)
    return v, s + BASE * np.max(np.abs(v))


BASE = 1e-11


def run(item, params):
    global BASE
    ops, bad, regs, exp, done = {}, None, {}, {}, []
    h = len(json.dumps(item))
    for step, r in enumerate(item):
        op, k = r['op'], r.get('k')
        ops[op] = ops.get(op, 0) + 1
        name = op + '/' + str(r.get('u') or r.get('o') or r.get('e') or r.get('how') or '')
        done.append(name)
        try:
            f, target = regs.get(r.get('i')), regs.get(k)
            if op == 'Make':
                per, dom = r['per'], [fr(d) for d in r['dom']]
                BASE = 1e-7 if per else 1e-11
                half, mid = (dom[1] - dom[0]) / 2, (dom[0] + dom[1]) / 2

                def arg(x):
                    xi = (np.asarray(x, float) - mid) / half
                    return np.cos(np.pi * (xi + 1) + OFF) if per else xi
                fn = [lambda x, t=t: val(t, arg(x))[0] for t in r['f']]
                kw, deg = {}, [max([0] + [n for n, _, _ in t['s']]) if t['k'] == 'poly' else None for t in r['f']]
                if r['how'] == 'minSamples':
                    kw['minSamples'] = 40
                elif r['how'] == 'resample':
                    kw['resample'] = 'resample'
                if r['how'] == 'coeffs' and not per and None not in deg:
                    new = Fun(coeffs=dense([t['s'] for t in r['f']]), simplify=False, domain=np.array(dom))
                elif r['how'] == 'coeffs' and None not in deg:
                    K = max(deg) + 1
                    c = np.zeros((2 * K + 1, len(deg)), dtype=complex, order='F')
                    for j, t in enumerate(r['f']):
                        for n, a, b in t['s']:
                            for s in (1, -1):
                                c[K + s * n, j] += a / b / 2 * np.exp(1j * s * n * (np.pi + OFF))
                    new = Fun(coeffs=c, domain=np.array(dom), type='trig', simplify=False)
                else:
                    new = Fun(op=fn if len(fn) > 1 or h % 2 else fn[0], domain=dom, type='trig' if per else 'cheb', **kw)
                    n = new.shape[0]
                    if None not in deg:
                        want = 2 * max(deg) + 1 if per else max(deg) + 1
                        if not want <= n <= want + 2:
                            bad = ('length', '%d coefficients for a function that needs %d' % (n, want))
                    elif all(t['k'] in ('geo', 'poly') for t in r['f']):
                        q = max(abs(fr(t['r'])) for t in r['f'] if t['k'] == 'geo')
                        top = np.log(1e-17) / np.log(q) * 1.5 + 30 + max([0] + [d for d in deg if d])
                        if n > top * (2 if per else 1):
                            bad = ('length', '%d coefficients for a function that needs about %d' % (n, top))
                    if not new.onefun.ishappy:
                        bad = ('resolved', 'reported as not resolved')
            elif op == 'Short':
                t = {'k': 'geo', 'r': r['r']}
                g = Fun(op=lambda x: val(t, arg(x))[0], domain=dom, type='trig' if per else 'cheb', maxLength=r['len'])
                n, q = g.shape[0], abs(fr(r['r']))
                err = np.max(np.abs(np.asarray(g(to_dom(XI, *dom))).ravel() - val(t, arg(to_dom(XI, *dom)))[0]))
                if n > r['len']:
                    bad = ('length', '%d coefficients where %d are allowed' % (n, r['len']))
                elif bool(g.onefun.ishappy) != r['ok']:
                    bad = ('resolved', 'with at most %d coefficients: resolved is %s' % (r['len'], g.onefun.ishappy))
                elif err > 8 * q**((n - 2) // 2 if per else n - 1) / (1 - q) + BASE / (1 - q):
                    bad = ('value', 'error %.2e with %d coefficients of ratio %g' % (err, n, q))
            elif op == 'Scaled':
                c, pts = 10.0**r['e'], to_dom(XI, *dom)
                for fac in (1.0, c):
                    fn = [lambda x, t=t: fac * val(t, arg(x))[0] for t in r['f']]
                    g = Fun(op=fn if len(fn) > 1 else fn[0], domain=dom, type='trig' if per else 'cheb')
                    if fac == 1.0:
                        n = g.shape[0]
                ex = np.array([c * val(t, arg(pts))[0] for t in r['f']]).T
                err = np.max(np.abs(np.asarray(g(pts)).reshape(ex.shape) - ex)) / (c if per else max(c, 1))
                tol = 10 * max(val(t, arg(to_dom(XG, *dom)))[1] for t in r['f']) + BASE * 1e-3
                if not g.onefun.ishappy or abs(g.shape[0] - n) > 30 + n // 2 and (per or c > 1):
                    bad = ('length', '%d coefficients instead of %d when scaled by %g' % (g.shape[0], n, c))
                elif not err <= tol:
                    bad = ('value', 'scaled by %g the error relative to that is %.2e (allowed %.2e)' % (c, err, tol))
            elif op in ('Bin', 'IBin'):
                g = regs[r['j']]
                if op == 'Bin':
                    new = {'add': lambda: f + g, 'sub': lambda: f - g, 'mul': lambda: f * g, 'div': lambda: f / g}[r['o']]()
                else:
                    new = f
                    if r['o'] == 'add': new += g
                    elif r['o'] == 'sub': new -= g
                    elif r['o'] == 'mul': new *= g
                    else: new /= g
            elif op == 'RDiv':
                new = (fr(r['c']) if h % 2 or r['c'][1] > 1 else r['c'][0]) / f
            elif op == 'Num':
                c = fr(r['c'])
                new = {'add': f + c, 'sub': f - c, 'mul': f * c, 'div': f / c}[r['o']]
            elif op in ('Pow', 'IPow'):
                e = r['e'] // 2 if r['e'] % 2 == 0 and h % 3 else r['e'] / 2
                if op == 'Pow':
                    new = f ** e
                else:
                    new = f
                    new **= e
            elif op == 'Abs':
                new = abs(f)
            elif op == 'Fun':
                new = getattr(np, r['u'])(f)
            elif op == 'FunTo':
                new = getattr(np, r['u'])(f, out=target)
            if op in ('IBin', 'IPow') and new is not f or op == 'FunTo' and new is not target:
                bad = ('identity', 'the result is not the target')
            if op == 'Eq':
                g = (f if per else np.copy(f)) if r['same'] else regs[r['j']]
                a, b = f == g, f != g
                if bool(a) != r['same'] or type(b) not in (bool, np.bool_) or bool(b) == r['same']:
                    bad = ('equality', '== gives %r and != gives %r' % (a, b))
            elif op not in ('Short', 'Scaled'):
                regs[k], exp[k] = new, r
            for i, w in exp.items() if not bad else ():
                fun = regs[i]
                pts = to_dom(XI, *dom)
                ev = [val(t, arg(pts)) for t in w['f']]
                full = [val(t, arg(to_dom(XG, *dom))) for t in w['f']]
                v = np.asarray(fun(pts)).reshape(len(XI), -1)
                who = 'value' if i == k else 'interference'
                if not isinstance(fun, Fun) or v.shape[1] != len(ev) or np.max(np.abs(np.asarray(fun.domain, float) - dom)) > 1e-12:
                    bad = (who, 'register %d is a %s with %d components on %s' % (i, type(fun).__name__, v.shape[1], fun.domain))
                    break
                # the columns share a grid and a tolerance
                tol = 10 * max(e for _, e in full) + BASE * 1e-3
                for c, (x, _) in enumerate(ev):
                    lo, hi = [fr(y) for y in w['b'][c]]
                    if np.min(x) < lo - 1e-9 or np.max(x) > hi + 1e-9:
                        bad = ('model', 'expected values [%g, %g] outside the enclosure [%g, %g]' % (np.min(x), np.max(x), lo, hi))
                    elif not np.all(np.abs(v[:, c] - x) <= tol):
                        j = int(np.argmax(np.abs(v[:, c] - x)))
                        bad = (who, 'register %d component %d at %g is %r instead of %.12g (allowed %.1e)' % (i, c + 1, pts[j], v[j, c], x[j], tol))
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            return {'fails': [{'op': op, 'clause': bad[0], 'detail': '%s | %s %s' % (bad[1], done, 'periodic' if per else '')}], 'steps': step + 1, 'ops': ops}
    return {'fails': [], 'steps': len(item), 'ops': ops}


if __name__ == '__main__':
    main(run)
