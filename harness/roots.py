"""Replays Roots.tla: zeros, extreme values and the maximum norm of functions whose zeros or turning points are known."""
from common import *
from funpy.fun import Fun, roots, minandmax, norm, prolong


def zeros(c):
    """the zeros in (-1, 1), ascending, of a component given by the zeros of its outer polynomial"""
    d, x = c['d'], []
    for r in c['roots']:
        t = np.arccos(fr(r))
        th = [t] if d == 1 else [(s * t + 2 * np.pi * k) / d for k in range(d // 2 + 1) for s in (1, -1)]
        x += [fr(r)] if d == 1 else [np.cos(a) for a in th if 0 < a < np.pi]
    return np.sort(np.array(x))


def slope(s, x):
    """|p'| at x in (-1, 1)"""
    th = np.arccos(x)
    return np.abs(sum((a / b) * k * np.sin(k * th) for k, a, b in s) / np.sin(th)) if len(x) else np.zeros(0)


def make(r):
    dom = [fr(x) for x in r['dom']]
    ser = [c['s'] for c in r['cols']]
    deg = max([0] + [k for s in ser for k, _, _ in s])
    if r['per']:       # x = cos(phase), with an arbitrary offset
        fn = [lambda x, s=s: sum(((a / b) * np.cos(k * (2 * np.pi * (np.asarray(x, float) - dom[0]) / (dom[1] - dom[0]) + OFF)) for k, a, b in s), np.zeros(np.shape(x))) for s in ser]
        return Fun(op=fn if len(fn) > 1 else fn[0], domain=dom, type='trig')
    if r['how'] == 'call' and deg <= 14:
        fn = [lambda x, s=s: cheb_eval([s], (2 * np.asarray(x, float) - dom[0] - dom[1]).ravel() / (dom[1] - dom[0])).reshape(np.shape(x)) for s in ser]
        return Fun(op=fn if len(fn) > 1 else fn[0], domain=dom)
    return Fun(coeffs=dense(ser, 7 if r['how'] == 'padded' else 0), simplify=False, domain=np.array(dom))


OFF = 0.7


def phase(xi, per):
    return np.cos(np.pi * (xi + 1) + OFF) if per else xi


def run(item, params):
    ops, bad, f, cols, dom, done, big = {}, None, None, None, None, [], 1.0
    for r in item:
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        try:
            if 'cols' in r:
                old, cols, dom = dom, r['cols'], [fr(x) for x in r['dom']]
                deg = max([0] + [k for c in cols for k, _, _ in c['s']])
                S = np.array([sum(abs(a / b) for _, a, b in c['s']) for c in cols])
                big = max(big * max(1.0, abs(fr(r['c']))) if op == 'Scale' else big, np.max(S)) if len(S) else big
            done.append((op, r.get('how') or r.get('c') or r.get('r') or r.get('n')))
            was = f.shape if f is not None else None
            if op == 'Make':
                per = r['per']
                f = make(r)
            elif op == 'Scale':
                f = f * fr(r['c'])
            elif op == 'Shift':
                f = f + fr(r['c'])
            elif op == 'Times':
                half, mid = (dom[1] - dom[0]) / 2, (dom[0] + dom[1]) / 2
                g = Fun(coeffs=np.array([[-fr(r['r'])] * len(cols), [1.0] * len(cols)], order='F'), simplify=False, domain=np.array(dom))
                f = f * g
            elif op == 'Narrow':
                f = Fun(onefun=f.onefun.restrict([(2 * d - old[0] - old[1]) / (old[1] - old[0]) for d in dom]), domain=dom)
            elif op == 'Longer':
                f = prolong(f, max(r['n'], f.shape[0]))
            elif op == 'Column':
                c = r['cols'][-1]
                f = np.hstack((f, Fun(coeffs=dense([c['s']]), simplify=False, domain=np.array(dom))))
            elif op == 'Roots':
                got = roots(f)
                got = [got] if len(cols) == 1 else list(got)
                if len(got) != len(cols):
                    bad = ('roots', 'zeros of %d components instead of %d' % (len(got), len(cols)))
                for j, c in enumerate(cols):
                    if bad or not c['s']:      # nothing is claimed about the zero function
                        continue
                    e = zeros(c)
                    g = np.sort((2 * np.asarray(got[j], dtype=float).ravel() - dom[0] - dom[1]) / (dom[1] - dom[0]))
                    tol = 1e-12 * max(1, deg) * big / np.maximum(slope(c['s'], e), 1e-300) + 1e-13 * (1 + max(abs(dom[0]), abs(dom[1])) / (dom[1] - dom[0]))
                    gap = np.min(np.diff(np.concatenate(([-1], e, [1])))) if len(e) else 1.0
                    if np.any(tol > gap / 4) or np.any(tol > 1e-3):
                        ops['fuzzy'] = ops.get('fuzzy', 0) + 1
                    elif len(g) != len(e):
                        bad = ('roots', 'component %d has %d zeros instead of %d: %s instead of %s' % (j + 1, len(g), len(e), g[:8], e[:8]))
                    elif len(g) and np.any(np.abs(g - e) > tol):
                        k = int(np.argmax(np.abs(g - e) / tol))
                        bad = ('roots', 'component %d: zero %r instead of %r (error %.1e, allowed %.1e) degree %d' % (j + 1, g[k], e[k], abs(g[k] - e[k]), tol[k], deg))
                    else:
                        ops['zeros'] = ops.get('zeros', 0) + len(g)
            elif op == 'Extremes':
                v, p = minandmax(f)
                v, p = np.asarray(v, float).reshape(2, -1), np.asarray(p, float).reshape(2, -1)
                if v.shape != (2, len(cols)) or p.shape != v.shape:
                    bad = ('extremes', 'shape %s' % (v.shape,))
                for j, c in enumerate(cols):
                    e = [fr(x) for x in r['vals'][j]]
                    xi = (2 * p[:, j] - dom[0] - dom[1]) / (dom[1] - dom[0]) if not bad else None
                    if bad:
                        break
                    if np.any(np.abs(v[:, j] - e) > 1e-10 * big) or not np.all(np.isfinite(v[:, j])):
                        bad = ('extremes', 'component %d: extreme values %s instead of %s' % (j + 1, v[:, j], e))
                    elif np.any(np.abs(xi) > 1 + 1e-12):
                        bad = ('extremes', 'component %d: position %s outside the domain' % (j + 1, p[:, j]))
                    elif np.any(np.abs(cheb_eval([c['s']], phase(xi, per))[:, 0] - e) > 1e-9 * big):
                        bad = ('extremes', 'component %d: extreme values %s are not taken at %s' % (j + 1, e, p[:, j]))
            elif op == 'NormInf':
                v = norm(f, np.inf)
                if np.shape(v) != () or not abs(v - fr(r['val'])) <= 1e-10 * big:
                    bad = ('norm', 'maximum norm %r instead of %r' % (v, fr(r['val'])))
            if not bad and op in ('Roots', 'Extremes', 'NormInf') and f.shape != was:
                bad = ('changed', 'asking changed the shape of the function from %s to %s' % (was, f.shape))
            if not bad:
                e = cheb_eval([c['s'] for c in cols], phase(XI, per))
                v = np.asarray(f(to_dom(XI, *dom))).reshape(len(XI), -1)
                if v.shape != e.shape or not np.all(np.abs(v - e) <= 1e-10 * big):
                    bad = ('changed' if op in ('Roots', 'Extremes', 'NormInf') else 'value', 'the function is off by %.2e' % (np.max(np.abs(v - e)) if v.shape == e.shape else np.inf))
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            return {'fails': [{'op': op, 'clause': bad[0], 'detail': bad[1] + ' | %s on %s: %s' % (done, dom, json.dumps(cols)[:300])}], 'steps': len(done), 'ops': ops}
    return {'fails': [], 'steps': len(done), 'ops': ops}


if __name__ == '__main__':
    main(run)
