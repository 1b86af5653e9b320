"""Replays Ultra.tla: the matrices of the ultraspherical method and conversions between its bases."""
from common import *
from funpy.fun import Fun
from funpy.ultra import ultra2ultra
from funpy.colloc.ultraS import matrices as M


def run(item, params):
    ops, fails, st, h = {}, [], {}, len(json.dumps(item))

    def expected(r, n):
        c = np.zeros(n)
        for k, a, b in r['vec']:
            c[k] = a / b
        return c

    for step, r in enumerate(item):
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        bad, fmt = None, [None, 'csr', 'csc'][(h + step) % 3]
        try:
            if op == 'Set':
                st.update(n=r['n'], v=expected(r, r['n']), sc=1.0)
                continue
            n, v = st['n'], st['v']
            keep, new = v.copy(), None
            if op == 'Up':
                new = M.convertmat(n, r['l1'], r['l2'] - 1, format=fmt) @ v
            elif op == 'Down':
                new = M.convertmat_inv(n, r['l2'], r['l1'] - 1, format=fmt) @ v
            elif op == 'Diff':
                new = M.diffmat(n, r['m'], format=fmt) @ v
            elif op in ('Mult', 'Cut'):
                g = Fun(coeffs=dense([r['g']]), simplify=False)
                kg = g.coeffs.copy()
                new = M.multmat(n, g, r['lam'], format=fmt) @ v
                if not np.array_equal(kg, g.coeffs):
                    bad = ('argument', 'the factor was changed')
            elif op == 'Int':
                new = M.intmat(n, format=fmt) @ v
            elif op == 'At':
                f = Fun(coeffs=np.asfortranarray(v.reshape(-1, 1)), simplify=False)
                y = (M.evalfun(n, np.array([r['h'] / 2])) @ np.asarray(f.values)).item()
                if abs(y - fr(r['val'])) > 1e-9 * max(1, st['sc'], abs(fr(r['val']))):
                    bad = ('evaluate', 'evaluation functional gives %r instead of %r' % (y, fr(r['val'])))
            elif op == 'Conv':
                new = ultra2ultra(v.reshape(-1, 1).copy(), r['l1'], r['l2']).ravel()
            elif op == 'Back':
                two = np.vstack((v.reshape(-1, 1), 2 * v.reshape(-1, 1))).ravel()
                f = Fun.from_ultra(two.copy(), 2, r['lam'], domain=[0, 3])
                e = expected(r, n)
                if f.coeffs.shape[1] != 2 or list(f.domain) != [0, 3]:
                    bad = ('convert', 'functions made from two coefficient vectors on [0, 3]: %s on %s' % (f.shape, f.domain))
                else:
                    c = np.zeros((n, 2))
                    c[:f.coeffs.shape[0]] = f.coeffs[:n]
                    new = c[:, 0]
                    if np.max(np.abs(c[:, 1] - 2 * e)) > 1e-8 * max(1, st['sc'], np.max(np.abs(e))):
                        bad = ('convert', 'second function')
            if bad is None and new is not None:
                e = expected(r, n)
                new = np.asarray(new, dtype=float).ravel()
                st['sc'] = max(st['sc'], np.max(np.abs(new)), np.max(np.abs(e)))
                if new.shape != e.shape or not np.all(np.abs(new - e) <= 1e-9 * max(1.0, st['sc'])):
                    k = int(np.argmax(np.abs(new - e))) if new.shape == e.shape else -1
                    bad = ({'Up': 'convert', 'Down': 'convert', 'Conv': 'convert', 'Back': 'convert', 'Diff': 'derivative', 'Int': 'integral'}.get(op, 'multiply'),
                           'entry %d is %r instead of %r, n=%d %s' % (k, new[k], e[k], n, {a: r[a] for a in r if a not in ('vec', 'op')}))
                if op in ('Up', 'Down', 'Diff', 'Mult') and not bad:
                    st['v'] = new
            if bad is None and not np.array_equal(keep, v):
                bad = ('argument', 'the vector was changed')
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            fails.append({'op': op, 'clause': bad[0], 'detail': bad[1] + ' step %d' % step})
            break
    return {'fails': fails, 'steps': len(item), 'ops': ops}


if __name__ == '__main__':
    main(run)
