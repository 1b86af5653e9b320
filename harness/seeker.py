"""Runs searches with deflation and records what is found (decided by SeekerTrace.tla)."""
from common import *
import contextlib, io, itertools
from funpy.fun import Fun
from funpy.colloc.chebOp import ChebOp
from funpy.newton import NewtonSeeker
from funpy.vectorspaces import DeflationState


def run(item, params):
    p = item['prob']
    roots = [[fr(c) for c in r] for r in p['roots']]
    dom = [fr(c) for c in p['dom']]
    names = ['u', 'v'][:len(roots)]
    sols = list(itertools.product(*roots))
    n = p['n']
    fails, steps, ops = [], [], {}

    def const(c):
        return Fun(coeffs=np.asfortranarray([list(c)]), simplify=False, domain=dom)

    def index(f):
        """Which solution is this function: its index, or -1"""
        xs = to_dom(XI, *dom)
        v = f(xs).reshape(len(xs), -1)
        for i, s in enumerate(sols):
            if v.shape[1] == len(s) and np.max(np.abs(v - s)) < 1e-5:
                return i + 1
        return -1
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            op = ChebOp(functions=names, parameters={'e': fr(p['e'])}, domain=dom, n=n)
            op.eqn = ['e * diff(%s, x, 2) - %s' % (u, ' * '.join('(%s - (%d) / %d)' % (u, a, b) for a, b in r))
                      for u, r in zip(names, p['roots'])]
            # Neumann conditions: only constants solve the problem (e is large)
            op.bcs = ['np.diff(%s)(%r)' % (u, c) for u in names for c in dom]
            sk = NewtonSeeker(op)
    except Exception:
        return {'fails': [{'op': 'New', 'clause': 'error', 'detail': short_tb()}], 'steps': 0, 'ops': {}}
    for r in item['steps']:
        ops[r['what']] = ops.get(r['what'], 0) + 1
        known = [index(k) for k in sk.known_solutions]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if r['what'] == 'tell':
                    free = [i for i in range(1, len(sols) + 1) if i not in known]
                    if not free:
                        continue
                    s = free[r['which'] % len(free)]
                    f = const(sols[s - 1])
                    if r['learn']:
                        sk.append([f])
                    else:
                        sk.append(DeflationState(u=f, e=fr(p['e'])))
                else:
                    g = DeflationState(u=const([fr(c) for c in r['guess']]), e=fr(p['e']))
                    g.prolong(n)
                    kw = dict(method=p['method'], miter=40, tol=1e-9)
                    if p['method'] == 'nleq':
                        kw['exact'] = 'qr' if r['which'] == 4 else 'lu'
                    if not r['learn']:
                        kw['learn_solution'] = False
                    un, ok, _ = sk.solve(g, **kw)
                    s = index(un.u) if ok else 0
        except Timeout:
            raise
        except Exception:
            fails.append({'op': 'Seek', 'clause': 'error', 'detail': short_tb(), 'rec': r})
            break
        steps.append({'what': r['what'], 'learn': bool(r['learn']), 's': s, 'near': bool(r['near']), 'known': [index(k) for k in sk.known_solutions]})
        ops['found' if s > 0 and r['what'] == 'seek' else 'other'] = ops.get('found' if s > 0 and r['what'] == 'seek' else 'other', 0) + 1
    return {'fails': fails, 'steps': len(steps), 'ops': ops, 'trace': {'nsol': len(sols), 'steps': steps}}


if __name__ == '__main__':
    main(run)
