"""Replays Adapt.tla: the adaptive solver with a scripted nonlinear solver."""
from common import *
import copy as cp
from funpy.fun import Fun
from funpy.vectorspaces import DeflationState, ContinuationState, Parameter
from funpy.colloc.adapt import SolverAdaptive


class Sys:
    def setDisc(self, n):
        self.disc = n


class Newton:
    neval = 0

    def __init__(self, script, eps, kind):
        self.system, self.script, self.eps, self.kind, self.k = Sys(), script, eps, kind, 0
        self.results, self.fails = [], []

    def solve(self, state, learn_solution=False, tol=None, **kwargs):
        r = self.script[self.k] if self.k < len(self.script) else None
        self.k += 1
        if r is None:
            self.fails.append(('grids', 'solved on more than %d grids' % len(self.script)))
            raise Fail('solve', 'grids', 'more solves than the specification allows')
        if state.u.n != r['n'] or self.system.disc != r['n']:
            self.fails.append(('grids', 'solve %d on a state of size %d and a system of size %s, expected %d' % (self.k, state.u.n, self.system.disc, r['n'])))
        want = self.results[r['from']]
        self.compare(state, want, 'solve %d does not start from result %d' % (self.k, r['from']), 'start')
        if learn_solution:
            self.fails.append(('learn', 'intermediate solutions are learned'))
        if tol != self.tol:
            self.fails.append(('start', 'the tolerance is %s instead of %s' % (tol, self.tol)))
        if kwargs.get('mark') != 7:
            self.fails.append(('start', 'options do not reach the solver'))
        c = state.u.coeffs.copy()
        amp = (0.45 if r['near'] else [2.2, 1e7][(self.k + r['n']) % 2]) * self.eps
        # constants on [0, 4] have norm^2 = 4 (c1^2 + c2^2); with a parameter, on an interval of length one, c^2 + a^2
        c[0] += (np.array([0.3, -0.4]) if self.kind == 'st' else 0.6) * amp
        if not r['near'] and amp > 1e-3 and c.shape[0] > 1:
            c[-1] += 0.25
        u = Fun(coeffs=np.asfortranarray(c), simplify=False, domain=state.u.domain)
        new = DeflationState(u=u) if self.kind == 'st' else ContinuationState(a=Parameter(lam=float(state.a) + 0.8 * amp), u=u)
        self.results.append(cp.deepcopy(new))
        return new, r['ok'], 100 + self.k

    def compare(self, got, want, text, clause):
        a, b = got.u.coeffs, want.u.coeffs
        n = max(a.shape[0], b.shape[0])
        pad = lambda c: np.vstack((c, np.zeros((n - c.shape[0], c.shape[1]))))
        tol = 1e-3 * self.eps
        if a.shape[1] != b.shape[1] or np.max(np.abs(pad(a) - pad(b))) > tol or self.kind == 'sc' and abs(float(got.a) - float(want.a)) > tol:
            self.fails.append((clause, text))


def run(item, params):
    par, script, h = item['par'], item['script'], len(json.dumps(item))
    kind, eps = ['st', 'sc'][h % 2], [1e-8, 1e-4, 1e-6][h % 3]
    ops = {'solve': len(script)}
    n = par['shape']
    c = np.zeros((n, 2 if kind == 'st' else 1), order='F')
    c[0] += 1.0
    c[-1] += 0.5
    dom = [0, 4] if kind == 'st' else [0, 1]
    u = Fun(coeffs=c, simplify=False, domain=dom)
    state = DeflationState(u=u) if kind == 'st' else ContinuationState(a=Parameter(lam=0.3), u=u)
    nw = Newton(script, eps, kind)
    nw.results.append(cp.deepcopy(state))
    fails = []
    try:
        kw = {} if h % 3 == 0 else {'eps': eps}
        drop = lambda k, v, default: {} if v == default and h % 5 < 3 else {k: v}      # leave out what is the default
        nw.tol = [1e-8, 1e-5][(h // 2) % 2]
        solver = SolverAdaptive(nw, **drop('n_min', par['nmin'], 2), **drop('n_max', par['nmax'], 14), **drop('tol', nw.tol, 1e-8))
        st, ok, it = solver.solve(state, mark=7, **kw, **drop('up_steps', par['up'], 12), **drop('max_fail_steps', par['fails'], 3), **drop('constant', par['constant'], False))
        if nw.k != len(script):
            fails.append(('grids', 'solved on %d grids, expected %d' % (nw.k, len(script))))
        else:
            nw.compare(st, nw.results[item['answer']], 'the answer is not result %d' % item['answer'], 'answer')
            if bool(ok) != item['ok']:
                fails.append(('success', 'reported success %s, expected %s' % (ok, item['ok'])))
            if it != 100 + len(script):
                fails.append(('count', 'iteration count %s is not that of the last solve' % it))
            if st.u.n != item['n']:
                fails.append(('answer', 'answer has size %d, expected %d' % (st.u.n, item['n'])))
    except Fail:
        pass
    except Timeout:
        raise
    except Exception:
        fails.append(('error', short_tb()))
    return {'fails': [{'op': 'adapt', 'clause': c, 'detail': d} for c, d in (nw.fails + fails)[:3]], 'steps': len(script), 'ops': ops}


if __name__ == '__main__':
    main(run)
