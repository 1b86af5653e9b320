"""Plays scripted problems (Nleq.tla) against the nonlinear solvers: the harness is the linear system."""
import copy as cp
import io, contextlib
import numpy as np
from common import *
from funpy.newton.nleq_err import nleq_err
from funpy.newton.newton_standard import newton_standard
from funpy.newton.qnerr import qnerr
from funpy.newton.giant import giant_gbit
from funpy.fun import Fun
from funpy.vectorspaces import DeflationState, ContinuationState, Parameter

TOL = 1e-9


class Embed:
    """Vectors: scalar times one direction of norm one, as arrays or states."""
    def __init__(self, kind):
        self.kind = kind
        self.inner = np.dot
        if kind == 'a1':
            self.n, self.d = 1, np.array([1.0])
        elif kind == 'a3':
            self.n, self.d = 3, np.array([2.0, -3.0, 6.0]) / 7.0
        elif kind == 'aw':       # a user's inner product
            self.n, self.d = 2, np.array([0.25, 0.0])
            W = np.array([[16.0, 1.0], [1.0, 3.0]])
            self.inner = lambda x, y: np.dot(np.asarray(x), W.dot(np.asarray(y)))
        elif kind == 'st':       # functions
            self.n, self.d = 2, np.array([0.6, 0.0, ])
        elif kind == 'sc':       # function and parameter, length one interval
            self.n, self.d = 2, np.array([0.6, 0.8])

    def vec(self, s):
        if self.kind[0] == 'a':
            return s * self.d
        if self.kind == 'st':    # constants on [0, 4], two components: norm^2 = 4 (c1^2 + c2^2)
            return DeflationState(u=Fun(coeffs=np.asfortranarray([[0.3 * s, -0.4 * s]]), simplify=False, domain=[0, 4]))
        return ContinuationState(a=Parameter(lam=0.8 * s), u=Fun(coeffs=np.asfortranarray([[0.6 * s]]), simplify=False, domain=[0, 1]))

    def scal(self, v):
        """The scalar of a vector, or None if it does not lie on the line."""
        if self.kind[0] == 'a':
            a, d = np.asarray(v, dtype=float).ravel(), self.d
        elif self.kind == 'st':
            if v.u.m != 2:
                return None
            a, d = np.asarray(v.u(np.array([1.3]))).ravel(), np.array([0.3, -0.4])
            b = np.asarray(v.u(np.array([3.1]))).ravel()
            if np.max(np.abs(a - b)) > TOL * 10:
                return None
        else:
            a, d = np.array([float(np.asarray(v.u(np.array([0.3]))).ravel()[0]), float(v.a)]), np.array([0.6, 0.8])
        s = float(np.dot(a, d) / np.dot(d, d))
        return s if np.max(np.abs(a - s * d)) <= 1e-8 * max(1, abs(s)) else None


class Problem:
    """Residuals are tokens that identify the point; solves are looked up in the script."""
    def __init__(self, item, emb):
        self.e = emb
        self.tab = [(fr(r['at']), fr(r['of']), fr(r['d']), r['ok']) for r in item['resp'] if 'at' in r]
        self.used = set()
        self.order = []
        self.tokens = {}
        self.lins = []
        self.bad = None

    def token(self, s):
        for t, v in self.tokens.items():
            if abs(t - s) <= TOL * max(1, abs(s)):
                return v
        n = len(self.tokens)
        self.tokens[s] = np.cos(np.arange(1, self.e.n + 1) * (n + 1.0)) * (n + 2.0)
        return self.tokens[s]

    def complain(self, what):
        self.bad = self.bad or what

    def lookup(self, at, b):
        of = None
        for t, v in self.tokens.items():
            if np.max(np.abs(np.asarray(b) + v)) < 1e-9:
                of = t
        if of is None:
            self.complain('solves a linear system whose right hand side is not a residual of the problem')
            return None
        for i, (a, o, d, ok) in enumerate(self.tab):
            if abs(a - at) <= TOL * max(1, abs(at)) and abs(o - of) <= TOL * max(1, abs(of)):
                self.used.add(i)
                if i not in self.order:
                    self.order.append(i)
                return d, ok
        self.complain('solves with the Jacobian at %.10g for the residual at %.10g; the specification has %s'
                      % (at, of, [(round(a, 10), round(o, 10)) for a, o, _, _ in self.tab if self.tab.index((a, o, _, _)) not in self.used][:3]))
        return None


class Abort(Exception):
    pass


def system_factory(p):
    class System:
        def __init__(self, x, *args, **kw):
            s = p.e.scal(x)
            if s is None:
                p.complain('linearises at a point that is not an iterate')
                raise Abort()
            self.at = s
            p.lins.append(s)

        @property
        def size(self):
            return p.e.n

        def rhs(self, x):
            s = p.e.scal(x)
            if s is None:
                p.complain('evaluates the residual at a point that is not on the line of the corrections')
                raise Abort()
            return p.token(s).copy()

        def solve(self, b):
            r = p.lookup(self.at, b)
            if r is None:
                raise Abort()
            return p.e.vec(r[0]), r[1]

        # giant: a scaled identity
        def matrix(self, precond=False):
            raise Abort()
    return System


KINDS = ['a1', 'a3', 'aw', 'st', 'sc']


def run(item, params):
    par = item['par']
    alg = item['alg']
    h = sum(r['d'][0] * 7 + r['d'][1] for r in item['resp'] if 'd' in r) + par['miter']
    emb = Embed(KINDS[h % len(KINDS)])
    p = Problem(item, emb)
    ret = item['ret']
    fails = []

    def bad(clause, detail):
        fails.append({'op': alg, 'clause': clause, 'detail': str(detail)[:600] + ' (vectors: %s)' % emb.kind})

    cb = []
    stop = par['stop']

    def callback(system, k, dx, normdx, theta):
        cb.append((k, float(normdx)))
        return not (stop and len(cb) >= stop)

    x0v = fr(item['resp'][0]['x0'])
    x0 = emb.vec(x0v)
    if not stop and h % 3 == 0:
        item['cbs'] = None
    kw = dict(tol=fr(par['tol']), miter=par['miter'], callback=callback, inner=emb.inner)
    if item['cbs'] is None:
        del kw['callback']
    if emb.kind[:2] in ('a1', 'a3'):
        del kw['inner']
    if alg == 'nleq':
        lam = fr(par['lam'])
        full = dict(theta_max=fr(par['thmax']), restricted=par['restr'], use_qnerr=par['useqn'])
        default = dict(theta_max=0.5, restricted=True, use_qnerr=True)
        kw.update({a: v for a, v in full.items() if v != default[a] or h % 2})
        if lam == 0.01 and h % 2:
            kw['nonlin'] = 'highly'
        elif lam != 1 or h % 5:
            kw['lam'] = lam
        if not (fr(par['lmin']) == 1e-4 and h % 3):
            kw['lambda_min'] = fr(par['lmin'])
        fn = nleq_err
    else:
        fn = newton_standard
    out = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = fn(system_factory(p), x0, **kw)
    except Timeout:
        raise
    except Abort:
        pass
    except Exception:
        if not p.bad:
            bad('error', short_tb())
    if p.bad:
        bad('iterates', p.bad)
    if out is not None and not fails:
        x, ok, k, normdx, neval, _ = out
        if bool(ok) != ret['ok']:
            bad('success', 'reports success=%s instead of %s' % (ok, ret['ok']))
        s = emb.scal(x)
        if s is None or abs(s - fr(ret['x'])) > TOL * max(1, abs(fr(ret['x']))):
            bad('result', 'returns %s instead of %s' % (s, fr(ret['x'])))
        if k != ret['k'] or neval != ret['neval']:
            bad('count', 'reports %s iterations, %s linearisations instead of %s, %s' % (k, neval, ret['k'], ret['neval']))
        if len(p.lins) > par['miter']:
            bad('limit', '%d linearisations' % len(p.lins))
        if len(p.used) != len(p.tab):
            bad('iterates', 'never solves at %s' % [t for i, t in enumerate(p.tab) if i not in p.used][:2])
        want = [(c['k'], fr(c['n'])) for c in item['cbs'] or []]
        if len(cb) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > TOL * max(1, b[1]) for a, b in zip(cb, want)):
            bad('callback', 'callbacks %s instead of %s' % (cb[:6], want[:6]))
        s0 = emb.scal(x0)
        if s0 is None or abs(s0 - x0v) > 1e-12:
            bad('guess', 'the initial guess was changed')
    return {'fails': fails[:3], 'steps': len(p.order), 'ops': {alg + ('/ok' if ret['ok'] else '/fail'): 1, 'solves': len(p.order)}}


class Plane:
    """Vectors of two components a, b with norm a^2 + w b^2."""
    def __init__(self, kind, w):
        self.kind, self.w = kind, w
        self.n = 3 if kind == 'iso' else 2
        self.B = np.array([[1 / 3., 2 / 3., 2 / 3.], [2 / 3., 1 / 3., -2 / 3.]])
        self.inner = {'iso': np.dot, 'arr': lambda x, y: x[0] * y[0] + w * x[1] * y[1], 'st': np.dot}[kind]

    def vec(self, v):
        a, b = v
        if self.kind == 'arr':
            return np.array([a, b], dtype=float)
        if self.kind == 'iso':
            return np.array([a, b]).dot(self.B)
        if self.w == 1:
            return DeflationState(u=Fun(coeffs=np.asfortranarray([[float(a), float(b)]]), simplify=False, domain=[0, 1]))
        return ContinuationState(a=Parameter(lam=float(a)), u=Fun(coeffs=np.asfortranarray([[float(b)]]), simplify=False, domain=[0, 2]))

    def comps(self, v):
        if self.kind == 'arr':
            return np.asarray(v, dtype=float)
        if self.kind == 'iso':
            return self.B.dot(np.asarray(v, dtype=float))
        if self.w == 1:
            return np.asarray(v.u(np.array([0.3]))).ravel()
        return np.array([float(v.a), float(np.asarray(v.u(np.array([0.3]))).ravel()[0])])


def run_qn(item, params):
    par, ret = item['par'], item['ret']
    w = fr(par['w'])
    script = item['resp'][1:]
    h = sum(abs(c[0]) * 3 + c[1] for r in script for c in r['v']) + par['miter']
    e = Plane((['iso', 'arr', 'st'] if w == 1 else ['arr', 'st'])[h % (3 if w == 1 else 2)], w)
    fails, cb, lins = [], [], []
    stop = par['stop']
    pt = lambda c: np.array([fr(c[0]), fr(c[1])])
    close = lambda a, b: len(a) == len(b) and np.max(np.abs(np.asarray(a) - b)) <= 1e-9 * max(1, np.max(np.abs(b)))

    def bad(clause, detail):
        fails.append({'op': 'qnerr', 'clause': clause, 'detail': '%s (vectors: %s)' % (detail, e.kind)})
    pos = [1 if par['called'] else 0]

    class System:
        def __init__(self, x, *a, **k):
            lins.append(e.comps(x))
            if not close(lins[0], pt(item['resp'][0]['x0'])):
                bad('iterates', 'linearises at %s' % lins[0])
        size = e.n

        def rhs(self, x):
            c = e.comps(x)
            return np.array([1.0, c[0], c[1]])[:e.n] if e.n == 3 else np.array([c[0] + 5.0, c[1]])

        def solve(self, b):
            c = -np.asarray(b)[1:] if e.n == 3 else -np.asarray(b) - [5.0, 0]
            i = pos[0]
            pos[0] += 1
            if i >= len(script):
                bad('iterates', 'solves once more, for the residual at %s' % c)
                raise Abort()
            if not close(c, pt(script[i]['of'])):
                bad('iterates', 'solve %d is for the residual at %s instead of %s' % (i, c, pt(script[i]['of'])))
                raise Abort()
            return e.vec(pt(script[i]['v'])), script[i]['ok']

    def callback(system, k, dx, normdx, theta):
        cb.append((k, float(normdx)))
        return not (stop and len(cb) >= stop)
    x0 = e.vec(pt(item['resp'][0]['x0']))
    kw = dict(tol=fr(par['tol']), miter=par['miter'], theta_max=fr(par['thmax']), callback=callback, verb=bool(h % 2))
    if e.kind != 'iso':
        kw['inner'] = e.inner
    out = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if par['called']:
                s = System(x0)
                d0 = e.vec(pt(script[0]['v']))
                out = qnerr(s, x0, itr=item['itr'], dx0=d0, nleqcalled=True, **kw)
                if not close(e.comps(d0), pt(script[0]['v'])):
                    bad('guess', 'the correction handed in was changed')
            else:
                out = qnerr(System, x0, **kw)
    except (Timeout, Abort):
        if not fails:
            raise
    except Exception:
        bad('error', short_tb())
    if out is not None and not fails:
        x, ok, k, normdx, neval, _ = out
        if bool(ok) != ret['ok']:
            bad('success', 'reports success=%s instead of %s' % (ok, ret['ok']))
        if not close(e.comps(x), pt(ret['x'])):
            bad('result', 'returns %s instead of %s' % (e.comps(x), pt(ret['x'])))
        if k != ret['k'] or neval != ret['neval']:
            bad('count', 'reports %s iterations, %s linearisations instead of %s, %s' % (k, neval, ret['k'], ret['neval']))
        if pos[0] != len(script):
            bad('iterates', '%d solves instead of %d' % (pos[0], len(script)))
        want = [(c['k'], fr(c['n2']) ** 0.5) for c in item['cbs']]
        if len(cb) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-9 * max(1, b[1]) for a, b in zip(cb, want)):
            bad('callback', 'callbacks %s instead of %s' % (cb[:6], want[:6]))
        if not close(e.comps(x0), pt(item['resp'][0]['x0'])):
            bad('guess', 'the initial guess was changed')
    return {'fails': fails[:3], 'steps': len(script), 'ops': {'qnerr/ok' if ret['ok'] else 'qnerr/fail': 1, 'solves': len(script)}}


def run_giant(item, params):
    import scipy.sparse as sp
    par, ret = item['par'], item['ret']
    h = sum(abs(r['f'][0]) * 3 + r['f'][1] for r in item['F']) + par['miter']
    e = Embed(['a1', 'a3', 'aw', 'st'][h % 4])
    fails, lins = [], []
    tab = [(fr(r['at']), fr(r['f']), fr(r['a']), r['jac']) for r in item['F']]
    jacs = [t for t in tab if t[3]]
    used = set()

    def bad(clause, detail):
        fails.append({'op': 'giant', 'clause': clause, 'detail': '%s (vectors: %s)' % (detail, e.kind)})

    def near(u, v):
        return abs(u - v) <= 1e-9 * max(1, abs(v))
    raw = (lambda v: np.asarray(v).flatten(order='F')) if e.kind == 'st' else (lambda v: np.asarray(v, dtype=float).ravel())

    class System:
        def __init__(self, x, *a, **k):
            s = e.scal(x)
            i = len(lins)
            lins.append(s)
            if i >= len(jacs) or s is None or not near(s, jacs[i][0]):
                bad('iterates', 'linearisation %d is at %s instead of %s' % (i, s, jacs[i][0] if i < len(jacs) else 'none'))
                raise Abort()
            self.a = jacs[i][2]
            self.at = s
        size = e.n
        to_vspace = staticmethod((lambda c: DeflationState.from_coeffs(c, 2, domain=[0, 4])) if e.kind == 'st' else (lambda c: c))

        def rhs(self, x=None):
            s = self.at if x is None else e.scal(x)
            if s is None:
                bad('iterates', 'evaluates the residual away from the line of the corrections')
                raise Abort()
            for i, t in enumerate(tab):
                if near(s, t[0]):
                    used.add(t[0])
                    return raw(e.vec(t[1]))
            bad('iterates', 'evaluates the residual at %.12g; the specification has %s' % (s, [t[0] for t in tab if t[0] not in used][:3]))
            raise Abort()

        def matrix(self, precond=False):
            return sp.identity(e.n, format='csr') * self.a, sp.identity(e.n, format='csr') / (self.a or 1.0), None
    x0v = fr(item['x0'])
    x0 = e.vec(x0v)
    kw = dict(tol=fr(par['tol']), max_iter=par['miter'], inner=e.inner)
    if fr(par['rho']) != 0.1 or h % 2:
        kw['safetyfactor'] = fr(par['rho'])
    if par['mode'] != 'mildly' or h % 3:
        kw['nonlin'] = par['mode']
    out = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = giant_gbit(System, x0, **kw)
    except Timeout:
        raise
    except Abort:
        pass
    except Exception:
        bad('error', short_tb())
    if out is not None and not fails:
        x, ok, k, njac, _ = out
        if bool(ok) != ret['ok']:
            bad('success', 'reports success=%s instead of %s' % (ok, ret['ok']))
        s = e.scal(x)
        if s is None or not near(s, fr(ret['x'])):
            bad('result', 'returns %s instead of %s' % (s, fr(ret['x'])))
        if k != ret['k'] or njac != ret['njac']:
            bad('count', 'reports %s iterations, %s linearisations instead of %s, %s' % (k, njac, ret['k'], ret['njac']))
        if len(lins) != len(jacs) or len(used) != len({t[0] for t in tab}):
            bad('iterates', '%d linearisations, residual at %d points instead of %d, %d' % (len(lins), len(used), len(jacs), len({t[0] for t in tab})))
        s0 = e.scal(x0)
        if s0 is None or abs(s0 - x0v) > 1e-12:
            bad('guess', 'the initial guess was changed')
    return {'fails': fails[:3], 'steps': len(tab), 'ops': {'giant/ok' if ret['ok'] else 'giant/fail': 1, 'evals': len(tab)}}


def dispatch(item, params):
    return {'qnerr': run_qn, 'giant': run_giant}.get(item['alg'], run)(item, params)


if __name__ == '__main__':
    main(dispatch)
