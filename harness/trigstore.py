"""Replays behaviours of TrigStore.tla into funpy functions (periodic kind)."""
import copy as cp
import numpy as np
from common import *
import funpy
from funpy.fun import Fun, norm, norm2, h1norm, h2norm, innerw, adhesion
import funpy.fun as FM

RTOL = 2e-9
XT = np.unique(np.concatenate((np.array([-1., -0.5, 0., 0.5]), -1 + 2 * (np.arange(13) + 0.37) / 13.5,
                               np.random.RandomState(3).uniform(-1, 1, 12))))


def g(c):
    return complex(c[0] / c[1], c[2] / c[3])


def ser(col):
    return {k: complex(a / b, c / d) for k, a, b, c, d in col}


def feval(s, xi):
    r = np.zeros(np.shape(xi), dtype=complex)
    for k, c in s.items():
        r = r + c * np.exp(1j * np.pi * k * np.asarray(xi, float))
    return r


class Exp:
    def __init__(self, obj, scale):
        c, r, e = obj['dom']
        c, r = fr(c) * np.pi ** e, fr(r) * np.pi ** e
        self.a, self.b = c - r, c + r
        w = np.pi ** obj['pe']
        self.cols = [{k: v * w for k, v in ser(col).items()} for col in obj['cols']]
        self.vals = np.array([feval(s, XT) for s in self.cols]).T
        self.real = [all(abs(s.get(-k, 0) - np.conj(v)) <= 1e-13 * abs(v) for k, v in s.items()) for s in self.cols]
        self.deg = max([0] + [abs(k) for s in self.cols for k in s])
        self.scale = max(1e-3, self.csum(), scale)

    def csum(self):
        return max([0.0] + [sum(abs(v) for v in s.values()) for s in self.cols])


def check_fun(f, e, op, clause):
    if not isinstance(f, Fun) or not f.istrig:
        raise Fail(op, clause, 'not a periodic function: %r' % (type(f),))
    dom = np.asarray(f.domain, dtype=float).ravel()
    if dom.size != 2 or abs(dom[0] - e.a) > 1e-9 or abs(dom[1] - e.b) > 1e-9:
        raise Fail(op, clause, 'domain %s instead of [%g, %g]' % (dom, e.a, e.b))
    if f.m != len(e.cols):
        raise Fail(op, clause, '%d columns instead of %d' % (f.m, len(e.cols)))
    v = np.asarray(f(to_dom(XT, e.a, e.b)))
    if v.size != e.vals.size:
        raise Fail(op, clause, 'evaluation has shape %s' % (v.shape,))
    v = v.reshape(e.vals.shape)
    err = np.max(np.abs(v - e.vals))
    if not err <= RTOL * e.scale:
        i, j = np.unravel_index(int(np.argmax(np.abs(v - e.vals))), v.shape)
        raise Fail(op, clause, 'column %d at %.6g is %r instead of %s (error %.3g, scale %.3g)'
                   % (j + 1, to_dom(XT, e.a, e.b)[i], v[i, j], e.vals[i, j], err, e.scale))


def make(rec):
    obj = rec['obj']
    e = Exp(obj, 0)
    dom = [e.a, e.b]
    md, pad, K, m = rec['mode'], rec['pad'], e.deg, len(e.cols)
    real = all(e.real)
    if md == 'call':
        def fn(s, isr):
            def f(x):
                v = feval(s, (2 * np.asarray(x, float) - e.a - e.b) / (e.b - e.a))
                return v.real if isr else v
            return f
        ops = [fn(s, r) for s, r in zip(e.cols, e.real)]
        return Fun(op=ops if m > 1 else ops[0], domain=dom, type='trig')
    if md in ('coeffs', 'ecoeffs'):
        if md == 'coeffs':
            L = K + pad
            n = 2 * L + 1
            c = np.zeros((n, m), dtype=complex, order='F')
            for j, s in enumerate(e.cols):
                for k, v in s.items():
                    c[k + L, j] = v
        else:                         # the highest mode is c cos(K pi x)
            n = 2 * K
            c = np.zeros((n, m), dtype=complex, order='F')
            for j, s in enumerate(e.cols):
                for k, v in s.items():
                    if abs(k) < K:
                        c[k + K, j] = v
                    elif k == -K:
                        c[0, j] = 2 * v
        return Fun(coeffs=c, domain=dom, type='trig', simplify=False)
    n = 2 * K if md == 'evalues' else 2 * K + 1 + pad
    x = -1 + 2 * np.arange(n) / n
    v = np.asfortranarray(np.array([feval(s, x) for s in e.cols]).T)
    if real:
        v = np.asfortranarray(v.real)
    if md == 'array':
        return Fun(op=v, domain=dom, type='trig')
    return Fun.from_values(v, m, domain=dom, type='trig')


PYOP = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
        'radd': lambda a, b: b + a, 'rsub': lambda a, b: b - a, 'rmul': lambda a, b: b * a}


def ipyop(f, a, b):
    if f == 'add': a += b
    elif f == 'sub': a -= b
    elif f == 'mul': a *= b
    elif f == 'div': a /= b
    return a


def num(c):
    if c[2] == 0:
        return c[0] if c[1] == 1 and c[0] % 2 else c[0] / c[1]
    return g(c)


def close(got, want, scale, op, clause='obs', rt=RTOL):
    got = np.asarray(got).ravel()
    want = np.asarray(want).ravel()
    if got.size != want.size:
        raise Fail(op, clause, 'result has shape %s instead of %s' % (got.shape, want.shape))
    if not np.all(np.abs(got - want) <= rt * scale):
        raise Fail(op, clause, 'returned %s instead of %s (scale %.3g)' % (got[:6], want[:6], np.max(scale)))


class Store:
    def __init__(self):
        self.env, self.obj, self.exp = {}, {}, {}

    def scale_of(self, rec):
        ys = [self.exp[self.env[rec[k]]] for k in ('y', 'z') if k in rec and rec[k] in self.env]
        if not ys:
            return 0.0
        op, s = rec['op'], ys[0].scale
        h = 2 * np.pi / (ys[0].b - ys[0].a)
        if op in ('Bin', 'IBin') and rec['f'] == 'mul':
            return s * ys[1].scale * 2
        if op in ('Scal', 'IScal', 'Arr'):
            ks = [abs(g(c)) for c in (rec['cs'] if op == 'Arr' else [rec['c']])]
            if rec['f'] in ('mul', 'rmul'):
                return s * max(max(ks), 1)
            if rec['f'] == 'div':
                return s / min(ks)
            return s + max(ks)
        if op == 'Power':
            return max(1.0, s) ** rec['n']
        if op == 'Diff':
            return s * max(1.0, (max(1, ys[0].deg + 4) * h) ** rec['n'])
        if op == 'Cumsum':
            return s * max(1.0, ys[0].b - ys[0].a)
        if op in ('Conv', 'Adhesion'):
            return s * ys[1].scale * max(1, ys[0].b - ys[0].a)
        return sum(y.scale for y in ys)

    def check_all(self, op, target):
        fails = []
        for i, f in self.obj.items():
            cl = 'value' if i == target else 'interference'
            try:
                check_fun(f, self.exp[i], op, cl)
            except Fail as x:
                fails.append(x.rec)
            except Timeout:
                raise
            except Exception:
                fails.append({'op': op, 'clause': cl, 'detail': short_tb()})
        return fails

    def noisy_mean(self, r):
        f, e = self.V(r['y']), self.exp[self.env[r['y']]]
        v = np.abs(np.atleast_1d(np.asarray(np.sum(f)))) / float(np.diff(np.asarray(f.domain, dtype=float))[0])
        return bool(np.any(v > 1.5e-15 * np.max(np.abs(e.vals), axis=0)) and np.all(v < 1e-12 * max(1.0, e.scale)))

    def V(self, n):
        return self.obj[self.env[n]]

    def do(self, r):
        op = r['op']
        y = self.V(r['y']) if 'y' in r and op != 'Alias' else None
        z = self.V(r['z']) if 'z' in r else None
        if op == 'New':
            return make(r)
        if op == 'Copy':
            return {'npcopy': np.copy, 'deepcopy': cp.deepcopy, 'pos': lambda f: +f}[r['mode']](y)
        if op == 'Bin':
            return PYOP[r['f']](y, z)
        if op == 'IBin':
            return ipyop(r['f'], y, z)
        if op == 'Scal':
            return PYOP[r['f']](y, num(r['c']))
        if op == 'IScal':
            return ipyop(r['f'], y, num(r['c']))
        if op == 'Arr':
            cs = np.array([g(c).real for c in r['cs']])
            return PYOP[r['f']](y, cs if len(cs) == 1 or r['f'] in ('add', 'sub') else cs[None, :])
        if op == 'Neg':
            return -y
        if op == 'Power':
            return y ** r['n']
        if op == 'Diff':
            return np.diff(y) if r['n'] == 1 else np.diff(y, n=r['n'])
        if op == 'Cumsum':
            return np.cumsum(y)
        if op == 'Roll':
            return np.roll(y, r['a'] / 2 if r['a'] % 2 else r['a'] // 2)
        if op == 'Conv':
            return np.convolve(y, z)
        if op == 'Adhesion':
            return adhesion(y, z)
        if op == 'Col':
            return y[r['i'] - 1]
        if op == 'Prolong':
            return y.prolong(r['n'])
        if op == 'ProlongFn':
            return FM.prolong(y, r['n'])
        if op == 'Simplify':
            return y.simplify()
        if op == 'RoundTrip':
            if r['mode'] == 'values':
                return Fun.from_values(y.values, y.m, domain=y.domain, type='trig')
            return Fun.from_coeffs(y.flatten(), y.m, domain=y.domain, type='trig')
        if op == 'Like':
            return (np.zeros_like if r['mode'] == 'zeros' else np.ones_like)(y)
        if op == 'Part':
            return {'real': np.real, 'imag': np.imag, 'conj': np.conj}[r['mode']](y)
        raise AssertionError(op)

    def value(self, r):
        op = r['op']
        y = self.V(r['y'])
        e = self.exp[self.env[r['y']]]
        L = max(1, e.b - e.a)
        if op == 'AsCheb':
            c = FM.asfun(y, type='cheb')
            v = np.asarray(c(to_dom(XT, e.a, e.b))).reshape(e.vals.shape)
            if c.istrig or not np.max(np.abs(v - e.vals)) <= RTOL * e.scale * 10:
                raise Fail(op, 'value', 'error %g' % np.max(np.abs(v - e.vals)))
            return
        if op == 'Norm':
            es, v = r['val']
            tot = sum(np.pi ** p * g(c).real for p, c in zip(es, v))
            s = (e.scale * max(1, (e.deg + 4) * 2 * np.pi / (e.b - e.a)) ** r['k']) ** 2 * L * len(e.cols)
            if r['k'] == 0:
                close(norm(y) ** 2, tot, s, op)
                close(y.norm() ** 2, tot, s, op)
                close(norm2(y), tot, s, op)
            else:
                close((h1norm if r['k'] == 1 else h2norm)(y) ** 2, tot, s, op)
            return
        p, v = r['val']
        want = np.array([g(c) for c in v]) * np.pi ** p
        if op == 'Sum':
            close(np.sum(y), want, e.scale * L, op)
        elif op == 'Inner':
            ez = self.exp[self.env[r['z']]]
            z = self.V(r['z'])
            s = e.scale * ez.scale * L
            close(np.inner(y, z), want, s, op)
            close(innerw(y, z), want, s, op)
            if want.size == 1:
                close(np.dot(y, z), want, s, op)
        elif op == 'Eval':
            x = e.a + (r['h'] + 2) / 4 * (e.b - e.a)
            close(y(np.array([x])), want, e.scale, op)
            close(y(x), want, e.scale, op)
        else:
            raise AssertionError(op)

    def refused(self, r):
        op = r['op']
        y = self.V(r['y'])
        try:
            if op in ('Bin', 'IBin', 'Conv', 'Cumsum'):
                self.do(r)
            elif op == 'Inner':
                np.inner(y, self.V(r['z']))
            elif op == 'EvalOut':
                e = self.exp[self.env[r['y']]]
                w = e.b - e.a
                y(np.array([e.a - 0.01 * w, 0.5 * (e.a + e.b)] if r['side'] == 'left' else [0.5 * (e.a + e.b), e.b + 0.01 * w]))
            elif op == 'ColBad':
                y[r['i'] - 1]
            else:
                raise NotImplementedError(op)
        except (Timeout, NotImplementedError):
            raise
        except Exception:
            return None
        return {'op': op, 'clause': 'raise', 'detail': 'accepted, but %s' % r['why']}


def run(hist, params):
    st = Store()
    n, ops = 0, {}
    for r in hist:
        n += 1
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        fails, target = [], None
        try:
            if r['res'] == 'alias':
                st.env[r['x']] = st.env[r['y']]
            elif r['res'] == 'raise':
                f = st.refused(r)
                if f:
                    fails.append(f)
            elif r['res'] == 'val':
                st.value(r)
            elif r['res'] == 'new':
                sc = st.scale_of(r)
                before = list(st.obj.values())
                f = st.do(r)
                if any(f is o for o in before):
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'the result is an operand, not a new function'})
                st.env[r['x']] = r['id']
                st.obj[r['id']] = f
                st.exp[r['id']] = Exp(r['obj'], sc)
                target = r['id']
                live = set(st.env.values())
                for i in list(st.obj):
                    if i not in live:
                        del st.obj[i], st.exp[i]
            elif r['res'] == 'upd':
                i = r['id']
                sc = st.scale_of(r)
                old = st.obj[i]
                f = st.do(r)
                st.exp[i] = Exp(r['obj'], sc)
                target = i
                if f is not old:
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'in-place operation gave another object'})
        except Timeout:
            raise
        except Fail as x:
            fails.append(x.rec)
        except Exception as x:
            if op == 'Cumsum' and isinstance(x, RuntimeError) and st.noisy_mean(r):
                # the mean is zero only up to rounding; the refusal is a matter of its threshold
                return {'fails': [], 'steps': n, 'ops': ops}
            fails.append({'op': op, 'clause': 'error', 'detail': short_tb()})
        if not fails:
            fails = st.check_all(op, target)
        if fails:
            for f in fails:
                f['step'] = n
                f['rec'] = {k: v for k, v in r.items() if k not in ('obj', 'val')}
            return {'fails': fails, 'steps': n, 'ops': ops}
    return {'fails': [], 'steps': n, 'ops': ops}


if __name__ == '__main__':
    main(run)
