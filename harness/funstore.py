"""Replays behaviours of FunStore.tla into funpy functions (Chebyshev kind)."""
import copy as cp
import numpy as np
import h5py
from common import *
import funpy
from funpy.fun import Fun, norm, norm2, h1norm, h2norm, innerw
import funpy.fun as FM
from funpy.cheb import chebtech


class Exp:
    """Expected state of one object."""
    def __init__(self, obj, scale):
        self.a, self.b = fr(obj['dom'][0]), fr(obj['dom'][1])
        self.cols = obj['cols']
        self.vals = cheb_eval(self.cols, XI)
        self.sup = float(np.max(np.abs(self.vals))) if self.vals.size else 0.0
        # bound on the magnitudes rounding errors are relative to
        self.scale = max(1e-3, self.csum(), scale)
        self.deg = max([0] + [k for c in self.cols for k, _, _ in c])

    def csum(self):
        return max([0.0] + [sum(abs(n / d) for _, n, d in c) for c in self.cols])


RTOL = 1e-10


def check_fun(f, e, op, clause, extra=1.0):
    if not isinstance(f, Fun):
        raise Fail(op, clause, 'not a function: %r' % (type(f),))
    dom = np.asarray(f.domain, dtype=float).ravel()
    if dom.size != 2 or abs(dom[0] - e.a) > 1e-12 or abs(dom[1] - e.b) > 1e-12:
        raise Fail(op, clause, 'domain %s instead of [%g, %g]' % (dom, e.a, e.b))
    if f.m != len(e.cols):
        raise Fail(op, clause, '%d columns instead of %d' % (f.m, len(e.cols)))
    v = np.asarray(f(to_dom(XI, e.a, e.b)))
    if v.size != e.vals.size:
        raise Fail(op, clause, 'evaluation has shape %s' % (v.shape,))
    v = v.reshape(e.vals.shape)
    err = np.max(np.abs(v - e.vals))
    if not err <= RTOL * e.scale * extra:
        j = int(np.argmax(np.max(np.abs(v - e.vals), axis=0)))
        i = int(np.argmax(np.abs(v - e.vals)[:, j]))
        raise Fail(op, clause, 'column %d at %.6g is %r instead of %.12g (error %.3g, scale %.3g)'
                   % (j + 1, to_dom(XI, e.a, e.b)[i], v[i, j], e.vals[i, j], err, e.scale))


def ultra_coeffs(c, lam):
    """T -> C^(lam) coefficients by the textbook recurrences."""
    c = c.copy()
    n = c.shape[0]
    r = np.zeros_like(c)
    for k in range(n):                       # T_k = (C1_k - C1_{k-2}) / 2
        r[k] += c[k] * (1.0 if k == 0 else 0.5)
        if k >= 2:
            r[k - 2] -= 0.5 * c[k]
    l = 1
    while l < lam:
        s = np.zeros_like(r)
        for k in range(n):                   # C^l_k = l/(l+k) (C^{l+1}_k - C^{l+1}_{k-2})
            s[k] += r[k] * l / (l + k)
            if k >= 2:
                s[k - 2] -= r[k] * l / (l + k)
        r, l = s, l + 1
    return np.asfortranarray(r)


def make(rec):
    obj = rec['obj']
    dom = [fr(obj['dom'][0]), fr(obj['dom'][1])]
    cols = obj['cols']
    mode = rec['mode']
    if mode == 'call':
        a, b = dom
        def fn(col):
            return lambda x: cheb_eval([col], (2 * np.asarray(x, float) - a - b).ravel() / (b - a)).reshape(np.shape(x))
        ops = [fn(c) for c in cols]
        return Fun(op=ops if len(ops) > 1 else ops[0], domain=dom)
    c = dense(cols, rec['pad'])
    if mode == 'coeffs':
        return Fun(coeffs=c, simplify=False, domain=np.array(dom))
    n = c.shape[0]
    x = np.array([0.0]) if n == 1 else -np.cos(np.pi * np.arange(n) / (n - 1))
    v = np.asfortranarray(cheb_eval(cols, x))
    if mode == 'values':
        return Fun.from_values(v, len(cols), domain=dom)
    return Fun(op=v, domain=dom)


PYOP = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
        'radd': lambda a, b: b + a, 'rsub': lambda a, b: b - a, 'rmul': lambda a, b: b * a}


def ipyop(f, a, b):
    if f == 'add': a += b
    elif f == 'sub': a -= b
    elif f == 'mul': a *= b
    elif f == 'div': a /= b
    return a


def num(c):
    """python number: an int when it is one (half of the users write ints)"""
    return c[0] if c[1] == 1 and c[0] % 2 else c[0] / c[1]


def terms(ts):
    return float(sum(Fraction(n, d) for _, n, d in ts)), float(sum(abs(Fraction(n, d)) for _, n, d in ts))


def close(got, want, scale, op, clause='obs', rt=1e-10):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.size != want.size:
        raise Fail(op, clause, 'result has shape %s instead of %s' % (got.shape, want.shape))
    got = got.reshape(want.shape)
    if not np.all(np.abs(got - want) <= rt * scale):
        raise Fail(op, clause, 'returned %s instead of %s (scale %.3g)' % (got.ravel()[:6], want.ravel()[:6], np.max(scale)))


class Store:
    def __init__(self):
        self.env, self.obj, self.exp = {}, {}, {}

    def scale_of(self, rec):
        """Scale of rounding errors inherited from the operands."""
        ys = [self.exp[self.env[rec[k]]] for k in ('y', 'z') if k in rec and rec[k] in self.env]
        if not ys:
            return 0.0
        op = rec['op']
        if op in ('Bin', 'IBin') and rec['f'] == 'mul':
            return ys[0].scale * ys[1].scale * 2
        if op in ('Scal', 'IScal', 'Arr'):
            cs = rec['cs'] if op == 'Arr' else [rec['c']]
            k = max([abs(fr(c)) for c in cs])
            if rec['f'] in ('mul', 'rmul'):
                return ys[0].scale * max(k, 1)
            if rec['f'] == 'div':
                return ys[0].scale / min([abs(fr(c)) for c in cs])
            return ys[0].scale + k
        if op == 'Power':
            return max(1.0, ys[0].scale) ** rec['n']
        if op == 'Diff':
            h = 2.0 / (ys[0].b - ys[0].a)
            return ys[0].scale * max(1.0, (max(2, ys[0].deg) ** 2 * h) ** rec['n'])
        if op == 'Cumsum':
            return ys[0].scale * max(1.0, ys[0].b - ys[0].a)
        if op == 'Restrict':
            return ys[0].scale * 4
        return sum(y.scale for y in ys)

    def check_all(self, op, target):
        """Every live object has to be what the specification says it is."""
        fails = []
        for i, f in self.obj.items():
            try:
                check_fun(f, self.exp[i], op, 'value' if i == target else 'interference')
            except Fail as x:
                fails.append(x.rec)
            except Timeout:
                raise
            except Exception:
                fails.append({'op': op, 'clause': 'value' if i == target else 'interference', 'detail': short_tb()})
        return fails

    def V(self, n):
        return self.obj[self.env[n]]

    def do(self, r):
        """Run the operation; the new object, or the returned value."""
        op = r['op']
        y = self.V(r['y']) if 'y' in r and op != 'Alias' else None
        z = self.V(r['z']) if 'z' in r else None
        if op == 'New':
            return make(r)
        if op == 'Copy':
            return {'npcopy': np.copy, 'deepcopy': cp.deepcopy, 'pos': lambda g: +g}[r['mode']](y)
        if op == 'Bin':
            return PYOP[r['f']](y, z)
        if op == 'IBin':
            return ipyop(r['f'], y, z)
        if op == 'Scal':
            return PYOP[r['f']](y, num(r['c']))
        if op == 'IScal':
            return ipyop(r['f'], y, num(r['c']))
        if op == 'Arr':
            cs = np.array([fr(c) for c in r['cs']])
            return PYOP[r['f']](y, cs if len(cs) == 1 or r['f'] in ('add', 'sub') else cs[None, :])
        if op == 'Neg':
            return -y
        if op == 'Power':
            return y ** r['n']
        if op == 'Diff':
            return np.diff(y) if r['n'] == 1 else np.diff(y, n=r['n'])
        if op == 'Cumsum':
            return np.cumsum(y)
        if op == 'Restrict':
            s = [fr(r['s'][0]), fr(r['s'][1])]
            return Fun(onefun=y.onefun.restrict(s), domain=y.domain)
        if op == 'Col':
            return y[r['i'] - 1]
        if op == 'Slice':
            return y[r['i'] - 1:r['j']]
        if op == 'HStack':
            return np.hstack((y, z))
        if op == 'Prolong':
            return y.prolong(max(r['n'], 1))
        if op == 'ProlongFn':
            return FM.prolong(y, max(r['n'], 1))
        if op == 'Simplify':
            return y.simplify()
        if op == 'RoundTrip':
            md = r['mode']
            if md == 'hdf5':
                with h5py.File('x%d.h5' % id(self), 'w', driver='core', backing_store=False) as fh:
                    g = fh.create_group('fun')
                    y.writeHDF5(g)
                    return Fun.from_hdf5(g)
            if md == 'values':
                return Fun.from_values(y.values, y.m, domain=y.domain)
            if md == 'coeffs':
                return Fun.from_coeffs(y.flatten(), y.m, domain=y.domain)
            if md == 'iter':
                cs = [c for c in y]
                return np.hstack(cs)
            lam = int(md[-1])
            c = dense(self.exp[self.env[r['y']]].cols)
            return Fun.from_ultra(ultra_coeffs(c, lam).flatten(order='F'), y.m, lam, domain=y.domain)
        if op == 'Like':
            return (np.zeros_like if r['mode'] == 'zeros' else np.ones_like)(y)
        if op == 'Part':
            return {'real': np.real, 'imag': np.imag, 'conj': np.conj}[r['mode']](y)
        raise AssertionError(op)

    def value(self, r):
        op = r['op']
        y = self.V(r['y'])
        e = self.exp[self.env[r['y']]]
        if op == 'Sum':
            w = [terms(t) for t in r['val']]
            close(np.sum(y), [a for a, _ in w], e.scale * max(1, e.b - e.a), op)
        elif op == 'Inner':
            z = self.V(r['z'])
            ez = self.exp[self.env[r['z']]]
            G = np.array([[terms(t)[0] for t in row] for row in r['val']])
            s = e.scale * ez.scale * max(1, e.b - e.a)
            close(np.inner(y, z), G, s, op)
            if G.shape[0] == G.shape[1]:
                close(np.dot(y, z), np.trace(G), s * len(G), op)
        elif op == 'InnerW':
            ez = self.exp[self.env[r['z']]]
            close(innerw(y, self.V(r['z'])), [np.pi * fr(v) for v in r['val']], e.scale * ez.scale * max(1, e.b - e.a), op)
        elif op == 'Norm':
            w = [terms(t) for t in r['val']]
            tot, p = sum(a for a, _ in w), 4 if r['kind'] == 'l4' else 2
            s = (e.scale * (max(1, e.deg) ** 2 * 2 / min(1, e.b - e.a)) ** {'l2': 0, 'l4': 0, 'h1': 1, 'h2': 2}[r['kind']]) ** p * max(1, e.b - e.a)
            k = r['kind']
            if k == 'l2':
                close(norm(y) ** 2, tot, s, op)
                close(y.norm() ** 2, tot, s, op)
                close(norm2(y), tot, s, op)
                close(FM.normh(y) ** 2, tot, s, op)
            elif k == 'l4':
                close(norm(y, p=4) ** 4, tot, s, op)
                close(norm2(y, p=4), tot, s, op)
            elif k == 'h1':
                close(h1norm(y) ** 2, tot, s, op)
            else:
                close(h2norm(y) ** 2, tot, s, op)
        elif op == 'Eval':
            w = [fr(v) for v in r['val']]
            x = e.a + (r['h'] + 2) / 4 * (e.b - e.a)
            close(y(np.array([x])), w, e.scale, op)
            close(y(x), w, e.scale, op)
            if r['h'] == -2:
                close(y.lval(), w, e.scale, op)
            if r['h'] == 2:
                close(y.rval(), w, e.scale, op)
        else:
            raise AssertionError(op)

    def refused(self, r):
        """The operation has to raise; returns None if it did."""
        op = r['op']
        y = self.V(r['y'])
        try:
            if op in ('Bin', 'IBin'):
                self.do(r)
            elif op == 'Inner':
                np.inner(y, self.V(r['z']))
            elif op == 'InnerW':
                innerw(y, self.V(r['z']))
            elif op == 'EvalOut':
                e = self.exp[self.env[r['y']]]
                w = e.b - e.a
                y(np.array([e.a - 0.01 * w, 0.5 * (e.a + e.b)] if r['side'] == 'left' else [0.5 * (e.a + e.b), e.b + 0.01 * w]))
            elif op == 'ColBad':
                y[r['i'] - 1]
            else:
                raise NotImplementedError(op)
        except (Timeout, NotImplementedError):
            raise
        except Exception:
            return None
        return {'op': op, 'clause': 'raise', 'detail': 'accepted, but %s' % r['why']}


def run(hist, params):
    st = Store()
    n = 0
    ops = {}
    for r in hist:
        n += 1
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        fails = []
        target = None
        try:
            if r['res'] == 'alias':
                st.env[r['x']] = st.env[r['y']]
            elif r['res'] == 'raise':
                f = st.refused(r)
                if f:
                    fails.append(f)
            elif r['res'] == 'val':
                st.value(r)
            elif r['res'] == 'new':
                sc = st.scale_of(r)
                before = list(st.obj.values())
                g = st.do(r)
                if any(g is o for o in before):
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'the result is an operand, not a new function'})
                # garbage: ids are recycled by the specification
                st.env[r['x']] = r['id']
                st.obj[r['id']] = g
                st.exp[r['id']] = Exp(r['obj'], sc)
                target = r['id']
                live = set(st.env.values())
                for i in list(st.obj):
                    if i not in live:
                        del st.obj[i], st.exp[i]
            elif r['res'] == 'upd':
                i = r['id']
                sc = st.scale_of(r)
                old = st.obj[i]
                g = st.do(r)
                st.exp[i] = Exp(r['obj'], sc)
                target = i
                if g is not old:
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'in-place operation gave another object'})
        except Timeout:
            raise
        except Fail as x:
            fails.append(x.rec)
        except Exception:
            fails.append({'op': op, 'clause': 'error', 'detail': short_tb()})
        if not fails:
            fails = st.check_all(op, target)
        if fails:
            for f in fails:
                f['step'] = n
                f['rec'] = {k: v for k, v in r.items() if k not in ('obj', 'val')}
            return {'fails': fails, 'steps': n, 'ops': ops}
    return {'fails': [], 'steps': n, 'ops': ops}


if __name__ == '__main__':
    main(run)
