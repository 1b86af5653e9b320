"""Replays behaviours of StateStore.tla into funpy's state vectors."""
import copy as cp
import numpy as np
import h5py
from common import *
from funstore import PYOP, ipyop, num, close, check_fun, Exp as FunExp
from funpy.fun import Fun
from funpy.vectorspaces import (ContinuationState, DeflationState, TwoParameterState, TwoParContState,
                                MoorePenroseState, Parameter, Namespace, innerw)

CLS = {'cont': ContinuationState, 'defl': DeflationState, 'two': TwoParameterState, 'twoc': TwoParContState}


class SExp:
    """Expected state; c: common factor of all components (for tangents)."""
    def __init__(self, o, scale, c=1.0):
        self.o, self.kind, self.c = o, o['kind'], c
        self.reals = [(n, p / q * c) for n, p, q in o['reals']]
        self.funcs = []
        for cols in o['funcs']:
            e = FunExp({'dom': o['dom'], 'cols': cols}, scale)
            e.vals = e.vals * c
            self.funcs.append(e)
        self.w = [fr(x) for x in o['w']]
        self.ns = {n: p / q for n, p, q in o['ns']}
        self.scale = max([f.scale for f in self.funcs] + [abs(v) for _, v in self.reals] + [1e-3])
        self.len = self.funcs[0].b - self.funcs[0].a
        self.deg = max(f.deg for f in self.funcs)
        for f in self.funcs:
            f.scale = self.scale * max(1.0, abs(c))


class MExp:
    def __init__(self, o, scale):
        self.kind = 'mp'
        self.u = SExp(o['u'], scale)
        self.v = SExp(o['v'], scale, 1.0 / np.sqrt(fr(o['n2'])))
        self.scale = max(self.u.scale, self.v.scale)


def make_exp(o, scale):
    return MExp(o, scale) if o['kind'] == 'mp' else SExp(o, scale)


def check_state(s, e, op, clause, nsw=True):
    if type(s) is not CLS[e.kind]:
        raise Fail(op, clause, 'is a %s instead of a %s' % (type(s).__name__, CLS[e.kind].__name__))
    if len(s.funcs) != len(e.funcs) or len(s.reals) != len(e.reals):
        raise Fail(op, clause, '%d functions, %d parameters' % (len(s.funcs), len(s.reals)))
    for f, fe in zip(s.funcs, e.funcs):
        check_fun(f, fe, op, clause)
    for r, (n, v) in zip(s.reals, e.reals):
        if r.name != n:
            raise Fail(op, 'names' if clause == 'value' else clause, 'parameter is called %s instead of %s' % (r.name, n))
        if not abs(float(r) - v) <= 1e-10 * e.scale:
            raise Fail(op, clause, 'parameter %s = %r instead of %r' % (n, float(r), v))
    if e.reals:
        n, v = e.reals[-1]
        if s.cpar != n or not abs(s.a - v) <= 1e-10 * e.scale:
            raise Fail(op, 'names' if clause == 'value' else clause, 'continuation parameter is %s = %s instead of %s = %s' % (s.cpar, s.a, n, v))
        if len(e.reals) == 2 and (s.bname != e.reals[0][0] or not abs(s.b - e.reals[0][1]) <= 1e-10 * e.scale):
            raise Fail(op, 'names' if clause == 'value' else clause, 'second parameter is %s = %s' % (s.bname, s.b))
    if nsw:
        want = dict(e.ns)
        got = {k: float(v) for k, v in s.ns.items()}
        if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-12 * (1 + abs(want[k])) for k in want):
            raise Fail(op, 'names' if clause == 'value' else clause, 'other parameters are %s instead of %s' % (got, want))
        items = list(s.items())
        want.update(dict(e.reals))
        if len(items) != len(want) or any(k not in want or abs(float(v) - want[k]) > 1e-10 * e.scale * (1 + abs(want[k])) for k, v in items):
            raise Fail(op, 'names' if clause == 'value' else clause, 'parameters are %s instead of %s' % (items, want))
        w = np.asarray(s.weights, dtype=float).ravel()
        if w.size != len(e.w) or np.any(np.abs(w - e.w) > 1e-13):
            raise Fail(op, 'weights' if clause == 'value' else clause, 'weights %s instead of %s' % (w, e.w))


def check_obj(s, e, op, clause):
    if e.kind == 'mp':
        if type(s) is not MoorePenroseState:
            raise Fail(op, clause, 'is a %s' % type(s).__name__)
        check_state(s.state, e.u, op, clause)
        try:
            check_state(s.tangent, e.v, op, clause)
        except Fail as f:
            if f.rec['clause'] == 'value':
                f.rec['clause'] = 'tangent'
            raise f
    else:
        check_state(s, e, op, clause)


def make(rec):
    o = rec['obj']
    dom = [fr(o['dom'][0]), fr(o['dom'][1])]
    fs = [Fun(coeffs=dense(c), simplify=False, domain=np.array(dom)) for c in o['funcs']]
    ps = [Parameter(**{n: num((p, q))}) for n, p, q in o['reals']]
    kw = {'weights': np.array([fr(x) for x in o['w']])}
    others = {n: p / q for n, p, q in o['ns']}
    if rec['how'] == 'ns':
        kw['ns'] = Namespace(**{n: Parameter(**{n: v}) for n, v in others.items()})
    else:
        kw.update(others)
    k = o['kind']
    if k == 'defl':
        return DeflationState(u=fs[0], **kw)
    if k == 'cont':
        return ContinuationState(a=ps[0], u=fs[0], **kw)
    if k == 'twoc':
        return TwoParContState(p1=ps[0], p2=ps[1], u=fs[0], **kw)
    return TwoParameterState(p1=ps[0], p2=ps[1], u=fs[0], phi=fs[1], **kw)


class Store:
    def __init__(self):
        self.env, self.obj, self.exp = {}, {}, {}

    def scale_of(self, r):
        ys = [self.exp[self.env[r[k]]] for k in ('y', 'z') if k in r and r[k] in self.env]
        if not ys:
            return 0.0
        if r['op'] in ('Bin', 'IBin') and r['f'] == 'mul' and len(ys) == 2:
            return ys[0].scale * ys[1].scale * 2
        if r['op'] in ('Scal', 'IScal'):
            k = abs(fr(r['c']))
            if r['f'] in ('mul', 'rmul'):
                return ys[0].scale * max(k, 1)
            if r['f'] == 'div':
                return ys[0].scale / k
            return ys[0].scale + k
        return sum(y.scale for y in ys)

    def check_all(self, op, target):
        fails = []
        for i, f in self.obj.items():
            cl = 'value' if i == target else 'interference'
            try:
                check_obj(f, self.exp[i], op, cl)
            except Fail as x:
                fails.append(x.rec)
            except Timeout:
                raise
            except Exception:
                fails.append({'op': op, 'clause': cl, 'detail': short_tb()})
        return fails

    def V(self, n):
        return self.obj[self.env[n]]

    def do(self, r):
        op = r['op']
        y = self.V(r['y']) if 'y' in r else None
        z = self.V(r['z']) if 'z' in r else None
        if op == 'New':
            return make(r)
        if op == 'Deep':
            return cp.deepcopy(y)
        if op == 'Bin':
            return PYOP[r['f']](y, z)
        if op == 'IBin':
            return ipyop(r['f'], y, z)
        if op == 'Scal':
            return PYOP[r['f']](y, num(r['c']))
        if op == 'IScal':
            return ipyop(r['f'], y, num(r['c']))
        if op == 'Neg':
            return -y
        if op == 'Like':
            return (np.zeros_like if r['mode'] == 'zeros' else np.ones_like)(y)
        if op == 'Part':
            return {'real': np.real, 'imag': np.imag, 'conj': np.conj}[r['mode']](y)
        if op == 'Prolong':
            return y.prolong(max(r['n'], 1))
        if op == 'Simplify':
            return y.simplify()
        if op == 'MpNew':
            return MoorePenroseState(cp.deepcopy(y), cp.deepcopy(z))
        if op == 'MpPart':
            return cp.deepcopy(y.state if r['which'] == 'u' else y.tangent)
        if op == 'SetNs':
            y[r['n']] = fr(r['v'])
            return y
        if op == 'FromState':
            a = []
            for n, p, q in r['ps']:
                a += [n, p / q]
            return CLS[r['kind']].from_state(y, *a)
        if op == 'Coeffs':
            u = y.funcs[0]
            c = np.asarray(y) if len(self.obj) % 2 else y.flatten()
            names = [p.name for p in y.reals]
            return type(y).from_coeffs(c, *names, u.m, domain=np.asarray(u.domain))
        if op == 'File':
            with h5py.File('x%d.h5' % id(self), 'w', driver='core', backing_store=False) as fh:
                g = fh.create_group('state')
                y.writeHDF5(g)
                return type(y).from_hdf5(g)
        raise AssertionError(op)

    def value(self, r):
        op = r['op']
        y = self.V(r['y'])
        e = self.exp[self.env[r['y']]]
        sc = (e.scale ** 2) * max(1, e.len) * 10
        if op == 'Inner':
            z = self.V(r['z'])
            sc = e.scale * self.exp[self.env[r['z']]].scale * max(1, e.len) * 30
            want = np.pi * fr(r['val'][0]) + fr(r['val'][1])
            got = {'inner': np.inner, 'dot': np.dot, 'innerw': innerw}[r['how']](y, z)
            close(got, want, sc, op)
        elif op == 'Norm':
            close(y.norm(p=r['p']) ** r['p'], fr(r['val']), e.scale ** r['p'] * max(1, e.len) * 30, op)
        elif op == 'Normalize':
            s = cp.deepcopy(y)
            n2 = fr(r['val'])
            t = s.normalize()
            if t is not s:
                raise Fail(op, 'alias', 'normalize returned another object')
            if n2 == 0:
                check_state(s, e, op, 'obs')
            else:
                check_state(s, SExp(r['obj'], e.scale, 1 / np.sqrt(n2)), op, 'obs')
                close(s.norm(), 1.0, 1.0, op)
        elif op == 'Mass':
            close(y.mass(), [fr(v) for v in r['val']], e.scale * max(1, e.len) * 10, op)
        else:
            raise AssertionError(op)

    def refused(self, r):
        op = r['op']
        y = self.V(r['y'])
        try:
            if op in ('Bin', 'IBin'):
                self.do(r)
            elif op == 'Inner':
                {'inner': np.inner, 'dot': np.dot, 'innerw': innerw}[r['how']](y, self.V(r['z']))
            elif op == 'SameNames':
                TwoParContState.from_state(y, r['n'], 1.0, r['n'], 2.0)
            else:
                raise NotImplementedError(op)
        except (Timeout, NotImplementedError):
            raise
        except Exception:
            return None
        return {'op': op, 'clause': 'raise', 'detail': 'accepted, but %s' % r['why']}


def run(hist, params):
    return run_store(Store(), hist, make_exp)


if __name__ == '__main__':
    main(run)
