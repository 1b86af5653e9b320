"""Shared by the replay harnesses: main loop, exact-rational helpers, function comparison."""
import json, os, signal, sys, traceback, warnings
warnings.filterwarnings('ignore')
from fractions import Fraction
import numpy as np
np.seterr(all='ignore')

ITEM_SECONDS = 40


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Fail(Exception):
    """One failed clause of the specification."""
    def __init__(self, op, clause, detail):
        self.rec = {'op': op, 'clause': clause, 'detail': str(detail)[:600]}


def main(run_item):
    """run_item(item, params) -> dict(fails=[...], steps=n, ...)."""
    fi, fo, params = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    signal.signal(signal.SIGALRM, _alarm)
    with open(fo, 'w') as out:
        for line in open(fi):
            d = json.loads(line)
            out.write(json.dumps({'begin': d['i']}) + '\n')
            out.flush()
            signal.alarm(int(params.get('item_seconds', ITEM_SECONDS)))
            try:
                r = run_item(d['item'], params)
            except Fail as f:
                r = {'fails': [f.rec], 'steps': 0}
            except Timeout:
                r = {'fails': [{'op': '*', 'clause': 'hang', 'detail': 'no result within %d s' % ITEM_SECONDS}], 'steps': 0}
            finally:
                signal.alarm(0)
            r['i'] = d['i']
            out.write(json.dumps(r) + '\n')
            out.flush()


def short_tb():
    t = traceback.format_exc().strip().splitlines()
    return ' | '.join(x.strip() for x in t[-5:])


def fr(p):
    return p[0] / p[1]


def cheb_eval(cols, xi):
    """Values of exact series [[k, num, den], ..] at points of [-1, 1]; shape (len, m)."""
    th = np.arccos(np.clip(xi, -1, 1))
    res = np.zeros((len(xi), len(cols)))
    for j, col in enumerate(cols):
        for k, n, d in col:
            res[:, j] += (n / d) * np.cos(k * th)
    return res


# irregular points of [-1, 1], end points included
_rng = np.random.RandomState(7)
XI = np.unique(np.concatenate((np.array([-1., -0.5, 0., 0.5, 1.]), np.cos(np.pi * (np.arange(11) + 0.31) / 11.0),
                               _rng.uniform(-1, 1, 21))))


def to_dom(xi, a, b):
    x = 0.5 * (b - a) * xi + 0.5 * (a + b)
    return np.clip(x, a, b)


def dense(cols, pad=0, deg=None):
    """Dense coefficient array (n, m) of exact series."""
    n = max([0] + [k for col in cols for k, _, _ in col]) if deg is None else deg
    c = np.zeros((n + 1 + pad, len(cols)), order='F')
    for j, col in enumerate(cols):
        for k, p, q in col:
            c[k, j] = p / q
    return c


def run_store(st, hist, make_exp):
    """Replay a behaviour of a store machine.  st has do, value, refused, check_all, scale_of
    and the dictionaries env (name -> id), obj (id -> object), exp (id -> expectation)."""
    n, ops = 0, {}
    for r in hist:
        n += 1
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        fails, target = [], None
        try:
            if r['res'] == 'alias':
                st.env[r['x']] = st.env[r['y']]
            elif r['res'] == 'raise':
                f = st.refused(r)
                if f:
                    fails.append(f)
            elif r['res'] == 'val':
                st.value(r)
            elif r['res'] == 'new':
                sc = st.scale_of(r)
                before = list(st.obj.values())
                f = st.do(r)
                if any(f is o for o in before):
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'the result is an operand, not a new object'})
                st.env[r['x']] = r['id']
                st.obj[r['id']] = f
                st.exp[r['id']] = make_exp(r['obj'], sc)
                target = r['id']
                live = set(st.env.values())
                for i in list(st.obj):
                    if i not in live:
                        del st.obj[i], st.exp[i]
            elif r['res'] == 'upd':
                i = r['id']
                sc = st.scale_of(r)
                old = st.obj[i]
                f = st.do(r)
                st.exp[i] = make_exp(r['obj'], sc)
                target = i
                if f is not old:
                    fails.append({'op': op, 'clause': 'alias', 'detail': 'in-place operation gave another object'})
        except Timeout:
            raise
        except Fail as x:
            fails.append(x.rec)
        except Exception:
            fails.append({'op': op, 'clause': 'error', 'detail': short_tb()})
        if not fails:
            fails = st.check_all(op, target)
        if fails:
            for f in fails:
                f['step'] = n
                f['rec'] = {k: v for k, v in r.items() if k not in ('obj', 'val')}
            return {'fails': fails, 'steps': n, 'ops': ops}
    return {'fails': [], 'steps': n, 'ops': ops}
