"""Replays Bvp.tla: residuals, linearisations, matrices and parameter derivatives of boundary value problems."""
from common import *
import contextlib, io
from funpy.fun import Fun
from funpy.colloc.chebOp import ChebOp
from funpy.newton.NewtonSystem import NewtonSystem
from funpy.vectorspaces import DeflationState, ContinuationState, Parameter


def text(e, names, sp):
    """The text of an expression; sp chooses between spellings."""
    T = lambda x: text(x, names, sp // 3 + 7)
    t = e['t']
    if t == 'num':
        a, b = e['c']
        return str(a) if b == 1 and sp % 2 else repr(a / b) if sp % 3 == 0 else '(%d)/(%d)' % (a, b)
    if t == 'x':
        return 'x'
    if t == 'par':
        return e['p']
    if t == 'cf':
        return 'c'
    if t == 'fun':
        return names[e['j'] - 1]
    if t in ('add', 'sub', 'mul'):
        return '(%s %s %s)' % (T(e['l']), {'add': '+', 'sub': '-', 'mul': '*'}[t], T(e['r']))
    if t == 'neg':
        return '(-%s)' % T(e['l'])
    if t == 'quo':
        a, b = e['c']
        return '(%s)/(%d)' % (T(e['l']), a)
    if t == 'pow':
        return '(%s)**%d' % (T(e['l']), e['k'])
    if t == 'd':
        if sp % 4 == 0 and e['k'] > 1:
            return 'diff(%s, x)' % text(dict(e, k=e['k'] - 1), names, sp // 3 + 7)
        return 'diff(%s, x)' % T(e['l']) if e['k'] == 1 and sp % 2 else 'diff(%s, x, %d)' % (T(e['l']), e['k'])
    if t == 'int':
        f = ['x'] * e['e'][0] + [n for n, k in zip(names, e['e'][1:]) for _ in range(k)]
        return '%s(%s, x)' % ('sum' if sp % 5 == 0 else 'int', '*'.join(f))


def run(item, params):
    ops, fails, st, h = {}, [], {}, len(json.dumps(item))

    def mk(cols, pad=0):
        return Fun(coeffs=dense(cols, pad), simplify=False, domain=list(st['dom']))

    def state(cols, pars, n, pad):
        f = mk(cols, pad)
        if st['cpar'] and h % 2:
            return ContinuationState(a=Parameter(a=pars['a']), u=f, b=pars['b']).prolong(n)
        s = DeflationState(u=f, **pars)
        return s.prolong(n)

    def vec(rows, n):
        m = st['m']
        v = [fr(b) for b in rows['bc']]
        for col in rows['eq']:
            c = np.zeros(max(n, 60))
            for k, a, b in col:
                c[k] = a / b
            v += list(c[:n - m])
        return np.array(v)

    def stacked(cols, n):
        c = np.zeros((n, len(cols)), order='F')
        d = dense(cols)
        c[:min(n, d.shape[0])] = d[:n]
        return c.flatten(order='F')

    def close(a, b, sc=1.0):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b), initial=0) <= 1e-9 * max(1.0, sc, np.max(np.abs(b), initial=0))

    def values(f):
        return f(to_dom(XI, *st['dom'])).reshape(len(XI), -1)

    def values_close(f, cols, sc=1.0, tol=1e-9):
        v, e = values(f), cheb_eval(cols, XI)
        return v.shape == e.shape and np.all(np.isfinite(v)) and np.max(np.abs(v - e), initial=0) <= tol * max(1.0, sc, np.max(np.abs(e), initial=0))

    for step, r in enumerate(item):
        op = r['op']
        ops[op] = ops.get(op, 0) + 1
        bad = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'New':
                    names = [['u', 'v'], ['w1', 'w2'], ['p', 'q']][h % 3][:len(r['eqns'])]
                    dom = [fr(c) for c in r['dom']]
                    st.update(dom=dom, m=r['m'], cpar=r['cpar'], names=names, nb=len(r['bcs']))
                    half, mid = (dom[1] - dom[0]) / 2, (dom[0] + dom[1]) / 2
                    c = {k: a / b for k, a, b in r['cf']}
                    kw = dict(constant_functions={'c': 'lambda x: %r * x + %r' % (c.get(1, 0.) / half, c.get(0, 0.) - c.get(1, 0.) * mid / half)})
                    if r['cpar']:
                        kw['cpar'] = ['a']
                    o = ChebOp(functions=list(names), parameters={'a': 1.5, 'b': 0.25}, domain=list(dom), n=8 + h % 9, **kw)
                    o.eqn = [text(e, names, h + 11 * i) for i, e in enumerate(r['eqns'])]
                    st['eqn'] = list(o.eqn)
                    if r['cts']:
                        o.cts = [text(e, names, h + 5 * i) for i, e in enumerate(r['cts'])]
                        st['eqn'] += o.cts
                    bcs = []
                    for bc in r['bcs']:
                        s = ''
                        for t in bc['terms']:
                            f, pt, cc = names[t['f'] - 1], mid + half * t['h'] / 2, fr(t['c'])
                            ev = '%s(%r)' % (f, pt) if t['d'] == 0 else 'np.diff(%s)(%r)' % (f, pt) if t['d'] == 1 and bc['text'] != 2 else 'np.diff(%s, n=%d)(%r)' % (f, t['d'], pt)
                            s += (' + ' if s else '') + (ev if cc == 1 and h % 2 else '(%r) * %s' % (cc, ev))
                        if bc['r'][0] or h % 2:
                            s += ' - (%r)' % fr(bc['r'])
                        bcs.append(eval('lambda %s: %s' % (', '.join(names), s), {'np': np}) if bc['text'] == 3 else s)
                    o.bcs = bcs
                    st['op'] = o
                elif op in ('Lin', 'LinC'):
                    n = r['n']
                    pars = {k: fr(v) for k, v in r['pars'].items()}
                    st.update(pars=pars, n=n, sc=1.0)
                    st['op'].setDisc(n)
                    s = state(r['u'], pars, n, (h + step) % 3)
                    st['sys'] = NewtonSystem(s, st['op'])
                    st['lin'] = r['u']
                    st['q'] = st['sys'].source.quasiOp
                    st['M'], _, _ = st['sys'].matrix()
                    st['Md'] = st['sys'].colloc.matrix()[0].toarray() if (h + step) % 2 else None
                    nf = len(r['u'])
                    shp = (st['nb'] + nf * (n - st['m']), nf * n)
                    if tuple(st['M'].shape) != shp:
                        bad = ('shape', 'matrix of shape %s instead of %s' % (st['M'].shape, shp))
                    elif not close(st['sys'].rhs(s), vec(r['rows'], n)):
                        bad = ('residual', 'residual at the point of linearisation: %s' % diff(st['sys'].rhs(s), vec(r['rows'], n)))
                    elif not values_close(s.u, r['u']):
                        bad = ('interference', 'the state was changed')
                elif op == 'Apply':
                    w, e = stacked(r['w'], st['n']), vec(r['rows'], st['n'])
                    y = st['Md'] @ w if st['Md'] is not None else st['M']._matvec(w)
                    if not close(y[:st['nb']], e[:st['nb']]):
                        bad = ('functional', 'boundary functionals: %s' % diff(y[:st['nb']], e[:st['nb']]))
                    elif not close(y[st['nb']:], e[st['nb']:]):
                        bad = ('linear', 'linearised equations: %s' % diff(y[st['nb']:], e[st['nb']:]))
                elif op in ('Comb', 'Adj'):
                    nf, n, q1, colloc = len(r['w']), st['n'], st['q'], st['sys'].colloc
                    ws = np.split(stacked(r['w'], n), nf)

                    def act(q, **kw):
                        L = colloc.instantiate(q, **kw)[0]
                        return np.concatenate([sum(L[i, j] @ ws[j] for j in range(nf))[:n - st['m']] for i in range(nf)])

                    if op == 'Adj':
                        y = act(q1, adjoint=True)
                    else:
                        q2 = NewtonSystem(state(r['u'], {k: fr(v) for k, v in r['pars'].items()}, n, 0), st['op']).colloc.source.quasiOp
                        a, b = fr(r['c1']), fr(r['c2'])
                        times = lambda q, a: q if a == 1 else -q if a == -1 else a * q if (h + step) % 2 else q * a
                        y1, y2 = act(q1), act(q2)
                        y = act(times(q1, a) - times(q2, -b) if (h + step) % 3 == 0 else times(q1, a) + times(q2, b))
                        if not np.array_equal(y1, act(q1)) or not np.array_equal(y2, act(q2)):
                            bad = ('interference', 'forming combinations changed the operators')
                    if bad is None and not close(y, vec(r['rows'], n)):
                        bad = ('combination' if op == 'Comb' else 'adjoint', diff(y, vec(r['rows'], n)))
                elif op == 'Res':
                    s = state(r['u'], st['pars'], st['n'], 0)
                    y, e = st['sys'].rhs(s), vec(r['rows'], st['n'])
                    if not close(y[:st['nb']], e[:st['nb']]):
                        bad = ('functional', 'boundary residuals: %s' % diff(y[:st['nb']], e[:st['nb']]))
                    elif not close(y, e):
                        bad = ('residual', 'residual: %s' % diff(y, e))
                elif op == 'Call':
                    f = st['op'](mk(r['u']).prolong(st['n']) if h % 2 else state(r['u'], st['pars'], st['n'], 0).u)
                    if not values_close(f, r['val']):
                        bad = ('residual', 'op(u) is not F(u)')
                elif op == 'Norm':
                    f = mk(r['u'])
                    f.prolong(st['n'])
                    y, e = st['op'].residual(f), np.sqrt(fr(r['f2'])) + np.sqrt(fr(r['b2']))
                    if not close(np.squeeze(y), e):
                        bad = ('norm', 'norm of the residual %r instead of %r' % (y, e))
                elif op == 'DPar':
                    s = state(r['u'], st['pars'], st['n'], 0)
                    lin = st['op'].linSys
                    st['op'].linSys.setParameters(s)
                    f = lin.pDer(s, pname='a') if not isinstance(s, ContinuationState) or step % 2 else lin.pDer(s)
                    if not values_close(f, r['val']):
                        bad = ('parameter', 'derivative with respect to a parameter')
                elif op == 'Solve':
                    M, b = st['sys'].colloc.matrix()[0].toarray(), vec(r['rows'], st['n'])
                    if M.shape[0] == M.shape[1]:
                        cond = np.linalg.cond(M)
                        if cond < 1e8:
                            ops['solved'] = ops.get('solved', 0) + 1
                            nl = NewtonSystem(state(st['lin'], st['pars'], st['n'], 0), st['op'], exact=['lu', 'qr'][h % 2])
                            x, ok = nl.solve(b)
                            if not ok:
                                bad = ('solve', 'the solver failed on a well-conditioned system (%.1e)' % cond)
                            elif not values_close(x.u if hasattr(x, 'u') else x, r['w'], np.max(np.abs(b)), max(1e-9, cond * 1e-14)):
                                bad = ('solve', 'wrong solution of the linearised problem (condition %.1e)' % cond)
        except Timeout:
            raise
        except Exception:
            bad = ('error', short_tb())
        if bad:
            fails.append({'op': op, 'clause': bad[0], 'detail': bad[1] + ' | ' + str(st.get('eqn')) + ' step %d' % step})
            break
    return {'fails': fails, 'steps': len(item), 'ops': ops}


def diff(a, b):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape:
        return 'shapes %s %s' % (a.shape, b.shape)
    k = int(np.argmax(np.abs(a - b)))
    return 'entry %d is %r instead of %r' % (k, a[k], b[k])


if __name__ == '__main__':
    main(run)
