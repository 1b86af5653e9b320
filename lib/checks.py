"""The checks: which specification decides which property, and how it is bound to the code."""
CHECKS = {}


def check(pid, **kw):
    def deco(fn):
        CHECKS[pid] = dict(kw, run=fn)
        return fn
    return deco


def cfg(spec='SimSpec', **consts):
    lines = ['SPECIFICATION ' + spec, 'CHECK_DEADLOCK FALSE']
    extra = consts.pop('_', [])
    for k, v in consts.items():
        if isinstance(v, (set, frozenset, list)):
            v = '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in (sorted(v) if not isinstance(v, list) else v)) + '}'
        elif isinstance(v, str) and not v.startswith('<-'):
            v = '"%s"' % v
        lines.append('CONSTANT %s %s' % (k, v if isinstance(v, str) and v.startswith('<-') else '= %s' % v))
    return '\n'.join(lines + list(extra)) + '\n'


# ------------------------------------------------------------------ functions (Chebyshev)
ARITH = ['Bin', 'IBin', 'Scal', 'IScal', 'Arr', 'Neg', 'Power']
CALC = ['Diff', 'Cumsum', 'Sum']
REPR = ['Copy', 'Prolong', 'ProlongFn', 'Simplify', 'RoundTrip', 'Col', 'Slice', 'HStack', 'Restrict', 'Part', 'Like', 'Eval']
WRONG = ('value', 'error', 'obs', 'hang', 'crash')


def laws(ctx, big=False):
    ctx.model_check('ChebLaws', 'ChebLaws', cfg('Spec', Degs='{0, 1, 2, 3, 5}' if big else '{0, 1, 2, 5}', Nums='<- NumsSmall' if big else '{1, 3}',
                    _=['INVARIANTS EvalAdd EvalMul MulComm Leibniz CumDiff CumLeft CumSum DiffSum Parts Affine FlipEval NoBad']).replace('"{', '{').replace('}"', '}'),
                    workers=3 if not big else 8, min_states=500)


def fun_store(ctx, ops, owns, num, depth=16, names=4):
    c = cfg(Names=['f', 'g', 'h', 'r'][:names], Ops=['New'] + ops, MaxHeap=names + 1, Depth=depth)
    items = ctx.collect(ctx.generate('FunStore', 'FunStore', c, num))
    ctx.replay('funstore', items, owns)


def mc_store(ctx):
    ctx.model_check('FunStoreMC', 'FunStoreMC', cfg('MCSpec', Names=['f', 'g'], Ops='{}', MaxHeap=3, Depth=0, MaxLevel=ctx.pick(4, 5),
                    _=['VIEW View', 'CONSTRAINT Shallow', 'INVARIANTS TypeOK Meaning Calculus', 'PROPERTY Local']).replace('"{}"', '{}'),
                    workers=4, min_states=30)


@check('F01')
def f01(ctx):
    laws(ctx, not ctx.quick)
    own = set(ARITH)
    fun_store(ctx, ARITH + ['Copy', 'Diff', 'Cumsum', 'HStack', 'Prolong', 'Like'],
              lambda f: f['op'] in own | {'*', 'Like'} and f['clause'] in WRONG, ctx.pick(3000, 60000))


@check('F02')
def f02(ctx):
    mc_store(ctx)
    fun_store(ctx, ARITH + CALC + REPR + ['Alias', 'Inner', 'InnerW', 'Norm'],
              lambda f: f['clause'] in ('interference', 'alias') or f['op'] == 'Copy' and f['clause'] in WRONG, ctx.pick(3000, 60000), depth=20)


@check('F03')
def f03(ctx):
    mc_store(ctx)
    fun_store(ctx, ['Bin', 'IBin', 'Inner', 'InnerW', 'EvalOut', 'Eval', 'ColBad', 'Alias', 'Copy', 'Scal', 'Diff', 'RoundTrip'],
              lambda f: f['clause'] == 'raise' or f['op'] == 'Eval' and f['clause'] in WRONG, ctx.pick(3000, 40000))


@check('F04')
def f04(ctx):
    laws(ctx, not ctx.quick)
    fun_store(ctx, CALC + ['Bin', 'Scal', 'HStack', 'Col', 'Prolong', 'Eval'],
              lambda f: f['op'] in CALC + ['*'] and f['clause'] in WRONG, ctx.pick(3000, 60000))


@check('F05')
def f05(ctx):
    mc_store(ctx)
    fun_store(ctx, REPR + ['Scal', 'Bin'],
              lambda f: f['op'] in REPR + ['New', '*'] and f['clause'] in WRONG, ctx.pick(3000, 60000))


@check('F06')
def f06(ctx):
    laws(ctx, not ctx.quick)
    fun_store(ctx, ['Inner', 'InnerW', 'Norm', 'Bin', 'Scal', 'Prolong', 'Col', 'Diff'],
              lambda f: f['op'] in ['Inner', 'InnerW', 'Norm', '*'] and f['clause'] in WRONG, ctx.pick(3000, 60000), depth=14)


# ------------------------------------------------------------------ periodic functions
TARITH = ['Bin', 'IBin', 'Scal', 'IScal', 'Arr', 'Neg', 'Power']
TCALC = ['Diff', 'Cumsum', 'Sum', 'Inner', 'Norm', 'Roll', 'Conv', 'Adhesion']
TREPR = ['Copy', 'Prolong', 'ProlongFn', 'Simplify', 'RoundTrip', 'Col', 'Part', 'Like', 'Eval', 'AsCheb']


def flaws(ctx):
    ctx.model_check('FourLaws', 'FourLaws', cfg('Spec', Freqs='<- FreqsSmall' if ctx.quick else '<- FreqsBig', Nums=[1, 3],
                    _=['INVARIANTS EvalAdd EvalMul MulComm Leibniz ConjMul Parts Periodic CumDiff DiffCum ShiftEval DotMean Adjoint ConvShift ConvDiff NoBad']),
                    workers=4 if ctx.quick else 8, min_states=500)


def mc_trig(ctx):
    ctx.model_check('TrigStoreMC', 'TrigStoreMC', cfg('MCSpec', Names=['f', 'g'], Ops=[], MaxHeap=3, Depth=0, MaxLevel=ctx.pick(4, 5),
                    _=['VIEW View', 'CONSTRAINT Shallow', 'INVARIANTS TypeOK Meaning Calculus', 'PROPERTY Local']),
                    workers=4 if ctx.quick else 8, min_states=30, timeout=3000)


def trig_store(ctx, ops, owns, num, depth=14, names=4):
    c = cfg(Names=['f', 'g', 'h', 'r'][:names], Ops=['New'] + ops, MaxHeap=names + 1, Depth=depth)
    items = ctx.collect(ctx.generate('TrigStore', 'TrigStore', c, num))
    ctx.replay('trigstore', items, owns)


@check('P01')
def p01(ctx):
    flaws(ctx)
    own = set(TARITH)
    trig_store(ctx, TARITH + ['Copy', 'Prolong', 'Like', 'Roll', 'Diff', 'Simplify'],
               lambda f: f['op'] in own | {'*'} and f['clause'] in WRONG, ctx.pick(4000, 60000))


@check('P02')
def p02(ctx):
    flaws(ctx)
    own = set(TCALC)
    trig_store(ctx, TCALC + ['Bin', 'Scal', 'Prolong', 'Col', 'IBin'],
               lambda f: f['op'] in own | {'*'} and f['clause'] in WRONG, ctx.pick(4000, 60000))


@check('P03')
def p03(ctx):
    mc_trig(ctx)
    own = set(TREPR) | {'New', 'ColBad', 'EvalOut'}
    trig_store(ctx, TARITH + TCALC + TREPR + ['Alias', 'EvalOut', 'ColBad'],
               lambda f: f['clause'] in ('interference', 'alias', 'raise') or f['op'] in own | {'*'} and f['clause'] in WRONG,
               ctx.pick(4000, 60000), depth=18)


# ------------------------------------------------------------------ state vectors
SARITH = ['Bin', 'IBin', 'Scal', 'IScal', 'Neg', 'Like', 'Part']
SNAME = ['SetNs', 'FromState', 'SameNames']
SREPR = ['Deep', 'Coeffs', 'File', 'Prolong', 'Simplify', 'MpPart']


def mc_state(ctx):
    ctx.model_check('StateStoreMC', 'StateStoreMC', cfg('MCSpec', Names=['f', 'g'], Ops=[], MaxHeap=3, Depth=0, MaxLevel=ctx.pick(4, 5),
                    _=['VIEW View', 'CONSTRAINT Shallow', 'INVARIANTS TypeOK NamesOK Tangent InnerOK', 'PROPERTY Local', 'PROPERTY Keeps']),
                    workers=4 if ctx.quick else 8, min_states=100, timeout=3000)


def state_store(ctx, ops, owns, num, depth=14, names=4):
    c = cfg(Names=['f', 'g', 'h', 'r'][:names], Ops=['New'] + ops, MaxHeap=names + 1, Depth=depth)
    items = ctx.collect(ctx.generate('StateStore', 'StateStore', c, num))
    ctx.replay('statestore', items, owns)


@check('V01')
def v01(ctx):
    mc_state(ctx)
    own = set(SARITH) | {'New', '*'}
    state_store(ctx, SARITH + ['Deep', 'MpNew', 'FromState', 'Alias', 'Prolong'],
                lambda f: f['clause'] == 'weights' or f['op'] in own and f['clause'] in WRONG + ('tangent',), ctx.pick(5000, 80000))


@check('V02')
def v02(ctx):
    mc_state(ctx)
    own = set(SNAME)
    state_store(ctx, SARITH + SNAME + ['Deep', 'Alias', 'Coeffs'],
                lambda f: f['clause'] == 'names' or f['op'] in own and f['clause'] in WRONG + ('raise',), ctx.pick(5000, 80000))


@check('V03')
def v03(ctx):
    mc_state(ctx)
    own = set(SREPR) | {'*'}
    state_store(ctx, SARITH + SREPR + ['MpNew', 'FromState', 'Alias', 'SetNs', 'Norm', 'Inner', 'Normalize'],
                lambda f: f['clause'] in ('interference', 'alias') or f['op'] in {'Bin', 'IBin'} and f['clause'] == 'raise'
                or f['op'] in own and f['clause'] in WRONG + ('weights', 'names'), ctx.pick(5000, 80000), depth=18)


@check('V04')
def v04(ctx):
    mc_state(ctx)
    own = {'Inner', 'Norm', 'Normalize', 'Mass'}
    state_store(ctx, list(own) + ['Bin', 'IBin', 'Scal', 'IScal', 'Neg', 'MpNew', 'Prolong', 'Deep', 'MpPart'],
                lambda f: f['clause'] == 'tangent' or f['op'] in own and f['clause'] in WRONG + ('raise',), ctx.pick(5000, 80000))


# ------------------------------------------------------------------ Newton
NL = dict(Ratios='<- BigRatios', Curbs='<- BigCurbs', Firsts='<- BigFirsts')


def mc_newton(ctx, which):
    small = dict(Ratios='<- SmallRatios', Curbs='<- SmallCurbs', Firsts='<- SmallFirsts', Fails='TRUE')
    inv = ['INVARIANTS SuccessMeansConverged Limited Monotone LamOK FailsFail StopStops CallbacksCount']
    tf = lambda s: s.replace('"TRUE"', 'TRUE')
    if 'nleq' in which:
        ctx.model_check('nleq', 'NleqRun', tf(cfg('Spec', Alg='nleq', Pars='<- SmallPars' if ctx.quick else '<- MidPars', _=inv, **small)),
                        workers=2 if ctx.quick else 8, min_states=1000, timeout=3000)
    if 'standard' in which:
        ctx.model_check('standard', 'NleqRun', tf(cfg('Spec', Alg='standard', Pars='<- SmallPars', _=inv, **small)), workers=1, min_states=500)
    if 'qnerr' in which:
        ctx.model_check('qnerr', 'QnErr', tf(cfg('Spec', Pool='<- SmallPool', Pars='<- SmallPars', Fails='TRUE',
                        _=['INVARIANTS SuccessMeansConverged Bounded Contracts Applied CallbacksCount'])), workers=2, min_states=500)
    if 'giant' in which:
        ctx.model_check('giant', 'Giant', cfg('Spec', Ratios='<- SmallRatios', Curbs='<- SmallCurbs', Firsts='<- SmallFirsts', Jacs='<- SmallJacs',
                        Pars='<- SmallPars', _=['INVARIANTS SuccessMeansConverged Limited Monotone LamOK SingularFails']), workers=2, min_states=1000)


def newton(ctx, nums, owns):
    items, fs = [], []
    tf = lambda s: s.replace('"TRUE"', 'TRUE')
    for alg, n in nums.items():
        if alg == 'qnerr':
            fs += ctx.generate('qn', 'QnErr', tf(cfg(Pool='<- BigPool', Pars='<- SimPars', Fails='TRUE')), n, procs=ctx.pick(4 if len(nums) == 1 else 2, 7))
        elif alg == 'giant':
            fs += ctx.generate('gi', 'Giant', cfg(Jacs='<- BigJacs', Pars='<- SimPars', **NL), n, procs=ctx.pick(2, 7))
        else:
            fs += ctx.generate(alg, 'NleqRun', tf(cfg(Alg=alg, Pars='<- SimPars', Fails='TRUE', **NL)), n, procs=ctx.pick(3, 7))
    ctx.replay('newtonscript', ctx.collect(fs), owns, timeout=ctx.pick(500, 3000))


@check('N01')
def n01(ctx):
    mc_newton(ctx, ['nleq', 'standard', 'qnerr', 'giant'])
    newton(ctx, {'nleq': ctx.pick(4000, 100000), 'standard': ctx.pick(1000, 20000), 'qnerr': ctx.pick(2000, 40000), 'giant': ctx.pick(1500, 30000)},
           lambda f: f['clause'] in ('success', 'result') or f['op'] == 'standard' and f['clause'] == 'iterates')


@check('N02')
def n02(ctx):
    mc_newton(ctx, ['nleq', 'giant'])
    newton(ctx, {'nleq': ctx.pick(6000, 150000), 'giant': ctx.pick(2500, 50000)}, lambda f: f['clause'] == 'iterates')


@check('N03')
def n03(ctx):
    mc_newton(ctx, ['nleq', 'standard', 'qnerr', 'giant'])
    newton(ctx, {'nleq': ctx.pick(4000, 100000), 'standard': ctx.pick(1000, 20000), 'qnerr': ctx.pick(2000, 40000), 'giant': ctx.pick(1500, 30000)},
           lambda f: f['clause'] in ('count', 'limit', 'callback', 'guess', 'error', 'hang', 'crash'))


@check('N05')
def n05(ctx):
    mc_newton(ctx, ['qnerr'])
    newton(ctx, {'qnerr': ctx.pick(7000, 150000)}, lambda f: f['clause'] in ('iterates', 'result', 'success', 'error'))


# ------------------------------------------------------------------ deflation
@check('N04')
def n04(ctx):
    ctx.model_check('Deflate', 'Deflate', cfg('MCSpec', Ops='{}', MaxKnown=2, Depth=ctx.pick(2, 3), Series=ctx.pick('<- MCSmall', '<- MCSeries'),
                    _=['VIEW View', 'INVARIANTS OrderFree Pushes Linear2 ClosedOK Away1 InverseOK']).replace('"{}"', '{}'),
                    workers=ctx.pick(3, 8), min_states=150, timeout=3000)
    ctx.model_check('Seeker', 'Seeker', cfg('Spec', NSol=3, MaxSteps=ctx.pick(4, 5), _=['INVARIANTS Distinct Bounded NoRepeat', 'PROPERTY Monotone']),
                    workers=1, min_states=500)
    plans = ctx.generate('plan', 'SeekPlan', cfg(Depth=5), ctx.pick(80, 1500), procs=1)
    items = ctx.collect(ctx.generate('Deflate', 'Deflate', cfg(Ops=['Learn', 'Move', 'Query', 'Linear', 'Pair'], MaxKnown=3, Depth=12, Series='<- MCSeries'),
                                     ctx.pick(1500, 30000)))
    ctx.replay('deflate', items)
    plans = ctx.collect(plans)
    rs = ctx.replay('seeker', plans, timeout=ctx.pick(400, 4000))
    ctx.validate('seek', 'SeekerTrace', cfg('Spec', _=['PROPERTY Refines']),
                 [(r['trace'], it) for r, it in zip(rs, plans) if r and r.get('trace')], adapter='seeker')


# ------------------------------------------------------------------ boundary value problems
def bvp(ctx, ops, num, owns, depth=12):
    ctx.model_check('ExprLaws', 'ExprLaws', cfg('Spec', Depth=ctx.pick(1, 2), _=['INVARIANTS Frechet Lin ParD Bases NoFun']), workers=ctx.pick(4, 8), min_states=1000, timeout=3000)
    items = ctx.collect(ctx.generate('Bvp', 'Bvp', cfg(Ops=ops, Depth=depth), num))
    ctx.replay('bvp', items, owns=owns)


@check('C02')
def c02(ctx):
    bvp(ctx, ['Lin', 'Res', 'Call', 'Norm', 'Apply'], ctx.pick(600, 12000), lambda f: f['clause'] in ('shape', 'residual', 'functional', 'norm', 'error', 'crash', 'hang'))


@check('C03')
def c03(ctx):
    bvp(ctx, ['Lin', 'Apply', 'DPar'], ctx.pick(700, 15000), lambda f: f['clause'] in ('linear', 'parameter'))


@check('C04')
def c04(ctx):
    bvp(ctx, ['Lin', 'Solve', 'Apply'], ctx.pick(600, 12000), lambda f: f['clause'] in ('solve', 'interference') or f['op'] == 'Solve')


@check('C01')
def c01(ctx):
    ctx.model_check('Ultra', 'Ultra', cfg('MCSpec', Depth=ctx.pick(3, 4), MaxLam=4, _=['INVARIANTS ValueKept DiagDiff Fits']), workers=4, min_states=1000, timeout=3000)
    items = ctx.collect(ctx.generate('Ultra', 'Ultra', cfg(Depth=14, MaxLam=5), ctx.pick(6000, 150000)))
    ctx.replay('ultra', items)


@check('C07')
def c07(ctx):
    ctx.model_check('Pack', 'Pack', cfg('MCSpec', Depth=ctx.pick(3, 4), MaxN=4, Vals=[0, 1, 1000], _=['INVARIANTS Rect OneByOne Split', 'VIEW View']),
                    workers=4, min_states=500, timeout=3000)
    items = ctx.collect(ctx.generate('Pack', 'Pack', cfg(Depth=12, MaxN=7, Vals=[0, 1]), ctx.pick(6000, 150000)))
    ctx.replay('pack', items)


@check('C05')
def c05(ctx):
    ctx.model_check('Adapt', 'Adapt', cfg('Spec', Shapes=[1, 2, 3, 5, 20], NMins=[1, 7, 9], NMaxs=ctx.pick([7, 9], [7, 9, 12]), Ups=[0, 1, 3, 12], Fails=[1, 2, 3],
                    _=['INVARIANTS Growing Enough Bounded Honest Sound NoLuck Starts']), workers=ctx.pick(4, 8), min_states=10000, timeout=3000)
    items = ctx.collect(ctx.generate('Adapt', 'Adapt', cfg(Shapes=[1, 2, 3, 5, 8, 17, 20, 33, 60], NMins=[1, 2, 4, 7, 9], NMaxs=[7, 9, 11, 14], Ups=[0, 1, 2, 4, 8, 12],
                                                            Fails=[1, 2, 3, 5]), ctx.pick(12000, 300000)))
    ctx.replay('adapt', items)


@check('C08')
def c08(ctx):
    bvp(ctx, ['Lin', 'LinC', 'Comb', 'Adj'], ctx.pick(500, 10000), lambda f: f['clause'] in ('combination', 'adjoint', 'interference') or f['op'] in ('Comb', 'Adj'))


@check('C10')
def c10(ctx):
    ctx.model_check('ExprLaws', 'ExprLaws', cfg('Spec', Depth=1, _=['INVARIANTS Frechet Lin ParD Bases NoFun']), workers=4, min_states=1000)
    items = ctx.collect(ctx.generate('Problems', 'Problems', cfg('ProbSpec', Ops=['Eig'], Depth=1, _=['INVARIANT Exact']), ctx.pick(1500, 30000)))
    ctx.replay('problem', items)


@check('F08')
def f08(ctx):
    ctx.model_check('Roots', 'Roots', cfg('MCSpec', Depth=2, Kinds=['R', 'E'], Top=ctx.pick(2, 4), _=['INVARIANTS Simple Complete Extremal Composed', 'VIEW View']), workers=ctx.pick(4, 8), min_states=3000, timeout=3000)
    items = ctx.collect(ctx.generate('Roots', 'Roots', cfg(Depth=8, Kinds=['R', 'E'], Top=2), ctx.pick(5000, 100000)))
    ctx.replay('roots', items)


def analytic(ctx, ops):
    ctx.model_check('Analytic', 'Analytic', cfg('MCSpec', Depth=4, MaxTree=8, _=['INVARIANTS Enclosed Ordered Cancels', 'VIEW View']), workers=ctx.pick(4, 8), min_states=200000, timeout=3000)
    items = ctx.collect(ctx.generate('Analytic', 'Analytic', cfg('SimSpec', Depth=10, MaxTree=5), ctx.pick(6000, 100000)))
    ctx.replay('analytic', items, owns=lambda f: f['op'] in ops)


@check('F07')
def f07(ctx):
    analytic(ctx, ('Make', 'Short', 'Scaled'))


@check('F09')
def f09(ctx):
    analytic(ctx, ('Bin', 'IBin', 'RDiv', 'Num', 'Pow', 'IPow', 'Abs', 'Fun', 'FunTo', 'Eq'))


# ------------------------------------------------------------------ linear algebra
@check('L01')
def l01(ctx):
    ctx.model_check('Linear', 'Linear', cfg('MCSpec', Depth=ctx.pick(4, 3), Entries='<- ESmall' if ctx.quick else '<- EMC', _=['INVARIANTS Answers Block', 'VIEW View']),
                    workers=ctx.pick(4, 8), min_states=10000, timeout=3000)
    items = ctx.collect(ctx.generate('Linear', 'Linear', cfg('SimSpec', Depth=10, Entries='<- EMC'), ctx.pick(8000, 200000)))
    ctx.replay('linear', items)


@check('F10')
def f10(ctx):
    for n, d in ctx.pick([(2, 3)], [(2, 4), (3, 2)]):
        ctx.model_check('Gram %d columns' % n, 'Gram', cfg('MCSpec', Depth=d, NCols=n, _=['INVARIANTS Factored Semi Parts Best Positive', 'VIEW View']),
                        workers=ctx.pick(4, 8), min_states=10000, timeout=3000)
    items = ctx.collect(ctx.generate('Gram', 'Gram', cfg('SimSpec', Depth=9, NCols=2), ctx.pick(8000, 150000)))
    ctx.replay('gram', items)
