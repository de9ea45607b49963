"""P07: integral defuzzifiers compute the documented value for any term, range and resolution."""
import math, random
from fractions import Fraction
import z3
from fvc import dual as D, exec as X, native
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P07'
SOURCES = ['defuzzifier/%s.cpp' % n for n in ('Bisector', 'Centroid', 'LargestOfMaximum', 'SmallestOfMaximum', 'MeanOfMaximum', 'IntegralDefuzzifier', 'Defuzzifier')] + ['fuzzylite.cpp']
TRUSTED = ['the membership function of the defuzzified term is any deterministic function of its argument (NaN and infinities included)',
           'resolution >= 1 and below 2^31 - 1']
BUDGET = 200


def setup(c, cls, kmin, kmax):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    res = z3.Int('resolution')
    st.assume(res >= 1)
    this = X.LVHeap(fz.obj(ex, st, 'this', cls), cls)
    st = N.construct(c, ex, st, this, cls, [res])
    t = fz.obj(ex, st, 'term')
    fz.term_contracts(ex)
    lo, hi = N.fv(kmin, 'minimum'), N.fv(kmax, 'maximum')
    dx = fdiv(fsub(hi, lo), from_int(res), lambda z: False)
    xat = lambda k: fadd(lo, fmul(half(k), dx))
    mem = lambda k: fz.iface(ex, 'membership', [t], [xat(k)])
    return ex, st, this, t, lo, hi, res, xat, mem


half = fz.half


def run(c, cls, ex, st, this, t, lo, hi):
    return ex.enter(c.p.find(cls + '::defuzzify'), this, [t, lo, hi], st)


def check(c, cls, ex, outs, spec):
    for i, o in enumerate(outs):
        if o.kind != 'return':
            c.oblige('%s::defuzzify outcome %s' % (cls, o.kind), ex.hyps(o.st), False, exact=not getattr(ex, 'lost', None))
            continue
        want = spec()
        c.oblige('%s::defuzzify value#%d' % (cls, i), ex.hyps(o.st), fsame(o.val, want), {'resolution': z3.Int('resolution')},
                 exact=not getattr(ex, 'lost', None))
    c.notes += ['%s: invariant at %s: %s' % (cls, l['loop'], '; '.join(l['invariant'])[:400]) for l in ex.loops_log]


def nonfinite(c, cls):
    for a in range(4):
        for b in range(4):
            if a == 0 and b == 0:
                continue
            ex, st, this, t, lo, hi, res, xat, mem = setup(c, cls, a, b)
            outs = run(c, cls, ex, st, this, t, lo, hi)
            check(c, cls + ' range %d%d' % (a, b), ex, outs, lambda: NANV)


def extreme(c, cls):
    ex, st, this, t, lo, hi, res, xat, mem = setup(c, cls, 0, 0)
    largest = cls == 'LargestOfMaximum'

    def step(k, v):
        y = mem(k)
        b = fle(v['y'], y) if largest else flt(v['y'], y)
        return {'y': fite(b, y, v['y']), 'x': fite(b, xat(k), v['x'])}
    F = Fold(ex, 'extreme', [('y', 'F'), ('x', 'F')], lambda: {'y': NINFV, 'x': NANV}, step, n=res)
    outs = run(c, cls, ex, st, this, t, lo, hi)
    check(c, cls, ex, outs, lambda: F.at(res)['x'])


def centroid(c, cls):
    ex, st, this, t, lo, hi, res, xat, mem = setup(c, cls, 0, 0)

    def step(k, v):
        y = mem(k)
        return {'m': fadd(v['m'], fmul(y, xat(k))), 'a': fadd(v['a'], y)}
    F = Fold(ex, 'moments', [('m', 'F'), ('a', 'F')], lambda: {'m': FV(0), 'a': FV(0)}, step, n=res)
    outs = run(c, cls, ex, st, this, t, lo, hi)
    check(c, cls, ex, outs, lambda: fdiv(F.at(res)['m'], F.at(res)['a']))


def mom(c, cls):
    ex, st, this, t, lo, hi, res, xat, mem = setup(c, cls, 0, 0)
    fz.mean_contract(ex)
    ex.loop_candidates = [fz.sum_candidates]

    def step(k, v):
        y = mem(k)
        up, eq = flt(v['y'], y), feq(y, v['y'])
        return {'y': fite(up, y, v['y']), 's': fite(up, xat(k), fite(eq, fadd(v['s'], xat(k)), v['s'])),
                'c': Ite(up, 1, Ite(eq, add(v['c'], 1), v['c']))}
    F = Fold(ex, 'maxima', [('y', 'F'), ('s', 'F'), ('c', 'I')], lambda: {'y': NINFV, 's': FV(0), 'c': 0}, step, n=res,
             lemmas=[lambda k, v: le(0, v['c'])])
    outs = run(c, cls, ex, st, this, t, lo, hi)
    check(c, cls, ex, outs, lambda: fdiv(F.at(res)['s'], from_int(F.at(res)['c'])))
    fz.fold_obligations(c, ex)


def bisector(c, cls):
    """x (mean of all) whose left cumulative share is closest to one half."""
    ex, st, this, t, lo, hi, res, xat, mem = setup(c, cls, 0, 0)
    fz.mean_contract(ex)
    ex.houdini_ms = 500
    j = z3.Int('j!mp')

    def midpoints(ex, st, this, args, f):
        a, b, r = [ex.rv(x, st) for x in args]
        w = fadd(a, fmul(half(j), fdiv(fsub(b, a), from_int(r), lambda z: False)))
        return X.VecV('double', r, {('k',): z3.Lambda([j], lift(w.k, I)), ('v',): z3.Lambda([j], lift(w.v, R))})
    ex.contracts['Operation::midpoints'] = midpoints

    def stepS(k, v):
        y = mem(k)
        return {'s': fite(isfin(y), fadd(v['s'], y), v['s'])}
    Sf = Fold(ex, 'cumulative', [('s', 'F')], lambda: {'s': FV(0)}, stepS, n=res, lemmas=[lambda k, v: isfin(v['s'])])
    sat = lambda jj: FV(Sf._uf('s', '.k', I)(lift(jj, I)), Sf._uf('s', '.v', R)(lift(jj, I)))
    total = Sf.at(res)['s']
    dist = lambda jj: fabs(fsub(fdiv(sat(add(jj, 1)), total), FV(0, Fraction(1, 2))))

    def stepM(k, v):
        d = dist(k)
        return {'m': fite(flt(d, v['m']), d, v['m'])}
    Mf = Fold(ex, 'closest', [('m', 'F')], lambda: {'m': INFV}, stepM, n=res)
    best = Mf.at(res)['m']

    def stepB(k, v):
        h = feq(best, dist(k))
        return {'s': fite(h, fadd(v['s'], xat(k)), v['s']), 'c': Ite(h, add(v['c'], 1), v['c'])}
    Bf = Fold(ex, 'bisectors', [('s', 'F'), ('c', 'I')], lambda: {'s': FV(0), 'c': 0}, stepB, n=res, lemmas=[lambda k, v: le(0, v['c'])])
    ex.loop_candidates = [fz.sum_candidates, fz.pointwise_candidates([('cumulative share', lambda jj: sat(jj + 1)), ('distance to one half', dist)], res)]
    outs = run(c, cls, ex, st, this, t, lo, hi)
    check(c, cls, ex, outs, lambda: fdiv(Bf.at(res)['s'], from_int(Bf.at(res)['c'])))
    fz.fold_obligations(c, ex)


def midpoints(c):
    """Operation::midpoints: element i is start + (i + 1/2) dx, for i below the resolution."""
    ex = c.executor()
    st = X.State()
    res = z3.Int('resolution')
    st.assume(res >= 1)
    a, b = FV(0, z3.Real('start')), FV(0, z3.Real('end'))
    w = lambda jj: fadd(a, fmul(half(jj), fdiv(fsub(b, a), from_int(res), lambda z: False)))
    Fold(ex, 'none', [('z', 'I')], lambda: {'z': 0}, lambda k, v: {'z': 0}, n=res)
    ex.loop_candidates = [fz.pointwise_candidates([('midpoint', w)], res)]
    outs = ex.enter(c.p.find('Operation::midpoints'), None, [a, b, res], st)
    for i, o in enumerate(outs):
        if o.kind != 'return':
            c.oblige('Operation::midpoints outcome', ex.hyps(o.st), False)
            continue
        v = o.val if isinstance(o.val, X.VecV) else ex.rv(o.val, o.st)
        jj = z3.Int('jj')
        el = FV(z3.Select(ex.varr(v, ('k',), I), jj), z3.Select(ex.varr(v, ('v',), R), jj))
        c.oblige('Operation::midpoints size', ex.hyps(o.st), eqv(v.n, res))
        c.oblige('Operation::midpoints element', ex.hyps(o.st) + [jj >= 0, jj < res], fsame(el, w(jj)))


def groups(prog, tier):
    g = []
    for n in ('Centroid', 'LargestOfMaximum', 'SmallestOfMaximum', 'MeanOfMaximum', 'Bisector'):
        g.append((n + '::defuzzify non finite range', nonfinite, n))
    g.append(('LargestOfMaximum::defuzzify', extreme, 'LargestOfMaximum'))
    g.append(('SmallestOfMaximum::defuzzify', extreme, 'SmallestOfMaximum'))
    g.append(('Centroid::defuzzify', centroid, 'Centroid'))
    g.append(('MeanOfMaximum::defuzzify', mom, 'MeanOfMaximum'))
    g.append(('Bisector::defuzzify', bisector, 'Bisector'))
    g.append(('Operation::mean', fz.prove_mean))
    g.append(('Operation::midpoints', midpoints))
    return g


SEARCHED = 'random terms (some undefined or infinite at some points, some above one), ranges and resolutions, aggregated outputs'
DRIVER = 'engine'


def script(rng):
    lo, hi = G.rng_range(rng)
    if rng.random() < 0.1:
        lo, hi = rng.choice([(-math.inf, hi), (lo, math.inf), (math.nan, hi), (lo, math.nan), (-math.inf, math.inf), (hi, lo), (lo, lo)])
    ops = [('new', '0'), ('ov', 'o', lo, hi, False, True, math.nan, False, G.snorm(rng), 'Centroid:1')]
    a, b = (lo, hi) if math.isfinite(lo) and math.isfinite(hi) and lo < hi else (-1.0, 2.0)
    n = rng.randint(1, 3)
    for i in range(n):
        t = G.term(rng, 'o', 't%d' % i, a, b, G.SHAPES + ['Discrete', 'Constant'] if rng.random() < 0.7 else ['Function'])
        if t[2] not in ('Function', 'Constant') and rng.random() < 0.3:
            t = t[:4] + (rng.choice([3.0, 1.5, 0.05]),) + t[5:]
        ops.append(t)
    for _ in range(rng.randint(0, 3)):
        ops.append(('addact', 'o', 't%d' % rng.randrange(n), rng.choice([rng.random(), rng.random(), 1.0, 0.0, 2.5]), rng.choice(['Minimum', 'AlgebraicProduct', G.tnorm(rng)])))
    for _ in range(4):
        ops.append(('setdef', 'o', '%s:%d' % (rng.choice(CLS), rng.choice([1, 2, 3, 4, 5, 7, 10, 33, 100, rng.randint(1, 150)]))))
        ops.append(('defuzzterm', 'o', 't%d' % rng.randrange(n)))
        ops.append(('defuzz', 'o'))
    return ops


CLS = ['Centroid', 'Bisector', 'SmallestOfMaximum', 'LargestOfMaximum', 'MeanOfMaximum']


def search(models, seed, tier, failed=()):
    return ref.run([(script, 700 if tier == 'quick' else 8000)], seed)
