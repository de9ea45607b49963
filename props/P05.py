"""P05: hedges on [0,1]: documented formula, range, order and fixed points."""
import math, random
import z3
from fvc import dual as D, native
from fvc.sym import *
from . import numeric as N

PROPERTY = 'P05'
NAMES = ['Any', 'Extremely', 'Not', 'Seldom', 'Somewhat', 'Very']
SOURCES = ['hedge/%s.cpp' % n for n in NAMES] + ['hedge/Hedge.cpp', 'fuzzylite.cpp']
TRUSTED = ['operand in [0,1]', 'sqrt(x)^2 = x and sqrt(x) >= 0 for x >= 0']
BUDGET = 120
FORM = {
    'Any': lambda x, e: D.mk(1.0, x),
    'Extremely': lambda x, e: D.ite(D.tle(x, D.mk(0.5, x), e), 2.0 * x * x, 1.0 - 2.0 * (1.0 - x) * (1.0 - x)),
    'Not': lambda x, e: 1.0 - x,
    'Seldom': lambda x, e: D.ite(D.tle(x, D.mk(0.5, x), e), D.sqrt(0.5 * x), 1.0 - D.sqrt(0.5 * (1.0 - x))),
    'Somewhat': lambda x, e: D.sqrt(x),
    'Very': lambda x, e: x * x,
}


def start(c, n, names):
    ex, st, this, e = N.begin(c, n, None)
    vs = [FV(0, z3.Real(q)) for q in names]
    for v in vs:
        N.assume(ex, st, And(fle(FV(0), v), fle(v, FV(0, 1))))
    N.assume(ex, st, z3.Real('eps') < z3.RealVal('1/8'))
    inputs = dict(zip(names, vs))
    inputs['eps'] = e.f
    return ex, st, this, e, vs, inputs


def formula(c, n):
    ex, st, this, e, (x,), inp = start(c, n, 'x')
    c.cover(n, st.pc)
    outs = N.run_fn(c, ex, st, n + '::hedge', this, [x])
    N.post(c, ex, outs, n + ' formula', lambda r, s: fsame(r, FORM[n](D.Sc(x), e).f), inp, extra=(n,))
    N.post(c, ex, outs, n + ' range', lambda r, s: And(fle(FV(0), r), fle(r, FV(0, 1))), inp, extra=(n,))
    rel = {'Very': lambda r: fle(r, x), 'Somewhat': lambda r: fle(x, r), 'Any': lambda r: fle(x, r)}.get(n)
    if rel:
        N.post(c, ex, outs, n + ' order against the operand', lambda r, s: rel(r), inp, extra=(n,))
    if n in ('Extremely', 'Seldom'):
        s1 = s2 = None
        low = flt(x, FV(0, Fraction(1, 2)))
        away = fle(e.f, fabs(fsub(x, FV(0, Fraction(1, 2)))))
        lo, hi = (lambda r: fle(r, x), lambda r: fle(x, r))
        if n == 'Seldom':
            lo, hi = hi, lo
        N.post(c, ex, outs, n + ' order against the operand', lambda r, s: Implies(away, And(Implies(low, lo(r)), Implies(Not(low), hi(r)))), inp, extra=(n,))


def ends(c, n):
    for v in (0, 1):
        ex, st, this, e = N.begin(c, n, None)
        N.assume(ex, st, z3.Real('eps') < z3.RealVal('1/8'))
        outs = N.run_fn(c, ex, st, n + '::hedge', this, [FV(0, v)])
        w = 1 if n == 'Any' else 1 - v if n == 'Not' else v
        N.post(c, ex, outs, '%s(%d)' % (n, v), lambda r, s: fsame(r, FV(0, w)), {}, extra=(n,))


def mono(c, n):
    ex, st, this, e, (x, y), inp = start(c, n, 'xy')
    N.assume(ex, st, flt(x, y))
    for q in (x, y):
        N.assume(ex, st, Or(fle(q, FV(0, Fraction(1, 2))), fle(e.f, fsub(q, FV(0, Fraction(1, 2))))))
    outs = N.run_fn(c, ex, st, n + '::hedge', this, [x])
    for i, o in enumerate(outs):
        r1 = o.val
        outs2 = N.run_fn(c, ex, o.st, n + '::hedge', this, [y])
        N.post(c, ex, outs2, '%s monotone %d' % (n, i), lambda r, s: fle(r, r1) if n == 'Not' else fle(r1, r), inp, extra=(n,))


def groups(prog, tier):
    g = []
    for n in NAMES:
        g += [(n + '::hedge formula', formula, n), (n + '::hedge ends', ends, n), (n + '::hedge monotone', mono, n)]
    return g


from fractions import Fraction
CONTRACTED = [n + '::hedge' for n in NAMES]
SEARCHED = 'solver models first, then 2001 grid points of [0,1] and random operands'


def search(models, seed, tier, failed=()):
    bt = N.Batch(native.driver('numeric'))
    N.bind()

    def q(n, x):
        want = [FORM[n](x, 1e-6), FORM[n](x, 0.999e-6), FORM[n](x, 1.001e-6)]

        def judge(o):
            v = N.pf(o)
            if isinstance(v, str) or not any(N.close(v, w, 1e-9, 1e-12) for w in want):
                return '%s(%r) should be %r' % (n, x, want[0])
        bt.add('h %s %s' % (n, native.fmt(x)), judge, {'hedge': n, 'x': x})
    for g, nme, m, extra in models:
        if m and extra:
            for k in ('x', 'y'):
                if m.get(k) is not None:
                    q(extra[0], m[k])
    rng = random.Random(seed)
    for n in NAMES:
        for i in range(2001):
            q(n, i / 2000.0)
        for _ in range(1000):
            q(n, rng.choice([rng.random(), rng.random() ** 6, 1 - rng.random() ** 6, 0.5 + rng.uniform(-1e-5, 1e-5)]))
    return bt.run(native)
