"""P01: every parametric linguistic term computes its documented membership function."""
import random
from fvc import dual as D, native
from fvc.sym import *
from . import terms as T, numeric as N

PROPERTY = 'P01'
SOURCES = ['term/%s.cpp' % c for c in T.TERMS] + ['term/Term.cpp', 'Operation.cpp', 'fuzzylite.cpp', 'term/Constant.cpp']
TRUSTED = ['term parameters are well formed (ordered vertices, non-zero widths and slopes); 0 < height <= 1',
           'exp, cos, pow, atan and sqrt are uninterpreted beyond determinism and sign/monotonicity facts']
BUDGET = 150


def one(c, cls, pk, xk):
    s = N.term_setup(c, cls, pk, xk)
    if s is None:
        return
    ex, st, this, e, P, h, x, inputs = s
    c.cover('%s%s' % (cls, pk), st.pc)
    outs = N.run_fn(c, ex, st, cls + '::membership', this, [x.f])
    nm = '%s::membership[%s;x=%s]' % (cls, ','.join(N.KN[k] for k in pk), N.KN[xk])

    def goal(r, st2):
        if xk == 1:
            return isnan(r)
        return fsame(r, T.SPEC[cls](h, P, x, e).f)
    N.post(c, ex, outs, nm, goal, inputs, extra=('m', cls))


def band(bp, x, e):
    """x coincides with a breakpoint or is at least one tolerance away from it; distinct breakpoints are a tolerance apart."""
    out = []
    for b in bp:
        out.append(D.or_(D.isinf(b), D.eq(x, b), D.ge(D.abs_(x - b), e)))
    for i in range(len(bp)):
        for j in range(i):
            out.append(D.or_(D.isinf(bp[i]), D.isinf(bp[j]), D.eq(bp[i], bp[j]), D.ge(D.abs_(bp[i] - bp[j]), e)))
    return D.and_(*out)


def rng_(c, cls, pk, xk):
    """0 <= membership(x) <= height, away from the tolerance band of the breakpoints."""
    s = N.term_setup(c, cls, pk, xk)
    if s is None:
        return
    ex, st, this, e, P, h, x, inputs = s
    if not N.assume(ex, st, band(T.breakpoints(cls, P), x, e)):
        return
    if cls == 'Ramp':
        if not N.assume(ex, st, D.not_(D.teq(P[0], P[1], e))):
            return
    outs = N.run_fn(c, ex, st, cls + '::membership', this, [x.f])
    nm = '%s::membership range[%s;x=%s]' % (cls, ','.join(N.KN[k] for k in pk), N.KN[xk])
    N.post(c, ex, outs, nm, lambda r, st2: And(fle(FV(0), r), fle(r, h.f)), inputs, extra=('m', cls))


def constant(c, xk):
    v = FV(0, z3.Real('p0'))
    ex, st, this, e = N.begin(c, 'Constant', [v])
    outs = N.run_fn(c, ex, st, 'Constant::membership', this, [N.fv(xk, 'x')])
    N.post(c, ex, outs, 'Constant::membership', lambda r, s: fsame(r, v), {'p0': v}, extra=('m', 'Constant'))


import z3


def groups(prog, tier):
    g = []
    for cls in T.TERMS:
        for pk, xk in N.term_cases(cls):
            g.append(('%s::membership %s/%d' % (cls, pk, xk), one, cls, pk, xk))
            if xk != 1:
                g.append(('%s::membership range %s/%d' % (cls, pk, xk), rng_, cls, pk, xk))
    for xk in range(4):
        g.append(('Constant::membership/%d' % xk, constant, xk))
    return g


CONTRACTED = ['%s::membership' % c for c in T.TERMS] + ['Constant::membership']
SEARCHED = 'solver models first, then random well formed terms around their breakpoints'


def near(cls, p, x, tol=4e-6):
    import math
    return any(math.isfinite(b) and math.isfinite(x) and abs(x - b) <= tol * max(1.0, abs(b)) for b in T.breakpoints(cls, p))


def search(models, seed, tier, failed=()):
    import math
    b = N.Batch(native.driver('numeric'))
    N.bind()

    def add(cls, h, p, x):
        e = 1e-6
        want = math.nan if math.isnan(x) else T.SPEC[cls](h, p, x, e)

        def judge(o):
            v = N.pf(o)
            if isinstance(v, str):
                return 'membership is %r, outcome %s' % (want, o)
            if N.close(v, want, 1e-7, 1e-7):
                return None
            # the tolerant comparisons may pick the neighbouring piece
            if near(cls, p, x):
                for d in (-3e-6, 3e-6, -1e-6, 1e-6, -2e-6, 2e-6):
                    w2 = T.SPEC[cls](h, p, x + d, e)
                    if N.close(v, w2, 1e-3, 1e-3):
                        return None
            return 'membership should be %r' % want
        b.add('m %s %s %d %s %s' % (cls, native.fmt(h), len(p), ' '.join(native.fmt(q) for q in p), native.fmt(x)), judge,
              {'term': cls, 'height': h, 'parameters': p, 'x': x})
    for g, n, m, extra in models:
        if not m or not extra or extra[1] not in T.TERMS:
            continue
        cls = extra[1]
        p = [m.get('p%d' % i) for i in range(len(T.TERMS[cls][0]))]
        if None in p or m.get('x') is None or m.get('h') is None:
            continue
        if T.TERMS[cls][2](p, 1e-6) is True:
            add(cls, m['h'], p, m['x'])
    rng = random.Random(seed)
    for cls in T.TERMS:
        for _ in range(3000 if tier == 'quick' else 20000):
            r = T.random_case(rng, cls)
            if r:
                add(cls, *r)
    return b.run(native)
