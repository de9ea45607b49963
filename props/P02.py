"""P02: Tsukamoto inverse of monotonic terms, and monotonicity of their membership."""
import math, random
import z3
from fvc import dual as D, native
from fvc.sym import *
from . import terms as T, numeric as N, P01

PROPERTY = 'P02'
MONO = ['Ramp', 'Concave', 'SShape', 'ZShape', 'Sigmoid']
SOURCES = P01.SOURCES
TRUSTED = ['term parameters are well formed (distinct vertices, non-zero slope); 0 < height <= 1; 0 < y < height',
           'exp(log(x)) = x for x > 0 and sqrt(x)^2 = x for x >= 0']
BUDGET = 150

# documented inverse: x such that membership(x) = y
def inverse(cls, h, p, y):
    a, b = p
    if cls == 'Ramp':
        return a + D.div((b - a) * y, h)
    if cls == 'Concave':
        return D.div(h * (a - b), y) + 2.0 * b - a
    if cls == 'SShape':
        return D.ite(D.le(y, 0.5 * h), a + (b - a) * D.sqrt(D.div(y, 2.0 * h)), b - (b - a) * D.sqrt(D.div(h - y, 2.0 * h)))
    if cls == 'ZShape':
        return D.ite(D.le(y, 0.5 * h), b - (b - a) * D.sqrt(D.div(y, 2.0 * h)), a + (b - a) * D.sqrt(D.div(h - y, 2.0 * h)))
    return a - D.div(D.log(D.div(h, y) - 1.0), b)


def setup(c, cls):
    s = N.term_setup(c, cls, (0, 0), 0, 'y')
    ex, st, this, e, P, h, y, inputs = s
    inputs['y'] = y.f
    if cls == 'Ramp':
        N.assume(ex, st, D.not_(D.teq(P[0], P[1], e)))
    if cls == 'Concave':
        N.assume(ex, st, D.ge(D.abs_(P[0] - P[1]), e))
    return s


def inv(c, cls):
    ex, st, this, e, P, h, y, inputs = setup(c, cls)
    N.assume(ex, st, D.and_(D.gt(y, 0.0), D.lt(y, h)))
    c.cover(cls, st.pc)
    outs = N.run_fn(c, ex, st, cls + '::tsukamoto', this, [y.f])
    N.post(c, ex, outs, cls + '::tsukamoto inverse formula', lambda r, s: fsame(r, inverse(cls, h, P, y).f), inputs, extra=('t', cls))


def round_trip(c, cls, case):
    """membership(tsukamoto(y)) = y, away from the tolerance band around the breakpoints."""
    ex, st, this, e, P, h, y, inputs = setup(c, cls)
    N.assume(ex, st, D.and_(D.gt(y, 0.0), D.lt(y, h)))
    if case:
        N.assume(ex, st, D.le(y, 0.5 * h) if case == 1 else D.gt(y, 0.5 * h))
    outs = N.run_fn(c, ex, st, cls + '::tsukamoto', this, [y.f])
    for i, o in enumerate(outs):
        if o.kind != 'return':
            c.oblige(cls + '::tsukamoto does not throw', ex.hyps(o.st), False, inputs, extra=('rt', cls))
            continue
        x = D.Sc(o.val)
        s2 = o.st
        D.EX, D.ST = ex, s2
        N.assume(ex, s2, D.and_(*[D.ge(D.abs_(x - b), e) for b in T.breakpoints(cls, P)]))
        outs2 = N.run_fn(c, ex, s2, cls + '::membership', this, [o.val])
        N.post(c, ex, outs2, '%s membership(tsukamoto(y))=y [%d.%d]' % (cls, case, i), lambda r, s: fsame(r, y.f), inputs, extra=('rt', cls))


def mono(c, cls, up):
    s = N.term_setup(c, cls, (0, 0), 0, 'x')
    ex, st, this, e, P, h, x, inputs = s
    x2 = D.Sc(FV(0, z3.Real('x2')))
    inputs['x2'] = x2.f
    if cls in ('Ramp', 'Concave'):
        N.assume(ex, st, D.ge(D.abs_(P[0] - P[1]), e))
    if cls in ('Ramp', 'Concave'):
        d = D.lt(P[0], P[1])
    elif cls == 'Sigmoid':
        d = D.gt(P[1], 0.0)
    else:
        d = cls == 'SShape'
    if up != (d if isinstance(d, bool) else up):
        return
    if not isinstance(d, bool):
        N.assume(ex, st, d if up else Not(d))
    N.assume(ex, st, D.lt(x, x2))
    for q in (x, x2):
        N.assume(ex, st, P01.band(T.breakpoints(cls, P), q, e))
    outs = N.run_fn(c, ex, st, cls + '::membership', this, [x.f])
    k = 0
    for o in outs:
        if o.kind != 'return':
            continue
        outs2 = N.run_fn(c, ex, o.st, cls + '::membership', this, [x2.f])
        r1 = o.val
        N.post(c, ex, outs2, '%s membership monotone %s [%d]' % (cls, 'up' if up else 'down', k),
               lambda r, s: (fle(r1, r) if up else fle(r, r1)), inputs, extra=('mono', cls))
        k += 1


def flag(c, cls):
    s = N.term_setup(c, cls, tuple([0] * len(T.TERMS[cls][0])), 0)
    ex, st, this, e, P, h, x, inputs = s
    m = c.p.override(cls, 'isMonotonic', '() const')
    outs = ex.enter(c.p.body(m), this, [], st)
    N.post(c, ex, outs, cls + '::isMonotonic', lambda r, s: Iff(r, cls in MONO), inputs, extra=('flag', cls))
    if cls not in MONO:
        s = N.term_setup(c, cls, tuple([0] * len(T.TERMS[cls][0])), 0)
        ex, st, this, e, P, h, x, inputs = s
        ex.contracts['Term::toString'] = lambda ex, st, this, args, f: SV((z3.Const('toString', S),))
        m = c.p.override(cls, 'tsukamoto', '(double) const')
        outs = ex.enter(c.p.body(m), this, [x.f], st)
        c.oblige(cls + '::tsukamoto throws', [], bool(outs) and all(o.kind == 'throw' for o in outs), inputs, extra=('flag', cls))


def groups(prog, tier):
    g = []
    for cls in MONO:
        g.append((cls + '::tsukamoto', inv, cls))
        for case in ((1, 2) if cls in ('SShape', 'ZShape') else (0,)):
            g.append(('%s::membership after tsukamoto %d' % (cls, case), round_trip, cls, case))
        for up in (True, False):
            g.append(('%s::membership monotone %s' % (cls, up), mono, cls, up))
    for cls in T.TERMS:
        g.append((cls + '::isMonotonic', flag, cls))
    return g


CONTRACTED = [c + '::tsukamoto' for c in MONO] + [c + '::membership' for c in MONO] + [c + '::isMonotonic' for c in T.TERMS] + ['Term::tsukamoto']
SEARCHED = 'solver models first, then random monotonic terms: tsukamoto against the inverse, round trip, order of memberships'


def search(models, seed, tier, failed=()):
    b = N.Batch(native.driver('numeric'))
    N.bind()

    def args(cls, h, p, x):
        return '%s %s %d %s %s' % (cls, native.fmt(h), len(p), ' '.join(native.fmt(q) for q in p), native.fmt(x))

    def inv_(cls, h, p, y):
        want = inverse(cls, h, p, y)
        tol = 1e-6 * (1 + max(abs(q) for q in p))

        def judge(o):
            v = N.pf(o)
            if isinstance(v, str) or not N.close(v, want, 1e-6, tol):
                return 'tsukamoto should be %r' % want
        b.add('t ' + args(cls, h, p, y), judge, {'term': cls, 'height': h, 'parameters': p, 'y': y})

    def mono_(cls, h, p, x1, x2):
        if any(abs(q - z) < 2e-6 for q in T.breakpoints(cls, p) for z in (x1, x2)):
            return
        up = p[0] < p[1] if cls in ('Ramp', 'Concave') else p[1] > 0 if cls == 'Sigmoid' else cls == 'SShape'
        st = {}

        def j1(o):
            st['a'] = N.pf(o)

        def j2(o):
            v, a = N.pf(o), st['a']
            if isinstance(v, str) or isinstance(a, str):
                return 'a number'
            if (v < a - 1e-9) if up else (v > a + 1e-9):
                return 'membership is not monotone: %r then %r' % (a, v)
        b.add('m ' + args(cls, h, p, x1), j1, None)
        b.add('m ' + args(cls, h, p, x2), j2, {'term': cls, 'height': h, 'parameters': p, 'x1': x1, 'x2': x2})
    for g, n, m, extra in models:
        if not m or not extra or extra[1] not in MONO or None in m.values():
            continue
        cls, p = extra[1], [m['p0'], m['p1']]
        if extra[0] in ('t', 'rt') and 0 < m['y'] < m['h']:
            inv_(cls, m['h'], p, m['y'])
        elif extra[0] == 'mono':
            mono_(cls, m['h'], p, m['x'], m['x2'])
    rng = random.Random(seed)
    for cls in MONO:
        for _ in range(1500 if tier == 'quick' else 15000):
            r = T.random_case(rng, cls)
            if not r:
                continue
            h, p, x = r
            if abs(p[0] - p[1]) < 1e-3 or cls == 'Sigmoid' and abs(p[1]) < 1e-2:
                continue
            y = rng.choice([rng.uniform(0.02, 0.98) * h, 0.5 * h, 0.25 * h, 0.75 * h, 0.5 * h + 1e-4, 0.5 * h - 1e-4])
            inv_(cls, h, p, y)
            x1, x2 = sorted((rng.uniform(-3, 3) * (abs(p[0]) + 1), x if math.isfinite(x) else 0.0))
            mono_(cls, h, p, x1, x2)
    for cls in T.TERMS:
        r = None
        while r is None:
            r = T.random_case(rng, cls)
        h, p, x = r
        want = cls in MONO
        b.add('mono ' + args(cls, h, p, x), (lambda o, want=want: None if o == ('1' if want else '0') else 'isMonotonic should be %s' % want), {'term': cls})
        if not want:
            b.add('t ' + args(cls, h, p, x), (lambda o: None if o == 'throw' else 'tsukamoto should report the term does not support it'), {'term': cls})
    return b.run(native)
