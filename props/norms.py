"""Contracts of the T-norms and S-norms (documented formulas and laws)."""
import math, random
import z3
from fvc import dual as D, native
from fvc.sym import *
from . import numeric as N

TN = ['AlgebraicProduct', 'BoundedDifference', 'DrasticProduct', 'EinsteinProduct', 'HamacherProduct', 'Minimum', 'NilpotentMinimum']
SN = ['AlgebraicSum', 'BoundedSum', 'DrasticSum', 'EinsteinSum', 'HamacherSum', 'Maximum', 'NilpotentMaximum', 'NormalizedSum', 'UnboundedSum']
TRUSTED = ['operands in [0,1] (laws) or any doubles including NaN (minimum, maximum propagate NaN)']
SEARCHED = 'solver models first, then a grid of 41 x 41 operands in [0,1] and random pairs'


def sources(names, k):
    return ['norm/%s/%s.cpp' % (k, n) for n in names] + ['norm/Norm.cpp', 'fuzzylite.cpp']


def one(x):
    return D.mk(1.0, x)


def zero(x):
    return D.mk(0.0, x)


FORM = {
    'AlgebraicProduct': lambda a, b, e: a * b,
    'BoundedDifference': lambda a, b, e: D.fmax(zero(a), a + b - 1.0),
    'DrasticProduct': lambda a, b, e: D.ite(D.teq(D.fmax(a, b), one(a), e), D.fmin(a, b), zero(a)),
    'EinsteinProduct': lambda a, b, e: D.div(a * b, 2.0 - (a + b - a * b)),
    'HamacherProduct': lambda a, b, e: D.ite(D.teq(a + b, zero(a), e), zero(a), D.div(a * b, a + b - a * b)),
    'Minimum': lambda a, b, e: D.fmin(a, b),
    'NilpotentMinimum': lambda a, b, e: D.ite(D.tgt(a + b, one(a), e), D.fmin(a, b), zero(a)),
    'AlgebraicSum': lambda a, b, e: a + b - a * b,
    'BoundedSum': lambda a, b, e: D.fmin(one(a), a + b),
    'DrasticSum': lambda a, b, e: D.ite(D.teq(D.fmin(a, b), zero(a), e), D.fmax(a, b), one(a)),
    'EinsteinSum': lambda a, b, e: D.div(a + b, 1.0 + a * b),
    'HamacherSum': lambda a, b, e: D.ite(D.teq(a * b, one(a), e), one(a), D.div(a + b - 2.0 * a * b, 1.0 - a * b)),
    'Maximum': lambda a, b, e: D.fmax(a, b),
    'NilpotentMaximum': lambda a, b, e: D.ite(D.tlt(a + b, one(a), e), D.fmax(a, b), one(a)),
    'NormalizedSum': lambda a, b, e: D.div(a + b, D.fmax(one(a), a + b)),
    'UnboundedSum': lambda a, b, e: a + b,
}


def start(c, n, nm):
    ex, st, this, e = N.begin(c, n, None)
    vs = [FV(0, z3.Real(q)) for q in nm]
    for v in vs:
        N.assume(ex, st, And(fle(FV(0), v), fle(v, FV(0, 1))))
    N.assume(ex, st, z3.Real('eps') < z3.RealVal('1/4'))
    inputs = dict(zip(nm, vs))
    inputs['eps'] = e.f
    return ex, st, this, e, vs, inputs


def formula(c, n):
    ex, st, this, e, (a, b), inp = start(c, n, 'ab')
    c.cover(n, st.pc)
    outs = N.run_fn(c, ex, st, n + '::compute', this, [a, b])
    N.post(c, ex, outs, n + ' formula', lambda r, s: fsame(r, FORM[n](D.Sc(a), D.Sc(b), e).f), inp, extra=(n,))


def special(c, n):
    """NaN operands stay visible in the result of the lattice norms."""
    for ka, kb in ((1, 0), (0, 1), (1, 1)):
        ex, st, this, e = N.begin(c, n, None)
        outs = N.run_fn(c, ex, st, n + '::compute', this, [N.fv(ka, 'a'), N.fv(kb, 'b')])
        N.post(c, ex, outs, n + ' NaN %d%d' % (ka, kb), lambda r, s: isnan(r), {}, extra=(n,))


def laws(c, n, k):
    ex, st, this, e, (a, b), inp = start(c, n, 'ab')
    unb = n == 'UnboundedSum'
    s0 = st.copy()
    outs = N.run_fn(c, ex, st, n + '::compute', this, [a, b])
    A, B_, E = D.Sc(a), D.Sc(b), e
    top = FV(0, 2) if unb else FV(0, 1)
    N.post(c, ex, outs, n + ' range', lambda r, s: And(fle(FV(0), r), fle(r, top)), inp, extra=(n,))
    if k == 't':
        N.post(c, ex, outs, n + ' at most the smaller operand', lambda r, s: And(fle(r, a), fle(r, b)), inp, extra=(n,))
    else:
        N.post(c, ex, outs, n + ' at least the larger operand', lambda r, s: And(fle(a, r), fle(b, r)), inp, extra=(n,))
    for i, o in enumerate(outs):        # commutative
        if o.kind != 'return':
            continue
        outs2 = N.run_fn(c, ex, o.st, n + '::compute', this, [b, a])
        r1 = o.val
        N.post(c, ex, outs2, '%s commutative %d' % (n, i), lambda r, s: fsame(r, r1), inp, extra=(n,))
    # identity and annihilator (within the tolerance of the library)
    for nm_, arg, goal in (('identity', FV(0, 1) if k == 't' else FV(0, 0), lambda r: flt(fabs(fsub(r, a)), e.f) if n.startswith('Nilp') else fsame(r, a)),
                           ('annihilator', FV(0, 0) if k == 't' else FV(0, 1), lambda r: fsame(r, FV(0, 0) if k == 't' else FV(0, 1)))):
        if nm_ == 'annihilator' and unb:
            continue
        for sw in (False, True):
            s1 = s0.copy()
            if nm_ == 'identity' and n.startswith('Nilp'):
                g = lambda r: Or(fsame(r, a), fle(a, e.f), fle(fsub(FV(0, 1), e.f), a))
            elif nm_ == 'annihilator' and n == 'DrasticSum':
                g = goal
            else:
                g = goal
            outs3 = N.run_fn(c, ex, s1, n + '::compute', this, [arg, a] if sw else [a, arg])
            N.post(c, ex, outs3, '%s %s %s' % (n, nm_, sw), lambda r, s: g(r), inp, extra=(n,))


def mono(c, n):
    ex, st, this, e, (a, b, d), inp = start(c, n, 'abd')
    N.assume(ex, st, flt(a, d))
    outs = N.run_fn(c, ex, st, n + '::compute', this, [a, b])
    for i, o in enumerate(outs):
        outs2 = N.run_fn(c, ex, o.st, n + '::compute', this, [d, b])
        r1 = o.val
        N.post(c, ex, outs2, '%s monotone %d' % (n, i), lambda r, s: fle(r1, r), inp, extra=(n,))


def assoc(c, n):
    """Associativity, for the norms whose law holds exactly for the tolerant comparison."""
    ex, st, this, e, (a, b, d), inp = start(c, n, 'abd')
    o1 = [o for o in N.run_fn(c, ex, st, n + '::compute', this, [a, b])]
    k = 0
    for o in o1:
        for p in N.run_fn(c, ex, o.st, n + '::compute', this, [o.val, d]):
            for q in N.run_fn(c, ex, p.st, n + '::compute', this, [b, d]):
                outs = N.run_fn(c, ex, q.st, n + '::compute', this, [a, q.val])
                N.post(c, ex, outs, '%s associative %d' % (n, k), lambda r, s, w=p.val: fsame(r, w), inp, extra=(n,))
                k += 1


ASSOC = ['AlgebraicProduct', 'BoundedDifference', 'Minimum', 'AlgebraicSum', 'BoundedSum', 'Maximum', 'UnboundedSum', 'EinsteinProduct', 'EinsteinSum']


def groups(names, k):
    g = []
    for n in names:
        g.append((n + '::compute formula', formula, n))
        g.append((n + '::compute laws', laws, n, k))
        g.append((n + '::compute monotone', mono, n))
        if n in ASSOC:
            g.append((n + '::compute associative', assoc, n))
        if n in ('Minimum', 'Maximum'):
            g.append((n + '::compute NaN', special, n))
    return g


def search(names, k, models, seed, tier):
    bt = N.Batch(native.driver('numeric'))
    N.bind()
    memo = {}

    def q(n, a, b, eps=1e-6):
        want = [FORM[n](a, b, eps)]
        for d in (-3e-6, 3e-6):     # tolerant comparison: either side is accepted within the tolerance
            if n in ('DrasticProduct', 'DrasticSum', 'NilpotentMinimum', 'NilpotentMaximum', 'HamacherProduct', 'HamacherSum'):
                want += [FORM[n](a, b, eps * 1.001), FORM[n](a, b, eps * 0.999)]

        def judge(o):
            v = N.pf(o)
            if isinstance(v, str) or not any(N.close(v, w, 1e-8, 1e-9) for w in want):
                return '%s(%r, %r) should be %r' % (n, a, b, want[0])
        if eps != 1e-6:
            bt.add('eps %s' % native.fmt(eps), lambda o: None, None)
        bt.add('n %s %s %s' % (n, native.fmt(a), native.fmt(b)), judge, {'norm': n, 'a': a, 'b': b, 'tolerance': eps})
        if eps != 1e-6:
            bt.add('eps 1e-06', lambda o: None, None)
    for g, nme, m, extra in models:
        if m and extra and extra[0] in names and m.get('a') is not None and m.get('b') is not None:
            for a, b in ((m['a'], m['b']), (m['b'], m['a']), (m.get('d', 0.5), m['b'])):
                q(extra[0], a, b)
                if m.get('eps'):
                    q(extra[0], a, b, m['eps'])
    rng = random.Random(seed)
    for n in names:
        for i in range(41):
            for j in range(41):
                q(n, i / 40.0, j / 40.0)
        for _ in range(1500 if tier == 'quick' else 20000):
            a = rng.choice([rng.random(), rng.random() ** 4, 1 - rng.random() ** 4, 1.0, 0.0])
            b = rng.choice([rng.random(), rng.random() ** 4, 1 - a, a, 1.0, 0.0])
            q(n, a, b)
        if n in ('Minimum', 'Maximum'):
            for a, b in ((math.nan, 0.3), (0.3, math.nan), (math.nan, math.nan)):
                bt.add('n %s %s %s' % (n, native.fmt(a), native.fmt(b)), lambda o: None if o in ('nan', '-nan') else 'NaN', {'norm': n, 'a': a, 'b': b})
    return bt.run(native)
