"""P06: numeric helpers of Operation agree with their mathematical definitions, NaN and infinities included."""
import math, os, random
from fractions import Fraction
import z3
from fvc import dual as D, exec as X, native
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz

PROPERTY = 'P06'
SOURCES = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst.cpp')]
TRUSTED = ['fmod, floor, ceil and sqrt of <cmath>', 'no negative zero and no rounding: extended reals', 'a machine epsilon that is finite and positive']
BUDGET = 150
R2 = Fraction(1, 2)


def sc(*a):
    return D.issym(*a)


def b2(c, like):
    return D.ite(c, D.mk(1.0, like), D.mk(0.0, like))


def mn(a, b):
    return D.ite(D.or_(D.isnan(a), D.isnan(b)), D.mk(math.nan, a), D.ite(D.le(a, b), a, b))


def mx(a, b):
    return D.ite(D.or_(D.isnan(a), D.isnan(b)), D.mk(math.nan, a), D.ite(D.le(a, b), b, a))


def bound(x, lo, hi):
    return D.ite(D.gt(x, hi), hi, D.ite(D.lt(x, lo), lo, x))


def inside(x, lo, hi, geq, leq, e):
    return D.and_(D.tge(x, lo, e) if geq else D.tgt(x, lo, e), D.tle(x, hi, e) if leq else D.tlt(x, hi, e))


def scale(x, a, b, c, d):
    return c + D.div(d - c, b - a) * (x - a)


FORM = {   # name -> (arity, specification)
    'min': (2, lambda a, b, e: mn(a, b)), 'max': (2, lambda a, b, e: mx(a, b)),
    'isLt': (2, D.tlt), 'isLE': (2, D.tle), 'isEq': (2, D.teq), 'isGt': (2, D.tgt), 'isGE': (2, D.tge), 'isClose': (2, D.teq),
    'isNaN': (1, lambda a, e: D.isnan(a)), 'isInf': (1, lambda a, e: D.isinf(a)), 'isFinite': (1, lambda a, e: D.isfin(a)),
    'add': (2, lambda a, b, e: a + b), 'subtract': (2, lambda a, b, e: a - b), 'multiply': (2, lambda a, b, e: a * b), 'divide': (2, lambda a, b, e: D.div(a, b)),
    'negate': (1, lambda a, e: -a),
    'logicalAnd': (2, lambda a, b, e: b2(D.and_(D.teq(a, D.mk(1.0, a), e), D.teq(b, D.mk(1.0, b), e)), a)),
    'logicalOr': (2, lambda a, b, e: b2(D.or_(D.teq(a, D.mk(1.0, a), e), D.teq(b, D.mk(1.0, b), e)), a)),
    'logicalNot': (1, lambda a, e: b2(D.not_(D.teq(a, D.mk(1.0, a), e)), a)),
    'gt': (2, lambda a, b, e: b2(D.tgt(a, b, e), a)), 'ge': (2, lambda a, b, e: b2(D.tge(a, b, e), a)), 'eq': (2, lambda a, b, e: b2(D.teq(a, b, e), a)),
    'neq': (2, lambda a, b, e: b2(D.not_(D.teq(a, b, e)), a)), 'le': (2, lambda a, b, e: b2(D.tle(a, b, e), a)), 'lt': (2, lambda a, b, e: b2(D.tlt(a, b, e), a)),
    'modulo': (2, lambda a, b, e: D.Sc(X_fmod(a, b)) if sc(a, b) else fmod(a, b)),
    'bound': (3, lambda x, a, b, e: bound(x, a, b)),
}


def X_fmod(a, b):
    from fvc.stdlib import MATH2
    return MATH2['fmod'](D.EX, D.ST, D.lf(a), D.lf(b))


def fmod(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return math.nan


def begin(c, names):
    ex = c.executor(fork=True)
    st = X.State()
    e = N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    vs = []
    for n in names:
        k = z3.Int(n + '.k')
        st.assume(z3.And(k >= 0, k <= 3))
        vs.append(FV(k, z3.Real(n)))
    D.EX, D.ST = ex, st
    return ex, st, e, vs


def pick(c, nm):
    fs = [f for f in list(c.p.funcs.values()) if f.name == nm and f.cls == 'Operation' and f.params and c.p.type_of(f.params[0]) == 'double']
    if len(fs) != 1:
        raise Unsupported('%s: %s' % (nm, [f.ftype for f in fs]))
    return fs[0]


def scalar_fn(c, nm):
    ar, spec = FORM[nm]
    names = 'abc'[:ar]
    ex, st, e, vs = begin(c, names)
    args = list(vs)
    f = pick(c, nm)
    if len(f.params) == ar + 1:
        args.append(e.f)            # the tolerance, by default the machine epsilon
    outs = ex.enter(f, None, args, st)
    inp = dict(zip(names, vs))
    inp['eps'] = e.f
    for i, o in enumerate(outs):
        D.EX, D.ST = ex, o.st
        if o.kind != 'return':
            c.oblige('%s#%d %s' % (nm, i, o.kind), ex.hyps(o.st), False, inp, extra=(nm,))
            continue
        w = spec(*([D.Sc(v) for v in vs] + [e]))
        g = fsame(o.val, w.f) if isinstance(w, D.Sc) else Iff(o.val, w)
        c.oblige('%s#%d' % (nm, i), ex.hyps(o.st), g, inp, extra=(nm,))


def member(c):
    for geq in (False, True):
        for leq in (False, True):
            ex, st, e, vs = begin(c, 'abc')
            for i, o in enumerate(ex.enter(pick(c, 'in'), None, vs + [geq, leq], st)):
                w = inside(*([D.Sc(v) for v in vs] + [geq, leq, e]))
                inp = dict(zip('abc', vs))
                inp['eps'] = e.f
                c.oblige('in %d%d#%d' % (geq, leq, i), ex.hyps(o.st), And(o.kind == 'return', Iff(o.val, w)), inp, extra=('in', geq, leq))


def scaling(c, bounded):
    ex, st, e, vs = begin(c, 'xabcd')
    x, a, b, cc, d = vs
    for v in vs[1:]:
        st.assume(v.k == 0)
    st.assume(a.v != b.v)
    inp = dict(zip('xabcd', vs))
    f = c.p.find('Operation::scale', npar=5 if bounded is None else 6)
    for i, o in enumerate(ex.enter(f, None, vs + ([] if bounded is None else [bounded]), st)):
        D.EX, D.ST = ex, o.st
        w = scale(*[D.Sc(v) for v in vs])
        if bounded:
            w = bound(w, D.Sc(cc), D.Sc(d))
        nm = 'scale%s#%d' % ('' if bounded is None else ' bounded' if bounded else ' unbounded', i)
        ex_ = ('scale', bounded)
        c.oblige(nm, ex.hyps(o.st), And(o.kind == 'return', fsame(o.val, w.f)), inp, extra=ex_)
        hy = ex.hyps(o.st)
        c.oblige(nm + ' start', hy + [zb(fsame(x, a)), cc.v <= d.v], fsame(o.val, cc), inp, extra=ex_)
        c.oblige(nm + ' end', hy + [zb(fsame(x, b)), cc.v <= d.v], fsame(o.val, d), inp, extra=ex_)
        if bounded:
            c.oblige(nm + ' range', hy + [x.k == 0, cc.v <= d.v], And(fle(cc, o.val), fle(o.val, d)), inp, extra=ex_)


def rounding(c):
    ex, st, e, (x,) = begin(c, 'x')
    for i, o in enumerate(ex.enter(c.p.find('Operation::round'), None, [x], st)):
        r, hy = o.val, ex.hyps(o.st)
        c.oblige('round#%d outcome' % i, hy, o.kind == 'return', {'x': x}, extra=('round',))
        c.oblige('round#%d not finite' % i, hy + [zb(Not(isfin(x)))], fsame(r, x), {'x': x}, extra=('round',))
        rv, xv = lift(r.v, R), lift(x.v, R)
        ab = lambda q: z3.If(q >= 0, q, -q)
        c.oblige('round#%d integer' % i, hy + [zb(isfin(x))], And(isfin(r), rv == z3.If(xv > 0, z3.ToReal(z3.ToInt(xv + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(z3.RealVal('1/2') - xv)))), {'x': x}, extra=('round',))
        c.oblige('round#%d nearest' % i, hy + [zb(isfin(x))], And(ab(rv - xv) <= z3.RealVal('1/2'), z3.Implies(ab(rv - xv) == z3.RealVal('1/2'), ab(rv) > ab(xv))),
                 {'x': x}, extra=('round',))


def vec(c):
    ex = c.executor()
    st = X.State()
    N.get_eps(ex, st)
    n = z3.Int('n')
    st.assume(n >= 0)
    kz, vz = z3.Const('xs.k', fz.AI), z3.Const('xs.v', fz.AR)
    v = X.VecV('double', n, {('k',): kz, ('v',): vz})
    key = ('root', 'xs')
    st.env[key] = v
    ex.loop_facts = [lambda ex, s, k: z3.And(kz[k] >= 0, kz[k] <= 3)]
    ex.axioms.append(kz[0] >= 0)
    ex.axioms.append(kz[0] <= 3)
    ex.axioms.append(n >= 0)
    at = lambda k: FV(z3.Select(kz, lift(k, I)), z3.Select(vz, lift(k, I)))
    return ex, st, X.LVLocal(key, 'std::vector<double>'), n, at


def statistic(c, nm):
    """sum, mean, variance, standardDeviation with and without a given mean."""
    for given in ((False, True) if nm in ('variance', 'standardDeviation') else (False,)):
        ex, st, lv, n, at = vec(c)
        S_ = Fold(ex, 'sum', [('s', 'F')], lambda: {'s': FV(0)}, lambda k, v: {'s': fadd(v['s'], at(k))}, n=n)
        mean = lambda: fdiv(S_.at(n)['s'], from_int(n))
        args = [lv]
        if given:
            m = FV(z3.Int('m.k'), z3.Real('m'))
            st.assume(z3.And(m.k >= 0, m.k <= 3))
            args.append(m)
            mean = lambda: m
        sq = lambda d: fmul(d, d)
        Q = None
        if nm in ('variance', 'standardDeviation'):
            Q = Fold(ex, 'squares', [('q', 'F')], lambda: {'q': FV(0)}, lambda k, v: {'q': fadd(v['q'], sq(fsub(at(k), mean())))}, n=n,
                     lemmas=[lambda k, v: Not(isfin(v['q'])) if False else True])
        fs = [f for f in c.p.funcs.values() if f.name == nm and f.cls == 'Operation' and len(f.params) == len(args) and 'vector<double>' in f.ftype]
        outs = ex.enter(fs[0], None, args, st)
        for i, o in enumerate(outs):
            tag = '%s%s#%d' % (nm, ' with mean' if given else '', i)
            if o.kind != 'return':
                c.oblige(tag + ' ' + o.kind, ex.hyps(o.st), False, exact=False)
                continue
            if nm == 'sum':
                w = S_.at(n)['s']
            elif nm == 'mean':
                w = mean()
            else:
                w = fdiv(Q.at(n)['q'], from_int(sub(n, 1)))
                if nm == 'standardDeviation':
                    from fvc.stdlib import MATH1
                    w = MATH1['sqrt'](ex, o.st, w)
                w = fite(eqv(n, 0), NANV, fite(eqv(n, 1), FV(0), w))
            c.oblige(tag, ex.hyps(o.st), fsame(o.val, w), exact=False)
        fz.fold_obligations(c, ex)
        fz.loopnotes(c, ex)


def midpoints(c):
    ex = c.executor()
    st = X.State()
    n = z3.Int('resolution')
    st.assume(n >= 0)
    st.assume(n < 2 ** 31 - 1)
    ex.axioms.append(n >= 0)
    lo, hi = FV(0, z3.Real('start')), FV(0, z3.Real('end'))
    dx = fdiv(fsub(hi, lo), from_int(n))
    want = lambda k: FV(0, lo.v + (z3.ToReal(lift(k, I)) + z3.RealVal('1/2')) * (hi.v - lo.v) / z3.ToReal(n))
    val = lambda k: fadd(lo, fmul(half(k), dx))
    F = Fold(ex, 'points', [('n', 'I'), ('k', fz.AI), ('v', fz.AR)], lambda: {'n': 0, 'k': z3.K(I, z3.IntVal(0)), 'v': z3.K(I, z3.RealVal(0))},
             lambda k, s: {'n': add(s['n'], 1), 'k': z3.Store(s['k'], lift(s['n'], I), lift(val(k).k, I)), 'v': z3.Store(s['v'], lift(s['n'], I), lift(val(k).v, R))}, n=n,
             lemmas=[lambda k, s: eqv(s['n'], k), lambda k, s: point(k, s)])

    def point(k, s):
        j = z3.Int('j!p')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(k, I), n > 0), z3.And(z3.Select(s['k'], j) == lift(val(j).k, I), z3.Select(s['v'], j) == lift(val(j).v, R))))
    for i, o in enumerate(ex.enter(c.p.find('Operation::midpoints'), None, [lo, hi, n], st)):
        nm = 'midpoints#%d %s' % (i, o.kind)
        if o.kind != 'return':
            c.oblige(nm, ex.hyps(o.st), False, exact=False)
            continue
        F.at(n)
        w = ex.rv(o.val, o.st)
        j = z3.Int('j')
        c.oblige(nm + ' number', ex.hyps(o.st), eqv(w.n, n), exact=False)
        e = ex.vget(w, j)
        c.oblige(nm + ' value', ex.hyps(o.st) + [j >= 0, j < n], fsame(e, want(j)), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


half = fz.half


def groups(prog, tier):
    g = [('Operation::' + nm, scalar_fn, nm) for nm in FORM]
    g += [('Operation::in', member), ('Operation::scale', scaling, None), ('Operation::scale bounded', scaling, True), ('Operation::scale unbounded', scaling, False),
          ('Operation::round', rounding), ('Operation::midpoints', midpoints)]
    return g + [('Operation::' + nm, statistic, nm) for nm in ('sum', 'mean', 'variance', 'standardDeviation')]


CONTRACTED = ['Operation::' + nm for nm in list(FORM) + ['in', 'scale', 'round', 'midpoints', 'sum', 'mean', 'variance', 'standardDeviation']]
SEARCHED = 'solver models first, then arguments around ties, NaN, infinities and random values; vectors of up to 40 values'
CMD = {'logicalAnd': 'and', 'logicalOr': 'or', 'logicalNot': 'not'}


def rnd(x):
    if not math.isfinite(x):
        return x
    f = Fraction(x)
    return float(math.copysign(math.floor(abs(f) + R2), x))


def search(models, seed, tier, failed=()):
    bt = N.Batch(native.driver('numeric'))
    N.bind()
    EPS = [1e-6]

    def show(w):
        return float(w) if isinstance(w, bool) else w

    def q(name, args, wants, exact=False):
        def judge(o):
            v = N.pf(o)
            if isinstance(v, str) or not any(N.close(v, show(w), 1e-9, 0 if exact else 1e-9 * max([1.0] + [abs(a) for a in args if math.isfinite(a)])) for w in wants):
                return '%s(%s) should be %r' % (name, ', '.join(map(repr, args)), show(wants[0]))
        bt.add('o %s %d %s' % (CMD.get(name, name), len(args), ' '.join(map(native.fmt, args))), judge, {'operation': name, 'arguments': args, 'macheps': EPS[0]})

    def one(name, args):
        if name in ('scale', 'in'):
            return
        if name == 'round':
            if abs(args[0]) < 2 ** 50 or not math.isfinite(args[0]):
                q('round', args, [rnd(args[0])], True)
            return
        ar, spec = FORM[name]
        q(name, args, [spec(*(list(args) + [e])) for e in (EPS[0], EPS[0] * 0.9999, EPS[0] * 1.0001)], True)

    def sc_(x, a, b, c, d, bounded):
        w = scale(x, a, b, c, d)
        if bounded:
            w = bound(w, c, d)
        q('scale', [x, a, b, c, d] + ([] if bounded is None else [float(bounded)]), [w])

    def member_(x, a, b, g, l):
        q('in', [x, a, b, float(g), float(l)], [inside(x, a, b, g, l, e) for e in (EPS[0], EPS[0] * 0.9999, EPS[0] * 1.0001)], True)
    for g, nme, m, extra in models:
        if m and extra:
            if extra[0] == 'scale' and all(isinstance(m.get(k), float) for k in 'xabcd'):
                sc_(*([m[k] for k in 'xabcd'] + [extra[1]]))
            elif extra[0] == 'in' and all(isinstance(m.get(k), float) for k in 'abc'):
                member_(m['a'], m['b'], m['c'], extra[1], extra[2])
            elif extra[0] in FORM and all(isinstance(m.get(k), float) for k in 'abc'[:FORM[extra[0]][0]]):
                one(extra[0], [m[k] for k in 'abc'[:FORM[extra[0]][0]]])
            elif extra[0] == 'round' and isinstance(m.get('x'), float):
                one('round', [m['x']])
    rng = random.Random(seed)
    cnt = 1500 if tier == 'quick' else 12000
    for eps in (1e-6, 1e-3, 0.25):
        EPS = [eps]
        bt.add('eps %r' % eps, lambda o: None, {})
        base = [math.nan, math.inf, -math.inf, 0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -2.5, 1 + eps / 2, 1 - eps / 2, 1 + 2 * eps, 1 - 2 * eps, 3.0, -7.5, 1e9]

        def val():
            r = rng.random()
            if r < 0.6:
                return rng.choice(base)
            return rng.choice([rng.uniform(-3, 3), rng.uniform(-1e3, 1e3), float(rng.randint(-5, 5)), rng.randint(-9, 9) + 0.5])

        def near(x):
            return x + rng.choice([0.0, 0.5, -0.5, 2.0, -2.0]) * eps if math.isfinite(x) and rng.random() < 0.5 else val()
        for nm, (ar, spec) in FORM.items():
            for _ in range(cnt // 8):
                a = [val()]
                while len(a) < ar:
                    a.append(near(a[0]))
                if nm == 'divide' and a[1] == 0:
                    a[1] = 0.0
                one(nm, a)
        for _ in range(cnt):
            one('round', [val()])
            x = val()
            member_(x, near(x), near(x), rng.random() < 0.5, rng.random() < 0.5)
            a, b, c_, d = [rng.choice([rng.uniform(-100, 100), float(rng.randint(-4, 4))]) for _ in range(4)]
            if a == b:
                b = a + 1
            sc_(rng.choice([a, b, a + (b - a) * rng.uniform(-0.5, 1.5), math.nan]), a, b, c_, d, rng.choice([None, True, False]))
        for _ in range(cnt // 3):
            n = rng.choice([0, 1, 2, 3, rng.randint(0, 40)])
            xs = [rng.choice([rng.uniform(-10, 10), float(rng.randint(-3, 3)), 1.0]) for _ in range(n)]
            if n and rng.random() < 0.05:
                xs[rng.randrange(n)] = rng.choice([math.nan, math.inf])
            s = 0.0
            for v in xs:
                s += v
            mean = D.div(s, float(n))
            var = math.nan if n == 0 else 0.0 if n == 1 else sum((v - mean) ** 2 for v in xs) / (n - 1)
            q('sum', xs, [s])
            q('mean', xs, [mean])
            q('variance', xs, [var])
            q('sd', xs, [D.sqrt(var)])
        for _ in range(cnt // 10):
            a, b, n = rng.uniform(-100, 100), rng.uniform(-100, 100), rng.choice([0, 1, 2, 5, 7, 100])

            def judge(o, a=a, b=b, n=n):
                t = o.split()
                w = [a + (i + 0.5) * (b - a) / n for i in range(n)]
                try:
                    ok = int(t[0]) == n and len(t) == n + 1 and all(N.close(float(u), v) for u, v in zip(t[1:], w))
                except (ValueError, IndexError):
                    ok = False
                if not ok:
                    return 'midpoints(%r, %r, %d) should be %r' % (a, b, n, w)
            bt.add('mid x 3 %s %s %d' % (native.fmt(a), native.fmt(b), n), judge, {'operation': 'midpoints', 'arguments': [a, b, n]})
    return bt.run(native)
