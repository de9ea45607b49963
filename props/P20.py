"""P20: discrete terms interpolate linearly between their sorted pairs."""
import math
from fractions import Fraction
import z3
from fvc import dual as D, exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P20'
SOURCES = ['term/Discrete.cpp', 'fuzzylite.cpp']
TRUSTED = ['std::lower_bound and std::upper_bound find the partition point of a sorted range', 'pairs are finite and sorted by abscissa; at a repeated abscissa either ordinate is accepted',
           'within the machine epsilon of an abscissa the ordinate of that pair is accepted as well']
BUDGET = 150
AI, AR = fz.AI, fz.AR


def pairs(ex, st):
    v, n = fz.symvec(ex, st, 'xy', 'std::pair<double, double>')
    ex.axioms.append(n >= 0)
    x = lambda k: FV(0, lift(ex.vget(v, k).f[('pair', 'first')].v, R))
    y = lambda k: FV(0, lift(ex.vget(v, k).f[('pair', 'second')].v, R))

    def valid(k):
        e = ex.vget(v, k)
        return z3.And(lift(e.f[('pair', 'first')].k, I) == 0, lift(e.f[('pair', 'second')].k, I) == 0)

    def sorted_(a, b):
        a, b = lift(a, I), lift(b, I)
        return z3.Implies(z3.And(0 <= a, a <= b, b < n), x(a).v <= x(b).v)
    return v, n, x, y, valid, sorted_


def membership(c):
    for empty in (True, False):
        ex = c.executor(fork=True)
        st = X.State()
        e = N.get_eps(ex, st)
        st.assume(z3.Real('eps') > 0)
        r = fz.obj(ex, st, 'this', 'Discrete')
        v, n, x, y, valid, srt = pairs(ex, st)
        st.assume(n == 0 if empty else n > 0)
        h = FV(0, z3.Real('h'))
        st.assume(h.v > 0)
        ex.hwrite(st, r, 'Discrete', '_xy', 'std::vector<std::pair<double, double>>', v)
        ex.hwrite(st, r, 'Term', '_height', 'double', h)
        q = FV(z3.Int('x.k'), z3.Real('x'))
        st.assume(z3.And(q.k >= 0, q.k <= 3))
        i = z3.Int('i')         # the arbitrary position of the input among the pairs
        pts = [i - 1, i, z3.IntVal(0), n - 1, z3.IntVal(1), n - 2]
        ex.bound_points = pts
        j, k = z3.Int('j!v'), z3.Int('k!v')
        st.assume(z3.ForAll([j], valid(j)))
        for a in pts:
            st.assume(valid(a))
        st.assume(z3.ForAll([j, k], srt(j, k)))
        for o, out in enumerate(ex.enter(c.p.find('Discrete::membership'), X.LVHeap(r, 'Discrete'), [q], st)):
            nm = 'membership%s#%d %s' % (' of an empty term' if empty else '', o, out.kind)
            hy = ex.hyps(out.st)
            if out.kind != 'return':
                c.oblige(nm, hy, And(out.kind == 'throw', empty, Not(isnan(q))), exact=False)
                continue
            w = out.val
            D.EX, D.ST = ex, out.st
            Q, H = D.Sc(q), D.Sc(h)
            val = lambda a: H * D.Sc(y(a))
            is_ = lambda a: fsame(w, val(a).f)
            c.oblige(nm + ' NaN', hy, Iff(isnan(w), isnan(q)), exact=False)
            if empty:
                c.oblige(nm, hy, isnan(q), exact=False)
                continue
            near = lambda a: D.teq(Q, D.Sc(x(a)), e)
            low, high = lambda a: D.lt(Q, D.Sc(x(a))), lambda a: D.gt(Q, D.Sc(x(a)))
            c.oblige(nm + ' before the first pair', hy + [zb(low(0)), zb(Not(near(0)))], is_(0), exact=False)
            c.oblige(nm + ' after the last pair', hy + [zb(high(n - 1)), zb(Not(near(n - 1)))], is_(n - 1), exact=False)
            rng = [0 <= i, i < n]
            c.oblige(nm + ' at a pair', hy + rng + [zb(fsame(q, x(i))), z3.Or(i == 0, x(i - 1).v < x(i).v), z3.Or(i == n - 1, x(i).v < x(i + 1).v),
                                                    zb(Or(i == 0, Not(near(0)))), zb(Or(eqv(i, n - 1), Not(near(n - 1))))],
                     is_(i), exact=False)
            a, b = i - 1, i
            lerp = H * (D.Sc(y(a)) + D.div(D.Sc(y(b)) - D.Sc(y(a)), D.Sc(x(b)) - D.Sc(x(a))) * (Q - D.Sc(x(a))))
            c.oblige(nm + ' between two pairs', hy + [0 < i, i < n, zb(high(a)), zb(low(b)), zb(Not(near(0))), zb(Not(near(n - 1)))],
                     Or(fsame(w, lerp.f), And(near(a), is_(a)), And(near(b), is_(b))), exact=False)


def lists(c):
    """x(), y(), toVector and toPairs."""
    for m, field in (('x', 'first'), ('y', 'second')):
        ex = c.executor(fork=False)
        st = X.State()
        N.get_eps(ex, st)
        r = fz.obj(ex, st, 'this', 'Discrete')
        v, n = fz.symvec(ex, st, 'xy', 'std::pair<double, double>')
        ex.axioms.append(n >= 0)
        at = fz.elem(ex, v, 'pair', field)
        ex.hwrite(st, r, 'Discrete', '_xy', 'std::vector<std::pair<double, double>>', v)
        ex.loop_candidates = [fz.pointwise_candidates([('the coordinate', at), ('zero', lambda k: FV(0))], n)]
        outs = ex.enter(c.p.find('Discrete::' + m, npar=0), X.LVHeap(r, 'Discrete'), [], st)
        j = z3.Int('j')
        for i, o in enumerate(outs):
            nm = 'Discrete::%s#%d %s' % (m, i, o.kind)
            if o.kind != 'return':
                c.oblige(nm, ex.hyps(o.st), False, exact=False)
                continue
            w = ex.rv(o.val, o.st)
            c.oblige(nm + ' number', ex.hyps(o.st), eqv(w.n, n), exact=False)
            c.oblige(nm + ' values', ex.hyps(o.st) + [j >= 0, j < n], fsame(ex.vget(w, j), at(j)), exact=False)
        fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('Discrete::membership', membership), ('Discrete::x and Discrete::y', lists)]


CONTRACTED = ['Discrete::membership', 'Discrete::x', 'Discrete::y', 'compare']
SEARCHED = 'random sorted lists of up to 60 pairs and inputs at, near, between and outside of the abscissas, NaN and infinities'
DRIVER = 'engine'


def script(rng):
    ops = [('new', '0'), ('iv', 'v', 0.0, 1.0, False, True)]
    for t in range(rng.randint(1, 3)):
        n = rng.choice([1, 2, 3, rng.randint(1, 60)])
        xs = []
        a = rng.uniform(-5, 5) if rng.random() < 0.5 else float(rng.randint(-5, 5))
        for _ in range(n):
            xs.append(a)
            a += rng.choice([rng.uniform(0.001, 2), float(rng.randint(1, 3)), 0.25])
        ys = [rng.choice([0.0, 1.0, rng.random(), rng.uniform(-2, 3)]) for _ in xs]
        h = rng.choice([1.0, 1.0, 0.5, rng.uniform(0.1, 1)])
        p = []
        for x, y in zip(xs, ys):
            p += [x, y]
        ops.append(('term', 'v', 'Discrete', 't%d' % t, h, p))
        for _ in range(rng.randint(2, 25)):
            i = rng.randrange(n)
            q = rng.choice([math.nan, math.inf, -math.inf, xs[i], xs[i] + 5e-7, xs[i] - 5e-7, xs[i] + 2e-6, xs[i] - 2e-6, xs[0] - rng.random(), xs[-1] + rng.random()]
                           + [xs[i] + (xs[min(i + 1, n - 1)] - xs[i]) * rng.random() for _ in range(6)])
            ops.append(('mem', 'v', 't%d' % t, q))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 8000 if tier == 'quick' else 60000)], seed)
