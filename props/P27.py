"""P27: linear terms evaluate the linear combination of the current inputs."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P27'
SOURCES = ['term/Linear.cpp', 'Engine.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'fuzzylite.cpp']
TRUSTED = ['the input variables of an engine are valid objects', 'at most one more coefficient than input variables']
BUDGET = 120
CONTRACTED = ['Linear::membership', 'Linear::set', 'Linear::setCoefficients', 'Linear::setEngine', 'Linear::updateReference', 'Linear::Linear', 'Linear::clone']


def setup(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    r = fz.obj(ex, st, 'this', 'Linear')
    co, nc = fz.symvec(ex, st, 'coefficients', 'double')
    ex.axioms.append(nc >= 0)
    return ex, st, r, co, nc


def coef(ex, v):
    def get(k):
        x = ex.vget(v, k)
        ex.ax(('ck', lift(x.k, I).get_id()), z3.And(lift(x.k, I) >= 0, lift(x.k, I) <= 3))
        return x
    return get


def membership(c):
    for engine in (False, True):
        ex, st, r, co, nc = setup(c)
        ex.hwrite(st, r, 'Linear', '_coefficients', 'std::vector<double>', co)
        C = coef(ex, co)
        x = FV(z3.Int('x.k'), z3.Real('x'))
        st.assume(z3.And(x.k >= 0, x.k <= 3))
        e = 0
        if engine:
            e = fz.obj(ex, st, 'engine', 'Engine')
            iv, ni = fz.symvec(ex, st, 'inputs', 'InputVariable *')
            ex.axioms.append(ni >= 0)
            ex.hwrite(st, e, 'Engine', '_inputVariables', 'std::vector<InputVariable *>', iv)
            V = lambda k: ex.vget(iv, k)
            fz.nonnull(ex, V, ni, reverse=True)
            st.assume(nc <= ni + 1)
        ex.hwrite(st, r, 'Linear', '_engine', 'const Engine *', e)
        st0 = st.copy()
        if engine:
            def val(k):
                y = ex.hread(st0, V(k), 'Variable', '_value', 'double')
                ex.ax(('vk', lift(y.k, I).get_id()), z3.And(lift(y.k, I) >= 0, lift(y.k, I) <= 3))
                return y
            F = Fold(ex, 'combination', [('s', 'F'), ('d', 'B')], lambda: {'s': FV(0), 'd': le(nc, 0)},
                     lambda k, s: {'s': fite(s['d'], s['s'], fadd(s['s'], fmul(C(k), val(k)))), 'd': Or(s['d'], le(nc, add(k, 1)))}, n=ni, absorb='d', lemmas=[lambda k, s: Iff(s['d'], le(nc, k))])
        for i, o in enumerate(ex.enter(c.p.find('Linear::membership'), X.LVHeap(r, 'Linear'), [x], st)):
            nm = 'membership%s#%d %s' % ('' if engine else ' without engine', i, o.kind)
            if not engine or o.kind != 'return':
                c.oblige(nm, ex.hyps(o.st), o.kind == 'throw' and not engine, exact=False)
                continue
            F.absorbed(nc)
            s = F.at(ni)['s']
            c.oblige(nm, ex.hyps(o.st), fsame(o.val, fite(lt(ni, nc), fadd(s, C(sub(nc, 1))), s)), exact=False)
        if engine:
            fz.fold_obligations(c, ex)
            fz.loopnotes(c, ex)


def same_vec(c, ex, nm, st, a, b):
    j = z3.Int('j')
    hy = ex.hyps(st)
    c.oblige(nm + ' number', hy, eqv(a.n, b.n), exact=False)
    c.oblige(nm + ' values', hy + [j >= 0, j < lift(b.n, I)], fsame(ex.vget(a, j), ex.vget(b, j)), exact=False)


def setters(c):
    """The coefficients and the engine given are kept; a clone has the same ones and is another object."""
    for m, vec, eng in (('set', 1, 1), ('setCoefficients', 1, 0), ('setEngine', 0, 1), ('updateReference', 0, 1)):
        ex, st, r, co, nc = setup(c)
        key = ('root', 'coefficients')
        st.env[key] = co
        e = z3.Int('newengine')
        old = ex.hread(st, r, 'Linear', '_coefficients', 'std::vector<double>'), ex.hread(st, r, 'Linear', '_engine', 'const Engine *')
        args = ([X.LVLocal(key, 'std::vector<double>')] if vec else []) + ([e] if eng else [])
        for i, o in enumerate(ex.enter(c.p.find('Linear::' + m), X.LVHeap(r, 'Linear'), args, st)):
            nm = '%s#%d' % (m, i)
            c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
            same_vec(c, ex, nm, o.st, ex.hread(o.st, r, 'Linear', '_coefficients', 'std::vector<double>'), co if vec else old[0])
            c.oblige(nm + ' engine', ex.hyps(o.st), eqv(ex.hread(o.st, r, 'Linear', '_engine', 'const Engine *'), e if eng else old[1]), exact=False)
    ex, st, r, co, nc = setup(c)
    ex.hwrite(st, r, 'Linear', '_coefficients', 'std::vector<double>', co)
    eng = ex.hread(st, r, 'Linear', '_engine', 'const Engine *')
    for i, o in enumerate(ex.enter(c.p.find('Linear::clone'), X.LVHeap(r, 'Linear'), [], st)):
        nm = 'clone#%d' % i
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        w = o.val
        c.oblige(nm + ' is another object', ex.hyps(o.st), And(Not(eqv(w, 0)), Not(eqv(w, r))), exact=False)
        same_vec(c, ex, nm, o.st, ex.hread(o.st, w, 'Linear', '_coefficients', 'std::vector<double>'), co)
        same_vec(c, ex, nm + ' original', o.st, ex.hread(o.st, r, 'Linear', '_coefficients', 'std::vector<double>'), co)
        c.oblige(nm + ' engine', ex.hyps(o.st), eqv(ex.hread(o.st, w, 'Linear', '_engine', 'const Engine *'), eng), exact=False)


def groups(prog, tier):
    return [('Linear::membership', membership), ('Linear setters and clone', setters)]


SEARCHED = 'random engines with up to eight input variables and coefficient lists of up to one more, values including NaN and infinities, cloned engines'
DRIVER = 'engine'


def script(rng):
    ops = [('new', '0')]
    n = rng.randint(0, 8)
    for i in range(n):
        ops.append(('iv', 'v%d' % i, -10.0, 10.0, False, rng.random() < 0.8))
    ops.append(('ov', 'out', -10.0, 10.0, False, True, math.nan, False, '-', 'WeightedAverage:Automatic'))
    ts = []
    for t in range(rng.randint(1, 3)):
        m = rng.choice([n, n + 1, n + 1, rng.randint(0, n + 1)])
        ts.append('t%d' % t)
        ops.append(('term', 'out', 'Linear', ts[-1], 1.0, [rng.choice([0.0, 1.0, G.q(rng, rng.uniform(-5, 5))]) for _ in range(m)]))
    for _ in range(rng.randint(1, 6)):
        for i in range(n):
            if rng.random() < 0.8:
                ops.append(('set', 'v%d' % i, rng.choice([rng.uniform(-12, 12), float(rng.randint(-3, 3)), 0.0] + ([math.nan, math.inf] if rng.random() < 0.05 else []))))
        ops += [('mem', 'out', t, rng.choice([0.0, 1.0, rng.uniform(-9, 9)])) for t in ts]
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 6000 if tier == 'quick' else 50000)], seed)
