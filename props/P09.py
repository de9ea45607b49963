"""P09: fuzzy outputs and their activated terms."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P09'
SOURCES = ['term/Aggregated.cpp', 'term/Activated.cpp', 'term/Term.cpp', 'norm/s/UnboundedSum.cpp', 'fuzzylite.cpp']
TRUSTED = ['Term::membership and the norms: any deterministic functions of their arguments',
           'the terms of an activation are valid objects and stay alive (fuzzylite keeps raw pointers)',
           'grouping: names of terms do not change while grouping']
BUDGET = 150
CONTRACTED = ['Activated::membership', 'Aggregated::membership', 'Aggregated::activationDegree', 'Aggregated::maximallyActivatedTerms',
              'Aggregated::highestActivatedTerm', 'Aggregated::grouped', 'Aggregated::groupedTerms', 'Aggregated::addTerm', 'Aggregated::clear']
VA = 'std::vector<Activated>'


def setup(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    fz.term_contracts(ex)
    fz.norm_contracts(ex)
    r = fz.obj(ex, st, 'this', 'Aggregated')
    this = X.LVHeap(r, 'Aggregated')
    v, n = fz.symvec(ex, st, 'acts', 'Activated')
    ex.hwrite(st, r, 'Aggregated', '_terms', VA, v)
    agg = z3.Int('aggregation')
    st.assume(z3.And(agg >= 0, agg <= ex.alloc0))
    ex.hwrite(st, r, 'Aggregated', '_aggregation', 'std::unique_ptr<SNorm>', agg)
    deg, term, imp = fz.elem(ex, v, 'Term', '_height'), fz.elem(ex, v, 'Activated', '_term'), fz.elem(ex, v, 'Activated', '_implication')
    return ex, st, this, v, n, agg, deg, term, imp


def act_membership(c):
    for xk in (0, 1, 2, 3):
        ex = c.executor()
        st = X.State()
        fz.term_contracts(ex)
        fz.norm_contracts(ex)
        r = fz.obj(ex, st, 'this', 'Activated')
        t, i, d = z3.Int('term'), z3.Int('implication'), FV(z3.Int('degree.k'), z3.Real('degree'))
        st.assume(z3.And(t >= 0, t <= ex.alloc0, i >= 0, i <= ex.alloc0, d.k >= 0, d.k <= 3))
        ex.hwrite(st, r, 'Activated', '_term', 'const Term *', t)
        ex.hwrite(st, r, 'Activated', '_implication', 'const TNorm *', i)
        ex.hwrite(st, r, 'Term', '_height', 'double', d)
        x = N.fv(xk, 'x')
        outs = ex.enter(c.p.find('Activated::membership'), X.LVHeap(r, 'Activated'), [x], st)
        bad = False if xk == 1 else Or(eqv(t, 0), eqv(i, 0))
        want = NANV if xk == 1 else fz.iface(ex, 'norm', [i], [fz.iface(ex, 'membership', [t], [x]), d])
        for j, o in enumerate(outs):
            c.oblige('Activated::membership x=%s#%d %s' % (N.KN[xk], j, o.kind), ex.hyps(o.st),
                     And(Not(bad), fsame(o.val, want)) if o.kind == 'return' else bad if o.kind == 'throw' else False, exact=False)


def membership(c):
    for xk in (0, 1, 2, 3):
        ex, st, this, v, n, agg, deg, term, imp = setup(c)
        x = N.fv(xk, 'x')
        # contract of Activated::membership, proved above
        BAD = lambda k: Or(eqv(term(k), 0), eqv(imp(k), 0))
        mem = lambda k: NANV if xk == 1 else fz.iface(ex, 'norm', [imp(k)], [fz.iface(ex, 'membership', [term(k)], [x]), deg(k)])
        F = Fold(ex, 'aggregate', [('mu', 'F'), ('bad', 'B')], lambda: {'mu': FV(0), 'bad': False},
                 lambda k, s: {'mu': fz.iface(ex, 'norm', [agg], [s['mu'], mem(k)]), 'bad': Or(s['bad'], BAD(k))}, n=n, absorb=None)
        outs = ex.enter(c.p.find('Aggregated::membership'), this, [x], st)
        for j, o in enumerate(outs):
            r = F.at(n)
            noagg = And(Not(eqv(n, 0)), eqv(agg, 0))
            nm = 'Aggregated::membership x=%s#%d %s' % (N.KN[xk], j, o.kind)
            if o.kind == 'return':
                c.oblige(nm, ex.hyps(o.st), fsame(o.val, NANV) if xk == 1 else And(Not(noagg), fsame(o.val, r['mu'])), exact=False)
            elif o.kind == 'throw':
                # an error only without an aggregation operator, or at an activation without term or implication
                k = z3.Int('k!w')
                some = z3.Exists([k], z3.And(k >= 0, k < n, zb(BAD(k))))
                c.oblige(nm, ex.hyps(o.st), False if xk == 1 else Or(noagg, some), exact=False)
            else:
                c.oblige(nm, ex.hyps(o.st), False, exact=False)
        fz.loopnotes(c, ex)


def activation(c):
    ex, st, this, v, n, agg, deg, term, imp = setup(c)
    t = fz.obj(ex, st, 'forTerm')
    none = eqv(agg, 0)

    def step(k, s):
        d = fite(none, fadd(s['r'], deg(k)), fz.iface(ex, 'norm', [agg], [s['r'], deg(k)]))
        return {'r': fite(eqv(term(k), t), d, s['r'])}
    F = Fold(ex, 'degree', [('r', 'F')], lambda: {'r': FV(0)}, step, n=n)
    outs = ex.enter(c.p.find('Aggregated::activationDegree'), this, [t], st)
    for j, o in enumerate(outs):
        c.oblige('activationDegree#%d %s' % (j, o.kind), ex.hyps(o.st), o.kind == 'return' and fsame(o.val, F.at(n)['r']), exact=False)
    fz.loopnotes(c, ex)


def arrays(ex, v):
    return [(p, s) for p, s in ex.leaves('Activated')]


def maximal(c):
    """The terms of maximum (positive) degree, in order."""
    ex, st, this, v, n, agg, deg, term, imp = setup(c)
    ls = arrays(ex, v)
    comp = [('m', 'F'), ('n', 'I')] + [('a%d' % i, z3.ArraySort(I, s)) for i, (p, s) in enumerate(ls)]

    def init():
        d = {'m': FV(0), 'n': 0}
        for i, (p, s) in enumerate(ls):
            d['a%d' % i] = z3.K(I, ex.default(s))
        return d

    def step(k, s):
        up = flt(s['m'], deg(k))
        eq = And(flt(FV(0), s['m']), feq(s['m'], deg(k)))
        o = {'m': fite(up, deg(k), s['m']), 'n': Ite(up, 1, Ite(eq, add(s['n'], 1), s['n']))}
        for i, (p, so) in enumerate(ls):
            x = ex.sel(v.a[p], k)
            o['a%d' % i] = Ite(up, z3.Store(z3.K(I, ex.default(so)), 0, x), Ite(eq, z3.Store(s['a%d' % i], lift(s['n'], I), x), s['a%d' % i]))
        return o
    F = Fold(ex, 'maximal', comp, init, step, n=n, lemmas=[lambda k, s: le(0, s['n'])])
    outs = ex.enter(c.p.find('Aggregated::maximallyActivatedTerms'), this, [], st)
    j = z3.Int('j')
    for q, o in enumerate(outs):
        nm = 'maximallyActivatedTerms#%d' % q
        if o.kind != 'return':
            c.oblige(nm + o.kind, ex.hyps(o.st), False, exact=False)
            continue
        r, w = F.at(n), ex.rv(o.val, o.st)
        c.oblige(nm + ' number', ex.hyps(o.st), eqv(w.n, r['n']), exact=False)
        for i, (p, s) in enumerate(ls):
            c.oblige(nm + ' elements.%s' % (p[-1],), ex.hyps(o.st) + [j >= 0, j < lift(w.n, I)], z3.Select(ex.varr(w, p, s), j) == z3.Select(r['a%d' % i], j), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def highest(c):
    """The first of the maximally activated terms, or no term with degree zero."""
    ex, st, this, v, n, agg, deg, term, imp = setup(c)
    w, m = fz.symvec(ex, st, 'maximal', 'Activated')
    ex.contracts['Aggregated::maximallyActivatedTerms'] = lambda ex, st, this, args, f: w
    outs = ex.enter(c.p.find('Aggregated::highestActivatedTerm'), this, [], st)
    for q, o in enumerate(outs):
        nm = 'highestActivatedTerm#%d' % q
        if o.kind != 'return':
            c.oblige(nm + o.kind, ex.hyps(o.st), False, exact=False)
            continue
        a = ex.rv(o.val, o.st)
        t, d = a.f[('Activated', '_term')], a.f[('Term', '_height')]
        first = ex.vget(w, 0)
        z = eqv(m, 0)
        c.oblige(nm, ex.hyps(o.st), And(eqv(t, Ite(z, 0, first.f[('Activated', '_term')])), fsame(d, fite(z, FV(0), first.f[('Term', '_height')]))), exact=False)


def grouped(c):
    """One entry per name, in order of first appearance, with the aggregated degree; the rest of the entry is that of the first occurrence."""
    ex, st, this, v, n, agg, deg, term, imp = setup(c)
    NAME = z3.Function('name', I, S)

    def getname(ex, st, this, args, f):
        return SV((NAME(lift(this.ref, I)),))
    ex.contracts['Term::getName'] = getname
    ex.contracts['Term::clone'] = lambda *a: z3.Int('clone')
    ex.contracts['SNorm::clone'] = ex.contracts['Norm::clone'] = lambda ex, st, this, args, f: z3.Int('clone of aggregation')
    iface = ex.contracts['SNorm::compute']

    def compute(ex, st, this, args, f):
        a, b = [ex.rv(x, st) for x in args]
        r = this.ref
        out = fz.iface(ex, 'norm', [r], [a, b])
        for addr, ptr in ex.tags.get('pins', {}).values():
            if ex.exact(ptr.lv) == 'UnboundedSum':      # its contract is proved in P04
                out = fite(eqv(r, addr), fadd(a, b), fite(Not(eqv(r, agg)), out, fz.iface(ex, 'norm', [agg], [a, b])))
        return out
    compute.always = True
    ex.contracts['SNorm::compute'] = ex.contracts['Norm::compute'] = compute
    fz.nonnull(ex, term, n)
    ls = arrays(ex, v)
    AS = lambda s: z3.ArraySort(S, s)
    KS = lambda s: z3.K(S, ex.default(s))
    dk = next(i for i, (p, s) in enumerate(ls) if p == (('Term', '_height'), 'k'))
    dv = next(i for i, (p, s) in enumerate(ls) if p == (('Term', '_height'), 'v'))
    none = eqv(agg, 0)

    def combine(a, b):
        return fite(none, fadd(a, b), fz.iface(ex, 'norm', [agg], [a, b]))
    comp = [('dom', AS(B))] + [('m%d' % i, AS(s)) for i, (p, s) in enumerate(ls)]

    def init():
        d = {'dom': z3.K(S, z3.BoolVal(False))}
        for i, (p, s) in enumerate(ls):
            d['m%d' % i] = KS(s)
        return d

    def step(k, s):
        key = NAME(lift(term(k), I))
        has = z3.Select(s['dom'], key)
        o = {'dom': z3.Store(s['dom'], key, z3.BoolVal(True))}
        old = FV(z3.Select(s['m%d' % dk], key), z3.Select(s['m%d' % dv], key))
        ex.ax(('gk', old.k.get_id()), z3.And(old.k >= 0, old.k <= 3))
        new = combine(old, deg(k))
        for i, (p, so) in enumerate(ls):
            x = lift(ex.sel(v.a[p], k), so)
            y = lift(new.k, I) if i == dk else lift(new.v, R) if i == dv else z3.Select(s['m%d' % i], key)
            o['m%d' % i] = z3.Store(s['m%d' % i], key, Ite(has, y, x, so))
        return o
    F1 = Fold(ex, 'groups', comp, init, step, n=n)
    G1 = F1.at(n)
    comp2 = [('dom', AS(B)), ('n', 'I')] + [('a%d' % i, z3.ArraySort(I, s)) for i, (p, s) in enumerate(ls)]
    def init2():
        d = {'dom': G1['dom'], 'n': 0}
        for i, (p, s) in enumerate(ls):
            d['a%d' % i] = z3.K(I, ex.default(s))
        return d

    def step2(k, s):
        key = NAME(lift(term(k), I))
        has = z3.Select(s['dom'], key)
        o = {'dom': z3.Store(s['dom'], key, z3.BoolVal(False)), 'n': Ite(has, add(s['n'], 1), s['n'])}
        for i, (p, so) in enumerate(ls):
            o['a%d' % i] = Ite(has, z3.Store(s['a%d' % i], lift(s['n'], I), z3.Select(G1['m%d' % i], key)), s['a%d' % i])
        return o
    F2 = Fold(ex, 'ordered', comp2, init2, step2, n=n, lemmas=[lambda k, s: le(0, s['n'])],
              absorb=lambda s: s['dom'] == z3.K(S, z3.BoolVal(False)))
    outs = ex.enter(c.p.find('Aggregated::grouped'), this, [], st)
    j = z3.Int('j')
    for q, o in enumerate(outs):
        nm = 'grouped#%d' % q
        if o.kind != 'return':
            c.oblige(nm + o.kind, ex.hyps(o.st), False, exact=False)
            continue
        a = ex.rv(o.val, o.st)
        w = a.f[('Aggregated', '_terms')]
        r = F2.at(n)
        c.oblige(nm + ' number', ex.hyps(o.st), eqv(w.n, r['n']), exact=False)
        for i, (p, s) in enumerate(ls):
            c.oblige(nm + ' elements.%s.%s' % (p[0][1], p[-1]), ex.hyps(o.st) + [j >= 0, j < lift(w.n, I)], z3.Select(ex.varr(w, p, s), j) == z3.Select(r['a%d' % i], j), exact=False)
        c.oblige(nm + ' aggregation', ex.hyps(o.st), eqv(a.f[('Aggregated', '_aggregation')], Ite(none, 0, z3.Int('clone of aggregation'))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def updates(c):
    """addTerm appends one activation; clear removes all; nothing else changes."""
    ex, st, this, v, n, agg, deg, term, imp = setup(c)
    t, i, d = fz.obj(ex, st, 't'), z3.Int('i'), N.fv(0, 'd')
    f = [x for x in c.p.funcs.values() if x.qual == 'Aggregated::addTerm' and len(x.params) == 3]
    outs = ex.enter(f[0], this, [t, d, i], st.copy())
    j = z3.Int('j')
    for q, o in enumerate(outs):
        w = ex.hread(o.st, this.ref, 'Aggregated', '_terms', VA)
        last = ex.vget(w, n)
        c.oblige('addTerm#%d size' % q, ex.hyps(o.st), o.kind == 'return' and eqv(w.n, add(n, 1)), exact=False)
        c.oblige('addTerm#%d last' % q, ex.hyps(o.st), And(eqv(last.f[('Activated', '_term')], t), eqv(last.f[('Activated', '_implication')], i), fsame(last.f[('Term', '_height')], d)), exact=False)
        old, new = ex.vget(v, j), ex.vget(w, j)
        c.oblige('addTerm#%d others' % q, ex.hyps(o.st) + [j >= 0, j < n], And(eqv(old.f[('Activated', '_term')], new.f[('Activated', '_term')]), fsame(old.f[('Term', '_height')], new.f[('Term', '_height')]),
                 eqv(old.f[('Activated', '_implication')], new.f[('Activated', '_implication')])), exact=False)
        c.oblige('addTerm#%d aggregation' % q, ex.hyps(o.st), eqv(ex.hread(o.st, this.ref, 'Aggregated', '_aggregation', 'std::unique_ptr<SNorm>'), agg), exact=False)
    outs = ex.enter(c.p.find('Aggregated::clear'), this, [], st.copy())
    for q, o in enumerate(outs):
        w = ex.hread(o.st, this.ref, 'Aggregated', '_terms', VA)
        c.oblige('clear#%d' % q, ex.hyps(o.st), And(o.kind == 'return', eqv(w.n, 0), eqv(ex.hread(o.st, this.ref, 'Aggregated', '_aggregation', 'std::unique_ptr<SNorm>'), agg)), exact=False)


def groups(prog, tier):
    return [('Activated::membership', act_membership), ('Aggregated::membership', membership), ('Aggregated::activationDegree', activation),
            ('Aggregated::maximallyActivatedTerms', maximal), ('Aggregated::highestActivatedTerm', highest), ('Aggregated::grouped', grouped),
            ('Aggregated::addTerm, clear', updates)]


SEARCHED = 'random sequences of activations (repeated terms, equal degrees, missing operators), all queries after each'
DRIVER = 'engine'


def script(rng):
    lo, hi = G.rng_range(rng)
    ops = [('new', '0'), ('ov', 'o', lo, hi, False, True, math.nan, False, G.snorm(rng, 0.15), 'Centroid:10')]
    n = rng.randint(1, 5)
    for i in range(n):
        ops.append(G.term(rng, 'o', 't%d' % i, lo, hi, G.SHAPES + ['Discrete']))
    pool = [rng.random() for _ in range(3)] + [1.0, 0.0, 0.5]
    pool += [pool[0] + 3e-7, pool[1] - 2e-8, 0.5 - 4e-7] if rng.random() < 0.3 else []      # almost the same degree
    for _ in range(rng.randint(1, 8)):
        for _ in range(rng.randint(1, 3)):
            ops.append(('addact', 'o', 't%d' % rng.randrange(n), rng.choice(pool + [rng.random(), math.nan if rng.random() < 0.1 else 0.25]), G.tnorm(rng, 0.04)))
        if rng.random() < 0.15:
            ops.append(('aggregation', 'o', G.snorm(rng, 0.15)))
        ops += [('fuzzy', 'o'), ('grouped', 'o'), ('maximal', 'o'), ('highest', 'o'), ('agginfo', 'o')]
        ops += [('actdeg', 'o', 't%d' % i) for i in range(n)]
        ops += [('aggmem', 'o', rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), math.nan, math.inf])) for _ in range(3)]
        if rng.random() < 0.1:
            ops += [('clearact', 'o'), ('fuzzy', 'o'), ('highest', 'o'), ('aggmem', 'o', lo)]
        if rng.random() < 0.1:
            ops += [('flag', rng.choice(['min', 'max']), 'o', rng.uniform(lo, hi)), ('agginfo', 'o')]
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 2500 if tier == 'quick' else 20000)], seed)
