"""P15: variables respect their range and find their most activated term."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G, P13

PROPERTY = 'P15'
SOURCES = ['variable/Variable.cpp', 'variable/InputVariable.cpp', 'term/Aggregated.cpp', 'term/Activated.cpp', 'fuzzylite.cpp']
TRUSTED = ['terms: any deterministic functions of their arguments, which may raise an error', 'the terms of a variable are valid objects']
BUDGET = 150
CONTRACTED = ['Variable::setValue', 'Variable::setMinimum', 'Variable::setMaximum', 'Variable::setRange', 'Variable::range', 'Variable::setEnabled',
              'Variable::setLockValueInRange', 'Variable::activations', 'Variable::maxActivations', 'Variable::highestMembership', 'Aggregated::maximallyActivatedTerms']
VA = 'std::vector<Activated>'
BADM = z3.Function('membership fails', I, I, R, B)


def setters(c):
    P13.setvalue(c)
    x = FV(z3.Int('x.k'), z3.Real('x'))
    y = FV(z3.Int('y.k'), z3.Real('y'))
    b = z3.Bool('x')
    for m, args, want in (('setMinimum', [x], {'_minimum': x}), ('setMaximum', [x], {'_maximum': x}), ('setRange', [x, y], {'_minimum': x, '_maximum': y}),
                          ('setEnabled', [b], {'_enabled': b}), ('setLockValueInRange', [b], {'_lockValueInRange': b})):
        ex, st, this, r, s = P13.given(c, 'Variable')
        ex.known[r.get_id()] = (r, 'InputVariable')
        st.assume(z3.And(x.k >= 0, x.k <= 3, y.k >= 0, y.k <= 3))
        for i, o in enumerate(ex.enter(c.p.find('Variable::' + m), X.LVHeap(r, 'Variable'), args, st)):
            c.oblige('%s#%d' % (m, i), ex.hyps(o.st), o.kind == 'return', exact=False)
            P13.state(c, ex, o, r, s, '%s#%d' % (m, i), **want)
    for m, f in (('getValue', '_value'), ('getMinimum', '_minimum'), ('getMaximum', '_maximum'), ('isEnabled', '_enabled'), ('isLockValueInRange', '_lockValueInRange'), ('range', None)):
        ex, st, this, r, s = P13.given(c, 'Variable')
        w = s[f] if f else fsub(s['_maximum'], s['_minimum'])
        for i, o in enumerate(ex.enter(c.p.find('Variable::' + m), X.LVHeap(r, 'Variable'), [], st)):
            c.oblige('%s#%d' % (m, i), ex.hyps(o.st), And(o.kind == 'return', fsame(o.val, w) if isinstance(w, FV) else Iff(o.val, w)), exact=False)


def variable(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    fz.norm_contracts(ex)
    r = fz.obj(ex, st, 'this', 'Variable')
    v, n = fz.symvec(ex, st, 'terms', 'Term *')
    ex.hwrite(st, r, 'Variable', '_terms', 'std::vector<Term *>', v)
    term = lambda k: ex.vget(v, k)
    fz.nonnull(ex, term, n, reverse=True)
    x = FV(z3.Int('x.k'), z3.Real('x'))
    st.assume(z3.And(x.k >= 0, x.k <= 3))
    f = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    f.always = True
    ex.contracts['Term::toString'] = f
    return ex, st, X.LVHeap(r, 'Variable'), v, n, term, x


def activations(c):
    ex, st, this, v, n, term, x = variable(c)
    bad = lambda t: BADM(lift(t, I), lift(x.k, I), lift(x.v, R))

    def mem(ex, st, this, args, f):
        y = ex.rv(args[0], st)
        fz.may_throw(ex, st, BADM(lift(this.ref, I), lift(y.k, I), lift(y.v, R)))
        return fz.iface(ex, 'membership', [this.ref], [y])
    mem.always = True
    ex.contracts['Term::membership'] = mem
    deg = lambda k: fite(bad(term(k)), NANV, fz.iface(ex, 'membership', [term(k)], [x]))
    AI_ = z3.ArraySort(I, I)
    comp = [('n', 'I'), ('term', AI_), ('imp', AI_), ('dk', AI_), ('dv', z3.ArraySort(I, R))]
    # the real part stored with a value that is not finite is irrelevant

    def step(k, s):
        d = deg(k)
        st_ = lambda a, x: z3.Store(s[a], lift(s['n'], I), x)
        return {'n': add(s['n'], 1), 'term': st_('term', lift(term(k), I)), 'imp': st_('imp', z3.IntVal(0)), 'dk': st_('dk', lift(d.k, I)), 'dv': st_('dv', lift(d.v, R))}
    F = Fold(ex, 'activations', comp, lambda: {'n': 0, 'term': z3.K(I, z3.IntVal(0)), 'imp': z3.K(I, z3.IntVal(0)), 'dk': z3.K(I, z3.IntVal(0)), 'dv': z3.K(I, z3.RealVal(0))}, step, n=n,
             lemmas=[lambda k, s: eqv(s['n'], k), lambda k, s: point(k, s)])

    def point(k, s):
        j = z3.Int('j!p')
        d = deg(j)
        g = lambda a: z3.Select(s[a], j)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(k, I)), z3.And(g('term') == lift(term(j), I), g('imp') == 0, zb(fsame(FV(g('dk'), g('dv')), d)))))
    ex.axioms.append(n >= 0)
    outs = ex.enter(c.p.find('Variable::activations'), this, [x], st)
    j = z3.Int('j')
    for i, o in enumerate(outs):
        nm = 'activations#%d %s' % (i, o.kind)
        if o.kind != 'return':
            c.oblige(nm, ex.hyps(o.st), False, exact=False)
            continue
        w = ex.rv(o.val, o.st)
        F.at(n)
        e = ex.vget(w, j)
        c.oblige(nm + ' number', ex.hyps(o.st), eqv(w.n, n), exact=False)
        hy = ex.hyps(o.st) + [j >= 0, j < n]
        c.oblige(nm + ' term', hy, eqv(e.f[('Activated', '_term')], term(j)), exact=False)
        c.oblige(nm + ' implication', hy, eqv(e.f[('Activated', '_implication')], 0), exact=False)
        c.oblige(nm + ' degree', hy, fsame(e.f[('Term', '_height')], deg(j)), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def highest(c):
    """The first term of the largest positive degree, or none."""
    for out in (True, False):
        ex, st, this, v, n, term, x = variable(c)
        fz.term_contracts(ex)
        w, m = fz.symvec(ex, st, 'activations', 'Activated')
        ex.axioms.append(m >= 0)
        deg, tm = fz.elem(ex, w, 'Term', '_height'), fz.elem(ex, w, 'Activated', '_term')
        ex.contracts['Variable::activations'] = lambda ex, st, this, args, f: w if same(ex.rv(args[0], st).v, x.v) else NotImplemented
        ls = [(p, s) for p, s in ex.leaves('Activated')]
        comp = [('m', 'F'), ('n', 'I'), ('first', 'I')] + [('a%d' % i, z3.ArraySort(I, s)) for i, (p, s) in enumerate(ls)]
        ti = next(i for i, (p, s) in enumerate(ls) if p[-1] == ('Activated', '_term'))
        di = next(i for i, (p, s) in enumerate(ls) if p == (('Term', '_height'), 'k'))
        dv = next(i for i, (p, s) in enumerate(ls) if p == (('Term', '_height'), 'v'))

        def init():
            d = {'m': FV(0), 'n': 0, 'first': 0}
            for i, (p, s) in enumerate(ls):
                d['a%d' % i] = z3.K(I, ex.default(s))
            return d

        def step(k, s):
            up = flt(s['m'], deg(k))
            eq = And(flt(FV(0), s['m']), feq(s['m'], deg(k)))
            o = {'m': fite(up, deg(k), s['m']), 'n': Ite(up, 1, Ite(eq, add(s['n'], 1), s['n'])), 'first': Ite(up, tm(k), s['first'])}
            for i, (p, so) in enumerate(ls):
                y = ex.sel(w.a[p], k)
                o['a%d' % i] = Ite(up, z3.Store(z3.K(I, ex.default(so)), 0, y), Ite(eq, z3.Store(s['a%d' % i], lift(s['n'], I), y), s['a%d' % i]))
            return o

        def lem(k, s):
            some = lt(0, s['n'])
            return And(le(0, s['n']), Iff(some, flt(FV(0), s['m'])), Or(some, fsame(s['m'], FV(0))),
                       Implies(some, And(eqv(z3.Select(s['a%d' % ti], 0), s['first']), fsame(FV(z3.Select(s['a%d' % di], 0), z3.Select(s['a%d' % dv], 0)), s['m']))),
                       Or(some, eqv(s['first'], 0)), Not(isnan(s['m'])))
        F = Fold(ex, 'maximal', comp, init, step, n=m, lemmas=[lem])
        key = ('root', 'yhighest')
        st.env[key] = FV(z3.Int('y.k'), z3.Real('y'))
        outs = ex.enter(c.p.find('Variable::highestMembership'), this, [x, X.AddrOf(X.LVLocal(key, 'double')) if out else 0], st)
        for i, o in enumerate(outs):
            nm = 'highestMembership%s#%d %s' % ('' if out else ' without degree', i, o.kind)
            if o.kind != 'return':
                c.oblige(nm, ex.hyps(o.st), False, exact=False)
                continue
            r = F.at(m)
            c.oblige(nm + ' term', ex.hyps(o.st), eqv(o.val, r['first']), exact=False)
            if out:
                c.oblige(nm + ' degree', ex.hyps(o.st), fsame(o.st.env[key], fite(lt(0, r['n']), r['m'], NANV)), exact=False)
        fz.fold_obligations(c, ex)
        fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('Variable setters and getters', setters), ('Variable::activations', activations), ('Variable::highestMembership', highest)]


SEARCHED = 'random variables with up to eight terms: values, ranges, range locking, memberships of every term, the most activated term, and the fuzzified text'
DRIVER = 'engine'


def script(rng):
    ops = [('new', '0')]
    vs = []
    for i in range(rng.randint(1, 2)):
        lo, hi = G.rng_range(rng)
        n = 'v%d' % i
        ops.append(('iv', n, lo, hi, rng.random() < 0.5, rng.random() < 0.9) if i == 0 else ('ov', n, lo, hi, rng.random() < 0.5, True, math.nan, False, 'Maximum', 'Centroid:10'))
        ts = []
        for j in range(rng.randint(0, 8)):
            ts.append('t%d' % j)
            if ts[1:] and rng.random() < 0.15:      # the same shape again: a tie
                t = list(ops[-1])
                t[3] = 't%d' % j
                ops.append(tuple(t))
            else:
                ops.append(G.term(rng, n, 't%d' % j, lo, hi, G.SHAPES + ['Discrete']))
        vs.append((n, lo, hi, ts))
    for _ in range(rng.randint(3, 12)):
        n, lo, hi, ts = rng.choice(vs)
        x = rng.choice([math.nan, math.inf, -math.inf, lo, hi] + [rng.uniform(lo - 0.3 * (hi - lo), hi + 0.3 * (hi - lo)) for _ in range(6)])
        ops += [('set', n, x), ('get', n), ('hm', n, x)]
        ops += [('mem', n, t, x) for t in ts[:3]]
        if rng.random() < 0.3:
            f = rng.choice(['lockrange', 'min', 'max', 'enabled'])
            ops.append(('flag', f, n, rng.choice([0, 1]) if f in ('lockrange', 'enabled') else rng.uniform(lo, lo + 0.3 * (hi - lo)) if f == 'min' else rng.uniform(hi - 0.3 * (hi - lo), hi)))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 8000 if tier == 'quick' else 60000)], seed)
