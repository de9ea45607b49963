"""P08: weighted defuzzifiers and the inference of their type."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P08'
SOURCES = ['defuzzifier/%s.cpp' % n for n in ('WeightedAverage', 'WeightedSum', 'WeightedDefuzzifier', 'Defuzzifier')] + [
    'term/Aggregated.cpp', 'term/Activated.cpp', 'term/Term.cpp', 'fuzzylite.cpp']
TRUSTED = ['Term::membership and Term::tsukamoto of an activated term: any deterministic functions of their argument',
           'Aggregated::groupedTerms is used through its contract (P09)']
BUDGET = 150
CONTRACTED = ['WeightedAverage::takagiSugeno', 'WeightedAverage::tsukamoto', 'WeightedSum::takagiSugeno', 'WeightedSum::tsukamoto',
              'WeightedDefuzzifier::defuzzify', 'WeightedDefuzzifier::inferType']
ACT = 'std::vector<Activated>'


def setup(c, cls):
    ex = c.executor(fork=False)
    st = X.State()
    this = X.LVHeap(fz.obj(ex, st, 'this', cls), cls)
    agg = fz.obj(ex, st, 'aggregated', 'Aggregated')
    fz.term_contracts(ex)
    return ex, st, this, agg


def weighted(c, cls, kind):
    ex, st, this, agg = setup(c, cls)
    g, n = fz.symvec(ex, st, 'grouped', 'Activated')
    ex.contracts['Aggregated::groupedTerms'] = lambda ex, st, this, args, f: g
    deg, term = fz.elem(ex, g, 'Term', '_height'), fz.elem(ex, g, 'Activated', '_term')
    fz.nonnull(ex, term, n)

    def step(k, v):
        w = deg(k)
        z = fz.iface(ex, 'membership' if kind == 'takagiSugeno' else 'tsukamoto', [term(k)], [w])
        return {'s': fadd(v['s'], fmul(w, z)), 'w': fadd(v['w'], w)}
    F = Fold(ex, 'weighted', [('s', 'F'), ('w', 'F')], lambda: {'s': FV(0), 'w': FV(0)}, step, n=n)
    outs = ex.enter(c.p.find('%s::%s' % (cls, kind)), this, [agg], st)
    for i, o in enumerate(outs):
        nm = '%s::%s#%d' % (cls, kind, i)
        if o.kind != 'return':
            c.oblige(nm + ' outcome ' + o.kind, ex.hyps(o.st), False, exact=False)
            continue
        r = F.at(n)
        c.oblige(nm, ex.hyps(o.st), fsame(o.val, fdiv(r['s'], r['w']) if cls == 'WeightedAverage' else r['s']), exact=not getattr(ex, 'lost', None))
    fz.loopnotes(c, ex)


def dispatch(c, cls):
    """defuzzify: error unless the term is a fuzzy output, NaN when it is empty, otherwise the declared or the inferred type decides."""
    for t in (0, 1, 2):
        for shape in ('fuzzy output', 'other term', 'null'):
            ex, st, this, agg = setup(c, cls)
            if shape == 'other term':
                agg = fz.obj(ex, st, 'term', 'Triangle') if 'Triangle' in c.p.classes else fz.obj(ex, st, 'term', 'Activated')
            elif shape == 'null':
                agg = 0
            ex.hwrite(st, this.ref, 'WeightedDefuzzifier', '_type', 'WeightedDefuzzifier::Type', t)
            it = z3.Int('inferred')
            bad = z3.Bool('mixed')
            st.assume(z3.And(it >= 0, it <= 2))
            nterms = z3.Int('number of terms')
            st.assume(nterms >= 0)

            def infer(ex, st, this, args, f):
                fz.may_throw(ex, st, bad)
                return it
            ex.contracts['WeightedDefuzzifier::inferType'] = infer
            ex.contracts['Aggregated::isEmpty'] = lambda ex, st, this, args, f: eqv(nterms, 0)
            for m in ('takagiSugeno', 'tsukamoto'):
                for k in ('WeightedDefuzzifier', cls):
                    ex.contracts['%s::%s' % (k, m)] = lambda ex, st, this, args, f, m=m: fz.iface(ex, m, [args[0] if not isinstance(args[0], X.LV) else ex.rv(args[0], st)], [])
            outs = ex.enter(c.p.find('WeightedDefuzzifier::defuzzify'), this, [agg, N.fv(0, 'minimum'), N.fv(0, 'maximum')], st)
            eff = it if t == 0 else t
            ts, tk = fz.iface(ex, 'takagiSugeno', [agg], []), fz.iface(ex, 'tsukamoto', [agg], [])
            errs = True if shape != 'fuzzy output' else And(Not(eqv(nterms, 0)), Or(bad, eqv(it, 0))) if t == 0 else False
            for i, o in enumerate(outs):
                nm = '%s type %d on %s#%d %s' % (cls, t, shape, i, o.kind)
                if o.kind == 'throw':
                    c.oblige(nm, ex.hyps(o.st), errs, exact=False)
                elif o.kind == 'return':
                    want = fite(eqv(nterms, 0), NANV, fite(eqv(eff, 1), ts, tk))
                    c.oblige(nm, ex.hyps(o.st), And(Not(errs), fsame(o.val, want)), exact=False)
                else:
                    c.oblige(nm, ex.hyps(o.st), False, exact=False)


KIND = z3.Function('kind', I, I)


def infer_terms(c):
    """Inference over a list of terms: none gives Automatic, one common type gives it, anything else is an error."""
    ex, st, this, agg = setup(c, 'WeightedAverage')
    v, n = fz.symvec(ex, st, 'terms', 'const fuzzylite::Term *')
    key = ('root', 'terms')
    st.env[key] = v
    term = lambda k: ex.vget(v, k)
    fz.nonnull(ex, term, n)
    fs = [f for f in c.p.funcs.values() if f.qual == 'WeightedDefuzzifier::inferType']
    fv = [f for f in fs if 'vector' in f.ftype]

    def infer(ex, st, this, args, f):
        if 'vector' in f.ftype:
            return NotImplemented
        t = ex.rv(args[0], st)
        ex.ax(('kind', t.get_id()), z3.And(KIND(t) >= 0, KIND(t) <= 2))
        return KIND(t)
    ex.contracts['WeightedDefuzzifier::inferType'] = infer

    def step(k, s):
        t = KIND(lift(term(k), I))
        ex.ax(('kind', t.get_id()), z3.And(t >= 0, t <= 2))
        d = s['d']
        return {'d': z3.Store(d, t, z3.BoolVal(True)), 'n': add(s['n'], Ite(z3.Select(d, t), 0, 1))}
    bools = lambda d: add(add(Ite(z3.Select(d, 0), 1, 0), Ite(z3.Select(d, 1), 1, 0)), Ite(z3.Select(d, 2), 1, 0))
    F = Fold(ex, 'kinds', [('d', z3.ArraySort(I, B)), ('n', 'I')], lambda: {'d': z3.K(I, z3.BoolVal(False)), 'n': 0}, step, n=n,
             lemmas=[lambda k, s: eqv(s['n'], bools(s['d']))])
    outs = ex.enter(fv[0], this, [X.LVLocal(key, 'std::vector<const fuzzylite::Term *>')], st)
    r = F.at(n)
    for i, o in enumerate(outs):
        one = lambda x: And(z3.Select(r['d'], x), eqv(r['n'], 1))
        if o.kind == 'return':
            g = And(Or(eqv(r['n'], 0), eqv(r['n'], 1)), Implies(eqv(r['n'], 0), eqv(o.val, 0)), *[Implies(one(x), eqv(o.val, x)) for x in (0, 1, 2)])
        elif o.kind == 'throw':
            g = le(2, r['n'])
        else:
            g = False
        c.oblige('inferType(terms)#%d %s' % (i, o.kind), ex.hyps(o.st), g, exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


TS = ('Constant', 'Linear', 'Function')


def infer_term(c):
    """Type of one term, by class."""
    for cls in TS + ('Ramp', 'Triangle', 'Activated'):
        for mono in (True, False):
            ex, st, this, agg = setup(c, 'WeightedAverage')
            c.p.load([f for f in c.p.files if f.endswith('/%s.cpp' % cls)])
            t = fz.obj(ex, st, 'term', cls)
            ex.contracts['Term::isMonotonic'] = lambda ex, st, this, args, f: mono
            ex.contracts['%s::isMonotonic' % cls] = lambda ex, st, this, args, f: mono
            if cls == 'Activated':
                inner = z3.Int('inner')
                st.assume(z3.And(inner > 0, inner <= ex.alloc0))
                ex.hwrite(st, t, 'Activated', '_term', 'const fuzzylite::Term *', inner)
                ex.contracts['WeightedDefuzzifier::inferType'] = lambda ex, st, this, args, f: NotImplemented if same(args[0], t) else KIND(ex.rv(args[0], st))
            fs = [f for f in c.p.funcs.values() if f.qual == 'WeightedDefuzzifier::inferType' and 'Term *)' in f.ftype and 'vector' not in f.ftype]
            outs = ex.enter(fs[0], this, [t], st)
            for i, o in enumerate(outs):
                if cls == 'Activated':
                    want = o.kind == 'return' and eqv(o.val, KIND(inner))
                else:
                    want = o.kind == 'return' and eqv(o.val, 1 if cls in TS else 2 if mono else 0)
                c.oblige('inferType(%s, %s)#%d' % (cls, 'monotonic' if mono else 'not monotonic', i), ex.hyps(o.st), want, exact=cls != 'Activated')


def infer_fuzzy(c):
    """A fuzzy output stands for the list of its activated terms."""
    ex, st, this, agg = setup(c, 'WeightedAverage')
    v, n = fz.symvec(ex, st, 'acts', 'Activated')
    term = fz.elem(ex, v, 'Activated', '_term')
    ex.hwrite(st, agg, 'Aggregated', '_terms', ACT, v)
    got = []
    fs = [f for f in c.p.funcs.values() if f.qual == 'WeightedDefuzzifier::inferType' and 'Term *)' in f.ftype and 'vector' not in f.ftype]

    def infer(ex, st, this, args, f):
        if 'vector' in f.ftype:
            got.append((ex.rv(args[0], st), st.copy()))
            return z3.Int('answer')
        return NotImplemented
    ex.contracts['WeightedDefuzzifier::inferType'] = infer
    Fold(ex, 'none', [('z', 'I')], lambda: {'z': 0}, lambda k, v: {'z': 0}, n=n)
    ex.loop_candidates = [fz.int_pointwise([('activated term', term)], n)]
    outs = ex.enter(fs[0], this, [agg], st)
    for i, o in enumerate(outs):
        c.oblige('inferType(fuzzy output)#%d %s' % (i, o.kind), ex.hyps(o.st), o.kind == 'return' and eqv(o.val, z3.Int('answer')), exact=False)
    j = z3.Int('j')
    for i, (w, s) in enumerate(got):
        c.oblige('inferType(fuzzy output) size', ex.hyps(s), eqv(w.n, n), exact=False)
        c.oblige('inferType(fuzzy output) elements', ex.hyps(s) + [j >= 0, j < n], eqv(ex.vget(w, j), term(j)), exact=False)
    fz.loopnotes(c, ex)


def groups(prog, tier):
    g = []
    for cls in ('WeightedAverage', 'WeightedSum'):
        for kind in ('takagiSugeno', 'tsukamoto'):
            g.append(('%s::%s' % (cls, kind), weighted, cls, kind))
        g.append(('%s defuzzify' % cls, dispatch, cls))
    g += [('inferType of terms', infer_terms), ('inferType of a term', infer_term), ('inferType of a fuzzy output', infer_fuzzy)]
    return g


SEARCHED = 'random fuzzy outputs with repeated, mixed and missing terms, aggregation operators, weighted defuzzifiers and types'
DRIVER = 'engine'


def script(rng):
    lo, hi = G.rng_range(rng)
    ops = [('new', '0')]
    for i in range(rng.randint(0, 3)):
        ops += [('iv', 'in%d' % i, lo, hi, False, True), ('set', 'in%d' % i, rng.uniform(lo, hi))]
    ops.append(('ov', 'o', lo, hi, False, True, math.nan, False, G.snorm(rng, 0.3), 'WeightedAverage:Automatic'))
    fam = rng.random()
    shapes = (['Constant', 'Linear', 'Function'] if fam < 0.35 else G.SHAPE_MONO if fam < 0.7 else
              G.SHAPES + ['Constant', 'Linear'] if fam < 0.85 else ['Triangle', 'Bell', 'Spike', 'Rectangle'])
    n = rng.randint(1, 4)
    for i in range(n):
        # terms may share a name: activations are grouped by it
        nm = 't%d' % i
        ops.append(G.term(rng, 'o', nm, lo, hi, shapes))
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 4)):
            ops.append(('addact', 'o', 't%d' % rng.randrange(n), rng.choice([rng.random(), rng.random(), 1.0, 0.5, 0.25, 0.0]), rng.choice(['Minimum', None])))
        if rng.random() < 0.3:
            ops.append(('aggregation', 'o', G.snorm(rng, 0.3)))
        for d in rng.sample(['WeightedAverage', 'WeightedSum'], 2):
            for t in rng.sample(['Automatic', 'TakagiSugeno', 'Tsukamoto'], 2):
                ops += [('setdef', 'o', '%s:%s' % (d, t)), ('defuzz', 'o'), ('infer', 'o')]
                if rng.random() < 0.1:
                    ops.append(('defuzzterm', 'o', 't0'))
        if rng.random() < 0.3:
            ops += [('clearact', 'o'), ('defuzz', 'o'), ('infer', 'o')]
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 4000 if tier == 'quick' else 8000)], seed)
