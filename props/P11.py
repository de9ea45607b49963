"""P11: rules activate with their weight and fire their conclusions."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P11'
SOURCES = ['rule/Rule.cpp', 'rule/Consequent.cpp', 'rule/Expression.cpp', 'variable/Variable.cpp', 'variable/OutputVariable.cpp', 'fuzzylite.cpp']
TRUSTED = ['hedges: any deterministic functions of their arguments',
           'a loaded consequent is a list of propositions over output variables, with valid terms and hedges',
           'Antecedent::activationDegree (P10) and Aggregated::addTerm (P09) are used through their contracts; both leave the rule, its consequent and the variables as they are']
BUDGET = 150
CONTRACTED = ['Rule::activateWith', 'Rule::trigger', 'Rule::deactivate', 'Rule::isLoaded', 'Consequent::modify', 'Consequent::isLoaded']
LEAK = True    # known finding: the hedged degree carries over to the conclusions that follow


def loaded(ex, st):
    """A rule with an antecedent and a consequent that may be missing or not loaded."""
    r = fz.obj(ex, st, 'this', 'Rule')
    a, q = z3.Int('antecedent'), z3.Int('consequent')
    st.assume(z3.And(a >= 0, a <= ex.alloc0, q >= 0, q <= ex.alloc0))
    ex.hwrite(st, r, 'Rule', '_antecedent', 'std::unique_ptr<Antecedent>', a)
    ex.hwrite(st, r, 'Rule', '_consequent', 'std::unique_ptr<Consequent>', q)
    root = z3.Int('root')
    st.assume(z3.And(root >= 0, root <= ex.alloc0))
    ex.hwrite(st, a, 'Antecedent', '_expression', 'std::unique_ptr<Expression>', root)
    cs, n = fz.symvec(ex, st, 'conclusions', 'Proposition *')
    ex.hwrite(st, q, 'Consequent', '_conclusions', 'std::vector<Proposition *>', cs)
    f = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    f.always = True
    for k in ('Expression', 'Proposition', 'Operator', 'Antecedent', 'Rule', 'Consequent'):
        ex.contracts[k + '::toString'] = f
    return X.LVHeap(r, 'Rule'), r, a, q, And(Not(eqv(a, 0)), Not(eqv(root, 0)), Not(eqv(q, 0)), lt(0, n))


def fields(ex, st, r):
    rd = lambda f, t: ex.hread(st, r, 'Rule', f, t)
    return rd('_activationDegree', 'double'), rd('_triggered', 'bool'), rd('_enabled', 'bool'), rd('_weight', 'double')


def own(c, ex, o, r, nm, deg, trig, en, w):
    d, t, e, x = fields(ex, o.st, r)
    c.oblige(nm + ' fields of the rule', ex.hyps(o.st), And(fsame(d, deg), Iff(t, trig), Iff(e, en), fsame(x, w)), exact=False)


def given(ex, st, r):
    d, w = FV(z3.Int('degree.k'), z3.Real('degree')), FV(z3.Int('weight.k'), z3.Real('weight'))
    st.assume(z3.And(d.k >= 0, d.k <= 3, w.k >= 0, w.k <= 3))
    t, e = z3.Bool('triggered'), z3.Bool('enabled')
    for f, ty, v in (('_activationDegree', 'double', d), ('_weight', 'double', w), ('_triggered', 'bool', t), ('_enabled', 'bool', e)):
        ex.hwrite(st, r, 'Rule', f, ty, v)
    return d, t, e, w


def activate(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    this, r, a, q, ok = loaded(ex, st)
    d, t, e, w = given(ex, st, r)
    conj, disj = z3.Int('conjunction'), z3.Int('disjunction')
    BAD = z3.Bool('antecedent fails')

    def deg(ex, st, this, args, f):
        if len(args) != 2:
            return NotImplemented
        fz.may_throw(ex, st, BAD)
        return fz.iface(ex, 'degree', [this.ref] + [ex.rv(x, st) for x in args], [])
    ex.contracts['Antecedent::activationDegree'] = deg
    outs = ex.enter(c.p.find('Rule::activateWith'), this, [conj, disj], st)
    want = fmul(w, fz.iface(ex, 'degree', [a, conj, disj], []))
    for i, o in enumerate(outs):
        nm = 'activateWith#%d %s' % (i, o.kind)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), And(ok, Not(BAD), fsame(o.val, want)), exact=False)
            own(c, ex, o, r, nm, want, t, e, w)
        else:
            c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', Or(Not(ok), BAD)), exact=False)
            own(c, ex, o, r, nm, d, t, e, w)
    st2 = X.State(st.pc, st.env, st.heap, st.gh)
    for i, o in enumerate(ex.enter(c.p.find('Rule::deactivate'), this, [], st.copy())):
        c.oblige('deactivate#%d' % i, ex.hyps(o.st), o.kind == 'return', exact=False)
        own(c, ex, o, r, 'deactivate#%d' % i, FV(0), False, e, w)
    for i, o in enumerate(ex.enter(c.p.find('Rule::isLoaded'), this, [], st.copy())):
        c.oblige('isLoaded#%d' % i, ex.hyps(o.st), o.kind == 'return' and Iff(o.val, ok), exact=False)


def trigger(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    this, r, a, q, ok = loaded(ex, st)
    d, t, e, w = given(ex, st, r)
    imp = z3.Int('implication')
    log = fz.Log('modify', [('consequent', I), ('degree', 'F'), ('implication', I)])
    log.start(ex, st)

    def modify(ex, st, this, args, f):
        log.append(st, [this.ref] + [ex.rv(x, st) for x in args])
    ex.contracts['Consequent::modify'] = modify
    outs = ex.enter(c.p.find('Rule::trigger'), this, [imp], st)
    fire = And(e, fz.positive(d))
    for i, o in enumerate(outs):
        nm = 'trigger#%d %s' % (i, o.kind)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), ok, exact=False)
            log.same(c, ex, o, nm, log.push(log.empty(ex), fire, [q, d, imp]))
            own(c, ex, o, r, nm, d, Or(t, fire), e, w)
        else:
            c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', Not(ok), eqv(log.count(o.st), 0)), exact=False)
            own(c, ex, o, r, nm, d, t, e, w)


def modify(c):
    ex = c.executor(fork=False)
    st = X.State()
    fz.hedge_contracts(ex)
    q = fz.obj(ex, st, 'this', 'Consequent')
    cs, n = fz.symvec(ex, st, 'conclusions', 'Proposition *')
    ex.hwrite(st, q, 'Consequent', '_conclusions', 'std::vector<Proposition *>', cs)
    d, imp = FV(z3.Int('degree.k'), z3.Real('degree')), z3.Int('implication')
    st.assume(z3.And(d.k >= 0, d.k <= 3))
    log = fz.Log('added', [('to', I), ('term', I), ('degree', 'F'), ('implication', I)])
    log.start(ex, st)

    def addterm(ex, st, this, args, f):
        log.append(st, [this.ref] + [ex.rv(x, st) for x in args])
    ex.contracts['Aggregated::addTerm'] = addterm
    st0 = st.copy()
    p = lambda i: ex.vget(cs, i)
    hedges = lambda i: ex.hread(st0, p(i), 'Proposition', 'hedges', 'std::vector<Hedge *>')
    var = lambda i: ex.hread(st0, p(i), 'Proposition', 'variable', 'Variable *')
    term = lambda i: ex.hread(st0, p(i), 'Proposition', 'term', 'Term *')
    en = lambda i: ex.hread(st0, var(i), 'Variable', '_enabled', 'bool')
    fo = lambda i: ex.hread(st0, var(i), 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>')
    m = lambda i: hedges(i).n
    h = lambda i, k: ex.vget(hedges(i), sub(sub(m(i), 1), k))
    O = []
    inner = Fold(ex, 'hedged', [('v', 'F')], lambda i: {'v': O[0].at(i)['d'] if LEAK else d},
                 lambda k, s, i: {'v': fz.iface(ex, 'hedge', [h(i, k)], [s['v']])}, n=lambda i: m(i), nparams=1)

    def step(i, s):
        hd = inner.at(m(i), i)['v']
        o = {'d': fite(en(i), hd, s['d'])}
        o.update(log.push(s, en(i), [fo(i), term(i), hd, imp]))
        return o
    O.append(Fold(ex, 'fired', [('d', 'F')] + log.comps(), lambda: dict(log.empty(ex), d=d), step, n=n, lemmas=[lambda k, s: le(0, s['added#'])]))

    def facts(ex, s, k):
        k = lift(k, I)
        ok = lambda x: z3.And(lift(x, I) > 0, lift(x, I) <= ex.alloc0)
        return z3.Implies(z3.And(k >= 0, k < n), z3.And(ok(p(k)), ok(var(k)), ok(term(k)), ok(fo(k)), m(k) >= 0))
    ex.loop_facts = [facts]

    def hfacts(ex, s, k):
        if len(ex.ghostk) < 2:
            return None
        i, k = ex.ghostk[0], lift(k, I)
        ok = lambda x: z3.And(lift(x, I) > 0, lift(x, I) <= ex.alloc0)
        return z3.And(*[z3.Implies(z3.And(j >= 0, j < m(i)), ok(h(i, j))) for j in (k, k + 1, k - 1, m(i) - 1 - k, m(i) - k)])
    ex.loop_facts.append(hfacts)
    outs = ex.enter(c.p.find('Consequent::modify'), X.LVHeap(q, 'Consequent'), [d, imp], st)
    for i, o in enumerate(outs):
        nm = 'modify#%d %s' % (i, o.kind)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), lt(0, n), exact=False)
            log.same(c, ex, o, nm, log.get(O[0].at(n)))
        else:
            c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', eqv(n, 0)), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('Rule::activateWith, deactivate, isLoaded', activate), ('Rule::trigger', trigger), ('Consequent::modify', modify)]


SEARCHED = 'random rules with weights, hedged conclusions, disabled rules and variables; activate, set degrees, trigger, and inspect the fuzzy outputs'
DRIVER = 'engine'


def script(rng):
    e = G.Eng(rng, nin=(1, 3), nout=(1, 3), nrb=(1, 1), nrules=(1, 5), hedges=0.5, disabled=0.12, act=False, depth=2, outin=0.1, none=0.06, kinds=('mamdani',), concl=4)
    ops = list(e.o)
    for _ in range(4):
        ops += e.inputs()
        b = e.rb[0]
        for _ in range(rng.randint(1, 5)):
            i = rng.randrange(e.nrules[b])
            r = rng.random()
            if r < 0.45:
                ops.append(('ruleop', b, i, 'activate'))
            elif r < 0.6:
                ops.append(('ruleop', b, i, 'degree', rng.choice([0.0, 1e-7, 0.5, 1.0, rng.random(), -0.5, math.nan, 2e-6])))
            elif r < 0.7:
                ops.append(('ruleop', b, i, 'deactivate'))
            elif r < 0.8:
                ops.append(('flag', rng.choice(['ruleenabled', 'weight']), b, rng.choice([0, 1, 1, 0.5]), i))
            ops.append(('ruleop', b, i, 'trigger'))
            if rng.random() < 0.1:
                ops.append(('unload', b))
                ops += [('ruleop', b, i, 'trigger')]
            ops.append(('rules', b))
        if rng.random() < 0.3:
            v = rng.choice(e.inp + e.out)[0]
            ops.append(('flag', 'enabled', v, rng.choice([0, 1])))
        ops += [('fuzzy', o[0]) for o in e.out]
        if rng.random() < 0.2:
            ops.append(('load', b))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 10000 if tier == 'quick' else 20000)], seed)
