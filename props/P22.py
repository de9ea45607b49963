"""P22: the type of an engine is inferred from its defuzzifiers, implications and terms."""
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P22'
SOURCES = ['Engine.cpp', 'variable/Variable.cpp', 'variable/OutputVariable.cpp', 'defuzzifier/WeightedDefuzzifier.cpp', 'rule/RuleBlock.cpp', 'fuzzylite.cpp']
TRUSTED = ['WeightedDefuzzifier::inferType of a term and Term::isMonotonic are used through their contracts (P08, P02)', 'the variables, terms and rule blocks of an engine are valid objects']
BUDGET = 150
CONTRACTED = ['Engine::type', 'Engine::outputVariables', 'OutputVariable::getDefuzzifier', 'RuleBlock::getImplication', 'Variable::numberOfTerms', 'Variable::getTerm', 'WeightedDefuzzifier::getType']
MAMDANI, LARSEN, TS, TSUKAMOTO, INVERSE, HYBRID, UNKNOWN = range(7)
KIND = z3.Function('kind of term', I, I)
MONO = z3.Function('monotonic term', I, B)


def type_(c, named):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    e = fz.obj(ex, st, 'this', 'Engine')
    ov, no = fz.symvec(ex, st, 'outputs', 'OutputVariable *')
    rb, nb = fz.symvec(ex, st, 'blocks', 'RuleBlock *')
    ex.axioms += [no >= 0, nb >= 0]
    ex.hwrite(st, e, 'Engine', '_outputVariables', 'std::vector<OutputVariable *>', ov)
    ex.hwrite(st, e, 'Engine', '_ruleBlocks', 'std::vector<RuleBlock *>', rb)
    O, Bk = (lambda k: ex.vget(ov, k)), (lambda k: ex.vget(rb, k))
    fz.nonnull(ex, O, no)
    fz.nonnull(ex, Bk, nb)
    st0 = st.copy()
    defuzz = lambda i: ex.hread(st0, O(i), 'OutputVariable', '_defuzzifier', 'std::unique_ptr<Defuzzifier>')
    isa = lambda r, cls: And(Not(eqv(r, 0)), ex.isa(r, cls))

    def wtype(i):
        t = ex.hread(st0, defuzz(i), 'WeightedDefuzzifier', '_type', 'WeightedDefuzzifier::Type')
        ex.ax(('wt', lift(t, I).get_id()), z3.And(lift(t, I) >= 0, lift(t, I) <= 2))
        return t
    terms = lambda i: ex.hread(st0, O(i), 'Variable', '_terms', 'std::vector<Term *>')

    def nterms(i):
        n = lift(terms(i).n, I)
        ex.ax(('nt', n.get_id()), n >= 0)
        return n
    term = lambda i, t: ex.vget(terms(i), t)

    def validterm(ex, s, k):
        # the terms of the variable of any surrounding loop are valid objects
        return z3.BoolVal(True)
    ex.contracts['WeightedDefuzzifier::inferType'] = lambda ex, st, this, args, f: kind(ex.rv(args[0], st)) if 'vector' not in f.ftype else NotImplemented

    def kind(t):
        r = KIND(lift(t, I))
        ex.ax(('kind', r.get_id()), z3.And(r >= 0, r <= 2))
        return r
    ex.contracts['Term::isMonotonic'] = lambda ex, st, this, args, f: MONO(lift(this.ref, I))
    i_, t_ = z3.Ints('i!t t!t')
    ax = z3.ForAll([i_, t_], z3.Implies(z3.And(i_ >= 0, i_ < no, t_ >= 0, t_ < lift(terms(i_).n, I)), lift(term(i_, t_), I) > 0))
    ex.axioms.append(ax)

    def allfold(name, n, cond, params=0, first=True):
        return Fold(ex, name, [('ok', 'B')], lambda *p: {'ok': first}, lambda k, s, *p: {'ok': And(s['ok'], cond(k, *p))}, n=n, nparams=params, absorb=lambda s: Not(s['ok']))
    wd = lambda i: isa(defuzz(i), 'WeightedDefuzzifier')
    integral = allfold('integral', no, lambda i: isa(defuzz(i), 'IntegralDefuzzifier'))
    prod = lambda i: isa(ex.hread(st0, Bk(i), 'RuleBlock', '_implication', 'std::unique_ptr<TNorm>'), 'AlgebraicProduct')
    product = allfold('product', nb, prod)
    larsen = allfold('larsen', nb, prod, first=lt(0, nb))       # the same, with the condition on the number of blocks folded in
    larsen.lemmas.append(lambda k, s: (product.unfold(k), Iff(s['ok'], And(lt(0, nb), product.at(k)['ok'])))[1])
    okts = lambda i: And(wd(i), Or(eqv(wtype(i), 0), eqv(wtype(i), 1)))
    oktk = lambda i: And(wd(i), Or(eqv(wtype(i), 0), eqv(wtype(i), 2)))
    # the flag enters the inner loop already conjoined with the flag of the variable
    its = Fold(ex, 'functional terms', [('ok', 'B')], lambda i: {'ok': True}, lambda t, s, i: {'ok': And(s['ok'], eqv(kind(term(i, t)), 1))}, n=nterms, nparams=1, absorb=lambda s: Not(s['ok']))
    itk = Fold(ex, 'monotonic terms', [('ok', 'B')], lambda i: {'ok': True}, lambda t, s, i: {'ok': And(s['ok'], MONO(lift(term(i, t), I)))}, n=nterms, nparams=1, absorb=lambda s: Not(s['ok']))
    ats = allfold('takagi-sugeno', no, lambda i: And(okts(i), its.at(nterms(i), i)['ok']))
    atk = allfold('tsukamoto', no, lambda i: And(oktk(i), itk.at(nterms(i), i)['ok']))
    weighted = allfold('weighted', no, wd)
    some = allfold('some', no, lambda i: Not(eqv(defuzz(i), 0)))
    args = [0, 0]
    if named:
        for q in ('name', 'reason'):
            st.env[('root', q)] = SV(('',))
            args[0 if q == 'name' else 1] = X.AddrOf(X.LVLocal(('root', q), 'std::string'))
    outs = ex.enter(c.p.find('Engine::type'), X.LVHeap(e, 'Engine'), args, st)
    at = lambda f, n: f.at(n)['ok']
    want = Ite(eqv(no, 0), UNKNOWN, Ite(at(integral, no), Ite(And(lt(0, nb), at(product, nb)), LARSEN, MAMDANI),
               Ite(at(ats, no), TS, Ite(at(atk, no), TSUKAMOTO, Ite(at(weighted, no), INVERSE, Ite(at(some, no), HYBRID, UNKNOWN))))))
    for i, o in enumerate(outs):
        c.oblige('type%s#%d %s' % (' with texts' if named else '', i, o.kind), ex.hyps(o.st), And(o.kind == 'return', eqv(o.val, want)) if o.kind == 'return' else False, exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('Engine::type', type_, False), ('Engine::type with texts', type_, True)]


SEARCHED = 'random engines with up to four output variables, all combinations of defuzzifiers, inference types, terms, rule blocks and implications'
DRIVER = 'engine'


def script(rng):
    ops = [('new', '0')]
    mood = rng.choice(['integral', 'weighted', 'mixed', 'any', 'ts', 'tk'])
    for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
        ty = rng.choice(['Automatic', 'Automatic', 'TakagiSugeno', 'Tsukamoto'])
        d = G.integral(rng) if mood == 'integral' or (mood in ('mixed', 'any') and rng.random() < 0.4) else rng.choice(['WeightedAverage:', 'WeightedSum:']) + ty
        if mood == 'ts':
            d = 'WeightedAverage:' + rng.choice(['Automatic', 'TakagiSugeno'])
        if mood == 'tk':
            d = 'WeightedAverage:' + rng.choice(['Automatic', 'Tsukamoto'])
        if mood == 'any' and rng.random() < 0.3:
            d = None
        n = 'o%d' % i
        ops.append(('ov', n, 0.0, 1.0, False, True, 0.5, False, G.snorm(rng, 0.2), d))
        shapes = ['Constant'] if mood == 'ts' or rng.random() < 0.3 else ['Ramp', 'Sigmoid', 'SShape', 'ZShape', 'Concave'] if mood == 'tk' or rng.random() < 0.4 else ['Constant', 'Triangle', 'Ramp', 'Function']
        for t in range(rng.choice([0, 1, 2, 3, 4])):
            sh = shapes if rng.random() < 0.9 else ['Triangle', 'Constant', 'Ramp', 'Function']
            ops.append(G.term(rng, n, 't%d' % t, 0.0, 1.0, sh))
    lars = rng.random() < 0.6
    for b in range(rng.choice([0, 1, 1, 2, 3])):
        imp = 'AlgebraicProduct' if lars and rng.random() < 0.85 else rng.choice([None, 'Minimum', 'AlgebraicProduct', 'EinsteinProduct'])
        ops.append(('rb', 'b%d' % b, True, None, None, imp, 'General'))
    return ops + [('type',)]


def search(models, seed, tier, failed=()):
    return ref.run([(script, 12000 if tier == 'quick' else 100000)], seed)
