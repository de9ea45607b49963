"""P14: processing an engine runs the inference steps in order for every component."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P14'
SOURCES = ['Engine.cpp', 'rule/RuleBlock.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'variable/OutputVariable.cpp', 'activation/General.cpp', 'fuzzylite.cpp']
TRUSTED = ['the variables and rule blocks of an engine are valid objects',
           'Aggregated::clear, Activation::activate, OutputVariable::defuzzify, OutputVariable::clear are used through their contracts (P09, P12, P13); they change no list of the engine and no flag',
           'an error raised by a step ends the processing (this path is not modelled)', 'debugging output is off']
BUDGET = 120
CONTRACTED = ['Engine::process', 'Engine::restart', 'RuleBlock::activate']
CLEAR, ACTIVATE, DEFUZZIFY, SET = 1, 2, 3, 4


def setup(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    e = fz.obj(ex, st, 'this', 'Engine')
    iv, ni = fz.symvec(ex, st, 'inputs', 'InputVariable *')
    ov, no = fz.symvec(ex, st, 'outputs', 'OutputVariable *')
    rb, nb = fz.symvec(ex, st, 'blocks', 'RuleBlock *')
    ex.hwrite(st, e, 'Engine', '_inputVariables', 'std::vector<InputVariable *>', iv)
    ex.hwrite(st, e, 'Engine', '_outputVariables', 'std::vector<OutputVariable *>', ov)
    ex.hwrite(st, e, 'Engine', '_ruleBlocks', 'std::vector<RuleBlock *>', rb)
    get = lambda v: lambda k: ex.vget(v, k)
    I_, O_, B_ = get(iv), get(ov), get(rb)
    for g, n in ((I_, ni), (O_, no), (B_, nb)):
        fz.nonnull(ex, g, n, reverse=True)
        ex.axioms.append(n >= 0)
    log = fz.Log('steps', [('what', I), ('object', I), ('value', 'F')])
    log.start(ex, st)
    st0 = st.copy()
    fo = lambda r: ex.hread(st0, r, 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>')
    fz.nonnull(ex, lambda k: fo(O_(k)), no, reverse=True)

    def rec(what):
        def f(ex, st, this, args, f):
            log.append(st, [what, this.ref, ex.rv(args[0], st) if what == SET else FV(0)])
        return f
    return ex, st, X.LVHeap(e, 'Engine'), log, (I_, ni), (O_, no), (B_, nb), fo, rec


def phases(ex, log, steps):
    """The concatenation of loops: steps = [(name, n, item(k) -> (cond, vals))]"""
    s = log.empty(ex)
    for name, n, item in steps:
        F = Fold(ex, name, log.comps(), lambda s=s: dict(s), lambda k, v, item=item: log.push(v, *item(k)), n=n, lemmas=[lambda k, v: le(0, v[log.name + '#'])])
        s = log.get(F.at(n))
    return s


def process(c):
    ex, st, this, log, (I_, ni), (O_, no), (B_, nb), fo, rec = setup(c)
    st0 = st.copy()
    ex.contracts['Aggregated::clear'] = rec(CLEAR)
    ex.contracts['RuleBlock::activate'] = rec(ACTIVATE)
    ex.contracts['OutputVariable::defuzzify'] = rec(DEFUZZIFY)
    en = lambda r: ex.hread(st0, r, 'RuleBlock', '_enabled', 'bool')
    want = phases(ex, log, [('clear', no, lambda k: (True, [CLEAR, fo(O_(k)), FV(0)])), ('activate', nb, lambda k: (en(B_(k)), [ACTIVATE, B_(k), FV(0)])),
                            ('defuzzify', no, lambda k: (True, [DEFUZZIFY, O_(k), FV(0)]))])
    for i, o in enumerate(ex.enter(c.p.find('Engine::process'), this, [], st)):
        nm = 'process#%d %s' % (i, o.kind)
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            log.same(c, ex, o, nm, want)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def restart(c):
    ex, st, this, log, (I_, ni), (O_, no), (B_, nb), fo, rec = setup(c)
    ex.contracts['Variable::setValue'] = rec(SET)
    ex.contracts['OutputVariable::clear'] = rec(CLEAR)
    want = phases(ex, log, [('set', ni, lambda k: (True, [SET, I_(k), NANV])), ('clear', no, lambda k: (True, [CLEAR, O_(k), FV(0)]))])
    for i, o in enumerate(ex.enter(c.p.find('Engine::restart'), this, [], st)):
        nm = 'restart#%d %s' % (i, o.kind)
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            log.same(c, ex, o, nm, want)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def activate(c):
    """A rule block without activation method uses the general one."""
    ex = c.executor(fork=False)
    st = X.State()
    b = fz.obj(ex, st, 'this', 'RuleBlock')
    a = z3.Int('activation')
    st.assume(z3.And(a >= 0, a <= ex.alloc0))
    ex.hwrite(st, b, 'RuleBlock', '_activation', 'std::unique_ptr<Activation>', a)
    log = fz.Log('activations', [('method', I), ('block', I), ('general', B)])
    log.start(ex, st)

    def act(ex, st, this, args, f):
        k = ex.known.get(lift(this.ref, I).get_id())
        gen = f.cls == 'General' or k is not None and k[1] == 'General'
        log.append(st, [this.ref, ex.rv(args[0], st), Or(gen, ex.isa(this.ref, 'General'))])
    ex.contracts['Activation::activate'] = act
    ex.contracts['General::activate'] = act
    for i, o in enumerate(ex.enter(c.p.find('RuleBlock::activate'), X.LVHeap(b, 'RuleBlock'), [], st)):
        nm = 'RuleBlock::activate#%d %s' % (i, o.kind)
        c.oblige(nm, ex.hyps(o.st), And(o.kind == 'return', eqv(log.count(o.st), 1)), exact=False)
        m = z3.Select(o.st.gh['activations.method'], 0)
        g = z3.Select(o.st.gh['activations.general'], 0)
        now = ex.hread(o.st, b, 'RuleBlock', '_activation', 'std::unique_ptr<Activation>')
        c.oblige(nm + ' method', ex.hyps(o.st) + [z3.Select(o.st.gh['activations.block'], 0) != b], False, exact=False)
        c.oblige(nm + ' own', ex.hyps(o.st), And(eqv(m, now), Implies(Not(eqv(a, 0)), eqv(m, a)), Implies(eqv(a, 0), Not(eqv(m, 0)))), exact=False)
        c.oblige(nm + ' general', ex.hyps(o.st) + [a == 0], Or(g, dtype_is(ex, m, 'General')), exact=False)


def dtype_is(ex, r, cls):
    return X.dtype(lift(r, I)) == ex.tag(cls) if hasattr(X, 'dtype') else False


def groups(prog, tier):
    return [('Engine::process', process), ('Engine::restart', restart), ('RuleBlock::activate', activate)]


SEARCHED = 'random engines (several rule blocks, every activation method and defuzzifier, disabled components) processed, restarted and reconfigured in random histories'
DRIVER = 'engine'


def script(rng):
    e = G.Eng(rng, nin=(0, 3), nout=(1, 3), nrb=(0, 3), nrules=(0, 4), hedges=0.2, disabled=0.12, depth=2, outin=0.15, none=0.02, lock=0.3) if rng.random() < 0.8 else G.Eng(rng, none=0.0)
    ops = list(e.o)
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.75:
            ops += e.inputs() if rng.random() < 0.8 else []
            ops.append(('process',))
        elif r < 0.85:
            ops.append(('restart',))
            ops += [('get', v[0]) for v in e.inp]
        elif r < 0.95:
            v = rng.choice(e.inp + e.out)[0]
            ops.append(('flag', 'enabled', v, rng.choice([0, 1])))
            if e.rb:
                ops.append(('flag', 'rbenabled', rng.choice(e.rb), rng.choice([0, 1])))
        else:
            ops.append(('flag', rng.choice(['lockrange', 'lockprev']), rng.choice(e.out)[0], rng.choice([0, 1])))
        ops += e.observe()
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 12000 if tier == 'quick' else 50000)], seed)
