"""P10: activation degree of antecedents."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P10'
SOURCES = ['rule/Antecedent.cpp', 'rule/Expression.cpp', 'rule/Rule.cpp', 'variable/Variable.cpp', 'variable/OutputVariable.cpp', 'variable/InputVariable.cpp',
           'term/Aggregated.cpp', 'hedge/Any.cpp', 'fuzzylite.cpp']
TRUSTED = ['terms, norms and hedges: any deterministic functions of their arguments',
           'a loaded antecedent is a finite tree of valid expressions, each proposition with a variable, a term (unless its last hedge is any) and valid hedges',
           'Aggregated::activationDegree is used through its contract (P09)']
BUDGET = 150
CONTRACTED = ['Antecedent::activationDegree']
DEG = z3.Function('childbad', I, B)
ISANY = None


def setup(c, cls):
    ex = c.executor(fork=False)
    st = X.State()
    fz.term_contracts(ex)
    fz.norm_contracts(ex)
    fz.hedge_contracts(ex)
    r = fz.obj(ex, st, 'this', 'Antecedent')
    node = fz.obj(ex, st, 'node', cls)
    root = z3.Int('root')
    st.assume(z3.And(root >= 0, root <= ex.alloc0))
    ex.hwrite(st, r, 'Antecedent', '_expression', 'std::unique_ptr<Expression>', root)
    conj, disj = z3.Int('conjunction'), z3.Int('disjunction')
    st.assume(z3.And(conj >= 0, conj <= ex.alloc0, disj >= 0, disj <= ex.alloc0))
    f = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    for q in ('Expression', 'Proposition', 'Operator', 'Antecedent', 'Rule'):
        ex.contracts[q + '::toString'] = f
    return ex, st, X.LVHeap(r, 'Antecedent'), node, root, conj, disj


def fn(c, n):
    f = [x for x in c.p.funcs.values() if x.qual == 'Antecedent::activationDegree' and len(x.params) == n]
    if len(f) != 1:
        raise Unsupported('Antecedent::activationDegree with %d parameters' % n)
    return f[0]


def check(c, ex, outs, name, bad, want):
    for i, o in enumerate(outs):
        nm = '%s#%d %s' % (name, i, o.kind)
        hy = ex.hyps(o.st)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), And(Not(bad), fsame(o.val, want)), exact=False)
        elif o.kind == 'throw':
            c.oblige(nm, ex.hyps(o.st), bad, exact=False)
        else:
            c.oblige(nm, ex.hyps(o.st), False, exact=False)


def proposition(c, kind):
    ex, st, this, node, root, conj, disj = setup(c, 'Proposition')
    var, term = fz.obj(ex, st, 'variable', kind), z3.Int('term')
    st.assume(z3.And(term >= 0, term <= ex.alloc0))
    hs, n = fz.symvec(ex, st, 'hedges', 'Hedge *')
    ex.hwrite(st, node, 'Proposition', 'variable', 'Variable *', var)
    ex.hwrite(st, node, 'Proposition', 'term', 'Term *', term)
    ex.hwrite(st, node, 'Proposition', 'hedges', 'std::vector<Hedge *>', hs)
    h = lambda k: ex.vget(hs, sub(sub(n, 1), k))        # k-th hedge from the innermost
    any_ = lambda k: ex.isa(h(k), 'Any')
    get = lambda k: ex.vget(hs, k)
    fz.nonnull(ex, get, n, reverse=True)
    st.assume(z3.Implies(n > 0, zb(And(lt(0, h(0)), le(h(0), ex.alloc0)))))
    en = z3.Bool('enabled')
    ex.hwrite(st, var, 'Variable', '_enabled', 'bool', en)
    x = FV(z3.Int('value.k'), z3.Real('value'))
    st.assume(z3.And(x.k >= 0, x.k <= 3))
    ex.hwrite(st, var, 'Variable', '_value', 'double', x)
    lastany = And(lt(0, n), any_(0))
    # without any, the term exists
    st.assume(z3.Implies(z3.Not(zb(lastany)), term > 0))
    if kind == 'OutputVariable':
        fo = fz.obj(ex, st, 'fuzzy output', 'Aggregated')
        ex.hwrite(st, var, 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>', fo)
        ex.contracts['Aggregated::activationDegree'] = lambda ex, st, this, args, f: fz.iface(ex, 'activation degree', [this.ref, ex.rv(args[0], st)], [])
        base = fz.iface(ex, 'activation degree', [fo, term], [])
    else:
        base = fz.iface(ex, 'membership', [term], [x])
    ap = lambda k, v: fz.iface(ex, 'hedge', [h(k)], [v])
    F = Fold(ex, 'hedged', [('v', 'F')], lambda: {'v': base}, lambda k, s: {'v': ap(k, s['v'])}, n=n)
    A = Fold(ex, 'hedged any', [('v', 'F')], lambda: {'v': ap(0, NANV)}, lambda k, s: {'v': ap(add(k, 1), s['v'])}, n=sub(n, 1))
    outs = ex.enter(fn(c, 3), this, [conj, disj, node], st)
    want = fite(Not(en), FV(0), fite(lastany, A.at(sub(n, 1))['v'], F.at(n)['v']))
    check(c, ex, outs, 'proposition over %s' % kind, eqv(root, 0), want)
    fz.loopnotes(c, ex)


def operator(c):
    ex, st, this, node, root, conj, disj = setup(c, 'Operator')
    left, right = z3.Int('left'), z3.Int('right')
    st.assume(z3.And(left >= 0, left <= ex.alloc0, right >= 0, right <= ex.alloc0))
    name = z3.Const('name', S)
    ex.hwrite(st, node, 'Operator', 'left', 'Expression *', left)
    ex.hwrite(st, node, 'Operator', 'right', 'Expression *', right)
    ex.hwrite(st, node, 'Operator', 'name', 'std::string', SV((name,)))

    def rec(ex, st, this, args, f):
        a = [ex.rv(x, st) for x in args]
        if len(a) != 3 or same(a[2], node):
            return NotImplemented
        # contract of the recursive call: the degree of the subtree with the same operators
        fz.may_throw(ex, st, Or(DEG(lift(a[2], I)), Not(And(eqv(a[0], conj), eqv(a[1], disj)))))
        return fz.iface(ex, 'degree', [a[2]], [])
    ex.contracts['Antecedent::activationDegree'] = rec
    outs = ex.enter(fn(c, 3), this, [conj, disj, node], st)
    isand, isor = name == strlit('and'), name == strlit('or')
    kids = Or(DEG(left), DEG(right))
    bad = Or(eqv(root, 0), eqv(left, 0), eqv(right, 0), Not(Or(isand, isor)), And(isand, eqv(conj, 0)), And(isor, Not(isand), eqv(disj, 0)), kids)
    l, r = fz.iface(ex, 'degree', [left], []), fz.iface(ex, 'degree', [right], [])
    want = fite(isand, fz.iface(ex, 'norm', [conj], [l, r]), fz.iface(ex, 'norm', [disj], [l, r]))
    check(c, ex, outs, 'operator', bad, want)


def whole(c):
    """The degree of an antecedent is that of its root expression."""
    ex, st, this, node, root, conj, disj = setup(c, 'Operator')

    def rec(ex, st, this, args, f):
        if len(args) != 3:
            return NotImplemented
        a = [ex.rv(x, st) for x in args]
        return fz.iface(ex, 'degree3', a, [])
    ex.contracts['Antecedent::activationDegree'] = rec
    outs = ex.enter(fn(c, 2), this, [conj, disj], st)
    check(c, ex, outs, 'root', False, fz.iface(ex, 'degree3', [conj, disj, root], []))


def groups(prog, tier):
    return [('proposition over an input variable', proposition, 'InputVariable'), ('proposition over an output variable', proposition, 'OutputVariable'),
            ('operator', operator), ('root', whole)]


SEARCHED = 'random rules (nested connectives, hedges, any, output variables, missing operators, disabled variables) over random variables and values'
DRIVER = 'engine'


def script(rng):
    e = G.Eng(rng, nin=(1, 3), nout=(1, 2), nrb=(1, 1), nrules=(2, 6), hedges=0.5, disabled=0.12, act=False, depth=4, outin=0.25, none=0.06, kinds=('mamdani',), anys=0.12)
    ops = list(e.o)
    pool = [rng.random() for _ in range(3)] + [1.0, 0.0]
    for _ in range(3):
        ops += e.inputs()
        for n, lo, hi, ts, k in e.out:
            for _ in range(rng.randint(0, 3)):
                ops.append(('addact', n, rng.choice(ts), rng.choice(pool), 'Minimum'))
        for b in e.rb:
            for i in range(e.nrules[b]):
                ops.append(('ruleop', b, i, 'activate'))
            ops.append(('rules', b))
        if rng.random() < 0.3:
            v = rng.choice(e.inp + e.out)[0]
            ops.append(('flag', 'enabled', v, rng.choice([0, 1])))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 1500 if tier == 'quick' else 12000)], seed)
