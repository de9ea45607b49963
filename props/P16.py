"""P16: copies of engines and components are faithful and independent."""
import random
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G, P18, P23

PROPERTY = 'P16'
SOURCES = P18.SOURCES + ['Engine.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'variable/OutputVariable.cpp', 'rule/Rule.cpp', 'rule/RuleBlock.cpp', 'term/Function.cpp', 'term/Aggregated.cpp'] + ['hedge/%s.cpp' % P23.cname('hedge', n) for n in P23.KIND['hedge'][2]]
TRUSTED = ['clone() of an owned part answers a new object with the state of the part (proved for every class here; assumed for user-defined classes)',
           'RuleBlock::loadRules and Engine::updateReferences link the rules and terms to the engine they are called with (their effects: P17, P06, P18)']
CONTRACTED = ['clone of every norm, activation method, defuzzifier, hedge and term', 'Variable, OutputVariable, Aggregated, Rule, RuleBlock, Function, Function::Node, Function::Element and Engine: copy constructor, operator=, clone, copyFrom']
BUDGET = 200
SEARCHED = 'random histories of engines, their copies, assignments and clones, each with the expected state, and copies of every part'
DRIVER = 'engine'


KIND = P23.KIND
FLAT = {k: [P23.cname(k, n) for n in v[2]] for k, v in KIND.items()}


def begin(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    return ex, st


def fields(c, cls):
    return [(k, f, t) for k, f, t, *_ in c.p.all_fields(cls)]


def same(a, b):
    if isinstance(a, FV):
        return fsame(a, b)
    if isinstance(a, SV):
        return seq(a, b)
    if isinstance(a, X.MapV):
        return z3.And(a.dom == b.dom, *[zb(a.a[p] == b.a[p]) for p in a.a])
    return eqv(a, b)


def samevec(ex, c, nm, hy, v, w, exact=False):
    """Vectors of numbers or pairs of numbers: equal lengths and elements."""
    j = z3.Int('J')
    c.oblige(nm + ' length', hy, eqv(v.n, w.n), exact=exact)
    x, y = ex.vget(v, j), ex.vget(w, j)
    rng = hy + [j >= 0, j < lift(v.n, I)]
    if isinstance(x, FV):
        c.oblige(nm, rng, fsame(x, y), exact=exact)
    elif hasattr(x, 'f'):
        for q in x.f:
            c.oblige('%s %s' % (nm, q[1]), rng, same(x.f[q], y.f[q]), exact=exact)
    else:
        c.oblige(nm, rng, same(x, y), exact=exact)


def twin(c, ex, nm, cls, st0, r, st, w, fresh=True, skip=(), exact=False):
    """w is another object of the class with the fields that r had before, and r still has them."""
    hy = ex.hyps(st)
    if fresh:
        c.oblige(nm + ' class', hy, not num(w) and ex.known_cls(w, st) == cls, exact=exact)
        c.oblige(nm + ' new', hy, lt(ex.alloc0, w), exact=exact)
    for k, f, t in fields(c, cls):
        a, b, d = ex.hread(st0, r, k, f, t), ex.hread(st, w, k, f, t), ex.hread(st, r, k, f, t)
        if isinstance(a, X.VecV):
            if f not in skip:
                samevec(ex, c, '%s %s' % (nm, f), hy, a, b, exact)
            samevec(ex, c, '%s %s of the original' % (nm, f), hy, a, d, exact)
            continue
        if f not in skip:
            c.oblige('%s %s' % (nm, f), hy, same(a, b), exact=exact)
        c.oblige('%s %s of the original' % (nm, f), hy, same(a, d), exact=exact)


def flat(c, kind):
    """clone() of a class without owned parts."""
    for cls in FLAT[kind]:
        if cls == 'Function':
            continue
        ex, st = begin(c)
        r = fz.obj(ex, st, 'this', cls)
        st0 = st.copy()
        for i, o in enumerate(ex.enter(c.p.find(cls + '::clone'), X.LVHeap(r, cls), [], st)):
            nm = '%s#%d %s' % (cls, i, o.kind)
            c.oblige(nm, ex.hyps(o.st), o.kind == 'return')
            if o.kind == 'return':
                twin(c, ex, nm, cls, st0, r, o.st, o.val, exact=True)
        c.cover(cls, ex.hyps(st0))


# ---------------------------------------------------------------- owners: variables, rule blocks, engines
CLONED = ['Term', 'TNorm', 'SNorm', 'Defuzzifier', 'Activation', 'Aggregated', 'Rule', 'Hedge', 'Function::Node', 'Function::Element']


def CL(x):
    """The object that clone() of x answers (distinct from every object that exists)."""
    return z3.Function('clone', I, I)(lift(x, I))


def cloning(ex, classes=CLONED):
    def made(ex, st, this, args, f):
        x = lift(this.ref, I)
        ex.ax(('clone', x.get_id()), CL(x) < 0)
        return CL(x)
    for k in classes:
        ex.contracts[k + '::clone'] = made
    for k in ('TNorm', 'SNorm'):
        for n in KIND[k.lower()][2]:
            ex.contracts[n + '::clone'] = made


def copyof(x):
    """A clone of what x points to, if anything."""
    return Ite(eqv(x, 0), 0, CL(x))


def valid(ex, st, x):
    st.assume(z3.And(lift(x, I) >= 0, lift(x, I) <= ex.alloc0))


def outcomes(c, ex, cls, how, r, st, old=None, by=None):
    """The object made by clone() / the copy constructor or assigned to, per outcome."""
    if how == 'clone':
        outs = ex.enter(c.p.find(cls + '::clone'), X.LVHeap(r, cls), [], st)
    else:
        w = fz.obj(ex, st, 'assigned', cls)
        st.assume(z3.Int('assigned') != r if not z3.is_expr(w) else w != r)
        if old:
            old(w)
        outs = ex.enter(c.p.find((by or cls) + '::operator=', 1), X.LVHeap(w, cls), [X.LVHeap(r, cls)], st)
    res = []
    for i, o in enumerate(outs):
        n = '%s %s#%d %s' % (cls, how, i, o.kind)
        if o.kind == 'ub' and cls == 'Engine':
            c.notes.append('not proved: that no %s happens in Engine::copyFrom (covered by the search)' % (o.val,))
            continue
        c.oblige(n, ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            res.append((n, o, o.val if how == 'clone' else w))
    return res


TERMS = 'std::vector<Term *>'


def cloned_list(ex, name, item, n):
    """Specification of a list of clones of the first n items; J stands for any index."""
    J = z3.Int('J')
    return Fold(ex, name, [('a', z3.ArraySort(I, I)), ('n', 'I')], lambda: {'a': z3.K(I, z3.IntVal(0)), 'n': 0},
                lambda k, s: {'a': z3.Store(s['a'], lift(k, I), CL(item(k))), 'n': add(k, 1)}, n=n,
                lemmas=[lambda k, s: And(eqv(s['n'], k), Implies(And(le(0, J), lt(J, k)), eqv(z3.Select(s['a'], J), CL(item(J)))))])


def recs_list(ex, name, v, n):
    """Specification of the same list of records, built one by one."""
    J = z3.Int('J')
    ls = [(p, so, ex.varr(v, p, so)) for p, so in ex.leaves(v.et)]
    c = ['a%d' % i for i in range(len(ls))]
    return Fold(ex, name, [(q, z3.ArraySort(I, so)) for q, (p, so, a) in zip(c, ls)] + [('n', 'I')],
                lambda: dict([(q, z3.K(I, ex.default(so))) for q, (p, so, a) in zip(c, ls)], n=0),
                lambda k, s: dict([(q, z3.Store(s[q], lift(k, I), z3.Select(a, lift(k, I)))) for q, (p, so, a) in zip(c, ls)], n=add(k, 1)), n=n,
                lemmas=[lambda k, s: And(eqv(s['n'], k), Implies(And(le(0, J), lt(J, k)), And(*[z3.Select(s[q], J) == z3.Select(a, J) for q, (p, so, a) in zip(c, ls)])))])


def check_list(c, ex, nm, o, w, cls, field, t, item, n):
    J = z3.Int('J')
    x = ex.hread(o.st, w, cls, field, t)
    c.oblige('%s number of %s' % (nm, field), ex.hyps(o.st), eqv(x.n, n), exact=False)
    c.oblige('%s %s' % (nm, field), ex.hyps(o.st) + [J >= 0, J < n], eqv(ex.vget(x, J), CL(item(J))), exact=False)


def old_list(ex, st, w, cls, field, t):
    """The parts that the assigned object owned before; they may be deleted."""
    x, m = fz.symvec(ex, st, 'old ' + field, targ(t))
    ex.hwrite(st, w, cls, field, t, x)
    Fold(ex, 'old ' + field, [('z', 'I')], lambda: {'z': 0}, lambda k, s: {'z': 0}, n=m)
    fz.nonnull(ex, lambda i: ex.vget(x, i), m)


def targ(t):
    return t[t.index('<') + 1:t.rindex('>')]


def owner(c, cls, how, parts=(), lists=(), skip=(), by=None, recs=(), check=None):
    """Copying an object with owned parts: plain fields are those of the original, owned parts are clones of its parts, and it is unchanged."""
    ex, st = begin(c)
    cloning(ex)
    r = fz.obj(ex, st, 'this', cls)
    types = {f: (k, t) for k, f, t in fields(c, cls)}
    src, items = {}, {}

    def part(w, f, nm):
        k, t = types[f]
        x = z3.Int(nm)
        valid(ex, st, x)
        ex.hwrite(st, w, k, f, t, x)
        return x
    for f in parts:
        src[f] = part(r, f, 'part ' + f)
    for f in lists:
        k, t = types[f]
        v, n = fz.symvec(ex, st, f, targ(t))
        ex.hwrite(st, r, k, f, t, v)
        item = lambda i, v=v: ex.vget(v, i)
        fz.nonnull(ex, item, n)
        cloned_list(ex, 'copied ' + f, item, n)
        items[f] = (item, n)

    def old(w):
        for f in parts:
            part(w, f, 'old ' + f)
        for f in lists:
            old_list(ex, st, w, types[f][0], f, types[f][1])
    for f in recs:
        k, t = types[f]
        v, n = fz.symvec(ex, st, f, targ(t))
        ex.hwrite(st, r, k, f, t, v)
        recs_list(ex, 'records ' + f, v, n)
    st0 = st.copy()
    for nm, o, w in outcomes(c, ex, cls, how, r, st, old, by):
        twin(c, ex, nm, cls, st0, r, o.st, w, how == 'clone', skip=tuple(parts) + tuple(lists) + tuple(skip))
        hy = ex.hyps(o.st)
        for f in parts:
            c.oblige('%s %s' % (nm, f), hy, eqv(ex.hread(o.st, w, types[f][0], f, types[f][1]), copyof(src[f])), exact=False)
        for f in lists:
            check_list(c, ex, nm, o, w, types[f][0], f, types[f][1], *items[f])
        if check:
            check(c, ex, nm, o, w, r, st0, types)
    if how == 'assignment':
        selfassign(c, ex, cls, st0, r, by)
    c.cover(cls, ex.hyps(st0))
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def selfassign(c, ex, cls, st0, r, by):
    """Assigning an object to itself leaves it as it is."""
    for i, o in enumerate(ex.enter(c.p.find((by or cls) + '::operator=', 1), X.LVHeap(r, cls), [X.LVHeap(r, cls)], st0.copy())):
        nm = '%s self-assignment#%d' % (cls, i)
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            twin(c, ex, nm, cls, st0, r, o.st, r, False)


def rule_parts(c, ex, nm, o, w, r, st0, types):
    """The copy of a rule has an antecedent and a consequent of its own, and is to be loaded."""
    for f, k in (('_antecedent', 'Antecedent'), ('_consequent', 'Consequent')):
        x = ex.hread(o.st, w, 'Rule', f, types[f][1])
        hy = ex.hyps(o.st)
        c.oblige('%s %s' % (nm, f), hy, And(lt(ex.alloc0, x), ex.known_cls(x, o.st) == k), exact=False)
    x = ex.hread(o.st, w, 'Rule', '_antecedent', types['_antecedent'][1])
    c.oblige(nm + ' is to be loaded', hy, eqv(ex.hread(o.st, x, 'Antecedent', '_expression', 'std::unique_ptr<Expression>'), 0), exact=False)


ACTS = 'std::vector<Activated>'


def aggregated_clone(ex):
    """Contract of Aggregated::clone (proved above): the same fields and a clone of the aggregation operator."""
    def made(ex, st, this, args, f):
        x = lift(this.ref, I)
        w = CL(x)
        ex.ax(('clone', x.get_id()), w < 0)
        for k, f, t, *_ in ex.p.all_fields('Aggregated'):
            y = ex.hread(st, x, k, f, t)
            ex.hwrite(st, w, k, f, t, copyof(y) if f == '_aggregation' else y)
        return w
    ex.contracts['Aggregated::clone'] = made


def output(c, how):
    """Copies of output variables: besides, the activated terms of the copied fuzzy output refer to the terms of the copy."""
    ex, st = begin(c)
    cloning(ex)
    aggregated_clone(ex)
    cls = 'OutputVariable'
    r = fz.obj(ex, st, 'this', cls)
    types = {f: (k, t) for k, f, t in fields(c, cls)}
    v, n = fz.symvec(ex, st, 'terms', 'Term *')
    ex.hwrite(st, r, 'Variable', '_terms', TERMS, v)
    term = lambda i: ex.vget(v, i)
    fz.nonnull(ex, term, n)
    fo, df = z3.Int('fuzzy output'), z3.Int('defuzzifier')
    st.assume(z3.And(fo > 0, fo <= ex.alloc0))
    valid(ex, st, df)
    ex.hwrite(st, r, cls, '_fuzzyOutput', types['_fuzzyOutput'][1], fo)
    ex.hwrite(st, r, cls, '_defuzzifier', types['_defuzzifier'][1], df)
    acts, m = fz.symvec(ex, st, 'acts', 'Activated')
    ex.hwrite(st, fo, 'Aggregated', '_terms', ACTS, acts)
    act = fz.elem(ex, acts, 'Activated', '_term')
    own = cloned_list(ex, 'copied terms', term, n).at(n)['a']      # the terms of the copy
    J = z3.Int('J')
    First = Fold(ex, 'first term', [('d', 'B'), ('r', 'I')], lambda i: {'d': False, 'r': act(i)},
                 lambda k, s, i: {'d': Or(s['d'], eqv(term(k), act(i))), 'r': Ite(s['d'], s['r'], Ite(eqv(term(k), act(i)), z3.Select(own, lift(k, I)), s['r']))},
                 n=n, nparams=1, absorb='d', lemmas=[lambda k, s, i: Implies(Not(s['d']), eqv(s['r'], act(i)))])
    ls = [('%d' % i, p, so, ex.varr(acts, p, so)) for i, (p, so) in enumerate(ex.leaves(acts.et))]
    ist = lambda p: p[-1] == ('Activated', '_term')

    def at(s, q, a, k):
        # the lemma below with k for J
        e = z3.Select(s[q], lift(k, I))
        ex.ax(('not yet', e.get_id()), Implies(le(0, k), e == z3.Select(a, lift(k, I))))
        return z3.Store(s[q], lift(k, I), lift(First.at(n, k)['r'], I))
    F = Fold(ex, 'own terms', [(q, z3.ArraySort(I, so)) for q, p, so, a in ls], lambda: {q: a for q, p, so, a in ls},
             lambda k, s: {q: at(s, q, a, k) if ist(p) else a for q, p, so, a in ls}, n=m,
             lemmas=[lambda k, s: And(*[And(Implies(And(le(0, J), lt(J, k)), eqv(z3.Select(s[q], J), First.at(n, J)['r'])),
                                            Implies(le(k, J), z3.Select(s[q], J) == z3.Select(a, J))) if ist(p) else s[q] == a for q, p, so, a in ls])])

    def old(w):
        old_list(ex, st, w, 'Variable', '_terms', TERMS)
        for f in ('_fuzzyOutput', '_defuzzifier'):
            x = z3.Int('old ' + f)
            valid(ex, st, x)
            ex.hwrite(st, w, cls, f, types[f][1], x)
    st0 = st.copy()
    for nm, o, w in outcomes(c, ex, cls, how, r, st, old):
        hy = ex.hyps(o.st)
        twin(c, ex, nm, cls, st0, r, o.st, w, how == 'clone', skip=('_terms', '_fuzzyOutput', '_defuzzifier'))
        check_list(c, ex, nm, o, w, 'Variable', '_terms', TERMS, term, n)
        c.oblige(nm + ' _defuzzifier', hy, eqv(ex.hread(o.st, w, cls, '_defuzzifier', types['_defuzzifier'][1]), copyof(df)), exact=False)
        x = ex.hread(o.st, w, cls, '_fuzzyOutput', types['_fuzzyOutput'][1])
        c.oblige(nm + ' _fuzzyOutput', hy, eqv(x, CL(fo)), exact=False)
        for k, f, t, *_ in c.p.all_fields('Aggregated'):
            a, b, d = ex.hread(st0, fo, k, f, t), ex.hread(o.st, CL(fo), k, f, t), ex.hread(o.st, fo, k, f, t)
            if f != '_terms':
                c.oblige('%s fuzzy output %s' % (nm, f), hy, eqv(b, copyof(a)) if f == '_aggregation' else same(a, b), exact=False)
                c.oblige('%s fuzzy output %s of the original' % (nm, f), hy, same(a, d), exact=False)
                continue
            samevec(ex, c, '%s activated terms of the original' % nm, hy, a, d)
            c.oblige(nm + ' number of activated terms', hy, eqv(b.n, m), exact=False)
            y, z = ex.vget(a, J), ex.vget(b, J)
            for q in y.f:
                c.oblige('%s activated %s' % (nm, q[1]), hy + [J >= 0, J < m], eqv(z.f[q], First.at(n, J)['r']) if q[1] == '_term' else same(y.f[q], z.f[q]), exact=False)
    if how == 'assignment':
        selfassign(c, ex, cls, st0, r, None)
    c.cover(cls, ex.hyps(st0))
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def fresh_parts(ex, cls):
    """Contract of copying a part (proved above): a new object; what the copy shares with the original is stated where it is needed."""
    def made(ex, st, lv):
        x = lift(lv.ref, I)
        ex.ax(('clone', x.get_id()), CL(x) < 0)
        return CL(x)
    ex.contracts['new ' + cls] = made
    ex.contracts[cls + '::clone'] = lambda ex, st, this, args, f: made(ex, st, this)


def engine(c, how, aspect):
    """Copies of engines: clones of the variables, of the rule blocks and their state, linked to the copy."""
    ex, st = begin(c)
    ex.own_folds = True
    cloning(ex)
    for k in ('InputVariable', 'OutputVariable', 'RuleBlock'):
        fresh_parts(ex, k)
    cls = 'Engine'
    r = fz.obj(ex, st, 'this', cls)
    lists = [('_inputVariables', 'InputVariable'), ('_outputVariables', 'OutputVariable'), ('_ruleBlocks', 'RuleBlock')]
    vt = lambda k: 'std::vector<%s *>' % k
    items = {}
    for f, k in lists:
        v, n = fz.symvec(ex, st, f, k + ' *')
        ex.hwrite(st, r, cls, f, vt(k), v)
        item = lambda i, v=v: ex.vget(v, i)
        fz.nonnull(ex, item, n)
        items[f] = (item, n, k)
    lin = {}
    for f, k in lists:
        if aspect == 'parts' or f == '_ruleBlocks':
            lin[f] = cloned_list(ex, 'copied ' + f, items[f][0], items[f][1])
    no, nb = items['_outputVariables'][1], items['_ruleBlocks'][1]
    block = items['_ruleBlocks'][0]
    RULE, NR, IMPL, BAD = z3.Function('rule', I, I, I), z3.Function('rules of', I, I), z3.Function('implication of', I, I), z3.Function('cannot load', I, B)
    ENA, WK, WV = z3.Function('enabled', I, B), z3.Function('weight.k', I, I), z3.Function('weight.v', I, R)
    LEN, LWK = fz.Log('enabled', [('rule', I), ('enabled', B)]), fz.Log('weighted', [('rule', I), ('weight', 'F')])
    LD = fz.Log('loaded', [('block', I)])
    for L in (LEN, LWK, LD):
        L.start(ex, st)
    st.gh['linked'] = False
    me = []

    def nrules(x):
        """Copies of rule blocks have as many rules (proved above)."""
        x = lift(x, I)
        ex.ax(('nr', x.get_id()), NR(x) >= 0)
        return NR(x)

    def copied(x):
        """... and clones of the operators."""
        x = lift(x, I)
        ex.ax(('cb', x.get_id()), z3.And(NR(CL(x)) == NR(x), IMPL(CL(x)) == copyof(IMPL(x)), CL(x) < 0))

    def reads(m, fn):
        ex.contracts['RuleBlock::' + m] = fn
    ref = lambda this: lift(this.ref, I)
    reads('numberOfRules', lambda ex, st, this, args, f: nrules(ref(this)))
    reads('getRule', lambda ex, st, this, args, f: RULE(ref(this), lift(ex.rv(args[0], st), I)))
    reads('getImplication', lambda ex, st, this, args, f: IMPL(ref(this)))

    def weight(x):
        ex.ax(('wk', x.get_id()), z3.And(WK(x) >= 0, WK(x) <= 3))
        return FV(WK(x), WV(x))
    ex.contracts['Rule::isEnabled'] = lambda ex, st, this, args, f: ENA(ref(this))
    ex.contracts['Rule::getWeight'] = lambda ex, st, this, args, f: weight(ref(this))

    def logs(L, vals):
        def g(ex, st, this, args, f):
            if aspect != 'rules':
                return
            L.append(st, vals(ex, st, this, [ex.rv(a, st) for a in args]))
        g.always = True
        return g
    ex.contracts['Rule::setEnabled'] = logs(LEN, lambda ex, st, this, a: [ref(this), a[0]])
    ex.contracts['Rule::setWeight'] = logs(LWK, lambda ex, st, this, a: [ref(this), a[0]])

    def link(ex, st, this, args, f):
        """The terms find the variables of the copy: to be called once all variables are there."""
        for f_, k in lists[:2] if aspect == 'parts' else ():
            c.oblige('references are updated when %s are there' % f_, ex.hyps(st), eqv(ex.hread(st, this.ref, cls, f_, vt(k)).n, items[f_][1]), exact=False)
        c.oblige('references of the copy are updated', ex.hyps(st), eqv(this.ref, me[0]), exact=False)
        st.gh['linked'] = True
    link.always = True
    ex.contracts['Engine::updateReferences'] = link

    def load(ex, st, this, args, f):
        """Rules are loaded for the copy, may fail, and have the weights in their texts and are enabled afterwards."""
        c.oblige('rules are loaded for the copy', ex.hyps(st), And(st.gh['linked'], eqv(ex.rv(args[0], st), me[0])), exact=False)
        if aspect == 'parts':
            LD.append(st, [ref(this)])
        fz.may_throw(ex, st, BAD(ref(this)))
    load.always = True
    ex.contracts['RuleBlock::loadRules'] = load

    ex.contracts['Activated::setImplication'] = lambda ex, st, this, args, f: None

    # the state of the rules
    if aspect == 'rules':
        comps = LEN.comps() + LWK.comps()
        empty = lambda: dict(LEN.empty(ex), **LWK.empty(ex))

        def set_rule(k, s, b):
            x = lift(block(b), I)
            copied(x)
            d = LEN.push(s, True, [RULE(CL(x), lift(k, I)), ENA(RULE(x, lift(k, I)))])
            d.update(LWK.push(s, True, [RULE(CL(x), lift(k, I)), weight(RULE(x, lift(k, I)))]))
            return d
        blocks = Fold(ex, 'blocks', comps, empty, lambda k, s: Rules.at(nrules(block(k)), k), n=nb)
        Rules = Fold(ex, 'rules', comps, lambda b: {k: (blocks.raw(b, ()) if not num(b) else blocks.at(b))[k] for k, _ in comps}, set_rule, n=lambda b: nrules(block(b)), nparams=1)
    if aspect == 'parts':
        LDF = Fold(ex, 'loads', LD.comps(), lambda: LD.empty(ex), lambda k, s: LD.push(s, True, [CL(block(k))]), n=nb)

    def old(w):
        me.append(w)
        for f, k in lists:
            old_list(ex, st, w, cls, f, vt(k))
    if how == 'clone':
        me.append(ex.alloc0 + 1)
    st0 = st.copy()
    for nm, o, w in outcomes(c, ex, cls, how, r, st, old):
        hy = ex.hyps(o.st)
        c.oblige(nm + ' is the new object', hy, eqv(w, me[0]), exact=False)
        if aspect == 'parts':
            twin(c, ex, nm, cls, st0, r, o.st, w, how == 'clone', skip=[f for f, k in lists])
            for f, k in lists:
                check_list(c, ex, nm, o, w, cls, f, vt(k), *items[f][:2])
            c.oblige(nm + ' references updated', hy, o.st.gh['linked'], exact=False)
            LD.same(c, ex, o, nm + ' loading', LDF.at(nb))
        elif aspect == 'rules':
            LEN.same(c, ex, o, nm + ' enabled flags', blocks.at(nb))
            LWK.same(c, ex, o, nm + ' weights', blocks.at(nb))
    if how == 'assignment' and aspect == 'parts':
        selfassign(c, ex, cls, st0, r, None)
    c.cover(cls, ex.hyps(st0))
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


OWNERS = [('InputVariable', dict(lists=['_terms'], by='Variable')),
          ('Aggregated', dict(parts=['_aggregation'], recs=['_terms'])),
          ('Rule', dict(skip=['_antecedent', '_consequent', '_triggered'], check=rule_parts)),
          ('RuleBlock', dict(parts=['_activation', '_conjunction', '_disjunction', '_implication'], lists=['_rules'])),
          ('Function', dict(parts=['_root'])),
          ('Function::Node', dict(parts=['element', 'left', 'right']))]


def groups(prog, tier):
    g = [('clones of %ss' % k, flat, k) for k in FLAT]
    for cls, kw in OWNERS:
        for how in ('clone', 'assignment'):
            g += [('%s of %s' % (how, cls), lambda c, cls, how, kw: owner(c, cls, how, **kw), cls, how, kw)]
    g.append(('clone of Function::Element', lambda c: owner(c, 'Function::Element', 'clone')))
    g += [('%s of OutputVariable' % how, output, how) for how in ('clone', 'assignment')]
    g += [('%s of Engine: %s' % (how, a), engine, how, a) for how in ('clone', 'assignment') for a in ('parts', 'rules')]
    return g


# ---------------------------------------------------------------- bounded: histories of engines and their copies
def change(rng, g):
    """Changes of the current engine that the specification follows."""
    r = rng.random()
    if r < 0.3 and g.inp:
        n, lo, hi, ts = rng.choice(g.inp)
    else:
        n, lo, hi, ts, k = rng.choice(g.out)
    if r < 0.5:
        return g.inputs() + [('process',)]
    if r < 0.56:
        return [('restart',)]
    if r < 0.62:
        return [('flag', 'enabled', n, rng.choice([0.0, 1.0]))]
    if r < 0.68:
        return [('flag', 'lockrange', n, rng.choice([0.0, 1.0]))]
    if r < 0.72:
        return [('flag', 'max', n, hi + 1.0)]
    if r < 0.76:
        return [('flag', 'rbenabled', rng.choice(g.rb), rng.choice([0.0, 1.0]))] if g.rb else []
    o = rng.choice(g.out)[0]
    if r < 0.8:
        return [('flag', 'lockprev', o, rng.choice([0.0, 1.0]))]
    if r < 0.84:
        return [('flag', 'default', o, rng.choice([0.5, 1.5]))]
    if r < 0.86:
        return [('aggregation', o, G.snorm(rng, 0.1))]
    bs = [b for b in g.rb if g.nrules[b]]
    if not bs:
        return []
    b = rng.choice(bs)
    i = rng.randrange(g.nrules[b])
    if r < 0.94:
        return [('flag', 'ruleenabled', b, rng.choice([0.0, 1.0]), i)]
    return [('flag', 'weight', b, rng.choice([0.25, 0.5, 1.0, 2.0]), i)]


OWN = ('raw', 'own', ['own'])


def script(rng):
    def make(key):
        g = G.Eng(rng, key=key, nin=(0, 3), none=0.1, disabled=0.15, outin=0.15, anys=0.1)
        o = []
        for op in g.o:
            if op[0] == 'rule':
                op = ('rule', op[1], op[2], True, op[4], op[5])
            if op[0] == 'term' and op[2] == 'Function' and rng.random() < 0.6:
                op = op[:5] + P18.formula(rng, g, op[1])
            o.append(op)
        g.o = o
        return g
    g = make('0')
    ops = []
    if rng.random() < 0.3:
        ops += make('1').o          # replaced by the assignment
    ops += g.o
    for _ in range(rng.choice([0, 0, 1, 3])):
        ops += change(rng, g)
    live, cur = ['0'], '0'
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if len(live) == 1 or r < 0.2:
            k = rng.choice([x for x in '0123' if x != cur])
            ops.append((rng.choice(['clone', 'assign']), k))
            live = sorted(set(live) | {k})
            if rng.random() < 0.7:
                ops += [OWN] + g.observe() + [('use', k), OWN] + g.observe()
                cur = k
        elif r < 0.35 and len(live) > 1:
            k = rng.choice([x for x in live if x != cur])
            ops.append(('drop', k))
            live.remove(k)
            ops += [OWN] + g.observe()
        elif r < 0.55:
            cur = rng.choice(live)
            ops.append(('use', cur))
            ops += g.observe()
        elif r < 0.65:
            ops.append(('raw', 'copies', ['same']))
        else:
            ops += change(rng, g)
            for k in live:
                if k != cur and rng.random() < 0.5:
                    ops += [('use', k)] + g.observe() + [('use', cur)]
            ops += g.observe()
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 6000 if tier == 'quick' else 60000)], seed)
