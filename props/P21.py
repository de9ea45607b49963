"""P21: an engine that reports itself ready can be processed."""
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G, P10

PROPERTY = 'P21'
SOURCES = ['Engine.cpp', 'variable/Variable.cpp', 'variable/OutputVariable.cpp', 'rule/RuleBlock.cpp', 'rule/Rule.cpp', 'rule/Antecedent.cpp', 'rule/Consequent.cpp', 'rule/Expression.cpp',
           'variable/InputVariable.cpp', 'term/Aggregated.cpp', 'term/Activated.cpp', 'hedge/Any.cpp', 'fuzzylite.cpp']
TRUSTED = ['the non-null components of an engine are valid objects', 'std::string::find: any deterministic function of the texts (its value is exercised by the search)',
           'a loaded antecedent is a finite tree of propositions and binary operators named and/or', 'Aggregated::activationDegree, Hedge::hedge, Norm::compute and Term::membership raise no error (P09, P03, P01, P02); defuzzification and the memberships of fuzzy outputs raise errors only for a missing defuzzifier, aggregation or implication (P05, P07, P09, P13)']
BUDGET = 300
CONTRACTED = ['Engine::isReady', 'hasOperator', 'Antecedent::activationDegree']
HAS = z3.Function('has operator', I, S, B)


def has(ex, st, e, name):
    """Whether the expression has an operator of that name: unfolded once where it is used."""
    e = lift(e, I)
    return HAS(e, name.z())


def unfold(ex, st, e, name):
    """The definition of HAS at the expression e."""
    e = lift(e, I)
    op = And(Not(eqv(e, 0)), ex.isa(e, 'Operator'))
    g = lambda f, t: ex.hread(st, e, 'Operator', f, t)
    return Iff(HAS(e, name.z()), And(op, Or(seq(g('name', 'std::string'), name), HAS(lift(g('left', 'Expression *'), I), name.z()), HAS(lift(g('right', 'Expression *'), I), name.z()))))


def hasoperator(c):
    """The recursive search of an operator in an expression."""
    for cls in ('Operator', 'Proposition', None):
        ex = c.executor(fork=False)
        st = X.State()
        e = fz.obj(ex, st, 'expression', cls) if cls else z3.IntVal(0)
        name = SV((z3.Const('operator', S),))
        st.env[('root', 'name')] = name
        for f in ('left', 'right'):
            v = z3.Int(f)
            st.assume(z3.And(v >= 0, v <= ex.alloc0))
            ex.hwrite(st, e, 'Operator', f, 'Expression *', v)
        st.assume(zb(ex.isa(e, 'Operator')) == z3.BoolVal(cls == 'Operator'))
        st0 = st.copy()

        def rec(ex, st, this, args, f):
            a = [ex.rv(x, st) for x in args]
            return HAS(lift(a[0], I), a[1].z())
        f = fn(c)
        ex.contracts[f.qual] = rec
        ex.axioms.append(zb(unfold(ex, st0, e, name)))
        for i, o in enumerate(ex.enter(f, None, [e, X.LVLocal(('root', 'name'), 'std::string')], st)):
            c.oblige('%s of %s#%d %s' % (f.name, cls, i, o.kind), ex.hyps(o.st), And(o.kind == 'return', Iff(o.val, HAS(lift(e, I), name.z()))) if o.kind == 'return' else False, exact=False)


def fn(c):
    f = [x for x in c.p.funcs.values() if not x.cls and len(x.params) == 2 and 'Expression' in x.ftype and 'string' in x.ftype]
    if len(f) != 1:
        raise Unsupported('no function that searches an operator in an expression')
    return f[0]


def isready(c, status):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    e = fz.obj(ex, st, 'this', 'Engine')
    iv, ni = fz.symvec(ex, st, 'inputs', 'InputVariable *')
    ov, no = fz.symvec(ex, st, 'outputs', 'OutputVariable *')
    rb, nb = fz.symvec(ex, st, 'blocks', 'RuleBlock *')
    ex.axioms += [ni >= 0, no >= 0, nb >= 0]
    for f, v, t in (('_inputVariables', iv, 'InputVariable'), ('_outputVariables', ov, 'OutputVariable'), ('_ruleBlocks', rb, 'RuleBlock')):
        ex.hwrite(st, e, 'Engine', f, 'std::vector<%s *>' % t, v)
    ex.string_facts = True
    ex.fast_discovery = True
    ex.houdini_ms = 800
    I_, O_, B_ = (lambda k: ex.vget(iv, k)), (lambda k: ex.vget(ov, k)), (lambda k: ex.vget(rb, k))
    st0 = st.copy()
    rd = lambda r, cls, f, t: ex.hread(st0, r, cls, f, t)

    def size(v):
        n = lift(v.n, I)
        ex.ax(('size', n.get_id()), n >= 0)
        return n
    fo = lambda i: rd(O_(i), 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>')
    rules = lambda i: rd(B_(i), 'RuleBlock', '_rules', 'std::vector<Rule *>')
    rule = lambda i, r: ex.vget(rules(i), r)
    cons = lambda i, r: rd(rule(i, r), 'Rule', '_consequent', 'std::unique_ptr<Consequent>')
    ante = lambda i, r: rd(rule(i, r), 'Rule', '_antecedent', 'std::unique_ptr<Antecedent>')
    concl = lambda i, r: rd(cons(i, r), 'Consequent', '_conclusions', 'std::vector<Proposition *>')
    prop = lambda i, r, q: ex.vget(concl(i, r), q)
    inr = lambda k, n: z3.And(k >= 0, k < lift(n, I))
    # the fuzzy output of an output variable, the consequent and antecedent of a rule, and the conclusions exist
    def facts(ex, s, k):
        g = ex.ghostk
        ptr = lambda x: z3.And(lift(x, I) >= 0, lift(x, I) <= ex.alloc0)
        if len(g) == 1:
            return z3.And(*[z3.Implies(inr(k, n), ptr(v(k))) for v, n in ((I_, ni), (O_, no), (B_, nb))], z3.Implies(z3.And(inr(k, no), lift(O_(k), I) != 0), lift(fo(k), I) > 0))
        if len(g) == 2:
            i = g[0]
            return z3.Implies(z3.And(inr(i, nb), inr(k, rules(i).n)), z3.And(ptr(rule(i, k)), z3.Implies(lift(rule(i, k), I) != 0, z3.And(lift(cons(i, k), I) > 0, lift(ante(i, k), I) > 0))))
        if len(g) == 3:
            i, r = g[:2]
            return z3.Implies(z3.And(inr(i, nb), inr(r, rules(i).n), lift(rule(i, r), I) != 0, inr(k, concl(i, r).n)), z3.And(lift(prop(i, r, k), I) > 0, ptr(prop(i, r, k))))
        return z3.BoolVal(True)
    ex.loop_facts = [facts]
    ex.own_folds = True
    ex.contracts['Expression::type'] = lambda ex, st, this, args, f: Ite(ex.isa(this.ref, 'Operator'), 1, 0)
    loaded = z3.Function('loaded rule', I, B)
    ex.contracts['Rule::isLoaded'] = lambda ex, st, this, args, f: loaded(lift(this.ref, I))
    g = None
    try:
        g = fn(c)
        ex.contracts[g.qual] = lambda ex, st, this, args, f: And(Not(eqv(ex.rv(args[0], st), 0)), HAS(lift(ex.rv(args[0], st), I), ex.rv(args[1], st).z()))
    except Unsupported:
        pass
    isa = lambda r, cls: And(Not(eqv(r, 0)), ex.isa(r, cls))
    defz = lambda r: rd(r, 'OutputVariable', '_defuzzifier', 'std::unique_ptr<Defuzzifier>')
    FIND = X.uf('str_find_StrStr', S, S, I) if hasattr(X, 'uf') else None
    find = lambda t, w: findfn(ex)(t.z(), strlit(w))
    text = lambda i, r: rd(rule(i, r), 'Rule', '_text', 'std::string')
    expr = lambda i, r: rd(ante(i, r), 'Antecedent', '_expression', 'std::unique_ptr<Expression>')
    npos = z3.Int('npos')

    def needs(i, r, w):
        at = find(text(i, r), ' %s ' % w)
        return Or(And(Not(eqv(at, npos)), lt(at, find(text(i, r), ' then '))), And(loaded(lift(rule(i, r), I)), Not(eqv(expr(i, r), 0)), HAS(lift(expr(i, r), I), strlit(w))))

    def integral(i, r, q):
        v = rd(prop(i, r, q), 'Proposition', 'variable', 'Variable *')
        return And(isa(v, 'OutputVariable'), isa(defz(v), 'IntegralDefuzzifier'))
    # specification
    oks = Fold(ex, 'inputs', [('ok', 'B')], lambda: {'ok': lt(0, ni)}, lambda k, s: {'ok': And(s['ok'], Not(eqv(I_(k), 0)))}, n=ni)
    nterms = lambda i: size(rd(O_(i), 'Variable', '_terms', 'std::vector<Term *>'))
    agg = lambda i: rd(fo(i), 'Aggregated', '_aggregation', 'std::unique_ptr<SNorm>')
    okout = lambda i: And(Not(eqv(O_(i), 0)), lt(0, nterms(i)), Not(eqv(defz(O_(i)), 0)), Or(Not(isa(defz(O_(i)), 'IntegralDefuzzifier')), Not(eqv(agg(i), 0))))
    outs_ = Fold(ex, 'outputs', [('ok', 'B')], lambda: {'ok': And(oks.at(ni)['ok'], lt(0, no))}, lambda k, s: {'ok': And(s['ok'], okout(k))}, n=no)
    CO = Fold(ex, 'conclusions', [('d', 'B')], lambda i, r: {'d': False}, lambda q, s, i, r: {'d': Or(s['d'], integral(i, r, q))}, n=lambda i, r: size(concl(i, r)), nparams=2, absorb='d')
    nrules = lambda i: size(rules(i))

    def rstep(r, s, i):
        nn = Not(eqv(rule(i, r), 0))
        inc = lambda x, cnd: Ite(And(nn, cnd), add(x, 1), x)
        return {'bad': Or(s['bad'], Not(nn)), 'c': inc(s['c'], needs(i, r, 'and')), 'd': inc(s['d'], needs(i, r, 'or')),
                'm': inc(s['m'], And(loaded(lift(rule(i, r), I)), CO.at(size(concl(i, r)), i, r)['d']))}
    RU = Fold(ex, 'rules', [('bad', 'B'), ('c', 'I'), ('d', 'I'), ('m', 'I')], lambda i: {'bad': False, 'c': 0, 'd': 0, 'm': 0}, rstep, n=nrules, nparams=1,
              lemmas=[lambda k, s, i: And(le(0, s['c']), le(0, s['d']), le(0, s['m']))])

    def okblock(i):
        f = RU.at(nrules(i), i)
        nrm = lambda fl, t: rd(B_(i), 'RuleBlock', fl, 'std::unique_ptr<%s>' % t)
        return And(Not(eqv(B_(i), 0)), lt(0, nrules(i)), Not(f['bad']), Or(eqv(f['c'], 0), Not(eqv(nrm('_conjunction', 'TNorm'), 0))), Or(eqv(f['d'], 0), Not(eqv(nrm('_disjunction', 'SNorm'), 0))),
                   Or(eqv(f['m'], 0), Not(eqv(nrm('_implication', 'TNorm'), 0))))
    BL = Fold(ex, 'blocks', [('ok', 'B')], lambda: {'ok': And(outs_.at(no)['ok'], lt(0, nb))}, lambda k, s: {'ok': And(s['ok'], okblock(k))}, n=nb)

    # the text of the problems is empty exactly while everything is fine
    def empty(s):
        return False if any(isinstance(p, str) and p for p in s.parts) else seq(s, SV(()))

    def cands(ex, entry, mod, depth):
        out = []
        for loc in mod:
            v = entry.env.get(loc[1]) if loc[0] == 'L' else None
            if isinstance(v, X.StreamV):
                if depth == 0:
                    for F in (oks, outs_, BL):
                        out.append(('text empty iff %s' % F.name, lambda ex, st, k, F=F, key=loc[1]: Iff(empty(st.env[key].buf), F.at(k)['ok'])))
                if depth == 1:
                    e0 = empty(v.buf)
                    out.append(('text empty iff rules', lambda ex, st, k, key=loc[1], e0=e0: Iff(empty(st.env[key].buf), And(e0, Not(RU.at(k, ex.ghostk[0])['bad'])))))
        return out
    ex.loop_candidates = [cands]
    args = [0]
    if status:
        st.env[('root', 'status')] = SV((z3.Const('old status', S),))
        args = [X.AddrOf(X.LVLocal(('root', 'status'), 'std::string'))]
    outs = ex.enter(c.p.find('Engine::isReady'), X.LVHeap(e, 'Engine'), args, st)
    want = BL.at(nb)['ok']
    for i, o in enumerate(outs):
        nm = 'isReady%s#%d %s' % (' with status' if status else '', i, o.kind)
        c.oblige(nm, ex.hyps(o.st), And(o.kind == 'return', Iff(o.val, want)) if o.kind == 'return' else False, exact=False)
        if status and o.kind == 'return':
            c.oblige(nm + ' the status lists problems exactly when not ready', ex.hyps(o.st), Iff(empty(o.st.env[('root', 'status')]), want), exact=False)
    c.cover('isReady', ex.hyps(st))
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def degree(c):
    """Computing the degree of a well-formed antecedent fails only when a connective it uses has no operator."""
    ex, st, this, node, root, conj, disj = P10.setup(c, 'Operator')
    left, right = z3.Ints('left right')
    st.assume(z3.And(left > 0, left <= ex.alloc0, right > 0, right <= ex.alloc0, root > 0))
    name = SV((z3.Const('name', S),))
    st.assume(z3.Or(name.z() == strlit('and'), name.z() == strlit('or')))
    for f, t, v in (('left', 'Expression *', left), ('right', 'Expression *', right), ('name', 'std::string', name)):
        ex.hwrite(st, node, 'Operator', f, t, v)
    st.assume(zb(ex.isa(node, 'Operator')))
    missing = lambda e: Or(And(eqv(conj, 0), HAS(lift(e, I), strlit('and'))), And(eqv(disj, 0), HAS(lift(e, I), strlit('or'))))
    for w in ('and', 'or'):
        ex.axioms.append(zb(unfold(ex, st.copy(), node, SV((w,)))))

    def rec(ex, st, this, args, f):
        a = [ex.rv(x, st) for x in args]
        if len(a) != 3 or same(a[2], node):
            return NotImplemented
        c.oblige('operand evaluated with the same operators', ex.hyps(st), And(eqv(a[0], conj), eqv(a[1], disj), Or(eqv(a[2], left), eqv(a[2], right))), exact=False)
        fz.may_throw(ex, st, And(z3.Bool(fresh_name('fails')), missing(a[2])))     # the same contract for the operands
        return fz.iface(ex, 'degree', [a[2]], [])
    ex.contracts['Antecedent::activationDegree'] = rec
    outs = ex.enter(P10.fn(c, 3), this, [conj, disj, node], st)
    n = 0
    for i, o in enumerate(outs):
        if o.kind == 'throw':
            n += 1
            c.oblige('degree#%d fails only for a missing operator' % i, ex.hyps(o.st), missing(node), exact=False)
        else:
            c.oblige('degree#%d %s' % (i, o.kind), ex.hyps(o.st), o.kind == 'return', exact=False)
    for kind in ('InputVariable', 'OutputVariable'):
        ex, st, this, node, root, conj, disj = P10.setup(c, 'Proposition')
        proposition(c, ex, st, this, node, root, conj, disj, kind)


def proposition(c, ex, st, this, node, root, conj, disj, kind):
    """The degree of a valid proposition never fails."""
    var, term = fz.obj(ex, st, 'variable', kind), z3.Int('term')
    hs, n = fz.symvec(ex, st, 'hedges', 'Hedge *')
    st.assume(z3.And(root > 0, term >= 0, term <= ex.alloc0))
    ex.hwrite(st, node, 'Proposition', 'variable', 'Variable *', var)
    ex.hwrite(st, node, 'Proposition', 'term', 'Term *', term)
    ex.hwrite(st, node, 'Proposition', 'hedges', 'std::vector<Hedge *>', hs)
    get = lambda k: ex.vget(hs, k)
    fz.nonnull(ex, get, n, reverse=True)
    last = get(sub(n, 1))
    st.assume(z3.Implies(n > 0, zb(And(lt(0, last), le(last, ex.alloc0)))))
    st.assume(z3.Implies(z3.Not(zb(And(lt(0, n), ex.isa(last, 'Any')))), term > 0))
    if kind == 'OutputVariable':
        fo = fz.obj(ex, st, 'fuzzy output', 'Aggregated')
        ex.hwrite(st, var, 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>', fo)
        ex.contracts['Aggregated::activationDegree'] = lambda ex, st, this, args, f: fz.iface(ex, 'activation degree', [this.ref, ex.rv(args[0], st)], [])
    Fold(ex, 'hedges', [('v', 'I')], lambda: {'v': 0}, lambda k, s: {'v': add(s['v'], 1)}, n=n)
    Fold(ex, 'hedges after the first', [('v', 'I')], lambda: {'v': 0}, lambda k, s: {'v': add(s['v'], 1)}, n=sub(n, 1))
    for i, o in enumerate(ex.enter(P10.fn(c, 3), this, [conj, disj, node], st)):
        c.oblige('degree of a proposition over %s#%d %s' % (kind, i, o.kind), ex.hyps(o.st), o.kind == 'return', exact=False)


def findfn(ex):
    from fvc import stdlib
    return stdlib.uf('str_find_%s%s' % (S, S), S, S, I)


def groups(prog, tier):
    return [('hasOperator', hasoperator), ('degree of antecedents', degree), ('Engine::isReady', isready, False), ('Engine::isReady with status', isready, True)]


SEARCHED = 'random engines with missing or null components, unloaded rules and rule texts with unusual white space and parentheses: readiness compared with the specification, and ready engines processed on random inputs'
DRIVER = 'engine'


def uses(e, w):
    return e[0] != 'p' and (e[0] == w or uses(e[1], w) or uses(e[2], w))


def odd(rng, ast):
    """The text of a rule with unusual separators."""
    def ex(e, top=False):
        if e[0] == 'p':
            return [e[1], 'is'] + list(e[2]) + ([e[3]] if e[3] else [])
        return ['('] + ex(e[1]) + [')', e[0], '('] + ex(e[2]) + [')']
    toks = ['if'] + ex(ast[0], True) + ['then'] + ' and '.join(' '.join([n, 'is'] + list(hs) + [t]) for n, hs, t in ast[1]).split() + ([] if ast[2] == 1.0 else ['with', repr(ast[2])])
    out = toks[0]
    loose = rng.random() < 0.4
    for a, b in zip(toks, toks[1:]):
        blank = rng.choice([' ', ' ', '\\t', '  ', '\\n'])
        out += ('' if loose and (a in '()' or b in '()') and a not in ('if',) and b != 'then' else blank) + b
    return out


def real(t):
    return t.replace('\\t', '\t').replace('\\n', '\n')


def script(rng):
    e = G.Eng(rng, nin=(0, 2) if rng.random() < 0.1 else (1, 2), nout=(1, 2), nrb=(1, 2), nrules=(1, 3), none=0.0, disabled=0.05, depth=2, outin=0.15, concl=2)
    ok = bool(e.inp)
    ops, blocks, kinds, outs = [], {}, {}, {}
    p = rng.choice([0.0, 0.05, 0.3])
    drop = lambda: rng.random() < p
    weighted = lambda d: d is not None and d.startswith('Weighted')
    used = {}
    for o in e.o:
        o = list(o)
        if o[0] == 'ov':
            if drop():
                o[8] = None
            if drop():
                o[9] = None
            outs[o[1]] = [0, o[8], o[9]]
        elif o[0] == 'term' and o[1] in outs:
            outs[o[1]][0] += 1
        elif o[0] == 'rb':
            for q in (3, 4, 5):
                if drop():
                    o[q] = None
            blocks[o[1]] = [o[3], o[4], o[5], []]
        elif o[0] == 'rule':
            load = rng.random() < 0.93
            t = o[4] if rng.random() < 0.5 else odd(rng, o[5])
            blocks[o[1]][3].append((real(t), load, o[5]))
            ops.append(('raw', 'rule %s %d %d %s' % (o[1], o[2], load, t), ['1' if load else '0']))
            continue
        ops.append(tuple(o))
    if rng.random() < 0.05:
        n = 'rbx'
        ops.append(('rb', n, True, None, None, None, 'General'))
        blocks[n] = [None, None, None, []]
    if rng.random() < 0.05:
        ops.append(('ov', 'outx', 0.0, 1.0, False, True, float('nan'), False, 'Maximum', 'Centroid:10'))
        outs['outx'] = [0, 'Maximum', 'Centroid:10']
    if rng.random() < 0.08:
        ops.append(('raw', 'null ' + rng.choice(['in', 'out', 'rb', 'rule ' + rng.choice(e.rb)]), ['ok']))
        ok = False
    integral = lambda v: outs[v][2] is not None and not weighted(outs[v][2])
    for n, (terms, agg, d) in outs.items():
        ok = ok and terms > 0 and d is not None and (not integral(n) or agg is not None)
    for n, (cj, dj, im, rs) in blocks.items():
        ok = ok and bool(rs)
        for t, load, ast in rs:
            then = t.find(' then ')
            then = len(t) if then < 0 else then
            need = lambda w: 0 <= t.find(' %s ' % w) < then or load and uses(ast[0], w)
            ok = ok and not (need('and') and cj is None) and not (need('or') and dj is None)
            if load:
                ok = ok and not (im is None and any(integral(c[0]) for c in ast[1]))
    ops.append(('raw', 'status', ['1', '1'] if ok else ['0', '0']))
    ops.append(('raw', 'ready', ['1' if ok else '0']))
    if ok:
        for _ in range(3):
            for n, lo, hi, ts in e.inp:
                x = rng.choice([rng.uniform(lo - 1, hi + 1), float('nan'), float('inf'), float('-inf'), lo, hi])
                ops.append(('raw', 'set %s %s' % (n, ref.fmt(x)), None))
            ops.append(('raw', 'process', ['ok']))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 12000 if tier == 'quick' else 80000)], seed)
