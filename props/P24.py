"""P24: collections of variables, terms and rules behave as ordered lists."""
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P24'
SOURCES = ['Engine.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'variable/OutputVariable.cpp', 'rule/RuleBlock.cpp', 'fuzzylite.cpp']
TRUSTED = ['the items of a collection are valid objects (look-up by name reads their names)', 'insertions happen at positions up to the number of items (others are undefined behaviour)']
BUDGET = 150
# owner, field, class of the items, word in the names of the operations
COLL = [('Engine', '_inputVariables', 'InputVariable', 'InputVariable'), ('Engine', '_outputVariables', 'OutputVariable', 'OutputVariable'),
        ('Engine', '_ruleBlocks', 'RuleBlock', 'RuleBlock'), ('Variable', '_terms', 'Term', 'Term'), ('RuleBlock', '_rules', 'Rule', 'Rule')]
NAMED = {'InputVariable': 'Variable', 'OutputVariable': 'Variable', 'RuleBlock': 'RuleBlock', 'Term': 'Term'}
CONTRACTED = ['%s::%s' % (o, m) for o, f, c, w in COLL for m in ['add' + w, 'insert' + w, 'get' + w, 'remove' + w, 'numberOf%ss' % w] + (['has' + w] if c in NAMED else [])] + [
    'Engine::variables', 'Engine::setInputValue', 'Engine::getOutputValue', 'RuleBlock::rules', 'RuleBlock::rule']


def given(c, owner, field, cls):
    ex = c.executor(fork=False)
    st = X.State()
    r = fz.obj(ex, st, 'this', owner)
    vs = {}
    for o, f, k, w in COLL:
        if o == owner:
            v, n = fz.symvec(ex, st, f, k + ' *')
            ex.hwrite(st, r, o, f, 'std::vector<%s *>' % k, v)
            ex.axioms.append(n >= 0)
            vs[f] = (v, n, k)
    v, n, k = vs[field]
    get = lambda i: ex.vget(v, i)
    fz.nonnull(ex, get, n, reverse=True)
    return ex, st, X.LVHeap(r, owner), r, get, n, vs


def final(c, ex, o, nm, r, owner, field, vs, n, item, kind='return', val=None):
    """The collection holds the expected items, the other collections of the object are unchanged."""
    hy = ex.hyps(o.st)
    c.oblige(nm, hy, And(o.kind == kind, val(o.val) if val is not None and o.kind == 'return' else True), exact=False)
    if o.kind != kind:
        return
    j = z3.Int('j')
    for f, (v, m, k) in vs.items():
        w = ex.hread(o.st, r, owner, f, 'std::vector<%s *>' % k)
        wn, wi = (n, item) if f == field else (m, lambda i, v=v: ex.vget(v, i))
        c.oblige('%s size of %s' % (nm, f), hy, eqv(w.n, wn), exact=False)
        c.oblige('%s items of %s' % (nm, f), hy + [j >= 0, zb(lt(j, wn))], eqv(ex.vget(w, j), wi(j)), exact=False)


def positions(c, owner, field, cls, word):
    i, x, y = z3.Int('index'), z3.Int('item'), z3.Int('other')
    inr = lambda n: And(le(0, i), lt(i, n))
    same_ = lambda get: lambda k: get(k)

    def call(m, args, npar=None, contains=None, pre=None):
        ex, st, this, r, get, n, vs = given(c, owner, field, cls)
        st.assume(z3.And(x > 0, x <= ex.alloc0, i >= 0))
        if pre is not None:
            st.assume(pre(n))
        f = c.p.find('%s::%s' % (owner, m), npar, contains)
        return ex, r, get, n, vs, ex.enter(f, this, args, st)

    def check(m, args, n_, item, val=None, contains=None, pre=None, fails=None):
        ex, r, get, n, vs, outs = call(m, args, len(args), contains, pre)
        for q, o in enumerate(outs):
            nm = '%s::%s#%d %s' % (owner, m, q, o.kind)
            if o.kind == 'throw':
                final(c, ex, o, nm, r, owner, field, vs, n, same_(get), 'throw')
                c.oblige(nm + ' only when out of range', ex.hyps(o.st), fails(n) if fails else False, exact=False)
            else:
                final(c, ex, o, nm, r, owner, field, vs, n_(n), item(get, n), 'return', (lambda v: val(v, get, n)) if val else None)
                if fails:
                    c.oblige(nm + ' only within range', ex.hyps(o.st), Not(fails(n)), exact=False)
        if not outs:
            raise Unsupported('no outcome of ' + m)
    out = lambda n: Not(inr(n))
    keep = lambda n: n
    get0 = lambda get, n: get
    check('add' + word, [x], lambda n: n + 1, lambda get, n: lambda j: Ite(eqv(j, n), x, get(j)))
    check('insert' + word, [x, i], lambda n: n + 1, lambda get, n: lambda j: Ite(lt(j, i), get(j), Ite(eqv(j, i), x, get(sub(j, 1)))), pre=lambda n: i <= n)
    check('get' + word, [i], keep, get0, val=lambda v, get, n: eqv(v, get(i)), contains='size_t', fails=out)
    check('remove' + word, [i], lambda n: n - 1, lambda get, n: lambda j: Ite(lt(j, i), get(j), get(add(j, 1))), val=lambda v, get, n: eqv(v, get(i)), contains='size_t', fails=out)
    check('numberOf%ss' % word, [], keep, get0, val=lambda v, get, n: eqv(v, n))
    if owner == 'Engine':
        check('set' + word, [x, i], keep, lambda get, n: lambda j: Ite(eqv(j, i), x, get(j)), val=lambda v, get, n: eqv(v, get(i)), fails=out)
    if owner == 'RuleBlock':
        check('rule', [x], lambda n: n + 1, lambda get, n: lambda j: Ite(eqv(j, n), x, get(j)))
    # the whole list
    plural = {'InputVariable': 'InputVariables', 'OutputVariable': 'OutputVariables', 'RuleBlock': 'RuleBlocks', 'Term': 'Terms', 'Rule': 'Rules'}[word]
    for m in ('set' + plural,) + (('rules',) if word == 'Rule' else ()):
        ex, st, this, r, get, n, vs = given(c, owner, field, cls)
        w, k = fz.symvec(ex, st, 'given', cls + ' *')
        key = ('root', 'given')
        st.env[key] = w
        lv = X.LVLocal(key, 'std::vector<%s *>' % cls)
        for q, o in enumerate(ex.enter(c.p.find('%s::%s' % (owner, m), 1), this, [lv], st)):
            g = lambda j: ex.vget(w, j)
            if m == 'rules':
                final(c, ex, o, '%s::%s#%d' % (owner, m, q), r, owner, field, vs, n + k, lambda j: Ite(lt(j, n), get(j), g(sub(j, n))))
            else:
                final(c, ex, o, '%s::%s#%d' % (owner, m, q), r, owner, field, vs, k, g)
    for const in (True, False):
        ex, st, this, r, get, n, vs = given(c, owner, field, cls)
        m = plural[0].lower() + plural[1:]
        j = z3.Int('j')
        for q, o in enumerate(ex.enter(c.p.find('%s::%s' % (owner, m), 0, const=const), this, [], st)):
            w = ex.rv(o.val, o.st)
            c.oblige('%s::%s#%d is the list' % (owner, m, q), ex.hyps(o.st) + [j >= 0, j < n], And(eqv(w.n, n), eqv(ex.vget(w, j), get(j))), exact=False)


def names(c, owner, field, cls, word):
    """Look-up by name answers the first item of that name."""
    for m in ('get' + word, 'has' + word, 'remove' + word):
        if m == 'removeTerm':
            continue
        ex, st, this, r, get, n, vs = given(c, owner, field, cls)
        st0 = st.copy()
        nc = NAMED[cls]
        nm_ = z3.Const('name', S)
        key = ('root', 'name')
        st.env[key] = SV((nm_,))
        is_ = lambda k: seq(ex.hread(st0, get(k), nc, '_name', 'std::string'), SV((nm_,)))
        F = Fold(ex, 'look-up', [('d', 'B'), ('r', 'I'), ('i', 'I')], lambda: {'d': False, 'r': 0, 'i': -1},
                 lambda k, s: {'d': Or(s['d'], is_(k)), 'r': Ite(s['d'], s['r'], Ite(is_(k), get(k), 0)), 'i': Ite(s['d'], s['i'], Ite(is_(k), k, -1))}, n=n, absorb='d',
                 lemmas=[lambda k, s: And(Implies(s['d'], And(le(0, s['i']), lt(s['i'], k), eqv(s['r'], get(s['i'])))))])
        f = c.p.find('%s::%s' % (owner, m), 1, 'string')
        outs = ex.enter(f, this, [X.LVLocal(key, 'std::string')], st)
        s = F.at(n)
        for q, o in enumerate(outs):
            nm = '%s::%s by name#%d %s' % (owner, m, q, o.kind)
            hy = ex.hyps(o.st)
            get_ = lambda k: get(k)
            if o.kind == 'throw':
                c.oblige(nm + ' only when absent', hy, And(not m.startswith('has'), Not(s['d'])), exact=False)
                final(c, ex, o, nm, r, owner, field, vs, n, get_, 'throw')
            elif m.startswith('has'):
                final(c, ex, o, nm, r, owner, field, vs, n, get_, 'return', lambda v: Iff(v, s['d']))
            elif m.startswith('get'):
                final(c, ex, o, nm, r, owner, field, vs, n, get_, 'return', lambda v: And(s['d'], eqv(v, s['r'])))
            else:
                final(c, ex, o, nm, r, owner, field, vs, n - 1, lambda j: Ite(lt(j, s['i']), get(j), get(add(j, 1))), 'return', lambda v: And(s['d'], eqv(v, s['r'])))
        fz.fold_obligations(c, ex)
        fz.loopnotes(c, ex)


def variables(c):
    ex, st, this, r, iget, ni, vs = given(c, 'Engine', '_inputVariables', 'InputVariable')
    ov, no, _ = vs['_outputVariables']
    j = z3.Int('j')
    for q, o in enumerate(ex.enter(c.p.find('Engine::variables', 0), this, [], st)):
        w = ex.rv(o.val, o.st)
        c.oblige('Engine::variables#%d' % q, ex.hyps(o.st) + [j >= 0, j < ni + no],
                 And(o.kind == 'return', eqv(w.n, add(ni, no)), eqv(ex.vget(w, j), Ite(lt(j, ni), iget(j), ex.vget(ov, sub(j, ni))))), exact=False)


def byname(c):
    """Values by name are those of the first variable of that name."""
    for m, cls in (('setInputValue', 'InputVariable'), ('getOutputValue', 'OutputVariable')):
        ex, st, this, r, get, n, vs = given(c, 'Engine', '_inputVariables', 'InputVariable')
        key = ('root', 'name')
        st.env[key] = SV((z3.Const('name', S),))
        v = z3.Int('found')
        st.assume(z3.And(v > 0, v <= ex.alloc0))
        x = FV(z3.Int('x.k'), z3.Real('x'))
        st.assume(z3.And(x.k >= 0, x.k <= 3))
        st0 = st.copy()
        lockf = ex.hread(st, v, 'Variable', '_lockValueInRange', 'bool')
        st.assume(Not(lockf))
        ok = []

        def look(ex, st, this, args, f):
            ok.append(seq(ex.rv(args[0], st), SV((z3.Const('name', S),))))
            fz.may_throw(ex, st, z3.Bool('absent'))
            return v
        look.always = True
        ex.contracts['Engine::get' + cls] = look
        args = [X.LVLocal(key, 'std::string')] + ([x] if m == 'setInputValue' else [])
        for q, o in enumerate(ex.enter(c.p.find('Engine::' + m), this, args, st)):
            hy = ex.hyps(o.st)
            if o.kind == 'throw':
                c.oblige('%s#%d throw' % (m, q), hy, z3.Bool('absent'), exact=False)
            elif m == 'setInputValue':
                c.oblige('%s#%d' % (m, q), hy, And(fsame(ex.hread(o.st, v, 'Variable', '_value', 'double'), x), *ok), exact=False)
            else:
                c.oblige('%s#%d' % (m, q), hy, And(fsame(o.val, ex.hread(st0, v, 'Variable', '_value', 'double')), *ok), exact=False)


def groups(prog, tier):
    g = []
    for o, f, k, w in COLL:
        g.append(('%s of %s by position' % (w, o), positions, o, f, k, w))
        if k in NAMED:
            g.append(('%s of %s by name' % (w, o), names, o, f, k, w))
    return g + [('Engine::variables', variables), ('values by name', byname)]


SEARCHED = 'random histories of additions, insertions, replacements, removals and look-ups on engines, variables and rule blocks, compared with lists'
DRIVER = 'engine'
KINDS = ['in', 'out', 'rb', 'term', 'rule']


def script(rng):
    """coll KIND OP ...: the items are named; the answer is the list of item identities."""
    lists = {k: [] for k in KINDS}
    ops = [('new', '0'), ('raw', 'coll reset', ['ok'])]
    nid = [0]
    show = lambda k: ' '.join(['%d' % len(lists[k])] + ['%d' % i for i, _ in lists[k]])
    names_ = ['a', 'b', 'c', 'A', 'ab', '']
    kinds = rng.sample(KINDS, rng.randint(1, 2))
    for _ in range(rng.randint(5, 40)):
        k = rng.choice(kinds)
        L = lists[k]
        op = rng.choice(['add', 'add', 'insert', 'insert', 'set', 'remove', 'removename', 'get', 'getname', 'has', 'list'])
        if k == 'rule' and op in ('removename', 'getname', 'has'):
            op = 'get'
        if k == 'term' and op == 'removename':
            op = 'remove'
        if k in ('term', 'rule') and op == 'set':
            op = 'insert'
        nm = rng.choice(names_)
        first = next((j for j, (i, x) in enumerate(L) if x == nm), None)
        if op in ('add', 'insert', 'set'):
            nid[0] += 1
            at = rng.randint(0, len(L))
            if op == 'add':
                L.append((nid[0], nm))
                w = 'ok'
            elif op == 'insert':
                L.insert(at, (nid[0], nm))
                w = 'ok'
            else:
                at = rng.randint(0, len(L) + 1)
                if at < len(L):
                    w = '%d' % L[at][0]
                    L[at] = (nid[0], nm)
                else:
                    w = 'throw'
            ops.append(('raw', 'coll %s %s %d %d "%s"' % (k, op, nid[0], at, nm), [w]))
        elif op in ('remove', 'get'):
            at = rng.randint(0, len(L) + 1)
            w = '%d' % L[at][0] if at < len(L) else 'throw'
            if op == 'remove' and at < len(L):
                del L[at]
            ops.append(('raw', 'coll %s %s %d' % (k, op, at), [w]))
        elif op in ('removename', 'getname', 'has'):
            w = ('1' if first is not None else '0') if op == 'has' else '%d' % L[first][0] if first is not None else 'throw'
            if op == 'removename' and first is not None:
                del L[first]
            ops.append(('raw', 'coll %s %s "%s"' % (k, op, nm), [w]))
        ops.append(('raw', 'coll %s list' % k, show(k).split()))
    if rng.random() < 0.2:
        ops.append(('raw', 'coll variables list', (' '.join(['%d' % (len(lists['in']) + len(lists['out']))] + ['%d' % i for i, _ in lists['in'] + lists['out']])).split()))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 12000 if tier == 'quick' else 100000)], seed)
