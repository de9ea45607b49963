"""P23: factories construct exactly what is registered under a name."""
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from fvc.exec import dtype
from . import numeric as N, fz, ref

PROPERTY = 'P23'
KIND = {
    'tnorm': ('TNorm', 'TNormFactory', 'AlgebraicProduct BoundedDifference DrasticProduct EinsteinProduct HamacherProduct Minimum NilpotentMinimum'),
    'snorm': ('SNorm', 'SNormFactory', 'AlgebraicSum BoundedSum DrasticSum EinsteinSum HamacherSum Maximum NilpotentMaximum NormalizedSum UnboundedSum'),
    'activation': ('Activation', 'ActivationFactory', 'First General Highest Last Lowest Proportional Threshold'),
    'defuzzifier': ('Defuzzifier', 'DefuzzifierFactory', 'Bisector Centroid LargestOfMaximum MeanOfMaximum SmallestOfMaximum WeightedAverage WeightedSum'),
    'hedge': ('Hedge', 'HedgeFactory', 'any extremely not seldom somewhat very'),
    'term': ('Term', 'TermFactory', 'Bell Binary Concave Constant Cosine Discrete Function Gaussian GaussianProduct Linear PiShape Ramp Rectangle SShape Sigmoid '
             'SigmoidDifference SigmoidProduct Spike Trapezoid Triangle ZShape'),
}
KIND = {k: (b, f, n.split()) for k, (b, f, n) in KIND.items()}
OPERATORS = {'!': 1, '~': 1, '^': 2, '*': 2, '/': 2, '%': 2, '+': 2, '-': 2, 'and': 2, 'or': 2}
FUNCTIONS = {n: 1 for n in 'abs acos asin atan ceil cos cosh exp fabs floor log log10 round sin sinh sqrt tan tanh acosh asinh atanh log1p'.split()}
FUNCTIONS.update({n: 2 for n in 'atan2 eq fmod ge gt le lt max min neq pow'.split()})
DIRS = {'tnorm': 'norm/t', 'snorm': 'norm/s', 'activation': 'activation', 'defuzzifier': 'defuzzifier', 'hedge': 'hedge', 'term': 'term'}


def cname(kind, n):
    return n[0].upper() + n[1:] if kind == 'hedge' else n


SOURCES = ['factory/%s.cpp' % f for _, f, _ in KIND.values()] + ['factory/FunctionFactory.cpp', 'term/Function.cpp', 'term/Term.cpp', 'defuzzifier/IntegralDefuzzifier.cpp',
                                                                 'defuzzifier/WeightedDefuzzifier.cpp', 'defuzzifier/Defuzzifier.cpp', 'fuzzylite.cpp']
SOURCES += ['%s/%s.cpp' % (DIRS[k], cname(k, n)) for k, (_, _, ns) in KIND.items() for n in ns]
TRUSTED = ['std::map behaves as a finite map with ordered, duplicate-free enumeration of its keys']
BUDGET = 200
CONTRACTED = ['ConstructionFactory<T>::registerConstructor, deregisterConstructor, hasConstructor, getConstructor, constructObject, available (T* for the six factories)',
              'CloningFactory<Function::Element *>::registerObject, deregisterObject, hasObject, getObject, cloneObject, available, copyFrom'] + [f for _, f, _ in KIND.values()]


def fn(c, cls, name, const=None):
    fs = [f for f in c.p.funcs.values() if f.cls == cls and f.name == name]
    if not fs:
        raise X.Unsupported('no %s::%s' % (cls, name))
    return fs[0]


def fieldtype(c, cls, f):
    return [t for n, t, _ in c.p.classes[cls].fields if n == f][0]


def begin(c, cls, field):
    ex = c.executor(fork=False)
    st = X.State()
    r = fz.obj(ex, st, 'this', cls)
    t = fieldtype(c, cls, field)
    m0 = ex.hread(st, r, cls, field, t)
    key, other = z3.Const('key', S), z3.Const('other', S)
    return ex, st, r, t, m0, key, other, X.LVHeap(r, cls)


def kept(c, ex, o, cls, field, r, t, m0, nm, but=None, dom=None, val=None, other=None):
    """The map of the factory is the initial one, except (when given) at one key."""
    m = ex.hread(o.st, r, cls, field, t)
    hy = ex.hyps(o.st)
    c.oblige(nm + ' other names registered as before', hy + ([other != but] if but is not None else []), z3.Select(m.dom, other) == z3.Select(m0.dom, other))
    c.oblige(nm + ' other names construct as before', hy + [z3.Select(m0.dom, other)] + ([other != but] if but is not None else []), z3.Select(m.a[()], other) == z3.Select(m0.a[()], other))
    if but is not None:
        c.oblige(nm + ' registered', hy, z3.Select(m.dom, but) == lift(dom, B))
        if val is not None:
            c.oblige(nm + ' value', hy, z3.Select(m.a[()], but) == lift(val, I))


def construction(c, cls):
    F_ = '_constructors'
    sk = lambda k: SV((k,))
    ctor = z3.Int('constructor')
    ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
    for i, o in enumerate(ex.enter(fn(c, cls, 'registerConstructor'), this, [sk(key), ctor], st)):
        c.oblige('register#%d' % i, ex.hyps(o.st), o.kind == 'return')
        kept(c, ex, o, cls, F_, r, t, m0, 'register#%d' % i, key, True, ctor, other)
    ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
    for i, o in enumerate(ex.enter(fn(c, cls, 'deregisterConstructor'), this, [sk(key)], st)):
        c.oblige('deregister#%d' % i, ex.hyps(o.st), o.kind == 'return')
        kept(c, ex, o, cls, F_, r, t, m0, 'deregister#%d' % i, key, False, None, other)
    for m in ('hasConstructor', 'getConstructor', 'constructObject'):
        ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
        made = z3.Function('constructed by', I, I)
        calls = []

        def fptr(ex, st, fv, args, n):
            calls.append(fv)
            return made(lift(fv, I))
        ex.hooks['fptr'] = fptr
        c.cover(m, ex.hyps(st))
        has, val = z3.Select(m0.dom, key), z3.Select(m0.a[()], key)
        for i, o in enumerate(ex.enter(fn(c, cls, m), this, [sk(key)], st)):
            nm = '%s#%d %s' % (m, i, o.kind)
            kept(c, ex, o, cls, F_, r, t, m0, nm, other=other)
            if o.kind == 'throw':
                c.oblige(nm, ex.hyps(o.st), And(m == 'constructObject', Not(has)))
                continue
            c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return')
            if o.kind != 'return':
                continue
            if m == 'hasConstructor':
                c.oblige(nm, ex.hyps(o.st), Iff(o.val, has))
            elif m == 'getConstructor':
                c.oblige(nm, ex.hyps(o.st), lift(o.val, I) == z3.If(has, val, 0))
            else:
                c.oblige(nm, ex.hyps(o.st), And(has, lift(o.val, I) == z3.If(val == 0, 0, made(val))))
    names(c, cls, F_, 'available')


def names(c, cls, F_, m, sel=None):
    ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
    from fvc import stdlib
    n = stdlib.map_len(ex, m0)
    j = z3.Int('j')
    at = lambda k: stdlib.map_key(ex, m0, k).z()
    Fold(ex, 'names', [('n', I), ('a', z3.ArraySort(I, S))], lambda: {'n': 0, 'a': z3.K(I, strlit(''))},
         lambda k, s: {'n': add(s['n'], 1), 'a': z3.Store(s['a'], lift(s['n'], I), at(k))}, n=n, lemmas=[lambda k, s: s['n'] == lift(k, I),
                                                                                                       lambda k, s: z3.Implies(z3.And(j >= 0, j < lift(k, I)), z3.Select(s['a'], j) == at(j))])
    for i, o in enumerate(ex.enter(fn(c, cls, m), this, [], st)):
        nm = '%s#%d %s' % (m, i, o.kind)
        c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind != 'return':
            continue
        c.oblige(nm + ' number of names', ex.hyps(o.st), eqv(o.val.n, n), exact=False)
        g = ex.vget(o.val, j).z()
        kj = at(j)
        c.oblige(nm + ' names in order', ex.hyps(o.st) + [j >= 0, j < n], g == kj, exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def cloning(c):
    cls, F_ = 'CloningFactory<Function::Element *>', '_objects'
    sk = lambda k: SV((k,))
    obj = z3.Int('object')
    ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
    for i, o in enumerate(ex.enter(fn(c, cls, 'registerObject'), this, [sk(key), obj], st)):
        c.oblige('register#%d' % i, ex.hyps(o.st), o.kind == 'return')
        kept(c, ex, o, cls, F_, r, t, m0, 'register#%d' % i, key, True, obj, other)
    ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
    deleted = []
    ex.hooks['delete'] = lambda ex, st, v: deleted.append((list(st.pc), v))
    for i, o in enumerate(ex.enter(fn(c, cls, 'deregisterObject'), this, [sk(key)], st)):
        c.oblige('deregister#%d' % i, ex.hyps(o.st), o.kind == 'return')
        kept(c, ex, o, cls, F_, r, t, m0, 'deregister#%d' % i, key, False, None, other)
    for i, (pc, v) in enumerate(deleted):
        c.oblige('deregister deletes its own object only#%d' % i, pc + ex.axioms + ex.lit_axioms(), And(z3.Select(m0.dom, key), eqv(v, z3.Select(m0.a[()], key))))
    for m in ('hasObject', 'getObject', 'cloneObject'):
        ex, st, r, t, m0, key, other, this = begin(c, cls, F_)
        made = z3.Function('clone of', I, I)
        ex.contracts['Function::Element::clone'] = lambda ex, st, this, args, f: made(lift(this.ref, I))
        c.cover(m, ex.hyps(st))
        has, val = z3.Select(m0.dom, key), z3.Select(m0.a[()], key)
        for i, o in enumerate(ex.enter(fn(c, cls, m), this, [sk(key)], st)):
            nm = '%s#%d %s' % (m, i, o.kind)
            kept(c, ex, o, cls, F_, r, t, m0, nm, other=other)
            if o.kind == 'throw':
                c.oblige(nm, ex.hyps(o.st), And(m == 'cloneObject', Not(has)))
                continue
            c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return')
            if o.kind != 'return':
                continue
            if m == 'hasObject':
                c.oblige(nm, ex.hyps(o.st), Iff(o.val, has))
            elif m == 'getObject':
                c.oblige(nm, ex.hyps(o.st), lift(o.val, I) == z3.If(has, val, 0))
            else:
                c.oblige(nm, ex.hyps(o.st), And(has, lift(o.val, I) == z3.If(val == 0, 0, made(val))))
    names(c, cls, F_, 'available')


def defaults(c, kind):
    """The constructors of a factory register every class under its own name, and nothing else."""
    base, fac, ns = KIND[kind]
    cls = 'ConstructionFactory<%s *>' % base
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    r = fz.obj(ex, st, 'this', fac)
    t = fieldtype(c, cls, '_constructors')
    ex.hwrite(st, r, cls, '_constructors', t, ex.uninit(t))
    fs = [f for k, f in c.p.funcs.items() if f.cls == fac and f.name == fac and 'const %s &' % fac not in k]
    outs = ex.enter(fs[0], X.LVHeap(r, fac), [SV((z3.Const('name', S),))], st)
    for i, o in enumerate(outs):
        nm = '%s#%d' % (fac, i)
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        m = ex.hread(o.st, r, cls, '_constructors', t)
        other = z3.Const('other', S)
        hy = ex.hyps(o.st)
        lits = [strlit(x) for x in ns + ['']]
        hy = ex.hyps(o.st)
        c.oblige(nm + ' nothing else', hy + [other != l for l in lits], Not(z3.Select(m.dom, other)), exact=False)
        c.oblige(nm + ' no object without a name', hy, And(z3.Select(m.dom, strlit('')), z3.Select(m.a[()], strlit('')) == 0), exact=False)
        for x in ns:
            f = fn(c, cname(kind, x), 'constructor')
            c.oblige('%s %s' % (nm, x), hy, And(z3.Select(m.dom, strlit(x)), z3.Select(m.a[()], strlit(x)) == ex.fcode(X.FuncV(f))), exact=False)


def constructors(c, kind):
    base, fac, ns = KIND[kind]
    for x in ns:
        k = cname(kind, x)
        ex = c.executor(fork=False)
        st = X.State()
        N.get_eps(ex, st)
        st.assume(z3.Real('eps') > 0)
        for i, o in enumerate(ex.enter(fn(c, k, 'constructor'), None, [], st)):
            nm = '%s::constructor#%d' % (k, i)
            c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
            c.oblige(nm + ' class', ex.hyps(o.st), dtype(lift(o.val, I)) == ex.tag(k), exact=False)
            c.oblige(nm + ' new', ex.hyps(o.st), lt(ex.alloc0, o.val), exact=False)
            m = 'name' if kind == 'hedge' else 'className'
            for j, q in enumerate(ex.enter(fn(c, k, m), X.LVHeap(o.val, k), [], o.st)):
                c.oblige('%s %s' % (nm, m), ex.hyps(q.st), And(q.kind == 'return', seq(q.val, sconst(x))), exact=False)


def groups(prog, tier):
    g = []
    for k, (b, f, ns) in KIND.items():
        g.append(('factory of ' + k, construction, 'ConstructionFactory<%s *>' % b))
        g.append(('default ' + f, defaults, k))
        g.append(('constructors of ' + k, constructors, k))
    g.append(('factory of functions', cloning))
    return g


SEARCHED = 'random histories of registrations, removals, copies and constructions on every factory, compared with maps'
DRIVER = 'engine'


def script(rng):
    kind = rng.choice(list(KIND) + ['function', 'function'])
    ops = [('new', '0')]
    if rng.random() < 0.1:
        n = [len(KIND[k][2]) + 1 for k in ('tnorm', 'snorm', 'activation', 'defuzzifier', 'term', 'hedge')] + [len(OPERATORS) + len(FUNCTIONS), 0]
        ops.append(('raw', 'fac manager', [str(x) for x in n * 3]))
    if kind == 'function':
        return fscript(rng, ops)
    cls = KIND[kind][2]
    reg = dict.fromkeys(cls)
    reg = {c: c for c in cls}
    reg[''] = None
    ops.append(('raw', 'fac %s fresh' % kind, ['ok']))
    pool = cls + ['', 'x', 'other', cls[0].lower(), cls[-1] + 'x', cls[0][:-1], 'None', 'zz', '0']
    for _ in range(rng.randint(8, 50)):
        key = rng.choice(pool)
        op = rng.choice(['make', 'make', 'ptr', 'has', 'reg', 'dereg', 'avail', 'copy', 'make'])
        if op == 'reg':
            c = rng.choice(cls + ['null'])
            reg[key] = None if c == 'null' else c
            ops.append(('raw', 'fac %s reg =%s %s' % (kind, key, c), ['ok']))
        elif op == 'dereg':
            reg.pop(key, None)
            ops.append(('raw', 'fac %s dereg =%s' % (kind, key), ['ok']))
        elif op == 'has':
            ops.append(('raw', 'fac %s has =%s' % (kind, key), ['1' if key in reg else '0']))
        elif op == 'make':
            w = ['throw'] if key not in reg else ['null'] if reg[key] is None else [reg[key], '1']
            ops.append(('raw', 'fac %s make =%s' % (kind, key), w))
        elif op == 'ptr':
            ops.append(('raw', 'fac %s ptr =%s' % (kind, key), [reg.get(key) or 'null']))
        elif op == 'avail':
            ops.append(('raw', 'fac %s avail' % kind, [str(len(reg))] + ['<%s>' % k for k in sorted(reg)]))
        else:
            ops.append(('raw', 'fac %s copy' % kind, ['ok']))
    return ops


def fscript(rng, ops):
    P = lambda n, op, ar, prec, assoc: [n, op, ar, prec, assoc]
    ops.append(('raw', 'fac function fresh', ['ok']))
    reg = {}
    for n, a in OPERATORS.items():
        reg[n] = (n, True, a, None)
    for n, a in FUNCTIONS.items():
        reg[n] = (n, False, a, None)
    pool = list(reg) + ['x', 'other', '', 'SIN', '**']
    for _ in range(rng.randint(8, 50)):
        key = rng.choice(pool)
        op = rng.choice(['make', 'make', 'ptr', 'has', 'reg', 'dereg', 'avail', 'ops', 'funs', 'copy', 'assign'])
        if op == 'reg':
            n, p = rng.choice(['u', 'v', 'null']), rng.randint(0, 99)
            reg[key] = None if n == 'null' else (n, True, 2, p)
            ops.append(('raw', 'fac function reg =%s %s %d' % (key, n, p), ['ok']))
        elif op == 'dereg':
            reg.pop(key, None)
            ops.append(('raw', 'fac function dereg =%s' % key, ['ok']))
        elif op == 'has':
            ops.append(('raw', 'fac function has =%s' % key, ['1' if key in reg else '0']))
        elif op in ('make', 'ptr'):
            e = reg.get(key)
            if key not in reg and op == 'make':
                w = ['throw']
            elif e is None:
                w = ['null']
            else:
                w = [e[0], '1' if e[1] else '0', str(e[2]), '*' if e[3] is None else str(e[3]), '*' if e[3] is None else '-1', '1' if e[2] == 1 else '0', '1' if e[2] == 2 else '0']
                if op == 'make':
                    w.append('1')
            ops.append(('raw', 'fac function %s =%s' % (op, key), w))
        elif op in ('avail', 'ops', 'funs'):
            ks = [k for k in sorted(reg) if op == 'avail' or reg[k] is not None and reg[k][1] == (op == 'ops')]
            ops.append(('raw', 'fac function ' + op, [str(len(ks))] + ['<%s>' % k for k in ks]))
        else:
            ops.append(('raw', 'fac function ' + op, ['ok']))
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 6000 if tier == 'quick' else 50000)], seed)
