"""P19: formulas are parsed with the documented precedence and evaluated exactly."""
import ctypes
import ctypes.util
import math
import random
import re
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import fz, ref, gen as G

PROPERTY = 'P19'
SOURCES = ['term/Function.cpp', 'factory/FunctionFactory.cpp', 'Engine.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'variable/OutputVariable.cpp', 'fuzzylite.cpp', 'Exception.cpp']
TRUSTED = ['the meaning of <cmath> functions (the registry is proved to hold the right function for every name; the search compares values with the C library)',
           'Function::toPostfix and Function::parse are checked by the search only (random formulas), not proved']
BUDGET = 200
CONTRACTED = ['Function::Node::evaluate', 'FunctionFactory::registerOperators', 'FunctionFactory::registerFunctions', 'Function::membership', 'Function::evaluate(const std::map *)', 'Function::evaluate(const std::map &)']



SEARCHED = 'random formulas rendered with as few parentheses as the documented precedence allows, malformed variants, and function terms over engines'
DRIVER = 'engine'

libm = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')


def cm(name, n):
    f = getattr(libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


def div(a, b):
    if b != 0 or math.isnan(a) or math.isnan(b):
        return a / b if b != 0 else math.nan
    return math.nan if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)


def rnd(x):
    return cm('floor', 1)(x + 0.5) if x > 0 else cm('ceil', 1)(x - 0.5)


b_ = lambda f: lambda *a: 1.0 if f(*a) else 0.0
cmin = lambda a, b: math.nan if math.isnan(a) or math.isnan(b) else min(a, b)
cmax = lambda a, b: math.nan if math.isnan(a) or math.isnan(b) else max(a, b)
OPS = {  # name: (arity, precedence, right associative, meaning)
    '!': (1, 100, True, b_(lambda a: not ref.eq(a, 1.0))), '~': (1, 100, True, lambda a: -a),
    '^': (2, 90, True, cm('pow', 2)),
    '*': (2, 80, False, lambda a, b: a * b), '/': (2, 80, False, div), '%': (2, 80, False, cm('fmod', 2)),
    '+': (2, 70, False, lambda a, b: a + b), '-': (2, 70, False, lambda a, b: a - b),
    'and': (2, 60, False, b_(lambda a, b: ref.eq(a, 1.0) and ref.eq(b, 1.0))), 'or': (2, 50, False, b_(lambda a, b: ref.eq(a, 1.0) or ref.eq(b, 1.0)))}
FUN = {n: (1, cm(n, 1)) for n in 'acos asin atan ceil cos cosh exp fabs floor log log10 sin sinh sqrt tan tanh acosh asinh atanh log1p'.split()}
FUN.update({n: (2, cm(n, 2)) for n in 'atan2 fmod pow'.split()})
FUN.update({'abs': (1, abs), 'round': (1, rnd), 'min': (2, cmin), 'max': (2, cmax), 'eq': (2, b_(ref.eq)), 'neq': (2, b_(lambda a, b: not ref.eq(a, b))),
            'gt': (2, b_(ref.gt)), 'lt': (2, b_(ref.lt)), 'ge': (2, b_(ref.ge)), 'le': (2, b_(ref.le))})
NAMES = ['a', 'b', 'c1', 'sine', 'order', 'android', 'minx', 'x_y', 'Big.Name', 'band']


def tree(rng, depth, names):
    q = rng.random()
    if depth == 0 or q < 0.12:
        if rng.random() < 0.5 and names:
            return ('var', rng.choice(names))
        return ('num', rng.choice(['0', '1', '2', '3', '0.5', '2.5', '10', '1.25', '0.1', '7', '100', '.5', '4.', '1e2', '1', '1']) if rng.random() < 0.97 else rng.choice(['nan', 'inf']))
    if q < 0.62:
        op = rng.choice(['^', '*', '/', '%', '+', '-', '+', '-', '*', 'and', 'or', '^'])
        return ('op', op, [tree(rng, depth - 1, names) for _ in range(2)])
    if q < 0.75:
        return ('op', rng.choice('!~'), [tree(rng, depth - 1, names)])
    f = rng.choice(list(FUN))
    return ('fun', f, [tree(rng, depth - 1, names) for _ in range(FUN[f][0])])


def value(t, env, jit=None):
    if t[0] == 'num':
        return float(t[1])
    if t[0] == 'var':
        r = env[t[1]]
        return r * (1 + jit.uniform(-1, 1) * 1e-13) if jit and not math.isinf(r) else r
    a = [value(x, env, jit) for x in t[2]]
    f = OPS[t[1]][3] if t[0] == 'op' else FUN[t[1]][1]
    try:
        r = f(*a)
    except OverflowError:
        r = math.inf
    if jit and not (math.isnan(r) or math.isinf(r)) and r != round(r):
        r *= 1 + jit.uniform(-1, 1) * 1e-13
    return r


def sure(t, env):
    """The value, or raises Unsure when rounding may decide it."""
    v = value(t, env)
    for s in (1, 2, 3):
        if not ref.close(value(t, env, random.Random(s)), v, 1e-9, 1e-10):
            raise ref.Unsure()
    return v


def tokens(rng, t, extra=0.1):
    """The formula with as few parentheses as needed, and a few more."""
    if t[0] in ('num', 'var'):
        r, p = [t[1]], 1000
    elif t[0] == 'fun':
        r, p = [t[1], '('], 1000
        for i, x in enumerate(t[2]):
            r += ([','] if i else []) + tokens(rng, x, extra)
        r.append(')')
    else:
        n, p, right, _ = OPS[t[1]]
        xs = []
        for i, x in enumerate(t[2]):
            s = tokens(rng, x, extra)
            q = OPS[x[1]][1] if x[0] == 'op' else 1000
            if n == 2 and (q < p or q == p and (i == 0) == right) or n == 1 and q < p:
                s = ['('] + s + [')']
            xs.append(s)
        r = [t[1]] + xs[0] if n == 1 else xs[0] + [t[1]] + xs[1]
    if rng.random() < extra:
        r = ['('] + r + [')']
    return r


def word(t):
    return bool(re.match(r'[\w.]', t))


def render(rng, toks):
    s = ''
    for i, t in enumerate(toks):
        if i and (word(t) and word(toks[i - 1]) or rng.random() < 0.35):
            s += rng.choice([' ', ' ', '  ', '\t'])
        s += t
    return s


def malformed(rng, toks):
    """A variant that certainly is malformed, or None."""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        q = rng.random()
        if q < 0.35 and t:
            del t[min(i, len(t) - 1)]
        elif q < 0.6:
            t.insert(i, rng.choice('()'))
        elif q < 0.8:
            t.insert(i, rng.choice(['+', '*', '!', '2', 'a', 'sin', ',', 'and', '^']))
        elif len(t) > 1:
            j = rng.randrange(len(t))
            i = min(i, len(t) - 1)
            t[i], t[j] = t[j], t[i]
    depth, bad, need, had = 0, False, 0, 0
    for x in t:
        if x == '(':
            depth += 1
        elif x == ')':
            depth -= 1
            bad = bad or depth < 0
        elif x == ',':
            bad = bad or depth == 0
        elif x in OPS:
            need += OPS[x][0] - 1
        elif x in FUN:
            need += FUN[x][0] - 1
        else:
            had += 1
    return t if bad or depth or had - need != 1 else None


def script(rng):
    names = rng.sample(NAMES, rng.randint(0, 3))
    ops = [('new', '0')]
    R = lambda l, w: ops.append(('raw', l, w))
    env = {n: rng.choice([0.0, 1.0, rng.uniform(-3, 3), rng.uniform(0, 1), rng.uniform(-20, 20)]) for n in names}
    pre = '%d %s' % (len(env), ' '.join('%s %s' % (n, ref.fmt(v)) for n, v in env.items()))
    for _ in range(6):
        t = tree(rng, rng.randint(1, 5), names)
        toks = tokens(rng, t, rng.choice([0, 0.1, 0.3]))
        if any(x in ('nan', 'inf') for x in toks) and rng.random() < 0.5:
            continue
        try:
            R('formula %s %s' % (pre, esc(render(rng, toks))), [float(sure(t, env))])
        except ref.Unsure:
            pass
        b = malformed(rng, toks)
        if b:
            R('formula %s %s' % (pre, esc(render(rng, b))), ['throw'])
        if rng.random() < 0.2:
            u = tree(rng, 3, ['unknown'])
            if 'unknown' in tokens(rng, u):
                R('formula %s %s' % (pre, esc(render(rng, tokens(rng, u)))), ['throw'])
    return ops


def esc(s):
    return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')


def terms(rng):
    """Function terms: x, the engine's variables and the given variables."""
    ops = [('new', '0')]
    R = lambda l, w: ops.append(('raw', l, w))
    ivs = {}
    for i in range(rng.randint(0, 3)):
        n = 'in%d' % i
        lock = rng.random() < 0.3
        ops.append(('iv', n, -5.0, 5.0, lock, rng.random() < 0.8))
        ivs[n] = (lock, math.nan)
    for i in range(rng.randint(0, 2)):
        n = 'out%d' % i
        ops.append(('ov', n, -5.0, 5.0, False, True, math.nan, False, 'none', None))
        ivs[n] = (False, math.nan)
    given, loaded, t, eng, exists = {}, False, None, False, False
    names = list(ivs) + ['x', 'x', 'x'] + rng.sample(NAMES, 2)

    def env(x=None):
        e = dict(given)
        if eng:
            e.update({n: v for n, (l, v) in ivs.items()})
        if x is not None:
            e['x'] = x
        return e

    def ev(e):
        try:
            return [float(sure(t, e))]
        except KeyError:
            return ['throw']

    def vars_of(t):
        return {t[1]} if t[0] == 'var' else set() if t[0] == 'num' else set().union(*[vars_of(x) for x in t[2]])

    def fits(e):
        return vars_of(t) <= set(e)

    for _ in range(rng.randint(6, 16)):
        q = rng.random()
        if not exists or q < 0.1:
            t, eng = tree(rng, rng.randint(1, 3), names), rng.random() < 0.7
            given = {n: round(rng.uniform(-3, 3), 3) for n in rng.sample(names, rng.randint(0, 3))}
            R('fun new t %d %d %s %s' % (eng, len(given), ' '.join('%s %s' % (n, ref.fmt(v)) for n, v in given.items()), esc(render(rng, tokens(rng, t))).lstrip()), ['ok'])
            loaded, exists = False, True
            if rng.random() < 0.3:
                R('fun mem t 0.5', ['throw'])
                R('fun eval t 0', ['throw'])
            R('fun loaded t', ['0'])
            # loading evaluates the term once at zero
            e = env(0.0)
            if not fits(e):
                R('fun load t', ['throw'])
                exists = False
                continue
            R('fun load t', ['ok'])
            loaded, given = True, e
            R('fun loaded t', ['1'])
            R('fun size t', [str(size(t))])
        elif q < 0.3:
            n = rng.choice([n for n in ivs] or ['none'])
            if n in ivs:
                v = round(rng.uniform(-8, 8), 3)
                ops.append(('set', n, v))
                ivs[n] = (ivs[n][0], max(-5.0, min(5.0, v)) if ivs[n][0] else v)
        elif q < 0.4:
            n, v = rng.choice(names), round(rng.uniform(-3, 3), 3)
            R('fun var t %s %s' % (n, ref.fmt(v)), ['ok'])
            given[n] = v
        elif q < 0.75:
            x = rng.choice([0.0, 1.0, round(rng.uniform(-6, 6), 3), math.nan])
            e = env(x)
            try:
                R('fun mem t %s' % ref.fmt(x), ev(e))
            except ref.Unsure:
                R('fun mem t %s' % ref.fmt(x), None)
            given = e
        elif q < 0.9:
            m = {n: round(rng.uniform(-3, 3), 3) for n in rng.sample(sorted(set(names)), rng.randint(0, 2))}
            given = dict(given, **m)
            try:
                R('fun eval t %d %s' % (len(m), ' '.join('%s %s' % (n, ref.fmt(v)) for n, v in m.items())), ev(given))
            except ref.Unsure:
                R('fun eval t %d %s' % (len(m), ' '.join('%s %s' % (n, ref.fmt(v)) for n, v in m.items())), None)
        elif q < 0.95:
            R('fun unload t', ['ok'])
            R('fun loaded t', ['0'])
            exists = False
        else:
            t2 = tree(rng, 2, ['x'])
            R('fun %s t %s' % (rng.choice(['reload', 'configure']), esc(render(rng, tokens(rng, t2))).lstrip()), ['ok'])
            t = t2
            given = env(0.0)
    return ops


def size(t):
    return 0 if t[0] in ('num', 'var') else 1 + sum(size(x) for x in t[2])


def fieldtype(c, cls, f):
    return [t for n, t, _ in c.p.classes[cls].fields if n == f][0]


NODE, ELEM = 'Function::Node', 'Function::Element'
MAP = 'std::map<std::string, double>'
BAD, VALK, VALV = z3.Function('no value', I, B), z3.Function('value kind', I, I), z3.Function('value', I, R)
UNK, UNV = z3.Function('unary kind', I, I, R, I), z3.Function('unary', I, I, R, R)
BIK, BIV = z3.Function('binary kind', I, I, R, I, R, I), z3.Function('binary', I, I, R, I, R, R)


def fv(ex, k, v):
    ex.ax(('fk', k.get_id()), z3.And(k >= 0, k <= 3))
    return FV(k, v)


def called(ex, f, args):
    """The value of a registered function of one or two arguments: any function of the arguments."""
    a = [x for q in args for x in (lift(q.k, I), z3.If(lift(q.k, I) == 0, lift(q.v, R), 0))]
    return fv(ex, *((UNK(f, *a), UNV(f, *a)) if len(args) == 1 else (BIK(f, *a), BIV(f, *a))))


def symmap(name):
    return X.MapV('std::string', 'double', z3.Const(name + '.keys', z3.ArraySort(S, B)),
                  {('k',): z3.Const(name + '.k', z3.ArraySort(S, I)), ('v',): z3.Const(name + '.v', z3.ArraySort(S, R))})


def lookup(m, key):
    return z3.Select(m.dom, key), FV(z3.Select(m.a[('k',)], key), z3.Select(m.a[('v',)], key))


def node(c):
    """The value of a node from the values of its children."""
    ex = c.executor(fork=False)
    st = X.State()
    r = fz.obj(ex, st, 'node', NODE)
    el, l, rr = z3.Int('element'), z3.Int('left'), z3.Int('right')
    for x in (el, l, rr):
        st.assume(z3.And(x >= 0, x < ex.alloc0))
    w = lambda cls, ref, f, v: ex.hwrite(st, ref, cls, f, fieldtype(c, cls, f), v)
    w(NODE, r, 'element', el), w(NODE, r, 'left', l), w(NODE, r, 'right', rr)
    un, bi = z3.Int('unary'), z3.Int('binary')
    st.assume(z3.And(un >= 0, bi >= 0))
    w(ELEM, el, 'unary', un), w(ELEM, el, 'binary', bi)
    var = z3.Const('variable', S)
    w(NODE, r, 'variable', SV((var,)))
    con = ex.symbolic('double', 'constant')
    w(NODE, r, 'constant', con)
    ex.hooks['fptr'] = lambda ex, st, f, args, n: called(ex, lift(f, I), args)
    text = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    for q in (NODE + '::toString', NODE + '::value'):
        ex.contracts[q] = text
    m = symmap('variables')
    key = ('root', 'variables')
    st.env[key] = m

    def sub_(x):
        return fv(ex, VALK(x), VALV(x))
    for given in (True, False):
        s = st.copy()
        arg = X.AddrOf(X.LVLocal(key, MAP)) if given else 0

        def rec(ex, st, this, args, f):
            if same(this.ref, r):
                return NotImplemented
            a = args[0]
            a = ex.rv(a, st) if isinstance(a, X.LV) else a
            mine = isinstance(a, X.AddrOf) and isinstance(a.lv, X.LVLocal) and a.lv.key == key if given else not isinstance(a, X.AddrOf) and eqv(a, 0)
            if mine is not True:
                raise Unsupported('evaluation with other variables')
            fz.may_throw(ex, st, BAD(lift(this.ref, I)))
            return sub_(lift(this.ref, I))
        ex.contracts[NODE + '::evaluate'] = rec
        has, val = lookup(m, var)
        one = z3.If(l != 0, l, rr)
        leaf = fite(var != strlit(''), val, con)
        want = fite(el == 0, leaf, fite(un != 0, called(ex, un, [sub_(one)]), called(ex, bi, [sub_(l), sub_(rr)])))
        bad = z3.If(el == 0, z3.And(var != strlit(''), z3.Or(not given, z3.Not(has))),
                    z3.If(un != 0, z3.Or(z3.And(l == 0, rr == 0), BAD(one)), z3.If(bi != 0, z3.Or(l == 0, rr == 0, BAD(l), BAD(rr)), True)))
        c.cover('node', ex.hyps(s))
        st.assume(z3.And(z3.Select(m.a[('k',)], var) >= 0, z3.Select(m.a[('k',)], var) <= 3))
        for i, o in enumerate(ex.enter(c.p.find(NODE + '::evaluate'), X.LVHeap(r, NODE), [arg], s)):
            nm = 'node %s#%d %s' % ('with variables' if given else 'without', i, o.kind)
            if o.kind == 'return':
                c.oblige(nm, ex.hyps(o.st), And(Not(bad), fsame(ex.rv(o.val, o.st), want)), exact=False)
            else:
                c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', bad), exact=False)


# the registry of the documentation: name, description ignored, arity, precedence (None where it does not matter), associativity, meaning
MEANING = {'!': 'Operation::logicalNot', '~': 'Operation::negate', '^': 'pow', '*': 'Operation::multiply', '/': 'Operation::divide', '%': 'Operation::modulo',
           '+': 'Operation::add', '-': 'Operation::subtract', 'and': 'Operation::logicalAnd', 'or': 'Operation::logicalOr',
           'min': 'Operation::min', 'max': 'Operation::max', 'round': 'Operation::round', 'eq': 'Operation::eq', 'neq': 'Operation::neq', 'gt': 'Operation::gt',
           'ge': 'Operation::ge', 'lt': 'Operation::lt', 'le': 'Operation::le'}
SAME = {'abs': ('abs', 'fabs'), 'fabs': ('abs', 'fabs')}


def registry(c):
    """Every operator and function of the registry carries the documented arity, precedence, associativity and meaning."""
    ex = c.executor(fork=False)
    st = X.State()
    fac = fz.obj(ex, st, 'this', 'FunctionFactory')
    seen = []
    base = 'CloningFactory<Function::Element *>'

    def reg(ex, st, this, args, f):
        k = ex.rv(args[0], st)
        seen.append((k.const(), lift(ex.rv(args[1], st), I)))
        return None
    ex.contracts[base + '::registerObject'] = reg
    ex.contracts[base + '::CloningFactory'] = lambda ex, st, this, args, f: None
    for what in ('registerOperators', 'registerFunctions'):
        outs = ex.enter(c.p.find('FunctionFactory::' + what), X.LVHeap(fac, 'FunctionFactory'), [], st)
        c.oblige(what + ' returns', ex.hyps(st), len(outs) == 1 and outs[0].kind == 'return', exact=False)
        st = outs[0].st
    names = [k for k, _ in seen]
    c.oblige('names', ex.hyps(st), sorted(names, key=str) == sorted(list(OPS) + list(FUN)), exact=False)
    get = lambda x, f: ex.hread(st, x, ELEM, f, fieldtype(c, ELEM, f))
    prec = {}
    for k, x in seen:
        if k not in OPS and k not in FUN:
            continue
        hy = ex.hyps(st)
        n = OPS[k][0] if k in OPS else FUN[k][0]
        c.oblige('%s: name and arity' % k, hy, And(seq(get(x, 'name'), sconst(k)), eqv(get(x, 'arity'), n), eqv(get(x, 'type'), 0 if k in OPS else 1)), exact=False)
        u, b = get(x, 'unary'), get(x, 'binary')
        f, none = (u, b) if n == 1 else (b, u)
        code = X.simplify_int(f) if hasattr(X, 'simplify_int') else z3.simplify(lift(f, I))
        c.oblige('%s: no other function' % k, hy, eqv(none, 0), exact=False)
        want = SAME.get(k, (MEANING.get(k, k),))
        ok = Or(*[eqv(f, t) for q, t in list(ex.tags.items()) if isinstance(q, tuple) and q[0] == 'fn' and isinstance(t, int) and fname(ex, t) in want])
        c.oblige('%s: meaning' % k, hy, ok, exact=False)
        prec[k] = (get(x, 'precedence'), get(x, 'associativity'))
    ops = [k for k in OPS if k in prec]
    for i, k in enumerate(ops):
        c.oblige('%s: associativity' % k, ex.hyps(st), eqv(lt(prec[k][1], 0), not OPS[k][2]), exact=False)
        for j in ops[i + 1:]:
            a, b = OPS[k][1], OPS[j][1]
            g = eqv(prec[k][0], prec[j][0]) if a == b else lt(prec[j][0], prec[k][0]) if b < a else lt(prec[k][0], prec[j][0])
            c.oblige('%s and %s: precedence' % (k, j), ex.hyps(st), g, exact=False)
    for k in FUN:
        if k in prec:
            for j in ops:
                c.oblige('%s and %s: a function waits for its parentheses' % (k, j), ex.hyps(st), lt(prec[k][0], prec[j][0]), exact=False)


def fname(ex, code):
    f = ex.tags.get(('code', code))
    if f is None:
        return None
    return f.fn.qual


def membership(c):
    """The membership is the value of the formula where the engine's variables have their current values and x the given one."""
    ex = c.executor(fork=False)
    st = X.State()
    f = fz.obj(ex, st, 'function', 'Function')
    root, eng = z3.Int('root'), z3.Int('engine')
    st.assume(z3.And(root >= 0, root <= ex.alloc0, eng >= 0, eng <= ex.alloc0))
    w = lambda cls, ref, n, v: ex.hwrite(st, ref, cls, n, fieldtype(c, cls, n), v)
    w('Function', f, '_root', root), w('Function', f, '_engine', eng)
    mt = fieldtype(c, 'Function', 'variables')
    m0 = symmap('before')
    w('Function', f, 'variables', m0)
    xin, ni = fz.symvec(ex, st, 'inputs', 'InputVariable *')
    xout, no = fz.symvec(ex, st, 'outputs', 'OutputVariable *')
    w('Engine', eng, '_inputVariables', xin), w('Engine', eng, '_outputVariables', xout)
    name = lambda r: ex.hread(st, r, 'Variable', '_name', fieldtype(c, 'Variable', '_name')).z()
    value = lambda r: ex.hread(st, r, 'Variable', '_value', fieldtype(c, 'Variable', '_value'))

    def put(q, key, v):
        return {'d': z3.Store(q['d'], key, z3.BoolVal(True)), 'k': z3.Store(q['k'], key, lift(v.k, I)), 'v': z3.Store(q['v'], key, lift(v.v, R))}

    def chain(nm, q0, vec, n):
        g = lambda k: ex.vget(vec, lift(k, I))
        fz.nonnull(ex, g, n)
        return Fold(ex, nm, [('d', m0.dom.sort()), ('k', m0.a[('k',)].sort()), ('v', m0.a[('v',)].sort())], lambda: dict(q0),
                    lambda k, q: put(q, name(g(k)), value(g(k))), n=n)
    q0 = {'d': m0.dom, 'k': m0.a[('k',)], 'v': m0.a[('v',)]}
    A = chain('inputs set', q0, xin, ni)
    B_ = chain('outputs set', A.at(ni), xout, no)
    b = B_.at(no)
    x = ex.symbolic('double', 'x')
    q = {p: z3.If(eng == 0, q0[p], b[p]) for p in q0}
    q = put(q, strlit('x'), x)
    seen = st.gh
    res = fv(ex, z3.Int('result.k'), z3.Real('result.v'))
    st.gh['given'] = -1
    mine = {}

    def ev(ex, st, this, args, fn_):
        a = args[0]
        a = ex.rv(a, st) if isinstance(a, X.LV) else a
        if not same(this.ref, f):
            raise Unsupported('evaluation of another term')
        st.gh['given'] = 1 if isinstance(a, X.AddrOf) and isinstance(a.lv, X.LVField) or isinstance(a, X.AddrOf) else 0
        fz.may_throw(ex, st, z3.Bool('evaluation fails'))
        return res
    ex.contracts['Function::evaluate'] = ev
    c.cover('membership', ex.hyps(st))
    for i, o in enumerate(ex.enter(c.p.find('Function::membership'), X.LVHeap(f, 'Function'), [x], st)):
        nm = 'membership#%d %s' % (i, o.kind)
        m = ex.hread(o.st, f, 'Function', 'variables', mt)
        hy = ex.hyps(o.st)
        if o.kind == 'return':
            c.oblige(nm, hy, And(root != 0, fsame(ex.rv(o.val, o.st), res), eqv(o.st.gh['given'], 1)), exact=False)
            c.oblige(nm + ' variables', ex.hyps(o.st), And(m.dom == q['d'], m.a[('k',)] == q['k'], m.a[('v',)] == q['v']), exact=False)
        else:
            c.oblige(nm, hy, And(o.kind == 'throw', z3.Or(root == 0, z3.Bool('evaluation fails'))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def evaluate(c, kind):
    """Evaluation takes over the given variables and evaluates the root with all of them."""
    ex = c.executor(fork=False)
    st = X.State()
    f = fz.obj(ex, st, 'function', 'Function')
    root = z3.Int('root')
    st.assume(z3.And(root >= 0, root <= ex.alloc0))
    w = lambda cls, ref, n, v: ex.hwrite(st, ref, cls, n, fieldtype(c, cls, n), v)
    w('Function', f, '_root', root)
    mt = fieldtype(c, 'Function', 'variables')
    m0, g = symmap('before'), symmap('given')
    w('Function', f, 'variables', m0)
    key = ('root', 'given')
    st.env[key] = g
    from fvc import stdlib
    n = stdlib.map_len(ex, g)
    st.assume(n >= 0)
    res = fv(ex, z3.Int('result.k'), z3.Real('result.v'))

    def step(k, q):
        kk = stdlib.map_key(ex, g, k)
        kk = kk.z() if isinstance(kk, SV) else kk
        return {'d': z3.Store(q['d'], kk, z3.BoolVal(True)), 'k': z3.Store(q['k'], kk, z3.Select(g.a[('k',)], kk)), 'v': z3.Store(q['v'], kk, z3.Select(g.a[('v',)], kk))}
    F = Fold(ex, 'taken over', [('d', m0.dom.sort()), ('k', m0.a[('k',)].sort()), ('v', m0.a[('v',)].sort())], lambda: {'d': m0.dom, 'k': m0.a[('k',)], 'v': m0.a[('v',)]}, step, n=n)
    q = F.at(n)
    st.gh['asked'] = 0

    def rec(ex, st, this, args, fn_):
        a = args[0]
        a = ex.rv(a, st) if isinstance(a, X.LV) else a
        own = isinstance(a, X.AddrOf) and not (isinstance(a.lv, X.LVLocal) and a.lv.key == key)
        st.gh['asked'] = z3.If(z3.And(lift(this.ref, I) == root, own), 1, 2)
        fz.may_throw(ex, st, z3.Bool('evaluation fails'))
        return res
    ex.contracts[NODE + '::evaluate'] = rec
    fn_ = c.p.find('Function::evaluate', 1, '*' if kind == 'pointer' else '&')
    args = [X.AddrOf(X.LVLocal(key, MAP)) if kind == 'pointer' else X.LVLocal(key, MAP)]
    c.cover('evaluate', ex.hyps(st))
    for args, given in [(args, True)] + ([([0], False)] if kind == 'pointer' else []):
        for i, o in enumerate(ex.enter(fn_, X.LVHeap(f, 'Function'), args, st.copy())):
            nm = 'evaluate %s %s#%d %s' % (kind, given, i, o.kind)
            m = ex.hread(o.st, f, 'Function', 'variables', mt)
            if o.kind == 'return':
                c.oblige(nm, ex.hyps(o.st), And(root != 0, fsame(ex.rv(o.val, o.st), res), eqv(o.st.gh['asked'], 1)), exact=False)
                want = q if given else {'d': m0.dom, 'k': m0.a[('k',)], 'v': m0.a[('v',)]}
                c.oblige(nm + ' variables', ex.hyps(o.st), And(m.dom == want['d'], m.a[('k',)] == want['k'], m.a[('v',)] == want['v']), exact=False)
            else:
                c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', z3.Or(root == 0, z3.Bool('evaluation fails'))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('node', node), ('registry', registry), ('membership', membership), ('evaluate pointer', evaluate, 'pointer'), ('evaluate reference', evaluate, 'reference')]


def search(models, seed, tier, failed=()):
    k = 1 if tier == 'quick' else 10
    return ref.run([(script, 8000 * k), (terms, 6000 * k)], seed)
