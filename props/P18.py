"""P18: engines survive an export and import through the FuzzyLite Language."""
import math
import random
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from fractions import Fraction
from . import numeric as N, fz, ref, gen as G, P23

PROPERTY = 'P18'
DIRS = {'tnorm': 'norm/t', 'snorm': 'norm/s', 'activation': 'activation', 'defuzzifier': 'defuzzifier', 'term': 'term'}
KIND = {k: v for k, v in P23.KIND.items() if k != 'hedge'}
SOURCES = ['imex/FllExporter.cpp', 'imex/FllImporter.cpp', 'term/Term.cpp', 'defuzzifier/IntegralDefuzzifier.cpp', 'defuzzifier/WeightedDefuzzifier.cpp', 'defuzzifier/Defuzzifier.cpp',
           'activation/Activation.cpp', 'fuzzylite.cpp']
SOURCES += ['%s/%s.cpp' % (DIRS[k], n) for k, (_, _, ns) in KIND.items() for n in ns]
TRUSTED = ['the text of a number, read back, is the number to the configured decimals: a function of the number alone; it is one word (Op::str and Op::toScalar are used through this contract, P26)',
           'Op::join and Op::split by a blank are inverse on lists of words (P26)', 'factories construct an object of the class registered under its class name (P23)']
BUDGET = 150
SEARCHED = 'random engines exported in random layouts, imported with comments and blanks, exported again, and processed'
DRIVER = 'engine'
CONTRACTED = ['%s::parameters' % n for n in KIND['term'][2]] + ['%s::configure' % n for n in KIND['term'][2]] + ['Function::load'] + \
    ['%s::%s' % (n, m) for n in KIND['activation'][2] for m in ('parameters', 'configure')] + ['Threshold::parseComparison', 'Threshold::comparisonOperator'] + \
    ['FllExporter::toString (norm, activation, defuzzifier)', 'FllImporter::parseTNorm', 'FllImporter::parseSNorm', 'FllImporter::parseActivation', 'FllImporter::parseDefuzzifier', 'FllImporter::parseBoolean']
RK, RV = z3.Function('read back.k', I, R, I), z3.Function('read back.v', I, R, R)
NUM = z3.Function('number text', I, R, S)
INT = z3.Function('integer text', I, S)
TK, TV = z3.Function('number of.k', S, I), z3.Function('number of.v', S, R)


def back(ex, x):
    """The number read from the text of a number."""
    k, v = lift(x.k, I), lift(Ite(isfin(x), x.v, Fraction(0), R), R)
    y = FV(RK(k, v), RV(k, v))
    ex.ax(('rbk', y.k.get_id()), z3.And(y.k >= 0, y.k <= 3, y.k == k))
    return y


class Words:
    """Texts made of words: numbers, names and literals separated by blanks."""

    def __init__(self, ex):
        self.ex = ex
        self.word = {}          # z3 id of a word -> (term, number or None)
        self.lists = {}         # z3 id of a text -> (term, VecV of the words, number of each word)
        for n in ('str', 'join', 'split', 'toScalar', 'trim'):
            ex.contracts['Operation::' + n] = getattr(self, n)

    def num(self, x):
        t = NUM(lift(x.k, I), lift(Ite(isfin(x), x.v, Fraction(0), R), R))
        self.word[t.get_id()] = (t, back(self.ex, x))
        self.ex.ax(('nt', t.get_id()), t != strlit(''))
        return SV((t,))

    def int(self, x):
        if num(x):
            return SV((str(x),))
        t = INT(lift(x, I))
        self.word[t.get_id()] = (t, from_int(x))
        self.ex.ax(('nt', t.get_id()), t != strlit(''))
        return SV((t,))

    def name(self, z):
        self.word[z.get_id()] = (z, None)
        return SV((z,))

    def str(self, ex, st, this, args, f):
        x = ex.rv(args[0], st)
        if isinstance(x, SV):
            return x
        return self.num(x) if isinstance(x, FV) else self.int(x)

    def join(self, ex, st, this, args, f):
        vs = [ex.rv(a, st) for a in args]
        if isinstance(vs[0], X.VecV):
            v, sep = vs
            if sep.const() != ' ':
                raise Unsupported('join by %r' % (sep,))
            t = fresh(S, 'joined')
            self.lists[t.get_id()] = (t, v)
            st.assume((t == strlit('')) == (lift(v.n, I) == 0))
            return SV((t,))
        n, sep, xs = vs[0], vs[1], vs[2:]
        if n != len(xs):
            raise X.Unsupported('join of %r of %d values' % (n, len(xs)))
        r = SV(())
        for i, x in enumerate(xs):
            r = r + (sep if i else SV(())) + (x if isinstance(x, SV) else self.num(x) if isinstance(x, FV) else self.int(x))
        return r

    def words(self, t):
        """The words of a text, or None."""
        out, cur = [], []
        for p in t.parts:
            if isinstance(p, str):
                q = p.split(' ')
                cur.append(q[0])
                for w in q[1:]:
                    out.append(cur)
                    cur = [w]
            elif p.get_id() in self.word:
                cur.append(p)
            else:
                return None
        out.append(cur)
        return [SV(w) for w in out if SV(w).parts]

    def split(self, ex, st, this, args, f):
        t, sep = ex.rv(args[0], st), ex.rv(args[1], st)
        if sep.const() not in (' ', ','):
            raise Unsupported('split by %r' % (sep,))
        if len(t.parts) == 1 and not isinstance(t.parts[0], str) and t.parts[0].get_id() in self.lists and sep.const() == ' ':
            v = self.lists[t.parts[0].get_id()][1]
            if X.tkind(v.et)[0] == 'F':
                a = fresh(z3.ArraySort(I, S), 'words')
                j = z3.Int('j!w')
                k, w = ex.varr(v, ('k',), I), ex.varr(v, ('v',), R)
                y = back(ex, FV(k[j], w[j]))
                ex.axioms.append(z3.ForAll([j], z3.And(TK(a[j]) == y.k, TV(a[j]) == y.v), patterns=[a[j]]))
                return X.VecV('std::string', v.n, {(): a})
            return v
        ws = self.words(t)
        if ws is None or sep.const() == ',' and any(',' in p for p in t.parts if isinstance(p, str)):
            raise Unsupported('split of %r' % (t,))
        if sep.const() == ',':
            ws = [t]
        v = X.VecV('std::string', 0, {(): z3.K(I, strlit(''))})
        for w in ws:
            z = w.z()
            if len(w.parts) == 1 and not isinstance(w.parts[0], str):
                self.word.setdefault(z.get_id(), (z, None))
            v = ex.vpush(v, w)
        return v

    def trim(self, ex, st, this, args, f):
        return ex.rv(args[0], st)

    def toScalar(self, ex, st, this, args, f):
        t = ex.rv(args[0], st)
        c = t.const()
        if c is not None:
            try:
                return fconst(float(c))
            except ValueError:
                raise Unsupported('number %r' % c)
        if len(t.parts) == 1 and t.parts[0].get_id() in self.word:
            x = self.word[t.parts[0].get_id()][1]
            if x is not None:
                return x
        z = t.z()
        for q, x in list(self.word.values()):
            if x is not None and z.eq(q):
                return x
        y = FV(TK(z), TV(z))
        ex.ax(('tsk', y.k.get_id()), z3.And(y.k >= 0, y.k <= 3))
        return y


def begin(c):
    ex = c.executor(fork=False)
    st = X.State()
    e = N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    return ex, st, Words(ex), e


def fields(c, cls):
    return [(k, f, t) for k, f, t, *_ in c.p.all_fields(cls)]


def number(ex, x):
    ex.ax(('nk', lift(x.k, I).get_id()), z3.And(lift(x.k, I) >= 0, lift(x.k, I) <= 3))
    return x


def made(c, ex, st, cls):
    """A new object as the factory constructs it."""
    fr = X.Frame(None, c.p.find(cls + '::constructor').tu, None, 0, '', 1)
    return ex.call(c.p.find(cls + '::constructor'), None, [], st, fr)


def term(c, cls):
    """The parameters of a term, given to a new term of the class, yield the same term."""
    for case in ('of height one', 'below one', 'above one', 'of no height'):
        tall = case == 'of height one'
        ex, st, W, e = begin(c)
        r = fz.obj(ex, st, 'this', cls)
        h = number(ex, ex.hread(st, r, 'Term', '_height', 'double'))
        one = fz.teq(h, from_int(1))
        st.assume(one if tall else And(Not(one), isnan(h) if case == 'of no height' else flt(h, from_int(1)) if case == 'below one' else flt(from_int(1), h)))
        for k, f, t in fields(c, cls):
            if X.tkind(t)[0] == 'F':
                number(ex, ex.hread(st, r, k, f, t))
        st0 = st.copy()
        for i, o in enumerate(ex.enter(c.p.find(cls + '::parameters'), X.LVHeap(r, cls), [], st)):
            nm = '%s %s#%d' % (cls, case, i)
            c.oblige(nm + ' parameters', ex.hyps(o.st), o.kind == 'return', exact=False)
            if o.kind != 'return':
                continue
            text = ex.rv(o.val, o.st)
            s2 = o.st
            w = made(c, ex, s2, cls)
            s2.env[('root', 'parameters')] = text
            for q, p in enumerate(ex.enter(c.p.find(cls + '::configure'), X.LVHeap(w, cls), [X.LVLocal(('root', 'parameters'), 'std::string')], s2)):
                n2 = '%s configured#%d %s' % (nm, q, p.kind)
                hy = ex.hyps(p.st)
                c.oblige(n2, hy, p.kind == 'return', exact=False)
                if p.kind != 'return':
                    continue
                for k, f, t in fields(c, cls):
                    if f in ('_name', '_engine'):
                        continue
                    old, new = ex.hread(st0, r, k, f, t), ex.hread(p.st, w, k, f, t)
                    if X.tkind(t)[0] == 'F':
                        want = from_int(1) if tall and f == '_height' else back(ex, old)
                        if cls in ('Constant',) and f == '_height':
                            continue        # without meaning for the class
                        c.oblige('%s %s' % (n2, f), hy, fsame(new, want))
                    else:
                        c.oblige('%s %s' % (n2, f), hy, False, exact=False)
    c.cover(cls, ex.hyps(st0))


def objects(c, ex, st, cls):
    """A symbolic object of the class, with its numbers."""
    r = fz.obj(ex, st, 'this', cls)
    for k, f, t in fields(c, cls):
        if X.tkind(t)[0] == 'F':
            number(ex, ex.hread(st, r, k, f, t))
    return r


def linear(c):
    """The coefficients of a linear term survive, in order."""
    ex, st, W, e = begin(c)
    r = fz.obj(ex, st, 'this', 'Linear')
    co, n = fz.symvec(ex, st, 'coefficients', 'double')
    ex.axioms.append(n >= 0)
    ex.hwrite(st, r, 'Linear', '_coefficients', 'std::vector<double>', co)
    for i, o in enumerate(ex.enter(c.p.find('Linear::parameters'), X.LVHeap(r, 'Linear'), [], st)):
        c.oblige('Linear parameters', ex.hyps(o.st), o.kind == 'return', exact=False)
        s2 = o.st
        w = made(c, ex, s2, 'Linear')
        s2.env[('root', 'parameters')] = ex.rv(o.val, s2)
        c.cover('Linear', ex.hyps(s2))
        want = lambda j: back(ex, ex.vget(co, j))
        Fold(ex, 'coefficients', [('c', I)], lambda: {'c': 0}, lambda k, s: {'c': add(s['c'], 1)}, n=n)
        ex.loop_candidates = [fz.pointwise_candidates([('the coefficients', want)], n)]
        for q, p in enumerate(ex.enter(c.p.find('Linear::configure'), X.LVHeap(w, 'Linear'), [X.LVLocal(('root', 'parameters'), 'std::string')], s2)):
            nm = 'Linear configured#%d %s' % (q, p.kind)
            v = ex.hread(p.st, w, 'Linear', '_coefficients', 'std::vector<double>')
            j = z3.Int('j')
            hy = ex.hyps(p.st)
            c.oblige(nm, hy, p.kind == 'return', exact=False)
            c.oblige(nm + ' number of coefficients', hy, eqv(v.n, n), exact=False)
            c.oblige(nm + ' coefficients', hy + [j >= 0, j < n], fsame(ex.vget(v, j), want(j)), exact=False)
    fz.loopnotes(c, ex)


def discrete(c, tall):
    """The pairs and the height of a discrete term survive, in order."""
    ex, st, W, e = begin(c)
    r = fz.obj(ex, st, 'this', 'Discrete')
    v, n = fz.symvec(ex, st, 'xy', 'std::pair<double, double>')
    ex.axioms.append(n >= 0)
    x, y = [fz.elem(ex, v, 'pair', f) for f in ('first', 'second')]
    ex.hwrite(st, r, 'Discrete', '_xy', 'std::vector<std::pair<double, double>>', v)
    h = number(ex, ex.hread(st, r, 'Term', '_height', 'double'))
    st.assume(fz.teq(h, from_int(1)) if tall else Not(fz.teq(h, from_int(1))))
    T = lambda f: W.num(f).z()
    AS = z3.ArraySort(I, S)
    total = n + n if tall else n + n + 1
    Fold(ex, 'texts', [('n', I), ('a', AS)], lambda: {'n': 0, 'a': z3.K(I, ex.default(S))},
         lambda k, s: {'n': add(s['n'], 2), 'a': z3.Store(z3.Store(s['a'], lift(s['n'], I), T(x(k))), lift(s['n'], I) + 1, T(y(k)))}, n=n, lemmas=[lambda k, s: s['n'] == 2 * lift(k, I)])
    j = z3.Int('j')

    def texts(ex, entry, mod, depth):
        out = []
        for loc in mod:
            if loc[0] == 'L' and loc[2] == ('[]', ()):
                def goal(ex, st, k, key=loc[1]):
                    a = ex.varr(st.env[key], (), S)
                    i = z3.Int('i!t')
                    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift(k, I)), z3.And(a[2 * i] == T(x(i)), a[2 * i + 1] == T(y(i)))))
                out.append(('texts of the pairs', goal))
        return out
    ex.loop_candidates = [texts]
    for i, o in enumerate(ex.enter(c.p.find('Discrete::parameters'), X.LVHeap(r, 'Discrete'), [], st)):
        nm = 'Discrete parameters#%d %s' % (i, o.kind)
        c.oblige(nm, ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind != 'return':
            continue
        t = ex.rv(o.val, o.st)
        lst = W.lists[t.parts[0].get_id()][1]
        a = ex.varr(lst, (), S)
        hy = ex.hyps(o.st)
        c.oblige(nm + ' number of words', hy, eqv(lst.n, total), exact=False)
        c.oblige(nm + ' words', hy + [j >= 0, j < n], z3.And(a[2 * j] == T(x(j)), a[2 * j + 1] == T(y(j))), exact=False)
        if not tall:
            c.oblige(nm + ' height', hy, a[2 * n] == T(h), exact=False)
    c.cover('Discrete', ex.hyps(st))
    fz.fold_obligations(c, ex)
    # any list of m words
    ex, st, W, e = begin(c)
    w = made(c, ex, st, 'Discrete')
    m = n + n if tall else n + n + 1
    words = z3.Const('words', AS)
    st.assume(n >= 0)
    ex.axioms.append(n >= 0)
    t = z3.Const('joined words', S)
    W.lists[t.get_id()] = (t, X.VecV('std::string', m, {(): words}))
    st.assume((t == strlit('')) == (m == 0))
    st.env[('root', 'parameters')] = SV((t,))

    def val(i):
        z = words[lift(i, I)]
        f = FV(TK(z), TV(z))
        ex.ax(('tsk', f.k.get_id()), z3.And(f.k >= 0, f.k <= 3))
        return f

    def pairs(ex, entry, mod, depth):
        out = []
        for loc in mod:
            if loc[0] == 'L' and loc[2][:1] == ('[]',) and isinstance(entry.env.get(loc[1]), X.VecV) and entry.env[loc[1]].et.startswith('std::pair'):
                def goal(ex, st, k, key=loc[1]):
                    i = z3.Int('i!p')
                    p = ex.vget(st.env[key], i)
                    q = z3.Int('i')
                    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lift(k, I)), zb(And(fsame(p.f[('pair', 'first')], val(2 * i)), fsame(p.f[('pair', 'second')], val(2 * i + 1))))))
                out.append(('pairs so far', goal))
            if loc[0] == 'L' and not loc[2]:
                out.append(('twice %s' % (loc[1][1],), lambda ex, st, k, key=loc[1]: eqv(st.env[key], mul(2, k))))
        return out
    Fold(ex, 'words', [('c', I)], lambda: {'c': 0}, lambda k, s: {'c': add(s['c'], 1)}, n=m)
    Fold(ex, 'pairs', [('c', I)], lambda: {'c': 0}, lambda k, s: {'c': add(s['c'], 1)}, n=n)
    ex.loop_candidates = [fz.pointwise_candidates([('the numbers', val)], m), pairs]
    for q, p in enumerate(ex.enter(c.p.find('Discrete::configure'), X.LVHeap(w, 'Discrete'), [X.LVLocal(('root', 'parameters'), 'std::string')], st)):
        nm = 'Discrete configured#%d %s' % (q, p.kind)
        v = ex.hread(p.st, w, 'Discrete', '_xy', 'std::vector<std::pair<double, double>>')
        hy = ex.hyps(p.st)
        c.oblige(nm, hy, p.kind == 'return', exact=False)
        if p.kind != 'return':
            continue
        g = ex.vget(v, j)
        c.oblige(nm + ' number of pairs', hy, eqv(v.n, n), exact=False)
        c.oblige(nm + ' pairs', hy + [j >= 0, j < n], And(fsame(g.f[('pair', 'first')], val(2 * j)), fsame(g.f[('pair', 'second')], val(2 * j + 1))), exact=False)
        c.oblige(nm + ' height', hy, fsame(ex.hread(p.st, w, 'Term', '_height', 'double'), from_int(1) if tall else val(2 * n)), exact=False)
    fz.loopnotes(c, ex)


def function(c):
    """The formula of a function term survives and is parsed for the engine of the new term."""
    ex, st, W, e = begin(c)
    r = fz.obj(ex, st, 'this', 'Function')
    text = z3.Const('formula', S)
    ex.hwrite(st, r, 'Function', '_formula', 'std::string', SV((text,)))
    tree = z3.Function('tree of the formula', S, I)
    ex.contracts['Function::parse'] = lambda ex, st, this, args, f: tree(ex.rv(args[0], st).z())
    ex.contracts['Function::membership'] = lambda ex, st, this, args, f: number(ex, FV(z3.Int('at zero.k'), z3.Real('at zero.v')))
    for i, o in enumerate(ex.enter(c.p.find('Function::parameters'), X.LVHeap(r, 'Function'), [], st)):
        c.oblige('Function parameters', ex.hyps(o.st), And(o.kind == 'return', seq(ex.rv(o.val, o.st), SV((text,)))))
        s2 = o.st
        w = made(c, ex, s2, 'Function')
        s2.env[('root', 'parameters')] = ex.rv(o.val, s2)
        eng = z3.Int('engine')
        ex.hwrite(s2, w, 'Function', '_engine', 'const Engine *', eng)
        c.cover('Function', ex.hyps(s2))
        for q, p in enumerate(ex.enter(c.p.find('Function::configure'), X.LVHeap(w, 'Function'), [X.LVLocal(('root', 'parameters'), 'std::string')], s2)):
            hy = ex.hyps(p.st)
            c.oblige('Function configured#%d' % q, hy, p.kind == 'return')
            rd = lambda f: ex.hread(p.st, w, 'Function', f, [t for k, g, t in fields(c, 'Function') if g == f][0])
            c.oblige('Function configured#%d formula' % q, hy, seq(rd('_formula'), SV((text,))))
            c.oblige('Function configured#%d tree' % q, hy, eqv(rd('_root'), tree(text)))
            c.oblige('Function configured#%d engine' % q, hy, eqv(rd('_engine'), eng))


def factories(c, ex, W=None):
    """Factories by their contract: a new object of the class of that name, as its constructor makes it; nothing for an empty name."""
    import itertools
    ids = {}
    fm = z3.Int('factory manager')

    def instance(ex, st, this, args, f):
        ex.ax(('fm',), z3.And(fm > 0, fm <= ex.alloc0))
        return fm
    ex.contracts['FactoryManager::instance'] = instance
    for k, (base, fac, names) in KIND.items():
        def get(ex, st, this, args, f, k=k):
            r = ids.setdefault(k, z3.Int('factory of ' + k))
            ex.ax(('fac', k), z3.And(r > 0, r <= ex.alloc0))
            return r
        ex.contracts['FactoryManager::' + k] = get

        def make(ex, st, this, args, f, k=k, names=names):
            n = ex.rv(args[0], st).const()
            if n is None:
                raise Unsupported('construction of an unknown name %r' % (ex.rv(args[0], st),))
            if n == '':
                return 0
            if n not in names:
                fz.may_throw(ex, st, True)
            return made(c, ex, st, n)
        ex.contracts['ConstructionFactory<%s *>::constructObject' % base] = make

        def has(ex, st, this, args, f, names=names):
            n = ex.rv(args[0], st)
            if n.const() is None:
                n2 = n.parts[0].split(' ')[0] if n.parts and isinstance(n.parts[0], str) else None
                if n2 in KIND['activation'][2]:
                    return False
                raise Unsupported('lookup of an unknown name')
            return n.const() in names or n.const() == ''
        ex.contracts['ConstructionFactory<%s *>::hasConstructor' % base] = has


def importer(ex, st):
    return X.LVHeap(fz.obj(ex, st, 'importer', 'FllImporter'), 'FllImporter')


def exporter(ex, st):
    return X.LVHeap(fz.obj(ex, st, 'exporter', 'FllExporter'), 'FllExporter')


def there_and_back(c, ex, st, nm, piece, ref, parse, check):
    """Export the object, import the text, and check the object made."""
    f = [x for x in c.p.funcs.values() if x.cls == 'FllExporter' and x.name == 'toString' and x.ftype.split('(')[1].startswith('const %s *' % piece)]
    c.cover(nm, ex.hyps(st))
    st0 = st.copy()
    for i, o in enumerate(ex.enter(f[0], exporter(ex, st), [ref], st)):
        c.oblige('%s exported#%d' % (nm, i), ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind != 'return':
            continue
        s2 = o.st
        s2.env[('root', 'text')] = ex.rv(o.val, s2)
        for q, p in enumerate(ex.enter(c.p.find('FllImporter::' + parse), importer(ex, s2), [X.LVLocal(('root', 'text'), 'std::string')], s2)):
            n2 = '%s imported#%d.%d %s' % (nm, i, q, p.kind)
            c.oblige(n2, ex.hyps(p.st), p.kind == 'return', exact=False)
            if p.kind == 'return':
                check(n2, st0, p)


def same_object(c, ex, nm, cls, r, st0, p):
    hy = ex.hyps(p.st)
    c.oblige(nm + ' class', hy, ex.known_cls(p.val, p.st) == cls if not num(p.val) else False, exact=False)
    for k, f, t in fields(c, cls):
        old, new = ex.hread(st0, r, k, f, t), ex.hread(p.st, p.val, k, f, t)
        if isinstance(old, FV):
            g = fsame(new, back(ex, old))
        elif isinstance(old, SV):
            g = seq(new, old)
        else:
            g = eqv(new, old)
        c.oblige('%s %s' % (nm, f), hy, g, exact=False)


def norms(c):
    for k, parse in (('tnorm', 'parseTNorm'), ('snorm', 'parseSNorm')):
        for n in KIND[k][2] + [None]:
            ex, st, W, e = begin(c)
            factories(c, ex)
            r = fz.obj(ex, st, 'norm', n) if n else 0
            there_and_back(c, ex, st, n or 'no ' + k, 'Norm', r, parse,
                           lambda nm, st0, p: same_object(c, ex, nm, n, r, st0, p) if n else c.oblige(nm + ' none', ex.hyps(p.st), eqv(p.val, 0)))


def activations(c):
    for n in KIND['activation'][2] + [None]:
        for comparison in range(6) if n == 'Threshold' else [None]:
            ex, st, W, e = begin(c)
            factories(c, ex)
            r = objects(c, ex, st, n) if n else 0
            if comparison is not None:
                t = [t for k, f, t in fields(c, n) if f == '_comparison'][0]
                ex.hwrite(st, r, 'Threshold', '_comparison', t, comparison)
            there_and_back(c, ex, st, '%s%s' % (n or 'no activation', comparison if comparison is not None else ''), 'Activation', r, 'parseActivation',
                           lambda nm, st0, p: same_object(c, ex, nm, n, r, st0, p) if n else c.oblige(nm + ' none', ex.hyps(p.st), eqv(p.val, 0)))


def defuzzifiers(c):
    for n in KIND['defuzzifier'][2] + [None]:
        w = n and n.startswith('Weighted')
        for ty in range(3) if w else [None]:
            ex, st, W, e = begin(c)
            factories(c, ex)
            r = objects(c, ex, st, n) if n else 0
            if w:
                t = [t for k, f, t in fields(c, n) if f == '_type'][0]
                ex.hwrite(st, r, 'WeightedDefuzzifier', '_type', t, ty)
            there_and_back(c, ex, st, '%s%s' % (n or 'no defuzzifier', ty if w else ''), 'Defuzzifier', r, 'parseDefuzzifier',
                           lambda nm, st0, p: same_object(c, ex, nm, n, r, st0, p) if n else c.oblige(nm + ' none', ex.hyps(p.st), eqv(p.val, 0)))


def booleans(c):
    for b in ('true', 'false', None):
        ex, st, W, e = begin(c)
        t = SV((b,)) if b else SV((z3.Const('text', S),))
        if not b:
            st.assume(Not(seq(t, SV(('true',)))))
            st.assume(Not(seq(t, SV(('false',)))))
        st.env[('root', 'text')] = t
        for i, o in enumerate(ex.enter(c.p.find('FllImporter::parseBoolean'), importer(ex, st), [X.LVLocal(('root', 'text'), 'std::string')], st)):
            c.oblige('parseBoolean %s#%d' % (b, i), ex.hyps(o.st), And(o.kind == 'return', Iff(o.val, b == 'true')) if b else o.kind == 'throw', exact=False)


def groups(prog, tier):
    return [('%s parameters' % t, term, t) for t in KIND['term'][2] if t not in ('Discrete', 'Linear', 'Function')] + \
        [('Linear parameters', linear), ('Discrete parameters, height one', discrete, True), ('Discrete parameters', discrete, False), ('Function parameters', function),
         ('norms', norms), ('activation methods', activations), ('defuzzifiers', defuzzifiers), ('booleans', booleans)]


# ---------------------------------------------------------------- bounded: the exporter as a function of the configuration
def numtext(x, dec=3):
    """Op::str."""
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return '-inf' if x < 0 else 'inf'
    if x == 0 or abs(x) < 10.0 ** -dec:
        x = 0.0
    return '%.*f' % (dec, x)


def near(x, dec):
    """The text of the number is the number: it has at most dec decimals."""
    return math.isnan(x) or math.isinf(x) or float(numtext(x, dec)) == x


def fll(o, dec=3, indent='  ', sep='\n'):
    """The text of the engine built by the operations o."""
    name, edesc, L, blocks = '', '', [], {}
    yes = lambda b: 'true' if b else 'false'
    desc = {}
    for op in o:
        if op[0] == 'raw' and op[1].startswith('fl name'):
            name = op[1][8:]
        elif op[0] == 'raw' and op[1].startswith('fl desc engine'):
            edesc = op[1].split(' ', 4)[4]
        elif op[0] == 'raw' and op[1].startswith('fl desc'):
            _, _, what, n, t = op[1].split(' ', 4)
            desc[n] = t
    ins, outs, rbs = [], [], []
    for op in o:
        if op[0] == 'iv':
            _, n, lo, hi, lock, en = op
            b = ['InputVariable: ' + n] + (['description: ' + desc[n]] if desc.get(n) else []) + ['enabled: ' + yes(en), 'range: %s %s' % (numtext(lo, dec), numtext(hi, dec)), 'lock-range: ' + yes(lock)]
            ins.append(b)
            blocks[n] = b
        elif op[0] == 'ov':
            _, n, lo, hi, lock, en, default, lockprev, agg, d = op
            if d is None:
                dt = 'none'
            else:
                c, a = d.split(':')
                dt = c if a in ('Automatic', '1000') else c + ' ' + a
            b = ['OutputVariable: ' + n] + (['description: ' + desc[n]] if desc.get(n) else []) + \
                ['enabled: ' + yes(en), 'range: %s %s' % (numtext(lo, dec), numtext(hi, dec)), 'lock-range: ' + yes(lock), 'aggregation: ' + (agg or 'none'),
                 'defuzzifier: ' + dt, 'default: ' + numtext(default, dec), 'lock-previous: ' + yes(lockprev)]
            outs.append(b)
            blocks[n] = b
        elif op[0] == 'term':
            _, v, cls, n, h, p = op[:6]
            ps = list(p) if cls == 'Function' else [numtext(float(x), dec) for x in p]
            if cls not in ('Function', 'Linear', 'Constant') and h is not None and abs(h - 1) >= 1e-6:
                ps.append(numtext(h, dec))
            blocks[v].append(' '.join(['term: ' + n, cls] + ps))
        elif op[0] == 'rb':
            _, n, en, conj, disj, imp, act = op
            a = (act or 'none').split(':')
            if a[0] in ('First', 'Last'):
                a = [a[0], a[1], numtext(float(a[2]), dec)]
            elif a[0] == 'Threshold':
                a = [a[0], a[1], numtext(float(a[2]), dec)]
            b = ['RuleBlock: ' + n] + (['description: ' + desc[n]] if desc.get(n) else []) + \
                ['enabled: ' + yes(en), 'conjunction: ' + (conj or 'none'), 'disjunction: ' + (disj or 'none'), 'implication: ' + (imp or 'none'), 'activation: ' + ' '.join(a)]
            rbs.append(b)
            blocks[n] = b
        elif op[0] == 'rule':
            blocks[op[1]].append('rule: ' + op[4])
    lines = ['Engine: ' + name] + (['description: ' + edesc] if edesc else [])
    for b in ins + outs + rbs:
        lines += [b[0]] + [indent + l for l in b[1:]]
    return sep.join(lines)


WORDS = ['tank', 'level of water', 'speed (m/s)', 'x: y', 'a = b', 'mixed; case', '100 %', 'é', 'tip, please']


def esc(s):
    return s.replace('\\', '\\\\').replace('\n', '\\n')


def toks(s):
    return [esc(s).replace(' ', '\\s').replace('\t', '\\t')]


def formula(rng, g, var):
    """A formula over x, the input variables and the output variables before the variable.

    (Known finding: a formula that mentions a variable that is not imported yet, its own or a later one, makes the import fail.)"""
    outs = [o[0] for o in g.out]
    vs = [(i, v[0], False) for i, v in enumerate(g.inp)] + [(i, n, True) for i, n in enumerate(outs[:outs.index(var)])]
    parts = rng.sample(vs, min(len(vs), rng.randint(0, 3)))
    sp = rng.choice(['', ' '])
    text = (sp + '+' + sp).join(['2%s*%sx' % (sp, sp)] + [n for i, n, out in parts])

    def fn(e, x):
        r = 2 * x
        for i, n, out in parts:
            r += (e.outputs if out else e.inputs)[i].value
        return r
    return [text], fn


def engine(rng, dec, key='0'):
    """A random engine whose numbers have at most dec decimals."""
    old = G.q
    G.q = lambda rng, x: round(x, dec) + 0.0
    try:
        g = G.Eng(rng, key=key, nin=(0, 3), none=0.15, disabled=0.15, outin=0.1, anys=0.1)
    finally:
        G.q = old
    o = []
    for op in g.o:
        if op[0] == 'rule':
            if rng.random() < 0.1:
                o.append(('rule', op[1], True, False, rng.choice(['if something is odd then nothing is even', 'a rule without form', op[4] + ' with']), None))
            op = ('rule', op[1], True, True, op[4], op[5])
        if op[0] == 'term' and op[2] not in ('Function', 'Linear', 'Constant') and rng.random() < 0.15:
            op = op[:4] + (rng.choice([1.5, 2.0, 1.1, 0.3, 1.0]),) + op[5:]
        if op[0] == 'term' and op[2] == 'Function' and rng.random() < 0.6:
            op = op[:5] + formula(rng, g, op[1])
        if op[0] == 'ov' and op[9] and rng.random() < 0.15 and op[9].split(':')[0] not in ('WeightedAverage', 'WeightedSum'):
            op = op[:9] + (op[9].split(':')[0] + ':1000',)
        o.append(op)
    g.o = o
    if rng.random() < 0.7:
        o.append(('raw', 'fl name ' + rng.choice(WORDS), ['ok']))
    for what, ns in (('engine', ['-']), ('var', [v[0] for v in g.inp] + [v[0] for v in g.out]), ('rb', g.rb)):
        for n in ns:
            if rng.random() < 0.3:
                o.append(('raw', 'fl desc %s %s %s' % (what, n, rng.choice(WORDS)), ['ok']))
    return g


def fits(o, dec):
    for op in o:
        xs = []
        if op[0] == 'iv':
            xs = op[2:4]
        elif op[0] == 'ov':
            xs = op[2:4] + (op[6],)
        elif op[0] == 'term':
            xs = [] if op[2] == 'Function' else list(op[5]) + ([op[4]] if op[4] is not None else [])
        elif op[0] == 'rb' and op[6]:
            xs = [float(a) for a in op[6].split(':')[2:]]
        if not all(near(float(x), dec) for x in xs):
            return False
    return True


def relayout(rng, text):
    """Comments, blank lines and blanks around the parts do not matter to the import."""
    out = []
    for l in text.split('\n'):
        while rng.random() < 0.15:
            out.append(rng.choice(['', '   ', '# comment', '  # term: x Triangle 0 1 2', '#']))
        k, v = l.split(':', 1)
        sp = lambda: rng.choice(['', ' ', '  ', '\t']) if rng.random() < 0.3 else ''
        l = rng.choice(['', '  ', '\t', '    ']) + k.strip() + sp() + ':' + sp() + v + sp()
        if rng.random() < 0.15:
            l += rng.choice([' # comment', '#', ' ## x: y'])
        out.append(l)
    return '\n'.join(out)


def script(rng):
    dec = rng.choice([3, 3, 3, 0, 1, 2, 5, 6, 9])
    g = engine(rng, min(dec, 3) if dec else 1)
    o = list(g.o)
    exact = fits(o, dec)
    ops = list(o) + [('decimals', dec)]
    default = rng.random() < 0.5
    indent, sep = ('  ', '\n') if default else (rng.choice(['', '  ', '\t', '    ']), rng.choice(['\n', '\n', ';;', '\n\n', '@']))
    ex = lambda i='  ', s='\n': ('raw', 'fl export %s %s' % (esc(i).replace(' ', '_').replace('\t', '\\t') or '-', esc(s)), toks(fll(o, dec, i, s)))
    ops.append(ex(indent, sep))
    for what, names in (('in', g.inp), ('out', g.out)):
        for v in names:
            if rng.random() < 0.1:
                pass
    text = fll(o, dec, indent, sep)
    if sep == '\n' and rng.random() < 0.5:
        text = relayout(rng, text)
    ops.append(('flimport', '1', sep, text))
    # (an activation method is assumed where there is none)
    if exact:
        ops.append(ex())
        for b in g.rb:
            for i, r in enumerate([op for op in o if op[0] == 'rule' and op[1] == b]):
                if r[5] is not None:
                    ops.append(('tree', b, i))
        for b in g.rb:
            ops.append(('rules', b))
        if rng.random() < 0.7:
            for _ in range(rng.randint(1, 3)):
                ops += g.inputs() + [('process',)] + g.observe()
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 8000 if tier == 'quick' else 60000)], seed)
