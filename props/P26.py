"""P26: text helpers split, join, trim and convert without loss."""
import math
import re
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref

PROPERTY = 'P26'
WS = ' \t\n\v\f\r'


SOURCES = [__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'inst.cpp'), 'fuzzylite.cpp', 'Exception.cpp']
TRUSTED = ['std::search and std::string::find answer the first occurrence at or after the given position; std::string::substr, at and concatenation are those of finite sequences of characters',
           'std::isspace and std::isalnum are predicates of the character (negative characters not considered)',
           'stream extraction of a number is a function of the text (value, failure, whether text remains)', 'streams print NaN and the infinities as nan, inf and -inf']
BUDGET = 150
CONTRACTED = ['Operation::split', 'Operation::trim', 'Operation::findReplace', 'Operation::replaceFirst', 'Operation::replaceAll', 'Operation::join', 'Operation::validName', 'Operation::toScalar', 'Operation::isNumeric']
LEN, AT, SUB = z3.Function('text length', S, I), z3.Function('text at', S, I, I), z3.Function('text part', S, I, I, S)
NXT, FOUND = z3.Function('next occurrence', S, S, I, I), z3.Function('occurs', S, S, I, B)
CHR = z3.Function('chr_str', I, S)
SPACE, ALNUM = z3.Function('isspace', I, B), z3.Function('isalnum', I, B)
NPOS = z3.Int('npos')


class Loc(X.LV):
    """The text an iterator runs over."""

    def __init__(self, z):
        self.z = z
        self.t = 'std::string'

    def ident(self):
        return ('text', self.z.get_id())


class Texts:
    """Texts as finite sequences of characters: every fact is an instance of the theory of sequences."""

    def __init__(self, c, **kw):
        self.ex = ex = c.executor(fork=False)
        self.keep = []
        ex.hooks['string'] = self.member
        ex.hooks['string_ctor'] = self.ctor
        ex.hooks['std:search'] = self.search
        ex.hooks['std:isspace'] = lambda ex, args, n, fr, st: Ite(SPACE(lift(ex.rv(ex.ev(args[0], fr, st), st), I)), 1, 0)
        ex.hooks['std:isalnum'] = lambda ex, args, n, fr, st: Ite(ALNUM(lift(ex.rv(ex.ev(args[0], fr, st), st), I)), 1, 0)
        ex.axioms.append(NPOS > 2 ** 40)
        ex.axioms.append(LEN(strlit('')) == 0)

    def text(self, st, name):
        z = z3.Const(name, S)
        self.len(z)
        self.ex.axioms.append(LEN(z) < 2 ** 30)     # texts are shorter than npos
        return z

    def ax(self, key, f, *keep):
        self.keep += keep
        self.ex.ax(key, f)

    def len(self, z):
        t = LEN(z)
        self.ax(('tl', z.get_id()), z3.And(t >= 0, (t == 0) == (z == strlit(''))), z)
        return t

    def sub(self, z, i, n):
        """n characters from i on, 0 <= i, i + n <= length."""
        i, n = lift(i, I), lift(n, I)
        t = SUB(z, i, n)
        l = self.len(z)
        self.len(t)
        self.ax(('ts', t.get_id()), z3.Implies(z3.And(i >= 0, n >= 0, i + n <= l), z3.And(LEN(t) == n, z3.Implies(z3.And(i == 0, n == l), t == z))), t)
        return t

    def next(self, z, d, p):
        p = lift(p, I)
        r, f = NXT(z, d, p), FOUND(z, d, p)
        l, m = self.len(z), self.len(d)
        w = self.sub(z, r, m)
        self.ax(('tn', r.get_id()), z3.Implies(z3.And(p >= 0, p <= l), z3.And(z3.Implies(f, z3.And(r >= p, r + m <= l, w == d)), z3.Implies(z3.Not(f), r == l))), r)
        return r, f

    def member(self, ex, name, s, vs, st, n):
        if s.const() is not None and name not in ('begin', 'end', 'cbegin', 'cend'):
            return NotImplemented
        z = s.z()
        l = self.len(z)
        if name in ('size', 'length'):
            return l
        if name == 'empty':
            return l == 0
        if name in ('at', 'front', 'back'):
            i = vs[0] if name == 'at' else 0 if name == 'front' else l - 1
            from fvc import stdlib
            stdlib.bounds(ex, st, i, l, 'at', 'throw' if name == 'at' else 'ub')
            return AT(z, lift(i, I))
        if name == 'substr':
            i = lift(vs[0], I)
            from fvc import stdlib
            stdlib.bounds(ex, st, i, l + 1, 'substr')
            n_ = l - i if len(vs) < 2 else z3.If(lift(vs[1], I) < l - i, lift(vs[1], I), l - i)
            return SV((self.sub(z, i, z3.simplify(n_)),))
        if name == 'find' and isinstance(vs[0], SV):
            p = vs[1] if len(vs) > 1 else 0
            r, f = self.next(z, vs[0].z(), p)
            return z3.If(z3.And(f, lift(p, I) <= l), r, NPOS)
        if name in ('begin', 'cbegin'):
            return X.IterV(Loc(z), 0)
        if name in ('end', 'cend'):
            return X.IterV(Loc(z), l)
        return NotImplemented

    def ctor(self, ex, vs, st):
        if len(vs) >= 2 and isinstance(vs[0], X.IterV) and isinstance(vs[1], X.IterV):
            z = vs[0].lv.z
            return SV((self.sub(z, vs[0].i, sub(vs[1].i, vs[0].i)),))
        raise Unsupported('construction of a text')

    def search(self, ex, args, n, fr, st):
        a, b, x, y = [ex.rv(ex.ev(q, fr, st), st) for q in args]
        z, d = a.lv.z, x.lv.z
        whole = And(eqv(b.i, self.len(z)), eqv(x.i, 0), eqv(y.i, self.len(d)))
        if whole is not True:
            raise Unsupported('search in a part of a text')
        return X.IterV(a.lv, self.next(z, d, a.i)[0])


def fn(c, name, npar=None, contains=None):
    return c.p.find('Operation::' + name, npar, contains)


def trim(c):
    T = Texts(c)
    ex = T.ex
    st = X.State()
    s = T.text(st, 'text')
    n = T.len(s)
    sp = lambda i: SPACE(AT(s, lift(i, I)))
    mk = lambda nm, at: Fold(ex, nm, [('c', I), ('d', B)], lambda: {'c': 0, 'd': z3.BoolVal(False)},
                             lambda k, q: {'d': Or(q['d'], Not(sp(at(k)))), 'c': Ite(Or(q['d'], Not(sp(at(k)))), q['c'], add(q['c'], 1))},
                             n=n, absorb='d', lemmas=[lambda k, q: z3.And(q['c'] >= 0, q['c'] <= lift(k, I), z3.Implies(z3.Not(q['d']), q['c'] == lift(k, I)),
                                                                          z3.Implies(z3.And(q['d'], q['c'] < n), z3.Not(sp(at(q['c'])))))])
    lead = mk('leading', lambda k: k)
    trail = mk('trailing', lambda k: sub(sub(n, 1), k))
    a = lead.at(n)['c']
    # the trailing run of white space does not reach past the first character that is not white
    trail.lemmas.append(lambda k, q: z3.Implies(z3.And(z3.Not(q['d']), n - 1 - a < lift(k, I), a < n, a >= 0), sp(a)))
    c.cover('trim', ex.hyps(st))
    for i, o in enumerate(ex.enter(fn(c, 'trim'), None, [SV((s,))], st)):
        nm = 'trim#%d %s' % (i, o.kind)
        c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind != 'return':
            continue
        b = trail.at(n)['c']
        lead.unfold(0), trail.unfold(0)
        for f in (lead, trail):
            f.absorbed(z3.IntVal(1))
            f.absorbed(1)
        whole = T.sub(s, a, n - a - b)
        c.oblige(nm, ex.hyps(o.st), seq(o.val, SV((z3.If(a == n, strlit(''), whole),))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def cz(*parts):
    return SV([q for q in parts if not z3.eq(q, strlit(''))]).z()


def occurrences(T, s, d, more, stay=False, lemmas=()):
    """Walk over the occurrences of d in s, from left to right and without overlaps: state after k of them.
    more: the additional components (name, type, initial, step(k, q, r, f)); stay: the end of the text is where the walk ends."""
    ex = T.ex
    n, m = T.len(s), T.len(d)

    def step(k, q):
        r, f = T.next(s, d, q['i'])
        v = {'i': z3.If(f, r + m, q['i'] if stay else NPOS + m), 'x': z3.If(f, r, n if stay else NPOS), 'e': z3.Not(f)}
        for nm, t, i0, g in more:
            v[nm] = g(k, q, r, f)
        return {c: Ite(q['e'], q[c], v[c]) for c in v}

    def bound(k, q):
        k = lift(k, I)
        r = z3.Implies(z3.And(z3.Not(zb(q['e'])), m >= 1), z3.And(q['i'] >= k, q['i'] <= n, q['x'] < NPOS))
        return z3.And(r, z3.Implies(z3.And(m >= 1, n >= 1), zb(q['e']) == (q['x'] == n))) if stay else r

    return Fold(ex, 'occurrences', [('i', I), ('x', I), ('e', B)] + [(nm, t) for nm, t, i0, g in more],
                lambda: dict({'i': z3.IntVal(0), 'x': z3.IntVal(0), 'e': z3.BoolVal(False)}, **{nm: i0 for nm, t, i0, g in more}),
                step, n=n + 1, absorb='e', lemmas=[bound] + list(lemmas))


def replace(c):
    T = Texts(c)
    ex = T.ex
    st = X.State()
    s, d, r = [T.text(st, nm) for nm in ('str', 'find', 'replacement')]
    n, m = T.len(s), T.len(d)
    F = occurrences(T, s, d, [('s', S, strlit(''), lambda k, q, at, f: z3.If(f, cz(q['s'], T.sub(s, q['i'], at - q['i']), r), cz(q['s'], T.sub(s, q['i'], n - q['i']))))])
    c.cover('replace', ex.hyps(st))
    for name, every in (('findReplace', True), ('findReplace', False), ('replaceAll', True), ('replaceFirst', False)):
        args = [SV((s,)), SV((d,)), SV((r,))] + ([every] if name == 'findReplace' else [])
        for i, o in enumerate(ex.enter(fn(c, name), None, args, st.copy())):
            nm = '%s%s#%d %s' % (name, every, i, o.kind)
            hy = ex.hyps(o.st)
            c.oblige(nm + ' returns', hy, o.kind == 'return', exact=False)
            if o.kind != 'return':
                continue
            v = ex.rv(o.val, o.st)
            whole = SV((F.at(n + 1)['s'],))
            at, f = T.next(s, d, 0)
            one = SV((z3.If(f, cz(T.sub(s, 0, at), r, T.sub(s, at + m, n - at - m)), s),))
            c.oblige(nm + ' nothing to find', hy, Implies(eqv(m, 0), seq(v, SV((s,)))), exact=False)
            c.oblige(nm + (' every occurrence' if every else ' one occurrence'), ex.hyps(o.st), Implies(lt(0, m), seq(v, whole if every else one)), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def split(c, ignore):
    T = Texts(c)
    ex = T.ex
    st = X.State()
    s, d = T.text(st, 'str'), T.text(st, 'delimiter')
    n, m = T.len(s), T.len(d)
    e = strlit('')
    tok = lambda q, r, f: T.sub(s, q['i'], z3.If(f, r, n) - q['i'])
    push = lambda q, r, f: z3.Or(not ignore, T.len(tok(q, r, f)) != 0)
    j = z3.Int('j')
    more = [('c', I, z3.IntVal(0), lambda k, q, r, f: z3.If(push(q, r, f), q['c'] + 1, q['c'])),
            ('a', z3.ArraySort(I, S), z3.K(I, e), lambda k, q, r, f: z3.If(push(q, r, f), z3.Store(q['a'], q['c'], tok(q, r, f)), q['a']))]
    lemmas = [lambda k, q: z3.And(q['c'] >= 0, q['c'] <= lift(k, I))]
    if not ignore:
        # the tokens so far, joined with the delimiter
        more.append(('p', S, e, lambda k, q, r, f: z3.If(q['c'] == 0, tok(q, r, f), cz(q['p'], d, tok(q, r, f)))))

        def back(k, q):
            """Joined with the delimiter, the tokens so far are the text up to where the last one ends."""
            r, f = T.next(s, d, q['i'])
            x, y = q['x'], z3.If(f, r, n)
            t = tok(q, r, f)
            T.ax(('cc', x.get_id(), y.get_id()), z3.Implies(z3.And(0 <= x, x + m <= y, y <= n, SUB(s, x, m) == d), cz(T.sub(s, 0, x), d, T.sub(s, x + m, y - x - m)) == T.sub(s, 0, y)), x, y)
            return z3.And(z3.Implies(z3.And(m >= 1, n >= 1, lift(k, I) >= 1), z3.And(q['p'] == T.sub(s, 0, x), 0 <= x, x <= n, q['c'] >= 1, z3.Implies(z3.Not(zb(q['e'])), z3.And(q['i'] == x + m, T.sub(s, x, m) == d)))),
                          z3.Implies(lift(k, I) == 0, z3.And(q['c'] == 0, q['i'] == 0, z3.Not(zb(q['e'])))), z3.Implies(zb(q['e']), x == n))
        lemmas.append(back)
    F = occurrences(T, s, d, more, True, lemmas)
    c.cover('split', ex.hyps(st))
    z = F.at(n + 1)
    for i, o in enumerate(ex.enter(fn(c, 'split'), None, [SV((s,)), SV((d,)), ignore], st.copy())):
        nm = 'split%s#%d %s' % (ignore, i, o.kind)
        hy = ex.hyps(o.st)
        c.oblige(nm + ' returns', hy, o.kind == 'return', exact=False)
        if o.kind != 'return':
            continue
        v = ex.rv(o.val, o.st)
        el = ex.varr(v, ('[]',), S)[j] if ('[]',) in v.a else ex.varr(v, (), S)[j]
        triv = z3.Or(n == 0, m == 0)
        hy = ex.hyps(o.st)
        c.oblige(nm + ' number of tokens', hy, eqv(v.n, z3.If(triv, 1, z['c'])), exact=False)
        c.oblige(nm + ' tokens', hy + [j >= 0, j < z3.If(triv, 1, z['c'])], el == z3.If(triv, s, z['a'][j]), exact=False)
    if not ignore:
        # nothing is lost: the tokens joined with the delimiter are the text
        c.oblige('split then join', ex.hyps(st) + [n >= 1, m >= 1], z['p'] == s, exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def join(c):
    """Joining texts: each one after the other with the separator in between."""
    T = Texts(c)
    ex = T.ex
    st = X.State()
    N = z3.Int('size')
    st.assume(N >= 0)
    V = z3.Const('texts', z3.ArraySort(I, S))
    sep = z3.Const('separator', S)
    k_ = lambda k: lift(k, I)
    cat = lambda k, *q: (T.ax(('c0', k_(k).get_id()), strcat(strlit(''), V[k_(k)]) == V[k_(k)], k_(k)), cz(*q))[1]
    F = Fold(ex, 'joined', [('s', S), ('p', S)], lambda: {'s': strlit(''), 'p': strlit('')},
             lambda k, q: {'s': z3.If(k_(k) + 1 < N, cat(k, q['s'], V[k_(k)], sep), cz(q['s'], V[k_(k)])),
                           'p': z3.If(k_(k) == 0, V[k_(k)], cz(q['p'], sep, V[k_(k)]))}, n=N,
             lemmas=[lambda k, q: z3.Implies(z3.And(k_(k) >= 1, k_(k) <= N), q['s'] == z3.If(k_(k) < N, cz(q['p'], sep), q['p'])), lambda k, q: z3.Implies(k_(k) == 0, q['s'] == strlit(''))])
    z = F.at(N)
    c.cover('join', ex.hyps(st))
    for i, o in enumerate(ex.enter(c.p.find('Operation::join', 2, 'vector<std::string>'), None, [X.VecV('std::string', N, {(): V}), SV((sep,))], st.copy())):
        nm = 'join#%d %s' % (i, o.kind)
        c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), seq(ex.rv(o.val, o.st), SV((z3.If(N == 0, strlit(''), z['p']),))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def names(c):
    """A valid name keeps the letters, digits, underscores and dots, in order; a blank name becomes an underscore."""
    T = Texts(c)
    ex = T.ex
    st = X.State()
    s = T.text(st, 'name')
    n = T.len(s)
    blank = z3.Const('trimmed', S)
    T.len(blank)

    def trimmed(v):
        if not v.z().eq(s):
            raise Unsupported('trim of another text')
        return SV((blank,))
    ex.contracts['Operation::trim'] = lambda ex, st, this, args, f: trimmed(ex.rv(args[0], st))
    ok = lambda ch: z3.Or(ch == ord('_'), ch == ord('.'), ALNUM(ch))
    F = Fold(ex, 'kept', [('s', S)], lambda: {'s': strlit('')}, lambda k, q: {'s': z3.If(ok(AT(s, lift(k, I))), cz(q['s'], CHR(AT(s, lift(k, I)))), q['s'])}, n=n)
    c.cover('validName', ex.hyps(st))
    for i, o in enumerate(ex.enter(fn(c, 'validName'), None, [SV((s,))], st.copy())):
        nm = 'validName#%d %s' % (i, o.kind)
        c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return', exact=False)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), seq(ex.rv(o.val, o.st), SV((z3.If(LEN(blank) == 0, strlit('_'), F.at(n)['s']),))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


FAILS, REST = z3.Function('no number at the start', S, B), z3.Function('text after the number', S, B)
VK, VV = z3.Function('number kind', S, I), z3.Function('number value', S, R)
TOK, NTOK = z3.Function('word', S, I, S), z3.Function('words', S, I)


class Reading:
    """Streams over a text: a number is extracted once, then the next character; or the words one by one."""

    def __init__(self, ex):
        self.ex = ex
        ex.hooks['stream_in'] = self.take
        ex.hooks['stream_get'] = self.get
        ex.hooks['stream_state'] = self.state
        num_str = z3.Function('num_str', I, R, S)
        for v, t in ((NANV, 'nan'), (INFV, 'inf'), (fneg(INFV), '-inf')):
            ex.axioms.append(num_str(lift(v.k, I), lift(v.v, R)) == strlit(t))
        ex.axioms.append(z3.Distinct(*[strlit(t) for t in ('nan', 'inf', '-inf')]))

    def take(self, ex, lv, arg, fr, st):
        s = ex.rv(lv, st)
        dst = ex.ev(arg, fr, st)
        z = s.buf.z()
        if strip(dst.t) == 'double':
            if s.x != 0:
                raise Unsupported('second extraction')
            k = VK(z)
            ex.ax(('num', z.get_id()), z3.And(k >= 0, k <= 3, NTOK(z) >= 0))
            ex.write(dst, FV(k, VV(z)), st)
            ex.write(lv, X.StreamV(s.buf, 'in', -1), st)
            return lv
        if isinstance(ex.rv(dst, st), SV) and strip(dst.t) == 'std::string':
            ex.ax(('words', z.get_id()), NTOK(z) >= 0)
            more = lt(s.x, NTOK(z))
            ex.write(dst, SV((Ite(more, TOK(z, lift(s.x, I)), strlit('')),)), st)
            ex.write(lv, X.StreamV(s.buf, 'in', add(s.x, 1)), st)
            return lv
        raise Unsupported('extraction of ' + dst.t)

    def get(self, ex, lv, arg, fr, st):
        s = ex.rv(lv, st)
        if not (isinstance(s.x, int) and s.x == -1):
            raise Unsupported('a character')
        ex.write(ex.ev(arg, fr, st), fresh(I, 'char'), st)
        ex.write(lv, X.StreamV(s.buf, 'in', -2), st)
        return lv

    def state(self, ex, name, lv, st):
        s = ex.rv(lv, st)
        z = s.buf.z()
        ok = Not(FAILS(z)) if isinstance(s.x, int) and s.x == -1 else And(Not(FAILS(z)), REST(z)) if isinstance(s.x, int) and s.x == -2 else le(s.x, NTOK(z))
        return Not(ok) if name in ('fail', 'operator!') else ok


def strip(t):
    from fvc.exec import strip_cv
    t = strip_cv(t)
    return {'fuzzylite::scalar': 'double', 'scalar': 'double', 'fl::scalar': 'double', 'std::basic_string<char>': 'std::string', 'string': 'std::string'}.get(t, t)


def meaning(z):
    """Whether a text denotes a number, and which."""
    whole = And(Not(FAILS(z)), Not(REST(z)))
    nan, inf, ninf = [z == strlit(t) for t in ('nan', 'inf', '-inf')]
    v = FV(z3.If(zb(whole), VK(z), z3.If(nan, lift(NANV.k, I), z3.If(inf, lift(INFV.k, I), lift(fneg(INFV).k, I)))),
           z3.If(zb(whole), VV(z), z3.RealVal(0)))
    return Or(whole, nan, inf, ninf), v


def numbers(c):
    T = Texts(c)
    ex = T.ex
    Reading(ex)
    st = X.State()
    s = T.text(st, 'x')
    ok, v = meaning(s)
    ex.axioms.append(z3.And(VK(s) >= 0, VK(s) <= 3))
    other = ex.symbolic('double', 'alternative')
    c.cover('number', ex.hyps(st))
    for i, o in enumerate(ex.enter(fn(c, 'toScalar', 1), None, [SV((s,))], st.copy())):
        nm = 'toScalar#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        if o.kind == 'return':
            c.oblige(nm, hy, And(ok, fsame(ex.rv(o.val, o.st), v)), exact=False)
        else:
            c.oblige(nm, hy, And(o.kind == 'throw', o.kind == 'throw' and 'Exception' in str(o.val[0]), Not(ok)), exact=False)
    for with_ok in (True, False):
        s1 = st.copy()
        key = ('root', 'ok')
        s1.env[key] = z3.Bool('ok before')
        for i, o in enumerate(ex.enter(fn(c, 'toScalar', 3), None, [SV((s,)), other, X.AddrOf(X.LVLocal(key, 'bool')) if with_ok else 0], s1)):
            nm = 'toScalar alternative %s#%d %s' % (with_ok, i, o.kind)
            c.oblige(nm + ' returns', ex.hyps(o.st), o.kind == 'return', exact=False)
            if o.kind == 'return':
                g = And(Implies(ok, fsame(ex.rv(o.val, o.st), v)), Implies(Not(ok), fsame(ex.rv(o.val, o.st), other)))
                c.oblige(nm, ex.hyps(o.st), And(g, eqv(o.st.env[key], ok)) if with_ok else g, exact=False)
    for i, o in enumerate(ex.enter(fn(c, 'isNumeric'), None, [SV((s,))], st.copy())):
        nm = 'isNumeric#%d %s' % (i, o.kind)
        c.oblige(nm, ex.hyps(o.st), And(o.kind == 'return', o.kind == 'return' and eqv(o.val, ok)), exact=False)
    fz.loopnotes(c, ex)


def lists(c, alternative):
    """A list of numbers: every word in order."""
    T = Texts(c)
    ex = T.ex
    Reading(ex)
    st = X.State()
    s = T.text(st, 'x')
    n = NTOK(s)
    ex.axioms.append(n >= 0)
    other = ex.symbolic('double', 'alternative')

    def word(k):
        z = TOK(s, lift(k, I))
        T.ax(('wk', z.get_id()), z3.And(VK(z) >= 0, VK(z) <= 3), z)
        return meaning(z)

    AI_, AR_ = z3.ArraySort(I, I), z3.ArraySort(I, R)

    def step(k, q):
        ok, v = word(k)
        whole = And(Not(FAILS(TOK(s, lift(k, I)))), Not(REST(TOK(s, lift(k, I)))))
        w = FV(Ite(ok, v.k, other.k), z3.If(zb(whole), v.v, other.v)) if alternative else v     # the value matters for finite numbers only
        return {'n': add(q['n'], 1), 'k': z3.Store(q['k'], lift(q['n'], I), lift(w.k, I)), 'v': z3.Store(q['v'], lift(q['n'], I), lift(w.v, R)), 'all': And(q['all'], ok)}
    F = Fold(ex, 'words', [('n', I), ('k', AI_), ('v', AR_), ('all', B)],
             lambda: {'n': z3.IntVal(0), 'k': z3.K(I, z3.IntVal(0)), 'v': z3.K(I, z3.RealVal(0)), 'all': z3.BoolVal(True)}, step, n=n, lemmas=[lambda k, q: eqv(q['n'], k)])
    # once a word is not a number, not all of them are
    G = Fold(ex, 'seen', [('all', B)], lambda: {'all': z3.BoolVal(True)}, lambda k, q: {'all': And(q['all'], word(k)[0])}, n=n, absorb=lambda q: Not(q['all']))
    z, g = F.at(n), G.at(n)
    c.cover('words', ex.hyps(st))
    j = z3.Int('j')
    for with_ok in (True, False) if alternative else (None,):
        s1 = st.copy()
        key = ('root', 'ok')
        s1.env[key] = z3.Bool('ok before')
        args = [SV((s,))] + ([other, X.AddrOf(X.LVLocal(key, 'bool')) if with_ok else 0] if alternative else [])
        for i, o in enumerate(ex.enter(fn(c, 'toScalars', len(args)), None, args, s1)):
            nm = 'toScalars %s#%d %s' % (with_ok, i, o.kind)
            hy = ex.hyps(o.st)
            if o.kind == 'return':
                v = ex.rv(o.val, o.st)
                c.oblige(nm + ' number of values', hy, eqv(v.n, n), exact=False)
                c.oblige(nm + ' values', ex.hyps(o.st) + [j >= 0, j < n], And(eqv(ex.varr(v, ('k',), I)[j], z['k'][j]), eqv(ex.varr(v, ('v',), R)[j], z['v'][j])), exact=False)
                if with_ok:
                    c.oblige(nm + ' all numbers', ex.hyps(o.st), eqv(o.st.env[key], z['all']), exact=False)
                if not alternative:
                    c.oblige(nm + ' all numbers', ex.hyps(o.st), g['all'], exact=False)
            else:
                c.oblige(nm, hy, And(not alternative, o.kind == 'throw', Not(g['all'])), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def groups(prog, tier):
    return [('trim', trim), ('replace', replace), ('split', split, False), ('split ignoring empty', split, True), ('join', join), ('validName', names), ('numbers', numbers), ('lists', lists, False), ('lists with alternative', lists, True)]


SEARCHED = 'random texts split, joined, trimmed, replaced and converted by the compiled helpers, compared with their definitions'
DRIVER = 'engine'


def hx(s):
    return s.encode('latin-1').hex() or '-'


def text(rng, alphabet, n):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, n)))


NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z')


def number(s):
    """The number a text denotes, None when it denotes none, or '?' when the definition leaves it open."""
    if s in ('nan', 'inf', '-inf'):
        return float(s)
    t = s.lstrip(WS)
    if NUM.match(t):
        x = float(t)
        if math.isinf(x) or (x != 0 and abs(x) < 1e-300) or (x == 0 and re.search('[1-9]', re.split('[eE]', t)[0])):
            return '?'
        return x
    if re.match(r'[+-]?(0[xX]|inf|nan|INF|NAN|Inf|NaN)', t):
        return '?'
    return None


def exact(v):
    return v if math.isnan(v) else '%.17g' % v


def script(rng):
    ops = [('new', '0')]
    R = lambda l, w: ops.append(('raw', 'txt ' + l, w))
    for _ in range(12):
        k = rng.choice(['split', 'split', 'round', 'join', 'joinv', 'trim', 'trim', 'rep', 'rep', 'num', 'num', 'nums', 'joins', 'str'])
        if k in ('split', 'round', 'rep'):
            al = rng.choice(['ab', 'ab ', 'a,b', 'aab', 'xy z', 'a\nb'])
            s, d = text(rng, al, 14), text(rng, al, rng.choice([1, 1, 2, 3]))
            if k == 'split':
                ig = rng.choice('01d')
                w = [s] if not s or not d else [t for t in s.split(d) if t or ig == '0']
                R('split %s %s %s' % (hx(s), hx(d), ig), [str(len(w))] + [hx(t) for t in w])
            elif k == 'round':
                R('round %s %s' % (hx(s), hx(d)), [hx(s)])
            else:
                r = text(rng, al + '#', 3)
                al_ = rng.choice('01d')
                w = s if not d else s.replace(d, r) if al_ != '0' else s.replace(d, r, 1)
                R('rep %s %s %s %s' % (hx(s), hx(d), hx(r), al_), [hx(w)] * 2)
        elif k in ('join', 'joinv'):
            xs = [text(rng, 'abc ', 3) for _ in range(rng.randint(0 if k == 'join' else 1, 4))]
            d = text(rng, ', ', 2)
            R('%s %s' % (k, ' '.join(hx(x) for x in [d] + xs)), [hx(d.join(xs))])
        elif k == 'trim':
            s = text(rng, WS, 3) + text(rng, 'ab' + WS, 6) + text(rng, WS, 3)
            R('trim ' + hx(s), [hx(s.strip(WS))])
        elif k in ('num', 'nums'):
            def one():
                q = rng.random()
                if q < 0.45:
                    return rng.choice(['%d', '%.3f', '%.2e', '%+.1f', '%g', '%.17g']) % rng.choice([rng.uniform(-100, 100), rng.uniform(-1e9, 1e9), rng.randint(-5, 5)])
                if q < 0.65:
                    return rng.choice(['nan', 'inf', '-inf', 'nan ', ' inf', '-nan', '+inf', 'Nan', 'in', 'na', 'inff', '--inf', '-', '+', '.', '1.', '.5', '-.5', '1e', '1e5', '1e+', 'e5', '0', '-0', '00', '1e3.5'])
                return text(rng, '0123456789+-.eE x ', 6)
            if k == 'num':
                s = one()
                if rng.random() < 0.2:
                    s = rng.choice(WS) + s
                if rng.random() < 0.2:
                    s += rng.choice(WS + 'x,0')
                v = number(s)
                if v == '?':
                    continue
                R('num ' + hx(s), ['0', '0', 77.5, -3.25, 'throw'] if v is None else ['1', '1'] + [exact(v)] * 3)
            else:
                ts = [one() for _ in range(rng.randint(0, 4))]
                s = rng.choice(' \t') .join(ts)
                vs = [number(t) for t in s.split()]
                if '?' in vs:
                    continue
                w = [77.5 if v is None else exact(v) for v in vs]
                R('nums ' + hx(s), ['1' if None not in vs else '0', str(len(w))] + w + ['throw' if None in vs else 'same'])
        elif k == 'joins':
            xs = [rng.choice([rng.uniform(-10, 10), rng.randint(-3, 3), math.nan, math.inf, -math.inf]) for _ in range(rng.randint(0, 3))]
            d = text(rng, ', ', 2)
            R('joins %s %s' % (hx(d), ' '.join(repr(float(x)) for x in xs)), [hx(d.join(dec(x, 3) for x in xs))] if all(sure(x, 3) for x in xs) else None)
        elif k == 'str':
            x = rng.choice([rng.uniform(-10, 10), rng.uniform(-1, 1) / 100, rng.uniform(-1e6, 1e6), float(rng.randint(-3, 3)), math.nan, math.inf, -math.inf])
            n = rng.choice([None, 0, 1, 2, 3, 5, 9])
            if sure(x, 3 if n is None else n):
                R('str %r%s' % (x, '' if n is None else ' %d' % n), [dec(x, 3 if n is None else n), '1'])
    return ops


def sure(x, n):
    return math.isnan(x) or math.isinf(x) or (abs(abs(x) - 10.0 ** -n) > 1e-12 and not (x == 0 and math.copysign(1, x) < 0))


def dec(x, n):
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return '%.*f' % (n, 0.0 if abs(x) < 10.0 ** -n else x)


def search(models, seed, tier, failed=()):
    return ref.run([(script, 15000 if tier == 'quick' else 150000)], seed)
