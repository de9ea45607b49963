"""P17: rule text is parsed into the rule it denotes or rejected."""
import math
import random
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import P26, fz, ref, gen as G

PROPERTY = 'P17'
SOURCES = ['rule/Rule.cpp', 'rule/Antecedent.cpp', 'rule/Consequent.cpp', 'rule/Expression.cpp', 'rule/RuleBlock.cpp', 'term/Function.cpp']
TRUSTED = ['Function::toPostfix has an assumed contract in the proof (it fails, or returns a text that is a function of the infix text); what it returns is checked by the search only, here and in P19',
           'the variables and terms found by name, the hedge constructed for a name, and the numbers read from a text are functions of the name or text (P16, P22, P23, P25)',
           'the words of a text joined with blanks are those words; a text is blank exactly when it has no words']
BUDGET = 200
CONTRACTED = ['Rule::load', 'Antecedent::load', 'Antecedent::unload', 'Consequent::load', 'Consequent::unload']
SEARCHED = 'random rules rendered with as few parentheses as the documented precedence allows, and malformed variants of their text'
DRIVER = 'engine'

HEDGES = G.HEDGES
TERMS = ['low', 'medium', 'high', 'is_low', 'Low', 'andy', 'orb', 'ten', 'thenx', 'ifx', 'with1', 'v.low', 'very_low', 'A', 'B']
VARS = ['a', 'b', 'speed', 'Speed', 'andrew', 'order', 'isle', 'iff', 'then_', 'power', 'Power', 'with_', 'anyone', 'notch', 'x1', 'out']
CONN = ('and', 'or')


class World:
    """The variables and terms of an engine."""

    def __init__(self, rng):
        self.rng, self.ops = rng, [('new', '0')]
        names = rng.sample(VARS, rng.randint(2, 6))
        cut = rng.randint(1, len(names) - 1)
        self.inp, self.out = names[:cut], names[cut:]
        self.terms = {}
        for n in self.inp:
            self.ops.append(('iv', n, 0.0, 1.0, False, rng.random() < 0.8))
        for n in self.out:
            self.ops.append(('ov', n, 0.0, 1.0, False, rng.random() < 0.8, math.nan, False, 'Maximum', 'Centroid:10'))
        for n in names:
            self.terms[n] = rng.sample(TERMS, rng.randint(1, 4))
            for t in self.terms[n]:
                self.ops.append(('term', n, 'Triangle', t, 1.0, [0.0, 0.5, 1.0], None))
        self.ops.append(('rb', 'rb', True, None, None, None, 'General'))

    def hedges(self):
        rng = self.rng
        return [rng.choice([h for h in HEDGES if h != 'any']) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]

    def prop(self):
        rng = self.rng
        v = rng.choice(self.inp + self.out)
        hs = self.hedges()
        if rng.random() < 0.15:
            return ('p', v, hs + ['any'], None)
        return ('p', v, hs, rng.choice(self.terms[v]))

    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.3:
            return self.prop()
        return (rng.choice(CONN), self.expr(depth - 1), self.expr(depth - 1))

    def concl(self):
        rng = self.rng
        r = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = rng.choice(self.out)
            hs = self.hedges()
            if rng.random() < 0.1:
                hs.insert(rng.randint(0, len(hs)), 'any')
            r.append((v, hs, rng.choice(self.terms[v])))
        return r


def show(e):
    if e[0] == 'p':
        return '[%s]' % ' '.join([e[1]] + list(e[2]) + [e[3] or '-'])
    return '(%s %s %s)' % (show(e[1]), e[0], show(e[2]))


def shown(cs):
    return ' '.join('[%s]' % ' '.join([n] + hs + [t]) for n, hs, t in cs)


def toks(rng, e, extra):
    if e[0] == 'p':
        r = [e[1], 'is'] + list(e[2]) + ([e[3]] if e[3] else [])
    else:
        xs = []
        for i, x in enumerate(e[1:]):
            s = toks(rng, x, extra)
            if x[0] != 'p' and (G.PREC[x[0]] < G.PREC[e[0]] or i == 1 and x[0] == e[0]):
                s = ['('] + s + [')']
            xs.append(s)
        r = xs[0] + [e[0]] + xs[1]
    return ['('] + r + [')'] if rng.random() < extra else r


def ctoks(cs):
    r = []
    for i, (n, hs, t) in enumerate(cs):
        r += (['and'] if i else []) + [n, 'is'] + hs + [t]
    return r


def render(rng, ts):
    s = rng.choice(['', '', '', ' ', '\t'])
    for i, t in enumerate(ts):
        tight = i and (t in '()' or ts[i - 1] in '()') and not {t, ts[i - 1]} & {'if', 'then'}
        if i and (not tight or rng.random() < 0.4):
            s += rng.choice([' ', ' ', ' ', '  ', '\t', ' \t '])
        s += t
    return s + rng.choice(['', '', '', ' ', '  '])


WEIGHTS = [('1.0', 1.0), ('0.5', 0.5), ('1', 1.0), ('0', 0.0), ('.25', 0.25), ('0.75', 0.75), ('1e-1', 0.1), ('2.5', 2.5), ('0.333', 0.333), ('nan', math.nan), ('inf', math.inf),
           ('-0.5', -0.5), ('-inf', -math.inf)]
BADW = ['abc', '0.5x', '1,0', '--1', '0.5.5', 'NaN1', 'x', 'one', '1e', '0..5', 'low', 'is', 'and', 'with']


def consequent_ok(w, ts):
    """Strictly: output variable, is, hedges, term; and more of them joined by and."""
    i = 0
    while True:
        if i >= len(ts) or ts[i] not in w.out:
            return False
        v = ts[i]
        i += 1
        if i >= len(ts) or ts[i] != 'is':
            return False
        i += 1
        while i < len(ts) and ts[i] in HEDGES:
            i += 1
        if i >= len(ts) or ts[i] not in w.terms[v]:
            return False
        i += 1
        if i == len(ts):
            return True
        if ts[i] != 'and':
            return False
        i += 1


def antecedent_bad(w, ts):
    """Certainly outside of the grammar: parentheses, the propositions, or the number of connectives do not fit."""
    depth = 0
    for t in ts:
        depth += {'(': 1, ')': -1}.get(t, 0)
        if depth < 0:
            return True
    if depth:
        return True
    flat = [t for t in ts if t not in '()' and t not in CONN]
    i = props = 0
    while i < len(flat):
        v = flat[i]
        if v not in w.terms or i + 1 >= len(flat) or flat[i + 1] != 'is':
            return True
        i += 2
        done = False
        while i < len(flat) and not done:
            if flat[i] == 'any':
                done = True
            elif flat[i] in HEDGES:
                pass
            elif flat[i] in w.terms[v]:
                done = True
            else:
                return True
            i += 1
        if not done:
            return True
        props += 1
    return sum(t in CONN for t in ts) != props - 1 or props == 0


def mutate(rng, ts, words):
    t = list(ts)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        q = rng.random()
        if q < 0.3 and t:
            del t[min(i, len(t) - 1)]
        elif q < 0.65:
            t.insert(i, rng.choice(words))
        elif q < 0.85 and t:
            t[min(i, len(t) - 1)] = rng.choice(words)
        elif len(t) > 1:
            j = rng.randrange(len(t))
            i = min(i, len(t) - 1)
            t[i], t[j] = t[j], t[i]
    return t


def esc(s):
    return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n')


def rules(rng):
    w = World(rng)
    ops = w.ops
    R = lambda l, want: ops.append(('raw', l, want))
    words = ['is', 'and', 'or', '(', ')', 'if', 'then', 'with', 'unknown', '0.5', 'any', 'not', 'very'] + list(w.terms) + TERMS
    n = rng.randint(1, 3)
    cur = []
    for i in range(n):
        t = rng.choice(['', 'if nothing', '# comment'])
        ops.append(('rule', 'rb', True, False, t, None))
        cur.append([t, None])   # its text, and what is loaded

    def make():
        """A text and what it denotes: (antecedent, consequent, weight), None if it certainly is malformed, 0 if it is not decided."""
        e, cs = w.expr(rng.choice([0, 1, 2, 3, 4])), w.concl()
        ts, us = toks(rng, e, rng.choice([0, 0.15])), ctoks(cs)
        wt = rng.choice(WEIGHTS) if rng.random() < 0.5 else None
        want = (show(e), shown(cs), wt[1] if wt else 1.0)
        all_ = ['if'] + ts + ['then'] + us + (['with', wt[0]] if wt else [])
        if rng.random() < 0.5:
            q = rng.random()
            if q < 0.3:
                ts = mutate(rng, ts, words)
                if 'then' in ts:
                    want = 0
                else:
                    want = None if antecedent_bad(w, ts) else 0
                all_ = ['if'] + ts + ['then'] + us + (['with', wt[0]] if wt else [])
            elif q < 0.6:
                us = mutate(rng, us, words)
                if 'with' in us:
                    want = 0
                else:
                    want = None if not consequent_ok(w, us) else 0
                all_ = ['if'] + ts + ['then'] + us + (['with', wt[0]] if wt else [])
            elif q < 0.7:
                all_ = ['if'] + ts + ['then'] + us + ['with', rng.choice(BADW)]
                want = None
            elif q < 0.8:
                all_ = ['if'] + ts + ['then'] + us + ['with'] + rng.choice([[], ['1.0', '1.0'], ['0.5', 'x'], ['0.5', 'and'], ['1.0', 'with'], ['0.5', '#x'][:1] + ['y']])
                want = None
            elif q < 0.9:
                all_ = rng.choice([all_[1:], ['IF'] + all_[1:], ['iff'] + all_[1:], ['if'], [], ['if'] + ts, ['if'] + ts + us, ['then'] + us, ['if', 'then'] + us, ['if'] + ts + ['then'],
                                   ['if'] + ts + ['Then'] + us, ['if'] + ts + ['then', 'with', '1.0'], ['if', 'if'] + ts + ['then'] + us, ['if'] + ts + ['then', 'then'] + us,
                                   ['then'] + all_[1:]])
                want = None
        s = render(rng, all_)
        if rng.random() < 0.15:
            s += rng.choice(['# comment', '#', ' # if a is b then', '#with 0.3'])
        elif rng.random() < 0.05:
            s, want = '#' + s, None
        return s, want

    def check(i):
        t, l = cur[i]
        R('rl gettext rb %d' % i, t.split() if t else [])
        if l == 0:
            return
        if l is None:
            R('rl state rb %d' % i, ['0', '*', '*', 0.0, '0'])
        else:
            R('rl state rb %d' % i, ['1', '1', '1', 0.0, '0', float(l[2])] + ('%s => %s' % (l[0], l[1])).split())
    for _ in range(rng.randint(3, 8)):
        i = rng.randrange(n)
        q = rng.random()
        if q < 0.5:
            s, want = make()
            R('rl load rb %d %s' % (i, esc(s)), None if want == 0 else ['throw'] if want is None else ['ok'])
            cur[i] = [s, want]
            check(i)
        elif q < 0.6:
            s, want = make()
            if want == 0:
                continue
            R('rl parse %s' % esc(s), ['throw'] if want is None else ['1', '1', '1', 0.0, '0', float(want[2])] + ('%s => %s' % (want[0], want[1])).split())
        elif q < 0.7:
            s, want = make()
            R('rl text rb %d %s' % (i, esc(s)), ['ok'])
            cur[i][0] = s
            R('rl reload rb %d' % i, None if want == 0 else ['throw'] if want is None else ['ok'])
            cur[i][1] = want
            check(i)
        elif q < 0.75:
            R('rl unload rb %d' % i, ['ok'])
            cur[i][1] = None
            R('rl isloaded rb %d' % i, ['0', '0'])
            check(i)
        elif q < 0.85:
            new = [make() for _ in range(n)]
            for j, (s, want) in enumerate(new):
                R('rl text rb %d %s' % (j, esc(s)), ['ok'])
                cur[j] = [s, want]
            R('%s rb' % rng.choice(['load', 'reload']), None if any(x[1] == 0 for x in new) else ['throw'] if any(x[1] is None for x in new) else ['ok'])
            for j in range(n):
                check(j)
        elif q < 0.93:
            e = w.expr(3)
            ts = toks(rng, e, 0.1)
            bad = rng.random() < 0.5
            if bad:
                ts = mutate(rng, ts, words)
                if not antecedent_bad(w, ts):
                    continue
            R('rl antecedent rb %d %s' % (i, esc(render(rng, ts))), ['throw'] if bad else show(e).split())
            if bad:
                R('rl isloaded rb %d' % i, ['0', '*'])
            cur[i][1] = 0
        else:
            cs = w.concl()
            us = ctoks(cs)
            bad = rng.random() < 0.5
            if bad:
                us = mutate(rng, us, words)
                if consequent_ok(w, us):
                    continue
            R('rl consequent rb %d %s' % (i, esc(render(rng, us))), ['throw'] if bad else shown(cs).split())
            if bad:
                R('rl isloaded rb %d' % i, ['*', '0'])
            cur[i][1] = 0
    return ops


def fieldtype(c, cls, f):
    return [t for n, t, _ in c.p.classes[cls].fields if n == f][0]


ABAD, CBAD = z3.Function('antecedent is rejected', S, B), z3.Function('consequent is rejected', S, B)
NUMBER, NK, NV = z3.Function('is a number', S, B), z3.Function('number kind', S, I), z3.Function('number value', S, R)
HASH = z3.Function('first hash', S, I)
NPOS = P26.NPOS


class Text(P26.Texts):
    def member(self, ex, name, s, vs, st, n):
        if name == 'find_first_of' and s.const() is None and len(vs) == 1:
            if not (isinstance(vs[0], int) and vs[0] == ord('#') or isinstance(vs[0], SV) and vs[0].const() == '#'):
                raise Unsupported('search of other characters')
            z = s.z()
            p = HASH(z)
            self.ax(('hash', p.get_id()), z3.And(p >= 0, z3.Or(p < self.len(z), p == NPOS)), z)
            return p
        return super().member(ex, name, s, vs, st, n)


def load(c):
    """The words of the text go through the grammar of rules: if ... then ... with number; the parts are handed on and the weight is taken."""
    T = Text(c)
    ex = T.ex
    P26.Reading(ex)
    st = X.State()
    r = fz.obj(ex, st, 'rule', 'Rule')
    an, co = z3.Int('antecedent'), z3.Int('consequent')
    st.assume(z3.And(an > 0, an < ex.alloc0, co > 0, co < ex.alloc0))
    rd = lambda st, f: ex.hread(st, r, 'Rule', f, fieldtype(c, 'Rule', f))
    for f, v in (('_antecedent', an), ('_consequent', co)):
        ex.hwrite(st, r, 'Rule', f, fieldtype(c, 'Rule', f), v)
    text = T.text(st, 'text')
    engine = z3.Int('engine')
    l, p = T.len(text), HASH(text)
    ex.axioms.append(z3.And(p >= 0, z3.Or(p < l, p == NPOS)))
    ex.axioms.append(l < NPOS)
    body = T.sub(text, 0, z3.If(p < l, p, l))
    n = P26.NTOK(body)
    ex.axioms.append(n >= 0)
    word = lambda k: P26.TOK(body, lift(k, I))
    IF, THEN, WITH = [strlit(x) for x in ('if', 'then', 'with')]
    ex.axioms.append(z3.Distinct(IF, THEN, WITH, strlit('')))

    def number(z):
        ex.ax(('num', z.get_id()), z3.And(NK(z) >= 0, NK(z) <= 3))
        return FV(NK(z), NV(z))

    def step(k, q):
        t, s = word(k), q['s']
        to = z3.If(s == 0, z3.If(t == IF, 1, 5), z3.If(s == 1, z3.If(t == THEN, 2, 1), z3.If(s == 2, z3.If(t == WITH, 3, 2), z3.If(s == 3, z3.If(NUMBER(t), 4, 5), 5))))
        return {'s': to, 'a': z3.If(z3.And(s == 1, t != THEN), P26.cz(q['a'], t, strlit(' ')), q['a']), 'c': z3.If(z3.And(s == 2, t != WITH), P26.cz(q['c'], t, strlit(' ')), q['c']),
                'w': fite(z3.And(s == 3, NUMBER(t)), number(t), q['w'])}
    F = Fold(ex, 'grammar', [('s', I), ('a', S), ('c', S), ('w', 'F')], lambda: {'s': z3.IntVal(0), 'a': strlit(''), 'c': strlit(''), 'w': from_int(1)}, step, n=n,
             absorb=lambda q: q['s'] == 5, lemmas=[lambda k, q: z3.And(q['s'] >= 0, q['s'] <= 5)])
    z = F.at(n)

    def scalar(ex, st, this, args, f):
        t = ex.rv(args[0], st).z()
        fz.may_throw(ex, st, z3.Not(NUMBER(t)), 'fuzzylite::Exception')
        return number(t)
    ex.contracts['Operation::toScalar'] = scalar

    def part(what, bad):
        def contract(ex, st, this, args, f):
            if not same(lift(this.ref, I), an if what == 'antecedent' else co):
                raise Unsupported('another %s' % what)
            if len(args) != 2:
                raise Unsupported('loading its own text')
            t = ex.rv(args[0], st).z()
            e = ex.rv(args[1], st) if isinstance(args[1], X.LV) else args[1]
            st.gh[what] = -1        # whatever is left of it when it fails
            fz.may_throw(ex, st, bad(t), 'fuzzylite::Exception')
            st.gh[what] = 1
            st.gh[what + ' text'] = SV((t,))
            st.gh[what + ' engine'] = e
            return None
        return contract

    def drop(what):
        def contract(ex, st, this, args, f):
            if not same(lift(this.ref, I), an if what == 'antecedent' else co):
                raise Unsupported('another %s' % what)
            st.gh[what] = 0
            return None
        return contract
    for what, cls, bad in (('antecedent', 'Antecedent', ABAD), ('consequent', 'Consequent', CBAD)):
        ex.contracts[cls + '::load'] = part(what, bad)
        ex.contracts[cls + '::unload'] = drop(what)
        st.gh[what] = -1
        st.gh[what + ' text'] = SV((strlit('nothing'),))
        st.gh[what + ' engine'] = -1
    ended = z3.Or(z['s'] == 2, z['s'] == 4)
    good = z3.And(ended, z3.Not(ABAD(z['a'])), z3.Not(CBAD(z['c'])))
    c.cover('rule', ex.hyps(st) + [n > 3, good])
    for i, o in enumerate(ex.enter(c.p.find('Rule::load', 2), X.LVHeap(r, 'Rule'), [SV((text,)), engine], st.copy())):
        nm = 'rule#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        g = lambda x: o.st.gh[x]
        if o.kind == 'return':
            c.oblige(nm + ' of a rule', hy, good, exact=False)
            c.oblige(nm + ' antecedent', hy, And(eqv(g('antecedent'), 1), seq(g('antecedent text'), SV((z['a'],))), eqv(g('antecedent engine'), engine)), exact=False)
            c.oblige(nm + ' consequent', hy, And(eqv(g('consequent'), 1), seq(g('consequent text'), SV((z['c'],))), eqv(g('consequent engine'), engine)), exact=False)
            c.oblige(nm + ' weight', hy, fsame(rd(o.st, '_weight'), z['w']), exact=False)
        else:
            c.oblige(nm + ' of another text', hy, And(o.kind == 'throw', z3.Not(good)), exact=False)
            c.oblige(nm + ' unloaded', hy, Or(eqv(g('antecedent'), 0), eqv(g('consequent'), 0)), exact=False)
        c.oblige(nm + ' text and state', hy, And(seq(rd(o.st, '_text'), SV((text,))), fsame(rd(o.st, '_activationDegree'), FV(0)), eqv(rd(o.st, '_triggered'), False)), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


OUTV, INV, TERM = z3.Function('output variable named', S, I), z3.Function('input variable named', S, I), z3.Function('term named', I, S, I)
HEDGE = z3.Function('hedge named', S, I)
ANY = z3.Function('hedge of class', I, I)
AII, AIA = z3.ArraySort(I, I), z3.ArraySort(I, z3.ArraySort(I, I))
PROP = 'Proposition'


def lookups(ex, T, engine):
    """The lookups by name, each of them a function of the name (0: nothing of that name)."""
    def arg(args, i, st):
        v = args[i]
        return (ex.rv(v, st) if isinstance(v, X.LV) else v).z()

    def known(fn, what):
        def contract(ex, st, this, args, f):
            if what == 'variable' and not same(lift(this.ref, I), engine):
                raise Unsupported('another engine')
            t = arg(args, 0, st)
            r = fn(t) if what == 'variable' else fn(lift(this.ref, I), t)
            ex.ax(('named', r.get_id()), z3.And(r >= 0, r < ex.alloc0))
            T.keep.append(r)
            return r
        return contract

    def has(k):
        return lambda ex, st, this, args, f: k(ex, st, this, args, f) != 0

    def get(k):
        def contract(ex, st, this, args, f):
            r = k(ex, st, this, args, f)
            fz.may_throw(ex, st, r == 0, 'fuzzylite::Exception')
            st.assume(r != 0)
            return r
        return contract
    for q, fn, what in (('Engine::%sOutputVariable', OUTV, 'variable'), ('Engine::%sInputVariable', INV, 'variable'), ('Variable::%sTerm', TERM, 'term')):
        k = known(fn, what)
        ex.contracts[q % 'has'] = has(k)
        ex.contracts[q % 'get'] = get(k)
    ex.contracts['FactoryManager::instance'] = lambda ex, st, this, args, f: fz.obj(ex, st, 'factories', 'FactoryManager')
    ex.contracts['FactoryManager::hedge'] = lambda ex, st, this, args, f: fz.obj(ex, st, 'hedge factory', 'HedgeFactory')

    def hedge(ex, st, this, args, f):
        r = HEDGE(arg(args, 0, st))
        ex.ax(('named', r.get_id()), z3.And(r >= 0, r < ex.alloc0))
        T.keep.append(r)
        return r
    ex.contracts['ConstructionFactory<Hedge *>::hasConstructor'] = lambda *a: hedge(*a) != 0
    ex.contracts['ConstructionFactory<Hedge *>::constructObject'] = get(hedge)
    text = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    for q in ('Proposition::toString', 'Operator::toString', 'Expression::toString'):
        ex.contracts[q] = text

    def trim(ex, st, this, args, f):
        z = arg(args, 0, st)
        b = z3.Function('trimmed', S, S)(z)
        ex.ax(('trim', b.get_id()), z3.And((b == strlit('')) == (P26.NTOK(z) == 0), T.len(b) >= 0, P26.NTOK(z) >= 0))
        return SV((b,))
    ex.contracts['Operation::trim'] = trim


def heap0(c, ex, st, cls, f, path=()):
    t = fieldtype(c, cls, f)
    srt = dict(ex.leaves(t))[path]
    return ex.harr(st, ((cls, f),) + path, srt)


def unloaded(c):
    def contract(ex, st, this, args, f):
        ex.hwrite(st, this.ref, 'Consequent', '_conclusions', fieldtype(c, 'Consequent', '_conclusions'), X.VecV('Proposition *', 0, {}))
        return None
    return contract


def unload(c):
    """Unloading removes every conclusion; an antecedent loses its expression."""
    for cls, f in (('Consequent', '_conclusions'), ('Antecedent', '_expression')):
        ex = c.executor(fork=False)
        st = X.State()
        this = fz.obj(ex, st, 'this', cls)
        t = fieldtype(c, cls, f)
        deleted = []
        if cls == 'Consequent':
            before, nb = fz.symvec(ex, st, 'before', 'Proposition *')
            ex.hwrite(st, this, cls, f, t, before)
        c.cover(cls, ex.hyps(st))
        for i, o in enumerate(ex.enter(c.p.find(cls + '::unload', 0), X.LVHeap(this, cls), [], st)):
            v = ex.hread(o.st, this, cls, f, t)
            c.oblige('%s::unload#%d' % (cls, i), ex.hyps(o.st), And(o.kind == 'return', eqv(v.n if cls == 'Consequent' else v, 0)), exact=False)


def consequent(c):
    """The words of a consequent: output variable, is, hedges, a term; and more of them after and."""
    T = Text(c)
    ex = T.ex
    P26.Reading(ex)
    st = X.State()
    this = fz.obj(ex, st, 'consequent', 'Consequent')
    engine = fz.obj(ex, st, 'engine', 'Engine')
    text = T.text(st, 'text')
    n = P26.NTOK(text)
    ex.axioms.append(n >= 0)
    lookups(ex, T, engine)
    word = lambda k: P26.TOK(text, lift(k, I))
    IS, AND = strlit('is'), strlit('and')
    ex.axioms.append(z3.Distinct(IS, AND, strlit('')))
    ct = fieldtype(c, 'Consequent', '_conclusions')
    st.gh['alloc'] = ex.alloc0
    before, nb = fz.symvec(ex, st, 'before', 'Proposition *')
    ex.hwrite(st, this, 'Consequent', '_conclusions', ct, before)
    H = {k: heap0(c, ex, st, PROP, f, p) for k, f, p in (('var', 'variable', ()), ('term', 'term', ()), ('hn', 'hedges', ('#',)), ('h', 'hedges', ('[]',)))}
    ex.contracts['Consequent::unload'] = unloaded(c)
    # states of the grammar: 1 before a variable, 2 before is, 12 before a hedge or the term, 48 after the term, 0 none of these

    def step(k, q):
        t, s = word(k), q['s']
        for r in (OUTV(t), HEDGE(t), TERM(q['var'][q['cur']], t)):
            ex.ax(('named', r.get_id()), z3.And(r >= 0, r < ex.alloc0))
            T.keep.append(r)
        new = z3.And(s == 1, OUTV(t) != 0)
        hedge = z3.And(s == 12, HEDGE(t) != 0)
        term = z3.And(s == 12, HEDGE(t) == 0, TERM(q['var'][q['cur']], t) != 0)
        more = z3.And(s == 48, t == AND)
        cur = q['cur']
        r = q['al'] + 1
        i = lambda c_, x, y: z3.If(c_, x, y)
        return {'s': i(new, 2, i(z3.Or(z3.And(s == 2, t == IS), hedge), 12, i(term, 48, i(more, 1, 0)))),
                'al': i(new, r, q['al']), 'cur': i(new, r, cur), 'n': i(new, q['n'] + 1, q['n']), 'c': i(new, z3.Store(q['c'], q['n'], r), q['c']),
                'var': i(new, z3.Store(q['var'], r, OUTV(t)), q['var']),
                'term': i(new, z3.Store(q['term'], r, 0), i(term, z3.Store(q['term'], cur, TERM(q['var'][cur], t)), q['term'])),
                'hn': i(new, z3.Store(q['hn'], r, 0), i(hedge, z3.Store(q['hn'], cur, q['hn'][cur] + 1), q['hn'])),
                'h': i(new, z3.Store(q['h'], r, z3.K(I, z3.IntVal(0))), i(hedge, z3.Store(q['h'], cur, z3.Store(q['h'][cur], q['hn'][cur], HEDGE(t))), q['h']))}
    a0 = ex.alloc0
    lem = lambda k, q: z3.And(q['al'] == a0 + q['n'], q['n'] >= 0, z3.Implies(q['n'] > 0, z3.And(q['cur'] == q['al'], q['var'][q['cur']] != 0)), z3.Implies(q['n'] == 0, z3.Or(q['s'] == 1, q['s'] == 0)), z3.Implies(k_(k) == 0, q['s'] == 1),
                                   z3.Or(*[q['s'] == x for x in (0, 1, 2, 12, 48)]), q['hn'][q['cur']] >= z3.If(q['n'] > 0, 0, q['hn'][q['cur']]))
    ex.plain_loop = lambda node: 'CXXDeleteExpr' in str(node)     # nothing needs to be known about the loops that clean up after an error
    F = Fold(ex, 'grammar', [('s', I), ('al', I), ('cur', I), ('n', I), ('c', AII), ('var', AII), ('term', AII), ('hn', AII), ('h', AIA)],
             lambda: dict(s=z3.IntVal(1), al=a0, cur=z3.IntVal(0), n=z3.IntVal(0), c=z3.K(I, z3.IntVal(0)), **H), step, n=n, absorb=lambda q: q['s'] == 0, lemmas=[lem])
    z = F.at(n)
    good = z['s'] == 48
    c.cover('consequent', ex.hyps(st) + [n > 3, good])
    for i, o in enumerate(ex.enter(c.p.find('Consequent::load', 2), X.LVHeap(this, 'Consequent'), [SV((text,)), engine], st.copy())):
        nm = 'consequent#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        v = ex.hread(o.st, this, 'Consequent', '_conclusions', ct)
        if o.kind == 'return':
            c.oblige(nm + ' of the grammar', hy, good, exact=False)
            c.oblige(nm + ' conclusions', hy, And(eqv(v.n, z['n']), z['n'] > 0, ex.varr(v, (), I) == z['c']), exact=False)
            for k, f, p in (('var', 'variable', ()), ('term', 'term', ()), ('hn', 'hedges', ('#',)), ('h', 'hedges', ('[]',))):
                c.oblige(nm + ' ' + f + ('' if p != ('#',) else ' (number)'), hy, o.st.heap.get(((PROP, f),) + p, H[k]) == z[k], exact=False)
        else:
            c.oblige(nm + ' of another text', hy, And(o.kind == 'throw', z3.Not(good)), exact=False)
            c.oblige(nm + ' unloaded', hy, eqv(v.n, 0), exact=False)
        c.oblige(nm + ' text', hy, seq(ex.hread(o.st, this, 'Consequent', '_text', fieldtype(c, 'Consequent', '_text')), SV((text,))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


POST, UNB = z3.Function('postfix of', S, S), z3.Function('unbalanced', S, B)


def antecedent(c):
    """The words of the antecedent in postfix order build the tree: a proposition for every variable, and operators over the last two expressions."""
    T = Text(c)
    ex = T.ex
    P26.Reading(ex)
    st = X.State()
    this = fz.obj(ex, st, 'antecedent', 'Antecedent')
    engine = fz.obj(ex, st, 'engine', 'Engine')
    infix = T.text(st, 'text')
    text = POST(infix)
    T.len(text)
    n = P26.NTOK(text)
    ex.axioms.append(n >= 0)
    lookups(ex, T, engine)

    def postfix(ex, st, this, args, f):
        z = ex.rv(args[0], st).z()
        fz.may_throw(ex, st, UNB(z), 'fuzzylite::Exception')
        st.assume(z3.Not(UNB(z)))
        return SV((POST(z),))
    ex.contracts['Function::toPostfix'] = postfix
    ex.contracts['Function::Function'] = lambda ex, st, this, args, f: None
    ex.contracts['Antecedent::unload'] = lambda ex, st, this, args, f: ex.hwrite(st, this.ref, 'Antecedent', '_expression', fieldtype(c, 'Antecedent', '_expression'), 0)
    st.gh['alloc'] = ex.alloc0
    word = lambda k: P26.TOK(text, k_(k))
    IS, AND, OR = strlit('is'), strlit('and'), strlit('or')
    ex.axioms.append(z3.Distinct(IS, AND, OR, strlit('')))
    H = {k: heap0(c, ex, st, q, f, p) for k, q, f, p in ANTE}

    def step(k, q):
        t, s, cur = word(k), q['s'], q['cur']
        tm = TERM(q['var'][cur], t)
        for r in (OUTV(t), INV(t), HEDGE(t), tm):
            ex.ax(('named', r.get_id()), z3.And(r >= 0, r < ex.alloc0))
            T.keep.append(r)
        v = z3.If(INV(t) != 0, INV(t), OUTV(t))
        new = z3.And(z3.Or(s == 1, s == 17), v != 0)
        hedge = z3.And(s == 12, HEDGE(t) != 0)
        term = z3.And(s == 12, HEDGE(t) == 0, tm != 0)
        op = z3.And(s == 17, v == 0, z3.Or(t == AND, t == OR), q['n'] >= 2)
        r = q['al'] + 1
        m = q['n']
        i = lambda c_, x, y: z3.If(c_, x, y)
        made = z3.Or(new, op)
        return {'s': i(new, 2, i(z3.Or(z3.And(s == 2, t == IS), z3.And(hedge, z3.Not(zb(ex.isa(HEDGE(t), 'Any'))))), 12, i(z3.Or(hedge, term, op), 17, 0))),
                'al': i(made, r, q['al']), 'cur': i(new, r, cur), 'n': i(new, m + 1, i(op, m - 1, m)),
                'st': i(new, z3.Store(q['st'], m, r), i(op, z3.Store(q['st'], m - 2, r), q['st'])),
                'var': i(new, z3.Store(q['var'], r, v), q['var']),
                'term': i(new, z3.Store(q['term'], r, 0), i(term, z3.Store(q['term'], cur, tm), q['term'])),
                'hn': i(new, z3.Store(q['hn'], r, 0), i(hedge, z3.Store(q['hn'], cur, q['hn'][cur] + 1), q['hn'])),
                'h': i(new, z3.Store(q['h'], r, z3.K(I, z3.IntVal(0))), i(hedge, z3.Store(q['h'], cur, z3.Store(q['h'][cur], q['hn'][cur], HEDGE(t))), q['h'])),
                'name': i(op, z3.Store(q['name'], r, t), q['name']), 'left': i(op, z3.Store(q['left'], r, q['st'][m - 2]), q['left']),
                'right': i(op, z3.Store(q['right'], r, q['st'][m - 1]), q['right'])}
    a0 = ex.alloc0
    J = z3.Int('an index of the stack')
    held = lambda q, j: z3.Implies(z3.And(0 <= j, j < q['n']), q['st'][j] > 0)      # proved for any index, hence for every index
    lem = lambda k, q: z3.And(held(q, J), q['n'] >= 0, q['al'] >= a0, z3.Implies(z3.Not(z3.Or(q['s'] == 0, q['s'] == 1)), z3.And(q['n'] >= 1, q['cur'] > a0, q['cur'] <= q['al'], q['var'][q['cur']] != 0, q['hn'][q['cur']] >= 0)),
                              z3.Implies(q['s'] == 1, q['n'] == 0), z3.Or(*[q['s'] == x for x in (0, 1, 2, 12, 17)]))
    ex.plain_loop = lambda node: 'CXXDeleteExpr' in str(node)     # nothing needs to be known about the loops that clean up after an error
    F = Fold(ex, 'grammar', [('s', I), ('al', I), ('cur', I), ('n', I), ('st', AII), ('var', AII), ('term', AII), ('hn', AII), ('h', AIA), ('name', z3.ArraySort(I, S)), ('left', AII), ('right', AII)],
             lambda: dict(s=z3.IntVal(1), al=a0, cur=z3.IntVal(0), n=z3.IntVal(0), st=z3.K(I, z3.IntVal(0)), **H), step, n=n, absorb=lambda q: q['s'] == 0, lemmas=[lem])
    z = F.at(n)
    good = z3.And(z3.Not(UNB(infix)), P26.NTOK(infix) > 0, z['s'] == 17, z['n'] == 1)
    ex.axioms.append(P26.NTOK(infix) >= 0)
    c.cover('antecedent', ex.hyps(st) + [n > 3, good])
    for i, o in enumerate(ex.enter(c.p.find('Antecedent::load', 2), X.LVHeap(this, 'Antecedent'), [SV((infix,)), engine], st.copy())):
        nm = 'antecedent#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        e = ex.hread(o.st, this, 'Antecedent', '_expression', fieldtype(c, 'Antecedent', '_expression'))
        if o.kind == 'return':
            c.oblige(nm + ' of the grammar', hy, good, exact=False)
            c.oblige(nm + ' root', hy, And(eqv(e, z['st'][0])), exact=False)
            for k, q, f, p in ANTE:
                c.oblige(nm + ' %s::%s%s' % (q, f, '' if p != ('#',) else ' (number)'), hy, o.st.heap.get(((q, f),) + p, H[k]) == z[k], exact=False)
        else:
            for s_ in selects(o.st.pc, z['st'].decl()):
                hy = hy + [held({x: F.at(s_.arg(0).arg(0))[x] for x in ('n', 'st')}, s_.arg(1))]
            c.oblige(nm + ' of another text', hy, And(o.kind == 'throw', z3.Not(good)), exact=False)
            c.oblige(nm + ' unloaded', hy, eqv(e, 0), exact=False)
        c.oblige(nm + ' text', hy, seq(ex.hread(o.st, this, 'Antecedent', '_text', fieldtype(c, 'Antecedent', '_text')), SV((infix,))), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def selects(fs, decl):
    """The elements of the arrays decl(k) that occur in the formulas."""
    seen, out, todo = set(), [], [zb(f) for f in fs]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_select(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().eq(decl):
            out.append(e)
        todo += e.children()
    return out


ANTE = (('var', PROP, 'variable', ()), ('term', PROP, 'term', ()), ('hn', PROP, 'hedges', ('#',)), ('h', PROP, 'hedges', ('[]',)),
        ('name', 'Operator', 'name', ()), ('left', 'Operator', 'left', ()), ('right', 'Operator', 'right', ()))


def k_(k):
    return lift(k, I)


def groups(prog, tier):
    return [('rule', load), ('unload', unload), ('consequent', consequent), ('antecedent', antecedent)]


def search(models, seed, tier, failed=()):
    k = 1 if tier == 'quick' else 10
    return ref.run([(rules, 10000 * k)], seed)
