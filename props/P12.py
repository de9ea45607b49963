"""P12: activation methods fire exactly the rules they document."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P12'
METHODS = ['General', 'First', 'Last', 'Highest', 'Lowest', 'Threshold', 'Proportional']
SOURCES = ['activation/%s.cpp' % m for m in METHODS] + ['rule/RuleBlock.cpp', 'rule/Rule.cpp', 'fuzzylite.cpp']
TRUSTED = ['the rules of a block are valid objects',
           'Rule::activateWith, Rule::trigger, Rule::isLoaded are used through their contracts (P11): the degree of a rule is any function of the rule, the operators and the rules fired before; firing changes the fuzzy outputs only',
           'an error raised while evaluating an antecedent ends the activation (this path is not modelled)',
           'std::priority_queue: elements are removed in the order of the comparator (ties in any order)']
BUDGET = 170
CONTRACTED = ['%s::activate' % m for m in METHODS] + ['Threshold::activatesWith', 'Descending::operator()', 'Ascending::operator()']
LOADED, ENABLED = z3.Function('loaded', I, B), z3.Function('enabled', I, B)
PERM = z3.Function('sorted index', I, I)
DK, DV, TR = ((('Rule', '_activationDegree'), 'k'), (('Rule', '_activationDegree'), 'v'), (('Rule', '_triggered'),))


class Setup:
    def __init__(self, c, cls):
        self.c = c
        ex = self.ex = c.executor(fork=False)
        st = self.st = X.State()
        N.get_eps(ex, st)
        st.assume(z3.Real('eps') > 0)
        self.block = fz.obj(ex, st, 'block', 'RuleBlock')
        self.m = fz.obj(ex, st, 'this', cls)
        v, self.n = fz.symvec(ex, st, 'rules', 'Rule *')
        ex.hwrite(st, self.block, 'RuleBlock', '_rules', 'std::vector<Rule *>', v)
        self.ops = []
        for f, t in (('_conjunction', 'TNorm'), ('_disjunction', 'SNorm'), ('_implication', 'TNorm')):
            p = z3.Int(f)
            st.assume(z3.And(p >= 0, p <= ex.alloc0))
            ex.hwrite(st, self.block, 'RuleBlock', f, 'std::unique_ptr<%s>' % t, p)
            self.ops.append(p)
        self.rule = lambda k: ex.vget(v, k)
        fz.nonnull(ex, self.rule, self.n, reverse=True)
        e = z3.Int('e!l')
        ex.axioms.append(z3.ForAll([e], z3.Implies(LOADED(e), z3.And(e > 0, e <= ex.alloc0)), patterns=[LOADED(e)]))
        ex.axioms.append(self.n >= 0)
        self.log = log = fz.Log('fired', [('rule', I), ('degree', 'F'), ('implication', I)])
        log.start(ex, st)
        self.a0 = {'degk': ex.harr(st, DK, I), 'degv': ex.harr(st, DV, R), 'trig': ex.harr(st, TR, B)}
        self.comps = [('degk', z3.ArraySort(I, I)), ('degv', z3.ArraySort(I, R)), ('trig', z3.ArraySort(I, B))] + log.comps()

        def loaded(ex, st, this, args, f):
            return LOADED(lift(this.ref, I))

        def activate(ex, st, this, args, f):
            fz.may_throw(ex, st, Not(LOADED(lift(this.ref, I))))
            d = self.deg(this.ref, [ex.rv(x, st) for x in args], log.count(st))
            ex.hwrite(st, this.ref, 'Rule', '_activationDegree', 'double', d)
            return d

        def trigger(ex, st, this, args, f):
            r = lift(this.ref, I)
            fz.may_throw(ex, st, Not(LOADED(r)))
            d = ex.hread(st, r, 'Rule', '_activationDegree', 'double')
            on = And(ENABLED(r), fz.positive(d))
            log.append_if(st, on, [r, d, ex.rv(args[0], st)])
            t = ex.hread(st, r, 'Rule', '_triggered', 'bool')
            ex.hwrite(st, r, 'Rule', '_triggered', 'bool', Or(t, on))
        ex.contracts['Rule::isLoaded'] = loaded
        ex.contracts['Rule::activateWith'] = activate
        ex.contracts['Rule::trigger'] = trigger

    def deg(self, r, ops, count):
        return fz.iface(self.ex, 'degree', [r] + list(ops) + [count], [])

    # ---- steps of the specification
    def init(self):
        return dict(self.log.empty(self.ex), **self.a0)

    def read(self, s, r):
        d = FV(self.ex.sel(s['degk'], r), self.ex.sel(s['degv'], r))
        self.ex.ax(('dg', lift(d.k, I).get_id()), z3.And(lift(d.k, I) >= 0, lift(d.k, I) <= 3))
        return d

    def write(self, s, r, d):
        # what a value that is not finite stores as its real part is irrelevant: keep what the code stores
        return dict(s, degk=z3.Store(s['degk'], lift(r, I), lift(d.k, I)), degv=z3.Store(s['degv'], lift(r, I), lift(d.v, R)))

    def computed(self, s, r):
        """Deactivate the rule, then compute its degree if it is loaded."""
        ld = LOADED(lift(r, I))
        d = self.deg(r, self.ops[:2], s['fired#'])
        s = dict(s, degk=z3.Store(s['degk'], lift(r, I), Ite(ld, d.k, 0, I)), degv=z3.Store(s['degv'], lift(r, I), Ite(ld, d.v, Fraction(0), R)),
                 trig=z3.Store(s['trig'], lift(r, I), z3.BoolVal(False)))
        return s, ld, d

    def fired(self, s, r, cond, d):
        on = And(cond, ENABLED(lift(r, I)), fz.positive(d))
        s = dict(s)
        s.update(self.log.push(s, on, [r, d, self.ops[2]]))
        s['trig'] = Ite(on, z3.Store(s['trig'], lift(r, I), z3.BoolVal(True)), s['trig'])
        return s

    def run(self, cls):
        f = self.c.p.find('%s::activate' % cls)
        return self.ex.enter(f, X.LVHeap(self.m, cls), [self.block], self.st)

    def check(self, outs, want):
        c, ex = self.c, self.ex
        r = z3.Int('r!any')
        for i, o in enumerate(outs):
            nm = 'activate#%d %s' % (i, o.kind)
            if o.kind != 'return':
                c.oblige(nm, ex.hyps(o.st), False, exact=False)
                continue
            self.log.same(c, ex, o, nm, want)
            a = FV(z3.Select(ex.harr(o.st, DK, I), r), z3.Select(ex.harr(o.st, DV, R), r))
            b = FV(z3.Select(want['degk'], r), z3.Select(want['degv'], r))
            c.oblige(nm + ' degrees', ex.hyps(o.st), fsame(a, b), exact=False)
            c.oblige(nm + ' triggered', ex.hyps(o.st), z3.Select(ex.harr(o.st, TR, B), r) == z3.Select(want['trig'], r), exact=False)
        fz.fold_obligations(c, ex)
        fz.loopnotes(c, ex)


NN = [lambda k, s: le(0, s['fired#'])]


def int_field(S, cls, field):
    v = z3.Int(field)
    S.ex.hwrite(S.st, S.m, cls, field, 'int', v)
    return v


def fv_field(S, cls, field):
    v = FV(z3.Int(field + '.k'), z3.Real(field))
    S.st.assume(z3.And(v.k >= 0, v.k <= 3))
    S.ex.hwrite(S.st, S.m, cls, field, 'double', v)
    return v


def simple(c, cls):
    S = Setup(c, cls)
    comps = list(S.comps)
    if cls in ('First', 'Last'):
        num_, thr = int_field(S, cls, '_numberOfRules'), fv_field(S, cls, '_threshold')
        comps.append(('count', 'I'))
    if cls == 'Threshold':
        cmp_, val = z3.Int('comparison'), fv_field(S, cls, '_value')
        S.ex.hwrite(S.st, S.m, cls, '_comparison', 'Threshold::Comparison', cmp_)
        en = S.ex.enum_values('Threshold::Comparison') if hasattr(S.ex, 'enum_values') else None

    def step(k, s):
        r = S.rule(k if cls != 'Last' else sub(sub(S.n, 1), k))
        s, ld, d = S.computed(s, r)
        if cls == 'General':
            return S.fired(s, r, ld, d)
        if cls in ('First', 'Last'):
            go = And(ld, lt(s['count'], num_), fz.positive(d), fz.tge(d, thr))
            s = S.fired(s, r, go, d)
            s['count'] = Ite(go, add(s['count'], 1), s['count'])
            return s
        if cls == 'Threshold':
            cs = [fz.tlt(d, val), fz.tle(d, val), fz.teq(d, val), Not(fz.teq(d, val)), fz.tge(d, val), fz.tgt(d, val)]
            return S.fired(s, r, And(ld, Or(*[And(eqv(cmp_, i), x) for i, x in enumerate(cs)])), d)
    F = Fold(S.ex, 'rules', comps, lambda: dict(S.init(), **({'count': 0} if cls in ('First', 'Last') else {})), step, n=S.n, lemmas=NN)
    outs = S.run(cls)
    S.check(outs, F.at(S.n))


def candidates_list(S, cond, extra=()):
    """First pass: compute every degree, collecting the rules of interest."""
    comps = S.comps[:3] + [('cnt', 'I'), ('lst', z3.ArraySort(I, I))] + [(n, t) for n, t, _ in extra]

    def step(k, s):
        r = S.rule(k)
        old = s
        s, ld, d = S.computed(dict(s, **{'fired#': 0}), r)      # no rule is fired in this pass
        del s['fired#']
        go = And(ld, cond(d))
        s['lst'] = Ite(go, z3.Store(s['lst'], lift(s['cnt'], I), lift(r, I)), s['lst'])
        s['cnt'] = Ite(go, add(s['cnt'], 1), s['cnt'])
        for n, t, f in extra:
            s[n] = fite(ld, f(old[n], d), old[n])
        return s

    def lem(k, s):
        j = z3.Int('j!l')
        e = z3.Select(s['lst'], j)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(s['cnt'], I)), LOADED(e)))

    def init():
        return dict(S.a0, cnt=0, lst=z3.K(I, z3.IntVal(0)), **{n: FV(0) for n, t, f in extra})
    return Fold(S.ex, 'candidates', comps, init, step, n=S.n, lemmas=[lambda k, s: le(0, s['cnt']), lem])


def sorted_(c, cls):
    S = Setup(c, cls)
    ex = S.ex
    num_ = int_field(S, cls, '_numberOfRules')
    S.st.gh['pops'] = 0
    seen = set()

    def pq(ex, name, lv, a, args, n, fr, st):
        v = ex.rv(lv, st)
        seen.add(a[2] if len(a) > 2 else 'std::less')
        p = st.gh['pops']
        if name == 'push':
            x = ex.rv(ex.ev(args[0], fr, st), st)
            if not (num(p) and p == 0):
                raise Unsupported('push after pop')
            w = ex.vset(v, v.n, x)
            ex.write(lv, X.VecV(w.et, add(v.n, 1), w.a), st)
            return None
        if name in ('size', 'empty'):
            return sub(v.n, p) if name == 'size' else eqv(sub(v.n, p), 0)
        ex.ub(st, le(sub(v.n, p), 0), 'priority_queue::%s on an empty queue' % name) if hasattr(ex, 'ub') else None
        if name == 'pop':
            st.gh['pops'] = add(p, 1)
            return None
        if name == 'top':
            i = PERM(lift(p, I))
            st.assume(z3.Implies(lift(p, I) < lift(v.n, I), z3.And(i >= 0, i < lift(v.n, I))))
            return ex.vget(v, i)
        raise Unsupported('priority_queue::%s' % name)
    ex.hooks['pq'] = pq
    F = candidates_list(S, fz.positive)
    f1 = F.at(S.n)
    cnt = f1['cnt']
    m = Ite(lt(num_, 0), 0, Ite(lt(num_, cnt), num_, cnt))

    def step(k, s):
        i = PERM(lift(k, I))
        ex.ax(('perm', i.get_id()), z3.Implies(z3.And(lift(k, I) >= 0, lift(k, I) < lift(cnt, I)), z3.And(i >= 0, i < lift(cnt, I))))
        r = z3.Select(f1['lst'], i)
        return S.fired(s, r, True, S.read(f1, r))
    F2 = Fold(ex, 'in order', S.comps[2:], lambda: dict(S.log.empty(ex), trig=f1['trig']), step, n=m, lemmas=NN)
    outs = S.run(cls)
    S.check(outs, dict(F2.at(m), degk=f1['degk'], degv=f1['degv']))
    # the comparator in use orders the rules by their degrees
    for cname in seen:
        comparator(c, cls, cname)


def comparator(c, cls, name):
    short = name.replace('struct ', '').strip().split('::')[-1]
    fs = [f for f in c.p.funcs.values() if f.qual.endswith(short + '::operator()')]
    if len(fs) != 1:
        raise Unsupported('comparator %s' % name)
    ex = c.executor(fork=False)
    st = X.State()
    a, b = fz.obj(ex, st, 'a', 'Rule'), fz.obj(ex, st, 'b', 'Rule')
    ds = []
    for r, q in ((a, 'a'), (b, 'b')):
        d = FV(z3.Int(q + '.degree.k'), z3.Real(q + '.degree'))
        st.assume(z3.And(d.k >= 0, d.k <= 3))
        ex.hwrite(st, r, 'Rule', '_activationDegree', 'double', d)
        ds.append(d)
    st.assume(a != b)
    key = ('root', 'cmp')
    st.env[key] = X.RecV(short, {})
    want = flt(ds[0], ds[1]) if cls == 'Highest' else flt(ds[1], ds[0])
    for i, o in enumerate(ex.enter(fs[0], X.LVLocal(key, short), [a, b], st)):
        # degrees that are not numbers never reach the queue
        c.oblige('comparator %s#%d' % (short, i), ex.hyps(o.st) + [zb(Not(isnan(ds[0]))), zb(Not(isnan(ds[1])))], o.kind == 'return' and Iff(o.val, want), exact=True)


def proportional(c):
    S = Setup(c, 'Proportional')
    ex = S.ex
    F = candidates_list(S, lambda d: True, [('sum', 'F', fadd)])
    f1 = F.at(S.n)
    cnt = f1['cnt']

    def facts(ex, s, k):
        e = z3.Select(f1['lst'], lift(k, I))
        return z3.Implies(z3.And(lift(k, I) >= 0, lift(k, I) < lift(cnt, I)), z3.And(LOADED(e), e > 0, e <= ex.alloc0))
    ex.loop_facts = list(ex.loop_facts) + [facts]

    def step(k, s):
        r = z3.Select(f1['lst'], lift(k, I))
        d = fdiv(S.read(s, r), f1['sum'])
        d = fite(isnan(d), FV(0), d)
        return S.fired(S.write(s, r, d), r, True, d)
    F2 = Fold(ex, 'in order', S.comps, lambda: dict(S.init(), **{k: f1[k] for k, _ in S.comps[:3]}), step, n=cnt, lemmas=NN)
    outs = S.run('Proportional')
    S.check(outs, F2.at(cnt))


def groups(prog, tier):
    return [('General', simple, 'General'), ('First', simple, 'First'), ('Last', simple, 'Last'), ('Threshold', simple, 'Threshold'),
            ('Highest', sorted_, 'Highest'), ('Lowest', sorted_, 'Lowest'), ('Proportional', proportional)]


SEARCHED = 'random rule blocks (disabled and unloaded rules, ties, weights, rules depending on outputs of earlier ones) under every activation method'
DRIVER = 'engine'


def script(rng):
    e = G.Eng(rng, nin=(1, 3), nout=(1, 2), nrb=(1, 2), nrules=(0, 7), hedges=0.2, disabled=0.15, depth=1, outin=0.15, none=0.03, kinds=('mamdani',), concl=2)
    ops = list(e.o)
    for _ in range(3):
        ops += e.inputs()
        for b in e.rb:
            r = rng.random()
            if r < 0.1:
                ops.append(('unload', b))
            elif r < 0.25:
                ops.append(('load', b))
            elif r < 0.5 and e.nrules[b]:
                ops.append(('flag', rng.choice(['ruleenabled', 'weight']), b, rng.choice([0, 1, 1, 0.5]), rng.randrange(e.nrules[b])))
            ops += [('activate', b), ('rules', b)]
        ops += [('fuzzy', o[0]) for o in e.out]
        if rng.random() < 0.4:
            ops += [('clearact', o[0]) for o in e.out]
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 12000 if tier == 'quick' else 25000)], seed)
