"""Interface contracts shared by the engine level properties: abstract terms, norms, hedges, defuzzifiers as uninterpreted functions."""
from fractions import Fraction
import z3
from fvc import dual as D, exec as X
from fvc.loops import Fold
from fvc.sym import *


def ffun(name, ints, floats):
    """Extended-real valued function of integers and extended reals (deterministic, nothing else known)."""
    ks = [I] * len(ints) + [I, R] * len(floats)
    fk = z3.Function('I:%s.k' % name, *(ks + [I]))
    fv_ = z3.Function('I:%s.v' % name, *(ks + [R]))
    args = [lift(i, I) for i in ints]
    for f in floats:
        args += [lift(f.k, I), lift(Ite(isfin(f), f.v, Fraction(0), R), R)]
    return fk(*args), fv_(*args)


def iface(ex, name, ints, floats):
    k, v = ffun(name, ints, floats)
    ex.ax(('ifk', k.get_id()), z3.And(k >= 0, k <= 3))
    return FV(k, v)


def term_contracts(ex, fin=False):
    """Term::membership / tsukamoto of an unknown term: any deterministic function."""
    def mem(ex, st, this, args, f):
        return iface(ex, 'membership', [this.ref], [ex.rv(args[0], st)])

    def tsu(ex, st, this, args, f):
        return iface(ex, 'tsukamoto', [this.ref], [ex.rv(args[0], st)])
    ex.contracts['Term::membership'] = mem
    ex.contracts['Term::tsukamoto'] = tsu
    # texts of terms only occur in messages
    f = lambda ex, st, this, args, f: SV((fresh(S, 'text'),))
    f.always = True
    ex.contracts['Term::toString'] = f


def norm_contracts(ex):
    def comp(ex, st, this, args, f):
        return iface(ex, 'norm', [this.ref], [ex.rv(args[0], st), ex.rv(args[1], st)])
    ex.contracts['Norm::compute'] = comp
    ex.contracts['TNorm::compute'] = comp
    ex.contracts['SNorm::compute'] = comp


def hedge_contracts(ex):
    def hedge(ex, st, this, args, f):
        return iface(ex, 'hedge', [this.ref], [ex.rv(args[0], st)])
    ex.contracts['Hedge::hedge'] = hedge


def obj(ex, st, name, cls=None):
    """A valid object reference."""
    r = z3.Int(name)
    st.assume(z3.And(r > 0, r <= ex.alloc0))
    if cls:
        ex.known[r.get_id()] = (r, cls)
    return r


def half(k):
    return fadd(from_int(k), FV(0, Fraction(1, 2)))


def fold_obligations(c, ex):
    for f in ex.folds:
        for nm, hy, g in f.obligations():
            c.oblige(nm, [zb(h) for h in hy if h is not True] + ex.axioms, g, exact=False)


# ---------------------------------------------------------------- sums over vectors of doubles
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
VSK = z3.Function('vsum.k', AI, AR, I, I)
VSV = z3.Function('vsum.v', AI, AR, I, R)


def vs_raw(ak, av, n):
    n = lift(n, I)
    return FV(VSK(ak, av, n), VSV(ak, av, n))


def vs_define(ex, ak, av, n, depth=0):
    """Ground instances of the definition of the sum of the first n elements."""
    n = lift(n, I)
    r = vs_raw(ak, av, n)
    key = ('vs', r.v.get_id())
    if key in ex._axkeys or depth > 12:
        return r
    ex.ax(key, z3.And(r.k >= 0, r.k <= 3))
    ex.keep = getattr(ex, 'keep', []) + [r.v]
    ex.axioms.append(z3.Implies(n == 0, zb(fsame(r, FV(0)))))
    if z3.is_int_value(n):
        if n.as_long() > 0 and n.as_long() < 40:
            i = n.as_long() - 1
            prev = vs_define(ex, ak, av, i, depth + 1)
            ex.axioms.append(zb(fsame(r, fadd(prev, FV(ex.sel(ak, i), ex.sel(av, i))))))
    if z3.is_app_of(n, z3.Z3_OP_ITE):
        vs_define(ex, ak, av, n.arg(1), depth + 1)
        vs_define(ex, ak, av, n.arg(2), depth + 1)
    if z3.is_app_of(av, z3.Z3_OP_ITE):
        c = av.arg(0)
        for b in (1, 2):
            a2 = ak.arg(b) if z3.is_app_of(ak, z3.Z3_OP_ITE) and ak.arg(0).eq(c) else ak
            n2 = n.arg(b) if z3.is_app_of(n, z3.Z3_OP_ITE) and n.arg(0).eq(c) else n
            vs_define(ex, a2, av.arg(b), n2, depth + 1)
    elif z3.is_app_of(av, z3.Z3_OP_STORE):
        i, x = av.arg(1), av.arg(2)
        if z3.is_app_of(ak, z3.Z3_OP_STORE) and ak.arg(1).eq(i):
            kb, kx = ak.arg(0), ak.arg(2)
        else:
            kb, kx = ak, z3.Select(ak, i)
        prev = vs_define(ex, kb, av.arg(0), i, depth + 1)
        ex.axioms.append(z3.Implies(n == i + 1, zb(fsame(r, fadd(prev, FV(kx, x))))))
    return r


def vec_sum(ex, vec):
    ak, av = ex.varr(vec, ('k',), I), ex.varr(vec, ('v',), R)
    return vs_define(ex, ak, av, vec.n)


def mean_contract(ex):
    def mean(ex, st, this, args, f):
        v = ex.rv(args[0], st)
        return fdiv(vec_sum(ex, v), from_int(v.n))
    ex.contracts['Operation::mean'] = mean


def prove_mean(c):
    """Operation::mean on any vector of doubles is the sum of its elements (in order) over their number."""
    ex = c.executor()
    st = X.State()
    n = z3.Int('n')
    st.assume(n >= 0)
    vec = X.VecV('double', n, {('k',): z3.Const('xs.k', AI), ('v',): z3.Const('xs.v', AR)})
    key = ('root', 'xs')
    st.env[key] = vec
    kz = z3.Const('xs.k', AI)
    vz = z3.Const('xs.v', AR)
    ex.loop_facts = [lambda ex, s, k: z3.And(kz[k] >= 0, kz[k] <= 3)]
    F = Fold(ex, 'sum', [('s', 'F')], lambda: {'s': FV(0)}, lambda k, v: {'s': fadd(v['s'], FV(z3.Select(kz, lift(k, I)), z3.Select(vz, lift(k, I))))}, n=n)
    f = [x for x in list(c.p.funcs.values()) if x.name == 'mean' and 'double' in x.ftype.split('(')[1]]
    if not f:
        raise Unsupported('Operation::mean is not instantiated')
    outs = ex.enter(f[0], None, [X.LVLocal(key, 'std::vector<double>')], st)
    for i, o in enumerate(outs):
        c.oblige('Operation::mean#%d' % i, ex.hyps(o.st), o.kind == 'return' and fsame(o.val, fdiv(F.at(n)['s'], from_int(n))), exact=False)


def sum_candidates(ex, entry, mod, depth):
    """The sum of a vector built in the loop equals a component of a fold."""
    out = []
    from fvc import loops
    for loc in mod:
        if loc[0] == 'L' and loc[2] and loc[2][-1] == '#':
            v = entry.env.get(loc[1])
            if isinstance(v, X.VecV) and X.tkind(v.et)[0] == 'F':
                for tt, f, txt in loops.fold_values(ex, depth):
                    if tt == 'F':
                        out.append(('sum(%s) == %s' % (loc[1][1], txt),
                                    lambda ex, st, k, loc=loc, f=f: fsame(vec_sum(ex, st.env[loc[1]]), f(k))))
    return out


def pointwise_candidates(funs, n):
    """Quantified candidates: elements [0,k) or [k,n) of a vector modified in the loop (or before it) follow a function of the index."""
    def g(ex, entry, mod, depth):
        out = []
        done = set()
        for loc in mod:
            if loc[0] == 'L' and len(loc[2]) >= 2 and loc[2][-2] == '[]' and loc[1] not in done:
                v = entry.env.get(loc[1])
                if isinstance(v, X.VecV) and X.tkind(v.et)[0] == 'F' and loc[2][:1] == ('[]',):
                    done.add(loc[1])
                    for nm, fn in funs:
                        for reg in ('done', 'todo'):
                            def goal(ex, st, k, key=loc[1], fn=fn, reg=reg):
                                vec = st.env[key]
                                ak, av = ex.varr(vec, ('k',), I), ex.varr(vec, ('v',), R)
                                j = z3.Int('j!pw')
                                rng = z3.And(j >= 0, j < lift(k, I)) if reg == 'done' else z3.And(j >= lift(k, I), j < lift(n, I))
                                w = fn(j)
                                body = z3.Implies(rng, zb(fsame(FV(z3.Select(ak, j), z3.Select(av, j)), w)))
                                return z3.ForAll([j], body)
                            out.append(('elements %s of vector follow %s' % (reg, nm), goal))
        return out
    return g


# ---------------------------------------------------------------- vectors of records, throwing contracts
def symvec(ex, st, name, et):
    """A vector of unknown length n >= 0 and unknown elements."""
    v = ex.symbolic('std::vector<%s>' % et, name)
    n = z3.Int(name + '.size')
    v = X.VecV(v.et, n, v.a)
    st.assume(n >= 0)
    return v, n


def elem(ex, v, cls, field):
    """Accessor of a field of the elements."""
    def get(k):
        r = ex.vget(v, k).f[(cls, field)]
        if isinstance(r, FV):
            ex.ax(('elk', lift(r.k, I).get_id()), z3.And(lift(r.k, I) >= 0, lift(r.k, I) <= 3))
        return r
    return get


def nonnull(ex, get, n, reverse=False):
    """Every element of the list is a valid object (stated at the indices around each loop iteration)."""
    old = getattr(ex, 'loop_facts', None) or []

    def fact(i):
        i = lift(i, I)
        return z3.Implies(z3.And(i >= 0, i < lift(n, I)), z3.And(lift(get(i), I) > 0, lift(get(i), I) <= ex.alloc0))

    def facts(ex, s, k):
        k, m = lift(k, I), lift(n, I)
        idx = [k] + ([k + 1, k - 1, m - k, m - 1 - k, m - 2 - k] if reverse else [])
        return z3.And(*[fact(i) for i in idx]) if len(idx) > 1 else fact(k)
    ex.loop_facts = list(old) + [facts]


def may_throw(ex, st, cond, what='std::exception'):
    """The contract raises an error when cond holds."""
    if cond is False:
        return
    s2 = st.copy()
    try:
        if cond is not True:
            s2.assume(cond)
        ex.pending.append(X.Out('throw', s2, (what, None)))
    except X.Dead:
        pass
    if cond is True:
        raise X.Dead()
    st.assume(Not(cond))


def loopnotes(c, ex):
    c.notes += ['%s: invariant at %s: %s' % (c.group, l['loop'], '; '.join(l['invariant'])[:400]) for l in ex.loops_log]


def int_pointwise(funs, n):
    """Quantified candidates for vectors of pointers or integers: the elements built so far follow a function of the index."""
    def g(ex, entry, mod, depth):
        out, done = [], set()
        for loc in mod:
            if loc[0] == 'L' and loc[2] == ('[]', ()) and loc[1] not in done:
                v = entry.env.get(loc[1])
                if isinstance(v, X.VecV) and X.tkind(v.et)[0] in ('P', 'I'):
                    done.add(loc[1])
                    for nm, fn in funs:
                        def goal(ex, st, k, key=loc[1], fn=fn):
                            vec = st.env[key]
                            a = ex.varr(vec, (), I)
                            j = z3.Int('j!pw')
                            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(k, I)), z3.Select(a, j) == lift(fn(j), I)))
                        out.append(('elements of vector follow %s' % nm, goal))
        return out
    return g


# ---------------------------------------------------------------- ghost logs of calls
class Log:
    """Ghost list of the calls made so far; fields: [(name, z3 sort or 'F')]."""

    def __init__(self, name, fields):
        self.name, self.fields = name, []
        for n, s in fields:
            if isinstance(s, str):
                self.fields += [(n + '.k', I), (n + '.v', R)]
            else:
                self.fields.append((n, s))
        self.src = fields

    def flat(self, vals):
        out = []
        for (n, s), x in zip(self.src, vals):
            out += [lift(x.k, I), lift(Ite(isfin(x), x.v, Fraction(0), R), R)] if isinstance(s, str) else [lift(x, s)]
        return out

    def start(self, ex, st):
        st.gh[self.name + '#'] = 0
        for n, s in self.fields:
            st.gh[self.name + '.' + n] = z3.K(I, ex.default(s))

    def count(self, st):
        return st.gh[self.name + '#']

    def append(self, st, vals):
        n = self.count(st)
        for (f, s), x in zip(self.fields, self.flat(vals)):
            st.gh[self.name + '.' + f] = z3.Store(st.gh[self.name + '.' + f], lift(n, I), x)
        st.gh[self.name + '#'] = add(n, 1)

    def append_if(self, st, cond, vals):
        n = self.count(st)
        for (f, s), x in zip(self.fields, self.flat(vals)):
            a = st.gh[self.name + '.' + f]
            st.gh[self.name + '.' + f] = Ite(cond, z3.Store(a, lift(n, I), x), a)
        st.gh[self.name + '#'] = Ite(cond, add(n, 1), n)

    # the same list as components of a specification fold
    def comps(self):
        return [(self.name + '#', 'I')] + [(self.name + '.' + f, z3.ArraySort(I, s)) for f, s in self.fields]

    def empty(self, ex):
        d = {self.name + '#': 0}
        for f, s in self.fields:
            d[self.name + '.' + f] = z3.K(I, ex.default(s))
        return d

    def get(self, s):
        return {k: s[k] for k, _ in self.comps()}

    def push(self, s, cond, vals):
        """Components after appending vals (when cond) to the list in s."""
        n = s[self.name + '#']
        d = {self.name + '#': Ite(cond, add(n, 1), n)}
        for (f, so), x in zip(self.fields, self.flat(vals)):
            a = s[self.name + '.' + f]
            d[self.name + '.' + f] = Ite(cond, z3.Store(a, lift(n, I), x), a)
        return d

    def same(self, c, ex, o, name, want):
        """The final list is the expected one."""
        j = z3.Int('j!log')
        n = self.count(o.st)
        c.oblige(name + ' number of calls', ex.hyps(o.st), eqv(n, want[self.name + '#']), exact=False)
        for f, s in self.fields:
            c.oblige('%s call.%s' % (name, f), ex.hyps(o.st) + [j >= 0, j < lift(n, I)],
                     z3.Select(o.st.gh[self.name + '.' + f], j) == z3.Select(want[self.name + '.' + f], j), exact=False)


def teq(a, b):
    """Tolerant equality of the library (NaN equals NaN)."""
    d = fabs(fsub(a, b))
    return Or(feq(a, b), flt(d, FV(0, z3.Real('eps'))), And(isnan(a), isnan(b)))


def tgt(a, b): return And(Not(teq(a, b)), flt(b, a))
def tlt(a, b): return And(Not(teq(a, b)), flt(a, b))
def tge(a, b): return Or(teq(a, b), flt(b, a))
def tle(a, b): return Or(teq(a, b), flt(a, b))
def positive(d): return tgt(d, FV(0))
