"""Executable specification of engines, used to execute the contracts on the compiled code (native/engine.cpp).

A script is a list of operations. It is run on this model three times, each time with a different relative perturbation (1e-12)
of every computed degree; an expectation that depends on the perturbation (a tie broken by rounding, cancellation) is not checked
and ends the script."""
import math, multiprocessing as mp, random, subprocess, zlib
from fvc import dual as D, native
from . import terms as T, norms as NM, P02, P05
from .numeric import close

nan, inf = math.nan, math.inf
EPS = 1e-6
isnan = math.isnan


class Err(Exception):
    """The library reports an error."""


class Unsure(Exception):
    """The expectation is not determined by the specification."""


# ---------------------------------------------------------------- tolerant comparisons
def eq(a, b): return a == b or abs(a - b) < EPS or (isnan(a) and isnan(b))
def gt(a, b): return not eq(a, b) and a > b
def lt(a, b): return not eq(a, b) and a < b
def ge(a, b): return eq(a, b) or a > b
def le(a, b): return eq(a, b) or a < b


RUN = [0]
LEAK = True


def jit(x, *key):
    """Perturb a computed value, the same way for the same computation."""
    if RUN[0] == 0 or not math.isfinite(x) or x == 0 or x == 1:
        return x
    h = zlib.crc32(repr((RUN[0], x) + key).encode()) & 0xffff
    return x * (1 + (h / 65536.0 - 0.5) * 2e-12)


def norm(name, a, b):
    if name in ('Minimum', 'Maximum'):
        if isnan(a) or isnan(b):
            return nan
        return min(a, b) if name == 'Minimum' else max(a, b)
    if isnan(a) or isnan(b):
        if name in ('AlgebraicProduct', 'AlgebraicSum', 'UnboundedSum', 'EinsteinProduct', 'EinsteinSum'):
            return nan
        raise Unsure()
    try:
        r = NM.FORM[name](float(a), float(b), EPS)
    except (ZeroDivisionError, OverflowError):
        raise Unsure()
    if r == a or r == b:
        return r
    return jit(r, a, b, name)


def hedge(name, x):
    if name == 'any':
        return 1.0
    f = P05.FORM[name.capitalize()]
    if isnan(x):
        return nan
    if name == 'not' and (x == 0 or x == 1):
        return 1.0 - x
    return jit(float(f(float(x), EPS)), x, name)


def fdiv(a, b):
    if b == 0:
        return nan if a == 0 or isnan(a) else math.copysign(inf, a) * math.copysign(1, b)
    return a / b


# ---------------------------------------------------------------- terms
class Term:
    def __init__(self, name, cls, h, p, fn=None, eng=None):
        self.name, self.cls, self.h, self.p, self.fn, self.eng = name, cls, h, list(p), fn, eng

    def copy(self, eng):
        return Term(self.name, self.cls, self.h, self.p, self.fn, eng)

    def mem(self, x):
        c = self.cls
        if c == 'Constant':
            return self.p[0]
        if c == 'Linear':
            if self.eng is None:
                raise Err()
            s = 0.0
            for i, v in enumerate(self.eng.inputs):
                if i < len(self.p):
                    s += self.p[i] * v.value
            if len(self.p) > len(self.eng.inputs):
                s += self.p[-1]
            return jit(s, self.name)
        if c == 'Function':
            return jit(float(self.fn(self.eng, float(x))), x, self.name)
        if c == 'Discrete':
            return jit(discrete(self.p, self.h, x), x)
        if isnan(x):
            return nan
        try:
            v = float(T.SPEC[c](self.h, self.p, float(x), EPS))
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Unsure()
        if v in (0.0, 1.0, self.h):
            return v
        return jit(v, x, self.name)

    def mono(self):
        return self.cls in P02.MONO

    def tsu(self, y):
        if self.cls not in P02.MONO:
            raise Err()
        if not (0 < y < self.h) :
            raise Unsure()
        try:
            return jit(float(P02.inverse(self.cls, self.h, self.p, float(y))), y)
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Unsure()

    def kind(self):
        if self.cls in ('Constant', 'Linear', 'Function'):
            return 1
        return 2 if self.mono() else 0


def discrete(p, h, x):
    if isnan(x):
        return nan
    if not p:
        raise Err()
    xs, ys = p[0::2], p[1::2]
    if any(a != x and abs(a - x) < 1.1 * EPS for a in xs) and xs[0] <= x <= xs[-1]:
        raise Unsure()
    if le(x, xs[0]):
        return h * ys[0]
    if ge(x, xs[-1]):
        return h * ys[-1]
    for i in range(len(xs)):
        if xs[i] >= x:
            if eq(xs[i], x):
                return h * ys[i]
            a, b = i - 1, i
            return h * ((ys[b] - ys[a]) / (xs[b] - xs[a]) * (x - xs[a]) + ys[a])
    raise Unsure()


class Var:
    def __init__(self, name, lo, hi, lock, enabled):
        self.name, self.lo, self.hi, self.lock, self.enabled = name, lo, hi, lock, enabled
        self.value, self.terms = nan, []
        self.out = False

    def set(self, x):
        if self.lock:
            x = self.hi if x > self.hi else self.lo if x < self.lo else x
        self.value = x

    def term(self, n):
        for t in self.terms:
            if t.name == n:
                return t
        raise Err()


class Act:
    def __init__(self, term, deg, imp):
        self.term, self.deg, self.imp = term, deg, imp

    def mem(self, x):
        if isnan(x):
            return nan
        if self.term is None or self.imp is None:
            raise Err()
        return norm(self.imp, self.term.mem(x), self.deg)


class Out(Var):
    def __init__(self, name, lo, hi, lock, enabled, default, lockprev, agg, defuzz):
        Var.__init__(self, name, lo, hi, lock, enabled)
        self.out, self.default, self.lockprev, self.agg, self.defuzz = True, default, lockprev, agg, defuzz
        self.prev, self.acts = nan, []
        self.fname, self.flo, self.fhi = name, lo, hi

    # fuzzy output
    def amem(self, x):
        if isnan(x):
            return nan
        if self.acts and self.agg is None:
            raise Err()
        mu = 0.0
        for a in self.acts:
            mu = norm(self.agg, mu, a.mem(x))
        return mu

    def adeg(self, t):
        r = 0.0
        for a in self.acts:
            if a.term is t:
                r = norm(self.agg, r, a.deg) if self.agg else jit(r + a.deg, 's') if r else a.deg
        return r

    def grouped(self):
        out = []
        for a in self.acts:
            for g in out:
                if g.term.name == a.term.name:
                    g.deg = norm(self.agg, g.deg, a.deg) if self.agg else jit(g.deg + a.deg, 's')
                    break
            else:
                out.append(Act(a.term, a.deg, a.imp))
        return out

    def maximal(self):
        m, out = 0.0, []
        for a in self.acts:
            if a.deg > m:
                m, out = a.deg, [a]
            elif m > 0 and a.deg == m:
                out.append(a)
        return out

    def run_defuzz(self, t=None):
        if self.defuzz is None:
            raise Err()
        return defuzzify(self.defuzz, self if t is None else t, self.lo, self.hi)

    def step(self):
        if not self.enabled:
            return
        v = self.run_defuzz()
        if self.lockprev and isnan(v):
            v = self.prev
        if isnan(v):
            v = self.default
        self.prev = self.value
        self.set(v)

    def clear(self):
        self.acts = []
        self.set(nan)
        self.prev = nan


def infer(ts):
    s = {t.kind() for t in ts}
    if len(s) > 1:
        raise Err()
    return s.pop() if s else 0


def defuzzify(spec, t, lo, hi):
    name, arg = spec.split(':')
    if name in ('WeightedAverage', 'WeightedSum'):
        if not isinstance(t, Out):
            raise Err()
        if not t.acts:
            return nan
        k = {'Automatic': 0, 'TakagiSugeno': 1, 'Tsukamoto': 2}.get(arg, 0)
        if k == 0:
            k = infer([a.term for a in t.acts])
        if k == 0:
            raise Err()
        s = w_ = 0.0
        for a in t.grouped():
            w = a.deg
            z = a.term.mem(w) if k == 1 else a.term.tsu(w)
            s += w * z
            w_ += w
        return jit(fdiv(s, w_) if name == 'WeightedAverage' else s, 'wd')
    res = int(arg)
    if not (math.isfinite(lo) and math.isfinite(hi)):
        return nan
    mem = t.amem if isinstance(t, Out) else t.mem
    dx = (hi - lo) / res
    pts = [lo + (i + 0.5) * dx for i in range(res)]
    ys = [mem(x) for x in pts]
    if name == 'Centroid':
        a = m = 0.0
        for x, y in zip(pts, ys):
            a += y
            m += y * x
        return jit(fdiv(m, a), 'c')
    if name == 'Bisector':
        s, cum = 0.0, []
        for y in ys:
            if math.isfinite(y):
                s += y
            cum.append(s)
        ds = [abs(fdiv(c, s) - 0.5) for c in cum]
        best = inf
        for d in ds:
            if d < best:
                best = d
        pick = [x for x, d in zip(pts, ds) if d == best]
        # the distances are computed: nearly equal ones may round either way
        if len({c for c, d in zip(cum, ds) if abs(d - best) < 1e-11}) > 1:
            raise Unsure()
        return fdiv(sum(pick), len(pick))
    best, pick = -inf, []
    for x, y in zip(pts, ys):
        if y > best:
            best, pick = y, [x]
        elif y == best:
            pick.append(x)
    if any(0 < abs(y - best) < 1e-11 * (1 + abs(best)) for y in ys if math.isfinite(y)):
        raise Unsure()
    if name == 'SmallestOfMaximum':
        return pick[0] if pick and best > -inf else nan
    if name == 'LargestOfMaximum':
        return pick[-1] if pick else nan
    return fdiv(sum(pick), len(pick))


# ---------------------------------------------------------------- rules
class Rule:
    def __init__(self, text, ast, enabled, loaded):
        self.text, self.ast, self.enabled, self.loaded = text, ast, enabled, loaded
        self.weight = ast[2] if loaded else 1.0
        self.deg, self.trig = 0.0, False


class Block:
    def __init__(self, name, enabled, conj, disj, imp, act):
        self.name, self.enabled, self.conj, self.disj, self.imp, self.act = name, enabled, conj, disj, imp, act
        self.rules = []


class Engine:
    def __init__(self):
        self.inputs, self.outputs, self.blocks = [], [], []

    def var(self, n):
        for v in self.inputs + self.outputs:
            if v.name == n:
                return v
        raise Err()

    def ov(self, n):
        for v in self.outputs:
            if v.name == n:
                return v
        raise Err()

    def rb(self, n):
        for v in self.blocks:
            if v.name == n:
                return v
        raise Err()

    # ---- antecedent / consequent
    def degree(self, e, conj, disj):
        if e[0] in ('and', 'or'):
            n = conj if e[0] == 'and' else disj
            if n is None:
                raise Err()
            return norm(n, self.degree(e[1], conj, disj), self.degree(e[2], conj, disj))
        _, vn, hs, tn = e
        v = self.var(vn)
        if not v.enabled:
            return 0.0
        if hs and hs[-1] == 'any':
            r = hedge('any', nan)
            for h in reversed(hs[:-1]):
                r = hedge(h, r)
            return r
        t = v.term(tn)
        r = v.adeg(t) if v.out else t.mem(v.value)
        for h in reversed(hs):
            r = hedge(h, r)
        return r

    def activate_with(self, b, r):
        if not r.loaded:
            raise Err()
        r.deg = jit(r.weight * self.degree(r.ast[0], b.conj, b.disj), 'w') if r.weight != 1 else self.degree(r.ast[0], b.conj, b.disj)
        return r.deg

    def trigger(self, b, r):
        if not r.loaded:
            raise Err()
        if r.enabled and gt(r.deg, 0.0):
            d = r.deg
            for vn, hs, tn in r.ast[1]:
                v = self.ov(vn)
                if v.enabled:
                    # known finding of P11: the hedged degree carries over to the conclusions after this one
                    if not LEAK:
                        d = r.deg
                    for h in reversed(hs):
                        d = hedge(h, d)
                    v.acts.append(Act(v.term(tn), d, b.imp))
            r.trig = True

    def activate(self, b):
        p = (b.act or 'General').split(':')
        rs = b.rules
        if p[0] == 'General':
            for r in rs:
                r.deg, r.trig = 0.0, False
                if r.loaded:
                    self.activate_with(b, r)
                    self.trigger(b, r)
        elif p[0] in ('First', 'Last'):
            n, k = int(p[1]), 0
            for r in (rs if p[0] == 'First' else rs[::-1]):
                r.deg, r.trig = 0.0, False
                if r.loaded:
                    d = self.activate_with(b, r)
                    if k < n and gt(d, 0.0) and ge(d, float(p[2])):
                        self.trigger(b, r)
                        k += 1
        elif p[0] in ('Highest', 'Lowest'):
            cand = []
            for r in rs:
                r.deg, r.trig = 0.0, False
                if r.loaded:
                    d = self.activate_with(b, r)
                    if gt(d, 0.0):
                        cand.append(r)
            n = max(0, int(p[1]))
            # rules of equal degree have no documented order: what depends on it is not checked
            cand.sort(key=lambda r: r.deg, reverse=p[0] == 'Highest')
            if any(abs(u.deg - v.deg) <= 1e-9 * (1 + abs(u.deg)) for u, v in zip(cand[:n], cand[1:n + 1])):
                raise Unsure()
            for r in cand[:n]:
                self.trigger(b, r)
        elif p[0] == 'Threshold':
            f = {'<': lt, '<=': le, '==': eq, '!=': lambda a, c: not eq(a, c), '>=': ge, '>': gt}[p[1]]
            for r in rs:
                r.deg, r.trig = 0.0, False
                if r.loaded:
                    if f(self.activate_with(b, r), float(p[2])):
                        self.trigger(b, r)
        elif p[0] == 'Proportional':
            s, lst = 0.0, []
            for r in rs:
                r.deg, r.trig = 0.0, False
                if r.loaded:
                    s += self.activate_with(b, r)
                    lst.append(r)
            for r in lst:
                d = fdiv(r.deg, s)
                r.deg = 0.0 if isnan(d) else jit(d, 'p')
                self.trigger(b, r)

    def process(self):
        for v in self.outputs:
            v.acts = []
        for b in self.blocks:
            if b.enabled:
                self.activate(b)
        for v in self.outputs:
            v.step()

    def restart(self):
        for v in self.inputs:
            v.set(nan)
        for v in self.outputs:
            v.clear()

    # ---- whole engine
    def copy(self):
        e = Engine()
        tm = {}
        for v in self.inputs + self.outputs:
            w = Out(v.name, v.lo, v.hi, v.lock, v.enabled, v.default, v.lockprev, v.agg, v.defuzz) if v.out else Var(v.name, v.lo, v.hi, v.lock, v.enabled)
            w.value = v.value
            for t in v.terms:
                w.terms.append(t.copy(e))
                tm[id(t)] = w.terms[-1]
            if v.out:
                w.prev = v.prev
            (e.outputs if v.out else e.inputs).append(w)
        for v, w in zip(self.outputs, e.outputs):
            w.acts = [Act(tm.get(id(a.term)), a.deg, a.imp) for a in v.acts]
        for b in self.blocks:
            c = Block(b.name, b.enabled, b.conj, b.disj, b.imp, b.act)
            for r in b.rules:
                q = Rule(r.text, r.ast, r.enabled, r.loaded)
                q.weight, q.deg = r.weight, 0.0
                c.rules.append(q)
            e.blocks.append(c)
        return e

    def type(self):
        """0 Unknown 1 Mamdani 2 Larsen 3 TakagiSugeno 4 Tsukamoto 5 InverseTsukamoto 6 Hybrid (names resolved by the driver)"""
        o = self.outputs
        if not o:
            return 'Unknown'
        integral = lambda v: v.defuzz is not None and not v.defuzz.startswith('Weighted')
        weighted = lambda v: v.defuzz is not None and v.defuzz.startswith('Weighted')
        if all(integral(v) for v in o):
            return 'Larsen' if self.blocks and all(b.imp == 'AlgebraicProduct' for b in self.blocks) else 'Mamdani'
        if all(weighted(v) for v in o):
            ty = lambda v: v.defuzz.split(':')[1]
            if all(ty(v) in ('Automatic', 'TakagiSugeno') and all(t.kind() == 1 for t in v.terms) for v in o):
                return 'TakagiSugeno'
            if all(ty(v) in ('Automatic', 'Tsukamoto') and all(t.mono() for t in v.terms) for v in o):
                return 'Tsukamoto'
            return 'InverseTsukamoto'
        if all(v.defuzz is not None for v in o):
            return 'Hybrid'
        return 'Unknown'


TYPES = ['Mamdani', 'Larsen', 'TakagiSugeno', 'Tsukamoto', 'InverseTsukamoto', 'Hybrid', 'Unknown']


def nacts(acts):
    out = [str(len(acts))]
    for a in acts:
        out += [a.term.name if a.term else 'null', float(a.deg), a.imp or 'none']
    return out


class Model:
    """Executes operations; every operation returns the list of expected tokens, or None if nothing is said about its output."""

    def __init__(self):
        self.e, self.cur = {}, '0'

    @property
    def g(self):
        return self.e[self.cur]

    def do(self, op):
        f = getattr(self, 'o_' + op[0])
        return f(*op[1:])

    def o_new(self, k):
        self.e[k] = Engine()
        self.cur = k
        return ['ok']

    def o_use(self, k):
        self.cur = k
        return ['ok']

    def o_clone(self, k):
        self.e[k] = self.g.copy()
        return ['ok']

    o_assign = o_clone

    def o_drop(self, k):
        self.e.pop(k, None)
        return ['ok']

    def o_iv(self, n, lo, hi, lock, en):
        self.g.inputs.append(Var(n, lo, hi, lock, en))
        return ['ok']

    def o_ov(self, n, lo, hi, lock, en, default, lockprev, agg, defuzz):
        self.g.outputs.append(Out(n, lo, hi, lock, en, default, lockprev, agg, defuzz))
        return ['ok']

    def o_term(self, v, cls, name, h, p, fn=None):
        self.g.var(v).terms.append(Term(name, cls, 1.0 if h is None else h, p, fn, self.g))
        return ['ok']

    def o_rb(self, n, en, conj, disj, imp, act):
        self.g.blocks.append(Block(n, en, conj, disj, imp, act))
        return ['ok']

    def o_rule(self, b, en, load, text, ast):
        self.g.rb(b).rules.append(Rule(text, ast, en, bool(load) and ast is not None))
        if load and ast is None:
            raise Err()
        return ['1' if load else '0']

    def o_load(self, b):
        bad = False
        for r in self.g.rb(b).rules:
            r.loaded = r.ast is not None
            bad = bad or not r.loaded
            r.deg, r.trig, r.enabled = 0.0, False, True
            if r.loaded:
                r.weight = r.ast[2]
        if bad:
            raise Err()
        return ['ok']

    o_reload = o_load

    def o_unload(self, b):
        for r in self.g.rb(b).rules:
            r.loaded, r.deg, r.trig = False, 0.0, False
        return ['ok']

    def o_set(self, n, x):
        self.g.var(n).set(x)
        return ['ok']

    def o_setin(self, n, x):
        for v in self.g.inputs:
            if v.name == n:
                v.set(x)
                return ['ok']
        raise Err()

    def o_prevset(self, n, x):
        self.g.ov(n).prev = x
        return ['ok']

    def o_flag(self, what, n, x, i=None):
        if what == 'enabled': self.g.var(n).enabled = x != 0
        elif what == 'lockrange': self.g.var(n).lock = x != 0
        elif what == 'lockprev': self.g.ov(n).lockprev = x != 0
        elif what == 'default': self.g.ov(n).default = x
        elif what == 'min':
            self.g.var(n).lo = x
            if self.g.var(n).out: self.g.var(n).flo = x
        elif what == 'max':
            self.g.var(n).hi = x
            if self.g.var(n).out: self.g.var(n).fhi = x
        elif what == 'rbenabled': self.g.rb(n).enabled = x != 0
        elif what == 'ruleenabled': self.g.rb(n).rules[i].enabled = x != 0
        elif what == 'weight': self.g.rb(n).rules[i].weight = x
        return ['ok']

    def o_aggregation(self, n, a):
        self.g.ov(n).agg = a
        return ['ok']

    def o_setdef(self, n, d):
        self.g.ov(n).defuzz = d
        return ['ok']

    def o_get(self, n):
        return [float(self.g.var(n).value)]

    def o_out(self, n):
        return [float(self.g.ov(n).value)]

    def o_prev(self, n):
        return [float(self.g.ov(n).prev)]

    def o_process(self):
        self.g.process()
        return ['ok']

    def o_restart(self):
        self.g.restart()
        return ['ok']

    def o_activate(self, b):
        self.g.activate(self.g.rb(b))
        return ['ok']

    def o_type(self):
        return [str(TYPES.index(self.g.type()))]

    def o_ready(self, want):
        return ['1' if want else '0']

    def o_rules(self, b):
        r = self.g.rb(b).rules
        out = [str(len(r))]
        for q in r:
            out += ['1' if q.trig else '0', '1' if q.enabled else '0', float(q.deg), float(q.weight)]
        return out

    def o_ruleop(self, b, i, what, x=None):
        bl = self.g.rb(b)
        r = bl.rules[i]
        if what == 'activate': return [float(self.g.activate_with(bl, r))]
        if what == 'trigger': self.g.trigger(bl, r)
        elif what == 'deactivate': r.deg, r.trig = 0.0, False
        elif what == 'degree': r.deg = x
        elif what == 'loaded': return ['1' if r.loaded else '0']
        return ['ok']

    def o_tree(self, b, i):
        r = self.g.rb(b).rules[i]

        def ex(e):
            if e[0] == 'p':
                return '[' + ' '.join([e[1]] + list(e[2]) + [e[3] if e[3] and not (e[2] and e[2][-1] == 'any') else '-']) + ']'
            return '(%s %s %s)' % (ex(e[1]), e[0], ex(e[2]))
        s = ex(r.ast[0]) + ' =>'
        for vn, hs, tn in r.ast[1]:
            s += ' [' + ' '.join([vn] + list(hs) + [tn]) + ']'
        return s.split()

    def o_fuzzy(self, n):
        return nacts(self.g.ov(n).acts)

    def o_grouped(self, n):
        if any(a.term is None for a in self.g.ov(n).acts):
            raise Unsure()
        return nacts(self.g.ov(n).grouped())

    def o_maximal(self, n):
        return nacts(self.g.ov(n).maximal())

    def o_highest(self, n):
        m = self.g.ov(n).maximal()
        return [m[0].term.name if m[0].term else 'null', float(m[0].deg)] if m else ['null', 0.0]

    def o_addact(self, n, t, d, imp):
        v = self.g.ov(n)
        v.acts.append(Act(None if t == 'null' else v.term(t), d, imp))
        return ['ok']

    def o_clearact(self, n):
        self.g.ov(n).acts = []
        return ['ok']

    def o_actdeg(self, n, t):
        v = self.g.ov(n)
        return [float(v.adeg(v.term(t)))]

    def o_aggmem(self, n, x):
        return [float(self.g.ov(n).amem(x))]

    def o_agginfo(self, n):
        v = self.g.ov(n)
        return [v.fname, float(v.flo), float(v.fhi), v.agg or 'none']

    def o_defuzz(self, n):
        return [float(self.g.ov(n).run_defuzz())]

    def o_defuzzterm(self, n, t):
        v = self.g.ov(n)
        return [float(v.run_defuzz(v.term(t)))]

    def o_ovdef(self, n):
        self.g.ov(n).step()
        return ['ok']

    def o_ovclear(self, n):
        self.g.ov(n).clear()
        return ['ok']

    def o_infer(self, n):
        return [str(infer([a.term for a in self.g.ov(n).acts]))]

    def o_hm(self, n, x):
        v = self.g.var(n)
        m, t = 0.0, None
        for q in v.terms:
            try:
                y = q.mem(x)
            except Err:
                y = nan
            if y > m:
                m, t = y, q
        return [t.name, float(m)] if t else ['null', nan]

    def o_mem(self, n, t, x):
        return [float(self.g.var(n).term(t).mem(x))]

    def o_tsu(self, n, t, x):
        return [float(self.g.var(n).term(t).tsu(x))]

    def o_height(self, n, t, x):
        self.g.var(n).term(t).h = x
        return ['ok']

    def o_decimals(self, n):
        return ['ok']

    def o_flimport(self, k, sep, text):
        """Import of the exported text of the current engine: the same configuration, nothing evaluated yet."""
        e = self.g.copy()
        for v in e.inputs + e.outputs:
            v.value = nan
            if v.out:
                v.prev, v.acts = nan, []
        for b in e.blocks:
            for r in b.rules:
                r.enabled, r.deg, r.trig = True, 0.0, False
                r.loaded = r.ast is not None
                r.weight = r.ast[2] if r.loaded else 1.0
        self.e[k] = e
        self.cur = k
        return ['ok']

    def o_raw(self, text, want):
        """Any driver command with the tokens it must answer (None: anything)."""
        return want


def fmt(x):
    if x is None:
        return 'none'
    return native.fmt(x)


def line(op):
    k = op[0]
    if k == 'raw':
        return op[1]
    if k == 'term':
        _, v, cls, name, h, p = op[:6]
        if cls == 'Function':
            return 'term %s Function %s %s' % (v, name, p[0])
        return 'term %s %s %s %s %d %s' % (v, cls, name, fmt(1.0 if h is None else h), len(p), ' '.join(fmt(float(q)) for q in p))
    if k == 'rule':
        return 'rule %s %s %s %s' % (op[1], fmt(bool(op[2])), fmt(bool(op[3])), op[4].replace('\\', '\\\\').replace('\n', '\\n'))
    if k == 'flag':
        return 'flag %s %s %s%s' % (op[1], op[2], fmt(float(op[3])), '' if len(op) < 5 or op[4] is None else ' %d' % op[4])
    if k == 'ready':
        return 'ready'
    if k == 'flimport':
        return 'fl import %s %s %s' % (op[1], op[2].replace('\n', '\\n'), op[3].replace('\\', '\\\\').replace('\n', '\\n'))
    return ' '.join([k] + [fmt(x) for x in op[1:] if not callable(x)])


def expect(ops):
    """Expected tokens of every operation of a script; the script may be cut."""
    D.EX = D.ST = None
    runs = []
    for r in range(3):
        RUN[0] = r
        m = Model()
        out = []
        for op in ops:
            try:
                out.append(m.do(op))
            except Err:
                out.append(['throw'])
                if op[0] in ('process', 'activate', 'ruleop'):
                    break
            except Unsure:
                out.append('unsure')
                if op[0] in ('process', 'activate', 'ovdef', 'ruleop'):
                    break
            except (OverflowError, ZeroDivisionError):
                out.append('unsure')
                break
        runs.append(out)
    RUN[0] = 0
    n = min(len(r) for r in runs)
    res = []
    for i in range(n):
        a = [r[i] for r in runs]
        if any(x == 'unsure' for x in a):
            res.append('skip')
            if ops[i][0] in ('process', 'activate', 'ovdef', 'ruleop'):
                break
            continue
        if not all(agree(a[0], x, 1e-9, 1e-10) for x in a[1:]):
            res.append('skip')
            if ops[i][0] in ('process', 'activate', 'ovdef', 'ruleop'):
                break
            continue
        res.append(a[0])
    return res


def agree(want, got, rel, ab):
    if want is None or got is None:
        return want is got
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if isinstance(w, float):
            try:
                v = g if isinstance(g, float) else float(g)
            except ValueError:
                return False
            if not close(v, w, rel, ab):
                return False
        elif w != '*' and w != g:
            return False
    return True


def _make(args):
    gen, seed = args
    ops = gen(random.Random(seed))
    if not ops:
        return None
    ex = expect(ops)
    ops = ops[:len(ex)]
    return [line(o) for o in ops], ex


def _run(args):
    """Run scripts in one process of the driver."""
    binary, scripts = args
    lines = [l for s in scripts for l in s[0]]
    try:
        rc, out, err = native.run(binary, inp='\n'.join(lines) + '\n', timeout=150)
    except subprocess.TimeoutExpired as e:
        # find the command that does not return, and make sure of it on its own
        done = (e.stdout or b'').decode(errors='replace').count('\n')
        k = 0
        for ls, ex in scripts:
            if k + len(ls) > done:
                one = ls[:done - k + 1]
                try:
                    native.run(binary, inp='\n'.join(one) + '\n', timeout=60)
                except subprocess.TimeoutExpired:
                    return {'script': one, 'observed': 'no answer within 60 s', 'expected': ex[done - k], 'operation': one[-1]}, 0
                break
            k += len(ls)
        raise
    got = out.split('\n')
    k = 0
    for ls, ex in scripts:
        for i, (l, w) in enumerate(zip(ls, ex)):
            if k + i >= len(got) - 1:
                return {'script': ls[:i + 1], 'observed': 'process ended with status %s %s' % (rc, err[-300:]), 'expected': w}, 0
            if w == 'skip' or w is None:
                continue
            if not agree(w, got[k + i].split(), 1e-7, 1e-9):
                return {'script': ls[:i + 1], 'observed': got[k + i], 'expected': ' '.join(str(x) for x in w), 'operation': l}, 0
        k += len(ls)
    return None, len(lines)


def run(gens, seed, binary=None, nproc=8):
    """gens: [(generator, number of scripts)]; first failure or None."""
    from fvc import harness
    binary = binary or native.driver('engine')
    jobs = []
    for gi, (g, n) in enumerate(gens):
        jobs += [(g, seed * 1000003 + gi * 100003 + i) for i in range(n)]
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc) as pool:
        scripts = [s for s in pool.map(_make, jobs, chunksize=4) if s]
        per = (len(scripts) + nproc - 1) // nproc
        res = pool.map(_run, [(binary, scripts[i:i + per]) for i in range(0, len(scripts), per)], chunksize=1)
    checked = sum(1 for s in scripts for w in s[1] if w != 'skip' and w is not None)
    harness.EXECUTED[0] += checked
    for f, n in res:
        if f is not None:
            f['scripts'] = len(scripts)
            return f
    return None
