"""Loops: unrolling where the trip count is decided, otherwise inductive invariants.

An invariant is found Houdini-style: every location the loop modifies is generalised, candidate equalities against the
specification's folds (and against simple functions of the iteration counter) are generated, and candidates that do not hold
on entry or are not preserved by the body are removed until the rest is inductive. What survives is checked, never assumed."""
import itertools
import os
import z3
from .sym import *
from .exec import (Out, Dead, State, LV, LVLocal, LVField, LVIndex, LVHeap, LVMap, AddrOf, RecV, VecV, IterV, StreamV, MapV, MapIt,
                   OpaqueV, FuncV)

DBG = bool(os.environ.get('FVC_LOOPDBG'))


def te(a, b):
    """Equality of leaf types: 'F', 'I', 'B', 'S' or an array sort."""
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


def tnorm(t):
    if isinstance(t, str):
        return t
    return 'I' if t == I else 'B' if t == B else 'S' if t == S else t


def tsort(t):
    return {'I': I, 'B': B, 'S': S}[t] if isinstance(t, str) else t


# ================================================================ specification folds
class Fold:
    """A recursively defined specification function of the iteration count.

    comps: [(name, type)] with type 'F' (extended real), 'I', 'B', or a z3 sort.
    init(*params) -> {name: value}; step(k, vals, *params) -> {name: value}.
    n: number of steps (expression or callable of params); nparams: number of integer parameters (outer counters).
    absorb: name of a boolean component after which a step changes nothing (checked)."""
    _seq = itertools.count()

    def __init__(self, ex, name, comps, init, step, n=None, nparams=0, absorb=None, lemmas=()):
        self.ex, self.name, self.comps = ex, name, [(c, tnorm(t)) for c, t in comps]
        self.init, self.step, self.n, self.nparams = init, step, n, nparams
        self.absorb = absorb
        self.lemmas = list(lemmas)
        self.id = next(Fold._seq)
        self.cache = {}
        self.stepped = set()
        ex.folds.append(self)

    def _uf(self, c, part, sort):
        return z3.Function('F:%s.%s%s' % (self.name, c, part), *([I] * (1 + self.nparams) + [sort]))

    def raw(self, k, params):
        args = [lift(k, I)] + [lift(p, I) for p in params]
        out = {}
        for c, t in self.comps:
            if te(t, 'F'):
                kk = self._uf(c, '.k', I)(*args)
                out[c] = FV(kk, self._uf(c, '.v', R)(*args))
                self.ex.ax(('fk', kk.get_id()), z3.And(kk >= 0, kk <= 3))
            else:
                out[c] = self._uf(c, '', tsort(t))(*args)
        return out

    def count(self, params=()):
        n = self.n(*params) if callable(self.n) else self.n
        return n

    def at(self, k, *params):
        """Value after k steps."""
        params = params[:self.nparams]
        if num(k):
            key = (k,) + tuple(p if num(p) else p.get_id() for p in params)
            if key in self.cache:
                return self.cache[key]
            if k == 0:
                v = self.init(*params)
            else:
                v = self.step(k - 1, self.at(k - 1, *params), *params)
            if k <= 1:
                self.tie(self.raw(k, params), v)
            self.cache[key] = v
            return v
        self.base(params)
        r = self.raw(k, params)
        for i, lem in enumerate(self.lemmas):
            g = lem(k, r, *params)
            kid = r[self.comps[0][0]]
            kid = kid.k if isinstance(kid, FV) else kid
            self.ex.ax(('lem', self.id, i, kid.get_id()), Implies(lift(k, I) >= 0, g))
        return r

    def base(self, params):
        key = ('base',) + tuple(p if num(p) else p.get_id() for p in params)
        if key not in self.stepped:
            self.stepped.add(key)
            self.at(0, *params)
            try:
                self.at(1, *params)
            except Dead:
                pass

    def tie(self, r, v):
        for c, t in self.comps:
            e = leq(t, r[c], v[c])
            if e is not True:
                self.ex.axioms.append(zb(e))

    def unfold(self, k, *params):
        """Make the step axiom available at k."""
        params = params[:self.nparams]
        key = (k if num(k) else k.get_id(),) + tuple(p if num(p) else p.get_id() for p in params)
        if key in self.stepped:
            return
        self.stepped.add(key)
        self.keep = getattr(self, 'keep', [])
        self.keep += [k] + list(params)
        cur = self.at(k, *params)
        nxt = self.raw(add(k, 1), params)
        self.at(add(k, 1), *params)
        self.tie(nxt, self.step(k, cur, *params))

    def absorbed(self, k, *params):
        """Once the absorbing flag is set after k steps the final value is the value after k steps."""
        params = params[:self.nparams]
        n = self.count(params)
        if self.absorb is None or n is None:
            return
        a, z = self.at(k, *params), self.at(n, *params)
        f = self.absorb(a) if callable(self.absorb) else a[self.absorb]
        eqs = And(*[leq(t, z[c], a[c]) for c, t in self.comps])
        self.ex.ax(('abs', self.id, k if num(k) else k.get_id()) + tuple(p if num(p) else p.get_id() for p in params),
                   zb(Implies(And(f, le(k, n), le(0, k)), eqs)))

    def flag(self, k, *params):
        a = self.at(k, *params)
        return self.absorb(a) if callable(self.absorb) else a[self.absorb]

    def obligations(self):
        """Proof obligations that justify the absorption rule and the lemmas."""
        ps = [z3.Int('%s.p%d' % (self.name, i)) for i in range(self.nparams)]
        k = z3.Int('%s.k' % self.name)
        out = []
        cur = {}
        hy = [k >= 0] + [p >= 0 for p in ps]
        for c, t in self.comps:
            if te(t, 'F'):
                cur[c] = FV(fresh(I, 'a'), fresh(R, 'a'))
                hy.append(z3.And(cur[c].k >= 0, cur[c].k <= 3))
            else:
                cur[c] = fresh(tsort(t), 'a')
        if self.absorb:
            nx = self.step(k, cur, *ps)
            out.append(('%s: absorbing' % self.name, hy + [zb(self.absorb(cur) if callable(self.absorb) else cur[self.absorb])], And(*[leq(t, nx[c], cur[c]) for c, t in self.comps])))
        if self.lemmas:
            i0 = self.init(*ps)
            nx = self.step(k, cur, *ps)
            for i, lem in enumerate(self.lemmas):
                out.append(('%s: lemma %d base' % (self.name, i), [], lem(0, i0, *ps)))
            h2 = hy + [zb(l(k, cur, *ps)) for l in self.lemmas]
            for i, lem in enumerate(self.lemmas):
                out.append(('%s: lemma %d step' % (self.name, i), h2, lem(add(k, 1), nx, *ps)))
        return out


def leq(t, a, b):
    if te(t, 'F'):
        return fsame(a, b)
    return eqv(a, b)


# ================================================================ leaves of values
def vleaves(ex, v, path=()):
    """[(path, type, leaf)] of a value that a loop may modify."""
    if isinstance(v, FV):
        return [(path, 'F', v)]
    if isinstance(v, SV):
        return [(path, 'S', v)]
    if isinstance(v, RecV):
        out = []
        for q in v.f:
            out += vleaves(ex, v.f[q], path + (q,))
        return out
    if isinstance(v, VecV):
        out = [(path + ('#',), 'I', v.n)]
        for p, s in ex.leaves(v.et):
            out.append((path + ('[]', p), z3.ArraySort(I, s), ex.varr(v, p, s)))
        return out
    if isinstance(v, IterV):
        return [(path + ('it',), 'I', v.i)]
    if isinstance(v, MapV):
        out = [(path + ('dom',), v.dom.sort(), v.dom)]
        for p, a in v.a.items():
            out.append((path + ('val', p), 'I' if p == ('#',) else a.sort(), a))
        return out
    if isinstance(v, StreamV):
        out = [(path + ('buf',), 'S', v.buf)]
        if v.kind == 'in' and (isinstance(v.x, int) or z3.is_expr(v.x)):
            out.append((path + ('pos',), 'I', v.x))
        return out
    if isinstance(v, bool):
        return [(path, 'B', v)]
    if isinstance(v, int):
        return [(path, 'I', v)]
    if z3.is_expr(v):
        s = v.sort()
        return [(path, tnorm(s), v)]
    return []


def vset(ex, v, upd, path=()):
    """Value v with the leaves in upd (path -> leaf) replaced."""
    if not any(p[:len(path)] == path for p in upd):
        return v
    if path in upd and isinstance(v, (FV, SV, bool, int)) or path in upd and z3.is_expr(v):
        x = upd[path]
        return SV((x,)) if isinstance(v, SV) and not isinstance(x, SV) else x
    if isinstance(v, RecV):
        return RecV(v.cls, {q: vset(ex, x, upd, path + (q,)) for q, x in v.f.items()})
    if isinstance(v, VecV):
        return VecV(v.et, upd.get(path + ('#',), v.n),
                    {p: upd.get(path + ('[]', p), ex.varr(v, p, s)) for p, s in ex.leaves(v.et)})
    if isinstance(v, IterV):
        return IterV(v.lv, upd.get(path + ('it',), v.i), v.rev)
    if isinstance(v, MapV):
        return MapV(v.kt, v.vt, upd.get(path + ('dom',), v.dom), {p: upd.get(path + ('val', p), a) for p, a in v.a.items()})
    if isinstance(v, StreamV):
        b = upd.get(path + ('buf',), v.buf)
        return StreamV(b if isinstance(b, SV) else SV((b,)), v.kind, upd.get(path + ('pos',), v.x))
    return v


def lsame(t, a, b):
    """Syntactic identity of leaves."""
    if a is b:
        return True
    if isinstance(a, FV) and isinstance(b, FV):
        return same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, SV) and isinstance(b, SV):
        return len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, (FV, SV)) or isinstance(b, (FV, SV)):
        return False
    return same(a, b)


def leafeq(t, a, b):
    if te(t, 'F'):
        return fsame(a, b)
    if te(t, 'S'):
        return seq(a if isinstance(a, SV) else SV((a,)), b if isinstance(b, SV) else SV((b,)))
    return eqv(a, b)


def fresh_leaf(ex, st, t, nm):
    if te(t, 'F'):
        k = fresh(I, nm)
        st.assume(z3.And(k >= 0, k <= 3))
        return FV(k, fresh(R, nm))
    if te(t, 'S'):
        return SV((fresh(S, nm),))
    return fresh(tsort(t), nm)


# ================================================================ the modified part of the state
def snapshot(ex, st):
    """Generalisable locations of a state: {(kind, key, path): (type, leaf)}"""
    out = {}
    for key, v in st.env.items():
        for p, t, x in vleaves(ex, v):
            out[('L', key, p)] = (t, x)
    for key, v in st.gh.items():
        for p, t, x in vleaves(ex, v):
            out[('G', key, p)] = (t, x)
    for key, a in st.heap.items():
        out[('A', key, ())] = (tnorm(a.sort()), a)
    return out


def tower(a):
    out = []
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        out.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
    return out, a


def chain(a, base):
    """[(index, value)] where a may differ from base: both are towers of stores over the same array; None otherwise."""
    (x, r), (y, s) = tower(a), tower(base)
    if not r.eq(s):
        return None
    while x and y and x[-1][0].eq(y[-1][0]) and x[-1][1].eq(y[-1][1]):
        x.pop()
        y.pop()
    return x + y


def mentions(e, names):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().name() in names:
                return True
            todo += x.children()
    return False


def apply_leaves(ex, st, upd):
    """Write leaves {(kind,key,path) or ('C',key,ref)} into state st."""
    byl, byg = {}, {}
    for loc, x in upd.items():
        if loc[0] == 'L':
            byl.setdefault(loc[1], {})[loc[2]] = x
        elif loc[0] == 'G':
            byg.setdefault(loc[1], {})[loc[2]] = x
        elif loc[0] == 'A':
            st.heap[loc[1]] = x
    for k, u in byl.items():
        st.env[k] = vset(ex, st.env[k], u)
    for k, u in byg.items():
        st.gh[k] = vset(ex, st.gh[k], u)


def get_leaf(ex, st, loc):
    if loc[0] == 'A':
        a = st.heap.get(loc[1])
        return a if a is not None else ex.init_heap.get(loc[1])
    d = st.env if loc[0] == 'L' else st.gh
    v = d.get(loc[1])
    if v is None:
        return None
    for p, t, x in vleaves(ex, v):
        if p == loc[2]:
            return x
    return None


# ================================================================ running loops
def run_loop(ex, fr, st, cond, body, inc, node, dowhile):
    outs, starts = [], [st]
    if dowhile:
        starts = []
        for o in ex.run(body, fr, st):
            if o.kind in ('normal', 'continue'):
                starts.append(o.st)
            elif o.kind == 'break':
                outs.append(Out('normal', o.st))
            else:
                outs.append(o)
        starts = ex.join(starts)
    for s in starts:
        outs += one(ex, fr, s, cond, body, inc, node)
    norm = [o for o in outs if o.kind == 'normal']
    rest = [o for o in outs if o.kind != 'normal']
    return [Out('normal', s) for s in ex.join([o.st for o in norm])] + rest


def one(ex, fr, st, cond, body, inc, node):
    if ex.unroll is not None:
        return unroll(ex, fr, st, cond, body, inc, ex.unroll, assume=True)
    r = unroll(ex, fr, st.copy(), cond, body, inc, getattr(ex, 'maxconcrete', 24), assume=False)
    if r is not None:
        return r
    return infer(ex, fr, st, cond, body, inc, node)


def unroll(ex, fr, st, cond, body, inc, bound, assume):
    cur, res = [st], []
    for i in range(bound + 1):
        if not assume:
            for s in cur:
                if cond is None:
                    if i > 3:
                        return None
                    continue
                p = s.copy()
                nax = len(ex.axioms)
                ok, c, pend = ex.evs(lambda: ex.cond(cond, fr, p), p)
                if not ok:
                    continue
                if ex.decide(c, p) is None:
                    return None
        nxt = []
        for s in cur:
            exits, conts, outs = ex.iterate(fr, s, cond, body, inc)
            res += outs
            for e in exits:
                e.gh.pop('brk', None)
                res.append(Out('normal', e))
            nxt += conts
        if assume and i == bound:
            if nxt:
                ex.bounded = max(getattr(ex, 'bounded', 0), bound)
            return res
        cur = ex.join(nxt) if nxt else []
        if not cur:
            return res
        if not ex.fork:
            live = [s for s in cur if ex.decide(False, s) is not True]
            cur = live
            if not cur:
                return res
    return None


def infer(ex, fr, st0, cond, body, inc, node):
    entry = st0.copy()
    k = z3.Const(fresh_name('k'), I)
    line = (node.get('range', {}).get('begin', {}) or {}).get('line')
    where = '%s:%s' % (fr.fn.qual if fr.fn is not None else '?', line)
    depth = len(ex.ghostk)
    if depth > 4:
        raise Unsupported('loop nesting')
    base = snapshot(ex, entry)
    mod = {}          # loc -> type
    cells = {}        # ('A', key, ()) -> list of loop invariant references written, or None for the whole array
    ex.ghostk.append(k)
    quiet = ex.pending
    discovering = getattr(ex, 'discovering', 0)
    try:
        # ---- 1. what does the body modify?
        for rnd in range(12):
            s = entry.copy()
            s.assume(k >= 0)
            hv, names = havoc(ex, s, entry, mod, cells)
            pre = snapshot(ex, s)
            heap_pre = dict(s.heap)
            try:
                ex.discovering = discovering + 1
                exits, conts, outs = ex.iterate(fr, s.copy(), cond, body, inc)
            except Dead:
                conts = []
                exits = []
            finally:
                ex.discovering = discovering
            new = False
            for c in conts:
                post = snapshot(ex, c)
                for loc, (t, x) in pre.items():
                    if loc[0] == 'A' or loc in mod:
                        continue
                    y = post.get(loc)
                    if y is None:
                        continue
                    if not lsame(t, x, y[1]):
                        mod[loc] = join_type(t, y[0])
                        new = True
                for key, a in c.heap.items():
                    b = heap_pre.get(key, ex.init_heap.get(key))
                    if b is None or a.eq(b):
                        continue
                    loc = ('A', key, ())
                    if loc in mod and cells.get(loc) is None:
                        continue
                    ch = chain(a, b)
                    idx = None
                    if ch is not None and all(not mentions(i, names) for i, _ in ch):
                        idx = []
                        for i, _ in ch:
                            if not any(i.eq(j) for j in idx):
                                idx.append(i)
                    if loc not in mod:
                        mod[loc] = a.sort()
                        cells[loc] = idx
                        new = True
                    else:
                        old = cells[loc]
                        if idx is None:
                            cells[loc] = None
                            new = True
                        else:
                            for i in idx:
                                if not any(i.eq(j) for j in old):
                                    old.append(i)
                                    new = True
                for key in c.gh:
                    if key not in entry.gh and key not in ('brk', 'exc'):
                        raise Unsupported('ghost %s created inside a loop' % key)
            if not new:
                break
        else:
            raise Unsupported('loop modification set does not settle at %s' % where)
        # ---- 2. candidate invariants
        # while the modifications of an outer loop are looked for, nothing needs to be known about the inner ones
        plain = getattr(ex, 'plain_loop', None)
        cands = candidates(ex, entry, mod, cells, k, depth) if not discovering or not getattr(ex, 'fast_discovery', False) else []
        if plain and plain(node):
            cands = [cd for cd in cands if str(cd).endswith(('== entry+k', '== entry-k'))]
        if DBG:
            print('LOOP', where, 'mod', [(l[0], str(l[1])[-40:], l[2]) for l in mod], 'cands', len(cands))
        hy = ex.hyps(entry)
        live = []
        for cd in cands:
            g = cd.goal(ex, entry, 0)
            if g is None:
                continue
            if g is True or ex.check(ex.hyps(entry), g, min(700, getattr(ex, 'houdini_ms', 1500))) is True:
                live.append(cd)
            elif DBG:
                print('  not at entry', cd, g if os.environ.get('FVC_LOOPDBG') == '2' else '')
        final = None
        for rnd in range(40):
            s = entry.copy()
            s.assume(k >= 0)
            hv, names = havoc(ex, s, entry, mod, cells, live, k)
            for cd in live:
                g = cd.goal(ex, s, k)
                if g is not True and g is not None:
                    s.assume(zb(g))
            if rnd == 0:
                for f in ex.folds:
                    if usable(ex, f, depth):
                        f.unfold(k, *ex.ghostk[depth - f.nparams:depth])
                        f.unfold(add(k, 1), *ex.ghostk[depth - f.nparams:depth])
            for hk in getattr(ex, 'loop_facts', ()):
                g = hk(ex, s, k)
                if g is not None and g is not True:
                    s.assume(zb(g))
            try:
                exits, conts, outs = ex.iterate(fr, s, cond, body, inc)
            except Dead:
                exits, conts, outs = [], [], []
            bad = []
            for c in conts:
                hc = None
                for cd in live:
                    if cd in bad:
                        continue
                    g = cd.goal(ex, c, add(k, 1))
                    if g is True:
                        continue
                    if g is None or g is False:
                        if g is False and ex.decide(False, c) is True:
                            continue
                        bad.append(cd)
                        continue
                    r = ex.check(ex.hyps(c), g, getattr(ex, 'houdini_ms', 1500))
                    if r is not True:
                        bad.append(cd)
                        if DBG:
                            print('  drop', cd, r)
            if not bad:
                final = (exits, conts, outs)
                break
            live = [c for c in live if c not in bad]
        if final is None:
            raise Unsupported('no inductive invariant at %s' % where)
        exits, conts, outs = final
        if DBG:
            print('  invariant', [str(c) for c in live])
        ex.loops_log.append({'loop': where, 'invariant': [str(c) for c in live], 'modified': len(mod)})
        lost = [l for l in mod if not any(getattr(c, 'loc', None) == l for c in live) and not benign(l, entry)]
        if lost and not discovering:
            ex.lost = getattr(ex, 'lost', []) + [(where, l) for l in lost]
        res = []
        for e in exits:
            e.gh.pop('brk', None)
            for f in ex.folds:
                if f.nparams <= depth and f.n is not None:
                    ps = ex.ghostk[depth - f.nparams:depth]
                    n = f.count(ps)
                    f.absorbed(k, *ps)
                    f.absorbed(add(k, 1), *ps)
                    q = eqv(k, n)
                    if ex.check(ex.hyps(e), q, 700) is True:
                        if not any(p.eq(zb(q)) for p in e.pc):
                            e.pc = e.pc + (zb(q),)
            res.append(Out('normal', e))
        for o in outs:
            for f in ex.folds:
                if f.nparams <= depth and f.n is not None:
                    ps = ex.ghostk[depth - f.nparams:depth]
                    f.absorbed(k, *ps)
                    f.absorbed(add(k, 1), *ps)
            res.append(o)
        return res
    finally:
        ex.ghostk.pop()
        ex.pending = quiet


def benign(loc, entry):
    return loc[0] == 'G' and loc[1] in ('alloc',)


def join_type(a, b):
    if te(a, b):
        return a
    raise Unsupported('leaf changes its type in a loop')


def havoc(ex, s, entry, mod, cells, live=(), k=None):
    """Replace the modified leaves by unknowns, or by the value an equality invariant gives them."""
    upd, names = {}, set()
    for loc, t in mod.items():
        x = None
        for cd in live:
            if isinstance(cd, Eq) and cd.loc == loc:
                x = cd.value(k)
                break
        if x is None and loc[0] == 'A' and cells.get(loc) is not None:
            key = loc[1]
            a = entry.heap.get(key, ex.init_heap.get(key))
            for i in cells[loc]:
                y = None
                for cd in live:
                    if isinstance(cd, CellEq) and cd.loc == loc and cd.ref.eq(i):
                        y = cd.value(k)
                        break
                if y is None:
                    y = fresh(a.sort().range(), 'havoc')
                    names.add(y.decl().name())
                    if key[-1] == 'k' and y.sort() == I:
                        s.assume(z3.And(y >= 0, y <= 3))
                a = z3.Store(a, i, lift(y, a.sort().range()))
            x = a
        elif x is None:
            x = fresh_leaf(ex, s, t, 'havoc')
            for q in ([x.k, x.v] if isinstance(x, FV) else list(x.parts) if isinstance(x, SV) else [x]):
                names.add(q.decl().name())
        upd[loc] = x
        if loc[0] == 'L' and loc[2] and loc[2][-1] == '#' and z3.is_expr(x):
            s.assume(x >= 0)
        if loc[0] == 'G' and loc[1] == 'alloc' and z3.is_expr(x):
            a0 = entry.gh.get('alloc', ex.alloc0)
            s.assume(x >= a0)
    apply_leaves(ex, s, upd)
    return upd, names


# ---------------------------------------------------------------- candidates
class Eq:
    """leaf == value(k)"""

    def __init__(self, loc, t, f, txt):
        self.loc, self.t, self.f, self.txt = loc, t, f, txt

    def value(self, k):
        return self.f(k)

    def goal(self, ex, st, k):
        x = get_leaf(ex, st, self.loc)
        if x is None:
            return None
        return leafeq(self.t, x, self.value(k))

    def __repr__(self):
        return '%s %s%s == %s' % (self.loc[0], str(self.loc[1])[-30:], ''.join('.' + str(p) for p in self.loc[2]), self.txt)


class CellEq:
    """heap array cell == value(k)   (a heap cell of an object the loop always writes)"""

    def __init__(self, loc, ref, f, txt):
        self.loc, self.ref, self.f, self.txt = loc, ref, f, txt

    def value(self, k):
        return self.f(k)

    def goal(self, ex, st, k):
        a = st.heap.get(self.loc[1], ex.init_heap.get(self.loc[1]))
        return eqv(ex.sel(a, self.ref), self.value(k))

    def __repr__(self):
        return 'cell %s[%s] == %s' % (self.loc[1], self.ref, self.txt)


class Fact:
    def __init__(self, f, txt):
        self.f, self.txt = f, txt

    def goal(self, ex, st, k):
        return self.f(ex, st, k)

    def __repr__(self):
        return self.txt


def usable(ex, f, depth):
    """Specification folds considered at a loop: those of its nesting depth or, by default, of any outer depth too."""
    return f.nparams == depth if getattr(ex, 'own_folds', False) else f.nparams <= depth


def fold_values(ex, depth):
    """[(type, f(k), text)] every component of every applicable fold, at k and k+1."""
    out = []
    for f in ex.folds:
        if not usable(ex, f, depth):
            continue
        ps = tuple(ex.ghostk[depth - f.nparams:depth])
        for c, t in f.comps:
            tt = t
            for off in (0, 1):
                out.append((tt, (lambda k, f=f, c=c, off=off, ps=ps: f.at(add(k, off), *ps)[c]), '%s.%s(k%s)' % (f.name, c, '+1' if off else '')))
    return out


def candidates(ex, entry, mod, cells, k, depth):
    out = []
    fv = fold_values(ex, depth)
    for loc, t in mod.items():
        x0 = get_leaf(ex, entry, loc)
        if loc[0] == 'A' and cells.get(loc) is not None:
            rs = t.range()
            for i in cells[loc]:
                a = entry.heap.get(loc[1], ex.init_heap.get(loc[1]))
                e0 = ex.sel(a, i)
                isk = loc[1][-1] == 'k'
                isv = loc[1][-1] == 'v'
                for tt, f, txt in fv:
                    if te(tt, 'F') and (isk or isv):
                        out.append(CellEq(loc, i, (lambda k, f=f, isk=isk: f(k).k if isk else f(k).v), txt))
                    elif te(tt, tnorm(rs)):
                        out.append(CellEq(loc, i, f, txt))
                if rs == I and not isk:
                    out.append(CellEq(loc, i, (lambda k, e0=e0: add(e0, k)), 'entry+k'))
                    out.append(CellEq(loc, i, (lambda k, e0=e0: sub(e0, k)), 'entry-k'))
            continue
        for tt, f, txt in fv:
            if te(tt, t):
                out.append(Eq(loc, t, f, txt))
        if te(t, 'I'):
            out.append(Eq(loc, t, (lambda k, x0=x0: add(x0, k)), 'entry+k'))
            out.append(Eq(loc, t, (lambda k, x0=x0: sub(x0, k)), 'entry-k'))
        if te(t, 'B'):
            for b in (True, False):
                out.append(Eq(loc, t, (lambda k, b=b: b), str(b)))
        if te(t, 'F'):
            out.append(Eq(loc, t, (lambda k: NANV), 'nan'))
        if loc[0] == 'A' and loc[1][-1] in ('k', 'v') or loc[0] == 'L' and len(loc[2]) > 1 and loc[2][-2] == '[]' and loc[2][-1] and loc[2][-1][-1] in ('k', 'v'):
            pass
    # the order of candidates decides which equality is substituted: put counters first for integers
    out.sort(key=lambda c: 0 if getattr(c, 'txt', '').startswith('entry') else 1)
    for f in ex.folds:
        if usable(ex, f, depth) and f.n is not None:
            ps = tuple(ex.ghostk[depth - f.nparams:depth])
            out.append(Fact((lambda ex, st, k, f=f, ps=ps: le(k, f.count(ps))), 'k <= |%s|' % f.name))
            if f.absorb:
                # loops that leave as soon as the answer is known
                out.append(Fact((lambda ex, st, k, f=f, ps=ps: Not(f.flag(k, *ps))), 'open(%s)' % f.name))
    for g in getattr(ex, 'loop_candidates', ()):
        for txt, fn in g(ex, entry, mod, depth):
            out.append(Fact(fn, txt))
    return out
