"""Symbolic executor / verification condition generator over the clang AST of the real code."""
import re
from fractions import Fraction
import z3
from . import front
from .sym import *


# ============================================================ types
def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(t):
    i = t.index('<')
    d = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
            if d == 0:
                return split_targs(t[i + 1:j])
    raise Unsupported('type %s' % t)


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'char', 'short', 'unsigned char', 'unsigned short',
        'long long', 'unsigned long long', 'size_t', 'std::size_t', 'signed char', 'std::streamsize', 'size_type',
        'difference_type', 'ptrdiff_t', 'std::ptrdiff_t', 'unsigned'}
_tcache = {}


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('*const'):
            t = t[:-5]
        if t.endswith('&&'):
            t = t[:-2]
        elif t.endswith('&'):
            t = t[:-1]
        t = t.strip()
        if t == o:
            return t


def is_ref(t):
    return t.strip().endswith('&')


def tkind(t):
    """(kind, arg)"""
    r = _tcache.get(t)
    if r is None:
        r = _tkind(strip_cv(t))
        _tcache[t] = r
    return r


def _tkind(t):
    if t in ('double', 'float', 'long double'):
        return ('F', None)
    if t == 'bool':
        return ('B', None)
    if t in INTS or t == 'std::_Ios_Fmtflags':
        return ('I', t if t in INTS else 'unsigned int')
    if t == 'void':
        return ('void', None)
    if t in ('std::nullptr_t', 'nullptr_t'):
        return ('P', 'void')
    if t in ('std::string', 'std::basic_string<char>'):
        return ('S', None)
    if ('(*)' in t or re.search(r'\)\s*(const)?$', t)) and not t.startswith('std::'):
        return ('FP', t)
    if t.endswith('*'):
        return ('P', t[:-1].strip())
    if t.startswith('std::unique_ptr<'):
        return ('U', targs(t)[0])
    if '__normal_iterator' in t:
        a = targs(t)[0]
        return ('IT', strip_cv(a.rstrip().rstrip('*')))
    if t.startswith('std::reverse_iterator<'):
        return ('RIT', tkind(targs(t)[0])[1])
    if t.startswith('std::vector<') and t.endswith('iterator'):
        return ('IT', strip_cv(targs(t)[0]))
    if t.startswith('std::vector<') or t.startswith('std::deque<') or t.startswith('std::list<'):
        return ('V', strip_cv(targs(t)[0]))
    if t.startswith('std::initializer_list<'):
        return ('V', strip_cv(targs(t)[0]))
    if t.startswith('std::stack<') or t.startswith('std::queue<'):
        return ('V', strip_cv(targs(t)[0]))
    if t.startswith('std::priority_queue<'):
        return ('PQ', targs(t))
    if t.startswith('std::pair<'):
        return ('PAIR', targs(t)[:2])
    if t.startswith('std::set<') and not t.endswith('iterator'):
        return ('SET', strip_cv(targs(t)[0]))
    if t.startswith('std::map<') or t.startswith('std::unordered_map<'):
        return ('M', targs(t)[:2])
    if '_Rb_tree_const_iterator' in t:
        return ('MIT', targs(t)[0])
    if '_Rb_tree' in t and 'iterator' in t:
        return ('MIT', targs(t)[0])
    if 'ostringstream' in t or 'stringstream' in t or 'istringstream' in t or 'basic_ostream' in t or \
            'basic_istream' in t or t in ('std::ostream', 'std::istream') or 'fstream' in t or 'basic_ios' in t or 'ios_base' in t:
        return ('STREAM', t)
    return ('C', t)


# ============================================================ compound values
class RecV:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f


class VecV:
    """(length, leaf arrays).  Array leaves are z3 arrays Int -> sort; None until first needed."""
    __slots__ = ('et', 'n', 'a')

    def __init__(self, et, n, a):
        self.et, self.n, self.a = et, n, a


class IterV:
    __slots__ = ('lv', 'i', 'rev')

    def __init__(self, lv, i, rev=False):
        self.lv, self.i, self.rev = lv, i, rev


class StreamV:
    __slots__ = ('buf', 'kind', 'x')

    def __init__(self, buf=None, kind='out', x=None):
        self.buf, self.kind, self.x = buf or SV(()), kind, x


class OpaqueV:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what


class ExtFn:
    """A function of the C library, known by its name and number of arguments."""

    def __init__(self, name, n):
        self.name = self.qual = name
        self.mangled = 'extern:%s/%d' % (name, n)
        self.params = [None] * n
        self.cls = ''
        self.body = None


class FuncV:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class MapV:
    __slots__ = ('kt', 'vt', 'dom', 'a')

    def __init__(self, kt, vt, dom, a):
        self.kt, self.vt, self.dom, self.a = kt, vt, dom, a


class MapIt:
    """Result of map.find(key): present iff cond."""
    __slots__ = ('lv', 'key', 'end')

    def __init__(self, lv, key, end):
        self.lv, self.key, self.end = lv, key, end


# ------------------------------------------------------------ locations
class LV:
    __slots__ = ()


class LVLocal(LV):
    __slots__ = ('key', 't')

    def __init__(self, key, t):
        self.key, self.t = key, t

    def ident(self):
        return ('L', self.key)


class LVField(LV):
    __slots__ = ('base', 'cls', 'field', 't')

    def __init__(self, base, cls, field, t):
        self.base, self.cls, self.field, self.t = base, cls, field, t

    def ident(self):
        return ('F', self.base.ident(), self.cls, self.field)


class LVIndex(LV):
    __slots__ = ('base', 'i', 't')

    def __init__(self, base, i, t):
        self.base, self.i, self.t = base, i, t

    def ident(self):
        return ('I', self.base.ident(), self.i if num(self.i) else self.i.get_id())


class LVHeap(LV):
    __slots__ = ('ref', 't')

    def __init__(self, ref, t):
        self.ref, self.t = ref, t

    def ident(self):
        return ('H', self.ref if num(self.ref) else self.ref.get_id())


class LVMap(LV):
    __slots__ = ('base', 'key', 't')

    def __init__(self, base, key, t):
        self.base, self.key, self.t = base, key, t

    def ident(self):
        return ('M', self.base.ident(), repr(self.key))


class AddrOf:
    """Pointer to a location that is not a heap object."""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Dead(Exception):
    """The current path is infeasible (or has certainly thrown)."""


class State:
    __slots__ = ('pc', 'env', 'heap', 'gh')

    def __init__(self, pc=(), env=None, heap=None, gh=None):
        self.pc = tuple(pc)
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.gh = gh if gh is not None else {}

    def copy(self):
        return State(self.pc, dict(self.env), dict(self.heap), dict(self.gh))

    def set(self, o):
        self.pc, self.env, self.heap, self.gh = o.pc, o.env, o.heap, o.gh

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc = self.pc + (z3.BoolVal(False),)
            raise Dead()
        for p in self.pc[-40:]:
            if p.eq(c):
                return
        self.pc = self.pc + (c,)


class Frame:
    __slots__ = ('fn', 'tu', 'this', 'id', 'cls', 'depth', 'retval')

    def __init__(self, fn, tu, this, id_, cls, depth):
        self.fn, self.tu, self.this, self.id, self.cls, self.depth = fn, tu, this, id_, cls, depth


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


dtype = z3.Function('dtype', I, I)


_hq = {}


def has_quant(e):
    """The formula contains a quantifier."""
    i = e.get_id()
    r = _hq.get(i)
    if r is None:
        if z3.is_quantifier(e):
            q = True
        else:
            q = any(has_quant(x) for x in e.children())
        _hq[i] = r = (q, e)
    return r[0]


class Exec:
    def __init__(self, prog, **opt):
        self.p = prog
        self.fork = opt.get('fork', False)
        self.maxdepth = opt.get('maxdepth', 40)
        self.unroll = opt.get('unroll', None)       # None: invariants; int: unroll bound
        self.decide_ms = opt.get('decide_ms', 400)
        self.contracts = {}
        self.init_heap = {}
        self.field_inv = {}
        self.elem_inv = {}
        self.axioms = []          # ground facts about uninterpreted symbols (always true)
        self._axkeys = set()
        self.apps = {}            # math function applications, for congruence help
        self.tags = {}
        self.fid = 0
        self.pending = []
        self.known = {}           # ref expr id -> (ref, class) exact dynamic class
        self.inlined = set()
        self.globals0 = {}
        self.folds = []
        self.loops_log = []
        self.dcache = {}
        self.ndecide = 0
        self.solver_s = 0.0
        self.alloc0 = z3.Int('alloc0')
        self.obl = []             # internal obligations: (name, hyps, goal)
        self.notes = []
        self.ghostk = []          # ghost counters of enclosing loops
        self.hooks = {}
        self.houdini_log = []
        self.quiet_classes = {'Console'}

    # ---------------------------------------------------------------- solver helpers
    def ax(self, key, f):
        if key in self._axkeys:
            return
        self._axkeys.add(key)
        if f is not True:
            self.axioms.append(f)

    def hyps(self, st):
        return list(st.pc) + self.axioms + self.lit_axioms()

    def lit_axioms(self):
        out = cat_facts() if getattr(self, 'string_facts', False) else []
        ls = list(literals().values())
        if len(ls) > 1:
            out.append(z3.Distinct(*ls))
        return out

    def check(self, hyps, goal, ms=None):
        """True if hyps |= goal is proved, False if refuted (model), None unknown."""
        import time
        if goal is True:
            return True
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', ms or self.decide_ms)
        s.add(*[h for h in hyps if h is not True], z3.Not(zb(goal)))
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.ndecide += 1
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        from . import solve
        fs = list(hyps) + [z3.Not(zb(goal))]
        if getattr(self, 'qdecide', False) or any(has_quant(f) for f in fs):
            if solve.nonlinear(fs):
                t = time.time()
                s = z3.Solver()
                s.set('timeout', ms or self.decide_ms)
                for f in fs:
                    s.add(solve.linearise(zb(f)))
                r = s.check()
                self.solver_s += time.time() - t
                if r == z3.unsat:
                    return True
        return None

    def decide(self, c, st):
        """True/False when the path condition settles c, None otherwise."""
        if isinstance(c, bool):
            return c
        nc = Not(c)
        for p in st.pc:
            if p.eq(c):
                return True
            if z3.is_expr(nc) and p.eq(nc):
                return False
        key = (tuple(p.get_id() for p in st.pc), c.get_id(), len(self.axioms))
        if key in self.dcache:
            return self.dcache[key][0]
        h = self.hyps(st)
        if not getattr(self, 'qdecide', False):
            h = [x for x in h if not has_quant(x)]
        r = None
        a = self.check(h, c)
        if a is True:
            r = True
        else:
            b = self.check(h, nc)
            if b is True:
                r = False
        self.dcache[key] = (r, c, st.pc)
        return r

    # ---------------------------------------------------------------- classes, leaves
    def cls(self, name, ctx=''):
        r = self.p.resolve_class(name, ctx)
        if r is None:
            raise Unsupported('class %s' % name)
        if not self.p.classes[r].complete:
            base = r.split('::')[0].split('<')[0]
            import os
            self.p.load([f for f in self.p.files if os.path.basename(f) == base + '.cpp'])
            if not self.p.classes[r].complete:
                raise Unsupported('incomplete class %s' % r)
        return r

    def is_enum(self, t):
        return t in self.p.enum_types and t not in self.p.classes

    def leaves(self, t):
        k, a = tkind(t)
        if k == 'F':
            return [(('k',), I), (('v',), R)]
        if k == 'B':
            return [((), B)]
        if k in ('I', 'P', 'U', 'FP'):
            return [((), I)]
        if k == 'S':
            return [((), S)]
        if k == 'V':
            return [(('#',), I)] + [(('[]',) + p, z3.ArraySort(I, s)) for p, s in self.leaves(a)]
        if k == 'PQ':
            return [(('#',), I)] + [(('[]',) + p, z3.ArraySort(I, s)) for p, s in self.leaves(a[0])]
        if k == 'PAIR':
            return [(('first',) + p, s) for p, s in self.leaves(a[0])] + [(('second',) + p, s) for p, s in self.leaves(a[1])]
        if k == 'M':
            ks = self.leaves(a[0])
            if len(ks) != 1:
                raise Unsupported('map key %s' % t)
            ks = ks[0][1]
            return [(('dom',), z3.ArraySort(ks, B))] + [(('val',) + p, z3.ArraySort(ks, s)) for p, s in self.leaves(a[1])]
        if k == 'SET':
            return [(('dom',), z3.ArraySort(self.leaves(a)[0][1], B)), (('val', '#'), I)]
        if k == 'C':
            if self.is_enum(strip_cv(t)):
                return [((), I)]
            c = self.cls(strip_cv(t))
            out = []
            for (dc, fn, ft, _) in self.p.all_fields(c):
                out += [(((dc, fn),) + p, s) for p, s in self.leaves(ft)]
            return out
        raise Unsupported('leaves of %s' % t)

    def from_leaves(self, t, get):
        k, a = tkind(t)
        if k == 'F':
            return FV(get(('k',)), get(('v',)))
        if k in ('B', 'I', 'P', 'U', 'FP'):
            return get(())
        if k == 'S':
            return SV((get(()),))
        if k in ('V', 'PQ'):
            et = a if k == 'V' else a[0]
            return VecV(et, get(('#',)), {p: get(('[]',) + p) for p, s in self.leaves(et)})
        if k == 'PAIR':
            return RecV('pair', {('pair', 'first'): self.from_leaves(a[0], lambda p: get(('first',) + p)),
                                 ('pair', 'second'): self.from_leaves(a[1], lambda p: get(('second',) + p))})
        if k == 'M':
            return MapV(a[0], a[1], get(('dom',)), {p: get(('val',) + p) for p, s in self.leaves(a[1])})
        if k == 'SET':
            return MapV(a, 'set', get(('dom',)), {('#',): get(('val', '#'))})
        if k == 'C':
            if self.is_enum(strip_cv(t)):
                return get(())
            c = self.cls(strip_cv(t))
            f = {}
            for (dc, fn, ft, _) in self.p.all_fields(c):
                f[(dc, fn)] = self.from_leaves(ft, lambda p, q=(dc, fn): get((q,) + p))
            return RecV(c, f)
        raise Unsupported('from_leaves %s' % t)

    def to_leaves(self, t, v, st=None):
        """dict path -> scalar"""
        k, a = tkind(t)
        if k == 'F':
            if not isinstance(v, FV):
                raise Unsupported('to_leaves: %r is not a scalar' % (v,))
            return {('k',): v.k, ('v',): v.v}
        if k == 'B' or k == 'I':
            return {(): v}
        if k in ('P', 'U'):
            if isinstance(v, AddrOf):
                return {(): self.pin(v)}
            return {(): v}
        if k == 'FP':
            if isinstance(v, FuncV):
                return {(): self.fcode(v)}
            return {(): v}
        if k == 'S':
            return {(): v.z() if isinstance(v, SV) else v}
        if k in ('V', 'PQ'):
            et = a if k == 'V' else a[0]
            out = {('#',): v.n}
            for p, s in self.leaves(et):
                out[('[]',) + p] = self.varr(v, p, s)
            return out
        if k == 'PAIR':
            out = {}
            for i, nm in ((0, 'first'), (1, 'second')):
                for p, x in self.to_leaves(a[i], v.f[('pair', nm)]).items():
                    out[(nm,) + p] = x
            return out
        if k in ('M', 'SET'):
            out = {('dom',): v.dom}
            for p, x in v.a.items():
                out[('val',) + p] = x
            return out
        if k == 'C':
            if self.is_enum(strip_cv(t)):
                return {(): v}
            c = self.cls(strip_cv(t))
            out = {}
            for (dc, fn, ft, _) in self.p.all_fields(c):
                for p, x in self.to_leaves(ft, v.f[(dc, fn)]).items():
                    out[((dc, fn),) + p] = x
            return out
        raise Unsupported('to_leaves %s' % t)

    def fcode(self, v):
        self.tags.setdefault(('fn', v.fn.mangled), 1000 + len(self.tags))
        self.tags.setdefault(('code', self.tags[('fn', v.fn.mangled)]), v)
        return self.tags[('fn', v.fn.mangled)]

    def pin(self, a):
        """Give a non-heap location a symbolic address (identity only)."""
        key = a.lv.ident()
        m = self.tags.setdefault('pins', {})
        if key not in m:
            c = fresh(I, 'addr')
            self.axioms.append(c < 0)
            for o, _ in m.values():
                self.axioms.append(c != o)
            m[key] = (c, a)
        return m[key][0]

    def varr(self, v, p, s):
        x = v.a.get(p)
        if x is None:
            x = z3.K(I, self.default(s)) if isinstance(v.n, int) and v.n == 0 else fresh(z3.ArraySort(I, s), 'uninit')
        return x

    def default(self, s):
        if s == I:
            return z3.IntVal(0)
        if s == R:
            return z3.RealVal(0)
        if s == B:
            return z3.BoolVal(False)
        if s == S:
            return strlit('')
        if z3.is_array_sort(s) if hasattr(z3, 'is_array_sort') else isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.default(s.range()))
        raise Unsupported('default %s' % s)

    def symbolic(self, t, name):
        def get(p):
            srt = dict(self.leaves(t))[p]
            return z3.Const(name + ''.join('.' + (q if isinstance(q, str) else q[1]) for q in p), srt)
        return self.from_leaves(t, get)

    def uninit(self, t):
        k, a = tkind(t)
        if k == 'STREAM':
            return StreamV()
        if k == 'V':
            return VecV(a, 0, {})
        if k == 'PQ':
            v = VecV(a[0], 0, {})
            return v
        if k == 'S':
            return SV(())
        if k == 'U':
            return 0
        if k == 'SET':
            return MapV(a, 'set', z3.K(self.leaves(a)[0][1], z3.BoolVal(False)), {('#',): 0})
        if k == 'M':
            ks = self.leaves(a[0])[0][1]
            return MapV(a[0], a[1], z3.K(ks, z3.BoolVal(False)),
                        {p: z3.K(ks, self.default(s)) for p, s in self.leaves(a[1])})
        if k == 'C' and not self.is_enum(strip_cv(t)):
            c = self.p.resolve_class(strip_cv(t))
            if c is None:
                return OpaqueV(t)
            f = {}
            for (dc, fn, ft, _) in self.p.all_fields(c):
                f[(dc, fn)] = self.uninit(ft)
            return RecV(c, f)
        if k == 'PAIR':
            return RecV('pair', {('pair', 'first'): self.uninit(a[0]), ('pair', 'second'): self.uninit(a[1])})
        if k in ('IT', 'RIT', 'MIT', 'void'):
            return OpaqueV(t)
        return self.symbolic(t, fresh_name('uninit'))

    # ---------------------------------------------------------------- heap and locations
    def harr(self, st, key, sort):
        a = st.heap.get(key)
        if a is None:
            a = self.init_heap.get(key)
            if a is None:
                a = z3.Const('H:' + '.'.join(q if isinstance(q, str) else q[0] + '::' + q[1] for q in key), z3.ArraySort(I, sort))
                self.init_heap[key] = a
        return a

    def hread(self, st, ref, cls, field, t):
        fk = (cls, field)
        init = True

        def get(p):
            nonlocal init
            srt = None
            for q, s in self.leaves(t):
                if q == p:
                    srt = s
            key = (fk,) + p
            a = self.harr(st, key, srt)
            if a is not self.init_heap.get(key):
                init = False
            return self.sel(a, ref)
        v = self.from_leaves(t, get)
        inv = self.field_inv.get((cls, field))
        if init and inv is not None and ref is not None:
            c = inv(self, st, ref, v)
            if c is not None:
                st.assume(c)
        if init:
            self.ptr_facts(st, t, v)
        return v

    def sel(self, a, i):
        i = lift(i, I)
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(i):
                return self.unlift(a.arg(2))
            x, y = a.arg(1), i
            d = z3.simplify(x - y)
            if z3.is_int_value(d) and d.as_long() != 0:
                a = a.arg(0)
                continue
            break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return self.unlift(a.arg(0))
        if z3.is_quantifier(a) and a.is_lambda():
            return self.unlift(z3.substitute_vars(a.body(), i))
        return z3.Select(a, i)

    def unlift(self, e):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and False:
            return e
        return e

    def ptr_facts(self, st, t, v):
        k, a = tkind(t)
        if k in ('P', 'U') and z3.is_expr(v):
            st.assume(z3.And(v >= 0, v <= self.alloc0))
        elif k == 'V' and z3.is_expr(v.n):
            st.assume(v.n >= 0)
        elif k == 'F' and z3.is_expr(v.k):
            st.assume(z3.And(v.k >= 0, v.k <= 3))

    def read(self, lv, st):
        if isinstance(lv, LVLocal):
            if lv.key in st.env:
                return st.env[lv.key]
            if lv.key[0] == 'static':
                return self.static_value(lv.key[1], st)
            raise Unsupported('unbound %s' % (lv.key,))
        if isinstance(lv, LVField):
            if isinstance(lv.base, LVHeap):
                return self.hread(st, lv.base.ref, lv.cls, lv.field, lv.t)
            b = self.read(lv.base, st)
            return b.f[(lv.cls, lv.field)]
        if isinstance(lv, LVIndex):
            vec = self.read(lv.base, st)
            v = self.vget(vec, lv.i)
            if isinstance(lv.base, LVField) and isinstance(lv.base.base, LVHeap):
                inv = self.elem_inv.get((lv.base.cls, lv.base.field))
                key0 = ((lv.base.cls, lv.base.field), '[]')
                init = all(k[:2] != key0 or st.heap[k] is self.init_heap.get(k) for k in st.heap)
                if init:
                    if inv is not None:
                        c = inv(self, st, lv.base.base.ref, lv.i, v, vec)
                        if c is not None:
                            st.assume(c)
                    self.ptr_facts(st, vec.et, v)
            return v
        if isinstance(lv, LVHeap):
            t = lv.t
            c = self.cls(strip_cv(t))
            f = {}
            for (dc, fn, ft, _) in self.p.all_fields(c):
                f[(dc, fn)] = self.hread(st, lv.ref, dc, fn, ft)
            return RecV(c, f)
        if isinstance(lv, LVMap):
            m = self.read(lv.base, st)
            return self.from_leaves(m.vt, lambda p: self.unlift(z3.Select(m.a[p], self.mkey(m, lv.key))))
        raise Unsupported('read %r' % lv)

    def mkey(self, m, key):
        return self.to_leaves(m.kt, key)[()] if not isinstance(key, SV) else key.z()

    def vget(self, vec, i):
        srt = dict(self.leaves(vec.et))

        def get(p):
            a = vec.a.get(p)
            if a is None:
                a = fresh(z3.ArraySort(I, srt[p]), 'uninit')
                vec.a[p] = a
            return self.sel(a, i)
        return self.from_leaves(vec.et, get)

    def vset(self, vec, i, v):
        lv = self.to_leaves(vec.et, v)
        a = {}
        for p, s in self.leaves(vec.et):
            arr = vec.a.get(p)
            if arr is None:
                arr = z3.K(I, self.default(s))
            a[p] = z3.Store(arr, lift(i, I), lift(lv[p], s))
        return VecV(vec.et, vec.n, a)

    def hwrite(self, st, ref, cls, field, t, v):
        lv = self.to_leaves(t, v)
        for p, s in self.leaves(t):
            key = ((cls, field),) + p
            a = self.harr(st, key, s)
            x = lift(lv[p], s)
            if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(lift(ref, I)):
                a = a.arg(0)
            st.heap[key] = z3.Store(a, lift(ref, I), x)
        h = self.hooks.get('write')
        if h:
            h(self, st, ref, cls, field, v)

    def write(self, lv, v, st):
        if isinstance(lv, LVLocal):
            st.env[lv.key] = v
        elif isinstance(lv, LVField):
            if isinstance(lv.base, LVHeap):
                self.hwrite(st, lv.base.ref, lv.cls, lv.field, lv.t, v)
            else:
                b = self.read(lv.base, st)
                f = dict(b.f)
                f[(lv.cls, lv.field)] = v
                self.write(lv.base, RecV(b.cls, f), st)
        elif isinstance(lv, LVIndex):
            vec = self.read(lv.base, st)
            self.write(lv.base, self.vset(vec, lv.i, v), st)
        elif isinstance(lv, LVHeap):
            for (dc, fn, ft, _) in self.p.all_fields(self.cls(strip_cv(lv.t))):
                self.hwrite(st, lv.ref, dc, fn, ft, v.f[(dc, fn)])
        elif isinstance(lv, LVMap):
            m = self.read(lv.base, st)
            k = self.mkey(m, lv.key)
            l = self.to_leaves(m.vt, v)
            a = {p: z3.Store(m.a[p], k, lift(l[p], dict(self.leaves(m.vt))[p])) for p in m.a}
            self.write(lv.base, MapV(m.kt, m.vt, z3.Store(m.dom, k, z3.BoolVal(True)), a), st)
        else:
            raise Unsupported('write')

    def rv(self, x, st):
        return self.read(x, st) if isinstance(x, LV) else x

    def static_value(self, name, st):
        if name in self.globals0:
            return self.globals0[name]
        t, init, tu = self.p.statics[name]
        short = name.split('::')[-1]
        if short == 'nan':
            return NANV
        if short == 'inf':
            return INFV
        if init is not None and (t.startswith('const ') or t.endswith('const') or ' const' in t):
            fr = Frame(None, tu, None, 0, '', 0)
            return self.rv(self.ev(init, fr, st), st)
        v = self.symbolic(t, 'G:' + name)
        self.globals0[name] = v
        return v

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, FV) and isinstance(b, FV):
            return fite(c, a, b)
        if isinstance(a, SV) and isinstance(b, SV):
            if a.parts == b.parts:
                return a
            ca, cb = a.const(), b.const()
            if ca is not None and ca == cb:
                return a
            za, zb_ = a.z(), b.z()
            if za.eq(zb_):
                return a
            return SV((Ite(c, za, zb_),))
        if isinstance(a, VecV) and isinstance(b, VecV):
            n = Ite(c, a.n, b.n)
            arr = {}
            for p, s in self.leaves(a.et):
                x, y = a.a.get(p), b.a.get(p)
                if x is None and y is None:
                    continue
                x = x if x is not None else y
                y = y if y is not None else x
                arr[p] = Ite(c, x, y)
            return VecV(a.et, n, arr)
        if isinstance(a, RecV) and isinstance(b, RecV):
            if a.cls != b.cls:
                raise Unsupported('merge records %s %s' % (a.cls, b.cls))
            return RecV(a.cls, {k: self.merge_val(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(a.kt, a.vt, Ite(c, a.dom, b.dom), {p: Ite(c, a.a[p], b.a[p]) for p in a.a})
        if isinstance(a, IterV) and isinstance(b, IterV) and a.lv.ident() == b.lv.ident():
            return IterV(a.lv, Ite(c, a.i, b.i), a.rev)
        if isinstance(a, AddrOf) or isinstance(b, AddrOf):
            if isinstance(a, AddrOf) and isinstance(b, AddrOf) and a.lv.ident() == b.lv.ident():
                return a
            x = self.pin(a) if isinstance(a, AddrOf) else a
            y = self.pin(b) if isinstance(b, AddrOf) else b
            return Ite(c, x, y)
        if isinstance(a, StreamV) and isinstance(b, StreamV):
            return StreamV(self.merge_val(c, a.buf, b.buf), a.kind, a.x if a.x is b.x else None)
        if isinstance(a, LVHeap) and isinstance(b, LVHeap):
            return LVHeap(Ite(c, a.ref, b.ref), a.t)
        if isinstance(a, LV) and isinstance(b, LV):
            if a.ident() == b.ident():
                return a
            raise Unsupported('merge locations')
        if isinstance(a, FuncV) or isinstance(b, FuncV):
            if isinstance(a, FuncV) and isinstance(b, FuncV) and a.fn.mangled == b.fn.mangled:
                return a
            x = self.fcode(a) if isinstance(a, FuncV) else a
            y = self.fcode(b) if isinstance(b, FuncV) else b
            return Ite(c, x, y)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return a if isinstance(a, OpaqueV) else b
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            return MapIt(a.lv, a.key if not a.end else b.key, Ite(c, a.end, b.end))
        if a is None or b is None:
            return a if b is None else b
        return Ite(c, a, b)

    def merge_states(self, sts):
        """sts: list of (state, value).  Returns (state, value)."""
        sts = [x for x in sts if x[0] is not None]
        if len(sts) == 1:
            return sts[0]
        st, v = sts[-1]
        for (s2, v2) in reversed(sts[:-1]):
            st, v = self.merge2(s2, v2, st, v)
        return st, v

    def merge2(self, a, va, b, vb):
        i = 0
        while i < len(a.pc) and i < len(b.pc) and a.pc[i].eq(b.pc[i]):
            i += 1
        ra, rb = And(*a.pc[i:]), And(*b.pc[i:])
        # the discriminating condition: prefer a syntactic one
        c = None
        if i < len(a.pc) and i < len(b.pc):
            n = Not(a.pc[i])
            if b.pc[i].eq(n) or a.pc[i].eq(Not(b.pc[i])):
                c = a.pc[i]
        comp = c is not None
        if c is None:
            c = ra
        pc = list(a.pc[:i])
        o = Or(ra, rb)
        if c is not ra or True:
            # (c & ra') | (!c & rb')
            if comp:
                xa, xb = And(*a.pc[i + 1:]), And(*b.pc[i + 1:])
                if xa is not True:
                    pc.append(zb(Implies(c, xa)))
                if xb is not True:
                    pc.append(zb(Or(c, xb)))
            elif o is not True:
                pc.append(o)
        env = {}
        for k in a.env:
            if k in b.env:
                x, y = a.env[k], b.env[k]
                env[k] = x if x is y else self.merge_val(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is None:
                x = self.init_heap[k]
            if y is None:
                y = self.init_heap[k]
            heap[k] = x if x is y or x.eq(y) else self.merge_arr(c, x, y)
        gh = {}
        for k in set(a.gh) | set(b.gh):
            x, y = a.gh.get(k), b.gh.get(k)
            gh[k] = x if x is y else self.merge_val(c, x, y)
        v = va if va is vb else self.merge_val(c, va, vb)
        return State(pc, env, heap, gh), v

    def merge_arr(self, c, x, y):
        # push ite below a common base: store(h,r,v) vs h
        def chain(a):
            out = []
            while z3.is_app_of(a, z3.Z3_OP_STORE):
                out.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            return a, out
        if z3.is_app_of(x, z3.Z3_OP_STORE) and x.arg(0).eq(y):
            r = x.arg(1)
            return z3.Store(y, r, Ite(c, x.arg(2), z3.Select(y, r)))
        if z3.is_app_of(y, z3.Z3_OP_STORE) and y.arg(0).eq(x):
            r = y.arg(1)
            return z3.Store(x, r, Ite(c, z3.Select(x, r), y.arg(2)))
        if z3.is_app_of(x, z3.Z3_OP_STORE) and z3.is_app_of(y, z3.Z3_OP_STORE) and x.arg(1).eq(y.arg(1)) and x.arg(0).eq(y.arg(0)):
            return z3.Store(x.arg(0), x.arg(1), lift(Ite(c, x.arg(2), y.arg(2))))
        return z3.If(c, x, y)

    # ---------------------------------------------------------------- statements
    def run(self, node, fr, st):
        """Execute a statement; list of Out."""
        if not node or not node.get('kind'):
            return [Out('normal', st)]
        k = node['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(node, fr, st)
        # expression statement
        save = self.pending
        self.pending = []
        try:
            try:
                self.ev(node, fr, st)
                outs = [Out('normal', st)]
            except Dead:
                outs = []
            return outs + self.pending
        finally:
            self.pending = save

    def evs(self, fn, st):
        """Run expression evaluation fn(); returns (ok, value, pending outcomes)."""
        save = self.pending
        self.pending = []
        try:
            try:
                v = fn()
                return True, v, self.pending
            except Dead:
                return False, None, self.pending
        finally:
            self.pending = save

    def s_NullStmt(self, n, fr, st):
        return [Out('normal', st)]

    def s_CompoundStmt(self, n, fr, st):
        cur = [st]
        outs = []
        for x in n.get('inner', ()):
            nxt = []
            for s in cur:
                for o in self.run(x, fr, s):
                    if o.kind == 'normal':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = self.join(nxt)
            if not cur:
                break
        return [Out('normal', s) for s in cur] + outs

    def join(self, sts):
        if self.fork or len(sts) <= 1:
            return sts
        s, _ = self.merge_states([(x, None) for x in sts])
        return [s]

    def s_DeclStmt(self, n, fr, st):
        def go():
            for d in n.get('inner', ()):
                if d.get('kind') == 'VarDecl':
                    self.declare(d, fr, st)
                elif d.get('kind') == 'EnumDecl':
                    self.p._enum(d, fr.cls or '', fr.tu)
                elif d.get('kind') in ('CXXRecordDecl',):
                    self.p._record(d, fr.cls or '', fr.tu)
        ok, _, pend = self.evs(go, st)
        return ([Out('normal', st)] if ok else []) + pend

    def declare(self, d, fr, st):
        fr.tu.decl[d['id']] = d
        t = front.Prog.type_of(d)
        raw = front.norm_type(d['type'].get('qualType', ''))
        key = (fr.id, d['id'])
        init = None
        for x in d.get('inner', ()):
            if x.get('kind') and not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment'):
                init = x
        if d.get('storageClass') == 'static':
            # function-local statics: re-evaluated on every execution
            pass
        if is_ref(raw) or is_ref(t):
            v = self.ev(init, fr, st)
            if not isinstance(v, LV):
                tk = LVLocal((fr.id, 'tmp' + fresh_name('')), t)
                st.env[tk.key] = v
                v = tk
            st.env[key] = v
            return
        if init is None:
            st.env[key] = self.uninit(t)
            return
        v = self.rv(self.ev(init, fr, st), st)
        if v is None:
            v = self.uninit(t)
        st.env[key] = self.coerce(v, t)

    def coerce(self, v, t):
        k, a = tkind(t)
        if k == 'F' and not isinstance(v, FV):
            if isinstance(v, OpaqueV):
                return v
            return from_int(v)
        return v

    def s_ReturnStmt(self, n, fr, st):
        inner = [x for x in n.get('inner', ()) if x.get('kind')]
        if not inner:
            return [Out('return', st, None)]

        def go():
            v = self.ev(inner[0], fr, st)
            rt = fr.fn.ret if fr.fn is not None else ''
            if not is_ref(rt):
                v = self.rv(v, st)
                if v is not None and rt in ('double', 'scalar') and not isinstance(v, FV):
                    v = self.coerce(v, 'double')
            return v
        ok, v, pend = self.evs(go, st)
        return ([Out('return', st, v)] if ok else []) + pend

    def s_IfStmt(self, n, fr, st):
        inner = n.get('inner', [])
        i = 0
        outs = []
        if n.get('hasInit') or n.get('hasVar'):
            o = self.run(inner[0], fr, st)
            outs += [x for x in o if x.kind != 'normal']
            nn = [x for x in o if x.kind == 'normal']
            if not nn:
                return outs
            st = nn[0].st
            i = 1
        cond = inner[i]
        ok, c, pend = self.evs(lambda: self.cond(cond, fr, st), st)
        outs += pend
        if not ok:
            return outs
        d = self.decide(c, st)
        if d is not None:
            c = d
        res = []
        if c is not False:
            s1 = st.copy() if c is not True else st
            try:
                s1.assume(c)
                res += self.run(inner[i + 1], fr, s1)
            except Dead:
                pass
        if c is not True:
            s2 = st
            try:
                s2.assume(Not(c))
                if len(inner) > i + 2:
                    res += self.run(inner[i + 2], fr, s2)
                else:
                    res.append(Out('normal', s2))
            except Dead:
                pass
        normals = [o.st for o in res if o.kind == 'normal']
        outs += [o for o in res if o.kind != 'normal']
        return [Out('normal', s) for s in self.join(normals)] + outs

    def cond(self, node, fr, st):
        v = self.rv(self.ev(node, fr, st), st)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B):
            return v
        if isinstance(v, FV):
            return Not(iszero(v))
        if isinstance(v, AddrOf) or isinstance(v, FuncV):
            return True
        if isinstance(v, (int, Fraction)) or z3.is_expr(v):
            return Not(eqv(v, 0))
        raise Unsupported('bool of %r' % (v,))

    def s_SwitchStmt(self, n, fr, st):
        inner = n['inner']
        ok, v, pend = self.evs(lambda: self.rv(self.ev(inner[-2], fr, st), st), st)
        outs = list(pend)
        if not ok:
            return outs
        body = inner[-1].get('inner', [])
        # flatten labels
        items = []   # ('case', valnode|None) or ('stmt', node)

        def flat(x):
            if x.get('kind') == 'CaseStmt':
                items.append(('case', x['inner'][0]))
                flat(x['inner'][-1])
            elif x.get('kind') == 'DefaultStmt':
                items.append(('default', None))
                flat(x['inner'][-1])
            else:
                items.append(('stmt', x))
        for x in body:
            flat(x)
        cases = []
        for idx, (k, nd) in enumerate(items):
            if k == 'case':
                cases.append((idx, self.rv(self.ev(nd, fr, st), st)))
        default = [idx for idx, (k, _) in enumerate(items) if k == 'default']
        ends = []
        neg_ = True
        starts = []
        for idx, cv in cases:
            starts.append((idx, And(neg_, eqv(v, cv))))
            neg_ = And(neg_, Not(eqv(v, cv)))
        starts.append((default[0] if default else None, neg_))
        for idx, c in starts:
            d = self.decide(c, st)
            if d is False:
                continue
            s = st.copy()
            try:
                s.assume(c if d is None else True)
            except Dead:
                continue
            if idx is None:
                ends.append(s)
                continue
            cur = [s]
            for (k, nd) in items[idx:]:
                if k != 'stmt':
                    continue
                nxt = []
                for s in cur:
                    for o in self.run(nd, fr, s):
                        if o.kind == 'normal':
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            ends.append(o.st)
                        else:
                            outs.append(o)
                cur = self.join(nxt)
                if not cur:
                    break
            ends += cur
        return [Out('normal', s) for s in self.join(ends)] + outs

    def s_BreakStmt(self, n, fr, st):
        return [Out('break', st)]

    def s_ContinueStmt(self, n, fr, st):
        return [Out('continue', st)]

    def s_CXXTryStmt(self, n, fr, st):
        inner = n['inner']
        outs = []
        for o in self.run(inner[0], fr, st):
            if o.kind != 'throw':
                outs.append(o)
                continue
            handled = False
            for c in inner[1:]:
                if c.get('kind') != 'CXXCatchStmt':
                    continue
                ci = c.get('inner', [])
                var = ci[0] if ci and ci[0].get('kind') == 'VarDecl' else None
                ok = False
                if var is None:
                    ok = True
                else:
                    ct = strip_cv(front.Prog.type_of(var))
                    et = o.val[0]
                    ok = ct == et or (ct == 'std::exception') or (ct in self.p.classes and et in self.p.classes and self.p.is_subclass(et, ct))
                if ok:
                    s = o.st
                    if var is not None:
                        val = o.val[1] if isinstance(o.val[1], RecV) else OpaqueV('exception')
                        s.env[(fr.id, var['id'])] = val
                        fr.tu.decl[var['id']] = var
                    s.gh['exc'] = o.val
                    outs += self.run(ci[-1], fr, s)
                    handled = True
                    break
            if not handled:
                outs.append(o)
        normals = [o.st for o in outs if o.kind == 'normal']
        return [Out('normal', s) for s in self.join(normals)] + [o for o in outs if o.kind != 'normal']

    # loops -------------------------------------------------------------------------------------
    def s_ForStmt(self, n, fr, st):
        init, _cv, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        outs = []
        sts = [st]
        if init and init.get('kind'):
            r = self.run(init, fr, st)
            outs += [o for o in r if o.kind != 'normal']
            sts = [o.st for o in r if o.kind == 'normal']
        for s in sts:
            outs += self.loop(fr, s, cond if cond and cond.get('kind') else None, body,
                              inc if inc and inc.get('kind') else None, n)
        return outs

    def s_WhileStmt(self, n, fr, st):
        inner = n['inner']
        if n.get('hasVar') or len(inner) > 2:
            raise Unsupported('while with declaration')
        return self.loop(fr, st, inner[0], inner[1], None, n)

    def s_DoStmt(self, n, fr, st):
        body, cond = n['inner'][0], n['inner'][1]
        return self.loop(fr, st, cond, body, None, n, dowhile=True)

    def s_CXXForRangeStmt(self, n, fr, st):
        # init?, range, begin, end, cond, inc, loopvar, body
        inner = n['inner']
        outs = []
        for d in inner[0:4]:
            if d and d.get('kind'):
                r = self.run(d, fr, st)
                outs += [o for o in r if o.kind != 'normal']
                nn = [o.st for o in r if o.kind == 'normal']
                if not nn:
                    return outs
                st = nn[0]
        cond, inc, var, body = inner[4], inner[5], inner[6], inner[7]
        b = {'kind': 'CompoundStmt', 'inner': [var, body]}
        return outs + self.loop(fr, st, cond, b, inc, n)

    def loop(self, fr, st, cond, body, inc, node, dowhile=False):
        from . import loops
        return loops.run_loop(self, fr, st, cond, body, inc, node, dowhile)

    def iterate(self, fr, st, cond, body, inc):
        """One iteration from st: returns (exit outs, continue states, other outs).
        exit outs: states leaving through the condition."""
        outs = []
        c = True
        if cond is not None:
            ok, c, pend = self.evs(lambda: self.cond(cond, fr, st), st)
            outs += pend
            if not ok:
                return [], [], outs
            d = self.decide(c, st)
            if d is not None:
                c = d
        exits, conts = [], []
        if c is not True:
            s = st.copy()
            try:
                s.assume(Not(c))
                exits.append(s)
            except Dead:
                pass
        if c is not False:
            s = st.copy()
            try:
                s.assume(c)
                live = []
                for o in self.run(body, fr, s):
                    if o.kind in ('normal', 'continue'):
                        live.append(o.st)
                    elif o.kind == 'break':
                        exits.append(o.st)
                        o.st.gh['brk'] = True
                    else:
                        outs.append(o)
                for s2 in self.join(live):
                    if inc is not None:
                        for o in self.run(inc, fr, s2):
                            if o.kind == 'normal':
                                conts.append(o.st)
                            else:
                                outs.append(o)
                    else:
                        conts.append(s2)
            except Dead:
                pass
        return exits, conts, outs

    # ---------------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'])
        return m(n, fr, st)

    def _first(self, n, fr, st):
        return self.ev(n['inner'][0], fr, st)

    e_ParenExpr = e_ExprWithCleanups = e_ConstantExpr = e_CXXBindTemporaryExpr = _first
    e_SubstNonTypeTemplateParmExpr = _first

    def e_MaterializeTemporaryExpr(self, n, fr, st):
        v = self.ev(n['inner'][0], fr, st)
        if isinstance(v, LV):
            return v
        return self.temp(v, self.type_of(n), fr, st)

    def temp(self, v, t, fr, st):
        lv = LVLocal((fr.id, fresh_name('tmp')), t)
        st.env[lv.key] = v
        return lv

    @staticmethod
    def type_of(n):
        return front.Prog.type_of(n)

    def e_IntegerLiteral(self, n, fr, st):
        return int(n['value'])

    def e_FloatingLiteral(self, n, fr, st):
        return fconst(n['value'])

    def e_CXXBoolLiteralExpr(self, n, fr, st):
        return bool(n['value'])

    def e_CharacterLiteral(self, n, fr, st):
        return int(n['value'])

    def e_CXXNullPtrLiteralExpr(self, n, fr, st):
        return 0

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n, fr, st):
        s = n['value']
        import json as _j
        try:
            return sconst(_j.loads(s))
        except Exception:
            return sconst(s[1:-1])

    def e_PredefinedExpr(self, n, fr, st):
        return sconst('<fn>')

    def e_CXXThisExpr(self, n, fr, st):
        if fr.this is None:
            raise Unsupported('this outside a method')
        return self.addr(fr.this)

    def addr(self, lv):
        if isinstance(lv, LVHeap):
            return lv.ref
        return AddrOf(lv)

    def deref(self, p, t, st, fr=None):
        if isinstance(p, AddrOf):
            return p.lv
        if isinstance(p, IterV):
            return LVIndex(p.lv, p.i, t)
        if isinstance(p, SV) or isinstance(p, FuncV):
            return p
        z = eqv(p, 0)
        d = self.decide(z, st)
        if d is True:
            self.pending.append(Out('ub', st.copy(), 'null dereference'))
            raise Dead()
        if d is None:
            s2 = st.copy()
            s2.assume(z)
            self.pending.append(Out('ub', s2, 'null dereference'))
            st.assume(Not(z))
        return LVHeap(p, t)

    def e_DeclRefExpr(self, n, fr, st):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            key = (fr.id, d['id'])
            if key in st.env:
                v = st.env[key]
                if isinstance(v, LV):
                    return v
                return LVLocal(key, self.type_of(d))
            # static / global
            dn = fr.tu.decl.get(d['id'])
            name = d.get('name')
            own = fr.tu.owner.get(d['id'], '')
            q = (own + '::' if own else '') + (name or '')
            if q in self.p.statics:
                return LVLocal(('static', q), self.p.statics[q][0])
            if name in ('cout', 'cerr', 'endl'):
                return OpaqueV('std::' + name)
            if name in ('npos',):
                return z3.Int('npos')
            raise Unsupported('variable %s' % name)
        if k == 'EnumConstantDecl':
            c = fr.tu.decl.get(d['id'])
            if c is None:
                if d.get('name') and self.type_of(d).startswith('std::'):
                    return OpaqueV(d['name'])
                raise Unsupported('enum constant %s' % d.get('name'))
            return c['_val']
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f = fr.tu.fn.get(d['id'])
            if f is None:
                qt = (d.get('type') or {}).get('qualType', '')
                if qt.split(' noexcept')[0].replace(' const', '') in ('double (double)', 'double (double, double)'):
                    return FuncV(ExtFn(d.get('name', ''), qt.count('double') - 1))
                return OpaqueV('std::' + d.get('name', ''))
            return FuncV(f)
        raise Unsupported('DeclRef %s' % k)

    def e_MemberExpr(self, n, fr, st):
        did = n.get('referencedMemberDecl')
        base = self.ev(n['inner'][0], fr, st)
        d = fr.tu.decl.get(did)
        if n.get('isArrow'):
            p = self.rv(base, st)
            bt = self.type_of(n['inner'][0])
            k, a = tkind(bt)
            lv = p if isinstance(p, MapIt) else self.deref(p, a if k in ('P', 'U') else bt, st)
        else:
            lv = base
            if not isinstance(lv, LV):
                if isinstance(lv, (RecV, VecV, MapV)):
                    lv = self.temp(lv, self.type_of(n['inner'][0]), fr, st)
                elif isinstance(lv, MapIt):
                    lv = self.map_deref(lv, st)
        if isinstance(lv, MapIt):
            lv = self.map_deref(lv, st)
        if d is not None and d['kind'] == 'FieldDecl':
            cls = fr.tu.owner[did]
            # template specialisations are declared per specialisation
            return LVField(lv, cls, d.get('name'), self.type_of(d))
        if d is not None and d['kind'] == 'VarDecl':
            own = fr.tu.owner.get(did, '')
            return LVLocal(('static', own + '::' + d['name']), self.type_of(d))
        name = n.get('name')
        if name in ('first', 'second'):
            if isinstance(lv, tuple) and lv[0] == 'mapentry':
                return lv[1] if name == 'first' else lv[2]
            bt = self.type_of(n['inner'][0])
            k, a = tkind(bt)
            if n.get('isArrow'):
                k, a = ('PAIR', None)
                t = self.type_of(n)
                return LVField(lv, 'pair', name, t)
            return LVField(lv, 'pair', name, self.type_of(n))
        raise Unsupported('member %s' % name)

    def map_deref(self, it, st):
        m = self.read(it.lv, st)
        return ('mapentry', it.key, LVMap(it.lv, it.key, m.vt))

    def e_ImplicitCastExpr(self, n, fr, st):
        return self.cast(n, fr, st)

    def cast(self, n, fr, st):
        ck = n.get('castKind')
        x = self.ev(n['inner'][0], fr, st)
        t = self.type_of(n)
        if ck == 'LValueToRValue':
            return self.rv(x, st)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return x
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast'):
            if isinstance(x, LVHeap):
                return LVHeap(x.ref, t)
            return x
        if ck == 'NullToPointer':
            return 0
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(self.rv(x, st))
        if ck == 'IntegralToFloating':
            v = self.rv(x, st)
            if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B):
                return FV(0, Ite(v, Fraction(1), Fraction(0), R))
            return from_int(v)
        if ck == 'FloatingToIntegral':
            return self.f2i(self.rv(x, st), t, st)
        if ck == 'FloatingCast':
            return self.rv(x, st)
        if ck == 'IntegralCast':
            v = self.rv(x, st)
            if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B):
                v = Ite(v, 1, 0)
            if isinstance(v, OpaqueV):
                return v
            return self.wrap(v, t, st)
        if ck == 'ToVoid':
            return None
        if ck == 'Dynamic':
            return x
        raise Unsupported('cast %s' % ck)

    def f2i(self, v, t, st):
        if not isfin(v) is True:
            d = self.decide(isfin(v), st)
            if d is not True:
                s2 = st.copy()
                s2.assume(Not(isfin(v)))
                self.pending.append(Out('ub', s2, 'float to int of non-finite'))
                st.assume(isfin(v))
        if num(v.v):
            import math
            return math.trunc(v.v)
        fl = z3.ToInt(v.v)
        return Ite(v.v >= 0, fl, -z3.ToInt(-v.v))

    def wrap(self, v, t, st):
        tt = strip_cv(t)
        if num(v):
            if v < 0 and tt in ('unsigned long', 'size_t', 'std::size_t', 'unsigned long long'):
                return v + 2 ** 64
            if v < 0 and tt == 'unsigned int':
                return v + 2 ** 32
            if v >= 2 ** 31 and tt == 'int':
                return ((v + 2 ** 31) % 2 ** 32) - 2 ** 31
            return v
        if tt in ('unsigned long', 'size_t', 'std::size_t', 'unsigned long long'):
            d = self.decide(v >= 0, st)
            if d is True:
                return v
            return Ite(v >= 0, v, v + 2 ** 64)
        return v

    def _explicit(self, n, fr, st):
        t = self.type_of(n)
        k, a = tkind(t)
        x = n['inner'][0]
        ck = n.get('castKind')
        if ck in ('NoOp', 'ConstructorConversion', None):
            return self.ev(x, fr, st)
        return self.cast(n, fr, st)

    e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = _explicit
    e_CXXReinterpretCastExpr = _explicit

    def e_CXXDynamicCastExpr(self, n, fr, st):
        v = self.rv(self.ev(n['inner'][0], fr, st), st)
        t = self.type_of(n)
        k, a = tkind(t)
        target = self.cls(strip_cv(a))
        if isinstance(v, AddrOf):
            return v if self.p.is_subclass(self.exact(v.lv), target) else 0
        if num(v) and v == 0:
            return 0
        c = self.known_cls(v, st)
        if c is not None:
            return v if self.p.is_subclass(c, target) else 0
        isa = self.isa(v, target)
        return Ite(And(Not(eqv(v, 0)), isa), v, 0)

    def isa(self, ref, cls):
        f = z3.Function('isa_' + cls, I, B)
        return f(lift(ref, I))

    def tag(self, cls):
        if cls not in self.tags:
            self.tags[cls] = len(self.tags) + 1
        return self.tags[cls]

    def known_cls(self, ref, st):
        if num(ref):
            return None
        e = self.known.get(ref.get_id())
        return e[1] if e is not None else None

    def exact(self, lv):
        if isinstance(lv, LVHeap):
            return None
        return self.p.resolve_class(strip_cv(lv.t)) if lv.t else None

    def e_CXXDefaultArgExpr(self, n, fr, st):
        raise Unsupported('default argument outside a call')

    def e_CXXDefaultInitExpr(self, n, fr, st):
        inner = n.get('inner')
        if inner:
            return self.ev(inner[0], fr, st)
        return None

    def e_ImplicitValueInitExpr(self, n, fr, st):
        return self.zero(self.type_of(n))

    def e_CXXScalarValueInitExpr(self, n, fr, st):
        return self.zero(self.type_of(n))

    def zero(self, t):
        k, a = tkind(t)
        if k == 'F':
            return fconst(0)
        if k == 'B':
            return False
        if k in ('I', 'P', 'U', 'FP'):
            return 0
        return self.uninit(t)

    def e_UnaryOperator(self, n, fr, st):
        op = n['opcode']
        x = self.ev(n['inner'][0], fr, st)
        if op == '!':
            return Not(self.tobool(self.rv(x, st)))
        if op == '-':
            v = self.rv(x, st)
            return fneg(v) if isinstance(v, FV) else neg(v)
        if op == '+':
            return self.rv(x, st)
        if op in ('++', '--'):
            v = self.rv(x, st)
            if isinstance(v, FV):
                nv = fadd(v, fconst(1 if op == '++' else -1))
            elif isinstance(v, IterV):
                nv = self.it_add(v, 1 if op == '++' else -1)
            else:
                nv = add(v, 1 if op == '++' else -1)
                if op == '--':
                    nv = self.wrap(nv, self.type_of(n), st)
            self.write(x, nv, st)
            return v if n.get('isPostfix') else x
        if op == '*':
            p = self.rv(x, st)
            t = self.type_of(n)
            return self.deref(p, t, st)
        if op == '&':
            if isinstance(x, FuncV):
                return x
            if isinstance(x, LV):
                return self.addr(x)
            raise Unsupported('address of rvalue')
        raise Unsupported('unary %s' % op)

    def it_add(self, it, d):
        return IterV(it.lv, add(it.i, d) if not it.rev else sub(it.i, d), it.rev)

    def e_BinaryOperator(self, n, fr, st):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            return self.shortcircuit(op, a, b, fr, st)
        if op == ',':
            self.ev(a, fr, st)
            return self.ev(b, fr, st)
        if op == '=':
            rhs = self.rv(self.ev(b, fr, st), st)
            lhs = self.ev(a, fr, st)
            self.write(lhs, self.coerce(rhs, self.type_of(a)), st)
            return lhs
        x = self.rv(self.ev(a, fr, st), st)
        y = self.rv(self.ev(b, fr, st), st)
        return self.binop(op, x, y, self.type_of(n), st)

    def binop(self, op, x, y, t, st):
        if isinstance(x, FV) or isinstance(y, FV):
            x = x if isinstance(x, FV) else from_int(x)
            y = y if isinstance(y, FV) else from_int(y)
            if op == '+':
                return fadd(x, y)
            if op == '-':
                return fsub(x, y)
            if op == '*':
                return fmul(x, y)
            if op == '/':
                return fdiv(x, y, lambda c: self.decide(c, st))
            if op == '<':
                return flt(x, y)
            if op == '>':
                return flt(y, x)
            if op == '<=':
                return fle(x, y)
            if op == '>=':
                return fle(y, x)
            if op == '==':
                return feq(x, y)
            if op == '!=':
                return Not(feq(x, y))
            raise Unsupported('float %s' % op)
        if isinstance(x, IterV) or isinstance(y, IterV):
            return self.iterop(op, x, y)
        if isinstance(x, AddrOf) or isinstance(y, AddrOf):
            if op in ('==', '!='):
                if isinstance(x, AddrOf) and isinstance(y, AddrOf):
                    r = x.lv.ident() == y.lv.ident()
                    if not r and self.maybe_alias(x.lv, y.lv):
                        raise Unsupported('pointer comparison')
                else:
                    o = y if isinstance(x, AddrOf) else x
                    r = eqv(o, self.pin(x if isinstance(x, AddrOf) else y)) if z3.is_expr(o) else False
                return r if op == '==' else Not(r)
            raise Unsupported('pointer %s' % op)
        if isinstance(x, FuncV) or isinstance(y, FuncV):
            x = self.fcode(x) if isinstance(x, FuncV) else x
            y = self.fcode(y) if isinstance(y, FuncV) else y
        if op in ('==', '!='):
            if self.is_b(x) or self.is_b(y):
                r = Iff(self.tobool(x), self.tobool(y))
            else:
                r = eqv(x, y)
            return r if op == '==' else Not(r)
        if self.is_b(x) and op in ('|', '&', '^'):
            x, y = self.tobool(x), self.tobool(y)
            return Or(x, y) if op == '|' else And(x, y) if op == '&' else Not(Iff(x, y))
        if self.is_b(x):
            x = Ite(x, 1, 0)
        if self.is_b(y):
            y = Ite(y, 1, 0)
        if isinstance(x, OpaqueV) or isinstance(y, OpaqueV):
            return OpaqueV('arith')
        if op == '<':
            return lt(x, y)
        if op == '>':
            return lt(y, x)
        if op == '<=':
            return le(x, y)
        if op == '>=':
            return le(y, x)
        if op == '+':
            if strip_cv(t) in ('unsigned long', 'size_t', 'std::size_t', 'unsigned long long'):   # adding a "negative" unsigned constant
                for a, b in ((x, y), (y, x)):
                    if num(a) and a >= 2 ** 63 and not (num(b) and b >= 2 ** 63):
                        return self.wrap(add(b, a - 2 ** 64), t, st)
            return add(x, y)
        if op == '-':
            return self.wrap(sub(x, y), t, st)
        if op == '*':
            return mul(x, y)
        if op in ('/', '%'):
            if num(x) and num(y) and y != 0:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
                return q if op == '/' else x - q * y
            d = self.decide(eqv(y, 0), st)
            if d is not False:
                s2 = st.copy()
                try:
                    s2.assume(eqv(y, 0))
                    self.pending.append(Out('ub', s2, 'integer division by zero'))
                except Dead:
                    pass
                st.assume(Not(eqv(y, 0)))
            X, Y = lift(x, I), lift(y, I)
            nn = self.decide(z3.And(X >= 0, Y > 0), st)
            if nn is True:
                return X / Y if op == '/' else X % Y
            q = z3.If(Y > 0, z3.If(X >= 0, X / Y, -((-X) / Y)), z3.If(X >= 0, -(X / (-Y)), (-X) / (-Y)))
            return q if op == '/' else X - q * Y
        if op in ('&', '|', '^') and num(x) and num(y):
            return {'&': int.__and__, '|': int.__or__, '^': int.__xor__}[op](int(x), int(y))
        if op == '&' and (num(x) or num(y)):
            m, z = (int(x), y) if num(x) else (int(y), x)
            if 0 <= m < 2 ** 31:        # bit by bit; negative numbers in two's complement
                r, b = 0, 1
                while b <= m:
                    if m & b:
                        r = add(r, mul(b, (lift(z, I) / b) % 2))
                    b *= 2
                return r
        raise Unsupported('int %s' % op)

    def maybe_alias(self, a, b):
        if isinstance(a, LVIndex) and isinstance(b, LVIndex):
            return True
        return False

    def is_b(self, x):
        return isinstance(x, bool) or (z3.is_expr(x) and x.sort() == B)

    def iterop(self, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if x.lv.ident() != y.lv.ident():
                raise Unsupported('iterators of different containers')
            if op == '==':
                return eqv(x.i, y.i)
            if op == '!=':
                return Not(eqv(x.i, y.i))
            if op == '-':
                return sub(x.i, y.i) if not x.rev else sub(y.i, x.i)
            a, b = (x.i, y.i) if not x.rev else (y.i, x.i)
            return {'<': lt(a, b), '>': lt(b, a), '<=': le(a, b), '>=': le(b, a)}[op]
        if isinstance(x, IterV) and op in ('+', '-'):
            return self.it_add(x, y if op == '+' else neg(y))
        if isinstance(y, IterV) and op == '+':
            return self.it_add(y, x)
        raise Unsupported('iterator %s' % op)

    def shortcircuit(self, op, a, b, fr, st):
        x = self.tobool(self.rv(self.ev(a, fr, st), st))
        if isinstance(x, bool):
            if (op == '&&') != x:
                return x
            return self.tobool(self.rv(self.ev(b, fr, st), st))
        d = self.decide(x, st) if self.has_effects(b) else None
        if d is not None:
            if (op == '&&') != d:
                return d
            return self.tobool(self.rv(self.ev(b, fr, st), st))
        s2 = st.copy()
        s1 = st.copy()
        try:
            s2.assume(x if op == '&&' else Not(x))
            y = self.tobool(self.rv(self.ev(b, fr, s2), s2))
        except Dead:
            st.assume(Not(x) if op == '&&' else x)
            return op == '||'
        if not self.has_effects(b):
            # s2 differs from st only by assumptions: drop those, keep heap facts
            extra = s2.pc[len(st.pc) + 1:] if len(s2.pc) > len(st.pc) else ()
            g = x if op == '&&' else Not(x)
            for e in extra:
                st.assume(zb(Implies(g, e)))
            for k, v in s2.env.items():
                if k not in st.env:
                    st.env[k] = v
            return And(x, y) if op == '&&' else Or(x, y)
        s1.assume(Not(x) if op == '&&' else x)
        m, v = self.merge_states([(s2, y), (s1, op == '||')])
        st.set(m)
        return v

    def has_effects(self, n):
        k = n.get('kind')
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXNewExpr', 'CXXConstructExpr',
                 'CXXTemporaryObjectExpr', 'CXXDeleteExpr', 'CompoundAssignOperator', 'CXXThrowExpr'):
            return True
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        return any(self.has_effects(x) for x in n.get('inner', ()) if x)

    def e_ConditionalOperator(self, n, fr, st):
        cn, a, b = n['inner']
        c = self.cond(cn, fr, st)
        d = self.decide(c, st)
        if d is not None:
            return self.ev(a if d else b, fr, st)
        lvc = n.get('valueCategory') == 'lvalue'
        sa, sb = st.copy(), st.copy()
        res = []
        for s, g, node in ((sa, c, a), (sb, Not(c), b)):
            try:
                s.assume(g)
                v = self.ev(node, fr, s)
                if not lvc or not isinstance(v, LVHeap):
                    v = self.rv(v, s)
                res.append((s, v))
            except Dead:
                pass
        if not res:
            raise Dead()
        # coerce pointers/null
        m, v = self.merge_states(res)
        st.set(m)
        if lvc and not isinstance(v, LV):
            return self.temp(v, self.type_of(n), fr, st)
        return v

    def e_CompoundAssignOperator(self, n, fr, st):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = self.rv(self.ev(b, fr, st), st)
        lv = self.ev(a, fr, st)
        x = self.rv(lv, st)
        ct = front.norm_type(n.get('computeResultType', {}).get('qualType', self.type_of(a)))
        if tkind(ct)[0] == 'F' and not isinstance(x, FV) and not isinstance(x, OpaqueV):
            x = from_int(x)
        v = self.binop(op, x, y, ct, st)
        if tkind(self.type_of(a))[0] == 'I' and isinstance(v, FV):
            v = self.f2i(v, self.type_of(a), st)
        self.write(lv, v, st)
        return lv

    def e_CXXThrowExpr(self, n, fr, st):
        inner = n.get('inner')
        if not inner:
            v = st.gh.get('exc', ('std::exception', None))
        else:
            t = strip_cv(self.type_of(inner[0]))
            c = self.p.resolve_class(t) or t
            # the exception object is opaque, but evaluating its arguments matters
            try:
                self.throw_args(inner[0], fr, st)
            except Unsupported:
                pass
            v = (c, None)
        self.pending.append(Out('throw', st.copy(), v))
        raise Dead()

    def throw_args(self, n, fr, st):
        """Exception messages are not part of any contract; nothing to evaluate."""
        return

    def e_CXXTypeidExpr(self, n, fr, st):
        raise Unsupported('typeid')

    def e_UnaryExprOrTypeTraitExpr(self, n, fr, st):
        raise Unsupported('sizeof')

    def e_ArraySubscriptExpr(self, n, fr, st):
        a = self.rv(self.ev(n['inner'][0], fr, st), st)
        i = self.rv(self.ev(n['inner'][1], fr, st), st)
        if isinstance(a, SV) and a.const() is not None and num(i):
            c = a.const()
            return ord(c[i]) if i < len(c) else 0
        raise Unsupported('array subscript')

    def e_InitListExpr(self, n, fr, st):
        t = self.type_of(n)
        k, a = tkind(t)
        if k == 'V':
            v = VecV(a, 0, {})
            for x in n.get('inner', ()):
                v = self.vpush(v, self.rv(self.ev(x, fr, st), st))
            return v
        if len(n.get('inner', ())) == 1 and k in ('F', 'I', 'B', 'P'):
            return self.ev(n['inner'][0], fr, st)
        if not n.get('inner'):
            return self.zero(t)
        raise Unsupported('init list of %s' % t)

    def e_CXXStdInitializerListExpr(self, n, fr, st):
        return self.ev(n['inner'][0], fr, st)

    def e_LambdaExpr(self, n, fr, st):
        raise Unsupported('lambda')

    # ---------------------------------------------------------------- construction
    def e_CXXConstructExpr(self, n, fr, st):
        t = self.type_of(n)
        args = [x for x in n.get('inner', ())]
        return self.construct(t, n, args, fr, st)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, n, args, fr, st, place=None):
        """Value of a constructor call; if place is given the object is built there."""
        from . import stdlib
        k, a = tkind(t)
        if k in ('C',) and not self.is_enum(strip_cv(t)):
            c = self.p.resolve_class(strip_cv(t), fr.cls or '')
            if c is not None:
                c = self.cls(c)
                sig = front.norm_type(n.get('ctorType', {}).get('qualType', ''))
                return self.construct_cls(c, sig, args, fr, st, place)
        return stdlib.construct(self, t, n, args, fr, st)

    def construct_cls(self, c, sig, args, fr, st, place=None):
        tmp = None
        if place is None:
            tmp = LVLocal((fr.id, fresh_name('obj')), c)
            place = tmp
            st.env[tmp.key] = self.uninit(c)
        key = 'ctor:%s:%s' % (c, sig)
        h = self.contracts.get(c + '::' + c.split('::')[-1])
        f = self.p.body(key)
        d = f or self.p.decls.get(key)
        cargs = self.eval_args(d, args, fr, st) if d is not None else [self.ev(x, fr, st) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        if h is not None:
            h(self, st, place, cargs, d)
        elif f is not None and not (f.implicit and not f.inits and args):
            self.call_body(f, place, cargs, st, fr, ctor_cls=c)
        elif d is None or d.implicit or d.defaulted or len(cargs) == 0:
            if len(cargs) == 0:
                self.default_init(c, place, fr, st)
            elif len(cargs) == 1:
                v = self.rv(cargs[0], st)
                self.write(place, self.slice(v, c), st)
            else:
                raise Unsupported('constructor %s %s' % (c, sig))
        else:
            raise Unsupported('no body for constructor %s %s' % (c, sig))
        if tmp is not None:
            v = st.env.pop(tmp.key)
            return v
        return place

    def slice(self, v, c):
        if v.cls == c:
            return v
        return RecV(c, {(dc, fn): v.f[(dc, fn)] for (dc, fn, _, _) in self.p.all_fields(c)})

    def default_init(self, c, place, fr, st):
        for b in self.p.classes[c].bases:
            bc = self.p.resolve_class(b)
            if bc:
                self.base_init(bc, place, [], 'void ()', fr, st)
        for (fn, ft, init) in self.p.classes[c].fields:
            self.write(LVField(place, c, fn, ft), self.uninit_or_ctor(ft, init, fr, st), st)

    def uninit_or_ctor(self, ft, init, fr, st):
        if init is not None:
            return self.rv(self.ev(init, fr, st), st)
        k, a = tkind(ft)
        if k == 'C' and not self.is_enum(strip_cv(ft)):
            c = self.p.resolve_class(strip_cv(ft))
            if c:
                return self.construct_cls(self.cls(c), 'void ()', [], fr, st)
        return self.uninit(ft)

    def base_init(self, bc, place, args, sig, fr, st):
        bp = LVHeap(place.ref, bc) if isinstance(place, LVHeap) else place
        key = 'ctor:%s:%s' % (bc, sig)
        f = self.p.body(key)
        d = f or self.p.decls.get(key)
        cargs = self.eval_args(d, args, fr, st) if d is not None else []
        if f is not None and not (f.implicit and args):
            self.call_body(f, bp, cargs, st, fr, ctor_cls=bc)
        elif len(cargs) == 1 and (d is None or d.implicit or d.defaulted):
            v = self.rv(cargs[0], st)
            for (dc, fn, ft, _) in self.p.all_fields(bc):
                self.write(LVField(bp, dc, fn, ft), v.f[(dc, fn)], st)
        else:
            self.default_init(bc, bp, fr, st)

    def run_inits(self, f, c, place, fr, st):
        done = set()
        for i in f.inits:
            inner = i.get('inner', [])
            if 'baseInit' in i:
                bt = front.norm_type(i['baseInit'].get('desugaredQualType', i['baseInit']['qualType']))
                bc = self.cls(bt)
                e = inner[0] if inner else None
                while e is not None and e['kind'] in ('ExprWithCleanups',):
                    e = e['inner'][0]
                if e is not None and e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
                    self.base_init(bc, place, list(e.get('inner', ())),
                                   front.norm_type(e.get('ctorType', {}).get('qualType', 'void ()')), fr, st)
                else:
                    self.base_init(bc, place, [], 'void ()', fr, st)
                done.add(bc)
        for b in self.p.classes[c].bases:
            bc = self.p.resolve_class(b)
            if bc and bc not in done:
                self.base_init(bc, place, [], 'void ()', fr, st)
        inits = {}
        for i in f.inits:
            if 'anyInit' in i:
                inits[i['anyInit'].get('name')] = i.get('inner', [None])[0]
        for (fn, ft, dinit) in self.p.classes[c].fields:
            lv = LVField(place, c, fn, ft)
            e = inits.get(fn)
            if e is not None and e.get('kind'):
                v = self.rv(self.ev(e, fr, st), st)
                if v is None:
                    v = self.rv(self.ev(dinit, fr, st), st) if dinit is not None else self.zero(ft)
                self.write(lv, self.coerce(v, ft), st)
            else:
                self.write(lv, self.uninit_or_ctor(ft, dinit, fr, st), st)

    def alloc(self, c, st):
        a = st.gh.get('alloc', self.alloc0)
        r = a + 1
        r = z3.simplify(r)
        st.gh['alloc'] = r
        self.ax(('alloc0',), self.alloc0 >= 0)
        self.known[r.get_id()] = (r, c)
        self.ax(('dt', r.get_id()), dtype(r) == self.tag(c))
        return r

    def e_CXXNewExpr(self, n, fr, st):
        t = self.type_of(n)
        k, a = tkind(t)
        if n.get('isArray'):
            raise Unsupported('array new')
        c = self.p.resolve_class(strip_cv(a), fr.cls or '')
        if c is None:
            raise Unsupported('new %s' % a)
        c = self.cls(c)
        ce = None
        for x in n.get('inner', ()):
            if x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ExprWithCleanups'):
                ce = x
        while ce is not None and ce['kind'] == 'ExprWithCleanups':
            ce = ce['inner'][0]
        h = self.contracts.get('new ' + c)
        if h is not None and ce is not None and len(ce.get('inner', ())) == 1:
            # contract of a copy: new c(original)
            v = self.ev(ce['inner'][0], fr, st)
            if isinstance(v, LVHeap):
                return h(self, st, v)
        r = self.alloc(c, st)
        place = LVHeap(r, c)
        if ce is None:
            self.default_init(c, place, fr, st)
            return r
        sig = front.norm_type(ce.get('ctorType', {}).get('qualType', ''))
        self.construct_cls(c, sig, list(ce.get('inner', ())), fr, st, place)
        return r

    def e_CXXDeleteExpr(self, n, fr, st):
        v = self.rv(self.ev(n['inner'][0], fr, st), st)
        h = self.hooks.get('delete')
        if h:
            h(self, st, v)
        return None

    # ---------------------------------------------------------------- calls
    def eval_args(self, fn, args, fr, st):
        """Evaluate call arguments against fn's parameters (resolving default arguments)."""
        out = []
        params = fn.params if fn is not None else []
        for i, x in enumerate(args):
            if x.get('kind') == 'CXXDefaultArgExpr':
                if x.get('inner'):
                    v = self.ev(x['inner'][0], fr, st)
                else:
                    pn = self.default_param(fn, i)
                    if pn is None:
                        raise Unsupported('default argument %d of %s' % (i, fn))
                    f2 = Frame(None, pn[1], None, fr.id, fr.cls, fr.depth)
                    v = self.ev(pn[0], f2, st)
            else:
                v = self.ev(x, fr, st)
            if i < len(params):
                raw = front.norm_type(params[i]['type'].get('qualType', ''))
                if not is_ref(raw):
                    v = self.rv(v, st)
                    v = self.coerce(v, raw) if tkind(raw)[0] == 'F' else v
                elif not isinstance(v, LV):
                    v = self.temp(v, raw, fr, st)
            out.append(v)
        return out

    def default_param(self, fn, i):
        for d in [fn] + [x for x in (self.p.decls.get(fn.mangled), self.p.funcs.get(fn.mangled)) if x is not None] + \
                [x for tu in self.p.tus.values() for x in [None]]:
            if d is None or i >= len(d.params):
                continue
            for e in d.params[i].get('inner', ()):
                if e.get('kind') and not e['kind'].endswith('Comment'):
                    return e, d.tu
        # other redeclarations in the same TU
        for did, f in fn.tu.fn.items():
            if f.mangled == fn.mangled or (f.name == fn.name and f.cls == fn.cls and f.ftype == fn.ftype) or \
                    (f.name == fn.name and f.cls == fn.cls and len(f.params) == len(fn.params)):
                if i < len(f.params):
                    for e in f.params[i].get('inner', ()):
                        if e.get('kind') and not e['kind'].endswith('Comment'):
                            return e, f.tu
        return None

    def e_CallExpr(self, n, fr, st):
        from . import stdlib
        callee = n['inner'][0]
        args = n['inner'][1:]
        c = callee
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                f = fr.tu.fn.get(d['id'])
                if f is not None:
                    cargs = self.eval_args(f, args, fr, st)
                    return self.call(f, None, cargs, st, fr)
                return stdlib.call(self, d.get('name'), args, n, fr, st, d)
        fv = self.rv(self.ev(callee, fr, st), st)
        if isinstance(fv, FuncV) and isinstance(fv.fn, ExtFn):
            raise Unsupported('call of %s through a pointer' % fv.fn.name)
        if isinstance(fv, FuncV):
            cargs = self.eval_args(fv.fn, args, fr, st)
            return self.call(fv.fn, None, cargs, st, fr)
        h = self.hooks.get('fptr')
        if h:
            cargs = [self.rv(self.ev(x, fr, st), st) for x in args]
            return h(self, st, fv, cargs, n)
        raise Unsupported('indirect call')

    def e_CXXMemberCallExpr(self, n, fr, st):
        from . import stdlib
        me = n['inner'][0]
        args = n['inner'][1:]
        while me['kind'] == 'ParenExpr':
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % me['kind'])
        did = me.get('referencedMemberDecl')
        f = fr.tu.fn.get(did)
        bnode = me['inner'][0]
        base = self.ev(bnode, fr, st)
        bt = self.type_of(bnode)
        if f is None:
            return stdlib.member(self, me.get('name'), base, bt, me.get('isArrow'), args, n, fr, st)
        if me.get('isArrow'):
            p = self.rv(base, st)
            k, a = tkind(bt)
            if isinstance(p, OpaqueV):
                raise Unsupported('call on opaque')
            lv = self.deref(p, a if k in ('P', 'U') else bt, st)
        else:
            lv = base if isinstance(base, LV) else self.temp(base, bt, fr, st)
        cargs = self.eval_args(f, args, fr, st)
        # qualified call Base::m() from a class overriding m
        qualified = False
        if bnode['kind'] == 'ImplicitCastExpr' and bnode.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase') \
                and fr.cls:
            src = self.type_of(bnode['inner'][0])
            k, a = tkind(src)
            sc = self.p.resolve_class(strip_cv(a if k == 'P' else src))
            if sc and f.virtual and self.p.override(sc, f.name, self.p.sig(f)) != f.mangled:
                ov = self.p.decls.get(self.p.override(sc, f.name, self.p.sig(f)))
                if ov is not None and ov.cls != f.cls and self.p.is_subclass(ov.cls, f.cls):
                    qualified = True
        return self.call(f, lv, cargs, st, fr, qualified)

    def e_CXXOperatorCallExpr(self, n, fr, st):
        from . import stdlib
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        d = c.get('referencedDecl', {})
        f = fr.tu.fn.get(d.get('id'))
        args = n['inner'][1:]
        if f is not None:
            if d['kind'] == 'CXXMethodDecl':
                lv = self.ev(args[0], fr, st)
                if not isinstance(lv, LV):
                    lv = self.temp(lv, self.type_of(args[0]), fr, st)
                if f.name == 'operator=' and self.p.body(f.mangled) is None:
                    v = self.rv(self.ev(args[1], fr, st), st)
                    self.write(lv, self.slice(v, f.cls) if isinstance(v, RecV) else v, st)
                    return lv
                cargs = self.eval_args(f, args[1:], fr, st)
                return self.call(f, lv, cargs, st, fr)
            return self.call(f, None, self.eval_args(f, args, fr, st), st, fr)
        return stdlib.operator(self, d.get('name'), args, n, fr, st, d)

    def call(self, f, this, args, st, fr, qualified=False):
        # 1. contract of the function itself
        h = self.contracts.get(f.qual)
        if h is None and f.virtual:
            # contract of the interface method
            for b in self.p.bases_of(f.cls):
                if (b + '::' + f.name) in self.contracts:
                    h = self.contracts[b + '::' + f.name]
                    break
        target = f
        exact = None
        if this is not None and f.virtual and not qualified:
            if isinstance(this, LVHeap):
                exact = self.known_cls(this.ref, st)
            else:
                exact = self.exact(this)
            if exact is not None:
                m = self.p.override(exact, f.name, self.p.sig(f))
                if m:
                    target = self.p.decls.get(m, f)
                h2 = self.contracts.get(target.qual)
                h = h2 if h2 is not None else (None if not getattr(h, 'always', False) else h)
        if h is not None:
            r = h(self, st, this, args, f)
            if r is not NotImplemented:
                return r
        if this is not None and f.virtual and not qualified and exact is None:
            d = self.hooks.get('dispatch')
            if d:
                r = d(self, st, this, args, f, fr)
                if r is not NotImplemented:
                    return r
            sc = self.p.resolve_class(strip_cv(this.t)) or f.cls
            m = self.p.override(sc, f.name, self.p.sig(f))
            if m:
                target = self.p.decls.get(m, f)
        if target.name in ('isDebugging', 'isLogging') and target.cls in ('fuzzylite', ''):
            return False
        b = self.p.body(target.mangled)
        if b is None:
            if target.implicit or target.defaulted:
                if target.name == 'operator=' and len(args) == 1:
                    v = self.rv(args[0], st)
                    self.write(this, self.slice(v, target.cls), st)
                    return this
            raise Unsupported('no definition for %s' % target.qual)
        return self.call_body(b, this, args, st, fr)

    def call_body(self, f, this, args, st, fr, ctor_cls=None):
        if fr.depth > self.maxdepth:
            raise Unsupported('recursion through %s' % f.qual)
        self.inlined.add(f.qual)
        self.fid += 1
        nf = Frame(f, f.tu, this, self.fid, f.cls, fr.depth + 1)
        for p, a in zip(f.params, args):
            st.env[(nf.id, p['id'])] = a
        for p in f.params[len(args):]:
            dp = self.default_param(f, f.params.index(p))
            if dp is None:
                raise Unsupported('missing argument of %s' % f.qual)
            st.env[(nf.id, p['id'])] = self.rv(self.ev(dp[0], Frame(None, dp[1], None, nf.id, f.cls, nf.depth), st), st)
        entry = len(st.pc)
        if ctor_cls is not None:
            self.run_inits(f, ctor_cls, this, nf, st)
        outs = self.run(f.body, nf, st)
        rets = []
        for o in outs:
            if o.kind in ('return', 'normal'):
                rets.append((o.st, o.val))
            elif o.kind in ('throw', 'ub'):
                self.pending.append(o)
            else:
                raise Unsupported('stray %s' % o.kind)
        if not rets:
            raise Dead()
        for s, _ in rets:
            for k in [k for k in s.env if k[0] == nf.id]:
                # keep temporaries a returned reference may point at
                v = s.env[k]
                if not self.mentions(_, nf.id):
                    del s.env[k]
        m, v = self.merge_states(rets)
        st.set(m)
        return v

    def mentions(self, v, fid):
        if isinstance(v, LVLocal):
            return v.key[0] == fid
        if isinstance(v, (LVField, LVIndex, LVMap)):
            return self.mentions(v.base, fid)
        if isinstance(v, AddrOf):
            return self.mentions(v.lv, fid)
        if isinstance(v, (IterV, MapIt)):
            return self.mentions(v.lv, fid)
        return False

    # ---------------------------------------------------------------- vectors
    def vpush(self, v, x):
        lv = self.to_leaves(v.et, x)
        a = {}
        for p, s in self.leaves(v.et):
            arr = v.a.get(p)
            if arr is None:
                arr = z3.K(I, self.default(s))
            a[p] = z3.Store(arr, lift(v.n, I), lift(lv[p], s))
        return VecV(v.et, add(v.n, 1), a)

    # ---------------------------------------------------------------- entry point
    def enter(self, f, this, args, st):
        """Run function f from state st; list of Out (return/throw/ub)."""
        if isinstance(f, str):
            f = self.p.find(f)
        root = Frame(None, f.tu, None, 0, f.cls, 0)
        self.fid += 1
        nf = Frame(f, f.tu, this, self.fid, f.cls, 1)
        for p, a in zip(f.params, args):
            st.env[(nf.id, p['id'])] = a
        self.pending = []
        outs = []
        ok = True
        if f.kind == 'CXXConstructorDecl':
            ok, _, pend = self.evs(lambda: self.run_inits(f, f.cls, this, nf, st), st)
            outs += pend
        if ok:
            outs += self.run(f.body, nf, st)
        return [Out('return', o.st, o.val) if o.kind == 'normal' else o for o in outs]

