"""Models of the C++ standard library used by the verified code (the trusted contracts on dependencies)."""
from fractions import Fraction
import math
import z3
from . import front
from .sym import *
from .exec import (Out, Dead, LV, LVLocal, LVField, LVIndex, LVHeap, LVMap, AddrOf, RecV, VecV, IterV, StreamV, OpaqueV,
                   FuncV, MapV, MapIt, Frame, tkind, targs, strip_cv, State)

# ---------------------------------------------------------------- math
_fn = {}


def uf(name, *sorts):
    if name not in _fn:
        _fn[name] = z3.Function(name, *sorts)
    return _fn[name]


def app1(ex, name, x):
    """Real -> Real function applied to a finite real with ground facts."""
    f = uf('m_' + name, R, R)
    X = lift(x, R)
    t = f(X)
    lst = ex.apps.setdefault(name, [])
    for (y, u) in lst:
        if y.eq(X):
            return u
    if name == 'exp':
        ex.ax(('exp', X.get_id(), 0), t > 0)
        ex.ax(('exp', X.get_id(), 1), z3.And(z3.Implies(X > 0, t > 1), z3.Implies(X < 0, t < 1), z3.Implies(X == 0, t == 1)))
        for (y, u) in lst[:12]:
            ex.ax(('exp2', X.get_id(), y.get_id()), z3.And(z3.Implies(X < y, t < u), z3.Implies(X > y, t > u),
                                                           z3.Implies(X == y, t == u)))
        for (y, u) in ex.apps.get('log', [])[:8]:
            ex.ax(('explog', X.get_id(), y.get_id()), z3.Implies(z3.And(X == u, y > 0), t == y))
    elif name == 'log':
        for (y, u) in ex.apps.get('exp', [])[:8]:
            ex.ax(('explog', y.get_id(), X.get_id()), z3.Implies(z3.And(y == t, X > 0), u == X))
        ex.ax(('log', X.get_id(), 1), z3.And(z3.Implies(X > 1, t > 0), z3.Implies(z3.And(X > 0, X < 1), t < 0), z3.Implies(X == 1, t == 0)))
        for (y, u) in lst[:12]:
            ex.ax(('log2', X.get_id(), y.get_id()), z3.And(z3.Implies(z3.And(X > 0, X < y), t < u),
                                                           z3.Implies(z3.And(y > 0, X > y), t > u), z3.Implies(X == y, t == u)))
    elif name == 'sqrt':
        ex.ax(('sqrt', X.get_id()), z3.And(t >= 0, z3.Implies(X >= 0, t * t == X)))
    elif name == 'cos' or name == 'sin':
        ex.ax((name, X.get_id()), z3.And(t >= -1, t <= 1))
    elif name == 'atan':
        pass
    lst.append((X, t))
    return t


def m_exp(ex, st, a):
    fin = app1(ex, 'exp', a.v) if not (num(a.k) and a.k != 0) else Fraction(0)
    if num(a.k) and a.k == 0 and num(a.v) and a.v == 0:
        return fconst(1)
    k = Ite(kis(a, NAN), 1, Ite(kis(a, PINF), 2, 0))
    v = Ite(kis(a, NINF), Fraction(0), fin, R)
    return FV(k, v)


def m_log(ex, st, a):
    if num(a.k) and a.k == 0 and num(a.v) and a.v == 1:
        return fconst(0)
    fin = app1(ex, 'log', a.v) if not (num(a.k) and a.k != 0) else Fraction(0)
    neg_ = And(isfin(a), lt(a.v, Fraction(0)))
    zero = iszero(a)
    d = ex.decide(And(isfin(a), le(a.v, Fraction(0))), st)
    if d is False:
        neg_ = zero = False
    k = Ite(Or(isnan(a), neg_, kis(a, NINF)), 1, Ite(zero, 3, Ite(kis(a, PINF), 2, 0)))
    return FV(k, fin)


def m_sqrt(ex, st, a):
    if num(a.k) and a.k == 0 and num(a.v) and a.v in (0, 1):
        return a
    fin = app1(ex, 'sqrt', a.v) if not (num(a.k) and a.k != 0) else Fraction(0)
    neg_ = And(isfin(a), lt(a.v, Fraction(0)))
    d = ex.decide(neg_, st)
    if d is not None:
        neg_ = d
    k = Ite(Or(isnan(a), neg_, kis(a, NINF)), 1, Ite(kis(a, PINF), 2, 0))
    return FV(k, fin)


def m_trig(name):
    def g(ex, st, a):
        fin = app1(ex, name, a.v) if not (num(a.k) and a.k != 0) else Fraction(0)
        return FV(Ite(isfin(a), 0, 1), fin)
    return g


def m_atan(ex, st, a):
    fin = app1(ex, 'atan', a.v)
    return FV(Ite(isnan(a), 1, 0), fin)


def m_generic(name):
    """A function about which nothing but determinism is assumed."""
    def g(ex, st, *as_):
        ks = [I, R] * len(as_)
        fk = uf('mk_' + name, *(ks + [I]))
        fv = uf('mv_' + name, *(ks + [R]))
        args = []
        for a in as_:
            args += [lift(a.k, I), lift(Ite(isfin(a), a.v, Fraction(0), R), R)]
        k = fk(*args)
        ex.ax(('gk', k.get_id()), z3.And(k >= 0, k <= 3))
        return FV(k, fv(*args))
    return g


def m_pow(ex, st, a, b):
    # integer literal exponents are expanded
    if num(b.k) and b.k == 0 and num(b.v) and b.v.denominator == 1 and 0 <= b.v <= 4:
        n = int(b.v)
        if n == 0:
            return fconst(1)
        r = a
        for _ in range(n - 1):
            r = fmul(r, a)
        return r
    if num(b.k) and b.k == 0 and num(b.v) and b.v == Fraction(1, 2):
        return m_sqrt(ex, st, a)
    if num(a.k) and a.k == 0 and num(a.v) and num(b.k) and b.k == 0 and num(b.v) and b.v.denominator == 1 and b.v < 0 and a.v != 0:
        return FV(0, a.v ** int(b.v))
    f = uf('m_pow', R, R, R)
    X, Y = lift(a.v, R), lift(b.v, R)
    t = f(X, Y)
    ex.ax(('pow', t.get_id()), z3.And(z3.Implies(X > 0, t > 0), z3.Implies(z3.And(X == 0, Y > 0), t == 0),
                                      z3.Implies(Y == 0, t == 1), z3.Implies(X == 1, t == 1), z3.Implies(Y == 1, t == X),
                                      z3.Implies(z3.And(X > 0, X <= 1, Y > 0), t <= 1),
                                      z3.Implies(z3.And(X >= 1, Y > 0), t >= 1),
                                      z3.Implies(z3.And(X > 0, X <= 1, Y < 0), t >= 1),
                                      z3.Implies(z3.And(X >= 1, Y < 0), t <= 1)))
    ex.apps.setdefault('pow', []).append(((X, Y), t))
    fin = And(isfin(a), isfin(b))
    if fin is True:
        dom = ex.decide(Or(lt(Fraction(0), a.v), And(eqv(a.v, Fraction(0)), le(Fraction(0), b.v))), st)
        if dom is True:
            return FV(0, t)
        # x<0 with fractional exponent: NaN; 0 with negative exponent: +inf (or signed: not modelled)
        bint = uf('is_integer', R, B)(Y)
        k = Ite(And(lt(a.v, Fraction(0)), Not(bint)), 1, Ite(And(eqv(a.v, Fraction(0)), lt(b.v, Fraction(0))), 2, 0))
        return FV(k, t)
    # infinite arguments (IEEE 754 pow)
    one = And(isfin(a), eqv(a.v, Fraction(1)))
    bz = iszero(b)
    absgt1 = Or(isinf(a), And(isfin(a), Or(lt(Fraction(1), a.v), lt(a.v, Fraction(-1)))))
    absone = And(isfin(a), Or(eqv(a.v, Fraction(1)), eqv(a.v, Fraction(-1))))
    # cases
    nanc = And(Or(isnan(a), isnan(b)), Not(one), Not(bz))
    bpinf, bninf = kis(b, PINF), kis(b, NINF)
    inf_ = Or(And(bpinf, absgt1), And(bninf, Not(absgt1), Not(absone)), And(kis(a, PINF), isfin(b), lt(Fraction(0), b.v)))
    zero_ = Or(And(bninf, absgt1), And(bpinf, Not(absgt1), Not(absone)), And(kis(a, PINF), isfin(b), lt(b.v, Fraction(0))))
    one_ = Or(one, bz, And(Or(bpinf, bninf), absone))
    other = m_generic('pow')(ex, st, a, b)
    dom = And(isfin(a), isfin(b), lt(Fraction(0), a.v))
    k = Ite(one_, 0, Ite(nanc, 1, Ite(inf_, 2, Ite(zero_, 0, Ite(dom, 0, other.k)))))
    v = Ite(one_, Fraction(1), Ite(zero_, Fraction(0), Ite(dom, t, other.v, R), R), R)
    return FV(k, v)


def m_floor(ex, st, a):
    if num(a.v):
        return FV(a.k, Fraction(math.floor(a.v)))
    return FV(a.k, z3.ToReal(z3.ToInt(a.v)))


def m_ceil(ex, st, a):
    if num(a.v):
        return FV(a.k, Fraction(math.ceil(a.v)))
    return FV(a.k, -z3.ToReal(z3.ToInt(-a.v)))


def m_round(ex, st, a):
    if num(a.v):
        v = math.floor(abs(a.v) + Fraction(1, 2))
        return FV(a.k, Fraction(v if a.v >= 0 else -v))
    h = z3.RealVal('1/2')
    v = z3.If(a.v >= 0, z3.ToReal(z3.ToInt(a.v + h)), -z3.ToReal(z3.ToInt(-a.v + h)))
    return FV(a.k, v)


MATH1 = {'exp': m_exp, 'log': m_log, 'sqrt': m_sqrt, 'cos': m_trig('cos'), 'sin': m_trig('sin'), 'atan': m_atan,
         'floor': m_floor, 'ceil': m_ceil, 'round': m_round, 'fabs': lambda ex, st, a: fabs(a)}
for _n in ('tan', 'acos', 'asin', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'log10', 'log1p', 'expm1', 'log2', 'exp2', 'cbrt'):
    MATH1[_n] = m_generic(_n)
MATH2 = {'pow': m_pow, 'fmod': m_generic('fmod'), 'atan2': m_generic('atan2'), 'hypot': m_generic('hypot')}


# ---------------------------------------------------------------- free functions
def call(ex, name, args, n, fr, st, d):
    def val(i):
        return ex.rv(ex.ev(args[i], fr, st), st)
    if name in ('abs', 'fabs'):
        v = val(0)
        if isinstance(v, FV):
            return fabs(v)
        return Ite(lt(v, 0), neg(v), v)
    if name in ('isnan', '__builtin_isnan'):
        return isnan(asf(val(0)))
    if name in ('isinf', '__builtin_isinf', '__builtin_isinf_sign'):
        return isinf(asf(val(0)))
    if name in ('isfinite', '__builtin_isfinite'):
        return isfin(asf(val(0)))
    if name in ('signbit',):
        return signneg(asf(val(0)))
    if name in MATH1:
        return MATH1[name](ex, st, asf(val(0)))
    if name in MATH2:
        return MATH2[name](ex, st, asf(val(0)), asf(val(1)))
    if name in ('min', 'max') and len(args) == 2:
        a, b = val(0), val(1)
        if isinstance(a, FV):
            return fite(flt(b, a), b, a) if name == 'min' else fite(flt(a, b), b, a)
        return Ite(lt(b, a), b, a) if name == 'min' else Ite(lt(a, b), b, a)
    if name == 'fmin' or name == 'fmax':
        a, b = asf(val(0)), asf(val(1))
        pick = flt(a, b) if name == 'fmin' else flt(b, a)
        return fite(isnan(a), b, fite(isnan(b), a, fite(pick, a, b)))
    if name in ('infinity', 'quiet_NaN', 'epsilon', 'min', 'max', 'lowest', 'signaling_NaN') and not args:
        t = ex.type_of(n)
        if name == 'infinity':
            return INFV
        if name in ('quiet_NaN', 'signaling_NaN'):
            return NANV
        return ex.symbolic(t, 'limit_' + name)
    if name in ('move', 'forward'):
        x = ex.ev(args[0], fr, st)
        return x
    if name == 'swap':
        a, b = ex.ev(args[0], fr, st), ex.ev(args[1], fr, st)
        x, y = ex.rv(a, st), ex.rv(b, st)
        ex.write(a, y, st)
        ex.write(b, x, st)
        return None
    if name in ('make_pair',):
        t = ex.type_of(n)
        return RecV('pair', {('pair', 'first'): val(0), ('pair', 'second'): val(1)})
    if name in ('getline',):
        return getline(ex, args, n, fr, st)
    if name in ('begin', 'end'):
        lv = ex.ev(args[0], fr, st)
        if name == 'begin':
            return IterV(lv, 0)
        return IterV(lv, ex.rv(lv, st).n)
    if name in ('setprecision', 'setw', 'setfill', 'setiosflags', 'resetiosflags'):
        return OpaqueV('manip')
    if name == 'distance':
        return ex.iterop('-', val(1), val(0))
    if name == 'advance':
        lv = ex.ev(args[0], fr, st)
        it = ex.rv(lv, st)
        ex.write(lv, ex.it_add(it, val(1)), st)
        return None
    if name in ('next', 'prev'):
        dlt = val(1) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else 1
        return ex.it_add(val(0), dlt if name == 'next' else neg(dlt))
    h = ex.hooks.get('std:' + name)
    if h:
        return h(ex, args, n, fr, st)
    if name in ('lower_bound', 'upper_bound'):
        return bound(ex, name, args, fr, st)
    raise Unsupported('std function %s' % name)


def pure(ex, fn, lvs, fr, st):
    """Value of a call that has no effect."""
    s2, old = st.copy(), ex.pending
    ex.pending = []
    try:
        r = ex.rv(ex.call(fn, None, lvs, s2, fr), s2)
        if ex.pending:
            raise Unsupported('comparison that may fail')
    finally:
        ex.pending = old
    return r


def bound(ex, name, args, fr, st):
    """std::lower_bound and std::upper_bound: the partition point of the range (contract of the standard library)."""
    b, e = [ex.rv(ex.ev(x, fr, st), st) for x in args[:2]]
    vl = ex.ev(args[2], fr, st)
    cmp = ex.rv(ex.ev(args[3], fr, st), st) if len(args) > 3 else None
    if not (isinstance(b, IterV) and isinstance(e, IterV)) or b.rev or not (cmp is None or isinstance(cmp, FuncV)):
        raise Unsupported('%s on this range' % name)
    et = ex.rv(b.lv, st).et
    if not isinstance(vl, LV):
        vl = ex.temp(vl, et, fr, st)

    def before(j):
        el = LVIndex(b.lv, j, et)
        x, y = (el, vl) if name == 'lower_bound' else (vl, el)
        if cmp is not None:
            r = ex.tobool(pure(ex, cmp.fn, [x, y], fr, st))
        else:
            x, y = ex.rv(x, st), ex.rv(y, st)
            r = flt(x, y) if isinstance(x, FV) else lt(x, y)
        return r if name == 'lower_bound' else Not(r)
    p = fresh(I, name)
    lo, hi = lift(b.i, I), lift(e.i, I)
    ex.keep = getattr(ex, 'keep', []) + [p]
    facts = [lo <= p, p <= hi]

    def at(q):
        q = lift(q, I)
        return z3.Implies(z3.And(lo <= q, q < hi), zb(Iff(before(q), q < p)))
    for q in [p - 1, p, p + 1] + list(getattr(ex, 'bound_points', [])):
        facts.append(at(q))
    for f in facts:
        st.assume(f)
    return IterV(b.lv, p)


def asf(v):
    return v if isinstance(v, FV) else from_int(v)


def getline(ex, args, n, fr, st):
    h = ex.hooks.get('std:getline')
    if h:
        return h(ex, args, n, fr, st)
    raise Unsupported('getline')


# ---------------------------------------------------------------- construction of library types
def construct(ex, t, n, args, fr, st):
    k, a = tkind(t)
    args = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
    if k == 'S':
        if not args:
            return SV(())
        vs = [ex.rv(ex.ev(x, fr, st), st) for x in args]
        if len(vs) == 1 and isinstance(vs[0], SV):
            return vs[0]
        if len(vs) == 1 and isinstance(vs[0], OpaqueV):
            return ex.symbolic('std::string', fresh_name('str'))
        if len(vs) == 2 and isinstance(vs[0], int) and isinstance(vs[1], int):
            return sconst(chr(vs[1]) * vs[0])
        h = ex.hooks.get('string_ctor')
        if h:
            return h(ex, vs, st)
        return SV((fresh(S, 'str'),))
    if k == 'U':
        if not args:
            return 0
        x = ex.ev(args[0], fr, st)
        if isinstance(x, LV):       # move construction
            v = ex.rv(x, st)
            if tkind(ex.type_of(args[0]))[0] == 'U':
                ex.write(x, 0, st)
            return v
        return x
    if k == 'V':
        if not args:
            return VecV(a, 0, {})
        vs = [ex.rv(ex.ev(x, fr, st), st) for x in args]
        if len(vs) == 1 and isinstance(vs[0], VecV):
            return vs[0]
        if isinstance(vs[0], IterV):
            return range_copy(ex, a, vs[0], vs[1], st)
        cnt = vs[0]
        fill = vs[1] if len(vs) > 1 else ex.zero(a)
        fill = ex.coerce(fill, a)
        lv = ex.to_leaves(a, fill)
        return VecV(a, cnt, {p: z3.K(I, lift(lv[p], s)) for p, s in ex.leaves(a)})
    if k == 'PAIR':
        if not args:
            return ex.uninit(t)
        vs = [ex.rv(ex.ev(x, fr, st), st) for x in args]
        if len(vs) == 1:
            return vs[0]
        return RecV('pair', {('pair', 'first'): ex.coerce(vs[0], a[0]), ('pair', 'second'): ex.coerce(vs[1], a[1])})
    if k in ('M', 'PQ', 'SET'):
        if not args:
            return ex.uninit(t)
        v = ex.rv(ex.ev(args[0], fr, st), st)
        if isinstance(v, (MapV, VecV)):
            return v
        return ex.uninit(t)
    if k == 'STREAM':
        if args:
            v = ex.rv(ex.ev(args[0], fr, st), st)
            if isinstance(v, SV):
                return StreamV(v, 'in', 0)
        return StreamV()
    if k in ('IT', 'RIT', 'MIT'):
        if args:
            return ex.rv(ex.ev(args[0], fr, st), st)
        return OpaqueV(t)
    if k == 'C' and len(args) == 1:
        return ex.rv(ex.ev(args[0], fr, st), st)
    if k == 'C':
        return OpaqueV(t)
    raise Unsupported('construct %s' % t)


def range_copy(ex, et, b, e, st):
    vec = ex.rv(b.lv, st)
    n = ex.iterop('-', e, b)
    if num(b.i) and b.i == 0 and not b.rev:
        return VecV(et, n, dict(vec.a))
    j = z3.Int('j!rc')
    arr = {}
    for p, s in ex.leaves(et):
        src = ex.varr(vec, p, s)
        ix = b.i + j if not b.rev else sub(b.i, 1) - j
        arr[p] = z3.Lambda([j], z3.Select(src, ix))
    return VecV(et, n, arr)


# ---------------------------------------------------------------- member functions of library types
def member(ex, name, base, bt, arrow, args, n, fr, st):
    lv = base
    if arrow:
        p = ex.rv(base, st)
        if isinstance(p, IterV):
            lv = LVIndex(p.lv, p.i, bt)
        else:
            k, a = tkind(bt)
            lv = ex.deref(p, a if k in ('P', 'U') else bt, st)
        bt = tkind(bt)[1] if tkind(bt)[0] in ('P', 'U', 'IT') else bt
    k, a = tkind(bt)
    if not isinstance(lv, LV) and isinstance(lv, (VecV, SV, MapV, StreamV, RecV)):
        lv = ex.temp(lv, bt, fr, st)
    if k == 'U':
        return m_uptr(ex, name, lv, a, args, n, fr, st)
    if k == 'V':
        return m_vec(ex, name, lv, a, args, n, fr, st, bt)
    if k == 'S':
        return m_str(ex, name, lv, args, n, fr, st)
    if k == 'PQ':
        return m_pq(ex, name, lv, a, args, n, fr, st)
    if k == 'SET':
        return m_set(ex, name, lv, a, args, n, fr, st)
    if k == 'M':
        return m_map(ex, name, lv, a, args, n, fr, st)
    if k == 'STREAM':
        return m_stream(ex, name, lv, args, n, fr, st)
    if k in ('IT', 'RIT') and name == 'base':
        it = ex.rv(lv, st)
        return IterV(it.lv, it.i, False)
    if name == 'what':
        return SV((fresh(S, 'what'),))
    if isinstance(lv, OpaqueV) or isinstance(ex.rv(lv, st) if isinstance(lv, LV) else lv, OpaqueV):
        return OpaqueV(name)
    raise Unsupported('member %s of %s' % (name, bt))


def m_uptr(ex, name, lv, a, args, n, fr, st):
    v = ex.rv(lv, st)
    if name == 'get':
        return v
    if name == 'operator->':
        return v
    if name == 'release':
        ex.write(lv, 0, st)
        return v
    if name == 'reset':
        nv = 0
        if args and args[0].get('kind') != 'CXXDefaultArgExpr':
            nv = ex.rv(ex.ev(args[0], fr, st), st)
        h = ex.hooks.get('delete')
        if h:
            h(ex, st, v)
        ex.write(lv, nv, st)
        return None
    if name == 'operator bool':
        return ex.tobool(v)
    if name == 'swap':
        o = ex.ev(args[0], fr, st)
        ov = ex.rv(o, st)
        ex.write(lv, ov, st)
        ex.write(o, v, st)
        return None
    raise Unsupported('unique_ptr::%s' % name)


def bounds(ex, st, i, n, what, kind='throw'):
    ok = And(le(0, i), lt(i, n))
    d = ex.decide(ok, st)
    if d is True:
        return
    if d is False:
        ex.pending.append(Out(kind, st.copy(), ('std::out_of_range', None) if kind == 'throw' else what))
        raise Dead()
    s2 = st.copy()
    s2.assume(Not(ok))
    ex.pending.append(Out(kind, s2, ('std::out_of_range', None) if kind == 'throw' else what))
    st.assume(ok)


def m_vec(ex, name, lv, et, args, n, fr, st, bt):
    vec = ex.rv(lv, st)

    def val(i):
        return ex.rv(ex.ev(args[i], fr, st), st)
    if name == 'size':
        return vec.n
    if name in ('empty',):
        return eqv(vec.n, 0)
    if name in ('at',):
        i = val(0)
        bounds(ex, st, i, vec.n, 'at')
        return LVIndex(lv, i, et)
    if name == 'front':
        if 'queue' in bt:
            pass
        bounds(ex, st, 0, vec.n, 'front of empty vector', 'ub')
        return LVIndex(lv, 0, et)
    if name in ('back', 'top'):
        bounds(ex, st, 0, vec.n, 'back of empty vector', 'ub')
        return LVIndex(lv, sub(vec.n, 1), et)
    if name in ('push_back', 'push', 'emplace_back'):
        x = val(0)
        ex.write(lv, ex.vpush(vec, ex.coerce(x, et)), st)
        return None
    if name in ('pop_back', 'pop'):
        bounds(ex, st, 0, vec.n, 'pop of empty vector', 'ub')
        if name == 'pop' and bt.startswith('std::queue'):
            raise Unsupported('queue::pop')
        ex.write(lv, VecV(vec.et, sub(vec.n, 1), vec.a), st)
        return None
    if name == 'clear':
        ex.write(lv, VecV(vec.et, 0, {}), st)
        return None
    if name in ('reserve', 'shrink_to_fit'):
        if args:
            val(0)
        return None
    if name == 'resize':
        m = val(0)
        fill = val(1) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else ex.zero(et)
        l = ex.to_leaves(et, ex.coerce(fill, et))
        j = z3.Int('j!rs')
        arr = {}
        for p, s in ex.leaves(et):
            src = ex.varr(vec, p, s)
            if num(vec.n) and vec.n == 0:
                arr[p] = z3.K(I, lift(l[p], s))
            else:
                arr[p] = z3.Lambda([j], z3.If(j < lift(vec.n, I), z3.Select(src, j), lift(l[p], s)))
        ex.write(lv, VecV(vec.et, m, arr), st)
        return None
    if name in ('begin', 'cbegin'):
        return IterV(lv, 0)
    if name in ('end', 'cend'):
        return IterV(lv, vec.n)
    if name in ('rbegin', 'crbegin'):
        return IterV(lv, vec.n, True)
    if name in ('rend', 'crend'):
        return IterV(lv, 0, True)
    if name == 'erase':
        it = val(0)
        if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr':
            raise Unsupported('vector::erase range')
        i = it.i
        bounds(ex, st, i, vec.n, 'erase out of range', 'ub')
        j = z3.Int('j!er')
        arr = {}
        for p, s in ex.leaves(et):
            src = ex.varr(vec, p, s)
            arr[p] = z3.Lambda([j], z3.If(j < lift(i, I), z3.Select(src, j), z3.Select(src, j + 1)))
        ex.write(lv, VecV(vec.et, sub(vec.n, 1), arr), st)
        return IterV(lv, i)
    if name == 'insert':
        it = val(0)
        if len(args) == 3 and eqv(it.i, vec.n) is True and not it.rev:
            a, b = val(1), val(2)
            if not (isinstance(a, IterV) and isinstance(b, IterV)) or a.rev or b.rev:
                raise Unsupported('vector::insert range')
            src = ex.rv(a.lv, st)
            bounds(ex, st, a.i, add(b.i, 1), 'insert of an invalid range', 'ub')
            cnt, j, arr = sub(b.i, a.i), z3.Int('j!ir'), {}
            for p, s in ex.leaves(et):
                x, o = ex.varr(src, p, s), ex.varr(vec, p, s)
                if num(vec.n) and vec.n == 0 and num(a.i) and a.i == 0:
                    arr[p] = x
                else:
                    arr[p] = z3.Lambda([j], z3.If(j < lift(vec.n, I), z3.Select(o, j), z3.Select(x, j - lift(vec.n, I) + lift(a.i, I))))
            ex.write(lv, VecV(vec.et, add(vec.n, cnt), arr), st)
            return IterV(lv, vec.n)
        if len(args) != 2:
            raise Unsupported('vector::insert range')
        x = val(1)
        l = ex.to_leaves(et, ex.coerce(x, et))
        i = it.i
        j = z3.Int('j!in')
        arr = {}
        if num(i) and num(vec.n) and i == vec.n or same(i, vec.n):
            ex.write(lv, ex.vpush(vec, ex.coerce(x, et)), st)
            return IterV(lv, i)
        for p, s in ex.leaves(et):
            src = ex.varr(vec, p, s)
            arr[p] = z3.Lambda([j], z3.If(j < lift(i, I), z3.Select(src, j),
                                          z3.If(j == lift(i, I), lift(l[p], s), z3.Select(src, j - 1))))
        ex.write(lv, VecV(vec.et, add(vec.n, 1), arr), st)
        return IterV(lv, i)
    if name == 'swap':
        o = ex.ev(args[0], fr, st)
        ov = ex.rv(o, st)
        ex.write(lv, ov, st)
        ex.write(o, vec, st)
        return None
    if name == 'assign':
        vs = [ex.rv(ex.ev(x, fr, st), st) for x in args]
        if len(vs) == 2 and isinstance(vs[0], IterV):
            ex.write(lv, range_copy(ex, et, vs[0], vs[1], st), st)
            return None
    raise Unsupported('vector::%s' % name)


# string functions that are deterministic functions of their arguments
def m_str(ex, name, lv, args, n, fr, st):
    if name == 'operator=':
        v = ex.rv(ex.ev(args[0], fr, st), st)
        if not isinstance(v, SV):
            raise Unsupported('string::operator= of %r' % (v,))
        ex.write(lv, v, st)
        return lv
    s = ex.rv(lv, st)
    if name == 'substr' and args:
        args = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
    vs = [ex.rv(ex.ev(x, fr, st), st) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
    h = ex.hooks.get('string')
    if h:
        r = h(ex, name, s, vs, st, n)
        if r is not NotImplemented:
            return r
    c = s.const()
    if name in ('size', 'length'):
        if c is not None:
            return len(c)
        f = uf('str_len', S, I)
        t = f(s.z())
        ex.ax(('len', t.get_id()), z3.And(t >= 0, (t == 0) == (s.z() == strlit(''))))
        return t
    if name == 'empty':
        if c is not None:
            return c == ''
        if any(isinstance(p, str) and p for p in s.parts):
            return False
        return seq(s, SV(()))
    if name in ('c_str', 'data'):
        return s
    if name in ('append', 'operator+='):
        ex.write(lv, s + vs[0], st)
        return lv
    if name == 'clear':
        ex.write(lv, SV(()), st)
        return None
    if name == 'compare' and len(vs) == 1:
        return Ite(seq(s, vs[0]), 0, 1)
    if name == 'push_back' and num(vs[0]):
        ex.write(lv, s + sconst(chr(vs[0])), st)
        return None
    if name in ('find', 'substr', 'rfind', 'find_first_of', 'find_last_of', 'at', 'find_first_not_of', 'find_last_not_of', 'front', 'back'):
        if c is not None and all((isinstance(v, SV) and v.const() is not None) or (not isinstance(v, SV) and num(v)) for v in vs):
            pv = [v.const() if isinstance(v, SV) else v for v in vs]
            if name == 'find':
                x = pv[0] if isinstance(pv[0], str) else chr(pv[0])
                r = c.find(x, *(pv[1:2]))
                return r if r >= 0 else z3.Int('npos')
            if name == 'substr':
                return sconst(c[pv[0]:pv[0] + pv[1]] if len(pv) > 1 else c[pv[0]:])
            if name == 'at' and pv[0] < len(c):
                return ord(c[pv[0]])
        sorts, zs = [S], [s.z()]
        for v in vs:
            if isinstance(v, SV):
                sorts.append(S)
                zs.append(v.z())
            else:
                sorts.append(I)
                zs.append(lift(v, I))
        rs = S if name == 'substr' else I
        f = uf('str_%s_%s' % (name, ''.join(str(q) for q in sorts)), *(sorts + [rs]))
        t = f(*zs)
        return SV((t,)) if rs == S else t
    if name in ('reserve', 'shrink_to_fit'):
        return None
    if name in ('begin', 'end', 'rbegin', 'rend'):
        raise Unsupported('string iterator')
    raise Unsupported('string::%s' % name)


def m_pq(ex, name, lv, a, args, n, fr, st):
    h = ex.hooks.get('pq')
    if h:
        return h(ex, name, lv, a, args, n, fr, st)
    raise Unsupported('priority_queue::%s' % name)


def m_set(ex, name, lv, et, args, n, fr, st):
    m = ex.rv(lv, st)
    size = m.a[('#',)]

    def val(i):
        return ex.rv(ex.ev(args[i], fr, st), st)
    if name in ('size', 'empty'):
        return size if name == 'size' else eqv(size, 0)
    if name in ('insert', 'emplace', 'erase', 'count'):
        if len(args) != 1:
            raise Unsupported('set::%s range' % name)
        k = val(0)
        if isinstance(k, MapIt):
            k = k.key
        zk = ex.mkey(m, ex.coerce(k, et))
        has = z3.Select(m.dom, lift(zk, m.dom.sort().domain()))
        if name == 'count':
            return Ite(has, 1, 0)
        on = name != 'erase'
        d = Ite(has, 0, 1) if on else Ite(has, -1, 0)
        ex.write(lv, MapV(m.kt, m.vt, z3.Store(m.dom, lift(zk, m.dom.sort().domain()), z3.BoolVal(on)), {('#',): add(size, d)}), st)
        return OpaqueV('insert')
    if name == 'clear':
        ex.write(lv, ex.uninit('std::set<%s>' % et), st)
        return None
    if name == 'find':
        k = val(0)
        return MapIt(lv, k, Not(z3.Select(m.dom, ex.mkey(m, k))))
    if name in ('end', 'cend'):
        return MapIt(lv, None, True)
    if name in ('begin', 'cbegin'):
        if not ex.is_enum(strip_cv(et)):
            raise Unsupported('set::begin of %s' % et)
        k = fresh(I, 'least')       # enumerators are not negative
        ex.ax(('setmin', k.get_id()), z3.Implies(lift(size, I) > 0, z3.And(z3.Select(m.dom, k), k >= 0)))
        for i in reversed(range(8)):
            k = Ite(z3.Select(m.dom, i), i, k)
        return MapIt(lv, k, eqv(size, 0))
    raise Unsupported('set::%s' % name)


def map_len(ex, m):
    t = uf('map_size', m.dom.sort(), I)(m.dom)
    ex.ax(('msize', t.get_id()), t >= 0)
    return t


def map_key(ex, m, i):
    """The i-th key in order: the keys of a map are enumerated exactly once each."""
    ks = m.dom.sort().domain()
    f, g = uf('map_key', m.dom.sort(), I, ks), uf('map_index', m.dom.sort(), ks, I)
    t = f(m.dom, lift(i, I))
    ex.ax(('mkey', t.get_id()), z3.Implies(z3.And(lift(i, I) >= 0, lift(i, I) < map_len(ex, m)), z3.And(z3.Select(m.dom, t), g(m.dom, t) == lift(i, I))))
    return SV((t,)) if ks == S else t


def map_index(ex, m, k):
    ks = m.dom.sort().domain()
    f, g = uf('map_key', m.dom.sort(), I, ks), uf('map_index', m.dom.sort(), ks, I)
    t = g(m.dom, k)
    ex.ax(('midx', t.get_id()), z3.Implies(z3.Select(m.dom, k), z3.And(t >= 0, t < map_len(ex, m), f(m.dom, t) == k)))
    return t


def m_map(ex, name, lv, a, args, n, fr, st):
    m = ex.rv(lv, st)

    def val(i):
        return ex.rv(ex.ev(args[i], fr, st), st)
    if name == 'find':
        k = val(0)
        return MapIt(lv, k, Not(z3.Select(m.dom, ex.mkey(m, k))))
    if name in ('end', 'cend'):
        return MapIt(lv, None, True)
    if name in ('begin', 'cbegin'):
        return IterV(lv, 0)
    if name == 'count':
        return Ite(z3.Select(m.dom, ex.mkey(m, val(0))), 1, 0)
    if name == 'at':
        k = val(0)
        zk = ex.mkey(m, k)
        c = z3.Select(m.dom, zk)
        d = ex.decide(c, st)
        if d is not True:
            s2 = st.copy()
            try:
                s2.assume(Not(c))
                ex.pending.append(Out('throw', s2, ('std::out_of_range', None)))
            except Dead:
                pass
            st.assume(c)
        return LVMap(lv, k, m.vt)
    if name == 'clear':
        ex.write(lv, ex.uninit('std::map<%s, %s>' % (m.kt, m.vt)), st)
        return None
    if name == 'erase':
        x = val(0)
        k = x.key if isinstance(x, MapIt) else x
        zk = ex.mkey(m, k)
        ex.write(lv, MapV(m.kt, m.vt, z3.Store(m.dom, zk, z3.BoolVal(False)), m.a), st)
        return None
    if name == 'empty':
        return m.dom == z3.K(m.dom.sort().domain(), z3.BoolVal(False))
    if name in ('size', 'empty'):
        return map_len(ex, m)
    raise Unsupported('map::%s' % name)


def m_stream(ex, name, lv, args, n, fr, st):
    s = ex.rv(lv, st) if isinstance(lv, LV) else lv
    if name == 'str':
        if not args:
            return s.buf if isinstance(s, StreamV) else SV((fresh(S, 'stream'),))
        v = ex.rv(ex.ev(args[0], fr, st), st)
        ex.write(lv, StreamV(v, s.kind, 0), st)
        return None
    if name in ('precision', 'setf', 'unsetf', 'flags', 'width', 'fill', 'flush'):
        return OpaqueV('fmt')
    if name in ('operator bool', 'operator!', 'good', 'eof', 'fail', 'is_open'):
        h = ex.hooks.get('stream_state')
        if h:
            return h(ex, name, lv, st)
        raise Unsupported('stream state')
    if name == 'operator<<':
        return stream_out(ex, lv, args[0], fr, st)
    if name in ('operator>>', 'get'):
        h = ex.hooks.get('stream_in' if name != 'get' else 'stream_get')
        if h and args:
            return h(ex, lv, args[0], fr, st)
    raise Unsupported('stream::%s' % name)


# ---------------------------------------------------------------- operators of library types
def operator(ex, name, args, n, fr, st, d):
    a0 = args[0]
    t0 = ex.type_of(a0)
    k, a = tkind(t0)
    if name == 'operator<<':
        return stream_out(ex, ex.ev(a0, fr, st), args[1], fr, st)
    if name == 'operator>>':
        h = ex.hooks.get('stream_in')
        if h:
            return h(ex, ex.ev(a0, fr, st), args[1], fr, st)
        raise Unsupported('stream extraction')
    if name in ('operator->', 'operator*') and k == 'U':
        p = ex.rv(ex.ev(a0, fr, st), st)
        if name == 'operator->':
            return p
        return ex.deref(p, a, st)
    if name in ('operator->', 'operator*') and k in ('IT', 'RIT'):
        it = ex.rv(ex.ev(a0, fr, st), st)
        i = it.i if not it.rev else sub(it.i, 1)
        vec = ex.rv(it.lv, st)
        bounds(ex, st, i, vec.n, 'iterator dereference', 'ub')
        lv = LVIndex(it.lv, i, vec.et)
        return lv if name == 'operator*' else AddrOf(lv)
    if name in ('operator->', 'operator*') and k == 'MIT':
        it = ex.rv(ex.ev(a0, fr, st), st)
        if isinstance(it, IterV):       # iteration in order of the keys
            m = ex.rv(it.lv, st)
            n_ = map_len(ex, m)
            bounds(ex, st, it.i, n_, 'end of map dereferenced', 'ub')
            it = MapIt(it.lv, map_key(ex, m, it.i), False)
            if m.vt == 'set':
                return it.key
            return it
        if isinstance(it, MapIt):
            if ex.rv(it.lv, st).vt != 'set':
                bounds(ex, st, Ite(it.end, 1, 0), 1, 'end of map dereferenced', 'ub')
            if ex.rv(it.lv, st).vt == 'set':
                bounds(ex, st, Ite(it.end, 1, 0), 1, 'end of set dereferenced', 'ub')
                return it.key
            return it if name == 'operator->' else it
    if name == 'operator=':
        if k == 'U':
            src = ex.ev(args[1], fr, st)
            v = ex.rv(src, st)
            dst = ex.ev(a0, fr, st)
            if isinstance(src, LV) and tkind(ex.type_of(args[1]))[0] == 'U':
                ex.write(src, 0, st)
            ex.write(dst, v, st)
            return dst
        v = ex.rv(ex.ev(args[1], fr, st), st)
        dst = ex.ev(a0, fr, st)
        if k == 'S' and not isinstance(v, SV):
            v = sconst(chr(v)) if num(v) else SV((fresh(S, 'chr'),))
        ex.write(dst, v, st)
        return dst
    if name == 'operator+=' and k == 'S':
        dst = ex.ev(a0, fr, st)
        v = ex.rv(ex.ev(args[1], fr, st), st)
        s = ex.rv(dst, st)
        if not isinstance(v, SV):
            v = sconst(chr(v)) if num(v) else SV((uf('chr_str', I, S)(v),))
        ex.write(dst, s + v, st)
        return dst
    if name == 'operator[]':
        if k == 'V':
            lv = ex.ev(a0, fr, st)
            if not isinstance(lv, LV):
                lv = ex.temp(lv, t0, fr, st)
            i = ex.rv(ex.ev(args[1], fr, st), st)
            vec = ex.rv(lv, st)
            bounds(ex, st, i, vec.n, 'index out of range', 'ub')
            return LVIndex(lv, i, a)
        if k == 'M':
            lv = ex.ev(a0, fr, st)
            key = ex.rv(ex.ev(args[1], fr, st), st)
            m = ex.rv(lv, st)
            zk = ex.mkey(m, key)
            c = z3.Select(m.dom, zk)
            dd = ex.decide(c, st)
            if dd is not True:
                dv = ex.to_leaves(m.vt, ex.zero(m.vt))
                if tkind(m.vt)[0] == 'C':
                    cc = ex.p.resolve_class(strip_cv(m.vt))
                    if cc:
                        dv = ex.to_leaves(m.vt, ex.construct_cls(ex.cls(cc), 'void ()', [], fr, st))
                m2 = MapV(m.kt, m.vt, z3.Store(m.dom, zk, z3.BoolVal(True)),
                          {p: z3.If(c, m.a[p], z3.Store(m.a[p], zk, lift(dv[p], m.a[p].sort().range()))) for p in m.a})
                ex.write(lv, m2, st)
            return LVMap(lv, key, m.vt)
        if k == 'S':
            s = ex.rv(ex.ev(a0, fr, st), st)
            i = ex.rv(ex.ev(args[1], fr, st), st)
            c = s.const()
            if c is not None and num(i) and i < len(c):
                return ord(c[i])
            h = ex.hooks.get('string')
            if h:
                r = h(ex, 'at', s, [i], st, n)
                if r is not NotImplemented:
                    return r
            return uf('str_at_%s' % ''.join(('Str', 'Int')), S, I, I)(s.z(), lift(i, I))
    x = ex.rv(ex.ev(a0, fr, st), st)
    if name in ('operator++', 'operator--'):
        lv = ex.ev(a0, fr, st)
        it = ex.rv(lv, st)
        if isinstance(it, MapIt):
            raise Unsupported('map iteration')
        nv = ex.it_add(it, 1 if name == 'operator++' else -1)
        ex.write(lv, nv, st)
        return it if len(args) > 1 else lv
    if name == 'operator!' and k == 'STREAM':
        return Not(m_stream(ex, 'operator bool', ex.ev(a0, fr, st), [], n, fr, st))
    if len(args) < 2:
        raise Unsupported('operator %s on %s' % (name, t0))
    y = ex.rv(ex.ev(args[1], fr, st), st)
    op = name[len('operator'):]
    if isinstance(x, SV) or isinstance(y, SV):
        if op == '+':
            X = x if isinstance(x, SV) else (sconst(chr(x)) if num(x) else SV((uf('chr_str', I, S)(x),)))
            Y = y if isinstance(y, SV) else (sconst(chr(y)) if num(y) else SV((uf('chr_str', I, S)(y),)))
            return X + Y
        if isinstance(x, SV) and isinstance(y, SV):
            if op == '==':
                return seq(x, y)
            if op == '!=':
                return Not(seq(x, y))
            if op in ('<', '>', '<=', '>='):
                f = uf('str_lt', S, S, B)
                a_, b_ = (x.z(), y.z()) if op in ('<', '>=') else (y.z(), x.z())
                r = f(a_, b_)
                return r if op in ('<', '>') else Not(r)
    if isinstance(x, IterV) and isinstance(y, MapIt) or isinstance(x, MapIt) and isinstance(y, IterV):
        it, e = (x, y) if isinstance(x, IterV) else (y, x)
        if e.key is not None:
            raise Unsupported('map iterator comparison')
        r = le(map_len(ex, ex.rv(it.lv, st)), it.i)
        return r if op == '==' else Not(r)
    if isinstance(x, MapIt) and isinstance(y, MapIt):
        e = x.end if y.key is None else y.end if x.key is None else None
        if e is None:
            raise Unsupported('map iterator comparison')
        return e if op == '==' else Not(e)
    if isinstance(x, IterV) or isinstance(y, IterV):
        if op == '+=' or op == '-=':
            lv = ex.ev(a0, fr, st)
            ex.write(lv, ex.it_add(x, y if op == '+=' else neg(y)), st)
            return lv
        if op == '[]':
            return LVIndex(x.lv, add(x.i, y), a)
        return ex.iterop(op, x, y)
    if k == 'U' or tkind(ex.type_of(args[1]))[0] == 'U':
        if op in ('==', '!='):
            r = eqv(x, y)
            return r if op == '==' else Not(r)
    if isinstance(x, VecV) and isinstance(y, VecV) and op in ('==', '!='):
        raise Unsupported('vector comparison')
    if op == '|' or op == '&':
        return OpaqueV('flags')
    raise Unsupported('operator %s on %s' % (name, t0))


def stream_out(ex, lv, arg, fr, st):
    s = ex.rv(lv, st) if isinstance(lv, LV) else lv
    if not isinstance(s, StreamV) or not isinstance(lv, LV):
        # std::cout / std::cerr: output is not part of any contract, arguments are pure
        return lv
    try:
        v = ex.rv(ex.ev(arg, fr, st), st)
    except Unsupported:
        # streamed text of an unmodelled expression: an opaque string
        v = SV((fresh(S, 'out'),))
    if isinstance(v, SV):
        p = v
    elif isinstance(v, FV):
        f = uf('num_str', I, R, S)
        p = SV((f(lift(v.k, I), lift(v.v, R)),))
    elif isinstance(v, OpaqueV):
        p = SV(()) if v.what in ('manip', 'fmt') else SV(('\n',)) if v.what == 'std::endl' else SV((fresh(S, 'out'),))
    elif num(v):
        t = ex.type_of(arg)
        p = sconst(chr(v)) if strip_cv(t) == 'char' else sconst(str(v))
    elif z3.is_expr(v) and v.sort() == I:
        t = ex.type_of(arg)
        p = SV((uf('chr_str' if strip_cv(t) == 'char' else 'int_str', I, S)(v),))
    else:
        p = SV((fresh(S, 'out'),))
    ex.write(lv, StreamV(s.buf + p, s.kind, s.x), st)
    return lv
