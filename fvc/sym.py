"""Symbolic values: booleans, integers, extended reals (the model of C++ scalars), strings, records, vectors."""
from fractions import Fraction
import z3

FIN, NAN, PINF, NINF = 0, 1, 2, 3
S = z3.DeclareSort('Str')
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The executor met a construct it has no rule for (never a verdict on the code)."""


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh(sort, p='v'):
    return z3.Const(fresh_name(p), sort)


# ----------------------------------------------------------------- booleans
def isb(x):
    return isinstance(x, bool)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isb(a):
        return b if a else Not(b)
    if isb(b):
        return a if b else Not(a)
    return a == b


def same(a, b):
    """Syntactic identity."""
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return type(a) == type(b) and a == b


def lift(x, sort=None):
    if z3.is_expr(x):
        if sort is not None and sort == R and x.sort() == I:
            return z3.ToReal(x)
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Fraction) or sort == R:
        return z3.RealVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return strlit(x)
    if isinstance(x, SV):
        return x.z()
    raise Unsupported('lift %r' % (x,))


def Ite(c, a, b, sort=None):
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else Not(c)
    if isinstance(a, bool):
        return Or(c, b) if a else And(Not(c), b)
    if isinstance(b, bool):
        return Or(Not(c), a) if b else And(c, a)
    if z3.is_expr(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and same(a.arg(0), c):
        a = a.arg(1)
    if z3.is_expr(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and same(b.arg(0), c):
        b = b.arg(2)
    A, Bb = lift(a, sort), lift(b, sort)
    if A.eq(Bb):
        return a
    return z3.If(c, A, Bb)


def eqv(a, b):
    """Equality of scalars of the same basic sort (python constants or z3)."""
    if same(a, b):
        return True
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    if z3.is_expr(a) and not z3.is_expr(b):
        return a == lift(b, a.sort())
    if z3.is_expr(b) and not z3.is_expr(a):
        return lift(a, b.sort()) == b
    return a == b


# ----------------------------------------------------------------- arithmetic with folding
def num(x):
    return not z3.is_expr(x)


def add(a, b):
    if num(a) and num(b):
        return a + b
    if num(a) and a == 0:
        return b
    if num(b) and b == 0:
        return a
    return _z(a, b) + _z(b, a)


def sub(a, b):
    if num(a) and num(b):
        return a - b
    if num(b) and b == 0:
        return a
    if same(a, b):
        return 0 if a.sort() == I else Fraction(0)
    return _z(a, b) - _z(b, a)


def mul(a, b):
    if num(a) and num(b):
        return a * b
    if num(a):
        if a == 0:
            return a
        if a == 1:
            return b
    if num(b):
        if b == 0:
            return b
        if b == 1:
            return a
    return _z(a, b) * _z(b, a)


def neg(a):
    if num(a):
        return -a
    return -a


def _z(a, other):
    if z3.is_expr(a):
        return a
    if isinstance(a, Fraction):
        return z3.RealVal(a)
    if z3.is_expr(other) and other.sort() == R:
        return z3.RealVal(a)
    return z3.IntVal(a)


def lt(a, b):
    if num(a) and num(b):
        return a < b
    if same(a, b):
        return False
    return _z(a, b) < _z(b, a)


def le(a, b):
    if num(a) and num(b):
        return a <= b
    if same(a, b):
        return True
    return _z(a, b) <= _z(b, a)


# ----------------------------------------------------------------- extended reals
class FV:
    __slots__ = ('k', 'v')

    def __init__(self, k, v=Fraction(0)):
        self.k = k
        self.v = v

    def __repr__(self):
        return 'FV(%s,%s)' % (self.k, self.v)


def fconst(x):
    if isinstance(x, (int, Fraction)):
        return FV(0, Fraction(x))
    s = str(x)
    return FV(0, Fraction(s))


NANV = FV(NAN)
INFV = FV(PINF)
NINFV = FV(NINF)


def kis(a, k):
    return eqv(a.k, k)


def isnan(a):
    return kis(a, NAN)


def isinf(a):
    if num(a.k):
        return a.k in (2, 3)
    return a.k >= 2


def isfin(a):
    return kis(a, FIN)


def fneg(a):
    if num(a.k):
        k = {0: 0, 1: 1, 2: 3, 3: 2}[a.k]
    else:
        k = Ite(a.k == 2, 3, Ite(a.k == 3, 2, a.k))
    return FV(k, neg(a.v))


def signneg(a):
    """x < 0 (including -inf)."""
    return Or(kis(a, NINF), And(kis(a, FIN), lt(a.v, Fraction(0))))


def iszero(a):
    return And(kis(a, FIN), eqv(a.v, Fraction(0)))


def fadd(a, b):
    if num(a.k) and num(b.k):
        if a.k == 0 and b.k == 0:
            return FV(0, add(a.v, b.v))
        if a.k == 1 or b.k == 1:
            return NANV
        if a.k == 0:
            return FV(b.k)
        if b.k == 0:
            return FV(a.k)
        return FV(a.k) if a.k == b.k else NANV
    nan = Or(isnan(a), isnan(b), And(isinf(a), isinf(b), Not(eqv(a.k, b.k))))
    k = Ite(nan, 1, Ite(isinf(a), a.k, Ite(isinf(b), b.k, 0)))
    return FV(k, add(a.v, b.v))


def fsub(a, b):
    if num(a.k) and num(b.k) and a.k == 0 and b.k == 0:
        return FV(0, sub(a.v, b.v))
    return fadd(a, fneg(b))


def fmul(a, b):
    if num(a.k) and num(b.k):
        if a.k == 0 and b.k == 0:
            return FV(0, mul(a.v, b.v))
        if a.k == 1 or b.k == 1:
            return NANV
    nan = Or(isnan(a), isnan(b), And(isinf(a), iszero(b)), And(iszero(a), isinf(b)))
    anyinf = Or(isinf(a), isinf(b))
    sa, sb = signneg(a), signneg(b)
    sgn = Ite(Iff(sa, sb), 2, 3)
    k = Ite(nan, 1, Ite(anyinf, sgn, 0))
    return FV(k, mul(a.v, b.v))


def rdiv(a, b):
    if num(a) and num(b):
        return Fraction(a) / Fraction(b) if b != 0 else Fraction(0)
    if num(b) and b == 1:
        return a
    if num(b) and b != 0:
        return mul(a, 1 / Fraction(b))
    return lift(a, R) / lift(b, R)


def fdiv(a, b, nonzero=None):
    """nonzero(cond) may decide syntactically open zero tests (see Exec.decide)."""
    bz = iszero(b)
    if not isb(bz) and nonzero is not None:
        d = nonzero(bz)
        if d is not None:
            bz = d
    if num(a.k) and num(b.k) and a.k == 0 and b.k == 0 and bz is False:
        return FV(0, rdiv(a.v, b.v))
    az = iszero(a)
    nan = Or(isnan(a), isnan(b), And(isinf(a), isinf(b)), And(az, bz))
    inf = Or(isinf(a), And(bz, Not(az), isfin(a)))
    sgn = Ite(Iff(signneg(a), signneg(b)), 2, 3)   # x/0 takes the sign of x (signed zero not modelled)
    k = Ite(nan, 1, Ite(inf, sgn, 0))
    v = Ite(isinf(b), Fraction(0), rdiv(a.v, b.v), R)
    return FV(k, v)


def flt(a, b):
    if num(a.k) and num(b.k):
        if a.k == 0 and b.k == 0:
            return lt(a.v, b.v)
        if a.k == 1 or b.k == 1:
            return False
        rank = {3: 0, 0: 1, 2: 2}
        return rank[a.k] < rank[b.k]
    return And(Not(isnan(a)), Not(isnan(b)),
               Or(And(kis(a, NINF), Not(kis(b, NINF))), And(kis(b, PINF), Not(kis(a, PINF))),
                  And(isfin(a), isfin(b), lt(a.v, b.v))))


def feq(a, b):
    if num(a.k) and num(b.k):
        if a.k == 1 or b.k == 1:
            return False
        if a.k != b.k:
            return False
        return eqv(a.v, b.v) if a.k == 0 else True
    return And(Not(isnan(a)), eqv(a.k, b.k), Or(Not(isfin(a)), eqv(a.v, b.v)))


def fle(a, b):
    return Or(flt(a, b), feq(a, b))


def fsame(a, b):
    """Same value, with NaN equal to NaN (specification equality)."""
    if num(a.k) and num(b.k):
        if a.k != b.k:
            return False
        return eqv(a.v, b.v) if a.k == 0 else True
    return And(eqv(a.k, b.k), Or(Not(isfin(a)), eqv(a.v, b.v)))


def fite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    k = Ite(c, a.k, b.k)
    # ignore the irrelevant value component of constants that are not finite
    if num(a.k) and a.k != 0:
        return FV(k, b.v)
    if num(b.k) and b.k != 0:
        return FV(k, a.v)
    return FV(k, Ite(c, a.v, b.v, R))


def fabs(a):
    neg_ = signneg(a)
    return fite(neg_, fneg(a), a)


def fmin(a, b):
    return fite(flt(a, b), a, b)


def from_int(i):
    if num(i):
        return FV(0, Fraction(i))
    return FV(0, z3.ToReal(i))


# ----------------------------------------------------------------- strings
_lits = {}
_litid = {}


def strlit(s):
    if s not in _lits:
        _lits[s] = z3.Const('str"%s"' % s, S)
        _litid[_lits[s].get_id()] = s
    return _lits[s]


def literals():
    return dict(_lits)


strcat = z3.Function('strcat', S, S, S)
cats = {}       # the concatenations built so far


class SV:
    """String value: a rope of python literals and opaque z3 strings."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if not isinstance(p, str):
                p = _litid.get(p.get_id(), p)
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def z(self):
        if not self.parts:
            return strlit('')
        zs = [strlit(p) if isinstance(p, str) else p for p in self.parts]
        r = zs[0]
        for q in zs[1:]:
            r = strcat(r, q)
            cats[r.get_id()] = r
        return r

    def __add__(self, o):
        return SV(self.parts + o.parts)

    def __repr__(self):
        return 'SV%r' % (self.parts,)


_catf = {}


def cat_facts():
    """A concatenation is empty exactly when both parts are."""
    if len(_catf) == len(cats):
        return list(_catf.values())
    e = strlit('')
    lits = {v.get_id() for k, v in _lits.items() if k}
    for i, r in cats.items():
        if i not in _catf:
            _catf[i] = r != e if r.arg(0).get_id() in lits or r.arg(1).get_id() in lits else (r == e) == z3.And(r.arg(0) == e, r.arg(1) == e)
    return list(_catf.values())


def sconst(s):
    return SV((s,))


def seq(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return ca == cb
    # strip common prefix / suffix
    pa, pb = list(a.parts), list(b.parts)
    while pa and pb and same(pa[0], pb[0]):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and same(pa[-1], pb[-1]):
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return True
    # texts that begin or end differently, or of which one lacks a letter of the other, differ
    if pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str) and x[:min(len(x), len(y))] != y[:min(len(x), len(y))]:
            return False
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str) and x[-min(len(x), len(y)):] != y[-min(len(x), len(y)):]:
            return False
    for p, q in ((pa, pb), (pb, pa)):
        if all(isinstance(z, str) for z in p) and sum(len(z) for z in q if isinstance(z, str)) > sum(len(z) for z in p):
            return False
    za, zb_ = SV(pa).z(), SV(pb).z()
    if za.eq(zb_):
        return True
    return za == zb_
