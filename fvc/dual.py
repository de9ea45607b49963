"""Executable contracts: the same specification text is evaluated symbolically (by the verifier) and on
concrete IEEE doubles (when a counterexample is replayed against the compiled code)."""
import math
from fractions import Fraction
from . import sym as Y
from .sym import FV
import z3

EX = None      # current executor (for math functions)
ST = None


class Sc:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __add__(s, o): return Sc(Y.fadd(s.f, lf(o)))
    def __radd__(s, o): return Sc(Y.fadd(lf(o), s.f))
    def __sub__(s, o): return Sc(Y.fsub(s.f, lf(o)))
    def __rsub__(s, o): return Sc(Y.fsub(lf(o), s.f))
    def __mul__(s, o): return Sc(Y.fmul(s.f, lf(o)))
    def __rmul__(s, o): return Sc(Y.fmul(lf(o), s.f))
    def __neg__(s): return Sc(Y.fneg(s.f))
    def __truediv__(s, o): return Sc(Y.fdiv(s.f, lf(o), dec))
    def __rtruediv__(s, o): return Sc(Y.fdiv(lf(o), s.f, dec))


def dec(c):
    if EX is None or ST is None:
        return None
    return EX.decide(c, ST)


def lf(x):
    if isinstance(x, Sc):
        return x.f
    if isinstance(x, FV):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return Y.NANV
        if math.isinf(x):
            return Y.INFV if x > 0 else Y.NINFV
        return FV(0, Fraction(x))
    return FV(0, Fraction(x))


def issym(*a):
    return any(isinstance(x, Sc) for x in a)


inf = float('inf')
nan = float('nan')


def div(a, b):
    if issym(a, b):
        return Sc(Y.fdiv(lf(a), lf(b), dec))
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or math.isnan(a):
            return nan
        return math.copysign(inf, a) * math.copysign(1, b)
    return a / b


def lt(a, b): return Y.flt(lf(a), lf(b)) if issym(a, b) else a < b
def gt(a, b): return lt(b, a)
def le(a, b): return Y.fle(lf(a), lf(b)) if issym(a, b) else a <= b
def ge(a, b): return le(b, a)
def eq(a, b): return Y.feq(lf(a), lf(b)) if issym(a, b) else a == b
def isnan(a): return Y.isnan(a.f) if issym(a) else math.isnan(a)
def isinf(a): return Y.isinf(a.f) if issym(a) else math.isinf(a)
def isfin(a): return Y.isfin(a.f) if issym(a) else math.isfinite(a)


and_, or_, not_ = Y.And, Y.Or, Y.Not


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return Sc(Y.fite(c, lf(a), lf(b)))


def abs_(a): return Sc(Y.fabs(a.f)) if issym(a) else abs(a)
def fmin(a, b): return ite(lt(a, b), a, b)
def fmax(a, b): return ite(gt(a, b), a, b)


def _m1(name, conc):
    def g(a):
        if issym(a):
            from .stdlib import MATH1
            return Sc(MATH1[name](EX, ST, a.f))
        return conc(a)
    return g


def _exp(a):
    try:
        return math.exp(a)
    except OverflowError:
        return inf


def _log(a):
    if math.isnan(a) or a < 0:
        return nan
    return -inf if a == 0 else math.log(a)


exp = _m1('exp', _exp)
log = _m1('log', _log)
sqrt = _m1('sqrt', lambda a: nan if (math.isnan(a) or a < 0) else math.sqrt(a))
cos = _m1('cos', lambda a: nan if not math.isfinite(a) else math.cos(a))
atan = _m1('atan', math.atan)
floor = _m1('floor', lambda a: a if not math.isfinite(a) else float(math.floor(a)))


def pow_(a, b):
    if issym(a, b):
        from .stdlib import MATH2
        return Sc(MATH2['pow'](EX, ST, lf(a), lf(b)))
    try:
        r = math.pow(a, b)
    except OverflowError:
        return inf
    except ValueError:
        return inf if a == 0 else nan
    return r


def PI():
    if EX is not None:
        return 4.0 * atan(Sc(FV(0, Fraction(1))))
    return math.pi


# tolerant comparisons of the library, written from their documentation
def teq(a, b, eps):
    return or_(eq(a, b), lt(abs_(a - b), eps), and_(isnan(a), isnan(b)))


def tlt(a, b, eps): return and_(not_(teq(a, b, eps)), lt(a, b))
def tgt(a, b, eps): return and_(not_(teq(a, b, eps)), gt(a, b))
def tle(a, b, eps): return or_(teq(a, b, eps), lt(a, b))
def tge(a, b, eps): return or_(teq(a, b, eps), gt(a, b))


def same(a, b):
    """Specification equality (NaN equals NaN)."""
    if issym(a, b):
        return Y.fsame(lf(a), lf(b))
    return (math.isnan(a) and math.isnan(b)) or a == b


def mk(c, like):
    """A constant in the domain of `like`."""
    return Sc(lf(c)) if issym(like) else c


def lf_(c, like):
    return mk(c, like)
