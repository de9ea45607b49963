"""Contracts of the linguistic terms (documented formulas), shared by the term properties."""
import math, random
from fractions import Fraction
import z3
from fvc import dual as D, exec as X
from fvc.sym import *

inf, nan = D.inf, D.nan

# class: (parameter fields in constructor order, allowed kinds per parameter, well-formedness of the parameters)
#   kinds: 'f' finite, '-' may be -inf, '+' may be +inf
TERMS = {
    'Triangle': (['_vertexA', '_vertexB', '_vertexC'], ['f-', 'f', 'f+'],
                 lambda p, e: D.and_(D.le(p[0], p[1]), D.le(p[1], p[2]))),
    'Trapezoid': (['_vertexA', '_vertexB', '_vertexC', '_vertexD'], ['f-', 'f', 'f', 'f+'],
                  lambda p, e: D.and_(D.le(p[0], p[1]), D.le(p[1], p[2]), D.le(p[2], p[3]))),
    'Rectangle': (['_start', '_end'], ['f-', 'f+'], lambda p, e: D.le(p[0], p[1])),
    'Ramp': (['_start', '_end'], ['f', 'f'], lambda p, e: True),
    'Bell': (['_center', '_width', '_slope'], ['f', 'f', 'f'],
             lambda p, e: D.and_(D.gt(p[1], 0.0), D.gt(p[2], 0.0))),
    'Binary': (['_start', '_direction'], ['f', 'f-+'], lambda p, e: True),
    'Concave': (['_inflection', '_end'], ['f', 'f'],
                lambda p, e: D.not_(D.eq(p[0], p[1]))),
    'Cosine': (['_center', '_width'], ['f', 'f'], lambda p, e: D.gt(p[1], 0.0)),
    'Gaussian': (['_mean', '_standardDeviation'], ['f', 'f'], lambda p, e: D.gt(p[1], 0.0)),
    'GaussianProduct': (['_meanA', '_standardDeviationA', '_meanB', '_standardDeviationB'], ['f'] * 4,
                        lambda p, e: D.and_(D.gt(p[1], 0.0), D.gt(p[3], 0.0))),
    'PiShape': (['_bottomLeft', '_topLeft', '_topRight', '_bottomRight'], ['f'] * 4,
                lambda p, e: D.and_(D.lt(p[0], p[1]), D.le(p[1], p[2]), D.lt(p[2], p[3]))),
    'SShape': (['_start', '_end'], ['f', 'f'], lambda p, e: D.lt(p[0], p[1])),
    'ZShape': (['_start', '_end'], ['f', 'f'], lambda p, e: D.lt(p[0], p[1])),
    'Sigmoid': (['_inflection', '_slope'], ['f', 'f'], lambda p, e: D.not_(D.eq(p[1], 0.0))),
    'SigmoidDifference': (['_left', '_rising', '_falling', '_right'], ['f'] * 4,
                lambda p, e: D.not_(D.or_(D.eq(p[1], 0.0), D.eq(p[2], 0.0)))),
    'SigmoidProduct': (['_left', '_rising', '_falling', '_right'], ['f'] * 4,
                lambda p, e: D.not_(D.or_(D.eq(p[1], 0.0), D.eq(p[2], 0.0)))),
    'Spike': (['_center', '_width'], ['f', 'f'], lambda p, e: D.not_(D.eq(p[1], 0.0))),
}


def sq(x):
    return x * x


def s_triangle(h, p, x, e):
    a, b, c = p
    up = D.ite(D.eq(a, -inf), h, D.div(h * (x - a), b - a))
    dn = D.ite(D.eq(c, inf), h, D.div(h * (c - x), c - b))
    return D.ite(D.or_(D.tlt(x, a, e), D.tgt(x, c, e)), h * 0.0, D.ite(D.teq(x, b, e), h, D.ite(D.tlt(x, b, e), up, dn)))


def s_trapezoid(h, p, x, e):
    a, b, c, d = p
    up = D.ite(D.eq(a, -inf), h, h * D.fmin(D.div(x - a, b - a), D.lf_(1.0, x)))
    dn = D.ite(D.eq(d, inf), h, D.div(h * (d - x), d - c))
    return D.ite(D.or_(D.tlt(x, a, e), D.tgt(x, d, e)), h * 0.0,
                 D.ite(D.tlt(x, b, e), up, D.ite(D.tle(x, c, e), h, D.ite(D.tlt(x, d, e), dn, D.ite(D.eq(d, inf), h, h * 0.0)))))


def s_rectangle(h, p, x, e):
    return D.ite(D.and_(D.tge(x, p[0], e), D.tle(x, p[1], e)), h, h * 0.0)


def s_ramp(h, p, x, e):
    s, t = p
    inc = D.ite(D.tle(x, s, e), h * 0.0, D.ite(D.tge(x, t, e), h, D.div(h * (x - s), t - s)))
    dec = D.ite(D.tge(x, s, e), h * 0.0, D.ite(D.tle(x, t, e), h, D.div(h * (s - x), s - t)))
    return D.ite(D.teq(s, t, e), D.mk(nan, x), D.ite(D.tlt(s, t, e), inc, dec))


def s_bell(h, p, x, e):
    return h * D.div(1.0, 1.0 + D.pow_(D.abs_(D.div(x - p[0], p[1])), 2.0 * p[2]))


def s_binary(h, p, x, e):
    s, d = p
    return D.ite(D.and_(D.gt(d, s), D.tge(x, s, e)), h, D.ite(D.and_(D.lt(d, s), D.tle(x, s, e)), h, h * 0.0))


def s_concave(h, p, x, e):
    i, t = p
    inc = D.ite(D.tlt(x, t, e), D.div(h * (t - i), 2.0 * t - i - x), h)
    dec = D.ite(D.tgt(x, t, e), D.div(h * (i - t), i - 2.0 * t + x), h)
    return D.ite(D.tle(i, t, e), inc, dec)


def s_cosine(h, p, x, e):
    c, w = p
    out = D.or_(D.tlt(x, c - 0.5 * w, e), D.tgt(x, c + 0.5 * w, e))
    return D.ite(out, h * 0.0, h * (0.5 * (1.0 + D.cos(D.div(2.0, w) * D.PI() * (x - c)))))


def s_gaussian(h, p, x, e):
    return h * D.exp(D.div(-(sq(x - p[0])), 2.0 * p[1] * p[1]))


def s_gaussianproduct(h, p, x, e):
    a = D.ite(D.tlt(x, p[0], e), D.exp(D.div(-(sq(x - p[0])), 2.0 * p[1] * p[1])), D.mk(1.0, x))
    b = D.ite(D.tgt(x, p[2], e), D.exp(D.div(-(sq(x - p[2])), 2.0 * p[3] * p[3])), D.mk(1.0, x))
    return h * a * b


def _s(s, t, x, e):
    return D.ite(D.tle(x, s, e), D.mk(0.0, x), D.ite(D.tle(x, 0.5 * (s + t), e), 2.0 * sq(D.div(x - s, t - s)),
                 D.ite(D.tlt(x, t, e), 1.0 - 2.0 * sq(D.div(x - t, t - s)), D.mk(1.0, x))))


def _z(s, t, x, e):
    return D.ite(D.tle(x, s, e), D.mk(1.0, x), D.ite(D.tle(x, 0.5 * (s + t), e), 1.0 - 2.0 * sq(D.div(x - s, t - s)),
                 D.ite(D.tlt(x, t, e), 2.0 * sq(D.div(x - t, t - s)), D.mk(0.0, x))))


def s_sshape(h, p, x, e): return h * _s(p[0], p[1], x, e)
def s_zshape(h, p, x, e): return h * _z(p[0], p[1], x, e)
def s_pishape(h, p, x, e): return h * _s(p[0], p[1], x, e) * _z(p[2], p[3], x, e)
def s_sigmoid(h, p, x, e): return D.div(h, 1.0 + D.exp(-p[1] * (x - p[0])))


def s_sigdiff(h, p, x, e):
    a = D.div(1.0, 1.0 + D.exp(-p[1] * (x - p[0])))
    b = D.div(1.0, 1.0 + D.exp(-p[2] * (x - p[3])))
    return h * D.abs_(a - b)


def s_sigprod(h, p, x, e):
    a = 1.0 + D.exp(-p[1] * (x - p[0]))
    b = 1.0 + D.exp(-p[2] * (x - p[3]))
    return D.div(h, a * b)


def s_spike(h, p, x, e):
    return h * D.exp(-D.abs_(D.div(10.0, p[1]) * (x - p[0])))


SPEC = {'Triangle': s_triangle, 'Trapezoid': s_trapezoid, 'Rectangle': s_rectangle, 'Ramp': s_ramp, 'Bell': s_bell,
        'Binary': s_binary, 'Concave': s_concave, 'Cosine': s_cosine, 'Gaussian': s_gaussian,
        'GaussianProduct': s_gaussianproduct, 'PiShape': s_pishape, 'SShape': s_sshape, 'ZShape': s_zshape,
        'Sigmoid': s_sigmoid, 'SigmoidDifference': s_sigdiff, 'SigmoidProduct': s_sigprod, 'Spike': s_spike}


def kinds(k):
    return [{'f': 0, '-': 3, '+': 2}[c] for c in k]


def breakpoints(c, p):
    """Points where the tolerant comparisons of the library may pick a neighbouring piece."""
    if c == 'Cosine':
        return [p[0] - 0.5 * p[1], p[0] + 0.5 * p[1]]
    if c in ('SShape', 'ZShape'):
        return list(p) + [0.5 * (p[0] + p[1])]
    if c == 'PiShape':
        return list(p) + [0.5 * (p[0] + p[1]), 0.5 * (p[2] + p[3])]
    if c in ('Triangle', 'Trapezoid', 'Rectangle', 'Ramp', 'Concave'):
        return list(p)
    if c == 'Binary':
        return [p[0]]
    return []


def random_case(rng, c):
    """Random well formed parameters, height and argument (concrete)."""
    fields, ks, wf = TERMS[c]
    for _ in range(200):
        scale = rng.choice([1.0, 1.0, 10.0, 100.0, 0.1])
        grid = rng.random() < 0.5
        p = []
        for k in ks:
            q = rng.choice(kinds(k)) if rng.random() < 0.3 else 0
            if q:
                p.append(inf if q == 2 else -inf)
            else:
                v = rng.uniform(-1, 1) * scale
                p.append(round(v * 8) / 8 if grid else v)
        if c in ('Triangle', 'Trapezoid', 'Rectangle', 'PiShape', 'SShape', 'ZShape'):
            p.sort()
            if c == 'Triangle' and not math.isfinite(p[1]) or c == 'Trapezoid' and not (math.isfinite(p[1]) and math.isfinite(p[2])):
                continue
        if c in ('Bell', 'Cosine', 'Gaussian'):
            p[1] = abs(p[1]) or 1.0
            if c == 'Bell':
                p[2] = abs(p[2]) or 1.0
        if c == 'GaussianProduct':
            p[1], p[3] = abs(p[1]) or 1.0, abs(p[3]) or 1.0
        if wf(p, 1e-6) is not True:
            continue
        h = rng.choice([1.0, 0.5, rng.uniform(0.05, 1.0)])
        fin = [v for v in p if math.isfinite(v)] or [0.0]
        lo, hi = min(fin), max(fin)
        r = rng.random()
        if r < 0.4:
            x = rng.uniform(lo - 0.5 * (hi - lo + 0.1), hi + 0.5 * (hi - lo + 0.1))
        elif r < 0.6:
            x = rng.choice(fin)
        elif r < 0.75:
            bp = [b for b in breakpoints(c, p) if math.isfinite(b)] or fin
            x = rng.choice(bp) + rng.choice([0, 1e-3, -1e-3, 1e-5, -1e-5, 3e-7, -3e-7])
        elif r < 0.85:
            x = rng.choice([inf, -inf])
        elif r < 0.9:
            x = nan
        else:
            x = rng.uniform(-1, 1) * scale * 10
        return h, p, x
    return None
