"""Random engines for executing the contracts on the compiled code."""
import math
from . import norms as NM, terms as T

nan, inf = math.nan, math.inf
HEDGES = ['any', 'extremely', 'not', 'seldom', 'somewhat', 'very']
NAMES = 'alpha beta gamma delta low medium high A B C x1 y_2'.split()
SHAPES = ['Triangle', 'Trapezoid', 'Rectangle', 'Ramp', 'Bell', 'Binary', 'Concave', 'Cosine', 'Gaussian', 'GaussianProduct', 'PiShape',
          'SShape', 'ZShape', 'Sigmoid', 'SigmoidDifference', 'SigmoidProduct', 'Spike']
SHAPE_MONO = ['Ramp', 'Concave', 'SShape', 'ZShape', 'Sigmoid']


def q(rng, x):
    return round(x, 3)


def params(rng, cls, lo, hi):
    w = hi - lo
    u = lambda: q(rng, rng.uniform(lo - 0.1 * w, hi + 0.1 * w))
    if cls in ('Triangle', 'Trapezoid', 'Rectangle', 'PiShape', 'SShape', 'ZShape'):
        n = {'Triangle': 3, 'Trapezoid': 4, 'PiShape': 4}.get(cls, 2)
        while True:
            p = sorted(u() for _ in range(n))
            if all(b - a > 0.02 * w for a, b in zip(p, p[1:])):
                break
        if cls == 'Triangle' and rng.random() < 0.1:
            p[0] = -inf
        if cls == 'Trapezoid' and rng.random() < 0.1:
            p[3] = inf
        return p
    if cls in ('Ramp', 'Concave'):
        while True:
            p = [u(), u()]
            if abs(p[0] - p[1]) > 0.1 * w:
                return p
    if cls == 'Bell':
        return [u(), q(rng, rng.uniform(0.1, 0.4) * w), float(rng.choice([1, 2, 3, 0.5]))]
    if cls == 'Binary':
        return [u(), rng.choice([inf, -inf])]
    if cls in ('Cosine', 'Gaussian', 'Spike'):
        return [u(), q(rng, rng.uniform(0.15, 0.6) * w)]
    if cls == 'GaussianProduct':
        return [u(), q(rng, rng.uniform(0.1, 0.4) * w), u(), q(rng, rng.uniform(0.1, 0.4) * w)]
    sl = lambda: q(rng, rng.choice([-1, 1]) * rng.uniform(3, 12) / w)
    if cls == 'Sigmoid':
        return [u(), sl()]
    if cls in ('SigmoidDifference', 'SigmoidProduct'):
        return [u(), sl(), sl(), u()]
    if cls == 'Constant':
        return [u()]
    if cls == 'Discrete':
        n = rng.randint(1, 5)
        xs = sorted({u() for _ in range(n)})
        p = []
        for x in xs:
            p += [x, q(rng, rng.random())]
        return p
    raise KeyError(cls)


def height(rng):
    return rng.choice([1.0, 1.0, 1.0, 0.5, q(rng, rng.uniform(0.1, 1.0))])


FUNS = [('2*x+1', lambda e, x: 2 * x + 1), ('x*x', lambda e, x: x * x), ('sqrt(x)', lambda e, x: math.sqrt(x) if x >= 0 else nan),
        ('log(x)', lambda e, x: math.log(x) if x > 0 else (-inf if x == 0 else nan)),
        ('max(x,0.25)', lambda e, x: nan if math.isnan(x) else max(x, 0.25)), ('abs(x)-0.5', lambda e, x: abs(x) - 0.5),
        ('1/(x*x+0.1)', lambda e, x: 1 / (x * x + 0.1))]


def term(rng, var, name, lo, hi, shapes=SHAPES):
    cls = rng.choice(shapes)
    if cls == 'Function':
        t, f = rng.choice(FUNS) if rng.random() < 0.5 else partial(rng.choice(PARTIAL), q(rng, rng.uniform(lo, hi)))
        return ('term', var, 'Function', name, None, [t], f)
    if cls == 'Linear':
        return ('term', var, 'Linear', name, None, [q(rng, rng.uniform(-2, 2)) for _ in range(rng.randint(0, 5))], None)
    if cls == 'Constant':
        return ('term', var, 'Constant', name, None, params(rng, cls, lo, hi), None)
    return ('term', var, cls, name, height(rng), params(rng, cls, lo, hi), None)


def rng_range(rng):
    lo = rng.choice([0.0, -1.0, 10.0, -50.0, q(rng, rng.uniform(-5, 5))])
    return lo, lo + rng.choice([1.0, 2.0, 10.0, 0.5, q(rng, rng.uniform(0.5, 20))])


def tnorm(rng, none=0.0):
    return None if rng.random() < none else rng.choice(NM.TN)


def snorm(rng, none=0.0):
    return None if rng.random() < none else rng.choice(NM.SN)


def integral(rng):
    return '%s:%d' % (rng.choice(['Centroid', 'Bisector', 'SmallestOfMaximum', 'LargestOfMaximum', 'MeanOfMaximum']), rng.choice([1, 2, 3, 7, 10, 25, 60]))


def weighted(rng, kind):
    t = {'ts': ['TakagiSugeno', 'Automatic'], 'tsu': ['Tsukamoto', 'Automatic'], 'inv': ['TakagiSugeno']}[kind]
    return '%s:%s' % (rng.choice(['WeightedAverage', 'WeightedSum']), rng.choice(t))


def activation(rng):
    r = rng.random()
    if r < 0.3:
        return 'General'
    k = rng.choice(['First', 'Last', 'Highest', 'Lowest', 'Threshold', 'Proportional'])
    if k in ('First', 'Last'):
        return '%s:%d:%r' % (k, rng.choice([0, 1, 2, 3]), rng.choice([0.0, 0.2, 0.5, 1.0]))
    if k in ('Highest', 'Lowest'):
        return '%s:%d' % (k, rng.choice([0, 1, 2, 3]))
    if k == 'Threshold':
        return 'Threshold:%s:%r' % (rng.choice(['<', '<=', '==', '!=', '>=', '>']), rng.choice([0.0, 0.2, 0.5, 1.0]))
    return k


# functions that are undefined or infinite on a part of the range
PARTIAL = [('sqrt(x - (%r))', lambda u: math.sqrt(u) if u >= 0 else nan), ('sqrt((%r) - x)', lambda u: math.sqrt(-u) if u <= 0 else nan),
           ('log(x - (%r)) + 2', lambda u: math.log(u) + 2 if u > 0 else (-inf if u == 0 else nan)),
           ('1 / max(0, x - (%r))', lambda u: 1 / u if u > 0 else inf if u <= 0 else nan)]


def partial(tf, c):
    return tf[0].replace('(%r)', '%r' % c if c >= 0 else '(~%r)' % -c), lambda e, x: tf[1](x - c) if not math.isnan(x) else nan


class Eng:
    """A random engine: ops builds it; the rest describes it."""

    def __init__(self, rng, nin=(1, 3), nout=(1, 2), nrb=(1, 2), nrules=(1, 5), hedges=0.3, disabled=0.1, act=True, depth=3, outin=0.1,
                 none=0.03, key='0', lock=0.2, kinds=('mamdani', 'ts', 'tsu', 'inv'), concl=2, anys=0.15):
        self.rng = rng
        self.o = [('new', key)]
        self.inp, self.out, self.rb = [], [], []
        self.hedge_p, self.anys, self.concl, self.depth, self.outin = hedges, anys, concl, depth, outin
        for i in range(rng.randint(*nin)):
            lo, hi = rng_range(rng)
            n = 'in%d' % i
            self.o.append(('iv', n, lo, hi, rng.random() < lock, rng.random() >= disabled))
            ts = []
            for j in range(rng.randint(1, 4)):
                ts.append('t%d' % j)
                self.o.append(term(rng, n, 't%d' % j, lo, hi, SHAPES + ['Discrete']))
            self.inp.append((n, lo, hi, ts))
        for i in range(rng.randint(*nout)):
            lo, hi = rng_range(rng)
            n = 'out%d' % i
            k = rng.choice(kinds)
            d = integral(rng) if k == 'mamdani' else weighted(rng, k)
            if rng.random() < none:
                d = None
            self.o.append(('ov', n, lo, hi, rng.random() < lock, rng.random() >= disabled, rng.choice([nan, nan, q(rng, rng.uniform(lo - 1, hi + 1))]),
                           rng.random() < 0.3, snorm(rng, none if k == 'mamdani' else 0.5), d))
            ts = []
            sh = {'mamdani': SHAPES, 'ts': ['Constant', 'Linear', 'Function'], 'tsu': SHAPE_MONO, 'inv': SHAPES}[k]
            for j in range(rng.randint(1, 4)):
                ts.append('u%d' % j)
                self.o.append(term(rng, n, 'u%d' % j, lo, hi, sh))
            self.out.append((n, lo, hi, ts, k))
        self.nrules = {}
        for i in range(rng.randint(*nrb)):
            n = 'rb%d' % i
            self.o.append(('rb', n, rng.random() >= disabled, tnorm(rng, none), snorm(rng, none), tnorm(rng, none), activation(rng) if act else 'General'))
            self.rb.append(n)
            self.nrules[n] = rng.randint(*nrules)
            for j in range(self.nrules[n]):
                ast = self.ast()
                self.o.append(('rule', n, rng.random() >= disabled, True, text(rng, ast), ast))

    def prop(self):
        rng = self.rng
        if rng.random() < self.outin or not self.inp:
            n, lo, hi, ts, k = rng.choice(self.out)
        else:
            n, lo, hi, ts = rng.choice(self.inp)
        hs = [rng.choice(HEDGES[1:]) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < self.hedge_p else []
        if rng.random() < self.anys:
            return ('p', n, hs + ['any'], None)
        return ('p', n, hs, rng.choice(ts))

    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.4:
            return self.prop()
        return (rng.choice(['and', 'or']), self.expr(depth - 1), self.expr(depth - 1))

    def ast(self):
        rng = self.rng
        cs = []
        for _ in range(rng.randint(1, self.concl)):
            n, lo, hi, ts, k = rng.choice(self.out)
            hs = [rng.choice(HEDGES) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < self.hedge_p * 0.7 else []
            cs.append((n, hs, rng.choice(ts)))
        w = rng.choice([1.0, 1.0, 0.5, q(rng, rng.random()), 0.0, 0.25, 2.0])
        return (self.expr(rng.randint(0, self.depth)), cs, w)

    def inputs(self):
        out = []
        for n, lo, hi, ts in self.inp:
            w = hi - lo
            r = self.rng.random()
            x = self.rng.uniform(lo, hi) if r < 0.8 else self.rng.uniform(lo - w, hi + w) if r < 0.93 else self.rng.choice([nan, inf, -inf, lo, hi])
            out.append(('set', n, x))
        return out

    def observe(self):
        out = [('rules', b) for b in self.rb]
        for n, lo, hi, ts, k in self.out:
            out += [('fuzzy', n), ('get', n), ('prev', n)]
        return out


PREC = {'or': 1, 'and': 2}


def text(rng, ast, weight=None):
    def ex(e, parent=0, right=False):
        if e[0] == 'p':
            s = ' '.join([e[1], 'is'] + list(e[2]) + ([e[3]] if e[3] else []))
            return '( %s )' % s if rng.random() < 0.1 else s
        s = ' '.join([ex(e[1], PREC[e[0]]), e[0], ex(e[2], PREC[e[0]], True)])
        need = PREC[e[0]] < parent or (PREC[e[0]] == parent and right)
        if need or rng.random() < 0.15:
            return rng.choice(['(%s)', '( %s )']) % s
        return s
    t = 'if %s then %s' % (ex(ast[0]), ' and '.join(' '.join([n, 'is'] + list(hs) + [t_]) for n, hs, t_ in ast[1]))
    if ast[2] != 1.0 or rng.random() < 0.1:
        t += ' with %r' % ast[2]
    return t
