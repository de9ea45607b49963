"""P13: output variables keep their previous, default and locked values straight."""
import math
import z3
from fvc import exec as X
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P13'
SOURCES = ['variable/OutputVariable.cpp', 'variable/Variable.cpp', 'term/Aggregated.cpp', 'term/Activated.cpp', 'fuzzylite.cpp']
TRUSTED = ['defuzzifiers: any deterministic function of the fuzzy output and the range (P07, P08), which leaves the variable as it is',
           'the fuzzy output of an output variable exists (it is created by its constructors)']
BUDGET = 100
CONTRACTED = ['OutputVariable::defuzzify', 'OutputVariable::clear', 'Variable::setValue', 'OutputVariable::setMinimum', 'OutputVariable::setMaximum',
              'OutputVariable::setPreviousValue', 'OutputVariable::setDefaultValue', 'OutputVariable::setLockPreviousValue', 'Aggregated::clear']
F = [('Variable', '_value', 'double'), ('Variable', '_minimum', 'double'), ('Variable', '_maximum', 'double'), ('Variable', '_enabled', 'bool'), ('Variable', '_lockValueInRange', 'bool'),
     ('OutputVariable', '_previousValue', 'double'), ('OutputVariable', '_defaultValue', 'double'), ('OutputVariable', '_lockPreviousValue', 'bool')]


def given(c, cls='OutputVariable'):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    r = fz.obj(ex, st, 'this', cls)
    s = {}
    for k, f, t in F:
        if k == 'OutputVariable' and cls != k:
            continue
        if t == 'bool':
            v = z3.Bool(f)
        else:
            v = FV(z3.Int(f + '.k'), z3.Real(f))
            st.assume(z3.And(v.k >= 0, v.k <= 3))
        ex.hwrite(st, r, k, f, t, v)
        s[f] = v
    if cls == 'OutputVariable':
        fo = fz.obj(ex, st, 'fuzzy output', 'Aggregated')
        ex.hwrite(st, r, 'OutputVariable', '_fuzzyOutput', 'std::unique_ptr<Aggregated>', fo)
        d = z3.Int('defuzzifier')
        st.assume(z3.And(d >= 0, d <= ex.alloc0))
        ex.hwrite(st, r, 'OutputVariable', '_defuzzifier', 'std::unique_ptr<Defuzzifier>', d)
        s['fo'], s['df'] = fo, d
        v, n = fz.symvec(ex, st, 'acts', 'Activated')
        ex.hwrite(st, fo, 'Aggregated', '_terms', 'std::vector<Activated>', v)
        s['n'] = n
    return ex, st, X.LVHeap(r, cls), r, s


def clamp(s, x):
    lo, hi = s['_minimum'], s['_maximum']
    return fite(s['_lockValueInRange'], fite(flt(hi, x), hi, fite(flt(x, lo), lo, x)), x)


def state(c, ex, o, r, s, nm, **want):
    """Every field has the expected value (the others are unchanged)."""
    for k, f, t in F:
        if f not in s:
            continue
        v = ex.hread(o.st, r, k, f, t)
        w = want.get(f, s[f])
        c.oblige('%s %s' % (nm, f), ex.hyps(o.st), Iff(v, w) if t == 'bool' else fsame(v, w), exact=False)
    if 'fo' in s:
        n = ex.hread(o.st, s['fo'], 'Aggregated', '_terms', 'std::vector<Activated>').n
        c.oblige(nm + ' fuzzy output', ex.hyps(o.st), eqv(n, want.get('n', s['n'])), exact=False)
        c.oblige(nm + ' defuzzifier', ex.hyps(o.st), eqv(ex.hread(o.st, r, 'OutputVariable', '_defuzzifier', 'std::unique_ptr<Defuzzifier>'), s['df']), exact=False)


def defuzzify(c):
    ex, st, this, r, s = given(c)
    BAD = z3.Bool('defuzzifier fails')

    def defuzz(ex, st, this, args, f):
        a = [ex.rv(x, st) for x in args]
        fz.may_throw(ex, st, BAD)
        return fz.iface(ex, 'defuzzify', [this.ref, a[0]], a[1:])
    ex.contracts['Defuzzifier::defuzzify'] = defuzz
    raw = fz.iface(ex, 'defuzzify', [s['df'], s['fo']], [s['_minimum'], s['_maximum']])
    v = fite(And(s['_lockPreviousValue'], isnan(raw)), s['_previousValue'], raw)
    v = fite(isnan(v), s['_defaultValue'], v)
    en, df = s['_enabled'], s['df']
    for i, o in enumerate(ex.enter(c.p.find('OutputVariable::defuzzify'), this, [], st)):
        nm = 'defuzzify#%d %s' % (i, o.kind)
        if o.kind == 'return':
            c.oblige(nm, ex.hyps(o.st), Or(Not(en), And(Not(eqv(df, 0)), Not(BAD))), exact=False)
            state(c, ex, o, r, s, nm, _value=fite(en, clamp(s, v), s['_value']), _previousValue=fite(en, s['_value'], s['_previousValue']))
        else:
            c.oblige(nm, ex.hyps(o.st), And(o.kind == 'throw', en, Or(eqv(df, 0), BAD)), exact=False)
            state(c, ex, o, r, s, nm)


def clear(c):
    ex, st, this, r, s = given(c)
    for i, o in enumerate(ex.enter(c.p.find('OutputVariable::clear'), this, [], st)):
        c.oblige('clear#%d' % i, ex.hyps(o.st), o.kind == 'return', exact=False)
        # clamping keeps NaN
        state(c, ex, o, r, s, 'clear#%d' % i, _value=NANV, _previousValue=NANV, n=0)


SETTERS = [('setPreviousValue', '_previousValue', 'double'), ('setDefaultValue', '_defaultValue', 'double'), ('setLockPreviousValue', '_lockPreviousValue', 'bool'),
           ('setMinimum', '_minimum', 'double'), ('setMaximum', '_maximum', 'double')]
GETTERS = [('getPreviousValue', '_previousValue'), ('getDefaultValue', '_defaultValue'), ('isLockPreviousValue', '_lockPreviousValue')]


def setters(c):
    for m, f, t in SETTERS:
        ex, st, this, r, s = given(c)
        if t == 'bool':
            x = z3.Bool('x')
        else:
            x = FV(z3.Int('x.k'), z3.Real('x'))
            st.assume(z3.And(x.k >= 0, x.k <= 3))
        for i, o in enumerate(ex.enter(c.p.find('OutputVariable::' + m), this, [x], st)):
            c.oblige('%s#%d' % (m, i), ex.hyps(o.st), o.kind == 'return', exact=False)
            state(c, ex, o, r, s, '%s#%d' % (m, i), **{f: x})
            if f in ('_minimum', '_maximum'):
                c.oblige('%s#%d range of the fuzzy output' % (m, i), ex.hyps(o.st), fsame(ex.hread(o.st, s['fo'], 'Aggregated', f, 'double'), x), exact=False)
    for m, f in GETTERS:
        ex, st, this, r, s = given(c)
        for i, o in enumerate(ex.enter(c.p.find('OutputVariable::' + m), this, [], st)):
            v = o.val
            c.oblige('%s#%d' % (m, i), ex.hyps(o.st), And(o.kind == 'return', Iff(v, s[f]) if not isinstance(v, FV) else fsame(v, s[f])), exact=False)


def setvalue(c):
    ex, st, this, r, s = given(c)
    x = FV(z3.Int('x.k'), z3.Real('x'))
    st.assume(z3.And(x.k >= 0, x.k <= 3))
    for i, o in enumerate(ex.enter(c.p.find('Variable::setValue'), X.LVHeap(r, 'Variable'), [x], st)):
        c.oblige('setValue#%d' % i, ex.hyps(o.st), o.kind == 'return', exact=False)
        state(c, ex, o, r, s, 'setValue#%d' % i, _value=clamp(s, x))


def groups(prog, tier):
    return [('OutputVariable::defuzzify', defuzzify), ('OutputVariable::clear', clear), ('OutputVariable setters and getters', setters), ('Variable::setValue', setvalue)]


SEARCHED = 'random histories of defuzzification, clearing, values, flags, ranges and defuzzifiers of one or two output variables'
DRIVER = 'engine'


def script(rng):
    ops = [('new', '0')]
    vs = []
    for i in range(rng.randint(1, 2)):
        lo, hi = G.rng_range(rng)
        n = 'o%d' % i
        k = rng.choice(['mamdani', 'ts'])
        ops.append(('ov', n, lo, hi, rng.random() < 0.4, rng.random() < 0.85, rng.choice([math.nan, G.q(rng, rng.uniform(lo - 2, hi + 2))]), rng.random() < 0.5, G.snorm(rng), G.integral(rng) if k == 'mamdani' else G.weighted(rng, k)))
        ts = []
        for j in range(rng.randint(1, 3)):
            ts.append('t%d' % j)
            ops.append(G.term(rng, n, 't%d' % j, lo, hi, G.SHAPES if k == 'mamdani' else ['Constant']))
        vs.append((n, lo, hi, ts, k))
    for _ in range(rng.randint(5, 20)):
        n, lo, hi, ts, k = rng.choice(vs)
        r = rng.random()
        if r < 0.35:
            ops.append(('ovdef', n))
        elif r < 0.5:
            ops.append(('addact', n, rng.choice(ts), rng.choice([1.0, 0.5, rng.random(), 0.0]), G.tnorm(rng)))
        elif r < 0.6:
            ops.append(('clearact', n))
        elif r < 0.65:
            ops.append(('ovclear', n))
        elif r < 0.75:
            ops.append(('set', n, rng.choice([math.nan, math.inf, -math.inf, rng.uniform(lo - 1, hi + 1), rng.uniform(lo, hi)])))
        elif r < 0.8:
            ops.append(('prevset', n, rng.choice([math.nan, math.inf, rng.uniform(lo - 1, hi + 1)])))
        elif r < 0.95:
            f = rng.choice(['enabled', 'lockrange', 'lockprev', 'default', 'min', 'max'])
            x = rng.choice([0, 1]) if f in ('enabled', 'lockrange', 'lockprev') else rng.uniform(lo - 1, hi + 1) if f == 'default' else rng.uniform(lo, lo + 0.3 * (hi - lo)) if f == 'min' else rng.uniform(hi - 0.3 * (hi - lo), hi)
            if f == 'default' and rng.random() < 0.3:
                x = rng.choice([math.nan, math.inf])
            ops.append(('flag', f, n, x))
        else:
            ops.append(('setdef', n, rng.choice([None, G.integral(rng) if k == 'mamdani' else G.weighted(rng, k)])))
        ops += [('get', n), ('prev', n), ('fuzzy', n), ('agginfo', n)]
    return ops


def search(models, seed, tier, failed=()):
    return ref.run([(script, 10000 if tier == 'quick' else 80000)], seed)
