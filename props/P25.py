"""P25: dataset export visits every grid point once and reports the engine outputs."""
import math
import z3
from fvc import exec as X, solve
from fvc.loops import Fold
from fvc.sym import *
from . import numeric as N, fz, ref, gen as G

PROPERTY = 'P25'
SOURCES = ['imex/FldExporter.cpp', 'Engine.cpp', 'variable/Variable.cpp', 'variable/InputVariable.cpp', 'variable/OutputVariable.cpp', 'fuzzylite.cpp']
TRUSTED = ['the variables of the engine are valid, distinct objects',
           'std::pow over the reals: positive roots and integer powers are inverse and strictly increasing (rounding is covered by executing the contract)',
           'Engine::process and Variable::setValue are used through their contracts (P14, P15); Op::join is the separated text of the values (P26)']
BUDGET = 150
CONTRACTED = ['Operation::increment', 'FldExporter::write (grid)', 'FldExporter::write (row)', 'FldExporter::header', 'FldExporter::toString']
VI = 'std::vector<int>'
AI = z3.ArraySort(I, I)


def vi(name):
    return X.VecV('int', z3.Int(name + '.size'), {(): z3.Const(name, AI)})


def successor(x, y, lo, hi, pos, p, more):
    """y is the successor of x in the lexicographic order of the positions 0..pos of the grid lo..hi; p is the incremented position."""
    i = z3.Int('i!succ')
    S_ = z3.Select
    a = z3.And(p >= 0, p <= pos, S_(x, p) < S_(hi, p), S_(y, p) == S_(x, p) + 1,
               z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), S_(y, i) == S_(x, i))),
               z3.ForAll([i], z3.Implies(z3.And(i > p, i <= pos), z3.And(S_(x, i) >= S_(hi, i), S_(y, i) == S_(lo, i)))))
    b = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= pos), z3.And(S_(x, i) >= S_(hi, i), S_(y, i) == S_(lo, i))))
    return z3.And(z3.If(more, a, b), z3.ForAll([i], z3.Implies(z3.Or(i < 0, i > pos), S_(y, i) == S_(x, i))))


def increment(c):
    for three in (True, False):
        ex = c.executor(fork=False)
        st = X.State()
        vs = {k: vi(k) for k in ('x', 'lo', 'hi')}
        n = vs['x'].n
        st.assume(z3.And(n >= 0, vs['lo'].n == n, vs['hi'].n == n))
        for k in vs:
            st.env[('root', k)] = vs[k]
        lv = [X.LVLocal(('root', k), VI) for k in ('x', 'lo', 'hi')]
        pos = n - 1 if three else z3.Int('position')
        if not three:
            st.assume(z3.And(pos < n))
        calls = []

        def rec(ex, st, this, args, f):
            if len(f.params) != 4:
                return NotImplemented
            a = [ex.rv(v, st) for v in args]
            q = lift(a[1], I)
            calls.append(1)
            # the precondition of the callee: the position lies within the vectors
            c.oblige('increment: position of the call', ex.hyps(st), z3.And(q < lift(a[0].n, I), lift(a[2].n, I) == lift(a[0].n, I), lift(a[3].n, I) == lift(a[0].n, I)), exact=False)
            y, p, more = fresh(AI, 'successor'), fresh(I, 'incremented'), fresh(B, 'more')
            g = lambda v: ex.varr(v, (), I)
            st.assume(z3.If(q < 0, z3.And(z3.Not(more), y == g(a[0])), successor(g(a[0]), y, g(a[2]), g(a[3]), q, p, more)))
            ex.write(args[0], X.VecV('int', a[0].n, {(): y}), st)
            rec.p = p
            return more
        rec.p = z3.IntVal(-1)
        ex.contracts['Operation::increment'] = rec
        f = c.p.find('Operation::increment', 3 if three else 4)
        outs = ex.enter(f, None, lv if three else [lv[0], pos] + lv[1:], st)
        for q, o in enumerate(outs):
            nm = 'increment(%d)#%d %s' % (len(f.params), q, o.kind)
            hy = ex.hyps(o.st)
            if o.kind != 'return':
                c.oblige(nm, hy, False, exact=False)
                continue
            y = ex.varr(o.st.env[('root', 'x')], (), I)
            x, lo, hi = [ex.varr(vs[k], (), I) for k in ('x', 'lo', 'hi')]
            w = z3.If(x[lift(pos, I)] < hi[lift(pos, I)], lift(pos, I), rec.p)
            if three:
                w = rec.p
            v = zb(o.val)
            i = z3.Int('i')
            S_ = z3.Select
            c.oblige(nm + ' nothing to increment', hy + [lift(pos, I) < 0], z3.And(z3.Not(v), S_(y, i) == S_(x, i)), exact=False)
            hy = hy + [lift(pos, I) >= 0]
            c.oblige(nm + ' incremented', hy + [v], z3.And(w >= 0, w <= lift(pos, I), S_(x, w) < S_(hi, w), S_(y, w) == S_(x, w) + 1), exact=False)
            c.oblige(nm + ' before', hy + [v, i >= 0, i < w], S_(y, i) == S_(x, i), exact=False)
            c.oblige(nm + ' after', hy + [v, i > w, i <= lift(pos, I)], z3.And(S_(x, i) >= S_(hi, i), S_(y, i) == S_(lo, i)), exact=False)
            c.oblige(nm + ' last', hy + [z3.Not(v), i >= 0, i <= lift(pos, I)], z3.And(S_(x, i) >= S_(hi, i), S_(y, i) == S_(lo, i)), exact=False)
            c.oblige(nm + ' frame', hy + [z3.Or(i < 0, i > lift(pos, I))], S_(y, i) == S_(x, i), exact=False)
            c.oblige(nm + ' sizes', hy, z3.And(lift(o.st.env[('root', 'x')].n, I) == n), exact=False)
            for k in ('lo', 'hi'):
                c.oblige(nm + ' keeps ' + k, hy + [i >= 0, i < n], eqv(ex.vget(o.st.env[('root', k)], i), ex.vget(vs[k], i)), exact=False)


def grid(c):
    """The successors starting at the lowest point visit every grid point once, in lexicographic order."""
    x, y, g, lo, hi = [z3.Const(k, AI) for k in ('x', 'y', 'g', 'lo', 'hi')]
    n, p, q, r = z3.Ints('n p q r')
    i = z3.Int('i!succ')
    S_ = z3.Select
    inside = lambda v: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S_(lo, i) <= S_(v, i), S_(v, i) <= S_(hi, i))))
    # u comes before v: they differ first at position k
    before = lambda u, v, k: z3.And(k >= 0, k < n, S_(u, k) < S_(v, k), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), S_(u, i) == S_(v, i))))
    base = [n >= 1, inside(x), inside(g)]
    suc = lambda m: successor(x, y, lo, hi, n - 1, p, z3.BoolVal(m))
    j = z3.Int('j')
    c.oblige('the successor is a grid point', base + [suc(True), j >= 0, j < n], z3.And(S_(lo, j) <= S_(y, j), S_(y, j) <= S_(hi, j)), exact=False)
    c.oblige('the successor comes later', base + [suc(True)], z3.And(p >= 0, p < n, S_(x, p) < S_(y, p)), exact=False)
    c.oblige('the successor agrees before', base + [suc(True), j >= 0, j < p], S_(x, j) == S_(y, j), exact=False)
    for nm, cond in (('before', q < p), ('at', q == p), ('after', q > p)):
        c.oblige('no grid point lies between (%s)' % nm, base + [suc(True), before(x, g, q), before(g, y, r), cond], False, exact=False)
    c.oblige('without successor it is the last grid point', base + [suc(False), before(x, g, q)], False, exact=False)
    c.oblige('the lowest point is the first', [n >= 1, inside(g), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), S_(x, i) == S_(lo, i))), before(g, x, q)], False, exact=False)


# ---------------------------------------------------------------- the exporter
def setup(c):
    ex = c.executor(fork=False)
    st = X.State()
    N.get_eps(ex, st)
    e = fz.obj(ex, st, 'engine', 'Engine')
    r = fz.obj(ex, st, 'this', 'FldExporter')
    iv, ni = fz.symvec(ex, st, 'inputs', 'InputVariable *')
    ov, no = fz.symvec(ex, st, 'outputs', 'OutputVariable *')
    av, na = fz.symvec(ex, st, 'active', 'InputVariable *')
    ex.axioms += [ni >= 0, no >= 0, na >= 0]
    ex.hwrite(st, e, 'Engine', '_inputVariables', 'std::vector<InputVariable *>', iv)
    ex.hwrite(st, e, 'Engine', '_outputVariables', 'std::vector<OutputVariable *>', ov)
    st.env[('root', 'active')] = av
    active = X.LVLocal(('root', 'active'), 'std::vector<InputVariable *>')
    st.env[('root', 'writer')] = X.StreamV(SV((z3.Const('written before', S),)))
    writer = X.LVLocal(('root', 'writer'), 'std::ostream')
    I_, O_, A_ = (lambda k: ex.vget(iv, k)), (lambda k: ex.vget(ov, k)), (lambda k: ex.vget(av, k))
    fz.nonnull(ex, I_, ni)
    fz.nonnull(ex, O_, no)
    st0 = st.copy()

    def field(ref, cls, f, t='double'):
        v = ex.hread(st0, ref, cls, f, t)
        if isinstance(v, FV):
            ex.ax(('fld', lift(v.k, I).get_id()), z3.And(lift(v.k, I) >= 0, lift(v.k, I) <= 3))
        return v
    return ex, st, X.LVHeap(r, 'FldExporter'), r, e, writer, active, (I_, ni), (O_, no), (A_, na), field


def whole(c, each):
    """FldExporter::write of the grid: one row per grid point, in order, with the values of the grid point."""
    ex, st, this, r, e, writer, active, (I_, ni), (O_, no), (A_, na), field = setup(c)
    values = z3.Int('values')
    st.assume(z3.And(values >= 0, values <= 2 ** 31 - 1))
    act = lambda i: eqv(I_(i), A_(i))
    lo = lambda i: field(I_(i), 'Variable', '_minimum')
    hi = lambda i: field(I_(i), 'Variable', '_maximum')
    cur = lambda i: field(I_(i), 'Variable', '_value')
    K = z3.Int('resolution')
    st.gh['cur'] = z3.K(I, z3.IntVal(0))
    st.gh['ok'] = True
    st.gh['row due'] = True
    st.gh['ended'] = False
    st.gh['rows'] = 0
    top = lambda i: Ite(act(i), K, 0)

    def expected(g, i):
        g = z3.Select(g, lift(i, I))
        step = fdiv(fmul(from_int(g), fsub(hi(i), lo(i))), from_int(Ite(lt(1, K), K, 1)))
        return fite(act(i), fadd(lo(i), step), cur(i))
    j = z3.Int('j!row')

    def both(st, *conds):
        cond = And(*conds)
        st.gh['ok'] = And(st.gh['ok'], cond)

    def row(ex, st, this, args, f):
        if len(f.params) != 4 or 'vector<scalar>' not in f.ftype and 'vector<double>' not in f.ftype:
            return NotImplemented
        v, a = ex.rv(args[2], st), ex.rv(args[3], st)
        ak, av = ex.varr(v, ('k',), I), ex.varr(v, ('v',), R)
        w = expected(st.gh['cur'], j)
        both(st, *(st.gh['row due'], eqv(v.n, ni), eqv(ex.rv(args[0], st), e),
                     z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ni), zb(fsame(FV(z3.Select(ak, j), z3.Select(av, j)), w)))),
                     eqv(a.n, na), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < na), zb(eqv(ex.vget(a, j), A_(j)))))))
        st.gh['row due'] = False
        st.gh['rows'] = add(st.gh['rows'], 1)
        s = ex.rv(args[1], st)
        ex.write(args[1], X.StreamV(SV((fresh(S, 'rows'),)), s.kind, s.x), st)
    ex.contracts['FldExporter::write'] = row

    def inc(ex, st, this, args, f):
        if len(f.params) != 3:
            return NotImplemented
        x, l, h = [ex.rv(v, st) for v in args]
        g = lambda v: ex.varr(v, (), I)
        q = lambda body: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ni), zb(body)))
        both(st, *(Not(st.gh['row due']), Not(st.gh['ended']), eqv(x.n, ni), eqv(l.n, ni), eqv(h.n, ni), q(eqv(z3.Select(g(x), j), z3.Select(st.gh['cur'], j))),
                     q(eqv(z3.Select(g(l), j), 0)), q(eqv(z3.Select(g(h), j), top(j)))))
        y, p, more = fresh(AI, 'next'), fresh(I, 'at'), fresh(B, 'more')
        st.gh['cur'] = y
        st.gh['row due'] = more
        st.gh['ended'] = z3.Not(more)
        ex.write(args[0], X.VecV('int', x.n, {(): y}), st)
        return more
    ex.contracts['Operation::increment'] = inc
    hd = SV((z3.Const('header', S),))
    ex.contracts['FldExporter::header'] = lambda ex, st, this, args, f: hd

    # candidates
    def cands(ex, entry, mod, depth):
        out = list(fz.int_pointwise([('zero', lambda i: z3.IntVal(0)), ('resolution or zero', lambda i: lift(top(i), I))], ni)(ex, entry, mod, depth))
        out += fz.pointwise_candidates([('grid point', lambda i: expected(entry.gh['cur'], i))], ni)(ex, entry, mod, depth)
        for loc in mod:
            if loc[0] == 'L' and loc[2] == ('[]', ()):
                def goal(ex, st, k, key=loc[1]):
                    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ni), z3.Select(ex.varr(st.env[key], (), I), j) == z3.Select(st.gh['cur'], j)))
                out.append(('%s is the current grid point' % (loc[1][1],), goal))
        return out
    ex.loop_candidates = [cands]
    Fold(ex, 'inputs', [('n', 'I')], lambda: {'n': 0}, lambda k, s: {'n': add(s['n'], 1)}, n=ni)     # the loops over the input variables end at their number
    if each:
        ex.axioms.append(K == values - 1)
    else:
        # the largest count of values whose power does not exceed the requested total (at least one)
        pw = z3.Function('m_pow', R, R, R)
        n_, k_, v_ = z3.ToReal(ni), z3.ToReal(K), z3.ToReal(values)
        root = pw(v_, 1 / n_)
        st.assume(z3.And(ni >= 1, values >= 1))
        facts = [K >= 0, z3.Or(K == 0, pw(k_ + 1, n_) <= v_), pw(k_ + 2, n_) > v_, root > 0, pw(root, n_) == v_, ni >= 1, values >= 1,
                 *[z3.Implies(a < b, pw(a, n_) < pw(b, n_)) for a in (k_ + 1, k_ + 2, root) for b in (k_ + 1, k_ + 2, root) if a is not b]]
        found = []

        def resolution(ex, entry, mod, depth):
            """The computed number of values is the specified one: proved once, where it is first used."""
            if not found:
                found.append(1)
                for v in list(entry.env.values()):
                    if z3.is_expr(v) and v.sort() == I and 'm_pow' in v.sexpr():
                        hy = facts + [zb(x) for x in entry.pc if z3.is_expr(x)] + [x for x in ex.axioms if not z3.is_quantifier(x)]
                        if solve.prove(hy, v == K, 20)[0] == 'proved':
                            c.oblige('values per variable', hy, v == K, exact=False, timeout=20)
                            ex.axioms.append(v == K)
            return []
        ex.loop_candidates = [resolution] + ex.loop_candidates
    outs = ex.enter(c.p.find('FldExporter::write', 5, 'ScopeOfValues'), this, [e, writer, values, 0 if each else 1, active], st)
    for i, o in enumerate(outs):
        nm = 'write%s#%d %s' % (' each' if each else '', i, o.kind)
        hy = ex.hyps(o.st)
        if o.kind == 'throw':
            c.oblige(nm + ' only for a wrong number of variables', hy, Not(eqv(na, ni)), exact=False)
            continue
        c.oblige(nm + ' returns', hy, o.kind == 'return', exact=False)
        c.oblige(nm + ' every row in its place', hy, o.st.gh['ok'], exact=False)
        c.oblige(nm + ' until the last point', hy, And(o.st.gh['ended'], Not(o.st.gh['row due'])), exact=False)
    c.cover('write', ex.hyps(st))
    fz.loopnotes(c, ex)


def values_fold(ex, name, parts):
    """The list of values made of the given parts: parts = [(n, cond, value(k))]; returns (number, kinds, values)."""
    s = {'n': 0, 'k': z3.K(I, z3.IntVal(0)), 'v': z3.K(I, z3.RealVal(0))}
    comps = [('n', 'I'), ('k', z3.ArraySort(I, I)), ('v', z3.ArraySort(I, R))]
    for q, (n, cond, val) in enumerate(parts):
        def step(k, s, cond=cond, val=val):
            x = val(k)
            at = lift(s['n'], I)
            return {'n': Ite(cond, add(s['n'], 1), s['n']), 'k': Ite(cond, z3.Store(s['k'], at, lift(x.k, I)), s['k']), 'v': Ite(cond, z3.Store(s['v'], at, lift(x.v, R)), s['v'])}
        F = Fold(ex, '%s%d' % (name, q), comps, lambda s=s: dict(s), step, n=n, lemmas=[lambda k, s: le(0, s['n'])])
        s = F.at(n)
    return s


SET, PROCESS = 1, 2


def row(c):
    """FldExporter::write of one row: the values are set, the engine is processed once, and the row lists the inputs and the outputs."""
    ex, st, this, r, e, writer, active, (I_, ni), (O_, no), (A_, na), field = setup(c)
    iv_, n = fz.symvec(ex, st, 'input values', 'double')
    ex.axioms.append(n >= 0)
    st.env[('root', 'input values')] = iv_
    given = X.LVLocal(('root', 'input values'), 'std::vector<double>')
    V_ = lambda i: ex.vget(iv_, i)
    flag = lambda f: ex.hread(st, r, 'FldExporter', f, 'bool')
    exin, exout = flag('_exportInputValues'), flag('_exportOutputValues')
    sep = ex.hread(st, r, 'FldExporter', '_separator', 'std::string')
    log = fz.Log('steps', [('what', I), ('object', I), ('value.k', I), ('value.v', R)])
    log.start(ex, st)
    st.gh['join'] = 0
    st.gh['joined'] = X.VecV('double', 0, {('k',): z3.K(I, z3.IntVal(0)), ('v',): z3.K(I, z3.RealVal(0))})
    st.gh['separator'] = SV(())
    st0 = st.copy()
    after = {p: z3.Const('after ' + p, z3.ArraySort(I, s)) for p, s in (('k', I), ('v', R))}

    def setv(ex, st, this, args, f):
        x = ex.rv(args[0], st)
        log.append(st, [SET, this.ref, x.k, x.v])
    ex.contracts['Variable::setValue'] = setv

    def proc(ex, st, this, args, f):
        log.append(st, [PROCESS, this.ref, 0, 0])
        for p in after:
            st.heap[(('Variable', '_value'), p)] = after[p]
    ex.contracts['Engine::process'] = proc
    text = z3.Const('values of the row', S)

    def join(ex, st, this, args, f):
        st.gh['join'] = add(st.gh['join'], 1)
        st.gh['joined'] = ex.rv(args[0], st)
        st.gh['separator'] = ex.rv(args[1], st)
        return SV((text,))
    ex.contracts['Operation::join'] = join
    ex.contracts['Op::join'] = join
    value = lambda k: fite(eqv(I_(k), A_(k)), V_(k), field(I_(k), 'Variable', '_value'))

    def result(k):
        x = FV(z3.Select(after['k'], lift(O_(k), I)), z3.Select(after['v'], lift(O_(k), I)))
        return x
    want = values_fold(ex, 'values', [(ni, exin, value), (no, exout, result)])
    s = log.empty(ex)
    F = Fold(ex, 'set', log.comps(), lambda s=s: dict(s), lambda k, v: log.push(v, True, [SET, I_(k), value(k).k, value(k).v]), n=ni, lemmas=[lambda k, v: eqv(v[log.name + '#'], k)])
    steps = log.push(log.get(F.at(ni)), True, [PROCESS, e, 0, 0])
    bad = Or(lt(n, ni), Not(eqv(na, ni)))
    outs = ex.enter(c.p.find('FldExporter::write', 4, 'InputVariable'), this, [e, writer, given, active], st)
    before = st0.env[('root', 'writer')].buf
    j = z3.Int('j')
    for i, o in enumerate(outs):
        nm = 'row#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        out = o.st.env[('root', 'writer')]
        if o.kind == 'throw':
            c.oblige(nm + ' only for a wrong number of values or variables', hy, And(bad, lt(0, n)), exact=False)
            c.oblige(nm + ' nothing set, nothing written', hy, And(eqv(log.count(o.st), 0), seq(out.buf, before)), exact=False)
            continue
        c.oblige(nm + ' returns', hy, And(o.kind == 'return', Or(eqv(n, 0), Not(bad))), exact=False)
        # without values: an empty line
        c.oblige(nm + ' empty', hy + [n == 0], And(eqv(log.count(o.st), 0), seq(out.buf, before + SV(('\n',)))), exact=False)
        o.st.assume(n > 0)
        hy = ex.hyps(o.st)
        c.oblige(nm + ' text', hy, And(eqv(o.st.gh['join'], 1), seq(out.buf, before + SV((text, '\n'))), seq(o.st.gh['separator'], sep)), exact=False)
        log.same(c, ex, o, nm, steps)
        v = o.st.gh['joined']
        c.oblige(nm + ' number of values', hy, eqv(v.n, want['n']), exact=False)
        for p, key in (('k', I), ('v', R)):
            c.oblige(nm + ' values .' + p, hy + [j >= 0, j < lift(want['n'], I)], eqv(z3.Select(ex.varr(v, (p,), key), j), z3.Select(want[p], j)), exact=False)
    c.cover('row', ex.hyps(st0))
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def header(c, exin, exout):
    """The header lists the names of the exported inputs and outputs, in order."""
    ex, st, this, r, e, writer, active, (I_, ni), (O_, no), (A_, na), field = setup(c)
    flag = lambda f: ex.hread(st, r, 'FldExporter', f, 'bool')
    for f, v in (('_exportInputValues', exin), ('_exportOutputValues', exout)):
        st.assume(flag(f) if v else Not(flag(f)))
    sep = ex.hread(st, r, 'FldExporter', '_separator', 'std::string')
    st0 = st.copy()
    name = lambda k: ex.hread(st0, k, 'Variable', '_name', 'std::string').z()
    st.gh['join'] = 0
    st.gh['joined'] = X.VecV('std::string', 0, {(): z3.K(I, z3.Const('no name', S))})
    st.gh['separator'] = SV(())
    text = z3.Const('names', S)

    def join(ex, st, this, args, f):
        st.gh['join'] = add(st.gh['join'], 1)
        st.gh['joined'] = ex.rv(args[0], st)
        st.gh['separator'] = ex.rv(args[1], st)
        return SV((text,))
    ex.contracts['Operation::join'] = join
    s = {'n': 0, 'v': z3.K(I, ex.default(S))}
    for q, (g, n, cond) in enumerate(((I_, ni, exin), (O_, no, exout))):
        F = Fold(ex, 'names%d' % q, [('n', 'I'), ('v', z3.ArraySort(I, S))], lambda s=s: dict(s), lambda k, s, g=g: {'n': add(s['n'], 1), 'v': z3.Store(s['v'], lift(s['n'], I), name(g(k)))}, n=n, lemmas=[lambda k, s: le(0, s['n'])])
        s = F.at(n) if cond else s
    j = z3.Int('j')
    for i, o in enumerate(ex.enter(c.p.find('FldExporter::header'), this, [e], st)):
        nm = 'header#%d %s' % (i, o.kind)
        hy = ex.hyps(o.st)
        v = o.st.gh['joined']
        c.oblige(nm, hy, And(o.kind == 'return', eqv(o.st.gh['join'], 1), seq(ex.rv(o.val, o.st), SV((text,))), seq(o.st.gh['separator'], sep)), exact=False)
        c.oblige(nm + ' number of names', hy, eqv(v.n, s['n']), exact=False)
        c.oblige(nm + ' names', hy + [j >= 0, j < lift(s['n'], I)], z3.Select(ex.varr(v, (), S), j) == z3.Select(s['v'], j), exact=False)
    fz.fold_obligations(c, ex)
    fz.loopnotes(c, ex)


def delegates(c):
    """The convenience forms export all the input variables of the engine; the string form returns what is written."""
    for what in ('toString', 'toString const', 'toString active', 'write'):
        ex, st, this, r, e, writer, active, (I_, ni), (O_, no), (A_, na), field = setup(c)
        values, scope = z3.Int('values'), z3.Int('scope')
        st.assume(z3.And(scope >= 0, scope <= 1))
        text = z3.Const('grid', S)
        want_act = (A_, na) if what == 'toString active' else (I_, ni)
        want_values, want_scope = (1024, 1) if what == 'toString const' else (values, scope)
        j = z3.Int('j!act')
        st.gh['ok'] = False
        before = st.env[('root', 'writer')].buf

        def whole_(ex, st, this, args, f):
            if len(args) != 5:
                return NotImplemented
            en, s, v, sc, a = [ex.rv(x, st) for x in args]
            start = before if what == 'write' else SV(())
            st.gh['ok'] = And(eqv(en, e), eqv(v, want_values), eqv(sc, want_scope), seq(s.buf, start), eqv(a.n, want_act[1]),
                              z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lift(a.n, I)), zb(eqv(ex.vget(a, j), want_act[0](j))))))
            ex.write(args[1], X.StreamV(s.buf + SV((text,)), s.kind, s.x), st)
        ex.contracts['FldExporter::write'] = whole_
        if what == 'toString':
            f, args = c.p.find('FldExporter::toString', 3), [e, values, scope]
        elif what == 'toString const':
            f, args = c.p.find('FldExporter::toString', 1), [e]
        elif what == 'toString active':
            f, args = c.p.find('FldExporter::toString', 4), [e, values, scope, active]
        else:
            f, args = c.p.find('FldExporter::write', 4, 'ScopeOfValues'), [e, writer, values, scope]
        for i, o in enumerate(ex.enter(f, this, args, st)):
            nm = '%s#%d %s' % (what, i, o.kind)
            got = o.st.env[('root', 'writer')].buf if what == 'write' else ex.rv(o.val, o.st)
            c.oblige(nm, ex.hyps(o.st), And(o.kind == 'return', o.st.gh['ok'], seq(got, (before if what == 'write' else SV(())) + SV((text,)))), exact=False)


def groups(prog, tier):
    return [('FldExporter::write, one row', row), *[('FldExporter::header%s%s' % (' inputs' if x else '', ' outputs' if y else ''), header, x, y) for x in (True, False) for y in (True, False)], ('whole exports', delegates), ('Operation::increment', increment), ('grid order', grid), ('FldExporter::write, values of all variables', whole, False), ('FldExporter::write, values of each variable', whole, True)]


SEARCHED = 'random exports of random engines: grids of every scope and number of values, and rows of given values, compared with separate engines processing the same values'
DRIVER = 'engine'


def script(rng):
    """The engine 0 is exported; the engines 1 to 3 process the expected rows (native/dataset.h)."""
    seed = rng.random()
    ops = []
    import random
    for k in '0123':
        g = G.Eng(random.Random(seed), nin=(1, 3), nout=(1, 2), nrb=(1, 2), nrules=(1, 4), none=0.0, key=k, disabled=0.05)
        ops += g.o
    own = []
    for n, lo, hi, ts in g.inp:
        own.append(rng.choice([rng.uniform(lo, hi), hi, lo, float('nan')]))
        lock = [o[4] for o in g.o if o[0] == 'iv' and o[1] == n][0]
        for k in '0123':
            ops.append(('raw', 'use %s' % k, None))
            ops.append(('raw', 'set %s %s' % (n, G_fmt(own[-1])), None))
    ops.append(('raw', 'use 0', None))
    nin = len(g.inp)
    head, in_, out = rng.random() < 0.6, rng.random() < 0.8, rng.random() < 0.8
    sep = rng.choice(['_', '_', ',', ';_', '|'])
    form = rng.choice(['write', 'write', 'write', 'writeall', 'string', 'stringall', 'read', 'readstring'] + ['default'] * (rng.random() < 0.1))
    scope = rng.choice(['each', 'all'])
    mask = ''.join('1' if form in ('writeall', 'stringall', 'default') or rng.random() < 0.75 else '0' for _ in range(nin))
    text = ''
    if form.startswith('read'):
        points, lines = [], []
        if rng.random() < 0.4:
            lines.append('the names of the columns')
        for _ in range(rng.randint(0, 8)):
            q = rng.random()
            if q < 0.15:
                lines.append(rng.choice(['# comment', '#', '  # comment', ' #1 2 3']))
            elif q < 0.3 and lines:
                lines.append(rng.choice(['', '', '   ']))
                points.append([])
            else:
                x = [G.q(rng, rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(2 * lo - hi, 2 * hi - lo)])) if rng.random() < 0.9 else float('nan') for n, lo, hi, ts in g.inp]
                lines.append(rng.choice(['', ' ']) + ' '.join([('%.17g' % v) if v == v else 'nan' for v in x] + (['7'] if rng.random() < 0.1 else [])))
                points.append(x)
        text = ''.join(l + '\\n' for l in lines)
        values = 0
    else:
        if form == 'default':
            values, scope = 1024, 'all'
        elif scope == 'all':
            m = rng.randint(1, {1: 40, 2: 12, 3: 6}[nin])
            values = rng.choice([m ** nin, m ** nin, m ** nin - 1, m ** nin + 1, rng.randint(1, 150)])
            values = max(1, values)
        else:
            values = rng.randint(1, {1: 60, 2: 12, 3: 7}[nin])
        if scope == 'all':
            r = 1
            while (r + 1) ** nin <= values:
                r += 1
        else:
            r = values
        axes = []
        for a, v, (n, lo, hi, ts) in zip(mask, own, g.inp):
            axes.append([lo + q * (hi - lo) / max(1, r - 1) for q in range(r)] if a == '1' else [None])
        points = [[]]
        for j, ax in enumerate(axes):
            points = [p + [x if x is not None else clip(own[j], g, j)] for p in points for x in ax]
    ops.append(('raw', 'fld %s %d %d %d %s %d %s %s %s' % (sep, head, in_, out, form, values, scope, mask, text), header_tokens(g, head, in_, out, form, len(points))))
    for i in range(len(points)):
        ops.append(('raw', ' '.join(['fldrow', str(i)] + [G_fmt(x) for x in points[i]]), ['ok']))
    return ops


def G_fmt(x):
    return 'nan' if x != x else '%.17g' % x


def clip(x, g, j):
    n, lo, hi, ts = g.inp[j]
    lock = [o[4] for o in g.o if o[0] == 'iv' and o[1] == n][0]
    return min(max(x, lo), hi) if lock and x == x else x


def header_tokens(g, head, in_, out, form, n):
    names = ([i[0] for i in g.inp] if in_ else []) + ([o[0] for o in g.out] if out else [])
    cols = (names or ['']) if head else ['']
    return [str(n), '1', str(len(cols))] + ['[%s]' % c for c in cols]


def search(models, seed, tier, failed=()):
    return ref.run([(script, 5000 if tier == 'quick' else 40000)], seed)
