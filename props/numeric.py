"""Contracts of loop-free numeric functions: one obligation per execution path of the real body."""
import itertools, math, random
from fractions import Fraction
import z3
from fvc import dual as D, exec as X
from fvc.sym import *
from . import terms as T

KN = {0: 'fin', 1: 'nan', 2: '+inf', 3: '-inf'}
inf, nan = D.inf, D.nan


def fv(k, name):
    return FV(k, z3.Real(name) if k == 0 else Fraction(0))


def declaring(prog, cls, field):
    for dc, fn, ft, _ in prog.all_fields(cls):
        if fn == field:
            return dc, ft
    raise Unsupported('no field %s in %s' % (field, cls))


def get_eps(ex, st):
    """The symbolic tolerance of the library (assumed finite and positive)."""
    names = [s for s in ex.p.statics if s.endswith('_macheps')]
    if not names:
        return D.Sc(FV(0, z3.Real('eps')))
    e = FV(0, z3.Real('eps'))
    ex.globals0[names[0]] = e
    return D.Sc(e)


def begin(c, cls, args, pre=(), **kw):
    """Executor, state and `this`: an object of class cls built by executing its real constructor on args (after the name)."""
    ex = c.executor(fork=True, **kw)
    st = X.State()
    e = get_eps(ex, st)
    st.assume(z3.Real('eps') > 0)
    r = z3.Int('this')
    st.assume(z3.And(r > 0, r <= ex.alloc0))
    for q in pre:
        if q is False:
            return None
        if q is not True:
            st.assume(q)
    ex.known[r.get_id()] = (r, cls)
    this = X.LVHeap(r, cls)
    D.EX, D.ST = ex, st
    if args is not None:
        st = construct(c, ex, st, this, cls, [SV(('t',))] + list(args))
    D.ST = st
    return ex, st, this, e


def ctor(prog, cls, n):
    """The constructor of cls with n parameters that is not the copy constructor."""
    base = cls.split('::')[-1]
    prog.find('%s::%s' % (cls, base), npar=n) if False else None
    if cls not in prog.classes or not prog.classes[cls].complete:
        import os
        prog.load([p for p in prog.files if os.path.basename(p) == cls.split('::')[0] + '.cpp'])
    seen, out = set(), []
    for f in list(prog.funcs.values()) + list(prog.decls.values()):
        if f.cls == cls and f.name == base and len(f.params) == n and f.mangled not in seen and f.kind == 'CXXConstructorDecl':
            seen.add(f.mangled)
            if n == 1 and ('%s &' % base) in f.ftype:
                continue
            b = prog.body(f.mangled)
            if b is not None:
                out.append(b)
    if len(out) != 1:
        raise Unsupported('constructor of %s with %d parameters: %s' % (cls, n, [o.ftype for o in out]))
    return out[0]


def construct(c, ex, st, this, cls, args):
    outs = ex.enter(ctor(c.p, cls, len(args)), this, args, st)
    outs = [o for o in outs if not (o.kind == 'throw' and ex.decide(False, o.st))]
    if len(outs) != 1 or outs[0].kind != 'return':
        raise Unsupported('constructor of %s: %s' % (cls, [o.kind for o in outs]))
    st = outs[0].st
    st.env = {}
    return st


def assume(ex, st, cond):
    if cond is False:
        return False
    if cond is not True:
        st.pc = st.pc + (cond,)
    return True


def run_fn(c, ex, st, qual, this, args, **kw):
    f = c.p.find(qual, **kw)
    return ex.enter(f, this, args, st)


def post(c, ex, outs, name, goal, inputs, extra=None, allow_throw=None):
    """goal(ret, state) -> condition, proved on every path."""
    n = 0
    for i, o in enumerate(outs):
        D.EX, D.ST = ex, o.st
        hy = ex.hyps(o.st)
        if o.kind == 'return':
            g = goal(o.val, o.st)
            hy = ex.hyps(o.st)
        elif o.kind == 'throw':
            g = allow_throw(o.st) if allow_throw else False
            hy = ex.hyps(o.st)
        else:
            g = False
        c.oblige('%s#%d%s' % (name, i, '' if o.kind == 'return' else ':' + o.kind), hy, g, inputs, extra=extra)
        n += 1
    return n


def xkinds():
    return [0, 1, 2, 3]


def term_cases(cls, xs=(0, 1, 2, 3)):
    fields, ks, wf = T.TERMS[cls]
    for pk in itertools.product(*[T.kinds(k) for k in ks]):
        for xk in xs:
            yield pk, xk


def term_setup(c, cls, pk, xk, xname='x'):
    fields, ks, wf = T.TERMS[cls]
    vals = [fv(k, 'p%d' % i) for i, k in enumerate(pk)]
    h = FV(0, z3.Real('h'))
    x = fv(xk, xname)
    P = [D.Sc(v) for v in vals]
    e = D.Sc(FV(0, z3.Real('eps')))
    b = begin(c, cls, vals + [h], pre=[z3.Real('h') > 0, z3.Real('h') <= 1, wf(P, e)])
    if b is None:
        return None
    ex, st, this, e = b
    inputs = {'h': h, 'x': x, 'eps': e.f}
    for i, v in enumerate(vals):
        inputs['p%d' % i] = v
    return ex, st, this, e, P, D.Sc(h), D.Sc(x), inputs


def close(a, b, rel=1e-9, ab=1e-9):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


class Batch:
    """Drives native/numeric.cpp: collect commands with their judges, run once, return the first failure."""

    def __init__(self, binary):
        self.b = binary
        self.cmds = []

    def add(self, cmd, judge, info):
        self.cmds.append((cmd, judge, info))

    def run(self, native):
        if not self.cmds:
            return None
        rc, out, err = native.run(self.b, inp='\n'.join(x[0] for x in self.cmds) + '\n', timeout=300)
        from fvc import harness
        harness.EXECUTED[0] += len(self.cmds)
        lines = out.split('\n')
        for i, (cmd, judge, info) in enumerate(self.cmds):
            o = lines[i] if i < len(lines) else ''
            if o == '' and rc != 0:
                return {'input': cmd, 'info': info, 'observed': 'process ended with status %s: %s' % (rc, err[-200:])}
            m = judge(o)
            if m is not None:
                return {'input': cmd, 'info': info, 'observed': o, 'expected': m}
        return None


def pf(s):
    if s in ('throw', 'none', ''):
        return s
    return float(s)


def bind():
    """Evaluate specifications on concrete doubles from here on."""
    D.EX = D.ST = None
