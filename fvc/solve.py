"""Discharging obligations: z3 (API) first, then a portfolio of tactics and the cvc5 back end."""
import subprocess, tempfile, time, os
from fractions import Fraction
import z3
from .sym import literals, lift, zb, Not, FV

CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


def lit_distinct():
    ls = list(literals().values())
    return [z3.Distinct(*ls)] if len(ls) > 1 else []


def to_float(v):
    try:
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        return None
    return None


def eval_input(m, x):
    """A concrete float/int/bool/str for an input expression in model m."""
    if isinstance(x, FV):
        k = x.k if not z3.is_expr(x.k) else m.eval(x.k, model_completion=True).as_long()
        if k == 1:
            return float('nan')
        if k == 2:
            return float('inf')
        if k == 3:
            return float('-inf')
        if not z3.is_expr(x.v):
            return float(x.v)
        return to_float(m.eval(x.v, model_completion=True))
    if not z3.is_expr(x):
        return x
    v = m.eval(x, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    f = to_float(v)
    if f is not None:
        return int(f) if z3.is_int_value(v) else f
    return str(v)


# ---------------------------------------------------------------- abstraction of nonlinear arithmetic
MULR, DIVR = z3.Function('abs*', z3.RealSort(), z3.RealSort(), z3.RealSort()), z3.Function('abs/', z3.RealSort(), z3.RealSort(), z3.RealSort())
MULI = z3.Function('abs*i', z3.IntSort(), z3.IntSort(), z3.IntSort())
_abs = {}


def nonlinear(fs):
    seen, todo = set(), [zb(f) for f in fs]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
        elif z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not isnum(x) for x in e.children()) > 1 or k == z3.Z3_OP_DIV and not isnum(e.arg(1)):
                return True
            todo += e.children()
    return False


def isnum(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def linearise(e):
    """Products and quotients of unknowns as uninterpreted functions: what is valid for them is valid for the arithmetic."""
    i = e.get_id()
    if i in _abs and _abs[i][0].eq(e):
        return _abs[i][1]
    if z3.is_quantifier(e):
        vs = [z3.FreshConst(e.var_sort(j), 'abs') for j in range(e.num_vars())]
        b = linearise(z3.substitute_vars(e.body(), *reversed(vs)))
        r = z3.Lambda(vs, b) if e.is_lambda() else z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b)
    elif z3.is_app(e) and e.num_args():
        cs = [linearise(c) for c in e.children()]
        k = e.decl().kind()
        r = None
        if k == z3.Z3_OP_MUL:
            f = MULI if e.sort() == z3.IntSort() else MULR
            ks, us = [c for c in cs if isnum(c)], sorted([c for c in cs if not isnum(c)], key=lambda c: c.get_id())
            if len(us) > 1:
                r = us[0]
                for u in us[1:]:
                    r = f(r, u)
                for u in ks:
                    r = u * r
        elif k == z3.Z3_OP_DIV and not isnum(cs[1]):
            r = DIVR(cs[0], cs[1])
        if r is None:
            r = e if all(a.eq(b) for a, b in zip(cs, e.children())) else e.decl()(*cs)
    else:
        r = e
    _abs[i] = (e, r)
    return r


def prove(hyps, goal, timeout=10.0, inputs=None, want_model=True):
    """-> (status, backend, seconds, model inputs)   status in proved/refuted/unknown"""
    t0 = time.time()
    if goal is True:
        return 'proved', 'simplifier', 0.0, None
    ng = z3.Not(zb(goal))
    fs = [zb(h) for h in hyps if h is not True] + lit_distinct()
    if z3.is_true(z3.simplify(zb(goal))):
        return 'proved', 'simplifier', time.time() - t0, None

    def attempt(mk, ms):
        s = mk()
        s.set('timeout', int(ms))
        for f in fs:
            s.add(f)
        s.add(ng)
        try:
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown, None
        m = None
        if r == z3.sat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return r, m
    if nonlinear(fs + [ng]):
        sv = z3.Solver()
        sv.set('timeout', int(1000 * timeout * 0.2))
        try:
            for f in fs + [ng]:
                sv.add(linearise(f))
            if sv.check() == z3.unsat:
                return 'proved', 'z3:linearised', time.time() - t0, None
        except z3.Z3Exception:
            pass
    plan = [('z3', lambda: z3.Solver(), 0.35), ('z3:simple', lambda: z3.SimpleSolver(), 0.15),
            ('z3:qfnra', lambda: z3.Then('simplify', 'solve-eqs', 'propagate-values', 'elim-term-ite', 'simplify', 'smt').solver(), 0.15),
            ('z3:ufnra', lambda: z3.Tactic('qfufnra' if False else 'default').solver(), 0.1)]
    for name, mk, share in plan:
        try:
            r, m = attempt(mk, 1000 * timeout * share)
        except Exception:
            continue
        if r == z3.unsat:
            return 'proved', name, time.time() - t0, None
        if r == z3.sat:
            inp = None
            if m is not None and inputs:
                try:
                    inp = {k: eval_input(m, v) for k, v in inputs.items()}
                except Exception:
                    inp = None
            return 'refuted', name, time.time() - t0, inp
    # cvc5
    try:
        s = z3.Solver()
        for f in fs:
            s.add(f)
        s.add(ng)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % int(1000 * timeout * 0.4), '--nl-cov', f.name],
                               capture_output=True, text=True, timeout=timeout).stdout.split()
        finally:
            os.unlink(f.name)
        if o and o[0] == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, None
    except Exception:
        pass
    return 'unknown', 'portfolio', time.time() - t0, None
