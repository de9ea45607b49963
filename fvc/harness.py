"""Per property driver: build obligations from /repo's current source, discharge them, replay counterexamples, report."""
import json, multiprocessing as mp, os, random, signal, sys, time, traceback
import z3
from . import front, exec as X, solve, dual
from .sym import *

VERIF = os.environ.get('FVC_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.environ.get('FVC_OUT', os.path.join(VERIF, 'evidence'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


EXECUTED = [0]


class Ctx:
    """What a group of obligations (one function contract) is built with."""

    def __init__(self, prog, group, tier):
        self.p = prog
        self.group = group
        self.tier = tier
        self.res = []
        self.functions = set()
        self.assumed = set()
        self.timeout = 10.0 if tier == 'quick' else 60.0
        self.deadline = None
        self.smt_s = 0.0
        self.notes = []

    def executor(self, **kw):
        ex = X.Exec(self.p, **kw)
        dual.EX, dual.ST = ex, None
        self.last = ex
        return ex

    def oblige(self, name, hyps, goal, inputs=None, exact=True, timeout=None, extra=None):
        """Discharge one obligation now."""
        t = timeout or self.timeout
        if self.deadline is not None:
            t = min(t, max(0.5, self.deadline - time.time()))
        st, by, s, model = solve.prove(hyps, goal, t, inputs)
        self.smt_s += s
        if st == 'refuted' and exact and uses_uf(list(hyps) + [goal]):
            exact = False
        self.res.append({'group': self.group, 'name': name, 'status': st, 'by': by, 's': round(s, 3), 'model': model,
                         'exact': bool(exact), 'extra': extra})
        return st

    def cover(self, name, hyps):
        """Vacuity guard: the hypotheses must be satisfiable (an unsatisfiable precondition proves nothing)."""
        s = z3.Solver()
        s.set('timeout', 5000)
        for h in hyps:
            s.add(zb(h))
        for h in solve.lit_distinct():
            s.add(h)
        r = s.check()
        self.res.append({'group': self.group, 'name': 'cover:' + name, 'status': 'proved' if r != z3.unsat else 'vacuous',
                         'by': 'z3 (%s)' % r, 's': 0, 'model': None, 'exact': False, 'extra': None, 'cover': True})
        return r


def uses_uf(es):
    """The formula mentions a function known only through some of its properties (a model may be spurious)."""
    seen, todo = set(), [e for e in es if z3.is_expr(e)]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            n = e.decl().name()
            if n.startswith(('m_', 'mk_', 'mv_', 'uninit', 'havoc')):
                return True
            todo += e.children()
    return False


def _work(args):
    i, = args
    g = GROUPS[i]
    c = Ctx(PROG, g[0], TIER)
    c.deadline = time.time() + BUDGET
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(BUDGET * 1.5) + 5)
    t = time.time()
    try:
        g[1](c, *g[2:])
    except Unsupported as e:
        err = 'unsupported: %s' % e
        if os.environ.get('FVC_DEBUG'):
            traceback.print_exc()
    except front.ExtractError as e:
        err = 'extraction: %s' % e
    except TimeoutError:
        err = 'timeout'
    except RecursionError:
        err = 'unsupported: recursion'
    except MemoryError:
        err = 'memory'
    except Exception as e:
        err = 'error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip()
        if os.environ.get('FVC_DEBUG'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    ex = getattr(c, 'last', None)
    if ex is not None:
        c.functions |= ex.inlined
        c.smt_s += ex.solver_s
    if err and os.environ.get('FVC_DEBUG'):
        traceback.print_exc()
    return {'group': g[0], 'res': c.res, 'err': err, 'functions': sorted(c.functions), 'assumed': sorted(c.assumed),
            'smt_s': c.smt_s, 'wall': time.time() - t, 'notes': c.notes}


def _alarm(*a):
    raise TimeoutError()


def run_groups(prog, groups, budget, nproc=8):
    global GROUPS, PROG, BUDGET
    GROUPS, PROG, BUDGET = groups, prog, budget
    if nproc == 1:
        return [_work((i,)) for i in range(len(groups))]
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, maxtasksperchild=8) as pool:
        return pool.map(_work, [(i,) for i in range(len(groups))], chunksize=1)


def prebuild(mod):
    """Compile the library and the driver while the obligations are being discharged."""
    if not getattr(mod, 'SEARCHED', None):
        return None
    import subprocess
    from . import native
    code = 'import sys; sys.path.insert(0, %r); from fvc import native; native._dir = %r; native.driver(%r)' % (
        VERIF if not os.environ.get('FVC_VERIF') else os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
        native.scratch(), getattr(mod, 'DRIVER', 'numeric'))
    # a failed build is reported when the search asks for the driver again
    return subprocess.Popen([sys.executable, '-c', code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l)
    return out


def main(mod):
    """mod: PROPERTY, SOURCES, groups(prog, tier), search(models, seed, tier, budget, failing) -> failure dict or None,
    TRUSTED list, optional BOUNDED(prog, tier) list."""
    t0 = time.time()
    pid = mod.PROPERTY
    warm = prebuild(mod)
    out = {'property': pid, 'tier': TIER, 'seed': SEED}
    prog = front.Prog()
    extract_err = None
    try:
        prog.load(mod.SOURCES)
        groups = mod.groups(prog, TIER)
    except (front.ExtractError, Unsupported) as e:
        extract_err = str(e)
        groups = []
    except Exception as e:
        extract_err = 'error: %r' % e
        if os.environ.get('FVC_DEBUG'):
            traceback.print_exc()
        groups = []
    t_front = time.time() - t0
    only = os.environ.get('FVC_GROUP')
    if only:
        groups = [g for g in groups if only in g[0]]
    budget = getattr(mod, 'BUDGET', 90 if TIER == 'quick' else 400)
    res = run_groups(prog, groups, budget, 1 if os.environ.get('FVC_DEBUG') else 8) if groups else []
    obs = [o for r in res for o in r['res'] if not o.get('cover')]
    covers = [o for r in res for o in r['res'] if o.get('cover')]
    failed = [o for o in obs if o['status'] != 'proved']
    errs = [(r['group'], r['err']) for r in res if r['err']]
    vac = [o for o in covers if o['status'] == 'vacuous']
    if extract_err:
        errs.append(('extraction', extract_err))
    if not obs and not errs:
        errs.append(('all', 'no obligation was generated'))
    proved = [o for o in obs if o['status'] == 'proved']
    complete = not failed and not errs and not vac
    if os.environ.get('FVC_VERBOSE'):
        for r in res:
            print('group %-44s %3d obligations  %6.2fs (smt %5.2f) %s' % (r['group'], len(r['res']), r['wall'], r['smt_s'], r['err'] or ''))
        for o in failed:
            print('  NOT PROVED', o['group'], o['name'], o['status'], o['by'], o['s'], o['model'])
        for o in vac:
            print('  VACUOUS', o['group'], o['name'])
    viol = None
    fallback = None
    search_note = None
    if getattr(mod, 'SEARCHED', None):
        if warm is not None:
            warm.wait()
        models = [(o['group'], o['name'], o['model'], o.get('extra')) for o in failed if o['model']]
        try:
            viol = mod.search(models, SEED, TIER, failed=[(o['group'], o['name']) for o in failed] + errs)
            search_note = 'contract executed on the compiled code: %s' % (getattr(mod, 'SEARCHED', None),)
        except Exception as e:
            search_note = 'replay machinery failed: %r' % (e,)
            if os.environ.get('FVC_DEBUG'):
                traceback.print_exc()
    definite = [o for o in failed if o['status'] == 'refuted' and o['exact']]
    trusted = list(getattr(mod, 'TRUSTED', [])) + COMMON_TRUSTED
    fnset = sorted({f for r in res for f in r['functions']})
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len(obs), 'discharged': len(proved),
            'checker_cmd': 'python3-vt -m fvc.check %s  (z3 %s API; fall back: z3 tactics, cvc5)' % (pid, z3.get_version_string()),
            'trusted_base': trusted,
            'functions_under_contract': sorted(getattr(mod, 'CONTRACTED', [g[0] for g in groups])),
            'functions_executed_from_source': fnset,
            'assumed_contracts': sorted({a for r in res for a in r['assumed']}),
            'by_back_end': _count(o['by'] for o in proved),
            'cover_checks': len(covers),
            'solver_seconds': round(sum(r['smt_s'] for r in res), 2),
            'undischarged': [{'group': o['group'], 'name': o['name'], 'status': o['status']} for o in failed][:40],
            'not_brought_within_reach': [{'group': g, 'reason': e} for g, e in errs][:40],
            'bounded': getattr(mod, 'BOUNDED_NOTE', None),
            'search': search_note,
            'contract_executions_on_compiled_code': EXECUTED[0],
            'samples': [{'group': o['group'], 'name': o['name'], 'by': o['by'], 's': o['s']} for o in obs[:6]],
            'front_end_seconds': round(t_front, 2),
            'notes': sorted({n for r in res for n in r['notes']})[:40],
        },
        'assumptions': trusted,
        'wall_s': 0.0,
        'violations': 0,
    }
    rc = 0
    lines = []
    for k in known_findings(pid):
        lines.append(k)
    if viol is not None and 'known' in viol and viol['known']:
        viol = None
    if viol is not None:
        rp = write_replay(pid, {'property': pid, 'kind': 'failing input on the compiled code', 'failure': viol,
                                'failed_obligations': [o for o in failed][:10], 'errors': errs[:10]})
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif definite:
        rp = write_replay(pid, {'property': pid, 'kind': 'failed obligation, no failing input found',
                                'failed_obligations': definite[:10], 'errors': errs[:10], 'search': search_note})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    ev['violations'] = 1 if rc else 0
    ev['wall_s'] = round(time.time() - t0, 2)
    if not complete and rc == 0:
        ev['coverage']['explanation'] = ('%d of %d obligations undischarged on this tree; for these the run relied on '
                                         'executing the contracts on the compiled code (bounded, not proved)' % (len(obs) - len(proved), len(obs)))
        if getattr(mod, 'LEVEL', 'proof') == 'proof':
            pass
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print('%s %s: %d/%d obligations discharged, %d groups, %.1fs%s' % (
        pid, 'ok' if rc == 0 else 'VIOLATED', len(proved), len(obs), len(groups), time.time() - t0,
        '' if complete else ' (incomplete: %d failed, %d unsupported)' % (len(failed), len(errs))))
    return rc


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def write_replay(pid, obj):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.json')
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
    return p


COMMON_TRUSTED = [
    'machine arithmetic: IEEE doubles are treated as extended reals (NaN and infinities modelled exactly; rounding, overflow and the sign of zero are not)',
    'machine arithmetic: integers are mathematical, with modular wrap only at unsigned subtraction and narrowing casts of constants',
    'front end: clang 18 parses the sources as the project build does (gnu++11, NDEBUG, FL_BACKTRACE); the fvc executor interprets that AST faithfully',
    'assumed contracts on dependencies: std::vector, std::string, std::unique_ptr, std::pair, std::map, streams and <cmath> behave as modelled in fvc/stdlib.py',
    'exception messages, logging and std::cout/cerr output are not part of any contract; memory exhaustion is not modelled',
    'termination is not proved (partial correctness)',
    'solvers: z3 and cvc5 are trusted',
]
