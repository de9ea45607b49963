"""Compile /repo's current sources and drive them: replay of counterexamples and execution of contracts."""
import atexit, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import front

_dir = None
_objs = None
FLAGS = ['-DFL_BACKTRACE', '-I' + front.REPO, '-O1', '-g0', '-DNDEBUG', '-std=gnu++11', '-w', '-fPIC']
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native')


class BuildError(Exception):
    pass


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='fvc-native-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir


def lib(extra=()):
    """Object files of every source of the library, from the current working tree."""
    global _objs
    if _objs is not None:
        return _objs
    d = scratch()
    src = []
    for r, _, fs in os.walk(os.path.join(front.REPO, 'src')):
        src += [os.path.join(r, f) for f in fs if f.endswith('.cpp') and f != 'main.cpp']

    def one(s):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        p = subprocess.run(['g++'] + FLAGS + list(extra) + ['-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s: %s' % (s, p.stderr[-300:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        _objs = list(ex.map(one, sorted(src)))
    a = os.path.join(d, 'libfl.a')
    subprocess.run(['ar', 'rcs', a] + _objs, check=True)
    _objs = [a]
    return _objs


def driver(name, extra=()):
    """Build native/<name>.cpp against the library; path of the binary."""
    d = scratch()
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    with ThreadPoolExecutor(2) as ex:
        fo = ex.submit(lambda: subprocess.run(['g++'] + FLAGS + list(extra) + ['-I' + HERE, '-c', os.path.join(HERE, name + '.cpp'),
                                                                             '-o', out + '.o'], capture_output=True, text=True))
        objs = lib(extra)
        p = fo.result()
    if p.returncode:
        raise BuildError('%s: %s' % (name, p.stderr[-2000:]))
    p = subprocess.run(['g++', out + '.o'] + objs + ['-o', out] + list(extra), capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s: %s' % (name, p.stderr[-2000:]))
    return out


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))


def run(binary, args=(), inp=None, timeout=120):
    p = subprocess.run([binary] + list(args), input=inp, capture_output=True, text=True, timeout=timeout,
                       cwd=scratch(), preexec_fn=_limit)
    return p.returncode, p.stdout, p.stderr


def fmt(x):
    import math
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        return repr(x)
    return str(x)
