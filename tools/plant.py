"""Generate and confirm planted bugs:  python3 tools/plant.py [--noconfirm] ID...   (table in seeds.py)"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
DEMO = '''#!/bin/bash
# compiles the program beside it against the library built from /repo and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
LIB=$(ls /repo/_build/bin/libfuzzylite-static*.a /repo/_build/lib/libfuzzylite-static*.a 2>/dev/null | head -1)
g++ -std=gnu++11 -w -O1 -I/repo "$D/demo.cpp" "$LIB" -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


exec(open(os.path.join(ROOT, 'tools', 'seeds.py')).read())


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


PRE = '''#include <cmath>
#include <cstdio>
#include <memory>
#include "fuzzylite/Headers.h"
using namespace fl;
static int bad = 0;
#define EXPECT(C) do { if (!(C)) { std::printf("failed: %s\\n", #C); bad = 1; } } while (0)
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) < 1e-5; }
int main() {
    try {
'''
POST = '''
    } catch (std::exception& e) { std::printf("error: %s\\n", e.what()); bad = 1; }
    return bad;
}
'''


def make(i, confirm=True):
    s = SEEDS[i]
    d = os.path.join(ROOT, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
    try:
        for f, old, new in s['edits']:
            p = os.path.join('/repo', f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d matches of %r in %s' % (i, t.count(old), old, f)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'] if 'int main' in s['demo'] else PRE + s['demo'] + POST)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if not confirm:
            return
        r = sh('bash /opt/vp/test.sh /tmp/plant.json')
        try:
            res = json.load(open('/tmp/plant.json'))
        except Exception:
            res = {'passed': [], 'failed': ['?']}
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests')
        lost = [t for t in stable if t not in res['passed']]
        dm = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(i, s['prop'], 'tests lost:', lost[:3], 'demo with patch: %d %s' % (dm.returncode, dm.stdout.strip()[:150] + dm.stderr[:300]), flush=True)
        ok = not lost and dm.returncode != 0 and dm.returncode != 3
    finally:
        sh('git -C /repo checkout -- .')
    return ok


def clean(ids):
    r = sh('bash /opt/vp/build.sh')
    ok = True
    for i in ids:
        dm = sh('bash %s/seeded/%s/demo.sh' % (ROOT, i), cwd='/repo')
        if dm.returncode:
            print(i, 'DEMO FAILS ON THE UNCHANGED TREE', dm.stdout, dm.stderr[:500])
            ok = False
    return ok


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ids = a or [i for i in SEEDS if not os.path.exists(os.path.join(ROOT, 'seeded', i, 'patch.diff'))]
    good = [i for i in ids if make(i, '--noconfirm' not in sys.argv)]
    print('bad:', [i for i in ids if i not in good])
    print('clean:', clean(ids))
