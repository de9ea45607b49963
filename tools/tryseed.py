"""Run the check of a planted bug's property (or the checks named with --props A,B) against a scratch copy of /repo carrying the bug."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import plant
props = None
ids = []
for a in sys.argv[1:]:
    if a.startswith('--props='):
        props = a[8:].split(',')
    else:
        ids.append(a)
ids = ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for i in ids:
    d = tempfile.mkdtemp(prefix='fvc-seed-')
    v = tempfile.mkdtemp(prefix='fvc-out-')
    try:
        subprocess.run('cp -a /repo/src /repo/fuzzylite /repo/fl %s/' % d, shell=True, check=True)
        if i in plant.SEEDS:
            for f, old, new in plant.SEEDS[i]['edits']:
                t = open(os.path.join(d, f)).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(os.path.join(d, f), 'w').write(t.replace(old, new))
            ps = props or [plant.SEEDS[i]['prop']]
        else:
            patch = i if os.path.exists(i) else os.path.join(ROOT, 'seeded', i, 'patch.diff')
            subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', os.path.abspath(patch)], check=True)
            ps = props or [json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))['property']]
        for p in ps:
            t = time.time()
            r = subprocess.run(['python3-vt', '-m', 'fvc.check', p], cwd=ROOT, env=dict(os.environ, FVC_REPO=d, FVC_OUT=v), capture_output=True, text=True)
            ob = ''
            try:
                rp = json.load(open(os.path.join(v, 'replay', p + '.json')))
                ob = json.dumps(rp.get('failure') or [x['group'] + ':' + x['name'] for x in rp['failed_obligations']][:2])[:260]
            except Exception as e:
                ob = repr(e)
            print('%-34s %s rc=%d %.0fs %s | %s' % (i, p, r.returncode, time.time() - t, r.stdout.strip().replace('\n', ' / ')[-170:], ob if r.returncode else ''), flush=True)
            if r.returncode not in (0, 1):
                print(r.stderr[-1500:])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(v)
