"""runseeds.py [ID...]: run the property's quick check against every planted change (in a scratch copy of /repo)."""
import sys, os, subprocess, json, shutil, time
V = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(V))
for i in ids:
    m = json.load(open('%s/%s/meta.json' % (V, i)))
    W = '/tmp/seedrun/' + i; shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/seedrun', exist_ok=True)
    subprocess.run('cp -a /repo %s && git -C %s apply %s/%s/patch.diff' % (W, W, V, i), shell=True, check=True)
    t = time.time()
    p = subprocess.run(['/verif/check.py', m['property']], cwd='/verif', env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
    l = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
    f = [x for x in p.stdout.splitlines() if x.startswith('FAILED')]
    print('%-26s %s rc=%d %.0fs %s | %s' % (i, m['property'], p.returncode, time.time() - t, (l or ['MISSED'])[0][:110], (f or p.stderr.splitlines()[-1:] or [''])[0][:150]), flush=True)
    shutil.rmtree(W, ignore_errors=True)
