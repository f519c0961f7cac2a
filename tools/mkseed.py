"""mkseed.py FILE.py: FILE defines a list SEEDS of dicts id, prop, edits=[(file, old, new)], needs, breaks, demo (C text), flags (gcc flags), args.
Confirms every seed in a scratch copy of /repo and stores it under /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json
V = '/verif/seeded'
DEMO = '''#!/bin/sh
# cwd: the repository root, after its build
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -std=gnu99 -O1 -g -w %(flags)s -Isrc -Inpy_array -I"$D" -o "$W/demo" "$D/demo.c" %(skip)s -lzip -ldl -lm || exit 3
cd "$W" || exit 2
OMP_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=%(leak)d timeout 120 ./demo
'''
def sh(c, **k):
    p = subprocess.run(c, shell=True, capture_output=True, text=True, **k); return p.returncode, (p.stdout + p.stderr)
def one(s):
    W = '/tmp/seedwt/' + s['id']
    shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/seedwt', exist_ok=True)
    sh('git -C /repo worktree prune; cp -a /repo %s' % W)
    d = os.path.join(V, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', '-mno-avx'), leak=s.get('leak', 0), skip='$(ls src/*.c npy_array/*.c)'))
    os.chmod(d + '/demo.sh', 0o755)
    rc, out = sh('sh %s/demo.sh' % d, cwd=W)
    if rc: return 'demo fails on the unchanged tree: %d %s' % (rc, out[-400:])
    for f, a, b in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(a) < 1: return 'text not found in %s: %s' % (f, a)
        k = s.get('nth', {}).get(f)
        if k is None and t.count(a) != 1: return 'ambiguous %d in %s: %s' % (t.count(a), f, a)
        if k is None: t = t.replace(a, b)
        else:
            i = -1
            for _ in range(k + 1): i = t.index(a, i + 1)
            t = t[:i] + b + t[i + len(a):]
        open(p, 'w').write(t)
    rc, diff = sh('git diff', cwd=W)
    open(d + '/patch.diff', 'w').write(diff)
    rc, out = sh('sh %s/demo.sh' % d, cwd=W)
    if rc in (0, 2, 3): return 'demo does not fail with the change: %d %s' % (rc, out[-300:])
    res = out.strip().splitlines()[-1:] 
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    # the stable tests, in /repo itself (the test scripts are tied to that path)
    if os.path.exists('/tmp/seedtest.json'): os.unlink('/tmp/seedtest.json')
    rc, out = sh('git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/seedtest.json 2>/dev/null | tail -1' % d)
    sh('git -C /repo checkout -- .')
    r = json.load(open('/tmp/seedtest.json')) if os.path.exists('/tmp/seedtest.json') else {}
    base = json.load(open('/opt/vp/BASELINE.json'))
    okset = set(map(str, r.get('passed', []))) 
    shutil.rmtree(W, ignore_errors=True)
    return 'ok; tests: %s; demo: %s' % (out.strip()[-90:], ' '.join(res)[:150])
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    r = one(s); print(s['id'], r, flush=True)
    if not r.startswith('ok'): shutil.rmtree(os.path.join(V, s['id']), ignore_errors=True)
sh('bash /opt/vp/build.sh')
