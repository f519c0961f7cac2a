"""runrefactors.py FILE.py [ids]: behaviour-preserving edits in scratch copies of /repo; the checks named have to stay quiet (exit 0)."""
import sys, os, subprocess, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2:]
for r in ns['REF']:
    if sel and r['id'] not in sel: continue
    W = '/tmp/rf/' + r['id']; shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/rf', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    bad = None
    for e in r['edits']:
        f, a, b = e[:3]; p = os.path.join(W, f); t = open(p).read(); n = t.count(a)
        if n == 0 or (n > 1 and len(e) < 4): bad = '%d places in %s: %s' % (n, f, a[:60])
        open(p, 'w').write(t.replace(a, b))
    if bad: print(r['id'], 'BAD', bad, flush=True); continue
    for fl in ('-mno-avx', '-mavx2 -mfma', '-mavx512f -mfma'):
        p = subprocess.run('for f in src/*.c npy_array/*.c; do gcc -std=gnu99 -Wall -fsyntax-only %s -Isrc -Inpy_array $f 2>&1 | grep -E "error|undeclared" ; done' % fl, shell=True, cwd=W, capture_output=True, text=True)
        if p.stdout: print(r['id'], 'DOES NOT COMPILE', p.stdout[:300]); bad = 1; break
    if bad: continue
    for c in r['props']:
        p = subprocess.run(['./check.py', c], cwd='/verif', env=dict(os.environ, VERIF_REPO=W, VERIF_TIER='quick'), capture_output=True, text=True)
        out = p.stdout.splitlines()
        ko = [l for l in out if 'VIOLATION' in l or 'FAILED' in l]
        print('%-28s %s rc=%d %s' % (r['id'], c, p.returncode, '' if p.returncode == 0 else 'ALARM ' + ' | '.join(k[:230] for k in ko[:4]) + p.stderr[-200:]), flush=True)
    shutil.rmtree(W, ignore_errors=True)
