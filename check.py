#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--jobs REGEX] [-v]

Re-lowers /repo's current sources, generates and discharges every obligation of the
contract tasks that belong to PROPERTY, rewrites evidence/PROPERTY.json, and reports."""
import sys, os, json, time, re, argparse, importlib, glob, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vc'), os.path.join(HERE, 'contracts'), os.path.join(HERE, 'replay')]
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':      # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)

def load():
    import harness
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        importlib.import_module(os.path.basename(p)[:-3])
    return harness

class Timeout(BaseException): pass

def work(args):
    i, limit, scale = args
    import harness, solve
    job = harness.JOBS[i]; solve.SCALE = scale; solve.SEED = 0 if scale == 1 else 17
    def onalarm(*_): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        r = harness.run_job(job)
    except Timeout:
        r = dict(job=job.key, name=job.name, cfg=job.cfg, functions=list(job.functions), bounded=job.bounded, obls=[], error='timeout: not discharged within %d s' % limit,
                 inlined=[], contracts=[], externals=[], notes=[], z3=0, z3_time=0, syntactic=0, wall=round(time.time() - t0, 1))
    finally:
        signal.alarm(0)
    return i, r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs'); ap.add_argument('-v', action='store_true'); ap.add_argument('--noreplay', action='store_true')
    ap.add_argument('-n', type=int, default=8)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    harness = load()
    sel = [i for i, j in enumerate(harness.JOBS) if a.prop in j.props and (tier == 'thorough' or j.tier == 'quick')
           and (not a.jobs or re.search(a.jobs, j.key))]
    limit = 420 if tier == 'quick' else 1500
    results = []
    # known-expensive jobs first
    costs = {}
    try: costs = json.load(open(os.path.join(HERE, 'vc', 'costs.json')))
    except Exception: pass
    sel.sort(key=lambda i: -costs.get(harness.JOBS[i].key, 5))
    def select(r):
        kinds = harness.JOBS[r['i']].props[a.prop]
        r['obls'] = [o for o in r['obls'] if kinds is None or o['kind'] in kinds]
        return bool(r['error']) or any(not o['ok'] for o in r['obls'])
    def runall(todo, limit, scale):
        with mp.Pool(min(a.n, len(todo)), maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(work, [(i, limit, scale) for i in todo]):
                r['i'] = i; failed = select(r)
                bad = [o for o in r['obls'] if not o['ok']]
                if a.v or failed:
                    print('%-44s obligations=%d failed=%d wall=%.1fs%s' % (r['job'], len(r['obls']), len(bad), r['wall'], ' ERROR ' + r['error'][:1500] if r['error'] else ''), flush=True)
                    if a.v:
                        for o in bad[:6]: print('     %s:%s %s %s  %s' % (o['fn'], o['line'], o['kind'], o['desc'], (o['goal'] or '')[:300]))
                yield i, r, failed
    if sel:
        again = []
        for i, r, failed in runall(sel, limit, 1):
            results.append(r)
            if failed: again.append(i)
        # an undecided obligation is tried once more, with larger limits and another seed
        if again and time.time() - t0 < limit:
            for i, r, failed in runall(again, 180 if tier == 'quick' else limit, 3):
                if not failed: r['notes'].append('discharged in the second attempt'); results[:] = [r if x['i'] == i else x for x in results]
    import report
    rc = report.finish(HERE, a.prop, tier, results, harness, t0, replay=not a.noreplay)
    sys.exit(rc)

if __name__ == '__main__': main()
