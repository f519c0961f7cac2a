"""evidence, known findings and the verdict line"""
import os, json, time, subprocess, importlib, shutil

TRUSTED = [
    'clang-18 lowering of the translation units to LLVM IR and the IR passes sroa/mem2reg/simplifycfg/instsimplify/loop-simplify/lcssa',
    'the VC generator in /verif/vc (IR semantics, loop summarisation, obligation generation)',
    'z3 (SMT back end) and the polynomial/SUM normaliser in /verif/vc/solve.py',
    'semantics table of the x86 intrinsics and libc functions in /verif/vc/intrinsics.py',
]
ASSUME = [
    'float arithmetic is treated as real arithmetic (rounding, overflow to inf and NaN inputs are outside the proof)',
    'OpenMP pragmas are ignored: parallel loops are verified in their sequential semantics',
    'distinct pointer parameters are distinct objects unless the contract says otherwise',
]

def known(here):
    out = []
    p = os.path.join(here, 'known_findings.json')
    if os.path.exists(p): out = json.load(open(p)).get('open', [])
    return out

def finish(here, prop, tier, results, harness, t0, replay=True):
    total = sum(len(r['obls']) for r in results)
    failed = []
    for r in results:
        for o in r['obls']:
            if not o['ok']: failed.append(dict(job=r['job'], obligation='%s:%s:%s %s' % (o['fn'], o['line'], o['kind'], o['desc']), fn=o['fn'], kind=o['kind'], desc=o['desc'], goal=o['goal'], facts=o['facts']))
        if r['error']:
            failed.append(dict(job=r['job'], obligation='%s: verification condition generation' % r['name'], fn=r['name'], kind='error', desc=r['error'], goal=None, facts=None))
        elif not r['obls']:
            failed.append(dict(job=r['job'], obligation='%s: no obligations generated (vacuous)' % r['name'], fn=r['name'], kind='vacuous', desc='', goal=None, facts=None))
    if not results:
        failed.append(dict(job='-', obligation='no contract tasks for this property', fn='-', kind='vacuous', desc='', goal=None, facts=None))
    kn = [k for k in known(here) if k['property'] == prop]
    knhit, new = {}, []
    for f in failed:
        for k in kn:
            if k['fn'] == f['fn'] and k['kind'] == f['kind'] and k.get('desc', f['desc']) == f['desc']:
                knhit[k['id']] = k; break
        else: new.append(f)
    for k in knhit.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rp = None; violations = []
    if new:
        outdir = os.path.join(here, 'out'); os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, 'replay-%s.json' % prop)
        conc = None
        if replay:
            try:
                import replays
                conc = replays.search(prop, new, outdir)
            except Exception as e:
                conc = None; print('replay search failed: %s' % e)
        json.dump(dict(property=prop, failed_obligations=new[:60], concrete=conc), open(path, 'w'), indent=1, default=str)
        for f in new[:12]: print('FAILED %s [%s] %s' % (f['obligation'], f['job'], (f['desc'] if f['kind'] == 'error' else '')[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc else ' no-failing-input-found'))
        violations = [dict(obligation=f['obligation'], job=f['job']) for f in new[:60]]
    bounded = [r for r in results if r['bounded']]
    proved = [r for r in results if not r['bounded']]
    props = {}
    try:
        for l in open(os.path.join(here, 'properties.jsonl')):
            if l.strip():
                d = json.loads(l); props[d['id']] = d
    except Exception: pass
    nb = sum(len(r['obls']) for r in bounded)
    np_ = sum(len(r['obls']) for r in proved)
    okp = sum(1 for r in proved for o in r['obls'] if o['ok'])
    okb = sum(1 for r in bounded for o in r['obls'] if o['ok'])
    expl = ('Deductive verification of the current source: %d of %d obligations of %d unbounded contract tasks discharged for all inputs and all iterations' % (okp, np_, len(proved)) +
            ('; %d of %d obligations of %d bounded tasks discharged (bounded, not counted as proved: %s)' % (okb, nb, len(bounded), '; '.join(sorted({r['bounded'] for r in bounded}))) if bounded else '') + '.')
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level(here, prop), wall_s=round(time.time() - t0, 2),
              assumptions=ASSUME + sorted({n for r in results for n in r['notes']}),
              violations=len(new),
              coverage=dict(
                  explanation=expl,
                  obligations=np_, discharged=okp, bounded_obligations=nb, bounded_discharged=okb,
                  checker_cmd='/verif/check.py %s --tier %s' % (prop, tier),
                  trusted_base=TRUSTED + ['assumed contract of external function: ' + x for x in sorted({e for r in results for e in r['externals']})],
                  functions_under_contract=sorted({f for r in results for f in r['functions']}),
                  inlined_functions=sorted({f for r in results for f in r['inlined']}),
                  callee_contracts_used=sorted({f for r in results for f in r['contracts']}),
                  configurations=sorted({r['cfg'] for r in results}),
                  obligations_by_kind=_bykind(results),
                  backends=dict(z3_queries=sum(r['z3'] for r in results), z3_seconds=round(sum(r['z3_time'] for r in results), 2),
                                syntactic_normaliser=sum(r['syntactic'] for r in results)),
                  proved_tasks=[dict(task=r['job'], obligations=len(r['obls']), wall_s=r['wall']) for r in sorted(proved, key=lambda r: r['job'])],
                  bounded_tasks=[dict(task=r['job'], bound=r['bounded'], obligations=len(r['obls']), wall_s=r['wall']) for r in sorted(bounded, key=lambda r: r['job'])],
                  known_findings=[k['id'] for k in knhit.values()], failed_obligations=violations))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d contract tasks, %d obligations, %d failed, %.1fs' % (prop, len(results), total, len(failed), time.time() - t0))
    return 1 if new else 0

def level(here, prop):
    try:
        for c in json.load(open(os.path.join(here, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'

def _bykind(results):
    d = {}
    for r in results:
        for o in r['obls']: d[o['kind']] = d.get(o['kind'], 0) + 1
    return d
