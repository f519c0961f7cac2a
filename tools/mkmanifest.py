"""Writes /verif/MANIFEST.json. CLAIMED: property -> (level, note)."""
import json, os
T = 'contract-based deductive verification: symbolic execution + loop summarisation of the real code\'s LLVM IR, obligations discharged by z3 and a polynomial/SUM normaliser'
C = {}
def claim(p, level, note, tech=T): C[p] = (level, note, tech)
N = {}
def na(p, why): N[p] = why
exec(open(os.path.join(os.path.dirname(__file__), 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
m = dict(version=1, setup_cmd='/verif/tools/setup.sh', checks=[], not_applicable=[])
for i in ids:
    if i in C:
        l, n, t = C[i]
        m['checks'].append(dict(property=i, quick_cmd='/verif/check.py %s --tier quick' % i, thorough_cmd='/verif/check.py %s --tier thorough' % i,
                                technique=t, level=l, level_note=n))
    else: m['not_applicable'].append(dict(property=i, reason=N.get(i, 'contracts not written yet')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
