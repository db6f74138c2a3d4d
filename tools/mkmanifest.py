#!/usr/bin/env python3
"""Write /verif/MANIFEST.json. Levels and notes of every claimed check live here."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
T = {
 'H': ('property-based testing (proptest) with exhaustive boundary sweeps, differential against independent reference implementations',
       'Exploration: every case agrees with an independent implementation of the standard; trusts that implementation (cross-validated against Python hashlib/hmac).'),
 'M': ('property-based testing (proptest) with boundary-biased operands, differential against big-integer arithmetic',
       'Exploration over all predefined fields; trusts num-bigint used as oracle on plain integers.'),
 'E': ('property-based testing (proptest) over key pairs, groups and messages against big-integer modular arithmetic',
       'Exploration over all predefined fields and generated RSA key pairs; trusts num-bigint used as oracle.'),
 'R': ('stateful model-based property testing (proptest histories with loss, reorder, replay) against a reference Double Ratchet model',
       'Exploration of bounded generated histories; trusts the reference model in the harness.'),
 'S': ('property-based testing (proptest) of simulated multi-party runs with generated schedules, against plain-value computation',
       'Exploration of bounded parties, values and schedules; trusts the harness network, share arithmetic and big-integer oracle.'),
}
over = {}
exec(open(root + '/tools/manifest_notes.py').read(), {'over': over})
claimed = over.pop('claimed')
na = over.pop('not_applicable', [])
checks = []
for p in props:
    i = p['id']
    if i not in claimed:
        continue
    t, n = T[i[0]]
    t, n = over.get(i, (t, n))
    checks.append({
        'property': i,
        'quick_cmd': './run.sh ' + i,
        'thorough_cmd': 'env VERIF_TIER=thorough ./run.sh ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': t,
        'level': 'exploration',
        'level_note': n,
    })
ids = [c['property'] for c in checks]
m = {
    'version': 1,
    'setup_cmd': './run.sh build',
    'checks': checks,
    'not_applicable': na + [{'property': p['id'], 'reason': 'check not built yet'} for p in props
                            if p['id'] not in ids and p['id'] not in [x['property'] for x in na]],
    'notes': 'No hooks in /repo: every check uses the public API. VERIF_SEED selects the seed, VERIF_TIER=thorough the deep tier.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
