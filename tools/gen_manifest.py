import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import meta
m = dict(version=1, setup_cmd='python3-vt check.py --selftest',
         checks=[dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                      technique=d['technique'], level=d['level'], level_note=d['note']) for p, d in sorted(meta.PROPS.items())],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(meta.NOT_APPLICABLE.items())],
         notes='Contracts and verifier in cdv/, run-time form of the contracts in runtime/. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
