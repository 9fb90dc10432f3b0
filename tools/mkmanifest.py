import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import levels
checks = []
for p in sorted(levels.LEVEL):
    l = levels.LEVEL[p]
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py %s' % p,
        technique=l.get('technique', 'bounded search of the real code against an independent oracle (stand-in)'),
        level=l['level'], level_note=l.get('note', 'bounded stand-in; see DESIGN.md')))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks,
    not_applicable=[dict(property='C19', reason='Aliasing of references over all client programs is a property of the Rust memory model that no contract on these functions can express; the defect (IterMut and find_groups_mut hand out overlapping &mut) is recorded in known_findings.txt and DESIGN.md.')])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
