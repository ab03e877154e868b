#!/usr/bin/env python3
# Writes MANIFEST.json from the property list and the checks that exist under src/.
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
technique = {}
for f in glob.glob(here + '/src/C??_*.cpp'):
    t = re.search(r'// technique: (.*)', open(f).read())
    n = re.search(r'// note: (.*)', open(f).read())
    l = re.search(r'= \{"C\d\d", "(\w+)"', open(f).read())
    technique[os.path.basename(f)[:3]] = (t.group(1) if t else 'stateful model-based property testing (random histories, shrinking) with ASan/UBSan; libFuzzer in the thorough tier',
                                         n.group(1) if n else '', l.group(1) if l else 'exploration')
checks, na = [], []
for p in props:
    i = p['id']
    if i in technique:
        t, n, l = technique[i]
        checks.append({'property': i, 'quick_cmd': f'bash run_check.sh {i} quick', 'thorough_cmd': f'bash run_check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': l,
                       'level_note': (n + ' ' if n else '') + 'Randomised search: shows the presence of violations in the explored histories, not their absence in all others; trusts the harness, its reference model, the compilers and sanitizers.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: every check compiles the working tree of /repo unchanged.'}, open(here + '/MANIFEST.json', 'w'), indent=1)
