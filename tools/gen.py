#!/usr/bin/env python3
"""Derive properties.jsonl and MANIFEST.json from engine/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, 'engine'))
import props

def row(pid, p):
    return {'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}

rows = [row(k, v) for k, v in props.PROPS.items()] + [row(n['pid'], n) for n in props.NOT_APPLICABLE]
rows.sort(key=lambda r: r['id'])
for r in rows:
    assert len(r['title']) <= 80, r['id']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'cd driver && cargo +nightly build --offline',
       'checks': [{'property': k, 'quick_cmd': 'python3 check.py ' + k,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
                   'technique': v['technique'], 'level': 'other', 'level_note': v['note']}
                  for k, v in sorted(props.PROPS.items())],
       'not_applicable': [{'property': n['pid'], 'reason': n['reason']} for n in props.NOT_APPLICABLE],
       'notes': 'No hooks: the checks read the MIR of /repo as it is and see private items there.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props.PROPS), 'claimed', len(props.NOT_APPLICABLE), 'not applicable')

# ---------------------------------------------------------------- DESIGN.md
def section(text, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + '\n' + text[j:]

floors = json.load(open(os.path.join(V, 'floors.json')))
body = []
for k, v in sorted(props.PROPS.items()):
    body.append('### %s %s\n\n%s\n\nOver: %s.\n\nDecided by: %s\nTechnique: %s. %s\n' % (
        k, v['title'], v['statement'], v['quant'], v['rule'], v['technique'], v['note']))
    rs = [r for r in sorted(floors) if r.split('::')[-1].startswith('claim_%s_' % k.lower())]
    for r in rs:
        body.append('* `%s`: %s' % (r.split('::', 1)[1], '; '.join(floors[r]) or 'implicit obligations only'))
    for f in v.get('extra', []):
        body.append('* whole-program check `engine/extras.py: %s`' % f.__name__)
    body.append('')
nas = ['* **%s** %s: %s' % (n['pid'], n['title'], n['reason']) for n in props.NOT_APPLICABLE]
sd = os.path.join(V, 'seeded')
seeds = []
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    seeds.append('| %s | %s |' % (s, json.load(open(os.path.join(sd, s, 'meta.json')))['property']))
path = os.path.join(V, 'DESIGN.md')
text = open(path).read()
text = section(text, 'properties', '\n'.join(body))
text = section(text, 'not applicable', '\n'.join(nas))
if seeds:
    text = section(text, 'seeds', '| seed | property = check that catches it |\n|---|---|\n' + '\n'.join(seeds))
open(path, 'w').write(text)
