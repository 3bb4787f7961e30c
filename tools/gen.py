"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
import design_notes
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {d['property']: d for d in props.NOT_APPLICABLE}
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
  for p in props.PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
    anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']], hook_needed=None)
    if p['observe']:
      anchors['observe_at'] = p['observe']
    f.write(json.dumps(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']),
        why_tests_cant=p['why'], anchors=anchors)) + '\n')
checks = [dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'],
               thorough_cmd='./run.sh %s thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'],
               technique=p['technique'], level='exploration',
               level_note=p['note'])
          for p in props.PROPS if p['id'] not in na]
manifest = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import jax, numpy, scipy, networkx, ml_collections"',
                checks=checks, not_applicable=props.NOT_APPLICABLE,
                notes='No hooks in /repo: the monitors wrap models, samplers, savers and loaders at their public boundary. Each check starts fresh processes that import /repo/discs from the working tree.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
  json.dump(manifest, f, indent=1)
  f.write('\n')
print(len(checks), 'checks')

# DESIGN.md
t = open(os.path.join(here, 'tools', 'DESIGN.tmpl.md')).read()
parts = []
for p in props.PROPS:
  parts.append('### %s %s\n\n*Decided by* %s.\n\n%s\n\n%s Quick: %s. %s\n' % (
      p['id'], p['title'], p['technique'], design_notes.NOTES.get(p['id'], '').strip(),
      p['note'], p.get('cost', 'about a minute on 8 cores'),
      'Tests cannot: ' + p['why']))
t = t.replace('PROPERTIES', '\n'.join(parts))
seeded = os.path.join(here, 'tools', 'seeded.md')
t = t.replace('SEEDED', open(seeded).read() if os.path.exists(seeded) else '(none yet)')
sw = os.path.join(here, 'tools', 'sweeps.md')
t = t.replace('SWEEPS', open(sw).read() if os.path.exists(sw) else '(none yet)')
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
