import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.catalog import PROPS
try:
    from tools.catalog import NA
except ImportError:
    NA = []
from vf import runner
prog = runner.load_program()
have = {}
for o in runner.obligations(prog):
    for p in o.props:
        have.setdefault(p, []).append(o)
lines, checks, na = [], [], []
for p in PROPS:
    a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
    if p['state']:
        a['state'] = p['state']
    if p['observe']:
        a['observe_at'] = p['observe']
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)))
    reason = dict(NA).get(p['id'])
    if reason:
        na.append(dict(property=p['id'], reason=reason))
    elif p['id'] in have:
        n = len(have[p['id']])
        checks.append(dict(
            property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
            thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
            technique=p['note'] or 'gated value-flow summaries compared with a reference model (static)',
            level='other',
            level_note='Static: %d obligations, each on the summary of a function of the current source over all inputs; '
                       'loops are summarised, not unrolled. Trusts the models of library calls in vf/models.py; what '
                       'cannot be interpreted is reported as undecided, never as a violation.' % n))
    else:
        na.append(dict(property=p['id'], reason='check under construction'))
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q vf check.py', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
extra = set(have) - {p['id'] for p in PROPS}
print('without text:', sorted(extra))

# DESIGN.md
out = [open(os.path.join(HERE, 'tools', 'design.head.md')).read()]
out.append('## Per property\n')
out.append('"vs model" obligations compare the named function with the model of that name in `spec/`.\n')
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    reason = dict(NA).get(p['id'])
    if reason:
        out.append('Not applicable: %s.\n' % reason)
        continue
    out.append('Over %s. Beyond tests: %s\n' % (p['text'], p['why']))
    obs = have.get(p['id'], [])
    tg = {}
    for o in obs:
        if o.target:
            mod, _, q = o.target.partition(':')
            tg.setdefault(mod.replace('sims_pars.', ''), []).append(q)
    for mod in tg:
        out.append('* vs model, `%s`: %s' % (mod, ', '.join(sorted(tg[mod]))))
    for o in obs:
        if not o.target:
            out.append('* analysis: %s' % o.name)
    out.append('')
out.append('## Planted bugs\n')
out.append('| seed | property | what it breaks | caught by |\n|---|---|---|---|')
sd = os.path.join(HERE, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'),
                                       m.get('caught_by', 'check of ' + m['property'])))
out.append('')
out.append('## Defects repaired and findings\n')
out.append('`KNOWN_FINDINGS.txt` lists each repair (`fix:` commits in /repo) and each defect that is recorded only.\n')
extra_md = os.path.join(HERE, 'tools', 'design.tail.md')
if os.path.exists(extra_md):
    out.append(open(extra_md).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
