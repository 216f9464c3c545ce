#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(props.PROPS, key=lambda p: p['pid']):
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mechanism']],
                        'observe_at': list(p['observe']) or ['public API calls of ' + ', '.join(p['files'][:3])],
                        'hook_needed': None}}) + '\n')
na = {p for p, _ in props.NA}
man = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
       'hooks': {'guard': 'none', 'enable': 'no hooks: every check drives the unmodified sources through their public API, compiled with sanitizers', 'source_commits': []},
       'checks': [], 'not_applicable': [{'property': p, 'reason': r} for p, r in props.NA]}
for p in sorted(props.PROPS, key=lambda p: p['pid']):
    if p['pid'] in na:
        continue
    assert p['pid'] in checks.CHECKS, p['pid']
    man['checks'].append({
        'property': p['pid'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['pid'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['pid'],
        'evidence_file': 'evidence/%s.json' % p['pid'], 'technique': 'runtime monitoring: ' + p['technique'],
        'level': 'exploration',
        'level_note': p['note'] or 'Holds on every execution observed; seeded random and directed workloads bounded by case counts, judged by an oracle independent of the code, with sanitizers as memory monitors.'})
for k in checks.CHECKS:
    if "--draft" in sys.argv: break
    assert any(c['property'] == k for c in man['checks']), 'check without property: ' + k
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')

# ---- DESIGN.md
import glob, notes
kf = json.load(open(V + '/known-findings.json'))
out = [open(V + '/lib/design_head.md').read()]
cks = {c['property']: c for c in man['checks']}
for p in sorted(props.PROPS, key=lambda p: p['pid']):
    pid = p['pid']
    if pid in na:
        continue
    c = checks.CHECKS[pid]
    o, lim = notes.NOTES.get(pid, ('', ''))
    out.append('### %s %s\n' % (pid, p['title']))
    out.append(p['statement'] + '\n')
    out.append('* Code: ' + ', '.join('`%s`' % f for f in p['files']))
    out.append('* Decided by: %s (`%s`)' % (p['technique'], '`, `'.join('harness/' + h for h in c['harness'] or ['mon.hpp'])))
    if o: out.append('* ' + o)
    out.append('* Workload: ' + c['rule'] + '.')
    out.append('* Must observe: ' + ', '.join(c.get('must_see', [])) + '.')
    for a in c.get('assumptions', []): out.append('* Assumes: ' + a + '.')
    if lim: out.append('* Limits: ' + lim)
    nf = sum(1 for f in kf['fixed'] if f.get('property') == pid or ('property=%s ' % pid) in str(f))
    if nf: out.append('* Defects repaired: %d.' % nf)
    out.append('')
t = open(V + '/lib/design_tail.md').read()
t = t.replace('TABLE_NA', '\n'.join('* %s: %s.' % x for x in props.NA)).replace('COUNT_FIX', str(len(kf['fixed'])))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
sc = json.load(open(V + '/lib/seedresults.json')) if os.path.exists(V + '/lib/seedresults.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), sc.get(i, m['property'])))
t = t.replace('TABLE_SEEDS', '\n'.join(rows))
out.append(t)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
