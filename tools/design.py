"""writes DESIGN.md: the sections below, and per property the rule (from the last evidence), oracle, bounds and planted bugs"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import claims
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
text = open(os.path.join(V, 'tools', 'design.md')).read()
bugs = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['what_it_breaks'].split('. ')[0].strip()))
kf = json.load(open(os.path.join(V, 'known_findings.json')))
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
out = []
for p in props:
    i = p['id']
    out.append('### %s — %s\n' % (i, p['title']))
    if i not in claims.CLAIMS:
        out.append('Not applicable. ' + claims.NA[i] + '\n')
        continue
    t, n = claims.CLAIMS[i]
    ev = os.path.join(V, 'evidence', i + '.json')
    e = json.load(open(ev)) if os.path.exists(ev) else {}
    c = e.get('coverage', {})
    out.append('*Method.* %s (`pq/checks/%s.py`).\n' % (t[0].upper() + t[1:], i.lower()))
    out.append('*Rule.* ' + c.get('explanation', '') + '\n')
    out.append('*Bounds and trust.* ' + n + '\n')
    for k in ('oracle', 'why', 'note'):
        if notes.get(i, {}).get(k):
            out.append({'oracle': '*Oracle.* ', 'why': '*Why not tests.* ', 'note': '*Remarks.* '}[k] + notes[i][k] + '\n')
    if p.get('why_tests_cant'):
        out.append('*Beyond the tests.* ' + p['why_tests_cant'][0].upper() + p['why_tests_cant'][1:] + '.\n')
    if 'wall_s' in e:
        out.append('*Cost.* about %d s (after the 10 s of the shared dump), %s obligations on the current tree.\n' % (max(1, round(e['wall_s'])), c.get('obligations', 'n/a')))
    if bugs.get(i):
        out.append('*Planted bugs caught.* ' + '; '.join('`%s` (%s)' % (a, b) for a, b in bugs[i]) + '.\n')
    fs = [f['what'] for f in kf['findings'] if f['property'] == i]
    if fs:
        out.append('*Known findings.* %d, see known_findings.json: %s.\n' % (len(fs), '; '.join(fs)))
    fx = [f for f in kf['fixed'] if 'property=%s ' % i in f]
    if fx:
        out.append('*Repaired.* ' + '; '.join(f.split(' ', 2)[2] for f in fx) + '.\n')
text = text.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXED@@', '\n'.join('- ' + f[7:] for f in kf['fixed']))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
