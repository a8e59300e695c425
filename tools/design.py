"""Regenerate the per-property section of DESIGN.md from the evidence of the last run (python3 tools/design.py)."""
import json, glob, os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
M = json.load(open('MANIFEST.json'))
P = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
tech = {c['property']: c for c in M['checks']}
na = {n.get('property') or n.get('id'): n['reason'] for n in M['not_applicable']}
out = []
for pid in P:
    out.append('### %s %s' % (pid, P[pid]['title']))
    if pid in na:
        out.append('Not claimed: %s.\n' % na[pid].rstrip('.')); continue
    c = tech[pid]
    f = 'evidence/%s.json' % pid
    ex = ''; wall = ''
    if os.path.exists(f):
        d = json.load(open(f)); e = [x for x in (d if isinstance(d, list) else [d]) if 'coverage' in x][0]
        ex = e['coverage'].get('explanation', '').split(': ', 1)[-1]; wall = round(e['wall_s'])
    out.append('*Decided by* %s.' % c['technique'].split(': ', 1)[-1])
    if ex:
        out.append('\n*Rules.*\n')
        for r in ex.split('; '):
            m = re.match(r'(\w[\w-]*) = (.*)', r)
            out.append('- `%s`: %s' % m.groups() if m else '  ' + r)
    n = props.TECHS.get(pid, ('', ''))[1] or c.get('level_note', '')
    if n: out.append('\n*Bounds and trust.* ' + n)
    out.append('')
s = open('DESIGN.md').read()
a, b = '<!-- properties -->', '<!-- /properties -->'
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + '\n\n' + '\n'.join(out) + '\n' + s[j:])
