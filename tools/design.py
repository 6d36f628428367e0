"""DESIGN.md from tools/design_head.md, tools/props.py and the rules."""
import importlib, json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'rules'), os.path.join(V, 'tools')]
import gen
seeded = {}
S = os.path.join(V, 'seeded')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    seeded.setdefault(m['property'], []).append((d, m['what_it_breaks']))
w = lambda t: textwrap.fill(' '.join(t.split()), 120)
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
out.append('## Properties\n')
na = []
for d in gen.P:
    i = d['id']
    if not os.path.exists(os.path.join(V, 'rules', i.lower() + '.py')):
        na.append('* **%s %s**: %s' % (i, d['title'], ' '.join((d.get('na') or 'not built').split())))
        continue
    m = importlib.import_module(i.lower())
    out.append('### %s %s\n' % (i, d['title']))
    out.append(w('Property: ' + d['statement']) + '\n')
    out.append(w('Rule: ' + m.RULE) + '\n')
    if getattr(m, "EXPLAIN", None):
        out.append(w("How: " + m.EXPLAIN) + "\n")
    if getattr(m, 'ASSUME', None):
        out.append(w('Assumes: ' + '; '.join(m.ASSUME) + '.') + '\n')
    if i in seeded:
        out.append('Planted bugs this check catches: ' + ', '.join('`%s`' % a for a, b in seeded[i]) + '.\n')
out.append('## Not applicable\n\n' + '\n'.join(map(w, na)) + '\n')
out.append('## Planted bugs\n\n| bug | breaks | caught by |\n|---|---|---|\n' + '\n'.join(
    '| `%s` | %s | %s |' % (a, ' '.join(b.split()).replace('|', '/'), p) for p in sorted(seeded) for a, b in seeded[p]) + '\n')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
