"""The table of the planted bugs in DESIGN.md (section 6), out of seeded/*/meta.json and the given results (id=caught by)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(a.split('=') for a in sys.argv[1:])
out = ['## 6. Planted bugs', '', 'Each is in `seeded/<id>/` with a demonstration; all keep the stable tests passing.', '',
       '| bug | what it needs | caught by |', '|----|----|----|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s |' % (d, m['needs'], caught.get(d, m['property'])))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
i = s.find('## 6. Planted bugs')
s = (s[:i] if i >= 0 else s.replace('SEEDED_TABLE\n', '')).rstrip() + '\n\n' + '\n'.join(out) + '\n'
open(p, 'w').write(s)
