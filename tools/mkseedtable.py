"""mkseedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| `%s`: %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
