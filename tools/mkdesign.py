"""fill the table of planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | breaks |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s (needs: %s) |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'@SEEDS@|\| planted bug \|.*?(?=\n\n)', lambda _: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
