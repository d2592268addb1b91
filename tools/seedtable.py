"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property, check | what it breaks |", "|--|--|--|"]
for d in sorted(glob.glob(here + '/seeded/s*')):
    m = json.load(open(d + '/meta.json'))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/')[:220]))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
