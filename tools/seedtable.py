"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append(f"* `{d}` ({m['property']}): {m['what_it_breaks'].rstrip('.')}.")
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
