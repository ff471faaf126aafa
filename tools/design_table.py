"""Rewrites the table of planted changes at the end of DESIGN.md (run by hand after planting)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head = text[:text.index('## Planted changes')]
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    what = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    if len(what) > 170:
        what = what[:170].rsplit(' ', 1)[0] + ' …'
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], what))
body = '''## Planted changes

Each of these was written from the text of the property, compiles, passes the existing tests, and fails its demonstration. The quick check of the
property named catches it (exit 1, `VIOLATION`). Those that were missed at first led to the families named in "What the planted changes taught".

| change | caught by | what it breaks |
|---|---|---|
%s
''' % '\n'.join(rows)
open(path, 'w').write(head + body)
