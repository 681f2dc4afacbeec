"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted | breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    t = lambda k: ' '.join(str(m.get(k, '')).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), t('what_it_breaks'), t('needs'), m.get('caught_by', m['property'])))
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded (tools/seedtable.py) -->', '<!-- /seeded -->'
s = s.split(a)[0] + a + '\n' + '\n'.join(rows) + '\n' + b + s.split(b)[1]
open(p, 'w').write(s)
