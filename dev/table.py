"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AT_FIRST = {'C14-weights-checked-in-constructor-only': 'missed at first (constants were only probed next to the documented bounds); caught since probes also surround the numbers a function mentions',
            'C06-merge-writes-other-element': 'caught', }
rows = ['| bug | breaks | needs | check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s: %s |' % (d, m['what_it_breaks'], m['needs'], m['property'], AT_FIRST.get(d, 'caught')))
p = V + '/DESIGN.md'; s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
