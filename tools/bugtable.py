"""prints the table of section 6 of DESIGN.md from the folders in seeded/ (documentation only)"""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
t = '| planted bug | caught by | what it needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
f = root + '/DESIGN.md'
s = open(f).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
if a in s: s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(f, 'w').write(s)
