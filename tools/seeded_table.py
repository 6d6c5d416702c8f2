"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(here + '/DESIGN.md').read()
mark = '<!-- planted -->\n'
s = s[:s.index(mark) + len(mark)] if mark in s else s + mark
s += '| planted | caught by | what it breaks |\n|---|---|---|\n'
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    s += '| %s | %s | %s |\n' % (d.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '/'))
open(here + '/DESIGN.md', 'w').write(s)
