"""Puts catch.py output (arguments: logs) into DESIGN.md; rows without a new result are kept."""
import re, sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        if '|' in l:
            b, r = l.split('|', 1)
            res.setdefault(b.strip(), []).append(re.sub(r' \d+s', '', r.strip()))
old = dict(re.findall(r'^\| ([a-z0-9-]+) \| C\d\d \| (.*) \|$', open(V + '/DESIGN.md').read(), re.M))
t = ['| planted bug | property | caught by |', '|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    p = json.load(open(V + '/seeded/%s/meta.json' % b))['property']
    r = '; '.join(res.get(b, ['not run']))
    who = sorted(set(re.findall(r'(C\d\d) CAUGHT', r)))
    t.append('| %s | %s | %s |' % (b, p, ', '.join(who) if who else r if b in res else old.get(b, r)))
s = open(V + '/DESIGN.md').read()
i = s.index('<!-- CATCH -->')
open(V + '/DESIGN.md', 'w').write(s[:i] + '<!-- CATCH -->\n' + '\n'.join(t) + '\n')
