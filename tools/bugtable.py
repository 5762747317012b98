"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and campaign.json"""
import json, os
S = '/verif/seeded'
c = json.load(open('/verif/tools/campaign.json'))
rows = []
for i in os.listdir(S):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    k = c.get(i, {})
    rows.append((m['property'], i, m['needs'], m['what_it_breaks'], 'caught' if k.get('caught') else 'MISSED' if k else 'not run', k.get('first', '').split('_', 1)[-1]))
rows.sort()
t = '| property | change | needs | breaks | outcome | first violating program |\n|---|---|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s | %s | %s |\n' % tuple(x.replace('|', '/') for x in r) for r in rows)
f = '/verif/DESIGN.md'
s = open(f).read()
A, B = '<!-- bugs -->\n', '<!-- /bugs -->'
s = s[:s.index(A) + len(A)] + t + s[s.index(B):]
open(f, 'w').write(s)
print(len(rows), 'bugs', sum(r[4] == 'caught' for r in rows), 'caught')
