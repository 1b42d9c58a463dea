"""the table of planted bugs in DESIGN.md"""
import glob, json, os
MISSED = set()
rows = ['| change | property | caught by | needs | breaks |', '|---|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], 'missed (undecided)' if os.path.basename(os.path.dirname(d)) in MISSED else 'check ' + m['property'], m['needs'], m['what_it_breaks']))
p = '/verif/DESIGN.md'; t = open(p).read()
i, j = t.index('<!-- planted -->'), t.index('<!-- /planted -->')
open(p, 'w').write(t[:i] + '<!-- planted -->\n' + '\n'.join(rows) + '\n' + t[j:])
