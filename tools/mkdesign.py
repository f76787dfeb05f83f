"""The table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json
and the sizes of the modules."""
import glob
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = H + '/DESIGN.md'
with open(path) as fh:
    s = fh.read()


def size(m):
    with open('%s/spec/%s.tla' % (H, m.group(1))) as fh:
        return '| `%s` | %d |' % (m.group(1), len(fh.read().splitlines()))


s = re.sub(r'\| `(\w+)` \| \d+ \|', size, s)
rows = []
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    with open(d) as fh:
        m = json.load(fh)
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['what_it_breaks'],
                                           m['needs'], m['property']))
a = s.index('<!-- planted -->')
s = s[:a] + '<!-- planted -->\n| bug | what it breaks | needs | caught by the check of |\n|---|---|---|---|\n' \
    + '\n'.join(rows) + '\n'
with open(path, 'w') as fh:
    fh.write(s)
print(len(rows))
