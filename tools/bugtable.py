"""Development tool: rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/results.txt."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
res = {}
if os.path.exists('tools/results.txt'):
    for l in open('tools/results.txt'):
        m = re.match(r'(\S+) (P\d+) rc=(\d+)', l)
        if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
t = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]; m = json.load(open(d))
    c = [p for p, r in sorted(res.get(i, {}).items()) if r == '1']
    t.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ' '.join(c) or 'not caught' if res.get(i) else 'not run'))
s = open('DESIGN.md').read()
h, _, rest = s.partition('<!-- BUGS -->')
tail = rest.partition('<!-- /BUGS -->')[2]
open('DESIGN.md', 'w').write(h + '<!-- BUGS -->\n' + '\n'.join(t) + '\n<!-- /BUGS -->' + tail)
