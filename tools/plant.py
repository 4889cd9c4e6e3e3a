#!/usr/bin/env python3
"""Development tool (no check uses it): turns bug descriptions into seeded/<id>/ after confirming each in a scratch copy.
usage: plant.py SPEC.py [id...]   SPEC.py defines BUGS = [dict(id, prop, needs, what, edits=[(function, old, new)], demo=C++ text, ...)]
An edit with old=None replaces the function's whole body."""
import sys, os, re, subprocess, json, shutil, tempfile
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = 'f4bdb5d'


def span(txt, fn):
    m = re.search(r'^[A-Za-z_][\w \*:]*\b' + re.escape(fn) + r'\([^;{]*\)\s*\n?\{', txt, re.M)
    assert m, fn
    i = m.end(); d = 1
    while d:
        d += {'{': 1, '}': -1}.get(txt[i], 0); i += 1
    return m.start(), m.end(), i


def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    sc = tempfile.mkdtemp(prefix='plant.')
    objs = []
    os.makedirs(sc + '/t')
    sh(['git', '-C', R, 'worktree', 'prune'])
    subprocess.run('cp %s/neon_sim.* %s/; cp -r %s/tests %s/' % (R, sc, R, sc), shell=True, check=True)
    ps = [subprocess.Popen(['g++', '-std=gnu++11', '-O1', '-I', sc, '-c', '%s/tests/%s' % (sc, f), '-o', '%s/t/%s.o' % (sc, f)]) for f in os.listdir(sc + '/tests') if f.endswith('.cpp')]
    for p in ps: assert p.wait() == 0
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        out = V + '/seeded/' + b['id']
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in ('neon_sim.cpp', 'neon_sim.h'): shutil.copy(R + '/' + f, sc + '/' + f)
        for e in b['edits']:
            f = 'neon_sim.h' if e[0] == 'H' else 'neon_sim.cpp'
            t = open(sc + '/' + f).read()
            if e[0] in ('H', 'N', None):
                assert t.count(e[1]) == 1, (b['id'], 'occurs', t.count(e[1]), e[1])
                t = t.replace(e[1], e[2])
            else:
                s, bs, en = span(t, e[0])
                if e[1] is None: t = t[:bs] + '\n' + e[2].strip('\n') + '\n}' + t[en:]
                else:
                    body = t[s:en]; assert e[1] in body, (b['id'], e)
                    t = t[:s] + body.replace(e[1], e[2]) + t[en:]
            open(sc + '/' + f, 'w').write(t)
        d = ''
        for f in ('neon_sim.cpp', 'neon_sim.h'):
            r = sh(['git', 'diff', '--no-index', '--no-color', R + '/' + f, sc + '/' + f]).stdout
            r = r.replace('a' + R + '/' + f, 'a/' + f).replace('b' + sc + '/' + f, 'b/' + f)
            d += r
        open(out + '/patch.diff', 'w').write(d)
        flag, mineflag = [], []
        for f in ('neon_sim.cpp', 'neon_sim.h'):
            bl = sh(['git', '-C', R, 'blame', '-s', f]).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', 'diff', '--no-index', '--no-color', '-U0', R + '/' + f, sc + '/' + f]).stdout, re.M):
                for l in bl[int(m[1]) - 1:int(m[1]) - 1 + int(m[2] or 1)]: (flag if l.startswith('^' + ORIG) else mineflag).append(l)
        for n, c in b.get('files', {}).items(): open(out + '/' + n, 'w').write(c)
        if 'demo' in b: open(out + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(b.get('sh', SH).lstrip('\n').replace('@FLAGS@', b.get('flags', '-O1'))); os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['what']), open(out + '/meta.json', 'w'), indent=1)
        bad = []
        if sh(['git', '-C', R, 'apply', '--check', out + '/patch.diff']).returncode: bad.append('does not apply')
        x = sh(['g++', '-std=gnu++11', '-O2', '-g', '-I', sc, sc + '/neon_sim.cpp'] + [sc + '/t/' + o for o in os.listdir(sc + '/t') if o.endswith('.o')] + ['-o', sc + '/tests.exe'])
        if x.returncode: bad.append('no build: ' + x.stderr[:400])
        else:
            x = sh([sc + '/tests.exe'])
            if x.returncode: bad.append('tests fail: ' + x.stdout[-400:])
        c = sh(['bash', out + '/demo.sh'], cwd=R, timeout=300); p = sh(['bash', out + '/demo.sh'], cwd=sc, timeout=300)
        if c.returncode: bad.append('demo fails on clean: %d %s' % (c.returncode, (c.stdout + c.stderr)[-600:]))
        if not p.returncode: bad.append('demo passes with bug')
        if not flag or mineflag: bad.append('original lines %d, mine %d' % (len(flag), len(mineflag)))
        if bad: shutil.rmtree(out)
        print(b['id'], b['prop'], 'OK' if not bad else 'REJECTED ' + '; '.join(bad), '| orig lines', len(flag), '|', (p.stdout + p.stderr).strip()[:120].replace('\n', ' / '), flush=True)
    shutil.rmtree(sc)


SH = '''
#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++11 -w @FLAGS@ -I. neon_sim.cpp "$here/demo.cpp" -o "$d/demo" -lm -pthread || exit 0
timeout 200 "$d/demo"
'''
main()
