#!/usr/bin/env python3
"""Development aid: one.py MUTANT CHECK...: applies a mutant to a scratch copy and shows what the checks say."""
import os, re, shutil, subprocess, sys, tempfile
sys.argv, args = [sys.argv[0]], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutants.py')).read().split('def run(')[0]
exec(src)
m = [x for x in load() if x[0] == args[0]] or [x for x in load() if args[0] in x[0]]
name, exp, edits = m[0]
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.copytree('/repo/PTN_Engine', d + '/PTN_Engine')
    for f, old, new in edits:
        p = os.path.join(d, 'PTN_Engine', f)
        s = open(p).read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        rx = r'\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) + r'[ \t]*' for l in old.split('\n') if l.strip())
        hits = list(re.finditer(rx, s))
        assert len(hits) == 1, (f, len(hits))
        s = s[:hits[0].start()] + new + s[hits[0].end():]
        open(p, 'w').write(s.replace('\n', '\r\n') if crlf else s)
    for c in args[1:]:
        r = subprocess.run([sys.executable, '/verif/check.py', c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_DEV='1'))
        print((r.stdout + r.stderr)[-3000:])
        if 'VIOLATION' in r.stdout:
            print(open('/verif/build/replay/%s.txt' % c).read()[:2500])
        ev = '/verif/evidence/%s.json' % c
        t = open(ev).read()
        i = t.find('inconclusive')
finally:
    shutil.rmtree(d)
