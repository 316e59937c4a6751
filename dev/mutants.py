#!/usr/bin/env python3
"""Development aid: applies one-place changes to a scratch copy of the sources and reports which checks fire.
Nothing is executed; the copy is only parsed.  usage: mutants.py [-k SUBSTRING] [-q]
Entries of dev/mutants.txt:  == name | expected ids ('-' = behaviour unchanged, no check may fire) | file  then  <<<< old ==== new >>>> blocks"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('VERIF_REPO', '/repo')


def load():
    out = []
    cur = None
    fn = os.path.join(HERE, 'mutants.txt')
    text = open(fn).read()
    for part in re.split(r'^== ', text, flags=re.M)[1:]:
        head, body = part.split('\n', 1)
        name, exp, rest = [x.strip() for x in head.split('|')]
        edits = []
        f = rest
        for m in re.finditer(r'^(?:@@ (\S+)\n)?<<<<\n(.*?)^====\n(.*?)^>>>>$', body, flags=re.M | re.S):
            f = m.group(1) or f
            edits.append((f, m.group(2).rstrip('\n'), m.group(3).rstrip('\n')))
        out.append((name, exp, edits))
    return out


def run(m):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.path.join(ROOT, 'PTN_Engine'), os.path.join(d, 'PTN_Engine'))
        for f, old, new in edits:
            p = os.path.join(d, 'PTN_Engine', f)
            s = open(p).read()
            crlf = '\r\n' in s
            if crlf:
                s = s.replace('\r\n', '\n')
            rx = r'\n(?:[ \t]*\n)*'.join(re.escape(l.rstrip()) + r'[ \t]*' for l in old.split('\n') if l.strip())
            hits = list(re.finditer(rx, s))
            if len(hits) != 1:
                return name, exp, None, 'edit does not apply (%d times) in %s' % (len(hits), f)
            s = s[:hits[0].start()] + new + s[hits[0].end():]
            open(p, 'w').write(s.replace('\n', '\r\n') if crlf else s)
        if '-c' in sys.argv:
            for f in {e[0] for e in edits if e[0].endswith('.cpp')}:
                P = os.path.join(d, 'PTN_Engine')
                r = subprocess.run(['g++', '-std=gnu++20', '-fsyntax-only', '-w', '-I' + d, '-I' + P, '-I' + P + '/include', '-I' + P + '/ImportExport', '-I' + P + '/ImportExport/include',
                                    '-I' + P + '/ImportExport/XML/src', os.path.join(P, f)], capture_output=True, text=True)
                if r.returncode:
                    return name, exp, None, 'does not compile: ' + r.stderr[:300]
        env = dict(os.environ, VERIF_REPO=d, VERIF_DEV='1')
        r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), 'all'], capture_output=True, text=True, env=env)
        fired = re.findall(r'VIOLATION property=(\S+)', r.stdout)
        return name, exp, fired, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = load()
    if '-k' in sys.argv:
        k = sys.argv[sys.argv.index('-k') + 1]
        ms = [m for m in ms if k in m[0]]
    if '-x' in sys.argv:    # names to leave out
        skip = set(open(sys.argv[sys.argv.index('-x') + 1]).read().split())
        ms = [m for m in ms if m[0] not in skip]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '5'))) as ex:
        for name, exp, fired, out in ex.map(run, ms):
            if fired is None:
                print('ERR   %-40s %s' % (name, out))
                bad += 1
                continue
            want = [] if exp == '-' else exp.split()
            ok = (not fired) if not want else bool(set(want) & set(fired))
            broken = 'analysis broken' in out or 'Traceback' in out
            if not ok or broken:
                bad += 1
            print('%s %-40s want %-10s fired %s%s' % ('ok   ' if ok and not broken else 'MISS ' if want else 'FALSE', name, exp, ' '.join(fired), '  BROKEN' if broken else ''))
            if '-v' in sys.argv or broken or (fired and not want):
                print('\n'.join('      ' + l[:300] for l in out.splitlines() if 'obligations' not in l or 'inconcl' in l)[:4000])
    print('%d mutants, %d not as expected' % (len(ms), bad))


main()
