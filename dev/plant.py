#!/usr/bin/env python3
"""plant.py DIR...: confirms planted bugs in seeded/: builds, stable tests, demo passes without and fails with the patch; then runs the checks.
Works on a copy of /repo mounted over /repo in a namespace of its own."""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/plant'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(tree, cmd, timeout=900):
    return sh("unshare -rm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (tree, cmd), timeout=timeout)


def main():
    ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(ROOT + '/seeded'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = '%s/seeded/%s' % (ROOT, i)
        meta = json.load(open(d + '/meta.json'))
        tree = WORK + '/tree'
        demo = WORK + '/demo'
        for x in (tree, demo):
            if os.path.exists(x):
                shutil.rmtree(x)
        os.makedirs(WORK, exist_ok=True)
        sh('cp -a /repo %s' % tree)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        out = [i, meta['property']]
        if '-n' not in sys.argv:
            r = inside(tree, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % demo)
            out.append('clean:%d' % r.returncode)
            if r.returncode:
                print(r.stdout[-500:], r.stderr[-1500:])
        r = sh('git -C %s apply %s/patch.diff' % (tree, d))
        if r.returncode:
            print(i, 'PATCH', r.stderr)
            continue
        if '-n' not in sys.argv:
            r = inside(tree, 'bash /opt/vp/test.sh /tmp/plant/res.json')
            res = json.load(open('/tmp/plant/res.json'))
            lost = stable - set(res['passed'])
            if lost:
                out.append('TESTS LOST %s' % sorted(lost)[:3])
                if len(lost) > 50:
                    print(r.stdout[-1500:])
            else:
                out.append('tests ok')
            r = inside(tree, 'timeout 300 bash %s/demo.sh' % demo)
            out.append('patched:%d %s' % (r.returncode, (r.stdout + r.stderr).strip()[-150:].replace('\n', ' | ')))
        r = sh('python3 %s/check.py all' % ROOT, env=dict(os.environ, VERIF_REPO=tree, VERIF_NOEVIDENCE='1'))
        hit = [l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append(('CAUGHT ' if meta['property'] in hit else 'MISSED ') + ','.join(hit) + ('' if r.returncode in (0, 1) else ' BROKEN'))
        print(' ; '.join(out), flush=True)
        shutil.rmtree(tree)


main()
