#!/usr/bin/env python3
"""newplant.py < SPEC: writes seeded/<id>/. A spec has "== id | property", "needs: …", "breaks: …", "@@ file", "<<<<" old "====" new ">>>>" and "demo [flags]" followed by the program."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Run in /repo after the build: compiles the demonstration with the sources of the engine and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
flags="-std=gnu++20 -w -g -O1 %s -D_EXPORTING -I. -IPTN_Engine -IPTN_Engine/include -IPTN_Engine/ImportExport -IPTN_Engine/ImportExport/include -IPTN_Engine/ImportExport/XML/src"
{ find PTN_Engine -name '*.cpp' %s; echo "$here/demo.cpp"; } | xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "$1" -o "$2/$(basename "$1").o"' _ {} "$w" || exit 2
g++ %s "$w"/*.o -o "$w/demo" %s -lpthread || exit 2
cd "$w" && %s timeout -k 5 %d ./demo
'''
for spec in re.split(r'^== ', sys.stdin.read(), flags=re.M)[1:]:
    head, rest = spec.split('\n', 1)
    pid, prop = [x.strip() for x in head.split('|')]
    d = ROOT + '/seeded/' + pid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    spec, demo = re.split(r'^demo ?', rest, maxsplit=1, flags=re.M)
    opts, demo = demo.split('\n', 1)
    needs = re.search(r'^needs: (.*)$', spec, re.M).group(1)
    brk = re.search(r'^breaks: (.*)$', spec, re.M).group(1)
    t = '/tmp/newplant'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    for part in re.split(r'^@@ ', spec, flags=re.M)[1:]:
        f, body = part.split('\n', 1)
        fn = t + '/PTN_Engine/' + f.strip()
        s = open(fn, newline='').read()
        crlf = '\r\n' in s
        for old, new in re.findall(r'<<<<\n(.*?)====\n(.*?)>>>>', body, re.S):
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (pid, s.count(old), old)
            s = s.replace(old, new)
        open(fn, 'w', newline='').write(s)
    diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True).stdout
    shutil.rmtree(t)
    open(d + '/patch.diff', 'wb').write(diff)
    o = dict(x.split('=', 1) if '=' in x else (x, '1') for x in opts.split())
    san = '-fsanitize=' + o['san'] if 'san' in o else ''
    ie = 'xml' in o
    open(d + '/demo.sh', 'w').write(SH % (san, '' if ie else "-not -path '*ImportExport*'", san, '-lpugixml' if ie else '',
                                         'setarch -R' if o.get('san') == 'thread' and 0 else '', int(o.get('t', 60))))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': brk}, open(d + '/meta.json', 'w'), indent=1)
    print(pid)
