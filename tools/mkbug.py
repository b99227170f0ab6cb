#!/usr/bin/env python3
"""mkbug.py [ID...] -- (re)create /verif/seeded/ID from tools/bugs.py, confirming each in a scratch copy of /repo"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
SEED = os.path.join(os.path.dirname(HERE), 'seeded')
base = json.load(open('/opt/vp/BASELINE.json'))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu11 -g -w %s -DHAVE_CONFIG_H -I. -Isys -Ilibtty -Ilibstream -Icommon -o "$tmp/demo" "$here/demo.c" %s -lm -lpthread %s || exit 2
cd "$tmp" && ASAN_OPTIONS=detect_leaks=%s timeout 60 ./demo
'''
ids = sys.argv[1:] or [b['id'] for b in BUGS if not os.path.exists(os.path.join(SEED, b['id'], 'meta.json'))]
for b in BUGS:
    if b['id'] not in ids:
        continue
    d = tempfile.mkdtemp(prefix='bug-', dir='/tmp')
    r = d + '/repo'
    sh('cp -a /repo %s' % r)
    sh('git checkout -- . && git clean -fdq', cwd=r)
    out = os.path.join(SEED, b['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(out + '/demo.c', 'w') as f:
        f.write(b['demo'])
    with open(out + '/demo.sh', 'w') as f:
        f.write(DEMO_SH % (b.get('flags', '-fsanitize=address'), b.get('srcs', 'libtty/tty.c libtty/charsets.c libtty/wcwidth.c'), b.get('libs', ''), b.get('leaks', 0)))
    os.chmod(out + '/demo.sh', 0o755)
    ok = sh('bash %s/demo.sh' % out, cwd=r)
    for file, old, new in b['edits']:
        s = open(r + '/' + file).read()
        if s.count(old) != b.get('count', 1):
            print(b['id'], 'EDIT MATCHES', s.count(old), repr(old))
            break
        open(r + '/' + file, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=r).stdout
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    # build and test the changed copy in place of /repo: the scripts take /repo, so swap contents there
    sh('git -C /repo apply %s/patch.diff' % out)
    try:
        bo = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh %s/t.json' % d)
        bad = sh('bash %s/demo.sh' % out, cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    try:
        res = json.load(open(d + '/t.json'))
        miss = set(base['stable']) - set(res['passed'])
        res = 'pass' if not miss else 'MISSING %s' % miss
    except OSError:
        res = t.stdout
    print(b['id'], 'build', bo.returncode, 'demo clean', ok.returncode, 'demo bug', bad.returncode, 'tests', res[:300].replace('\n', ' '))
    if ok.returncode:
        print(ok.stdout[-1500:])
    shutil.rmtree(d)
