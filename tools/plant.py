#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: confirm planted bugs in a scratch copy of /repo and keep them under /verif/seeded.
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo=C source, needs, breaks, san=False)]."""
import json, os, re, runpy, shutil, subprocess, sys
W = '/tmp/seedw'
R = W + '/repo'
DEMO = r'''#!/bin/bash
# cwd: the repository, after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
%s
cd "$t" && timeout %d ./demo "$t" > out.txt 2> err.txt < /dev/null
rc=$?
if [ $rc != 0 ]; then echo "demo: exit $rc"; head -c 600 out.txt; head -c 1500 err.txt; exit 1; fi
exit 0
'''
LINK = 'gcc -g -w -D_GNU_SOURCE -I_build/src/maa "$d/demo.c" _build/src/maa/libmaa.a -lm -o "$t/demo" || exit 3'
SAN = 'gcc -g -w -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=all -DHAVE_HEADER_SYS_RESOURCE_H=1 -DHAVE_HEADER_ALLOCA_H=1 -DSIZEOF_LONG=8 -DSIZEOF_VOID_P=8 -DMAA_MAJOR=1 -DMAA_MINOR=0 -DMAA_TEENY=0 -I_build/src/maa "$d/demo.c" $(cd _build/src/maa && ls *.o | sed "s|\\(.*\\)\\.o|_build/src/maa/\\1.c|") -lm -o "$t/demo" || exit 3\nexport ASAN_OPTIONS=detect_leaks=%d'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prep():
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh('cp -a /repo %s' % R)
        for n in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', R).replace('/opt/vp/build.sh', W + '/build.sh')
            open(W + '/' + n, 'w').write(s)
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (R, R))


def build():
    import time; time.sleep(2)
    r = sh('bash %s/build.sh' % W)
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def main():
    spec = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    prep()
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git -C %s checkout -q -f .' % R)
        ok, log = build()
        if not ok:
            print(b['id'], 'BASE BUILD FAILED', log); return
        d = '%s/k/%s' % (W, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.c', 'w').write(b['demo'])
        comp = SAN % (1 if b.get('leaks') else 0) if b.get('san') else LINK
        if b.get('extra'):
            comp = b['extra'] + '\n' + comp
        open(d + '/demo.sh', 'w').write(DEMO % (comp, b.get('secs', 60)))
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        if r0.returncode:
            print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE', r0.returncode, r0.stdout[-900:], r0.stderr[-1500:]); continue
        bad = False
        for f, old, new, *nth in b['edits']:
            p = '%s/maa/%s' % (R, f)
            s = open(p).read()
            n = s.count(old)
            if nth and nth[0] <= n:
                parts = s.split(old)
                k = nth[0]
                open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
                continue
            if n != 1:
                print(b['id'], 'EDIT MATCHES', n, 'TIMES:', old[:60]); bad = True; break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = sh('git -C %s diff' % R).stdout
        ok, log = build()
        if not ok:
            print(b['id'], 'BUILD FAILED', log); continue
        sh('bash %s/test.sh %s/o.json' % (W, W))
        o = json.load(open(W + '/o.json'))
        if o['failed'] or len(o['passed']) < 18:
            print(b['id'], 'TESTS FAIL', o['failed']); continue
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        if r1.returncode in (0, 3):
            print(b['id'], 'DEMO DOES NOT FAIL WITH THE CHANGE', r1.returncode, r1.stderr[-500:]); continue
        c = subprocess.run(['timeout', '300', 'python3', '/verif/sa/check.py', b['property']], env=dict(os.environ, VERIF_REPO=R, VERIF_NOEVID='1'), capture_output=True, text=True)
        t = os.environ.get('SEEDED', '/verif/seeded') + '/' + b['id']
        if os.path.exists(t):
            shutil.rmtree(t)
        os.makedirs(t)
        open(t + '/patch.diff', 'w').write(diff)
        for n in ('demo.c', 'demo.sh'):
            shutil.copy(d + '/' + n, t)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        print(b['id'], b['property'], 'planted; demo exit', r1.returncode, '; check exit', c.returncode, 'CAUGHT' if c.returncode == 1 else '*** MISSED ***' if c.returncode == 0 else '*** BROKEN ***')
        for l in c.stdout.splitlines()[:int(os.environ.get('N', '4'))]:
            print('     ', l[:220])
    sh('git -C %s checkout -q -f .' % R)


main()
