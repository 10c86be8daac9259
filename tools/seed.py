#!/usr/bin/env python3
"""seed.py NAME...: validate planted bugs defined in tools/seeds/NAME.py in a scratch copy and write seeded/NAME/.
A definition has: prop, needs, breaks, subs=[(file, old, new)...], srcs=[lib sources], demo=C++ text.
"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/scr'
R = S + '/r'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


def fresh():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R + '/.git'):
        sh('cp -a /repo %s' % R)
        sh("sed -i 's#/repo#%s#g' %s/_build/build.ninja %s/_build/CMakeCache.txt; rm -rf %s/_build" % (R, R, R, R))
    for f in ('build.sh', 'test.sh', 'run_doctest.py'):
        t = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp/build.sh', S + '/build.sh').replace('/opt/vp/run_doctest.py', S + '/run_doctest.py')
        open(S + '/' + f, 'w').write(t)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('cd %s && git fetch -q /repo HEAD && git reset -q --hard %s && git checkout -q -- .' % (R, h))


def apply(subs):
    for f, a, b in subs:
        p = os.path.join(R, f)
        raw = open(p, 'rb').read()
        crlf = b'\r\n' in raw
        s = raw.decode().replace('\r\n', '\n')
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
        if crlf:
            s = s.replace('\n', '\r\n')
        open(p, 'wb').write(s.encode())


DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -w -Ilib/include -Iexternal/GSL/include "$d/demo.cpp" %s -o "$t/demo" -lopenblas || exit 2
OPENBLAS_NUM_THREADS=1 timeout 60 "$t/demo"
'''


def main():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for name in sys.argv[1:]:
        ns = {}
        exec(open('%s/tools/seeds/%s.py' % (V, name)).read(), ns)
        fresh()
        d = '%s/seeded/%s' % (V, name)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(ns['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % ' '.join('lib/src/' + s for s in ns.get('srcs', [])))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        apply(ns['subs'])
        diff = subprocess.run('git -C %s diff' % R, shell=True, capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        t = sh('bash %s/test.sh %s/out.json' % (S, S))
        try:
            passed = json.load(open(S + '/out.json'))['passed']
        except Exception:
            passed = []
        missing = [b for b in base if b not in passed]
        chk = sh('git -C /repo apply --check %s/patch.diff' % d)
        ok = r0.returncode == 0 and r1.returncode == 1 or (r0.returncode == 0 and r1.returncode not in (0, 2))
        print('%-22s demo clean=%d patched=%d tests missing=%d apply=%d %s' % (name, r0.returncode, r1.returncode, len(missing), chk.returncode,
              'OK' if ok and not missing and not chk.returncode else 'BAD'))
        if r0.returncode:
            print('   clean:', (r0.stdout + r0.stderr)[-600:])
        if not ok:
            print('   patched:', (r1.stdout + r1.stderr)[-600:])
        if missing:
            print('   missing:', missing[:8])
        if '--keep' in os.environ.get('SEED', ''):
            continue
        props = os.environ.get('CHECK')
        if props is not None:
            for p in (props.split() or [ns['prop']]):
                c = sh('VERIF_REPO=%s ./check.py %s' % (R, p), cwd=V)
                print('\n'.join('     ' + l[:300] for l in c.stdout.strip().split('\n')[-6:]), '\n     exit', c.returncode)
        sh('git -C %s checkout -q -- .' % R)


main()
