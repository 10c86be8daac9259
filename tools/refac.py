#!/usr/bin/env python3
"""refac.py [NAME-prefix...]: apply behaviour-preserving edits (tools/refacs/*.py: name -> (props, [(file, old, new)...]))
to scratch copies of /repo and run the checks named against them: every one must stay quiet.  Results: one line per case/property."""
import sys, os, json, subprocess, shutil, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    out = {}
    for f in sorted(glob.glob(V + '/tools/refacs/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        for k, v in ns['CASES'].items():
            out[k] = v
    return out


def run(job):
    name, prop, subs = job
    t = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
    try:
        subprocess.run('mkdir -p %s/r && cd /repo && git archive HEAD lib | tar x -C %s/r && mkdir -p %s/r/external && cp -a external/GSL %s/r/external/' % (t, t, t, t), shell=True, check=True)
        for f, a, b in subs:
            p = os.path.join(t, 'r', f)
            raw = open(p, 'rb').read()
            crlf = b'\r\n' in raw
            s = raw.decode().replace('\r\n', '\n')
            if s.count(a) != 1:
                return name, prop, 'BADCASE %s count=%d %r' % (f, s.count(a), a[:50]), 0
            s = s.replace(a, b)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'wb').write(s.encode())
        t0 = time.time()
        ev = t + '/v'
        shutil.copytree(V, ev, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.makedirs(ev + '/evidence', exist_ok=True)
        r = subprocess.run(['python3', ev + '/check.py', prop, 'quick'], capture_output=True, text=True, errors='replace',
                           env=dict(os.environ, VERIF_REPO=t + '/r', VERIF_SEED='1', VERIF_TIER='quick'), cwd=ev)
        dt = time.time() - t0
        e = {}
        try:
            e = json.load(open('%s/evidence/%s.json' % (ev, prop)))
        except Exception:
            pass
        out = (r.stdout + r.stderr)
        msg = 'quiet' if r.returncode == 0 else 'ALARM rc=%d ' % r.returncode
        if r.returncode:
            msg += ' | '.join(l[:260] for l in out.splitlines() if 'VIOLATION' in l or 'fail' in l.lower() or 'rror' in l)[:1200]
        else:
            msg += ' [%s]' % ('; '.join(l[:240] for l in out.splitlines() if 'OUTSIDE' in l)[:400])
        open('/tmp/refac.%s.%s' % (name, prop), 'w').write(out)
        return name, prop, msg, dt
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    sel = sys.argv[1:]
    jobs = [(n, p, subs) for n, (props, subs) in cases().items() if not sel or any(n.startswith(s) for s in sel) for p in props.split()]
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for name, prop, msg, dt in ex.map(run, jobs):
            print('%-24s %s %4.0fs %s' % (name, prop, dt, msg), flush=True)


main()
