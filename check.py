#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current source.

1. The verification-condition generator (vc/) reads the AST of /repo's current
   sources and produces the obligations of the property's contracts; z3, exact
   rational normal forms (and Lean for dimension-generic lemmas) discharge them.
2. A companion program built from the same sources searches for a concrete
   failing input.  It never counts as proof; it supplies the replay when an
   obligation fails, and stands in (labelled bounded) for functions the
   generator cannot read.
Exit 0: held; exit 1: VIOLATION line.
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
from registry import REG, LEVEL_NOTES
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = shutil.which('python3-vt') or sys.executable


def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **k)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


class Companion:
    """compile and run the bounded companion"""

    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        r = REG[prop]
        self.name = r.get('harness')
        self.exe = os.path.join(tmp, 'companion')
        self.state, self.detail = 'none', ''
        self.evals = self.nontrivial = 0
        self.samples, self.known = [], []
        self.proc = None
        if not self.name:
            return
        srcs = [os.path.join(REPO, 'lib', 'src', f) for f in r.get('src', [])]
        missing = [s for s in srcs if not os.path.exists(s)]
        if missing:     # the sources were rearranged: link everything that is there
            d = os.path.join(REPO, 'lib', 'src')
            srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp') and f != 'spectral_fact.cpp']
        self.srcs = srcs
        self.env = dict(os.environ, OPENBLAS_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:allocator_may_return_null=1:hard_rss_limit_mb=6000')
        self.start(srcs)

    def start(self, srcs):
        r = REG[self.prop]
        self.log = os.path.join(self.tmp, 'build.log')
        base = ['g++', '-std=c++17', '-w', '-O1', '-D_GLIBCXX_ASSERTIONS'] + (['-fsanitize=address', '-static-libasan'] if r.get('asan', True) else []) + \
            ['-I' + os.path.join(REPO, 'lib', 'include'), '-I' + os.path.join(REPO, 'external', 'GSL', 'include'), '-I' + os.path.join(HERE, 'harness')]
        files = [os.path.join(HERE, 'harness', self.name + '.cpp')] + srcs
        objs, lines = [], []
        for i, f in enumerate(files):
            o = os.path.join(self.tmp, 'c%d.o' % i)
            objs.append(o)
            lines.append(' '.join("'%s'" % a for a in base + ['-c', f, '-o', o]) + ' & p%d=$!' % i)
        script = '\n'.join(lines) + '\n' + '\n'.join('wait $p%d || exit 1' % i for i in range(len(files))) + '\n' + \
            ' '.join("'%s'" % a for a in base[:1] + (['-fsanitize=address', '-static-libasan'] if r.get('asan', True) else []) + objs + ['-o', self.exe] + r.get('libs', ['-lopenblas', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread'])) + '\n'
        self.proc = subprocess.Popen(['bash', '-c', script], stdout=open(self.log, 'w'), stderr=subprocess.STDOUT, start_new_session=True)

    def compiled(self, timeout=400):
        if not self.proc:
            return False
        try:
            rc = self.proc.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(self.proc.pid, signal.SIGKILL)
            self.state, self.detail = 'unavailable', 'compilation timed out'
            return False
        if rc != 0:
            self.state, self.detail = 'unavailable', 'the companion does not compile against this tree:\n' + open(self.log, errors='replace').read()[:3000]
            return False
        return True

    def search(self, budget, seed=None, extra=()):
        """-> failing-input text or None"""
        seed = self.seed if seed is None else seed
        cmd = [self.exe, self.prop, str(seed), str(budget)] + list(extra)
        rc, out = sh(cmd, 8 * budget + 120, env=self.env, cwd=self.tmp)
        self.last = out
        for l in out.split('\n'):
            if l.startswith('SAMPLE '):
                self.samples.append(l[7:900])
            elif l.startswith('KNOWN '):
                if l[6:] not in self.known:
                    self.known.append(l[6:])
            elif l.startswith('FAIL '):
                self.state, self.detail = 'fail', l
                self.cmd = cmd
                return l
            elif l.startswith('OK '):
                m = re.match(r'OK evals=(\d+) nontrivial=(\d+)', l)
                self.evals += int(m.group(1))
                self.nontrivial += int(m.group(2))
                self.state = 'ok'
                return None
        if rc is None:
            self.state, self.detail = 'unavailable', 'the companion did not finish'
            return None
        # died without a report
        txt = out[-3000:]
        self.state, self.detail = 'fail', 'the program dies (exit status %s): %s' % (rc, txt)
        self.cmd = cmd
        return self.detail


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier.startswith('t') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='check-%s-' % prop)
    try:
        rc = decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, tmp):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    mine = [k for k in known['known'] if k['property'] == prop]
    comp = Companion(prop, tier, seed, tmp)
    out = os.path.join(tmp, 'goals.jsonl')
    open(out, 'w').close()
    vlog = open(os.path.join(tmp, 'vc.log'), 'w')
    spec = subprocess.Popen([PY, os.path.join(HERE, 'vc', 'runspec.py'), prop, tier, out], stdout=vlog, stderr=subprocess.STDOUT, start_new_session=True)
    lean = [(m, subprocess.Popen(['lean', os.path.join(HERE, 'vc', 'lean', m + '.lean')], stdout=open(os.path.join(tmp, m + '.lean.out'), 'w'),
                                 stderr=subprocess.STDOUT, start_new_session=True)) for m in REG[prop].get('lean', [])] if shutil.which('lean') else []
    failing = None
    quick = tier == 'quick'
    budget = REG[prop].get('budget', 6) if quick else 180
    if comp.compiled():
        failing = comp.search(budget)
        if not failing and not quick:
            for s in range(1, 3):
                failing = failing or comp.search(60, seed + 7919 * s)
    limit = (560 if quick else 780) - (time.time() - t0)
    timed_out = False
    try:
        # with a failing input in hand, the obligations only add to the report
        spec.wait(timeout=90 if failing else max(30, limit))
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(spec.pid, signal.SIGKILL)
        except OSError:
            pass
        spec.wait()
    lemmas = {}
    for m, p in lean:
        try:
            rc = p.wait(timeout=max(60, limit - (time.time() - t0)))
            txt = open(os.path.join(tmp, m + '.lean.out'), errors='replace').read()
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc, txt = None, 'out of time'
        good = rc == 0 and 'error' not in txt and 'sorry' not in txt
        names = re.findall(r"'([\w.]+)' depends on axioms", txt)
        for t in names or [m]:
            lemmas['%s.%s' % (m, t)] = 'checked by Lean with Mathlib' if good else 'not rechecked: ' + txt[:500]
    ev = []
    for l in open(out):
        try:
            ev.append(json.loads(l))
        except ValueError:
            pass
    goals = [e for e in ev if e['ev'] == 'goal']
    unsup = [(e['fn'], e['why']) for e in ev if e['ev'] == 'unsupported']
    end = [e for e in ev if e['ev'] == 'end']
    if timed_out:
        unsup.append((prop, 'the generator ran out of time'))
    elif not end:
        unsup.append((prop, 'the generator stopped: ' + open(os.path.join(tmp, 'vc.log'), errors='replace').read()[-2000:]))
    end = end[0] if end else {}
    if not goals and not unsup:
        unsup.append((prop, 'no obligation was generated'))
    bad, kf = [], []
    for g in goals:
        if g['status'] == 'proved':
            continue
        ident = g['fn'] + ': ' + g['name']
        hit = [k for k in mine if any(re.search(p, ident) for p in k['obligations'])]
        if hit:
            kf += [k for k in hit if k not in kf]
            g['known'] = True
        else:
            bad.append(g)
    for tag in comp.known:
        kf += [k for k in mine if k.get('tag') == tag and k not in kf]
    # an obligation failed, or a function could not be read: search harder for an input
    if not failing and (bad or unsup) and comp.state == 'ok':
        for s in range(1, 4):
            failing = comp.search(12 if quick else 60, seed + 104729 * s)
            if failing:
                break
    nproved = sum(g['status'] == 'proved' for g in goals)
    violation = bool(failing or bad)
    rdir = os.path.join(HERE, 'replays')
    path = os.path.join(rdir, prop + '.json')
    if violation:
        os.makedirs(rdir, exist_ok=True)
        rep = {'property': prop, 'tier': tier, 'seed': seed,
               'failed_obligations': [{k: g[k] for k in ('fn', 'name', 'status', 'backend', 'goal', 'pc')} for g in bad],
               'failing_input': failing,
               'replay': None}
        if failing:
            m = re.search(r'seed=(\d+) case=(\d+)', failing)
            rep['replay'] = '%s/replay.sh %s %s %s' % (HERE, prop, m.group(1) if m else seed, m.group(2) if m else '')
        json.dump(rep, open(path, 'w'), indent=1)
    backends = {}
    for g in goals:
        if g['status'] == 'proved':
            backends[g['backend']] = backends.get(g['backend'], 0) + 1
    cov = {
        'obligations': len([g for g in goals if not g.get('known')]),
        'discharged': nproved,
        'checker_cmd': '%s %s/vc/runspec.py %s %s <out>' % (PY, HERE, prop, tier),
        'trusted_base': TRUSTED + ['library contract: ' + t for t in end.get('trusted', [])],
        'backends': backends,
        'lemmas': lemmas,
        'index_and_division_checks_discharged_inline': end.get('safety_ok', 0),
        'solver_queries': end.get('queries', 0),
        'solver_time_s': end.get('solver_time', 0),
        'functions_under_contract': end.get('functions', []),
        'functions_executed_in_callers': end.get('inlined', []),
        'loops': end.get('loops', []),
        'failed_obligations': [g['fn'] + ': ' + g['name'] for g in bad],
        'known_finding_obligations': [g['fn'] + ': ' + g['name'] for g in goals if g.get('known')],
        'preconditions_satisfiable': [(e['name'], e['result']) for e in ev if e['ev'] == 'reach'],
        'outside_reach': [{'function': a, 'reason': b[:1500]} for a, b in unsup],
        'bounded_standins': end.get('bounded', []) + ([a for a, b in unsup] if comp.state == 'ok' else []),
        'samples': [g['fn'] + ': ' + g['name'] for g in goals[:: max(1, len(goals) // 6)]][:8],
        'bounded_companion': {'note': 'seeded search on the compiled code; supplies replays, never counted as proof', 'state': comp.state,
                              'evaluations': comp.evals, 'distinct_nontrivial': comp.nontrivial, 'samples': comp.samples[:2],
                              'detail': comp.detail[:1500]},
    }
    level = 'proof'
    if unsup:
        level = 'other'
        cov['explanation'] = 'Part of the code could not be read by the verification-condition generator on this tree; for that part the bounded companion stands in (not counted as proved).'
    evid = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': ASSUME + end.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': int(violation)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(evid, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for a, b in unsup:
        print('OUTSIDE-REACH: %s: %s' % (a, b.split('\n')[0][:300]))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for g in bad[:12]:
        print('FAILED OBLIGATION %s: %s [%s]' % (g['fn'], g['name'], g['status']))
    print('%s: %d of %d obligations discharged (%s), %.1f s solver time; companion: %s, %d cases' % (
        prop, nproved, cov['obligations'], ', '.join('%s %d' % x for x in sorted(backends.items())), cov['solver_time_s'], comp.state, comp.evals))
    if violation:
        if failing:
            print('failing input: ' + failing[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0


TRUSTED = [
    'the verification-condition generator vc/*.py (executes the clang AST; no independent check of its rules)',
    'clang 18 front end (AST of the preprocessed sources)',
    'z3 5.3.2, the rational normal form of vc/terms.py',
]
ASSUME = [
    'double is treated as the mathematical reals and signed integers as the mathematical integers (unsigned subtraction wraps); overflow, rounding, NaN and infinities are not modelled by the proofs',
    'preprocessor branches not taken in the build configuration are not verified',
]

if __name__ == '__main__':
    main()
