"""A mutation campaign over the anchored sources (development aid: no check uses it).

  J=6 N=25 python3 tools/mutate.py OUT.jsonl [FILE-SUBSTRING...]

One small edit each (an operator, a constant, a condition, a statement dropped, two indices swapped); the specifications of
the properties anchored in the file are run on a scratch copy until one has a failed obligation it does not have on the
unchanged tree.  What is left (quiet, or outside the verifier's reach) is built and tested in a scratch copy, and then the full
check is run.  Prints one line per mutant: its class, the file, line and edit.
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('lib/src/ell.cpp', 'P04 P01 P02 P03'), ('ellcpp/ell.hpp', 'P04 P01 P02 P03'), ('src/ell_stable.cpp', 'P05'), ('ell1d.', 'P06'),
       ('cutting_plane.hpp', 'P07 P08 P09 P10 P11'), ('oracles/ldlt_ext.hpp', 'P12 P13'), ('src/ldlt_ext.cpp', 'P13 P12'),
       ('lmi', 'P14'), ('qmi', 'P15'), ('src/lowpass_oracle.cpp', 'P16'), ('profit_oracle', 'P17 P18'), ('neg_cycle.hpp', 'P19'),
       ('parametric.hpp', 'P20'), ('min_cycle_ratio.hpp', 'P20'), ('network_oracle.hpp', 'P21 P20'), ('optscaling_oracle.hpp', 'P21'),
       ('cycle_ratio_oracle.hpp', 'P21'), ('py2cpp/fractions.hpp', 'P22'), ('fractions-new.hpp', 'P22'), ('csd.cpp', 'P23 P24'), ('py2cpp/py2cpp.hpp', 'P25'),
       ('lsq_corr_ell.cpp', 'P26 P27')]
REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '),
       ('+=', '-='), ('-=', '+='), ('*=', '/='), ('/=', '*='), ('&&', '||'), ('||', '&&'), ('true', 'false'), ('false', 'true'), ('++', '--'), ('--', '++'),
       ('(!', '('), ('0.', '1.'), ('1.', '2.'), ('2.', '1.'), ('0U', '1U'), ('1U', '0U'), (' = 0;', ' = 1;'), (' = 1;', ' = 0;'), ('- 1', '- 2'), ('+ 1', '+ 2'), ('+ 1', '+ 0'), ('- 1', '- 0'),
       ('(i, j)', '(j, i)'), ('(j, i)', '(i, j)'), ('[0]', '[1]'), ('[1]', '[0]'), ('.first', '.second'), ('.second', '.first'), ('::success', '::noeffect'), ('::nosoln', '::noeffect')]


def sites(path, text):
    """(line, column, old, new) outside comments"""
    out, com = [], False
    for ln, l in enumerate(text.split('\n')):
        s = l.rstrip('\r')
        if com:
            if '*/' in s:
                com = False
            continue
        if s.strip().startswith('/*'):
            com = '*/' not in s
            continue
        code = s.split('//')[0]
        if code.strip().startswith(('#', 'template', 'using', '*', 'friend', 'static_assert')) or 'operator' in code and '{' not in code:
            continue
        for a, b in REL:
            i = code.find(a)
            while i >= 0:
                bad = (a in ('true', 'false') and re.match(r'\w', code[i + len(a):i + len(a) + 1] or ' ')) or \
                    (re.match(r'\d', a) and i and re.match(r'[\w.]', code[i - 1])) or (a == '<=' and code[i - 1:i] == '<') or \
                    (a in ('0.', '1.', '2.') and re.match(r'\d', code[i + 2:i + 3] or ' '))
                if not bad:
                    out.append((ln, i, a, b))
                i = code.find(a, i + 1)
        if re.match(r'\s+[\w>.\-\[\]()]+(\(.*\))? (=|\+=|-=|\*=|/=) .*;$', code) or re.match(r'\s+[\w.:>-]+\(.*\);$', code):
            out.append((ln, len(code) - len(code.lstrip()), code.strip(), ';'))
    return out


def run(cmd, t, **env):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, env=dict(os.environ, **env), start_new_session=True)
    except subprocess.TimeoutExpired as e:
        return None


def spec(prop, repo, out):
    r = run('exec timeout 400 python3-vt %s/vc/runspec.py %s quick %s' % (V, prop, out), 420, VERIF_REPO=repo)
    bad, uns = set(), []
    try:
        for l in open(out):
            d = json.loads(l)
            if d['ev'] == 'goal' and d['status'] != 'proved':
                bad.add((d['fn'], re.sub(r'path \d+: ', '', d['name']), 0))
            elif d['ev'] == 'unsupported':
                uns.append(d['why'][:200])
        if not any('"end"' in l for l in open(out)):
            uns.append('out of time')
    except OSError:
        uns.append('no output')
    return bad, uns


BASE = {}


def mutant(args):
    path, props, (ln, col, a, b), = args
    d = tempfile.mkdtemp(prefix='mu')
    try:
        repo = d + '/r'
        os.mkdir(repo)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s; mkdir -p %s/external; cp -a /repo/external/. %s/external/' % (repo, repo, repo), shell=True)
        f = repo + '/' + path
        lines = open(f, newline='').read().split('\n')
        L = lines[ln]
        assert L[col:col + len(a)] == a
        lines[ln] = L[:col] + b + L[col + len(a):]
        open(f, 'w', newline='').write('\n'.join(lines))
        res, why = 'quiet', []
        for p in props:
            bad, uns = spec(p, repo, d + '/o')
            if bad - BASE[p]:
                res, why = 'caught', [p] + sorted(x[0] + ': ' + x[1] for x in bad - BASE[p])[:1]
                break
            if uns:
                res, why = 'outside', why + [p + ': ' + uns[0]]
        return dict(cls=res, why=why, file=path, line=ln + 1, old=a, new=b, text=L.strip(), col=col, props=props)
    finally:
        shutil.rmtree(d)


def main():
    out = sys.argv[1]
    random.seed(int(os.environ.get('SEED', 1)))
    N, J = int(os.environ.get('N', 25)), int(os.environ.get('J', 6))
    files = subprocess.run('cd /repo && git ls-files lib/src lib/include', shell=True, capture_output=True, text=True).stdout.split()
    jobs = []
    for p in files:
        m = [q for k, q in MAP if k in p]
        if not m or sys.argv[2:] and not any(x in p for x in sys.argv[2:]):
            continue
        ss = sites(p, open('/repo/' + p, newline='').read())
        random.shuffle(ss)
        jobs += [(p, m[0].split(), s) for s in ss[:N]]
    need = sorted({q for j in jobs for q in j[1]})
    skip = {(d['file'], d['line'], d['col'], d['old'], d['new']) for f in os.environ.get('SKIP', '').split() for d in map(json.loads, open(f))}
    jobs = [j for j in jobs if (j[0], j[2][0] + 1) + j[2][1:] not in skip]
    with cf.ThreadPoolExecutor(J) as ex:
        for p, (bad, uns) in zip(need, ex.map(lambda p: spec(p, '/repo', '/tmp/mu_base_' + p), need) if not os.environ.get('NOBASE') else [(BASE0.get(p, set()), []) for p in need]):
            BASE[p] = bad
            print('base', p, len(bad), uns, flush=True)
        print(len(jobs), 'mutants', flush=True)
        with open(out, 'w') as fo:
            for r in cf.as_completed([ex.submit(mutant, j) for j in jobs]):
                try:
                    r = r.result()
                except Exception as e:
                    print('ERR', e, flush=True)
                    continue
                fo.write(json.dumps(r) + '\n')
                fo.flush()


main()
