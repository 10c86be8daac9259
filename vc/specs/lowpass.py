"""P16: the lowpass-filter oracle.

Samples are rows of three matrices; v_M(r) = sum_j M(r, j) x(j).  A row index r per matrix is fixed
and arbitrary: every loop invariant says that the constraint of row r holds once r was visited
(round-robin positions: counters and positions are found among the loop's variables; candidate
invariants, the inductive ones stay).  The object starts as any history may leave it: every
round-robin position anywhere in [0, rows], which every call re-establishes.
"""
from kit import *
from terms import iff
from specs.common import *

NAMES = ('Ap', 'As', 'Anr')


class LP(loops.Engine):
    def __init__(self, tu, S):
        super().__init__(tu)
        self.S = S
        self.loop_hooks.append(self.hook)
        self.rounds = []

    def v(self, M, r, at='x'):
        return ssum(self.n, lambda j: mul(T.app(M, (r, j), 'R'), T.app(at, (j,), 'R')))

    def hook(self, E, n, st, iteration, head, post):
        if post:
            return False
        self.hoare_loop(n, st, iteration, self.cands)
        self.rounds.append(self.last_iter)
        return True

    def iterate(self, st, iteration):
        r = super().iterate(st, iteration)
        self.last_iter = (st, r)
        return r

    def ok(self, M, r, S, at='x'):
        v = self.v(M, r, at)
        if M == 'Ap':
            return land(le(self.lo, v), le(v, self.up))
        if M == 'As':
            return land(le(R0, v), le(v, S))
        return le(R0, v)

    def cands(self, E, st0, s1, leaves):
        out = []
        rd = lambda lf: (lambda s: self.getleaf(lf, s))
        scal = [lf for lf in leaves if isinstance(self.getleaf(lf, s1), T.T)]
        ints = [lf for lf in scal if self.getleaf(lf, s1).sort == 'I']
        reals = [lf for lf in scal if self.getleaf(lf, s1).sort == 'R']
        start = lambda lf: self.getleaf(lf, st0)
        sp = lambda s: self.read(self.spl, s)
        for M in NAMES:
            N, r = self.N[M], self.r[M]
            used = any(a.op == 'app' and a.args[0] == M for p in self.iter_terms for a in T.subterms(p)) if self.iter_terms else True
            for p in ints:
                P = rd(p)
                out.append(('0 <= %s <= rows of %s' % (p, M), lambda s, P=P, N=N: land(le(I0, P(s)), le(P(s), N))))
            if not used:
                continue
            props = [('constraint of %s' % M, lambda s, M=M, r=r: self.ok(M, r, sp(s)))]
            if M == 'Ap':
                props = [('lower ' + M, lambda s: le(self.lo, self.v('Ap', self.r['Ap']))), ('upper ' + M, lambda s: le(self.v('Ap', self.r['Ap']), self.up))]
            for lf in reals:
                props.append(('%s >= response of %s' % (lf, M), lambda s, V=rd(lf), M=M, r=r: le(self.v(M, r), V(s))))
                props.append(('%s <= response of %s' % (lf, M), lambda s, V=rd(lf), M=M, r=r: le(V(s), self.v(M, r))))
            sets = []
            for p in ints:
                P = rd(p)
                sets.append(('rows below %s' % p, lambda s, P=P, r=r: lt(r, P(s))))
                k0 = start(p)
                if isinstance(k0, T.T) and k0.op != 'num':
                    sets.append(('rows from the start to %s' % p, lambda s, P=P, r=r, k0=k0: land(le(k0, r), lt(r, P(s)))))
                for q in ints:
                    q0 = start(q)
                    if q is not p and isinstance(q0, T.T) and q0.op != 'num':
                        # p turns done, position q, started at q0
                        out.append(('%s is %s turns from its start' % (q, p), lambda s, P=P, Q=rd(q), q0=q0, N=N: lor(eq(Q(s), add(q0, P(s))), eq(Q(s), sub(add(q0, P(s)), N)))))
                        sets.append(('rows of the first %s turns' % p, lambda s, P=P, q0=q0, r=r, N=N: lor(land(le(q0, r), lt(r, add(q0, P(s)))), lt(r, sub(add(q0, P(s)), N)))))
                for q0 in self.starts.values():
                    if self.start_of(q0, ints, start):
                        continue
                    # p turns done, from a position that is not a variable of the loop
                    sets.append(('rows of the first %s turns from %s' % (p, q0), lambda s, P=P, q0=q0, r=r, N=N: lor(land(le(q0, r), lt(r, add(q0, P(s)))), lt(r, sub(add(q0, P(s)), N)))))
            for sl, sf in sets:
                for pl, pf in props:
                    out.append(('%s: %s' % (sl, pl), lambda s, sf=sf, pf=pf, r=r, N=N: implies(land(inr(r, N), sf(s)), pf(s))))
            for lf in reals:
                V = rd(lf)
                out.append(('%s untouched or a bound' % lf, lambda s, V=V, v0=start(lf): lor(eq(V(s), v0), le(V(s), sp(s)))))
                for p in ints:
                    P = rd(p)
                    out.append(('%s <= bound after the first turn of %s' % (lf, p), lambda s, V=V, P=P: implies(lt(I0, P(s)), le(V(s), sp(s)))))
                    out.append(('%s is the start value or the response at %s' % (lf, p), lambda s, V=V, P=P, v0=start(lf), M=M, N=N: lor(eq(V(s), v0), land(le(I0, P(s)), lt(P(s), N), eq(V(s), self.v(M, P(s)))))))
                    for q in ints:
                        if q is not p:
                            out.append(('%s is the response at %s after the first turn of %s' % (lf, p, q), lambda s, V=V, P=P, Q=rd(q), M=M, N=N: implies(lt(I0, Q(s)), land(le(I0, P(s)), lt(P(s), N), eq(V(s), self.v(M, P(s)))))))
        return out

    iter_terms = None
    starts = {}

    def start_of(self, q0, ints, start):
        return any(start(l) is q0 for l in ints)


def rows_in(t):
    """{(matrix, row)} read by a term"""
    return {(a.args[0], a.args[1]) for a in T.subterms(t) if a.op == 'app' and a.args[0] in NAMES}


def check(S, which):
    tu = load(['lowpass_oracle.cpp'])
    fn = 'lowpass_oracle::operator()'
    with S.part(fn):
        E = LP(tu, S)
        cls = find_cls(tu, 'lowpass_oracle')
        n = E.n = iv('n')
        E.N = {m: iv('rows_' + m) for m in NAMES}
        E.r = {m: iv('r_' + m) for m in NAMES}
        E.lo, E.up = rv('Lp'), rv('Up')
        sp = rv('Sp')
        st = State()
        st.assume(le(I1, n), le(I0, E.N['Ap']), le(I1, E.N['As']), le(I0, E.N['Anr']), le(E.lo, E.up))
        st.assume(*[inr(E.r[m], E.N[m]) for m in NAMES if m == 'As'])
        locs = [E.newloc(m, arr(m, E.N[m], n), st) for m in NAMES]
        ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 5)
        s, lv = build(E, cls, ct, locs + [E.lo, E.up], st)
        o = E.read(lv, s)
        pos = [f for f in o.f if isinstance(o.f[f], T.T) and o.f[f].sort == 'I']
        role = {}
        for m in NAMES:
            c = [f for f in pos if f.rstrip('_').endswith(m)] or [f for f in pos if m in f]
            if len(c) == 1:
                role[m] = c[0]
        if pos and len(role) != 3:
            raise Unsupported('round-robin positions %s' % pos)
        for m in role:
            S.goal('lowpass_oracle::lowpass_oracle', 'the position in %s starts in range' % m, s.pc, land(le(I0, o.f[role[m]]), le(o.f[role[m]], E.N[m])))
        o = ObjV(o.cls, dict(o.f))
        mut = mutable_fields(tu, cls) | set(pos)
        for f in o.f:
            if isinstance(o.f[f], (T.T, ArrV)) and f in mut and not (isinstance(o.f[f], T.T) and o.f[f] in (E.lo, E.up)):
                o.f[f] = havoc_value('old' + f, o.f[f])
        s.store[lv.loc] = o
        for m in role:
            s.assume(le(I0, o.f[role[m]]), le(o.f[role[m]], E.N[m]))
        E.starts = {m: o.f[role[m]] for m in role}
        E.spl = E.newloc('Spsq', sp, s)
        x = arr('x', n)
        S.functions.append(fn)
        S.reach.append((fn, s.pc))
        S.assumptions.append('at least one stopband sample and one coefficient; the lower passband bound is not above the upper one')
        kinds = set()
        f_ = method(tu, cls, 'operator()')
        for k, (s2, v) in enumerate(run(E, f_, lv, [E.newloc('x', x, s), E.spl], s)):
            answer(S, E, fn, lv, role, sp, k, s2, v, kinds)
        S.fact(fn, 'both kinds of answer occur', kinds == {True, False})
        S.absorb(E)
        S.safety(E, fn)
        turns(S, E, fn)
        S.notes += ['invariant kept: ' + l for l in getattr(E, 'invariants', [])][:60]


def turns(S, E, fn):
    """every turn of every loop advances a counter towards the number of rows"""
    seen = set()
    for st1, paths in E.rounds:
        nx = [s for s, kind, _ in paths if kind == 'next']
        key = tuple(sorted(str(l) for s in nx for l in s.store if s.store[l] is not st1.store.get(l)))
        if not nx or key in seen:
            continue
        seen.add(key)
        done = False
        for lf in [l for l in st1.store if isinstance(st1.store[l], T.T) and st1.store[l].sort == 'I']:
            a = st1.store[lf]
            for bound in E.N.values():
                if all(smt.entails(s.pc, land(lt(a, s.store[lf]), le(s.store[lf], bound))) for s in nx):
                    done = True
        S.fact(fn, 'termination: every turn of the loop over %s advances a counter' % ', '.join(key[:3]), done)


def answer(S, E, fn, lv, role, sp, k, st, v, kinds):
    lab = 'path %d: ' % k
    cut, imp = tup(v, 2)
    g, f = [E.arr(a, st) for a in tup(cut, 2)]
    n = E.n
    if imp not in (TRUE, FALSE):
        raise Unsupported('improvement flag %s' % imp)
    imp = imp is TRUE
    kinds.add(imp)
    new = E.read(E.spl, st)
    o = E.read(lv, st)
    for m in role:
        p = o.f[role[m]]
        S.goal(fn, lab + 'the position in %s stays in range' % m, st.pc, land(le(I0, p), le(p, E.N[m])))
    j = iv('j')
    s1 = st.copy()
    s1.assume(inr(j, n))
    S.fact(fn, lab + 'one gradient entry per coefficient', smt.entails(st.pc, eq(g.shape[0], n)))
    gj = value_at(E, g.get((j,)), s1)
    size = f.shape[0]
    if size.op != 'num':
        raise Unsupported('number of offsets %s' % size)
    size = int(size.args[0])
    fs = [value_at(E, f.get((num(q, 'I'),)), st) for q in range(size)]
    # cut function at z
    s2 = s1.copy()
    s2.assume(lt(I0, j))
    if T.is_zero(loops.simp(gj, s2.pc)):
        s3 = st.copy()
        gz = mul(value_at(E, g.get((I0,)), s3), sub(T.app('z', (I0,), 'R'), T.app('x', (I0,), 'R')))
    else:
        gz = ssum(n, lambda q: mul(T.subst(gj, {j: q}), sub(T.app('z', (q,), 'R'), T.app('x', (q,), 'R'))))
    # z meets every specification (at the rows the cut reads)
    hyp = [le(R0, T.app('z', (I0,), 'R'))]
    rows = rows_in(gj)
    for m, r in rows:
        hyp.append(implies(inr(r, E.N[m]), E.ok(m, r, new, 'z')))
    S.goal(fn, lab + 'every better filter meeting the specifications satisfies the cut', st.pc + hyp, le(add(gz, fs[0]), R0))
    if size > 1:
        S.goal(fn, lab + 'and its second plane', st.pc + hyp, le(R0, add(gz, fs[1])))
    if not imp:
        S.goal(fn, lab + 'the constraint is really violated', st.pc, lt(R0, fs[0]))
        S.goal(fn, lab + 'the bound is unchanged', st.pc, eq(new, sp))
        return
    S.goal(fn, lab + 'the objective cut passes through the point', st.pc, le(R0, fs[0]))
    for m in NAMES:
        r = E.r[m]
        S.goal(fn, lab + 'improvement only if the constraints at every row of %s hold' % m, st.pc + [inr(r, E.N[m])], E.ok(m, r, new))
    S.goal(fn, lab + 'improvement only if the first coefficient is not negative', st.pc, le(R0, T.app('x', (I0,), 'R')))
    S.goal(fn, lab + 'the new bound is not above the old one', st.pc, le(new, sp))
    att = [land(inr(r, E.N[m]), eq(new, E.v(m, r))) for m, r in rows if m == 'As']
    S.goal(fn, lab + 'the new bound is the response at a stopband row', st.pc, lor(*att) if att else FALSE)
