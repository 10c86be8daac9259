"""P05: class ell_stable (lib/include/ellcpp/ell_stable.hpp, lib/src/ell_stable.cpp) against class ell.

The factored object represents the ellipsoid with M = L^-T diag(Q(i,i)) L^-1, L unit lower triangular with
L(j,i) = Q(i,j) for i < j; the strict lower triangle is scratch.  A rank-one update of M has exactly one such
factorisation, so "represents the same ellipsoid" is decided entry by entry (lemma stable.lean)."""
from kit import *
import specs.ell as L

x, y = iv('x'), iv('y')
tau, om, u, v, N = L.tau, L.om, L.u, L.v, L.N


def Qf(a, b):
    return T.app('QF', (a, b), 'R')         # not symmetric: only the upper triangle means something


def p_(a):
    return T.app('p$', (a,), 'R')          # p = L^-1 g


def vq(a):
    return T.app('v$', (a,), 'R')          # v = M g


def vw(a):
    return T.app('vwrong$', (a,), 'R')     # the recorded wrong back substitution


def g_(a):
    return T.app('g', (a,), 'R')


class Nrm:
    """values in terms of the mathematical objects p, v of the factored shape"""

    def __init__(self, E, n):
        self.E, self.n = E, n
        self.known = {}
        self.busy = frozenset()

    def __call__(self, t, st):
        return self.rev(self.go(t, list(st.pc), st, 14))

    def state(self, pc, st):
        s = st.copy()
        s.pc = pc
        return s

    def spec(self, t, pc):
        """the values at the ends: p(0) = g(0), v(n-1) = Q(n-1,n-1) p(n-1)"""
        f = t.args[0]
        if f == 'g' and len(t.args) == 2 and smt.entails(pc, eq(t.args[1], I0)):
            return p_(t.args[1])
        if f in ('v$', 'vwrong$') and smt.entails(pc, eq(t.args[1], sub(self.n, I1))):
            a = t.args[1]
            return mul(Qf(a, a), p_(a))
        return t

    def go(self, t, pc, st, d):
        if d <= 0 or t.op in ('num', 'bool', 'var'):
            return t
        if t.op == 'app':
            name = t.args[0]
            if name in self.E.fdefs:
                fd = self.E.fdefs[name]
                k = self.known.get(name)
                if k is not None and len(fd.params) == 0:
                    r = k(t.args[1:], pc)
                    if r is not None:
                        return self.go(r, pc, st, d - 1)
                if name in self.busy:
                    return t
                r = self.E.unfold(t, self.state(pc, st))
                if r is not None:
                    self.busy = self.busy | {name}
                    try:
                        return self.go(r, pc, st, d - 1)
                    finally:
                        self.busy = self.busy - {name}
                return t
            t = T.rebuild(t, lambda q: self.go(q, pc, st, d))
            return self.spec(t, pc) if t.op == 'app' else t
        if t.op == 'ite':
            c, a, b = t.args
            c = self.go(c, pc, st, d)
            if c is T.TRUE or smt.entails(pc, c):
                return self.go(a, pc, st, d)
            nc = lnot(c)
            if c is T.FALSE or smt.entails(pc, nc):
                return self.go(b, pc, st, d)
            pa, pb = pc + loops.conj_list([c]), pc + [nc]
            a, b = self.go(a, pa, st, d), self.go(b, pb, st, d)
            if a is b or self.go(a, pb, st, d) is b:
                return a
            if self.go(b, pa, st, d) is a:
                return b
            return T.ite(c, a, b)
        if t.op == 'sum':
            ranges, body = t.args
            ren, nr, pc2 = {}, [], list(pc)
            for w, lo, hi in ranges:
                nv = T.fresh_bound()
                lo, hi = self.go(T.subst(lo, ren), pc2, st, d), self.go(T.subst(hi, ren), pc2, st, d)
                nr.append((nv, lo, hi))
                ren[T.var(w, 'I')] = nv
                pc2 = pc2 + [le(lo, nv), lt(nv, hi)]
            b = self.go(T.subst(body, ren), pc2, st, d)
            for nv, lo, hi in reversed(nr):
                b = T.rsum(nv, lo, hi, b)
            return b
        return T.rebuild(t, lambda q: self.go(q, pc, st, d))

    def rev(self, t):
        """sums over one range: the smaller of the two directions"""
        m = {}
        for q in T.subterms(t):
            if q.op == 'sum' and len(q.args[0]) == 1:
                w, lo, hi = q.args[0][0]
                k = T.fresh_bound()
                r = T.rsum(k, lo, hi, T.subst(q.args[1], {T.var(w, 'I'): sub(sub(add(lo, hi), I1), k)}))
                if r is not q and T.skey(r) < T.skey(q):
                    m[q] = r
        return T.subst(t, m) if m else t

    def identify(self, st):
        """single-assignment arrays that hold p, Dp, pDp, v (by strong induction over the index)"""
        n = self.n
        dom = inr(x, n)
        spec = [('p', p_(x), sub(g_(x), ssum(x, lambda k: mul(Qf(k, x), p_(k)))), 1),
                ('Dp', mul(Qf(x, x), p_(x)), None, 0),
                ('pDp', mul(Qf(x, x), p_(x), p_(x)), None, 0),
                ('v', vq(x), sub(mul(Qf(x, x), p_(x)), ssum(sub(sub(n, I1), x), lambda k: mul(Qf(x, add(x, I1, k)), vq(add(x, I1, k))))), -1),
                ('v (as recorded)', vw(x), sub(mul(Qf(x, x), p_(x)), ssum(sub(sub(n, I1), x), lambda k: mul(Qf(add(x, I1), add(x, I1, k)), vw(add(x, I1, k))))), -1)]
        zones = [[dom], [le(I1, x), lt(x, n)], [le(I0, x), lt(x, sub(n, I1))]]
        found = {}
        for name, fd in list(self.E.fdefs.items()):
            if fd.rank != 1 or fd.params or name in self.known:
                continue
            app = T.app(name, (x,), 'R')
            for zone in zones:
                s = st.copy()
                s.assume(dom, *zone)
                if self.E.unfold(app, s) is None:
                    continue
                for what, val, rhs, way in spec:
                    def k(ix, pc, val=val, zone=zone, way=way, ind=True):
                        z = ix[0]
                        c = [T.subst(q, {x: z}) for q in zone]
                        if ind:
                            if way == 0:
                                return None
                            c.append(lt(z, x) if way > 0 else lt(x, z))
                        if all(smt.entails(pc, q) for q in c):
                            return T.subst(val, {x: z})
                        return None
                    self.known[name] = k
                    self.busy = frozenset([name])
                    got = self(self.E.unfold(app, s), s)
                    self.busy = frozenset()
                    want = self(val if rhs is None else rhs, s)
                    if got is want or (what in ('Dp', 'pDp') and T.is_zero(sub(got, want))):
                        self.known[name] = lambda ix, pc, k=k: k(ix, pc, ind=False)
                        found[name] = what
                        break
                    del self.known[name]
                if name in found:
                    break
        return found


def check(S, which):
    tu = load(['ell_stable.cpp', 'ell.cpp'])
    E0, cls0, _, lv0, _, n, g, runs = L.execute(tu, S)
    plain = {}
    for name, f, par, nm, paths, obl, nb in runs:
        plain[name] = [L.analyse(E0, S, name, nm, st, val, lv0, n) for st, val in paths]

    E = loops.Engine(tu)
    base = find_cls(tu, 'ell')
    cls = [c for c in tu.classes.values() if c.get('name') == 'ell_stable' and c.get('inner')]
    if not cls:
        raise Unsupported('class ell_stable not found')
    cls = cls[0]
    ct = L.ctor_with(E, cls, lambda f: len(front.params_of(f)) == 2 and L.strip(front.params_of(f)[0]) == 'double')
    alpha = rv('alpha')
    st0 = State()
    st0.assume(le(I2, n))
    s0, lv = build(E, cls, ct, [alpha, arr('x0', n)], st0)
    o = E.read(lv, s0)
    L.roles(o, alpha)
    R = L.R
    mut = mutable_fields(tu, base) | mutable_fields(tu, cls)
    o = ObjV(o.cls, dict(o.f))
    for f in sorted(mut):
        o.f[f] = havoc_value('old' + f, o.f[f])
    o.f.update({R['kappa']: rv('kappa'), R['Q']: arr('QF', n, n), R['xc']: arr('xc', n),
                'use_parallel_cut': bv('upc'), 'no_defer_trick': bv('ndt')})
    R['scratch'] = tuple(sorted(mut - {R['kappa'], R['Q'], R['xc'], 'use_parallel_cut', 'no_defer_trick'}))
    s0.store[lv.loc] = o
    OMS = ssum(n, lambda k: mul(Qf(k, k), p_(k), p_(k)))
    for name, f, beta, assum, bm, par in L.scenarios(tu, cls, True):
        fn = 'ell_stable::' + name
        with S.part(fn):
            one(S, fn, E, cls, lv, o, s0, n, g, name, f, beta, assum, bm, par, plain, OMS)
    S.absorb(E)
    with S.part('ell_stable: constructors, copy, centre'):
        E.obligs, E.bounds_ok = [], 0
        L.p04_misc(S, E, tu, cls, s0, lv, o, n, 'ell_stable', base)
        S.absorb(E)
    S.lean.append('stable')
    S.assumptions.append('for parallel cuts the contraction sigma lies in [0,1): proved for the same sigma by P02')


def one(S, fn, E, cls, lv, o0, s0, n, g, name, f, beta, assum, bm, par, plain, OMS):
    R = L.R
    s = s0.copy()
    s.assume(lt(R0, rv('kappa')))
    E.obligs, E.bounds_ok = [], 0
    E.cover = []
    for a in assum:
        if isinstance(a, T.T):
            s.assume(a)
    paths = run(E, f, lv, [TupV([g, beta])], s)
    S.functions.append(f.get('_qual') + ' [' + name + ']')
    obl, nb = list(E.obligs), E.bounds_ok
    nz = Nrm(E, n)
    stx = paths[0][0]
    found = nz.identify(stx)
    if 'p' not in found.values():
        raise Unsupported('no array found to hold inv(L) g')
    m1 = {nz.rev(OMS): om, OMS: om}
    T.POSITIVE.add(tau)
    T.POSITIVE.add(om)
    m2 = {rv('kappa'): div(mul(tau, tau), om)}
    m2.update(bm)

    def nm(t, st):
        t = nz(t, st)
        t = T.subst(t, m1)
        t = T.subst(t, m2)
        return scale(T.subst(t, {n: N})) if t.sort != 'I' else t
    extra = []
    for a in assum:
        if a == 'out':
            extra.append(lt(R1, mul(v, v)))
        elif a == 'in':
            extra.append(le(mul(v, v), R1))
    PC = L.BASE + extra
    pd = plain[name]
    S.reach.append((name, s.pc))
    hit = 0
    sigs = []
    for pi, (st, val) in enumerate(paths):
        pc = PC + [nm(q, st) for q in st.pc if not smt.has_quant(q)]
        if smt.entails(pc, T.FALSE) or smt.prove(pc, T.FALSE, rlimit=400_000)[0] == 'proved':
            continue
        label = 'path %d' % pi
        code, tsq = val.items
        status = int(code.args[0]) if code.op == 'num' else None
        S.zero(fn, label + ': the reported size is the scale times g\'Mg of the represented shape', sub(nm(tsq, st), mul(tau, tau)), [])
        on = E.read(lv, st)
        for opt in ('use_parallel_cut', 'no_defer_trick'):
            S.fact(fn, label + ': the %s option is left alone' % opt, on.f[opt] is o0.f[opt])
        mates = []
        for qi, d in enumerate(pd):
            both = [q for q in pc + d['pc'] if not (q is bv('ndt') or q is lnot(bv('ndt')))]
            same = frozenset(q for q in pc if q.sort == 'B') == frozenset(q for q in d['pc'] + PC if q not in (bv('ndt'), lnot(bv('ndt'))))
            if same or smt.prove(both, T.FALSE, rlimit=1_500_000)[0] != 'proved':
                mates.append((qi, d))
        if not mates:
            S.fact(fn, label + ': the plain update has this outcome', False, 'no matching path')
            continue
        ok = all(d['status'] == status for _, d in mates)
        S.fact(fn, label + ': same status as the plain update (%s)' % L.STAT.get(status), ok, str([d['status'] for _, d in mates]))
        if not ok:
            continue
        sx = st.copy()
        sx.assume(inr(x, n), inr(y, n), lt(x, y))
        sd = st.copy()
        sd.assume(inr(x, n))
        Qn, xn = on.f[R['Q']], on.f[R['xc']]
        kap = nm(on.f[R['kappa']], st)
        if status != 0:
            S.zero(fn, label + ': scale unchanged', sub(kap, m2[rv('kappa')]))
            S.zero(fn, label + ': diagonal factor unchanged', sub(nm(Qn.get((x, x)), sd), Qf(x, x)))
            S.zero(fn, label + ': triangular factor unchanged', sub(nm(Qn.get((x, y)), sx), Qf(x, y)))
            S.zero(fn, label + ': centre unchanged', sub(nm(xn.get((x,)), sd), T.app('xc', (x,), 'R')))
            continue
        hit += 1
        for qi, d in mates:
            lab = label if len(mates) == 1 else label + '/%d' % qi
            if bv('ndt') in d['pc'] and any(lnot(bv('ndt')) in e['pc'] for _, e in mates):
                continue          # P01/P02: folding the scale in represents the same ellipsoid
            dec = L.decompose(d)
            if dec is None:
                raise Unsupported('the plain update is not a rank-one update')
            AB, C = dec
            a, b = AB[0]
            sig = neg(div(mul(b, om), a))
            K = mul(d['kappa'], a)
            sigs.append((sig, d['pc']))
            if not par:
                pcs = d['pc'] + [lt(u, R1)]
                S.goal(fn, lab + ': 0 <= sigma < 1', pcs, land(*[le(R0, sig), lt(sig, R1)]))
            Sx = nz.rev(ssum(x, lambda k: mul(Qf(k, k), p_(k), p_(k))))
            G = mul(Qf(x, x), p_(x), p_(x))
            t0 = add(mul(sub(R1, sig), om), mul(sig, Sx))
            t1 = add(t0, mul(sig, G))
            with limit(120):
                for zone, zn in ((lt(x, sub(n, I1)), ''), (eq(x, sub(n, I1)), ' (last)')):
                    sz = sd.copy()
                    sz.assume(zone)
                    dv = nm(Qn.get((x, x)), sz)
                    sb = {x: sub(n, I1)} if zn else {}
                    w = [T.subst(q, sb) for q in (t0, t1, Qf(x, x))]
                    w = [scale(T.subst(T.subst(q, m1), {n: N})) for q in w]
                    dv = scale(T.subst(T.subst(nz.rev(T.subst(dv, sb)), m1), {n: N}))
                    S.zero(fn, lab + ': the scaled diagonal factor is that of the plain update' + zn,
                           sub(mul(kap, dv, w[1]), mul(K, w[2], w[0])))
                beta_ = div(mul(sig, Qf(x, x), p_(x)), t1)
                lv_ = nm(Qn.get((x, y)), sx)
                wr = sub(g_(y), ssum(add(x, I1), lambda k: mul(Qf(k, y), p_(k))))
                bad = mul(Qf(x, y), p_(x))
                good = is0(nz, sub(sub(lv_, Qf(x, y)), mul(beta_, wr)))
                rec = good or is0(nz, sub(sub(lv_, Qf(x, y)), mul(beta_, bad)))
                S.fact(fn, lab + ': the triangular factor is that of the plain update', good, str(lv_)[:300])
                S.fact(fn, lab + ': the triangular factor is that of the plain update, or else exactly as recorded in known_findings.json', rec, str(lv_)[:300])
                cv = nm(xn.get((x,)), sd)
                dx = sub(cv, T.app('xc', (x,), 'R'))
                good = is0(nz, sub(dx, mul(C, vq(x))))
                rec = good or is0(nz, sub(dx, mul(C, vw(x))))
                S.fact(fn, lab + ': the centre is that of the plain update', good, str(cv)[:300])
                S.fact(fn, lab + ': the centre is that of the plain update, or else exactly as recorded in known_findings.json', rec, str(cv)[:300])
    if hit == 0:
        S.fact(fn, 'some path succeeds', False)
    # divisors and square roots
    done = set()
    Sg, Sv, Gv = rv('sigma'), rv('S$'), rv('G$')
    for ob in obl:
        key = (ob.name, frozenset(ob.pc), ob.goal)
        if key in done:
            continue
        done.add(key)
        so = stx.copy()
        so.pc = list(ob.pc)
        goal = ob.goal
        if goal.op == 'not' and goal.args[0].op == 'eq':
            a, b = goal.args[0].args
            w = nm(sub(T.to_real(a), T.to_real(b)), so)
            its = [T.var(q, 'I') for q in sorted(w.fv) if q.startswith('K')] or [sub(n, I1)]
            ok = False
            for sig, _ in sigs:
                for it in its:
                    t1 = add(mul(sub(R1, sig), om), mul(sig, nm(ssum(it, lambda k: mul(Qf(k, k), p_(k), p_(k))), so)),
                             mul(sig, Qf(it, it), p_(it), p_(it)))
                    t1 = scale(T.subst(t1, {n: N}))
                    if is0(nz, sub(w, t1)) or is0(nz, add(w, t1)):
                        ok = True
            if ok:
                S.goal(fn, 'safety: ' + ob.name, [le(R0, Sg), lt(Sg, R1), lt(R0, om), le(R0, Sv), le(R0, Gv)],
                       ne(add(mul(sub(R1, Sg), om), mul(Sg, add(Sv, Gv))), R0), kind='safety')
                continue
            goal = ne(w, R0)
        else:
            goal = nm(goal, so)
        S.goal(fn, 'safety: ' + ob.name, PC + [nm(q, so) for q in ob.pc if not smt.has_quant(q)], goal, kind='safety')
    S.safety_ok = getattr(S, 'safety_ok', 0) + nb


def is0(nz, t):
    if T.is_zero(t):
        return True
    m = {}
    for q in T.subterms(t):
        if q.op == 'sum' and len(q.args[0]) == 1 and q.args[0][0][2] is add(x, I1):
            w, lo, hi = q.args[0][0]
            k, w = T.fresh_bound(), T.var(w, 'I')
            m[q] = add(T.rsum(k, lo, x, T.subst(q.args[1], {w: k})), T.subst(q.args[1], {w: x}))
    return T.is_zero(nz.rev(T.subst(t, m) if m else t))
