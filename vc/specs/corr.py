"""P26, P27: correlation model matrices and the oracles of the correlation fit."""
from kit import *
from specs.common import *
from terms import iff
from specs.lmi import *


def check(S, which):
    tu = load(['lsq_corr_ell.cpp'])
    if which == 'P27':
        with S.part('construct_distance_matrix'):
            distance(S, tu)
        with S.part('construct_poly_matrix'):
            poly(S, tu)
        return
    with S.part('lsq_oracle'):
        lsq(S, tu)
    with S.part('mle_oracle'):
        mle(S, tu)
    # the contracts used above, on their own functions
    from specs import lmi as L, ldlt
    with S.part('qmi_oracle'):
        L.qmi(S)
    for c in ('lmi_oracle', 'lmi0_oracle'):
        with S.part(c):
            L.lmi(S, c + '.cpp', c)
    ldlt.used(S, ('on demand',))
    with S.part('ldlt_ext::sqrt'):
        ldlt.sqrt_(S, load(['ldlt_ext.cpp'], 'ldlt.hpp'))


class Parts:
    """contracts of the matrix-inequality oracles, as the correlation oracles see them (P14, P15):
    accept exactly if the matrix at the given point is positive definite; otherwise a cut (g, f), f >= 0,
    that every point with a positive semidefinite matrix satisfies.  The quadratic one leaves behind its
    witness v over [0, stop):  sum g (z - x) + f <= |F(z) v|^2 - t v'v  for every z"""

    def __init__(self, E, F, B):
        self.E, self.F, self.B = E, F, B
        for c in ('lmi0_oracle', 'lmi_oracle', 'qmi_oracle'):
            E.contracts[c + '::operator()'] = lambda E, st, this, args, nn, d, c=c: self.oracle(c, E, st, this, args)
        E.contracts['ldlt_ext::sqrt'] = self.sqrt

    def data(self, o, c, st):
        E = self.E
        ix = (iv('a'), iv('b'))
        k = iv('k')
        vs = [x for x in o.f.values() if isinstance(x, VecV) or (isinstance(x, (RefV, LV)) and isinstance(E.read(x.lv if isinstance(x, RefV) else x, st), VecV))]
        vs = [E.read(v.lv if isinstance(v, RefV) else v, st) if isinstance(v, (RefV, LV)) else v for v in vs]
        E.oblige('%s is built from the given coefficient matrices' % c, st,
                 TRUE if len(vs) == 1 and T.is_zero(sub(E.arr(vs[0].get(k), st).get(ix), self.F.get(k).get(ix))) and vs[0].len is self.F.len else FALSE)
        if c != 'lmi0_oracle':
            bs = [x for f, x in o.f.items() if isinstance(x, ArrV) and len(x.shape) == 2 and f in self.consts[c]]
            want = self.B(c, ix)
            E.oblige('%s is built from the given data' % c, st, TRUE if len(bs) == 1 and T.is_zero(sub(bs[0].get(ix), want)) else FALSE)

    def oracle(self, c, E, st, this, args):
        o = E.read(this, st)
        x = val(E, args[0], st)
        x = E.arr(x, st)
        nv = self.F.len
        self.data(o, c, st)
        E.oblige('%s is asked at a point with one entry per coefficient matrix' % c, st, eq(x.shape[0], nv))
        tag = E.nx()
        o = ObjV(o.cls, dict(o.f))
        lf = [f for f in o.f if isinstance(o.f[f], ObjV) and o.f[f].cls == 'ldlt_ext'][0]
        l = ObjV('ldlt_ext', dict(o.f[lf].f))
        N = self.F.get(I0).shape[0]
        vf = [f for f in l.f if isinstance(l.f[f], ArrV) and len(l.f[f].shape) == 1][0]
        for f in l.f:
            if isinstance(l.f[f], ArrV) and f != vf:
                l.f[f] = havoc_value('%s@%d' % (f, tag), l.f[f])
        yes = E.choose(2) == 0
        st.ghost['asked'] = {k: v for k, v in st.ghost.get('asked', {}).items() if k != c}
        rec = dict(x=x, ok=yes, tag=tag)
        if c == 'qmi_oracle':
            # the threshold: the number its update() sets
            rec['t'] = o.f[self.tfield]
        if yes:
            l.f['p'] = TupV([I0, I0])
        else:
            stop = var('stop@%d' % tag, 'I')
            st.assume(lt(I0, stop), le(stop, N))
            l.f['p'] = TupV([I0, stop])
            l.f[vf] = ArrV((N,), lambda ix: T.app('wit@%d' % tag, ix, 'R'))
            rec.update(g=arr('g@%d' % tag, nv), f=var('f@%d' % tag, 'R'), stop=stop, v=lambda k: T.app('wit@%d' % tag, (k,), 'R'))
            st.assume(le(R0, rec['f']))
        o.f[lf] = l
        E.write(this, o, st)
        st.ghost['asked'][c] = rec
        if yes:
            return OptV(FALSE, None)
        return OptV(TRUE, TupV([rec['g'], rec['f']]))

    def sqrt(self, E, st, this, args, nn, d):
        r = [q for c, q in st.ghost.get('asked', {}).items() if c == 'lmi0_oracle']
        E.oblige('the square root is taken of a matrix found positive definite', st, TRUE if r and r[0]['ok'] else FALSE)
        N = self.F.get(I0).shape[0]
        return ArrV((N, N), lambda ix: ite(le(ix[0], ix[1]), T.app('Root', ix, 'R'), R0))


def oracle_object(S, tu, cname, Bof):
    """the object its constructor makes, with what earlier calls may have changed set to anything"""
    E = loops.Engine(tu)
    cls = find_cls(tu, cname)
    n, N = iv('n'), iv('N')
    st = State()
    st.assume(le(I1, n), le(I1, N))
    T.SYMMETRIC.update({'F', 'B'})
    F = VecV(n, lambda k: ArrV((N, N), lambda ix: T.app('F', (k,) + tuple(ix), 'R')))
    B = symarr('B', N)
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 2 and 'vector' in front.params_of(f)[0]['type']['qualType'])
    P = Parts(E, F, Bof)
    P.consts = {c: {f['name'] for f in find_cls(tu, c)['_fields'] if 'const' in f.get('type', {}).get('qualType', '')} for c in ('lmi_oracle', 'qmi_oracle')}
    s, lv = build(E, cls, ct, [E.newloc('F', F, st), E.newloc('B', B, st)], st)
    o = E.read(lv, s)
    o = ObjV(o.cls, dict(o.f))
    for f, x in o.f.items():
        if isinstance(x, ObjV):
            y = ObjV(x.cls, dict(x.f))
            mut = mutable_fields(tu, find_cls(tu, x.cls))
            for z in y.f:
                if isinstance(y.f[z], ObjV):
                    w = ObjV(y.f[z].cls, dict(y.f[z].f))
                    for u in w.f:
                        if isinstance(w.f[u], ArrV):
                            w.f[u] = havoc_value('old_%s_%s' % (f, u), w.f[u])
                    w.f['p'] = TupV([iv('p0' + f), iv('p1' + f)])
                    y.f[z] = w
                elif z in mut and isinstance(y.f[z], (T.T, ArrV)):
                    y.f[z] = havoc_value('old_%s_%s' % (f, z), y.f[z])
            o.f[f] = y
        elif f in mutable_fields(tu, cls) and isinstance(x, (T.T, ArrV)):
            o.f[f] = havoc_value('old_' + f, x)
    s.store[lv.loc] = o
    return E, cls, P, s, lv, n, N, F


def answers(S, E, tu, cls, lv, x, s, fn):
    t0 = rv('t0')
    tl = E.newloc('t', t0, s)
    S.functions.append(fn)
    S.reach.append((fn, s.pc))
    kinds = set()
    for k, (st, v) in enumerate(run(E, method(tu, cls, 'operator()'), lv, [E.newloc('x', x, s), tl], s)):
        cut, imp = tup(E.read(v, st) if isinstance(v, LV) else v, 2)
        g, f = tup(cut, 2)
        t1 = E.read(tl, st)
        if imp not in (TRUE, FALSE):
            for c in (TRUE, FALSE):
                s2 = st.copy()
                s2.assume(iff(imp, c))
                if not smt.entails(s2.pc, FALSE):
                    kinds.add(c)
                    yield 'path %d' % k, s2, g, f, c is TRUE, t0, t1
            continue
        kinds.add(imp)
        yield 'path %d' % k, st, g, f, imp is TRUE, t0, t1
    S.fact(fn, 'both kinds of answer occur', len(kinds) == 2)


def failed(asked, gk):
    """the failed test the answer comes from, if any"""
    bad = [(c, r) for c, r in asked.items() if not r['ok']]
    for c, r in bad:
        if T.has_app(gk, lambda a, r=r: a == 'g@%d' % r['tag']):
            return c, r
    return bad[-1] if bad else (None, None)


def pick(E, g, st, k, *facts):
    s1 = st.copy()
    s1.assume(*facts)
    return value_at(E, E.arr(g, st).get((k,)), s1)


def lsq(S, tu):
    E, cls, P, s, lv, n, N, F = oracle_object(S, tu, 'lsq_oracle', lambda c, ix: T.app('B', tuple(ix), 'R'))
    fn = 'lsq_oracle::operator()'
    up = method(tu, find_cls(tu, 'qmi_oracle'), 'update')
    cand = [f for f in mutable_fields(tu, find_cls(tu, 'qmi_oracle'))]
    q0 = [x for x in E.read(lv, s).f.values() if isinstance(x, ObjV) and x.cls == 'qmi_oracle'][0]
    ts = [f for f in cand if isinstance(q0.f.get(f), T.T) and q0.f[f].sort == 'R']
    if len(ts) != 1:
        raise Unsupported('threshold of qmi_oracle')
    P.tfield = ts[0]
    x = arr('x', add(n, I1))
    k = iv('k')
    X = lambda i: T.app('x', (i,), 'R')
    for lab, st, g, f, imp, t0, t1 in answers(S, E, tu, cls, lv, x, s, fn):
        lab += ': '
        asked = st.ghost.get('asked', {})
        ok = lambda c: c in asked and asked[c]['ok']
        at = lambda c: T.is_zero(sub(asked[c]['x'].get((k,)), X(k)))
        # one coordinate below n, and the last one
        S.fact(fn, lab + 'the gradient has one entry per coordinate', smt.entails(st.pc, eq(E.arr(g, st).shape[0], add(n, I1))))
        gk, gn = pick(E, g, st, k, inr(k, n)), pick(E, g, st, n)
        S.goal(fn, lab + 'the cut is violated or tight at the point', st.pc, le(R0, f))
        if imp:
            S.fact(fn, lab + 'improvement only after both matrix tests at the point', ok('lmi0_oracle') and ok('qmi_oracle') and at('lmi0_oracle') and at('qmi_oracle')
                   and T.is_zero(sub(asked['qmi_oracle']['t'], X(n))))
            S.goal(fn, lab + 'the new best value is the bound of the point', st.pc, eq(t1, X(n)))
            S.goal(fn, lab + 'and no worse than before', st.pc, le(t1, t0))
        else:
            S.goal(fn, lab + 'the best value is unchanged', st.pc, eq(t1, t0))
        last, rec = failed(asked, gk)
        if rec is None:
            # objective cut: satisfied by every point whose bound is at most the best value
            S.zero(fn, lab + 'the objective cut does not depend on the coefficients', gk, st.pc + [inr(k, n)])
            S.goal(fn, lab + 'a point with a bound not above the best value satisfies the cut', st.pc + [le(rv('tz'), t1)],
                   le(add(mul(gn, sub(rv('tz'), X(n))), f), R0))
            continue
        S.fact(fn, lab + 'the failing test was made at the point', at(last))
        S.zero(fn, lab + 'the cut is that of the failed test', sub(gk, rec['g'].get((k,))), st.pc + [inr(k, n)])
        # S1 = sum over the coefficients of g (z - x)
        s1, tz = rv('S1'), rv('tz')
        if last == 'lmi0_oracle':
            S.goal(fn, lab + 'every point with a positive semidefinite correlation matrix satisfies it', st.pc + [le(add(s1, rec['f']), R0)],
                   le(add(s1, mul(gn, sub(tz, X(n))), f), R0))
        else:
            S.zero(fn, lab + 'the test is made with the bound of the point', sub(rec['t'], X(n)), st.pc)
            vv, w = rv('vv'), rv('Wz')
            v2 = ssum(rec['stop'], lambda q: mul(rec['v'](q), rec['v'](q)))
            S.zero(fn, lab + 'the last gradient entry is minus the squared length of the witness', add(gn, v2), st.pc)
            S.goal(fn, lab + 'every point whose residual is within its bound satisfies it',
                   [le(R0, vv), le(add(s1, rec['f']), sub(w, mul(X(n), vv))), le(w, mul(tz, vv)), eq(rv('gn'), neg(vv))],
                   le(add(s1, mul(rv('gn'), sub(tz, X(n))), rec['f']), R0))
            S.goal(fn, lab + 'the offset is that of the failed test', st.pc, eq(f, rec['f']))
    S.absorb(E)
    S.safety(E, fn)


def mle(S, tu):
    E, cls, P, s, lv, n, N, F = oracle_object(S, tu, 'mle_oracle', lambda c, ix: mul(num(2), T.app('B', tuple(ix), 'R')))
    fn = 'mle_oracle::operator()'
    x = arr('x', n)
    k, i, j = iv('k'), iv('i'), iv('j')
    X = lambda q: T.app('x', (q,), 'R')
    for lab, st, g, f, imp, t0, t1 in answers(S, E, tu, cls, lv, x, s, fn):
        lab += ': '
        asked = st.ghost.get('asked', {})
        ok = lambda c: c in asked and asked[c]['ok']
        at = lambda c: T.is_zero(sub(asked[c]['x'].get((k,)), X(k)))
        S.fact(fn, lab + 'the gradient has one entry per coefficient', smt.entails(st.pc, eq(E.arr(g, st).shape[0], n)))
        gk = pick(E, g, st, k, inr(k, n))
        S.goal(fn, lab + 'the cut is violated or tight at the point', st.pc, le(R0, f))
        last, rec = failed(asked, gk)
        if not imp:
            S.goal(fn, lab + 'the best value is unchanged', st.pc, eq(t1, t0))
        if rec is not None:
            S.fact(fn, lab + 'a failed matrix test is no improvement', not imp)
            S.fact(fn, lab + 'the failing test was made at the point', at(last))
            S.zero(fn, lab + 'the cut is that of the failed test', sub(gk, rec['g'].get((k,))), st.pc + [inr(k, n)])
            S.goal(fn, lab + 'with its offset', st.pc, eq(f, rec['f']))
            continue
        S.fact(fn, lab + 'the objective is evaluated only after both matrix tests at the point', ok('lmi0_oracle') and ok('lmi_oracle') and at('lmi0_oracle') and at('lmi_oracle'))
        # S = inverse of the matrix at the point: X X' for the inverse X of its root (root'root = matrix)
        cand = []
        for key, (a, r) in [(q, v) for q, v in st.ghost.items() if isinstance(q, str) and q.startswith('inverse:')]:
            if T.is_zero(sub(a.get((i, j)), ite(le(i, j), T.app('Root', (i, j), 'R'), R0))):
                cand.append(lambda a, b, r=r: ssum(N, lambda q: mul(r.get((a, q)), r.get((b, q)))))
            elif T.is_zero(sub(a.get((i, j)), ssum(n, lambda q: mul(X(q), T.app('F', (q, i, j), 'R'))))):
                cand.append(lambda a, b, r=r: r.get((a, b)))
        if not cand:
            raise Unsupported('no inverse of the root or the matrix')
        Si = cand[0]
        SY = lambda a, b: ssum(N, lambda q: mul(Si(a, q), T.app('B', (q, b), 'R')))
        SF = lambda a, b: ssum(N, lambda q: mul(Si(a, q), T.app('F', (k, q, b), 'R')))
        nll = add(mul(num(2), ssum(N, lambda q: T.app('log', (T.app('Root', (q, q), 'R'),), 'R'))), ssum(N, lambda q: SY(q, q)))
        if imp:
            S.zero(fn, lab + 'the new best value is the negative log-likelihood at the point', sub(t1, nll), st.pc)
            S.goal(fn, lab + 'which is better than before', st.pc, lt(t1, t0))
            S.goal(fn, lab + 'the cut passes through the point', st.pc, eq(f, R0))
        else:
            S.zero(fn, lab + 'the offset is the distance of the negative log-likelihood to the best value', sub(f, sub(nll, t0)), st.pc)
        want = sub(ssum(N, lambda q: SF(q, q)), ssum(N, lambda q: ssum(N, lambda p: mul(SF(q, p), SY(p, q)))))
        S.zero(fn, lab + 'the direction is the gradient of the negative log-likelihood', sub(gk, want), st.pc + [inr(k, n)])
    S.absorb(E)
    S.safety(E, fn)


def dist2(s, a, b, d):
    return ssum(d, lambda k: mul(sub(s.get((a, k)), s.get((b, k))), sub(s.get((a, k)), s.get((b, k)))))


def distance(S, tu):
    fn = 'construct_distance_matrix'
    E = loops.Engine(tu)
    st = State()
    n, d = iv('n'), iv('d')
    st.assume(le(I0, n), le(I1, d))
    s = arr('site', n, d)
    S.functions.append(fn)
    S.reach.append((fn, st.pc + [lt(I2, n)]))
    i, j = iv('i'), iv('j')
    for k, (s1, v) in enumerate(run(E, tu.find(fn), None, [E.newloc('s', s, st)], st)):
        lab = ' (path %d)' % k
        D = E.arr(v, s1)
        S.fact(fn, 'one row and one column per site' + lab, len(D.shape) == 2 and all(smt.entails(s1.pc, eq(x, n)) for x in D.shape))
        at = lambda a, b, st: value_at(E, D.get((a, b)), st)
        for what, c in (('below', lt(j, i)), ('above', lt(i, j))):
            s2 = s1.copy()
            s2.assume(inr(i, n), inr(j, n), c)
            e = at(i, j, s2)
            S.goal(fn, 'distances are not negative (%s the diagonal)' % what + lab, s2.pc, le(R0, e))
            S.zero(fn, 'squared entries are the squared distances (%s the diagonal)' % what + lab, sub(mul(e, e), dist2(s, i, j, d)), s2.pc)
        s2 = s1.copy()
        s2.assume(inr(i, n))
        S.zero(fn, 'zero diagonal' + lab, at(i, i, s2), s2.pc)
    S.absorb(E)
    S.safety(E, fn)


def poly(S, tu):
    fn = 'construct_poly_matrix'
    E = loops.Engine(tu)
    st = State()
    n, d, m = iv('n'), iv('d'), iv('m')
    st.assume(le(I0, n), le(I1, d), le(I1, m))
    s = arr('site', n, d)
    sl = E.newloc('s', s, st)

    def contract(E, st, this, args, node, decl):
        a = E.ev(args[0], st) if isinstance(args[0], dict) else args[0]
        a = E.read(a, st) if isinstance(a, LV) else a
        ix = (iv('a'), iv('b'))
        E.oblige('the distances are those of the given sites', st, TRUE if a.shape == s.shape and T.is_zero(sub(a.get(ix), s.get(ix))) else FALSE)
        return arr('DIST', n, n)
    E.contracts['construct_distance_matrix'] = contract
    S.functions.append(fn)
    S.reach.append((fn, st.pc + [lt(I2, m)]))
    i, j, k = iv('i'), iv('j'), iv('k')
    for q, (s1, v) in enumerate(run(E, tu.find(fn), None, [sl, E.newloc('m', m, st)], st)):
        lab = ' (path %d)' % q
        S.goal(fn, 'as many matrices as the degree' + lab, s1.pc, eq(v.len, m))
        for what in ('the first matrix is all ones', 'the second holds the distances', 'every further matrix is the one before times the distances'):
            s2 = s1.copy()
            s2.assume(inr(i, n), inr(j, n))
            at = lambda x: value_at(E, E.arr(v.get(x), s2).get((i, j)), s2)
            dd = T.app('DIST', (i, j), 'R')
            if what.startswith('the first'):
                S.zero(fn, what + lab, sub(at(I0), R1), s2.pc)
            elif what.startswith('the second'):
                s2.assume(lt(I1, m))
                S.zero(fn, what + lab, sub(at(I1), dd), s2.pc)
            else:
                k2 = add(k, I2)
                s2.assume(le(I0, k), lt(k2, m))
                S.zero(fn, what + lab, sub(at(k2), mul(at(add(k, I1)), dd)), s2.pc)
        sh = E.arr(v.get(k), s1).shape
        S.fact(fn, 'one row and one column per site' + lab, len(sh) == 2 and all(smt.entails(s1.pc + [inr(k, m)], eq(y, n)) for y in sh))
    S.absorb(E)
    S.safety(E, fn)
