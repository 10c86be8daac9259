"""P14, P15: linear and quadratic matrix inequality oracles.

The factorization is used through its contract (proved in P12/P13, vc/specs/ldlt.py):
  factor(getA)  visits rows 0, 1, ... in order, within row i elements j <= i only, row after
                row up to the reported block's last row; true iff the matrix is positive definite,
                otherwise reports a block [0, stop)
  witness()     v with last entry 1 and v'Av = -result over the block, result >= 0
  sym_quad(M)   v'Mv over the block, M symmetric
"""
from kit import *

i, j, q, c = iv('i'), iv('j'), iv('q'), iv('c')


def val(E, a, st):
    if isinstance(a, dict):
        a = E.ev(a, st)
    return E.read(a, st) if isinstance(a, LV) else a


class LdltContract:
    """the contract of ldlt_ext, as the oracles see it"""

    def __init__(self, E, S, fn):
        self.E, self.S, self.fn = E, S, fn
        self.calls = 0
        for m in ('factor', 'factorize', 'witness', 'sym_quad', 'is_spd'):
            E.contracts['ldlt_ext::' + m] = getattr(self, m)

    def obj(self, this, st):
        o = self.E.read(this, st)
        return o, [f for f in o.f if isinstance(o.f[f], ArrV) and len(o.f[f].shape) == 1][0], \
            [f for f in o.f if isinstance(o.f[f], ArrV) and len(o.f[f].shape) == 2][0]

    def size(self, o):
        return [o.f[f] for f in o.f if isinstance(o.f[f], ArrV) and len(o.f[f].shape) == 2][0].shape[0]

    def factor(self, E, st, this, args, nn, d):
        lam = args[0]
        if isinstance(lam, dict):
            lam = E.ev(lam, st)
        if isinstance(lam, LV):
            lam = E.read(lam, st)
        o, vf, tf = self.obj(this, st)
        N = self.size(o)
        # one element, any position in the lower triangle, evaluated in the state of the call
        s1 = st.copy()
        a, b = var('row@%d' % E.nx(), 'I'), var('col@%d' % E.nx(), 'I')
        s1.assume(le(I0, b), le(b, a), lt(a, N))
        eff = None
        # conditions on the data alone (not on the element) split the whole call
        for y, s in self.cases(a, b, s1):
            ps = self.element(E, lam, a, y, s)
            if len(ps) > 1:
                extra = [[c_ for c_ in q_.pc if c_ not in s.pc] for q_, v in ps]
                if any({a.args[0], b.args[0]} & c_.fv for x in extra for c_ in x):
                    continue
                k_ = E.choose(len(ps))
                st.assume(*extra[k_])
                s1.assume(*extra[k_])
        paths = self.element(E, lam, a, b, s1)
        if all(self.unchanged(s1, s) for s, v in paths):
            off, diag = [self.one(E, lam, a, y, s, 'element')[1] for y, s in self.cases(a, b, s1)]
        else:
            off, diag, eff = self.cached(E, st, lam, a, b, s1, paths, N)
        O = lambda x, y: T.subst(off, {a: x, b: y})
        D = lambda x: T.subst(diag, {a: x})
        if T.is_zero(sub(D(a), O(a, a))):
            A = O
        else:
            A = lambda x, y: D(x) if x is y else O(x, y) if T.is_zero(sub(sub(x, y), I1)) else ite(eq(x, y), D(x), O(x, y))
        st.ghost['AOD'] = (O, D)
        return self.outcome(E, st, this, A, N, eff)

    def cases(self, a, b, s1):
        s2 = s1.copy()
        s2.assume(lt(b, a))
        return [(b, s2), (a, s1)]

    def one(self, E, lam, a, y, s, what):
        r = self.element(E, lam, a, y, s)
        if len(r) == 1:
            return r[0]
        # one state and one value, by the conditions the paths were taken on
        out, val_ = r[-1][0].copy(), r[-1][1]
        if not all(isinstance(v, T.T) for _, v in r):
            raise Unsupported('%s: %d paths' % (what, len(r)))
        for s1, v in reversed(r[:-1]):
            cond = land(*[c_ for c_ in s1.pc if c_ not in s.pc])
            val_ = v if v is val_ else ite(cond, v, val_)
            for l in s.store:
                out.store[l] = self.either(cond, s1.store[l], out.store[l], what)
        out.pc = list(s.pc)
        return out, val_

    def either(self, cond, x, y, what):
        if x is y:
            return x
        if isinstance(x, T.T) and isinstance(y, T.T) and x.sort == y.sort:
            return ite(cond, x, y)
        if isinstance(x, ArrV) and isinstance(y, ArrV) and len(x.shape) == len(y.shape) and all(p is q_ for p, q_ in zip(x.shape, y.shape)):
            return ArrV(x.shape, lambda ix: ite(cond, x.get(ix), y.get(ix)))
        if isinstance(x, ObjV) and isinstance(y, ObjV) and x.cls == y.cls and set(x.f) == set(y.f):
            return ObjV(x.cls, {k_: self.either(cond, x.f[k_], y.f[k_], what) for k_ in x.f})
        if isinstance(x, TupV) and isinstance(y, TupV) and len(x.items) == len(y.items):
            return TupV([self.either(cond, p, q_, what) for p, q_ in zip(x.items, y.items)])
        raise Unsupported('%s: paths that leave %s and %s' % (what, type(x).__name__, type(y).__name__))

    def element(self, E, lam, a, b, s1):
        r = E.explore(s1, lambda s: E.call_lambda(lam, [a, b], s))
        return [(s, v) for s, k, v in r]

    def unchanged(self, s0, s1):
        return all(s1.store[l] is v for l, v in s0.store.items())

    def changed(self, s0, s1):
        out = []
        for l in s0.store:
            loops.leaves_diff(s0.store[l], s1.store[l], (), x := [])
            out += [LV(l, p) for p in x]
        return out

    def cached(self, E, st, lam, a, b, s1, paths, N):
        """element function that stores rows as it goes: a counter of rows done and an array of rows.
        Invariant while row a is read: the counter is a or a+1, and the rows below the counter are right."""
        S, fn = self.S, self.fn
        leaves = []
        for s, v in paths:
            for l in self.changed(s1, s):
                if l not in leaves:
                    leaves.append(l)
        cnt = [l for l in leaves if isinstance(E.getleaf(l, st), T.T) and E.getleaf(l, st).sort == 'I']
        rows = [l for l in leaves if isinstance(E.getleaf(l, st), ArrV) and len(E.getleaf(l, st).shape) == 2]
        if len(cnt) != 1 or len(rows) != 1 or len(leaves) != 2:
            raise Unsupported('the element function modifies %s' % leaves)
        cl, rl = cnt[0], rows[0]
        S.zero(fn, 'the row cache is empty when the factorization starts', sub(T.to_real(E.getleaf(cl, st)), R0), st.pc)
        old = E.getleaf(rl, st)
        M = old.shape[1]
        # what a fresh row receives
        s2 = s1.copy()
        E.putleaf(cl, a, s2)
        E.putleaf(rl, arr('oldrows', *old.shape), s2)
        fresh = []
        for y, s3 in self.cases(a, b, s2):
            s3, _ = self.one(E, lam, a, y, s3, 'first element of a row')
            s4 = s3.copy()
            s4.assume(inr(q, M))
            fresh.append(value_at(E, E.getleaf(rl, s3).get((a, q)), s4))
        g = fresh[0]
        S.zero(fn, 'a fresh row does not depend on the element asked for', sub(fresh[1], T.subst(g, {b: a})), s1.pc)
        if 'oldrows' in [x.args[0] for x in T.subterms(g) if x.op == 'app'] or b.args[0] in g.fv:
            S.fact(fn, 'a fresh row is computed from the data alone', False, str(g))
        G = lambda x, y: T.subst(g, {a: x, q: y})
        self.G = G
        out = []
        for c0 in (a, add(a, I1)):
            s2 = s1.copy()
            E.putleaf(cl, c0, s2)
            E.putleaf(rl, ArrV(old.shape, lambda ix, c0=c0: ite(lt(ix[0], c0), G(*ix), T.app('oldrows', ix, 'R'))), s2)
            for y, s3 in self.cases(a, b, s2):
                lab = ('first element of a row' if c0 is a else 'further element of a row') + (' (diagonal)' if y is a else '')
                s3, v = self.one(E, lam, a, y, s3, lab)
                S.zero(fn, lab + ': the row counts as done', sub(T.to_real(E.getleaf(cl, s3)), T.to_real(add(a, I1))), s3.pc)
                s4 = s3.copy()
                k_ = iv('r')
                s4.assume(le(I0, k_), le(k_, a), inr(q, M))
                S.zero(fn, lab + ': the rows done are right', sub(value_at(E, E.getleaf(rl, s3).get((k_, q)), s4), G(k_, q)), s4.pc)
                out.append(value_at(E, loops.simp(v, s3.pc), s3))
        for z in (0, 1):
            S.zero(fn, 'an element does not depend on whether its row was cached' + (' (diagonal)' if z else ''), sub(out[z], out[z + 2]), s1.pc)

        def eff(s, top):
            E.putleaf(cl, top, s)
            E.putleaf(rl, ArrV(old.shape, lambda ix: ite(lt(ix[0], top), G(*ix), old.get(ix))), s)
        return out[0], out[1], eff

    def factorize(self, E, st, this, args, nn, d):
        A = val(E, args[0], st)
        o, vf, tf = self.obj(this, st)
        N = self.size(o)
        E.oblige('the matrix has the size of the factorization', st, land(eq(A.shape[0], N), eq(A.shape[1], N)))
        s1 = st.copy()
        s1.assume(inr(i, N), inr(j, N))
        t = value_at(E, A.get((i, j)), s1)
        return self.outcome(E, st, this, lambda x, y: T.subst(t, {i: x, j: y}), N, None)

    def outcome(self, E, st, this, A, N, eff):
        o, vf, tf = self.obj(this, st)
        o = ObjV(o.cls, dict(o.f))
        tag = E.nx()
        o.f[tf] = arr('T@%d' % tag, N, N)
        st.ghost['A'] = (A, N)
        yes = E.choose(2) == 0
        if yes:
            o.f['p'] = TupV([I0, I0])
            if eff:
                eff(st, N)
            st.ghost['pd'] = True
        else:
            stop = var('stop@%d' % tag, 'I')
            st.assume(lt(I0, stop), le(stop, N))
            o.f['p'] = TupV([I0, stop])
            if eff:
                eff(st, stop)
            st.ghost['pd'] = False
        E.write(this, o, st)
        return TRUE if yes else FALSE

    def witness(self, E, st, this, args, nn, d):
        o, vf, tf = self.obj(this, st)
        b, e = o.f['p'].items
        E.oblige('a witness is asked for only after a rejection', st, lt(b, e))
        if 'A' not in st.ghost:
            raise Unsupported('witness before any factorization')
        A, N = st.ghost['A']
        w = 'wit@%d' % E.nx()
        o = ObjV(o.cls, dict(o.f))
        o.f[vf] = ArrV((N,), lambda ix: T.app(w, ix, 'R'))
        E.write(this, o, st)
        wv = lambda x: T.app(w, (x,), 'R')
        st.ghost['w'] = (wv, b, e)
        ep = neg(self.quad(wv, A, b, e))
        st.assume(le(R0, ep), eq(wv(sub(e, I1)), R1))
        return ep

    def quad(self, w, A, b, e):
        x, y = T.fresh_bound(), T.fresh_bound()
        return T.rsum(x, b, e, T.rsum(y, b, e, mul(w(x), A(x, y), w(y))))

    def sym_quad(self, E, st, this, args, nn, d):
        M = val(E, args[0], st)
        o, vf, tf = self.obj(this, st)
        b, e = o.f['p'].items
        v = o.f[vf]
        E.oblige('the quadratic form is over a matrix of the right size', st, land(le(e, M.shape[0]), le(e, M.shape[1])))
        s1 = st.copy()
        s1.assume(inr(i, e), inr(j, e))
        t = value_at(E, M.get((i, j)), s1)
        t2 = value_at(E, M.get((j, i)), s1)
        if not T.is_zero(sub(t, t2)):
            E.oblige('the quadratic form is over a symmetric matrix', st, FALSE)
        return self.quad(lambda x: v.get((x,)), lambda x, y: T.subst(t, {i: x, j: y}), b, e)

    def is_spd(self, E, st, this, args, nn, d):
        o = E.read(this, st)
        return eq(o.f['p'].items[1], I0)


def check(S, which):
    if which == 'P14':
        for f, cname in (('lmi_oracle.cpp', 'lmi_oracle'), ('lmi0_oracle.cpp', 'lmi0_oracle'), ('lmi_old_oracle.cpp', 'lmi_old_oracle')):
            with S.part(cname):
                lmi(S, f, cname)
    else:
        with S.part('qmi_oracle'):
            qmi(S)
    # the contract used above, on its own functions
    from specs import ldlt
    ldlt.used(S, ('on demand', 'matrix') if which == 'P14' else ('on demand',))


def make(S, f, cname, sizes, symmetric):
    tu = load([f])
    E = loops.Engine(tu)
    cls = find_cls(tu, cname)
    n = iv('n')            # number of variables
    rows, cols = sizes
    st = State()
    st.assume(le(I1, n), le(I1, rows), le(I1, cols))
    if symmetric:
        T.SYMMETRIC.add('F')
        T.SYMMETRIC.add('B')
    span = VecV(n, lambda k: ArrV((rows, cols), lambda ix: T.app('F', (k,) + tuple(ix), 'R')))
    F0 = ArrV((rows, cols), lambda ix: T.app('B', ix, 'R'))
    cts = [x for x in E.ctors(cls) if not front.is_pattern(x) and len(front.params_of(x)) in (1, 2) and 'span' in front.params_of(x)[0]['type']['qualType']]
    if not cts:
        raise Unsupported('constructor of %s' % cname)
    S_ = len(front.params_of(cts[0]))
    s, lv = build(E, cls, cts[0], [span, F0][:S_], st)
    # an earlier use may have left anything in the factorization and the scratch
    o = E.read(lv, s)
    o = ObjV(o.cls, dict(o.f))
    mut = mutable_fields(tu, cls)
    for x in o.f:
        if isinstance(o.f[x], ObjV) and o.f[x].cls == 'ldlt_ext':
            p = ObjV(o.f[x].cls, dict(o.f[x].f))
            for y in p.f:
                if isinstance(p.f[y], ArrV):
                    p.f[y] = havoc_value('old' + y, p.f[y])
            p.f['p'] = TupV([iv('p0'), iv('p1')])
            o.f[x] = p
        elif x in mut:
            o.f[x] = havoc_value('old_' + x, o.f[x])
    s.store[lv.loc] = o
    return tu, E, cls, s, lv, n


def run_oracle(S, E, tu, cls, s, lv, n, fn):
    f = method(tu, cls, 'operator()')
    S.functions.append(fn)
    x = arr('x', n)
    paths = run(E, f, lv, [x], s.copy())
    S.absorb(E)
    S.safety(E, fn)
    S.reach.append((fn, s.pc))
    got = {True: 0, False: 0}
    for k, (st, v) in enumerate(paths):
        lab = 'path %d' % k
        if 'A' not in st.ghost:
            S.fact(fn, lab + ': the answer rests on a factorization', False)
            continue
        pd = st.ghost['pd']
        got[pd] += 1
        none = isinstance(v, Tag) and v.kind == 'nullopt'
        if not none and isinstance(v, OptV):
            none = v.has is FALSE
        S.fact(fn, lab + ': accepts exactly when the matrix is positive definite', none == pd, repr(v))
        if pd:
            yield lab, st, None, None
        elif not none:
            cut = v.val if isinstance(v, OptV) else v
            if not isinstance(cut, TupV):
                raise Unsupported('result %r' % (v,))
            yield lab, st, cut.items[0], cut.items[1]
    S.fact(fn, 'both answers occur', got[True] > 0 and got[False] > 0)


def linear(E, g, st, n):
    s1 = st.copy()
    s1.assume(inr(c, n))
    return value_at(E, g.get((c,)), s1)


def lmi(S, f, cname):
    N = iv('N')
    tu, E, cls, s, lv, n = make(S, f, cname, (N, N), True)
    fn = cname + '::operator()'
    L = LdltContract(E, S, fn)
    const = 'lmi0' not in cname
    K = lambda x, y, at: ssum(n, lambda k: mul(T.app('F', (k, x, y), 'R'), T.app(at, (k,), 'R')))
    Mat = (lambda x, y, at: sub(T.app('B', (x, y), 'R'), K(x, y, at))) if const else K
    for lab, st, g, ep in run_oracle(S, E, tu, cls, s, lv, n, fn):
        A, NN = st.ghost['A']
        S.fact(fn, lab + ': the whole matrix is tested', NN is N)
        S.zero(fn, lab + ': the tested matrix is the matrix at the point', sub(A(i, j), Mat(i, j, 'x')), st.pc)
        if g is None:
            continue
        S.fact(fn, lab + ': the gradient has one entry per variable', tuple(g.shape) == (n,))
        w, b, e = st.ghost['w']
        gc = linear(E, g, st, n)
        S.goal(fn, lab + ': the cut is violated or tight at the point', st.pc, le(R0, ep))
        lhs = add(ssum(n, lambda k: mul(T.subst(gc, {c: k}), sub(T.app('z', (k,), 'R'), T.app('x', (k,), 'R')))), ep)
        S.zero(fn, lab + ": the cut function is -v'A(z)v, so every point with a positive semidefinite matrix satisfies it",
               add(lhs, L.quad(w, lambda x, y: Mat(x, y, 'z'), b, e)), st.pc)


def qmi(S):
    rows, cols = iv('nr'), iv('nc')
    tu, E, cls, s, lv, n = make(S, 'qmi_oracle.cpp', 'qmi_oracle', (rows, cols), False)
    fn = 'qmi_oracle::operator()'
    L = LdltContract(E, S, fn)
    t = rv('t')
    with S.part('qmi_oracle::update'):
        st, _ = run1(E, method(tu, cls, 'update'), lv, [t], s)
        S.functions.append('qmi_oracle::update')
        s = st
    # F(z)' : row x, column y
    Ft = lambda x, y, at: sub(T.app('B', (y, x), 'R'), ssum(n, lambda k: mul(T.app('F', (k, y, x), 'R'), T.app(at, (k,), 'R'))))
    GG = lambda x, y, at: ssum(rows, lambda a: mul(Ft(x, a, at), Ft(y, a, at)))
    for lab, st, g, ep in run_oracle(S, E, tu, cls, s, lv, n, fn):
        A, NN = st.ghost['A']
        S.fact(fn, lab + ': the whole matrix is tested', NN is cols)
        if 'AOD' not in st.ghost:
            raise Unsupported('the matrix is not given element by element')
        O, D = st.ghost['AOD']
        s1 = st.copy()
        s1.assume(le(I0, j), lt(j, i), lt(i, cols))
        S.zero(fn, lab + ": off the diagonal the tested matrix is -F'F", add(value_at(E, O(i, j), s1), GG(i, j, 'x')), s1.pc)
        s1 = st.copy()
        s1.assume(inr(i, cols))
        S.zero(fn, lab + ": on the diagonal the tested matrix is t - F'F", sub(add(value_at(E, D(i), s1), GG(i, i, 'x')), t), s1.pc)
        if g is None:
            continue
        S.fact(fn, lab + ': the gradient has one entry per variable', tuple(g.shape) == (n,))
        w, b, e = st.ghost['w']
        S.goal(fn, lab + ': the cut is violated or tight at the point', st.pc, le(R0, ep))
        gc = linear(E, g, st, n)
        # ep = -v'A(x)v with A(x) = t - F'F (as just shown)
        vv = ssum(e, lambda x: mul(w(x), w(x)), b)
        Fv = lambda a, at: ssum(e, lambda x: mul(w(x), Ft(x, a, at)), b)
        sq = lambda at: ssum(rows, lambda a: mul(Fv(a, at), Fv(a, at)))
        lhs = ssum(n, lambda k: mul(T.subst(gc, {c: k}), sub(T.app('z', (k,), 'R'), T.app('x', (k,), 'R'))))
        epx = sub(sq('x'), mul(t, vv))
        qz = sub(mul(t, vv), sq('z'))
        df = lambda a: sub(Fv(a, 'z'), Fv(a, 'x'))
        S.zero(fn, lab + ": cut function + v'A(z)v = -|(F(z)-F(x))v|^2, so every point with a positive semidefinite matrix satisfies it",
               add(lhs, epx, qz, ssum(rows, lambda a: mul(df(a), df(a)))), st.pc)
        sy = add(L.quad(w, lambda x, y: T.app('Asym', (x, y), 'R'), b, e))
        S.zero(fn, lab + ": the offset is the witness's number", add(ep, L.quad(w, A, b, e)), st.pc)
