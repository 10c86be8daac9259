"""P12, P13: class ldlt_ext (lib/include/ellcpp/oracles/ldlt_ext.hpp, lib/src/ldlt_ext.cpp).

The factor routine is read with an element function known only by its contract
(A(i,j), symmetric, lower triangle, row after row).  Obligations state the
entry-wise relations of the factorization; vc/lean/ldl.lean turns them, for
every size, into statements about the matrix:
  ldl_pos      relations + positive pivots  =>  v'Av > 0 for v != 0
  ldl_witness  relations + L'v = e_last     =>  v'Av = last pivot
  ldl_sqrt     relations + R = sqrt(D)L'    =>  R'R = A
"""
from kit import *

i, j, k, r, c = iv('i'), iv('j'), iv('k'), iv('r'), iv('c')
A_ = lambda a, b: T.app('A', (a, b), 'R')


def roles(o):
    t = [f for f in o.f if isinstance(o.f[f], ArrV) and len(o.f[f].shape) == 2]
    v = [f for f in o.f if isinstance(o.f[f], ArrV) and len(o.f[f].shape) == 1]
    if len(t) != 1 or len(v) != 1 or 'p' not in o.f:
        raise Unsupported('fields of ldlt_ext not recognised')
    return t[0], v[0]


def setup(E, tu):
    cls = find_cls(tu, 'ldlt_ext')
    n = iv('n')
    st = State()
    st.assume(le(I1, n))
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 1 and 'ldlt_ext' not in front.params_of(f)[0]['type']['qualType'])
    s, lv = build(E, cls, ct, [n], st)
    o = E.read(lv, s)
    tf, vf = roles(o)
    o2 = ObjV(o.cls, dict(o.f))
    # any earlier use may have left anything in the mutable state
    o2.f[tf] = arr('T0', n, n)
    o2.f[vf] = arr('v0', n)
    o2.f['p'] = TupV([iv('p0'), iv('p1')])
    s.store[lv.loc] = o2
    return cls, s, lv, o, n, tf, vf


def element(E, n):
    seen = E.elem_reads = []

    def elem(E, st, this, args, nn, d):
        a, b = [E.read(x, st) if isinstance(x, LV) else (E.ev(x, st) if isinstance(x, dict) else x) for x in args]
        E.oblige('element access within the matrix', st, land(le(I0, b), lt(a, n)))
        E.oblige('only the lower triangle is read', st, le(b, a))
        if E.loopctx:
            rows = E.row_of(st)
            if rows is not None:
                E.oblige('rows are read in order', st, eq(a, rows))
        return A_(a, b)
    return elem


def check(S, which):
    tu = load(['ldlt_ext.cpp'], 'ldlt.hpp')
    S.assumptions.append('doubles are mathematical reals: the accept test compares an exactly computed pivot with zero')
    if which == 'P12':
        for kind in ('on demand', 'matrix'):
            with S.part('ldlt_ext::factor [%s]' % kind):
                factor(S, tu, kind, which)
        with S.part('ldlt_ext::sqrt'):
            sqrt_(S, tu)
        with S.part('ldlt_ext::is_spd'):
            is_spd(S, tu)
    else:
        with S.part('ldlt_ext::factor [on demand]'):
            factor(S, tu, 'on demand', which)
        with S.part('ldlt_ext::factor [semidefinite]'):
            factor(S, tu, 'semidefinite', which)
        with S.part('ldlt_ext::witness'):
            witness(S, tu)
        with S.part('ldlt_ext::sym_quad'):
            sym_quad(S, tu)
    S.lean += ['ldl']


def used(S, kinds):
    """the part of the contract the matrix-inequality oracles rely on"""
    tu = load(['ldlt_ext.cpp'], 'ldlt.hpp')
    for kind in kinds:
        for which in ('P12', 'P13'):
            with S.part('ldlt_ext::factor [%s]' % kind):
                factor(S, tu, kind, which)
    with S.part('ldlt_ext::witness'):
        witness(S, tu)
    with S.part('ldlt_ext::sym_quad'):
        sym_quad(S, tu)
    S.lean += ['ldl']


def factor(S, tu, kind, which):
    E = loops.Engine(tu)
    cls, s, lv, o, n, tf, vf = setup(E, tu)
    E.row_of = lambda st: E.loopctx[0] if E.loopctx else None
    E.contracts['AbsElem::operator()'] = element(E, n)
    S.functions.append('ldlt_ext::factor [%s]' % kind)
    fn = 'ldlt_ext::factor [%s]' % kind
    T.SYMMETRIC.add('A')
    start = I0
    if kind == 'matrix':
        f = method(tu, cls, 'factorize')
        s1 = s.copy()
        A = ArrV((n, n), lambda ix: A_(*ix))
        paths = run(E, f, lv, [A], s1)
    else:
        want = kind == 'semidefinite'
        fs = [f for f in methods(tu, cls, 'factor') if 'AbsElem' in f['type']['qualType']]
        fs = [f for f in fs if semidef(E, f) == want]
        if len(fs) != 1:
            raise Unsupported('instantiations of factor: %d' % len(fs))
        s1 = s.copy()
        a = E.newloc('A', ObjV('AbsElem', {}), s1)
        if want:
            start = iv('s0')
            hk = Restart(S, fn, lv, n, tf, start)
            E.loop_hooks.append(hk)
            E.row_of = lambda st: None if hk.phase != 'run' else add(start, E.loopctx[0])
        paths = run(E, fs[0], lv, [a], s1)
    S.absorb(E)
    S.safety(E, fn)
    acc = rej = 0
    for q, (st, val) in enumerate(paths):
        o2 = E.read(lv, st)
        p = o2.f['p']
        st_, stop = p.items
        Tm = o2.f[tf]
        for truth in (TRUE, FALSE):
            s2 = st.copy()
            s2.assume(val if truth is TRUE else lnot(val))
            if not E.feasible(s2):
                continue
            lab = 'accepted' if truth is TRUE else 'rejected'
            if truth is TRUE:
                acc += 1
                S.goal(fn, 'path %d: accepted means no reported block' % q, s2.pc, eq(stop, I0))
                m = n
                lo = start
                if kind == 'semidefinite':
                    continue
                S.goal(fn, 'path %d (accepted): the block starts at the first row' % q, s2.pc, eq(st_, I0))
            else:
                rej += 1
                m = sub(stop, I1)
                lo = start
                S.goal(fn, 'path %d (rejected): the reported block is within the matrix' % q, s2.pc, land(le(I0, st_), lt(st_, stop), le(stop, n)))
                S.goal(fn, 'path %d (rejected): block start' % q, s2.pc, eq(st_, start))
            # rows lo .. m (m included when rejected)
            top = n if truth is TRUE else stop
            relations(S, E, fn, 'path %d (%s)' % (q, lab), s2, Tm, lo, top)
            s3 = s2.copy()
            s3.assume(le(lo, r), lt(r, m))
            d = E.unfold(loops.simp(Tm.get((r, r)), s3.pc), s3) or value_at(E, Tm.get((r, r)), s3)
            if kind != 'semidefinite':
                S.goal(fn, 'path %d (%s): earlier pivots are positive' % (q, lab), s3.pc, lt(R0, d))
            else:
                S.goal(fn, 'path %d (%s): earlier pivots are not zero' % (q, lab), s3.pc, ne(R0, d))
            if truth is FALSE:
                s3 = s2.copy()
                d = unf1(E, Tm.get((m, m)), s3)
                S.goal(fn, 'path %d (%s): the last pivot is not positive' % (q, lab), s3.pc, le(d, R0))
    S.fact(fn, 'both answers are possible', acc > 0 and rej > 0)
    S.reach.append((fn, paths[0][0].pc))


def unf1(E, t, st):
    t = loops.simp(t, st.pc)
    u = E.unfold(t, st) if t.op == 'app' else None
    return t if u is None else u


def relations(S, E, fn, lab, st, Tm, lo, top):
    """A = L D L' entry by entry on rows [lo, top): D = diag T, L below, D L' above the diagonal"""
    s2 = st.copy()
    s2.assume(le(lo, c), lt(c, r), lt(r, top))
    up = loops.simp(Tm.get((c, r)), s2.pc)
    low = loops.simp(Tm.get((r, c)), s2.pc)
    dc = loops.simp(Tm.get((c, c)), s2.pc)
    S.zero(fn, lab + ': T(r,c) * T(c,c) = T(c,r) below the diagonal', sub(mul(fold(E, unf1(E, low, s2), up, s2), dc), up), s2.pc)
    kk = T.fresh_bound()
    s3 = s2.copy()
    s3.assume(le(lo, kk), lt(kk, c))
    body = mul(loops.simp(Tm.get((r, kk)), s3.pc), loops.simp(Tm.get((kk, c)), s3.pc))
    S.zero(fn, lab + ': A(r,c) = T(c,r) + sum T(r,k) T(k,c)', sub(A_(r, c), add(unf1(E, up, s2), T.rsum(kk, lo, c, body))), s2.pc)
    s2 = st.copy()
    s2.assume(le(lo, r), lt(r, top))
    s3 = s2.copy()
    s3.assume(le(lo, kk), lt(kk, r))
    body = mul(loops.simp(Tm.get((r, kk)), s3.pc), loops.simp(Tm.get((kk, r)), s3.pc))
    S.zero(fn, lab + ': A(r,r) = T(r,r) + sum T(r,k) T(k,r)', sub(A_(r, r), add(unf1(E, Tm.get((r, r)), s2), T.rsum(kk, lo, r, body))), s2.pc)


def fold(E, t, up, st):
    """write the defining expression of up as up"""
    u = E.unfold(up, st)
    if u is None:
        return t
    # t = u * x for some x: t/u
    q = T.div(t, u)
    return mul(up, q) if T.is_zero(sub(mul(q, u), t)) else t


def semidef(E, f):
    b = E.bool_nontype(f)
    return bool(b)


class Restart:
    """the outer loop of factor<.., true>: its state at exit is the state of a run from just after the last restart.
    A restart sets the block start to the next row; the rest of the state is arbitrary there."""

    def __init__(self, S, fn, lv, n, tf, start):
        self.S, self.fn, self.lv, self.n, self.tf, self.start = S, fn, lv, n, tf, start
        self.phase = 'idle'

    def __call__(self, E, nd, st, iteration, head, post):
        if self.phase != 'idle' or E.loopctx:
            return False
        self.phase = 'probe'
        try:
            return self.go(E, nd, st, iteration, head, post)
        finally:
            self.phase = 'idle'

    def go(self, E, nd, st, iteration, head, post):
        sl = self.lv / ('f', 'p') / ('t', 0)
        st0 = st.copy()
        # find what the loop modifies, from an arbitrary state
        M = {}
        saved = E.obligs, E.definitive, E.bounds_ok
        E.definitive = False
        tag = E.nx()
        E.loopctx.append(var('K@restart', 'I'))
        try:
            for _ in range(8):
                s1 = st0.copy()
                for lf in M:
                    E.putleaf(lf, E.hvalue(lf, M[lf], st0, tag), s1)
                cnt = [lf for lf in M if isinstance(M[lf], T.T) and M[lf].sort == 'I']
                for lf in cnt:
                    s1.assume(le(I0, E.getleaf(lf, s1)), le(E.getleaf(lf, s1), self.n))
                    if lf != sl and sl in M:
                        s1.assume(le(E.getleaf(sl, s1), E.getleaf(lf, s1)))
                E.obligs = []
                paths = E.iterate(s1, iteration)
                new = False
                for s, kind, _v in paths:
                    if kind != 'next':
                        continue
                    for loc in s1.store:
                        out = []
                        loops.leaves_diff(s1.store[loc], s.store[loc], (), out)
                        for p in out:
                            lf = LV(loc, p)
                            if lf not in M:
                                M[lf] = E.getleaf(lf, s)
                                new = True
                if not new:
                    break
        finally:
            E.loopctx.pop()
            E.obligs, E.definitive, E.bounds_ok = saved
        if sl not in M:
            raise Unsupported('the block start never moves')
        cnts = [lf for lf in M if isinstance(M[lf], T.T) and M[lf].sort == 'I' and lf != sl]
        rest = [lf for lf in cnts if E.getleaf(lf, st0) is I0]
        # after a restart every loop counter equals the block start
        ok = E.read(sl, st0) is I0 and len(rest) == 1
        h0 = E.getleaf(sl, s1)
        nr = 0
        for s, kind, _v in paths:
            if kind == 'next':
                for lf in cnts:
                    self.S.goal(self.fn, 'the block start stays within the rows done', s.pc, land(le(E.getleaf(sl, s), E.getleaf(lf, s)), le(E.getleaf(lf, s), self.n)))
        for s, kind, _v in paths:
            if kind == 'next' and E.getleaf(sl, s) is not h0:
                nr += 1
                self.S.goal(self.fn, 'a restart begins with the next row', s.pc, eq(E.getleaf(sl, s), E.getleaf(rest[0], s)) if rest else FALSE)
        self.S.fact(self.fn, 'the first block starts at the first row', ok)
        self.S.fact(self.fn, 'restarts only where the pivot vanishes', nr >= 1)
        for lf in M:
            E.putleaf(lf, E.hvalue(lf, M[lf], st0, E.nx()), st)
        E.putleaf(sl, self.start, st)
        for lf in rest:
            E.putleaf(lf, self.start, st)
        st.assume(le(I0, self.start), le(self.start, self.n))
        self.phase = 'run'

        def it(s):
            before = E.getleaf(sl, s)
            iteration(s)
            if E.getleaf(sl, s) is not before:
                # a restart ends the stretch looked at: rows of this stretch take the other way
                if E.loopctx:
                    raise loops.LoopExit()
                raise loops.Infeasible()
        E.summary_loop(nd, st, it, head, post)
        return True


def sqrt_(S, tu):
    E = loops.Engine(tu)
    cls, s, lv, o, n, tf, vf = setup(E, tu)
    fn = 'ldlt_ext::sqrt'
    S.functions.append(fn)
    o1 = E.read(lv, s)
    o1 = ObjV(o1.cls, dict(o1.f))
    o1.f['p'] = TupV([I0, I0])
    # an accepted factorization: unit lower triangle below, T(c,r) = T(r,c) T(c,c) above the diagonal (proved for factor)
    t = iv('t')
    Tt = lambda a, b: T.app('T0', (a, b), 'R')
    o1.f[tf] = ArrV((n, n), lambda ix: ite(lt(ix[0], ix[1]), mul(Tt(ix[1], ix[0]), Tt(ix[0], ix[0])), Tt(*ix)))
    s.store[lv.loc] = o1
    s.assume(T.forall((t,), implies(inr(t, n), lt(R0, Tt(t, t)))))
    st, M = run1(E, method(tu, cls, 'sqrt'), lv, [], s)
    if isinstance(M, LV):
        M = E.read(M, st)
    S.absorb(E)
    S.safety(E, fn)
    S.fact(fn, 'the square root has the size of the matrix', tuple(M.shape) == (n, n))
    s2 = st.copy()
    s2.assume(inr(r, n))
    mrr = value_at(E, M.get((r, r)), s2)
    pos = [lt(R0, Tt(r, r))]
    S.goal(fn, 'diagonal squared is the pivot, diagonal positive', s2.pc + pos, land(eq(mul(mrr, mrr), Tt(r, r)), lt(R0, mrr)))
    s2 = st.copy()
    s2.assume(inr(r, n), inr(c, n), lt(c, r))
    S.zero(fn, 'upper triangular', value_at(E, M.get((r, c)), s2), s2.pc)
    mcr = value_at(E, M.get((c, r)), s2)
    mcc = value_at(E, M.get((c, c)), s2)
    S.goal(fn, 'above the diagonal: L(r,c) * diagonal', s2.pc + [lt(R0, Tt(c, c)), lt(R0, Tt(r, r))], eq(mcr, mul(Tt(r, c), mcc)))
    o2 = E.read(lv, st)
    S.fact(fn, 'the factorization is left alone', o2.f[tf] is o1.f[tf] and o2.f['p'].items[1] is I0 and o2.f['p'].items[0] is I0)
    S.reach.append((fn, s.pc))


def is_spd(S, tu):
    E = loops.Engine(tu)
    cls, s, lv, o, n, tf, vf = setup(E, tu)
    fn = 'ldlt_ext::is_spd'
    S.functions.append(fn)
    for st, v in run(E, method(tu, cls, 'is_spd'), lv, [], s):
        S.goal(fn, 'true exactly when no block is reported', st.pc, T.iff(v, eq(iv('p1'), I0)))
    S.absorb(E)


def witness(S, tu):
    E = loops.Engine(tu)
    cls, s, lv, o, n, tf, vf = setup(E, tu)
    fn = 'ldlt_ext::witness'
    S.functions.append(fn)
    b, e = iv('p0'), iv('p1')
    s.assume(le(I0, b), lt(b, e), le(e, n))
    st, val = run1(E, method(tu, cls, 'witness'), lv, [], s)
    S.absorb(E)
    S.safety(E, fn)
    o2 = E.read(lv, st)
    v = o2.f[vf]
    last = sub(e, I1)
    S.zero(fn, 'returns minus the last pivot', add(val, T.app('T0', (last, last), 'R')), st.pc)
    S.zero(fn, 'the last entry is one', sub(value_at(E, v.get((last,)), st), R1), st.pc)
    s2 = st.copy()
    s2.assume(le(b, i), lt(i, last))
    kk = T.fresh_bound()
    s3 = s2.copy()
    s3.assume(lt(i, kk), lt(kk, last))
    vk = loops.simp(v.get((kk,)), s3.pc)
    rest = add(T.rsum(kk, add(i, I1), last, mul(T.app('T0', (kk, i), 'R'), vk)), T.app('T0', (last, i), 'R'))
    w = iv('w')
    own = unf1(E, v.get((i,)), s2)
    # the code's sum may run up to the last row, or leave that row out
    cut = T.subst(peel(T.subst(shift0(own), {e: add(w, I1)}), w), {w: last})
    zs = [shift0(add(last_entry(x, E, v, last, s2), rest)) for x in (own, cut)]
    S.zero(fn, "L'v = last unit vector", next((z for z in zs if T.is_zero(z)), zs[0]), s2.pc)
    S.fact(fn, 'matrix factors and block are left alone', o2.f[tf] is E.read(lv, s).f[tf] and o2.f['p'].items[0] is b and o2.f['p'].items[1] is e)
    S.reach.append((fn, s.pc))


def last_entry(t, E, v, last, st):
    """the last entry of the witness by its value"""
    t = loops.simp(t, st.pc)
    vl = loops.simp(v.get((last,)), st.pc)
    u = E.unfold(vl, st) if vl.op == 'app' else None
    if u is not None:
        t = T.subst(t, {vl: u})
    return t


def sym_quad(S, tu):
    E = loops.Engine(tu)
    cls, s, lv, o, n, tf, vf = setup(E, tu)
    fn = 'ldlt_ext::sym_quad'
    S.functions.append(fn)
    T.SYMMETRIC.add('M')
    b, e = iv('p0'), iv('p1')
    s.assume(le(I0, b), lt(b, e), le(e, n))
    M = ArrV((n, n), lambda ix: T.app('M', ix, 'R'))
    st, val = run1(E, method(tu, cls, 'sym_quad'), lv, [M], s)
    S.absorb(E)
    S.safety(E, fn)
    v = lambda a: T.app('v0', (a,), 'R')
    x, y = T.fresh_bound(), T.fresh_bound()
    full = T.rsum(x, b, e, T.rsum(y, b, e, mul(v(x), T.app('M', (x, y), 'R'), v(y))))
    sum_equal(S, fn, "equals v'Mv over the block", val, full, b, e)
    o1, o2 = E.read(lv, s), E.read(lv, st)
    S.fact(fn, 'no state changes', o1 is o2 or all(o1.f[f] is o2.f[f] for f in o1.f))
    S.reach.append((fn, s.pc))
