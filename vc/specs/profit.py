"""P17, P18: the profit oracles.

Profit at the log-input z:  exp(L + a z) - v1 e^z1 - v2 e^z2  with L = log(p A).  The objective cut is the
tangent of the convex function  log(t + v e^z) - L - a z  at the evaluated point (Lean: profit_cut).
"""
from kit import *
from specs.common import *


def explog(*forms):
    """instances of the laws of exp and log at the terms of the formulas"""
    seen, out = set(), []
    ex, lo = [], []

    def scan(t):
        for x in T.subterms(t):
            if x.op == 'app' and x not in seen:
                if x.args[0] == 'exp':
                    seen.add(x)
                    ex.append(x)
                elif x.args[0] == 'log':
                    seen.add(x)
                    lo.append(x)
    for f in forms:
        scan(f)
    for l in list(lo):
        e = T.app('exp', (l,), 'R')
        out.append(implies(lt(R0, l.args[1]), eq(e, l.args[1])))
        scan(e)
    for e in list(ex):
        u = e.args[1]
        l = T.app('log', (e,), 'R')
        out.append(eq(l, u))
        for m in [x for x in T.subterms(u) if x.op == 'app' and x.args[0] == 'log']:
            rest = sub(u, m)
            if not T.has_app(rest, lambda a: a == 'log') and not T.is_zero(rest):
                r = T.app('exp', (rest,), 'R')
                out.append(implies(lt(R0, m.args[1]), eq(e, mul(m.args[1], r))))
                if r not in seen:
                    seen.add(r)
                    ex.append(r)
        scan(l)
    for e in ex:
        out.append(lt(R0, e))
    for fs in (ex, lo):
        for i, a in enumerate(fs):
            for b in fs[i + 1:]:
                c = implies(land(lt(R0, a.args[1]), lt(R0, b.args[1])), land(eq2(lt(a, b), lt(a.args[1], b.args[1])), eq2(lt(b, a), lt(b.args[1], a.args[1]))))
                if fs is ex:
                    c = land(eq2(lt(a, b), lt(a.args[1], b.args[1])), eq2(lt(b, a), lt(b.args[1], a.args[1])))
                out.append(c)
    return out


def eq2(p, q):
    return land(implies(p, q), implies(q, p))


class Model:
    """the true parameters: p, A, k, a in [a-e, a+e], v"""

    def __init__(self, L, K, a, v, e=None):
        self.L, self.K, self.a, self.v, self.e = L, K, a, v, e or [R0, R0]


def vec2(name):
    return [T.app(name, (num(i, 'I'),), 'R') for i in range(2)]


def answer(S, E, fn, lab, st, cut, imp, t0, t1, y, M, kinds, q=None):
    """one answer (cut, improvement flag) obtained at y; q: the point the cut is expressed for, if another"""
    g, f = [E.read(x, st) if isinstance(x, LV) else x for x in tup(cut, 2)]
    g = E.arr(g, st)
    S.fact(fn, lab + 'one gradient entry per input', smt.entails(st.pc, eq(g.shape[0], I2)))
    g = [value_at(E, g.get((num(i, 'I'),)), st) for i in range(2)]
    f = value_at(E, f, st)
    t1 = value_at(E, t1, st)
    y = [value_at(E, x, st) for x in y]
    if q is not None:
        # the offset at the evaluated point is that for the query point plus g (y - q)
        shift = add(mul(g[0], sub(y[0], q[0])), mul(g[1], sub(y[1], q[1])))

    def prove(name, goal, hyp=(), rlimit=None):
        pc = st.pc + list(hyp)
        return S.goal(fn, lab + name, pc + explog(goal, *pc), goal, rlimit=rlimit)

    def offset(want):
        if q is None:
            prove('the offset is that of the cut through the point', eq(f, want))
        else:
            # the offset for q: z satisfies  g (z - q) + f <= 0  iff  g (z - y) + want <= 0
            a, b = eq(f, sub(want, shift)), eq(f, add(want, shift))
            off = smt.entails(st.pc, b)       # then they agree only if the shift is nothing: not worth a long search
            prove('the offset describes the same half-space from the query point', a, rlimit=300_000 if off else None)
            prove('the offset is that of the evaluated point, plus or minus the shift', lor(a, b))
    if imp is None:
        raise Unsupported('improvement flag')
    cap = T.is_zero(sub(g[0], R1)) and T.is_zero(g[1])
    if cap:
        prove('no improvement above the limit', TRUE if not imp else FALSE)
        prove('the limit is exceeded', lt(M.K, y[0]))
        kinds.add('limit')
        offset(sub(y[0], M.K))
        prove('the best value is unchanged', eq(t1, t0))
        return
    prove('the input is within the limit', le(y[0], M.K))
    kinds.add('improvement' if imp else 'objective')
    vx = [mul(M.v[i], T.app('exp', (y[i],), 'R')) for i in range(2)]
    te = add(t1, vx[0], vx[1])
    a1 = [sub(div(vx[i], te), g[i]) for i in range(2)]
    # the elasticities the gradient is made with: worst for y
    for i in range(2):
        b = rv('worse%d' % i)
        box = [le(sub(M.a[i], M.e[i]), b), le(b, add(M.a[i], M.e[i]))]
        prove('gradient entry %d is made with elasticities within their range' % i, land(le(sub(M.a[i], M.e[i]), a1[i]), le(a1[i], add(M.a[i], M.e[i]))))
        prove('and they are the worst at the input (entry %d)' % i, le(mul(a1[i], y[i]), mul(b, y[i])), box)
    cobb = add(M.L, mul(a1[0], y[0]), mul(a1[1], y[1]))
    prove('best value plus costs is positive', lt(R0, te))
    offset(sub(T.app('log', (te,), 'R'), cobb))
    if imp:
        prove('the new best value is the profit', eq(t1, sub(sub(T.app('exp', (cobb,), 'R'), vx[0]), vx[1])))
        prove('and larger than the old one', lt(t0, t1))
    else:
        prove('the best value is unchanged', eq(t1, t0))
        prove('the cut is violated or tight at the point', le(cobb, T.app('log', (te,), 'R')))


def params(st, robust=False):
    p, A, k = rv('p'), rv('A'), rv('k')
    a, v, e = vec2('a'), vec2('v'), vec2('e')
    e3 = rv('e3') if robust else R0
    st.assume(lt(e3, p), lt(R0, A), lt(e3, k), *[lt(R0, add(x, e3)) for x in v])
    if robust:
        st.assume(le(R0, e3), *[le(R0, x) for x in e])
    lg = lambda t: T.app('log', (t,), 'R')
    M = Model(lg(mul(sub(p, e3), A)), lg(sub(k, e3)), a, [add(x, e3) for x in v], e if robust else None)
    return M, [p, A, k], [arr('a', I2), arr('v', I2)], [arr('e', I2), e3]


def start(S, cname, robust=False):
    tu = load(['profit_oracle.cpp'])
    E = loops.Engine(tu)
    E.check_log = True
    cls = find_cls(tu, cname)
    st = State()
    M, sc, ar, ex = params(st, robust)
    al = [E.newloc('p%d' % i, x, st) for i, x in enumerate(ar)]
    args = sc + al + ([E.newloc('e', ex[0], st), ex[1]] if robust else [])
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == len(args))
    s, lv = build(E, cls, ct, args, st)
    # what calls may change is left by any history
    o = E.read(lv, s)
    s.store[lv.loc] = old(tu, cls, o)
    return tu, E, cls, M, s, lv


def old(tu, cls, o, tag='old'):
    o = ObjV(o.cls, dict(o.f))
    mut = mutable_fields(tu, cls)
    for f, x in o.f.items():
        if isinstance(x, ObjV):
            o.f[f] = old(tu, find_cls(tu, x.cls), x, tag + f)
            # members of a part may be written from outside
            cl = find_cls(tu, x.cls)
            for z, w in o.f[f].f.items():
                if isinstance(w, ArrV) and written(tu, cl, z, (cls, cl)):
                    o.f[f].f[z] = havoc_value(tag + f + z, w)
        elif f in mut and isinstance(x, (T.T, ArrV)):
            o.f[f] = havoc_value(tag + f, x)
    return o


def written(tu, cls, name, by):
    """may the member be assigned by a method of the given classes other than a constructor"""
    fd = [f for f in cls['_fields'] if f['name'] == name]
    if fd and fd[0].get('type', {}).get('qualType', '').startswith('const '):
        return False
    hit = []

    def walk(n, ro):
        if n.get('kind') == 'MemberExpr' and n.get('referencedMemberDecl') == fd[0]['id'] and not ro and not n.get('type', {}).get('qualType', '').startswith('const '):
            hit.append(1)
        for c in n.get('inner', []):
            if isinstance(c, dict):
                r = n.get('kind') == 'ImplicitCastExpr' and (n.get('castKind') == 'LValueToRValue' or n.get('type', {}).get('qualType', '').startswith('const '))
                walk(c, r)
    for f in tu.funcs:
        if front.body_of(f) is not None and f.get('kind') != 'CXXConstructorDecl' and \
                ((f.get('_cls') or {}).get('id') in [c['id'] for c in by] or any(f.get('_qual', '').startswith(c['name'] + '::') for c in by)):
            walk(front.body_of(f), False)
    return bool(hit)


def flag(v):
    return {TRUE: True, FALSE: False}.get(v)


def decided(E, st, v):
    """[(state, bool)]"""
    if v in (TRUE, FALSE):
        return [(st, v is TRUE)]
    out = []
    for c, b in ((v, True), (lnot(v), False)):
        s = st.copy()
        s.assume(c)
        if not smt.entails(s.pc, FALSE):
            out.append((s, b))
    return out


def plain(S, cname, robust):
    tu, E, cls, M, s, lv = start(S, cname, robust)
    fn = cname + '::operator()'
    t0 = rv('t0')
    s.assume(le(R0, t0))
    tl = E.newloc('t', t0, s)
    y = vec2('y')
    S.functions.append(fn)
    S.reach.append((fn, s.pc + explog(*s.pc)))
    kinds = set()
    k = 0
    for st, v in run(E, method(tu, cls, 'operator()'), lv, [E.newloc('y', arr('y', I2), s), tl], s):
        v = E.read(v, st) if isinstance(v, LV) else v
        cut, imp = tup(v, 2)
        for s2, b in decided(E, st, imp):
            answer(S, E, fn, 'path %d: ' % k, s2, cut, b, t0, E.read(tl, s2), y, M, kinds)
            k += 1
    S.fact(fn, 'limit cuts, objective cuts and improvements occur', kinds == {'limit', 'objective', 'improvement'})
    S.absorb(E)
    safety(S, E, fn)


def safety(S, E, fn):
    for o in E.obligs:
        o.pc = list(o.pc) + explog(o.goal, *o.pc)
    S.safety(E, fn)


def discrete(S):
    tu, E, cls, M, s, lv = start(S, 'profit_q_oracle')
    fn = 'profit_q_oracle::operator()'
    t0 = rv('t0')
    s.assume(le(R0, t0))
    S.functions.append(fn)
    f_ = method(tu, cls, 'operator()')
    y = vec2('y')
    o = E.read(lv, s)
    held = [f for f in o.f if isinstance(o.f[f], ArrV)]
    if len(held) != 1:
        raise Unsupported('evaluated point among %s' % held)
    held = held[0]
    kinds = set()
    k = 0
    half = num(T.Fraction(1, 2))
    for retry in (False, True):
        s0 = s.copy()
        o = E.read(lv, s0)
        o = ObjV(o.cls, dict(o.f))
        w = [iv('w0'), iv('w1')]
        if retry:
            # an earlier call left the logarithm of a whole-number point
            o.f[held] = ArrV((I2,), lambda ix: T.app('held', ix, 'R'))
            hy = vec2('held')
            for i in range(2):
                s0.assume(le(I1, w[i]), eq(hy[i], T.app('log', (T.to_real(w[i]),), 'R')))
        s0.store[lv.loc] = o
        s0.store = dict(s0.store)
        tl = E.newloc('t', t0, s0)
        S.reach.append(('%s [retry %s]' % (fn, retry), s0.pc + explog(*s0.pc)))
        for st, v in run(E, f_, lv, [E.newloc('y', arr('y', I2), s0), tl, TRUE if retry else FALSE], s0):
            v = E.read(v, st) if isinstance(v, LV) else v
            cut, pt, imp, more = tup(v, 4)
            cut = E.read(cut, st) if isinstance(cut, LV) else cut
            pt = E.arr(E.read(pt, st) if isinstance(pt, LV) else pt, st)
            for s2, b in decided(E, st, imp):
                lab = 'path %d: ' % k
                k += 1
                S.fact(fn, lab + 'two coordinates are reported', smt.entails(s2.pc, eq(pt.shape[0], I2)))
                P = [value_at(E, pt.get((num(i, 'I'),)), s2) for i in range(2)]
                H = E.arr(E.read(lv, s2).f[held], s2)
                for i in range(2):
                    h = value_at(E, H.get((num(i, 'I'),)), s2)
                    S.zero(fn, lab + 'the reported point is the one kept for an alternative (entry %d)' % i, sub(h, P[i]), s2.pc)
                    ey = T.app('exp', (y[i],), 'R')
                    if retry:
                        S.zero(fn, lab + 'an alternative reuses the evaluated point (entry %d)' % i, sub(P[i], vec2('held')[i]), s2.pc)
                        continue
                    # P = log(x), x whole, at least one, nearest to exp(y)
                    if not (P[i].op == 'app' and P[i].args[0] == 'log'):
                        x = T.app('exp', (P[i],), 'R')
                        pre = explog(P[i], eq(x, R0), *s2.pc)
                    else:
                        x, pre = P[i].args[1], explog(P[i], *s2.pc)
                    whole(S, fn, lab + 'the evaluated quantity %d is a whole number' % i, s2.pc + pre, x)
                    S.goal(fn, lab + 'and at least one (%d)' % i, s2.pc + pre + explog(ey), le(R1, x))
                    S.goal(fn, lab + 'and the nearest such number (%d)' % i, s2.pc + pre + explog(ey),
                           land(le(sub(x, ey), half), lor(eq(x, R1), le(sub(ey, x), half))) if False else lor(land(le(sub(x, ey), half), le(sub(ey, x), half)), land(eq(x, R1), le(ey, half))))
                S.goal(fn, lab + 'an alternative is offered exactly if this is not one', s2.pc, more if not retry else lnot(more))
                answer(S, E, fn, lab, s2, cut, b, t0, E.read(tl, s2), P, M, kinds, q=y)
    S.fact(fn, 'limit cuts, objective cuts and improvements occur', kinds == {'limit', 'objective', 'improvement'})
    S.absorb(E)
    safety(S, E, fn)


def whole(S, fn, name, pc, x):
    """x is a whole number: a combination of floors and integers, case by case"""
    def go(t):
        if t.sort == 'I' or t.op == 'toreal':
            return True
        if t.op == 'num':
            return t.args[0].denominator == 1
        if t.op == 'ite':
            return go(t.args[1]) and go(t.args[2])
        p = T._poly(t)
        return len(p) > 0 and all(c.denominator == 1 and all(e > 0 and (a.sort == 'I' or a is not t and go(a)) for a, e in m) for m, c in p.items())
    ok = go(x)
    if ok:
        S.fact(fn, name, True)
    else:
        S.goal(fn, name, pc, eq(T.to_real(T.app('floor', (x,), 'I')), x))


def check(S, which):
    if which == 'P17':
        for c, r in (('profit_oracle', False), ('profit_rb_oracle', True)):
            with S.part(c):
                plain(S, c, r)
    else:
        with S.part('profit_q_oracle'):
            discrete(S)
    S.assumptions.append('best value t >= 0; p, A, k, v positive (for the robust oracle, also at their worst); p A exp(a y) is read as exp(log(p A) + a y)')
