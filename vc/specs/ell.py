"""P01-P04: class ell (lib/include/ellcpp/ell.hpp, lib/src/ell.cpp)."""
from kit import *

tau, om, u, v, N = rv('tau'), rv('omega'), rv('u'), rv('v'), rv('N')
i, j = iv('i'), iv('j')


R = {}      # fields by role: the scale, the shape and the centre


def roles(o, alpha):
    for r, ok in (('kappa', lambda f, x: x is alpha),
                  ('Q', lambda f, x: isinstance(x, ArrV) and len(x.shape) == 2),
                  ('xc', lambda f, x: isinstance(x, ArrV) and len(x.shape) == 1)):
        c = [f for f in o.f if ok(f, o.f[f])]
        if len(c) != 1:
            raise Unsupported('no unique field of the ellipsoid for ' + r)
        R[r] = c[0]
    for f in ('use_parallel_cut', 'no_defer_trick'):
        if f not in o.f:
            raise Unsupported('option %s is gone' % f)


def setup(E, tu, clsname='ell'):
    n = iv('n')
    st = State()
    st.assume(le(I2, n))
    cls = find_cls(tu, clsname)
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 2 and strip(front.params_of(f)[0]) == 'double')
    alpha = rv('alpha')
    s, lv = build(E, cls, ct, [alpha, arr('x0', n)], st)
    o = E.read(lv, s)
    roles(o, alpha)
    mut = mutable_fields(tu, cls)
    o = ObjV(o.cls, o.f)
    for f in sorted(mut):
        o.f[f] = havoc_value('old' + f, o.f[f])
    o.f.update({R['kappa']: rv('kappa'), R['Q']: symarr('Q', n), R['xc']: arr('xc', n),
                'use_parallel_cut': bv('upc'), 'no_defer_trick': bv('ndt')})
    R['scratch'] = tuple(sorted(mut - {R['kappa'], R['Q'], R['xc'], 'use_parallel_cut', 'no_defer_trick'}))
    s.store[lv.loc] = o
    return cls, s, lv, o, n


def strip(p):
    from exec import strip_type
    return strip_type(p.get('type', {}).get('desugaredQualType') or p['type']['qualType'])


def omega_sum(n, g):
    return ssum(n, lambda a: ssum(n, lambda b: mul(g.get((a,)), T.app('Q', (a, b), 'R'), g.get((b,)))))


def qg_sum(n, g, a):
    return ssum(n, lambda b: mul(T.app('Q', (a, b), 'R'), g.get((b,))))


class Norm:
    """normalisation: omega for g'Qg, qg(i) for (Qg)_i, kappa = tau^2/omega, beta_k = tau*(u|v)"""

    def __init__(self, n, g, betas):
        self.n = n
        self.m1 = {omega_sum(n, g): om, qg_sum(n, g, i): T.app('qg', (i,), 'R'), qg_sum(n, g, j): T.app('qg', (j,), 'R')}
        self.m2 = {rv('kappa'): div(mul(tau, tau), om)}
        self.m2.update(betas)
        T.POSITIVE.add(tau)
        T.POSITIVE.add(om)

    def __call__(self, t):
        t = T.subst(t, self.m1)
        t = T.subst(t, self.m2)
        t = T.subst(t, {self.n: N}) if t.sort != 'I' else t
        return scale(t)


BASE = [le(num(2), N), lt(R0, tau), lt(R0, om)]


def scenarios(tu, cls, width=True):
    """(name, function, beta value, assumptions, normalisation of beta, parallel?)"""
    for f in methods(tu, cls, 'update'):
        p = front.params_of(f)[0]
        t = strip(p).replace(' ', '')
        single = t.endswith(',double>')
        if single:
            b = rv('beta')
            yield 'update(single)', f, b, [], {b: mul(tau, u)}, False
        else:
            m = iv('m')
            B = lambda k: T.app('beta', (num(k, 'I'),), 'R')
            bm = {B(0): mul(tau, u), B(1): mul(tau, v)}
            mkb = lambda mm: ArrV((mm,), lambda ix: T.app('beta', ix, 'R'))
            W = [lt(B(0), B(1))] if width else []
            yield 'update(one-element)', f, mkb(I1), [], bm, False
            yield 'update(parallel, switched off)', f, mkb(I2), [lnot(bv('upc'))] + W, bm, False
            yield 'update(parallel, second plane outside)', f, mkb(I2), ['out'] + W, bm, False
            yield 'update(parallel)', f, mkb(I2), ['in', bv('upc')] + W, bm, True


def execute(tu, S, width=True):
    """run every scenario; yields per-path data"""
    E = loops.Engine(tu)
    cls, s0, lv, o0, n = setup(E, tu)
    g = arr('g', n)
    OM = omega_sum(n, g)
    out = []
    for name, f, beta, assum, bm, par in scenarios(tu, cls, width):
        with S.part('ell::' + name):
            s = s0.copy()
            s.assume(lt(R0, OM), lt(R0, rv('kappa')))
            nm = Norm(n, g, bm)
            b1 = T.app('beta', (I1,), 'R')
            for a in assum:
                if a == 'out':
                    a = lt(mul(rv('kappa'), OM), mul(b1, b1))
                elif a == 'in':
                    a = le(mul(b1, b1), mul(rv('kappa'), OM))
                s.assume(a)
            E.obligs, E.bounds_ok = [], 0
            E.cover = []
            paths = run(E, f, lv, [TupV([g, beta])], s)
            if not paths:
                raise Unsupported('no path through ' + name)
            S.reach.append((name, s.pc))
            out.append((name, f, par, nm, paths, list(E.obligs), E.bounds_ok))
            S.functions.append(f.get('_qual') + ' [' + name + ']')
    S.absorb(E)
    return E, cls, s0, lv, o0, n, g, out


def pathfacts(nm, st):
    return BASE + [nm(p) for p in st.pc if not smt.has_quant(p)]


STAT = {0: 'success', 1: 'nosoln', 2: 'smallenough', 3: 'noeffect'}


def analyse(E, S, name, nm, st, val, lv, n, quiet=False):
    """the new state on one path, normalised"""
    if not isinstance(val, TupV):
        raise Unsupported('update does not return a pair')
    o = E.read(lv, st)
    code, tsq = val.items
    d = {'status': int(code.args[0]) if code.op == 'num' else None, 'tsq': nm(tsq), 'pc': pathfacts(nm, st), 'o': o, 'st': st}
    st1 = st.copy()
    st1.assume(inr(i, n), inr(j, n))
    Q = []
    for c in (lt(i, j), eq(i, j), lt(j, i)):
        s2 = st1.copy()
        s2.assume(c)
        t = nm(value_at(E, o.f[R['Q']].get((i, j)), s2))
        if c.op == 'eq':
            t = T.subst(t, {j: i})
        Q.append((c, t))
    d['Q'] = Q
    d['xc'] = nm(value_at(E, o.f[R['xc']].get((i,)), st1))
    d['kappa'] = nm(o.f[R['kappa']])
    return d


def decompose(d):
    """a, b with Q'(i,j) = a*Q(i,j) + b*qg(i)*qg(j); C with xc' = xc + C*qg(i)"""
    AB = []
    for c, t in d['Q']:
        jj = i if c.op == 'eq' else j
        Q = T.app('Q', (i, jj), 'R')
        a, b = T.app('qg', (i,), 'R'), T.app('qg', (jj,), 'R')
        if a is b:
            key2 = ((a, 2),)
        else:
            key2 = tuple(sorted([(a, 1), (b, 1)], key=lambda x: T.skey(x[0])))
        sp = T.coeff_split(t, lambda x: x is Q or (x.op == 'app' and x.args[0] in ('qg', 'Q', 'g', 'xc')) or x.op == 'sum' or bool(x.fv & {'i', 'j'}))
        A, B = R0, R0
        for k, co in sp.items():
            kk = tuple(sorted(k, key=lambda x: T.skey(x[0])))
            if kk == ((Q, 1),):
                A = co
            elif kk == key2:
                B = co
            elif not T.is_zero(co):
                return None
        AB.append((A, B))
    x = T.app('xc', (i,), 'R')
    q = T.app('qg', (i,), 'R')
    C = R0
    ok = False
    for k, co in T.coeff_split(d['xc'], lambda y: y is x or y is q or bool(y.fv & {'i', 'j'})).items():
        if k == ((x, 1),):
            if not T.is_zero(sub(co, R1)):
                return None
            ok = True
        elif k == ((q, 1),):
            C = co
        elif not T.is_zero(co):
            return None
    if not ok:
        return None
    return AB, C


def same_state(d, e):
    """do two results represent the same ellipsoid (kappa*Q and centre equal by normal form)?"""
    if d['xc'] is not e['xc'] and not T.is_zero(sub(d['xc'], e['xc'])):
        return False
    for (c, t), (c2, t2) in zip(d['Q'], e['Q']):
        x = sub(mul(d['kappa'], t), mul(e['kappa'], t2))
        if not T.is_zero(x):
            return False
    return True


def check(S, which):
    tu = load(['ell.cpp'])
    E, cls, s0, lv, o0, n, g, runs = execute(tu, S, which != 'P04')
    for name, f, par, nm, paths, obl, nb in runs:
        fn = 'ell::' + name
        if which in ('P01', 'P02') and (par == (which == 'P02') or (which == 'P02' and name.startswith('update(parallel'))):
            for k, ob in enumerate(obl):
                S.goal(fn, 'safety: ' + ob.name, BASE + [nm(p) for p in ob.pc], nm(ob.goal), kind='safety')
            S.safety_ok = getattr(S, 'safety_ok', 0) + nb
        with S.part(fn):
            ds = []
            for pi, (st, val) in enumerate(paths):
                ds.append(analyse(E, S, name, nm, st, val, lv, n))
            ndt = bv('ndt')
            for pi, d in enumerate(ds):
                label = 'path %d' % pi
                if which == 'P04':
                    p04(S, fn, label, name, d, o0, nm)
                    continue
                if d['status'] != 0:
                    continue
                if which == 'P01' and par:
                    continue
                if which == 'P02' and not name.startswith('update(parallel'):
                    continue
                # with the deferred scale folded into the shape: same ellipsoid as without
                if ndt in d['pc']:
                    key = [p for p in d['pc'] if p is not ndt]
                    mates = [e for e in ds if e['status'] == 0 and lnot(ndt) in e['pc'] and [p for p in e['pc'] if p is not lnot(ndt)] == key]
                    if mates:
                        try:
                            with limit(40):
                                eqv = same_state(d, mates[0])
                        except Timeout:
                            eqv = False
                        if eqv:
                            S.fact(fn, label + ': folding the scale factor into the shape represents the same ellipsoid as deferring it', True)
                            continue
                dec = decompose(d)
                if dec is None:
                    S.fact(fn, label + ': new shape is a*Q + b*(Qg)(Qg)\' and the centre moves along Qg', False,
                           'Q=%s; xc=%s' % (d['Q'][0][1], d['xc']))
                    continue
                AB, C = dec
                same = all(T.is_zero(sub(a, AB[0][0])) and T.is_zero(sub(b, AB[0][1])) for a, b in AB[1:])
                S.fact(fn, label + ': new shape is a*Q + b*(Qg)(Qg)\', symmetric, centre moves along Qg', same)
                if not same:
                    continue
                scalar(S, fn, label, par, d, AB[0], C, which)
    if which == 'P04':
        with S.part('ell: copy, centre, constructors'):
            p04_misc(S, E, tu, cls, s0, lv, o0, n)


def scalar(S, fn, label, par, d, AB, C, which):
    a, b = AB
    pc = list(d['pc'])
    if T.is_zero(a):
        S.fact(fn, label + ': the new shape keeps the old one', False)
        return
    delta = mul(mul(d['kappa'], a), div(om, mul(tau, tau)))
    sig = neg(mul(b, om)) if a is R1 else neg(div(mul(b, om), a))
    r = div(neg(mul(C, om)), tau)
    if which == 'P04':
        return
    if par:
        return parallel(S, fn, label, pc, delta, sig, r, which)
    Dl, Sg, Rh = rv('delta'), rv('sigma'), rv('rho')
    n2 = mul(N, N)
    rs = div(add(R1, mul(N, u)), add(N, R1))
    ss = div(mul(num(2), rs), add(R1, u))
    dd = div(mul(n2, sub(R1, mul(u, u))), sub(n2, R1))
    e1 = prove_eq(pc, delta, dd)
    e2 = prove_eq(pc, sig, ss)
    e3 = prove_eq(pc, r, rs)
    if which == 'P03':
        S.fact(fn, label + ': scale factor is n^2(1-a^2)/(n^2-1)', e1, str(delta))
        S.fact(fn, label + ': contraction along the cut is 2(1+na)/((n+1)(1+a))', e2, str(sig))
    if e1 and e2 and e3:
        pc2 = pc + DEF([(Dl, dd), (Sg, ss), (Rh, rs)])
    else:
        pc2 = pc + DEF([(Dl, delta), (Sg, sig), (Rh, r)])
    p = lambda s: sub(add(sub(R1, mul(s, s)), div(mul(add(s, Rh), add(s, Rh)), sub(R1, Sg))), Dl)
    if which in ('P01', 'P02'):
        S.goal(fn, label + ': 0 <= sigma < 1', pc2 + [lt(u, R1)], land(le(R0, Sg), lt(Sg, R1)))
        S.goal(fn, label + ': a cut touching the ellipsoid leaves just the touching point', pc2 + [eq(u, R1)], land(eq(Dl, R0), eq(Rh, R1)))
        S.goal(fn, label + ': containment at the cut plane', pc2 + [lt(Sg, R1)], le(p(neg(u)), R0))
        S.goal(fn, label + ': containment at the far end', pc2 + [lt(Sg, R1)], le(p(num(-1)), R0))
    else:
        S.goal(fn, label + ': genuine ellipsoid (scale positive, sigma < 1)', pc2 + [ne(u, R1)], land(lt(R0, Dl), lt(Sg, R1)))
        S.goal(fn, label + ': volume does not grow', pc2, le(mul(Dl, sub(N, Sg)), N))
        S.goal(fn, label + ': volume shrinks strictly inside', pc2 + [lt(R0, add(R1, mul(N, u)))], lt(R0, Sg))


def DEF(pairs):
    out = []
    for x, t in pairs:
        nn, dd = T.ratform(t)
        out.append(eq(mul(x, dd), nn))
        out.append(eq(x, t))
    return out


def prove_eq(pc, a, b):
    d = sub(a, b)
    if T.is_zero(d):
        return True
    return smt.prove(pc, eq(d, R0), rlimit=4_000_000)[0] == 'proved'


def poly_reduce(t, roots):
    """replace xi^2 by its argument in a polynomial"""
    for x, y in roots.items():
        a = x.args[1]
        for _ in range(12):
            sp = T.coeff_split(t, lambda z: z is y)
            hi = [(k[0][1], k, c) for k, c in sp.items() if k and k[0][1] >= 2]
            if not hi:
                break
            t = R0
            for k, c in sp.items():
                e = k[0][1] if k else 0
                m = c
                while e >= 2:
                    m = mul(m, a)
                    e -= 2
                if e:
                    m = mul(m, y)
                t = add(t, m)
    return t


def is_zero_mod(t, roots):
    n, d = T.ratform(t)
    n = poly_reduce(n, roots)
    if n.op == 'num' and n.args[0] == 0:
        return True
    n2, _ = T.ratform(n)
    n2 = poly_reduce(n2, roots)
    return n2.op == 'num' and n2.args[0] == 0


def parallel(S, fn, label, pc, delta, sig, r, which):
    # abstract the code's square roots: xi >= 0, xi^2 = argument
    roots = {}
    for t in [delta, sig, r]:
        for x in T.subterms(t):
            if x.op == 'app' and x.args[0] == 'sqrt' and x not in roots:
                roots[x] = rv('xi%d' % len(roots))
    rf = []
    for x, y in roots.items():
        S.goal(fn, label + ': square root argument is non-negative', pc, le(R0, x.args[1]))
        rf += [le(R0, y), eq(mul(y, y), x.args[1])]
    fix = {x: R0 for p in pc if p.op == 'eq' for x in (u, v) if (p is eq(x, R0) or p is eq(neg(x), R0))}
    roots = {T.subst(x, fix): y for x, y in roots.items()}
    rf = [T.subst(x, fix) for x in rf]
    sb = lambda t: T.subst(T.subst(t, fix), roots)
    pc = [p for p in map(sb, pc) if not any(x.op == 'app' and x.args[0] == 'sqrt' for x in T.subterms(p))]
    delta, sig, r = map(sb, (delta, sig, r))
    zero = lambda t: is_zero_mod(t, roots)
    bav = T.subst(div(add(u, v), num(2)), fix)
    u_, v_ = T.subst(u, fix), T.subst(v, fix)
    try:
        with limit(60):
            e1 = zero(sub(r, mul(sig, bav)))
            # (1-delta)(1-sigma) + sigma^2 bav^2 = sigma u v
            e2 = zero(add(mul(sub(R1, delta), sub(R1, sig)), sub(mul(mul(sig, sig), mul(bav, bav)), mul(sig, mul(u_, v_)))))
    except Timeout:
        e1 = e2 = False
    Dl, Sg, Rh = rv('delta'), rv('sigma'), rv('rho')
    prod = mul(u_, v_)
    w = sub(v_, u_)
    k = div(mul(mul(N, N), mul(w, w)), num(4))
    base = pc + rf
    defs = base + DEF([(Dl, delta), (Sg, sig), (Rh, r)])
    hints = []
    for y in roots.values():
        # the root lies between the bounds the argument needs
        hints.append(mul(sub(R1, k), mul(mul(w, w), sub(mul(N, N), R1))))
        hints.append(mul(sub(y, sub(mul(num(2), sub(R1, k)), add(R1, prod))), add(y, sub(mul(num(2), sub(R1, k)), add(R1, prod)))))
    S.e = (e1, e2)
    if which == 'P02':
        S.goal(fn, label + ': 0 <= sigma', defs, le(R0, Sg))
        S.goal(fn, label + ': sigma < 1', defs, lt(Sg, R1))
        s = rv('s')
        p = sub(add(mul(sub(R1, mul(s, s)), sub(R1, Sg)), mul(add(s, Rh), add(s, Rh))), mul(Dl, sub(R1, Sg)))
        if e1 and e2:
            S.fact(fn, label + ': the centre moves by sigma * (mean of the two offsets)', e1)
            S.fact(fn, label + ': (1-delta)(1-sigma) + sigma^2 mean^2 = sigma b0 b1', e2)
            pc2 = [eq(Rh, mul(Sg, bav)), eq(add(mul(sub(R1, Dl), sub(R1, Sg)), mul(mul(Sg, Sg), mul(bav, bav))), mul(Sg, prod)),
                   le(R0, Sg), lt(Sg, R1)]
            S.goal(fn, label + ': containment of the slab', pc2 + [le(add(s, u_), R0), le(R0, add(s, v_))], le(p, R0))
        else:
            S.goal(fn, label + ': containment at the first plane', defs + [eq(s, neg(u_)), le(u_, R1), le(neg(R1), u_)], le(p, R0))
            S.goal(fn, label + ': containment at the second plane', defs + [eq(s, neg(v_)), le(v_, R1), le(neg(R1), v_)], le(p, R0))
            S.goal(fn, label + ': containment at the far end', defs + [eq(s, R1), le(u_, neg(R1))], le(p, R0))
    else:
        ins = lt(num(-1), v_)       # otherwise the slab meets the ellipsoid in at most one point
        S.goal(fn, label + ': genuine ellipsoid (scale positive)', defs + [ins], lt(R0, Dl))
        S.goal(fn, label + ': genuine ellipsoid (sigma < 1)', defs, lt(Sg, R1))
        try:
            with limit(60):
                # N - delta (N - sigma) is a square
                e3 = zero(sub(sub(N, mul(delta, sub(N, sig))), mul(N, mul(mul(sig, sig), mul(bav, bav)))))
        except Timeout:
            e3 = False
        if e3:
            S.fact(fn, label + ': n - delta (n - sigma) = n (sigma mean)^2', True)
            S.goal(fn, label + ': volume does not grow', BASE + [eq(sub(N, mul(Dl, sub(N, Sg))), mul(N, mul(Rh, Rh)))],
                   le(mul(Dl, sub(N, Sg)), N))
        else:
            S.goal(fn, label + ': volume does not grow', defs, le(mul(Dl, sub(N, Sg)), N))
        m2 = mul(bav, bav)
        qd = lambda x: add(sub(mul(x, add(add(R1, prod), mul(mul(num(2), N), m2))), add(R1, mul(N, prod))), neg(mul(mul(x, x), mul(add(N, R1), m2))))
        strict = lt(R0, add(R1, mul(N, prod)))
        try:
            with limit(60):
                e4 = zero(qd(sig))
        except Timeout:
            e4 = False
        if e4:
            S.fact(fn, label + ': sigma minimises the volume', True)
            S.goal(fn, label + ': 0 <= sigma', defs, le(R0, Sg))
            S.goal(fn, label + ': volume shrinks strictly', BASE + [strict, eq(qd(Sg), R0), le(R0, Sg)], lt(R0, Sg))
        else:
            S.goal(fn, label + ': volume shrinks strictly', defs + [strict], lt(R0, Sg))


def p04(S, fn, label, name, d, o0, nm):
    pc, s = d['pc'], rv('s')
    two = name.startswith('update(parallel')
    st = STAT.get(d['status'])
    if d['status'] is None:
        S.fact(fn, label + ': the status is one of the named ones', False, 'symbolic status')
        return
    S.zero(fn, label + ': the returned size is the scale times the quadratic form of the direction', sub(d['tsq'], mul(tau, tau)), pc)
    o = d['o']
    for f in ('use_parallel_cut', 'no_defer_trick'):
        S.fact(fn, label + ': the %s option is left alone' % f, o.f[f] is o0.f[f])
    here = [le(num(-1), s), le(s, R1), le(add(s, u), R0)] + ([le(R0, add(s, v))] if two else [])
    if st == 'success':
        # a cut that admits no point of the ellipsoid is not a success, nor one too shallow to help
        if name == 'update(parallel)':
            S.goal(fn, label + ': success only for planes in the right order', pc, le(u, v))
            S.goal(fn, label + ': success only for cuts deep enough', pc, lor(le(num(-1), mul(N, mul(u, v))), le(num(-1), mul(N, u))))
        else:
            S.goal(fn, label + ': success only for cuts that meet the ellipsoid', pc, le(u, R1))
            S.goal(fn, label + ': success only for cuts deep enough', pc, le(num(-1), mul(N, u)))
        return
    S.zero(fn, label + ' (%s): scale unchanged' % st, sub(d['kappa'], nm(o0.f[R['kappa']])), pc)
    for c, t in d['Q']:
        jj = i if c.op == 'eq' else j
        S.zero(fn, label + ' (%s): shape unchanged' % st, sub(t, T.app('Q', (i, jj), 'R')), pc)
    S.zero(fn, label + ' (%s): centre unchanged' % st, sub(d['xc'], T.app('xc', (i,), 'R')), pc)
    if st == 'nosoln':
        S.goal(fn, label + ': no point of the ellipsoid satisfies the cut', pc + here, T.FALSE)
    elif st == 'noeffect':
        g = lt(mul(N, u), num(-1))
        if two:
            g = lor(g, lt(mul(N, mul(u, v)), num(-1)))
        S.goal(fn, label + ': the cut is too shallow for a smaller ellipsoid', pc, g)
    else:
        S.fact(fn, label + ': only success, no solution or no effect is reported', False, 'status %s' % st)


def p04_misc(S, E, tu, cls, s0, lv, o0, n, C='ell', base=None):
    def method_(name):
        if base is not None and not methods(tu, cls, name):
            return method(tu, base, name)
        return method(tu, cls, name)

    k = iv('k')
    st = s0.copy()
    st.assume(inr(i, n), inr(j, n))

    def same(fn, what, o, p, skip=()):
        for f in sorted(set(p.f) - set(skip)):
            a, b = o.f.get(f), p.f[f]
            if isinstance(b, ArrV):
                ix = (i, j)[:len(b.shape)]
                ok = isinstance(a, ArrV) and len(a.shape) == len(b.shape)
                if ok:
                    S.zero(fn, '%s: %s unchanged' % (what, f), sub(value_at(E, a.get(ix), st), value_at(E, b.get(ix), st)), st.pc)
                else:
                    S.fact(fn, '%s: %s unchanged' % (what, f), False)
            elif isinstance(b, T.T):
                if b.sort == 'B':
                    S.fact(fn, '%s: %s unchanged' % (what, f), a is b)
                else:
                    S.zero(fn, '%s: %s unchanged' % (what, f), sub(a, b))
            else:
                S.fact(fn, '%s: %s unchanged' % (what, f), a is b)
    scratch = R['scratch']
    # set_xc: the centre becomes the argument, nothing else moves
    f = method_('set_xc')
    y = arr('y', n)
    S.functions.append(C + '::set_xc')
    s1, _ = run1(E, f, lv, [y], s0.copy())
    o = E.read(lv, s1)
    same(C + '::set_xc', 'set_xc', o, o0, (R['xc'],) + scratch)
    S.zero(C + '::set_xc', 'the centre becomes the given point', sub(value_at(E, o.f[R['xc']].get((i,)), st), y.get((i,))), st.pc)
    # xc: the centre, by value
    f = method_('xc')
    S.functions.append(C + '::xc')
    s1, v_ = run1(E, f, lv, [], s0.copy())
    v_ = E.rval(v_, s1) if hasattr(E, 'rval') else v_
    if isinstance(v_, LV):
        S.fact(C + '::xc', 'xc returns a copy of the centre', False, 'returns a reference')
    else:
        S.zero(C + '::xc', 'xc returns the centre', sub(value_at(E, v_.get((i,)), st), T.app('xc', (i,), 'R')), st.pc)
        same(C + '::xc', 'xc', E.read(lv, s1), o0)
    # copy: equal and separate
    f = method_('copy')
    S.functions.append(C + '::copy')
    s1, c = run1(E, f, lv, [], s0.copy())
    if isinstance(c, LV):
        S.fact(C + '::copy', 'the copy is separate storage', c.loc != lv.loc)
        c = E.read(c, s1)
    if not isinstance(c, ObjV):
        S.fact(C + '::copy', 'copy returns an ellipsoid', False, repr(c))
    else:
        same(C + '::copy', 'copy', c, o0, scratch)
        same(C + '::copy', 'original after copy', E.read(lv, s1), o0)
    # constructors: ball and axis-aligned ellipsoid
    for nm_, pred, args, M in [
        ('ctor(alpha, x)', lambda f: strip(front.params_of(f)[0]) == 'double', [rv('alpha'), arr('x0', n)], lambda a: rv('alpha')),
        ('ctor(diag, x)', lambda f: 'array' in strip(front.params_of(f)[0]) or strip(front.params_of(f)[0]).endswith('Arr'), [arr('val', n), arr('x0', n)], lambda a: T.app('val', (a,), 'R')),
    ]:
        ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 2 and not f.get('_tmpl') and pred(f))
        s2 = State()
        s2.assume(le(I2, n))
        s2, l2 = build(E, cls, ct, args, s2)
        o = E.read(l2, s2)
        S.functions.append(C + '::' + nm_)
        fn = C + '::' + nm_
        s3 = s2.copy()
        s3.assume(inr(i, n), inr(j, n))
        kap = o.f[R['kappa']]
        S.zero(fn, 'centre is the given point', sub(value_at(E, o.f[R['xc']].get((i,)), s3), T.app('x0', (i,), 'R')), s3.pc)
        sd = s3.copy(); sd.assume(ne(i, j))
        S.zero(fn, 'scaled shape: off the diagonal 0', mul(kap, value_at(E, o.f[R['Q']].get((i, j)), sd)), sd.pc)
        S.zero(fn, 'scaled shape: on the diagonal the given square', sub(mul(kap, value_at(E, o.f[R['Q']].get((i, i)), s3)), M(i)), s3.pc)
        S.fact(fn, 'shape is square of the point\'s dimension', tuple(o.f[R['Q']].shape) == (n, n) and tuple(o.f[R['xc']].shape) == (n,))
        S.fact(fn, 'parallel cuts on, scale deferred', o.f['use_parallel_cut'] is TRUE and o.f['no_defer_trick'] is FALSE)
