"""P06: the one-dimensional search space.

An object stands for the interval [l, u] when its fields are those the constructor gives for
(l, u); every update is shown to take the object of one interval to the object of another, so
the statement covers every history of updates.
"""
from kit import *
from specs.common import *


def leaves(v, path=()):
    if isinstance(v, ObjV):
        for k in sorted(v.f):
            yield from leaves(v.f[k], path + (k,))
    elif isinstance(v, T.T):
        yield path, v
    else:
        raise Unsupported('field %s = %r' % (path, v))


def check(S, which):
    tu = load(['ell1d.cpp'])
    E = loops.Engine(tu)
    cls = find_cls(tu, 'ell1d')
    ctor = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 2)
    l, u = rv('l'), rv('u')
    st = State()
    st.assume(le(l, u))
    with S.part('ell1d::ell1d'):
        s, lv = build(E, cls, ctor, [l, u], st)
        S.functions.append('ell1d::ell1d')
        S.absorb(E)
        S.safety(E, 'ell1d::ell1d')
    o0 = E.read(lv, s)

    def is_interval(fn, lab, pc, o, l2, u2):
        got, want = dict(leaves(o)), dict(leaves(o0))
        ok = True
        for k in want:
            w = T.subst(want[k], {l: l2, u: u2})
            ok &= S.goal(fn, '%s: the object is that of the expected interval (%s)' % (lab, '.'.join(k)), pc, eq(got[k], w))
        return ok
    with S.part('ell1d::xc'):
        s1, c = run1(E, method(tu, cls, 'xc'), lv, [], s)
        S.functions.append('ell1d::xc')
        c = E.read(c, s1) if isinstance(c, LV) else c
        S.zero('ell1d::xc', 'the centre is the middle of the interval', sub(mul(num(2), c), add(l, u)), s1.pc)
    with S.part('ell1d::set_xc'):
        x = rv('x')
        s1, _ = run1(E, method(tu, cls, 'set_xc'), lv, [x], s)
        S.functions.append('ell1d::set_xc')
        h = div(sub(u, l), num(2))
        is_interval('ell1d::set_xc', 'moved', s1.pc, E.read(lv, s1), sub(x, h), add(x, h))
    with S.part('ell1d::update'):
        fn = 'ell1d::update'
        S.functions.append(fn)
        g, b = rv('g'), rv('beta')
        s0 = s.copy()
        s0.assume(ne(g, R0))
        paths = run(E, method(tu, cls, 'update'), lv, [TupV([g, b])], s0)
        S.absorb(E)
        S.safety(E, fn)
        S.reach.append((fn, s0.pc))
        mid, h = div(add(l, u), num(2)), div(sub(u, l), num(2))
        z = rv('z')
        inside = land(le(l, z), le(z, u))
        cut = le(add(mul(g, sub(z, mid)), b), R0)
        seen = set()
        paths = [(s2, c, tup(v, 2)[1]) for s1, v in paths for s2, c in split(E, s1, tup(v, 2)[0])]
        for k, (s1, stt, tsq) in enumerate(paths):
            stt = status(tu, stt)
            seen.add(stt)
            lab = 'path %d (%s)' % (k, stt)
            S.goal(fn, lab + ': the size is the square of slope times half-width', s1.pc, eq(tsq, mul(mul(g, h), mul(g, h))))
            o = E.read(lv, s1)
            if stt == 'success':
                edge = sub(mid, div(b, g))
                gp = s1.copy()
                gp.assume(lt(R0, g))
                gn = s1.copy()
                gn.assume(lt(g, R0))
                is_interval(fn, lab + ', positive slope', gp.pc, o, l, edge)
                is_interval(fn, lab + ', negative slope', gn.pc, o, edge, u)
                S.goal(fn, lab + ': positive slope: the interval [l, edge] is the part that satisfies the cut', gp.pc,
                       land(eqv(land(inside, cut), land(le(l, z), le(z, edge))), le(l, edge)))
                S.goal(fn, lab + ': negative slope: the interval [edge, u] is the part that satisfies the cut', gn.pc,
                       land(eqv(land(inside, cut), land(le(edge, z), le(z, u))), le(edge, u)))
            else:
                S.goal(fn, lab + ': the interval is left alone', s1.pc, land(*[eq(x, y) for (_, x), (_, y) in zip(leaves(o), leaves(o0))]))
                if stt == 'nosoln':
                    S.goal(fn, lab + ': no point satisfies the cut', s1.pc + [inside], lnot(cut))
                elif stt == 'noeffect':
                    S.goal(fn, lab + ': every point satisfies the cut', s1.pc + [inside], cut)
                else:
                    S.fact(fn, lab + ': only success, nosoln and noeffect are answered', False, stt)
        S.fact(fn, 'success, nosoln and noeffect all occur', seen == {'success', 'nosoln', 'noeffect'}, str(seen))


def eqv(a, b):
    return land(implies(a, b), implies(b, a))
