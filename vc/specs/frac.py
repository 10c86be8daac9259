"""P22: rational arithmetic.

A rational is in normal form when its denominator d is positive and numerator n and
denominator are coprime: u*n + v*d = 1 for some integers u, v (Bezout).  gcd is verified
against the mathematical greatest common divisor (lemmas gcd_* in lean/gcd.lean); the other
functions use its contract.  Integers are mathematical ("as long as they stay in range").
"""
import itertools
from kit import *
import lib, exec as ex
from values import UNINIT
from exec import strip_type, qt

WIDTH = {'char': 8, 'signed char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}


class Engine(loops.Engine):
    def __init__(self, tu):
        super().__init__(tu)
        self.recs = []

    # conversions to a narrower integer type lose values
    def e_ImplicitCastExpr(self, n, st):
        if n.get('castKind') == 'IntegralCast':
            a, b = strip_type(qt(n['inner'][0])), strip_type(qt(n))
            if WIDTH.get(b, 99) < WIDTH.get(a, 0):
                v = self.ev(n['inner'][0], st)
                if v.op != 'num':
                    w = WIDTH[b] - 1
                    self.oblige('conversion from %s to %s keeps the value' % (a, b), st, land(le(num(-2 ** w, 'I'), v), lt(v, num(2 ** w, 'I'))))
        return super().e_ImplicitCastExpr(n, st)

    def idiv(self, x, y, st):
        """exact divisions by a greatest common divisor"""
        for z, k in ((x, 0), (y, 1)):
            if z.op == 'ite':
                c, a, b = z.args
                f = (lambda w: self.idiv(w, y, st)) if k == 0 else (lambda w: self.idiv(x, w, st))
                return ite(c, f(a), f(b))
        for r in self.recs:
            if r['sure'] is not True and not smt.entails(st.pc, r['sure']):
                continue
            g = r['g']
            sg = 1 if y is g or smt.entails(st.pc, eq(y, g)) else -1 if y is neg(g) or smt.entails(st.pc, eq(y, neg(g))) else 0
            if sg:
                for m, a in ((r['m'], r['a']), (r['n'], r['b'])):
                    for t in (1, -1):
                        if T.is_zero(sub(x, m if t == 1 else neg(m))) or x.op != 'num' and smt.entails(st.pc, eq(x, m if t == 1 else neg(m))):
                            return a if t == sg else neg(a)
                for m, a in ((r['m'], r['a']), (r['n'], r['b'])):
                    if m.op == 'var':
                        # a multiple of m
                        q = T._poly(x)
                        if q and all(any(z is m and e == 1 for z, e in mono) for mono in q):
                            q = T._from_poly({tuple((z, e) for z, e in mono if z is not m): c for mono, c in q.items()}, 'I')
                            q = mul(q, a)
                            return q if sg == 1 else neg(q)
        return super().idiv(x, y, st)

    def lib_op(self, op, args, st, n):
        o = op.replace('operator', '')
        if len(args) == 2 and o in ('<', '>', '<=', '>=', '==', '!=', '*', '/', '+', '-'):
            ts = [self.is_frac(a) for a in args]
            if any(ts):
                return self.boost(o, args, ts, st)
        return super().lib_op(op, args, st, n)

    def is_frac(self, a):
        return 'Fraction' in qt(a)

    def member(self, o, frac, a, args, st):
        cls = self.fcls
        fs = [f for f in methods(self.tu, cls, 'operator' + o, 1) if ('Fraction' in front.params_of(f)[0]['type']['qualType']) == frac]
        if len(fs) != 1:
            raise Unsupported('operator%s of Fraction' % o)
        r = self.call(fs[0], a, args, st, None)
        return self.read(r, st) if isinstance(r, LV) else r

    def boost(self, o, args, ts, st):
        """boost::totally_ordered, totally_ordered2, multipliable2, dividable2"""
        self.trusted.add('boost/operators.hpp operator' + o)
        vals = []
        for a in args:
            v = self.ev(a, st)
            vals.append(v)
        lvs = [self.newloc('b', v, st) if t else v for v, t in zip(vals, ts)]

        def lt_(i, j):
            return self.member('<', ts[j], lvs[i], [lvs[j]], st)
        x, y = 0, 1
        both = all(ts)
        neg_ = T.lnot
        if o in ('*', '/'):
            if both or (o == '/' and not ts[0]):
                raise Unsupported('operator%s' % o)
            i = 0 if ts[0] else 1
            self.member(o + '=', False, lvs[i], [lvs[1 - i]], st)
            return self.read(lvs[i], st)
        if both:
            if o == '>':
                return lt_(1, 0)
            if o == '<=':
                return neg_(lt_(1, 0))
            if o == '>=':
                return neg_(lt_(0, 1))
            if o == '!=':
                return neg_(self.member('==', True, lvs[0], [lvs[1]], st))
        else:
            i = 0 if ts[0] else 1            # the rational
            z = lvs[1 - i]
            k = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o) if i == 1 else o
            f = lambda p: self.member(p, False, lvs[i], [z], st)
            if k == '==' and i == 1:
                return f('==')
            if k == '!=':
                return neg_(f('=='))
            if k == '<=':
                return neg_(f('>'))
            if k == '>=':
                return neg_(f('<'))
            if k in '<>' and i == 1:
                return f(k)
        raise Unsupported('operator%s on rationals' % o)


def GCD(m, n):
    a, b = sorted((m, n), key=T.skey)
    return T.app('GCD', (a, b), 'I')


def gcd_contract(E, st, this, args, node, decl):
    m, n = [E.read(v, st) if isinstance(v, LV) else E.ev(v, st) if isinstance(v, dict) else v for v in args]
    while any(x.op == 'ite' for t in (m, n) for x in T.subterms(t)):
        c = next(x.args[0] for t in (m, n) for x in T.subterms(t) if x.op == 'ite')
        k = 1 if E.branch(c, st) else 2
        m, n = pick(m, c, k), pick(n, c, k)
    g = GCD(m, n)
    for r in E.recs:
        if r['m'] is m and r['n'] is n:
            break
    else:
        nz = lor(ne(m, I0), ne(n, I0))
        k = len(E.recs)
        r = dict(m=m, n=n, g=g, a=iv('qa%d' % k), b=iv('qa%d' % k if m is n else 'qb%d' % k), u=iv('bu%d' % k), v=iv('bv%d' % k), sure=nz)
        E.recs.append(r)
    if smt.entails(st.pc, r['sure']):
        st.assume(lt(I0, g), eq(m, mul(g, r['a'])), eq(n, mul(g, r['b'])), eq(add(mul(r['u'], r['a']), mul(r['v'], r['b'])), I1))
    else:
        st.assume(le(I0, g))
        st.assume(implies(r['sure'], land(lt(I0, g), eq(m, mul(g, r['a'])), eq(n, mul(g, r['b'])), eq(add(mul(r['u'], r['a']), mul(r['v'], r['b'])), I1))))
        st.assume(implies(lnot(r['sure']), eq(g, I0)))
    return g


class Base:
    """integers as polynomials over independent unknowns, using the equations of a path"""

    def __init__(self, E, pc, bez):
        self.E, self.pc, self.bez = E, pc, bez
        self.m, self.g = {}, {}
        for r in E.recs:
            self.g.setdefault(r['g'], iv('g:%d' % len(self.g)))
        for r in E.recs:
            if smt.entails(pc, eq(r['g'], I1)):
                self.put(self.g[r['g']], I1)
                for x, y in ((r['m'], r['a']), (r['n'], r['b'])):
                    self.put(y, x)
        for p in pc:
            if p.op == 'eq' and p.args[0].sort == 'I':
                d = sub(*p.args)
                for mono, c in list(monos(d).items()):
                    if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and mono[0][0].op == 'var':
                        x = mono[0][0]
                        if self.put(x, sub(x, d) if c == 1 else add(x, d)):
                            break

    def put(self, x, y):
        """x is y from now on (kept triangular)"""
        y = self.norm(y)
        if x in self.m or x.op != 'var' or x.args[0] in y.fv:
            return False
        self.m = {k: T.subst(v, {x: y}) for k, v in self.m.items()}
        self.m[x] = y
        return True

    def norm(self, t):
        return T.subst(T.subst(t, self.g), self.m)

    def dead(self):
        """numbers known to be coprime have a common factor g > 1: the path is impossible"""
        if any(smt.entails(self.pc, eq(k, I1)) and smt.entails(self.pc, ne(k, I1)) for k in self.g):
            return True
        for u, a, v, b in self.bez:
            t = self.norm(add(mul(u, a), mul(v, b)))
            for g in self.g.values():
                if g in self.m:
                    continue
                if all(dict(mono).get(g, 0) >= 1 for mono in monos(t)):
                    # g * w = 1 with g > 0 means g = 1
                    src = next(k for k, x in self.g.items() if x is g)
                    if smt.entails(self.pc, lt(I0, src)) and smt.entails(self.pc, ne(src, I1)):
                        return True
        return False


def monos(t):
    return T._poly(t)


def coprime(S, E, fn, name, pc, p, q, bez):
    """coprime(p, q), from a product of the Bezout identities at hand every term of which is a multiple of p or q"""
    B = Base(E, pc, bez)
    p0, q0 = B.norm(p), B.norm(q)
    if any(x is k for x in (p0, q0) for k in (I1, num(-1, 'I'))):
        return S.fact(fn, name, True)
    names = {}
    if len(monos(p0)) != 1:
        names[p0] = iv('?p')
    if len(monos(q0)) != 1:
        names[q0] = iv('?q')

    def nm(x):
        x = B.norm(x)
        return names[x] if x in names else neg(names[neg(x)]) if neg(x) in names else x
    ids = [add(mul(u, nm(a)), mul(v, nm(b))) for u, a, v, b in bez]
    ids += [add(mul(r['u'], nm(r['a'])), mul(r['v'], nm(r['b']))) for r in E.recs if smt.entails(pc, r['sure'])]
    P, Q = monos(nm(p0)), monos(nm(q0))

    def divides(d, m, k):
        if len(d) != 1:
            return False
        (dm, c), = d.items()
        if (k / c).denominator != 1:
            return False
        mm = dict(m)
        return all(mm.get(a, 0) >= e for a, e in dm)
    for n in range(1, 4):
        for ch in itertools.combinations_with_replacement(range(len(ids)), n):
            t = I1
            for k in ch:
                t = mul(t, ids[k])
            if all(divides(P, m, k) or divides(Q, m, k) for m, k in monos(t).items()):
                return S.fact(fn, name, True)
    # last resort: the solver, with the product of all identities as the witness
    return S.goal(fn, name, pc, FALSE) if False else S.fact(fn, name, False, 'no Bezout certificate for (%s, %s)' % (B.norm(p), B.norm(q)))


def pieces(st, ts):
    """the paths on which the conditionals of the terms are decided"""
    c = next((s.args[0] for t in ts for s in T.subterms(t) if s.op == 'ite'), None)
    if c is None:
        return [(st, ts)]
    out = []
    for d, k in ((c, 1), (lnot(c), 2)):
        s = st.copy()
        s.assume(d)
        if not smt.entails(s.pc, FALSE):
            out += pieces(s, [pick(t, c, k) for t in ts])
    return out


def pick(t, c, k):
    def go(x):
        if x.op == 'ite' and x.args[0] is c:
            return go(x.args[k])
        return x if x.op in ('num', 'var', 'bool') else T.rebuild(x, go)
    return go(t)


def check(S, which):
    tu = load(['py2cpp/fractions.hpp'], 'frac.hpp')
    F = lambda name: tu.find(name)
    E = Engine(tu)
    cl = [c for c in tu.classes.values() if c.get('name') == 'Fraction' and c.get('kind') == 'ClassTemplateSpecializationDecl' and c.get('_fields')]
    if not cl:
        raise Unsupported('class Fraction<long> not found')
    cls = E.fcls = cl[0]
    check_gcd(S, tu)
    E.contracts['gcd'] = E.contracts['fun::gcd'] = gcd_contract
    fields = [f['name'] for f in cls['_fields']]

    def parts(o, fn):
        if not (isinstance(o, ObjV) and len(fields) == 2):
            raise Unsupported('%s: result %r' % (fn, o))
        return [o.f[k] for k in fields]

    def fresh(name, st):
        n, d, u, v = iv(name + 'n'), iv(name + 'd'), iv(name + 'u'), iv(name + 'v')
        st.assume(lt(I0, d), eq(add(mul(u, n), mul(v, d)), I1))
        return n, d, (u, n, v, d), ObjV(cls.get('name'), {fields[0]: n, fields[1]: d})
    a_i = iv('i')

    def normal(fn, s, o, N, D, bez):
        """o is N/D in normal form"""
        p, q = parts(o, fn)
        for k, (s1, (p1, q1)) in enumerate(pieces(s, [p, q])):
            lab = ' (case %d)' % k
            B = Base(E, s1.pc, bez)
            if B.dead():
                continue
            S.goal(fn, 'the denominator is positive' + lab, s1.pc, lt(I0, q1))
            d = sub(mul(p1, D), mul(q1, N))
            if T.is_zero(B.norm(d)):
                S.fact(fn, 'the value is exact' + lab, True)
            else:
                S.goal(fn, 'the value is exact' + lab, s1.pc, eq(d, I0))
            coprime(S, E, fn, 'lowest terms' + lab, s1.pc, p1, q1, bez)

    def op(f, args, N, D, pre=None, mutates=False):
        """args: 'a', 'b' (rationals), 'i' (integer)"""
        with S.part(LABEL.get(f, f)):
            E.recs = []
            st = State()
            env, bez, av = {}, [], []
            for k in args:
                if k in 'ab':
                    n, d, bz, o = fresh(k, st)
                    env[k + 'n'], env[k + 'd'] = n, d
                    bez.append(bz)
                    av.append(E.newloc(k, o, st))
                else:
                    env[k] = iv(k)
                    av.append(E.newloc(k, iv(k), st))
            N1, D1 = N(**env), D(**env)
            if pre is not None:
                st.assume(pre(**env))
            S.reach.append((LABEL.get(f, f), st.pc))
            S.functions.append(LABEL.get(f, f))
            for s, r in run(E, F(f), None, av, st):
                o = E.read(av[0], s) if mutates else E.read(r, s) if isinstance(r, LV) else r
                normal(LABEL.get(f, f), s, o, N1, D1, bez)
                for k, x in list(zip(args, av))[1 if mutates else 0:]:
                    if k in 'ab':
                        p, q = parts(E.read(x, s), f)
                        S.fact(LABEL.get(f, f), 'operand %s is left alone' % k, p is env[k + 'n'] and q is env[k + 'd'])
            S.absorb(E)
            S.safety(E, LABEL.get(f, f), rewrite=None)
    one = num(1, 'I')
    two = num(2, 'I')
    nz = lambda x: ne(x, I0)
    for f in ('u_make', 'u_make_rv'):
        op(f, 'ij', lambda i, j: i, lambda i, j: j, lambda i, j: nz(j))
    for f in ('u_int', 'u_int_rv'):
        op(f, 'i', lambda i: i, lambda i: one)
    op('u_neg', 'a', lambda an, ad: neg(an), lambda an, ad: ad)
    op('u_abs', 'a', lambda an, ad: ite(le(I0, an), an, neg(an)), lambda an, ad: ad)
    AB = {'add': (lambda an, ad, bn, bd: add(mul(an, bd), mul(bn, ad)), lambda an, ad, bn, bd: mul(ad, bd), None),
          'sub': (lambda an, ad, bn, bd: sub(mul(an, bd), mul(bn, ad)), lambda an, ad, bn, bd: mul(ad, bd), None),
          'mul': (lambda an, ad, bn, bd: mul(an, bn), lambda an, ad, bn, bd: mul(ad, bd), None),
          'div': (lambda an, ad, bn, bd: mul(an, bd), lambda an, ad, bn, bd: mul(ad, bn), lambda an, ad, bn, bd: nz(bn))}
    for k, (N, D, pre) in AB.items():
        op('u_' + k, 'ab', N, D, pre)
        op('u_asg' + k, 'ab', N, D, pre, True)
        op('u_self' + k, 'a', lambda an, ad: N(an, ad, an, ad), lambda an, ad: D(an, ad, an, ad),
           None if pre is None else lambda an, ad: nz(an), True)
    AI = {'add': (lambda an, ad, i: add(an, mul(i, ad)), lambda an, ad, i: ad, None),
          'sub': (lambda an, ad, i: sub(an, mul(i, ad)), lambda an, ad, i: ad, None),
          'mul': (lambda an, ad, i: mul(an, i), lambda an, ad, i: ad, None),
          'div': (lambda an, ad, i: an, lambda an, ad, i: mul(ad, i), lambda an, ad, i: nz(i))}
    for k, (N, D, pre) in AI.items():
        op('u_%si' % k, 'ai', N, D, pre)
        op('u_asg%si' % k, 'ai', N, D, pre, True)
    rs = lambda an, ad, i: sub(mul(i, ad), an)
    op('u_iadd', 'ai', AI['add'][0], AI['add'][1])
    op('u_isub', 'ai', rs, AI['add'][1])
    op('u_imul', 'ai', AI['mul'][0], AI['mul'][1])
    op('u_ladd', 'a', lambda an, ad: add(an, mul(two, ad)), lambda an, ad: ad)
    op('u_lsub', 'a', lambda an, ad: sub(mul(two, ad), an), lambda an, ad: ad)
    op('u_lmul', 'a', lambda an, ad: mul(two, an), lambda an, ad: ad)
    op('u_selfmuln', 'a', lambda an, ad: mul(an, an), lambda an, ad: ad, None, True)
    op('u_selfmuld', 'a', lambda an, ad: mul(an, ad), lambda an, ad: ad, None, True)
    op('u_selfdivn', 'a', lambda an, ad: an, lambda an, ad: mul(ad, an), lambda an, ad: nz(an), True)
    op('u_selfdivd', 'a', lambda an, ad: an, lambda an, ad: mul(ad, ad), None, True)
    op('u_recip', 'a', lambda an, ad: ad, lambda an, ad: an, lambda an, ad: nz(an), True)
    op('u_norm', 'a', lambda an, ad: an, lambda an, ad: ad, None, True)

    def values(f, args, want):
        with S.part(LABEL.get(f, f)):
            E.recs = []
            st = State()
            env, av = {}, []
            for k in args:
                if k in 'ab':
                    n, d, bz, o = fresh(k, st)
                    env[k + 'n'], env[k + 'd'], env[k + 'z'] = n, d, bz
                    av.append(E.newloc(k, o, st))
                else:
                    env[k] = iv(k)
                    av.append(E.newloc(k, iv(k), st))
            S.functions.append(LABEL.get(f, f))
            for k, (s, r) in enumerate(run(E, F(f), None, av, st)):
                r = E.read(r, s) if isinstance(r, LV) else r
                want(LABEL.get(f, f), ' (path %d)' % k, s, r, env)
            S.absorb(E)
            S.safety(E, LABEL.get(f, f))

    def val(t):
        return lambda fn, lab, s, r, e: S.goal(fn, 'the value is the expected one' + lab, s.pc, eq(r, t(e)))
    values('u_num', 'a', val(lambda e: e['an']))
    values('u_den', 'a', val(lambda e: e['ad']))

    def cmpv(rel, ints):
        def want(fn, lab, s, r, e):
            # a = n1/d1 against b = n2/d2 (d2 = 1 for an integer)
            n1, d1 = e['an'], e['ad']
            n2, d2 = (e['i'], I1) if ints else (e['bn'], e['bd'])
            if ints == 'swap':
                n1, d1, n2, d2 = n2, d2, n1, d1
            pc = list(s.pc)
            if ints:
                # n = i*d with n, d coprime means d = 1:  d*(u*i + v) = 1
                u, n, v, d = e['az']
                w = add(mul(u, e['i']), v)
                pc += [implies(eq(mul(d, w), I1), eq(d, I1)), implies(eq(n, mul(e['i'], d)), eq(mul(d, w), I1))]
            x, y = mul(n1, d2), mul(n2, d1)
            t = {'eq': eq(x, y), 'ne': ne(x, y), 'lt': lt(x, y), 'gt': lt(y, x), 'le': le(x, y), 'ge': le(y, x)}[rel]
            r = E.as_bool(r)
            S.goal(fn, 'true only if the order says so' + lab, pc + [r], t)
            S.goal(fn, 'false only if the order says so' + lab, pc + [lnot(r)], lnot(t))
        return want
    for rel in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        values('c_' + rel, 'ab', cmpv(rel, None))
        values('ci_' + rel, 'ai', cmpv(rel, 'int'))
        values('ic_' + rel, 'ai', cmpv(rel, 'swap'))

    def sign(fn, lab, s, r, e):
        x, y = mul(e['an'], e['bd']), mul(e['bn'], e['ad'])
        S.goal(fn, 'negative exactly when less' + lab, s.pc, land(implies(lt(r, I0), lt(x, y)), implies(lt(x, y), lt(r, I0))))
        S.goal(fn, 'zero exactly when equal' + lab, s.pc, land(implies(eq(r, I0), eq(x, y)), implies(eq(x, y), eq(r, I0))))
    values('v_cmp', 'ab', sign)

    def lcm(fn, lab, s, r, e):
        """the least common multiple: 0 if one is 0, else |i*j| / gcd(i, j)"""
        i_, j_ = e['i'], e['j']
        for k, (s1, (r1,)) in enumerate(pieces(s, [r])):
            for sg, c in ((1, [lt(I0, i_), lt(I0, j_)]), (-1, [lt(I0, i_), lt(j_, I0)]), (-1, [lt(i_, I0), lt(I0, j_)]), (1, [lt(i_, I0), lt(j_, I0)])):
                pc = s1.pc + c
                if smt.entails(pc, FALSE):
                    continue
                B = Base(E, pc, [])
                d = sub(mul(r1, GCD(i_, j_)), mul(num(sg, 'I'), mul(i_, j_)))
                if T.is_zero(B.norm(d)):
                    S.fact(fn, 'times the gcd it is the absolute product' + lab, True)
                else:
                    S.goal(fn, 'times the gcd it is the absolute product' + lab, pc, eq(d, I0))
            for z in (i_, j_):
                pc = s1.pc + [eq(z, I0)]
                S.goal(fn, 'zero if one of the numbers is' + lab, pc, eq(r1, I0))
    for f in ('v_lcm', 'v_lcm_int', 'v_lcm_ll'):
        values(f, 'ij', lcm)


LABEL = {}
for _l in open(os.path.join(os.path.dirname(__file__), '..', 'drivers', 'frac.hpp')):
    _p = _l.split('(')[0].split()
    if '{' in _l and _p:
        LABEL[_p[-1]] = 'Fraction: ' + _l[_l.index('{') + 1:_l.rindex('}')].replace('return ', '').strip(' ;') + \
            {'u_make_rv': '', 'v_gcd_int': ' (int)', 'v_lcm_int': ' (int)', 'v_lcm_ll': ' (long long)', 'v_gcd_ll': ' (long long)'}.get(_p[-1], '')


class GcdEngine(Engine):
    """a loop keeps the greatest common divisor of two of its variables, one of which shrinks"""

    def __init__(self, tu, m, n):
        super().__init__(tu)
        self.m, self.n = m, n
        self.loop_hooks = [self.hook]

    def prove_quick(self, pc, t):
        return super().prove_quick(list(pc) + lemmas(self.m, self.n, pc, t), t)

    def hook(self, E, n, st, iteration, head, post):
        ab = lambda x: ite(le(I0, x), x, neg(x))

        def measured(s):
            before = s.copy()
            iteration(s)
            now = []
            for loc in before.store:
                v, w = before.store[loc], s.store.get(loc)
                if isinstance(v, T.T) and v.sort == 'I' and w is not v:
                    now.append(lt(ab(w), ab(v)))
            good = [t for t in now if smt.prove(s.pc, t, rlimit=3_000_000)[0] == 'proved'] or now[-1:] or [FALSE]
            self.oblige('the loop gets closer to its end (termination)', s, good[0])
        self.hoare_loop(n, st, measured, self.cands)
        return True

    def cands(self, E, st0, s1, leaves):
        ints = [l for l in leaves if isinstance(self.getleaf(l, s1), T.T) and self.getleaf(l, s1).sort == 'I']
        out = []
        for a, b in itertools.combinations(ints, 2):
            out.append(('the greatest common divisor of %s and %s stays' % (a, b),
                        lambda s, a=a, b=b: eq(GCD(self.getleaf(a, s), self.getleaf(b, s)), GCD(self.m, self.n)) if self.getleaf(a, s) is not UNINIT and self.getleaf(b, s) is not UNINIT else None))
        return out


def check_gcd(S, tu):
    """gcd(m, n) is the mathematical one, by induction on |n| (recursive calls through the contract)"""
    for nm, ty in (('v_gcd', 'long'), ('v_gcd_int', 'int'), ('v_gcd_ll', 'long long')):
        fn = 'gcd<%s>' % ty
        with S.part(fn):
            m, n = iv('m'), iv('n')
            E = GcdEngine(tu, m, n)
            S.functions.append(fn)
            target = tu.find(nm)
            st = State()
            calls = []

            def rec(E_, st_, this, args, node, decl):
                if E_.depth <= 1:
                    return NotImplemented
                x, y = [E_.read(v, st_) if isinstance(v, LV) else E_.ev(v, st_) if isinstance(v, dict) else v for v in args]
                calls.append((list(st_.pc), x, y))
                return GCD(x, y)
            E.contracts['gcd'] = E.contracts['fun::gcd'] = rec
            a = [E.newloc('m', m, st), E.newloc('n', n, st)]
            for k, (s, r) in enumerate(run(E, target, None, a, st)):
                r = E.read(r, s) if isinstance(r, LV) else r
                for k2, (s2, (r2,)) in enumerate(pieces(s, [r])):
                    lab = ' (path %d.%d)' % (k, k2)
                    S.goal(fn, 'the result is the greatest common divisor' + lab, s2.pc + lemmas(m, n, s2.pc, r2), eq(r2, GCD(m, n)))
            ab = lambda x: ite(le(I0, x), x, neg(x))
            for k, (pc, x, y) in enumerate(calls):
                S.goal(fn, 'recursive call %d: the second argument gets smaller (termination)' % k, pc, land(lt(ab(y), ab(n))))
            S.absorb(E)
            S.safety(E, fn)


def lemmas(m, n, pc, r):
    """instances of the lemmas of lean/gcd.lean for the gcd terms at hand"""
    out = []
    ab = lambda x: ite(le(I0, x), x, neg(x))
    ts = {(m, n)}
    for t in list(pc) + [r]:
        for s in T.subterms(t):
            if s.op == 'app' and s.args[0] == 'GCD':
                ts.add((s.args[1], s.args[2]))
    for x, y in ts:
        out.append(implies(eq(x, I0), eq(GCD(x, y), ab(y))))       # gcd_zero_left
        out.append(implies(eq(y, I0), eq(GCD(x, y), ab(x))))
    for x, y in ts:                                                # gcd_sub_mul: gcd(n, m - k n) = gcd(m, n)
        for m0, n0 in ts:
            if (m0, n0) == (x, y):
                continue
            for p, q in ((x, y), (y, x)):
                for a, b in ((m0, n0), (n0, m0)):
                    if T.is_zero(sub(p, a)) and quotient(sub(b, q), a) is not None:
                        out.append(eq(GCD(x, y), GCD(m0, n0)))
    return out


def quotient(d, a):
    """d as a multiple of a"""
    out = {}
    for mono, c in T._poly(d).items():
        e = dict(mono)
        if a not in e or c.denominator != 1:
            return None
        e[a] -= 1
        out[tuple((x, k) for x, k in mono if x is not a) + (((a, e[a]),) if e[a] else ())] = c
    return T._from_poly({tuple(sorted(k, key=T._mkey) if False else k): v for k, v in out.items()}, 'I')
