"""P23, P24: signed-digit conversion.

The string under construction is abstracted by a left fold over the characters appended to it
(a homomorphism, so nothing about the string is lost that the properties mention):
  e    exponent of the last character's place (the next digit has weight 2^(e-1))
  r    the number minus the value of the digits so far
  pt   the point has been written     nz  the last digit is not zero
  bad  two adjacent non-zero digits, a second point, a point not at exponent 0, another character
  cnt  number of non-zero digits
A string that starts with the literal "0" starts at exponent 0 after it; one that starts empty
starts at the leading exponent K, the least one with 1.5 |x| <= 2^K (the only choice for which
the point can come out right).  Loop invariants are candidates by role; the inductive ones stay.
"""
import re
from kit import *
from terms import iff
from exec import mkstr
from specs.common import *

THIRD = T.Fraction(1, 3)


def e2(t):
    """2^t with constant parts of the exponent pulled out"""
    if t.op == 'ite':
        return ite(t.args[0], e2(t.args[1]), e2(t.args[2]))
    p = dict(T._poly(t))
    c = p.pop((), T.Fraction(0))
    k = num(T.Fraction(2) ** int(c))
    return mul(k, T.app('exp2', (T._from_poly(p, 'I'),), 'R')) if p else k


class CSD(loops.Engine):
    def __init__(self, tu, S, fn, x, budget=None, digits=False):
        super().__init__(tu)
        self.S, self.fn, self.x, self.budget, self.digits = S, fn, x, budget, digits
        self.loop_hooks.append(self.hook)
        self.K = iv('K')
        self.rounds, self.last_iter = [], None

    # ---- powers and logarithms
    def c_pow(self, args, st, n):
        b, e = [self.ev(a, st) for a in args]
        if b.op == 'num' and b.args[0] == 2 and (e.sort == 'I' or self.trunc(e, st).op != 'app'):
            return e2(self.trunc(e, st))
        return super().c_pow(args, st, n)

    def c_ldexp(self, args, st, n):
        b, e = [self.ev(a, st) for a in args]
        return mul(T.to_real(b), e2(e))
    c_scalbn = c_ldexp

    def c_exp2(self, args, st, n):
        return e2(self.trunc(self.ev(args[0], st), st))

    def c_log2(self, args, st, n):
        y = T.to_real(self.ev(args[0], st))
        self.oblige('logarithm of a positive number', st, lt(R0, y))
        return T.app('log2', (y,), 'R')

    def round_log(self, y, up, st):
        """k = ceil(log2 y) (or floor): 2^k is the first power of two not below (not above) y"""
        k = T.app('clog2' if up else 'flog2', (y,), 'I')
        p = e2(k)
        st.assume(le(y, p) if up else le(p, y), lt(p, mul(num(2), y)) if up else lt(y, mul(num(2), p)))
        st.assume(implies(le(k, I0), le(p, R1)), implies(le(I1, k), le(num(2), p)))
        if up and T.is_zero(sub(y, mul(num(T.Fraction(3, 2)), self.absx))):
            st.assume(eq(k, self.K))
        return T.to_real(k)

    def c_ceil(self, args, st, n):
        v = self.ev(args[0], st)
        if v.op == 'app' and v.args[0] == 'log2':
            return self.round_log(v.args[1], True, st)
        return super().c_ceil(args, st, n)

    def c_floor(self, args, st, n):
        v = self.ev(args[0], st)
        if v.op == 'app' and v.args[0] == 'log2':
            return self.round_log(v.args[1], False, st)
        return super().c_floor(args, st, n)

    # ---- strings
    def start(self, s, st):
        """a string object made from a literal"""
        x = self.x
        if s == '' or s == '0':
            e = I0 if s else self.K
            o = ObjV('Csd', dict(e=e, r=x, pt=FALSE, nz=FALSE, bad=FALSE, cnt=I0, lit=TRUE if s else FALSE))
            return o
        o = self.start('', st)
        for ch in s:
            o = self.push(o, num(ord(ch), 'I'), st)
        return o

    def lib_construct(self, t, args, st, n):
        b = re.sub(r'<.*$', '', t.replace('std::__cxx11::', 'std::')).split('::')[-1]
        if b in ('basic_string', 'string', 'basic_string_view', 'string_view'):
            v = self.ev(args[0], st) if args else mkstr('')
            while isinstance(v, (LV, RefV)):
                v = self.read(v, st) if isinstance(v, LV) else self.read(v.lv, st)
            if self.isstr(v):
                return v
            if not isinstance(v, StrV) or v.lit is None:
                raise Unsupported('string %r' % (v,))
            return self.start(v.lit, st)
        return super().lib_construct(t, args, st, n)

    def isstr(self, v):
        return isinstance(v, ObjV) and v.cls == 'Csd'

    def push(self, o, ch, st):
        f = dict(o.f)
        is_ = lambda c: eq(ch, num(ord(c), 'I'))
        if ch.op == 'num':
            c = chr(int(ch.args[0]))
        else:
            c = None
        if c == '.':
            f['bad'] = lor(f['bad'], f['pt'], ne(f['e'], I0))
            f['pt'] = TRUE
        elif c in ('0', '+', '-'):
            w = e2(sub(f['e'], I1))
            d = {'0': R0, '+': w, '-': neg(w)}[c]
            if self.digits:
                third = mul(num(THIRD), e2(f['e']))
                more = lt(f['cnt'], self.budget)
                r = f['r']
                if c == '0':
                    self.oblige('zero digit: it is that of the canonical expansion, or the budget is exhausted', st,
                                lor(lnot(more), land(le(r, third), le(neg(third), r))))
                elif c == '+':
                    self.oblige('digit +1: the budget allows it and it is that of the canonical expansion', st, land(more, le(third, r)))
                else:
                    self.oblige('digit -1: the budget allows it and it is that of the canonical expansion', st, land(more, le(r, neg(third))))
            f['r'] = sub(f['r'], d)
            f['e'] = sub(f['e'], I1)
            # digits at negative exponents come after the point
            f['bad'] = lor(f['bad'], land(f['nz'], TRUE if c != '0' else FALSE), iff(lt(f['e'], I0), lnot(f['pt'])))
            f['nz'] = FALSE if c == '0' else TRUE
            if c != '0':
                f['cnt'] = add(f['cnt'], I1)
        else:
            raise Unsupported('character %s' % ch)
        return ObjV('Csd', f)

    def append(self, lv, y, st):
        o = self.read(lv, st)
        if isinstance(y, T.T):
            for c in '0+-.':
                if y.op != 'num' and self.branch(eq(y, num(ord(c), 'I')), st):
                    y = num(ord(c), 'I')
                    break
            o = self.push(o, y, st)
        elif isinstance(y, StrV) and y.lit is not None:
            for ch in y.lit:
                o = self.push(o, num(ord(ch), 'I'), st)
        else:
            raise Unsupported('append %r' % (y,))
        self.write(lv, o, st)

    def lib_op(self, name, args, st, n):
        op = name.replace('operator', '')
        if op == '+=' and len(args) == 2:
            lv = self.lv(args[0], st)
            if self.isstr(self.read(lv, st)):
                y = self.ev(args[1], st)
                if isinstance(y, RefV):
                    y = self.read(y.lv, st)
                self.append(lv, y, st)
                return lv
        if op == '=' and len(args) == 2:
            lv = self.lv(args[0], st)
            if self.isstr(self.read(lv, st)):
                y = self.ev(args[1], st)
                while isinstance(y, (LV, RefV)):
                    y = self.read(y, st) if isinstance(y, LV) else self.read(y.lv, st)
                if isinstance(y, StrV) and y.lit is not None:
                    y = self.start(y.lit, st)
                if not self.isstr(y):
                    raise Unsupported('string %r' % (y,))
                self.write(lv, y, st)
                return lv
        return super().lib_op(name, args, st, n)

    def lib_method(self, name, base, args, st, n):
        if self.isstr(self.read(base, st)):
            if name in ('push_back', 'operator+='):
                self.append(base, self.ev(args[0], st), st)
                return base
            if name == 'append':
                if len(args) == 2:
                    k = self.ev(args[0], st)
                    if k.op != 'num' or k.args[0] != 1:
                        raise Unsupported('string append')
                    self.append(base, self.ev(args[1], st), st)
                else:
                    y = self.ev(args[0], st)
                    self.append(base, self.read(y.lv, st) if isinstance(y, RefV) else y, st)
                return base
            if name == 'reserve':
                return None
            raise Unsupported('string method ' + name)
        return super().lib_method(name, base, args, st, n)

    # ---- the loop
    def hook(self, E, n, st, iteration, head, post):
        if post:
            return False
        try:
            self.hoare_loop(n, st, iteration, self.cands)
        finally:
            if self.last_iter:
                self.rounds.append(self.last_iter)
        return True

    def iterate(self, st, iteration):
        r = super().iterate(st, iteration)
        self.last_iter = (st, r)
        return r

    def ghost(self, s):
        """the string under construction"""
        out = [lv for lv in s.store if self.isstr(s.store[lv])]
        if len(out) != 1:
            raise Unsupported('%d strings under construction' % len(out))
        return s.store[out[0]]

    def cands(self, E, st0, s1, leaves):
        out = []
        G = lambda s, k: self.ghost(s).f[k]
        self.ghost(s1)

        def c(label, f):
            out.append((label, f))
        two3, third = num(T.Fraction(2, 3)), num(THIRD)
        inb = lambda t, b: land(le(t, b), le(neg(b), t))
        more = lambda s: lt(G(s, 'cnt'), self.budget) if self.budget is not None else TRUE
        c('remainder within two thirds of the last place', lambda s: implies(more(s), inb(G(s, 'r'), mul(two3, e2(G(s, 'e'))))))
        c('remainder within a third of the last place after a non-zero digit', lambda s: implies(G(s, 'nz'), inb(G(s, 'r'), mul(third, e2(G(s, 'e'))))))
        c('well-formed so far', lambda s: lnot(G(s, 'bad')))
        c('point written exactly below exponent zero', lambda s: iff(G(s, 'pt'), lt(G(s, 'e'), I0)))
        c('non-negative count', lambda s: le(I0, G(s, 'cnt')))
        if self.budget is not None:
            c('budget', lambda s: le(G(s, 'cnt'), self.budget))
        else:
            c('not beyond the last place', lambda s: le(neg(self.places), G(s, 'e')))
        mine = {lv for lv in s1.store if self.isstr(s1.store[lv])}
        for lf in leaves:
            if lf.loc in mine:
                continue
            v = self.getleaf(lf, s1)
            if not isinstance(v, T.T):
                continue
            rd = lambda s, lf=lf: self.getleaf(lf, s)
            nm = str(lf)
            ok = lambda s, rd=rd: isinstance(rd(s), T.T)
            if v.sort == 'R':
                c('%s = remainder' % nm, lambda s, rd=rd: eq(rd(s), G(s, 'r')))
                c('%s = remainder within the budget' % nm, lambda s, rd=rd: implies(more(s), eq(rd(s), G(s, 'r'))))
                c('%s = remainder or zero' % nm, lambda s, rd=rd: lor(eq(rd(s), G(s, 'r')), land(lnot(more(s)), eq(rd(s), R0))))
                for q in (THIRD, T.Fraction(1), T.Fraction(1, 2), T.Fraction(2, 3), T.Fraction(1, 6), T.Fraction(4, 3)):
                    c('%s = %s 2^e' % (nm, q), lambda s, rd=rd, q=q: eq(rd(s), mul(num(q), e2(G(s, 'e')))))
            elif v.sort == 'I':
                for k in (0, 1, -1):
                    c('%s = exponent %+d' % (nm, k), lambda s, rd=rd, k=k: eq(rd(s), add(G(s, 'e'), num(k, 'I'))))
                if self.budget is not None:
                    c('%s = budget left' % nm, lambda s, rd=rd: eq(rd(s), sub(self.budget, G(s, 'cnt'))))
                    c('%s = budget used' % nm, lambda s, rd=rd: eq(rd(s), G(s, 'cnt')))
                else:
                    c('%s = places left' % nm, lambda s, rd=rd: eq(rd(s), add(G(s, 'e'), self.places)))
            elif v.sort == 'B':
                c('%s = last digit is non-zero' % nm, lambda s, rd=rd: iff(rd(s), G(s, 'nz')))
                c('%s = point written' % nm, lambda s, rd=rd: iff(rd(s), G(s, 'pt')))
        return [(l, f) for l, f in out]


def terminates(S, E, fn):
    """a ranking for the last loop, from the paths of one iteration under the invariant"""
    done = set()
    for st, k, s, kind in [(st, k, s, kind) for st, paths in E.rounds for k, (s, kind, _) in enumerate(paths)]:
        key = tuple(s.pc)
        if key in done:
            continue
        done.add(key)
        g0 = E.ghost(st)
        if kind != 'next':
            continue
        g1 = E.ghost(s)
        e0, e1 = g0.f['e'], g1.f['e']
        if E.budget is None:
            S.goal(fn, 'termination: every iteration brings the exponent closer to the last place (path %d)' % k, s.pc,
                   land(lt(e1, e0), le(neg(E.places), e1)))
        else:
            # down to exponent 0 the exponent decreases; after that either the budget shrinks or the
            # remainder stays, is not zero and is within a third of a place that halves every time
            third = mul(num(THIRD), e2(e0))
            S.goal(fn, 'termination: the exponent goes down to zero, then the budget shrinks or a fixed non-zero remainder meets a halving bound (path %d)' % k,
                   s.pc, lor(land(lt(I0, e0), lt(e1, e0)),
                             land(eq(e1, sub(e0, I1)),
                                  lor(lt(g0.f['cnt'], g1.f['cnt']),
                                      land(eq(g0.f['cnt'], g1.f['cnt']), eq(g0.f['r'], g1.f['r']), ne(g0.f['r'], R0), le(g0.f['r'], third), le(neg(third), g0.f['r']))))))


def check(S, which):
    tu = load(['csd.cpp'])
    fixed = which == 'P24'
    name = 'to_csdfixed' if fixed else 'to_csd'
    with S.part(name):
        convert(S, tu, name, fixed)
    if not fixed:
        with S.part('to_decimal'):
            decode(S, tu)


def convert(S, tu, fn, fixed):
    x, p = rv('x'), iv('budget' if fixed else 'places')
    E = CSD(tu, S, fn, x, budget=p if fixed else None, digits=fixed)
    E.places = p
    st = State()
    E.absx = ite(le(R0, x), x, neg(x))
    st.assume(le(I0, p))
    # the leading exponent K >= 0: the least one with 1.5 |x| <= 2^K
    K = E.K
    y = mul(num(T.Fraction(3, 2)), E.absx)
    st.assume(le(I0, K), le(y, e2(K)), lor(eq(K, I0), lt(e2(K), mul(num(2), y))))
    st.assume(implies(eq(K, I0), eq(e2(K), R1)))
    S.functions.append(fn)
    S.reach.append((fn, st.pc))
    for k, (s, v) in enumerate(run(E, tu.find(fn), None, [E.newloc('x', x, st), E.newloc('p', p, st)], st)):
        lab = ' (path %d)' % k
        v = E.read(v, s) if isinstance(v, LV) else v
        if not E.isstr(v):
            raise Unsupported('result %r' % (v,))
        g = v.f
        if smt.entails(s.pc, eq(x, R0)):
            S.goal(fn, 'zero is written as the single digit 0' + lab, s.pc, land(eq(g['e'], I0), g['lit'], eq(g['r'], R0), eq(g['cnt'], I0), lnot(g['bad']), lnot(g['pt'])))
            continue
        S.goal(fn, 'no two adjacent non-zero digits, one point, in its place' + lab, s.pc, lnot(g['bad']))
        if not fixed:
            S.goal(fn, 'exactly the requested number of digits after the point' + lab, s.pc, land(eq(g['e'], neg(p)), iff(g['pt'], lt(I0, p))))
            u = mul(num(T.Fraction(2, 3)), e2(neg(p)))
            S.goal(fn, 'the value is within two thirds of the last place' + lab, s.pc, land(le(g['r'], u), le(neg(u), g['r'])))
            # x a multiple of the last place, the value is one too: an integer multiple of the last place within 2/3 of it is 0
            m = iv('m')
            ulp = e2(neg(p))
            S.goal(fn, 'multiples of the last place are reproduced exactly' + lab,
                   s.pc + [lt(R0, ulp), eq(g['r'], mul(T.to_real(m), ulp)), implies(lt(I0, m), le(ulp, mul(T.to_real(m), ulp))),
                           implies(lt(m, I0), le(mul(T.to_real(m), ulp), neg(ulp)))], eq(g['r'], R0))
        else:
            S.goal(fn, 'at most the given number of non-zero digits' + lab, s.pc, le(g['cnt'], p))
            S.goal(fn, 'the whole part is complete' + lab, s.pc, land(le(g['e'], I0), iff(g['pt'], lt(g['e'], I0))))
            S.goal(fn, 'exact if the budget is not exhausted' + lab, s.pc, implies(lt(g['cnt'], p), eq(g['r'], R0)))
    S.absorb(E)
    S.safety(E, fn)
    terminates(S, E, fn)
    S.notes += ['%s: invariant kept: %s' % (fn, l) for l in getattr(E, 'invariants', [])]


class Decoder(CSD):
    """reading a digit string of '0', '+', '-' and at most one '.': VAL(k) the value of the first k
    characters as a whole number, LOC(k) the number of characters up to and including the point
    among them (0 if there is none)"""

    def __init__(self, tu, S, fn):
        super().__init__(tu, S, fn, R0)
        self.n = iv('length')
        self.val = lambda k: T.app('VAL', (k,), 'R')
        self.loc = lambda k: T.app('LOC', (k,), 'I')
        self.ch = lambda k: T.app('CHAR', (k,), 'I')

    def string(self):
        return StrV(self.n, self.ch)

    def after(self, k):
        return ite(eq(self.loc(k), I0), I0, sub(k, self.loc(k)))

    def define(self, k):
        """the definitions of VAL and LOC at k"""
        is_ = lambda c: eq(self.ch(k), num(ord(c), 'I'))
        v = mul(num(2), self.val(k))
        k1 = add(k, I1)
        return implies(land(le(I0, k), lt(k, self.n)), land(
            lor(*[is_(c) for c in '0+-.']),
            eq(self.val(k1), ite(is_('.'), self.val(k), ite(is_('+'), add(v, R1), ite(is_('-'), sub(v, R1), v)))),
            eq(self.loc(k1), ite(is_('.'), k1, self.loc(k))), implies(is_('.'), eq(self.loc(k), I0)),
            le(I0, self.loc(k)), le(self.loc(k), k), le(I0, self.loc(k1)), le(self.loc(k1), k1)))

    def at_end(self):
        l = self.loc(self.n)
        return land(le(I0, l), le(l, self.n))

    def lib_method(self, name, base, args, st, n):
        v = self.read(base, st)
        if isinstance(v, StrV) and name == 'find' and args:
            c = self.ev(args[0], st)
            if c.op == 'num' and chr(int(c.args[0])) == '.':
                return ite(eq(self.loc(self.n), I0), num(2**64 - 1, 'I'), sub(self.loc(self.n), I1))
        return super().lib_method(name, base, args, st, n)

    def cands(self, E, st0, s1, leaves):
        out = []
        ints = [lf for lf in leaves if isinstance(self.getleaf(lf, s1), T.T) and self.getleaf(lf, s1).sort == 'I']
        rd = lambda lf: (lambda s: self.getleaf(lf, s))
        for p in ints:
            s1.assume(self.define(rd(p)(s1)))
        for p in ints:
            P = rd(p)
            out.append(('%s within the string' % p, lambda s, P=P: land(le(I0, P(s)), le(P(s), self.n))))
            for q in ints:
                if q is not p:
                    out.append(('%s = %s' % (p, q), lambda s, P=P, Q=rd(q): eq(P(s), Q(s))))
            for lf in leaves:
                v = self.getleaf(lf, s1)
                if not isinstance(v, T.T) or lf is p:
                    continue
                V = rd(lf)
                sc = lambda s, P=P: e2(self.after(P(s)))
                if v.sort == 'R':
                    out.append(('%s = value of the first %s characters' % (lf, p), lambda s, V=V, P=P: eq(V(s), self.val(P(s)))))
                    out.append(('%s = scale after %s characters' % (lf, p), lambda s, V=V, sc=sc: eq(V(s), sc(s))))
                    out.append(('%s = reciprocal scale after %s characters' % (lf, p), lambda s, V=V, sc=sc: eq(mul(V(s), sc(s)), R1)))
                    out.append(('%s = scaled value of the first %s characters' % (lf, p), lambda s, V=V, P=P, sc=sc: eq(mul(V(s), sc(s)), self.val(P(s)))))
                elif v.sort == 'I':
                    out.append(('%s = place of the point in the first %s characters' % (lf, p), lambda s, V=V, P=P: eq(V(s), self.loc(P(s)))))
                    out.append(('%s = digits after the point in the first %s characters' % (lf, p), lambda s, V=V, P=P: eq(V(s), self.after(P(s)))))
                elif v.sort == 'B':
                    out.append(('%s = point among the first %s characters' % (lf, p), lambda s, V=V, P=P: iff(V(s), ne(self.loc(P(s)), I0))))
        return out

    def ghost(self, s):
        return None


def decode(S, tu):
    fn = 'to_decimal'
    E = Decoder(tu, S, fn)
    st = State()
    st.assume(le(I0, E.n), eq(E.val(I0), R0), eq(E.loc(I0), I0), E.at_end())
    S.functions.append(fn)
    S.reach.append((fn, st.pc))
    for k, (s, v) in enumerate(run(E, tu.find(fn), None, [E.newloc('s', E.string(), st)], st)):
        d = sub(E.n, E.loc(E.n))
        r = ite(eq(E.loc(E.n), I0), E.val(E.n), div(E.val(E.n), e2(d)))
        S.goal(fn, 'the value is the positional value of the digits (path %d)' % k, s.pc, eq(v, r))
    S.absorb(E)
    S.safety(E, fn)
    # every turn consumes a character: some position leaf strictly increases below the length
    S.notes += ['%s: invariant kept: %s' % (fn, l) for l in getattr(E, 'invariants', [])]
    done = False
    for st1, paths in E.rounds[-1:]:
        nx = [s for s, kind, _ in paths if kind == 'next']
        for lf in [lv for lv in st1.store if isinstance(st1.store[lv], T.T) and st1.store[lv].sort == 'I']:
            a = st1.store[lf]
            if nx and all(smt.entails(s.pc, land(lt(a, s.store[lf]), le(s.store[lf], E.n))) for s in nx):
                done = True
    S.fact(fn, 'termination: a position advances to the end of the string', done)
