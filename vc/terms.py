"""Terms: hash-consed, arithmetic kept in canonical polynomial form.

A term is an interned object with `op`, `args`, `sort` ('I','R','B' or an
uninterpreted sort name).  Arithmetic terms (sorts I and R) are either an atom
or a polynomial

    op='poly', args = tuple of (monomial, coefficient)      (sorted)
    monomial = tuple of (atom, exponent)                    (sorted, exponents != 0)

Exponents may be negative (division by an atom); division by a proper sum is
the atom inv(p) with p monic.  The integer->real conversion is the identity on
the mathematical value, so the atoms of a real polynomial may have sort I.

Finite sums are atoms  op='sum', args=(ranges, body)  where ranges is a tuple
of (boundvar, lo, hi) (hi exclusive) and body a single monomial (as a term with
coefficient 1).  Sums are linear in their canonical form: constants and factors
that do not mention a bound variable are pulled out, nested sums are merged,
and bound variables are renamed to a canonical order, so that two sums that
are equal by linearity, renaming, or exchange of independent summations are
the same object.
"""
from fractions import Fraction
from functools import lru_cache
import itertools

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'uid', 'fv', 'key')

    def __repr__(self):
        return show(self)

    # convenience operators (terms on either side, numbers lifted)
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return div(a, lift(b, a.sort))
    def __rtruediv__(a, b): return div(lift(b, a.sort), a)
    def __neg__(a): return neg(a)
    def __pow__(a, k): return power(a, k)


def lift(x, sort='R'):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x, sort if sort in ('I', 'R') else 'R')


def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.uid = next(_counter)
        t.fv = _fv(op, args)
        t.key = None
        _table[k] = t
    return t


_EMPTY = frozenset()


def _fv(op, args):
    if op == 'var':
        return frozenset([args[0]])
    if op == 'num' or op == 'bool':
        return _EMPTY
    if op == 'poly':
        s = _EMPTY
        for m, c in args:
            for a, e in m:
                s = s | a.fv
        return s
    if op == 'sum':
        ranges, body = args
        s = body.fv
        for v, lo, hi in reversed(ranges):
            s = (s - {v}) | lo.fv | hi.fv
        return s
    if op in ('forall', 'exists'):
        vs, body = args
        return body.fv - frozenset(v.args[0] for v in vs)
    s = _EMPTY
    for a in args:
        if isinstance(a, T):
            s = s | a.fv
    return s


def skey(t):
    """A structural key for a stable ordering (independent of creation order)."""
    if t.key is None:
        if t.op == 'poly':
            t.key = ('p',) + tuple((tuple((skey(a), e) for a, e in m), str(c)) for m, c in t.args)
        elif t.op == 'sum':
            t.key = ('s',) + tuple((v, skey(l), skey(h)) for v, l, h in t.args[0]) + (skey(t.args[1]),)
        else:
            t.key = (t.op,) + tuple(skey(a) if isinstance(a, T) else
                                    (tuple(map(skey, a)) if isinstance(a, tuple) else str(a)) for a in t.args)
        t.key = repr(t.key)
    return t.key


# ---------------------------------------------------------------- arithmetic
def num(c, sort='R'):
    c = Fraction(c)
    return mk('num', (c,), sort)


def var(name, sort='R'):
    return mk('var', (name, sort), sort)


SYMMETRIC = set()          # uninterpreted functions with the last two arguments interchangeable


def app(f, args, sort='R'):
    args = tuple(args)
    if f in SYMMETRIC and len(args) >= 2 and skey(args[-1]) < skey(args[-2]):
        args = args[:-2] + (args[-1], args[-2])
    return mk('app', (f,) + args, sort)


def _poly(t):
    """dict monomial -> coefficient"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


_mono_key_cache = {}


def _mkey(m):
    k = _mono_key_cache.get(m)
    if k is None:
        k = tuple((skey(a), e) for a, e in m)
        _mono_key_cache[m] = k
    return k


def _from_poly(d, sort):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return num(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))), sort)


def _s2(a, b):
    return 'R' if 'R' in (a.sort, b.sort) else 'I'


def to_real(t):
    if t.sort == 'R':
        return t
    if t.op == 'num':
        return num(t.args[0], 'R')
    return _from_poly(_poly(t), 'R')


def add(*ts):
    d = {}
    s = 'I'
    for t in ts:
        if t.sort == 'R':
            s = 'R'
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _from_poly(d, s)


def neg(t):
    return _from_poly({m: -c for m, c in _poly(t).items()}, t.sort)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # sqrt(p)^2 = p   (sqrt's argument is separately proved non-negative)
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'app' and a.args[0] == 'sqrt' and abs(e) >= 2:
            q, r = divmod(abs(e), 2)
            p = power(a.args[1], q)
            if e < 0:
                p = div(num(1), p)
            extra = p if extra is None else mul(extra, p)
            if r:
                out.append((a, 1 if e > 0 else -1))
            continue
        if a.op == 'inv' and False:
            pass
        out.append((a, e))
    m = tuple(sorted(out, key=lambda ae: (skey(ae[0]), ae[1])))
    return m, extra


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    s = _s2(a, b)
    pa, pb = _poly(a), _poly(b)
    d = {}
    extra_terms = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, ex = _mulmono(m1, m2)
            if ex is not None:
                extra_terms.append(mul(_from_poly({m: c1 * c2}, s), ex))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _from_poly(d, s)
    for e in extra_terms:
        r = add(r, e)
    return r


def power(t, k):
    if k < 0:
        return div(num(1, t.sort), power(t, -k))
    r = num(1, t.sort)
    for _ in range(k):
        r = mul(r, t)
    return r


def inv(t):
    """1/t  (real)"""
    p = _poly(t)
    if not p:
        return mk('app', ('div0',), 'R')     # division by literal zero: arbitrary
    if len(p) == 1:
        (m, c), = p.items()
        out = []
        for a, e in m:
            if a.op == 'inv':
                pass
            out.append((a, -e))
        r = num(1 / c)
        q = {tuple(sorted(out, key=lambda ae: (skey(ae[0]), ae[1]))): Fraction(1)}
        # inv(inv(p)) = p
        res = r
        for a, e in out:
            if a.op == 'inv' and e < 0:
                for _ in range(-e):
                    res = mul(res, a.args[0])
            else:
                res = mul(res, _from_poly({((a, e),): Fraction(1)}, 'R'))
        return res
    # pull out the common monomial content and the leading coefficient
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[-1][1]
    common = None
    for m, c in items:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items() if a in dm} | \
                     {a: min(0, e) for a, e in common.items() if a not in dm and e < 0} | \
                     {a: e for a, e in dm.items() if a not in common and e < 0}
            common = {a: e for a, e in common.items() if e}
    cm = tuple(sorted(common.items(), key=lambda ae: (skey(ae[0]), ae[1])))
    icm = tuple((a, -e) for a, e in cm)
    base = {}
    for m, c in items:
        mm, ex = _mulmono(m, icm)
        base[mm] = base.get(mm, 0) + c / lead
    core = _from_poly(base, 'R')
    if len(base) == 1:
        r = inv(core)
    else:
        r = mk('inv', (core,), 'R')
    r = mul(num(1 / lead), r)
    if icm:
        r = mul(r, _from_poly({icm: Fraction(1)}, 'R'))
    return r


def div(a, b):
    a, b = to_real(a), to_real(b)
    if a is b and a.op != 'num':
        return num(1)
    return mul(a, inv(b))


POSITIVE = set()           # atoms known to be positive


def pos_content(p):
    """largest product of powers of POSITIVE atoms dividing the polynomial dict p"""
    out = {}
    if not POSITIVE or not p:
        return out
    ms = [dict(m) for m in p]
    for a in POSITIVE:
        es = [m.get(a, 0) for m in ms]
        lo = min(es)
        if lo:
            out[a] = lo
    return out


def sqrt(t):
    t = to_real(t)
    if POSITIVE and t.op in ('poly',):
        p = _poly(t)
        f = {a: (e - (e % 2)) for a, e in pos_content(p).items()}
        f = {a: e for a, e in f.items() if e}
        if f:
            out = num(1)
            q = t
            for a, e in f.items():
                h = _from_poly({((a, e // 2),): Fraction(1)}, 'R')
                q = mul(q, _from_poly({((a, -e),): Fraction(1)}, 'R'))
                out = mul(out, h)
            return mul(out, sqrt(q))
    if t.op == 'num':
        c = t.args[0]
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fraction(n, d))
    return app('sqrt', (t,), 'R')


# ---------------------------------------------------------------- sums
_bv = itertools.count()


def fresh_bound(prefix='k'):
    return var('$%s%d' % (prefix, next(_bv)), 'I')


def rsum(k, lo, hi, body):
    """sum of body for k in [lo, hi); the caller guarantees lo <= hi."""
    kn = k.args[0]
    body = to_real(body)
    n = sub(hi, lo)
    if n.op == 'num':
        r = num(0)
        c = int(n.args[0])
        if c <= 8:
            for i in range(max(c, 0)):
                r = add(r, subst(body, {k: add(lo, num(i, 'I'))}))
            return r
    if kn not in body.fv:
        return mul(body, to_real(n))
    res = num(0)
    for m, c in _poly(body).items():
        dep, ind = [], []
        for a, e in m:
            (dep if kn in a.fv else ind).append((a, e))
        coef = _from_poly({tuple(ind): c}, 'R')
        if not dep:
            res = add(res, mul(coef, to_real(n)))
            continue
        res = add(res, mul(coef, _mksum(((kn, lo, hi),), tuple(dep))))
    return res


_bl = {}


def blevel(t):
    """nesting level of the sums bound inside t"""
    r = _bl.get(t)
    if r is None:
        r = 0
        if t.op == 'poly':
            for m, c in t.args:
                for a, e in m:
                    r = max(r, blevel(a))
        elif t.op == 'sum':
            r = 1 + blevel(t.args[1])
            for v, lo, hi in t.args[0]:
                r = max(r, 1 + blevel(lo), 1 + blevel(hi))
        elif t.op in ('forall', 'exists'):
            r = blevel(t.args[1])
        else:
            for a in t.args:
                if isinstance(a, T):
                    r = max(r, blevel(a))
        _bl[t] = r
    return r


def _mksum(ranges, mono):
    """sum over ranges of a monomial, every factor of which mentions a bound var"""
    # merge sums inside (exponent 1 only)
    ranges = list(ranges)
    fac = []
    for a, e in mono:
        if a.op == 'sum' and e >= 1:
            for _ in range(e):
                rs, b = a.args
                ren = {}
                nr = []
                for v, lo, hi in rs:
                    nv = fresh_bound()
                    nr.append((nv.args[0], subst(lo, ren), subst(hi, ren)))
                    ren[var(v, 'I')] = nv
                b2 = subst(b, ren)
                ranges += nr
                pb = _poly(b2)
                assert len(pb) == 1
                (mm, cc), = pb.items()
                assert cc == 1
                fac += list(mm)
        else:
            fac.append((a, e))
    m = ()
    m, ex = _mulmono((), tuple(fac))
    mm = {}
    for a, e in fac:
        mm[a] = mm.get(a, 0) + e
    m = tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda ae: (skey(ae[0]), ae[1])))
    # canonical order of bound variables
    L = 1 + max([blevel(a) for a, e in m] + [max(blevel(lo), blevel(hi)) for _, lo, hi in ranges])
    names = [r[0] for r in ranges]
    best = None
    idx = list(range(len(ranges)))
    if len(idx) > 5:
        perms = [tuple(idx)]
    else:
        perms = itertools.permutations(idx)
    for p in perms:
        seen = set()
        ok = True
        for i in p:
            v, lo, hi = ranges[i]
            deps = (lo.fv | hi.fv) & set(names)
            if not deps <= seen:
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        ren = {var(ranges[i][0], 'I'): var('#%d_%d' % (L, j), 'I') for j, i in enumerate(p)}
        nr = tuple(('#%d_%d' % (L, j), subst(ranges[i][1], ren), subst(ranges[i][2], ren)) for j, i in enumerate(p))
        nm = subst(_from_poly({m: Fraction(1)}, 'R'), ren)
        key = (tuple((skey(l), skey(h)) for _, l, h in nr), skey(nm))
        if best is None or key < best[0]:
            best = (key, nr, nm)
    _, nr, nm = best
    # a sum of integers is an integer
    return mk('sum', (nr, nm), 'I' if all(a.sort == 'I' and e > 0 for a, e in m) else 'R')


# ---------------------------------------------------------------- booleans
TRUE = mk('bool', (True,), 'B')
FALSE = mk('bool', (False,), 'B')


def land(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'and':
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    if not out:
        return TRUE
    for x in out:
        if lnot(x) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def lor(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'or':
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    if not out:
        return FALSE
    for x in out:
        if lnot(x) in out:
            return TRUE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def lnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'lt' and True:
        a, b = t.args
        return mk('le', (b, a), 'B')
    if t.op == 'le':
        a, b = t.args
        return mk('lt', (b, a), 'B')
    return mk('not', (t,), 'B')


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    return mk('iff', (a, b) if skey(a) <= skey(b) else (b, a), 'B')


def _cmp(op, a, b):
    if a.sort == 'I' and b.sort == 'I':
        d = sub(a, b)
        if d.op == 'num':
            c = d.args[0]
            return TRUE if (c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0) else FALSE
    else:
        a, b = to_real(a), to_real(b)
        d = sub(a, b)
        if d.op == 'num':
            c = d.args[0]
            return TRUE if (c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0) else FALSE
    return None


def lt(a, b):
    r = _cmp('lt', a, b)
    return r if r is not None else mk('lt', (a, b), 'B')


def le(a, b):
    r = _cmp('le', a, b)
    return r if r is not None else mk('le', (a, b), 'B')


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        return iff(a, b)
    if a.sort in ('I', 'R') and b.sort in ('I', 'R'):
        r = _cmp('eq', a, b)
        if r is not None:
            return r
        if (a.sort == 'R') != (b.sort == 'R'):
            a, b = to_real(a), to_real(b)
    for x, y in ((a, b), (b, a)):
        if y.op == 'num' and x.op == 'ite' and x.args[1].op == 'num' and x.args[2].op == 'num':
            p, q = x.args[1].args[0] == y.args[0], x.args[2].args[0] == y.args[0]
            return TRUE if p and q else x.args[0] if p else lnot(x.args[0]) if q else FALSE
    return mk('eq', (a, b) if skey(a) <= skey(b) else (b, a), 'B')


def ne(a, b): return lnot(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return land(implies(c, a), implies(lnot(c), b))
    if a.sort != b.sort and a.sort in 'IR' and b.sort in 'IR':
        a, b = to_real(a), to_real(b)
        if a is b:
            return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)


def forall(vs, body):
    vs = tuple(v for v in vs if v.args[0] in body.fv)
    if not vs or body.op == 'bool':
        return body
    return mk('forall', (vs, body), 'B')


def exists(vs, body):
    vs = tuple(v for v in vs if v.args[0] in body.fv)
    if not vs or body.op == 'bool':
        return body
    return mk('exists', (vs, body), 'B')


# ---------------------------------------------------------------- traversal
def rebuild(t, f):
    """Rebuild t with f applied to the immediate subterms (canonicalising)."""
    op = t.op
    if op in ('var', 'num', 'bool'):
        return t
    if op == 'poly':
        r = num(0, t.sort)
        for m, c in t.args:
            p = num(c, t.sort)
            for a, e in m:
                fa = f(a)
                if t.sort == 'R':
                    fa = to_real(fa)
                p = mul(p, power(fa, e) if e > 0 else div(num(1), power(fa, -e)))
            r = add(r, p)
        return r
    if op == 'inv':
        return inv(to_real(f(t.args[0])))
    if op == 'app':
        if t.args[0] == 'sqrt':
            return sqrt(f(t.args[1]))
        fn = INTERP.get(t.args[0])
        na = tuple(f(a) for a in t.args[1:])
        if fn:
            return fn(*na)
        return app(t.args[0], na, t.sort)
    if op == 'sum':
        ranges, body = t.args
        # rename bound variables apart, then rebuild from the inside out
        ren = {}
        nr = []
        for v, lo, hi in ranges:
            nv = fresh_bound()
            nr.append((nv, f(subst(lo, ren)) if ren else f(lo), f(subst(hi, ren)) if ren else f(hi)))
            ren[var(v, 'I')] = nv
        b = f(subst(body, ren))
        for nv, lo, hi in reversed(nr):
            b = rsum(nv, lo, hi, b)
        if t.sort == 'I' and b.sort == 'R':
            p = _poly(b)
            if all(a.sort == 'I' for mm in p for a, e in mm):
                b = _from_poly(p, 'I')
        return b
    if op == 'and':
        return land(*[f(a) for a in t.args])
    if op == 'or':
        return lor(*[f(a) for a in t.args])
    if op == 'not':
        return lnot(f(t.args[0]))
    if op == 'iff':
        return iff(f(t.args[0]), f(t.args[1]))
    if op == 'lt':
        return lt(f(t.args[0]), f(t.args[1]))
    if op == 'le':
        return le(f(t.args[0]), f(t.args[1]))
    if op == 'eq':
        return eq(f(t.args[0]), f(t.args[1]))
    if op == 'ite':
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op in ('forall', 'exists'):
        vs, body = t.args
        nv = tuple(var('$q%d' % next(_bv), v.sort) for v in vs)
        b = f(subst(body, dict(zip(vs, nv))))
        return (forall if op == 'forall' else exists)(nv, b)
    raise ValueError(op)


INTERP = {}      # name -> smart constructor for interpreted applications


def powi(b, k):
    """b^k for a whole number k >= 0; a constant part of k is multiplied out"""
    p = dict(_poly(k))
    c = int(p.pop((), 0))
    if c < 0:
        return app('powi', (b, k), 'R')
    base = app('powi', (b, _from_poly(p, 'I')), 'R') if p else num(1)
    return mul(base, power(to_real(b), c)) if c else base


INTERP['powi'] = powi


def subst(t, m):
    """simultaneous substitution of variables (or applications) by terms"""
    if not m:
        return t
    names = frozenset(k.args[0] for k in m if k.op == 'var')
    nonvar = any(k.op != 'var' for k in m)
    cache = {}

    def go(x):
        if x in m:
            return m[x]
        if not nonvar and not (x.fv & names):
            return x
        r = cache.get(x)
        if r is None:
            if x.op == 'sum' and not nonvar:
                r = _subst_sum(x, m, go)
            else:
                r = rebuild(x, go)
            cache[x] = r
        return r
    return go(t)


def _subst_sum(x, m, go):
    return rebuild(x, go)


def subterms(t, acc=None):
    if acc is None:
        acc = {}
    if t in acc:
        return acc
    acc[t] = True
    if t.op == 'poly':
        for mm, c in t.args:
            for a, e in mm:
                subterms(a, acc)
    elif t.op == 'sum':
        for v, lo, hi in t.args[0]:
            subterms(lo, acc)
            subterms(hi, acc)
        subterms(t.args[1], acc)
    elif t.op in ('forall', 'exists'):
        subterms(t.args[1], acc)
    else:
        for a in t.args:
            if isinstance(a, T):
                subterms(a, acc)
    return acc


def has_app(t, pred):
    for s in subterms(t):
        if s.op == 'app' and pred(s.args[0]):
            return True
    return False


# ---------------------------------------------------------------- rational normal form
def ratform(t):
    """(numerator, denominator) without inv atoms or negative exponents of sums;
    the denominator is the least common product of the factors that occur"""
    terms = []
    mx = {}
    for m, c in _poly(to_real(t)).items():
        n = num(c)
        den = {}
        for a, e in m:
            if a.op == 'inv':
                pn, pd = ratform(a.args[0])
                if e > 0:
                    den[pn] = den.get(pn, 0) + e
                    n = mul(n, power(pd, e))
                else:
                    n = mul(n, power(pn, -e))
                    den[pd] = den.get(pd, 0) - e
            elif e > 0:
                n = mul(n, _from_poly({((a, e),): Fraction(1)}, 'R'))
            else:
                x = _from_poly({((a, 1),): Fraction(1)}, 'R')
                den[x] = den.get(x, 0) - e
        terms.append((n, den))
        for k, e in den.items():
            mx[k] = max(mx.get(k, 0), e)
    groups = {}
    for n, den in terms:
        k = tuple(sorted(((skey(d), e) for d, e in den.items())))
        if k in groups:
            groups[k] = (add(groups[k][0], n), den)
        else:
            groups[k] = (n, den)
    N = num(0)
    for n, den in groups.values():
        for k, e in mx.items():
            r = e - den.get(k, 0)
            if r:
                n = mul(n, power(k, r))
        N = add(N, n)
    D = num(1)
    for k, e in mx.items():
        D = mul(D, power(k, e))
    return N, D


def is_zero(t):
    """t == 0 as a rational function (where its denominators do not vanish)"""
    t = to_real(t)
    if t.op == 'num':
        return t.args[0] == 0
    n, d = ratform(t)
    return n.op == 'num' and n.args[0] == 0


def coeff_split(t, atoms):
    """write t as sum of c_j * atomproduct_j where the products only involve
    atoms satisfying the predicate; returns dict product(monomial)->coefficient term"""
    out = {}
    for m, c in _poly(to_real(t)).items():
        ins = tuple((a, e) for a, e in m if atoms(a))
        oth = tuple((a, e) for a, e in m if not atoms(a))
        out[ins] = add(out.get(ins, num(0)), _from_poly({oth: c}, 'R'))
    return out


# ---------------------------------------------------------------- printing
def show(t):
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'bool':
        return str(t.args[0]).lower()
    if op == 'poly':
        s = []
        for m, c in t.args:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for a, e in m:
                x = show(a)
                if a.op in ('ite', 'poly'):
                    x = '(' + x + ')'
                f.append(x if e == 1 else '%s^%d' % (x, e))
            s.append('*'.join(f))
        return '(' + ' + '.join(s) + ')' if len(s) > 1 else s[0]
    if op == 'inv':
        return '1/' + show(t.args[0])
    if op == 'app':
        return t.args[0] + '(' + ', '.join(show(a) for a in t.args[1:]) + ')'
    if op == 'sum':
        return 'SUM[' + ', '.join('%s:%s..%s' % (v, show(l), show(h)) for v, l, h in t.args[0]) + '](' + show(t.args[1]) + ')'
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(a) for a in t.args) + ')'
    if op == 'not':
        return '!' + show(t.args[0])
    if op in ('lt', 'le', 'eq', 'iff'):
        return '(%s %s %s)' % (show(t.args[0]), {'lt': '<', 'le': '<=', 'eq': '=', 'iff': '<=>'}[op], show(t.args[1]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(a) for a in t.args)
    if op in ('forall', 'exists'):
        return '%s %s. %s' % (op, ' '.join(v.args[0] for v in t.args[0]), show(t.args[1]))
    return op
