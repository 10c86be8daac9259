"""Specification kit: symbolic inputs, running functions of /repo, obligations."""
import time, sys, os
import terms as T
from terms import TRUE, FALSE, num, var, land, lor, lnot, implies, le, lt, eq, ne, gt, ge, ite, add, sub, mul, div, neg
import smt, front, loops
from front import Unsupported
from values import *

I0, I1, I2 = num(0, 'I'), num(1, 'I'), num(2, 'I')
R0, R1 = num(0), num(1)


def iv(name):
    return var(name, 'I')


def rv(name):
    return var(name, 'R')


def bv(name):
    return var(name, 'B')


def arr(name, *shape):
    return ArrV(shape, lambda ix: T.app(name, ix, 'R'))


def symarr(name, n):
    T.SYMMETRIC.add(name)
    return ArrV((n, n), lambda ix: T.app(name, ix, 'R'))


def inr(i, n):
    return land(le(I0, i), lt(i, n))


def ssum(n, f, lo=I0):
    k = T.fresh_bound()
    return T.rsum(k, lo, n, f(k))


class Goal:
    def __init__(self, prop, fn, name, pc, goal, hints=(), kind='post'):
        self.prop, self.fn, self.name = prop, fn, name
        self.pc, self.goal, self.hints = list(pc), goal, tuple(hints)
        self.status, self.backend, self.time = None, '', 0.0
        self.kind = kind

    def ident(self):
        return '%s: %s' % (self.fn, self.name)


class Spec:
    """collects the obligations of one property"""

    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.goals = []
        self.unsupported = []      # (function, reason): outside the verifier's reach
        self.bounded = []
        self.functions = []
        self.trusted = set()
        self.inlined = set()
        self.assumptions = []
        self.notes = []
        self.reach = []            # non-vacuity checks: (name, pc)
        self.lean = []
        self.rlimit = 6_000_000 if tier == 'quick' else 40_000_000
        self.loops = []
        self.on_goal = lambda g: None
        self.on_unsupported = lambda fn, why: None

    def part(self, name):
        """a part of the specification: what lies outside the verifier's reach is recorded, not fatal"""
        return Part(self, name)

    def unsupported_add(self, fn, why):
        self.unsupported.append((fn, why))
        self.on_unsupported(fn, why)

    def goal(self, fn, name, pc, formula, hints=(), kind='post', rlimit=None, tactics=('smt', 'nlsat')):
        g = Goal(self.prop, fn, name, pc, formula, hints, kind)
        t0 = time.time()
        if any(p.op == 'forall' for p in g.pc):
            g.pc += [x for x in instances(None, g.pc, g.goal) if x not in g.pc]
        try:
            r = smt.prove(g.pc, g.goal, rlimit=rlimit or self.rlimit, hints=g.hints, tactics=tactics)
        except Exception as e:
            r = ('unknown', 'translation: %r' % e)
        g.time = time.time() - t0
        g.status, g.backend = r
        self.goals.append(g)
        self.on_goal(g)
        return g.status == 'proved'

    def fact(self, fn, name, ok, detail=''):
        """an obligation decided by normal form (structural equality)"""
        g = Goal(self.prop, fn, name, [], TRUE if ok else FALSE)
        g.status, g.backend = ('proved', 'normal form') if ok else ('unknown', detail or 'normal forms differ')
        g.detail = detail
        self.goals.append(g)
        self.on_goal(g)
        return ok

    def zero(self, fn, name, t, pc=()):
        """t == 0, by rational normal form, else by the solver"""
        try:
            if T.is_zero(t):
                return self.fact(fn, name, True)
            if any(x.op == 'sum' for x in T.subterms(t)):
                t = shift0(t)
                if T.is_zero(t):
                    return self.fact(fn, name, True)
        except Exception:
            pass
        return self.goal(fn, name, pc, eq(T.to_real(t), R0))

    def safety(self, E, fn, rewrite=None):
        seen = set()
        for o in E.obligs:
            pc, g = o.pc, o.goal
            if (o.name, frozenset(pc), g) in seen:
                continue
            seen.add((o.name, frozenset(pc), g))
            if not smt.entails(pc, g) and any(p.op == 'forall' for p in pc):
                st = State()
                st.pc = list(pc)
                g = unfold_all(E, g, st, 2)
                pc = list(pc) + instances(E, pc, o.goal) + instances(E, pc, g)
            if rewrite:
                pc, g = [rewrite(p) for p in pc], rewrite(g)
            self.goal(fn, 'safety: ' + o.name, pc, g, kind='safety')
        self.safety_ok = getattr(self, 'safety_ok', 0) + E.bounds_ok
        E.obligs, E.bounds_ok = [], 0

    def absorb(self, E, fn=None):
        self.trusted |= E.trusted
        self.inlined |= E.inlined
        self.loops += [l for l in E.loops_done if l not in self.loops]
        if fn:
            self.functions.append(fn)


class Part:
    def __init__(self, S, name):
        self.S, self.name = S, name

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        import traceback
        why = str(ev) if issubclass(et, Unsupported) else 'verifier failure %s: %s\n%s' % (et.__name__, ev, ''.join(traceback.format_tb(tb)[-4:]))
        self.S.unsupported_add(self.name, why)
        return True


_tus = {}


def load(files, driver=None):
    k = (tuple(files), driver)
    if k not in _tus:
        _tus[k] = front.TU(list(files), driver)
    return _tus[k]


def run(E, fn, this, args, st0):
    """all paths of a call: [(state, value)]"""
    E.frame = None

    def thunk(s):
        return E.inline(fn, this, args, s)
    out = []
    for s, kind, v in E.explore(st0, thunk):
        out.append((s, v))
    E.frame = None
    return out


def run1(E, fn, this, args, st0):
    r = run(E, fn, this, args, st0)
    if len(r) != 1:
        raise Unsupported('%d paths in %s' % (len(r), fn.get('_qual')))
    return r[0]


def unfold_all(E, t, st, depth=6):
    """replace single-assignment symbols by their defining values"""
    for _ in range(depth):
        m = {}
        for s in T.subterms(t):
            if s.op == 'app' and s.args[0] in E.fdefs and not any(v.startswith('$') or v.startswith('#') for v in s.fv):
                u = E.unfold(s, st)
                if u is not None:
                    m[s] = u
        if not m:
            return t
        t2 = T.subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def value_at(E, t, st):
    return unfold_all(E, loops.simp(t, st.pc), st)


def find_cls(tu, name):
    for c in tu.classes.values():
        if c.get('name') == name and c.get('_fields'):
            return c
    raise Unsupported('class %s not found' % name)


def methods(tu, cls, name, nparams=None):
    out = []
    for f in tu.funcs:
        if f.get('name') == name and front.body_of(f) is not None and not front.is_pattern(f):
            c = f.get('_cls')
            if c is not None and c.get('id') == cls.get('id') or f.get('_qual') == cls.get('name') + '::' + name:
                if nparams is None or len(front.params_of(f)) == nparams:
                    if not any(g['id'] == f['id'] for g in out):
                        out.append(f)
    return out


def method(tu, cls, name, nparams=None, pred=None):
    r = [f for f in methods(tu, cls, name, nparams) if pred is None or pred(f)]
    if not r:
        raise Unsupported('no definition of %s::%s' % (cls.get('name'), name))
    return r[0]


def ctor_with(E, cls, pred):
    r = [f for f in E.ctors(cls) if not front.is_pattern(f) and pred(f)]
    if not r:
        raise Unsupported('no matching constructor of %s' % cls.get('name'))
    return r[0]


def build(E, cls, ctor, args, st):
    """run a constructor; the single resulting (state, location)"""
    E.frame = None

    def mk(s):
        lv = E.newloc(cls.get('name'), E.new_object(cls, s), s)
        E.inline(ctor, lv, args, s)
        return lv
    r = E.explore(st, mk)
    E.frame = None
    if len(r) != 1:
        raise Unsupported('constructor of %s has %d paths' % (cls.get('name'), len(r)))
    return r[0][0], r[0][2]


def mutable_fields(tu, cls):
    """non-const fields that the class's code may write outside its constructors"""
    names = {f['name'] for f in cls['_fields'] if not f.get('type', {}).get('qualType', '').startswith('const ')}
    ids = {f['id'] for f in cls['_fields'] if 'id' in f}
    out = set()

    def walk(n, ro):
        k = n.get('kind')
        if k == 'MemberExpr' and n.get('name') in names and not ro and n.get('referencedMemberDecl') in ids and not n.get('type', {}).get('qualType', '').startswith('const '):
            out.add(n['name'])
        for c in n.get('inner', []):
            if isinstance(c, dict):
                r = k == 'ImplicitCastExpr' and (n.get('castKind') == 'LValueToRValue' or (
                    n.get('castKind') == 'NoOp' and n.get('type', {}).get('qualType', '').startswith('const ')))
                walk(c, r)
    for f in tu.funcs:
        q = f.get('_qual', '')
        if front.body_of(f) is not None and f.get('kind') != 'CXXConstructorDecl' and \
                (q.startswith(cls['name'] + '::') or (f.get('_cls') or {}).get('id') == cls['id']):
            walk(front.body_of(f), False)
    return out


def havoc_value(name, v, n=None):
    if isinstance(v, T.T):
        return var(name, v.sort)
    if isinstance(v, ArrV):
        return ArrV(v.shape, lambda ix: T.app(name, ix, 'R'))
    if isinstance(v, VecV):
        p = v.get(I0)
        return VecV(v.len, lambda i: T.app(name, (i,), p.sort))
    return v


def scale(f):
    """divide a comparison by the common positive factor of its two sides"""
    if f.op in ('lt', 'le', 'eq') and f.args[0].sort in 'IR':
        d = sub(T.to_real(f.args[0]), T.to_real(f.args[1]))
        if d.op == 'num':
            return f
        c = T.pos_content(T._poly(d))
        if c:
            for a, e in c.items():
                d = mul(d, T._from_poly({((a, -e),): T.Fraction(1)}, 'R'))
            return {'lt': lt, 'le': le, 'eq': eq}[f.op](d, R0)
        return f
    if f.op == 'not':
        return lnot(scale(f.args[0]))
    if f.op == 'and':
        return land(*[scale(a) for a in f.args])
    if f.op == 'or':
        return lor(*[scale(a) for a in f.args])
    return f


class Timeout(Exception):
    pass


class limit:
    """wall-clock limit for a normal-form computation"""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        import signal

        def h(sig, frm):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, et, ev, tb):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def shift0(t):
    """re-index every sum to start at 0"""
    def go(x):
        if x.op != 'sum':
            return x if x.op in ('num', 'var', 'bool') else T.rebuild(x, go)
        ranges, body = x.args
        ren, nr = {}, []
        for w, l, h in ranges:
            nv = T.fresh_bound()
            l2, h2 = T.subst(l, ren), T.subst(h, ren)
            nr.append((nv, sub(h2, l2)))
            ren[var(w, 'I')] = add(nv, l2)
        b = go(T.subst(body, ren))
        for nv, h in reversed(nr):
            b = T.rsum(nv, I0, h, b)
        return b
    return go(t)


def peel(t, e):
    """t at e+1 in terms of sums up to e: every sum whose upper bound is e+1 loses its last term (lower bounds are at most e)"""
    e1 = add(e, I1)

    def go(x, top_only=None):
        if x.op != 'sum':
            return x if x.op in ('num', 'var', 'bool') else T.rebuild(x, go)
        ranges, body = x.args
        names = {r[0] for r in ranges}
        for q, (v, lo, hi) in enumerate(ranges):
            d = sub(hi, e1)
            if e.args[0] not in d.fv and not (lo.fv & names) and not (hi.fv & names):
                last = sub(hi, I1)

                def build(top):
                    # the sum with range q cut to [lo, hi-1) (top None) or fixed at hi-1
                    ren, nr = {}, []
                    for z, (w, l, h) in enumerate(ranges):
                        if z == q:
                            if top is None:
                                nv = T.fresh_bound()
                                nr.append((nv, l, last))
                                ren[var(w, 'I')] = nv
                            else:
                                ren[var(w, 'I')] = top
                    for z, (w, l, h) in enumerate(ranges):
                        if z != q:
                            nv = T.fresh_bound()
                            l2, h2 = T.subst(l, ren), T.subst(h, ren)
                            if top is None and e.args[0] in h2.fv:
                                cut.append((nv, l2, h2))
                            nr.append((nv, l2, h2))
                            ren[var(w, 'I')] = nv
                    b = T.subst(body, ren)
                    return nr, b

                def mk(nr, b):
                    for nv, l, h in reversed(nr):
                        b = T.rsum(nv, l, h, b)
                    return b
                cut = []
                nr, b = build(None)
                res = R0
                # dependent ranges that also grow by one: peel them inside
                pend = [(nr, b)]
                done = []
                while pend:
                    nr, b = pend.pop()
                    for z, (nv, l, h) in enumerate(nr):
                        if z > 0 and e.args[0] in h.fv and not getattr(nv, '_x', False) and (nv.args[0] not in seen_):
                            seen_.add(nv.args[0])
                            h1 = sub(h, I1)
                            pend.append((nr[:z] + [(nv, l, h1)] + nr[z + 1:], b))
                            m = {nv: h1}
                            pend.append((nr[:z] + [(a, T.subst(p_, m), T.subst(q_, m)) for a, p_, q_ in nr[z + 1:]], T.subst(b, m)))
                            break
                    else:
                        done.append((nr, b))
                for nr, b in done:
                    res = add(res, mk(nr, b))
                nr, b = build(last)
                return add(res, go(mk(nr, b)))
        return x
    seen_ = set()
    return go(t)


def sum_equal(S, fn, name, f, g, lo, e, norm=lambda t: t):
    """f(e) = g(e) for every e >= lo, by induction over the upper bound"""
    w = iv('w?')
    at = lambda t, x: shift0(T.subst(t, {e: add(lo, x)}))
    F, G = at(f, w), at(g, w)
    base = sub(norm(at(f, I0)), norm(at(g, I0)))
    F1, G1 = peel(at(f, add(w, I1)), w), peel(at(g, add(w, I1)), w)
    step = norm(sub(sub(F1, F), sub(G1, G)))
    return S.fact(fn, name, T.is_zero(base) and T.is_zero(step), 'base %s; step %s' % (str(base)[:300], str(step)[:600]))


def instances(E, pc, goal, st=None, limit=40):
    """instances of the quantified facts at the index terms of the goal"""
    out = []
    cand = []
    for x in list(T.subterms(goal)):
        if x.op == 'app':
            for a in x.args[1:]:
                if isinstance(a, T.T) and a.sort == 'I' and a not in cand and not any(v.startswith('#') or v.startswith('$') for v in a.fv):
                    cand.append(a)
    for p in pc:
        if p.op == 'forall' and len(p.args[0]) == 1 and p.args[0][0].sort == 'I':
            v = p.args[0][0]
            offs = {I0}
            for x in T.subterms(p.args[1]):
                if x.op == 'app':
                    for a in x.args[1:]:
                        if isinstance(a, T.T) and a.sort == 'I' and v.args[0] in a.fv:
                            d = sub(a, v)
                            if v.args[0] not in d.fv and not any(y[0] in '#$' for y in d.fv):
                                offs.add(d)
            seen = set()
            for a in cand[:limit]:
                for d in offs:
                    b = sub(a, d)
                    if b not in seen:
                        seen.add(b)
                        out.append(T.subst(p.args[1], {v: b}))
    return out
