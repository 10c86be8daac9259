"""Trusted contracts of the external functions the repository uses
(standard library, xtensor, xtensor-blas, gsl), over exact arithmetic.

Every contract used in a run is recorded in Engine.trusted and ends up in the
evidence.  xtensor expressions are evaluated where they are written, except
xt::view, which stays bound to its array (ViewV)."""
import re
import terms as T
from terms import TRUE, FALSE, num, var
import smt
from front import Unsupported
from values import *
from exec import Engine as Core, strip_type, qt, sort_of_type, mkstr, listvec, is_ref


def const_arr(shape, c):
    return ArrV(shape, lambda ix: c)


def asarr(v):
    if isinstance(v, T.T):
        return ArrV((), lambda ix, v=v: v)
    return v


def ewise(f, *vs):
    vs = [asarr(v) for v in vs]
    shape = max((v.shape for v in vs), key=len)

    def get(ix):
        return f(*[v.get(ix[len(ix) - len(v.shape):]) for v in vs])
    return ArrV(shape, get)


def zero_i():
    return num(0, 'I')


def sum_over(n, fn):
    k = T.fresh_bound()
    return T.rsum(k, zero_i(), n, fn(k))


def dot(a, b):
    if len(a.shape) == 1 and len(b.shape) == 1:
        r = sum_over(a.shape[0], lambda k: T.mul(T.to_real(a.get((k,))), T.to_real(b.get((k,)))))
        return ArrV((), lambda ix: r)
    if len(a.shape) == 2 and len(b.shape) == 1:
        return ArrV((a.shape[0],), lambda ix: sum_over(a.shape[1], lambda k: T.mul(a.get((ix[0], k)), b.get((k,)))))
    if len(a.shape) == 1 and len(b.shape) == 2:
        return ArrV((b.shape[1],), lambda ix: sum_over(a.shape[0], lambda k: T.mul(a.get((k,)), b.get((k, ix[0])))))
    if len(a.shape) == 2 and len(b.shape) == 2:
        return ArrV((a.shape[0], b.shape[1]),
                    lambda ix: sum_over(a.shape[1], lambda k: T.mul(a.get((ix[0], k)), b.get((k, ix[1])))))
    raise Unsupported('dot of ranks %d, %d' % (len(a.shape), len(b.shape)))


def str_append(s, ch, st=None):
    if isinstance(ch, StrV):
        if s.lit is not None and ch.lit is not None:
            return mkstr(s.lit + ch.lit)
        n = s.len
        return StrV(T.add(s.len, ch.len), lambda i: T.ite(T.lt(i, n), s.get(i), ch.get(T.sub(i, n))))
    if s.lit is not None and ch.op == 'num':
        return mkstr(s.lit + chr(int(ch.args[0])))
    n = s.len
    return StrV(T.add(s.len, num(1, 'I')), lambda i: T.ite(T.eq(i, n), ch, s.get(i)))


def aabs(x):
    z = num(0, x.sort)
    if x.op == 'num':
        return num(abs(x.args[0]), x.sort)
    return T.ite(T.le(z, x), x, T.neg(x))


def position(kind, base, pos):
    return ObjV(kind, {'base': Tag('at', base), 'pos': pos})


def sum_nonneg(t, pc):
    """t is a combination of sums over one common range whose combined summand is never negative"""
    key, parts = None, []
    for m, c in dict(T._poly(t)).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' or len(m[0][0].args[0]) != 1:
            return False
        (v, lo, hi), = m[0][0].args[0]
        if key is None:
            key, w = (lo, hi), T.fresh_bound('sn')
        elif key != (lo, hi):
            return False
        parts.append(T.mul(num(c), T.subst(m[0][0].args[1], {var(v, 'I'): w})))
    if key is None:
        return False
    return smt.prove(list(pc) + [T.le(key[0], w), T.lt(w, key[1])], T.le(num(0), T.add(*parts)), rlimit=1_000_000)[0] == 'proved'


class Engine(Core):
    # ---------------------------------------------------------------- values
    def arr(self, v, st):
        if isinstance(v, ViewV):
            v = self.read(v.lv, st)
        if isinstance(v, LV):
            v = self.read(v, st)
        return v

    def evs(self, args, st):
        return [self.arr(self.ev(a, st), st) for a in args]

    def lib_unary(self, op, v, st):
        v = self.arr(v, st)
        if isinstance(v, ArrV):
            return ewise(T.neg, v)
        raise Unsupported('unary %s on %r' % (op, v))

    def shape_of(self, v):
        """shape given as an initialiser list or shape container"""
        if isinstance(v, VecV):
            if v.info and v.info[0] == 'list':
                return tuple(v.info[1])
            if v.len.op == 'num':
                return tuple(v.get(num(i, 'I')) for i in range(int(v.len.args[0])))
        if isinstance(v, TupV):
            return v.items
        raise Unsupported('shape %r' % (v,))

    # ---------------------------------------------------------------- free functions
    def lib_call(self, name, args, st, n):
        m = getattr(self, 'c_' + name, None)
        if m is None:
            raise Unsupported('external function %s' % name)
        self.trusted.add(name)
        return m(args, st, n)

    def passthru(self, args, st, n):
        return self.lv(args[0], st)
    c_move = c_forward = c_as_const = passthru

    def c___builtin_expect(self, args, st, n):
        return self.ev(args[0], st)

    def c___assert_fail(self, args, st, n):
        self.oblige('assertion', st, FALSE)
        from exec import Infeasible
        raise Infeasible()

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        bb = b
        while bb.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            bb = bb['inner'][0]
        if bb.get('kind') == 'CallExpr' and self.callee_name(bb) == '__assert_fail':
            self.do_assert(c, st)
            return None
        return Core.e_ConditionalOperator(self, n, st)

    def do_assert(self, c, st):
        t = self.truth(c, st)
        self.oblige('assertion', st, t)
        st.assume(t)

    def c_get(self, args, st, n):
        c = self.callee_ref(n)
        t = c['referencedDecl'].get('type', {}).get('qualType', '') + ' ' + c.get('type', {}).get('qualType', '')
        m = re.search(r'(?:tuple_element|tuple_element_t|__tuple_element_t|get)<(\d+)', t)
        if not m:
            # the element whose type is the result's, if there is just one
            m2 = re.match(r'(?:const )?(.*?)(?: &&?|)\((?:const )?tuple<(.*?)> (?:const )?&&?\)', t)
            ts = [re.sub(r'^const |[ &]+$', '', p.strip()) for p in self.split_types(m2.group(2))] if m2 else []
            if not m2 or ts.count(m2.group(1).strip()) != 1:
                raise Unsupported('std::get')
            return self.lv(args[0], st) / ('t', ts.index(m2.group(1).strip()))
        return self.lv(args[0], st) / ('t', int(m.group(1)))

    def c_make_tuple(self, args, st, n):
        return TupV([self.unview(self.ev(a, st), st) for a in args])
    c_make_pair = c_make_tuple

    def c_make_optional(self, args, st, n):
        if len(args) != 1:
            raise Unsupported('make_optional')
        return OptV(TRUE, self.arr(self.ev(args[0], st), st))

    def unview(self, v, st):
        return v

    def c_tie(self, args, st, n):
        return TupV([RefV(self.lv(a, st)) for a in args])

    def c_swap(self, args, st, n):
        a, b = self.lv(args[0], st), self.lv(args[1], st)
        x, y = self.read(a, st), self.read(b, st)
        self.write(a, y, st)
        self.write(b, x, st)

    def minmax(self, args, st, n, mx):
        if len(args) == 1:
            v = self.ev(args[0], st)
            vals = list(v.info[1])
        else:
            vals = [self.ev(a, st) for a in args]
        r = vals[0]
        for y in vals[1:]:
            r = T.ite(T.lt(r, y) if mx else T.lt(y, r), y, r)
        return r

    def c_max(self, args, st, n):
        return self.minmax(args, st, n, True)

    def c_min(self, args, st, n):
        return self.minmax(args, st, n, False)

    def math1(self, f, args, st):
        v = self.arr(self.ev(args[0], st), st)
        if isinstance(v, ArrV):
            return ewise(f, v)
        if isinstance(v, T.T):
            if v.sort == 'B':
                v = T.ite(v, num(1, 'I'), num(0, 'I'))
            return f(v)
        raise Unsupported('math function of %r' % (v,))

    def c_abs(self, args, st, n):
        return self.math1(aabs, args, st)
    c_fabs = c_abs

    def c_sqrt(self, args, st, n):
        def f(x):
            x = T.to_real(x)
            self.on_sqrt(x, st)
            return T.sqrt(x)
        return self.math1(f, args, st)

    def on_sqrt(self, x, st):
        if self.check_sqrt and not sum_nonneg(x, st.pc):
            self.oblige('square root of a non-negative number', st, T.le(num(0), x))

    def fn1(self, name):
        def f(x):
            return T.app(name, (T.to_real(x),), 'R')
        return f

    def c_exp(self, args, st, n):
        return self.math1(self.fn1('exp'), args, st)

    def c_log(self, args, st, n):
        def f(x):
            x = T.to_real(x)
            if self.check_log and not any(v[0] in '$#' for v in x.fv) and not smt.entails(st.pc, T.lt(num(0), x)):
                self.oblige('logarithm of a positive number', st, T.lt(num(0), x))
            return T.app('log', (x,), 'R')
        return self.math1(f, args, st)
    check_log = False

    def c_log2(self, args, st, n):
        return self.math1(self.fn1('log2'), args, st)

    def c_floor(self, args, st, n):
        return self.math1(lambda x: T.to_real(T.app('floor', (T.to_real(x),), 'I')), args, st)

    def c_ceil(self, args, st, n):
        return self.math1(lambda x: T.to_real(T.neg(T.app('floor', (T.neg(T.to_real(x)),), 'I'))), args, st)

    def c_round(self, args, st, n):
        """nearest whole number (halves away from zero)"""
        h = num(T.Fraction(1, 2))

        def f(x):
            x = T.to_real(x)
            up = T.to_real(T.app('floor', (T.add(x, h),), 'I'))
            dn = T.neg(T.to_real(T.app('floor', (T.add(T.neg(x), h),), 'I')))
            return T.ite(T.le(num(0), x), up, dn)
        return self.math1(f, args, st)

    def c_pow(self, args, st, n):
        b, e = [self.ev(a, st) for a in args]
        b, e0 = T.to_real(b), e
        if e.op == 'num' and e.args[0].denominator == 1 and abs(e.args[0]) < 64:
            return T.power(b, int(e.args[0]))
        p = T._poly(e)
        if b.op == 'num' and b.args[0] == 2 and all(c.denominator == 1 and all(a.sort == 'I' and x > 0 for a, x in m) for m, c in p.items()):
            return T.app('exp2', (T._from_poly(p, 'I'),), 'R')
        return T.app('pow', (b, T.to_real(e)), 'R')

    def c_ldexp(self, args, st, n):
        b, e = [self.ev(a, st) for a in args]
        return T.mul(T.to_real(b), T.app('exp2', (e,), 'R'))

    # standard algorithms over [begin, end): the loop they stand for
    def over_range(self, args, st, n, body):
        it, end = [self.ev(a, st) for a in args[:2]]
        if not all(isinstance(x, ObjV) and 'pos' in x.f for x in (it, end)) or it.f['base'].a[0] != end.f['base'].a[0]:
            raise Unsupported('iterator range %r, %r' % (it, end))
        pos = self.newloc('__it', it.f['pos'], st)

        def turn(s):
            body(s, self.iter_deref(ObjV(it.cls, dict(it.f, pos=self.read(pos, s))), s))
        self.loop_core(n, st, lambda s: T.lt(self.read(pos, s), end.f['pos']), turn,
                       lambda s: self.write(pos, T.add(self.read(pos, s), num(1, 'I')), s), False)

    def functor(self, a, st):
        f = self.ev(a, st) if isinstance(a, dict) else a
        if isinstance(f, LV):
            f = self.read(f, st)
        if not isinstance(f, LamV):
            raise Unsupported('function object %r' % (f,))
        return f

    def c_accumulate(self, args, st, n):
        acc = self.newloc('acc', self.ev(args[2], st), st)
        f = self.functor(args[3], st) if len(args) > 3 else None

        def body(s, el):
            a = self.read(acc, s)
            r = self.call_lambda(f, [a, el], s) if f else self.arith('+', a, self.read(el, s), '', s)
            if isinstance(r, LV):
                r = self.read(r, s)
            if not (isinstance(a, T.T) and isinstance(r, T.T)) or a.sort == 'I' and r.sort == 'R':
                raise Unsupported('accumulation of %r' % (r,))
            self.write(acc, T.to_real(r) if a.sort == 'R' else r, s)
        self.over_range(args, st, n, body)
        return self.read(acc, st)

    def c_for_each(self, args, st, n):
        f = self.functor(args[2], st)
        self.over_range(args, st, n, lambda s, el: self.call_lambda(f, [el], s) and None)
        return None

    # xtensor
    def c_zeros(self, args, st, n):
        return const_arr(self.shape_of(self.ev(args[0], st)), num(0))

    def c_ones(self, args, st, n):
        return const_arr(self.shape_of(self.ev(args[0], st)), num(1))

    def c_eye(self, args, st, n):
        s = self.ev(args[0], st)
        shape = (s, s) if isinstance(s, T.T) else self.shape_of(s)
        return ArrV(shape, lambda ix: T.ite(T.eq(ix[0], ix[1]), num(1), num(0)))

    def c_diag(self, args, st, n):
        v = self.arr(self.ev(args[0], st), st)
        return ArrV((v.shape[0], v.shape[0]), lambda ix: T.ite(T.eq(ix[0], ix[1]), v.get((ix[0],)), num(0)))

    def c_diagonal(self, args, st, n):
        v = self.arr(self.ev(args[0], st), st)
        return ArrV((v.shape[0],), lambda ix: v.get((ix[0], ix[0])))

    def c_dot(self, args, st, n):
        a, b = self.evs(args[:2], st)
        if self.check_bounds and a.shape and b.shape:
            self.oblige('dot: inner dimensions agree', st, T.eq(a.shape[-1], b.shape[0]))
        return dot(a, b)

    def c_outer(self, args, st, n):
        a, b = self.evs(args[:2], st)
        return ArrV((a.shape[0], b.shape[0]), lambda ix: T.mul(a.get((ix[0],)), b.get((ix[1],))))

    def c_transpose(self, args, st, n):
        a = self.arr(self.ev(args[0], st), st)
        return ArrV(tuple(reversed(a.shape)), lambda ix: a.get(tuple(reversed(ix))))

    def c_trace(self, args, st, n):
        a = self.arr(self.ev(args[0], st), st)
        r = sum_over(a.shape[0], lambda k: a.get((k, k)))
        return ArrV((), lambda ix: r)

    def c_sum(self, args, st, n):
        a = self.arr(self.ev(args[0], st), st)
        if len(a.shape) == 1:
            r = sum_over(a.shape[0], lambda k: T.to_real(a.get((k,))))
        elif len(a.shape) == 2:
            r = sum_over(a.shape[0], lambda k: sum_over(a.shape[1], lambda l: T.to_real(a.get((k, l)))))
        else:
            raise Unsupported('xt::sum of rank %d' % len(a.shape))
        return ArrV((), lambda ix: r)

    def c_inv(self, args, st, n):
        """inverse: an array X with A X = X A = I (A invertible)"""
        a = self.arr(self.ev(args[0], st), st)
        f = 'inv@%d' % (self.cnt + 1)
        self.cnt += 1
        par = tuple(self.params())
        r = ArrV(a.shape, lambda ix: T.app(f, par + tuple(ix), 'R'))
        st.ghost['inverse:' + f] = (a, r)
        return r

    def params(self):
        return [k for k in self.loopctx]

    def c_norm(self, args, st, n):
        self.cnt += 1
        return self.fresh('norm', 'R')

    def c_all(self, args, st, n):
        return Tag('all')

    def c_range(self, args, st, n):
        vs = [self.ev(a, st) for a in args]
        if len(vs) == 1:
            vs = [num(0, 'I')] + vs
        if len(vs) != 2:
            raise Unsupported('xt::range with step')
        return Tag('range', vs[0], vs[1])

    def c_view(self, args, st, n):
        base = self.lv(args[0], st)
        v = self.read(base, st)
        if not isinstance(v, ArrV):
            raise Unsupported('view of %r' % (v,))
        spec = []
        for a, s in zip(args[1:], v.shape):
            x = self.ev(a, st)
            if isinstance(x, Tag) and x.kind == 'all':
                spec.append(('all',))
            elif isinstance(x, Tag) and x.kind == 'range':
                spec.append(('r', x.a[0], x.a[1]))
                if self.check_bounds:
                    self.oblige('view range within bounds', st,
                                T.land(T.le(num(0, 'I'), x.a[0]), T.le(x.a[0], x.a[1]), T.le(x.a[1], s)))
            elif isinstance(x, T.T):
                spec.append(('i', x))
                if self.check_bounds:
                    self.oblige('view index within bounds', st, T.land(T.le(num(0, 'I'), x), T.lt(x, s)))
            else:
                raise Unsupported('view argument')
        return ViewV(base / ('v', tuple(spec)))

    def c_row(self, args, st, n):
        base = self.lv(args[0], st)
        return ViewV(base / ('v', (('i', self.ev(args[1], st)), ('all',))))

    def c_col(self, args, st, n):
        base = self.lv(args[0], st)
        return ViewV(base / ('v', (('all',), ('i', self.ev(args[1], st)))))

    def c_begin(self, args, st, n):
        return self.lib_method('begin', self.lv(args[0], st), [], st, n)

    def c_end(self, args, st, n):
        return self.lib_method('end', self.lv(args[0], st), [], st, n)

    def c_size(self, args, st, n):
        return self.lib_method('size', self.lv(args[0], st), [], st, n)

    def c_declval(self, args, st, n):
        raise Unsupported('declval')

    # ---------------------------------------------------------------- operators
    def lib_op(self, name, args, st, n):
        op = name[len('operator'):]
        self.trusted.add('operator' + op)
        if op == '()' or op == '[]':
            base = self.lv(args[0], st)
            v = self.read(base, st)
            if isinstance(v, TupV):
                raise Unsupported('call of a tuple')
            ix = [self.ev(a, st) for a in args[1:]]
            if isinstance(v, ArrV):
                if not ix:
                    if v.shape == ():
                        return base / ('e', ())
                    raise Unsupported('call without indices on rank %d' % len(v.shape))
                ix = [i for i in ix]
                if len(ix) == 1 and isinstance(ix[0], VecV):
                    ix = list(self.shape_of(ix[0]))
                return self.index(base, ix, st)
            if isinstance(v, MapV) or (isinstance(v, ObjV) and 'map' in v.f):
                return self.map_sub(base, v, ix[0], st, n)
            if isinstance(v, VecV) or isinstance(v, StrV):
                return self.index(base, ix, st)
            raise Unsupported('operator%s on %r' % (op, v))
        if op in ('=', '+=', '-=', '*=', '/='):
            y = self.arr(self.ev(args[1], st), st)
            lv = self.lv(args[0], st)
            if op == '=':
                self.assign(lv, y, st)
                return lv
            x = self.read(lv, st)
            if isinstance(x, StrV) and op == '+=':
                self.write(lv, str_append(x, y), st)
                return lv
            r = self.aop(op[0], x, y, st)
            if isinstance(r, ArrV) and isinstance(x, ArrV):
                r = ArrV(x.shape, r.get)
            self.write(lv, r, st)
            return lv
        if op in ('++', '--') and len(args) in (1, 2):
            return self.iter_step(args[0], op, st, n)
        if op == '*' and len(args) == 1:
            base = self.lv(args[0], st)
            v = self.read(base, st)
            if isinstance(v, OptV):
                self.oblige('dereference of a present optional', st, v.has)
                return base / ('o',)
            return self.iter_deref(v, st)
        if op == '->' and len(args) == 1:
            base = self.lv(args[0], st)
            v = self.read(base, st)
            if isinstance(v, OptV):
                self.oblige('dereference of a present optional', st, v.has)
                return RefV(base / ('o',))
            if isinstance(v, Tag) and v.kind == 'mapit' or isinstance(v, ObjV) and 'pos' in v.f:
                return RefV(self.iter_deref(v, st))
            raise Unsupported('operator->')
        if len(args) == 1:
            v = self.arr(self.ev(args[0], st), st)
            if op == '-':
                return self.lib_unary('-', v, st) if isinstance(v, ArrV) else T.neg(v)
            if op == '!' and isinstance(v, OptV):
                return T.lnot(v.has)
            raise Unsupported('operator%s' % op)
        x, y = [self.arr(self.ev(a, st), st) for a in args]
        if op in ('==', '!='):
            r = self.equal(x, y, st)
            if r is None:
                r2 = self.user_cmp(op, x, y, args, st)
                return r2
            return r if op == '==' else T.lnot(r)
        if op in ('<', '<=', '>', '>=') and not (isinstance(x, T.T) and isinstance(y, T.T)):
            return self.user_cmp(op, x, y, args, st)
        return self.aop(op, x, y, st)

    def assign(self, lv, y, st):
        """assignment through an lvalue, also into tuples of references"""
        x = None
        try:
            x = self.read(lv, st)
        except Unsupported:
            pass
        if isinstance(x, TupV) and isinstance(y, TupV) and any(isinstance(i, RefV) for i in x.items):
            for i, (a, b) in enumerate(zip(x.items, y.items)):
                self.write(lv / ('t', i), b, st)
            return
        self.write(lv, y, st)

    def user_cmp(self, op, x, y, args, st):
        raise Unsupported('comparison %s of %r and %r' % (op, x, y))

    def equal(self, x, y, st):
        if isinstance(x, T.T) and isinstance(y, T.T):
            return T.eq(x, y)
        if isinstance(x, Opaque) and isinstance(y, Opaque):
            return T.eq(x.t, y.t)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Tag) and a.kind == 'mapit' and isinstance(b, ObjV) and b.f.get('end') is TRUE:
                return T.lnot(a.a[1])
        if isinstance(x, ObjV) and isinstance(y, ObjV) and 'pos' in x.f and 'pos' in y.f:
            return T.eq(x.f['pos'], y.f['pos'])
        if isinstance(x, TupV) and isinstance(y, TupV):
            cs = [self.equal(a, b, st) for a, b in zip(x.items, y.items)]
            if all(c is not None for c in cs):
                return T.land(*cs)
        return None

    def aop(self, op, x, y, st):
        f = {'+': T.add, '-': T.sub, '*': T.mul, '/': self.adiv(st)}.get(op)
        if f is None:
            raise Unsupported('operator %s on %r, %r' % (op, x, y))
        if op == '/' and isinstance(y, T.T):
            self.on_div(y, st)
        if isinstance(x, T.T) and isinstance(y, T.T):
            return f(x, y)
        if isinstance(x, (ArrV, T.T)) and isinstance(y, (ArrV, T.T)):
            if isinstance(x, ArrV) and isinstance(y, ArrV) and self.check_bounds and len(x.shape) == len(y.shape):
                for a, b in zip(x.shape, y.shape):
                    self.oblige('shapes agree', st, T.eq(a, b))
            return ewise(lambda a, b: f(T.to_real(a), T.to_real(b)), x, y)
        raise Unsupported('operator %s on %r, %r' % (op, x, y))

    def adiv(self, st):
        def f(a, b):
            a, b = T.to_real(a), T.to_real(b)
            return T.div(a, b)
        return f

    # ---------------------------------------------------------------- methods
    def lib_method(self, name, base, args, st, n):
        self.trusted.add('method ' + name)
        v = self.read(base, st)
        if name in ('operator bool', 'has_value') and isinstance(v, OptV):
            return v.has
        if isinstance(v, ArrV):
            if name == 'shape':
                if args:
                    i = self.ev(args[0], st)
                    return v.shape[int(i.args[0])]
                return listvec(list(v.shape))
            if name == 'size':
                r = num(1, 'I')
                for s in v.shape:
                    r = T.mul(r, s)
                return r
            if name == 'dimension':
                return num(len(v.shape), 'I')
            if name in ('operator()', 'at', 'operator[]'):
                return self.index(base, [self.ev(a, st) for a in args], st)
            if name == 'operator=':
                self.write(base, self.arr(self.ev(args[0], st), st), st)
                return base
        if isinstance(v, OptV) and name == 'value':
            self.oblige('value of a present optional', st, v.has)
            return base / ('o',)
        if isinstance(v, StrV):
            if name in ('size', 'length'):
                return v.len
            if name == 'empty':
                return T.eq(v.len, num(0, 'I'))
            if name in ('push_back', 'append'):
                self.write(base, str_append(v, self.ev(args[0], st)), st)
                return base
            if name == 'reserve':
                return None
            if name == 'operator[]' or name == 'at':
                return self.index(base, [self.ev(args[0], st)], st)
        if isinstance(v, VecV):
            if name in ('size', 'length'):
                return v.len
            if name == 'empty':
                return T.eq(v.len, num(0, 'I'))
            if name in ('reserve',):
                return None
            if name in ('push_back', 'emplace_back'):
                x = self.ev(args[0], st)
                x = self.arr(x, st)
                self.write(base, vec_push(v, x), st)
                return None
            if name in ('operator[]', 'at'):
                return self.index(base, [self.ev(args[0], st)], st)
            if name == 'front':
                return self.index(base, [num(0, 'I')], st)
            if name == 'back':
                return self.index(base, [T.sub(v.len, num(1, 'I'))], st)
            if name == 'clear':
                self.write(base, VecV(num(0, 'I'), v.get), st)
                return None
            if name in ('begin', 'cbegin'):
                return position('vecit', base, num(0, 'I'))
            if name in ('end', 'cend'):
                return position('vecit', base, v.len)
        if isinstance(v, MapV):
            return self.map_method(name, base, v, args, st, n)
        if isinstance(v, ObjV) and isinstance(v.f.get('map'), MapV):
            return self.map_method(name, base / ('f', 'map'), v.f['map'], args, st, n)
        if isinstance(v, ObjV) and 'pos' in v.f:
            if name in ('operator++', 'operator--') and not args:
                self.write(base / ('f', 'pos'), T.add(v.f['pos'], num(1 if name[-1] == '+' else -1, 'I')), st)
                return base
            if name == 'operator*':
                return self.iter_deref(v, st)
        if name == 'operator=':
            self.write(base, self.arr(self.ev(args[0], st), st), st)
            return base
        if name == 'operator()' and isinstance(v, LamV):
            return self.call_lambda(v, args, st)
        raise Unsupported('method %s on %r' % (name, v))

    def key(self, v):
        if isinstance(v, Opaque):
            return v.t
        if isinstance(v, T.T):
            return v
        raise Unsupported('map key %r' % (v,))

    def map_method(self, name, base, v, args, st, n):
        if name == 'clear':
            self.write(base, MapV(lambda k: FALSE, v.get, v.ks, v.vs, zero_i()), st)
            return None
        if name == 'size' and v.n is not None:
            return v.n
        if name == 'empty' and v.n is not None:
            return T.eq(v.n, zero_i())
        if name in ('insert', 'emplace') and len(args) == 1 and v.vs is None:
            k = self.key(self.ev(args[0], st))
            was = v.dom(k)
            self.write(base / ('k', k), TRUE, st)
            return TupV([Tag('mapit', base, TRUE, k), T.lnot(was)])
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and v.vs is not None:
            xs = [self.ev(a, st) for a in args]
            if len(xs) == 1 and isinstance(xs[0], TupV):
                xs = list(xs[0].items)
            if len(xs) != 2:
                raise Unsupported('map method %s' % name)
            k, x = self.key(xs[0]), self.arr(xs[1], st)
            was = v.dom(k)
            if name == 'insert_or_assign' or not self.branch(was, st):
                self.write(base / ('k', k), T.to_real(x) if v.vs == 'R' else x, st)
            return TupV([Tag('mapit', base, TRUE, k), T.lnot(was)])
        if name == 'erase' and len(args) == 1:
            x = self.ev(args[0], st)
            if not isinstance(x, T.T):
                raise Unsupported('erase through an iterator')
            was = v.dom(x)
            self.write(base, MapV(lambda k: T.land(T.ne(k, x), v.dom(k)), v.get, v.ks, v.vs,
                                  None if v.n is None else T.sub(v.n, T.ite(was, num(1, 'I'), zero_i()))), st)
            return T.ite(was, num(1, 'I'), zero_i())
        if name in ('begin', 'cbegin') and v.keys is not None:
            return position('mapiter', base, zero_i())
        if name in ('find', 'contains', 'count'):
            k = self.key(self.ev(args[0], st))
            if name == 'contains':
                return v.dom(k)
            if name == 'count':
                return T.ite(v.dom(k), num(1, 'I'), num(0, 'I'))
            return Tag('mapit', base, v.dom(k), k)
        if name in ('end', 'cend'):
            r = position('mapiter', base, v.n if v.n is not None else var('endpos', 'I'))
            r.f['end'] = TRUE
            return r
        if name in ('at',):
            k = self.key(self.ev(args[0], st))
            self.oblige('key present (at)', st, v.dom(k))
            return base / ('k', k)
        if name == 'operator[]':
            return self.map_sub(base, v, self.ev(args[0], st), st, n)
        if name in ('reserve',):
            return None
        raise Unsupported('map method %s' % name)

    def map_sub(self, base, v, k, st, n):
        k = self.key(k)
        if isinstance(v, ObjV):
            base = base / ('f', 'map')
            v = v.f['map']
        d = v.dom(k)
        if not smt.entails(st.pc, d):
            # operator[] inserts the default value for a missing key
            if smt.entails(st.pc, T.lnot(d)) or self.branch(T.lnot(d), st):
                dv = self.map_default(v)
                self.write(base / ('k', k), dv, st)
        return base / ('k', k)

    def map_default(self, v):
        if v.vs in ('I', 'R'):
            return num(0, v.vs)
        if v.vs == 'B':
            return FALSE
        return Opaque(v.vs, T.app('default:' + v.vs, (), v.vs))

    def iter_step(self, a, op, st, n):
        lv = self.lv(a, st)
        v = self.read(lv, st)
        if isinstance(v, ObjV) and 'pos' in v.f:
            self.write(lv / ('f', 'pos'), T.add(v.f['pos'], num(1 if op == '++' else -1, 'I')), st)
            return lv
        raise Unsupported('operator%s' % op)

    def iter_deref(self, v, st):
        if isinstance(v, ObjV) and 'pos' in v.f:
            base = v.f['base'].a[0]
            m = self.read(base, st)
            if isinstance(m, MapV):
                self.oblige('dereference of an iterator within range', st, T.land(T.le(zero_i(), v.f['pos']), T.lt(v.f['pos'], m.n)))
                k = T.app(m.keys, (v.f['pos'],), 'I')
                return self.newloc('entry', TupV([k, RefV(base / ('k', k))]) if m.vs is not None else k, st)
            return self.index(base, [v.f['pos']], st)
        if isinstance(v, RefV):
            return v.lv
        if isinstance(v, Tag) and v.kind == 'mapit':
            base, dom, k = v.a
            self.oblige('dereference of a valid iterator', st, dom)
            m = self.read(base, st)
            return self.newloc('entry', TupV([k, RefV(base / ('k', k))]) if m.vs is not None else k, st)
        raise Unsupported('dereference of %r' % (v,))

    # ---------------------------------------------------------------- construction
    def lib_construct(self, t, args, st, n):
        t = t.replace('std::__cxx11::', 'std::')
        base = re.sub(r'<.*$', '', t)
        short = base.split('::')[-1]
        if short in ('_Node_const_iterator', '_Node_iterator', '__normal_iterator') and len(args) == 1:
            return self.ev(args[0], st)
        if short.startswith('unordered_'):
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if base.startswith('boost::operators_impl::') and not args:
            return Tag('empty base')
        if short in ('basic_string', 'string', 'basic_string_view', 'string_view'):
            if not args:
                return mkstr('')
            v = self.ev(args[0], st)
            if isinstance(v, RefV):
                v = self.read(v.lv, st)
            if isinstance(v, StrV):
                return v
            raise Unsupported('string from %r' % (v,))
        if short == 'nullopt_t':
            return Tag('nullopt')
        if self.is_arr_type(t):
            if not args:
                return ArrV((num(0, 'I'),), lambda ix: T.app('uninit', tuple(ix), 'R'))
            a = args[0]
            if self.has_initlist(a):
                vals = self.init_values(a, st)
                if any(isinstance(x, VecV) for x in vals):
                    rows = [x.info[1] for x in vals]
                    return lit2(rows)
                return lit1([T.to_real(self.scalar(x, st)) for x in vals])
            v = self.arr(self.ev(a, st), st)
            if isinstance(v, ArrV):
                return v
            if isinstance(v, T.T):
                return ArrV((), lambda ix: v)
            raise Unsupported('array from %r' % (v,))
        if short in ('tuple', 'pair'):
            return self.tuple_construct(t, args, st, n)
        if short == 'optional':
            if not args:
                return OptV(FALSE, None)
            v = self.ev(args[0], st)
            if isinstance(v, OptV):
                return v
            if isinstance(v, Tag) and v.kind == 'nullopt':
                return OptV(FALSE, None)
            return OptV(TRUE, self.arr(v, st))
        if short in ('span', 'initializer_list'):
            v = self.ev(args[0], st)
            return v
        if short == 'vector':
            if not args:
                return VecV(num(0, 'I'), lambda i: Tag('nothing'), ('list', []))
            if self.has_initlist(args[0]):
                vals = [self.arr(x, st) for x in self.init_values(args[0], st)]
                return listvec(vals) if vals else VecV(num(0, 'I'), lambda i: Tag('nothing'), ('list', []))
            v = self.ev(args[0], st)
            if isinstance(v, VecV):
                return v
            raise Unsupported('vector construction')
        if short in ('unordered_map', 'map', 'dict'):
            if self.find_class(t) is not None and short == 'dict':
                return NotImplemented
            if not args:
                m = re.search(r'<(.*)>', t)
                ks, vs = self.split2(m.group(1)) if m else ('I', 'R')
                return MapV(lambda k: FALSE, lambda k: self.map_default(MapV(None, None, ks, vs)), ks, vs, zero_i())
            v = self.ev(args[0], st)
            if isinstance(v, ObjV) and isinstance(v.f.get('map'), MapV):
                v = v.f['map']
            if isinstance(v, MapV):
                return v
            if isinstance(v, VecV):
                return self.map_of(v, t)
            raise Unsupported('map construction')
        if short in ('unordered_set', 'set') and self.find_class(t) is None or base == 'std::unordered_set':
            if not args:
                return MapV(lambda k: FALSE, lambda k: TRUE, 'I', None, zero_i())
            vs = [self.ev(a, st) for a in args]
            vs = [v.f['map'] if isinstance(v, ObjV) and 'map' in v.f else v for v in vs]
            if isinstance(vs[0], MapV):
                return vs[0]
            if isinstance(vs[0], VecV):
                return self.map_of(vs[0], None)
            if len(vs) >= 2 and all(isinstance(x, ObjV) and x.cls == 'vecit' for x in vs[:2]):
                # the elements between two iterators
                a, b = vs[:2]
                seq = self.read(a.f['base'].a[0], st)
                e0 = seq.get(zero_i())
                return MapV(lambda k: T.app('member:%s' % e0, (a.f['pos'], b.f['pos'], k), 'B'), lambda k: TRUE, 'I', None)
            raise Unsupported('set construction')
        return NotImplemented

    def map_of(self, seq, t):
        """the container holding the entries of an initialiser list: the first entry of a key counts"""
        if not (seq.info and seq.info[0] == 'list'):
            raise Unsupported('container from a sequence')
        if t is None:
            r = MapV(lambda k: FALSE, lambda k: TRUE, 'I', None, zero_i())
        else:
            m = re.search(r'<(.*)>', t)
            ks, vs = self.split2(m.group(1))
            r = MapV(lambda k: FALSE, lambda k: self.map_default(MapV(None, None, ks, vs)), ks, vs, zero_i())
        for x in reversed(seq.info[1]):
            k = x.items[0] if isinstance(x, TupV) else x
            r = acc_set(r, ('k', self.key(k)), x.items[1] if isinstance(x, TupV) else TRUE, None)
        return r

    def split_types(self, s):
        d, parts = 0, ['']
        for ch in s:
            d += (ch == '<') - (ch == '>')
            if ch == ',' and d == 0:
                parts.append('')
            else:
                parts[-1] += ch
        return parts

    def split2(self, s):
        d = 0
        parts = ['']
        for ch in s:
            if ch == '<':
                d += 1
            if ch == '>':
                d -= 1
            if ch == ',' and d == 0:
                parts.append('')
            else:
                parts[-1] += ch
        out = []
        for p in parts[:2]:
            p = strip_type(p.strip())
            out.append(sort_of_type(p) or re.sub(r'^VRF::', '', p))
        return out[0], out[1] if len(out) > 1 else None

    def scalar(self, x, st):
        if isinstance(x, ArrV) and x.shape == ():
            return x.get(())
        if not isinstance(x, T.T):
            raise Unsupported('scalar %r' % (x,))
        return x

    def has_initlist(self, a):
        while a.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr'):
            a = a['inner'][0]
        return a.get('kind') == 'CXXStdInitializerListExpr'

    def init_values(self, a, st):
        while a.get('kind') != 'CXXStdInitializerListExpr':
            a = a['inner'][0]
        while a.get('kind') != 'InitListExpr':
            a = a['inner'][0]
        out = []
        for c in a.get('inner', []):
            if self.has_initlist(c):
                out.append(listvec([self.scalar(x, st) for x in self.init_values(c, st)]))
            else:
                out.append(self.ev(c, st))
        return out

    def tuple_construct(self, t, args, st, n):
        if not args:
            m = re.search(r'<(.*)>', t)
            items = []
            if m:
                d = 0
                parts = ['']
                for ch in m.group(1):
                    d += (ch == '<') - (ch == '>')
                    if ch == ',' and d == 0:
                        parts.append('')
                    else:
                        parts[-1] += ch
                items = [self.zero_value(p.strip(), st) for p in parts]
            return TupV(items)
        vals = []
        want = self.tuple_arity(t, n)
        if len(args) == 1 and want != 1:
            v = self.ev(args[0], st)
            if isinstance(v, TupV):
                return TupV([self.read(i.lv, st) if isinstance(i, RefV) else i for i in v.items])
            raise Unsupported('tuple from %r' % (v,))
        types = self.tuple_types(t, n)
        for i, a in enumerate(args):
            v = self.arr(self.ev(a, st), st)
            if types and i < len(types):
                tt = strip_type(types[i])
                if tt in ('double', 'float') and isinstance(v, T.T):
                    v = T.to_real(v)
                if isinstance(v, OptV) is False and tt.startswith('std::optional'):
                    v = OptV(TRUE, v)
            vals.append(v)
        return TupV(vals)

    def tuple_types(self, t, n):
        m = re.search(r'<(.*)>$', t.strip())
        if not m:
            return None
        d = 0
        parts = ['']
        for ch in m.group(1):
            d += (ch == '<') - (ch == '>')
            if ch == ',' and d == 0:
                parts.append('')
            else:
                parts[-1] += ch
        return [p.strip() for p in parts]

    def tuple_arity(self, t, n):
        ts = self.tuple_types(t, n)
        return len(ts) if ts else 2


def lit1(vals):
    def get(ix):
        i = ix[0]
        if i.op == 'num':
            return vals[int(i.args[0])]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = T.ite(T.eq(i, num(j, 'I')), vals[j], r)
        return r
    return ArrV((num(len(vals), 'I'),), get)


def lit2(rows):
    def get(ix):
        r = lit1(rows[-1]).get((ix[1],))
        for j in range(len(rows) - 2, -1, -1):
            r = T.ite(T.eq(ix[0], num(j, 'I')), lit1(rows[j]).get((ix[1],)), r)
        return r
    return ArrV((num(len(rows), 'I'), num(len(rows[0]), 'I')), get)


def vec_push(v, x):
    n = v.len
    if v.info and v.info[0] == 'list':
        return listvec(list(v.info[1]) + [x])
    old = v.get

    def get(i):
        c = T.eq(i, n)
        if c is TRUE:
            return x
        if c is FALSE:
            return old(i)
        return vite(c, x, old(i))
    return VecV(T.add(n, num(1, 'I')), get)
