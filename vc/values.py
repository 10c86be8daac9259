"""Symbolic values, lvalues and program states."""
import terms as T
from terms import TRUE, FALSE
from front import Unsupported


class ArrV:
    """array value: shape (tuple of I terms) and an element function"""
    __slots__ = ('shape', 'get', 'sort')

    def __init__(self, shape, get, sort='R'):
        self.shape = tuple(shape)
        self.get = get
        self.sort = sort

    def __repr__(self):
        return 'Arr%s' % (self.shape,)


class VecV:
    """sequence: length and element function (elements are values)"""
    __slots__ = ('len', 'get', 'info')

    def __init__(self, ln, get, info=None):
        self.len, self.get, self.info = ln, get, info

    def __repr__(self):
        return 'Vec[%s]' % self.len


class StrV:
    """string / char sequence: length and character codes"""
    __slots__ = ('len', 'get', 'lit')

    def __init__(self, ln, get, lit=None):
        self.len, self.get, self.lit = ln, get, lit

    def __repr__(self):
        return 'Str(%r)' % (self.lit if self.lit is not None else self.len)


class TupV:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class OptV:
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has, self.val = has, val

    def __repr__(self):
        return 'Opt(%r, %r)' % (self.has, self.val)


class ObjV:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, dict(f)

    def __repr__(self):
        return 'Obj:%s%r' % (self.cls, self.f)


class LamV:
    __slots__ = ('node', 'env', 'this', 'fn', 'cap')

    def __init__(self, node, env, this, fn=None, cap=None):
        self.node, self.env, self.this, self.fn, self.cap = node, env, this, fn, cap


class RefV:
    """a reference stored in an object field / tuple / captured variable"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ref(%r)' % (self.lv,)


class ViewV:
    """unevaluated xt::view bound to its array"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class MapV:
    """finite map: domain predicate and value function over key terms"""
    __slots__ = ('dom', 'get', 'ks', 'vs', 'n', 'keys')

    def __init__(self, dom, get, ks, vs, n=None, keys=None):
        self.dom, self.get, self.ks, self.vs, self.n, self.keys = dom, get, ks, vs, n, keys


class Opaque:
    """value of an abstract (declared only) class: identified by a term"""
    __slots__ = ('cls', 't')

    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __repr__(self):
        return 'Abs:%s:%r' % (self.cls, self.t)


class Tag:
    """markers such as xt::all(), xt::range(a,b), nullopt, a type"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return 'Tag:%s%r' % (self.kind, self.a)


class LV:
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def __truediv__(self, acc):
        return LV(self.loc, self.path + (acc,))

    def __repr__(self):
        return '%s%s' % (self.loc, ''.join('.%s' % (p,) for p in self.path))

    def __eq__(self, o):
        return isinstance(o, LV) and (self.loc, self.path) == (o.loc, o.path)

    def __hash__(self):
        return hash((self.loc, self.path))


UNINIT = Tag('uninit')


class State:
    __slots__ = ('store', 'pc', 'ghost')

    def __init__(self):
        self.store, self.pc, self.ghost = {}, [], {}

    def copy(self):
        s = State()
        s.store, s.pc, s.ghost = dict(self.store), list(self.pc), dict(self.ghost)
        return s

    def become(self, o):
        self.store, self.pc, self.ghost = dict(o.store), list(o.pc), dict(o.ghost)

    def assume(self, *ts):
        for t in ts:
            if t.op == 'and':
                self.assume(*t.args)
            elif t is not TRUE and t not in self.pc:
                self.pc.append(t)


def idx_eq(a, b):
    return T.land(*[T.eq(x, y) for x, y in zip(a, b)])


def view_arr(a, spec):
    """the array denoted by view spec (tuple of ('i',t) | ('all',) | ('r',lo,hi)) of array a"""
    spec = tuple(spec) + (('all',),) * (len(a.shape) - len(spec))
    shape = []
    for s, n in zip(spec, a.shape):
        if s[0] == 'all':
            shape.append(n)
        elif s[0] == 'r':
            shape.append(T.sub(s[2], s[1]))

    def get(ix):
        ix = list(ix)
        full = []
        for s in spec:
            if s[0] == 'i':
                full.append(s[1])
            elif s[0] == 'all':
                full.append(ix.pop(0))
            else:
                full.append(T.add(s[1], ix.pop(0)))
        return a.get(tuple(full))
    return ArrV(shape, get)


def view_set(a, spec, val):
    spec = tuple(spec) + (('all',),) * (len(a.shape) - len(spec))

    def get(ix):
        conds, sub = [], []
        for s, x in zip(spec, ix):
            if s[0] == 'i':
                conds.append(T.eq(x, s[1]))
            elif s[0] == 'all':
                sub.append(x)
            else:
                conds += [T.le(s[1], x), T.lt(x, s[2])]
                sub.append(T.sub(x, s[1]))
        c = T.land(*conds)
        if c is FALSE:
            return a.get(ix)
        return T.ite(c, val.get(tuple(sub)), a.get(ix))
    return ArrV(a.shape, get)


def acc_get(v, acc, st):
    k = acc[0]
    if k == 'f':
        if not isinstance(v, ObjV) or acc[1] not in v.f:
            raise Unsupported('no field %s in %r' % (acc[1], v))
        return v.f[acc[1]]
    if k == 't':
        return v.items[acc[1]]
    if k == 'o':
        return v.val
    if k == 'e':
        if isinstance(v, ArrV):
            return v.get(acc[1])
        raise Unsupported('element of %r' % (v,))
    if k == 'v':
        return view_arr(v, acc[1])
    if k == 's':
        return v.get(acc[1])
    if k == 'k':
        return v.get(acc[1])
    raise Unsupported('accessor %s' % (acc,))


def acc_set(v, acc, new, st):
    k = acc[0]
    if k == 'f':
        o = ObjV(v.cls, v.f)
        o.f[acc[1]] = new
        return o
    if k == 't':
        it = list(v.items)
        it[acc[1]] = new
        return TupV(it)
    if k == 'o':
        return OptV(v.has, new)
    if k == 'e':
        ix = acc[1]
        old = v.get

        def get(jx):
            c = idx_eq(jx, ix)
            if c is TRUE:
                return new
            return T.ite(c, new, old(jx))
        return ArrV(v.shape, get, v.sort)
    if k == 'v':
        return view_set(v, acc[1], new)
    if k == 's':
        ix = acc[1]
        old = v.get

        def get1(j):
            c = T.eq(j, ix)
            if c is TRUE:
                return new
            if c is FALSE:
                return old(j)
            o = old(j)
            return vite(c, new, o)
        return VecV(v.len, get1, None)
    if k == 'k':
        key = acc[1]
        od, og = v.dom, v.get

        def dom(x):
            return T.lor(T.eq(x, key), od(x))

        def getm(x):
            c = T.eq(x, key)
            if c is TRUE:
                return new
            return vite(c, new, og(x))
        n = None
        if v.n is not None:
            n = T.add(v.n, T.ite(od(key), T.num(0, 'I'), T.num(1, 'I')))
        return MapV(dom, getm, v.ks, v.vs, n)
    raise Unsupported('accessor %s' % (acc,))


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T.T) and isinstance(b, T.T):
        return T.ite(c, a, b)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return ArrV(a.shape, lambda ix: T.ite(c, a.get(ix), b.get(ix)))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque(a.cls, T.ite(c, a.t, b.t))
    if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
        return TupV([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, OptV) and isinstance(b, OptV):
        return OptV(T.ite(c, a.has, b.has), a.val if b.val is None else b.val if a.val is None else vite(c, a.val, b.val))
    if a is b:
        return a
    raise Unsupported('merge of %r and %r' % (a, b))
