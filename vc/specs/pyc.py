"""P25: range, set, dict, enumerate.  The obligations are about small users of the containers
(drivers/py.hpp), through which the classes' own code is executed."""
from kit import *
from loops import Engine

N64 = num(1 << 64, 'I')


def check(S, which):
    tu = load(['py2cpp/py2cpp.hpp'], 'py.hpp')
    fn = {f['name']: f for f in tu.funcs if front.body_of(f) is not None and not f.get('_cls') and f['name'][:2] in ('d_', 's_')}

    def go(name, args, st=None):
        E = Engine(tu)
        st = st or State()
        mut = {}
        vals = []
        for a in args:
            if isinstance(a, (ObjV, VecV)):
                a = E.newloc('arg', a, st)
            vals.append(a)
        out = run(E, fn[name], None, vals, st)
        S.safety(E, name)
        S.absorb(E, name)
        return E, vals, out
    ranges(S, go)
    sets(S, go)
    dicts(S, go)
    S.assumptions.append('the standard hash containers behave as finite sets and maps (find, insert, [], at, size, iteration over every key once)')


def seq(S, E, nm, r, n, at):
    """the value is the sequence at(0..n-1)"""
    i = iv('i')
    for st, v in r:
        pc = list(st.pc)
        S.goal(nm, 'number of elements', pc, eq(v.len, n))
        e = v.get(i)
        if not isinstance(e, T.T):
            S.goal(nm, 'no elements', pc, eq(v.len, I0))
            continue
        S.goal(nm, 'element i', pc + [le(I0, i), lt(i, v.len)], eq(unfold_all(E, e, st), at(i)))


def ranges(S, go):
    a, b, n, x, c, d = iv('a'), iv('b'), iv('n'), iv('x'), iv('c'), iv('d')
    ln = ite(lt(a, b), sub(b, a), I0)
    with S.part('range'):
        E, _, r = go('d_range', [a, b])
        seq(S, E, 'range(a, b)', r, ln, lambda i: add(a, i))
        pcs = [st.pc + [lt(I0, v.len)] for st, v in r]
        S.reach += [('range(a, b) nonempty', pc) for pc in ([pc for pc in pcs if not smt.entails(pc, FALSE)] or pcs)[:1]]
        E, _, r = go('d_range1', [b])
        seq(S, E, 'range(b)', r, ite(lt(I0, b), b, I0), lambda i: i)
    with S.part('range: size and membership'):
        for nm, args, want in (('d_size', [a, b], ln), ('d_empty', [a, b], le(b, a)), ('d_in', [a, b, x], land(le(a, x), lt(x, b)))):
            E, _, r = go(nm, args)
            for st, v in r:
                S.goal('range ' + nm[2:], 'value', st.pc, eq(v, want) if v.sort != 'B' else T.iff(v, want))
        st0 = State()
        st0.assume(le(I0, n), lt(n, ln))
        E, _, r = go('d_at', [a, b, n], st0)
        for st, v in r:
            S.goal('range operator[]', 'element n', st.pc, eq(v, add(a, n)))
        E, _, r = go('d_itereq', [a, b, c, d])
        for st, v in r:
            S.goal('range iterator ==', 'value', st.pc, T.iff(v, eq(a, c)))
        E, _, r = go('d_iterend', [a, b, c, d])
        for st, v in r:
            S.goal('range iterator !=', 'value', st.pc, T.iff(v, ne(ite(lt(a, b), b, a), ite(lt(c, d), d, c))))
    with S.part('enumerate'):
        v0 = VecV(iv('len'), lambda i: T.app('v', (i,), 'R'))
        p0 = VecV(I0, lambda i: I0, ('list', []))
        st0 = State()
        st0.assume(le(I0, iv('len')))
        E, vals, r = go('d_enum', [v0, VecV(iv('plen'), lambda i: T.app('p', (i,), 'I'))], st0)
        i = iv('i')
        for st, o in r:
            pc = list(st.pc) + [le(I0, i), lt(i, iv('len'))]
            pos, w = E.read(vals[1], st), E.read(vals[0], st)
            S.goal('enumerate', 'number of elements', st.pc, eq(o.len, iv('len')))
            S.goal('enumerate', 'element i is the i-th', pc, eq(unfold_all(E, o.get(i), st), T.app('v', (i,), 'R')))
            S.goal('enumerate', 'position i', pc, land(eq(pos.len, add(iv('plen'), iv('len'))), eq(unfold_all(E, pos.get(add(iv('plen'), i)), st), i)))
            S.goal('enumerate', 'sequence unchanged', pc, land(eq(w.len, iv('len')), eq(w.get(i), T.app('v', (i,), 'R'))))


def aset():
    return ObjV('set', {'map': MapV(lambda k: T.app('in', (k,), 'B'), lambda k: TRUE, 'I', None, iv('card'), 'keys')})


def adict():
    return ObjV('dict', {'map': MapV(lambda k: T.app('in', (k,), 'B'), lambda k: T.app('at', (k,), 'R'), 'I', 'R', iv('card'), 'keys')})


IN = lambda k: T.app('in', (k,), 'B')
AT = lambda k: T.app('at', (k,), 'R')


def same(S, nm, what, st, m, dom, at=None, n=None):
    """a set or dictionary with exactly these keys and values"""
    q = iv('q')
    if isinstance(m, ObjV):
        m = m.f['map']
    S.goal(nm, what + ': keys', st.pc, T.iff(m.dom(q), dom(q)))
    if at is not None:
        S.goal(nm, what + ': values', st.pc + [dom(q)], eq(m.get(q), at(q)))
    if n is not None and m.n is not None:
        S.goal(nm, what + ': number of keys', st.pc, eq(m.n, n))


def val(S, nm, r, want, pc=()):
    for st, v in r:
        S.goal(nm, 'value', st.pc + list(pc), T.iff(v, want) if v.sort == 'B' else eq(v, want))


def sets(S, go):
    k, x, a, b = iv('k'), iv('x'), iv('a'), iv('b')
    with S.part('set'):
        for nm, args, want in (('s_contains', [aset(), k], IN(k)), ('s_lt', [aset(), k], IN(k)), ('s_len', [aset()], iv('card')),
                               ('s_copy_insert', [aset(), k, x], IN(x)), ('s_empty', [x], FALSE),
                               ('s_list', [a, b, x], lor(eq(x, a), eq(x, b))), ('s_listlen', [a, b], ite(eq(a, b), I1, I2))):
            E, vals, r = go(nm, args)
            val(S, 'set ' + nm[2:], r, want)
            if isinstance(args[0], ObjV):
                for st, _ in r:
                    same(S, 'set ' + nm[2:], 'the set itself is unchanged', st, E.read(vals[0], st), IN, n=iv('card'))
        E, vals, r = go('s_copy', [aset()])
        for st, v in r:
            same(S, 'set copy', 'copy', st, v, IN, n=iv('card'))
            same(S, 'set copy', 'the set itself is unchanged', st, E.read(vals[0], st), IN, n=iv('card'))
        E, vals, r = go('s_move', [aset()])
        for st, v in r:
            same(S, 'set move', 'moved set', st, v, IN, n=iv('card'))
        v0 = VecV(iv('len'), lambda i: T.app('v', (i,), 'I'))
        E, vals, r = go('s_range', [v0])
        for st, v in r:
            same(S, 'set of a range', 'set', st, v, lambda q: T.app('member:%s' % v0.get(I0), (I0, iv('len'), q), 'B'))


def dicts(S, go):
    k, y, a, b = iv('k'), iv('y'), iv('a'), iv('b')
    x, w = rv('x'), rv('w')
    seven = num(7)
    with S.part('dict'):
        get = ite(IN(k), AT(k), x)
        for nm, args, want, chg in (
                ('d_contains', [adict(), k], IN(k), None), ('d_lt', [adict(), k], IN(k), None), ('d_len', [adict()], iv('card'), None),
                ('d_get', [adict(), k, x], get, None), ('d_sub', [adict(), k], ite(IN(k), AT(k), R0), (R0, False)),
                ('d_put', [adict(), k, x], None, (x, True)),
                ('d_copy_put', [adict(), k, x, y], ite(IN(y), AT(y), seven), None),
                ('d_put_copy', [adict(), k, x, y], ite(IN(y), AT(y), seven), (x, True)),
                ('d_list', [a, b, x, w, k], ite(eq(k, a), x, ite(eq(k, b), w, seven)), None),
                ('d_listlen', [a, b, x, w], ite(eq(a, b), I1, I2), None), ('d_fresh', [k], FALSE, None)):
            E, vals, r = go(nm, args)
            if want is not None:
                val(S, 'dict ' + nm[2:], r, want)
            if not isinstance(args[0], ObjV):
                continue
            for st, _ in r:
                m = E.read(vals[0], st)
                if chg is None:
                    same(S, 'dict ' + nm[2:], 'the dictionary is unchanged', st, m, IN, AT, iv('card'))
                else:
                    same(S, 'dict ' + nm[2:], 'the dictionary afterwards', st, m, lambda q: lor(eq(q, k), IN(q)),
                         lambda q: ite(land(eq(q, k), TRUE if chg[1] else lnot(IN(k))), chg[0], AT(q)), add(iv('card'), ite(IN(k), I0, I1)))
        for nm in ('d_csub', 'd_items', 'd_citems'):
            st0 = State()
            st0.assume(IN(k))
            E, vals, r = go(nm, [adict(), k], st0)
            val(S, 'dict ' + nm[2:], r, AT(k))
        E, vals, r = go('d_copy', [adict()])
        for st, v in r:
            same(S, 'dict copy', 'copy', st, v, IN, AT, iv('card'))
            same(S, 'dict copy', 'the dictionary itself is unchanged', st, E.read(vals[0], st), IN, AT, iv('card'))
    with S.part('dict iteration'):
        st0 = State()
        st0.assume(le(I0, iv('card')))
        E, vals, r = go('d_keys', [adict()], st0)
        seq(S, E, 'iteration over a dict', r, iv('card'), lambda i: T.app('keys', (i,), 'I'))
