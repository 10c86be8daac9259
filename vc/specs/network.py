"""P20, P21: parametric search and network oracles, over the contract of the negative-cycle search.

The search is used by its contract (established by P19): it reads the weights through the functor it
is given (evaluated here on an arbitrary edge), leaves arbitrary potentials behind, and returns either
no edges, with potentials that satisfy every edge, or a closed walk of at least one edge whose total
weight is negative.  A returned walk is identified by a term c: edges cyc_at(c, t), t < cyc_len(c).
"""
from kit import *
from specs.negcycle import NC, FILES, NODE, EDGE, src, tgt, isedge, isnode, graph_axioms, NN, NE, havoc_value
from values import *
import exec as X

WALK = 'Walk'
e0 = T.var('e?', EDGE)
t0 = iv('t?0')
clen = lambda c: T.app('cyc_len', (c,), 'I')
cat = lambda c, t: T.app('cyc_at', (c, t), EDGE)
iswalk = lambda c: T.app('iswalk', (c,), 'B')
M1 = num(-1, 'I')


def walkvec(c):
    return VecV(clen(c), lambda t: cat(c, t), ('walk', c))


def wid(v):
    """the walk a list of edges is"""
    if isinstance(v, VecV) and v.info and v.info[0] == 'walk':
        return v.info[1]
    return None


def total(c, f):
    """sum of f over the edges of the walk"""
    return ssum(clen(c), lambda k: f(cat(c, k)))


class Net(NC):
    """the engine with the search under contract"""

    def __init__(self, tu):
        super().__init__(tu)
        self.loop_hooks = [self.net_hook]
        c = self.contracts
        c['negCycleFinder::find_neg_cycle'] = self.c_search
        c['AbsZeroCancel::operator()'] = self.c_zero
        c['AbsParamWeight::operator()'] = lambda E, st, this, a, n, d: T.app('pw', (self.rdv(a[0], st), self.rdv(a[1], st)), 'R')
        c['AbsCost::operator()'] = lambda E, st, this, a, n, d: T.app('cost', (self.rdv(a[0], st),), 'R')
        c['AbsTime::operator()'] = lambda E, st, this, a, n, d: T.app('time', (self.rdv(a[0], st),), 'R')
        c['AbsCostI::operator()'] = lambda E, st, this, a, n, d: T.app('cost', (self.rdv(a[0], st),), 'I')
        c['AbsTimeI::operator()'] = lambda E, st, this, a, n, d: T.app('time', (self.rdv(a[0], st),), 'I')
        self.searches = []

    def do_assert(self, c, st):
        return loops.Engine.do_assert(self, c, st)

    def rdv(self, a, st):
        v = self.ev(a, st) if isinstance(a, dict) else a
        v = self.read(v, st) if isinstance(v, LV) else v
        if not isinstance(v, T.T):
            raise Unsupported('scalar argument expected, got %r' % (v,))
        return v

    # ---- ghost state: searches made, kind of the last answer (-1 none yet, 0 no edges, 1 a walk), its walk
    # and weight of the arbitrary edge, potentials of the end points of the arbitrary edge after it
    def ghosts(self, st):
        g = dict(q=I0, kind=M1, walk=Opaque(WALK, T.var('nowalk', WALK)), ds=R0, dt=R0, w=R0)
        self.gl = self.newloc('ghost', ObjV('Ghost', g), st)

    def g(self, st, k):
        v = self.read(self.gl / ('f', k), st)
        return v.t if isinstance(v, Opaque) else v

    def put(self, st, **kw):
        for k, v in kw.items():
            self.rawwrite(self.gl / ('f', k), v, st)

    # ---- contract of the search
    def weight_at(self, f, e, st):
        """the functor at an arbitrary edge; it may not write anything"""
        before = dict(st.store)
        lv = self.newloc('e', e, st)
        v = self.read(f, st) if isinstance(f, LV) else f
        if not isinstance(v, LamV):
            raise Unsupported('weight functor %r' % (v,))
        n0 = len(st.pc)

        def thunk(s):
            r = self.call_lambda(v, [lv], s)
            return T.to_real(self.read(r, s) if isinstance(r, LV) else r)
        out = []
        for s, kind, r in self.explore(st, thunk):
            if kind != 'normal':
                raise Unsupported('weight functor: %s' % kind)
            for k, x in before.items():
                if s.store.get(k) is not x:
                    raise Unsupported('the weight functor writes %s' % k)
            # what a branch on the arbitrary edge says about it holds for this value only
            new = [p for p in s.pc[n0:] if p not in self.universal]
            if any(x.op == 'forall' for p in new for x in T.subterms(p)):
                raise Unsupported('the weight functor loops')
            out.append((new, r))
        res = out[-1][1]
        for new, r in reversed(out[:-1]):
            res = T.ite(T.land(*new), r, res)
        st.assume(*[p for p in self.universal if e0.args[0] in p.fv])
        return res

    def c_search(self, E, st, this, args, n, d):
        dist = self.lv(args[0], st) if isinstance(args[0], dict) else args[0]
        f = args[1]
        if isinstance(f, dict):
            try:
                f = self.lv(f, st)
            except Unsupported:
                f = self.ev(f, st)
        st.assume(isedge(e0), isnode(src(e0)), isnode(tgt(e0)))
        W0 = self.weight_at(f, e0, st)
        W = lambda e: T.subst(W0, {e0: e})
        q = self.g(st, 'q')
        has = self.fresh('walk?', 'B')
        nm = 'dist@%d' % self.nx()
        self.write(dist, ArrV((I0,), lambda ix: T.app(nm, tuple(ix), 'R')), st)
        c = self.fresh('walk', WALK)
        D = lambda x: T.app(nm, (x,), 'R')
        self.put(st, q=add(q, I1))
        self.searches.append((dist, W0))
        if self.branch(has, st):
            st.assume(le(I1, clen(c)), iswalk(c), lt(total(c, W), R0))
            for l in self.lemmas(c):
                st.assume(l)
            self.put(st, kind=I1, walk=Opaque(WALK, c), w=W0)
            return walkvec(c)
        st.assume(le(D(tgt(e0)), add(D(src(e0)), W0)))
        self.put(st, kind=I0, ds=D(src(e0)), dt=D(tgt(e0)), w=W0)
        return VecV(I0, lambda t: T.app('noedge', (t,), EDGE), ('list', []))

    def lemmas(self, c):
        """facts about a walk that follow from pointwise ones"""
        return []

    def c_zero(self, E, st, this, a, n, d):
        v = self.ev(a[0], st) if isinstance(a[0], dict) else a[0]
        v = self.read(v, st) if isinstance(v, LV) else v
        c = wid(v)
        if c is None:
            raise Unsupported('zero_cancel of a list that is no answer of the search')
        self.oblige('the parameter is computed from a walk of the graph', st, iswalk(c))
        return T.app('zc', (c,), 'R')

    # ---- loops: a loop that searches, or writes at places only known to the graph, carries invariants
    def net_hook(self, E, n, st, iteration, head, post):
        if self.abstract_loop(n):
            self.hoare_loop(n, st, iteration, self.cands)
            return True
        return False

    def abstract_loop(self, n):
        """does the loop body call the search, or index the potentials?"""
        r = n.get('_netloop')
        if r is None:
            r = False
            todo = [n]
            fns = set()
            while todo and not r:
                x = todo.pop()
                k = x.get('kind')
                if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr'):
                    d = None
                    try:
                        d = self.callee_decl(x)
                    except Exception:
                        pass
                    q = (self.qual(d) or '') if d is not None else ''
                    if q.endswith(('find_neg_cycle', 'AbsDist::operator[]')):
                        r = True
                        break
                    f = self.tu.defn.get(d['id']) if d is not None else None
                    if f is not None and f['id'] not in fns and front.body_of(f) is not None:
                        fns.add(f['id'])
                        todo.append(front.body_of(f))
                todo += [c for c in x.get('inner', []) if isinstance(c, dict)]
            n['_netloop'] = r
        return r

    def hvalue(self, leaf, ex, st0, tag):
        v0 = self.getleaf(leaf, st0)
        v = v0 if v0 is not UNINIT and v0 is not None else ex
        if isinstance(v, VecV) and (wid(v) is not None or wid(ex) is not None):
            return walkvec(T.var('v:%s@%d' % (leaf, tag), WALK))
        return super().hvalue(leaf, ex, st0, tag)

    def cands(self, E, st0, s1, leaves):
        g = self.g
        out = []
        c = lambda label, f: out.append((label, f))
        c('searches are counted from zero', lambda s: le(I0, g(s, 'q')))
        c('the last search found a walk', lambda s: lor(eq(g(s, 'q'), I0), land(eq(g(s, 'kind'), I1), iswalk(g(s, 'walk')))))
        if getattr(self, 'limit', None) is not None:
            c('the limit holds', lambda s: le(g(s, 'q'), self.limit))
        vs = list(leaves)
        for lf in self.visible():
            if lf not in vs:
                vs.append(lf)
        for lf in leaves:
            if lf.loc == self.gl.loc:
                continue
            v = self.getleaf(lf, s1)
            rd = lambda s, lf=lf: self.getleaf(lf, s)
            nm = str(lf)
            if isinstance(v, T.T) and v.sort == 'I':
                for k in (0, 1, -1):
                    c('%s = searches %+d' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and eq(rd(s), add(g(s, 'q'), num(k, 'I'))))
                if getattr(self, 'limit', None) is not None:
                    c('%s = limit - searches' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), sub(self.limit, g(s, 'q'))))
            if isinstance(v, T.T) and v.sort == 'B':
                c('%s' % nm, lambda s, rd=rd: num_ok(rd(s)) and rd(s))
                c('not %s' % nm, lambda s, rd=rd: num_ok(rd(s)) and lnot(rd(s)))
            if isinstance(v, VecV) and wid(v) is not None:
                def nonempty(s, rd=rd):
                    return FALSE if rd(s).len is I0 else le(I1, rd(s).len)

                def isw(s, rd=rd):
                    return TRUE if rd(s).len is I0 else (wid(rd(s)) is not None and implies(le(I1, rd(s).len), iswalk(wid(rd(s)))))
                c('%s is no list of negative length' % nm, lambda s, rd=rd: le(I0, rd(s).len))
                c('%s is empty or a walk' % nm, isw)
                c('%s is a walk once a search was made' % nm, lambda s, rd=rd: lor(eq(g(s, 'q'), I0), nonempty(s)))
                c('%s is the last walk' % nm, lambda s, rd=rd: TRUE if g(s, 'q') is I0 else wid(rd(s)) is not None and lor(eq(g(s, 'q'), I0), eq(wid(rd(s)), g(s, 'walk'))))
                for rl in vs:
                    try:
                        r1 = self.getleaf(rl, s1)
                    except Exception:
                        continue
                    if not isinstance(r1, T.T) or r1.sort != 'R' or rl.loc == self.gl.loc:
                        continue
                    r0 = self.getleaf(rl, st0)

                    def init(s, rd=rd, rl=rl, r0=r0):
                        return lor(nonempty(s), eq(self.getleaf(rl, s), r0)) if num_ok(r0) else None

                    def comp(s, rd=rd, rl=rl):
                        if rd(s).len is I0:
                            return TRUE
                        return wid(rd(s)) is not None and lor(eq(rd(s).len, I0), eq(self.getleaf(rl, s), self.value(wid(rd(s)))))
                    c('%s is the initial value while %s is empty' % (rl, nm), init)
                    c('%s is the value of %s' % (rl, nm), comp)
            if isinstance(v, T.T) and v.sort == 'R':
                r0 = self.getleaf(lf, st0)
                if num_ok(r0):
                    c('%s does not increase' % nm, lambda s, rd=rd, r0=r0: le(rd(s), r0))
        return [(l, (lambda f: lambda s: f(s) or None)(f)) for l, f in out]

    def value(self, c):
        """the parameter value a walk stands for"""
        return T.app('zc', (c,), 'R')


class NetRatio(Net):
    cs = ts = 'R'

    def cost(self, e):
        return T.to_real(T.app('cost', (e,), self.cs))

    def time(self, e):
        return T.to_real(T.app('time', (e,), self.ts))

    def value(self, c):
        return div(total(c, self.cost), total(c, self.time))

    positive = bv('times_positive')

    def lemmas(self, c):
        # lemma sum_positive (Lean): a sum of at least one positive terms is positive
        return [implies(self.positive, lt(R0, total(c, self.time)))]


def num_ok(v):
    return isinstance(v, T.T)


def func(tu, name, *types):
    r = [f for f in tu.funcs if f.get('name') == name and front.body_of(f) is not None and not front.is_pattern(f)
         and all(t in f['type']['qualType'] for t in types)]
    if not r:
        raise Unsupported('no instantiation of %s' % name)
    return r[0]


# ------------------------------------------------------------------------------------------ P20
def driver_call(E, tu, drv, env, st):
    f = func(tu, drv)
    return run(E, f, None, env, st)


def parametric(S, tu, fn, drv, E, mk, note=''):
    with S.part(fn):
        st = State()
        graph_axioms(st)
        E.ghosts(st)
        r0, n = rv('r0'), iv('limit')
        st.assume(le(I0, n))
        E.limit = n
        E.check_div = False
        G = E.newloc('G', Tag('graph'), st)
        dist = E.newloc('dist', ArrV((I0,), lambda ix: T.app('dist', tuple(ix), 'R')), st)
        r = E.newloc('r', r0, st)
        fs = [E.newloc('f%d' % k, Tag(x), st) for k, x in enumerate(mk)]
        f = func(tu, drv)
        if fn not in S.functions:
            S.functions.append(fn)
        fn += note
        S.reach.append((fn, st.pc))
        some = set()
        for k, (s, v) in enumerate(run(E, f, None, [G, dist] + fs + [r, n], st)):
            lab = 'path %d: ' % k
            g = lambda x: E.g(s, x)
            R = E.read(r, s)
            v = E.read(v, s) if isinstance(v, LV) else v
            c = wid(v)
            if c is None and v.len is not I0:
                S.fact(fn, lab + 'the returned list is an answer of the search, or empty', False)
                continue
            some.add(c is not None)
            S.reach.append(('%s path %d' % (fn, k), s.pc))
            goal = lambda name, f: S.goal(fn, lab + name, s.pc, f, rlimit=4_000_000)
            goal('the parameter never increases', le(R, r0))
            if c is None:
                goal('without a cycle the parameter is unchanged', eq(R, r0))
            else:
                goal('without a cycle the parameter is unchanged', lor(le(I1, clen(c)), eq(R, r0)))
                goal('the returned edges are a cycle of the graph', implies(le(I1, clen(c)), iswalk(c)))
                goal('the parameter is the value of the returned cycle', implies(le(I1, clen(c)), eq(R, E.value(c))))
            goal('no more searches than the limit allows', le(g('q'), n))
            last = g('walk')
            weight = E.w0(R)
            opt = land(eq(g('kind'), I0), le(g('dt'), add(g('ds'), weight)))
            stuck = land(eq(g('kind'), I1), iswalk(last), eq(g('w'), weight), le(R, E.value(last)))
            goal('it stops early only at an optimum', lor(le(n, g('q')), opt, stuck))
            if isinstance(E, NetRatio):
                goal('with positive times it stops early only when no cycle has a smaller ratio', implies(E.positive, lor(le(n, g('q')), opt)))
        S.fact(fn, 'both kinds of result occur', some == {True} or some == {True, False})
        S.absorb(E)
        S.safety(E, fn)


def check(S, which):
    tu = load(FILES, 'graph.hpp')
    {'P20': p20, 'P21': p21}[which](S, tu)
    S.lean.append('negcycle')


def p20(S, tu):
    E = Net(tu)
    E.w0 = lambda r: T.app('pw', (r, e0), 'R')
    parametric(S, tu, 'max_parametric', 'drv_param', E, ['pw', 'zc'])
    for drv, cs, ts in (('drv_ratio', 'R', 'R'), ('drv_ratio2', 'I', 'R'), ('drv_ratio3', 'R', 'I')):
        E = NetRatio(tu)
        E.cs, E.ts = cs, ts
        E.w0 = lambda r, E=E: sub(E.cost(e0), mul(r, E.time(e0)))
        nm = {'R': 'real', 'I': 'integer'}
        parametric(S, tu, 'min_cycle_ratio', drv, E, ['cost', 'time'], ' (%s costs, %s times)' % (nm[cs], nm[ts]))


# ------------------------------------------------------------------------------------------ P21
class Orc(Net):
    """edge functions given by contract; points are recognised by their value"""

    def __init__(self, tu):
        super().__init__(tu)
        self.points = []
        self.no_loops = False
        for h in ('AbsH', 'AbsHV'):
            self.contracts[h + '::eval'] = self.c_eval
            self.contracts[h + '::grad'] = self.c_grad
            self.contracts[h + '::update'] = self.c_update
        self.check_div = False

    def end_points(self, E, st, this, a, n, d):
        e = self.rdv(a[0], st)
        facts = [isnode(src(e)), isnode(tgt(e))] + ([ne(src(e), tgt(e))] if self.no_loops else [])
        self.universal = self.universal | set(facts)
        st.assume(*facts)
        return TupV([src(e), tgt(e)])

    def point(self, v):
        for w, nm in self.points:
            if isinstance(v, T.T) and v is w:
                return nm
            if isinstance(v, ArrV) and isinstance(w, ArrV):
                i = iv('i?')
                if v.get((i,)) is w.get((i,)) and v.shape == w.shape:
                    return nm
        raise Unsupported('edge function at an unknown point')

    def h(self, a, st):
        v = self.ev(a, st) if isinstance(a, dict) else a
        return self.read(v, st) if isinstance(v, LV) else v

    def c_eval(self, E, st, this, a, n, d):
        return T.app('heval', (self.read(this, st).f['t'], self.h(a[0], st), self.point(self.h(a[1], st))), 'R')

    def c_grad(self, E, st, this, a, n, d):
        t, e, x = self.read(this, st).f['t'], self.h(a[0], st), self.h(a[1], st)
        p = self.point(x)
        if isinstance(x, ArrV):
            return ArrV(x.shape, lambda ix: T.app('hgrad', (t, e, p, ix[0]), 'R'))
        return T.app('hgrad', (t, e, p), 'R')

    def c_update(self, E, st, this, a, n, d):
        self.write(this / ('f', 't'), T.to_real(self.rdv(a[0], st)), st)


def spec_class(tu, name, *args):
    """the instantiation of a class template with these template arguments"""
    def targs(c):
        return [x.get('type', {}).get('qualType', '') for x in c.get('inner', []) if x.get('kind') == 'TemplateArgument']
    r = [c for c in tu.classes.values() if c.get('name') == name and c.get('kind') == 'ClassTemplateSpecializationDecl' and c.get('_fields')]
    r2 = [c for c in r if all(any(t.split('::')[-1] == a for t in targs(c)) for a in args)]
    if not r2:
        raise Unsupported('no instantiation of %s<%s>: %s' % (name, ', '.join(args), [targs(c) for c in r]))
    return r2[0]


def used(E, tu, cls, args, st, skip=()):
    """an object that has been used before: its mutable fields hold anything"""
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == len(args) and not f.get('isImplicit'))
    s, lv = build(E, cls, ct, args, st)
    o = E.read(lv, s)
    for f, v in o.f.items():
        if f in skip:
            continue
        if isinstance(v, T.T) and f in mutable_fields(tu, cls):
            o = acc_set(o, ('f', f), havoc_value('old' + f, v), s)
    s.store[lv.loc] = o
    return s, lv


def dot(g, z, x, n):
    if isinstance(g, T.T):
        return mul(g, sub(z, x))
    if n.op == 'num':
        r = R0
        for i in range(int(n.args[0])):
            r = add(r, mul(g.get((num(i, 'I'),)), sub(z.get((num(i, 'I'),)), x.get((num(i, 'I'),)))))
        return r
    return ssum(n, lambda k: mul(g.get((k,)), sub(z.get((k,)), x.get((k,)))))


def indicators(t):
    """case distinctions as multiples of 0-1 indicators, so that sums of them split"""
    def go(x):
        if x.op in ('var', 'num', 'bool'):
            return x
        if x.op == 'ite' and x.sort in 'IR':
            c, a, b = x.args
            if c.op == 'not':
                c, a, b = c.args[0], b, a
            a, b = go(a), go(b)
            return add(b, mul(T.ite(c, R1, R0), sub(T.to_real(a), T.to_real(b))))
        return T.rebuild(x, go)
    return go(t)


class Case:
    """an oracle at a point x, with a second point z that admits potentials"""

    def __init__(self, S, tu, fn, vector, n=None):
        self.S, self.tu, self.fn = S, tu, fn
        E = self.E = Orc(tu)
        st = self.st = State()
        graph_axioms(st)
        E.ghosts(st)
        self.n = n if n is not None else (iv('n') if vector else I1)
        if vector:
            st.assume(le(I1, self.n))
            self.xv, self.zv = [ArrV((self.n,), lambda ix, nm=nm: T.app(nm, tuple(ix), 'R')) for nm in 'xz']
        else:
            self.xv, self.zv = rv('x'), rv('z')
        E.points = [(self.xv, T.var('x', 'Point')), (self.zv, T.var('z', 'Point'))]
        self.x, self.z = E.newloc('x', self.xv, st), E.newloc('z', self.zv, st)
        self.G = E.newloc('G', Tag('graph'), st)
        self.dist = E.newloc('dist', ArrV((I0,), lambda ix: T.app('dist', tuple(ix), 'R')), st)
        S.reach.append((fn, st.pc))

    def at(self, h, cls, what, p, st):
        """the edge function (or its gradient) of the oracle at the arbitrary edge"""
        E = self.E
        if cls is None:
            a = [E.newloc('e', e0, st), p]
            v = (E.c_eval if what == 'eval' else E.c_grad)(E, st, h, a, None, None)
            return v
        f = method(self.tu, cls, what, pred=lambda f: (f.get('_cls') or {}).get('id') == cls['id'])
        n0 = len(st.pc)
        r = [(T.land(*s.pc[n0:]), E.read(v, s) if isinstance(v, LV) else v) for s, v in run(E, f, h, [E.newloc('e', e0, st), p], st)]
        v = r[-1][1]
        for c, x in reversed(r[:-1]):
            v = ArrV(v.shape, lambda ix, c=c, x=x, v=v: T.ite(c, x.get(ix), v.get(ix))) if isinstance(v, ArrV) else T.ite(c, x, v)
        return v

    def cut(self, lab, st, h, cls, g, f, strict=FALSE):
        """the cut (g, f) of an infeasible x: violated at x, satisfied by every z that admits potentials"""
        S, E, fn = self.S, self.E, self.fn
        c = E.g(st, 'walk')
        S.goal(fn, lab + 'a cut is only returned where the search found a violating cycle', st.pc, land(eq(E.g(st, 'kind'), I1), iswalk(c)))
        s = st.copy()
        s.assume(isedge(e0))
        Wx, Wz, Gr = [self.at(h, cls, w, p, s) for w, p in (('eval', self.x), ('eval', self.z), ('grad', self.x))]
        lin = add(Wx, dot(Gr, self.zv, self.xv, self.n))
        if cls is not None:
            S.goal(fn, lab + 'the gradient is that of the edge function', s.pc, eq(Wz, lin))
        on = lambda t: total(c, lambda e: T.subst(T.to_real(t), {e0: e}))
        S.goal(fn, lab + 'the cut is violated at the point', [indicators(p) for p in st.pc], lt(R0, indicators(f)))
        # lemma potentials_exclude at z; lemma sum_le_sum with the edge function below its linearisation
        hyp = list(st.pc) + [le(R0, on(Wz)), le(on(Wz), on(lin))]
        S.goal(fn, lab + 'every point admitting potentials satisfies the cut', [indicators(p) for p in hyp], le(indicators(add(dot(g, self.zv, self.xv, self.n), f)), R0))

    def accepted(self, lab, st, h, cls):
        E = self.E
        s = st.copy()
        s.assume(isedge(e0))
        Wx = self.at(h, cls, 'eval', self.x, s)
        D = E.read(self.dist, st)
        self.S.goal(self.fn, lab + 'accepts only with potentials that satisfy every edge', s.pc + [isedge(e0)], le(D.get((tgt(e0),)), add(D.get((src(e0),)), Wx)))


def opt_paths(E, s, v):
    v = E.read(v, s) if isinstance(v, LV) else v
    if not isinstance(v, OptV):
        raise Unsupported('optional expected, got %r' % (v,))
    return v


def network(S, tu, fn, H, vector):
    with S.part(fn):
        C = Case(S, tu, fn, vector)
        E, st = C.E, C.st
        cls = spec_class(tu, 'network_oracle', H)
        h0 = E.newloc('h', ObjV(H, {'t': rv('p0')}), st)
        st, lv = used(E, tu, cls, [C.G, C.dist, h0], st)
        hf = [f for f, v in E.read(lv, st).f.items() if isinstance(v, ObjV) and v.cls == H]
        if len(hf) != 1:
            raise Unsupported('edge function of the oracle not found')
        h = lv / ('f', hf[0])
        S.functions += [x for x in ('network_oracle::operator()', 'network_oracle::update', 'network_oracle::network_oracle') if x not in S.functions]
        # update reaches the edge function
        up = [f for f in tu.funcs if f.get('name') == 'update' and front.body_of(f) is not None and not front.is_pattern(f) and (f.get('_cls') or {}).get('id') == cls['id']]
        if not up:
            raise Unsupported('network_oracle::update not found')
        p = rv('p')
        s, _ = run1(E, up[0], lv, [E.newloc('t', p, st)], st)
        S.goal(fn, 'update gives the edge function the parameter', s.pc, eq(E.read(h, s).f['t'], p))
        f = method(tu, cls, 'operator()', pred=lambda f: (f.get('_cls') or {}).get('id') == cls['id'])
        kinds = set()
        for k, (s, v) in enumerate(run(E, f, lv, [C.x], st)):
            lab = 'path %d: ' % k
            v = opt_paths(E, s, v)
            S.goal(fn, lab + 'an answer leaves the edge function as it was', s.pc, eq(E.read(h, s).f['t'], rv('p0')))
            for has in (TRUE, FALSE):
                w = s.copy()
                w.assume(v.has if has is TRUE else lnot(v.has))
                if smt.entails(w.pc, FALSE):
                    continue
                kinds.add(has)
                if has is TRUE:
                    g, fv = v.val.items
                    C.cut(lab, w, h, None, g, fv)
                else:
                    C.accepted(lab, w, h, None)
        S.fact(fn, 'both answers occur', len(kinds) == 2)
        S.absorb(E)
        S.safety(E, fn)


def ratio_oracle(S, tu, name, vector, args, obj, better, no_loops, constraint):
    fn = name + '::operator()'
    with S.part(fn):
        C = Case(S, tu, fn, vector, I2 if vector else None)
        E, st = C.E, C.st
        E.no_loops = no_loops
        cls = spec_class(tu, name, 'AbsCost')
        fs = [E.newloc('f%d' % k, ObjV(x, {}), st) for k, x in enumerate(args)]
        st, lv = used(E, tu, cls, [C.G, C.dist] + fs, st)
        S.functions += [name + '::' + x for x in ('operator()', name, 'Ratio::eval', 'Ratio::grad')]
        net = [f for f, v in E.read(lv, st).f.items() if isinstance(v, ObjV) and v.cls.startswith('network_oracle')]
        if len(net) != 1:
            raise Unsupported('network oracle not found in %s: %s' % (name, E.read(lv, st)))
        nv = E.read(lv / ('f', net[0]), st)
        hf = [f for f, v in nv.f.items() if isinstance(v, ObjV) and v.cls.split('::')[-1] == 'Ratio']
        if len(hf) != 1:
            raise Unsupported('edge function of %s not found: %s' % (name, nv))
        h = lv / ('f', net[0]) / ('f', hf[0])
        hcls = nested(tu, cls, 'Ratio')
        s = st.copy()
        s.assume(isedge(e0))
        W = C.at(h, hcls, 'eval', C.x, s)
        S.goal(fn, 'the edge function is the constraint of the edge', s.pc + list(E.universal), eq(W, constraint(C.xv)))
        tv = rv('t')
        t = E.newloc('t', tv, st)
        f = method(tu, cls, 'operator()', pred=lambda f: (f.get('_cls') or {}).get('id') == cls['id'])
        kinds = set()
        ox, oz = obj(C.xv), obj(C.zv)
        for k, (s, v) in enumerate(run(E, f, lv, [C.x, t], st)):
            lab = 'path %d: ' % k
            v = E.read(v, s) if isinstance(v, LV) else v
            cut, shr = v.items
            g, fv = cut.items
            t1 = E.read(t, s)
            asked = E.g(s, 'q') is not I0
            for flag in (TRUE, FALSE):
                w = s.copy()
                w.assume(shr if flag is TRUE else lnot(shr))
                if smt.entails(w.pc, FALSE):
                    continue
                goal = lambda nm, gl: S.goal(fn, lab + nm, w.pc, gl)
                if flag is TRUE:
                    kinds.add('improved')
                    goal('an improvement needs an accepted point', eq(E.g(w, 'kind'), I0))
                    C.accepted(lab, w, h, hcls)
                    goal('the best value becomes that of the point', eq(t1, ox))
                    goal('an improvement is strictly better', better(ox, tv))
                else:
                    goal('without an improvement the best value is unchanged', eq(t1, tv))
                # the cut
                val = add(dot(g, C.zv, C.xv, C.n), fv)
                if not smt.entails(w.pc, ne(E.g(w, 'kind'), I1)):
                    kinds.add('cycle')
                    w1 = w.copy()
                    w1.assume(eq(E.g(w, 'kind'), I1))
                    C.cut(lab, w1, h, hcls, g, fv)
                w0 = w.copy()
                w0.assume(ne(E.g(w, 'kind'), I1))
                if not smt.entails(w0.pc, FALSE):
                    kinds.add('objective')
                    S.goal(fn, lab + 'the objective cut is satisfied by every better point', w0.pc + [better(oz, t1)], le(val, R0))
                    S.goal(fn, lab + 'the objective cut is not satisfied strictly by the point itself', w0.pc, le(R0, fv))
                    S.goal(fn, lab + 'a feasible better point is reported as an improvement', w0.pc + [eq(E.g(w, 'kind'), I0), better(ox, tv)], TRUE if flag is TRUE else FALSE)
        S.fact(fn, 'improvement, cycle cut and objective cut occur', kinds == {'improved', 'cycle', 'objective'}, str(kinds))
        S.absorb(E)
        S.safety(E, fn)


def nested(tu, cls, name):
    r = [c for c in tu.classes.values() if c.get('name') == name and c.get('_fields') and any(
        f.get('_cls', {}).get('id') == c['id'] for f in tu.funcs if f.get('_cls'))]
    r = [c for c in r if inside(cls, c)] or r
    if not r:
        raise Unsupported('class %s of %s not found' % (name, cls.get('name')))
    return r[0]


def inside(n, c):
    if n.get('id') == c['id']:
        return True
    return any(inside(x, c) for x in n.get('inner', []) if isinstance(x, dict) and x.get('kind', '').endswith('Decl'))


def p21(S, tu):
    network(S, tu, 'network_oracle (vector)', 'AbsHV', True)
    network(S, tu, 'network_oracle (scalar)', 'AbsH', False)
    at = lambda v, i: v.get((num(i, 'I'),))
    cost, time = T.app('cost', (e0,), 'R'), T.app('time', (e0,), 'R')
    ratio_oracle(S, tu, 'optscaling_oracle', True, ['AbsCost'], lambda v: sub(at(v, 0), at(v, 1)), lambda a, b: lt(a, b), True,
                 lambda v: ite(lt(src(e0), tgt(e0)), sub(at(v, 0), cost), sub(cost, at(v, 1))))
    ratio_oracle(S, tu, 'cycle_ratio_oracle', False, ['AbsCost', 'AbsTime'], lambda v: v, lambda a, b: lt(b, a), False,
                 lambda v: sub(cost, mul(time, v)))
