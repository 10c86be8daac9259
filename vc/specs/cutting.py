"""P07-P11: the generic search loops, over abstract oracles and search spaces.

The oracle and the space are given only by contracts.  Protocol obligations are preconditions of
these contracts (query at the current centre, returned cut applied before anything else, limit,
no query after a stop); what they return is arbitrary within the contract:

  oracle  accepts, or returns a cut (feasibility); returns a cut and whether it improved the
          objective, writing the objective only then (optimisation)
  update  status success, nosoln or noeffect and a size >= 0; success: a point of the space that
          satisfies the cut is in the new space; nosoln: no point of the space satisfies the cut;
          anything but success leaves the space as it was      (P01, P02, P04, P06)
  copy    same space, separate object;  set_xc(x) moves the centre to x and nothing else

A point p is fixed and arbitrary: `in(s, p)` and `sat(cut, p)` are uninterpreted.
Loop invariants are candidates over the ghost state; the inductive ones are kept (Houdini).
"""
from kit import *
from specs.common import *

SS = 'SpaceState'
P = var('p', 'AbsX')


def inside(s):
    return T.app('in', (s, P), 'B')


def sat(c):
    return T.app('sat', (c, P), 'B')


def xc(s):
    return T.app('xc', (s,), 'AbsX')


class CP(loops.Engine):
    """engine with abstract oracles and spaces"""

    def __init__(self, tu, S, fn):
        super().__init__(tu)
        self.S, self.fn = S, fn
        c = self.contracts
        c['AbsSpace::xc'] = self.c_xc
        c['AbsSpace::set_xc'] = self.c_set_xc
        c['AbsSpace::copy'] = self.c_copy
        c['AbsSpace::update'] = self.c_update
        c['AbsFeasOracle::operator()'] = self.c_feas
        c['AbsParOracle::operator()'] = self.c_feas
        c['AbsParOracle::update'] = self.c_par
        c['AbsOptOracle::operator()'] = self.c_opt
        c['AbsQOracle::operator()'] = self.c_q
        self.loop_hooks.append(self.hook)
        self.mode = 'feas'
        self.need_par = False

    def construct(self, t, args, st, n):
        cls = self.find_class(t) if not args else None
        if cls is not None and cls.get('name') in ('AbsX', 'AbsCut'):
            return Opaque(cls['name'], self.fresh('undef', cls['name']))
        return super().construct(t, args, st, n)

    # ---- ghost state
    def setup(self, st, s, limit, tol, t=None):
        self.limit, self.tol, self.s0 = limit, tol, s
        self.success, self.nosoln, self.noeffect, self.small = [code(self.tu, x) for x in ('success', 'nosoln', 'noeffect', 'smallenough')]
        g = dict(s=Opaque(SS, s), pend=FALSE, cut=Opaque('AbsCut', var('nocut', 'AbsCut')), q=I0, acc=FALSE, good=TRUE, last=num(-1, 'I'),
                 tsq=R0, any=FALSE, best=Opaque('AbsX', var('nobest', 'AbsX')), t=t if t is not None else R0, alt=FALSE, x=Opaque('AbsX', var('noquery', 'AbsX')),
                 par=FALSE, parv=R0)
        self.gl = self.newloc('ghost', ObjV('Ghost', g), st)

    def g(self, st, k):
        v = self.read(self.gl / ('f', k), st)
        return v.t if isinstance(v, Opaque) else v

    def put(self, st, **kw):
        for k, v in kw.items():
            if isinstance(v, T.T) and v.sort not in 'IRB':
                v = Opaque(v.sort, v)
            self.rawwrite(self.gl / ('f', k), v, st)

    def v(self, a, st):
        if isinstance(a, dict):
            a = self.ev(a, st)
        v = self.read(a, st) if isinstance(a, LV) else a
        if isinstance(v, OptV):
            v = v.val
        return v.t if isinstance(v, Opaque) else v

    def space(self, this, st):
        o = self.read(this, st)
        return o.f['s'].t

    # ---- contracts
    def c_xc(self, E, st, this, args, n, d):
        return Opaque('AbsX', xc(self.space(this, st)))

    def c_set_xc(self, E, st, this, args, n, d):
        x = self.v(args[0], st)
        s = self.space(this, st)
        s2 = T.app('moved', (s, x), SS)
        st.assume(eq(xc(s2), x))
        self.write(this, ObjV('AbsSpace', {'s': Opaque(SS, s2)}), st)

    def c_copy(self, E, st, this, args, n, d):
        return ObjV('AbsSpace', {'s': Opaque(SS, self.space(this, st))})

    def c_par(self, E, st, this, args, n, d):
        self.oblige('the candidate is set before the search', st, eq(self.g(st, 'q'), I0))
        self.put(st, par=TRUE, parv=self.v(args[0], st))

    def query(self, st, x, stop):
        s = self.g(st, 's')
        self.oblige('every query is made at the current centre', st, eq(x, xc(s)))
        self.oblige('every returned cut is applied before the next query', st, lnot(self.g(st, 'pend')))
        last = self.g(st, 'last')
        none = eq(last, num(-1, 'I'))
        self.oblige('no query after the search should have stopped', st, lor(none, land(stop, le(self.tol, self.g(st, 'tsq')))))
        self.oblige('no query beyond the iteration limit', st, lt(self.g(st, 'q'), self.limit))
        if self.need_par:
            self.oblige('the oracle is given the candidate before it is asked', st, self.g(st, 'par'))
        self.put(st, q=add(self.g(st, 'q'), I1), x=x)

    def newcut(self, st, has=TRUE):
        c = self.fresh('cut', 'AbsCut')
        self.put(st, pend=has, cut=c, good=land(self.g(st, 'good'), lor(lnot(has), sat(c))))
        return Opaque('AbsCut', c)

    def c_feas(self, E, st, this, args, n, d):
        self.oblige('no query after an acceptance', st, lnot(self.g(st, 'acc')))
        self.query(st, self.v(args[0], st), eq(self.g(st, 'last'), self.success))
        has = self.fresh('cut?', 'B')
        c = self.newcut(st, has)
        self.put(st, acc=lnot(has))
        return OptV(has, c)

    def improved(self, st, tlv, x):
        b = self.fresh('shrunk', 'B')
        t = self.read(tlv, st)
        self.oblige('every query uses the current best value', st, eq(t, self.g(st, 't')))
        t2 = ite(b, self.fresh('newbest', 'R'), t)
        self.write(tlv, t2, st)
        self.put(st, t=t2, any=lor(self.g(st, 'any'), b), best=ite(b, x, self.g(st, 'best')))
        return b

    def lvarg(self, a, st):
        return self.lv(a, st) if isinstance(a, dict) else a

    def c_opt(self, E, st, this, args, n, d):
        x = self.v(args[0], st)
        self.query(st, x, eq(self.g(st, 'last'), self.success))
        b = self.improved(st, self.lvarg(args[1], st), x)
        return TupV([self.newcut(st), b])

    def c_q(self, E, st, this, args, n, d):
        x = self.v(args[0], st)
        last = self.g(st, 'last')
        self.query(st, x, lor(eq(last, self.success), land(eq(last, self.noeffect), self.g(st, 'alt'))))
        retry = self.v(args[2], st)
        self.oblige('an alternative cut is asked for exactly when the previous cut had no effect', st, eq(retry, eq(last, self.noeffect)))
        x0 = self.fresh('x0', 'AbsX')
        b = self.improved(st, self.lvarg(args[1], st), x0)
        alt = self.fresh('alt', 'B')
        self.put(st, alt=alt)
        return TupV([self.newcut(st), Opaque('AbsX', x0), b, alt])

    def c_update(self, E, st, this, args, n, d):
        c = self.v(args[0], st)
        s = self.space(this, st)
        self.oblige('the cut applied is the one the oracle just returned, once', st, land(self.g(st, 'pend'), eq(c, self.g(st, 'cut'))))
        self.oblige('the cut is applied to the space the oracle was asked about', st, eq(s, self.g(st, 's')))
        stt, tsq, s2 = self.fresh('status', 'I'), self.fresh('tsq', 'R'), self.fresh('space', SS)
        ok, no = eq(stt, self.success), eq(stt, self.nosoln)
        st.assume(lor(ok, no, eq(stt, self.noeffect)), le(R0, tsq))
        st.assume(implies(land(ok, inside(s), sat(c)), inside(s2)), implies(lnot(ok), eq(s2, s)), implies(no, lnot(land(inside(s), sat(c)))))
        self.write(this, ObjV('AbsSpace', {'s': Opaque(SS, s2)}), st)
        self.put(st, pend=FALSE, s=s2, last=stt, tsq=tsq)
        return TupV([stt, tsq])

    # ---- the loop
    def hook(self, E, n, st, iteration, head, post):
        if self.mode in ('bsearch',):
            self.hoare_loop(n, st, iteration, self.bcands)
        else:
            self.hoare_loop(n, st, iteration, self.cands)
        return True

    def cands(self, E, st0, s1, leaves):
        g, M1 = self.g, num(-1, 'I')
        out = []

        def c(label, f):
            out.append((label, f))
        c('no cut is waiting', lambda s: lnot(g(s, 'pend')))
        c('not accepted yet', lambda s: lnot(g(s, 'acc')))
        c('queries are counted from zero', lambda s: le(I0, g(s, 'q')))
        c('the limit holds', lambda s: le(g(s, 'q'), self.limit))
        c('no stop so far', lambda s: lor(eq(g(s, 'last'), M1), eq(g(s, 'last'), self.success)))
        c('no stop so far (alternatives)', lambda s: lor(eq(g(s, 'last'), M1), eq(g(s, 'last'), self.success), land(eq(g(s, 'last'), self.noeffect), g(s, 'alt'))))
        c('large enough so far', lambda s: lor(eq(g(s, 'last'), M1), le(self.tol, g(s, 'tsq'))))
        c('no query yet iff no update yet', lambda s: eq(eq(g(s, 'q'), I0), eq(g(s, 'last'), M1)))
        c('points satisfying all cuts are inside', lambda s: implies(land(inside(self.s0), g(s, 'good')), inside(g(s, 's'))))
        c('candidate set', lambda s: g(s, 'par'))
        for lf in leaves:
            if lf.loc == self.gl.loc:
                continue
            v = self.getleaf(lf, s1)
            rd = lambda s, lf=lf: self.getleaf(lf, s)
            nm = str(lf)
            if isinstance(v, T.T) and v.sort == 'I':
                for k in (0, 1, -1):
                    c('%s = queries %+d' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and eq(rd(s), add(g(s, 'q'), num(k, 'I'))))
                c('%s = limit - queries' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), sub(self.limit, g(s, 'q'))))
                for k in (self.success, self.nosoln, self.noeffect, self.small):
                    c('%s = status %s' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and eq(rd(s), k))
                    c('%s = status %s until the first update' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and lor(lnot(eq(g(s, 'last'), M1)), eq(rd(s), k)))
                c('%s = last status' % nm, lambda s, rd=rd: num_ok(rd(s)) and lor(eq(g(s, 'last'), M1), eq(rd(s), g(s, 'last'))))
            elif isinstance(v, T.T) and v.sort == 'B':
                c('%s = false' % nm, lambda s, rd=rd: num_ok(rd(s)) and lnot(rd(s)))
                c('%s = true' % nm, lambda s, rd=rd: num_ok(rd(s)) and rd(s))
                c('%s = improved' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), g(s, 'any')))
                c('%s = accepted' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), g(s, 'acc')))
                c('%s = last cut had no effect' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), eq(g(s, 'last'), self.noeffect)))
            elif isinstance(v, T.T) and v.sort == 'R':
                c('%s = best value' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), g(s, 't')))
                c('%s = last size' % nm, lambda s, rd=rd: num_ok(rd(s)) and lor(eq(g(s, 'last'), M1), eq(rd(s), g(s, 'tsq'))))
            elif isinstance(v, Opaque) and v.cls == 'AbsX':
                c('%s = best point' % nm, lambda s, rd=rd: lor(lnot(g(s, 'any')), eq(rd(s).t, g(s, 'best'))))
                c('%s = centre' % nm, lambda s, rd=rd: eq(rd(s).t, xc(g(s, 's'))))
            elif isinstance(v, Opaque) and v.cls == SS:
                c('%s = the space' % nm, lambda s, rd=rd: eq(rd(s).t, g(s, 's')))
        return [(l, (lambda f: lambda s: f(s) or None)(f)) for l, f in out]

    # ---- binary search
    def bcands(self, E, st0, s1, leaves):
        g = self.g
        out = []

        def c(label, f):
            out.append((label, f))
        c('bracket ordered', lambda s: le(g(s, 'lo'), g(s, 'up')))
        c('bracket inside the initial one', lambda s: land(le(self.lo0, g(s, 'lo')), le(g(s, 'up'), self.up0)))
        c('lower end initial or infeasible', lambda s: lor(eq(g(s, 'lo'), self.lo0), lnot(self.pred(g(s, 'lo')))))
        c('upper end initial or feasible', lambda s: lor(eq(g(s, 'up'), self.up0), self.pred(g(s, 'up'))))
        c('queries are counted from zero', lambda s: le(I0, g(s, 'q')))
        c('the limit holds', lambda s: le(g(s, 'q'), self.limit))
        for lf in leaves:
            if lf.loc == self.gl.loc:
                continue
            v = self.getleaf(lf, s1)
            rd = lambda s, lf=lf: self.getleaf(lf, s)
            nm = str(lf)
            if not isinstance(v, T.T):
                continue
            if v.sort == self.sort or v.sort == 'I':
                for k in ('lo', 'up'):
                    c('%s = %s' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and rd(s).sort == self.sort and eq(rd(s), g(s, k)))
            if v.sort == 'I':
                for k in (0, 1, -1):
                    c('%s = queries %+d' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and eq(rd(s), add(g(s, 'q'), num(k, 'I'))))
                c('%s = limit - queries' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), sub(self.limit, g(s, 'q'))))
                for k in (self.success, self.small):
                    c('%s = status %s' % (nm, k), lambda s, rd=rd, k=k: num_ok(rd(s)) and eq(rd(s), k))
            elif v.sort == 'B':
                c('%s = false' % nm, lambda s, rd=rd: num_ok(rd(s)) and lnot(rd(s)))
                c('%s = upper end moved' % nm, lambda s, rd=rd: num_ok(rd(s)) and eq(rd(s), ne(g(s, 'up'), self.up0)))
        return [(l, (lambda f: lambda s: f(s) or None)(f)) for l, f in out]

    def pred(self, t):
        return T.app('pred', (t,), 'B')

    def c_pred(self, E, st, this, args, n, d):
        t = self.v(args[0], st)
        lo, up = self.g(st, 'lo'), self.g(st, 'up')
        self.oblige('no query beyond the iteration limit', st, lt(self.g(st, 'q'), self.limit))
        self.oblige('queries stay inside the bracket', st, land(le(lo, t), le(t, up)))
        a, b = sub(t, lo), sub(up, t)
        if self.sort == 'R':
            self.oblige('every query halves the bracket', st, eq(a, b))
        else:
            self.oblige('every query halves the bracket', st, land(le(sub(a, b), I1), le(sub(b, a), I1)))
        self.oblige('no query once half the bracket is below the tolerance', st, le(self.tol, self.half(lo, up)))
        r = self.pred(t)
        self.put(st, q=add(self.g(st, 'q'), I1), lo=ite(r, lo, t), up=ite(r, t, up))
        return r

    def half(self, lo, up):
        d = sub(up, lo)
        if self.sort == 'R':
            return div(d, num(2))
        return T.to_real(T.app('idiv', (d, I2), 'I'))      # rounded down


def num_ok(v):
    return isinstance(v, T.T)


def options(tu, limit, tol):
    cls = find_cls(tu, 'Options')
    f = {}
    for fd in cls['_fields']:
        f[fd['name']] = limit if 'int' in fd['type']['qualType'] else tol
    return ObjV('Options', f)


def check(S, which):
    tu = load(['ellcpp/cutting_plane.hpp'], 'cutting.hpp')
    {'P07': feas, 'P08': dc, 'P09': dq, 'P10': bsearch, 'P11': adaptor}[which](S, tu)


def func(tu, name, *types):
    r = [f for f in tu.funcs if f.get('name') == name and front.body_of(f) is not None and not front.is_pattern(f)
         and all(t in f['type']['qualType'] for t in types)]
    if not r:
        raise Unsupported('no instantiation of %s' % name)
    return r[0]


def start(S, tu, fn, st):
    E = CP(tu, S, fn)
    limit, tol = iv('max_it'), rv('tol')
    st.assume(le(I0, limit))
    s = var('s0', SS)
    return E, limit, tol, s


def done(S, E, fn, st):
    S.absorb(E)
    S.safety(E, fn)
    S.functions.append(fn)
    S.notes += ['%s: invariant kept: %s' % (fn, l) for l in getattr(E, 'invariants', [])]
    S.reach.append((fn, st.pc))


def info(v):
    if not isinstance(v, ObjV) or not {'feasible', 'num_iters', 'status'} <= set(v.f):
        raise Unsupported('result %r' % (v,))
    return v.f['feasible'], v.f['num_iters'], v.f['status']


def counts(S, fn, lab, pc, E, st, it, limit):
    """the reported count"""
    q = E.g(st, 'q')
    S.goal(fn, lab + ': the limit is respected', pc, le(q, limit))


def feas_post(S, fn, lab, E, st, feasible, it, status, limit, tol, final):
    g = lambda k: E.g(st, k)
    pc = st.pc
    acc, last, q = g('acc'), g('last'), g('q')
    none = eq(last, num(-1, 'I'))
    S.goal(fn, lab + ': feasible exactly when the oracle accepted', pc, eq(feasible, acc))
    S.goal(fn, lab + ': accepted: the space is still centred at the accepted point', pc, implies(acc, eq(g('x'), xc(final))))
    S.goal(fn, lab + ': no cut is left unapplied', pc, lnot(g('pend')))
    S.goal(fn, lab + ': points satisfying every cut are still inside', pc, implies(land(inside(E.s0), g('good')), inside(final)))
    small = lt(g('tsq'), tol)
    ok = eq(last, E.success)
    S.goal(fn, lab + ': no solution, no effect and small enough are reported for exactly that answer', pc + [lnot(acc)],
           land(eq(eq(status, E.nosoln), eq(last, E.nosoln)), eq(eq(status, E.noeffect), eq(last, E.noeffect)), eq(eq(status, E.small), land(ok, small)),
                lor(*[eq(status, x) for x in (E.success, E.nosoln, E.noeffect, E.small)])))
    S.goal(fn, lab + ': accepted: the status is success', pc + [acc], eq(status, E.success))
    S.goal(fn, lab + ': no solution is reported only if no point satisfies the cuts', pc, implies(eq(status, E.nosoln), lnot(land(inside(E.s0), g('good')))))
    S.goal(fn, lab + ': the limit is respected', pc, le(q, limit))
    stopped = lor(acc, land(lnot(none), lor(lnot(ok), small)))
    S.goal(fn, lab + ': the reported count is the number of queries (one more when the limit ended the search)', pc,
           land(implies(stopped, eq(it, q)), implies(lnot(stopped), eq(it, add(q, I1)))))
    S.goal(fn, lab + ': it stops for an answer or for the limit', pc, lor(stopped, le(limit, add(q, I1))))


def feas(S, tu):
    fn = 'cutting_plane_feas'
    with S.part(fn):
        st = State()
        E, limit, tol, s = start(S, tu, fn, st)
        f = func(tu, fn, 'AbsFeasOracle')
        E.setup(st, s, limit, tol)
        o = E.newloc('oracle', ObjV('AbsFeasOracle', {}), st)
        sp = E.newloc('space', ObjV('AbsSpace', {'s': Opaque(SS, s)}), st)
        opt = E.newloc('options', options(tu, limit, tol), st)
        paths = run(E, f, None, [o, sp, opt], st)
        done(S, E, fn, st)
        for k, (s1, v) in enumerate(paths):
            fe, it, stt = info(v)
            S.goal(fn, 'path %d: the space handed back is the one updated' % k, s1.pc, eq(E.space(sp, s1), E.g(s1, 's')))
            feas_post(S, fn, 'path %d' % k, E, s1, fe, it, stt, limit, tol, E.space(sp, s1))
        S.fact(fn, 'some path returns', bool(paths))


def optimise(S, tu, fn, oname):
    with S.part(fn):
        st = State()
        E, limit, tol, s = start(S, tu, fn, st)
        f = func(tu, fn, oname)
        t0 = rv('t0')
        E.setup(st, s, limit, tol, t0)
        o = E.newloc('oracle', ObjV(oname, {}), st)
        sp = E.newloc('space', ObjV('AbsSpace', {'s': Opaque(SS, s)}), st)
        tl = E.newloc('t', t0, st)
        opt = E.newloc('options', options(tu, limit, tol), st)
        paths = run(E, f, None, [o, sp, tl, opt], st)
        done(S, E, fn, st)
        for k, (s1, v) in enumerate(paths):
            x, inf = tup(v, 2)
            fe, it, status = info(inf)
            lab = 'path %d' % k
            g = lambda q: E.g(s1, q)
            pc = s1.pc
            last, q = g('last'), g('q')
            none, ok = eq(last, num(-1, 'I')), eq(last, E.success)
            small = land(lnot(none), lt(g('tsq'), tol))
            S.goal(fn, lab + ': the best value is the last one the oracle reported', pc, eq(E.read(tl, s1), g('t')))
            S.goal(fn, lab + ': the point returned is the one of the last improvement', pc, implies(g('any'), eq(x.t, g('best'))))
            S.goal(fn, lab + ': feasible exactly when the value changed', pc, eq(fe, ne(g('t'), t0)))
            S.goal(fn, lab + ': every cut is applied', pc, lnot(g('pend')))
            S.goal(fn, lab + ': the space handed back is the one updated', pc, eq(E.space(sp, s1), g('s')))
            S.goal(fn, lab + ': points satisfying every cut are still inside', pc, implies(land(inside(s), g('good')), inside(g('s'))))
            S.goal(fn, lab + ': the limit is respected', pc, le(q, limit))
            if oname == 'AbsOptOracle':
                dead = lnot(ok)
            else:
                dead = lor(eq(last, E.nosoln), land(eq(last, E.noeffect), lnot(g('alt'))))
            dead = land(lnot(none), dead)
            stopped = lor(dead, small)
            S.goal(fn, lab + ': it stops for an answer or for the limit', pc, lor(stopped, le(limit, add(q, I1))))
            S.goal(fn, lab + ': the reported count is the number of queries (one more when the limit ended the search)', pc,
                   land(implies(stopped, eq(it, q)), implies(lnot(stopped), eq(it, add(q, I1)))))
            S.goal(fn, lab + ': a dead cut is reported as such', pc + [dead], eq(status, last))
            S.goal(fn, lab + ': small enough is reported exactly when the size is below the tolerance', pc + [lnot(dead)], eq(eq(status, E.small), small))
            S.goal(fn, lab + ': otherwise the status is that of the last update', pc + [lnot(stopped), lnot(none)], eq(status, last))
            if oname == 'AbsOptOracle':
                S.goal(fn, lab + ': no query at all: success', pc + [none], eq(status, E.success))
        S.fact(fn, 'some path returns', bool(paths))


def dc(S, tu):
    optimise(S, tu, 'cutting_plane_dc', 'AbsOptOracle')


def dq(S, tu):
    optimise(S, tu, 'cutting_plane_q', 'AbsQOracle')


def bsearch(S, tu):
    for sort, oname in (('R', 'AbsPred'), ('I', 'AbsPredI')):
        fn = 'bsearch [%s]' % ('real' if sort == 'R' else 'integer')
        with S.part(fn):
            st = State()
            E, limit, tol, s = start(S, tu, fn, st)
            f = [x for x in tu.funcs if x.get('name') == 'bsearch' and front.body_of(x) is not None and not front.is_pattern(x)
                 and (oname + ' ' in x['type']['qualType'] or oname + '&' in x['type']['qualType'])]
            if len(f) != 1:
                raise Unsupported('instantiations of bsearch: %d' % len(f))
            f = f[0]
            E.mode = 'bsearch'
            E.sort = sort
            E.lo0, E.up0 = var('lo0', sort), var('up0', sort)
            st.assume(le(E.lo0, E.up0))
            E.contracts[oname + '::operator()'] = E.c_pred
            E.setup(st, s, limit, tol)
            o = E.read(E.gl, st)
            o = ObjV(o.cls, dict(o.f, lo=E.lo0, up=E.up0))
            st.store[E.gl.loc] = o
            ol = E.newloc('pred', ObjV(oname, {}), st)
            il = E.newloc('bracket', TupV([E.lo0, E.up0]), st)
            opt = E.newloc('options', options(tu, limit, tol), st)
            paths = run(E, f, None, [ol, il, opt], st)
            done(S, E, fn, st)
            for k, (s1, v) in enumerate(paths):
                fe, it, status = info(v)
                lab = 'path %d' % k
                pc = s1.pc
                lo, up = E.read(il, s1).items
                glo, gup, q = E.g(s1, 'lo'), E.g(s1, 'up'), E.g(s1, 'q')
                S.goal(fn, lab + ': the bracket is the one the answers give', pc, land(eq(lo, glo), eq(up, gup)))
                S.goal(fn, lab + ': the bracket stays inside the initial one', pc, land(le(E.lo0, lo), le(lo, up), le(up, E.up0)))
                S.goal(fn, lab + ': the lower end is initial or infeasible', pc, lor(eq(lo, E.lo0), lnot(E.pred(lo))))
                S.goal(fn, lab + ': the upper end is initial or feasible', pc, lor(eq(up, E.up0), E.pred(up)))
                small = lt(E.half(glo, gup), tol)
                S.goal(fn, lab + ': small enough only when half the bracket is below the tolerance', pc, implies(eq(status, E.small), small))
                S.goal(fn, lab + ': otherwise success, and the limit is used up', pc, implies(ne(status, E.small), land(eq(status, E.success), eq(q, limit))))
                S.goal(fn, lab + ': feasible exactly when the upper end moved', pc, eq(fe, ne(up, E.up0)))
                S.goal(fn, lab + ': the count is one more than the number of queries', pc, land(le(q, limit), eq(it, add(q, I1))))
                # for a monotone predicate this brackets the threshold
                a, b = E.pred(E.lo0), E.pred(E.up0)
                S.goal(fn, lab + ': started infeasible below and feasible above, it ends so', pc + [lnot(a), b], land(lnot(E.pred(lo)), E.pred(up)))
            S.fact(fn, 'some path returns', bool(paths))


def adaptor(S, tu):
    classes = [c for c in tu.classes.values() if c.get('name') == 'bsearch_adaptor' and c.get('_fields') and not front.is_pattern(c)]
    fn = 'bsearch_adaptor::operator()'
    with S.part(fn):
        st = State()
        E, limit, tol, s = start(S, tu, fn, st)
        E.need_par = True
        f = [x for x in tu.funcs if x.get('name') == 'operator()' and front.body_of(x) is not None and not front.is_pattern(x)
             and (x.get('_cls') or {}).get('name') == 'bsearch_adaptor' and 'double' in x['type']['qualType']]
        if not f:
            raise Unsupported('no instantiation of bsearch_adaptor::operator()')
        f = f[0]
        cls = f['_cls']
        E.setup(st, s, limit, tol)
        o = E.newloc('oracle', ObjV('AbsParOracle', {}), st)
        sp = E.newloc('space', ObjV('AbsSpace', {'s': Opaque(SS, s)}), st)
        opt = E.newloc('options', options(tu, limit, tol), st)
        ct = ctor_with(E, cls, lambda c: len(front.params_of(c)) == 3)
        st1, ad = build(E, cls, ct, [o, sp, opt], st)
        S.functions.append('bsearch_adaptor::bsearch_adaptor')
        st1, bx = run1(E, method(tu, cls, 'x_best'), ad, [], st1)
        bx = E.read(bx, st1) if isinstance(bx, LV) else bx
        S.goal('bsearch_adaptor::x_best', 'the best point is the centre of the stored space', st1.pc, eq(bx.t, xc(s)))
        S.functions.append('bsearch_adaptor::x_best')
        tl = E.newloc('t', rv('t'), st1)
        paths = run(E, f, ad, [tl], st1)
        done(S, E, fn, st1)
        for k, (s1, v) in enumerate(paths):
            lab = 'path %d' % k
            g = lambda q: E.g(s1, q)
            pc = s1.pc
            S.goal(fn, lab + ': the oracle was given exactly the candidate', pc, land(g('par'), eq(g('parv'), rv('t'))))
            S.goal(fn, lab + ': true exactly when the search found a feasible point', pc, eq(v, g('acc')))
            final = E.space(sp, s1)
            S.goal(fn, lab + ': false: the stored space is untouched', pc + [lnot(g('acc'))], eq(final, s))
            S.goal(fn, lab + ': true: only its centre moved, to the point found', pc + [g('acc')], eq(final, T.app('moved', (s, g('x')), SS)))
            S.goal(fn, lab + ': true: the centre is the point found', pc + [g('acc')], eq(xc(final), g('x')))
            S.goal(fn, lab + ': the limit is respected', pc, le(g('q'), limit))
            S.goal(fn, lab + ': the search stops for an answer or for the limit', pc,
                   lor(g('acc'), land(ne(g('last'), num(-1, 'I')), lor(ne(g('last'), E.success), lt(g('tsq'), tol))), le(limit, add(g('q'), I1))))
        S.fact(fn, 'some path returns', bool(paths))
        # default options
        st2 = State()
        E.setup(st2, s, limit, tol)
        o = E.newloc('oracle', ObjV('AbsParOracle', {}), st2)
        sp = E.newloc('space', ObjV('AbsSpace', {'s': Opaque(SS, s)}), st2)
        ct = ctor_with(E, cls, lambda c: len(front.params_of(c)) == 2)
        st2, ad = build(E, cls, ct, [o, sp], st2)
        S.functions.append('bsearch_adaptor::bsearch_adaptor [default options]')
        st3, bx = run1(E, method(tu, cls, 'x_best'), ad, [], st2)
        bx = E.read(bx, st3) if isinstance(bx, LV) else bx
        S.goal('bsearch_adaptor::bsearch_adaptor [default options]', 'the stored space is the one given', st3.pc, eq(bx.t, xc(s)))
