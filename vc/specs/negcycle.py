"""P19: the negative-cycle search over an abstract graph, abstract potentials and abstract weights.

Loops carry families of candidate invariants: formulas with free nodes or positions that hold for all
of them; they are proved for arbitrary (fresh) ones and used at the terms that occur.  Ghost state: a
time stamp per node, set when a turn of a loop changes the node's potential or its policy edge, and
the number of turns taken by the loop being executed.  Ghost functions of a policy (a fixed value of
the predecessor map): reach (some number of predecessor steps leads from x to y), cyc (x lies on a
cycle), dead (no cycle is reached from x), walk(h, t) (t steps from h) and per(h) (least positive
number of steps leading from h back to h).
"""
from kit import *
from terms import iff
from values import *
from loops import NextIter, LoopExit, leaves_diff, snapshot_env
import exec as X
import lib

FILES = ['netoptim/min_cycle_ratio.hpp', 'ellcpp/oracles/optscaling_oracle.hpp', 'ellcpp/oracles/cycle_ratio_oracle.hpp']
NODE, EDGE = 'AbsNode', 'AbsEdge'
src = lambda e: T.app('src', (e,), NODE)
tgt = lambda e: T.app('tgt', (e,), NODE)
node = lambda i: T.app('node', (i,), NODE)
edge = lambda i: T.app('edge', (i,), EDGE)
isnode = lambda x: T.app('isnode', (x,), 'B')
isedge = lambda e: T.app('isedge', (e,), 'B')
null = T.var('null', NODE)
NN, NE = iv('n_nodes'), iv('n_edges')
x0, x1, t0 = T.var('x?0', NODE), T.var('x?1', NODE), iv('t?0')


def bound(t):
    return any(v[0] in '$#' for v in t.fv)


class Fam:
    """a fact for all nodes ('N') or positions ('T') in place of its arguments
    (unless: the labels of stronger candidates that make it superfluous)"""
    __slots__ = ('label', 'kinds', 'f', 'unless')

    def __init__(self, label, kinds, f, unless=()):
        self.label, self.kinds, self.f, self.unless = label, kinds, f, unless


def skolems(kinds):
    return {'': (), 'N': (x0,), 'NN': (x0, x1), 'T': (t0,)}[kinds]


import os, time
TRACE = os.environ.get('NCTRACE')
T0_ = time.time()


class NC(loops.Engine):
    nest = 0
    optimistic = False
    nprove = 0
    def __init__(self, tu):
        super().__init__(tu)
        self.loop_hooks.append(self.hook)
        self.pol = {}
        self.obj = self.dist = None
        self.wt = lambda e, st: T.app('wt', (e,), 'R')
        self.mem = {}
        self.rounds = []
        for c, it in (('AbsGraph', 'mapno'),):
            self.contracts['AbsGraph::edges'] = lambda E, st, this, a, n, d: Tag('edges')
            self.contracts['AbsGraph::begin'] = lambda E, st, this, a, n, d: ObjV('it', {'base': Tag('nodes'), 'pos': I0})
            self.contracts['AbsGraph::end'] = lambda E, st, this, a, n, d: ObjV('it', {'base': Tag('nodes'), 'pos': NN})
            self.contracts['AbsEdges::begin'] = lambda E, st, this, a, n, d: ObjV('it', {'base': Tag('edges'), 'pos': I0})
            self.contracts['AbsEdges::end'] = lambda E, st, this, a, n, d: ObjV('it', {'base': Tag('edges'), 'pos': NE})
            self.contracts['AbsGraph::number_of_nodes'] = lambda E, st, this, a, n, d: NN
            self.contracts['AbsGraph::number_of_edges'] = lambda E, st, this, a, n, d: NE
            self.contracts['AbsGraph::null_vertex'] = lambda E, st, this, a, n, d: null
            self.contracts['AbsGraph::source'] = lambda E, st, this, a, n, d: src(E.ev(a[0], st))
            self.contracts['AbsGraph::target'] = lambda E, st, this, a, n, d: tgt(E.ev(a[0], st))
            self.contracts['AbsGraph::end_points'] = self.end_points
        for c in ('AbsNodeIter', 'AbsEdgeIter'):
            self.contracts[c + '::operator++'] = lambda E, st, this, a, n, d: E.step(this, st)
            self.contracts[c + '::operator*'] = lambda E, st, this, a, n, d: E.deref_it(this, st)
            self.contracts[c + '::operator!='] = lambda E, st, this, a, n, d: ne(E.read(this, st).f['pos'], E.ev(a[0], st).f['pos'])
            self.contracts[c + '::operator=='] = lambda E, st, this, a, n, d: eq(E.read(this, st).f['pos'], E.ev(a[0], st).f['pos'])
        self.contracts['AbsDist::operator[]'] = lambda E, st, this, a, n, d: this / ('e', (E.ev(a[0], st),))
        self.contracts['AbsWeight::operator()'] = lambda E, st, this, a, n, d: E.wt(E.ev(a[0], st), st)

    def end_points(self, E, st, this, a, n, d):
        e = E.ev(a[0], st)
        st.assume(isnode(src(e)), isnode(tgt(e)))
        return TupV([src(e), tgt(e)])

    def step(self, this, st):
        v = self.read(this, st)
        self.write(this / ('f', 'pos'), add(v.f['pos'], I1), st)
        return this

    def deref_it(self, this, st):
        v = self.read(this, st)
        p = v.f['pos']
        ns = v.f['base'].kind == 'nodes'
        self.oblige('iterator within range', st, land(le(I0, p), lt(p, NN if ns else NE)))
        r = node(p) if ns else edge(p)
        st.assume(isnode(r), ne(r, null)) if ns else st.assume(isedge(r))
        return r

    def incr(self, v, op, t, st):
        if isinstance(v, ObjV) and 'pos' in v.f:
            return ObjV(v.cls, dict(v.f, pos=add(v.f['pos'], I1)))
        return super().incr(v, op, t, st)

    # ---------------------------------------------------------------- the policy
    def maps(self, st):
        """(predecessor map, edge map) of the finder: its maps to nodes and to edges"""
        o = self.read(self.obj, st)
        p = [v.f['map'] for v in o.f.values() if isinstance(v, ObjV) and isinstance(v.f.get('map'), MapV) and v.f['map'].vs == NODE]
        e = [v.f['map'] for v in o.f.values() if isinstance(v, ObjV) and isinstance(v.f.get('map'), MapV) and v.f['map'].vs == EDGE]
        if len(p) != 1 or len(e) != 1:
            raise Unsupported('predecessor and edge maps of the finder not found')
        return p[0], e[0]

    def D(self, st):
        a = self.read(self.dist, st)
        return lambda x: a.get((x,))

    def tau(self, st):
        a = self.read(self.taul, st)
        return lambda x: a.get((x,))

    def map_default(self, v):
        if v.vs in (NODE, EDGE):
            return T.app('default:' + v.vs, (), v.vs)
        return super().map_default(v)

    def hvalue(self, leaf, ex, st0, tag):
        v0 = self.getleaf(leaf, st0)
        v = v0 if v0 is not UNINIT and v0 is not None else ex
        nm = 'v:%s@%d' % (leaf, tag)
        if isinstance(v, MapV) and v.vs in (NODE, EDGE):
            return MapV(lambda k: T.app(nm + ':dom', (k,), 'B'), lambda k: T.app(nm, (k,), v.vs), v.ks, v.vs)
        if isinstance(v, VecV) and (v.info and v.info[0] == 'list' and not v.info[1]):
            e = ex.get(I0) if isinstance(ex, VecV) else None
            if isinstance(e, T.T):
                return VecV(var(nm + ':len', 'I'), lambda i: T.app(nm, (i,), e.sort))
        return super().hvalue(leaf, ex, st0, tag)

    def policy(self, P):
        """ghost functions of a predecessor map"""
        r = self.pol.get(id(P))
        if r is None:
            k = len(self.pol)
            r = self.pol[id(P)] = Policy(P, k)
        return r

    def setup(self, st):
        """ghost state"""
        self.taul = self.newloc('ghost:time', ArrV((I0,), lambda ix: R0), st)
        self.nowl = self.newloc('ghost:now', R0, st)
        self.turnl = self.newloc('ghost:turn', I0, st)

    # ---------------------------------------------------------------- proofs with families
    def facts(self, st, goal, since, rounds=2, extra=()):
        seen, out, H = set(), [], []
        ts = [goal] + list(extra) + list(st.pc[since:])
        for rd in range(rounds):
            N, I = [], []
            for t in ts:
                for s in T.subterms(t):
                    if bound(s):
                        continue
                    if s.sort == NODE and s not in N:
                        N.append(s)
                    if s.op == 'app' and s.args[0].startswith(('walk', 'per')) and s.args[1] not in H:
                        H.append(s.args[1])
                    if s.op == 'app' and s.args[0] not in T.INTERP:
                        for a in s.args[1:]:
                            if isinstance(a, T.T) and a.sort == 'I' and a not in I:
                                I.append(a)
            ts = self.instances(st, N[:14], I[:14], H, seen, out)
        return out

    def instances(self, st, N, I, H, seen, out):
        """the families in force at these nodes, positions and handles, and the policy's axioms"""
        ts = []
        for fm in st.ghost.get('fam', ()):
            tup = {'': lambda: [()], 'N': lambda: [(a,) for a in N], 'T': lambda: [(a,) for a in I], 'H': lambda: [(a,) for a in H],
                   'NN': lambda: [(a, b) for a in N for b in N if a is not b]}[fm.kinds]()
            for a in tup:
                key = (id(fm), a)
                if key in seen:
                    continue
                seen.add(key)
                f = fm.f(*a)
                if f is not TRUE and f not in out:
                    out.append(f)
                    ts.append(f)
        for pol in self.pols(st):
            for f in pol.axioms(N, I, H):
                if f not in out:
                    out.append(f)
        return ts

    def pols(self, st):
        try:
            return [self.policy(self.maps(st)[0])]
        except Unsupported:
            return []

    def log(self, *a):
        if TRACE:
            print('  ' * self.nest, '%.1f' % (time.time() - T0_), *a, flush=True)

    def prove(self, st, goal, since=0, extra=()):
        self.nprove += 1
        if goal is TRUE:
            return True
        key = (goal, tuple(st.pc), tuple(id(f) for f in st.ghost.get('fam', ())))
        if key in self.mem:
            return self.mem[key]
        ok = False
        for rd in (1, 2):
            fs = self.facts(st, goal, since, rd, extra)
            r = smt.prove(list(st.pc) + fs, goal, rlimit=4_000_000)
            if r[0] == 'proved':
                ok = True
                break
        self.mem[key] = ok
        return ok

    # ---------------------------------------------------------------- loops
    def hook(self, E, n, st, iteration, head, post):
        ck = ('fam', n.get('id'), self.cnt, self.definitive, self.optimistic)
        hit = self.loopcache.get(ck)
        if hit is None:
            pos = self.dec[1] if self.dec else 0
            hit = self.fam_loop(n, st, iteration)
            hit = hit + (self.cnt,)
            self.loopcache[ck] = hit
        exits, newobl, self.cnt = hit
        self.obligs = self.obligs + [o for o in newobl if o not in self.obligs]
        if not exits:
            raise X.Infeasible()
        i = self.choose(len(exits)) if len(exits) > 1 else 0
        s, kind, v = exits[i]
        st.become(s)
        if kind == 'return':
            raise X.Ret(v)
        return True

    def turn(self, iteration):
        """one turn, with the ghost updates it implies"""
        def it(s):
            pre = s.copy()

            def ghost():
                try:
                    (P0, E0), (P1, E1) = self.maps(pre), self.maps(s)
                except Unsupported:
                    return
                D0, D1 = self.read(self.dist, pre), self.read(self.dist, s)
                if self.read(self.taul, pre) is self.read(self.taul, s) and not (P0 is P1 and E0 is E1 and D0 is D1):
                    t0_ = self.tau(pre)
                    now = add(self.read(self.nowl, s), R1)
                    moved = lambda x: lor(ne(D0.get((x,)), D1.get((x,))), land(P1.dom(x), lnot(land(P0.dom(x), eq(P0.get(x), P1.get(x))))),
                                          land(E1.dom(x), lnot(land(E0.dom(x), eq(E0.get(x), E1.get(x))))))
                    self.rawwrite(self.taul, ArrV((I0,), lambda ix: ite(moved(ix[0]), now, t0_(ix[0]))), s)
                    self.rawwrite(self.nowl, now, s)
            k = self.read(self.turnl, s)
            try:
                iteration(s)
            finally:
                ghost()
                self.rawwrite(self.turnl, add(k, I1), s)
        return it

    def fam_loop(self, n, st, iteration):
        saved_obl, saved_def = self.obligs, self.definitive
        self.cnt += 1
        tag = self.cnt
        st0 = st.copy()
        self.rawwrite(self.turnl, I0, st0)
        it = self.turn(iteration)
        self.definitive, self.obligs = False, []
        try:
            fnm = self.frame.fn.get('name', '') if self.frame.fn else ''
            self.nest += 1
            self.log('loop in', fnm, 'tag', tag, 'nprove', getattr(self, 'nprove', 0))
            M = {self.turnl: None}
            for _ in range(12):
                s1 = st0.copy()
                for leaf in M:
                    self.putleaf(leaf, self.hvalue(leaf, M[leaf], st0, tag), s1)
                s1.ghost['fam'] = ()
                opt, self.optimistic = self.optimistic, True
                try:
                    new = self.modified(self.iterate(s1, it), s1, M)
                finally:
                    self.optimistic = opt
                if not new:
                    break
            else:
                raise Unsupported('modified set does not stabilise')
            for _ in range(4):
                live, paths, s2, since = self.filter(n, st0, M, tag, it)
                # a key assumed present while the modified locations were collected may be absent
                if not self.modified(paths, s2, M):
                    break
                self.log('again: more is modified')
            newobl = self.obligs
            self.log('done', [c.label for c in live])
        finally:
            self.nest -= 1
            self.obligs, self.definitive = saved_obl, saved_def
        fn = self.frame.fn.get('_qual', '') if self.frame.fn else ''
        if not self.optimistic:
            self.loops_done.append((fn, 'invariant: ' + '; '.join(c.label for c in live), len(M)))
        if not self.optimistic:
            self.rounds.append((self.nest, fn, s2, paths, [c.label for c in live]))
        exits = []
        for s, kind, v in paths:
            if kind in ('exit', 'return') and not self.refuted(s, since):
                s = s.copy()
                s.pc = list(s.pc)
                exits.append((s, kind, v))
        return exits, newobl

    def modified(self, paths, s1, M):
        new = False
        for s, kind, _v in paths:
            if kind != 'next':
                continue
            for loc in s1.store:
                out = []
                leaves_diff(s1.store[loc], s.store[loc], (), out)
                for p in out:
                    lf = LV(loc, p)
                    if lf not in M:
                        M[lf] = self.getleaf(lf, s)
                        new = True
        return new

    def filter(self, n, st0, M, tag, it):
        """the candidates that hold on entry and are preserved (Houdini)"""
        if True:
            s1 = st0.copy()
            for leaf in M:
                self.putleaf(leaf, self.hvalue(leaf, M[leaf], st0, tag), s1)
            k = self.read(self.turnl, s1)
            s1.assume(le(I0, k))
            live = []
            self.log('modified', [str(x) for x in M])
            for c in self.candidates(st0, s1, list(M)) if not self.optimistic else ():
                if any(d.label in c.unless for d in live):
                    continue
                try:
                    g = c.f(st0, *skolems(c.kinds))
                    c.f(s1, *skolems(c.kinds))
                except (KeyError, AttributeError, Unsupported):
                    continue
                if self.prove(st0, g):
                    live.append(c)
                else:
                    self.notes.append('candidate dropped (entry): ' + c.label)
            while True:
                self.log('live', len(live), 'nprove', self.nprove)
                s2 = s1.copy()
                snap = s2.copy()
                s2.ghost['fam'] = tuple(st0.ghost.get('fam', ())) + tuple(Fam(c.label, c.kinds, (lambda *a, c=c: c.f(snap, *a))) for c in live)
                for c in live:
                    if c.kinds == '':
                        s2.assume(c.f(snap))
                self.obligs = []
                since = len(s1.pc)
                self.cnt = tag + 1
                paths = self.iterate(s2, it)
                self.log('paths', [p[1] for p in paths], 'nprove', self.nprove)
                bad = []
                for c in live:
                    for s, kind, _ in paths:
                        if kind == 'next' and not self.prove(s, c.f(s, *skolems(c.kinds)), min(since, len(s.pc))):
                            bad.append(c)
                            self.notes.append('candidate dropped (preservation): ' + c.label)
                            break
                if not bad:
                    break
                live = [c for c in live if c not in bad]
        return live, paths, s2, since

    def refuted(self, s, since):
        return not self.optimistic and self.prove(s, FALSE, min(since, len(s.pc)))

    def candidates(self, st0, s1, leaves):
        out = []
        add_ = lambda label, kinds, f, *unless: out.append(Fam(label, kinds, f, unless))
        W = self.wt
        V = lambda lf: (lambda s: self.getleaf(lf, s))

        def pol(s):
            P, Ed = self.maps(s)
            return P.dom, P.get, Ed.dom, Ed.get, self.D(s), self.tau(s)

        def c1(s, x):
            pd, p, ed, e, D, tau = pol(s)
            return implies(pd(x), land(ed(x), isedge(e(x)), isnode(x), isnode(p(x)), eq(src(e(x)), p(x)), eq(tgt(e(x)), x)))

        def c2(s, x):
            pd, p, ed, e, D, tau = pol(s)
            return implies(pd(x), le(add(D(p(x)), W(e(x), s)), D(x)))

        def c3(s, x):
            pd, p, ed, e, D, tau = pol(s)
            return implies(land(pd(x), lt(tau(x), tau(p(x)))), lt(add(D(p(x)), W(e(x), s)), D(x)))

        def c4(s, x):
            pd, p, ed, e, D, tau = pol(s)
            return implies(land(pd(x), eq(p(x), x)), lt(W(e(x), s), R0))

        def c5(s, x, y):
            pd, p, ed, e, D, tau = pol(s)
            return implies(land(pd(x), pd(y), eq(tau(x), tau(y))), eq(x, y))

        def c6(s, x):
            pd, p, ed, e, D, tau = pol(s)
            return le(tau(x), self.read(self.nowl, s))
        add_('policy edges enter their node from its predecessor', 'N', c1)
        add_('policy edges are not slack the wrong way', 'N', c2)
        add_('a policy edge whose source moved later is strict', 'N', c3)
        add_('a policy self-loop is negative', 'N', c4)
        add_('time stamps are distinct', 'NN', c5)
        add_('time stamps are not in the future', 'N', c6)
        D00 = self.D(st0)
        add_('potentials only decrease', 'N', lambda s, x: le(self.D(s)(x), D00(x)))
        ints = [lf for lf in leaves if isinstance(self.getleaf(lf, s1), T.T) and self.getleaf(lf, s1).sort == 'I' and lf != self.turnl]
        flags = []
        for lf in leaves:
            v = self.getleaf(lf, s1)
            if isinstance(v, T.T) and v.sort == 'B':
                flags.append((str(lf) + ' unset', lambda s, X=V(lf): lnot(X(s))))
                flags.append((str(lf) + ' set', lambda s, X=V(lf): X(s)))
            elif isinstance(v, T.T) and v.sort == 'I' and lf in ints:
                flags.append((str(lf) + ' zero', lambda s, X=V(lf): eq(X(s), I0)))
        for p in ints:
            X = V(p)
            add_('%s in [0, edges]' % p, '', lambda s, X=X: land(le(I0, X(s)), le(X(s), NE)))
            add_('%s in [0, nodes]' % p, '', lambda s, X=X: land(le(I0, X(s)), le(X(s), NN)))
            add_('%s counts turns' % p, '', lambda s, X=X: eq(X(s), self.read(self.turnl, s)))
        for fl, b in flags:
            add_('nothing moved while %s' % fl, 'N', lambda s, x, b=b: implies(b(s), eq(self.D(s)(x), D00(x))))
            for p in ints:
                X = V(p)

                def scan(s, t, b=b, X=X):
                    D = self.D(s)
                    return implies(land(b(s), le(I0, t), lt(t, X(s))), le(D(tgt(edge(t))), add(D(src(edge(t))), W(edge(t), s))))
                add_('edges before %s hold while %s' % (p, fl), 'T', scan)
        # policy walks
        mod = {str(l) for l in leaves}
        nodes = []
        for lf in self.visible():
            v = self.getleaf(lf, s1)
            if isinstance(v, T.T) and v.sort == NODE and (str(lf) in mod or not any(self.getleaf(q, s1) is v for q in nodes)):
                nodes.append(lf)
        mvis = [lf for lf in leaves if lf.loc != self.obj.loc and isinstance(self.getleaf(lf, s1), MapV) and self.getleaf(lf, s1).vs in (NODE, None)]
        P = lambda s: self.policy(self.maps(s)[0])
        K = lambda s: self.read(self.turnl, s)
        for ml in mvis:
            m = V(ml)
            lab = str(ml)
            add_('%s: marks are marked' % lab, 'N', lambda s, x, m=m: implies(m(s).dom(x), m(s).dom(m(s).get(x))))
            add_('%s: marks stay' % lab, 'N', lambda s, x, m=m: implies(m(st0).dom(x), m(s).dom(x)))
            add_('%s: marked nodes reach no cycle' % lab, 'N', lambda s, x, m=m: implies(m(s).dom(x), P(s).dead(x)))
            for p in ints:
                X = V(p)
                add_('%s: nodes before %s are marked' % (lab, p), 'T', lambda s, t, m=m, X=X: implies(land(le(I0, t), lt(t, X(s))), m(s).dom(node(t))))
            for ul in nodes:
                u = V(ul)
                add_('%s: %s is not marked' % (lab, ul), '', lambda s, m=m, u=u: lnot(m(s).dom(u(s))))
                for vl in nodes:
                    if str(vl) in mod:
                        continue
                    v = V(vl)
                    add_('%s: nodes marked %s reach %s' % (lab, vl, ul), 'N', lambda s, x, m=m, u=u, v=v: implies(land(m(s).dom(x), eq(m(s).get(x), v(s))), P(s).reach(x, u(s))))
                    strong = '%s: nodes marked %s reach %s' % (lab, vl, ul)
                    add_(strong + ', once it is marked', 'N', lambda s, x, m=m, u=u, v=v: implies(land(lor(lt(I0, K(s)), lnot(m(s).dom(u(s)))), m(s).dom(x), eq(m(s).get(x), v(s))), P(s).reach(x, u(s))), strong)
                    if str(ul) in mod:
                        free = '%s: %s is not marked' % (lab, ul)
                        add_('%s: %s is not marked %s after a turn' % (lab, ul, vl), '', lambda s, m=m, u=u, v=v: implies(land(lt(I0, K(s)), m(s).dom(u(s))), ne(m(s).get(u(s)), v(s))), free)
                        add_('%s: marked nodes reach no cycle before a turn, %s' % (lab, ul), 'N', lambda s, x, m=m: implies(land(le(K(s), I0), m(s).dom(x)), P(s).dead(x)), free)
                    if ul == nodes[0]:
                        add_('%s: other marked nodes reach no cycle' % lab, 'N', lambda s, x, m=m, v=v: implies(land(m(s).dom(x), ne(m(s).get(x), v(s))), P(s).dead(x)))
                    if str(ul) in mod:
                        add_('%s: %s is marked, unless it is %s' % (lab, vl, ul), '', lambda s, m=m, u=u, v=v: lor(m(s).dom(v(s)), eq(u(s), v(s))))
        seqs = [lf for lf in leaves if isinstance(self.getleaf(lf, s1), VecV)]
        for vl in nodes:
            if str(vl) not in mod:
                continue
            v = V(vl)
            add_('%s is on a cycle' % vl, '', lambda s, v=v: P(s).cyc(v(s)))
            for hl in nodes:
                if str(hl) in mod:
                    continue
                h = V(hl)
                add_('%s is as many steps from %s' % (vl, hl), '', lambda s, v=v, h=h: land(P(s).cyc(h(s)), eq(v(s), P(s).walk(h(s), K(s))), lt(K(s), P(s).per(h(s)))))
                one = '%s is as many steps from %s' % (vl, hl)
                add_('%s is one step more from %s' % (vl, hl), '', lambda s, v=v, h=h: land(P(s).cyc(h(s)), eq(v(s), self.maps(s)[0].get(P(s).walk(h(s), K(s)))), lt(K(s), P(s).per(h(s)))), one)
                for cl in seqs:
                    c = V(cl)
                    add_('%s lists the policy edges from %s on, and one more' % (cl, hl), 'T', lambda s, t, c=c, h=h: implies(land(le(I0, t), le(t, K(s))), eq(c(s).get(t), self.maps(s)[1].get(P(s).walk(h(s), t)))), one)

                    def listed(s, t, c=c, h=h):
                        if K(s) is I0:
                            return TRUE
                        return implies(land(le(I0, t), lt(t, K(s))), eq(c(s).get(t), self.maps(s)[1].get(P(s).walk(h(s), t))))
                    add_('%s lists the policy edges from %s on' % (cl, hl), 'T', listed)

                def slack(s, t, h=h):
                    D = self.D(s)
                    w = P(s).walk(h(s), t)
                    return implies(land(le(I0, t), lt(t, K(s))), le(D(w), add(D(self.maps(s)[0].get(w)), W(self.maps(s)[1].get(w), s))))
                add_('no strict policy edge so far from %s' % hl, 'T', slack)
        for cl in seqs:
            c = V(cl)
            add_('%s has one entry per turn' % cl, '', lambda s, c=c: eq(c(s).len, K(s)))
            add_('%s has one entry per turn, and one more' % cl, '', lambda s, c=c: eq(c(s).len, add(K(s), I1)), '%s has one entry per turn' % cl)
        return out

    def visible(self):
        """the variables the loop's function can name"""
        out, fr = [], self.frame
        while fr is not None:
            for lv in fr.env.values():
                if isinstance(lv, LV) and lv not in out:
                    out.append(lv)
            fr = fr.up
        return out

    # ---------------------------------------------------------------- assertions
    def do_assert(self, c, st):
        self.strict_exists(st)
        t = self.truth(c, st)
        if not (t is TRUE or self.prove(st, t)):
            self.obligs.append(X.Oblig('assertion', list(st.pc) + self.facts(st, t, 0), t))
        else:
            self.bounds_ok += 1
        st.assume(t)

    def oblige(self, name, st, goal, note=''):
        if name == 'key present (at)' and (self.optimistic or self.prove(st, goal, max(0, len(st.pc) - 12), (goal,))):
            self.bounds_ok += 1
            return
        super().oblige(name, st, goal, note)

    def strict_exists(self, st):
        """lemma cycle_strict (Lean): under the policy invariants every policy cycle has a strict edge"""
        try:
            pol = self.policy(self.maps(st)[0])
        except Unsupported:
            return
        need = {'policy edges enter their node from its predecessor', 'policy edges are not slack the wrong way',
                'a policy edge whose source moved later is strict', 'a policy self-loop is negative', 'time stamps are distinct'}
        cs = [c for c in self.candidates(st, st, []) if c.label in need]
        if all(self.prove(st, c.f(st, *skolems(c.kinds))) for c in cs):
            snap = st.copy()
            D, (P, Ed) = self.D(snap), self.maps(snap)

            def f(h):
                ts = T.app('strict%d' % pol.k, (h,), 'I')
                w = pol.walk(h, ts)
                return implies(pol.cyc(h), land(le(I0, ts), lt(ts, pol.per(h)), lt(add(D(P.get(w)), self.wt(Ed.get(w), snap)), D(w))))
            st.ghost['fam'] = tuple(st.ghost.get('fam', ())) + (Fam('strict edge', 'H', f),)

    def map_sub(self, base, v, k, st, n):
        # is the key known to be present?
        m = v.f['map'] if isinstance(v, ObjV) else v
        kk = self.key(k)
        d = m.dom(kk)
        if self.optimistic:
            return (base / ('f', 'map') if isinstance(v, ObjV) else base) / ('k', kk)
        elif d.op != 'bool' and not smt.entails(st.pc, d) and st.ghost.get('fam'):
            if self.prove(st, d, max(0, len(st.pc) - 12), (d,)):
                st.assume(d)
        return super().map_sub(base, v, k, st, n)


class Policy:
    """ghost functions of one predecessor map, with the axioms that define them"""

    def __init__(self, P, k):
        self.P, self.k = P, k

    def reach(self, x, y):
        return T.app('reach%d' % self.k, (x, y), 'B')

    def dead(self, x):
        return T.app('dead%d' % self.k, (x,), 'B')

    def cyc(self, x):
        return T.app('cyc%d' % self.k, (x,), 'B')

    def walk(self, h, t):
        return h if t is I0 else T.app('walk%d' % self.k, (h, t), NODE)

    def per(self, h):
        return T.app('per%d' % self.k, (h,), 'I')

    def axioms(self, N, I, H):
        P = self.P
        out = []
        for x in N:
            d, p = P.dom(x), P.get(x)
            out += [self.reach(x, x), implies(lnot(d), self.dead(x)), implies(land(d, self.dead(p)), self.dead(x)),
                    implies(self.cyc(x), land(d, self.cyc(p), le(I1, self.per(x)), eq(self.walk(x, self.per(x)), x)))]
            for y in N:
                dy, py = P.dom(y), P.get(y)
                out += [implies(land(self.reach(x, y), dy), self.reach(x, py)), implies(land(self.reach(x, y), self.dead(y)), self.dead(x)),
                        implies(land(self.reach(x, y), dy, eq(py, x)), self.cyc(x))]
            if x in H:
                for t in I + [self.per(x)]:
                    w = self.walk(x, t)
                    if t.op == 'var':
                        out.append(implies(eq(t, I0), eq(w, x)))
                    out += [implies(land(self.cyc(x), le(I0, t)), land(P.dom(w), self.cyc(w), eq(self.walk(x, add(t, I1)), P.get(w)))),
                            implies(land(self.cyc(x), lt(I0, t), lt(t, self.per(x))), ne(w, x)),
                            implies(land(self.cyc(x), le(I0, t), lt(add(t, I1), self.per(x))), ne(self.walk(x, add(t, I1)), x))]
        return out


def graph_axioms(st):
    """the graph: its nodes and edges are enumerated; the end points of an edge are nodes; the null vertex is none"""
    st.assume(le(I0, NN), le(I0, NE), lnot(isnode(null)))


def finder(E, tu, st):
    """a finder that has been used before"""
    cls = [c for c in tu.classes.values() if c.get('name') == 'negCycleFinder' and c.get('kind') == 'ClassTemplateSpecializationDecl' and c.get('_fields')]
    if not cls:
        raise Unsupported('negCycleFinder not found')
    cls = cls[0]
    G = E.newloc('G', Tag('graph'), st)
    ct = ctor_with(E, cls, lambda f: len(front.params_of(f)) == 1 and not f.get('isImplicit'))
    s, lv = build(E, cls, ct, [G], st)
    o = E.read(lv, s)
    for f, v in o.f.items():
        if isinstance(v, ObjV) and isinstance(v.f.get('map'), MapV):
            m = v.f['map']
            nm = 'old' + f
            o = acc_set(o, ('f', f), ObjV(v.cls, {'map': MapV(lambda k, nm=nm: T.app(nm + ':dom', (k,), 'B'), lambda k, nm=nm, m=m: T.app(nm, (k,), m.vs), m.ks, m.vs)}), s)
        elif isinstance(v, T.T) and f in mutable_fields(tu, cls):
            o = acc_set(o, ('f', f), havoc_value('old' + f, v), s)
    s.store[lv.loc] = o
    E.obj = lv
    return cls, s, lv, G


def check(S, which):
    tu = load(FILES, 'graph.hpp')
    search(S, tu)
    S.lean.append('negcycle')


def search(S, tu, weight=None):
    fn = 'negCycleFinder::find_neg_cycle'
    with S.part(fn):
        E = NC(tu)
        st = State()
        graph_axioms(st)
        cls, st, lv, G = finder(E, tu, st)
        E.dist = E.newloc('dist', ArrV((I0,), lambda ix: T.app('dist', ix, 'R')), st)
        E.setup(st)
        W = E.newloc('get_weight', Tag('weight'), st)
        f = method(tu, cls, 'find_neg_cycle', pred=lambda f: 'AbsWeight' in f['type']['qualType'])
        S.functions += [fn, 'negCycleFinder::_relax', 'negCycleFinder::_find_cycle', 'negCycleFinder::_cycle_list', 'negCycleFinder::_is_negative']
        S.reach.append((fn, st.pc))
        kinds = set()
        for k, (s, v) in enumerate(run(E, f, lv, [E.dist, W], st)):
            kinds.add(v.len is I0)
            answer(S, E, fn, k, s, v)
        S.fact(fn, 'both kinds of answer occur', kinds == {True, False})
        # the search only goes on while the policy has no cycle
        outer = [r for r in E.rounds if r[0] == 0]
        S.fact(fn, 'the search is one loop', len(outer) == 1)
        for k, (s, kind, _) in enumerate(outer[-1][3] if outer else ()):
            if kind == 'next':
                s = s.copy()
                s.assume(le(I0, t0), lt(t0, NN))
                pgoal(S, E, fn, 'round %d: the search goes on only if no policy cycle is left' % k, s, E.policy(E.maps(s)[0]).dead(node(t0)), [node(t0)], [t0], auto=2)
        S.absorb(E)
        S.safety(E, fn)
        S.notes += E.notes[:0]
        return E


def pgoal(S, E, fn, name, st, goal, N=(), I=(), H=(), auto=0):
    fs = []
    E.instances(st, list(N), list(I), list(H), set(), fs)
    if auto:
        fs += [f for f in E.facts(st, goal, 0, auto) if f not in fs]
    return S.goal(fn, name, list(st.pc) + fs, goal)


def answer(S, E, fn, k, st, v):
    lab = 'path %d: ' % k
    D = E.D(st)
    P, Ed = E.maps(st)
    tau = E.tau(st)
    if v.len is I0:
        s = st.copy()
        s.assume(le(I0, t0), lt(t0, NE))
        pgoal(S, E, fn, lab + 'the potentials satisfy every edge', s, le(D(tgt(edge(t0))), add(D(src(edge(t0))), E.wt(edge(t0), st))), I=(t0,))
        return
    pol = E.policy(P)
    L, t1 = v.len, iv('t?1')
    hs = []
    for p in st.pc:
        for a in T.subterms(p):
            if a.op == 'app' and a.args[0].startswith('per') and a.args[1] not in hs:
                hs.append(a.args[1])
    if not hs:
        S.fact(fn, lab + 'the answer lists a policy cycle', False)
        return
    h = hs[-1]
    w = lambda t: pol.walk(h, t)
    last = sub(L, I1)
    inr = lambda t: (le(I0, t), lt(t, L))

    def goal(name, g, ts=(), *assume):
        s = st.copy()
        for t in ts:
            s.assume(*inr(t))
        s.assume(*assume)
        I = [I0, last] + [x for t in ts for x in (t, add(t, I1))]
        return pgoal(S, E, fn, lab + name, s, g, [h] + [w(t) for t in I if t is not I0], I, [h])
    # the answer lists the policy edges of the walk from h, once around: stated first, then used
    goal('an answer has at least one edge', le(I1, L))
    goal('the answer lists the policy edges of a walk', land(eq(v.get(t0), Ed.get(w(t0))), P.dom(w(t0)), pol.cyc(w(t0))), [t0])
    goal('the walk goes once around', eq(pol.per(h), L))
    known = Fam('listed', 'T', lambda t: implies(land(*inr(t)), land(eq(v.get(t), Ed.get(w(t))), P.dom(w(t)))))
    st = st.copy()
    st.ghost['fam'] = tuple(st.ghost.get('fam', ())) + (known,)
    st.assume(le(I1, L), eq(pol.per(h), L))
    e, e1 = v.get(t0), v.get(t1)
    x, y, wt = tgt(e), src(e), E.wt(e, st)
    goal('every entry is an edge of the graph', isedge(e), [t0])
    goal('consecutive edges meet', implies(lt(add(t0, I1), L), eq(tgt(v.get(add(t0, I1))), src(e))), [t0])
    goal('the last edge starts where the first one ends', eq(src(v.get(last)), tgt(v.get(I0))))
    goal('no later edge ends where the first one does (so, by lemma first_return_simple, the cycle is simple)', ne(x, tgt(v.get(I0))), [t0], lt(I0, t0))
    goal('the edge into a node is determined by the node', implies(eq(x, tgt(e1)), eq(e, e1)), [t0, t1])
    # negative total weight: the hypotheses of lemma cycle_negative
    goal('edges of the cycle are not slack the wrong way', le(add(D(y), wt), D(x)), [t0])
    goal('an edge of the cycle whose source moved later is strict', implies(lt(tau(x), tau(y)), lt(add(D(y), wt), D(x))), [t0])
    goal('a self-loop is negative', implies(eq(x, y), lt(wt, R0)), [t0])
    goal('nodes of the cycle moved at different times', implies(eq(tau(x), tau(tgt(e1))), eq(x, tgt(e1))), [t0, t1])
