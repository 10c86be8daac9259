"""Loops.

Two mechanisms, both for all iterations:

* summary_loop: exact summarisation.  The state at the head of iteration K is
  computed in closed form: induction variables, sums, last values, powers, and
  for arrays single-assignment regions (a cell written in one iteration of the
  nest gets the symbol F(cell), with its defining equation), accumulated cells
  and pushed sequences.
* hoare_loop: a classical invariant rule; candidate invariants come from the
  specification, and the largest inductive subset is used (Houdini).
"""
import terms as T
from terms import TRUE, FALSE, num, var
import smt
from front import Unsupported
from values import *
from exec import Ret, Brk, Cnt, Infeasible
import lib


class LoopExit(Exception):
    pass


class NextIter(Exception):
    pass


def leaves_diff(old, new, path, out):
    if old is new:
        return
    if isinstance(old, ObjV) and isinstance(new, ObjV):
        for k in new.f:
            leaves_diff(old.f.get(k, UNINIT), new.f[k], path + (('f', k),), out)
        return
    if isinstance(old, TupV) and isinstance(new, TupV) and len(old.items) == len(new.items):
        for i, (a, b) in enumerate(zip(old.items, new.items)):
            leaves_diff(a, b, path + (('t', i),), out)
        return
    out.append(path)


def cases_of(t, unchanged):
    """flatten the top-level ite tree of t into [(conds, leaf)]; negated guards of
    changed branches are dropped (regions are unions)"""
    if t.op == 'ite':
        c, a, b = t.args
        ca = [([c] + cs, l) for cs, l in cases_of(a, unchanged)]
        cb0 = cases_of(b, unchanged)
        if any(l is unchanged for cs, l in cases_of(a, unchanged)):
            cb = [([T.lnot(c)] + cs, l) for cs, l in cb0]
        else:
            cb = cb0
        return ca + cb
    return [([], t)]


def conj_list(conds):
    out = []
    for c in conds:
        if c.op == 'and':
            out += conj_list(c.args)
        elif c is not TRUE:
            out.append(c)
    return out


def dnf(conds, limit=64):
    """list of conjunction lists"""
    res = [[]]
    for c in conj_list(conds):
        if c.op == 'or':
            res = [r + d for r in res for x in c.args for d in dnf([x])]
        elif c.op == 'not' and c.args[0].op == 'and':
            res = [r + d for r in res for x in c.args[0].args for d in dnf([T.lnot(x)])]
        elif c.op == 'not' and c.args[0].op == 'or':
            res = [r + d for r in res for d in dnf([T.lnot(x) for x in c.args[0].args])]
        elif c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I':
            a, b = c.args[0].args
            res = [r + d for r in res for d in ([T.lt(a, b)], [T.lt(b, a)])]
        else:
            res = [r + [c] for r in res]
        if len(res) > limit:
            raise Unsupported('region too complex')
    return res


def solve_lin(eqt, K):
    """K = solution, from an integer equality linear in K with unit coefficient"""
    if eqt.op != 'eq':
        return None
    a, b = eqt.args
    if a.sort != 'I' or b.sort != 'I':
        return None
    d = T.sub(a, b)
    p = T._poly(d)
    c = p.get(((K, 1),))
    if c is None or abs(c) != 1:
        return None
    rest = T._from_poly({m: x for m, x in p.items() if m != ((K, 1),)}, 'I')
    if K.args[0] in rest.fv:
        return None
    return T.mul(num(-c, 'I'), rest)


def syms(t, pred):
    return {s.args[0] for s in T.subterms(t) if s.op == 'app' and pred(s.args[0])}


def has_sym(t, names):
    if not names:
        return False
    for s in T.subterms(t):
        if s.op == 'app' and s.args[0] in names:
            return True
    return False


class FDef:
    def __init__(self, name, params, rank):
        self.name, self.params, self.rank = name, params, rank
        self.closed = None
        self.recs = []             # (iteration vars, conds, idx, value)


class Manager:
    """a single-assignment array of a loop nest"""

    def __init__(self, leaf, fdef, raw_sites):
        self.leaf, self.fdef, self.raw_sites = leaf, fdef, raw_sites
        self.events = None
        self.endmode = False       # cells are named at the end of the iteration, not at the write


class Engine(lib.Engine):
    universal = frozenset()      # facts that hold wherever they are stated (axioms of an abstract type)

    def __init__(self, tu):
        super().__init__(tu)
        self.fdefs = {}
        self.mgrs = {}             # leaf LV -> Manager
        self.definitive = True
        self.base_len = 0
        self.loops_done = []

    # ------------------------------------------------------------ simplification in context
    def simp(self, t, pc):
        return simp(t, list(pc))

    def read(self, lv, st):
        v = lib.Engine.read(self, lv, st)
        if isinstance(v, T.T) and v.op not in ('num', 'var', 'app', 'bool') and contains_ite(v):
            v = simp(v, st.pc)
        return v

    # ------------------------------------------------------------ writes to managed arrays
    def rawwrite(self, lv, val, st):
        if self.mgrs:
            for leaf, mg in self.mgrs.items():
                if lv.loc == leaf.loc and lv.path[:len(leaf.path)] == leaf.path:
                    return self.managed_write(mg, leaf, lv.path[len(leaf.path):], lv, val, st)
        return lib.Engine.rawwrite(self, lv, val, st)

    def managed_write(self, mg, leaf, rest, lv, val, st):
        old = self.read(leaf, st)
        ar = None
        if len(rest) == 1 and rest[0][0] == 'e' and isinstance(val, T.T):
            idx = rest[0][1]
            if contains_ite(val):
                val = simp(val, st.pc)
            site = self.cursite
            if mg.events is not None and self.quietev == mg.qbase:
                mg.events.append((site, tuple(self.loopctx), idx, list(st.pc)))
            if mg.endmode or site in mg.raw_sites:
                return lib.Engine.rawwrite(self, lv, val, st)
            sym = T.app(mg.fdef.name, mg.fdef.params + tuple(idx), 'R')
            if self.definitive:
                self.add_rec(mg.fdef, tuple(self.loopctx), list(st.pc), tuple(idx), val, (), site)
            return lib.Engine.rawwrite(self, lv, sym, st)
        # region write: whole array, view, ...
        if mg.events is not None and self.quietev == mg.qbase:
            mg.events.append((self.cursite, tuple(self.loopctx), None, list(st.pc)))
        if mg.endmode:
            return lib.Engine.rawwrite(self, lv, val, st)
        tmp = st.copy()
        lib.Engine.rawwrite(self, lv, val, tmp)
        new = self.read(leaf, tmp)
        if not isinstance(new, ArrV):
            raise Unsupported('managed array replaced')
        vs = tuple(self.fresh('x', 'I') for _ in new.shape)
        u = old.get(vs)
        w = new.get(vs)
        cs = [(c, l) for c, l in cases_of(w, u) if l is not u] if w is not u else []
        pieces = []
        for conds, l in cs:
            for conj in dnf(conds):
                pieces.append((conj, l))
                if self.definitive:
                    self.add_rec(mg.fdef, tuple(self.loopctx), list(st.pc) + conj, vs, simp(l, list(st.pc) + conj), vs, self.cursite)
        reg = T.lor(*[T.land(*c) for c, l in pieces]) if pieces else FALSE
        F, P = mg.fdef.name, mg.fdef.params

        def get(ix):
            r = T.subst(reg, dict(zip(vs, ix)))
            return T.ite(r, T.app(F, P + tuple(ix), 'R'), old.get(ix))
        return lib.Engine.rawwrite(self, leaf, ArrV(new.shape, get), st)

    def add_rec(self, fdef, ctx, pc, idx, val, free, site):
        base = self.rec_base
        conds = [c for c in pc if c not in base]
        key = (idx, val, tuple(conds))
        for r in fdef.recs:
            if r['key'] == key:
                return
        fdef.recs.append({'ctx': ctx, 'conds': conds, 'idx': idx, 'val': val, 'free': tuple(free), 'key': key, 'site': site})

    rec_base = ()
    nocache = False
    quietev = 0
    cursite = None

    def is_dead(self, name):
        """a scalar field that no function of the translation unit ever reads"""
        if not hasattr(self, '_readfields'):
            out = set()

            def walk(n, lhs):
                k = n.get('kind')
                if k == 'CXXConstructorDecl':
                    return
                if k == 'MemberExpr' and not lhs:
                    out.add(n.get('name'))
                for x, c in enumerate(n.get('inner', [])):
                    if isinstance(c, dict):
                        walk(c, k == 'BinaryOperator' and n.get('opcode') == '=' and x == 0)
            for r in self.tu.roots:
                walk(r, False)
            self._readfields = out
        return name not in self._readfields

    # note the syntactic site of element writes
    def l_BinaryOperator(self, n, st):
        if n.get('opcode') == '=':
            dead = n['inner'][0].get('kind') == 'MemberExpr' and self.is_dead(n['inner'][0].get('name'))
            save = self.check_div
            if dead:
                self.check_div = False     # the value is never used
            v = self.ev(n['inner'][1], st)
            self.check_div = save
            lv = self.lv(n['inner'][0], st)
            self.cursite = n.get('id')
            self.write(lv, self.scalar_conv(v, n['inner'][0].get('type', {}).get('desugaredQualType') or n['inner'][0].get('type', {}).get('qualType', '')), st)
            return lv
        return super().l_BinaryOperator(n, st)

    def l_CompoundAssignOperator(self, n, st):
        save = self.cursite
        self.pending_site = n.get('id')
        return super().l_CompoundAssignOperator(n, st)

    def write(self, lv, val, st):
        if getattr(self, 'pending_site', None):
            self.cursite = self.pending_site
            self.pending_site = None
        return super().write(lv, val, st)

    def lib_op(self, name, args, st, n):
        r = super().lib_op(name, args, st, n)
        return r

    def assign(self, lv, y, st):
        return super().assign(lv, y, st)

    # ------------------------------------------------------------ entry points
    def loop(self, n, st, cond, inc, body, post=False):
        head = (lambda s: self.truth(cond, s)) if cond is not None else (lambda s: TRUE)
        bodyf = lambda s: self.stmt(body, s)
        incf = (lambda s: self.ev_any(inc, s)) if inc is not None else (lambda s: None)
        return self.loop_core(n, st, head, bodyf, incf, post)

    def rangefor(self, n, st, v, rlv, beg, end, cond, inc, lvar, body):
        d = lvar['inner'][0]
        seq = None
        base = self.deref(rlv, st)
        if isinstance(v, (VecV, StrV)):
            seq = v
        elif isinstance(v, ArrV) and len(v.shape) == 1:
            seq = VecV(v.shape[0], lambda i: v.get((i,)))
        if seq is None:
            self.stmt(beg, st)
            self.stmt(end, st)
            head = lambda s: self.truth(cond, s)

            def bodyf(s):
                self.stmt(lvar, s)
                self.stmt(body, s)
            incf = lambda s: self.ev_any(inc, s)
            return self.loop_core(n, st, head, bodyf, incf, False)
        pos = self.newloc('__i', num(0, 'I'), st)

        def head(s):
            return T.lt(self.read(pos, s), seq.len)

        def bodyf(s):
            i = self.read(pos, s)
            el = base / (('s', i) if not isinstance(v, ArrV) else ('e', (i,)))
            if is_ref_decl(d):
                lv = el
            else:
                lv = self.newloc(d.get('name', 'e'), self.read(el, s), s)
            if d.get('kind') == 'DecompositionDecl':
                val = self.read(lv, s)
                for j, b in enumerate([c for c in d.get('inner', []) if c.get('kind') == 'BindingDecl']):
                    self.frame.env[b['id']] = lv / ('t', j)
            else:
                self.frame.env[d['id']] = lv
            self.stmt(body, s)

        def incf(s):
            self.write(pos, T.add(self.read(pos, s), num(1, 'I')), s)
        return self.loop_core(n, st, head, bodyf, incf, False)

    def loop_core(self, n, st, head, body, inc, post):
        def iteration(s, check=True):
            """one iteration; raises LoopExit on normal exit, returns on next"""
            if not post:
                if not self.branch(head(s), s):
                    raise LoopExit()
            try:
                body(s)
            except Cnt:
                pass
            except Brk:
                raise LoopExit()
            inc(s)
            if post:
                if not self.branch(head(s), s):
                    raise LoopExit()
        for h in self.loop_hooks:
            r = h(self, n, st, iteration, head, post)
            if r:
                return
        before, fr, envs = st.copy(), self.frame, snapshot_env(self.frame)
        try:
            return self.summary_loop(n, st, iteration, head, post)
        except Unsupported as e:
            why = e
        self.frame = fr
        restore_env(envs)
        st.become(before)
        if not self.unroll(st, iteration, head, post):
            raise why

    def unroll(self, st, iteration, head, post, limit=6):
        """a loop with a small constant number of iterations"""
        def decided(c, s):
            return True if c is TRUE or smt.entails(s.pc, c) else False if c is FALSE or smt.entails(s.pc, T.lnot(c)) else None
        if post:
            return False
        s = st.copy()
        for k in range(limit + 1):
            try:
                d = decided(head(s.copy()), s)
            except Infeasible:
                d = None
            if d is None or k == limit:
                return False
            if not d:
                break
            self.loops_done.append((self.frame.fn.get('_qual', '') if self.frame.fn else '', 'unrolled', 1)) if k == 0 else None
            try:
                iteration(st)
            except LoopExit:
                return True
            s = st.copy()
        try:
            iteration(st)
        except LoopExit:
            pass
        return True

    # ------------------------------------------------------------ exploration of one iteration
    def iterate(self, st, iteration):
        """paths of one iteration: [(state, 'next'|'exit'|'return', value)]"""
        def thunk(s):
            iteration(s)
            return 'next'
        out = []
        todo = [()]
        cbase = self.cnt
        while todo:
            prefix = todo.pop()
            s = st.copy()
            save, fr, dp = self.dec, self.frame, self.depth
            envs = snapshot_env(fr)
            self.dec = [prefix, 0, todo, cbase]
            self.cnt = self.block(cbase, ())
            try:
                try:
                    iteration(s)
                    r = ('next', None)
                except LoopExit:
                    r = ('exit', None)
                except Ret as e:
                    r = ('return', e.v)
                except Infeasible:
                    r = None
            finally:
                self.dec, self.frame, self.depth = save, fr, dp
                restore_env(envs)
            if r is not None:
                out.append((s, r[0], r[1]))
            if len(out) + len(todo) > 200:
                raise Unsupported('too many paths in a loop body')
        self.cnt = self.block(cbase, 'end')
        return out

    def getleaf(self, leaf, st):
        v = st.store.get(leaf.loc, UNINIT)
        for a in leaf.path:
            if v is UNINIT:
                return v
            v = acc_get(v, a, st)
        return v

    def putleaf(self, leaf, v, st):
        if not leaf.path:
            st.store[leaf.loc] = v
        else:
            st.store[leaf.loc] = self._wr(st.store[leaf.loc], leaf.path, v, st)

    def summary_loop(self, n, st, iteration, head, post):
        # a replay of the same path prefix reaches this loop with the same state and the same names
        ck = (n.get('id'), self.cnt, self.definitive, len(self.loopctx))
        hit = None if self.nocache else self.loopcache.get(ck)
        if hit is not None:
            N, closed, exits, run_base, mine, newobl, nb, fds, K, done, self.cnt = hit
            if self.definitive:
                self.obligs = self.obligs + newobl
            self.bounds_ok += nb
            self.loops_done.append(done)
        else:
            pos = self.dec[1] if self.dec else 0
            nb0 = self.bounds_ok
            N, closed, exits, run_base, mine, newobl, K = self.summarise(n, st, iteration, head, post)
            done = (self.frame.fn.get('_qual', '') if self.frame.fn else '', 'summary', len(closed))
            self.loops_done.append(done)
            if not self.nocache and (not self.dec or self.dec[1] == pos):
                self.loopcache[ck] = (N, closed, exits, run_base, mine, newobl, self.bounds_ok - nb0, None, K, done, self.cnt)
        self.after_loop(st, N, closed, exits, run_base, mine, K, head, iteration, post)

    def summarise(self, n, st, iteration, head, post):
        tag = self.cnt = self.cnt + 1
        K = var('K@%d' % tag, 'I')
        outer = tuple(self.loopctx)
        saved_def, saved_obl, saved_bounds = self.definitive, self.obligs, self.bounds_ok
        saved_base = self.rec_base
        st0 = st.copy()
        self.loopctx.append(K)
        mine = []
        newobl = []
        quiet0 = self.quietev
        try:
            self.quietev += 1
            self.definitive = False
            self.obligs = []
            base = st0.copy()
            base.assume(T.le(num(0, 'I'), K))
            # --- A. modified leaves
            M = {}
            for _ in range(12):
                s1 = base.copy()
                for leaf, h in M.items():
                    self.putleaf(leaf, h, s1)
                paths = self.iterate(s1, iteration)
                new = False
                for s, kind, _v in paths:
                    if kind != 'next':
                        continue
                    for loc in s1.store:
                        out = []
                        leaves_diff(s1.store[loc], s.store[loc], (), out)
                        for p in out:
                            lf = LV(loc, p)
                            if lf not in M:
                                new = True
                                M[lf] = self.havoc(lf, self.getleaf(lf, st0), self.getleaf(lf, s), K, outer, tag)
                if not new:
                    break
            else:
                raise Unsupported('modified set does not stabilise')
            closed = {}            # leaf -> function K term -> value
            unresolved = dict(M)

            def state_at(k, s=None):
                s = (s or base).copy()
                for leaf, h in unresolved.items():
                    self.putleaf(leaf, h, s)
                for leaf, f in closed.items():
                    self.putleaf(leaf, f(k), s)
                return s
            N = None
            ncond = None
            # --- B. induction variables first, then the trip count
            progress = True
            while progress:
                progress = False
                s1 = state_at(K)
                paths = [p for p in self.iterate(s1, iteration) if p[1] == 'next']
                for leaf in list(unresolved):
                    h = unresolved[leaf]
                    if isinstance(h, T.T) and h.sort in ('I', 'R'):
                        f = self.induction(leaf, h, paths, K, st0)
                        if f is not None:
                            closed[leaf] = f
                            del unresolved[leaf]
                            progress = True
            N, zero_ok = self.trip_count(state_at, K, iteration, head, st0, post, unresolved, tag)
            if N is not None:
                if zero_ok == 'branch':
                    # the caller's path splits on whether the loop runs at all
                    self.loopctx.pop()
                    self.definitive, self.obligs = saved_def, saved_obl
                    ok = self.branch(T.le(num(0, 'I'), N), st)
                    self.loopctx.append(K)
                    self.definitive, self.obligs = False, []
                    if not ok:
                        N = num(0, 'I')
                    st0 = st.copy()
                    base = st0.copy()
                    base.assume(T.le(num(0, 'I'), K))
                base.assume(T.le(K, N))
                inner_lt = T.lt(K, N)
            # --- C. arrays, sequences
            if N is not None:
                run_base = base.copy()
                run_base.assume(inner_lt)
            else:
                run_base = base
            order = list(unresolved)
            progress = True
            while unresolved and progress:
                progress = False
                s1 = state_at(K, run_base)
                paths = [p for p in self.iterate(s1, iteration) if p[1] == 'next']
                if not paths:
                    # body never completes an iteration
                    for leaf in list(unresolved):
                        closed[leaf] = (lambda v: lambda k: v)(self.getleaf(leaf, st0))
                    unresolved.clear()
                    break
                names = self.unres_names(unresolved)
                for leaf in list(unresolved):
                    h = unresolved[leaf]
                    f = None
                    if isinstance(h, T.T):
                        f = self.induction(leaf, h, paths, K, st0) if h.sort in 'IR' else None
                        if f is None:
                            f = self.scalar_form(leaf, h, paths, K, st0, s1, names)
                    elif isinstance(h, ArrV):
                        f = self.array_form(leaf, h, paths, K, st0, s1, names, N, outer, tag, mine, run_base, state_at, iteration)
                    elif isinstance(h, VecV):
                        f = self.vec_form(leaf, h, paths, K, st0, s1, names)
                    if f is not None:
                        closed[leaf] = f
                        del unresolved[leaf]
                        progress = True
                        break
            if unresolved:
                # values that are dead after the loop may stay unknown only if never read
                raise Unsupported('loop: no closed form for %s' % ', '.join(map(str, unresolved)))  #X
            # --- D. definitive pass: obligations, defining equations, exits
            self.definitive = saved_def
            self.obligs = []
            self.quietev = quiet0
            if zero_ok == 'ne':
                # left when the counter meets the limit: it must not start beyond it
                self.oblige('the loop terminates', st0, T.le(num(0, 'I'), N))
            if saved_def:
                self.rec_base = tuple(st0.pc)  if not saved_base else saved_base
            s1 = state_at(K, run_base)
            if N is None:
                s1 = state_at(K)
            for mg in mine:
                mg.fdef.recs = []
            paths = self.iterate(s1, iteration)
            newobl = self.obligs
            for mg in mine:
                if mg.endmode and self.definitive:
                    u = self.getleaf(mg.leaf, s1).get(mg.vs)
                    for s, kind, _v in paths:
                        if kind != 'next':
                            continue
                        w = self.getleaf(mg.leaf, s).get(mg.vs)
                        for conds, l in cases_of(w, u):
                            if l is u:
                                continue
                            for conj in dnf(conds):
                                pcs = list(s.pc) + conj
                                if smt.entails([p for p in pcs if smt.is_lin(p)], FALSE):
                                    continue
                                self.add_rec(mg.fdef, tuple(self.loopctx), pcs, mg.vs, simp(l, pcs), mg.vs, None)
            exits = [p for p in paths if p[1] in ('exit', 'return')]
            # this iteration runs only if no earlier one left the loop
            past = []
            for s, kind, _v in exits:
                g = T.land(*[c for c in s.pc if c not in run_base.pc])
                t = var('t@%d' % self.nx(), 'I')
                past.append(T.forall((t,), T.implies(T.land(T.le(num(0, 'I'), t), T.lt(t, K)), T.lnot(T.subst(g, {K: t})))))
            if past:
                for o in newobl:
                    o.pc += past
        finally:
            self.quietev = quiet0
            self.loopctx.pop()
            self.definitive = saved_def
            self.rec_base = saved_base
            self.obligs = saved_obl
            for mg in mine:
                self.mgrs.pop(mg.leaf, None)
        if saved_def:
            self.obligs = self.obligs + newobl
        for mg in mine:
            self.finish_fdef(mg.fdef)
            if saved_def and not self.loopctx and N is not None and not exits:
                self.close(mg, N, K, st0)
        return N, closed, exits, run_base, mine, newobl, K

    def after_loop(self, st, N, closed, exits, run_base, mine, K, head, iteration, post):
        guards = []
        for s, kind, _v in exits:
            g = [c for c in s.pc if c not in run_base.pc]
            guards.append(T.land(*g))
        if N is not None:
            data_exits = guards
            alts = ['normal'] + (['early'] if data_exits else [])
        else:
            data_exits = guards
            alts = ['early']
        alt = alts[self.choose(len(alts))] if len(alts) > 1 else alts[0]

        def finish(s, upto):
            s2 = st.copy()
            for leaf, f in closed.items():
                self.putleaf(leaf, f(upto), s2)
            return s2
        if alt == 'normal':
            s2 = finish(st, N)
            s2.assume(T.le(num(0, 'I'), N))
            for g in data_exits:
                t = var('t@%d' % self.nx(), 'I')
                fact = T.forall((t,), T.implies(T.land(T.le(num(0, 'I'), t), T.lt(t, N)), T.lnot(T.subst(g, {K: t}))))
                s2.pc.append(fact)
                s2.ghost.setdefault('noexit', [])
                s2.ghost['noexit'] = s2.ghost['noexit'] + [(t, num(0, 'I'), N, T.lnot(T.subst(g, {K: t})))]
            s2.ghost['exec:' + K.args[0]] = N
            st.become(s2)
            if not post:
                c = head(st)
                st.assume(T.lnot(c))
            return
        m = var('m@%d' % self.nx(), 'I')
        s2 = finish(st, m)
        s2.assume(T.le(num(0, 'I'), m))
        if N is not None:
            s2.assume(T.lt(m, N))
        for g in data_exits:
            t = var('t@%d' % self.nx(), 'I')
            body_t = T.lnot(T.subst(g, {K: t}))
            s2.pc.append(T.forall((t,), T.implies(T.land(T.le(num(0, 'I'), t), T.lt(t, m)), body_t)))
            s2.ghost['noexit'] = s2.ghost.get('noexit', []) + [(t, num(0, 'I'), m, body_t)]
        s2.ghost['exec:' + K.args[0]] = T.add(m, num(1, 'I'))
        st.become(s2)
        # run iteration m, keeping the single-assignment names
        save = dict(self.mgrs)
        sd = self.definitive
        for mg in mine:
            self.mgrs[mg.leaf] = mg
        self.definitive = False if mine else sd
        keep = list(self.obligs)
        try:
            iteration(st)
        except LoopExit:
            return
        finally:
            self.mgrs = save
            self.definitive = sd
            self.obligs = keep
        raise Infeasible()

    def nx(self):
        self.cnt += 1
        return self.cnt

    def havoc(self, leaf, v0, v1, K, outer, tag):
        nm = 'h:%s@%d' % (str(leaf), tag)
        P = outer + (K,)
        ex = v0 if v0 is not UNINIT else v1
        if isinstance(ex, T.T):
            return T.app(nm, P, ex.sort)
        if isinstance(ex, ArrV):
            return ArrV(ex.shape, lambda ix: T.app(nm, P + tuple(ix), 'R'), ex.sort)
        if isinstance(ex, StrV):
            return StrV(T.app(nm + ':len', P, 'I'), lambda i: T.app(nm, P + (i,), 'I'))
        if isinstance(ex, VecV):
            if ex.len.op == 'num' and int(ex.len.args[0]) == 0 and isinstance(v1, VecV):
                ex = v1
            probe = ex.get(num(0, 'I'))
            if isinstance(probe, ArrV):
                return VecV(T.app(nm + ':len', P, 'I'), lambda i: ArrV(probe.shape, lambda ix: T.app(nm, P + (i,) + tuple(ix), 'R')), ('havoc', nm))
            if isinstance(probe, T.T):
                return VecV(T.app(nm + ':len', P, 'I'), lambda i: T.app(nm, P + (i,), probe.sort), ('havoc', nm))
            if isinstance(probe, Opaque):
                return VecV(T.app(nm + ':len', P, 'I'), lambda i: Opaque(probe.cls, T.app(nm, P + (i,), probe.cls)), ('havoc', nm))
        if isinstance(ex, Opaque):
            return Opaque(ex.cls, T.app(nm, P, ex.cls))
        raise Unsupported('loop modifies %s = %r' % (leaf, ex))

    def unres_names(self, unresolved):
        out = set()
        for leaf, h in unresolved.items():
            if isinstance(h, T.T):
                out.add(h.args[0])
            elif isinstance(h, ArrV):
                t = h.get(tuple(num(0, 'I') for _ in h.shape))
                out.add(t.args[0])
            elif isinstance(h, VecV):
                out.add(h.len.args[0])
                if h.info:
                    out.add(h.info[1])
            elif isinstance(h, Opaque):
                out.add(h.t.args[0])
        return out

    def path_guard(self, s, base):
        return [c for c in s.pc if c not in base.pc and c not in self.universal]

    def end_value(self, leaf, s, s1):
        v = self.getleaf(leaf, s)
        if isinstance(v, T.T) and contains_ite(v):
            v = simp(v, s.pc)
        return v

    def induction(self, leaf, h, paths, K, st0):
        """x' = x + c on every path, c constant in the loop"""
        c = None
        for s, kind, _ in paths:
            v = self.getleaf(leaf, s)
            if not isinstance(v, T.T):
                return None
            d = T.sub(v, h)
            if K.args[0] in d.fv or has_sym(d, {h.args[0]}) or any(f.startswith('h:') for f in syms(d, lambda x: True)):
                return None
            if c is None:
                c = d
            elif c is not d:
                return None
        if c is None:
            return None
        x0 = self.getleaf(leaf, st0)
        if x0 is UNINIT:
            return None
        return lambda k: T.add(x0, T.mul(c, k if c.sort == 'I' else T.to_real(k)))

    def merge_paths(self, vals):
        """[(guards, value)] -> one term; guards are conjunction lists"""
        v0 = vals[-1][1]
        if all(v is v0 for g, v in vals):
            return v0
        r = v0
        for g, v in reversed(vals[:-1]):
            r = T.ite(T.land(*g), v, r)
        return r

    def scalar_form(self, leaf, h, paths, K, st0, s1, names):
        own = h.args[0]
        x0 = self.getleaf(leaf, st0)
        vals = [(self.path_guard(s, s1), self.end_value(leaf, s, s1)) for s, k, _ in paths]
        if any(not isinstance(v, T.T) for g, v in vals):
            return None
        if h.sort in 'IR':
            ds = [(g, T.sub(v, h)) for g, v in vals]
            if not any(has_sym(d, {own}) for g, d in ds) and not all(not has_sym(v, {own}) for g, v in vals):
                d = self.merge_paths(ds)
                if not has_sym(d, names):
                    return self.sum_form(x0, d, K)
                return None
            # product with a loop-constant factor
            rs = [T.div(v, h) if has_sym(v, {own}) else None for g, v in vals]
            if all(r is not None and not has_sym(r, names) and K.args[0] not in r.fv for r in rs) and all(r is rs[0] for r in rs):
                r = rs[0]
                if r.op == 'num' and r.args[0] == 2:
                    return lambda k: T.mul(x0, T.app('exp2', (k,), 'R'))
                if r.op == 'num' and r.args[0] * 2 == 1:
                    return lambda k: T.mul(x0, T.app('exp2', (T.neg(k),), 'R'))
                return lambda k: T.mul(x0, T.powi(r, k))
        if any(has_sym(v, {own}) for g, v in vals):
            # flag: x' = x or constant on some paths -> not handled here
            return None
        e = self.merge_paths(vals)
        if has_sym(e, names):
            return None
        one = num(1, 'I')
        e_prev = lambda k: T.subst(e, {K: T.sub(k, one)})
        if x0 is UNINIT:
            return lambda k: UNINIT if k.op == 'num' and k.args[0] == 0 else e_prev(k)
        em = e_prev(num(0, 'I'))
        em = simp(em, st0.pc)
        if em is x0 or (e.sort in 'IR' and T.is_zero(T.sub(T.to_real(em), T.to_real(x0)))):
            return e_prev
        return lambda k: T.ite(T.eq(k, num(0, 'I')), x0, e_prev(k))

    def sum_form(self, x0, d, K):
        def f(k):
            t = T.fresh_bound()
            s = T.rsum(t, num(0, 'I'), k, T.subst(d, {K: t}))
            if x0.sort == 'I' and d.sort == 'I':
                # integer sum: keep it an integer term
                p = T._poly(s)
                if all(a.sort == 'I' for m, c in p.items() for a, e in m):
                    return T.add(x0, T._from_poly(p, 'I'))
                raise Unsupported('integer sum')
            return T.add(T.to_real(x0), s)
        return f

    # ------------------------------------------------------------ trip count
    def trip_count(self, state_at, K, iteration, head, st0, post, unresolved, tag):
        """N such that the loop's own condition holds exactly for K < N; None if data dependent"""
        s1 = state_at(K)
        save, fr = self.dec, self.frame
        todo = []
        cbase = self.cnt
        self.dec = [(), 0, todo, cbase]
        self.cnt = self.block(cbase, ())
        envs = snapshot_env(fr)
        try:
            if post:
                # condition evaluated after the body, on each completed path
                return None, None
            c = head(s1)
        except (Unsupported, Infeasible):
            return None, None
        finally:
            self.dec, self.frame = save, fr
            restore_env(envs)
            self.cnt = self.block(cbase, 'end')
        if todo:
            return None, None
        if any(s.op == 'app' and s.args[0].startswith('h:') and s.args[0].endswith('@%d' % tag) for s in T.subterms(c)):
            return None, None
        if c is TRUE or c is FALSE:
            return (num(0, 'I'), 'ok') if c is FALSE else (None, None)
        conj = conj_list([c])
        if len(conj) != 1:
            return None, None
        c = conj[0]
        neg = T.lnot(c)
        N = None
        if neg.op == 'eq':
            N = solve_lin(neg, K)
            kind = 'ne'
        elif neg.op in ('le', 'lt') and neg.args[0].sort == 'I' and neg.args[1].sort == 'I':
            d = T.sub(neg.args[1], neg.args[0])         # exit when d >= 0 (le) or d > 0 (lt)
            p = T._poly(d)
            co = p.get(((K, 1),))
            rest = T._from_poly({m: x for m, x in p.items() if m != ((K, 1),)}, 'I')
            if co == 1 and K.args[0] not in rest.fv:
                N = T.neg(rest)
                if neg.op == 'lt':
                    N = T.add(N, num(1, 'I'))
            kind = 'lt'
        if N is None or has_real(N):
            return None, None
        if smt.entails(st0.pc, T.le(num(0, 'I'), N)):
            return N, 'ok'
        if kind == 'ne':
            return N, 'ne'
        return N, 'branch'

    # ------------------------------------------------------------ arrays
    def array_form(self, leaf, h, paths, K, st0, s1, names, N, outer, tag, mine, run_base, state_at, iteration):
        A0 = self.getleaf(leaf, st0)
        if not isinstance(A0, ArrV):
            return None
        own = h.get(tuple(num(0, 'I') for _ in h.shape)).args[0]
        vs = tuple(self.fresh('x', 'I') for _ in h.shape)
        u = h.get(vs)
        inb = [T.land(T.le(num(0, 'I'), x), T.lt(x, s)) for x, s in zip(vs, h.shape)]
        allc = []
        for s, kind, _ in paths:
            v = self.getleaf(leaf, s)
            if not isinstance(v, ArrV):
                return None
            w = v.get(vs)
            pc = list(s.pc) + inb
            g = self.path_guard(s, s1)
            cs = []
            for conds, l in cases_of(w, u):
                if l is u:
                    continue
                for conj in dnf(conds):
                    if smt.entails([p for p in pc if smt.is_lin(p)] + [c for c in conj if smt.is_lin(c)], FALSE):
                        continue
                    cs.append((conj, simp(l, pc + conj)))
            allc.append((g, cs))
        regs = [frozenset(T.land(*c) for c, l in cs) for g, cs in allc]
        same = all(r == regs[0] for r in regs)
        flat = []
        for g, cs in allc:
            for conj, l in cs:
                flat.append(((conj if same else g + conj), l))
        conds_all = [c for conj, l in flat for c in conj]
        if any(has_sym(c, names) or not smt.is_lin(c) for c in conds_all):
            return None
        # unique regions
        regions = []
        for conj, l in flat:
            if conj not in regions:
                regions.append(conj)
        sols = [self.solve_region(conj, K) for conj in regions]
        if all(s is not None for s in sols) and regions:
            return self.sa_form(leaf, h, A0, vs, regions, sols, K, N, outer, tag, mine, inb, st0, run_base, state_at, iteration, names)
        # accumulation
        cs = allc[0][1]
        if not same or not all(self.same_cases(allc[0][1], x[1]) for x in allc[1:]):
            return self.merged_sum(leaf, paths, s1, vs, u, own, names, A0, K)
        parts = []
        np_ = len(u.args) - 1 - len(vs)
        fixed = not any(K.args[0] in c.fv for conj, l in cs for c in conj)

        def untouched(t):
            # cells that no iteration writes still hold their value from before the loop
            if not fixed:
                return t
            m = {}
            for x in T.subterms(t):
                if x.op == 'app' and x.args[0] == own:
                    ix = x.args[1 + np_:]
                    if any(a.fv & {y for y in a.fv if y[0] in '#$'} for a in ix):
                        continue
                    sb = dict(zip(vs, ix))
                    pcx = [p for p in run_base.pc + paths[0][0].pc if smt.is_lin(p)]
                    if all(smt.entails(pcx, T.lnot(T.subst(T.land(*conj), sb))) for conj, l in cs):
                        m[x] = A0.get(ix)
            return T.subst(t, m) if m else t
        for conj, l in cs:
            d = T.sub(T.to_real(l), u)
            if has_sym(d, {own}):
                d = untouched(d)
            if has_sym(d, {own}):
                sb = {}
                for x in vs:
                    for cc in conj:
                        so = solve_lin(cc, x)
                        if so is not None and K.args[0] not in so.fv and not (so.fv & {y.args[0] for y in vs}):
                            sb[x] = so
                if sb:
                    d = untouched(T.subst(d, sb))
            if not has_sym(d, {own}):
                if has_sym(d, names - {own}):
                    return None
                parts.append((conj, 'add', d))
                continue
            r = T.div(l, u)
            if not has_sym(r, names):
                if K.args[0] in r.fv or any(K.args[0] in c.fv for c in conj):
                    return None
                parts.append((conj, 'mul', r))
                continue
            return None

        def form(k):
            def get(ix):
                m = dict(zip(vs, ix))
                r = A0.get(ix)
                res = r
                for conj, kind, d in reversed(parts):
                    c = T.land(*conj)
                    if kind == 'add':
                        t = T.fresh_bound()
                        if K.args[0] in c.fv:
                            body = T.subst(T.subst(T.ite(c, d, num(0)), m), {K: t})
                            res = T.add(res, T.rsum(t, num(0, 'I'), k, body))
                        else:
                            body = T.subst(T.subst(d, m), {K: t})
                            res = T.ite(T.subst(c, m), T.add(T.to_real(r), T.rsum(t, num(0, 'I'), k, body)), res)
                    else:
                        res = T.ite(T.subst(c, m), T.mul(r, T.powi(T.subst(d, m), k)), res)
                return res
            return ArrV(A0.shape, get)
        return form

    def merged_sum(self, leaf, paths, s1, vs, u, own, names, A0, K):
        """every cell grows by an amount that depends on the path taken, not on the array"""
        def diff(w):
            if w is u:
                return num(0)
            if w.op == 'ite':
                return T.ite(w.args[0], diff(w.args[1]), diff(w.args[2]))
            return T.sub(T.to_real(w), u)
        d = self.merge_paths([(self.path_guard(s, s1), diff(self.getleaf(leaf, s).get(vs))) for s, kind, _ in paths])
        if has_sym(d, {own}) or has_sym(d, names):
            return None

        def form(k):
            def get(ix):
                t = T.fresh_bound()
                return T.add(T.to_real(A0.get(ix)), T.rsum(t, num(0, 'I'), k, T.subst(T.subst(d, dict(zip(vs, ix))), {K: t})))
            return ArrV(A0.shape, get)
        return form

    def same_cases(self, a, b):
        return len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a, b))

    def solve_region(self, conj, K):
        for c in conj:
            s = solve_lin(c, K)
            if s is not None:
                return s
        return None

    def sa_form(self, leaf, h, A0, vs, regions, sols, K, N, outer, tag, mine, inb, st0, run_base, state_at, iteration, names):
        # single assignment: no cell is written in two different iterations
        K2 = self.fresh('K', 'I')
        pcl = [p for p in run_base.pc if smt.is_lin(p)] + inb
        pc2 = pcl + [T.subst(p, {K: K2}) for p in pcl if K.args[0] in p.fv] + [T.lt(K, K2)]
        for c1 in regions:
            for c2 in regions:
                facts = pc2 + c1 + [T.subst(c, {K: K2}) for c in c2]
                if not smt.entails(facts, FALSE):
                    return None
        mg = self.mgrs.get(leaf)
        if mg is None:
            fd = FDef('F:%s@%d' % (str(leaf), tag), outer, len(vs))
            mg = Manager(leaf, fd, set())
            self.fdefs[fd.name] = fd
            mine.append(mg)
            # find writes that are overwritten within the same iteration
            self.mgrs[leaf] = mg
            mg.events = []
            mg.level = len(self.loopctx)
            mg.vs, mg.u = vs, h.get(vs)
            try:
                s1 = state_at(K, run_base)
                saved = self.definitive
                self.definitive = False
                mg.qbase = self.quietev
                self.iterate_events(s1, iteration, mg)
            except Unsupported:
                mg.endmode = True          # an inner loop works on the cell itself
            finally:
                self.definitive = saved
                mg.events = None
            own_mgr = True
        F, P = mg.fdef.name, mg.fdef.params
        pairs = list(zip(regions, sols))

        def wb(ix, k):
            m = dict(zip(vs, ix))
            out = []
            for conj, s in pairs:
                s_ = T.subst(s, m)
                cs = [T.subst(T.subst(c, {K: s}), m) for c in conj]
                out.append(T.land(T.le(num(0, 'I'), s_), T.lt(s_, k), *cs))
            return T.lor(*out)
        fd = mg.fdef
        if mg in mine:
            mg.wb, mg.vs = wb, vs

        def form(k):
            def get(ix):
                ix = tuple(ix)
                if fd.closed is not None:
                    return T.ite(wb(ix, k), T.subst(fd.closed[1], dict(zip(fd.closed[0], ix))), A0.get(ix))
                return T.ite(wb(ix, k), T.app(F, P + ix, 'R'), A0.get(ix))
            return ArrV(A0.shape, get)
        return form

    def close(self, mg, N, K, st0):
        """the defining equation of a single-assignment array, as a closed form where it names no such array"""
        fd = mg.fdef
        if fd.params or not fd.recs or not hasattr(mg, 'wb'):
            return
        s = st0.copy()
        s.assume(T.land(*[T.land(T.le(num(0, 'I'), x), T.lt(x, d)) for x, d in zip(mg.vs, self.getleaf(mg.leaf, st0).shape)]), mg.wb(mg.vs, N))
        s.ghost['exec:' + K.args[0]] = N
        v = self.unfold(T.app(fd.name, tuple(mg.vs), 'R'), s)
        if v is None or any((x.op == 'app' and x.args[0] in self.fdefs) or (x.op == 'app' and x.args[0].startswith('h:')) for x in T.subterms(v)):
            return
        if any(y[0] in '#$' or y.startswith('K@') for y in v.fv):
            return
        fd.closed = (mg.vs, v)

    def iterate_events(self, s1, iteration, mg):
        """find non-final write sites: written again, possibly to the same cell, later in the iteration"""
        def run(s):
            mg.events = []
            iteration(s)
            return list(mg.events)
        todo = [()]
        allruns = []
        cbase = self.cnt
        while todo:
            prefix = todo.pop()
            s = s1.copy()
            save, fr, dp = self.dec, self.frame, self.depth
            envs = snapshot_env(fr)
            self.dec = [prefix, 0, todo, cbase]
            self.cnt = self.block(cbase, ())
            mg.events = []
            ok = True
            nc, self.nocache = self.nocache, True
            try:
                try:
                    iteration(s)
                except (LoopExit, Ret):
                    pass
                except Infeasible:
                    ok = False
            finally:
                self.dec, self.frame, self.depth = save, fr, dp
                self.nocache = nc
                restore_env(envs)
            if ok:
                allruns.append(list(mg.events))
        self.cnt = self.block(cbase, 'end')
        for evs in allruns:
            for (s1_, ctx1, ix1, pc1) in evs:
                deep = {k.args[0] for k in ctx1[mg.level:]}
                if deep and ix1 is not None and not any(x.fv & deep for x in ix1):
                    mg.endmode = True      # the same cell is written in every iteration of an inner loop
            for i, (s1_, ctx1, ix1, pc1) in enumerate(evs):
                for (s2_, ctx2, ix2, pc2) in evs[i + 1:]:
                    if s1_ == s2_ and ctx1 == ctx2:
                        continue
                    if ix1 is None or ix2 is None:
                        mg.raw_sites.add(s1_) if ix2 is None and s1_ != s2_ else None
                        continue
                    if len(ctx1) == len(ctx2) and ctx1 == ctx2:
                        pc = pc2
                        if not smt.entails([p for p in pc if smt.is_lin(p)], T.lnot(idx_eq(ix1, ix2))):
                            mg.raw_sites.add(s1_)
                    else:
                        if all(x is y for x, y in zip(ix1, ix2)):
                            mg.raw_sites.add(s1_)
        return allruns

    def vec_form(self, leaf, h, paths, K, st0, s1, names):
        v0 = self.getleaf(leaf, st0)
        xs = []
        own = {h.len.args[0]} | ({h.info[1]} if h.info else set())
        for s, kind, _ in paths:
            v = self.getleaf(leaf, s)
            if T.sub(v.len, h.len) is not num(1, 'I'):
                return None
            i = self.fresh('i', 'I')
            xs.append((self.path_guard(s, s1), v.get(h.len)))
        x = xs[0][1]
        if len(xs) > 1:
            if not all(y is x for g, y in xs):
                return None
        if isinstance(x, ArrV):
            vs = tuple(self.fresh('x', 'I') for _ in x.shape)
            t = x.get(vs)
            if has_sym(t, names):
                return None
            mk = lambda k: ArrV(x.shape, lambda ix: T.subst(T.subst(t, dict(zip(vs, ix))), {K: k}))
        elif isinstance(x, T.T):
            if has_sym(x, names):
                return None
            mk = lambda k: T.subst(x, {K: k})
        elif isinstance(x, Opaque):
            if has_sym(x.t, names):
                return None
            mk = lambda k: Opaque(x.cls, T.subst(x.t, {K: k}))
        else:
            return None
        n0 = v0.len

        def form(k):
            def get(i):
                c = T.lt(i, n0)
                if c is TRUE:
                    return v0.get(i)
                new = mk(T.sub(i, n0))
                if c is FALSE or (n0.op == 'num' and n0.args[0] == 0):
                    return new
                return vite(c, v0.get(i), new)
            return VecV(T.add(n0, k), get, ('closed', None))
        return form

    def finish_fdef(self, fd):
        pass

    # ------------------------------------------------------------ unfolding of F symbols
    def unfold(self, t, st):
        """F(params, idx) -> its defining value in the state's context, or None"""
        fd = self.fdefs.get(t.args[0])
        if fd is None:
            return None
        args = t.args[1:]
        pargs, idx = args[:len(fd.params)], args[len(fd.params):]
        psub = dict(zip(fd.params, pargs))
        for r in fd.recs:
            sub = dict(psub)
            unk = [v for v in r['ctx'] if v not in fd.params] + list(r['free'])
            back = {}
            here = set().union(*[a.fv for a in args]) if args else set()
            if any(u.args[0] in here for u in unk):
                # asked from within an iteration: its variables are not the unknowns
                for q, u in enumerate(unk):
                    w = var(u.args[0] + "'", u.sort)
                    sub[u] = w
                    back[w] = u
                unk = [sub[u] for u in unk]
            eqs = [T.eq(T.subst(a, sub), b) for a, b in zip(r['idx'], idx)]
            conds = list(r['conds'])
            # solve for the unknown iteration variables
            work = eqs + [T.subst(c, sub) for c in conds]
            val = T.subst(r['val'], sub)
            ok = True
            solved = {}
            remaining = list(unk)
            changed = True
            while remaining and changed:
                changed = False
                for k in list(remaining):
                    for w in work:
                        s = solve_lin(w, k)
                        if s is not None and not any(x.args[0] in s.fv for x in remaining):
                            work = [T.subst(x, {k: s}) for x in work]
                            solved = {a: T.subst(b, {k: s}) for a, b in solved.items()}
                            solved[k] = s
                            remaining.remove(k)
                            changed = True
                            break
                        elif s is not None and k.args[0] not in s.fv:
                            work = [T.subst(x, {k: s}) for x in work]
                            solved = {a: T.subst(b, {k: s}) for a, b in solved.items()}
                            solved[k] = s
                            remaining.remove(k)
                            changed = True
                            break
            if remaining:
                continue
            # iterations must have been executed
            for k, s in solved.items():
                ub = st.ghost.get('exec:' + back.get(k, k).args[0])
                if ub is not None:
                    work.append(T.lt(s, ub))
            need = [w for w in work if w is not TRUE]
            if all(self.holds(w, st) for w in need):
                for _ in range(4):
                    v2 = T.subst(val, solved)
                    if v2 is val:
                        break
                    val = v2
                return simp(val, st.pc)
        return None

    def holds(self, w, st):
        if w is FALSE:
            return False
        if smt.entails(st.pc, w):
            return True
        # data conditions of earlier iterations: instances of no-exit facts
        for (t, lo, hi, body) in st.ghost.get('noexit', []):
            pass
        if not smt.is_lin(w):
            return self.noexit_instance(w, st)
        return False

    def noexit_instance(self, w, st):
        for (t, lo, hi, body) in st.ghost.get('noexit', []):
            for lit in conj_list([body]):
                b = match_inst(lit, w, t)
                if b is not None and smt.entails(st.pc, T.land(T.le(lo, b), T.lt(b, hi))):
                    return True
        return False

    # ------------------------------------------------------------ Hoare loops
    def hoare_loop(self, n, st, iteration, cands, extra_mod=()):
        """cands: function(state at entry, havoc'd state, leaves) -> [(label, inv: state -> T)]"""
        saved_obl, saved_def = self.obligs, self.definitive
        tag = self.nx()
        st0 = st.copy()
        self.definitive = False
        self.obligs = []
        try:
            M = {}
            for lf in extra_mod:
                M[lf] = None
            for _ in range(12):
                s1 = st0.copy()
                for leaf in M:
                    self.putleaf(leaf, self.hvalue(leaf, M[leaf], st0, tag), s1)
                paths = self.iterate(s1, iteration)
                new = False
                for s, kind, _v in paths:
                    if kind != 'next':
                        continue
                    for loc in s1.store:
                        out = []
                        leaves_diff(s1.store[loc], s.store[loc], (), out)
                        for p in out:
                            lf = LV(loc, p)
                            if lf not in M:
                                M[lf] = self.getleaf(lf, s)
                                new = True
                if not new:
                    break
            else:
                raise Unsupported('modified set does not stabilise')
            s1 = st0.copy()
            for leaf in M:
                self.putleaf(leaf, self.hvalue(leaf, M[leaf], st0, tag), s1)
            cs = cands(self, st0, s1, list(M))
            # initially
            live = []
            for label, inv in cs:
                t = inv(st0)
                if t is None:
                    continue
                if self.prove_quick(st0.pc, t):
                    live.append((label, inv))
                else:
                    self.notes.append('candidate dropped (entry): ' + label)
            while True:
                s2 = s1.copy()
                for label, inv in live:
                    s2.assume(inv(s2))
                self.obligs = []
                paths = self.iterate(s2, iteration)
                bad = []
                for label, inv in live:
                    for s, kind, _ in paths:
                        if kind == 'next':
                            if not self.prove_quick(s.pc, inv(s)):
                                bad.append((label, inv))
                                self.notes.append('candidate dropped (preservation): ' + label)
                                break
                if not bad:
                    break
                live = [c for c in live if c not in bad]
            newobl = self.obligs
        finally:
            self.obligs = saved_obl
            self.definitive = saved_def
        self.obligs = self.obligs + newobl
        self.invariants = getattr(self, 'invariants', []) + [l for l, _ in live]
        self.loops_done.append((self.frame.fn.get('_qual', '') if self.frame.fn else '', 'invariant: ' + '; '.join(l for l, _ in live), len(M)))
        exits = [p for p in paths if p[1] in ('exit', 'return')]
        if not exits:
            raise Infeasible()
        i = self.choose(len(exits)) if len(exits) > 1 else 0
        s, kind, v = exits[i]
        st.become(s)
        if kind == 'return':
            raise Ret(v)

    def prove_quick(self, pc, t):
        if smt.entails(pc, t):
            return True
        r = smt.prove(pc, t, rlimit=3_000_000)
        return r[0] == 'proved'

    def hvalue(self, leaf, ex, st0, tag):
        v0 = self.getleaf(leaf, st0)
        if v0 is not UNINIT and v0 is not None:
            ex = v0
        nm = 'v:%s@%d' % (str(leaf), tag)
        if isinstance(ex, T.T):
            return var(nm, ex.sort)
        if isinstance(ex, ArrV):
            return ArrV(ex.shape, lambda ix: T.app(nm, tuple(ix), 'R'))
        if isinstance(ex, Opaque):
            return Opaque(ex.cls, var(nm, ex.cls))
        if isinstance(ex, OptV):
            return OptV(var(nm + ':has', 'B'), ex.val)
        if isinstance(ex, StrV):
            return StrV(var(nm + ':len', 'I'), lambda i: T.app(nm, (i,), 'I'))
        if isinstance(ex, VecV):
            p = ex.get(num(0, 'I')) if not (ex.info and ex.info[0] == 'list' and not ex.info[1]) else None
            if isinstance(p, Opaque):
                return VecV(var(nm + ':len', 'I'), lambda i: Opaque(p.cls, T.app(nm, (i,), p.cls)))
            if isinstance(p, T.T):
                return VecV(var(nm + ':len', 'I'), lambda i: T.app(nm, (i,), p.sort))
        if isinstance(ex, MapV):
            def getm(k):
                if ex.vs in ('I', 'R', 'B'):
                    return T.app(nm, (k,), ex.vs)
                return Opaque(ex.vs, T.app(nm, (k,), ex.vs))
            return MapV(lambda k: T.app(nm + ':dom', (k,), 'B'), getm, ex.ks, ex.vs)
        raise Unsupported('loop modifies %s = %r' % (leaf, ex))


def match_inst(pat, t, v):
    """find b with pat[v:=b] is t (pat, t booleans)"""
    cand = set()

    def walk(p, q):
        if p is v:
            cand.add(q)
            return
        if p.op == q.op and p.op == 'app' and len(p.args) == len(q.args) and p.args[0] == q.args[0]:
            for x, y in zip(p.args[1:], q.args[1:]):
                walk(x, y)
        elif p.op == q.op and p.op == 'poly':
            for (m1, _), (m2, _) in zip(p.args, q.args):
                for (a, _), (b, _) in zip(m1, m2):
                    walk(a, b)
        elif p.op == q.op and p.op in ('lt', 'le', 'eq', 'not', 'ite', 'inv'):
            for x, y in zip(p.args, q.args):
                walk(x, y)
        elif p.op == 'poly' and p.sort == 'I' and q.sort == 'I':
            # v + c = q
            d = T._poly(p)
            c = d.get(((v, 1),))
            if c is not None and abs(c) == 1:
                rest = T._from_poly({m: x for m, x in d.items() if m != ((v, 1),)}, 'I')
                cand.add(T.mul(num(c, 'I'), T.sub(q, rest)))
    walk(pat, t)
    for b in cand:
        if T.subst(pat, {v: b}) is t:
            return b
    return None


def is_ref_decl(d):
    for k in ('desugaredQualType', 'qualType'):
        t = d.get('type', {}).get(k)
        if t and t.rstrip().endswith('&'):
            return True
    return False


def snapshot_env(fr):
    out = []
    while fr is not None:
        out.append((fr, dict(fr.env)))
        fr = fr.up
    return out


def restore_env(envs):
    for fr, e in envs:
        fr.env = e


_ci = {}


def contains_ite(t):
    r = _ci.get(t)
    if r is None:
        r = False
        if t.op == 'ite':
            r = True
        elif t.op == 'poly':
            r = any(contains_ite(a) for m, c in t.args for a, e in m)
        elif t.op == 'sum':
            r = contains_ite(t.args[1]) or any(contains_ite(l) or contains_ite(h) for v, l, h in t.args[0])
        elif t.op in ('forall', 'exists'):
            r = contains_ite(t.args[1])
        elif t.op not in ('num', 'var', 'bool'):
            r = any(contains_ite(a) for a in t.args if isinstance(a, T.T))
        _ci[t] = r
    return r


def has_real(t):
    return any(s.sort == 'R' for s in T.subterms(t))


_simp = {}


def simp(t, pc, fk=None):
    """resolve conditionals using the path condition; sums add their range to it"""
    if not contains_ite(t):
        return t
    if fk is None:
        fk = frozenset(pc)
    r = _simp.get((t, fk))
    if r is None:
        if len(_simp) > 200000:
            _simp.clear()
        r = _simp[t, fk] = simp_(t, pc, fk)
    return r


def simp_(t, pc, fk):
    op = t.op
    if op == 'ite':
        c, a, b = t.args
        c = simp(c, pc, fk)
        if c is TRUE or smt.entails(pc, c):
            return simp(a, pc, fk)
        nc = T.lnot(c)
        if c is FALSE or smt.entails(pc, nc):
            return simp(b, pc, fk)
        a = simp(a, pc + conj_list([c]))
        b = simp(b, pc + conj_list([nc]))
        if a is b:
            return a
        for lit in conj_list([c]):
            if lit.op == 'eq' and lit.args[0].sort == 'I':
                d = T.sub(lit.args[0], lit.args[1])
                for v in d.fv:
                    vv = var(v, 'I')
                    s = solve_lin(lit, vv)
                    if s is not None:
                        if T.subst(b, {vv: s}) is T.subst(a, {vv: s}):
                            return b
        return T.ite(c, a, b)
    if op == 'sum':
        ranges, body = t.args
        ren, nr, pc2 = {}, [], list(pc)
        for v, lo, hi in ranges:
            nv = T.fresh_bound()
            lo, hi = simp(T.subst(lo, ren), pc2), simp(T.subst(hi, ren), pc2)
            nr.append((nv, lo, hi))
            ren[var(v, 'I')] = nv
            pc2 = pc2 + [T.le(lo, nv), T.lt(nv, hi)]
        b = simp(T.subst(body, ren), pc2)
        for nv, lo, hi in reversed(nr):
            b = T.rsum(nv, lo, hi, b)
        return b
    if op in ('forall', 'exists'):
        return t
    return T.rebuild(t, lambda x: simp(x, pc, fk))
