"""Bridge to the SMT solvers (z3, cvc5): translation of terms and validity queries."""
import collections
import z3
from fractions import Fraction
import terms as T
from terms import TRUE, FALSE

RLIMIT_QUICK = 400_000
RLIMIT = 12_000_000

stats = {'queries': 0, 'time': 0.0, 'backends': {}}


class Trans:
    """one translation context: definitional side conditions collected on the way"""

    def __init__(self):
        self.cache = {}
        self.side = []
        self.fn = {}
        self.names = {}
        self.sums = {}

    cong = False

    def congruence(self, t, r):
        """equal indices make equal sums: facts about pairs of sums of one shape"""
        if any(v.startswith('$q') for v in t.fv):
            return
        inner = set()
        for s in T.subterms(t):
            if s.op == 'sum':
                inner |= {v for v, lo, hi in s.args[0]}
        m, args = {}, []
        for s in T.subterms(t):
            if s.op == 'app' and s.args[0] not in T.INTERP and s.sort == 'R':
                for a in s.args[1:]:
                    if isinstance(a, T.T) and a.sort == 'I' and a not in m and not (a.fv & inner) and not any(v.startswith('#') for v in a.fv):
                        m[a] = T.var('%%%d' % len(m), 'I')
                        args.append(a)
        if not args or len(args) > 4:
            return

        def go(x):
            if x.op == 'app' and x.args[0] not in T.INTERP and x.args[0] != 'sqrt':
                return T.app(x.args[0], tuple(m.get(a) or go(a) if isinstance(a, T.T) else a for a in x.args[1:]), x.sort)
            if x.op in ('var', 'num', 'bool'):
                return x
            return T.rebuild(x, go)
        sk = go(t)
        known = self.sums.setdefault(sk, [])
        if len(known) > 12 or any(r is q for _, q in known):
            return
        for b, q in known:
            if any(x.op == 'num' and y.op == 'num' and x is not y for x, y in zip(args, b)):
                continue
            self.side.append(z3.Implies(z3.And([self.tr(x) == self.tr(y) for x, y in zip(args, b)]), r == q))
        known.append((args, r))

    def sort(self, s):
        if s == 'I':
            return z3.IntSort()
        if s == 'R':
            return z3.RealSort()
        if s == 'B':
            return z3.BoolSort()
        return z3.DeclareSort(s)

    def const(self, name, sort):
        return z3.Const(name, self.sort(sort))

    def opaque(self, t, prefix):
        """a constant standing for t; if t has bound variables, a function of them"""
        bv = sorted(v for v in t.fv if v.startswith('$q'))
        n = '%s!%d' % (prefix, t.uid)
        if not bv:
            return self.const(n, t.sort)
        doms = [z3.IntSort()] * len(bv)
        f = z3.Function(n, *doms, self.sort(t.sort))
        return f(*[z3.Int(v) for v in bv])

    def real(self, t):
        e = self.tr(t)
        if z3.is_int(e):
            return z3.ToReal(e)
        return e

    def tr(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._tr(t)
            self.cache[t] = r
        return r

    def _guard_side(self, t, f):
        """side condition about terms with bound variables must be quantified"""
        bv = sorted(v for v in t.fv if v.startswith('$q'))
        if bv:
            return z3.ForAll([z3.Int(v) for v in bv], f)
        return f

    def _tr(self, t):
        op = t.op
        if op == 'num':
            c = t.args[0]
            if t.sort == 'I':
                return z3.IntVal(int(c))
            return z3.RealVal(str(c))
        if op == 'bool':
            return z3.BoolVal(t.args[0])
        if op == 'var':
            return self.const(t.args[0], t.sort)
        if op == 'poly':
            real = t.sort == 'R'
            out = []
            for m, c in t.args:
                f = []
                if c != 1 or not m:
                    f.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)) if c.denominator == 1 else None)
                    if f[-1] is None:
                        return self.opaque(t, 'frac')
                for a, e in m:
                    x = self.real(a) if real else self.tr(a)
                    if e > 0:
                        f += [x] * e
                    else:
                        w = self.opaque(T.inv(a), 'inv') if False else self._recip(a)
                        f += [w] * (-e)
                r = f[0]
                for x in f[1:]:
                    r = r * x
                out.append(r)
            return z3.Sum(out) if len(out) > 1 else out[0]
        if op == 'inv':
            return self._recip(t.args[0])
        if op == 'sum':
            r = self.opaque(t, 'sum')
            if self.cong:
                self.congruence(t, r)
            return r
        if op == 'app':
            f, args = t.args[0], t.args[1:]
            if f == 'sqrt':
                s = self.opaque(t, 'sqrt')
                p = self.real(args[0])
                self.side.append(self._guard_side(t, z3.And(s >= 0, z3.Implies(p >= 0, s * s == p))))
                return s
            if f == 'floor':
                s = self.opaque(t, 'floor')
                p = self.real(args[0])
                self.side.append(self._guard_side(t, z3.And(z3.ToReal(s) <= p, p < z3.ToReal(s) + 1)))
                return s
            if f == 'idiv':      # C++ truncating division
                a, b = self.tr(args[0]), self.tr(args[1])
                s = self.opaque(t, 'idiv')
                self.side.append(self._guard_side(t, z3.Implies(b != 0, z3.And(
                    z3.Implies(z3.And(a >= 0, b > 0), z3.And(s * b <= a, a < s * b + b)),
                    z3.Implies(z3.And(a <= 0, b > 0), z3.And(s * b >= a, a > s * b - b)),
                    z3.Implies(z3.And(a >= 0, b < 0), z3.And(s * b <= a, a < s * b - b)),
                    z3.Implies(z3.And(a <= 0, b < 0), z3.And(s * b >= a, a > s * b + b))))))
                return s
            sg = (f, tuple(a.sort for a in args), t.sort)
            if not args:
                return self.const('fn!' + f, t.sort)
            fd = self.fn.get(sg)
            if fd is None:
                fd = z3.Function('%s/%s' % (f, ''.join(a.sort[0] for a in args)), *[self.sort(a.sort) for a in args],
                                 self.sort(t.sort))
                self.fn[sg] = fd
            r = fd(*[self.tr(a) for a in args])
            if f == 'exp2':
                self.side.append(self._guard_side(t, r > 0))
            return r
        if op == 'and':
            return z3.And([self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.tr(a) for a in t.args])
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'iff':
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op in ('lt', 'le', 'eq'):
            a, b = t.args
            if 'R' in (a.sort, b.sort) and a.sort in 'IR':
                x, y = self.real(a), self.real(b)
            else:
                x, y = self.tr(a), self.tr(b)
                if op != 'eq' and a.sort not in 'IR':
                    # a total order on the values of an abstract type
                    rank = z3.Function('rank/' + a.sort, self.sort(a.sort), z3.IntSort())
                    p, q = rank(x), rank(y)
                    self.side.append(z3.Implies(p == q, x == y) if not any(v[0] == '$' for v in t.fv) else z3.BoolVal(True))
                    x, y = p, q
            return x < y if op == 'lt' else x <= y if op == 'le' else x == y
        if op == 'ite':
            c, a, b = t.args
            if t.sort == 'R':
                return z3.If(self.tr(c), self.real(a), self.real(b))
            return z3.If(self.tr(c), self.tr(a), self.tr(b))
        if op in ('forall', 'exists'):
            vs, body = t.args
            ren = {v: T.var('$q' + v.args[0], v.sort) for v in vs if not v.args[0].startswith('$q')}
            b = self.tr(T.subst(body, ren))
            zs = [self.const(ren.get(v, v).args[0], v.sort) for v in vs]
            return z3.ForAll(zs, b) if op == 'forall' else z3.Exists(zs, b)
        raise ValueError(op)

    def _recip(self, a):
        w = self.opaque(T.mk('app', ('recip', a), 'R'), 'recip')
        p = self.real(a)
        self.side.append(self._guard_side(a, z3.Implies(p != 0, z3.And(w * p == 1, (w > 0) == (p > 0)))))
        return w


_cache = {}


def has_quant(t):
    return any(s.op in ('forall', 'exists') for s in T.subterms(t))


def linear_int(t):
    """does t only talk about integers (linearly or not) and no reals?"""
    for s in T.subterms(t):
        if s.sort == 'R' or s.op in ('sum', 'forall', 'exists', 'inv'):
            return False
    return True


_li = {}


def is_lin(t):
    r = _li.get(t)
    if r is None:
        r = _li[t] = linear_int(t)
    return r


def entails(pc, goal, rlimit=RLIMIT_QUICK):
    """quick entailment check; True only when proved"""
    if goal is TRUE:
        return True
    if goal in pc:
        return True
    if goal is FALSE:
        pass
    elif goal.op == 'and':
        return all(entails(pc, g, rlimit) for g in goal.args)
    lin = goal is not FALSE and is_lin(goal)
    if lin:
        facts = [p for p in pc if is_lin(p)]
    else:
        facts = [p for p in pc if not has_quant(p)]
    fk = frozenset(facts)
    key = (fk, goal)
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = _check(fk, facts, goal, rlimit)
    return r


_solvers = collections.OrderedDict()
_NMODEL = 3


def _check(fk, facts, goal, rlimit):
    import time
    t0 = time.time()
    ent = _solvers.get(fk)
    if ent is None:
        tr = Trans()
        s = z3.SimpleSolver()
        s.set('rlimit', rlimit)
        s.set('timeout', 8000)       # the resource limit does not bound every step of the solver
        s.set('random_seed', 0)
        for p in facts:
            s.add(tr.tr(p))
        ent = [s, tr, [], 0]
        _solvers[fk] = ent
        if len(_solvers) > 400:
            _solvers.popitem(last=False)
    else:
        _solvers.move_to_end(fk)
    s, tr, models, ns = ent
    g = z3.BoolVal(False) if goal is FALSE else tr.tr(goal)
    if len(tr.side) > ns:
        for x in tr.side[ns:]:
            s.add(x)
        ent[3] = len(tr.side)
        ent[2] = models = []
    try:
        for m in models:
            if z3.is_false(m.eval(g, model_completion=True)):
                return False
        s.push()
        s.add(z3.Not(g))
        stats['queries'] += 1
        r = s.check()
        if r == z3.sat and not tr.side:
            models.insert(0, s.model())
            del models[_NMODEL:]
        s.pop()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('rlimit', rlimit)
            s2.set('timeout', 8000)
            s2.set('random_seed', 0)
            s2.add(s.assertions())
            s2.add(z3.Not(g))
            r = s2.check()
        return r == z3.unsat
    finally:
        stats['time'] += time.time() - t0


def prove(pc, goal, rlimit=RLIMIT, hints=(), quant=True, tactics=('smt', 'nlsat')):
    """-> ('proved', backend) | ('refuted', model-string) | ('unknown', reason)"""
    import time
    if goal is TRUE:
        return ('proved', 'normal form')
    if goal in pc:
        return ('proved', 'hypothesis')
    t0 = time.time()
    best = ('unknown', 'not attempted')
    try:
        lin = is_lin(goal)
        variants = []
        if lin:
            variants.append([p for p in pc if is_lin(p)])
        noq = [p for p in pc if not has_quant(p)]
        variants.append(noq + list(hints))
        if quant and len(noq) != len(pc):
            variants.append(list(pc) + list(hints))
        for facts in variants:
            full = facts is variants[-1]
            for tac in tactics:
                if tac == 'nlsat' and (lin or any(has_quant(p) for p in facts) or has_quant(goal)):
                    continue
                tr = Trans()
                tr.cong = tac != 'nlsat'
                fs = [tr.tr(p) for p in facts] + [z3.Not(tr.tr(goal))]
                fs += tr.side
                if tac == 'nlsat':
                    s = z3.TryFor(z3.Then('simplify', 'purify-arith', 'solve-eqs', 'elim-uncnstr', 'qfnra-nlsat'), 20000).solver()
                else:
                    s = z3.Solver()
                    s.set('rlimit', rlimit)
                    s.set('timeout', 60000)         # where the resource limit is not looked at
                    s.set('random_seed', 0)
                for f in fs:
                    s.add(f)
                stats['queries'] += 1
                try:
                    r = s.check()
                except z3.Z3Exception as e:
                    best = ('unknown', str(e))
                    continue
                if r == z3.unsat:
                    return ('proved', 'z3-' + tac)
                if r == z3.sat:
                    m = s.model()
                    best = ('refuted' if full and not has_quant(goal) else 'unknown', str(m)[:4000])
                    if full:
                        return best
                    break
                elif best[0] != 'refuted':
                    best = ('unknown', 'z3-%s: %s' % (tac, s.reason_unknown()))
        return best
    finally:
        stats['time'] += time.time() - t0


def satisfiable(pc, rlimit=3_000_000):
    """'sat' | 'unsat' | 'unknown'"""
    try:
        tr = Trans()
        s = z3.Solver()
        s.set('rlimit', rlimit)
        for p in pc:
            if not has_quant(p):
                s.add(tr.tr(p))
        for x in tr.side:
            s.add(x)
        return str(s.check())
    except Exception as e:
        return 'unknown'
