"""Symbolic execution of the clang AST: the verification-condition generator.

Every repository function met is either executed (its AST is interpreted) or,
when a contract is registered for it, replaced by that contract.  Functions
outside the repository have trusted contracts in lib.py.
"""
import re
import terms as T
from terms import TRUE, FALSE, num, var
import smt
from front import Unsupported, body_of, params_of
from values import *


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ('env', 'this', 'fn', 'up')

    def __init__(self, env, this, fn, up=None):
        self.env, self.this, self.fn, self.up = env, this, fn, up

    def look(self, i):
        f = self
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.up
        return None


class Oblig:
    __slots__ = ('name', 'pc', 'goal', 'note')

    def __init__(self, name, pc, goal, note=''):
        self.name, self.pc, self.goal, self.note = name, list(pc), goal, note


_WRAP = {'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'}

MAXPATHS = 400


def strip_type(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        while t.endswith('&') or t.endswith(' const') or t.endswith('*'):
            t = t[:-1] if not t.endswith(' const') else t[:-6]
            t = t.strip()
            ch = True
    return t


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def is_ref(n):
    for k in ('desugaredQualType', 'qualType'):
        t = n.get('type', {}).get(k)
        if t and t.rstrip().endswith('&'):
            return True
    return False


_UNS = {'unsigned int': 32, 'unsigned long': 64, 'size_t': 64, 'std::size_t': 64, 'unsigned long long': 64,
        'unsigned short': 16, 'unsigned char': 8, 'size_type': 64}
_SIG = {'int', 'long', 'long long', 'short', 'char', 'signed char', 'ptrdiff_t', 'difference_type', 'std::ptrdiff_t'}
_FLT = {'double', 'float', 'long double'}


def sort_of_type(t):
    t = strip_type(t)
    if t == 'bool':
        return 'B'
    if t in _FLT:
        return 'R'
    if t in _UNS or t in _SIG:
        return 'I'
    return None


class Engine:
    def __init__(self, tu, lib=None):
        self.tu = tu
        self.contracts = {}        # qualified repo name -> handler
        self.loop_hooks = []
        self.obligs = []
        self.bounds_ok = 0
        self.trusted = set()
        self.inlined = set()
        self.contract_used = set()
        self.frame = None
        self.cnt = 0
        self.blocks = {}
        self.loopcache = {}
        self.dec = None
        self.depth = 0
        self.loopctx = []          # enclosing E2 iteration variables
        self.managed = []          # stack of single-assignment managers
        self.notes = []
        self.lenient = False
        self.check_bounds = True
        self.check_div = True
        self.check_sqrt = True
        self.assume_float = set()

    # ------------------------------------------------------------ utilities
    def fresh(self, p, sort):
        self.cnt += 1
        return var('%s@%d' % (p, self.cnt), sort)

    def newloc(self, name, v, st):
        self.cnt += 1
        l = '%s#%d' % (name, self.cnt)
        st.store[l] = v
        return LV(l)

    def oblige(self, name, st, goal, note=''):
        if goal is TRUE:
            self.bounds_ok += 1
            return
        if smt.entails(st.pc, goal):
            self.bounds_ok += 1
            return
        self.obligs.append(Oblig(name, st.pc, goal, note))

    def feasible(self, st):
        return not smt.entails(st.pc, FALSE)

    # ------------------------------------------------------------ store
    def deref(self, lv, st):
        """follow references stored along the path"""
        seen = 0
        while True:
            v = st.store.get(lv.loc)
            if v is None:
                raise Unsupported('dangling location %s' % lv.loc)
            done = True
            if isinstance(v, RefV):
                lv = LV(v.lv.loc, v.lv.path + lv.path)
                done = False
            else:
                for i, acc in enumerate(lv.path):
                    v = acc_get(v, acc, st)
                    if isinstance(v, (RefV, ViewV)) and not (isinstance(v, ViewV) and i == len(lv.path) - 1 and False):
                        lv = LV(v.lv.loc, v.lv.path + lv.path[i + 1:])
                        done = False
                        break
            if done:
                return lv
            seen += 1
            if seen > 50:
                raise Unsupported('reference cycle')

    def read(self, lv, st):
        lv = self.deref(lv, st)
        v = st.store[lv.loc]
        for acc in lv.path:
            v = acc_get(v, acc, st)
        if isinstance(v, ViewV):
            return self.read(v.lv, st)
        if v is UNINIT:
            raise Unsupported('read of uninitialised %s' % lv)
        return v

    def write(self, lv, val, st):
        lv = self.deref(lv, st)
        hook = self.managed[-1] if self.managed else None
        if hook is not None:
            r = hook(lv, val, st)
            if r is not None:
                lv, val = r
        self.rawwrite(lv, val, st)

    def rawwrite(self, lv, val, st):
        # composed views/elements: element of view of array -> write through
        st.store[lv.loc] = self._wr(st.store[lv.loc], lv.path, val, st)

    def _wr(self, v, path, val, st):
        if not path:
            return val
        if len(path) >= 2 and path[0][0] in 've' and isinstance(v, ArrV):
            inner = self._wr(acc_get(v, path[0], st), path[1:], val, st)
            return acc_set(v, path[0], inner, st)
        if len(path) == 1:
            return acc_set(v, path[0], val, st)
        return acc_set(v, path[0], self._wr(acc_get(v, path[0], st), path[1:], val, st), st)

    # ------------------------------------------------------------ branching
    def explore(self, st0, thunk, limit=MAXPATHS):
        out = []
        todo = [()]
        base = self.cnt
        while todo:
            prefix = todo.pop()
            st = st0.copy()
            save = self.dec
            fr = self.frame
            self.dec = [prefix, 0, todo, base]
            self.cnt = self.block(base, ())
            try:
                try:
                    r = ('normal', thunk(st))
                except Ret as e:
                    r = ('return', e.v)
                except Brk:
                    r = ('break', None)
                except Cnt:
                    r = ('continue', None)
                except Infeasible:
                    r = None
                if r is not None:
                    out.append((st, r[0], r[1]))
            finally:
                self.dec = save
                self.frame = fr
            if len(out) + len(todo) > limit:
                raise Unsupported('too many paths')
        self.cnt = self.block(base, 'end')
        return out

    def block(self, base, key):
        """names are a function of the path taken, so that replaying a prefix yields the same names"""
        k = (base, key)
        r = self.blocks.get(k)
        if r is None:
            r = self.blocks[k] = (len(self.blocks) + 1) * 1000000
        return r

    def choose(self, n):
        """pick one of n alternatives, scheduling the others"""
        prefix, pos, todo, base = self.dec
        if pos < len(prefix):
            c = prefix[pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                todo.append(prefix + (k,))
            prefix = prefix + (0,)
            self.dec[0] = prefix
        self.dec[1] = pos + 1
        self.cnt = self.block(base, prefix[:pos + 1])
        return c

    def branch(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if smt.entails(st.pc, c):
            return True
        nc = T.lnot(c)
        if smt.entails(st.pc, nc):
            return False
        if self.choose(2) == 0:
            st.assume(c)
            return True
        st.assume(nc)
        return False

    # ------------------------------------------------------------ statements
    def stmt(self, n, st):
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        if k.endswith('Expr') or k.endswith('Operator') or k in _WRAP:
            self.ev_any(n, st)
            return
        raise Unsupported('statement %s' % k)

    def ev_any(self, n, st):
        while n['kind'] in _WRAP and n['kind'] != 'SubstNonTypeTemplateParmExpr':
            n = n['inner'][0]
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.lv(n, st)
        return self.ev(n, st)

    def s_CompoundStmt(self, n, st):
        for c in n.get('inner', []):
            self.stmt(c, st)

    def s_DeclStmt(self, n, st):
        for d in n.get('inner', []):
            k = d.get('kind')
            if k == 'VarDecl':
                self.declare(d, st)
            elif k == 'DecompositionDecl':
                self.decompose(d, st)
            elif k in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % k)

    def init_of(self, d):
        ins = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] not in ('BindingDecl', 'FullComment')]
        if not d.get('init'):
            return None
        return ins[0] if ins else None

    def bind(self, d, init, st):
        """declare a variable: reference -> LV of the initialiser, else a new location"""
        ref = is_ref(d)
        name = d.get('name', '_')
        if d.get('storageClass') == 'static':
            return self.static_local(d, init, name, st)
        if init is None:
            v = self.default_value(qt(d), st)
            return self.newloc(name, v, st)
        if ref:
            return self.lv(init, st)
        v = self.ev(init, st)
        return self.newloc(name, self.coerce(v, qt(d), st), st)

    def static_local(self, d, init, name, st):
        """a constant, or a scalar that earlier calls may have left with any value"""
        key = 'static:%s' % d['id']
        if key in st.ghost:
            return st.ghost[key]
        t = strip_type(qt(d))
        sort = sort_of_type(t)
        if sort is None or is_ref(d):
            raise Unsupported('static local variable %s' % name)
        v = self.ev(init, st) if init is not None else self.zero_value(t, st)
        if qt(d).startswith('const ') or d.get('constexpr'):
            if not isinstance(v, T.T) or v.op not in ('num', 'bool'):
                raise Unsupported('static local variable %s' % name)
            return self.newloc(name, self.coerce(v, qt(d), st), st)
        if getattr(self, 'loopctx', None):
            raise Unsupported('static local variable %s' % name)
        v = T.var('static ' + name, sort)
        if 'unsigned' in t or t in ('size_t', 'std::size_t', 'bool') and sort == 'I':
            st.assume(T.le(T.num(0, 'I'), v))
        st.ghost[key] = r = self.newloc(name, v, st)
        return r

    def coerce(self, v, t, st):
        """conversion of an expression value to a declared container type"""
        s = strip_type(t)
        if isinstance(v, ViewV) and (self.is_arr_type(s)):
            return self.read(v.lv, st)
        return v

    def is_arr_type(self, s):
        return s.startswith('xt::xarray_container') or s in ('Arr', 'Vec', 'Mat', 'xarray<double>') or \
            s.startswith('xarray_container') or s.startswith('xt::xarray<')

    def declare(self, d, st):
        self.frame.env[d['id']] = self.bind(d, self.init_of(d), st)

    def decompose(self, d, st):
        lv = self.bind(d, self.init_of(d), st)
        v = self.read(lv, st)
        bs = [c for c in d.get('inner', []) if c.get('kind') == 'BindingDecl']
        for i, b in enumerate(bs):
            if isinstance(v, TupV):
                self.frame.env[b['id']] = lv / ('t', i)
            elif isinstance(v, ObjV):
                fs = list(v.f)
                self.frame.env[b['id']] = lv / ('f', fs[i])
            else:
                raise Unsupported('structured binding of %r' % (v,))

    def s_ReturnStmt(self, n, st):
        ins = n.get('inner', [])
        if not ins:
            raise Ret(None)
        if self.frame.fn is not None and self.frame.fn.get('_retref'):
            raise Ret(self.lv(ins[0], st))
        v = self.ev(ins[0], st)
        raise Ret(v)

    def s_IfStmt(self, n, st):
        ins = list(n.get('inner', []))
        if n.get('hasInit'):
            self.stmt(ins.pop(0), st)
        if n.get('hasVar'):
            self.stmt(ins.pop(0), st)
        c = self.truth(ins[0], st)
        if n.get('isConstexpr'):
            if c is TRUE:
                self.stmt(ins[1], st)
            elif c is FALSE:
                if len(ins) > 2:
                    self.stmt(ins[2], st)
            else:
                raise Unsupported('constexpr condition')
            return
        if self.branch(c, st):
            self.stmt(ins[1], st)
        elif len(ins) > 2:
            self.stmt(ins[2], st)

    def truth(self, n, st):
        v = self.ev(n, st)
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, OptV):
            return v.has
        if not isinstance(v, T.T):
            raise Unsupported('condition of %r' % (v,))
        if v.sort == 'B':
            return v
        return T.ne(v, num(0, v.sort))

    def s_BreakStmt(self, n, st):
        raise Brk()

    def s_ContinueStmt(self, n, st):
        raise Cnt()

    def s_SwitchStmt(self, n, st):
        ins = n['inner']
        v = self.ev(ins[0], st)
        body = ins[1].get('inner', [])
        # flatten case labels
        labels = []
        flat = []

        def add(s):
            if s.get('kind') == 'CaseStmt':
                labels.append((len(flat), s['inner'][0]))
                add(s['inner'][-1])
            elif s.get('kind') == 'DefaultStmt':
                labels.append((len(flat), None))
                add(s['inner'][-1])
            else:
                flat.append(s)
        for s in body:
            add(s)
        start = None
        dflt = len(flat)
        for pos, e in labels:
            if e is None:
                dflt = pos
        for pos, e in labels:
            if e is None:
                continue
            c = T.eq(v, self.ev(e, st))
            if self.branch(c, st):
                start = pos
                break
        if start is None:
            start = dflt
        try:
            for s in flat[start:]:
                self.stmt(s, st)
        except Brk:
            pass

    # loops are in loops.py
    def s_ForStmt(self, n, st):
        ins = n['inner']           # init, condvar, cond, inc, body
        init, cv, cond, inc, body = ins
        if init.get('kind'):
            self.stmt(init, st)
        self.loop(n, st, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)

    def s_WhileStmt(self, n, st):
        ins = [c for c in n['inner']]
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        self.loop(n, st, ins[0], None, ins[1])

    def s_DoStmt(self, n, st):
        body, cond = n['inner']
        self.loop(n, st, cond, None, body, post=True)

    def s_CXXForRangeStmt(self, n, st):
        ins = [c for c in n['inner']]
        # init?, range, begin, end, cond, inc, loopvar, body
        if ins[0].get('kind') == 'DeclStmt' and len(ins) == 8 and ins[0]['inner'][0].get('name', '').startswith('__range') is False:
            self.stmt(ins[0], st)
        ins = ins[-7:]
        rng, beg, end, cond, inc, lvar, body = ins
        self.stmt(rng, st)
        rd = rng['inner'][0]
        rlv = self.frame.env[rd['id']]
        v = self.read(rlv, st)
        self.rangefor(n, st, v, rlv, beg, end, cond, inc, lvar, body)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        k = n['kind']
        if k in _WRAP:
            return self.ev(n['inner'][-1] if k == 'SubstNonTypeTemplateParmExpr' else n['inner'][0], st)
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            r = self.lv(n, st)
            return self.read(r, st)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n, st)

    def lv(self, n, st):
        """location denoted by n (a temporary is created for a prvalue)"""
        k = n['kind']
        if k in _WRAP:
            return self.lv(n['inner'][-1] if k == 'SubstNonTypeTemplateParmExpr' else n['inner'][0], st)
        if k == 'MaterializeTemporaryExpr':
            e = n['inner'][0]
            v = self.ev(e, st)
            if isinstance(v, ViewV):
                return v.lv
            return self.newloc('tmp', v, st)
        if n.get('valueCategory') not in ('lvalue', 'xvalue'):
            v = self.ev(n, st)
            if isinstance(v, ViewV):
                return v.lv
            return self.newloc('tmp', v, st)
        m = getattr(self, 'l_' + k, None)
        if m is None:
            raise Unsupported('lvalue %s' % k)
        r = m(n, st)
        if not isinstance(r, LV):
            if isinstance(r, ViewV):
                return r.lv
            r = self.newloc('tmp', r, st)
        return r

    # literals
    def e_IntegerLiteral(self, n, st):
        return num(int(n['value']), 'I')

    def e_CharacterLiteral(self, n, st):
        return num(int(n['value']), 'I')

    def e_FloatingLiteral(self, n, st):
        from fractions import Fraction
        return num(Fraction(n['value']), 'R')

    def e_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n['value'] else FALSE

    def l_StringLiteral(self, n, st):
        s = n['value']
        import ast
        try:
            s = ast.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return self.newloc('str', mkstr(s), st)

    def l_PredefinedExpr(self, n, st):
        return self.newloc('str', mkstr('fn'), st)

    def e_CXXThisExpr(self, n, st):
        return RefV(self.this())

    def e_GNUNullExpr(self, n, st):
        return num(0, 'I')

    def this(self):
        f = self.frame
        while f is not None:
            if f.this is not None:
                return f.this
            f = f.up
        raise Unsupported('this outside a method')

    def e_ImplicitValueInitExpr(self, n, st):
        return self.zero_value(qt(n), st)

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.zero_value(qt(n), st)

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        raise Unsupported('default argument')

    def e_CXXDefaultInitExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        raise Unsupported('default member initialiser')

    def l_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        r = self.frame.look(d['id'])
        if r is not None:
            return r
        if d['kind'] == 'EnumConstantDecl':
            return self.newloc('enum', self.enum_value(d), st)
        # namespace-scope constants
        g = self.tu.byid.get(d['id'])
        if g is not None and g.get('kind') == 'VarDecl' and 'const' in g.get('type', {}).get('qualType', ''):
            init = self.init_of(g)
            if init is not None:
                return self.newloc(g['name'], self.ev(init, st), st)
        raise Unsupported('variable %s' % d.get('name'))

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return self.enum_value(d)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Tag('fn', d)
        if d['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter value')
        return self.read(self.l_DeclRefExpr(n, st), st)

    def enum_value(self, d):
        g = self.tu.byid.get(d['id'])
        for e in self.tu.byid.values():
            if e.get('kind') == 'EnumDecl':
                names = [c for c in e.get('inner', []) if c.get('kind') == 'EnumConstantDecl']
                v = -1
                for c in names:
                    v += 1
                    for x in c.get('inner', []):
                        if x.get('kind') == 'ConstantExpr' and 'value' in x:
                            v = int(x['value'])
                    if c['id'] == d['id']:
                        return num(v, 'I')
        raise Unsupported('enumerator %s' % d.get('name'))

    def base_lv(self, n, st):
        """object denoted by the base of a member expression"""
        b = n['inner'][0]
        if n.get('isArrow'):
            v = self.ev(b, st)
            if isinstance(v, RefV):
                return v.lv
            r = self.arrow(v, b, st)
            if r is not None:
                return r
            raise Unsupported('-> on %r' % (v,))
        return self.lv(b, st)

    def arrow(self, v, b, st):
        return None

    def l_MemberExpr(self, n, st):
        base = self.base_lv(n, st)
        name = n.get('name', '')
        v = self.read(base, st)
        if isinstance(v, TupV) and name in ('first', 'second'):
            return base / ('t', 0 if name == 'first' else 1)
        if isinstance(v, ObjV):
            if name not in v.f:
                raise Unsupported('field %s of %s' % (name, v.cls))
            return base / ('f', name)
        raise Unsupported('member %s of %r' % (name, v))

    def e_MemberExpr(self, n, st):
        return self.read(self.l_MemberExpr(n, st), st)

    # casts
    def l_ImplicitCastExpr(self, n, st):
        return self.lv(n['inner'][0], st)
    l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXConstCastExpr = l_ImplicitCastExpr

    def l_CXXFunctionalCastExpr(self, n, st):
        return self.lv(n['inner'][0], st)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck in ('LValueToRValue', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BaseToDerived'):
            return self.ev_ref(sub, st)
        if ck in ('IntegralToFloating',):
            return T.to_real(self.ev(sub, st))
        if ck == 'FloatingCast':
            return self.ev(sub, st)
        if ck == 'IntegralCast':
            v = self.ev(sub, st)
            return self.int_cast(v, qt(n), st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.ev(sub, st)
            return T.ne(v, num(0, v.sort)) if v.sort != 'B' else v
        if ck == 'FloatingToIntegral':
            return self.trunc(self.ev(sub, st), st)
        if ck in ('BuiltinFnToFnPtr', 'ToVoid', 'NullToPointer'):
            return self.ev_any(sub, st)
        if ck == 'PointerToBoolean':
            return TRUE
        raise Unsupported('cast %s' % ck)

    def ev_ref(self, n, st):
        return self.ev(n, st)

    def int_cast(self, v, t, st):
        if isinstance(v, T.T) and v.sort == 'B':
            return T.ite(v, num(1, 'I'), num(0, 'I'))
        if not isinstance(v, T.T):
            return v
        s = strip_type(t)
        if s in _UNS:
            return self.wrap(v, _UNS[s], st)
        return self.unwrap(v)

    def unwrap(self, v):
        """conversion to a signed type: multiples of 2^64 added by unsigned arithmetic go away"""
        M = 1 << 64
        big = lambda x: any(y.op == 'num' and abs(y.args[0]) >= M >> 1 or y.op == 'poly' and any(abs(c) >= M >> 1 for _, c in y.args) for y in T.subterms(x))
        if not big(v):
            return v
        if v.op == 'ite':
            return T.ite(v.args[0], self.unwrap(v.args[1]), self.unwrap(v.args[2]))
        p = dict(T._poly(v))
        for m in p:
            for a, e in m:
                if a.op == 'ite' and big(a):
                    return T.ite(a.args[0], self.unwrap(T.subst(v, {a: a.args[1]})), self.unwrap(T.subst(v, {a: a.args[2]})))
        c = int(p.get((), 0))
        return T.add(v, num((c + (M >> 1)) % M - (M >> 1) - c, 'I'))

    def wrap(self, v, w, st):
        """value of v as an unsigned integer, given it is above -2^w"""
        if v.op == 'num':
            return num(int(v.args[0]) % (1 << w), 'I')
        c = T.ge(v, num(0, 'I')) if hasattr(T, 'ge') else T.le(num(0, 'I'), v)
        if self.obviously_nonneg(v) or smt.entails(st.pc, c):
            return v
        if smt.entails(st.pc, T.lnot(c)):
            return T.add(v, num(1 << w, 'I'))
        return T.ite(c, v, T.add(v, num(1 << w, 'I')))

    def obviously_nonneg(self, v):
        return False

    def trunc(self, v, st):
        if v.sort == 'I':
            return v
        # integer-valued real
        if v.op == 'num' and v.args[0].denominator == 1:
            return num(v.args[0], 'I')
        p = T._poly(v)
        if all(c.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m) for m, c in p.items()):
            return T._from_poly(p, 'I')
        if smt.entails(st.pc, T.le(num(0), v)):
            return T.app('floor', (v,), 'I')
        return T.ite(T.le(num(0), v), T.app('floor', (v,), 'I'), T.neg(T.app('floor', (T.neg(v),), 'I')))

    def e_CXXFunctionalCastExpr(self, n, st):
        ck = n.get('castKind')
        if ck in (None, 'NoOp', 'ConstructorConversion', 'LValueToRValue', 'UserDefinedConversion', 'DerivedToBase'):
            return self.ev(n['inner'][0], st)
        return self.e_ImplicitCastExpr(n, st)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr

    def e_MaterializeTemporaryExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_CXXStdInitializerListExpr(self, n, st):
        v = self.ev(n['inner'][0], st)
        return v

    def l_InitListExpr(self, n, st):
        if len(n.get('inner', [])) == 1:
            return self.lv(n['inner'][0], st)
        return self.newloc('il', self.e_InitListExpr(n, st), st)

    def e_InitListExpr(self, n, st):
        t = qt(n)
        ins = n.get('inner', [])
        s = strip_type(t)
        if sort_of_type(s):
            return self.ev(ins[0], st) if ins else self.zero_value(s, st)
        if re.search(r'\[\d+\]$', s):
            vals = [self.ev(c, st) for c in ins]
            return listvec(vals)
        cls = self.find_class(s)
        if cls is not None and len(ins) == 1 and self.find_class(strip_type(qt(ins[0]))) is cls:
            return self.ev(ins[0], st)          # from an object of the class itself
        if cls is not None:
            fs = cls.get('_fields') or []
            f = {}
            for i, fd in enumerate(fs):
                if i < len(ins):
                    f[fd['name']] = self.lv_field(fd, ins[i], st)
                else:
                    f[fd['name']] = self.field_default(fd, st)
            return ObjV(cls.get('name', s), f)
        if s.startswith('std::array') or s.startswith('array<'):
            return self.ev(ins[0], st)
        if len(ins) == 1:
            return self.ev(ins[0], st)
        raise Unsupported('initialiser list for %s' % t)

    def lv_field(self, fd, init, st):
        if is_ref(fd):
            return RefV(self.lv(init, st))
        v = self.ev(init, st)
        return self.coerce(v, qt(fd), st)

    def field_default(self, fd, st):
        ini = self.init_of({'inner': fd.get('inner', []), 'init': True}) if fd.get('hasInClassInitializer') else None
        if ini is not None:
            return self.lv_field(fd, ini, st)
        return self.default_value(qt(fd), st)

    # unary / binary
    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '-':
            v = self.ev(sub, st)
            if isinstance(v, T.T):
                r = T.neg(v)
                s = strip_type(qt(n))
                if s in _UNS:
                    r = self.wrap(r, _UNS[s], st)
                return r
            return self.lib_unary('-', v, st)
        if op == '+':
            return self.ev(sub, st)
        if op == '!':
            return T.lnot(self.truth(sub, st))
        if op in ('++', '--'):
            lv = self.lv(sub, st)
            old = self.read(lv, st)
            self.write(lv, self.incr(old, op, qt(sub), st), st)
            return old
        if op == '&':
            return RefV(self.lv(sub, st))
        if op == '*':
            v = self.ev(sub, st)
            if isinstance(v, RefV):
                return self.read(v.lv, st)
        raise Unsupported('unary %s' % op)

    def incr(self, old, op, t, st):
        new = T.add(old, num(1 if op == '++' else -1, old.sort))
        s = strip_type(t)
        if op == '--' and s in _UNS:
            new = self.wrap(new, _UNS[s], st)
        return new

    def l_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op in ('++', '--'):
            lv = self.lv(sub, st)
            old = self.read(lv, st)
            self.write(lv, self.incr(old, op, qt(sub), st), st)
            return lv
        if op == '*':
            v = self.ev(sub, st)
            if isinstance(v, RefV):
                return v.lv
        raise Unsupported('unary lvalue %s' % op)

    def pure(self, n):
        k = n.get('kind')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'LambdaExpr', 'CXXConstructExpr',
                 'CompoundAssignOperator', 'CXXTemporaryObjectExpr'):
            if k == 'CXXOperatorCallExpr':
                nm = self.callee_name(n)
                if nm in ('operator()', 'operator[]') and self.callee_decl(n) is None:
                    return all(self.pure(c) for c in n.get('inner', []) if isinstance(c, dict))
            if k == 'CallExpr' and self.callee_name(n) in ('__builtin_expect', 'abs', 'fabs', 'sqrt', 'exp', 'log', 'move', 'get', 'forward', 'max', 'min'):
                return all(self.pure(c) for c in n.get('inner', []) if isinstance(c, dict))
            if k == 'CXXMemberCallExpr' and n['inner'][0].get('name') in ('size', 'empty', 'shape', 'length'):
                return True
            return False
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return False
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return False
        return all(self.pure(c) for c in n.get('inner', []) if isinstance(c, dict))

    def under(self, cond, n, st):
        """evaluate the pure expression n assuming cond, without branching"""
        k = len(st.pc)
        save = list(st.pc)
        st.assume(cond)
        try:
            return self.ev(n, st)
        finally:
            st.pc[:] = save

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner'][0], n['inner'][1]
        if op == ',':
            self.ev_any(a, st)
            return self.ev(b, st)
        if op == '=':
            return self.read(self.l_BinaryOperator(n, st), st)
        if op in ('&&', '||'):
            x = self.truth(a, st)
            if op == '&&':
                if x is FALSE:
                    return FALSE
                if x is TRUE:
                    return self.truth(b, st)
                if self.pure(b):
                    return T.land(x, self.as_bool(self.under(x, b, st)))
                if self.branch(x, st):
                    return self.truth(b, st)
                return FALSE
            if x is TRUE:
                return TRUE
            if x is FALSE:
                return self.truth(b, st)
            if self.pure(b):
                return T.lor(x, self.as_bool(self.under(T.lnot(x), b, st)))
            if self.branch(x, st):
                return TRUE
            return self.truth(b, st)
        x = self.ev(a, st)
        y = self.ev(b, st)
        return self.arith(op, x, y, qt(n), st, n)

    def arith(self, op, x, y, t, st, n=None):
        if not (isinstance(x, T.T) and isinstance(y, T.T)):
            if isinstance(x, Opaque) and isinstance(y, Opaque) and op in ('==', '!='):
                e = T.eq(x.t, y.t)
                return e if op == '==' else T.lnot(e)
            raise Unsupported('%r %s %r' % (x, op, y))
        if x.sort == 'B' and op not in ('==', '!='):
            x = T.ite(x, num(1, 'I'), num(0, 'I'))
        if y.sort == 'B' and op not in ('==', '!='):
            y = T.ite(y, num(1, 'I'), num(0, 'I'))
        if op == '==':
            return T.iff(x, y) if x.sort == 'B' and y.sort == 'B' else T.eq(x, y)
        if op == '!=':
            return T.lnot(T.iff(x, y) if x.sort == 'B' and y.sort == 'B' else T.eq(x, y))
        if op == '<':
            return T.lt(x, y)
        if op == '<=':
            return T.le(x, y)
        if op == '>':
            return T.lt(y, x)
        if op == '>=':
            return T.le(y, x)
        s = strip_type(t)
        if op == '+':
            return T.add(x, y)
        if op == '-':
            r = T.sub(x, y)
            if s in _UNS:
                r = self.wrap(r, _UNS[s], st)
            return r
        if op == '*':
            return T.mul(x, y)
        if op == '/':
            if s in _UNS or s in _SIG or (x.sort == 'I' and y.sort == 'I'):
                self.oblige('division by zero', st, T.ne(y, num(0, 'I')))
                return self.idiv(x, y, st)
            return self.rdiv(x, y, st)
        if op in ('>>', '<<') and y.op == 'num' and 0 <= y.args[0] < 63:
            self.oblige('shift of a non-negative number', st, T.le(num(0, 'I'), x))
            k = num(2 ** int(y.args[0]), 'I')
            return self.idiv(x, k, st) if op == '>>' else self.arith('*', x, k, t, st, n)
        if op == '%':
            self.oblige('modulo by zero', st, T.ne(y, num(0, 'I')))
            return T.sub(x, T.mul(y, self.idiv(x, y, st)))
        raise Unsupported('operator %s' % op)

    def rdiv(self, x, y, st):
        self.on_div(y, st)
        return T.div(x, y)

    def on_div(self, y, st):
        if self.check_div and not (y.op == 'num' and y.args[0] != 0):
            self.oblige('divisor is not zero', st, T.ne(y, num(0, y.sort)))

    def idiv(self, x, y, st):
        if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
            a, b = int(x.args[0]), int(y.args[0])
            q = abs(a) // abs(b)
            return num(q if (a < 0) == (b < 0) else -q, 'I')
        if y.op == 'num' and y.args[0] == 1:
            return x
        if y.op != 'num' and smt.entails(st.pc, T.land(T.le(num(0, 'I'), x), T.lt(num(0, 'I'), y))):
            # quotients of at most one (round robin)
            if smt.entails(st.pc, T.lt(x, y)):
                return num(0, 'I')
            if smt.entails(st.pc, T.lt(x, T.mul(num(2, 'I'), y))):
                return T.ite(T.lt(x, y), num(0, 'I'), num(1, 'I'))
        return T.app('idiv', (x, y), 'I')

    def l_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = n['inner'][0], n['inner'][1]
        if op == '=':
            v = self.ev(b, st)
            lv = self.lv(a, st)
            self.write(lv, self.scalar_conv(v, qt(a)), st)
            return lv
        if op == ',':
            self.ev_any(a, st)
            return self.lv(b, st)
        raise Unsupported('lvalue operator %s' % op)

    def scalar_conv(self, v, t):
        if isinstance(v, T.T) and v.sort == 'I' and strip_type(t) in _FLT:
            return T.to_real(v)
        return v

    def l_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = self.ev(b, st)
        lv = self.lv(a, st)
        x = self.read(lv, st)
        if strip_type(n.get('computeResultType', {}).get('qualType', '')) in _FLT and isinstance(x, T.T):
            x = T.to_real(x)
        r = self.arith(op, x, y, qt(a), st)
        ta = a.get('type', {}).get('desugaredQualType') or qt(a)
        if isinstance(r, T.T) and r.sort == 'R' and sort_of_type(ta) == 'I':
            r = self.trunc(r, st)
        self.write(lv, self.scalar_conv(r, ta), st)
        return lv

    def e_CompoundAssignOperator(self, n, st):
        return self.read(self.l_CompoundAssignOperator(n, st), st)

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        x = self.truth(c, st)
        if x is TRUE:
            return self.ev(a, st)
        if x is FALSE:
            return self.ev(b, st)
        if sort_of_type(qt(n)) and self.pure(a) and self.pure(b):
            va = self.under(x, a, st)
            vb = self.under(T.lnot(x), b, st)
            if isinstance(va, T.T) and isinstance(vb, T.T):
                return T.ite(x, va, vb)
        return self.ev(a if self.branch(x, st) else b, st)

    def l_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        return self.lv(a if self.branch(self.truth(c, st), st) else b, st)

    def l_ArraySubscriptExpr(self, n, st):
        base = self.ev_any(n['inner'][0], st)
        lv = base if isinstance(base, LV) else base.lv if isinstance(base, RefV) else None
        if lv is None:
            lv = self.newloc('tmp', base, st)
        i = self.ev(n['inner'][1], st)
        return self.index(lv, [i], st)

    def index(self, lv, ix, st):
        """element location of an array/vector/map"""
        v = self.read(lv, st)
        if isinstance(v, ArrV):
            if len(ix) < len(v.shape):
                raise Unsupported('partial index')
            ix = tuple(ix[len(ix) - len(v.shape):])
            if self.check_bounds:
                for i, s in zip(ix, v.shape):
                    self.oblige('index within bounds', st, T.land(T.le(num(0, 'I'), i), T.lt(i, s)))
            return lv / ('e', ix)
        if isinstance(v, (VecV, StrV)):
            if self.check_bounds:
                self.oblige('index within bounds', st, T.land(T.le(num(0, 'I'), ix[0]), T.lt(ix[0], v.len)))
            return lv / ('s', ix[0])
        raise Unsupported('index into %r' % (v,))

    # lambdas
    def e_LambdaExpr(self, n, st):
        rec = n['inner'][0]
        fn = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                fn = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                fn = c
        # captures: by-value copies matter only if the captured variable changes
        # later; treat the frame as shared unless an explicit copy capture exists
        if fn is None:
            raise Unsupported('lambda')
        lam = LamV(n, self.frame, self.frame, fn)
        caps = [c for c in n['inner'][1:] if c.get('kind') not in ('CompoundStmt',)]
        env = {}
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        for fd, cexp in zip(fields, caps):
            if not is_ref(fd) and cexp.get('kind') in ('DeclRefExpr', 'ImplicitCastExpr', 'CXXConstructExpr'):
                d = cexp
                while d.get('kind') != 'DeclRefExpr' and d.get('inner'):
                    d = d['inner'][0]
                if d.get('kind') == 'DeclRefExpr':
                    env[d['referencedDecl']['id']] = self.newloc('cap', self.ev(cexp, st), st)
        lam.cap = env
        return lam

    # ------------------------------------------------------------ calls
    def callee_ref(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
            c = c['inner'][0]
        return c

    def callee_name(self, n):
        c = self.callee_ref(n)
        if c.get('kind') == 'DeclRefExpr':
            return c['referencedDecl'].get('name', '')
        if c.get('kind') == 'MemberExpr':
            return c.get('name', '')
        return ''

    def callee_decl(self, n):
        c = self.callee_ref(n)
        i = None
        if c.get('kind') == 'DeclRefExpr':
            i = c['referencedDecl']['id']
        elif c.get('kind') == 'MemberExpr':
            i = c.get('referencedMemberDecl')
        return self.tu.byid.get(i)

    def bool_nontype(self, f):
        for x in f.get('inner', []):
            if x.get('kind') == 'TemplateArgument' and 'value' in x:
                return bool(int(x['value']))
        return None

    def e_CallExpr(self, n, st):
        r = self.call_expr(n, st)
        if isinstance(r, LV):
            return self.read(r, st)
        return r

    def l_CallExpr(self, n, st):
        return self.call_expr(n, st)

    def call_expr(self, n, st):
        d = self.callee_decl(n)
        args = [c for c in n['inner'][1:]]
        if d is not None and d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return self.call(d, None, args, st, n)
        name = self.callee_name(n)
        if not name:
            c = self.callee_ref(n)
            v = self.ev_any(c, st)
            if isinstance(v, LV):
                v = self.read(v, st)
            if isinstance(v, LamV):
                return self.call_lambda(v, args, st)
            raise Unsupported('indirect call')
        return self.lib_call(name, args, st, n)

    def e_CXXMemberCallExpr(self, n, st):
        r = self.l_CXXMemberCallExpr(n, st)
        if isinstance(r, LV):
            return self.read(r, st)
        return r

    def l_CXXMemberCallExpr(self, n, st):
        me = self.callee_ref(n)
        d = self.callee_decl(n)
        args = n['inner'][1:]
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through pointer')
        base = self.base_lv(me, st)
        if d is not None and d.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            return self.call(d, base, args, st, n)
        return self.lib_method(me.get('name', ''), base, args, st, n)

    def e_CXXOperatorCallExpr(self, n, st):
        r = self.l_CXXOperatorCallExpr(n, st)
        if isinstance(r, LV):
            return self.read(r, st)
        return r

    def l_CXXOperatorCallExpr(self, n, st):
        name = self.callee_name(n)
        d = self.callee_decl(n)
        args = n['inner'][1:]
        if name == 'operator()':
            base = self.lv(args[0], st)
            v = self.read(base, st)
            if isinstance(v, LamV):
                return self.call_lambda(v, args[1:], st, d)
        if d is not None and d.get('kind') == 'CXXMethodDecl':
            if (self.tu.defn.get(d['id']) is None and d.get('isImplicit') or
                    (d.get('explicitlyDefaulted') and name == 'operator=')) and name == 'operator=':
                base = self.lv(args[0], st)
                self.write(base, self.ev(args[1], st), st)
                return base
            base = self.lv(args[0], st)
            return self.call(d, base, args[1:], st, n)
        if d is not None and d.get('kind') == 'FunctionDecl':
            return self.call(d, None, args, st, n)
        return self.lib_op(name, args, st, n)

    def qual(self, d):
        f = self.tu.defn.get(d['id'])
        return (f or d).get('_qual') or d.get('name', '')

    def call(self, d, this, args, st, n):
        q = self.qual(d)
        h = self.contracts.get(q) or self.contracts.get(q.split('::')[-1] + '()') if q else None
        if h is not None:
            r = h(self, st, this, args, n, d)
            if r is not NotImplemented:
                self.contract_used.add(q)
                return r
        f = self.tu.defn.get(d['id'])
        if f is None:
            f = self.alt_def(d)
        if f is None:
            return self.lib_decl(q, d, this, args, st, n)
        return self.inline(f, this, args, st)

    def alt_def(self, d):
        for f in self.tu.funcs:
            if f.get('name') == d.get('name') and body_of(f) is not None and f.get('mangledName') and \
                    f.get('mangledName') == d.get('mangledName'):
                return f
        return None

    def lib_decl(self, q, d, this, args, st, n):
        raise Unsupported('no body or contract for %s' % q)

    def retref(self, f):
        t = f.get('type', {}).get('qualType', '')
        # function type: RET (ARGS) quals -> trailing; 'auto (..) -> RET'
        m = re.match(r'^auto \(.*\).*-> (.*)$', t)
        r = m.group(1) if m else t.split('(')[0]
        # template arguments may contain parens; good enough for references
        depth = 0
        if not m:
            out = ''
            for ch in t:
                if ch == '<':
                    depth += 1
                if ch == '>':
                    depth -= 1
                if ch == '(' and depth == 0:
                    break
                out += ch
            r = out
        return r.strip().endswith('&')

    def bind_params(self, f, args, st, env):
        ps = params_of(f)
        for i, p in enumerate(ps):
            if i < len(args):
                a = args[i]
                if isinstance(a, dict):
                    if a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'):
                        ini = [c for c in p.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                        if not ini:
                            raise Unsupported('default argument')
                        a = ini[0]
                    if is_ref(p):
                        env[p['id']] = self.lv(a, st)
                    else:
                        v = self.ev(a, st)
                        env[p['id']] = self.newloc(p.get('name', 'p'), self.coerce(self.scalar_conv(v, qt(p)), qt(p), st), st)
                elif isinstance(a, LV):
                    if is_ref(p):
                        env[p['id']] = a
                    else:
                        env[p['id']] = self.newloc(p.get('name', 'p'), self.read(a, st), st)
                else:
                    env[p['id']] = self.newloc(p.get('name', 'p'), a, st)
            else:
                raise Unsupported('missing argument')

    def inline(self, f, this, args, st):
        """execute the body of f (args: AST nodes evaluated in the current frame, LVs or values)"""
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion too deep at %s' % f.get('_qual'))
        try:
            self.inlined.add(f.get('_qual', f.get('name')))
            env = {}
            self.bind_params(f, args, st, env)
            f['_retref'] = self.retref(f)
            save = self.frame
            self.frame = Frame(env, this, f)
            try:
                if f.get('kind') == 'CXXConstructorDecl':
                    self.ctor_inits(f, this, st)
                self.stmt(body_of(f), st)
                r = None
            except Ret as e:
                r = e.v
            finally:
                self.frame = save
            return r
        finally:
            self.depth -= 1

    def call_lambda(self, lam, args, st, d=None):
        fn = lam.fn
        if fn.get('kind') == 'FunctionTemplateDecl':
            if d is not None and self.tu.defn.get(d['id']) is not None:
                fn = self.tu.defn[d['id']]
            else:
                c = [x for x in fn.get('inner', []) if x.get('kind') == 'CXXMethodDecl' and body_of(x) is not None]
                if d is not None:
                    c2 = [x for x in c if x['id'] == d['id']]
                    c = c2 or c[1:]
                if not c:
                    raise Unsupported('generic lambda')
                fn = c[-1]
        env = {}
        self.bind_params(fn, args, st, env)
        if lam.cap:
            env.update({k: v for k, v in lam.cap.items() if k not in env})
        fn['_retref'] = self.retref(fn)
        save = self.frame
        self.frame = Frame(env, None, fn, lam.env)
        try:
            self.stmt(body_of(fn), st)
            return None
        except Ret as e:
            return e.v
        finally:
            self.frame = save

    # ------------------------------------------------------------ construction
    def find_class(self, s):
        s = strip_type(s)
        s = re.sub(r'^VRF::', '', s)
        parts, depth = [''], 0
        for ch in s:
            depth += (ch == '<') - (ch == '>')
            parts[-1] += ch
            if depth == 0 and parts[-1].endswith('::'):
                parts[-1] = parts[-1][:-2]
                parts.append('')
        base = re.sub(r'<.*$', '', parts[-1])
        if len(parts) > 1 and '<' in parts[-2]:
            # a member class of a class template specialization
            outer = self.find_class('::'.join(parts[:-1]))
            for c in (outer or {}).get('inner', []):
                if c.get('kind') == 'CXXRecordDecl' and c.get('name') == base and c.get('id') in self.tu.classes and c.get('inner') and c.get('completeDefinition', True):
                    return self.tu.classes[c['id']]
        s = parts[-1]
        cands = []
        for i, c in self.tu.classes.items():
            if c.get('name') == base and c.get('completeDefinition', True) and c.get('_fields') is not None and \
                    (c.get('inner')) and not c.get('_pattern'):
                cands.append(c)
        if not cands:
            return None
        if len(cands) > 1 and self.frame is not None and any(c.get('_infn') for c in cands):
            # a local class: the one of the function being executed
            own = []
            f = self.frame
            while f is not None:
                g = f.fn
                while g is not None:
                    own.append(g['id'])
                    g = (g.get('_cls') or {}).get('_infn')
                f = f.up
            loc = [c for c in cands if c.get('_infn') and c['_infn']['id'] in own and not c.get('isImplicit')]
            if loc:
                cands = loc[:1]
        if len(cands) > 1:
            full = [c for c in cands if c.get('kind') == 'ClassTemplateSpecializationDecl']
            if '<' in s and full:
                m = [c for c in full if self.spec_matches(c, s)]
                return (m or full)[0]
            comp = [c for c in cands if c.get('completeDefinition')]
            return (comp or cands)[0]
        return cands[0]

    def spec_matches(self, c, s):
        args = [x for x in c.get('inner', []) if x.get('kind') == 'TemplateArgument']
        want = re.sub(r'\s|VRF::', '', s[s.index('<'):]) if '<' in s else ''
        have = ','.join(re.sub(r'\s|VRF::', '', a.get('type', {}).get('qualType', str(a.get('value', '')))) for a in args)
        return want == '<' + have + '>'

    def bases_of(self, cls):
        out = []
        for b in cls.get('bases', []):
            t = b.get('type', {})
            c = self.find_class(t.get('desugaredQualType') or t.get('qualType', ''))
            if c is not None:
                out.append(c)
        return out

    def new_object(self, cls, st):
        f = {}
        for b in self.bases_of(cls):
            f.update(self.new_object(b, st).f)
        for fd in cls.get('_fields', []):
            f[fd['name']] = UNINIT
        return ObjV(cls.get('name'), f)

    def ctors(self, cls):
        out = []
        for f in self.tu.funcs:
            if f.get('kind') == 'CXXConstructorDecl' and f.get('_cls') is cls and body_of(f) is not None:
                out.append(f)
        return out

    def ctor_inits(self, f, this, st):
        cls = f.get('_cls')
        done = set()
        for c in f.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            ini = (c.get('inner') or [None])[0]
            if 'anyInit' in c:
                fd = self.tu.byid.get(c['anyInit']['id'])
                name = c['anyInit']['name']
                done.add(name)
                fd = fd or {'type': c['anyInit'].get('type', {})}
                if ini is not None and ini.get('kind') == 'CXXDefaultInitExpr' and not ini.get('inner'):
                    v = self.field_default(fd, st)
                elif ini is None:
                    v = self.field_default(fd, st)
                else:
                    v = self.lv_field(fd, ini, st)
                self.rawwrite(self.deref(this, st) / ('f', name), v, st)
            elif 'baseInit' in c or 'delegatingInit' in c:
                v = self.ev(ini, st)
                if isinstance(v, MapV):
                    v = ObjV('map', {'map': v})
                if isinstance(v, ObjV):
                    o = self.read(this, st)
                    o = ObjV(o.cls, o.f)
                    o.f.update(v.f)
                    self.rawwrite(self.deref(this, st), o, st)
                    if 'delegatingInit' in c:
                        return
            else:
                raise Unsupported('constructor initialiser')
        for fd in (cls or {}).get('_fields', []):
            if fd['name'] not in done:
                o = self.read(this, st)
                if o.f.get(fd['name']) is UNINIT:
                    self.rawwrite(self.deref(this, st) / ('f', fd['name']), self.field_default(fd, st), st)

    def e_CXXConstructExpr(self, n, st):
        args = [c for c in n.get('inner', []) if c.get('kind')]
        t = strip_type(qt(n))
        return self.construct(t, args, st, n)

    def e_CXXTemporaryObjectExpr(self, n, st):
        return self.e_CXXConstructExpr(n, st)

    def e_CXXInheritedCtorInitExpr(self, n, st):
        raise Unsupported('inherited constructor')

    def construct(self, t, args, st, n):
        r = self.lib_construct(t, args, st, n)
        if r is not NotImplemented:
            return r
        cls = self.find_class(t)
        if cls is None:
            raise Unsupported('construction of %s' % t)
        ct = n.get('ctorType', {}).get('qualType', '')
        cands = []
        for f in self.tu.funcs:
            if f.get('kind') == 'CXXConstructorDecl' and f.get('_cls') is not None and f['_cls'].get('id') == cls.get('id'):
                if re.sub(r'\s*noexcept.*$', '', f.get('type', {}).get('qualType', '')) == re.sub(r'\s*noexcept.*$', '', ct):
                    cands.append(f)
        withbody = [f for f in cands if body_of(f) is not None and not f.get('isImplicit')]
        if len(args) == 1 and not withbody or (len(args) == 1 and withbody and withbody[0].get('explicitlyDefaulted')):
            v = self.ev(args[0], st)      # copy / move
            if isinstance(v, (ObjV, Opaque)):
                return v
            if not withbody:
                raise Unsupported('constructor %s of %s from %r' % (ct, t, v))
        if not withbody and args and not cands:
            # constructor templates: match by arity
            withbody = [f for f in self.ctors(cls) if len(params_of(f)) == len(args)]
            if len(withbody) != 1:
                raise Unsupported('constructor %s of %s' % (ct, t))
        if not withbody:
            o = self.new_object(cls, st)
            lv = self.newloc('obj', o, st)
            for fd in cls.get('_fields', []):
                self.rawwrite(lv / ('f', fd['name']), self.field_default(fd, st), st)
            return self.read(lv, st)
        f = withbody[0]
        lv = self.newloc('obj', self.new_object(cls, st), st)
        self.inline(f, lv, args, st)
        return self.read(lv, st)

    def zero_value(self, t, st):
        s = sort_of_type(t)
        if s == 'B':
            return FALSE
        if s:
            return num(0, s)
        return self.default_value(t, st)

    def default_value(self, t, st):
        """default initialisation"""
        if sort_of_type(t):
            return UNINIT
        r = self.lib_construct(strip_type(t), [], st, {})
        if r is not NotImplemented:
            return r
        cls = self.find_class(t)
        if cls is not None:
            return self.construct(strip_type(t), [], st, {'ctorType': {'qualType': 'void ()'}})
        raise Unsupported('default value of %s' % t)


def mkstr(s):
    codes = [ord(c) for c in s]

    def get(i):
        if i.op == 'num':
            return num(codes[int(i.args[0])], 'I')
        r = num(0, 'I')
        for j, c in reversed(list(enumerate(codes))):
            r = T.ite(T.eq(i, num(j, 'I')), num(c, 'I'), r)
        return r
    return StrV(num(len(s), 'I'), get, s)


def listvec(vals):
    def get(i):
        if i.op == 'num':
            return vals[int(i.args[0])]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = vite(T.eq(i, num(j, 'I')), vals[j], r)
        return r
    return VecV(num(len(vals), 'I'), get, ('list', vals))
