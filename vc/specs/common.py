"""helpers shared by the specifications"""
from kit import *


def statuses(tu):
    out = {}
    for e in tu.byid.values():
        if e.get('kind') == 'EnumDecl' and e.get('name') == 'CUTStatus':
            v = -1
            for c in e.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for x in c.get('inner', []):
                        if x.get('kind') == 'ConstantExpr' and 'value' in x:
                            v = int(x['value'])
                    out[v] = c['name']
    return out


def status(tu, t):
    if t.op == 'num':
        n = statuses(tu).get(int(t.args[0]))
        if n:
            return n
    raise Unsupported('status %s' % t)


def code(tu, name):
    for v, n in statuses(tu).items():
        if n == name:
            return num(v, 'I')
    raise Unsupported('no status %s' % name)


def tup(v, n):
    if isinstance(v, TupV) and len(v.items) == n:
        return v.items
    raise Unsupported('result %r' % (v,))


def split(E, st, t):
    """[(state, value)] with the conditionals of t decided"""
    if isinstance(t, T.T) and t.op == 'ite':
        out = []
        for c, x in ((t.args[0], t.args[1]), (lnot(t.args[0]), t.args[2])):
            s = st.copy()
            s.assume(c)
            if not smt.entails(s.pc, FALSE):
                out += split(E, s, x)
        return out
    return [(st, t)]
