"""P28: the graph adaptor presents exactly the graph it wraps.  boost's own functions
(vertices, edges, out_edges, source, target, num_vertices, num_edges, add_edge) are trusted: each is an
uninterpreted function of the graph it is given; the obligations say that the adaptor hands on the right
part of the right one, of the graph it wraps."""
import re

from kit import *
from loops import Engine
from specs.common import tup


class BGL(Engine):
    g = None

    def graph(self, a, st):
        """the wrapped graph an argument denotes"""
        v = self.read(self.lv(a, st) if isinstance(a, dict) else a, st)
        while isinstance(v, RefV):
            v = self.read(v.lv, st)
        if isinstance(v, ObjV) and 'graph' in v.f:
            v = v.f['graph']
        if not isinstance(v, T.T):
            raise Unsupported('graph %r' % (v,))
        return v

    def construct(self, t, args, st, n):
        # copies of boost's iterators
        if re.match(r'(const )?(boost|std)::', t) and len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, T.T):
                return v
        return super().construct(t, args, st, n)

    def key(self, a, st):
        v = self.ev(a, st)
        v = v.t if isinstance(v, Opaque) else v
        if not isinstance(v, T.T):
            raise Unsupported('descriptor %r' % (v,))
        return v

    def two(self, name, xs):
        return TupV([T.app(name + '.first', tuple(xs), 'I'), T.app(name + '.second', tuple(xs), 'I')])

    def c_vertices(self, args, st, n):
        return self.two('vertices', [self.graph(args[0], st)])

    def c_edges(self, args, st, n):
        return self.two('edges', [self.graph(args[0], st)])

    def c_out_edges(self, args, st, n):
        return self.two('out_edges', [self.key(args[0], st), self.graph(args[1], st)])

    def c_in_edges(self, args, st, n):
        return self.two('in_edges', [self.key(args[0], st), self.graph(args[1], st)])

    def c_adjacent_vertices(self, args, st, n):
        return self.two('adjacent_vertices', [self.key(args[0], st), self.graph(args[1], st)])

    def c_source(self, args, st, n):
        return T.app('source', (self.key(args[0], st), self.graph(args[1], st)), 'I')

    def c_target(self, args, st, n):
        return T.app('target', (self.key(args[0], st), self.graph(args[1], st)), 'I')

    def c_num_vertices(self, args, st, n):
        return T.app('num_vertices', (self.graph(args[0], st),), 'I')

    def c_num_edges(self, args, st, n):
        return T.app('num_edges', (self.graph(args[0], st),), 'I')

    def c_null_vertex(self, args, st, n):
        return T.app('null_vertex', (), 'I')

    def c_edge(self, args, st, n):
        x = (self.key(args[0], st), self.key(args[1], st), self.graph(args[2], st))
        return TupV([T.app('edge', x, 'I'), le(I1, T.app('number of edges between', x, 'I'))])

    def c_add_edge(self, args, st, n):
        u, v, g = self.key(args[0], st), self.key(args[1], st), self.graph(args[2], st)
        st.ghost['added'] = st.ghost.get('added', ()) + ((u, v, g),)
        return T.app('add_edge', (u, v, g), 'I')


def check(S, which):
    tu = load(['py2cpp/nx2bgl.hpp'], 'bgl.hpp')
    fn = {f['name']: f for f in tu.funcs if front.body_of(f) is not None and not f.get('_cls') and f['name'].startswith('g_')}
    G, v, e, u, w = iv('G'), iv('v'), iv('e'), iv('u'), iv('w')
    A = lambda name, *xs: T.app(name, xs, 'I')

    def go(name, extra, want, what, f):
        with S.part('xn::' + f):
            E = BGL(tu)
            st = State()
            args = [E.newloc('g', G, st)] if name != 'g_null' else []
            S.functions.append('xn::' + f)
            for k, (s, r) in enumerate(run(E, fn[name], None, args + list(extra), st)):
                if k == 0:
                    S.reach.append((what, s.pc))
                want(what, s, r)
            S.absorb(E, 'xn::' + f)
            S.safety(E, 'xn::' + f)

    def is_(t):
        def f(what, s, r):
            r = r.t if isinstance(r, Opaque) else r
            if not isinstance(r, T.T):
                raise Unsupported('%s: %r' % (what, r))
            S.goal('xn::grAdaptor', what, s.pc, eq(r, t))
        return f
    for c in ('', 'c'):
        go('g_v%sbegin' % c, [], is_(A('vertices.first', G)), 'iteration over the nodes starts at the first node (%sbegin)' % c, 'VertexView::%sbegin' % c)
        go('g_v%send' % c, [], is_(A('vertices.second', G)), 'iteration over the nodes ends behind the last (%send)' % c, 'VertexView::%send' % c)
        go('g_e%sbegin' % c, [], is_(A('edges.first', G)), 'iteration over the edges starts at the first edge (%sbegin)' % c, 'EdgeView::%sbegin' % c)
        go('g_e%send' % c, [], is_(A('edges.second', G)), 'iteration over the edges ends behind the last (%send)' % c, 'EdgeView::%send' % c)
        go('g_n%sbegin' % c, [v], is_(A('out_edges.first', v, G)), "a node's edges start at its first outgoing edge (%sbegin)" % c, 'AtlasView::%sbegin' % c)
        go('g_n%send' % c, [v], is_(A('out_edges.second', v, G)), "a node's edges end behind its last outgoing edge (%send)" % c, 'AtlasView::%send' % c)
    go('g_source', [e], is_(A('source', e, G)), 'the source of an edge', 'grAdaptor::source')
    go('g_target', [e], is_(A('target', e, G)), 'the target of an edge', 'grAdaptor::target')

    def ends(what, s, r):
        p, q = tup(r, 2)
        S.goal('xn::grAdaptor', what + ': the first is the source', s.pc, eq(p, A('source', e, G)))
        S.goal('xn::grAdaptor', what + ': the second is the target', s.pc, eq(q, A('target', e, G)))
    go('g_ends', [e], ends, 'the end points of an edge', 'grAdaptor::end_points')
    go('g_null', [], is_(A('null_vertex')), 'the null node is the null node of the graph type', 'grAdaptor::null_vertex')
    go('g_nodes', [], is_(A('num_vertices', G)), 'the number of nodes', 'grAdaptor::number_of_nodes')
    go('g_edges', [], is_(A('num_edges', G)), 'the number of edges', 'grAdaptor::number_of_edges')

    def added(what, s, r):
        S.fact('xn::grAdaptor', what + ': one edge, from the first to the second node, in the wrapped graph',
               s.ghost.get('added') == ((u, w, G),), str(s.ghost.get('added')))
    go('g_add', [u, w], added, 'adding an edge', 'grAdaptor::add_edge')
    S.assumptions.append('the Boost Graph Library functions do what they say on the graph they are given; construction moves the given graph into the base class (language semantics)')
