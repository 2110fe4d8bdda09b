"""P19: differences between two diagrams."""
from fractions import Fraction
from symx.run import Harness
from symx.gen import VT, ET, new_graph
from .p13 import BACKENDS
import json
import pyzx as zx
from pyzx.graph.diff import GraphDiff

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real GraphDiff code on two diagrams sharing vertex numbers, in which the presence, type, phase, position and data of every vertex and the presence and type of every edge, '
               'in each of the two, are solver variables; on every feasible path applying the difference must give the second diagram, and applying the reverse difference must give back the first.')
ASSUMPTIONS = ['diagrams of the stated sizes', 'phases are multiples of pi/4 in the symbolic harnesses, listed fractions where they pass through text',
               'the scalar, the grounds and the lists of inputs and outputs are not part of a difference']
BUDGET = {'quick': 150, 'thorough': 850}
H, Z, X, B, ZB = VT.H_BOX, VT.Z, VT.X, VT.BOUNDARY, VT.Z_BOX
SI, HA = ET.SIMPLE, ET.HADAMARD


def snap(g):
    """everything a difference is about"""
    return ({v: (int(g.type(v)), (g.qubit(v), g.row(v)), {k: g.vdata(v, k) for k in sorted(g.vdata_keys(v))}) for v in g.vertices()},
            sorted((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges()))


def match(S, g, h, msg):
    a, b = snap(g), snap(h)
    S.require(a[0].keys() == b[0].keys(), '%s: vertices %s instead of %s' % (msg, sorted(a[0]), sorted(b[0])))
    for v in a[0]:
        S.require(a[0][v] == b[0][v], '%s: vertex %s is %s instead of %s' % (msg, v, a[0][v], b[0][v]))
        S.require(g.phase(v) == h.phase(v), '%s: phase of vertex %s' % (msg, v))
    S.require(a[1] == b[1], '%s: edges %s instead of %s' % (msg, a[1], b[1]))
    S.require(g.num_edges() == h.num_edges() == len(b[1]), '%s: number of edges' % msg)
    for v in a[0]:
        S.require(sorted(g.neighbors(v)) == sorted(h.neighbors(v)), '%s: neighbours of %s' % (msg, v))
    new = g.add_vertex(Z)
    S.require(new not in a[0], '%s: a new vertex reuses number %s' % (msg, new))


def decide(S, g1, g2, js):
    c1, c2 = snap(g1), snap(g2)
    p1, p2 = [(v, g1.phase(v)) for v in g1.vertices()], [(v, g2.phase(v)) for v in g2.vertices()]
    d = GraphDiff(g1, g2)
    if js:
        d = GraphDiff.from_json(d.to_json())
    r = d.apply_diff(g1)
    match(S, r, g2, 'applying the difference' + ' read from JSON' * js)
    u = GraphDiff(g2, g1)
    if js:
        u = GraphDiff.from_json(u.to_json())
    r2 = d.apply_diff(g1)
    match(S, u.apply_diff(r2), g1, 'undoing')
    for v in r2.vertices():
        r2.set_vdata(v, 'later', 5)
    S.require(snap(g1) == c1 and snap(g2) == c2 and [(v, g1.phase(v)) for v in g1.vertices()] == p1 and [(v, g2.phase(v)) for v in g2.vertices()] == p2, 'a diagram the difference was made from has changed')


def make(S, name, spec, backend, auto=True):
    """spec: {vertex: None or (type, phase, position, data)}, added by number"""
    g = new_graph(backend)
    if backend == 'multigraph':
        g.set_auto_simplify(auto)
    for v, a in spec:
        if a is None:
            continue
        g.add_vertex_indexed(v)
        g.set_type(v, a[0])
        g.set_phase(v, a[1])
        if a[2] is not None:
            g.set_position(v, *a[2])
        for k in a[3]:
            g.set_vdata(v, k, a[3][k])
    return g


def h_edges(S, n, backend, js, types=(Z,), absent=True, eopts=(None, SI, HA), last=None):
    """any two sets of edges on any two sets of vertices"""
    gs = []
    sel = {}
    for i in (1, 2):
        spec = [(v, (types[v % len(types)], 0, (v, i if v == 1 else 0), {}) if not absent or v < n - last or S.flag('in%d_%d' % (i, v)) else None) for v in range(n)]
        sel[i] = [v for v, a in spec if a is not None]
        g = make(S, 'g%d' % i, spec, backend)
        for v in range(n):
            for w in range(v):
                if v in sel[i] and w in sel[i]:
                    e = S.choose('e%d_%d_%d' % (i, w, v), eopts)
                    if e is not None:
                        g.add_edge((v, w), e)
        gs.append(g)
    if sel[1] != sel[2]:
        S.witness('vertices differ')
    decide(S, gs[0], gs[1], js)


def h_attr(S, backend, js, types=(Z, X, H, ZB, B), phases=None, edge=(SI, HA), pos=((3, 4), (5, 6), None)):
    """one vertex whose every attribute may differ, next to one that stays"""
    gs = []
    for i in (1, 2):
        s = S.choose('s%d' % i, (0, 1, 2) if i == 1 else (0, 1))
        if s == 0:
            a = None
        else:
            a = (S.choose('t%d' % i, types), S.phase('p%d' % i) if phases is None else S.choose('p%d' % i, phases),
                 S.choose('pos%d' % i, pos) if not js else (i, 1.5),
                 S.choose('d%d' % i, ({}, {'label': 2}, {'label': 1j, 'x': 'a'})))
        g = make(S, 'g%d' % i, [(0, (Z, 0, (0, 0), {})), (3, a), (5, (X, 1, (1, 1), {'x': 'b'}))], backend)
        g.add_edge((0, 5), edge[i - 1])
        if a is not None:
            g.add_edge((3, 0), S.choose('e%d' % i, (SI, HA)))
        gs.append(g)
    decide(S, gs[0], gs[1], js)


def h_multi(S, js, auto, n=2, most=2, types=(Z, X, H)):
    """parallel edges, next to vertices whose type may change"""
    gs = []
    for i in (1, 2):
        g = make(S, 'g%d' % i, [(v, (S.choose('t%d_%d' % (i, v), types), 0, (0, 0), {})) for v in range(n)], 'multigraph', auto)
        for v in range(1, n):
            for ty in (SI, HA):
                for _ in range(S.choose('n%d_%d_%s' % (i, v, ty.name), range(most + 1))):
                    g.add_edge((0, v), ty)
        gs.append(g)
    for v in range(n):
        gs[1].set_phase(v, gs[0].phase(v) if not S.flag('ph%d' % v) else Fraction(1, 2))
    decide(S, gs[0], gs[1], js)


def h_w(S, backend, js):
    """W nodes, in either diagram"""
    gs = []
    for i in (1, 2):
        g = make(S, '', [(0, (Z, 0, (0, 0), {})), (1, (Z, 0, (1, 0), {})), (4, (VT.W_INPUT if S.flag('w%d' % i) else Z, 0, (2, 0), {}))], backend)
        if g.type(4) == VT.W_INPUT:
            g.add_vertex_indexed(7)
            g.set_type(7, VT.W_OUTPUT)
            g.add_edge((4, 7), ET.W_IO)
            g.add_edge((7, 1), S.choose('a%d' % i, (SI, HA)))
        g.add_edge((0, 4), S.choose('b%d' % i, (SI, HA)))
        gs.append(g)
    decide(S, gs[0], gs[1], js)


def h_poly(S, backend, js):
    """symbolic phases: variables keep their kind"""
    from pyzx.symbolic import new_var
    gs = []
    kind = {n: S.choose('kind_' + n, (False, True)) for n in ('a', 'b')}
    for i in (1, 2):
        g = make(S, '', [(0, (Z, 0, (0, 0), {})), (1, (X, 0, (1, 0), {}))], backend)
        for n in ('a', 'b'):
            if i == 2 or n == 'a':
                g.variable_types[n] = kind[n]
        for v in (0, 1):
            k = S.choose('p%d_%d' % (i, v), (0, 1, 2, 3) if i == 2 else (0, 1))
            if k:
                x = new_var('a', g.variable_types)
                g.set_phase(v, x if k == 1 else new_var('b', g.variable_types) * Fraction(1, 2) + x if k == 2 else -new_var('b', g.variable_types) + Fraction(3, 4))
        g.add_edge((0, 1), SI)
        gs.append(g)
    d = GraphDiff(*gs)
    if js:
        d = GraphDiff.from_json(d.to_json())
    S.require(d.variable_types == gs[1].variable_types, 'kinds of the variables')
    r = d.apply_diff(gs[0])
    for v in (0, 1):
        p, q = r.phase(v), gs[1].phase(v)
        S.require(p == q, 'symbolic phase of vertex %s' % v)
        if hasattr(p, 'free_vars'):
            ka, kb = {x.name: x.is_bool for x in p.free_vars()}, {x.name: x.is_bool for x in q.free_vars()}
            S.require(ka == kb, 'kinds of the variables of the phase of vertex %s' % v)
            S.require(all(r.variable_types.get(x) == ka[x] for x in ka), 'kinds of the variables in the resulting diagram')


VALS = (0, 1, Fraction(1, 2), Fraction(7, 4), Fraction(1, 1000), Fraction(355, 226))


def harnesses(tier):
    hs = []
    q = tier == 'quick'
    for be in BACKENDS:
        for js in (False, True):
            t = '%s%s' % (be, '_json' * js)
            hs += [
                Harness('edges_' + t, h_edges, 'any two diagrams on up to three vertices, of which the last two may be absent in either', {'vertices': 3}, dict(n=3, backend=be, js=js, types=(Z, X, H), last=2), witnesses=('vertices differ',)),
                Harness('attr_' + t, h_attr, 'a vertex appears, disappears or changes type, phase, position, data and edge', {'vertices': 3},
                        dict(backend=be, js=js, phases=(VALS[:1] + VALS[3:] if q else VALS) if js else None, types=(Z, H, ZB) if q else (Z, X, H, ZB, B), **({'pos': ((3, 4), None)} if q else {}))),
                Harness('w_' + t, h_w, 'W nodes appear and disappear', {'vertices': 4}, dict(backend=be, js=js)),
                Harness('poly_' + t, h_poly, 'phases with variables, real or Boolean', {'vertices': 2}, dict(backend=be, js=js)),
            ]
    for js in (False, True):
        for auto in (True, False):
            hs.append(Harness('parallel_%s%s' % ('auto' if auto else 'raw', '_json' * js), h_multi, 'up to two edges of each kind between two vertices, types changing', {'vertices': 2}, dict(js=js, auto=auto, types=(Z, H) if q else (Z, X, H))))
    return hs
