"""P02: simplification strategies terminate and preserve the linear map, scalar included."""
from fractions import Fraction
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
import pyzx as zx
from pyzx import simplify

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real simplification strategies on diagrams and circuits whose structure and phases are solver '
               'variables; on each feasible path the resulting diagram (scalar included) must denote the original linear map for all phase '
               'values, must have reached its normal form (no rule of the strategy matches, documented shape) and must return in time.')
ASSUMPTIONS = ['phases are multiples of pi/4', 'sizes as stated per harness', 'termination: 20 s per symbolic path']
BUDGET = {'quick': 110, 'thorough': 2400}

STRATS = {
    'spider_simp': lambda g: simplify.spider_simp(g, quiet=True),
    'id_simp': lambda g: simplify.id_simp(g, quiet=True),
    'interior_clifford_simp': lambda g: simplify.interior_clifford_simp(g, quiet=True),
    'clifford_simp': simplify.clifford_simp,
    'full_reduce': simplify.full_reduce,
    'reduce_scalar': simplify.reduce_scalar,
    'to_graph_like': simplify.to_graph_like,
    'pivot_simp': lambda g: simplify.pivot_simp(g, quiet=True),
    'pivot_gadget_simp': lambda g: simplify.pivot_gadget_simp(g, quiet=True),
    'pivot_boundary_simp': lambda g: simplify.pivot_boundary_simp(g, quiet=True),
    'lcomp_simp': lambda g: simplify.lcomp_simp(g, quiet=True),
    'gadget_simp': lambda g: simplify.gadget_simp(g, quiet=True),
    'supplementarity_simp': lambda g: simplify.supplementarity_simp(g, quiet=True),
    'copy_simp': lambda g: simplify.copy_simp(g, quiet=True),
    'phase_free_simp': lambda g: simplify.phase_free_simp(g, quiet=True),
}


def degree_free(g):
    """interior spiders: not boundary, no boundary neighbour"""
    bs = {v for v in g.vertices() if g.type(v) == VT.BOUNDARY}
    return [v for v in g.vertices() if v not in bs and not any(n in bs for n in g.neighbors(v))]


def shape(S, g, strat, t0):
    """documented normal forms"""
    if strat.endswith('_simp') and strat not in ('interior_clifford_simp', 'clifford_simp'):
        return
    for e in g.edges():
        s, t = g.edge_st(e)
        if VT.BOUNDARY in (g.type(s), g.type(t)):
            continue
        S.require(g.type(s) == VT.Z and g.type(t) == VT.Z and g.edge_type(e) == ET.HADAMARD, strat + ': not graph-like')
        S.require(s != t, strat + ': self-loop')
    if strat == 'to_graph_like':
        S.require(simplify.is_graph_like(g, strict=True), 'to_graph_like: not strictly graph-like')
        return
    inner = degree_free(g)
    for v in inner:
        p = g.phase(v)
        if g.vertex_degree(v) == 1:
            continue
        # no interior proper Clifford spider survives
        S.require((p * 2) % 2 != 1, strat + ': interior +-pi/2 spider left')
        if strat != 'to_graph_like':
            for w in g.neighbors(v):
                if w in inner and g.vertex_degree(w) != 1 and w != v:
                    a = p % 1 == 0
                    b = g.phase(w) % 1 == 0
                    if a and b:
                        S.fail(strat + ': interior Pauli pair left')
    if strat == 'full_reduce':
        S.require(simplify.tcount(g) <= t0, 'full_reduce increased the T-count')


def run(S, g, strat):
    a = S.gmap(g)
    t0 = simplify.tcount(g) if strat == 'full_reduce' else 0
    n0 = g.num_vertices()
    STRATS[strat](g)
    if g.num_vertices() < n0:
        S.witness('reduced')
    S.same(S.gmap(g), a, strat)
    shape(S, g, strat, t0)


def h_any(S, strat, n, nin, nout, **kw):
    g, vs = gen.graph(S, n, nin, nout, **kw)
    run(S, g, strat)


def h_gl(S, strat, n, out, ins=(), **kw):
    g, vs = gen.graphlike(S, n, out, ins=ins, **kw)
    run(S, g, strat)


def h_rule(S, strats, n, out, vals, **kw):
    """one kind of rewrite carried out to the end, several matches at a time"""
    strat = S.choose('strat', strats)
    g, vs = gen.graphlike(S, n, out, bedges=(ET.SIMPLE,), vphase=lambda i: S.phase('p%d' % i, vals=vals[i]) if isinstance(vals[i], tuple) else Fraction(vals[i]), **kw)
    run(S, g, strat)


def h_gad(S, strat, nt, ng, **kw):
    g, vs, gs = gen.gadgets(S, nt, ng, **kw)
    run(S, g, strat)


def h_circ(S, strat, nq, slots, den=4):
    c = gen.circuit(S, nq, slots, den)
    g = c.to_graph()
    run(S, g, strat)


def h_wires(S, strat):
    """boundaries wired to each other directly, plus a spider"""
    g = gen.new_graph()
    ins = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(2)]
    outs = [g.add_vertex(VT.BOUNDARY, i, 3) for i in range(2)]
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    e = lambda n: S.choose(n, (ET.SIMPLE, ET.HADAMARD))
    k = S.choose('kind', ('straight', 'crossed', 'cups', 'mixed'))
    prs = {'straight': [(0, 2), (1, 3)], 'crossed': [(0, 3), (1, 2)], 'cups': [(0, 1), (2, 3)], 'mixed': [(0, 2)]}[k]
    bs = ins + outs
    for i, (a, b) in enumerate(prs):
        g.add_edge((bs[a], bs[b]), e('w%d' % i))
    if k == 'mixed':
        z = g.add_vertex(S.choose('ty', (VT.Z, VT.X)), 1, 1, S.phase('p'))
        g.add_edge((bs[1], z), e('w1'))
        g.add_edge((z, bs[3]), e('w2'))
    run(S, g, strat)


def h_iter(S, which, nq, slots):
    """the step-by-step generators: every intermediate diagram denotes the same map"""
    c = gen.circuit(S, nq, slots)
    g = c.to_graph()
    a = S.gmap(g)
    n = 0
    for g2, name in getattr(simplify, which)(g):
        n += 1
        S.same(S.gmap(g2), a, '%s after step %s' % (which, name))
    if n > 1:
        S.witness('steps')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('reduced',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    for s in ('interior_clifford_simp', 'full_reduce'):
        add('any2_' + s, h_any, s + ' on arbitrary ZX diagrams', '2 Z/X spiders, any edges, 1 input, 1 output', strat=s, n=2, nin=1, nout=1)
    add('any3_full_reduce', h_any, 'full_reduce on arbitrary scalar ZX diagrams', '3 Z/X spiders (first Z), any edges, no boundaries',
        strat='full_reduce', n=3, nin=0, nout=0, btargets=None, types=(VT.Z, VT.X) if T else (VT.X,))
    add('any3_graph_like', h_any, 'to_graph_like on arbitrary ZX diagrams', '2 Z/X spiders, any edges, 1 input, 2 outputs', wit=(),
        strat='to_graph_like', n=2, nin=1, nout=2)
    add('mg2_full_reduce', h_any, 'full_reduce on multigraphs', '2 Z/X spiders, any edges, 1 input, 1 output', strat='full_reduce', n=2, nin=1, nout=1, backend='multigraph')
    add('mg3_clifford', h_any, 'clifford_simp on multigraphs', '3 X spiders, any edges, no boundaries', strat='clifford_simp', n=3, nin=0, nout=0, types=(VT.X,), backend='multigraph')
    add('gl3_clifford_simp', h_gl, 'clifford_simp on graph-like diagrams', '3 Z spiders, legs symbolic', strat='clifford_simp', n=3, out=['sym', 'sym', 'sym'],
        bedges=(ET.SIMPLE, ET.HADAMARD) if T else (ET.SIMPLE,), ins=(0,))
    add('gl3_full_reduce', h_gl, 'full_reduce on graph-like diagrams', '3 Z spiders, legs symbolic', strat='full_reduce', n=3, out=['sym', 'sym', False], ins=(0,))
    add('gl4_reduce_scalar', h_gl, 'reduce_scalar', '4 Z spiders, no boundaries', strat='reduce_scalar', n=4 if T else 3, out=[False] * 4)
    add('gl3_full_reduce_scalar', h_gl, 'full_reduce of scalar diagrams', '3 Z spiders, no boundaries', strat='full_reduce', n=3, out=[False] * 3)
    add('gad_full_reduce', h_gad, 'full_reduce on phase gadgets', '2 gadgets on 2 targets, axle 0/pi', strat='full_reduce', nt=2, ng=2,
        tphase=None if T else (lambda i: 0))
    F = Fraction
    pauli = (0, 1)
    cl = (F(0), F(1, 2), F(1), F(3, 2))
    add('rule4_in', h_rule, 'pivots, local complementations and full reduction', '4 Z spiders, two with outputs of phase pi/4 and pi/2, two interior of phase 0 or pi', strats=('pivot_simp', 'pivot_boundary_simp', 'clifford_simp', 'full_reduce'),
        n=4, out=[False, True, True, False], vals=(pauli, F(1, 4), F(1, 2), pauli))
    add('rule4_lc', h_rule, 'pivots, local complementations and full reduction', '4 Z spiders, two with outputs of phase 7pi/4 and 0, two interior Clifford', strats=('lcomp_simp', 'interior_clifford_simp', 'full_reduce'),
        n=4, out=[False, True, True, False], vals=(cl, F(7, 4), F(0), cl))
    add('rule4_gadget', h_rule, 'gadget pivots, copying and supplementarity', '4 Z spiders, one output, interior phases pi/4, 0 or pi, 3pi/4', strats=('pivot_gadget_simp', 'copy_simp', 'supplementarity_simp', 'full_reduce'),
        n=4, out=[False, False, True, False], vals=(F(1, 4), pauli, F(3, 4), (F(1, 4), F(3, 4), F(5, 4), F(7, 4))))
    if T:
        add('rule5', h_rule, 'pivots, local complementations and full reduction', '5 Z spiders, two outputs', strats=('pivot_simp', 'pivot_boundary_simp', 'pivot_gadget_simp', 'lcomp_simp', 'full_reduce'),
            n=5, out=[False, True, True, False, False], vals=(cl, F(1, 4), F(1, 2), pauli, F(3, 4)))
    core = ['z', 'h', 'cnot']
    add('circ_clifford', h_circ, 'clifford_simp on circuits', '2 qubits, 4 gates from {Z-phase, X-phase, H, CNOT, CZ}', strat='clifford_simp', nq=2,
        slots=[['z', 'h'], ['cnot', 'cz'], ['x', 'h', 'z'], ['cnot']] + ([['z', 'h', 'cz']] if T else []))
    add('circ_full_reduce', h_circ, 'full_reduce on circuits', '2 qubits, 5 gates', strat='full_reduce', nq=2,
        slots=[['z', 'h'], ['cnot'], ['z', 'x'], ['cnot', 'cz'], ['z', 'h']])
    add('circ3_full_reduce', h_circ, 'full_reduce on circuits', '3 qubits, 4 gates', strat='full_reduce', nq=3,
        slots=[['cnot'], ['z'], ['cz', 'cnot'] if T else ['cz'], ['z', 'h'] if T else ['x']])
    for s in ('full_reduce', 'to_graph_like', 'clifford_simp'):
        add('wires_' + s, h_wires, s + ' on bare wires', '2 inputs, 2 outputs, plain/Hadamard wires, any pairing', strat=s, wit=())
    add('phase_free', h_any, 'phase_free_simp (fusion + bialgebra)', '2 Z/X spiders', strat='phase_free_simp', n=2, nin=1, nout=1,
        edges=(None, ET.SIMPLE), bedges=(ET.SIMPLE,), wit=())
    for w in ('full_reduce_iter', 'clifford_iter'):
        add(w, h_iter, w + ' step by step', '2 qubits, 3 gates', which=w, nq=2, slots=[['z', 'h'], ['cnot'], ['x', 'z']], wit=('steps',))
    if T:
        add('gl4_full_reduce', h_gl, 'full_reduce on graph-like diagrams', '4 Z spiders, 2 outputs', strat='full_reduce', n=4, out=[True, True, False, False], bedges=(ET.SIMPLE,))
        add('gl4_clifford', h_gl, 'clifford_simp on graph-like diagrams', '4 Z spiders', strat='clifford_simp', n=4, out=['sym', True, True, False], bedges=(ET.SIMPLE,))
        add('any3_full_reduce_b', h_any, 'full_reduce on arbitrary ZX diagrams', '3 Z/X spiders, 1 output', strat='full_reduce', n=3, nin=0, nout=1, bedges=(ET.SIMPLE,))
    return H
