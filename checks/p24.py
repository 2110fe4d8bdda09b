"""P24: generalised flow."""
import itertools
from symx.run import Harness
import pyzx as zx
from pyzx.gflow import gflow
from pyzx.utils import VertexType as VT, EdgeType as ET
from symx import gen
from .p18 import snap

LEVEL = 'other'
EXPLANATION = ('The real search for a generalised flow runs on diagrams whose wires and boundaries are solver variables; every branch on one is decided by the solver. '
               'What it returns is checked against the definition, and compared with an arbitrary generalised flow whose correction sets and layers are solver variables.')
ASSUMPTIONS = ['the definition for measurements in the XY plane, outputs and grounds being the unmeasured vertices']
BUDGET = {'quick': 60, 'thorough': 900}


def h_flow(S, n, ins, outs, form, fixed=None, ground=False, hole=True):
    """n spiders with any wires; ins, outs: the number of boundaries"""
    g = zx.Graph()
    ph = S.flag('phases') if n <= 3 else True
    vs = [g.add_vertex(VT.Z, 0, i, phase=(i % 8) if ph else 0) for i in range(n)]
    for i, j in itertools.combinations(range(n), 2):
        if fixed and (i, j) in fixed:
            g.add_edge((vs[i], vs[j]), ET.HADAMARD)
        elif S.flag('w%d_%d' % (i, j)):
            g.add_edge((vs[i], vs[j]), ET.HADAMARD)
    if hole:
        inputs = S.choose('ins', list(itertools.combinations(range(n), ins)))
        outputs = S.choose('outs', list(itertools.combinations(range(n), outs)))
    else:
        inputs, outputs = tuple(range(ins)), tuple(range(n - outs, n))
    if form == 'pattern':
        I = {vs[i] for i in inputs}
        O = {vs[i] for i in outputs}
        g.set_inputs(tuple(I))
        g.set_outputs(tuple(O))
        B = set()
    else:
        bi = [g.add_vertex(VT.BOUNDARY) for _ in inputs]
        bo = [g.add_vertex(VT.BOUNDARY) for _ in outputs]
        for b, i in list(zip(bi, inputs)) + list(zip(bo, outputs)):
            g.add_edge((b, vs[i]), ET.SIMPLE)
        if form == 'wire':
            a, b = g.add_vertex(VT.BOUNDARY), g.add_vertex(VT.BOUNDARY)
            g.add_edge((a, b), ET.SIMPLE)
            bi.append(a)
            bo.append(b)
        g.set_inputs(tuple(bi))
        g.set_outputs(tuple(bo))
        I = {vs[i] for i in inputs} | ({bo[-1]} if form == 'wire' else set())
        O = set(bo)
        B = set(bi)
    if ground:
        w = S.choose('ground', vs)
        g.set_ground(w)
        O = O | {w}
    V = [v for v in g.vertices() if v not in B]
    nb = {v: [w for w in g.neighbors(v) if w not in B] for v in V}
    M = [v for v in V if v not in O]
    before = snap(g)
    r = gflow(g)
    S.require(snap(g) == before, 'the diagram is changed')
    if r is not None:
        l, f, k = r
        S.require(set(f) == set(M) and set(l) == set(V), 'the flow is not about the measured vertices')
        for v in O:
            S.require(l[v] == 0, 'an unmeasured vertex is not in layer 0')
        for u in M:
            odd = {w for w in V if sum(1 for x in nb[w] if x in f[u]) % 2}
            S.require(f[u] and not (f[u] & I) and f[u] <= set(V), 'correction at an input')
            S.require(u in odd and u not in f[u], 'a vertex does not correct itself')
            for w in (odd | f[u]) - {u}:
                S.require(l[w] < l[u], 'a correction touches the past')
            S.require(0 < l[u] < k, 'layers')
        S.require(k == 1 + max(l.values(), default=0), 'number of layers')
        S.witness('flow')
        if not M:
            return
    # any generalised flow: correction sets and layers
    top = len(M)
    L = {v: (0 if v in O else S.int('l%s' % v, 1, top)) for v in V}
    for u in M:
        X = {w: S.bit('x%s_%s' % (u, w)) for w in V if w not in I and w != u}
        S.assume(sum(X[w] for w in nb[u] if w in X) % 2 == 1)
        for w in V:
            if w == u:
                continue
            later = (L[w] < L[u])
            if later is True:
                continue
            if w in X:
                S.assume((X[w] == 0) | later)
            hit = [X[x] for x in nb[w] if x in X]
            if hit:
                S.assume((sum(hit) % 2 == 0) | later)
    if r is None:
        S.fail('a flow exists and is not found')
    for u in M:
        S.require(l[u] <= L[u], 'the flow is not maximally delayed')
    S.witness('delayed')


def h_circ(S, nq, slots, how):
    """diagrams of circuits have a flow, and simplification without gadgets keeps one"""
    g = gen.circuit(S, nq, slots).to_graph()
    zx.simplify.to_gh(g)
    zx.simplify.spider_simp(g, quiet=True)
    zx.simplify.to_graph_like(g)
    way = S.choose('way', how)
    if way != 'plain':
        getattr(zx.simplify, way)(g, quiet=True)
    r = gflow(g)
    S.require(r is not None, 'no flow after ' + way)
    S.witness(way)


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, what, bounds, wit=('flow', 'delayed'), **params):
        H.append(Harness(name, h_flow, what, bounds, params, witnesses=wit))
    add('any3', 'diagrams', '3 spiders, any wires, 1 input and 1 output anywhere', n=3, ins=1, outs=1, form='diagram')
    add('none3', 'states and effects', '3 spiders, no input, 2 outputs anywhere', n=3, ins=0, outs=2, form='diagram')
    add('wire3', 'diagrams', '3 spiders and a bare wire, 1 input, 2 outputs', n=3, ins=1, outs=2, form='wire')
    add('patt3', 'measurement patterns', '3 vertices, any input and output', n=3, ins=1, outs=1, form='pattern')
    add('patt4', 'measurement patterns', '4 vertices, any wires, 1 input and 2 outputs anywhere', n=4, ins=1, outs=2, form='pattern')
    add('patt4b', 'measurement patterns', '4 vertices, any wires, 2 inputs and 2 outputs anywhere', n=4, ins=2, outs=2, form='pattern')
    add('any4', 'diagrams', '4 spiders, any wires, 1 input and 2 outputs', n=4, ins=1, outs=2, form='diagram')
    add('ground4', 'diagrams with a ground', '4 spiders, any wires, 1 input, 1 output, ground anywhere', n=4, ins=1, outs=1, form='diagram', ground=True, hole=False)
    add('patt5', 'measurement patterns', '5 vertices, any wires, 1 input, 2 outputs', n=5, ins=1, outs=2, form='pattern', hole=False)
    add('patt5c', 'measurement patterns', '5 vertices, any wires, 2 inputs, 2 outputs', n=5, ins=2, outs=2, form='pattern', hole=False)
    W = ('plain', 'id_simp', 'lcomp_simp', 'pivot_simp', 'interior_clifford_simp')

    def circ(name, bounds, nq, slots, how=W):
        H.append(Harness(name, h_circ, 'diagrams of circuits, simplified', bounds, dict(nq=nq, slots=slots, how=how), witnesses=how))
    A = ('z', 'h', 'cnot', 'cz')
    circ('circ1', '4 rotations and Hadamards on 1 qubit', 1, [('z', 'h'), ('x', 'h'), ('z', 'h'), ('x',)])
    circ('circ2', '3 gates on 2 qubits', 2, [A, A, A], W[3:])
    circ('circ2b', '5 gates on 2 qubits, mostly given', 2, [('cnot', 'cz'), ('x',), ('h', 'cnot'), ('z',), ('cnot', 'cz')], W[-1:])
    if T:
        circ('circ3', '4 gates on 2 qubits', 2, [A, A, A, A], W[-1:])
        circ('circ3q', '3 gates on 3 qubits', 3, [A, A, A], W[-1:])
        add('any5', 'diagrams', '5 spiders, any wires, 1 input and 2 outputs', n=5, ins=1, outs=2, form='diagram')
        add('patt6', 'measurement patterns', '6 vertices, 3 fixed wires, 2 inputs, 2 outputs', n=6, ins=2, outs=2, form='pattern', hole=False, fixed=((0, 2), (1, 3), (2, 4)))
    return H
