"""P03: phase teleportation."""
from fractions import Fraction
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
import pyzx as zx
from pyzx import simplify

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real phase teleportation (full_reduce with phase tracking on a shadow graph) on circuits and '
               'graph-like diagrams with symbolic structure and phases: the returned diagram must denote the original map up to a '
               'global phase, keep exactly the same vertices, types and edges, and must not have more non-Clifford phases.')
ASSUMPTIONS = ['phases are multiples of pi/4', 'sizes as stated per harness']
BUDGET = {'quick': 70, 'thorough': 2000}


def skeleton(g):
    """vertices by position in the listing (a copy may be renumbered)"""
    ix = {v: i for i, v in enumerate(g.vertices())}
    return ([(ix[v], int(g.type(v)), g.row(v), g.qubit(v)) for v in g.vertices()],
            sorted((min(ix[s], ix[t]), max(ix[s], ix[t]), int(g.edge_type(e))) for e in g.edges() for s, t in [g.edge_st(e)]),
            tuple(ix[v] for v in g.inputs()), tuple(ix[v] for v in g.outputs()))


def check(S, g):
    a = S.gmap(g)
    sk = skeleton(g)
    t0 = simplify.tcount(g)
    r = simplify.teleport_reduce(g)
    S.require(skeleton(r) == sk, 'teleport_reduce changed the structure')
    S.same_uptophase(S.gmap(r), a, 'teleport_reduce')
    S.same(S.gmap(g), a, 'teleport_reduce changed its argument')
    if simplify.tcount(r) < t0:
        S.witness('reduced')
    S.require(simplify.tcount(r) <= t0, 'teleport_reduce increased the T-count')


def h_circ(S, nq, slots, den=4, fuse=False):
    c = gen.circuit(S, nq, slots, den)
    g = c.to_graph()
    if fuse:
        simplify.spider_simp(g, quiet=True)
    check(S, g)


def h_chain(S, nq, k, den=4):
    """k phases on symbolic parities of nq qubits with symbolic NOTs between: fusing with sign flips"""
    c = zx.Circuit(nq)
    for i in range(k):
        pat = S.choose('par%d' % i, range(1, 1 << nq) if i not in (0, 2) else range((1 << nq) - 1, 1 << nq))
        qs = [q for q in range(nq) if pat >> q & 1]
        for q in qs[1:]:
            c.add_gate('CNOT', q, qs[0])
        if S.flag('not%d' % i):
            c.add_gate('NOT', qs[0])
        c.add_gate('ZPhase', qs[0], S.phase('p%d' % i, den))
        for q in reversed(qs[1:]):
            c.add_gate('CNOT', q, qs[0])
    check(S, c.to_graph())


def h_had(S, nq, den=4):
    """phases separated by Hadamard/CZ structure whose Clifford reduction decides what fuses"""
    c = zx.Circuit(nq)
    c.add_gate('ZPhase', 0, S.phase('p0', den))
    m = gen.slot(S, 'm0', nq, ['h', 'cnot', 'cz'])
    c.gates.append(m)
    c.add_gate('XPhase', 0, S.phase('q', 2))
    m = gen.slot(S, 'm1', nq, ['h', 'cnot', 'cz', 'S'])
    c.gates.append(m)
    c.add_gate('ZPhase', S.choose('t', range(nq)), S.phase('p1', den))
    check(S, c.to_graph())


def h_gadgets(S, nt, ng, both=True, **kw):
    """phase gadgets given directly, with axles of phase 0 or pi, so that gadgets merge with either sign"""
    if both:
        kw['subsets'] = [list(range(nt)), [0]]
    g, vs, gs = gen.gadgets(S, nt, ng, **kw)
    check(S, g)


def h_long(S, nq, k, blocks, first='z', den=4):
    """k non-Clifford phases separated by symbolic Clifford blocks"""
    c = zx.Circuit(nq)
    for i in range(k):
        ph = S.phase('p%d' % i, vals=(Fraction(1, 4), Fraction(3, 4), Fraction(5, 4), Fraction(7, 4)))
        q = S.choose('q%d' % i, range(nq)) if i else 0
        c.add_gate(('XPhase' if S.flag('x%d' % i) else 'ZPhase') if i == 1 else 'ZPhase', q, ph)
        if i + 1 < k:
            for j, kinds in enumerate(blocks[i]):
                x = gen.slot(S, 'c%d_%d' % (i, j), nq, kinds)
                if x is not None:
                    c.gates.append(x)
    check(S, c.to_graph())


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('reduced',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('circ2', h_circ, 'teleportation on circuits', '2 qubits, 5 gates', nq=2, slots=[['z'], ['cnot', 'h'], ['z', 'x'], ['cnot'], ['z']] if T else [['z'], ['cnot'], ['z', 'x'], ['cnot'], ['z']])
    add('circ2_fused', h_circ, 'teleportation on fused diagrams', '2 qubits, 5 gates', nq=2, fuse=True, slots=[['z'], ['cnot'], ['z'], ['cnot', 'h'], ['z']])
    add('chain2', h_chain, 'phases on parities with bit flips', '2 qubits, 3 parity phases', nq=2, k=3)
    add('had', h_had, 'phases across Clifford structure', '2 qubits, 5 gates', nq=2)
    add('gadgets2', h_gadgets, 'phase gadgets on shared targets', '2 targets, 2 gadgets, axles 0 or pi', nt=2, ng=2, tphase=lambda i: Fraction(0))
    add('gadgets2t', h_gadgets, 'phase gadgets on shared non-Clifford targets', '2 targets, 2 gadgets, axles 0 or pi', nt=2, ng=2, tphase=lambda i: Fraction(2 * i + 1, 4))
    add('gadgets3t', h_gadgets, 'phase gadgets on shared non-Clifford targets', '2 targets, 3 gadgets, axles 0 or pi', nt=2, ng=3, tphase=lambda i: Fraction(2 * i + 1, 4),
        axle=lambda k: Fraction(k % 2))
    add('gadgets3', h_gadgets, 'phase gadgets on shared targets', '2 targets, 3 gadgets, axles 0 or pi, odd leaf phases', nt=2, ng=3, tphase=lambda i: Fraction(0),
        axle=lambda k: Fraction(k % 2))
    add('gadgets3x2', h_gadgets, 'phase gadgets on three non-Clifford targets', '3 targets, 2 gadgets on two or three of them, axles 0 or pi, odd leaf phases', nt=3, ng=2, both=False,
        tphase=lambda i: Fraction(2 * i + 1, 4), subsets=[[0, 1, 2], [0, 2]])
    add('gadgets4x2', h_gadgets, 'phase gadgets on four non-Clifford targets', '4 targets, 2 gadgets on all of them, axles 0 or pi, leaf phases multiples of pi/2 off pi/4', nt=4, ng=2, both=False,
        tphase=lambda i: Fraction(2 * i + 1, 4), subsets=[[0, 1, 2, 3]])
    cl = ['id', 'h', 'S', 'NOT', 'cz', 'cnot']
    add('long2', h_long, 'phases separated by Clifford blocks', '2 qubits, 3 non-Clifford phases, blocks of 1-2 Clifford gates', nq=2, k=3, blocks=[[cl[1:]], [['h', 'S', 'NOT', 'cz'], ['id', 'h']]])
    if T:
        add('long2_4', h_long, 'phases separated by Clifford blocks', '2 qubits, 4 non-Clifford phases', nq=2, k=4, blocks=[[cl], [cl], [cl]])
        add('long3', h_long, 'phases separated by Clifford blocks', '3 qubits, 3 non-Clifford phases', nq=3, k=3, blocks=[[cl], [cl, ['h', 'cz']]])
        add('gadgets33', h_gadgets, 'phase gadgets on shared targets', '3 targets, 2 gadgets', nt=3, ng=2, both=False, tphase=lambda i: Fraction(0))
        add('gadgets33t', h_gadgets, 'phase gadgets on shared non-Clifford targets', '3 targets, 2 gadgets', nt=3, ng=2, both=False, tphase=lambda i: Fraction(2 * i + 1, 4))
        add('chain2_4', h_chain, 'phases on parities with bit flips', '2 qubits, 4 parity phases', nq=2, k=4)
        add('chain3', h_chain, 'phases on parities with bit flips', '3 qubits, 3 parity phases', nq=3, k=3)
        add('circ3', h_circ, 'teleportation on circuits', '3 qubits, 5 gates', nq=3, slots=[['z'], ['cnot', 'h'], ['z'], ['cnot'], ['z']])
        add('circ2_long', h_circ, 'teleportation on circuits', '2 qubits, 7 gates', nq=2, slots=[['z'], ['h', 'cnot'], ['z'], ['cnot'], ['x', 'z'], ['h', 'cz'], ['z']])
    return H
