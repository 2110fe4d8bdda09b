"""P04: circuit extraction reproduces the diagram's unitary."""
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
import pyzx as zx
from pyzx import simplify, extract

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of simplification followed by the real circuit extractors on circuits with symbolic structure and phases: '
               'the extracted gate list, given its intended meaning, must implement the original unitary up to a global scalar (up to input '
               'permutation when so requested) for all phase values, with the same number of qubits and basic gates only.')
ASSUMPTIONS = ['phases are multiples of pi/4', 'sizes as stated per harness', 'termination: 20 s per symbolic path']
BUDGET = {'quick': 110, 'thorough': 2400}

PREP = {'none': lambda g: None, 'fused': lambda g: simplify.to_graph_like(g), 'full': simplify.full_reduce, 'cliff': simplify.clifford_simp,
        'int': lambda g: simplify.interior_clifford_simp(g, quiet=True), 'rg': lambda g: simplify.spider_simp(g, quiet=True)}
BASIC = ('ZPhase', 'XPhase', 'Z', 'S', 'T', 'NOT', 'HAD', 'CNOT', 'CZ', 'SWAP', 'XCX')


def extracted(S, g, how, nq, want):
    if how == 'perm':
        c = extract.extract_circuit(g, up_to_perm=True)
    elif how == 'simple':
        c = extract.extract_simple(g, up_to_perm=False)
    elif how == 'simple_perm':
        c = extract.extract_simple(g)
    elif how == 'clifford':
        c = extract.extract_clifford_normal_form(g)
    elif how == 'lookahead':
        c = extract.lookahead_extract(g)
    elif how == 'lookahead_fast':
        c = extract.lookahead_fast(g, optimize_for_depth=True)
    elif how == 'lookahead_full':
        c = extract.lookahead_full(g)
    elif how == 'alt':
        from pyzx.altextract import alt_extract_circuit
        c = alt_extract_circuit(g)
    elif how == 'gadget':
        from pyzx.gadget_extract import gadget_extract
        c = gadget_extract(g)
    else:
        c = extract.extract_circuit(g, optimize_czs=how[0], optimize_cnots=how[1])
    S.require(c.qubits == nq, 'extraction changed the number of qubits')
    if how != 'gadget':
        for x in c.gates:
            S.require(type(x).__name__ in BASIC, 'extraction produced a non-basic gate')
    got = S.cmap(c.gates, nq)
    if how in ('perm', 'simple_perm'):
        S.same_upto_perm(got, want, nq, 'extract %s' % (how,))
    else:
        S.same_upto(got, want, 'extract %s' % (how,))
    if any(type(x).__name__ in ('CNOT', 'CZ') for x in c.gates):
        S.witness('entangling')


def h_circ(S, nq, slots, prep, how, den=4):
    c = gen.circuit(S, nq, slots, den)
    g = c.to_graph()
    want = S.cmap(c.gates, nq)
    PREP[prep](g)
    if how == 'any':
        how = S.choose('opt', ((True, 2), (False, 0), (True, 1), (True, 3)))
    extracted(S, g, how, nq, want)


def h_gadgets(S, nq, k, how, den=4, seps=('h',)):
    """k phases on symbolic parities with Hadamards between them, so gadgets survive reduction"""
    c = zx.Circuit(nq)
    for i in range(k):
        pat = S.choose('par%d' % i, range(1, 1 << nq) if i != 1 else range((1 << nq) - 1, 1 << nq))
        qs = [q for q in range(nq) if pat >> q & 1]
        for q in qs[1:]:
            c.add_gate('CNOT', q, qs[0])
        c.add_gate('ZPhase', qs[0], S.phase('p%d' % i, den))
        for q in reversed(qs[1:]):
            c.add_gate('CNOT', q, qs[0])
        if i + 1 < k:
            for q in S.choose('hs%d' % i, [(), (0,), tuple(range(nq))]):
                c.add_gate('HAD', q)
    want = S.cmap(c.gates, nq)
    g = c.to_graph()
    simplify.full_reduce(g)
    extracted(S, g, how, nq, want)


def h_czcnot(S, nq, how):
    """CZ layer, CNOT pattern and Hadamard/phase layer: frontier cleaning and row reduction"""
    c = zx.Circuit(nq)
    for a in range(nq):
        for b in range(a + 1, nq):
            if S.flag('cz%d%d' % (a, b)):
                c.add_gate('CZ', a, b)
    for i in range(2):
        a, b = S.choose('cn%d' % i, [(a, b) for a in range(nq) for b in range(nq) if a != b])
        c.add_gate('CNOT', a, b)
    for q in range(nq):
        if S.flag('h%d' % q):
            c.add_gate('HAD', q)
    c.add_gate('ZPhase', 0, S.phase('p'))
    c.add_gate('CZ', 0, nq - 1)
    want = S.cmap(c.gates, nq)
    g = c.to_graph()
    simplify.full_reduce(g)
    extracted(S, g, how, nq, want)


def h_matrix(S, n, how, first=None, full=False):
    """a layer of output spiders joined to a layer of input spiders by Hadamard edges according to a symbolic invertible matrix:
    row reduction, the greedy search and the column ordering inside extract_circuit"""
    rows = []
    for i in range(n):
        vec = [x for x in range(1, 1 << n) if full or n < 2 or x & (x - 1)]
        rows.append(S.choose('row%d' % i, vec if i or first is None else first))
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                break
            r ^= basis[h]
        else:
            S.assume(False)
    g = zx.Graph()
    ins = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(n)]
    nb = [g.add_vertex(VT.Z, i, 1) for i in range(n)]
    fr = [g.add_vertex(VT.Z, i, 2) for i in range(n)]
    outs = [g.add_vertex(VT.BOUNDARY, i, 3) for i in range(n)]
    for i in range(n):
        g.add_edge((ins[i], nb[i]))
        g.add_edge((outs[i], fr[i]))
        for j in range(n):
            if rows[i] >> j & 1:
                g.add_edge((fr[i], nb[j]), ET.HADAMARD)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    g.set_phase(nb[0], S.phase('p'))
    want = S.gmap(g)
    if how == 'any':
        how = S.choose('opt', [(z, k) for z in (True, False) for k in range(4)] + ['perm', 'lookahead', 'lookahead_fast', 'lookahead_full'])
    S.sig('matrix:%s' % (how,))
    extracted(S, g, how, n, want)


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('entangling',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    s5 = [['z', 'h'], ['cnot', 'cz'], ['z', 'x'], ['cnot', 'h'], ['z']]
    s4 = [['z', 'h'], ['cnot', 'cz'], ['z', 'x'], ['cnot', 'h']]
    add('circ2_full', h_circ, 'full_reduce then extract_circuit', '2 qubits, 5 gates', nq=2, slots=s5 if T else [['z', 'h'], ['cnot'], ['z', 'x'], ['cnot', 'h'], ['z']], prep='full', how=(True, 2))
    add('circ2_opts', h_circ, 'extract_circuit with every optimisation level', '2 qubits, 4 gates', nq=2, slots=s4, prep='full', how='any')
    add('circ2_cliff', h_circ, 'clifford_simp then extract_circuit', '2 qubits, 4 gates', nq=2, slots=s4, prep='cliff', how=(True, 2))
    add('circ2_int', h_circ, 'interior_clifford_simp then extract_circuit', '2 qubits, 4 gates', nq=2, slots=s4, prep='int', how=(True, 2))
    add('circ2_fused', h_circ, 'graph-like form then extract_circuit', '2 qubits, 4 gates', nq=2, slots=s4, prep='fused', how=(True, 2))
    add('circ2_perm', h_circ, 'extraction up to permutation', '2 qubits, 4 gates', nq=2, slots=[['z', 'h'], ['cnot', 'swap'], ['z', 'x'], ['cnot', 'h', 'swap']], prep='full', how='perm')
    add('simple', h_circ, 'extract_simple after fusion', '2 qubits, 4 gates', nq=2, slots=s4, prep='rg', how='simple')
    add('simple_perm', h_circ, 'extract_simple up to permutation', '2 qubits, 4 gates', nq=2, slots=[['z', 'h'], ['cnot', 'swap'], ['x'], ['cnot', 'cz']], prep='rg', how='simple_perm')
    add('clifford', h_circ, 'Clifford normal form extraction', '2 qubits, 5 Clifford gates', nq=2, slots=[['zc', 'h'], ['cnot', 'cz'], ['xc', 'h'], ['cnot', 'swap'], ['zc']], prep='none', how='clifford')
    for k in ('lookahead', 'lookahead_fast', 'lookahead_full'):
        add(k, h_circ, k + ' extraction', '2 qubits, 3 gates', nq=2, slots=[['z', 'h'], ['cnot'], ['x', 'h']] + ([['cnot', 'cz']] if T else []), prep='full', how=k)
    add('gadgets2', h_gadgets, 'extraction with phase gadgets', '2 qubits, 3 parity phases, Hadamards between', nq=2, k=3, how=(True, 2))
    add('gadgets3', h_gadgets, 'extraction with phase gadgets', '3 qubits, 2 parity phases, Hadamards between', nq=3, k=2, how=(True, 2))
    add('czcnot3', h_czcnot, 'CZ/CNOT structure', '3 qubits, CZ layer, 2 CNOTs, H layer', nq=3, how=(True, 2))
    add('matrix3', h_matrix, 'row reduction in extract_circuit, every option', '3 x 3 invertible matrices, one symbolic phase', n=3, how='any', full=True)
    for k in (0, 1, 2, 3) if T else (1, 3):
        add('matrix4_%d' % k, h_matrix, 'row reduction in extract_circuit, CNOT optimisation level %d' % k,
            '4 x 4 invertible matrices without an easy row, one symbolic phase' + ('' if T else ', up to a permutation of the columns'), n=4, how=(True, k), first=None if T else (3, 7, 15))
    if T:
        add('czcnot3b', h_czcnot, 'CZ/CNOT structure, unoptimised', '3 qubits, CZ layer, 2 CNOTs, H layer', nq=3, how=(False, 0))
        add('gadgets3b', h_gadgets, 'extraction with phase gadgets', '3 qubits, 3 parity phases', nq=3, k=3, how=(True, 3))
        add('circ3', h_circ, 'full_reduce then extract_circuit', '3 qubits, 5 gates', nq=3, slots=[['z', 'h'], ['cnot'], ['x', 'z'], ['cnot', 'cz'], ['h', 'z']], prep='full', how=(True, 2))
        add('czcnot4', h_czcnot, 'CZ/CNOT structure', '4 qubits', nq=4, how=(True, 2))
    return H
