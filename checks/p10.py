"""P10: circuits and circuit-like diagrams: conversions in both directions, composition, statistics."""
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from checks import wide
from checks.p05 import KINDS, any_gate, sem_rename
from checks.p06 import dagger

G = gen.GATES
LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the circuit class and its graph conversions with symbolic gates, qubits and angles.  Maps of circuits are '
               'compared, for every angle value, with an independent gate semantics; counts and depths with independent definitions.')
ASSUMPTIONS = ['angles are multiples of pi/4', 'circuits are compared up to a global scalar', 'up to 3 qubits and 2-3 gates of symbolic kind']
BUDGET = {'quick': 150, 'thorough': 1500}
BASIC = ('z', 'x', 'h', 'cnot', 'cz', 'xcx')
SOME = ('ZPhase', 'XPhase', 'T', 'SXdg', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CRZ', 'RZZ', 'ParityPhase2', 'CSX')
SMALL = ('ZPhase', 'HAD', 'CNOT', 'CZ', 'CRZ')


def circ(S, nm, nq, k, kinds=SOME, den=4, bits=None):
    c = zx.Circuit(nq, nm, bits)
    for i in range(k):
        c.add_gate(any_gate(S, '%s%d' % (nm, i), nq, kinds, den)[0])
    return c


def text(c):
    return (c.qubits, c.bits, c.name, [(type(g).__name__, repr(sorted(vars(g).items()))) for g in c.gates])


def h_to_graph(S, nq, k, kinds, den=4):
    c = circ(S, 'c', nq, k, kinds, den)
    before = len(c.gates)
    zh = S.flag('zh')
    g = c.to_graph(zh=zh, compress_rows=S.flag('compress'), backend=S.choose('be', ('simple', 'multigraph')))
    S.require(len(c.gates) == before, 'to_graph changed the circuit')
    S.require(len(g.inputs()) == len(g.outputs()) == nq, 'inputs and outputs')
    want = S.cmap(c.gates, nq)
    S.same_uptophase(S.gmap(g), want, 'to_graph')
    S.witness('ok')
    S.require([g.qubit(v) for v in g.inputs()] == list(range(nq)) == [g.qubit(v) for v in g.outputs()], 'qubits of the boundaries')
    last = max(g.row(v) for v in g.outputs())
    pos = set()
    for v in g.vertices():
        if v not in g.inputs() and v not in g.outputs():
            S.require(0 < g.row(v) < last or not g.vertex_degree(v), 'a vertex lies outside the rows of the boundaries')
        if not zh:
            p = (g.qubit(v), g.row(v))
            S.require(p not in pos, 'two vertices at the same position')
            pos.add(p)


def h_roundtrip(S, nq, k, kinds, den=4):
    c = zx.Circuit(nq)
    for i in range(k):
        g = gen.slot(S, 'g%d' % i, nq, kinds, den)
        c.add_gate(g)
    g = c.to_graph(compress_rows=S.flag('compress'))
    sp = S.flag('split')
    c2 = zx.Circuit.from_graph(g, split_phases=sp)
    S.witness('ok')
    S.require(c2.qubits == nq, 'number of qubits')
    S.same_upto(S.cmap(c2.gates, nq), S.cmap(c.gates, nq), 'circuit of the diagram of a circuit')
    S.require(sum(x.tcount() for x in c2.gates) == sum(x.tcount() for x in c.gates), 'T-count after a round trip')


def h_wide(S, k, kinds, n=12, places=(0, 1, 2, 10, 11)):
    """many qubits, so that their numbers have one or two digits"""
    c = wide.circuit(S, n, places, k, kinds, 4)
    want = wide.cmap(S, c.gates, places)
    g = c.to_graph(compress_rows=S.flag('compress'), zh=S.flag('zh'))
    S.require([g.qubit(v) for v in g.inputs()] == list(range(n)) == [g.qubit(v) for v in g.outputs()], 'qubits of the boundaries')
    S.same_uptophase(wide.gmap(S, g, places), want, 'diagram')
    S.same_uptophase(wide.cmap(S, c.to_basic_gates().gates, places), want, 'basic gates')
    h = c.to_basic_gates().to_graph()
    c2 = zx.Circuit.from_graph(h)
    S.require(c2.qubits == n, 'number of qubits')
    S.same_upto(wide.cmap(S, c2.gates, places), want, 'circuit of the diagram of a circuit')
    S.witness('ok')


def h_from_graph(S, nq, nr, den=4, vert=True):
    """a grid of spiders with symbolic kinds, phases and edges, numbered in a symbolic order"""
    g = zx.Graph()
    cells = [(q, r) for q in range(nq) for r in range(1, nr + 1)]
    order = S.choose('order', ('rows', 'cols', 'rev'))
    cells = cells if order == 'rows' else sorted(cells, key=lambda x: x[::-1]) if order == 'cols' else cells[::-1]
    ins = [g.add_vertex(VT.BOUNDARY, q, 0) for q in range(nq)]
    pos = {}
    cross = S.choose('cross', (None, 'row', 'qubit')) if nr > 1 else None
    for q, r in cells:
        t = S.choose('t%d%d' % (q, r), (VT.Z, VT.X))
        pos[q, r] = g.add_vertex(t, q, r, S.phase('p%d%d' % (q, r), den) if r == 1 or q == 0 else Fraction(1, 4))
    outs = [g.add_vertex(VT.BOUNDARY, q, nr + 1) for q in range(nq)]
    for q in range(nq):
        line = [ins[q]] + [pos[q, r] for r in range(1, nr + 1)] + [outs[q]]
        for i in range(nr + 1):
            et = S.choose('h%d%d' % (q, i), (ET.SIMPLE, ET.HADAMARD)) if (i < 2 if nr == 1 else i == 1) and not cross else ET.SIMPLE
            g.add_edge((line[i], line[i + 1]), et)
    bad = False
    if vert and not cross:
        for r in range(1, nr + 1):
            x = S.choose('v%d' % r, (None,) + tuple((a, b, e) for a in range(nq) for b in range(a) for e in (ET.SIMPLE, ET.HADAMARD)))
            if x is not None:
                a, b, e = x
                g.add_edge((pos[a, r], pos[b, r]), e)
                same = g.type(pos[a, r]) == g.type(pos[b, r])
                bad = bad or same != (e == ET.HADAMARD)
    x = cross
    if x == 'row':
        bad = True
        g.add_edge((pos[0, 1], pos[1, 2]))
    elif x == 'qubit':
        bad = True
        g.set_qubit(pos[0, 1], 1)
        g.set_qubit(pos[1, 1], 0)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    try:
        c = zx.Circuit.from_graph(g, split_phases=S.flag('split'))
    except TypeError:
        S.require(bad, 'a circuit-like diagram was refused')
        S.witness('refused')
        return
    S.require(not bad, 'a diagram that is not circuit-like was turned into a circuit')
    S.witness('ok')
    S.same_upto(S.cmap(c.gates, nq), S.gmap(g), 'circuit of a diagram')


def h_adjoint(S, nq, k, kinds):
    c = circ(S, 'c', nq, k, kinds)
    want = S.cmap(c.gates, nq)
    a = c.adjoint()
    S.witness('ok')
    S.require(a.qubits == nq and a.bits == c.bits, 'size of the adjoint')
    S.same_uptophase(S.cmap(a.gates, nq), dagger(S, want, nq, nq), 'adjoint of a circuit')
    S.same(S.cmap(c.gates, nq), want, 'adjoint changed the circuit')


def h_forms(S, nq, k, kinds):
    """copy, to_basic_gates, split_phase_gates"""
    c = circ(S, 'c', nq, k, kinds, bits=2)
    want = S.cmap(c.gates, nq)
    t = c.tcount()
    b, s, d = c.to_basic_gates(), c.split_phase_gates(), c.copy()
    S.witness('ok')
    S.same_uptophase(S.cmap(b.gates, nq), want, 'to_basic_gates')
    S.same_uptophase(S.cmap(s.gates, nq), want, 'split_phase_gates')
    S.same(S.cmap(d.gates, nq), want, 'copy')
    for x, nm in ((b, 'to_basic_gates'), (s, 'split_phase_gates'), (d, 'copy')):
        S.require((x.qubits, x.bits, x.name) == (c.qubits, c.bits, c.name), '%s changes the registers or the name' % nm)
        S.require(x.tcount() == t, '%s changes the T-count' % nm)
    for g in b.gates:
        S.require(isinstance(g, (G.ZPhase, G.XPhase, G.HAD, G.CNOT, G.CZ)), 'to_basic_gates yields %s' % type(g).__name__)
    for g in d.gates:
        if hasattr(g, 'phase'):
            g.phase = g.phase + Fraction(1, 4)
        if hasattr(g, 'target'):
            g.target = 0
    d.gates.append(G.HAD(0))
    S.same(S.cmap(c.gates, nq), want, 'editing a copy changed the circuit')


def h_add(S, n1, n2, k):
    """composition, also on a subset of the qubits"""
    c1 = circ(S, 'a', n1, 1, ('ZPhase', 'HAD', 'CNOT', 'XCX'))
    c2 = circ(S, 'b', n2, k, SMALL)
    ops1, ops2 = sem.ops_of_gates(c1.gates), sem.ops_of_gates(c2.gates)
    w1, w2 = S.cmap(c1.gates, n1), S.cmap(c2.gates, n2)
    how = S.choose('how', ('mask', 'plus', 'iadd', 'tensor', 'matmul') if n1 == n2 else ('mask', 'tensor'))
    mask = list(range(n2))
    n = n1
    if how == 'mask':
        mask = S.choose('mask', list(itertools.permutations(range(n1), n2)))
        before = list(mask)
        c1.add_circuit(c2, list(mask))
        r = c1
        S.require(list(mask) == before, 'the mask was changed')
    elif how == 'plus':
        r = c1 + c2
        S.same(S.cmap(c1.gates, n1), w1, '+ changed its left argument')
    elif how == 'iadd':
        r = c1
        r += c2
    else:
        mask = [i + n1 for i in range(n2)]
        n = n1 + n2
        r = c1 @ c2 if how == 'matmul' else c1.tensor(c2)
        S.same(S.cmap(c1.gates, n1), w1, 'tensor changed its left argument')
    S.witness(how)
    S.require(r.qubits == n, 'number of qubits of the result')
    S.same(S.opsmap(sem.ops_of_gates(r.gates), n), S.opsmap(ops1 + sem_rename(ops2, mask), n), 'combined circuit (%s)' % how)
    S.same(S.cmap(c2.gates, n2), w2, 'the right argument changed')
    for g in r.gates[1:]:
        if hasattr(g, 'target'):
            g.target = 0
    S.same(S.cmap(c2.gates, n2), w2, 'the result shares gates with the right argument')


def h_gate_ops(S, kinds):
    """gates combined with gates and circuits; prepending; gates by name"""
    nq = 2
    g, _ = any_gate(S, 'g', nq, kinds, 4)
    h, _ = any_gate(S, 'h', nq, kinds, 4)
    how = S.choose('how', ('g+h', 'g@h', 'c+g', 'c@g', 'prepend', 'add', 'g+c', 'rowadd'))
    mg, mh = g._max_target() + 1, h._max_target() + 1
    og, oh = sem.gate_ops(g), sem.gate_ops(h)
    c = zx.Circuit(2)
    c.add_gate(h)
    S.witness(how)
    if how == 'g+h':
        if mg < mh and False:
            return
        r, n, want = g + h, max(mg, mh), og + oh
    elif how == 'g@h':
        r, n, want = g @ h, mg + mh, og + sem_rename(oh, [i + mg for i in range(mh)])
    elif how == 'c+g':
        r, n, want = c + g, 2, oh + og
    elif how == 'g+c':
        if mg != 2:
            return
        r, n, want = g + c, 2, og + oh
    elif how == 'c@g':
        r, n, want = c @ g, 2 + mg, oh + sem_rename(og, [i + 2 for i in range(mg)])
    elif how == 'prepend':
        c.prepend_gate(g)
        r, n, want = c, 2, og + oh
    elif how == 'add':
        c.add_gate(g)
        c.prepend_gate('CNOT', 1, 0)
        c.add_gate('ZPhase', 1, phase=Fraction(1, 4))
        c.add_gates('S HAD T', 0)
        r, n = c, 2
        want = [('x', 0, [1])] + oh + og + [('ph', Fraction(1, 4), [1]), ('ph', Fraction(1, 2), [0]), ('h', 0), ('ph', Fraction(1, 4), [0])]
    else:
        c.row_add(0, 1)
        c.col_add(0, 1)
        r, n, want = c, 2, [('x', 0, [1])] + oh + [('x', 1, [0])]
    S.require(r.qubits == n, 'number of qubits of the result')
    S.same(S.opsmap(sem.ops_of_gates(r.gates), n), S.opsmap(want, n), how)


def qubits_of(g):
    if isinstance(g, G.ParityPhase):
        return set(g.targets)
    return {getattr(g, a) for a in ('target', 'control', 'ctrl1', 'ctrl2') if hasattr(g, a)}


def longest(gates, nq):
    """number of layers: longest chain of gates in which neighbours share a qubit"""
    best = []
    for i, g in enumerate(gates):
        best.append(1 + max([best[j] for j in range(i) if qubits_of(gates[j]) & qubits_of(g)], default=0))
    return max(best, default=0)


def h_stats(S, nq, k, kinds):
    c = circ(S, 'c', nq, k, kinds)
    S.witness('ok')
    d = c.stats_dict(depth=True)
    gs = c.gates
    S.require(d['gates'] == len(gs) and d['qubits'] == nq and d['name'] == 'c', 'number of gates or qubits')
    cl = lambda g: isinstance(g, (G.HAD, G.CNOT, G.CZ)) or isinstance(g, (G.ZPhase, G.XPhase)) and (2 * g.phase) % 1 == 0
    two = [g for g in gs if isinstance(g, (G.CNOT, G.CZ))]
    S.require(d['had'] == len([g for g in gs if isinstance(g, G.HAD)]), 'number of Hadamards')
    S.require(d['cnot'] == len([g for g in gs if type(g) is G.CNOT]), 'number of CNOTs')
    S.require(d['twoqubit'] == len([g for g in two if type(g) is not G.SWAP]) or d['twoqubit'] == len(two), 'number of two-qubit gates')
    S.require(d['tcount'] == c.tcount() == sum(g.tcount() for g in gs), 'T-count')
    basic = [x for g in gs for x in g.to_basic_gates()]
    S.require(d['tcount'] == len([x for x in basic if hasattr(x, 'phase') and (2 * x.phase) % 1 != 0]), 'T-count of the expansion')
    S.require(c.twoqubitcount() == len([x for x in basic if isinstance(x, (G.CNOT, G.CZ))]), 'twoqubitcount')
    S.require(d['depth'] == longest(basic, nq), 'depth %d instead of %d' % (d['depth'], longest(basic, nq)))
    nocz = []
    for x in basic:
        nocz += [G.HAD(x.target), G.CNOT(x.control, x.target), G.HAD(x.target)] if type(x) is G.CZ else [x]
    S.require(d['depth_cz'] == longest(nocz, nq), 'depth without CZ gates')
    if all(isinstance(g, (G.ZPhase, G.XPhase, G.HAD, G.CNOT, G.CZ, G.CCZ)) for g in gs):
        S.require(c.depth() == longest(gs, nq), 'depth()')
        S.witness('depth')
    if all(isinstance(g, (G.ZPhase, G.XPhase, G.HAD)) or type(g) in (G.CNOT, G.CZ, G.XCX) for g in gs):
        S.require(d['clifford'] == len([g for g in gs if cl(g)]) and d['other'] == 0, 'number of Clifford gates')
        S.witness('clifford')
    s = c.stats(depth=True)
    for x in ('%d qubits' % nq, '%d gates' % len(gs), '%d is the T-count' % d['tcount'], '%d Hadamard' % d['had'], 'depth is %d' % d['depth']):
        S.require(x in s, 'stats() does not say "%s"' % x)


def h_ancilla(S, nq, k):
    """an ancilla is prepared in |+>, used, and projected on <+|; labels may be reused"""
    lab = S.choose('lab', (nq, 7))
    pick = lambda nm, live: S.choose(nm, [(a, b) for a in live for b in live if a != b])
    c = zx.Circuit(nq)
    ref = zx.Circuit(nq + 1)
    m = lambda x: nq if x == lab else x

    def gate(nm, live):
        a, b = pick(nm + 'q', live) if len(live) > 1 else (live[0], None)
        t = S.choose(nm + 't', ('CNOT', 'CZ', 'ZPhase', 'HAD') if b is not None else ('ZPhase', 'HAD'))
        for cc, f in ((c, lambda x: x), (ref, m)):
            if t in ('CNOT', 'CZ'):
                cc.add_gate(t, f(a), f(b))
            elif t == 'HAD':
                cc.add_gate(t, f(a))
            else:
                cc.add_gate(t, f(a), phase=Fraction(1, 4))
    live = list(range(nq))
    if S.flag('before'):
        gate('x', live)
    c.add_gate('InitAncilla', lab)
    live.append(lab)
    for i in range(k):
        gate('g%d' % i, live)
    keep = S.choose('keep', (False, True, 'other'))
    c2 = None
    if keep is False:
        c.add_gate('PostSelect', lab)
        gate('y', list(range(nq)))
        S.witness('postselected')
    elif keep == 'other':
        c.add_gate('PostSelect', 0)
        S.witness('other')
    g = c.to_graph(compress_rows=S.flag('compress'))
    r = ref.to_graph()
    ins, outs = list(r.inputs()), list(r.outputs())
    r.set_type(ins.pop(nq), VT.Z)
    if keep is False:
        r.set_type(outs.pop(nq), VT.Z)
    elif keep == 'other':
        r.set_type(outs.pop(0), VT.Z)
    r.set_inputs(tuple(ins))
    r.set_outputs(tuple(outs))
    S.same_upto(S.gmap(g), S.gmap(r), 'circuit with an ancilla')
    S.require(len(set((g.qubit(v), g.row(v)) for v in g.vertices())) == g.num_vertices() or keep == 'other', 'two vertices at the same position')


def double(g):
    """the completely positive map of a diagram with grounds, as a plain diagram"""
    d = zx.Graph('multigraph')
    d.set_auto_simplify(False)
    ins, outs = [], []
    mp = []
    for s in (1, -1):
        m = {v: d.add_vertex(g.type(v), 0, 0, s * g.phase(v)) for v in g.vertices()}
        for e in g.edges():
            a, b = g.edge_st(e)
            d.add_edge((m[a], m[b]), g.edge_type(e))
        mp.append(m)
    for v in g.grounds():
        d.add_edge((mp[0][v], mp[1][v]), ET.SIMPLE)
    d.set_inputs(tuple(m[v] for m in mp for v in g.inputs()))
    d.set_outputs(tuple(m[v] for m in mp for v in g.outputs()))
    return d


def h_hybrid(S, nq, nb, k):
    """measurements and discards: the circuit's diagram is the composite of the diagrams of its steps, each spelled out here"""
    c = zx.Circuit(nq, bit_amount=nb)
    ref = zx.Graph('multigraph')
    ref.set_auto_simplify(False)
    ins = [ref.add_vertex(VT.BOUNDARY, 0, 0) for _ in range(nq + nb)]
    cur = list(ins)
    env = []

    def spider(t, w, p=0, et=ET.SIMPLE):
        v = ref.add_vertex(t, 0, 0, p)
        ref.add_edge((cur[w], v), et)
        cur[w] = v
        return v
    for i in range(k):
        t = S.choose('g%d' % i, ('HAD', 'T', 'CNOT', 'M', 'M', 'Mnone', 'D'))
        q = S.choose('q%d' % i, range(nq))
        if t == 'HAD':
            c.add_gate('HAD', q)
            v = spider(VT.Z, q, 0, ET.HADAMARD)
        elif t == 'T':
            c.add_gate('T', q)
            spider(VT.Z, q, Fraction(1, 4))
        elif t == 'CNOT':
            if nq < 2:
                return
            u = (q + 1) % nq
            c.add_gate('CNOT', q, u)
            a, b = spider(VT.Z, q), spider(VT.X, u)
            ref.add_edge((a, b), ET.SIMPLE)
        else:
            b = S.choose('b%d' % i, range(nb))
            if t != 'Mnone':            # forget the old value
                env.append(spider(VT.Z, nq + b))
                cur[nq + b] = ref.add_vertex(VT.X, 0, 0)
            if t != 'D':
                v = spider(VT.Z, q)
                env.append(v)
                if t == 'M':
                    x = spider(VT.X, nq + b)
                    ref.add_edge((v, x), ET.SIMPLE)
                c.add_gate(G.Measurement(q, b if t == 'M' else None))
                S.witness('measured')
            else:
                c.add_gate(G.DiscardBit(b))
                S.witness('discarded')
    outs = []
    for w in range(nq + nb):
        o = ref.add_vertex(VT.BOUNDARY, 0, 0)
        ref.add_edge((cur[w], o))
        outs.append(o)
    ref.set_inputs(tuple(ins))
    ref.set_outputs(tuple(outs))
    for v in env:
        ref.set_ground(v)
    g = c.to_graph(compress_rows=S.flag('compress'))
    S.same_upto(S.gmap(double(g)), S.gmap(double(ref)), 'circuit with measurements')
    c2 = c.copy()
    S.require(all(a == b for a, b in zip(c.gates, c2.gates) if isinstance(a, G.Measurement)), 'a measurement differs from its copy')
    p = [1, 0][:nq] + list(range(2, nq))
    r = zx.Circuit(nq, bit_amount=nb)
    r.add_circuit(c, mask=p)
    for a, b in zip(c.gates, r.gates):
        S.require(type(a) is type(b), 'repositioned hybrid circuit')
        if isinstance(a, G.Measurement):
            S.require(b.target == p[a.target] and b.result_bit == a.result_bit, 'repositioned measurement')
    t = zx.Circuit(1, bit_amount=1).tensor(c)
    S.require((t.qubits, t.bits) == (nq + 1, nb + 1), 'registers of a tensor product')
    for a, b in zip(c.gates, t.gates):
        if isinstance(a, G.Measurement):
            S.require(b.target == a.target + 1 and (a.result_bit is None and b.result_bit is None or b.result_bit == a.result_bit + 1), 'shifted measurement')
        elif isinstance(a, G.DiscardBit):
            S.require(b.target == a.target + 1, 'shifted discard')


def h_meas_eq(S):
    a = G.Measurement(S.choose('t', (0, 1)), S.choose('b', (None, 0, 1)))
    b = G.Measurement(S.choose('t2', (0, 1)), S.choose('b2', (None, 0, 1)))
    S.witness('ok')
    S.require((a == b) == (a.target == b.target and a.result_bit == b.result_bit), 'equality of measurements')


def h_masks(S):
    """wrong sizes are refused"""
    a, b = zx.Circuit(S.choose('q', (1, 2)), bit_amount=S.choose('c', (0, 1))), zx.Circuit(S.choose('q2', (1, 2)), bit_amount=S.choose('c2', (0, 1)))
    m = S.choose('m', (None, [0], [0, 1]))
    bm = S.choose('bm', (None, [0], []))
    mm = m if m is not None else list(range(a.qubits))
    bb = bm if bm is not None else list(range(a.bits))
    try:
        a.add_circuit(b, m, bm)
    except TypeError:
        S.witness('refused')
        S.require(len(mm) != b.qubits or len(bb) != b.bits, 'valid masks refused')
        return
    S.witness('ok')
    S.require(len(mm) == b.qubits and len(bb) == b.bits, 'masks of the wrong size accepted')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    allk = [k for k in KINDS if k not in ('CU', 'CU3', 'FSim', 'FSimdg')]
    add('to_graph1', h_to_graph, 'circuit to diagram', '1 gate of any kind on 3 qubits', wit=('ok',), nq=3, k=1, kinds=allk, den=2)
    add('to_graph2', h_to_graph, 'circuit to diagram', '2 gates of 13 kinds on 2 qubits', wit=('ok',), nq=2, k=2, kinds=SOME)
    add('roundtrip', h_roundtrip, 'circuit to diagram and back', '3 basic gates on 2 qubits', wit=('ok',), nq=2, k=3, kinds=('z', 'h', 'cnot', 'cz', 'xc'), den=2)
    add('roundtrip3', h_roundtrip, 'circuit to diagram and back', '2 basic gates on 3 qubits, phases multiples of pi/8', wit=('ok',), nq=3, k=2, kinds=BASIC, den=8)
    add('from_graph', h_from_graph, 'diagram to circuit', '2x1 grid', wit=('ok', 'refused'), nq=2, nr=1, den=8)
    add('from_graph2', h_from_graph, 'diagram to circuit', '2x2 grid', wit=('ok', 'refused'), nq=2, nr=2, den=1)
    add('wide', h_wide, 'circuit to diagram and back', '12 qubits, 1 gate', k=1, kinds=('ZPhase', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CCZ', 'Tofolli'), wit=('ok',))
    add('wide2', h_wide, 'circuit to diagram and back', '12 qubits, 2 gates', k=2, kinds=('ZPhase', 'CNOT', 'CZ', 'SWAP'), places=(1, 10, 11), wit=('ok',))
    add('adjoint', h_adjoint, 'adjoint', '2 gates on 2 qubits', wit=('ok',), nq=2, k=2, kinds=SOME)
    add('forms', h_forms, 'copy, to_basic_gates, split_phase_gates', '1 gate of any kind', wit=('ok',), nq=3, k=1, kinds=allk)
    add('forms2', h_forms, 'copy, to_basic_gates, split_phase_gates', '2 gates of 13 kinds', wit=('ok',), nq=2, k=2, kinds=SOME)
    add('add22', h_add, 'combining circuits', '2+2 qubits, 1+1 gates', wit=('mask', 'plus', 'iadd', 'tensor', 'matmul'), n1=2, n2=2, k=1)
    add('add32', h_add, 'combining circuits', '3+2 qubits, 1+1 gates', wit=('mask', 'tensor'), n1=3, n2=2, k=1)
    add('gates', h_gate_ops, 'combining gates and circuits', '2 gates', kinds=('T', 'HAD', 'CNOT', 'CZ', 'ParityPhase2', 'RZZ', 'CRX'))
    add('stats', h_stats, 'statistics', '3 gates on 2 qubits', wit=('ok', 'depth', 'clifford'), nq=2, k=3, kinds=('ZPhase', 'HAD', 'CNOT', 'CZ'))
    add('stats1', h_stats, 'statistics', '1 gate of any kind', wit=('ok',), nq=3, k=1, kinds=allk)
    add('stats3', h_stats, 'statistics', '2 gates on 3 qubits', wit=('ok', 'depth', 'clifford'), nq=3, k=2,
        kinds=('T', 'XPhase', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CCZ', 'Tofolli', 'ParityPhase'))
    add('ancilla', h_ancilla, 'ancillas', '1 qubit, 1 ancilla, 4 gates', wit=('postselected', 'other'), nq=1, k=2)
    add('ancilla2', h_ancilla, 'ancillas', '2 qubits, 1 ancilla, 3 gates', wit=('postselected', 'other'), nq=2, k=1)
    add('hybrid', h_hybrid, 'measurements and discards', '2 qubits, 1 bit, 2 steps', wit=('measured', 'discarded'), nq=2, nb=1, k=2)
    add('hybrid1', h_hybrid, 'measurements and discards', '1 qubit, 2 bits, 2 steps', wit=('measured', 'discarded'), nq=1, nb=2, k=2)
    add('measurement', h_meas_eq, 'equality of measurements', 'all pairs', wit=('ok',))
    add('masks', h_masks, 'mismatched masks', 'sizes 0-2', wit=('ok', 'refused'))
    if T:
        add('to_graph3', h_to_graph, 'circuit to diagram', '3 gates of 8 kinds on 3 qubits', wit=('ok',), nq=3, k=3, kinds=SOME[:8])
        add('roundtrip4', h_roundtrip, 'circuit to diagram and back', '4 basic gates on 2 qubits', wit=('ok',), nq=2, k=4, kinds=BASIC)
        add('hybrid3', h_hybrid, 'measurements and discards', '2 qubits, 1 bit, 3 steps', wit=('measured', 'discarded'), nq=2, nb=1, k=3)
    return H
