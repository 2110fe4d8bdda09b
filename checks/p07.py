"""P07: combining diagrams - composition, tensor product, adjoint, states and effects, normalisation, identity test."""
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
from checks.p06 import dagger
import pyzx as zx
from pyzx.utils import set_z_box_label

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the operations that combine or rearrange whole diagrams, on diagrams with symbolic topology (including wires that '
               'join boundaries directly), vertex types, phases and scalars; the result must denote the composite / tensor product / adjoint / '
               'restriction computed by an independent description of the operands.')
ASSUMPTIONS = ['phases are multiples of pi/4', 'compositions that would need parallel edges a simple graph cannot store (H-boxes) are not generated']
BUDGET = {'quick': 90, 'thorough': 1200}


def open_graph(S, name, n, nb, nin, backend=None, types=(VT.Z, VT.X), phases=True, scalar=True, pos=False, edges=(None, ET.HADAMARD)):
    """n spiders, nb boundaries (the first nin are inputs); each boundary hangs off a spider or is wired to another boundary"""
    g = gen.new_graph(backend)
    vs = []
    for i in range(n):
        ty = S.choose('%sty%d' % (name, i), types)
        v = g.add_vertex(ty, i, 1)
        vs.append(v)
        if ty == VT.Z_BOX:
            set_z_box_label(g, v, S.choose('%slab%d' % (name, i), (2, 1j)))
        elif phases:
            g.set_phase(v, S.phase('%sp%d' % (name, i)))
        else:
            g.set_phase(v, Fraction(2 * i + 1, 4))
    for i in range(n):
        for j in range(i):
            e = S.choose('%se%d_%d' % (name, j, i), edges)
            if e is not None:
                g.add_edge((vs[j], vs[i]), e)
    bs = [g.add_vertex(VT.BOUNDARY, (S.choose('%sq%d' % (name, k), (0, 1)) + (0.5 if k % 2 else 0)) if pos else k, 0 if k < nin else 3) for k in range(nb)]
    open_ = set(range(nb))
    for k in range(nb):
        if k not in open_:
            continue
        open_.discard(k)
        t = S.choose('%sb%d' % (name, k), [('v', v) for v in range(n)] + [('b', x) for x in sorted(open_)])
        et = S.choose('%sbe%d' % (name, k), (ET.SIMPLE, ET.HADAMARD))
        if t[0] == 'v':
            g.add_edge((bs[k], vs[t[1]]), et)
        else:
            open_.discard(t[1])
            g.add_edge((bs[k], bs[t[1]]), et)
            S.witness('wire')
    ins, outs = bs[:nin], bs[nin:]
    if len(ins) > 1 or len(outs) > 1:
        if S.flag(name + 'rev'):     # the order of the inputs and outputs is not that of their vertices
            ins, outs = ins[::-1], outs[::-1]
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if scalar:
        g.scalar.add_phase(S.phase('%ssc' % name))
        g.scalar.add_power(1)
    return g


def union(d1, d2):
    """disjoint union of two descriptions, second one renamed"""
    d = sem.Diagram()
    d.verts = {('a', v): x for v, x in d1.verts.items()}
    d.verts.update({('b', v): x for v, x in d2.verts.items()})
    d.edges = [(('a', s), ('a', t), ty) for s, t, ty in d1.edges] + [(('b', s), ('b', t), ty) for s, t, ty in d2.edges]
    s1, s2 = d1.scalar, d2.scalar
    d.scalar = dict(power2=s1['power2'] + s2['power2'], phase=s1['phase'] + s2['phase'], nodes=list(s1['nodes']) + list(s2['nodes']),
                    ff=s1['ff'] * s2['ff'], zero=s1['zero'] or s2['zero'], unknown=False)
    return d


def composite(d1, d2):
    d = union(d1, d2)
    for o, i in zip(d1.outputs, d2.inputs):
        d.verts[('a', o)] = (1, 0, None)
        d.verts[('b', i)] = (1, 0, None)
        d.edges.append((('a', o), ('b', i), 1))
    d.inputs = tuple(('a', v) for v in d1.inputs)
    d.outputs = tuple(('b', v) for v in d2.outputs)
    return d


def product(d1, d2):
    d = union(d1, d2)
    d.inputs = tuple(('a', v) for v in d1.inputs) + tuple(('b', v) for v in d2.inputs)
    d.outputs = tuple(('a', v) for v in d1.outputs) + tuple(('b', v) for v in d2.outputs)
    return d


def h_compose(S, backend, n1, n2, nmid, nin, nout, types=(VT.Z, VT.X), phases=True, how=('compose', '+', '*', '+=')):
    g1 = open_graph(S, 'a', n1, nin + nmid, nin, backend, types, phases)
    g2 = open_graph(S, 'b', n2, nmid + nout, nmid, backend, types, phases)
    d1, d2 = sem.read_graph(g1), sem.read_graph(g2)
    m1, m2 = S.dmap(d1), S.dmap(d2)
    want = S.dmap(composite(d1, d2))
    op = S.choose('op', how)
    S.sig('compose')
    if op == 'compose':
        g = g1
        g.compose(g2)
    elif op == '+':
        g = g1 + g2
    elif op == '*':
        g = g2 * g1
    else:
        g = g1
        g += g2
    S.witness(op)
    S.require(len(g.inputs()) == nin and len(g.outputs()) == nout, 'arity of a composite')
    S.same(S.gmap(g), want, 'composition')
    S.same(S.gmap(g2), m2, 'composition changed its argument')
    if op in '+*':
        S.same(S.gmap(g1), m1, 'composition changed its left argument')


def h_mismatch(S, backend):
    a, b = S.choose('a', range(3)), S.choose('b', range(3))
    g1 = open_graph(S, 'a', 1, 1 + a, 1, backend, (VT.Z,), False)
    g2 = open_graph(S, 'b', 1, b + 1, b, backend, (VT.Z,), False)
    n = g1.num_vertices()
    try:
        g1.compose(g2)
    except TypeError:
        S.require(a != b, 'composition refused')
        S.require(g1.num_vertices() == n, 'failed composition changed the diagram')
        S.witness('refused')
        return
    S.require(a == b, 'composition with mismatched arities accepted')


def h_tensor(S, backend, n1, n2, b1, b2, types=(VT.Z, VT.Z_BOX)):
    g1 = open_graph(S, 'a', n1, b1, S.choose('i1', range(b1 + 1)), backend, types)
    g2 = open_graph(S, 'b', n2, b2, S.choose('i2', range(b2 + 1)), backend, types)
    d1, d2 = sem.read_graph(g1), sem.read_graph(g2)
    m1, m2 = S.dmap(d1), S.dmap(d2)
    gr = [S.flag('gr%d' % i) for i in range(2)]
    if n1 and gr[0]:
        g1.set_ground(0)
    if n2 and gr[1]:
        g2.set_ground(0)
    g = (g1 @ g2) if S.flag('op') else g1.tensor(g2)
    S.same(S.gmap(g), S.dmap(product(d1, d2)), 'tensor product')
    S.require(len(g.grounds()) == len(g1.grounds()) + len(g2.grounds()), 'grounds of a tensor product')
    for v in list(g.vertices()):
        if g.type(v) == VT.Z_BOX:
            set_z_box_label(g, v, 7)
        g.set_phase(v, Fraction(1, 2))
    S.witness('ok')
    S.same(S.gmap(g1), m1, 'tensor product shares state with its first argument')
    S.same(S.gmap(g2), m2, 'tensor product shares state with its second argument')


def h_adjoint(S, backend, n, nb, types=(VT.Z, VT.X, VT.Z_BOX, VT.H_BOX), phases=True):
    nin = S.choose('nin', range(nb + 1))
    g = open_graph(S, 'a', n, nb, nin, backend, types, phases)
    g.scalar.add_node(S.phase('nd'))
    m = S.gmap(g)
    a = g.adjoint()
    S.witness('ok')
    S.same(S.gmap(a), dagger(S, m, nin, nb - nin), 'adjoint')
    S.same(S.gmap(a.adjoint()), m, 'double adjoint')


def h_plug(S, backend, n, nb, kind):
    """apply_state / apply_effect against plugging in the basis vectors"""
    nin = nb if kind == 'state' else 0
    g = open_graph(S, 'a', n, nb, nin, backend)
    d = sem.read_graph(g)
    k = S.choose('len', range(nb + 1))
    st = ''.join(S.choose('s%d' % i, '01+-/') for i in range(k))
    (g.apply_state if kind == 'state' else g.apply_effect)(st)
    bs = d.inputs if kind == 'state' else d.outputs
    rest = []
    pw = 0
    for i, b in enumerate(bs):
        c = st[i] if i < k else '/'
        if c == '/':
            rest.append(b)
            continue
        S.witness(c)
        d.verts[b] = (2 if c in '01' else 1, Fraction(1) if c in '1-' else 0, None)
        pw -= 1
    d.scalar['power2'] += pw
    if kind == 'state':
        d.inputs = tuple(rest)
    else:
        d.outputs = tuple(rest)
    S.require(len(g.inputs()) == len(d.inputs) and len(g.outputs()) == len(d.outputs), 'number of remaining inputs/outputs')
    S.same(S.gmap(g), S.dmap(d), 'apply_' + kind)


def h_plug_bad(S):
    g = open_graph(S, 'a', 1, 2, 1)
    st = S.choose('s', ('00', 'x', '0/', '2'))
    for f in (g.apply_state, g.apply_effect):
        try:
            f(st)
        except TypeError:
            S.witness('refused')
            continue
        S.fail('an invalid state string was accepted')


def h_isid(S, backend, n, nb):
    nin = S.choose('nin', range(nb + 1))
    g = open_graph(S, 'a', n, nb, nin, backend, scalar=False, phases=False)
    r = g.is_id()
    wires = n == 0 and nin * 2 == nb and all(g.connected(i, o) and int(g.edge_type(g.edge(i, o))) == 1 for i, o in zip(g.inputs(), g.outputs()))
    S.require(r == wires, 'is_id returned %s' % r)
    S.witness(str(r))


def h_normalize(S, backend, n, nb, autoio):
    nin = S.choose('nin', range(1, nb))
    g = open_graph(S, 'a', n, nb, nin, backend, pos=True)
    if S.flag('shift'):
        g = g.translate(3, 2)
    ins, outs = g.inputs(), g.outputs()
    m = S.gmap(g)
    g.normalize()
    S.witness('ok')
    S.require(g.inputs() == ins and g.outputs() == outs, 'normalize changed inputs/outputs')
    S.same(S.gmap(g), m, 'normalize')
    q = [g.qubit(v) for v in ins]
    S.require(sorted(q) == list(range(nin)), 'inputs are not on consecutive qubits')
    S.require(any(w in outs for v in outs for w in g.neighbors(v)) or sorted(g.qubit(v) for v in outs) == list(range(nb - nin)), 'outputs are not on consecutive qubits')
    if any(w in outs for v in outs for w in g.neighbors(v)):
        return     # wires between two outputs are not laid out
    S.require(len({g.row(v) for v in ins}) == 1 and len({g.row(v) for v in outs}) == 1, 'inputs/outputs are not aligned')
    S.require(min(g.row(v) for v in g.vertices()) == g.row(ins[0]) and g.row(outs[0]) == g.depth() > g.row(ins[0]), 'inputs/outputs are not outermost')


def h_autoio(S, backend, n):
    g = gen.new_graph(backend)
    vs = [g.add_vertex(VT.Z, i, S.choose('r%d' % i, (1, 2, 3))) for i in range(2)]
    g.add_edge((vs[0], vs[1]), ET.HADAMARD)
    info = []
    for k in range(n):
        r = S.choose('br%d' % k, (0, 2, 4))
        q = S.choose('bq%d' % k, (0, 1)) + k * Fraction(1, 8)
        b = g.add_vertex(VT.BOUNDARY, q, r)
        w = S.choose('bt%d' % k, vs)
        g.add_edge((b, w))
        info.append((b, q, r, g.row(w)))
    bad = any(r == rw for _, _, r, rw in info)
    try:
        g.auto_detect_io()
    except TypeError:
        S.require(bad, 'auto_detect_io refused a valid diagram')
        S.witness('refused')
        return
    S.require(not bad, 'auto_detect_io accepted a boundary level with its neighbour')
    S.witness('ok')
    key = lambda x: x[1]
    S.require(list(g.inputs()) == [b for b, q, r, rw in sorted(info, key=key) if rw > r], 'detected inputs')
    S.require(list(g.outputs()) == [b for b, q, r, rw in sorted(info, key=key) if rw < r], 'detected outputs')


def h_merge(S, backend, n1, n2):
    types = (VT.Z, VT.Z_BOX)
    g1 = open_graph(S, 'a', n1, 1, 0, backend, types, scalar=False)
    g2 = open_graph(S, 'b', n2, 1, 0, backend, types, scalar=False)
    d1, d2 = sem.read_graph(g1), sem.read_graph(g2)
    names = list(g2.vertices())
    edges2 = list(g2.edges())
    vs, es = g1.merge(g2)
    S.witness('ok')
    tab = dict(zip(names, vs))
    S.require(len(vs) == len(names) and len(es) == len(edges2), 'merge reports the wrong number of vertices or edges')
    S.require(sorted(tuple(sorted(g1.edge_st(e))) + (int(g1.edge_type(e)),) for e in es) ==
              sorted(tuple(sorted(tab[x] for x in g2.edge_st(e))) + (int(g2.edge_type(e)),) for e in edges2), 'merge reports the wrong edges')
    S.require(set(es) <= set(g1.edges()), 'merge reports edges that are not in the diagram')
    g1.set_outputs(g1.outputs() + tuple(tab[v] for v in g2.outputs()))
    S.same(S.gmap(g1), S.dmap(product(d1, d2)), 'merge')


def h_subgraph(S, backend, n):
    g = open_graph(S, 'a', n, 1, 0, backend, (VT.Z, VT.X, VT.Z_BOX), scalar=False)
    verts = S.subset('sub', sorted(g.vertices()))
    h = g.subgraph_from_vertices(verts)
    S.witness('ok')
    d = sem.read_graph(g)
    key = lambda x: str(x)
    names = list(h.vertices())
    S.require(len(names) == len(verts), 'subgraph has the wrong number of vertices')
    tab = dict(zip(verts, names))
    r = sem.read_graph(h)
    for v in verts:
        S.require(r.verts[tab[v]][0] == d.verts[v][0] and r.verts[tab[v]][2] == d.verts[v][2], 'vertex of a subgraph')
        S.require(r.verts[tab[v]][1] == d.verts[v][1], 'phase in a subgraph')
    S.require(sorted((min(s, t), max(s, t), ty) for s, t, ty in r.edges) ==
              sorted((min(tab[s], tab[t]), max(tab[s], tab[t]), ty) for s, t, ty in d.edges if s in tab and t in tab), 'edges of a subgraph')


def h_rows(S, n):
    g = gen.new_graph()
    rows = [S.choose('r%d' % i, (0, 1, Fraction(5, 2), 7)) for i in range(n)]
    for r in rows:
        g.add_vertex(VT.Z, 0, r)
    g.pack_circuit_rows()
    S.witness('ok')
    got = [g.row(v) for v in g.vertices()]
    S.require(set(got) == set(range(len(set(rows)))), 'packed rows are not consecutive')
    for i in range(n):
        for j in range(n):
            S.require((rows[i] < rows[j]) == (got[i] < got[j]), 'packing rows changed their order')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    for b in ('simple', 'multigraph'):
        add('compose11_%s' % b, h_compose, 'composition', '1 spider each, 1 input, 2 plugged wires, 1 output', wit=('wire',), backend=b, n1=1, n2=1, nmid=2, nin=1, nout=1, phases=False, how=('compose', '+', '*', '+=') if T else ('compose', '*') if b == 'simple' else ('+', '+='))
        add('mismatch_%s' % b, h_mismatch, 'composition with mismatched arities', '0-2 outputs against 0-2 inputs', wit=('refused',), backend=b)
        add('tensor_%s' % b, h_tensor, 'tensor product', '1 spider/Z-box each, 2+2 boundaries', wit=('ok',), backend=b, n1=1, n2=1, b1=2, b2=2 if T else 1)
        add('adjoint_%s' % b, h_adjoint, 'adjoint', '2 vertices of 4 kinds, 2 boundaries', wit=('ok',), backend=b, n=2, nb=2, phases=T)
        add('adjoint1_%s' % b, h_adjoint, 'adjoint, symbolic phases', '1 vertex of 4 kinds, 3 boundaries', wit=('ok', 'wire'), backend=b, n=1, nb=3)
        add('merge_%s' % b, h_merge, 'merge', '2 and 1 vertices', wit=('ok',), backend=b, n1=1, n2=2)
        add('sub_%s' % b, h_subgraph, 'induced subgraph', '3 vertices of 3 kinds, all subsets', wit=('ok',), backend=b, n=2 if not T else 3)
        add('norm_%s' % b, h_normalize, 'normalize', '2 spiders, 3 boundaries at symbolic positions, wires between boundaries', wit=('ok', 'wire'), backend=b, n=2 if T else 1, nb=3, autoio=False)
        add('isid_%s' % b, h_isid, 'identity test', '0-1 spiders, 4 boundaries, all pairings', wit=('True', 'False'), backend=b, n=0, nb=4)
    add('isid_spider', h_isid, 'identity test', '1 spider, 2 boundaries', wit=('False',), backend='simple', n=1, nb=2)
    add('compose_wires', h_compose, 'composition', 'no spiders: 2 inputs, 2 plugged wires, 2 outputs, all pairings', wit=('wire',), backend='simple', n1=0, n2=0, nmid=2, nin=2, nout=2, how=('+',))
    add('compose21', h_compose, 'composition', '2 and 1 spiders, 3 plugged wires', wit=('wire',), backend='simple', n1=2, n2=1, nmid=3, nin=0, nout=0, phases=False, how=('+',), types=(VT.Z,))
    add('compose_box', h_compose, 'composition with Z-boxes', '1 and 1 Z-boxes or spiders', wit=(), backend='simple', n1=1, n2=1, nmid=2, nin=0, nout=1, types=(VT.Z, VT.Z_BOX), how=('compose', '+'))
    add('state', h_plug, 'apply_state', '1 spider, 3 inputs, strings over 01+-/', wit=tuple('01+-'), backend='simple', n=1, nb=3, kind='state')
    add('effect', h_plug, 'apply_effect', '1 spider, 3 outputs, strings over 01+-/', wit=tuple('01+-'), backend='multigraph', n=1, nb=3, kind='effect')
    add('plug_bad', h_plug_bad, 'invalid states', '4 invalid strings', wit=('refused',))
    add('autoio', h_autoio, 'detecting inputs and outputs', '2 spiders, 3 boundaries at symbolic positions', wit=('ok', 'refused'), backend='simple', n=3)
    add('rows', h_rows, 'row compression', '4 vertices', wit=('ok',), n=4)
    return H
