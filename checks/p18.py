"""P18: single rewrites applied to selected places."""
from fractions import Fraction
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
from .p01 import w_node
import pyzx as zx
from pyzx import basicrules as br, rules
from pyzx.editor_actions import operations, MATCHES_EDGES
from pyzx.utils import set_z_box_label, toggle_edge, toggle_vertex

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real editor operations and basic rules on diagrams whose topology, vertex types, phases and selected places are solver variables; on every '
               'feasible path the linear maps before and after, computed by an independent path-sum semantics as exact polynomials in the phase variables, must be equal with their scalar.')
ASSUMPTIONS = ['phases are multiples of pi/4 (exact arithmetic)', 'diagram sizes as stated per harness', 'the editor window is not driven; its operations are applied in the order in which it applies them']
BUDGET = {'quick': 150, 'thorough': 850}
H, Z, X, B, ZB = VT.H_BOX, VT.Z, VT.X, VT.BOUNDARY, VT.Z_BOX
SI, HA = ET.SIMPLE, ET.HADAMARD


def apply(S, g, op, vs=None, es=None, order=None):
    d = operations[op]
    m = d['matcher'](g, (lambda e: es is None or e in es) if d['type'] == MATCHES_EDGES else (lambda v: vs is None or v in vs))
    if not m:
        return 0
    etab, rv, re, iso = d['rule'](g, m)
    if order:
        g.add_edge_table(etab)
    g.remove_edges(re)
    g.remove_vertices(rv)
    if not order:
        g.add_edge_table(etab)
    return len(m)


def h_op(S, op, n, nout, types=(Z, X), select=False, wires=False, label=(2, 1j), orders=(0,), **kw):
    g, vs = gen.graph(S, n, nout=nout, types=types, **kw)
    for v in vs:
        if g.type(v) == ZB:
            g.set_phase(v, 0)
            set_z_box_label(g, v, S.choose('lab%d' % v, label))
    if wires:
        b = [g.add_vertex(B, 7, k) for k in (0, 4)]
        g.add_edge(b, S.choose('wire', (SI, HA)))
        g.set_outputs(g.outputs() + tuple(b))
    a = S.gmap(g)
    sv = se = None
    if select:
        if operations[op]['type'] == MATCHES_EDGES:
            se = set(S.subset('sel', sorted(g.edges())))
        else:
            sv = set(S.subset('sel', vs))
    ty = {v: g.type(v) for v in g.vertices()}
    k = apply(S, g, op, sv, se, S.choose('order', orders))
    if k:
        S.witness('match')
    if k > 1:
        S.witness('several')
    S.same(S.gmap(g), a, op)
    if sv is not None and op in ('to_z', 'to_x'):
        S.require(all(g.type(v) == (Z if op == 'to_z' else X) for v in sv if ty[v] in (Z, X)), 'colours after ' + op)
    if op == 'euler' and se is not None:
        S.require(not any(e in se and g.edge_type(e) == HA for e in g.edges()), 'a selected Hadamard edge is left')


def h_chain(S, op, n, nout, types, pairs, eopts=(SI, HA), vals=None):
    """longer diagrams, in which several places match"""
    g = gen.new_graph()
    vs = [g.add_vertex(S.choose('t%d' % i, types[i % len(types)]), 0, i + 1) for i in range(n)]
    for i, (a, b) in enumerate(pairs):
        e = S.choose('e%d' % i, eopts if i < n - 1 else (None,) + tuple(eopts))
        if e is not None:
            g.add_edge((vs[a], vs[b]), e)
    for i, v in enumerate(vs):
        if g.type(v) != B:
            g.set_phase(v, S.phase('p%d' % i, **({'vals': vals[i % len(vals)]} if vals else {'den': 2})))
    os = []
    for i in S.choose('outs', nout):
        o = g.add_vertex(B, i, 9)
        g.add_edge((vs[i], o))
        os.append(o)
    g.set_outputs(tuple(os))
    a = S.gmap(g)
    k = apply(S, g, op)
    if k > 1:
        S.witness('several')
    S.same(S.gmap(g), a, op)


RULES = {
    'fuse': (br.check_fuse, br.fuse, 2),
    'strong_comp': (br.check_strong_comp, br.strong_comp, 2),
    'color_change': (br.check_color_change, br.color_change, 1),
    'copy_X': (br.check_copy_X, br.copy_X, 1),
    'copy_Z': (br.check_copy_Z, br.copy_Z, 1),
    'pi_commute_X': (br.check_pi_commute_X, br.pi_commute_X, 1),
    'pi_commute_Z': (br.check_pi_commute_Z, br.pi_commute_Z, 1),
    'remove_id': (br.check_remove_id, br.remove_id, 1),
}


def snap(g):
    return ([(v, g.type(v), g.phase(v)) for v in sorted(g.vertices())], sorted((g.edge_s(e), g.edge_t(e), g.edge_type(e)) for e in g.edges()), g.inputs(), g.outputs())


def h_basic(S, rule, n, nout, types=(Z, X, H), label=(2, 1), backend=None, multi=False, **kw):
    check, fn, k = RULES[rule]
    g, vs = gen.graph(S, n, nout=nout, types=types, backend=backend, **kw)
    for v in vs:
        if g.type(v) == ZB:
            g.set_phase(v, 0)
            set_z_box_label(g, v, S.choose('lab%d' % v, label))
    v = S.choose('v', vs + list(g.outputs())[:1])
    args = (v,) if k == 1 else (v, S.choose('w', [w for w in vs if w != v]))
    a = S.gmap(g)
    before = snap(g)
    c = check(g, *args)
    S.require(c is True or c is False, 'a check answers yes or no')
    S.require(snap(g) == before, 'checking a rule changed the diagram')
    r = fn(g, *args)
    S.require(r == c, 'a rule is applied exactly when its check succeeds')
    if not r:
        S.require(snap(g) == before, 'a rule that does not apply changed the diagram')
        S.witness('refused')
    else:
        S.witness('match')
    expected(S, rule, c, before, args)
    S.same(S.gmap(g), a, rule)


def expected(S, rule, c, before, args):
    """the check succeeds where the rule applies"""
    ty = {v: t for v, t, p in before[0]}
    ph = {v: p for v, t, p in before[0]}
    es = before[1]
    v = args[0]
    if rule == 'color_change':
        S.require(c == (ty[v] in (Z, X)), 'check')
    elif rule in ('pi_commute_Z', 'pi_commute_X'):
        S.require(c == (ty[v] == (Z if rule[-1] == 'Z' else X)), 'check')
    elif rule == 'fuse':
        w = args[1]
        S.require(c == (any({s, t} == {v, w} and e == SI for s, t, e in es) and (ty[v] == ty[w] == X or (ty[v] in (Z, ZB) and ty[w] in (Z, ZB)))), 'check')


def h_diagram(S, n, nb, types=(Z, X, H), backend=None):
    g, vs = gen.graph(S, n, nout=nb, types=types, backend=backend)
    if S.flag('wire'):
        b = [g.add_vertex(B, 7, k) for k in (0, 4)]
        g.add_edge(b, S.choose('w', (SI, HA)))
        g.set_outputs(g.outputs() + tuple(b))
    a = S.gmap(g)
    ty = {v: g.type(v) for v in g.vertices()}
    br.color_change_diagram(g)
    S.require(all(g.type(v) == (toggle_vertex(t) if t in (Z, X) else t) for v, t in ty.items()), 'colours are exchanged')
    for b in g.outputs():
        e, = g.incident_edges(b)
        if g.type(g.edge_s(e)) == g.type(g.edge_t(e)) == B:
            continue
        g.set_edge_type(e, toggle_edge(g.edge_type(e)))
    S.same(S.gmap(g), a, 'colour change of a diagram puts a Hadamard on every boundary')
    S.witness('ok')


def h_fuse_w(S, k1, k2, backend=None):
    """two W nodes, joined in either direction or not"""
    g = gen.new_graph(backend)
    i1, o1 = w_node(S, g, k1, 'a', 0)
    i2, o2 = w_node(S, g, k2, 'b', 1)
    z = g.add_vertex(S.choose('tz', (Z, H)), 2, 2)
    g.set_phase(z, 1)
    outs = []

    def leg(v):
        b = g.add_vertex(B, len(outs), 9)
        g.add_edge((v, b), S.choose('l%d' % len(outs), (SI, HA)) if len(outs) < 2 else SI)
        outs.append(b)
    j = S.choose('joined', (None, 'ab', 'ba', 'oo', 'ii'))
    et = SI
    if j:
        a, b = {'ab': (o1, i2), 'ba': (o2, i1), 'oo': (o1, o2), 'ii': (i1, i2)}[j]
        et = S.choose('je', (SI, HA))
        g.add_edge((a, b), et)
    for v in (i1, i2):
        if not j or v not in (a, b):
            leg(v)
    for _ in range(k1):
        leg(o1)
    for _ in range(k2):
        leg(o2)
    if S.flag('z'):
        g.add_edge((z, o1))
    leg(z)
    g.set_outputs(tuple(outs))
    a = S.gmap(g)
    before = snap(g)
    order = S.choose('order', ((0, 0), (0, 1), (1, 0), (1, 1)))
    args = ((i1, o1)[order[0]], (i2, o2)[order[1]])
    if S.flag('swap'):
        args = args[::-1]
    if S.flag('same'):
        args = (i1, z)
    c = br.check_fuse(g, *args)
    S.require(c == (args[1] != z and j in ('ab', 'ba') and et == SI), 'W nodes fuse exactly when an output is wired to the input of the other')
    S.require(snap(g) == before, 'checking a rule changed the diagram')
    r = br.fuse(g, *args)
    S.require(r == c, 'a rule is applied exactly when its check succeeds')
    S.require(r or snap(g) == before, 'a rule that does not apply changed the diagram')
    S.witness('match' if r else 'refused')
    S.same(S.gmap(g), a, 'fusing W nodes')


def harnesses(tier):
    T = tier == 'thorough'
    L = []

    def add(name, fn, what, bounds, wit=('match',), **params):
        L.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    ZX, ZH, ZZ = (Z, X), (Z, X, H), (Z, X, ZB)
    for op in operations:
        t = ZH if op in ('pauli', 'bialgebra', 'copy', 'rem_id', 'spider', 'to_z', 'to_x', 'id_z', 'euler', 'had2edge', 'fuse_hbox', 'mult_hbox') else ZX
        if op == 'fuse_w':
            continue
        add(op, h_op, 'operation ' + op, '3 vertices, any edges, 1 output', wit=() if op in ('mult_hbox', 'pivot', 'lcomp') else ('match',), op=op, n=3, nout=1, types=t, bedges=(SI,), btargets=[0], den=2)
        add(op + '2', h_op, 'operation ' + op, '2 vertices, any edges, 2 outputs, selected places', wit=() if op in ('mult_hbox', 'pivot') else ('match',), op=op, n=2, nout=2, types=t, select=True, wires=True, den=2 if op == 'z_to_z_box' else 4)
    CH = ((0, 1), (1, 2), (2, 3))
    add('pauli4', h_chain, 'operation pauli', 'cycles of 4 spiders and H-boxes', wit=(), op='pauli', n=4, nout=((0, 3), (1, 2)), types=(ZX, ZX, ZH, ZX), pairs=CH + ((0, 3),), vals=((1,), (1, 0), (1, Fraction(1, 2)), (1, 0)))
    add('pauli5', h_chain, 'operation pauli', 'chains of 5 spiders and H-boxes', wit=('several',), op='pauli', n=5, nout=((0, 3), (2,)), types=(ZX, ZH, ZX, ZX, (X,)), pairs=CH + ((3, 4),), vals=((1,), (1, Fraction(1, 2))))
    add('bialgebra4', h_chain, 'operation bialgebra', 'chains of 4 or 5 spiders and H-boxes', wit=('several',), op='bialgebra', n=5, nout=((0, 4), (1, 2)), types=((X,), (Z, H), ZH), pairs=CH + ((3, 4), (0, 3)), vals=((0,), (1, 0), (0,)))
    add('copy5', h_chain, 'operation copy', 'chains of 5 spiders and H-boxes', wit=('several',), op='copy', n=5, nout=((2,), (1,)), types=(ZX, ZH, ZH, ZX, ZX), pairs=CH + ((3, 4),), vals=((0, 1), (0, Fraction(1, 2)), (1,), (1,), (1,)))
    for r in RULES:
        t = ZZ if r in ('fuse', 'remove_id') else ZH
        add('r_' + r, h_basic, 'rule ' + r, '3 vertices, any edges, 1 output', wit=('match', 'refused'), rule=r, n=3, nout=1, types=t, bedges=(SI,), btargets=[0], den=2)
        add('r_' + r + '2', h_basic, 'rule ' + r, '2 vertices, any edges, 2 outputs', wit=('match', 'refused'), rule=r, n=2, nout=2, types=t + (H,) if H not in t else t)
    add('fuse_w', h_fuse_w, 'rule fuse', 'W nodes with 1 and 2 free outputs, wired in any way', wit=('match', 'refused'), k1=1, k2=2)
    add('diagram', h_diagram, 'colour change of a diagram', '2 vertices, 2 outputs, a wire', wit=('ok',), n=2, nb=2)
    return L
