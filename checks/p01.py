"""P01: every local ZX rewrite preserves the diagram's linear map, scalar included."""
from fractions import Fraction
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
import pyzx as zx
from pyzx import rules, simplify

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real match/rewrite functions on diagrams whose topology, vertex types and phases are solver '
               'variables; on every feasible path the before/after linear maps, computed by an independent path-sum semantics as exact '
               'polynomials in the phase variables, must be equal including the scalar (character normal form, z3 for what remains).')
ASSUMPTIONS = ['phases are multiples of pi/4 (exact arithmetic)', 'diagram sizes as stated per harness']
BUDGET = {'quick': 150, 'thorough': 2400}


def rewrite(S, g, match, rule, msg, num=None):
    a = S.gmap(g)
    m = match(g)
    if m:
        S.witness('match')
        if len(m) > 1:
            S.witness('several')
        if rule is not None:
            rules.apply_rule(g, rule, m)
    S.same(S.gmap(g), a, msg)
    return m


PAIRS = {
    'spider': (rules.match_spider_parallel, rules.spider),
    'bialg': (rules.match_bialg_parallel, rules.bialg),
    'pivot': (rules.match_pivot_parallel, rules.pivot),
    'pivot_gadget': (rules.match_pivot_gadget, rules.pivot),
    'pivot_boundary': (rules.match_pivot_boundary, rules.pivot),
    'lcomp': (rules.match_lcomp_parallel, rules.lcomp),
    'ids': (rules.match_ids_parallel, rules.remove_ids),
    'gadgets': (rules.match_phase_gadgets, rules.merge_phase_gadgets),
    'supp': (rules.match_supplementarity, rules.apply_supplementarity),
    'copy': (rules.match_copy, rules.apply_copy),
}


def h_any(S, rule, n, nout, rows=False, types=(VT.Z, VT.X), **kw):
    g, vs = gen.graph(S, n, nout=nout, rows=rows, types=types, **kw)
    rewrite(S, g, *PAIRS[rule], rule)


def h_graphlike(S, rule, n, out, ins=(), **kw):
    g, vs = gen.graphlike(S, n, out, ins=ins, **kw)
    rewrite(S, g, *PAIRS[rule], rule)


def h_star(S, rule, k, k2=None, shared=0, sym=3, den=4):
    """one or two spiders with many neighbours"""
    g = gen.new_graph(S.choose('backend', ('simple', 'multigraph')))
    n = k + (k2 or 0) - shared
    vs = [g.add_vertex(VT.Z, i, 2, S.phase('p%d' % i, den) if i < 2 or i == n - 1 else Fraction(i, 4)) for i in range(n)]
    outs = [g.add_vertex(VT.BOUNDARY, i, 3) for i in range(n)]
    for v, o in zip(vs, outs):
        g.add_edge((v, o))
    g.set_outputs(tuple(outs))
    vals = (Fraction(1, 2), Fraction(3, 2)) if k2 is None else (0, 1)
    c = [g.add_vertex(VT.Z, 0, 1, S.choose('c%d' % i, vals)) for i in range(1 if k2 is None else 2)]
    for i in range(k):
        g.add_edge((c[0], vs[i]), ET.HADAMARD)
    if k2 is not None:
        for i in range(n - k2, n):
            g.add_edge((c[1], vs[i]), ET.HADAMARD)
        g.add_edge((c[0], c[1]), ET.HADAMARD)
    for i in range(sym):
        if S.flag('e%d' % i):
            g.add_edge((vs[i], vs[-1 - i]) if i != n - 1 - i else (vs[i], vs[0]), ET.HADAMARD)
    rewrite(S, g, *PAIRS[rule], rule)


NUM = {
    'lcomp': rules.match_lcomp_parallel,
    'pivot': rules.match_pivot_parallel,
    'pivot_gadget': rules.match_pivot_gadget,
    'pivot_boundary': rules.match_pivot_boundary,
    'ids': rules.match_ids_parallel,
    'spider': rules.match_spider_parallel,
    'z_to_z_box': rules.match_z_to_z_box_parallel,
    'bialg': rules.match_bialg_parallel,
}


def h_num(S, **kw):
    """no more matches than asked for, and one where there is one"""
    r = S.choose('rule', tuple(NUM))
    g, vs = gen.graphlike(S, bedges=(ET.SIMPLE,), edges=(None,), **kw)
    for i in range(len(vs)):
        if S.flag('e%d' % i):
            g.add_edge((vs[i], vs[(i + 1) % len(vs)]), ET.HADAMARD)
    if r in ('spider', 'bialg'):
        # edges that these rules apply to
        for e in list(g.edges()):
            g.set_edge_type(e, ET.SIMPLE)
        if r == 'bialg':
            for v in vs[::2]:
                g.set_type(v, VT.X)
    k = S.choose('num', (1, 2))
    m = NUM[r](g.copy(), num=k)
    a = NUM[r](g.copy())
    S.require(len(m) <= k, 'more matches than asked for')
    S.require(len(m) == k or len(m) >= min(1, len(a)), 'no match where there is one')
    if a:
        S.witness(r)


def h_gadgets(S, nt, ng, rule, **kw):
    g, vs, gs = gen.gadgets(S, nt, ng, **kw)
    rewrite(S, g, *PAIRS[rule], rule)


def h_supp(S, k, extra):
    """two spiders sharing their neighbourhood, optionally connected"""
    g, vs = gen.graphlike(S, k, edges=(None,) if not extra else gen.HEDGE, bedges=(ET.SIMPLE,))
    a, b = g.add_vertex(VT.Z, 5, 1), g.add_vertex(VT.Z, 6, 1)
    for v in vs:
        g.add_edge((a, v), ET.HADAMARD)
        if S.flag('sh%d' % v):
            g.add_edge((b, v), ET.HADAMARD)
    if S.flag('conn'):
        g.add_edge((a, b), ET.HADAMARD)
    g.set_phase(a, S.phase('alpha'))
    g.set_phase(b, S.phase('beta'))
    rewrite(S, g, *PAIRS['supp'], 'supp')


def h_unspider(S, n):
    g, vs = gen.graph(S, n, nout=2, den=4)
    a = S.gmap(g)
    v = vs[0]
    S.assume(g.phase(v) == g.phase(v))
    ns = S.subset('ns', sorted(g.neighbors(v)))
    m = [v, ns]
    if S.flag('withphase'):
        m.append(S.phase('moved'))
    S.witness('match')
    rules.unspider(g, m)
    S.same(S.gmap(g), a, 'unspider')


def h_bialg(S, na, nb):
    """Z and X node joined; na X-neighbours of the Z node, nb Z-neighbours of the X node, phase-free"""
    g = gen.new_graph()
    z = g.add_vertex(VT.Z, 0, 1)
    x = g.add_vertex(VT.X, 0, 2)
    g.add_edge((z, x), S.choose('zx', (ET.SIMPLE, ET.HADAMARD)))
    g.set_phase(z, S.phase('pz', vals=(0, 1)))
    g.set_phase(x, S.phase('px', vals=(0, 1)))
    outs = []
    A, B = [], []
    for i in range(na):
        v = g.add_vertex(S.choose('ta%d' % i, (VT.X, VT.Z)) if i == 0 else VT.X, i, 0, phase=S.phase('pa%d' % i, vals=(0, 1)))
        g.add_edge((z, v), S.choose('ea', (ET.SIMPLE, ET.HADAMARD)) if i == 0 else ET.SIMPLE)
        A.append(v)
    for i in range(nb):
        v = g.add_vertex(S.choose('tb%d' % i, (VT.Z, VT.X)) if i == 0 else VT.Z, i, 3, phase=S.phase('pb%d' % i, vals=(0, 1)))
        g.add_edge((x, v), S.choose('eb', (ET.SIMPLE, ET.HADAMARD)) if i == 0 else ET.SIMPLE)
        B.append(v)
    for a in A:
        for b in B if a == A[0] else B[:1]:
            if S.flag('ab%d_%d' % (a, b)):
                g.add_edge((a, b))
    for v in A + B:
        o = g.add_vertex(VT.BOUNDARY, v, 5)
        g.add_edge((v, o))
        outs.append(o)
    g.set_outputs(tuple(outs))
    rewrite(S, g, *PAIRS['bialg'], 'bialg')


def h_phasepoly(S, drop, npi):
    """at least eight gadgets on four targets"""
    import itertools
    g = gen.new_graph()
    vs = [g.add_vertex(VT.Z, i, 2) for i in range(4)]
    outs = []
    for i, v in enumerate(vs):
        o = g.add_vertex(VT.BOUNDARY, i, 9)
        g.add_edge((v, o))
        outs.append(o)
        g.set_phase(v, S.phase('p%d' % i))
    g.set_outputs(tuple(outs))
    sets = [c for k in (2, 3, 4) for c in itertools.combinations(range(4), k)]
    gone = S.choose('gone', [set(x) for k in range(drop + 1) for x in itertools.combinations(range(len(sets)), k)])
    for k, c in enumerate(sets):
        if k in gone:
            continue
        a, l = g.add_vertex(VT.Z, -1, k), g.add_vertex(VT.Z, -2, k)
        g.add_edge((a, l), ET.HADAMARD)
        for i in c:
            g.add_edge((a, vs[i]), ET.HADAMARD)
        g.set_phase(l, S.phase('l%d' % k, vals=(Fraction(1, 4), Fraction(3, 4), Fraction(5, 4), Fraction(7, 4))) if k < 3 else Fraction(1, 4))
        if k < npi:
            g.set_phase(a, S.phase('a%d' % k, vals=(0, 1)))
    a = S.gmap(g)
    m = rules.match_gadgets_phasepoly(g)
    if m:
        S.witness('match')
        rules.apply_gadget_phasepoly(g, m)
    S.same_upto(S.gmap(g), a, 'phasepoly')


def h_tocolour(S, n, which):
    g, vs = gen.graph(S, n, nin=1, nout=1)
    a = S.gmap(g)
    if which == 'gh':
        simplify.to_gh(g)
        S.require(all(g.type(v) != VT.X for v in g.vertices()), 'to_gh leaves X')
    elif which == 'rg':
        simplify.to_rg(g)
    else:
        sel = set(S.subset('sel', vs))
        simplify.to_rg(g, select=lambda v: v in sel)
    S.same(S.gmap(g), a, 'to_' + which)


def h_zbox(S, n):
    """spiders and Z-boxes fused together"""
    g, vs = gen.graph(S, n, nout=1, types=(VT.Z, VT.Z_BOX), edges=(None, ET.SIMPLE, ET.HADAMARD), bedges=(ET.SIMPLE,), den=2)
    from pyzx.utils import set_z_box_label
    for i, v in enumerate(vs):
        if g.type(v) == VT.Z_BOX:
            g.set_phase(v, 0)
            set_z_box_label(g, v, S.choose('lab%d' % i, (1, -1, 2, 1j)))
    rewrite(S, g, *PAIRS['spider'], 'zbox spider')


def h_tozbox(S, n):
    g, vs = gen.graph(S, n, nout=1, edges=gen.ANYEDGE)
    a = S.gmap(g)
    m = rules.match_z_to_z_box_parallel(g)
    if m:
        S.witness('match')
        rules.apply_rule(g, rules.z_to_z_box, m)
    # labels are rounded to 8 digits
    S.same(S.gmap(g), a, 'z_to_z_box')


def w_node(S, g, k, name, q):
    i = g.add_vertex(VT.W_INPUT, q, 1)
    o = g.add_vertex(VT.W_OUTPUT, q, 1.3)
    g.add_edge((i, o), ET.W_IO)
    return i, o


def h_wfusion(S, k1, k2):
    """two W nodes, output of one wired to the input of the other (or not)"""
    g = gen.new_graph()
    i1, o1 = w_node(S, g, k1, 'a', 0)
    i2, o2 = w_node(S, g, k2, 'b', 1)
    outs = []

    def leg(v):
        b = g.add_vertex(VT.BOUNDARY, len(outs), 9)
        g.add_edge((v, b), S.choose('l%d' % len(outs), (ET.SIMPLE, ET.HADAMARD)))
        outs.append(b)
    leg(i1)
    if S.flag('joined'):
        g.add_edge((o1, i2), S.choose('je', (ET.SIMPLE, ET.HADAMARD)))
    else:
        leg(o1)
        leg(i2)
    for _ in range(k1):
        leg(o1)
    for _ in range(k2):
        leg(o2)
    g.set_outputs(tuple(outs))
    rewrite(S, g, rules.match_w_fusion_parallel, rules.w_fusion, 'w fusion')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('match',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    zx3 = '3 Z/X spiders, any simple/Hadamard/no edge per pair, %d outputs on any spiders, phases k*pi/4'
    add('spider', h_any, 'spider fusion', zx3 % 1 + ', rows 0/1', rule='spider', n=3, nout=1, rows=False)
    add('spider_rows', h_any, 'spider fusion with row-0 spiders', '2 spiders, 2 outputs', rule='spider', n=2, nout=2, rows=True)
    add('spider_zbox', h_zbox, 'fusion of spiders with labelled Z-boxes', '2 vertices, 1 output', n=2)
    add('to_zbox', h_tozbox, 'spider to Z-box', '2 spiders, 1 output', n=2)
    add('w_fusion', h_wfusion, 'fusion of W nodes', 'W nodes with 1 and 2 free outputs', k1=1, k2=2)
    add('bialg', h_bialg, 'bialgebra', 'Z-X pair with 2+2 neighbours, Pauli phases, extra edges', na=2, nb=2)
    add('unspider', h_unspider, 'unfusing', '2 spiders, 2 outputs, any leg subset, any moved phase', n=2)
    add('ids_any', h_any, 'identity removal', zx3 % 1, rule='ids', n=3 if T else 2, nout=2)
    add('ids_gl', h_graphlike, 'identity removal', '3 spiders graph-like, symbolic outputs', rule='ids', n=3, out=['sym'] * 3)
    for r in ('lcomp', 'pivot'):
        add(r + '_any', h_any, r + ' on arbitrary small diagrams', '2 Z/X spiders, any edges, 2 outputs', rule=r, n=2, nout=2,
            wit=())
    add('lcomp_gl3', h_graphlike, 'local complementation', '3 Z spiders, all H-edge patterns, legs symbolic', rule='lcomp', n=3, out=['sym'] * 3)
    add('lcomp_gl4', h_graphlike, 'local complementation', '4 Z spiders, all H-edge patterns, 3 outputs', rule='lcomp', n=4, out=[False, True, True, True],
        bedges=(ET.SIMPLE,), wit=('match', 'several') if False else ('match',))
    add('pivot_gl3', h_graphlike, 'pivot', '3 Z spiders, all H-edge patterns, legs symbolic', rule='pivot', n=3, out=['sym'] * 3)
    add('pivot_gl4', h_graphlike, 'pivot', '4 Z spiders, all H-edge patterns, 2 fixed + 1 symbolic outputs', rule='pivot', n=4,
        out=[False, 'sym', True, True], bedges=(ET.SIMPLE, ET.HADAMARD) if T else (ET.SIMPLE,))
    add('pivot_gl5', h_graphlike, 'pivot', '5 Z spiders, all H-edge patterns, Pauli phases on the first two', rule='pivot', n=5,
        out=[False, False, True, True, True], bedges=(ET.SIMPLE,), vphase=None) if T else None
    add('pivot_gadget3', h_graphlike, 'pivot with gadgetisation', '3 Z spiders, legs symbolic', rule='pivot_gadget', n=3, out=['sym', 'sym', False], bedges=(ET.SIMPLE,))
    add('pivot_gadget4', h_graphlike, 'pivot with gadgetisation', '4 Z spiders, outputs on two', rule='pivot_gadget', n=4, out=[False, False, True, True], bedges=(ET.SIMPLE,))
    add('pivot_boundary3', h_graphlike, 'boundary pivot', '3 Z spiders, legs symbolic', rule='pivot_boundary', n=3, out=['sym', 'sym', 'sym'], ins=(1,))
    add('pivot_boundary4', h_graphlike, 'boundary pivot', '4 Z spiders, outputs on two', rule='pivot_boundary', n=4, out=[False, True, True, False], bedges=(ET.SIMPLE,))
    add('copy_gl', h_graphlike, 'state copy', '4 Z spiders, outputs on two', rule='copy', n=4, out=[False, False, True, True])
    add('copy_bnd', h_graphlike, 'state copy through a boundary spider', '2 Z spiders', rule='copy', n=2, out=['sym', 'sym'], ins=(1,))
    add('gadgets', h_gadgets, 'phase gadget fusion', '2 gadgets on subsets of 3 targets, axle 0/pi', nt=3, ng=2, rule='gadgets',
        tphase=lambda i: 0)
    add('gadgets3', h_gadgets, 'phase gadget fusion', '3 gadgets on subsets of 2 targets, axle 0/pi', nt=2, ng=3, rule='gadgets', tphase=lambda i: 0)
    add('supp', h_supp, 'supplementarity', 'two spiders, 2 shared neighbours, optional connection', k=2, extra=True)
    add('phasepoly', h_phasepoly, 'four-target gadget identity (up to scalar)', '11 gadgets minus at most 1, symbolic target phases', drop=2 if T else 1, npi=1)
    add('lcomp_any3', h_any, 'local complementation', '3 spiders of any colour, all edges, 1 output', rule='lcomp', n=3, nout=1)
    add('pivot_any3', h_any, 'pivot', '3 spiders of any colour, all edges, 1 output', rule='pivot', n=3, nout=1)
    add('bialg_any3', h_any, 'bialgebra', '3 spiders of any colour, all edges, 1 output', rule='bialg', n=3, nout=1)
    for k in (5, 6):
        add('lcomp_star%d' % k, h_star, 'local complementation', '%d neighbours with outputs, 3 possible edges among them' % k, rule='lcomp', k=k)
    add('pivot_star', h_star, 'pivot', 'two spiders with 4 and 3 neighbours, 2 of them shared', rule='pivot', k=4, k2=3, shared=2)
    add('pivot_star0', h_star, 'pivot', 'two spiders with 3 neighbours each, none shared', rule='pivot', k=3, k2=3, shared=0, sym=2)
    add('num', h_num, 'matchers', '4 spiders with edges along a ring, 2 outputs', wit=tuple(NUM), n=4, out=[False, False, True, True])
    for r in ('spider', 'ids', 'bialg', 'pivot'):
        add(r + '_mg', h_any, r + ' on multigraphs', '2 Z/X spiders, any edges, 2 outputs', rule=r, n=2, nout=2, wit=('match',) if r in ('spider', 'ids') else (), backend='multigraph')
    for r, out in (('pivot', ['sym', 'sym', True]), ('pivot_gadget', [False, False, True]), ('lcomp', [False, 'sym', True]), ('copy', [False, False, True])):
        add(r + '_mg3', h_graphlike, r + ' on multigraphs', '3 Z spiders, all H-edge patterns', rule=r, n=3, out=out, bedges=(ET.SIMPLE,), backend='multigraph')
    for w in ('gh', 'rg', 'rgsel'):
        add('to_' + w, h_tocolour, 'colour change', '2 spiders, 1 input, 1 output', n=2, which=w, wit=())
    if T:
        add('spider3', h_any, 'spider fusion', zx3 % 2, rule='spider', n=3, nout=2)
        add('lcomp_gl5', h_graphlike, 'local complementation', '5 Z spiders', rule='lcomp', n=5, out=[False, False, True, True, True], bedges=(ET.SIMPLE,))
        add('supp3', h_supp, 'supplementarity', '3 shared neighbours', k=3, extra=True)
        add('bialg23', h_bialg, 'bialgebra', '2+3 neighbours', na=2, nb=3)
        add('gadgets33', h_gadgets, 'phase gadget fusion', '3 gadgets on subsets of 3 targets', nt=3, ng=3, rule='gadgets', tphase=lambda i: 0)
    return [h for h in H if h]
