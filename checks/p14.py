"""P14: diagrams survive being drawn as TikZ and read back; hand-written TikZ files mean what they say."""
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx import tikz as TK
from pyzx.graph.graph import GraphS, Multigraph
from pyzx.utils import set_z_box_label, get_z_box_label, settings
from checks.p13 import base, many, compare, ident, edgecount, BACKENDS

LEVEL = 'other'
EXPLANATION = ('The real TikZ writer and reader run on diagrams with symbolic vertex kinds, edges, phases, labels and positions, and on TikZ text assembled from symbolic '
               'choices; the diagram that is read must have the vertices, edges and phases of the drawing and denote the same map up to a scalar (TikZ carries no scalar).')
ASSUMPTIONS = ['phases are multiples of pi/4, or one of the listed odd values; they are printed, so each value is a separate path', 'positions are multiples of 1/100']
BUDGET = {'quick': 60, 'thorough': 900}
KINDS = (VT.Z, VT.X, VT.H_BOX, VT.Z_BOX)
CLS = {'simple': GraphS, 'multigraph': Multigraph}
ODD = (Fraction(1, 3), Fraction(-2, 3), Fraction(7, 5), Fraction(1, 1000), Fraction(3, 257), 0, 1, Fraction(0), Fraction(1), Fraction(3, 2))
LABELS = (None, 1, 2, -1, 0, 1j, -1j, 2 - 1j, 0.5, Fraction(1, 2), Fraction(3), Fraction(-3, 4), Fraction(-1), Fraction(0), -0.25, 1e-7, 1 / 3, complex(2), complex(0), complex(-1), Fraction(1), -1.0, complex(-1.5, 1e-9), complex(1, 0))


def set_io(g, h):
    """boundaries of h in the order of those of g"""
    a = [v for v in g.vertices() if g.type(v) == VT.BOUNDARY]
    b = [v for v in h.vertices() if h.type(v) == VT.BOUNDARY]
    if len(a) != len(b):
        return False
    m = dict(zip(a, b))
    h.set_inputs(tuple(m[v] for v in g.inputs()))
    h.set_outputs(tuple(m[v] for v in g.outputs()))
    return True


def ids(text):
    out, used = [], []
    for l in text.splitlines():
        l = l.strip()
        if l.startswith('\\node'):
            out.append(int(l.split('(')[1].split(')')[0]))
        if l.startswith('\\draw'):
            a, b = l.split('] ')[-1].replace('\\draw', '').replace(';', '').split(' to ')
            used += [int(x.strip().strip('()')) for x in (a, b)]
    return out, used


def h_round(S, n, nb, kinds, edges, bedges, den=4, mult=1, loops=False, backends=BACKENDS, to=BACKENDS, lean=False):
    frm = S.choose('from', backends)
    g, vs, bs = base(S, n, nb, kinds, edges, bedges, den, frm, mult, loops, False if mult > 1 or loops else None, lean=lean)
    before = S.gmap(g)
    text = g.to_tikz()
    S.same(S.gmap(g), before, 'to_tikz changed the diagram')
    a, used = ids(text)
    S.require(len(set(a)) == len(a), 'two nodes have the same number')
    S.require(set(used) <= set(a), 'an edge to a node that does not exist')
    h = CLS[S.choose('to', to)].from_tikz(text)
    S.witness('ok')
    S.require(set_io(g, h), 'number of boundaries')
    plain = all(g.edge_type(e) == ET.SIMPLE or VT.BOUNDARY not in (g.type(g.edge_s(e)), g.type(g.edge_t(e))) for e in g.edges())
    if plain and (mult == 1 and not loops or type(h) is type(g)):
        if not (hasattr(h, '_auto_simplify') and h._auto_simplify and (mult > 1 or loops)):
            compare(S, g, h, 'read back')
    S.same_upto(S.gmap(h), before, 'diagram read back')


def h_many(S):
    """vertex numbers of one and two digits"""
    g = many(S, S.choose('from', BACKENDS))
    h = CLS[S.choose('to', BACKENDS)].from_tikz(g.to_tikz())
    S.require(set_io(g, h), 'number of boundaries')
    plain = all(g.edge_type(e) == ET.SIMPLE or VT.BOUNDARY not in (g.type(g.edge_s(e)), g.type(g.edge_t(e))) for e in g.edges())
    if plain:
        compare(S, g, h, 'many boundaries')
    S.witness('ok')


def h_labels(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    v = g.add_vertex(VT.Z_BOX, 0, 1)
    lab = S.choose('lab', LABELS)
    if lab is not None:
        set_z_box_label(g, v, lab)
    b = g.add_vertex(VT.BOUNDARY, 1, 1)
    g.add_edge((v, b))
    h = CLS[S.choose('to', BACKENDS)].from_tikz(g.to_tikz())
    S.witness('ok')
    compare(S, g, h, 'labels')


def h_phases(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    p = S.choose('p', ODD)
    g.add_vertex(S.choose('k', (VT.Z, VT.X, VT.H_BOX)), S.choose('q', (0, -1.25, 3.5)), S.choose('r', (1, -2, 0.07)), phase=p)
    h = CLS[S.choose('to', BACKENDS)].from_tikz(g.to_tikz())
    S.witness('ok')
    compare(S, g, h, 'phase %s' % p)


def h_seq(S, scalar):
    """several diagrams in one picture"""
    gs = []
    for i in range(S.choose('len', (1, 2, 3))):
        g = zx.Graph()
        for _ in range(S.choose('skip%d' % i, (0, 2))):
            g.add_vertex(VT.Z)
        for v in list(g.vertices()):
            g.remove_vertex(v)
        vs = [g.add_vertex(S.choose('k%d' % i, (VT.Z, VT.X)), 0, 1, phase=Fraction(i + 1, 4)) for _ in range(1)]
        nb = S.choose('nb%d' % i, (0, 1, 4))
        bs = []
        for k in range(nb):
            b = g.add_vertex(VT.BOUNDARY, k, 2)
            g.add_edge((vs[0], b), S.choose('be%d_%d' % (i, k), (ET.SIMPLE, ET.HADAMARD)) if k < 1 else ET.HADAMARD)
            bs.append(b)
        g.set_outputs(tuple(bs))
        if scalar:
            g.scalar.add_power(1)
        gs.append(g)
    text = TK.to_tikz_sequence(gs, draw_scalar=scalar, maxwidth=S.choose('mw', (3, 10)))
    a, used = ids(text)
    S.require(len(set(a)) == len(a), 'two nodes have the same number')
    S.require(set(used) <= set(a), 'an edge to a node that does not exist')
    S.witness('ok')
    if scalar:
        # the scalars are nodes of style none and stand alone
        text = '\n'.join(l for l in text.splitlines() if not ('style=none' in l and '{}' not in l))
    h = TK.tikz_to_graph(text, warn_overlap=False, fuse_overlap=False)
    h.set_outputs(tuple(v for v in h.vertices() if h.type(v) == VT.BOUNDARY))
    want = gs[0].copy()
    for g in gs[1:]:
        want = want.tensor(g)
    S.require(len(h.outputs()) == len(want.outputs()), 'number of boundaries')
    S.same_upto(S.gmap(h), S.gmap(want), 'the picture of several diagrams')


PH = (('', 0), (r'$\pi$', 1), (r'$-\pi$', 1), (r'$\frac{\pi}{4}$', Fraction(1, 4)), (r'$\frac{-\pi}{4}$', Fraction(-1, 4)), (r'$-\frac{\pi}{4}$', Fraction(-1, 4)), (r'$\frac{3\pi}{4}$', Fraction(3, 4)), (r'$\frac{-3\pi}{4}$', Fraction(-3, 4)), (r'$-\frac{3\pi}{4}$', Fraction(-3, 4)), (r'$\pi/2$', Fraction(1, 2)),
      (r'$-\pi/2$', Fraction(-1, 2)), (r'$3\pi/2$', Fraction(3, 2)), (r'$0$', 0), (r'$2\pi$', 0), (r'$3\pi$', 1), (r'$\neg$', 1), (r'$\ \pi$', 1), (r'$\frac{\pi}{2}~$', Fraction(1, 2)), (r'$-1\pi$', 1), (r'$-3\pi/4$', Fraction(-3, 4)), (r'$\frac{7}{4}\pi$', Fraction(7, 4)),
      (r'$\frac{1}{4} \pi$', Fraction(1, 4)), (r'$\frac\pi2$', Fraction(1, 2)), (r'$\alpha$', None), (r'$\frac{\pi}{x}$', None), (r'$1$', None), (r'$\pi/0.5$', None))
STYLES = {'Z dot': VT.Z, 'z spider': VT.Z, 'Green Node': VT.Z, 'white phase dot': VT.Z, 'X dot': VT.X, 'red phase node': VT.X, 'gray phase spider': VT.X, 'grey dot': VT.X, 'hadamard': VT.H_BOX, 'H': VT.H_BOX, 'small hadamard': VT.H_BOX}


def picture(nodes, edges):
    return '\n'.join(['\\begin{tikzpicture}', '\t\\begin{pgfonlayer}{nodelayer}'] + ['\t\t\\node [style=%s] (%d) at (%s, %s) {%s};' % x for x in nodes]
                     + ['\t\\end{pgfonlayer}', '\t\\begin{pgfonlayer}{edgelayer}'] + ['\t\t\\draw %s(%s) to (%s);' % x for x in edges] + ['\t\\end{pgfonlayer}', '\\end{tikzpicture}', ''])


def h_node(S):
    """one node with a label, written by hand"""
    st = S.choose('style', tuple(STYLES))
    lab, want = S.choose('label', PH)
    t = STYLES[st]
    nodes = [(st, S.choose('id', (0, 7)), S.choose('x', ('0', '-1.25')), '2.5', lab), ('none', 3, '1', '1', ''), ('none', 4, '2', '1', '')]
    edges = [('', '3', str(nodes[0][1])), ('', str(nodes[0][1]), '4.center')]
    S.sig('node:%s' % lab)
    try:
        h = CLS[S.choose('to', BACKENDS)].from_tikz(picture(nodes, edges))
    except ValueError:
        S.witness('refused')
        S.require(want is None, 'the label %s was refused' % lab)
        return
    S.require(want is not None, 'the label %s was accepted' % lab)
    S.witness('ok')
    v = list(h.vertices())[0]
    S.require(h.type(v) == t, 'style %s' % st)
    w = 1 if (t == VT.H_BOX and lab == '') else want
    S.require((h.phase(v) - w) % 2 == 0, 'the label %s is read as %s' % (lab, h.phase(v)))
    S.require((h.row(v), h.qubit(v)) == (float(nodes[0][2]), -2.5), 'position')
    S.require([h.type(x) for x in list(h.vertices())[1:]] == [VT.BOUNDARY] * 2 and h.num_edges() == 2, 'boundaries')


def h_hand(S):
    """edges written by hand: styles, options, parallel edges, .center, overlapping nodes"""
    E = ((None, 0), ('', 1), ('[style=hadamard edge] ', 2), ('[style=Hadamard Edge, bend left] ', 2), ('[bend right=30] ', 1), ('[in=30, out=150, style=hadamard edge] ', 2), ('[style=simple] ', 1), ('[style=none, looseness=1.25] ', 1), ('[style=dashed] ', 9))
    kinds = [S.choose('k%d' % i, ('Z dot', 'X dot')) for i in range(2)]
    same = S.flag('overlap')
    nodes = [(kinds[0], 5, '0', '0', '$\\frac{\\pi}{4}$'), (kinds[1], 2, '0' if same else '1', '0', '$\\frac{\\pi}{2}$' if not same else ''), ('none', 9, '2', '0', ''), ('none', 11, '2', '-1', '')]
    edges, want = [], zx.Graph()
    fuse = S.flag('fuse') if same else False
    if same:
        S.assume(kinds[0] == kinds[1])
    T = {'Z dot': VT.Z, 'X dot': VT.X}
    a = want.add_vertex(T[kinds[0]], phase=Fraction(1, 4))
    b = want.add_vertex(T[kinds[1]], phase=0 if same else Fraction(1, 2)) if not fuse else a
    bad = False
    for i in range(2):
        s, t = S.choose('e%d' % i, E)
        if s is None:
            continue
        if t == 9:
            bad = True
            t = 1
        edges.append((s, '5', '2') if S.flag('d%d' % i) else (s, '2', '5'))
        want.add_edge((a, b), t)
    bs = []
    for i, (w, q) in enumerate(((a, 5), (b, 2))):
        x = want.add_vertex(VT.BOUNDARY)
        want.add_edge((w, x))
        bs.append(x)
        edges.append(('', str(q), '%d.center' % (9, 11)[i]))
    want.set_outputs(tuple(bs))
    ign = S.flag('ignore')
    S.sig('hand')
    try:
        h = CLS[S.choose('to', BACKENDS)].from_tikz(picture(nodes, edges), warn_overlap=False, fuse_overlap=fuse, ignore_nonzx=ign)
    except ValueError:
        S.witness('refused')
        S.require(bad and not ign, 'refused')
        return
    S.require(not bad or ign, 'unknown style accepted')
    S.witness('ok')
    h.set_outputs(tuple(v for v in h.vertices() if h.type(v) == VT.BOUNDARY))
    S.same_upto(S.gmap(h), S.gmap(want), 'TikZ written by hand')
    if same:
        try:
            GraphS.from_tikz(picture(nodes, edges), ignore_nonzx=True)
        except Warning:
            S.witness('warned')
            return
        S.fail('no warning about overlapping nodes')


def h_w(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    wi, wo = g.add_vertex(VT.W_INPUT, 0, 1), g.add_vertex(VT.W_OUTPUT, 0, 2)
    g.add_edge((wi, wo) if S.flag('d') else (wo, wi), ET.W_IO)
    z = g.add_vertex(VT.Z, 0, 3, phase=Fraction(1, 4))
    g.add_edge((wo, z), S.choose('e', (ET.SIMPLE, ET.HADAMARD)))
    bs = [g.add_vertex(VT.BOUNDARY, i, 0 if i == 0 else 4) for i in range(3)]
    g.add_edge((bs[0], wi))
    g.add_edge((bs[1], wo))
    g.add_edge((bs[2], z))
    g.set_inputs((bs[0],))
    g.set_outputs((bs[1], bs[2]))
    h = CLS[S.choose('to', BACKENDS)].from_tikz(g.to_tikz())
    S.witness('ok')
    S.require(set_io(g, h), 'number of boundaries')
    compare(S, g, h, 'W node')
    S.same_upto(S.gmap(h), S.gmap(g), 'W node read back')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    A, BE = (None, ET.SIMPLE, ET.HADAMARD), (ET.SIMPLE, ET.HADAMARD)
    add('round1', h_round, 'TikZ round trip', '1 vertex of any kind, 2 boundaries, wires', n=1, nb=2, kinds=KINDS, edges=A, bedges=BE, den=2 if not T else 4, to=('simple',))
    add('round2', h_round, 'TikZ round trip', '2 vertices of any kind, 1 boundary', n=2, nb=1, kinds=KINDS, edges=A, bedges=BE, den=1)
    add('round3', h_round, 'TikZ round trip', '3 spiders, 2 boundaries', n=3, nb=1, kinds=(VT.Z,), edges=(None, ET.HADAMARD), bedges=BE, den=1, backends=('simple',))
    add('multi', h_round, 'TikZ round trip of multigraphs', '2 spiders, up to 2 parallel edges, 1 boundary', n=2, nb=1, kinds=(VT.Z, VT.X), edges=A, bedges=(ET.SIMPLE,), den=1, mult=2, backends=('multigraph',))
    add('loops', h_round, 'TikZ round trip of multigraphs', '1 spider with up to 2 self-loops, 1 boundary', n=1, nb=1, kinds=(VT.Z, VT.X), edges=A, bedges=BE, den=1, mult=2, loops=True, backends=('multigraph',))
    add('many', h_many, 'TikZ round trip', '13 boundaries on 2 spiders', wit=('ok',))
    add('labels', h_labels, 'labels of Z-boxes', '%d labels' % len(LABELS))
    add('phases', h_phases, 'phases and positions', '%d odd phases, 9 positions' % len(ODD))
    add('seq', h_seq, 'sequences of diagrams', '1-3 diagrams', scalar=False)
    add('seqs', h_seq, 'sequences of diagrams with their scalars', '1-3 diagrams', scalar=True)
    add('node', h_node, 'TikZ written by hand', '1 node, %d styles, %d labels' % (len(STYLES), len(PH)), wit=('ok', 'refused'))
    add('hand', h_hand, 'TikZ written by hand', '2 spiders, 2 edges in 9 styles', wit=('ok', 'refused', 'warned'))
    add('w', h_w, 'W nodes', '1 W node')
    if T:
        add('round2b', h_round, 'TikZ round trip', '2 vertices of any kind, 2 boundaries', n=2, nb=2, kinds=KINDS, edges=A, bedges=BE, den=1)
        add('round3b', h_round, 'TikZ round trip', '3 spiders, 2 boundaries', n=3, nb=2, kinds=(VT.Z, VT.X), edges=A, bedges=(ET.SIMPLE,), den=1)
    return H
