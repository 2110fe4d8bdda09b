"""P13: diagrams survive being written as JSON and read back."""
import json
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx.symbolic import new_var
from pyzx.utils import set_z_box_label, get_z_box_label

LEVEL = 'other'
EXPLANATION = ('The real JSON writer and reader run on diagrams with symbolic vertex kinds, edges, phases, labels, names, positions and boundaries, in every pair of '
               'storage backends; the diagram that is read must have the same vertices, edges and data, and denote the same map with its scalar for every phase.')
ASSUMPTIONS = ['phases are multiples of pi/4, or one of the listed odd values; they are printed, so each value is a separate path', 'positions are multiples of 1/1000']
BUDGET = {'quick': 60, 'thorough': 900}
KINDS = (VT.Z, VT.X, VT.H_BOX, VT.Z_BOX)
BACKENDS = ('simple', 'multigraph')
LABELS = (None, 1, 2, -1, 0, 1j, -1j, 2 - 1j, 0.5, Fraction(1, 2), Fraction(3), Fraction(-3, 4), -0.25, 1e-7, 1 / 3, complex(2), Fraction(1, 1000), complex(-1.5, 1e-9))
ODD = (Fraction(1, 3), Fraction(-2, 3), Fraction(7, 5), Fraction(1, 1000), Fraction(1, 10 ** 6), Fraction(3, 257), Fraction(1, 256), Fraction(123456789, 10 ** 9))


def ident(g):
    """vertices by position (positions are distinct)"""
    d = {}
    for v in g.vertices():
        k = (g.type(v) == VT.BOUNDARY, float(g.qubit(v)), float(g.row(v)))
        if k in d:
            return None
        d[k] = v
    return d


def edgecount(g, pos):
    d = {}
    for e in g.edges():
        a, b = g.edge_st(e)
        k = tuple(sorted((pos[a], pos[b]))) + (int(g.edge_type(e)),)
        d[k] = d.get(k, 0) + 1
    return d


def compare(S, g, h, what, data=(), phases=True):
    """h is the diagram g, vertex by vertex"""
    a, b = ident(g), ident(h)
    S.require(a is not None and b is not None, what + ': positions coincide')
    S.require(sorted(a) == sorted(b), what + ': the vertices are not the same')
    pa, pb = {v: k for k, v in a.items()}, {v: k for k, v in b.items()}
    for k in a:
        v, w = a[k], b[k]
        S.require(g.type(v) == h.type(w), what + ': vertex type')
        S.require(g.is_ground(v) == h.is_ground(w), what + ': ground')
        if phases and g.type(v) not in (VT.BOUNDARY, VT.Z_BOX):
            S.require((g.phase(v) - h.phase(w)) % 2 == 0, what + ': phase')
        if g.type(v) == VT.Z_BOX:
            x, y = get_z_box_label(g, v), get_z_box_label(h, w)
            S.require(abs(complex(x) - complex(y)) < 1e-12, what + ': label %r becomes %r' % (x, y))
        for d in data:
            S.require(g.vdata(v, d) == h.vdata(w, d), what + ': vertex data')
    S.require(edgecount(g, pa) == edgecount(h, pb), what + ': edges')
    S.require([pa[v] for v in g.inputs()] == [pb[v] for v in h.inputs()], what + ': inputs')
    S.require([pa[v] for v in g.outputs()] == [pb[v] for v in h.outputs()], what + ': outputs')


def base(S, n, nb, kinds, edges, bedges, den=4, backend=None, mult=1, loops=False, simplify=None, wires=True, lean=False):
    g = gen.new_graph(backend)
    if simplify is not None and backend == 'multigraph':
        g.set_auto_simplify(simplify)
    first = False if lean else S.flag('bfirst')
    bs = []

    def bounds():
        for k in range(nb):
            bs.append(g.add_vertex(VT.BOUNDARY, k, 5))
    if first:
        bounds()
    vs = []
    for i in range(n):
        t = S.choose('k%d' % i, kinds)
        v = g.add_vertex(t, i, 1)
        vs.append(v)
        if t == VT.Z_BOX:
            set_z_box_label(g, v, S.choose('lab%d' % i, (1, 2, -1j)))
        else:
            g.set_phase(v, S.choose('p%d' % i, [Fraction(k, den) for k in range(2 * den)]))
    for i in range(n):
        for j in range(i + (1 if loops else 0)):
            for m in range(mult):
                e = S.choose('e%d_%d_%d' % (j, i, m), edges)
                if e is not None:
                    g.add_edge((vs[j], vs[i]), e)
    if not first:
        bounds()
    left = list(range(nb))
    while left:
        k = left.pop(0)
        t = S.choose('b%d' % k, [('v', v) for v in range(n)] + ([('b', x) for x in left] if wires else []))
        et = S.choose('be%d' % k, bedges)
        if t[0] == 'b':
            left.remove(t[1])
        g.add_edge((bs[k], vs[t[1]] if t[0] == 'v' else bs[t[1]]), et)
    nin = S.choose('nin', range(nb + 1))
    rev = S.flag('rev') if nb > 1 and not lean else lean
    o = bs[::-1] if rev else bs
    g.set_inputs(tuple(o[:nin]))
    g.set_outputs(tuple(o[nin:]))
    return g, vs, bs


def read(S, g, to=BACKENDS, **kw):
    to = S.choose('to', to)
    s = g.to_json(**kw)
    cls = zx.graph.graph.GraphS if to == 'simple' else zx.graph.graph.Multigraph
    return cls.from_json(s), s


def h_round(S, n, nb, kinds, edges, bedges, den=4, mult=1, loops=False, backends=BACKENDS, to=BACKENDS, lean=False):
    frm = S.choose('from', backends)
    g, vs, bs = base(S, n, nb, kinds, edges, bedges, den, frm, mult, loops, False if mult > 1 or loops else None, lean=lean)
    g.scalar.add_power(-3)
    g.scalar.add_phase(Fraction(3, 4) if lean else S.phase('sp', 2))
    before = S.gmap(g)
    h, s = read(S, g, to)
    S.witness('ok')
    S.same(S.gmap(g), before, 'to_json changed the diagram')
    S.same(S.gmap(h), before, 'diagram read back')
    if mult == 1 and not loops:
        compare(S, g, h, 'read back')
        h2, _ = type(h).from_json(h.to_json()), None
        compare(S, g, h2, 'read back twice')
        S.same(S.gmap(h2), before, 'diagram read back twice')
    elif type(h) is type(g) and not g._auto_simplify and hasattr(h, '_auto_simplify') and not h._auto_simplify:
        compare(S, g, h, 'read back')


def many(S, backend, n=13, nv=2):
    """13 boundaries on a few spiders, inputs and outputs in a symbolic order"""
    g = gen.new_graph(backend)
    first = S.flag('bfirst')
    if first:
        bs = [g.add_vertex(VT.BOUNDARY, k, 0 if k < 11 else 5) for k in range(n)]
    vs = [g.add_vertex(S.choose('k%d' % i, (VT.Z, VT.X)), i, 1) for i in range(nv)]
    if not first:
        bs = [g.add_vertex(VT.BOUNDARY, k, 0 if k < 11 else 5) for k in range(n)]
    for k, b in enumerate(bs):
        g.add_edge((b, vs[k % nv]), S.choose('e%d' % k, (ET.SIMPLE, ET.HADAMARD)) if k in (2, 10) else ET.SIMPLE)
    g.add_edge((vs[0], vs[1]), S.choose('e', (ET.SIMPLE, ET.HADAMARD)))
    o = list(bs)
    i, j = S.choose('swap', tuple(itertools.combinations((0, 1, 2, 9, 10, 11), 2)) + ((0, 0),))
    o[i], o[j] = o[j], o[i]
    nin = S.choose('nin', (0, 11, 12))
    g.set_inputs(tuple(o[:nin]))
    g.set_outputs(tuple(o[nin:]))
    return g


def h_many(S):
    g = many(S, S.choose('from', BACKENDS))
    h, s = read(S, g, BACKENDS)
    compare(S, g, h, 'many boundaries')
    S.witness('ok')


def h_noscalar(S):
    g, vs, bs = base(S, 2, 1, (VT.Z, VT.X), (None, ET.SIMPLE, ET.HADAMARD), (ET.SIMPLE,), 2, S.choose('from', BACKENDS), lean=True)
    g.scalar.add_power(S.choose('pw', (-3, 1)))
    g.scalar.add_phase(Fraction(1, 4))
    h, s = read(S, g, include_scalar=False)
    compare(S, g, h, 'without the scalar')
    S.require('scalar' not in json.loads(s), 'the scalar was written')
    S.witness('ok')
    S.same(S.gmap(h, scalar=False), S.gmap(g, scalar=False), 'map without the scalar')
    S.require(h.scalar.power2 == 0 and h.scalar.phase == 0 and not h.scalar.phasenodes, 'scalar of the diagram read')


def h_names(S, names):
    """vertices carry names that may coincide with the names given to others"""
    frm = S.choose('from', BACKENDS)
    g = gen.new_graph(frm)
    vs = [g.add_vertex(S.choose('k%d' % i, (VT.Z, VT.BOUNDARY)), i, 1) for i in range(3)]
    for i, v in enumerate(vs):
        nm = S.choose('name%d' % i, names)
        if nm is not None:
            g.set_vdata(v, 'name', nm)
        if g.type(v) != VT.BOUNDARY:
            g.set_phase(v, Fraction(i + 1, 4))
    nms = [g.vdata(v, 'name') for v in vs if g.vdata(v, 'name')]
    S.assume(len(set(nms)) == len(nms))
    for a, b in ((0, 1), (1, 2)):
        if g.type(vs[a]) != VT.BOUNDARY or g.type(vs[b]) != VT.BOUNDARY:
            g.add_edge((vs[a], vs[b]), S.choose('e%d' % a, (ET.SIMPLE, ET.HADAMARD)))
    h, s = read(S, g)
    S.witness('ok')
    compare(S, g, h, 'names')
    a, b = ident(g), ident(h)
    for k in a:
        nm = g.vdata(a[k], 'name')
        S.require(not nm or h.vdata(b[k], 'name') == nm, 'the name %r becomes %r' % (nm, h.vdata(b[k], 'name')))


def h_labels(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    v = g.add_vertex(VT.Z_BOX, 0, 1)
    lab = S.choose('lab', LABELS)
    if lab is not None:
        set_z_box_label(g, v, lab)
    b = g.add_vertex(VT.BOUNDARY, 1, 1)
    g.add_edge((v, b), S.choose('e', (ET.SIMPLE, ET.HADAMARD)))
    g.set_outputs((b,))
    h, s = read(S, g)
    S.witness('ok')
    compare(S, g, h, 'labels')


def h_phases(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    p = S.choose('p', ODD)
    v = g.add_vertex(S.choose('k', (VT.Z, VT.X, VT.H_BOX)), 0, 1, phase=p)
    h, s = read(S, g)
    S.witness('ok')
    compare(S, g, h, 'phase %s' % p)


def polys():
    x, y, b = new_var('x', False), new_var('alpha', False), new_var('b', True)
    j, e = new_var('j', False), new_var('e', False)
    F = Fraction
    return [x, b, j, e, x + y, x + F(1, 2), F(1, 3) * x, F(-1, 3) * x + y, -x, x * b, b + F(1, 4), b - F(1, 4), 2 * x, 3 * x + 2 * y + 1, x * x, x * x * y,
            F(1, 1000) * x + F(1, 3), x - y, F(3, 2) * b, x + b + j, F(5, 4) * x * y - F(1, 2) * b, 0 * x]


def h_poly(S):
    """symbolic phases"""
    g = zx.Graph()
    ps = polys()
    p = S.choose('p', range(len(ps)))
    p = ps[p]
    v = g.add_vertex(S.choose('k', (VT.Z, VT.X, VT.H_BOX)), 0, 1, phase=p)
    g.variable_types.update({'x': False, 'alpha': False, 'b': True, 'j': False, 'e': False})
    h = zx.graph.graph.GraphS.from_json(g.to_json())
    w = list(h.vertices())[0]
    S.witness('ok')
    S.require(h.variable_types == g.variable_types, 'kinds of the variables')
    want, got = value(g.phase(v), g.variable_types), value(h.phase(w), h.variable_types)
    S.require(want == got, 'phase %s becomes %s' % (g.phase(v), h.phase(w)))


def value(p, kinds):
    """normal form modulo 2 as a function of the variables"""
    from pyzx.symbolic import Poly
    if not isinstance(p, Poly):
        p = Poly([(p, zx.symbolic.Term([]))]) if p else Poly([])
    d = {}
    for c, t in p.terms:
        vs = {}
        for v, e in t.vars:
            vs[v.name] = vs.get(v.name, 0) + e
        k = tuple(sorted((nm, 1 if kinds[nm] else e) for nm, e in vs.items()))
        d[k] = d.get(k, 0) + Fraction(c)
    for k in list(d):
        if all(kinds[nm] for nm, e in k):
            d[k] %= 2
        if d[k] == 0:
            del d[k]
    return d


def h_data(S):
    """grounds, positions, extra vertex data"""
    g = gen.new_graph(S.choose('from', BACKENDS))
    P = ((0, 0), (-2, 1), (0.5, -1.25), (3.141, 1), (7, -0.001))
    q, r = S.choose('pos', P)
    t = S.choose('k', (VT.Z, VT.X, VT.BOUNDARY))
    v = g.add_vertex(t, q, r)
    w = g.add_vertex(VT.Z, 10, 10)
    g.add_edge((v, w), S.choose('e', (ET.SIMPLE, ET.HADAMARD)))
    if t != VT.BOUNDARY and S.flag('ground'):
        g.set_ground(v)
    key = S.choose('key', ('note', 'x', 'colour'))
    val = S.choose('val', ('text', '1', 'j', 'nan', '1e3', 5, 2.5, True, None, [1, 2], {'a': 1}, '', 0))
    g.set_vdata(v, key, val)
    h, s = read(S, g)
    S.witness('ok')
    compare(S, g, h, 'data', data=(key,))


def h_w(S):
    g = gen.new_graph(S.choose('from', BACKENDS))
    wi, wo = g.add_vertex(VT.W_INPUT, 0, 1), g.add_vertex(VT.W_OUTPUT, 0, 2)
    g.add_edge((wi, wo) if S.flag('d') else (wo, wi), ET.W_IO)
    bs = [g.add_vertex(VT.BOUNDARY, i, 0 if i == 0 else 3) for i in range(3)]
    g.add_edge((bs[0], wi), S.choose('b0', (ET.SIMPLE, ET.HADAMARD)))
    for i in (1, 2):
        g.add_edge((bs[i], wo), S.choose('b%d' % i, (ET.SIMPLE, ET.HADAMARD)))
    g.set_inputs((bs[0],))
    g.set_outputs((bs[1], bs[2]))
    h, s = read(S, g)
    S.witness('ok')
    compare(S, g, h, 'W node')
    S.same(S.gmap(h), S.gmap(g), 'W node read back')


def h_quanto(S):
    """files written by hand: edges between Hadamard nodes, several parallel wires, missing data"""
    n = 2
    kinds = [S.choose('k%d' % i, ('Z', 'X', 'H', 'plain')) for i in range(n)]
    vals = [S.choose('val%d' % i, (('', 0), ('\\pi', 1), ('-\\pi/2', Fraction(-1, 2)), ('3\\pi/4', Fraction(3, 4)), ('\u03c0/4', Fraction(1, 4)), ('2/3', Fraction(2, 3)), ('0.5', Fraction(1, 2)), ('1', 1),
                                   (' pi / 4', Fraction(1, 4)), ('-1/4', Fraction(-1, 4))) if i == 0 else (('\\pi/4', Fraction(1, 4)), ('-\u03c0', 1))) for i in range(n)]
    nodes, wires, edges = {}, {}, {}
    NN = ('v5', 'v4')
    g = zx.Graph()
    vs = []
    for i in range(n):
        d = {'annotation': {'coord': [i, -1]}}
        if kinds[i] != 'plain':
            d['data'] = {'type': {'Z': 'Z', 'X': 'X', 'H': 'hadamard'}[kinds[i]], 'value': vals[i][0]}
            if kinds[i] == 'H':
                d['data']['is_edge'] = 'false'
        nodes[NN[i]] = d
        vs.append(g.add_vertex({'Z': VT.Z, 'X': VT.X, 'H': VT.H_BOX, 'plain': VT.Z}[kinds[i]], 1, i, phase=vals[i][1] if kinds[i] != 'plain' else 0))
    outs = []
    for i in range(2):
        wires['w%d' % i] = {'annotation': {'boundary': True, 'coord': [5, -i], 'output': 1 - i}}
        b = g.add_vertex(VT.BOUNDARY, i, 5)
        outs.append(b)
        edges['o%d' % i] = {'src': 'w%d' % i, 'tgt': NN[i]}
        g.add_edge((b, vs[i]))
    g.set_outputs((outs[1], outs[0]))
    # a chain of Hadamard nodes between n0 and n1, and parallel plain edges
    nh = S.choose('nh', (0, 1, 2, 3))
    pre = S.choose('pre', ('h', 'v'))
    if nh:
        for i in range(nh):
            nodes[pre + '%d' % i] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
        ch = ['v5'] + [pre + '%d' % i for i in range(nh)] + ['v4']
        d = S.flag('dir')
        for i in range(nh + 1):
            edges['c%d' % i] = {'src': ch[i], 'tgt': ch[i + 1]} if d == (i == 1) else {'src': ch[i + 1], 'tgt': ch[i]}
        cur = vs[0]
        for i in range(nh):
            nxt = vs[1] if i == nh - 1 else g.add_vertex(VT.Z, 9, i)
            g.add_edge((cur, nxt), ET.HADAMARD)
            cur = nxt
    np_ = S.choose('np', (0, 1, 2) if 'H' not in kinds else (0,) if nh == 1 else (0, 1))
    for i in range(np_):
        edges['p%d' % i] = {'src': 'v4', 'tgt': 'v5'}
        g.add_edge((vs[0], vs[1]), ET.SIMPLE)
    js = json.dumps({'node_vertices': nodes, 'wire_vertices': wires, 'undir_edges': edges})
    cls = S.choose('to', (zx.graph.graph.GraphS, zx.graph.graph.Multigraph))
    h = cls.from_json(js)
    S.witness('ok')
    S.same(S.gmap(h), S.gmap(g), 'Quantomatic file')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    A, BE = (None, ET.SIMPLE, ET.HADAMARD), (ET.SIMPLE, ET.HADAMARD)
    add('round1', h_round, 'JSON round trip', '1 vertex of any kind, 2 boundaries, wires', n=1, nb=2, kinds=KINDS, edges=A, bedges=BE, den=1)
    add('round2', h_round, 'JSON round trip', '2 vertices of any kind, 1 boundary', n=2, nb=1, kinds=KINDS, edges=A, bedges=BE, den=1, lean=not T)
    add('round3', h_round, 'JSON round trip', '3 spiders, 2 boundaries, one backend', n=3, nb=2, kinds=(VT.Z,), edges=(None, ET.HADAMARD), bedges=(ET.SIMPLE,), den=1, backends=('simple',), to=('multigraph',), lean=not T)
    add('multi', h_round, 'JSON round trip of multigraphs', '2 spiders, up to 2 parallel edges and 2 loops each, 1 boundary', n=2, nb=1, kinds=(VT.Z, VT.X), edges=A, bedges=(ET.SIMPLE,), den=1, mult=2, loops=False, backends=('multigraph',))
    add('loops', h_round, 'JSON round trip of multigraphs', '1 spider with up to 2 self-loops, 1 boundary', n=1, nb=1, kinds=(VT.Z, VT.X), edges=A, bedges=BE, den=1, mult=2, loops=True, backends=('multigraph',))
    add('many', h_many, 'JSON round trip', '13 boundaries on 2 spiders, inputs and outputs in any order', wit=('ok',))
    add('noscalar', h_noscalar, 'JSON without the scalar', '2 spiders')
    add('names', h_names, 'names of vertices', '3 vertices, 4 names', names=(None, 'v0', 'b0', '1', 'v3') if T else (None, 'v0', 'b0', '1'))
    add('labels', h_labels, 'labels of Z-boxes', '%d labels' % len(LABELS))
    add('phases', h_phases, 'phases', '%d odd phases' % len(ODD))
    add('poly', h_poly, 'symbolic phases', '%d polynomials' % 22)
    add('data', h_data, 'positions, grounds and vertex data', '5 positions, 13 values')
    add('w', h_w, 'W nodes', '1 W node')
    add('quanto', h_quanto, 'Quantomatic files', '2 nodes, chains of up to 3 Hadamard nodes, up to 2 parallel edges')
    if T:
        add('round2b', h_round, 'JSON round trip', '2 vertices of any kind, 2 boundaries', n=2, nb=2, kinds=KINDS, edges=A, bedges=BE, den=1)
        add('round3b', h_round, 'JSON round trip', '3 spiders, 2 boundaries', n=3, nb=2, kinds=(VT.Z, VT.X), edges=A, bedges=(ET.SIMPLE,), den=1)
    return H
