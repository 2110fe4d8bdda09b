"""P06: diagram storage - every way of building or editing a graph gives the diagram asked for."""
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx.utils import set_z_box_label

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the graph backends under symbolic operation sequences (which vertices, edge types, vertex types, labels '
               'and operations are solver variables): after every sequence the stored diagram, read back through the public accessors, must '
               'denote the diagram with all requested edges (parallel edges and self-loops included, scalar included) and all accessors must '
               'agree with each other and with a reference model.')
ASSUMPTIONS = ['phases are multiples of pi/4', 'sizes and numbers of operations as stated per harness']
BUDGET = {'quick': 80, 'thorough': 1200}

LABELS = (1, -1, 2, 1j, 0)


def consistent(S, g, multi):
    """the accessors agree with each other"""
    vs = list(g.vertices())
    es = list(g.edges())
    S.require(g.num_vertices() == len(vs), 'num_vertices')
    S.require(g.num_edges() == len(es), 'num_edges disagrees with edges()')
    if vs:
        S.require(g.vindex() == max(vs) + 1, 'vindex is not max+1')
    S.require(set(g.vertex_set()) == set(vs), 'vertex_set')
    st = [tuple(sorted(g.edge_st(e))) for e in es]
    ty = [g.edge_type(e) for e in es]
    if not multi:
        S.require(len(set(st)) == len(st), 'parallel edges in a simple graph')
    for v in vs:
        inc = [i for i, p in enumerate(st) if v in p]
        nb = sorted({(p[0] if p[1] == v else p[1]) for i, p in enumerate(st) if v in p})
        S.require(sorted(g.neighbors(v)) == nb, 'neighbors')
        loops = [p for p in st if p == (v, v)]
        if not loops:
            S.require(g.vertex_degree(v) == len(inc), 'vertex_degree')
            S.require(sorted(tuple(sorted(g.edge_st(e))) + (int(g.edge_type(e)),) for e in g.incident_edges(v)) ==
                      sorted(st[i] + (int(ty[i]),) for i in inc), 'incident_edges')
        for w in vs:
            S.require(g.connected(v, w) == ((min(v, w), max(v, w)) in st), 'connected')
            if g.connected(v, w) and v != w:
                k = [int(ty[i]) for i, p in enumerate(st) if p == (min(v, w), max(v, w))]
                S.require(sorted(int(g.edge_type(e)) for e in g.edges(v, w)) == sorted(k), 'edges(s,t)')
                if len(k) == 1:
                    S.require(int(g.edge_type(g.edge(v, w))) == k[0] and int(g.edge_type(g.edge(w, v))) == k[0], 'edge/edge_type')


def h_parallel(S, backend, n, k, types, loops=False, auto=True, batch=False, phases=True, both=True, late=False):
    """n spiders with one output each; k edges between symbolic pairs, parallel edges and loops allowed"""
    g = gen.new_graph(backend)
    if backend == 'multigraph':
        g.set_auto_simplify(auto and not late)
    vs = []
    d = sem.Diagram()
    outs = []
    for i in range(n):
        t = S.choose('ty%d' % i, types)
        v = g.add_vertex(t, i, 1)
        vs.append(v)
        lab = None
        if t == VT.Z_BOX:
            lab = S.choose('lab%d' % i, LABELS)
            set_z_box_label(g, v, lab)
            ph = 0
        else:
            ph = S.phase('p%d' % i) if phases else Fraction(i + 1, 4)
            g.set_phase(v, ph)
        d.verts[v] = (int(t), ph, lab)
    for i in range(n):
        b = g.add_vertex(VT.BOUNDARY, i, 2)
        g.add_edge((vs[i], b), ET.SIMPLE)
        outs.append(b)
        d.verts[b] = (0, 0, None)
        d.edges.append((vs[i], b, 1))
    g.set_outputs(tuple(outs))
    d.outputs = tuple(outs)
    d.scalar = dict(power2=0, phase=0, nodes=[], ff=1, zero=False, unknown=False)
    pairs = [(i, j) for i in range(n) for j in range(n) if (i != j or loops) and (i <= j or both)]
    add = []
    for m in range(k):
        if late and m == k - 1:
            g.set_auto_simplify(True)     # earlier edges are already there in parallel
        i, j = S.choose('e%d' % m, pairs)
        et = S.choose('et%d' % m, (ET.SIMPLE, ET.HADAMARD))
        if batch:
            add.append((i, j, et))
        else:
            g.add_edge((vs[i], vs[j]), et)
        d.edges.append((vs[i], vs[j], int(et)))
    if batch == 'table':
        tab = {}
        for i, j, et in add:
            key = (vs[i], vs[j])
            x = tab.setdefault(key, [0, 0])
            x[0 if et == ET.SIMPLE else 1] += 1
        g.add_edge_table(tab)
    elif batch == 'edges':
        for et in (ET.SIMPLE, ET.HADAMARD):
            g.add_edges([(vs[i], vs[j]) for i, j, e in add if e == et], et)
    S.sig('parallel:%s' % backend)
    if len({(min(a, b), max(a, b)) for a, b, _ in d.edges[n:]}) < k:
        S.witness('parallel')
    consistent(S, g, backend == 'multigraph')
    S.same(S.gmap(g), S.dmap(d), 'adding edges')
    if auto and not late and backend == 'multigraph':
        for e in g.edges():
            S.require(g.edge_st(e)[0] != g.edge_st(e)[1], 'self-loop left by auto_simplify')
    c = g.clone()
    S.same(S.gmap(c), S.dmap(d), 'clone')
    c2 = g.copy()
    S.same(S.gmap(c2), S.dmap(d), 'copy')
    if backend == 'multigraph':
        c3 = g.copy(backend='simple') if not loops or (auto and not late) else None
        if c3 is not None:
            S.same(S.gmap(c3), S.dmap(d), 'copy to the simple backend')


class Model:
    def __init__(self):
        self.v = {}      # v -> [type, phase, qubit, row, ground]
        self.e = {}      # (s,t) -> type
        self.ins = ()
        self.outs = ()


def compare(S, g, m, what):
    S.require(sorted(g.vertices()) == sorted(m.v), what + ': vertices')
    S.require(sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges()) == sorted((p, int(t)) for p, t in m.e.items()),
              what + ': edges')
    for v, (t, p, q, r, gr) in m.v.items():
        S.require(g.type(v) == t and g.types()[v] == t, what + ': type')
        S.require(g.phase(v) == p, what + ': phase')
        S.require(g.phases()[v] == p, what + ': phases')
        S.require(g.qubit(v) == q and g.row(v) == r, what + ': position')
        S.require(g.is_ground(v) == gr and (v in g.grounds()) == gr, what + ': ground')
    S.require(tuple(g.inputs()) == m.ins and tuple(g.outputs()) == m.outs, what + ': inputs/outputs')
    S.require(g.num_inputs() == len(m.ins) and g.num_outputs() == len(m.outs), what + ': num_inputs/num_outputs')
    S.require(g.depth() == max([x[3] for x in m.v.values()], default=-1), what + ': depth')
    consistent(S, g, False)


OPS = ('addv', 'adde', 'deledge', 'delv', 'settype', 'setet', 'phase', 'addphase', 'ground', 'clone', 'io', 'indexed')


def h_history(S, backend, k, ops, n0=3):
    g = gen.new_graph(backend)
    m = Model()
    for i in range(n0):
        t = (VT.Z, VT.X, VT.BOUNDARY)[i % 3]
        v = g.add_vertex(t, i, i)
        m.v[v] = [t, 0, i, i, False]
    g.add_edge((0, 1), ET.HADAMARD)
    m.e[(0, 1)] = ET.HADAMARD
    g.add_edge((1, 2))
    m.e[(1, 2)] = ET.SIMPLE
    g.set_outputs((2,))
    m.outs = (2,)
    old = None
    for j in range(k):
        nm = 'op%d' % j
        op = S.choose(nm, ops)
        S.sig('history:%s' % op)
        vs = sorted(m.v)
        if op == 'addv':
            t = S.choose(nm + '.t', (VT.Z, VT.BOUNDARY, VT.H_BOX))
            p = S.phase(nm + '.p')
            expl = S.flag(nm + '.e')
            v = g.add_vertex(t, 3, 1 + j, p) if expl else g.add_vertex(t, 3, 1 + j)
            S.require(v not in m.v, 'add_vertex reuses a vertex')
            m.v[v] = [t, p if expl else (1 if t == VT.H_BOX else 0), 3, 1 + j, False]
        elif op == 'indexed':
            v = S.choose(nm + '.v', range(6))
            S.assume(v not in m.v)
            g.add_vertex_indexed(v)
            m.v[v] = [VT.BOUNDARY, 0, -1, -1, False]
        elif op == 'adde':
            prs = [(a, b) for a in vs for b in vs if a != b and (min(a, b), max(a, b)) not in m.e]
            if not prs:
                continue
            a, b = S.choose(nm + '.v', prs)
            et = S.choose(nm + '.t', (ET.SIMPLE, ET.HADAMARD))
            g.add_edge((a, b), et)
            m.e[(min(a, b), max(a, b))] = et
        elif op == 'deledge':
            if not m.e:
                continue
            p = S.choose(nm + '.e', sorted(m.e))
            g.remove_edge([e for e in g.edges() if tuple(sorted(g.edge_st(e))) == p][0])
            del m.e[p]
        elif op == 'delv':
            if not vs:
                continue
            v = S.choose(nm + '.v', vs)
            (g.remove_vertex(v) if S.flag(nm + '.one') else g.remove_vertices([v]))
            del m.v[v]
            m.e = {p: t for p, t in m.e.items() if v not in p}
            m.ins = tuple(x for x in m.ins if x != v)
            m.outs = tuple(x for x in m.outs if x != v)
        elif op == 'settype':
            v = S.choose(nm + '.v', vs)
            t = S.choose(nm + '.t', (VT.X, VT.H_BOX))
            g.set_type(v, t)
            m.v[v][0] = t
        elif op == 'setet':
            if not m.e:
                continue
            p = S.choose(nm + '.e', sorted(m.e))
            t = S.choose(nm + '.t', (ET.SIMPLE, ET.HADAMARD))
            g.set_edge_type([e for e in g.edges() if tuple(sorted(g.edge_st(e))) == p][0], t)
            m.e[p] = t
        elif op == 'phase':
            v = S.choose(nm + '.v', vs)
            p = S.phase(nm + '.p')
            g.set_phase(v, p - 2 if S.flag(nm + '.n') else p)
            m.v[v][1] = p
        elif op == 'addphase':
            v = S.choose(nm + '.v', vs)
            p = S.phase(nm + '.p')
            g.add_to_phase(v, p)
            m.v[v][1] = (m.v[v][1] + p) % 2
        elif op == 'ground':
            v = S.choose(nm + '.v', vs)
            f = S.flag(nm + '.f')
            g.set_ground(v, f)
            m.v[v][4] = f
        elif op == 'io':
            v = S.choose(nm + '.v', vs)
            g.set_inputs((v,))
            m.ins = (v,)
        elif op == 'clone':
            import copy
            h = g.clone()
            keep = copy.deepcopy(m)
            old = (g, keep)
            g = h
            # the clone keeps the names
            compare(S, g, m, 'clone')
            S.witness('clone')
    compare(S, g, m, 'history')
    if old is not None:
        compare(S, old[0], old[1], 'editing a clone changed the original')


def h_types(S, backend):
    """copy in every direction between backends, adjoint included, with Z-boxes, H-boxes, W nodes and vertex data"""
    g = gen.new_graph(backend)
    z = g.add_vertex(VT.Z, 0, 1, S.phase('p'))
    zb = g.add_vertex(VT.Z_BOX, 1, 1)
    set_z_box_label(g, zb, S.choose('lab', LABELS))
    h = g.add_vertex(VT.H_BOX, 0, 2, S.phase('h'))
    wi, wo = g.add_vertex(VT.W_INPUT, 2, 1), g.add_vertex(VT.W_OUTPUT, 2, 2)
    g.add_edge((wi, wo), ET.W_IO)
    et = lambda n: S.choose(n, (ET.SIMPLE, ET.HADAMARD))
    g.add_edge((z, h), et('a'))
    g.add_edge((zb, h), et('b'))
    g.add_edge((zb, wi), et('c'))
    outs = []
    for i, v in enumerate((z, h, wo, wo)):
        b = g.add_vertex(VT.BOUNDARY, i, 4 if i else 0)
        g.add_edge((v, b), et('d') if i == 2 else ET.SIMPLE)
        outs.append(b)
    g.set_inputs((outs[0],))
    g.set_outputs(tuple(outs[1:]))
    g.scalar.add_phase(S.phase('sc'))
    g.scalar.add_node(S.phase('sn'))
    g.set_vdata(z, 'note', 'x')
    a = S.gmap(g)
    other = S.choose('to', ('simple', 'multigraph'))
    adj = S.flag('adj')
    c = g.copy(adjoint=adj, backend=other)
    S.require(c.backend == other, 'backend of a copy')
    S.witness('adj' if adj else 'copy')
    if adj:
        S.require(len(c.inputs()) == 3 and len(c.outputs()) == 1, 'adjoint arity')
        S.same(S.gmap(c), dagger(S, a, 1, 3), 'adjoint copy')
    else:
        S.same(S.gmap(c), a, 'copy to another backend')
    S.require([c.vdata(v, 'note', None) for v in c.vertices() if c.vdata(v, 'note', None)] == ['x'], 'vertex data lost')
    S.require(sorted(c.vertices()) == list(range(g.num_vertices())), 'copy is not renumbered consecutively')
    S.same(S.gmap(g), a, 'copying changed the original')


def dagger(S, a, nin, nout):
    """conjugate transpose of a map (outputs, inputs) -> (inputs, outputs)"""
    import numpy as np
    from symx import amp as A
    if isinstance(a, A.Amp):
        idx = np.arange(a.n).reshape(2 ** nout, 2 ** nin).T.reshape(-1)
        return A.Amp(a.atoms, (-a.keys) % A.M, _conjc(a.coef)[idx], a.p2)
    return np.conj(np.asarray(a).reshape(2 ** nout, 2 ** nin).T).reshape(-1)


def _conjc(c):
    import numpy as np
    from symx import amp as A
    out = np.zeros_like(c)
    out[..., 0] = c[..., 0]
    for j in range(1, A.RES):
        out[..., A.RES - j] = -c[..., j]
    return out


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    ZX = (VT.Z, VT.X)
    ZXB = (VT.Z, VT.X, VT.Z_BOX)
    add('simple2', h_parallel, 'adding parallel edges (simple backend)', '2 spiders/Z-boxes, 3 edges', wit=('parallel',), backend='simple', n=2, k=3 if not T else 4, types=ZXB)
    add('simple3', h_parallel, 'adding parallel edges (simple backend)', '3 spiders, 3 edges', wit=('parallel',), backend='simple', n=3, k=3, types=ZX, phases=T, both=T)
    add('simple_table', h_parallel, 'add_edge_table', '2 spiders/Z-boxes, 3 edges', wit=('parallel',), backend='simple', n=2, k=3, types=ZXB, batch='table')
    add('multi2', h_parallel, 'adding parallel edges and self-loops (multigraph, auto-simplify)', '2 spiders/Z-boxes, 3 edges', wit=('parallel',), backend='multigraph', n=2, k=3, types=ZXB, loops=True, both=T)
    add('multi2_raw', h_parallel, 'adding parallel edges and self-loops (multigraph, stored)', '2 spiders, 3 edges', wit=('parallel',), backend='multigraph', n=2, k=3, types=ZX, loops=True, auto=False)
    add('multi2_late', h_parallel, 'turning auto-simplify on when parallel edges and self-loops are already stored', '2 spiders/Z-boxes, 3 edges', wit=('parallel',), backend='multigraph', n=2, k=3, types=ZXB, loops=True, both=T, late=True)
    add('multi2_batch', h_parallel, 'add_edges (multigraph)', '2 spiders, 3 edges', wit=('parallel',), backend='multigraph', n=2, k=3, types=ZX, batch='edges')
    for b in ('simple', 'multigraph'):
        add('hist_%s' % b, h_history, 'operation sequences (%s)' % b, '3 vertices, 2 operations of 12 kinds', wit=('clone',), backend=b, k=2, ops=OPS)
        add('hist_clone_%s' % b, h_history, 'clone then edit (%s)' % b, '3 vertices, 3 operations', wit=('clone',), backend=b, k=3 if not T else 4, ops=('clone', 'adde', 'deledge', 'delv', 'setet', 'addphase'))
        add('copy_%s' % b, h_types, 'copies and adjoints across backends (%s)' % b, 'one vertex of each kind', wit=('adj', 'copy'), backend=b)
        if T:
            add('hist3_%s' % b, h_history, 'operation sequences (%s)' % b, '3 vertices, 3 operations of 12 kinds', wit=('clone',), backend=b, k=3, ops=OPS)
    return H
