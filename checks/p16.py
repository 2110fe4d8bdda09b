"""P16: CNOT circuits routed for a device."""
import itertools
import contextlib
import numpy as np
from symx.run import Harness
import pyzx as zx
from pyzx.linalg import Mat2
from pyzx.routing import architecture as A
from pyzx.routing import cnot_mapper as C
from pyzx.routing.architecture import Architecture, create_architecture
from pyzx.routing.cnot_mapper import ElimMode, CostMetric, FitnessFunction, gauss, permuted_gauss, sequential_gauss
from pyzx.routing.parity_maps import CNOT_tracker, Parity
from pyzx.routing.steiner import steiner_gauss, rec_steiner_gauss
from .p15 import mat, mul, eye, eq, cp, conc, rank_of

LEVEL = 'other'
EXPLANATION = ('The real elimination and routing code runs on matrices whose entries, couplings, subsets and permutations are solver variables; every branch on one is decided '
               'by the solver. The recorded CNOTs are compared with the matrix over GF(2) and with the couplings of the device, the graph algorithms with their definitions.')
ASSUMPTIONS = ['the optional compiled linalg_c module is not installed',
               'the random search of the genetic and particle swarm optimisers is replaced by an arbitrary permutation (a solver variable)']
BUDGET = {'quick': 100, 'thorough': 900}


def connected(n, es, vs=None):
    vs = set(range(n)) if vs is None else set(vs)
    if not vs:
        return True
    s = {min(vs)}
    grow = True
    while grow:
        grow = False
        for a, b in es:
            if a in vs and b in vs and (a in s) != (b in s):
                s |= {a, b}
                grow = True
    return s == vs


def dist(vs, arcs):
    """shortest path lengths by relaxation"""
    d = {(a, b): 0 if a == b else None for a in vs for b in vs}
    for _ in vs:
        for a, b in arcs:
            for s in vs:
                x = d[s, a]
                if x is not None and (d[s, b] is None or d[s, b] > x + 1):
                    d[s, b] = x + 1
    return d


def coupling(S, n, conn=True, edges=None):
    if edges is None:
        es = [(a, b) for a, b in itertools.combinations(range(n), 2) if S.flag('e%d%d' % (a, b))]
    else:
        es = S.choose('device', edges)
    S.assume(not conn or connected(n, es))
    return es


def build(n, es, how=0, **kw):
    if how:
        g = zx.Graph(backend='simple')
        g.add_vertices(n)
        g.add_edges(es)
        return Architecture('test', coupling_graph=g, **kw)
    m = np.zeros((n, n), dtype=int)
    for a, b in es:
        m[a, b] = m[b, a] = 1
    return Architecture('test', coupling_matrix=m, **kw)


def qedges(arch, es):
    q = {v: i for i, v in enumerate(arch.qubit_map)}
    return {frozenset((q[a], q[b])) for a, b in es}


def invertible(S, n, cls):
    """a symbolic invertible matrix"""
    if cls == 'all':
        d = mat(S, n, n)
        S.assume(rank_of(conc(d)) == n)
        return conc(d)
    if cls == 'perm':
        p = S.permutation('perm', range(n))
        return [[int(p[i] == j) for j in range(n)] for i in range(n)]
    if cls in 'LU':
        return [[1 if i == j else S.bit('m%d_%d' % (i, j)) if (i > j) == (cls == 'L') else 0 for j in range(n)] for i in range(n)]
    d = eye(n)
    for k in range(int(cls)):
        a, b = S.choose('op%d' % k, list(itertools.permutations(range(n), 2)))
        d[b] = [x ^ y for x, y in zip(d[a], d[b])]
    return d


def cnot_matrix(gates, n):
    a = eye(n)
    for g in gates:
        assert type(g) is zx.circuit.gates.CNOT, g
        a[g.target] = [x ^ y for x, y in zip(a[g.target], a[g.control])]
    return a


def tracker(S, t, n, want, msg):
    eq(S, cnot_matrix(t.gates, n), want, msg)
    eq(S, t.matrix.data, want, msg + ' (tracked matrix)')


def check(S, n, d, e, x, y, full, edges, rank=None):
    """e is what d became, x and y recorded the row operations"""
    e = conc(e)
    if full:
        S.require(e == eye(n), 'the matrix is not reduced to the identity')
    else:
        S.require(all(e[i][j] == (i == j) for i in range(n) for j in range(i + 1)), 'the matrix is not reduced to upper triangular form')
    if rank is not None:
        S.require(rank == n, 'rank')
    if x is not None:
        eq(S, mul(cnot_matrix(x.gates, n), d), e, 'row operations')
        eq(S, x.matrix.data, cnot_matrix(x.gates, n), 'tracked row operations')
    if y is not None:
        eq(S, mul(cnot_matrix(y.gates, n), e), d, 'CNOT circuit of the matrix')
        eq(S, y.matrix.data, cnot_matrix(y.gates, n), 'tracked circuit')
    if edges is not None:
        for t in (x, y):
            S.require(t is None or all(frozenset((g.control, g.target)) in edges for g in t.gates), 'CNOT between qubits that are not coupled')


def h_steiner(S, n, cls, edges=None, how=(0,), only=None):
    es = coupling(S, n, edges=edges)
    d = invertible(S, n, S.choose('class', cls))
    full = S.flag('full')
    arch = build(n, es, S.choose('how', how))
    E = qedges(arch, es)
    ham = all(frozenset((i, i + 1)) in E for i in range(n - 1)) and arch.qubit_map == list(range(n))
    alg = S.choose('alg', only or ('rec', 'steiner', 'mode'))
    m = Mat2(cp(d))
    x, y = CNOT_tracker(n), CNOT_tracker(n)
    rank = None
    if alg == 'rec':
        rec_steiner_gauss(m, arch, full_reduce=full, x=x, y=y)
    elif alg == 'steiner':
        S.assume(ham)
        rank = steiner_gauss(m, arch, full_reduce=full, x=x, y=y)
    else:
        rank = gauss(ElimMode.STEINER_MODE, m, architecture=arch, full_reduce=full, x=x, y=y)
    check(S, n, d, m.data, x, y, full, E, rank)
    S.witness(alg)


def h_rank(S, shapes):
    """steiner_gauss and gauss on singular and rectangular matrices"""
    r, c = S.choose('shape', shapes)
    es = coupling(S, r, edges=[[(i, i + 1) for i in range(r - 1)], list(itertools.combinations(range(r), 2))])
    d = mat(S, r, c)
    m = Mat2(cp(d))
    x, y = CNOT_tracker(r), CNOT_tracker(r)
    full = S.flag('full')
    mode = S.choose('mode', ('steiner', ElimMode.GAUSS_MODE, None))
    if mode == 'steiner':
        rank = steiner_gauss(m, build(r, es), full_reduce=full, x=x, y=y)
    else:
        rank = gauss(mode, m, full_reduce=full, x=x, y=y)
    e = conc(m.data)
    dd = conc(d)
    S.require(rank == rank_of(dd), 'rank')
    eq(S, mul(cnot_matrix(x.gates, r), dd), e, 'row operations')
    eq(S, mul(cnot_matrix(y.gates, r), e), dd, 'CNOT circuit')
    lead = [next((j for j in range(c) if row[j]), None) for row in e]
    S.require(all(l is not None for l in lead[:rank]) and all(l is None for l in lead[rank:]), 'number of nonzero rows')
    S.require(all(lead[i] < lead[i + 1] for i in range(rank - 1)), 'echelon form')
    if full:
        S.require(all(e[i][lead[k]] == (i == k) for k in range(rank) for i in range(r)), 'not fully reduced')
    if mode == 'steiner':
        E = {frozenset(e) for e in es}
        S.require(all(frozenset((g.control, g.target)) in E for t in (x, y) for g in t.gates), 'CNOT between qubits that are not coupled')
    S.witness('ok')


def h_device(S, names, ops):
    """the devices the package knows"""
    name = S.choose('name', names)
    arch = create_architecture(name, **({'n_qubits': 9} if name in A.dynamic_size_architectures else {}))
    n = arch.n_qubits
    es = [arch.graph.edge_st(e) for e in arch.graph.edges()]
    S.require(sorted(arch.qubit_map) == list(range(n)) == sorted(arch.vertices), 'every vertex carries a qubit')
    S.require(all(arch.vertex2qubit(arch.qubit2vertex(q)) == q for q in range(n)), 'qubits and vertices correspond')
    S.require(connected(n, es), 'the device is connected')
    E = qedges(arch, es)
    S.require(all(arch.get_neighboring_qubits(q) == {p for p in range(n) if frozenset((p, q)) in E} for q in range(n)), 'neighbours')
    S.require(create_architecture(arch) is arch, 'an architecture is taken as it is')
    d = eye(n)
    for k in range(ops):
        a = S.choose('c%d' % k, (0, 1, n // 2, n - 2, n - 1))
        b = S.choose('t%d' % k, (0, n // 3, n // 2 + 1, n - 1))
        S.assume(a != b)
        d[b] = [x ^ y for x, y in zip(d[a], d[b])]
    S.assume(d != eye(n))
    full = True
    m = Mat2(cp(d))
    x, y = CNOT_tracker(n), CNOT_tracker(n)
    rec_steiner_gauss(m, arch, full_reduce=True, x=x, y=y)
    check(S, n, d, m.data, x, y, True, E)
    if name in A.hamiltonian_path_architectures:
        m = Mat2(cp(d))
        x, y = CNOT_tracker(n), CNOT_tracker(n)
        rank = steiner_gauss(m, arch, full_reduce=True, x=x, y=y)
        check(S, n, d, m.data, x, y, True, E, rank)
        S.witness('hamiltonian')
    S.witness('ok')


@contextlib.contextmanager
def search(S, perms):
    """the optimisers return an arbitrary permutation"""
    def genetic(self, n, *a, **k):
        p = S.permutation('perm%d' % len(perms), range(n))
        perms.append(list(p))
        f = self.fitness_func(np.array(p))
        S.require(f >= 0, 'cost of a permutation')
        return list(p)

    def swarm(self, n, *a, **k):
        p = S.permutation('start', range(n))
        _, best, _ = self.step_func(list(p))
        return best
    class Swarm:
        find_optimum = swarm

        def __init__(self, *a, step_func, **k):
            self.step_func = step_func
    o1, o2 = C.GeneticAlgorithm.find_optimum, C.ParticleSwarmOptimization
    C.GeneticAlgorithm.find_optimum, C.ParticleSwarmOptimization = genetic, Swarm
    try:
        yield
    finally:
        C.GeneticAlgorithm.find_optimum, C.ParticleSwarmOptimization = o1, o2


GRAPHS3 = ([(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (1, 2), (0, 2)])


def h_permuted(S, n, cls):
    es = coupling(S, n, edges=GRAPHS3)
    d = invertible(S, n, S.choose('class', cls))
    mode = S.choose('mode', (ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE, None))
    row, col = S.flag('row'), S.flag('col')
    arch = build(n, es)
    m = Mat2(cp(d))
    own = S.flag('own')
    x, y = (CNOT_tracker(n), CNOT_tracker(n)) if own else (None, None)
    fit = S.choose('fit', (None, CostMetric.COUNT, CostMetric.DEPTH))
    if fit:
        S.assume(row and col)
        fit = FitnessFunction(fit, Mat2(cp(d)), mode, arch)
    with search(S, []):
        p, c, rank = permuted_gauss(m, mode, arch, row=row, col=col, x=x, y=y, fitness_func=fit)
    S.require(y is None or c is y, 'the tracker that was given is used')
    S.require(sorted(p) == list(range(n)), 'a permutation is returned')
    if not (row or col):
        S.require(list(p) == list(range(n)), 'no permutation was asked for')
    R, K = (p if row else range(n)), (p if col else range(n))
    S.require(list(c.row_perm) == list(R) and list(c.col_perm) == list(K), 'recorded permutations')
    w = [[d[i][j] for j in K] for i in R]
    check(S, n, w, eye(n), x, c, True, qedges(arch, es) if mode == ElimMode.STEINER_MODE else None, rank)
    eq(S, m.data, d, 'the argument is changed')
    S.witness('ok')


def h_sequential(S, n, cls, k):
    es = coupling(S, n, edges=GRAPHS3)
    ds = []
    for i in range(k):
        d = eye(n)
        a, b = S.choose('a%d' % i, list(itertools.permutations(range(n), 2)) if k < 3 or i == 2 else [(0, 1), (1, 2)])
        d[b] = [x ^ y for x, y in zip(d[a], d[b])]
        a, b = (0, 2) if i else (1, 0)
        d[b] = [x ^ y for x, y in zip(d[a], d[b])]
        ds.append(d)
    mode = S.choose('mode', cls)
    ip, op = S.flag('input'), S.flag('output')
    if mode in C.basic_elim_modes or mode is None:
        S.assume(ip and op)
    elif k > 1:
        S.assume(not (ip and not op))
    arch = build(n, es)
    ms = [Mat2(cp(d)) for d in ds]
    with search(S, []):
        cs, ps, cost = sequential_gauss(ms, mode, arch, input_perm=ip, output_perm=op)
    S.require(len(cs) == k and len(ps) == k + 1, 'one circuit for each matrix')
    S.require(all(sorted(p) == list(range(n)) for p in ps), 'permutations')
    if not ip:
        S.require(list(ps[0]) == list(range(n)), 'the inputs stay in place')
    if not op:
        S.require(list(ps[-1]) == list(range(n)), 'the outputs stay in place')
    steiner = 'STEINER' in getattr(mode, 'name', '')
    for d, c, p, q in zip(ds, cs, ps, ps[1:]):
        w = [[d[i][j] for j in p] for i in q]
        check(S, n, w, eye(n), None, c, True, qedges(arch, es) if steiner else None)
    S.require(cost == sum(c.cnot_depth() * 10000 + c.count_cnots() for c in cs), 'cost')
    S.witness('ok')


def h_genetic(S, n):
    """gauss in the genetic modes, and with a permutation"""
    es = coupling(S, n, edges=GRAPHS3)
    d = invertible(S, n, S.choose('class', ('2', 'U')))
    arch = build(n, es)
    mode = S.choose('mode', (ElimMode.GENETIC_GAUSS_MODE, ElimMode.GENETIC_STEINER_MODE, 'perm'))
    x, y = CNOT_tracker(n), CNOT_tracker(n)
    m = Mat2(cp(d))
    if mode == 'perm':
        p = S.permutation('p', range(n))
        rank = gauss(ElimMode.STEINER_MODE, m, arch, permutation=p, full_reduce=True, x=x, y=y)
        S.require(conc(m.data) == eye(n), 'reduced')
    else:
        ps = []
        with search(S, ps):
            rank = gauss(mode, m, arch, full_reduce=True, x=x, y=y)
        p, = ps
    w = [[d[i][j] for j in p] for i in p]
    check(S, n, w, eye(n), x, y, True, qedges(arch, es) if mode != ElimMode.GENETIC_GAUSS_MODE else None, rank)
    S.witness('ok')


def h_tracker(S, n, k):
    t = CNOT_tracker(n)
    w = []
    prev = None
    for i in range(k):
        op = S.choose('op%d' % i, ('row', 'col', 'add', 'addname', 'pre', 'prename', 'cz', 'phase'))
        a, b = S.choose('q%d' % i, list(itertools.permutations(range(n), 2)) if op in ('row', 'col') and i == 1 else ((0, 1), (1, 2), (2, 0)))
        G = zx.circuit.gates
        g = G.CNOT(a, b)
        if op == 'row':
            t.row_add(a, b)
            w.append(g)
        elif op == 'col':
            t.col_add(b, a)
            w.insert(0, g)
        elif op in ('add', 'addname'):
            t.add_gate(*((g,) if op == 'add' else ('CNOT', a, b)))
            w.append(g)
        elif op in ('pre', 'prename'):
            t.prepend_gate(*((g,) if op == 'pre' else ('CNOT', a, b)))
            w.insert(0, g)
        else:
            S.assume(i == k - 1)
            g = G.CZ(a, b) if op == 'cz' else G.HAD(a)
            t.add_gate(g)
            w.append(g)
    S.require(t.gates == w, 'gates of the tracker')
    two = [g for g in w if g.name in ('CNOT', 'CZ')]
    cn = [g for g in w if g.name == 'CNOT']
    eq(S, t.matrix.data, cnot_matrix(cn, n), 'tracked matrix')
    S.require(t.count_cnots() == len(two), 'number of CNOTs')
    lv = [0] * n
    for g in two:
        lv[g.control] = lv[g.target] = max(lv[g.control], lv[g.target]) + 1
    S.require(t.cnot_depth() == max(lv), 'CNOT depth')
    S.require(t.gather_metrics() == {'n_cnots': len(two), 'depth': max(lv)} and set(t.get_metric_names()) == set(t.gather_metrics()), 'metrics')
    c = zx.Circuit.from_qasm(t.to_qasm())
    S.require(c.qubits == n and c.gates == w, 'QASM of a tracker')
    c = zx.Circuit(n)
    c.gates = list(cn)
    u = CNOT_tracker.from_circuit(c)
    tracker(S, u, n, cnot_matrix(cn, n), 'tracker of a circuit')
    u.row_add(0, 1)
    S.require(c.gates == cn, 'the tracker shares the gates of the circuit')
    u.gates = list(cn)
    u.update_matrix()
    eq(S, u.matrix.data, cnot_matrix(cn, n), 'rebuilt matrix')
    S.witness('ok')


def h_graph(S, n, conn):
    """shortest paths, cutting vertices, neighbourhoods"""
    es = coupling(S, n, conn=conn)
    arch = build(n, es, S.choose('how', (0, 1)), **({} if conn else {'qubit_map': list(range(n)), 'reduce_order': list(range(n))[::-1]}))
    q = {v: i for i, v in enumerate(arch.qubit_map)}
    S.require(sorted(q.values()) == list(range(n)) == sorted(q), 'every vertex carries a qubit')
    S.require(all(arch.vertex2qubit(v) == q[v] and arch.qubit2vertex(q[v]) == v for v in q), 'qubits and vertices correspond')
    E = qedges(arch, es)
    what = S.choose('query', ('path', 'distances', 'upper', 'full', 'cut', 'order', 'near', 'transpose'))
    if what == 'order':
        S.assume(conn)
        o = list(arch.reduce_order)
        S.require(sorted(o) == list(range(n)), 'reduction order')
        for i in range(n):
            S.require(connected(n, [tuple(e) for e in E], o[i:]), 'the qubits left after each step are connected')
        S.require(all(connected(n, [tuple(e) for e in E], range(i, n)) for i in range(n)), 'the last qubits are connected')
    elif what == 'near':
        for i in range(n):
            S.require(arch.get_neighboring_qubits(i) == {j for j in range(n) if frozenset((i, j)) in E}, 'neighbours')
        ar = arch.arities()
        deg = {i: sum(arch.vertices[i] in e for e in es) for i in range(n)}
        S.require(dict(ar) == deg and len(ar) == n and all(a[1] >= b[1] for a, b in zip(ar, ar[1:])), 'arities')
    elif what == 'transpose':
        before = list(arch.qubit_map)
        t = arch.transpose()
        S.require(list(t.qubit_map) == before[::-1] and all(t.vertex2qubit(v) == n - 1 - q[v] for v in q), 'transposed architecture')
        S.require(list(arch.qubit_map) == before and all(arch.vertex2qubit(v) == q[v] for v in q), 'transposing changed the architecture')
        S.require({frozenset(t.graph.edge_st(e)) for e in t.graph.edges()} == {frozenset(e) for e in es}, 'couplings of the transpose')
    elif what == 'cut':
        sub = S.subset('sub', range(n))
        S.assume(len(sub) > 0)
        S.assume(connected(n, es, sub))
        got = arch._is_cutting(list(sub))
        want = [not connected(n, es, [v for v in sub if v != u]) for u in sub]
        S.require(list(got) == want, 'cutting vertices')
        S.require(arch.non_cutting_vertices(list(sub)) == [v for v, c in zip(sub, want) if not c], 'non-cutting vertices')
        S.require(arch.non_cutting_vertices(list(sub)) == [v for v, c in zip(sub, want) if not c], 'non-cutting vertices, asked again')
    elif what == 'path':
        a, b = S.choose('ends', [e for e in itertools.product(range(n), repeat=2) if n < 4 or e[0] != e[1]])
        sub = S.subset('sub', range(n))
        S.assume(len(sub) > 0)
        S.assume(a in sub and b in sub)
        arcs = [p for p in itertools.permutations(sub, 2) if frozenset(p) in E]
        for use in (list(sub), None) if len(sub) == n else (list(sub),):
            p = arch.shortest_path(a, b, use)
            want = dist(sub, arcs)[a, b]
            S.require((p is None) == (want is None), 'there is a path exactly when the qubits are connected')
            if p is not None:
                p = [q[v] for v in p]
                S.require(p[0] == a and p[-1] == b and all(frozenset(e) in E for e in zip(p, p[1:])) and set(p) <= set(sub), 'not a path')
                S.require(len(p) == want + 1, 'the path is not shortest')
    elif what == 'distances':
        pd = arch.pre_calc_distances()
        for i in range(n):
            for key, vs, up in (('upper', arch.vertices[i:], True), ('full', arch.vertices[:i + 1], False)):
                distances(S, arch, q, es, pd[key][i], vs, up, [])
    else:
        sub = S.subset('sub', range(n))
        S.assume(len(sub) > 0)
        rec = S.subset('rec', range(n)) if what == 'full' and n < 4 else []
        distances(S, arch, q, es, arch.floyd_warshall(list(sub), upper=what == 'upper', rec_vertices=list(rec)), sub, what == 'upper', rec)
    S.witness(what)


def distances(S, arch, q, es, got, vs, upper, rec):
    arcs = [(a, b) for e in es for a, b in (e, e[::-1]) if a in vs and b in vs and (upper or q[a] > q[b] or (a in rec and b in rec))]
    want = dist(list(vs), arcs)
    S.require({k for k in got if got[k] is not None} == {k for k in want if want[k] is not None}, 'reachable pairs')
    for (a, b), (l, p) in got.items():
        S.require(l == want[a, b] == len(p), 'distance')
        S.require(all(e in arcs for e in p) and all(e[1] == f[0] for e, f in zip(p, p[1:])), 'path')
        S.require(not p or (p[0][0] == a and p[-1][1] == b), 'ends of the path')


def h_tree(S, n):
    """Steiner trees"""
    es = coupling(S, n)
    arch = build(n, es, n % 2)
    E = qedges(arch, es)
    kind = S.choose('kind', ('upper', 'lower', 'rec'))
    root = S.choose('root', range(n))
    ts = set(S.subset('ts', range(n)))
    S.assume(root not in ts)
    allowed = lambda a, b: True
    if kind == 'rec':
        usable = sorted(ts | {root} | set(S.subset('use', range(n)) if n < 4 else S.choose('use', (range(n), [], [0], [n - 1]))))
        up = S.flag('up')
        rec = S.subset('rec', usable) if not up and n < 4 else []
        if not up:
            allowed = lambda a, b: a > b or (a in rec and b in rec)
        gen = arch.rec_steiner_tree(root, [root] + sorted(ts), usable, rec, up)
    else:
        S.assume(arch.qubit_map == list(range(n)))
        up = kind == 'upper'
        usable = [v for v in range(n) if (v >= root if up else v <= root)]
        if not up:
            allowed = lambda a, b: a > b
        S.assume(ts <= set(usable))
        gen = arch.steiner_tree(root, [root] + sorted(ts), up)
    arcs = [p for p in itertools.permutations(usable, 2) if frozenset(p) in E and allowed(*p)]
    d = dist(usable, arcs)
    try:
        down, back = [], []
        for l in (down, back):
            while True:
                e = next(gen)
                if e is None:
                    break
                l.append(e)
    except ValueError:
        S.require(any(d[root, t] is None for t in ts), 'a tree exists but was refused')
        S.witness('refused')
        return
    S.require(all(d[root, t] is not None for t in ts), 'no tree exists')
    S.require(all(e in arcs for e in down), 'an edge of the tree is not allowed')
    seen = {root}
    for a, b in down:
        S.require(a in seen and b not in seen, 'the tree is not listed from the root')
        seen.add(b)
    S.require(ts <= seen, 'a terminal is missing')
    S.require(sorted(back) == sorted(down), 'the tree is listed twice')
    gone = set()
    for a, b in back:
        S.require(a not in gone, 'the tree is not listed back from the leaves')
        gone.add(b)
    S.require(all(b in ts or any(x == b for x, _ in down) for _, b in down), 'a leaf of the tree is not a terminal')
    S.witness(kind)


def h_parity(S, n):
    bits = [int(S.bit('b%d' % i)) for i in range(n)]
    how = S.choose('how', ('int', 'str', 'list', 'bool', 'parity'))
    pad = S.choose('pad', (None, n + 1))
    s = ''.join(map(str, bits))
    if how == 'int':
        S.assume(bits[0] == 1)
        p = Parity(int(s, 2), pad)
    else:
        p = Parity({'str': s, 'list': bits, 'bool': [b == 1 for b in bits], 'parity': Parity(bits)}[how], pad)
    w = bits + [0] * (1 if pad else 0)
    if how == 'int' and pad:
        w = [0] + bits      # the number has that many binary digits
    S.require(str(p) == ''.join(map(str, w)) and p == str(p) and hash(p) == hash(str(p)), 'text of a parity')
    S.require(p.to_mat2_row() == w and list(p) == [b == 1 for b in w] and [p[i] for i in range(len(w))] == [b == 1 for b in w], 'qubits of a parity')
    S.require(p.count() == sum(w) and len(p) == p.n_qubits() == len(w), 'size of a parity')
    e = [int(S.bit('c%d' % i)) for i in range(n)]
    S.require((Parity(bits) == Parity(e)) == (bits == e) and (Parity(bits) == ''.join(map(str, e))) == (bits == e), 'equality of parities')
    S.witness('ok')


TREES5 = ([(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (0, 2), (0, 3), (0, 4)], [(4, 0), (4, 1), (4, 2), (4, 3)], [(0, 2), (1, 2), (2, 3), (3, 4)],
          [(0, 1), (1, 3), (2, 3), (3, 4)], [(3, 0), (0, 4), (4, 1), (1, 2)], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], [(0, 2), (0, 4), (1, 2), (1, 3), (1, 4)],
          [(0, 1), (0, 4), (1, 2), (1, 3), (2, 3), (3, 4)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], [(0, 4), (1, 4), (1, 2), (2, 3), (0, 3), (0, 2)])


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    ALG = ('rec', 'steiner', 'mode')
    add('steiner3', h_steiner, 'routed CNOT circuits of matrices', 'all invertible 3x3 matrices on all connected devices of 3 qubits', wit=ALG, n=3, cls=('all',), how=(0, 1))
    add('steiner4', h_steiner, 'routed CNOT circuits of matrices', 'unitriangular 4x4 matrices on all connected devices of 4 qubits', wit=ALG, n=4, cls=('L', 'U'), how=(0,))
    add('steiner4p', h_steiner, 'routed CNOT circuits of permutations', '4x4 permutations on all connected devices of 4 qubits', wit=ALG, n=4, cls=('perm',), how=(1,))
    add('steiner5', h_steiner, 'routed CNOT circuits of matrices', 'products of 2 CNOTs on 11 devices of 5 qubits', wit=ALG, n=5, cls=('2',), edges=TREES5)
    add('rank', h_rank, 'elimination of singular and rectangular matrices', 'matrices up to 3x3 and 2x4', shapes=((2, 2), (3, 2), (2, 3), (3, 3), (2, 4)))
    small = [n for n in A.architectures if n not in (A.GOOGLE_SYCAMORE, A.IBM_ROCHESTER, A.DENSITY)]
    add('devices', h_device, 'routing on the devices of the package', 'a CNOT between selected qubits, 17 devices of 5 to 20 qubits', wit=('ok', 'hamiltonian'), names=small, ops=1)
    add('permuted', h_permuted, 'elimination after a permutation', 'unitriangular 3x3 matrices, all permutations, 3 devices', n=3, cls=('U', 'L') if T else ('U',))
    add('genetic', h_genetic, 'elimination in the genetic modes', '3x3 matrices, all permutations, 3 devices', n=3)
    add('seq2', h_sequential, 'elimination of sequences of matrices', '2 matrices, all permutations, 3 devices of 3 qubits', n=3, k=2,
        cls=(None, ElimMode.STEINER_MODE, ElimMode.GENETIC_STEINER_MODE) + ((ElimMode.GENETIC_GAUSS_MODE,) if T else ()))
    add('seq3', h_sequential, 'elimination of sequences of three matrices', '3 matrices, of which the first two are symbolic, all permutations, 3 devices of 3 qubits', n=3, k=3, cls=(ElimMode.GENETIC_STEINER_MODE,))
    add('seq1', h_sequential, 'elimination of a matrix as a sequence', '1 matrix, all permutations, 3 devices of 3 qubits', n=3, k=1, cls=tuple(ElimMode))
    add('tracker', h_tracker, 'the record of row and column operations', '3 operations of 8 kinds on 3 qubits', n=3, k=3)
    add('tracker4', h_tracker, 'the record of row and column operations', '2 operations of 8 kinds on 4 qubits', n=4, k=2)
    Q = ('path', 'distances', 'upper', 'full', 'cut', 'near', 'transpose')
    add('graph4', h_graph, 'graph algorithms of devices', 'all connected devices of 4 qubits, all subsets', wit=Q + ('order',), n=4, conn=True)
    add('graph3', h_graph, 'graph algorithms of devices', 'all graphs on 3 qubits, all subsets', wit=Q, n=3, conn=False)
    add('tree4', h_tree, 'Steiner trees', 'all connected devices of 4 qubits, all roots and terminals', wit=('upper', 'lower', 'rec', 'refused'), n=4)
    add('tree3', h_tree, 'Steiner trees', 'all connected devices of 3 qubits, all roots, terminals and two-way qubits', wit=('upper', 'lower', 'rec', 'refused'), n=3)
    add('parity', h_parity, 'parities', '3 qubits', n=3)
    if T:
        add('steiner4a', h_steiner, 'routed CNOT circuits of matrices', 'all invertible 4x4 matrices on a line, a star, a cycle', wit=('rec',), n=4, cls=('all',),
            edges=([(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)]), only=('rec', 'steiner'))
        add('steiner5u', h_steiner, 'routed CNOT circuits of matrices', 'unitriangular 5x5 matrices on 11 devices of 5 qubits', wit=ALG, n=5, cls=('L', 'U'), edges=TREES5, only=('rec',))
        add('graph5', h_graph, 'graph algorithms of devices', 'all connected devices of 5 qubits', wit=('order',), n=5, conn=True)
        add('tree5', h_tree, 'Steiner trees', 'all connected devices of 5 qubits', wit=('upper',), n=5)
        add('devices2', h_device, 'routing on the devices of the package', 'products of 2 CNOTs, the devices of 5 to 20 qubits', wit=('ok',), names=small, ops=2)
    return H
