"""P21: routing of phase polynomials."""
import itertools
import contextlib
from fractions import Fraction
from symx.run import Harness
import pyzx as zx
from pyzx.linalg import Mat2
from pyzx.circuit.gates import CNOT, ZPhase, Z, S as SG, T as TG
from pyzx.routing import phase_poly as PP
from pyzx.routing.architecture import create_architecture
from pyzx.routing.cnot_mapper import ElimMode
from pyzx.routing.parity_maps import CNOT_tracker, Parity
from pyzx.routing.phase_poly import PhasePoly, RoutingMethod, RootHeuristic, SplitHeuristic, route_phase_poly
from .p15 import eye, conc, rank_of, cp, eq
from .p16 import coupling, build, qedges, invertible, search, GRAPHS3

LEVEL = 'other'
EXPLANATION = ('The real routing code runs on phase polynomials whose parities, phases, output parities and devices are solver variables; every branch on one is decided by the solver. '
               'The parities and phases of the resulting circuit are recomputed gate by gate and the phases are compared by the solver for all values.')
ASSUMPTIONS = ['random choices are replaced by arbitrary ones (solver variables)',
               'the random search of the genetic optimisers is replaced by an arbitrary permutation']
BUDGET = {'quick': 100, 'thorough': 900}


@contextlib.contextmanager
def chance(S, fixed=False):
    """np.random.choice(list) is an arbitrary element"""
    cnt = [0]

    class R:
        @staticmethod
        def choice(xs):
            xs = list(xs)
            cnt[0] += 1
            return xs[0] if fixed or len(xs) == 1 else S.choose('random%d' % cnt[0], xs)

    class NP:
        random = R

        def __getattr__(self, k):
            import numpy
            return getattr(numpy, k)
    o = PP.np
    PP.np = NP()
    try:
        yield
    finally:
        PP.np = o


def semantics(S, gates, n, start=None, edges=None):
    """-> ({parity: phase}, rows) of a CNOT and Z rotation circuit"""
    rows = [tuple(r) for r in (start or eye(n))]
    ph = {}
    for g in gates:
        if isinstance(g, CNOT):
            S.require(edges is None or frozenset((g.control, g.target)) in edges, 'CNOT between qubits that are not coupled')
            rows[g.target] = tuple(a ^ b for a, b in zip(rows[g.target], rows[g.control]))
        else:
            S.require(isinstance(g, ZPhase), 'a gate of the wrong kind: ' + type(g).__name__)
            ph[rows[g.target]] = ph.get(rows[g.target], 0) + g.phase
    return ph, rows


def same_phases(S, a, b, msg):
    for k in set(a) | set(b):
        S.require((a.get(k, 0) - b.get(k, 0)) % 2 == 0, '%s: parity %s' % (msg, k))


def upto(S, name, items, most, low=0):
    return S.choose(name, [c for k in range(low, most + 1) for c in itertools.combinations(items, k)])


def key(p):
    return tuple(int(bool(x)) for x in p)


def h_from(S, n, k, place):
    c = zx.Circuit(n)
    prs = list(itertools.permutations(range(n), 2))
    for i in range(k):
        op = S.choose('op%d' % i, [CNOT(*p) for p in prs] + ['z%d' % q for q in range(n)])
        if isinstance(op, str):
            op = ZPhase(int(op[1:]), S.phase('p%d' % i, 4, vals=[Fraction(j, 4) for j in range(-7, 12)]))
        c.add_gate(op)
    extra = S.choose('extra', (None, CNOT(1, 0), Z(0), SG(1), TG(0, adjoint=True)))
    if extra:
        c.add_gate(extra)
    ini = S.permutation('initial', range(n)) if place else None
    fin = S.permutation('final', range(n)) if place else None
    p = PhasePoly.fromCircuit(c, ini, fin) if place else PhasePoly.fromCircuit(c)
    start = [[int(ini[i] == q) for i in range(n)] for q in range(n)] if place else None
    ph, rows = semantics(S, c.gates, n, start)
    same_phases(S, {key(q): v for q, v in p.zphases.items()}, ph, 'phases')
    for v in p.zphases.values():
        S.require(v != 0 and v > -1 and v <= 1, 'phases are nonzero and between -1 and 1')
    S.require([key(q) for q in p.out_par] == [rows[i] for i in (fin or range(n))], 'output parities')
    S.require(p.n_qubits == n and p.all_parities == list(p.zphases), 'contents')
    S.witness('ok')


def polynomial(S, n, out, most, order=True):
    """a phase polynomial with symbolic parities and phases"""
    pars = [p for p in itertools.product((0, 1), repeat=n) if any(p)]
    if S.flag('reverse') if order else False:
        pars = pars[::-1]
    use = upto(S, 'parities', pars, most)
    if order == 'all' and len(use) > 1:
        use = S.permutation('order', use)
    ph = {p: S.phase('p%s' % ''.join(map(str, p)), 4) for p in use}
    d = invertible(S, n, S.choose('class', out))
    return ph, d, PhasePoly({Parity(p): v for p, v in ph.items()}, [Parity(r) for r in d])


def verify(S, circ, ini, fin, n, ph, d, edges):
    S.require(circ.qubits == n, 'qubits')
    S.require(sorted(ini) == list(range(n)) and sorted(fin) == list(range(n)), 'permutations')
    start = [[int(ini[i] == j) for j in range(n)] for i in range(n)]
    ph2, rows = semantics(S, circ.gates, n, start, edges)
    same_phases(S, ph2, ph, 'phases')
    S.require(rows == [tuple(d[fin[i]]) for i in range(n)], 'output parities')


def h_synth(S, n, funcs, out, most, edges=None, modes=(ElimMode.STEINER_MODE,), order=True, fixed=False, opts={}):
    es = coupling(S, n, edges=edges)
    arch = build(n, es)
    f = S.choose('function', funcs)
    ph, d, pp = polynomial(S, n, out, most, order)
    mode = S.choose('mode', modes)
    if mode == 'none':
        mode, a = ElimMode.STEINER_MODE, None
    else:
        a = arch
    E = qedges(arch, es) if a is not None and 'STEINER' in mode.name else None
    kw = {}
    for k, vs in opts.get(f, {}).items():
        kw[k] = S.choose(k, vs)
    with chance(S, fixed), search(S, []):
        circ, ini, fin = getattr(pp, f)(mode, a, **kw)
    verify(S, circ, ini, fin, n, ph, d, E)
    S.witness(f)


def h_route(S, n, out, most, methods, edges=None):
    es = coupling(S, n, edges=edges)
    arch = build(n, es)
    ph, d, pp = polynomial(S, n, out, most, False)
    m = S.choose('method', methods)
    kw = {}
    if 'Gray' in str(m):
        kw = dict(root_heuristic=S.choose('root', list(RootHeuristic)), split_heuristic=S.choose('split', list(SplitHeuristic)))
    with chance(S):
        circ = route_phase_poly(pp, arch, m, **kw)
    verify(S, circ, range(n), range(n), n, ph, d, qedges(arch, es))
    S.witness(m.name)


def h_circuit(S, n, k, edges=None):
    """from circuit to circuit"""
    es = coupling(S, n, edges=edges)
    arch = build(n, es)
    c = zx.Circuit(n)
    prs = list(itertools.permutations(range(n), 2))
    for i in range(k):
        c.add_gate(CNOT(*S.choose('op%d' % i, prs)))
        c.add_gate(ZPhase(i % n, S.phase('p%d' % i, 4)))
    m = S.choose('method', list(RoutingMethod))
    r = route_phase_poly(c, arch, m)
    ph, rows = semantics(S, c.gates, n)
    verify(S, r, range(n), range(n), n, ph, rows, qedges(arch, es))
    S.witness('ok')


def h_partition(S, n, most, low=1):
    pars = [p for p in itertools.product((0, 1), repeat=n) if any(p)]
    if low == len(pars) - 1:
        use = list(pars)
        use.remove(S.choose('missing', pars))
    else:
        use = list(upto(S, 'parities', pars, most, low))
    use = S.permutation('order', use)
    skip, opt = S.flag('skip'), S.flag('optimise')
    pp = PhasePoly({Parity(p): Fraction(1, 4) for p in use}, [Parity(r) for r in eye(n)])
    parts = pp.partition(skip, opt)
    todo = [p for p in use if not (skip and sum(p) == 1)]
    for pt in parts:
        S.require(len(pt) == n and rank_of([list(key(q)) for q in pt]) == n, 'the parities of a part are a basis')
    for p in todo:
        S.require(any(p in map(key, pt) for pt in parts), 'every parity is in a part')
    # the number of parts is the least possible (matroid partitioning)
    best = least(todo, n)
    S.require(len(parts) == best, '%d parts instead of %d' % (len(parts), best))
    S.witness('ok')


def least(ps, n):
    """Edmonds: the least number of independent sets that cover ps"""
    best = 0
    for k in range(1, len(ps) + 1):
        for sub in itertools.combinations(ps, k):
            r = rank_of([list(p) for p in sub])
            best = max(best, -(-k // r))
    return best


def h_generate(S, n, most):
    """a circuit made of selected phase gadgets"""
    from pyzx import generate as G
    import numpy
    k = S.choose('gadgets', range(most + 1))

    class R:
        @staticmethod
        def choice(a, replace=True, size=None):
            S.require(not replace, 'the gadgets are distinct')
            if size > a:
                raise ValueError('Cannot take a larger sample than population when replace is False')
            c = [numpy.int64(S.choose('g%d' % i, range(a))) for i in range(size)]
            S.assume(len(set(c)) == size)
            picked.extend(c)
            return numpy.array(c)

    class NP:
        random = R
    picked = []
    o = G.np
    G.np = NP()
    try:
        c = G.phase_poly_from_gadgets(n, k)
    finally:
        G.np = o
    ph, rows = semantics(S, c.gates, n)
    S.require(rows == [tuple(r) for r in eye(n)], 'output parities')
    S.require(len(ph) == min(k, 2 ** n - 1) and all(v == Fraction(1, 4) for v in ph.values()), 'one gadget for each parity that was picked')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('from3', h_from, 'the phase polynomial of a circuit', '3 gates and an extra one on 3 qubits, phases k/4', n=3, k=3, place=False)
    add('from2', h_from, 'the phase polynomial of a circuit', '4 gates and an extra one on 2 qubits, phases k/4', n=2, k=4, place=False)
    add('place3', h_from, 'the phase polynomial of a placed circuit', '1 gate and an extra one on 3 qubits, all placements', n=3, k=1, place=True)
    GR = ('gray_synth', 'rec_gray_synth', 'Ariannes_synth')
    B = (False, True)
    opts = {'Ariannes_synth': dict(zeroes_rec=B, neighbour_path=B, tie_break=B)}
    heur = {'rec_gray_synth': dict(root_heuristic=tuple(RootHeuristic), split_heuristic=tuple(SplitHeuristic), phase_qubit=(None, 0, 2))}
    mat = {'matroid_synth': dict(optimize_parity_order=B, optimize_partition_order=B)}
    AM = (ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE, 'none')
    D3 = 'all connected devices'
    M = ('matroid_synth',)
    L4 = ([(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 2), (2, 1), (1, 3)])
    add('synth3', h_synth, 'synthesis by the three tree methods', 'up to 3 of 7 parities of 3 qubits, phases k/4, 2 orders, all connected devices, outputs of 1 CNOT', wit=GR, n=3, funcs=GR, out=('1',), most=3, modes=AM)
    add('out3', h_synth, 'output parities of the three tree methods', 'up to 1 parity of 3 qubits, all output parities, 3 devices', wit=GR, n=3, funcs=GR, out=('all',), most=1, order=False, edges=GRAPHS3)
    add('full3', h_synth, 'synthesis by the three tree methods', 'all sets of parities of 3 qubits, phases k/4, 3 devices', wit=GR, n=3, funcs=GR, out=('0',), most=7, edges=GRAPHS3)
    add('synth4', h_synth, 'synthesis by the three tree methods', 'up to 3 of 15 parities of 4 qubits, phases k/4, 3 devices', wit=GR, n=4, funcs=GR, out=('0',), most=3, order=False, edges=L4[:2] + L4[3:])
    add('options3', h_synth, 'options of the methods', 'up to 3 of 7 parities of 3 qubits, 3 devices', wit=GR[2:], n=3, funcs=GR[2:], out=('0',), most=3, edges=GRAPHS3, opts=opts, order=False)
    add('heuristics3', h_synth, 'heuristics of the recursive method', 'up to 2 of 7 parities of 3 qubits, 3 devices', wit=GR[1:2], n=3, funcs=GR[1:2], out=('0',), most=3 if T else 2, edges=GRAPHS3, opts=heur, order=False)
    add('matroid3', h_synth, 'synthesis by matroid partitioning', 'up to 4 of 7 parities of 3 qubits, 3 devices', wit=M, n=3, funcs=M, out=('0', '1') if T else ('0',), most=4, modes=AM, edges=GRAPHS3, opts=mat, order=False)
    add('matroid4', h_synth, 'synthesis by matroid partitioning', 'up to 2 of 15 parities of 4 qubits, 2 devices', wit=M, n=4, funcs=M, out=('0',), most=3 if T else 2, edges=L4[:1] + L4[3:], opts=mat, order=False)
    add('genetic3', h_synth, 'synthesis with permuted qubits', '1 parity of 3 qubits, all permutations, 2 devices', wit=M, n=3, funcs=M, out=('1',), most=1, modes=(ElimMode.GENETIC_STEINER_MODE,), edges=GRAPHS3[:2], order=False)
    add('route3', h_route, 'routing', 'up to 2 of 7 parities of 3 qubits, 3 devices', wit=tuple(m.name for m in RoutingMethod), n=3, out=('0',), most=2, methods=tuple(RoutingMethod), edges=GRAPHS3)
    add('circuit3', h_circuit, 'routing of circuits', '2 CNOTs and 2 rotations on 3 qubits, 3 devices, 4 methods', n=3, k=2, edges=GRAPHS3)
    add('partition3', h_partition, 'partitions of parities', 'up to 4 of 7 parities of 3 qubits in all orders', n=3, most=4)
    add('partition3b', h_partition, 'partitions of parities', '6 of 7 parities in all orders', n=3, most=6, low=6)
    add('generate3', h_generate, 'circuits of phase gadgets', 'up to 3 of 7 gadgets on 3 qubits', n=3, most=3)
    add('generate2', h_generate, 'circuits of phase gadgets', 'up to 5 gadgets on 2 qubits', n=2, most=5)
    if T:
        add('synth4t', h_synth, 'synthesis by the three tree methods', 'up to 4 of 15 parities of 4 qubits, phases k/4, 4 devices', wit=GR, n=4, funcs=GR, out=('0',), most=4, edges=L4)
        add('out3t', h_synth, 'output parities of the three tree methods', 'up to 2 parities of 3 qubits, all output parities, all devices', wit=GR, n=3, funcs=GR, out=('all',), most=2)
    return H
