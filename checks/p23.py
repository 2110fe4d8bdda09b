"""P23: phase polynomial optimisation (TODD)."""
import io
import itertools
import contextlib
from fractions import Fraction
from symx.run import Harness
import pyzx as zx
from pyzx import todd as TD
from pyzx.linalg import Mat2
from pyzx.circuit.gates import ZPhase, NOT, HAD, CNOT, CZ, SWAP, ParityPhase, S as SG, T as TG, Z as ZG
from pyzx.optimize import phase_block_optimize, full_optimize
from pyzx.parity_network import parity_network
from pyzx.todd import ParityPolynomial, ParitySingle, MultiLinearPoly
from .p15 import mat, cp, conc, eye, eq
from .p22 import alphabet, gate, circuit, text

LEVEL = 'other'
EXPLANATION = ('The real optimiser runs on circuits, parity matrices and diagrams whose gates, entries, phases and wires are solver variables; every branch on one is decided by the solver. '
               'Maps are computed independently as exact expressions and compared for all values.')
ASSUMPTIONS = ['circuits are compared up to a global phase', 'the random order of the columns is replaced by an arbitrary one (a solver variable)', 'the external TOpt program is not used']
BUDGET = {'quick': 100, 'thorough': 900}


@contextlib.contextmanager
def shuffles(S, most=3):
    """random.shuffle is any permutation of up to 3 columns, any rotation of more"""
    cnt = [0]

    class R:
        @staticmethod
        def shuffle(xs):
            cnt[0] += 1
            nm = 'shuffle%d' % cnt[0]
            if len(xs) <= most:
                xs[:] = S.permutation(nm, xs)
            else:
                k = S.choose(nm, (0, 1, len(xs) - 1))
                xs[:] = xs[k:] + xs[:k]
    o = TD.random
    TD.random = R
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        TD.random = o


def f8(cols, x):
    return sum(sum(c[i] & x[i] for i in range(len(x))) % 2 for c in cols) % 8


def cube(cols, n):
    """the third order part of the phase function: parity of the number of columns with i, j, k"""
    return {(i, j, k): sum(c[i] & c[j] & c[k] for c in cols) % 2
            for i in range(n) for j in range(i, n) for k in range(j, n)}


def columns(S, n, m):
    return [[int(S.bit('m%d_%d' % (i, j))) for i in range(n)] for j in range(m)]


def h_matrix(S, n, ms=None, base=(), free=(), size=()):
    """the matrix algorithms: the signature tensor is kept, the corrections are exact"""
    if ms is None:
        cols = [list(c) for c in list(base) + [c for c in free if S.flag('c%s' % ''.join(map(str, c)))]]
        S.assume(len(cols) in size)
        m = len(cols)
    else:
        m = S.choose('cols', ms)
        cols = conc(columns(S, n, m))
    a = Mat2([list(c) for c in cols]).transpose() if cols else Mat2([[] for _ in range(n)])
    with shuffles(S):
        b = TD.todd_iter(a.copy())
    bc = b.transpose().data if b.cols() else []
    S.require(len(bc) <= m and all(len(c) == n for c in bc), 'more columns than before')
    S.require(all(any(c) for c in bc) and len({tuple(c) for c in bc}) == len(bc), 'zero or repeated columns')
    S.require(cube(bc, n) == cube(cols, n), 'signature tensor')
    if ms is None and len(bc) < m:
        S.witness('shorter')
    p = MultiLinearPoly()
    p.add_par_matrix(a, False)
    p.add_par_matrix(b, True)
    gs = p.to_clifford()
    for x in itertools.product((0, 1), repeat=n):
        e = 0
        for g in gs:
            if isinstance(g, CZ):
                S.require(g.control != g.target, 'CZ on one qubit')
                e += 4 * (x[g.control] & x[g.target])
            else:
                S.require(g.phase.denominator <= 2, 'not a Clifford phase')
                e += int(4 * g.phase) * x[g.target]
        S.require((f8(bc, x) + e - f8(cols, x)) % 8 == 0, 'Clifford correction')
    S.witness('ok')


def h_poly(S, n, m):
    """the three representations of a phase function"""
    cols = conc(columns(S, n, m))
    p = MultiLinearPoly()
    sg = [S.flag('minus%d' % j) for j in range(m)]
    for c, s in zip(cols, sg):
        p.add_parity(c, subtract=s)
    for x in itertools.product((0, 1), repeat=n):
        want = sum((-1 if s else 1) * (sum(u & v for u, v in zip(c, x)) % 2) for c, s in zip(cols, sg))
        got = sum(v * x[i] for i, v in p.l.items()) + 2 * sum(v * x[i] * x[j] for (i, j), v in p.q.items()) + 4 * sum(x[i] * x[j] * x[k] for i, j, k in p.c)
        S.require((got - want) % 8 == 0, 'multilinear polynomial')
    gs = TD.par_matrix_to_gates(Mat2([list(c) for c in cols]).transpose())
    nz = [c for c in cols if any(c)]
    if len(nz) == m:
        S.require(len(gs) == m, 'a gate for each column')
        for c, g in zip(cols, gs):
            tg = [g.target] if isinstance(g, TG) else list(g.targets)
            S.require(isinstance(g, (TG, ParityPhase)) and g.phase == Fraction(1, 4) and sorted(tg) == [i for i in range(n) if c[i]], 'gate of a column')
    q = ParityPolynomial(n)
    vals = [S.choose('v%d' % j, (0, 1, 3, -1, 4, 7, 9)) for j in range(m)]
    for c, v in zip(cols, vals):
        q.add_term([i for i in range(n) if c[i]][::-1], v)
    q2 = q + q.copy()
    mt = q.to_par_matrix()
    mc = mt.transpose().data if q.terms else []
    for x in itertools.product((0, 1), repeat=n):
        want = sum(v * (sum(u & w for u, w in zip(c, x)) % 2) for c, v in zip(cols, vals))
        S.require((sum(v * (sum(x[i] for i in t) % 2) for t, v in q.terms.items()) - want) % 8 == 0, 'parity polynomial')
        S.require((sum(v * (sum(x[i] for i in t) % 2) for t, v in q2.terms.items()) - 2 * want) % 8 == 0, 'sum of parity polynomials')
        S.require((f8(mc, x) - want) % 8 == 0, 'parity matrix')
    S.witness('ok')


def h_network(S, n, most):
    """a parity network goes through all parities"""
    pars = [p for p in itertools.product((0, 1), repeat=n) if any(p)]
    k = S.choose('use', [c for j in range(most + 1) for c in itertools.combinations(pars, j)])
    if S.flag('reverse'):
        k = k[::-1]
    ps = [list(p) for p in k]
    cn = parity_network(n, ps)
    S.require([tuple(p) for p in ps] == list(k), 'the argument is changed')
    rows = [tuple(r) for r in eye(n)]
    seen = set(rows)
    for g in cn:
        S.require(isinstance(g, CNOT) and g.control != g.target, 'CNOT')
        rows[g.target] = tuple(a ^ b for a, b in zip(rows[g.target], rows[g.control]))
        seen.add(rows[g.target])
    S.require(all(p in seen for p in k), 'a parity is missing')
    S.witness('ok')


def ccz(a, b, c):
    return list(zx.circuit.gates.CCZ(a, b, c).to_basic_gates())


def h_simp(S, n, k, kinds, den=4):
    """todd_simp on a list of CNOT, CZ and rotation gates"""
    c = circuit(S, n, k, kinds, den)
    c.gates = conc_gates(c.gates)
    before = text(c)
    want = S.cmap(c.gates, n)
    with shuffles(S):
        gs, perm = TD.todd_simp([g.copy() for g in c.gates], n)
    S.require(text(c) == before, 'the argument is changed')
    S.require(sorted(perm) == sorted(perm.values()) == list(range(n)), 'permutation')
    for a, b in zx.extract.permutation_as_swaps(dict(perm)):
        gs = gs + [SWAP(a, b)]
    S.same_uptophase(S.cmap(gs, n), want, 'todd_simp')
    S.require(zx.Circuit.tcount(mk(n, gs)) <= tparity(before, n), 'more T gates than parities')
    S.witness('ok')


def conc_gates(gs):
    out = []
    for g in gs:
        g = g.copy()
        if isinstance(g, ZPhase) and hasattr(g.phase, 'conc'):
            g.phase = g.phase.conc()
        out.append(g)
    return out


def mk(n, gs):
    c = zx.Circuit(n)
    c.gates = list(gs)
    return c


def tparity(gs, n):
    """number of parities with an odd multiple of pi/4"""
    rows = [tuple(r) for r in eye(n)]
    d = {}
    for nm, c, t, p in gs:
        if nm == 'CNOT':
            rows[t] = tuple(a ^ b for a, b in zip(rows[t], rows[c]))
        elif p is not None:
            d[rows[t]] = d.get(rows[t], 0) + p
    return sum((4 * v) % 2 for v in d.values())


def h_block(S, n, k, kinds, how, words=None, den=4):
    w = S.choose('word', words) if words else ('?',) * k
    c = zx.Circuit(n)
    al = alphabet(n, kinds)
    for i, sym in enumerate(w):
        if sym == '?':
            sym = S.choose('g%d' % i, al)
        c.add_gate(gate(S, 'g%d' % i, sym, den))
    c.gates = conc_gates(c.gates)
    h = S.choose('how', how)
    before = text(c)
    want = S.cmap(c.gates, n)
    with shuffles(S, 2):
        if h == 'full':
            d = full_optimize(c)
        else:
            d = phase_block_optimize(c, pre_optimize=h == 'pre')
    S.require(text(c) == before, 'the argument is changed')
    S.require(d.qubits == n, 'qubits')
    S.same_uptophase(S.cmap(d.gates, n), want, 'optimised circuit')
    S.witness(h)


def h_refuse(S):
    c = zx.Circuit(2)
    c.add_gate(HAD(0))
    g = S.choose('gate', (ZPhase(0, Fraction(1, 8)), ZPhase(1, Fraction(1, 3)), SWAP(0, 1), zx.circuit.gates.CHAD(0, 1), zx.circuit.gates.XPhase(0, Fraction(1, 4))))
    c.add_gate(g)
    try:
        d = phase_block_optimize(c, pre_optimize=S.flag('pre'))
    except (TypeError, AttributeError):
        S.witness('refused')
        return
    S.same_uptophase(S.cmap(d.gates, 2), S.cmap(c.gates, 2), 'optimised circuit')


def h_graph(S, nt, gadgets, pmax=8, tvals=(0, 1, 2, 7)):
    """TODD on the gadgets of a diagram"""
    g = zx.Graph()
    ts = []
    for i in range(nt):
        b = g.add_vertex(0, i, 0)
        v = g.add_vertex(1, i, 1, phase=S.choose('t%d' % i, [Fraction(j, 4) for j in tvals]))
        o = g.add_vertex(0, i, 9)
        g.add_edge((b, v), S.choose('e%d' % i, (1, 2)) if i == 0 else 2)
        g.add_edge((v, o), 2)
        ts.append((b, v, o))
    g.set_inputs(tuple(t[0] for t in ts))
    g.set_outputs(tuple(t[2] for t in ts))
    sets = [c for k in range(1, nt + 1) for c in itertools.combinations(range(nt), k)]
    for i in range(gadgets):
        s = S.choose('s%d' % i, [c for c in sets if len(c) > 1 or i == 0])
        odd = S.choose('odd', ('no', 'hub', 'xleaf', 'xhub', 'plain', 'chain', 'nine')) if i == gadgets - 1 else 'no'
        n = g.add_vertex(2 if odd == 'xhub' else 1, -1, 3 + i, phase=Fraction(odd == 'hub'))
        l = g.add_vertex(2 if odd == 'xleaf' else 1, -2, 3 + i, phase=Fraction(1, 8) if odd == 'nine' else S.choose('p%d' % i, [Fraction(j, 4) for j in ((0, 1, 2, 3, 7)[:pmax])]))
        g.add_edge((n, l), 1 if odd == 'plain' else 2)
        for j in s:
            g.add_edge((n, ts[j][1]), 2)
        if odd == 'chain' and i:
            g.add_edge((n, last), 2)
        last = n
    if nt > 1 and S.flag('cz'):
        g.add_edge((ts[0][1], ts[1][1]), 2)
    want = S.gmap(g)
    with shuffles(S, 2):
        TD.todd_on_graph(g)
    S.same_upto(S.gmap(g), want, 'todd_on_graph')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('matrix3', h_matrix, 'TODD on parity matrices', 'all matrices with 3 rows and up to 4 columns', n=3, ms=range(5))
    add('matrix4', h_matrix, 'TODD on parity matrices', 'all matrices with 4 rows and 3 columns', n=4, ms=(3,))
    P3, P4 = ([p for p in itertools.product((0, 1), repeat=n) if any(p)] for n in (3, 4))
    add('many3', h_matrix, 'TODD on parity matrices', 'all matrices of 5 to 7 distinct columns with 3 rows', n=3, free=P3, size=(5, 6, 7))
    add('many4', h_matrix, 'TODD on parity matrices', 'matrices of 7 to 15 distinct columns with 4 rows, 8 of them free', wit=('ok', 'shorter'), n=4, base=P4[::2][:7], free=P4[1::2] + P4[14:], size=range(7, 16))
    add('poly3', h_poly, 'phase functions', '2 parities of 3 variables', n=3, m=2)
    add('network3', h_network, 'parity networks', 'all sets of parities of 3 qubits', n=3, most=7)
    add('network4', h_network, 'parity networks', 'up to 4 of 15 parities of 4 qubits', n=4, most=4)
    add('simp2', h_simp, 'phase polynomial circuits', '3 gates on 2 qubits, angles k/4', n=2, k=3, kinds='pcv')
    add('simp2t', h_simp, 'phase polynomial circuits', '5 gates on 2 qubits', n=2, k=5, kinds=('t', 'c', 'v'))
    add('simp3', h_simp, 'phase polynomial circuits', '3 gates on 3 qubits', n=3, k=3, kinds='pcv' if T else ('t', 'sd', 'c', 'v'))
    add('simp3b', h_simp, 'phase polynomial circuits', '4 gates on 3 qubits', n=3, k=4, kinds=('t', 'c'))
    B = ('pre', 'raw')
    add('block2', h_block, 'circuits', '4 gates on 2 qubits', wit=B, n=2, k=4, kinds=('h', 't', 's', 'c', 'v'), how=B)
    add('block3', h_block, 'circuits', '3 gates on 3 qubits', wit=B + ('full',), n=3, k=3, kinds=('h', 't', 'c', 'v'), how=B + ('full',))
    add('refuse', h_refuse, 'other gates', '5 gates', wit=('refused',))
    add('graph2', h_graph, 'diagrams with gadgets', '2 gadgets on 2 spiders', nt=2, gadgets=2, pmax=4, tvals=(0, 1, 2))
    add('graph3', h_graph, 'diagrams with gadgets', '1 gadget on 3 spiders', nt=3, gadgets=1, tvals=(0, 1, 7))
    add('graph3b', h_graph, 'diagrams with gadgets', '2 gadgets on 3 spiders, few phases', nt=3, gadgets=2, pmax=2, tvals=(0, 1))
    c01, c12, c20, h0, h1, h2, t0, t1, t2 = ('c', 0, 1), ('c', 1, 2), ('c', 2, 0), ('h', 0), ('h', 1), ('h', 2), ('t', 0), ('t', 1), ('t', 2)
    W = [(h0, '?', t0, '?', h0, '?', t0), (c01, t1, '?', h1, '?', t1, c01), (t0, h0, '?', c01, '?', h1, t1), (h0, c01, '?', h1, '?', h0, t0), ('?', h1, c12, '?', h2, t2, '?')]
    add('words3', h_block, 'gates around fixed ones', '2 or 3 gates around 5 words on 3 qubits', wit=B, n=3, k=2, kinds=('h', 't', 'c', 'v'), how=B, words=W)
    if T:
        add('simp3t', h_simp, 'phase polynomial circuits', '5 gates on 3 qubits', n=3, k=5, kinds=('t', 'c'))
        add('block3t', h_block, 'circuits', '4 gates on 3 qubits', wit=B, n=3, k=4, kinds=('h', 't', 'c', 'v'), how=B)
        add('block2t', h_block, 'circuits', '6 gates on 2 qubits', wit=B, n=2, k=6, kinds=('h', 't', 'c', 'v'), how=B + ('full',))
        add('many4t', h_matrix, 'TODD on parity matrices', 'all matrices of 9 to 15 distinct columns with 4 rows', wit=('ok', 'shorter'), n=4, free=P4, size=range(9, 16))
    return H
