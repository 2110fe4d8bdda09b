"""P28: generated circuits and diagrams."""
import contextlib
import itertools
import math
from fractions import Fraction
from symx.run import Harness
from symx import gen
import pyzx as zx
from pyzx import generate as G
from pyzx.routing.parity_maps import CNOT_tracker
from pyzx.utils import VertexType as VT, EdgeType as ET, get_z_box_label
from .p10 import double
from .p15 import eye

LEVEL = 'other'
EXPLANATION = ('The real generators run with every random choice replaced by a solver variable, so that all circuits they can produce are covered, and the angles of the circuit identities are symbolic. '
               'The map of what they return is compared exactly with that of the gates it should consist of.')
ASSUMPTIONS = ['random numbers in [0,1) are multiples of 1/1000', 'cliffords (whose scalar is not normalised) is compared up to a scalar']
BUDGET = {'quick': 70, 'thorough': 900}
FINE = 1000


class Real:
    """a random number i/1000 in [0,1) with a symbolic i"""

    def __init__(self, i):
        self.i = i

    def __gt__(self, c):
        return self.i > math.floor(c * FINE + 1e-9)

    def __le__(self, c):
        return self.i <= math.floor(c * FINE + 1e-9)

    def __lt__(self, c):
        return self.i < math.ceil(c * FINE - 1e-9)

    def __ge__(self, c):
        return self.i >= math.ceil(c * FINE - 1e-9)


class Rnd:
    """arbitrary random numbers"""

    def __init__(self, S, name='r'):
        self.S, self.name, self.n, self.log, self.cap = S, name, 0, [], None

    def _pick(self, xs):
        self._count()
        xs = list(xs)
        if not xs:
            raise ValueError('empty range')
        r = self.S.choose('%s%d' % (self.name, self.n), xs)
        self.log.append(r)
        return r

    def _count(self):
        self.n += 1
        if self.cap is not None:
            self.S.assume(self.n <= self.cap)

    def random(self):
        self._count()
        r = Real(self.S.int('%s%d' % (self.name, self.n), 0, FINE - 1))
        self.log.append(r)
        return r

    def rand(self):
        return self.random()

    def randrange(self, a, b=None):
        return self._pick(range(a) if b is None else range(a, b))

    def randint(self, a, b=None):
        return self._pick(range(a, b + 1))

    def choice(self, xs, size=None, replace=True, p=None):
        return self._pick(range(xs) if isinstance(xs, int) else xs)

    def seed(self, *a):
        pass


class NRnd(Rnd):
    def randint(self, a, b=None):
        return self._pick(range(a) if b is None else range(a, b))


@contextlib.contextmanager
def randomness(S, name='r'):
    import numpy
    py, npr = Rnd(S, name), NRnd(S, name)
    npr._pick, npr.random = py._pick, py.random

    class NP:
        random = npr

        def __getattr__(self, k):
            return getattr(numpy, k)
    old = G.random, G.np
    G.random, G.np = py, NP()
    try:
        yield py
    finally:
        G.random, G.np = old


def placed(S, g, n):
    """the i-th input and output lie on the i-th qubit"""
    S.require([g.qubit(v) for v in g.inputs()] == list(range(n)) and [g.qubit(v) for v in g.outputs()] == list(range(n)), 'inputs and outputs are not in the order of the qubits')
    S.require(all(g.vertex_degree(v) == 1 for v in g.inputs() + g.outputs()), 'a boundary without a wire')


def read(S, g):
    return zx.Circuit.from_graph(g.copy())


def h_cnots(S, n, most, backend):
    d = S.choose('depth', range(most + 1))
    with randomness(S):
        g = G.cnots(n, d, backend=backend)
    placed(S, g, n)
    c = read(S, g)
    S.require(len(c.gates) == d and all(type(x).__name__ == 'CNOT' for x in c.gates), 'the diagram does not consist of the CNOTs asked for')
    S.same(S.gmap(g), S.cmap(c.gates, n), 'a diagram of CNOTs')
    S.witness('ok')


def h_parity(S, n, most):
    d = S.choose('cnots', range(most + 1))
    ts = [CNOT_tracker(n), CNOT_tracker(n)]
    how = S.choose('how', ('none', 'one', 'list'))
    with randomness(S):
        m = G.build_random_parity_map(n, d, **({} if how == 'none' else {'circuit': ts[0] if how == 'one' else ts}))
    rows = [[int(x) for x in r] for r in m]
    for t in ts[:{'none': 0, 'one': 1, 'list': 2}[how]]:
        a = eye(n)
        for x in t.gates:
            S.require(type(x).__name__ == 'CNOT', 'a gate that is not a CNOT')
            a[x.target] = [p ^ q for p, q in zip(a[x.target], a[x.control])]
        S.require(len(t.gates) == d and [list(r) for r in a] == rows, 'the gates do not implement the parity map')
        S.require([[int(x) for x in r] for r in t.matrix.data] == rows, 'the tracked matrix')
        S.witness('ok')


def kinds(c):
    return [type(x).__name__ for x in c.gates]


def h_chp(S, n, most):
    d = S.choose('depth', range(most + 1))
    cl = S.flag('clifford')
    ph, pt = S.choose('p', ((0.2, 0.2), (0.0, 0.4), (0.6, 0.0), (0.5, 0.5)))
    with randomness(S) as r:
        r.cap = 3 * d + 2
        try:
            c = G.CNOT_HAD_PHASE_circuit(n, d, p_had=ph, p_t=pt, clifford=cl)
        except ValueError:
            S.require(n == 1 and [x for x in r.log if isinstance(x, Real)][-1] <= 1 - ph - pt, 'a circuit that exists is refused')
            S.witness('refused')
            return
    S.require(c.qubits == n and len(c.gates) == d, 'number of gates')
    for x, q in zip(c.gates, [x for x in r.log if isinstance(x, Real)]):
        want = 'HAD' if q > 1 - ph else ('S' if cl else 'T') if q > 1 - ph - pt else 'CNOT'
        S.require(type(x).__name__ == want, 'kinds of gates')
        if want == 'CNOT':
            S.require({x.control, x.target} <= set(range(n)) and x.control != x.target, 'qubits of a CNOT')
        else:
            S.require(x.target in range(n) and not getattr(x, 'adjoint', False), 'a one-qubit gate')
    S.witness('ok')


PROBS = ((None,) * 4, (0.1, 0.2, 0.3, 0.4), (0.25, None, 0.25, None), (0.5, 0.5, 0, 0), (None, 0.3, None, 0.4), (0, 0, 0.5, 0.5), (1, 0, 0, 0))


def h_clifft(S, n, most, backend, measure=False):
    """every branch of the generator, with the exact scalar"""
    d = S.choose('depth', range(most + 1))
    pr = S.choose('p', PROBS[:2] + ((0.25, None, 0.25, None),))
    if measure:
        pr = pr[:1] + (0.1,) + (pr[2] and 0.2, pr[3] and 0.2)
    with randomness(S):
        g = (G.cliffordTmeas if measure else G.cliffordT)(n, d, *pr, backend=backend)
    placed(S, g, n)
    if not measure:
        S.require(not g.grounds(), 'a measurement')
        c = read(S, g)
        S.same(S.gmap(g), S.cmap(c.gates, n), 'diagram and circuit')
        ks = [(type(x).__name__, x.phase if hasattr(x, 'phase') else None) for x in c.gates]
        ok = {('CNOT', None), ('ZPhase', Fraction(1, 4)), ('ZPhase', Fraction(1, 2)), ('XPhase', Fraction(1, 2)), ('T', Fraction(1, 4)), ('S', Fraction(1, 2))}
        S.require(set(ks) <= ok and len(ks) <= d, 'kinds of gates')
        S.require(len(ks) == d, 'number of gates')
        for k in {k[0] + str(k[1]) for k in ks}:
            S.witness(k)
    else:
        # the map is trace preserving: discarding the outputs leaves the discarded inputs
        h = g.copy()
        for w in h.outputs():
            h.set_type(w, VT.Z)
            h.set_ground(w)
        h.set_outputs(())
        if g.grounds():
            S.witness('measured')
        r = zx.Graph('multigraph')
        r.set_auto_simplify(False)
        ins = []
        for _ in range(n):
            a, b, z = r.add_vertex(VT.BOUNDARY), r.add_vertex(VT.BOUNDARY), None
            r.add_edge((a, b), ET.SIMPLE)
            ins.append((a, b))
        r.set_inputs(tuple(a for a, b in ins) + tuple(b for a, b in ins))
        S.same_upto(S.gmap(double(h)), S.gmap(r), 'measurements do not preserve the trace')
    S.witness('ok')


def h_odds(S):
    """the share of random numbers that leads to each kind of gate is the probability asked for"""
    names = ('t', 's', 'hsh', 'cnot', 'meas')
    pr = {k: S.choose('p_' + k, (None, 0.1, 0.2, 0.5)) for k in names}
    given = sum(int(round(10 * v)) for v in pr.values() if v is not None)
    free = [k for k in names if pr[k] is None]
    want = {k: (Fraction(10 - given, 10 * len(free)) if pr[k] is None else Fraction(int(round(10 * pr[k])), 10)) for k in names}
    seq = [(i + 0.5) / 60 for i in range(60)]
    it = []
    o = G.random

    class R:
        @staticmethod
        def random():
            it.append(1)
            return seq[len(it) - 1]

        @staticmethod
        def randrange(a, b=None):
            return 0 if b is None else a

        @staticmethod
        def randint(a, b):
            return a

        @staticmethod
        def choice(xs):
            return xs[0]
    G.random = R
    try:
        g = G.cliffordTmeas(2, 60, **{'p_' + k: v for k, v in pr.items()})
    except ValueError:
        S.require(given > 10, 'probabilities that do not exceed 1 are refused')
        S.witness('refused')
        return
    finally:
        G.random = o
    S.require(given <= 10, 'probabilities above 1 are accepted')
    got = dict.fromkeys(names, 0)
    for v in g.vertices():
        if v < 4 or g.row(v) < 2 or g.row(v) >= 62:
            continue
        if g.qubit(v) == 1:
            got['cnot'] += 1
        elif g.is_ground(v):
            got['meas'] += 1
        elif g.type(v) == VT.X:
            got['hsh'] += 1
        elif g.phase(v) == Fraction(1, 2):
            got['s'] += 1
        elif g.phase(v) == Fraction(1, 4):
            got['t'] += 1
    if given == 10 or free:
        S.require(all(abs(got[k] - 60 * want[k]) <= 1 for k in names), 'the probabilities of the kinds of gates')
    S.witness('ok')


def h_cliffords(S, n, most, backend):
    d = S.choose('depth', range(most + 1))
    nh, tg = S.flag('no_hadamard'), S.flag('t_gates')
    with randomness(S):
        o = G.random_phase
        G.random_phase = lambda t: (S.require(t == tg, 't_gates'), Fraction(1, 4 if t else 2))[1]
        try:
            g = G.cliffords(n, d, no_hadamard=nh, t_gates=tg, backend=backend)
        finally:
            G.random_phase = o
    placed(S, g, n)
    S.require(not nh or all(g.edge_type(e) == ET.SIMPLE for e in g.edges()), 'a Hadamard edge')
    S.require(all(g.phase(v) == 0 or g.phase(v) == Fraction(1, 4 if tg else 2) for v in g.vertices()), 'phases')
    c = read(S, g)
    S.same_upto(S.gmap(g), S.cmap(c.gates, n), 'diagram and circuit')
    S.witness('ok')


def h_phase(S):
    """the phases of cliffords"""
    t = S.flag('t')
    with randomness(S):
        p = G.random_phase(t)
    S.require((4 if t else 2) * p % 1 == 0 and 0 < p <= 2, 'random phases')
    p = S.choose('p', (0, 0.05, 0.5, 0.95, 1.0))
    with randomness(S, 's') as r:
        a = G.accept(p)
    S.require(bool(a) == bool(r.log[0] < p), 'acceptance')
    S.witness('ok')


def h_poly(S, n, layers, cn):
    with randomness(S):
        c = G.phase_poly(n, layers, cn)
    ks = kinds(c)
    S.require(c.qubits == n and ks == (['CNOT'] * cn + ['ZPhase'] * n) * layers, 'layers of CNOTs and phases')
    a = eye(n)
    for x in c.gates:
        if type(x).__name__ == 'CNOT':
            a[x.target] = [p ^ q for p, q in zip(a[x.target], a[x.control])]
        else:
            S.require(x.phase in [s * Fraction(1, k) for s in (1, -1) for k in (1, 2, 4)], 'phases')
    S.require(all({x.target for x in c.gates[i + cn:i + cn + n]} == set(range(n)) for i in range(0, len(c.gates), cn + n)), 'a phase on every qubit')
    S.require([[int(x) for x in r] for r in c.matrix.data] == [list(r) for r in a], 'the tracked matrix')
    S.witness('ok')


def h_approx(S, n, cn, ph, cap):
    k = S.choose('cnots', range(1, cn + 1))
    p = S.choose('phases', range(ph + 1))
    with randomness(S) as r:
        r.cap = cap
        c = G.phase_poly_approximate(n, k, p)
    S.require(c.qubits == n and kinds(c).count('CNOT') == k and set(kinds(c)) <= {'CNOT', 'ZPhase'}, 'number of CNOTs')
    if p == 0:
        S.require(len(c.gates) == k, 'phases that were not asked for')
    for x in c.gates:
        S.require(x.target in range(n) and (type(x).__name__ == 'ZPhase' or (x.control in range(n) and x.control != x.target)), 'qubits')
        S.require(type(x).__name__ == 'CNOT' or x.phase in [s * Fraction(1, m) for s in (1, -1) for m in (1, 2, 4)], 'phases')
    if 'ZPhase' in kinds(c):
        S.witness('ok')


def h_identities(S, which):
    if which == 'phasepoly':
        c = G.circuit_identity_phasepoly()
    elif which == 'controls':
        c = G.circuit_identity_commuting_controls(S.phase('a', 4), S.phase('b', 4))
    elif which == 'two1':
        c = G.circuit_identity_two_qubit1()
    else:
        c = G.circuit_identity_two_qubit2()
    S.require(len(c.gates) > 10, 'gates')
    S.same_uptophase(S.cmap(c.gates, c.qubits), S.cmap([], c.qubits), 'not the identity')
    S.witness('ok')


def h_identity(S):
    n, d, b = S.choose('n', range(4)), S.choose('d', (1, 2, 5, 0.5)), S.choose('b', (None, 'simple', 'multigraph'))
    g = G.identity(n, d, b)
    placed(S, g, n)
    S.require(all(g.row(v) == 0 for v in g.inputs()) and all(g.row(v) == d for v in g.outputs()), 'rows')
    S.require(g.backend == ('simple' if b in (None, 'simple') else 'multigraph'), 'backend')
    S.same(S.gmap(g), S.cmap([], n), 'identity')
    S.witness('ok')


def h_spider(S, most):
    t = S.choose('t', ('Z', 'X', 'H', 'W', 'ZBox'))
    T = {'Z': VT.Z, 'X': VT.X, 'H': VT.H_BOX, 'W': VT.W_OUTPUT, 'ZBox': VT.Z_BOX}[t]
    typ = t if S.flag('name') else T
    i, o = S.choose('i', range(most + 1)), S.choose('o', range(most + 1))
    r = zx.Graph()
    if t == 'W':
        ph = None
        try:
            g = G.spider(typ, i, o)
        except ValueError:
            S.require(i != 1, 'a W-node with one input')
            S.witness('refused')
            return
        S.require(i == 1, 'a W-node with several inputs')
        vi, vo = r.add_vertex(VT.W_INPUT), r.add_vertex(VT.W_OUTPUT)
        r.add_edge((vi, vo), ET.W_IO)
    else:
        if t == 'ZBox':
            ph = S.choose('l', (1, -1, 0.5, 1j, None, 0))
        elif t == 'H':
            ph = S.phase('p', 4)
        else:
            ph = None if S.flag('none') else S.phase('p', 4)
        g = G.spider(typ, i, o, ph) if ph is not None else G.spider(typ, i, o)
        if t == 'ZBox':
            vi = vo = r.add_vertex(VT.Z_BOX)
            r.set_vdata(vi, 'label', 1 if ph is None else ph)
        else:
            vi = vo = r.add_vertex(T, phase=0 if ph is None else ph)
    ins = [r.add_vertex(VT.BOUNDARY) for _ in range(i)]
    outs = [r.add_vertex(VT.BOUNDARY) for _ in range(o)]
    for b in ins:
        r.add_edge((vi, b), ET.SIMPLE)
    for b in outs:
        r.add_edge((vo, b), ET.SIMPLE)
    r.set_inputs(tuple(ins))
    r.set_outputs(tuple(outs))
    placed_ok = [g.qubit(v) for v in g.inputs()] == list(range(i)) and [g.qubit(v) for v in g.outputs()] == list(range(o))
    S.require(placed_ok and len(g.inputs()) == i and len(g.outputs()) == o, 'inputs and outputs')
    S.require(g.num_vertices() == i + o + (2 if t == 'W' else 1), 'a single spider')
    S.same(S.gmap(g), S.gmap(r), 'a spider')
    S.witness('ok')


def harnesses(tier):
    th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))

    for n, k in ((2, 4), (3, 4)) if not th else ((2, 6), (3, 5), (4, 3)):
        for b in ('simple', 'multigraph') if n == 2 else ('simple',):
            add('cnots%d_%s' % (n, b), h_cnots, 'cnots', '%d qubits, up to %d CNOTs, all choices' % (n, k), n=n, most=k, backend=b)
    add('parity3', h_parity, 'build_random_parity_map', '3 qubits, up to 2 CNOTs', n=3, most=2 if not th else 3)
    add('chp1', h_chp, 'CNOT_HAD_PHASE_circuit', 'one qubit, up to 2 gates', ('ok', 'refused'), n=1, most=2)
    add('chp', h_chp, 'CNOT_HAD_PHASE_circuit', '2 qubits, up to 2 gates', n=2, most=2 if not th else 3)
    for n, k in ((2, 3), (3, 2)):
        add('cliffordT%d' % n, h_clifft, 'cliffordT', '%d qubits, up to %d gates, all choices' % (n, k), ('ok', 'CNOTNone'), n=n, most=k + th, backend='simple' if n == 2 else 'multigraph')
    add('measure2', h_clifft, 'cliffordTmeas', '2 qubits, up to 3 gates', ('ok', 'measured'), n=2, most=3 if not th else 4, backend='simple', measure=True)
    add('odds', h_odds, 'cliffordTmeas', 'probabilities from {absent, 0.1, 0.2, 0.5}', ('ok', 'refused'))
    for n, k in ((2, 2), (3, 1)) if not th else ((2, 3), (3, 2)):
        add('cliffords%d' % n, h_cliffords, 'cliffords', '%d qubits, up to %d gates, all choices' % (n, k), n=n, most=k, backend='simple' if n == 2 else 'multigraph')
    add('phase', h_phase, 'random_phase, accept', 'all choices')
    add('poly2', h_poly, 'phase_poly', '2 qubits, 2 layers of one CNOT', n=2, layers=1 if not th else 2, cn=2)
    add('poly3', h_poly, 'phase_poly', '3 qubits', n=3, layers=1, cn=1)
    add('approx', h_approx, 'phase_poly_approximate', '2-3 qubits, 1-2 CNOTs, up to 12 draws', n=2, cn=2, ph=2, cap=10 if not th else 14)
    for w in ('phasepoly', 'controls', 'two1', 'two2'):
        add('id_' + w, h_identities, 'circuit_identity_' + w, 'all angles', which=w)
    add('identity', h_identity, 'identity', 'up to 3 qubits')
    add('spider', h_spider, 'spider', 'all kinds, up to 3 inputs and outputs', ('ok', 'refused'), most=3)
    return H
