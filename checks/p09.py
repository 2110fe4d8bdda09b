"""P09: the tensor of a diagram is its linear map; comparing tensors decides equality."""
from fractions import Fraction
import numpy as np
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx import tensor as T
from pyzx.utils import set_z_box_label
from checks.p06 import dagger

LEVEL = 'other'
EXPLANATION = ('The tensor code runs with exact ring elements in place of floating point numbers, on diagrams with symbolic topology, vertex kinds, '
               'positions and phases; the resulting tensor must equal, entry by entry and for every phase, the linear map computed by an independent '
               'path-sum evaluation. Tensor comparison is executed on symbolic choices of tensors and must agree with exact equality up to scalar.')
ASSUMPTIONS = ['phases are multiples of pi/4 (equality of the normal forms holds for all real phases)', 'the floating point rounding of numpy is not modelled']
BUDGET = {'quick': 90, 'thorough': 1200}
KINDS = (VT.Z, VT.X, VT.H_BOX, VT.Z_BOX)


def shims():
    from symx import ring
    ring.install()


def vertex(S, g, nm, kinds, q, r, phases=None):
    t = S.choose(nm + 'k', kinds)
    v = g.add_vertex(t, q, r)
    if t == VT.Z_BOX:
        set_z_box_label(g, v, S.choose(nm + 'lab', (2, -1j, 0)))
    else:
        g.set_phase(v, S.phase(nm + 'p') if phases is None else S.choose(nm + 'p', phases))
    return v


def diagram(S, n, nb, nin, kinds=KINDS, rows=(1, 2), brows=(0, 3), backend=None, edges=(None, ET.SIMPLE, ET.HADAMARD), bedges=(ET.SIMPLE, ET.HADAMARD), first=False, phases=None):
    g = gen.new_graph(backend)
    bs = []

    def bounds():
        for k in range(nb):
            bs.append(g.add_vertex(VT.BOUNDARY, k, S.choose('br%d' % k, brows)))
    if first:
        bounds()
    vs = [vertex(S, g, 'v%d' % i, kinds, i, S.choose('r%d' % i, rows), phases) for i in range(n)]
    for i in range(n):
        for j in range(i):
            e = S.choose('e%d_%d' % (j, i), edges)
            if e is not None:
                g.add_edge((vs[j], vs[i]), e)
    if not first:
        bounds()
    left = set(range(nb))
    for k in range(nb):
        if k not in left:
            continue
        left.discard(k)
        t = S.choose('b%d' % k, [('v', v) for v in range(n)] + [('b', x) for x in sorted(left)])
        et = S.choose('be%d' % k, bedges)
        if t[0] == 'v':
            g.add_edge((bs[k], vs[t[1]]), et)
        else:
            left.discard(t[1])
            g.add_edge((bs[k], bs[t[1]]), et)
            S.witness('wire')
    g.set_inputs(tuple(bs[:nin]))
    g.set_outputs(tuple(bs[nin:]))
    return g


def h_tensor(S, n, nb, scalar=True, order=False, **kw):
    nin = S.choose('nin', range(nb + 1))
    g = diagram(S, n, nb, nin, **kw)
    if scalar:
        g.scalar.add_phase(S.phase('sc'))
        g.scalar.add_node(S.phase('sn'))
        g.scalar.add_power(-3)
    if order:
        g.set_inputs(tuple(S.permutation('pi', g.inputs())))
        g.set_outputs(tuple(S.permutation('po', g.outputs())))
    t = g.to_tensor()
    S.witness('ok')
    S.require(t.shape == (2,) * nb, 'shape of the tensor')
    S.same(S.tensor(t), S.gmap(g), 'tensor of a diagram')
    m = g.to_matrix()
    S.require(m.shape == (2 ** (nb - nin), 2 ** nin), 'shape of the matrix')
    S.same(S.tensor(m), S.gmap(g), 'matrix of a diagram')


def h_w(S, nout, backend):
    """a W node with its legs to a box, boundaries and another W node, through plain or Hadamard edges"""
    g = gen.new_graph(backend)
    r = lambda nm: S.choose('r' + nm, (1, 2))
    order = S.choose('order', range(3))
    def wnode():
        a = [g.add_vertex(VT.W_INPUT, 0, r('wi')), None]
        a[1] = g.add_vertex(VT.W_OUTPUT, 0, r('wo'))
        return a
    if order == 0:
        wi, wo = wnode()
    z = vertex(S, g, 'z', (VT.Z, VT.H_BOX), 1, r('z'))
    if order == 1:
        wi, wo = wnode()
    bs = [g.add_vertex(VT.BOUNDARY, i, S.choose('rb%d' % i, (0, 3) if i == 0 else (3,))) for i in range(nout)]
    if order == 2:
        wi, wo = wnode()
    g.add_edge((wi, wo), ET.W_IO)
    et = lambda nm: S.choose(nm, (ET.SIMPLE, ET.HADAMARD))
    g.add_edge((z, wo), et('zo'))
    g.add_edge((bs[0], wi), et('bi'))
    for i in range(1, nout):
        g.add_edge((bs[i], S.choose('t%d' % i, (wo, z)) if i == nout - 1 else wo), et('b%d' % i))
    g.set_outputs(tuple(bs))
    S.witness('ok')
    S.same(S.tensor(g.to_tensor()), S.gmap(g), 'tensor of a diagram with a W node')


def h_noscalar(S, n, nb):
    """without the scalar the tensor is proportional to the map with a fixed nonzero factor"""
    g = diagram(S, n, nb, 0, kinds=(VT.Z, VT.X), rows=(1,), brows=(3,), edges=(ET.SIMPLE, ET.HADAMARD), phases=(Fraction(1, 4), Fraction(1), 0))
    g.scalar.add_power(5)
    g.scalar.add_phase(Fraction(1, 4))
    S.witness('ok')
    S.same(S.tensor(g.to_tensor(preserve_scalar=False)), S.gmap(g, scalar=False), 'tensor without the scalar')


def h_deep(S, n):
    """a diagram of many rows whose entries become very small"""
    g = zx.Graph()
    for k in range(n):
        v = g.add_vertex(VT.Z_BOX if k % 4 == 0 else VT.Z, k % 2, k)
        if k % 4 == 0:
            set_z_box_label(g, v, Fraction(-63, 64))
    at = S.choose('at', (0, n // 2, n))
    v = g.add_vertex(S.choose('k', (VT.Z, VT.X)), 3, at, S.phase('p'))
    o = g.add_vertex(VT.BOUNDARY, 3, n + 1)
    g.add_edge((v, o), S.choose('e', (ET.SIMPLE, ET.HADAMARD)))
    g.set_outputs((o,))
    S.witness('ok')
    S.same(S.tensor(g.to_tensor()), S.gmap(g), 'tensor of a deep diagram')


def h_circuit(S, nq, k):
    from symx.gen import circuit, slot
    c = zx.Circuit(nq)
    for i in range(k):
        gt = S.choose('g%d' % i, ('HAD', 'T', 'ZPhase', 'XPhase', 'CNOT', 'CZ', 'SWAP'))
        q = S.choose('q%d' % i, range(nq))
        if gt in ('CNOT', 'CZ', 'SWAP'):
            u = S.choose('u%d' % i, [x for x in range(nq) if x != q])
            c.add_gate(gt, q, u)
        elif gt in ('ZPhase', 'XPhase'):
            c.add_gate(gt, q, phase=S.phase('p%d' % i))
        else:
            c.add_gate(gt, q)
    S.witness('ok')
    want = S.cmap(c.gates, nq)
    S.same_uptophase(S.tensor(c.to_tensor()), want, 'tensor of a circuit')
    S.same_uptophase(S.tensor(c.to_matrix()), want, 'matrix of a circuit')


def h_compose(S, q):
    """composition and adjoint of circuit tensors"""
    def circ(nm):
        c = zx.Circuit(q)
        c.add_gate('ZPhase', S.choose(nm + 'q', range(q)), phase=S.phase(nm + 'p'))
        c.add_gate('CNOT', S.choose(nm + 'c', range(q)), S.choose(nm + 'd', range(1))) if False else None
        x = S.choose(nm + 'g', ('CNOT01', 'CNOT10', 'HAD', 'YPhase'))
        if x == 'HAD':
            c.add_gate('HAD', 0)
        elif x == 'YPhase':
            c.add_gate('YPhase', 1, phase=Fraction(1, 4))
        else:
            c.add_gate('CNOT', int(x[4]), int(x[5]))
        return c
    a, b = circ('a'), circ('b')
    ta, tb = a.to_graph().to_tensor(), b.to_graph().to_tensor()
    S.witness('ok')
    want = S.gmap((a + b).to_graph())
    S.same(S.tensor(T.compose_tensors(ta, tb)), want, 'compose_tensors')
    S.same(S.tensor(T.adjoint(ta)), dagger(S, S.tensor(ta), q, q), 'adjoint')


VALS = (0, 1, -1, 1j, 0.5)


def h_compare(S, shape, scale):
    """tensors with symbolic entries; comparison against exact proportionality"""
    n = int(np.prod(shape))
    a = np.array([S.choose('a%d' % i, VALS) for i in range(n)], dtype=complex)
    how = S.choose('how', ('scaled', 'free'))
    if how == 'scaled':
        z = S.choose('z', (1, -1, 1j, 2, 1e-3, 1e6 + 1e6j))
        b = a * z
        if S.flag('perturb'):
            i = S.choose('i', range(n))
            b[i] += z * S.choose('d', (1, -0.5j))
    else:
        b = np.array([S.choose('b%d' % i, (0, 1, 1j)) for i in range(n)], dtype=complex)
    exact = lambda x, y: all(x[i] * y[j] == x[j] * y[i] for i in range(n) for j in range(n)) and (not x.any()) == (not y.any())
    prop = close(a, b)
    eq = bool(np.abs(a - b).max() <= 1e-9 * max(np.abs(a).max(), np.abs(b).max()))
    ta, tb = a.reshape(shape) * scale, b.reshape(shape) * scale
    r = T.compare_tensors(ta, tb)
    S.witness('equal' if prop else 'different')
    S.require(bool(r) == prop, 'compare_tensors says %s' % r)
    S.require(bool(T.compare_tensors(ta, tb, True)) == eq, 'compare_tensors with scalar')
    if prop and a.any():
        z = T.find_scalar_correction(ta, tb)
        S.require(abs(ta - z * tb).max() <= 1e-7 * abs(ta).max(), 'find_scalar_correction')


def close(a, b):
    """exact proportionality decided independently (cross products)"""
    if not a.any() or not b.any():
        return not a.any() and not b.any()
    m = max(np.abs(a)) * max(np.abs(b))
    return bool(np.abs(np.outer(a, b) - np.outer(b, a)).max() <= 1e-9 * m)


def h_shapes(S):
    k = lambda nm: np.ones((2,) * S.choose(nm, range(4)))
    a, b = k('a'), k('b')
    S.witness('ok')
    S.require(bool(T.compare_tensors(a, b)) == (a.shape == b.shape), 'tensors of different shape compare equal')
    S.require(bool(T.compare_tensors(a, b, True)) == (a.shape == b.shape), 'tensors of different shape compare equal')


def h_unitary(S, n, nb, phases=None):
    nin = S.choose('nin', range(nb + 1))
    g = diagram(S, n, nb, nin, kinds=(VT.Z, VT.X), rows=(1,), brows=(0,), edges=(None, ET.HADAMARD), phases=phases)
    m = np.array(g.to_matrix(), dtype=object)
    m = np.array([complex(x) for x in m.flat]).reshape(m.shape)
    ad = m @ m.conj().T
    want = m.shape[0] == m.shape[1] and abs(ad[0, 0]) > 1e-9 and bool(np.allclose(ad / ad[0, 0], np.eye(len(ad))))
    r = T.is_unitary(g)
    S.witness(str(want))
    S.require(bool(r) == want, 'is_unitary says %s' % r)


def h_bad(S):
    g = zx.Graph()
    v = g.add_vertex(VT.Z, 0, 1)
    b = g.add_vertex(VT.BOUNDARY, 0, 2)
    g.add_edge((v, b))
    k = S.choose('k', ('io', 'ground', 'poly', 'ok'))
    if k != 'io':
        g.set_outputs((b,))
    if k == 'ground':
        g.set_ground(v)
    if k == 'poly':
        from pyzx.symbolic import new_var
        g.set_phase(v, new_var('a', False))
    try:
        g.to_tensor()
    except ValueError:
        S.require(k != 'ok', 'valid diagram refused')
        S.witness('refused')
        return
    S.require(k == 'ok', 'a tensor was returned for a diagram without one (%s)' % k)


def harnesses(tier):
    Th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('t1', h_tensor, 'tensor of a diagram', '1 vertex of 4 kinds, 3 boundaries anywhere, all input/output splits', wit=('ok', 'wire'), n=1, nb=3, rows=(1,), brows=(0, 2), scalar=False)
    add('scalar', h_tensor, 'tensor of a diagram with a scalar', '1 vertex of 4 kinds, 2 boundaries, symbolic scalar', wit=('ok', 'wire'), n=1, nb=2, rows=(1,), brows=(0,))
    add('t1b', h_tensor, 'tensor of a diagram, boundaries created first', '1 vertex of 2 kinds, 3 boundaries', wit=('ok', 'wire'), n=1, nb=3, first=True, kinds=(VT.Z, VT.H_BOX), scalar=False)
    add('t2', h_tensor, 'tensor of a diagram', '2 vertices of 4 kinds, 2 boundaries', wit=('ok',), n=2, nb=2, rows=(1, 2) if Th else (1,), brows=(0,), scalar=False)
    add('t3', h_tensor, 'tensor of a diagram', '3 spiders, 1 boundary', wit=('ok',), n=3, nb=1, kinds=(VT.Z, VT.X), rows=(1,), brows=(3,), bedges=(ET.SIMPLE,), scalar=False)
    add('order', h_tensor, 'order of inputs and outputs', '1 spider, 4 boundaries, permuted inputs and outputs', wit=('ok', 'wire'), n=1, nb=4, kinds=(VT.Z,), rows=(1,), brows=(0,), bedges=(ET.HADAMARD,), order=True, scalar=False)
    add('wires', h_tensor, 'diagrams made of wires', '4 boundaries at symbolic rows', wit=('wire',), n=0, nb=4, brows=(0, 1), scalar=False)
    for b in ('simple', 'multigraph'):
        add('w_%s' % b, h_w, 'W nodes (%s)' % b, 'one W node, 1 box, 3 boundaries, symbolic positions and edge types', wit=('ok',), nout=3, backend=b)
    add('multi', h_tensor, 'tensor of a multigraph', '2 vertices, 2 boundaries', wit=('ok',), n=2, nb=2, rows=(1,), brows=(0,), backend='multigraph', kinds=(VT.Z, VT.X), scalar=False)
    add('noscalar', h_noscalar, 'tensor without the scalar', '2 spiders, 2 outputs', wit=('ok',), n=2, nb=2)
    add('deep', h_deep, 'tensor of a diagram with many rows and small entries', '25 rows, isolated boxes of value 1/64, one spider with symbolic kind, place and phase', wit=('ok',), n=25)
    add('circuit', h_circuit, 'tensor of a circuit', '2 qubits, 2 gates of 7 kinds', wit=('ok',), nq=2, k=2)
    add('compose', h_compose, 'composition and adjoint of tensors', '2 qubits', wit=('ok',), q=2)
    add('compare', h_compare, 'comparing tensors', '3 entries from 5 values, all pairs', wit=('equal', 'different'), shape=(3,), scale=1.0)
    add('compare_tiny', h_compare, 'comparing tensors with small entries', '2 entries from 5 values', wit=('equal', 'different'), shape=(2,), scale=1e-9)
    add('shapes', h_shapes, 'comparing tensors of different shape', '0-3 indices', wit=('ok',))
    add('unitary', h_unitary, 'is_unitary', '2 spiders, 2 boundaries', wit=('True', 'False'), n=2, nb=2, phases=(0, Fraction(1), Fraction(1, 2)) if not Th else None)
    add('unitary1', h_unitary, 'is_unitary', '1 spider with symbolic phase, 2 boundaries', wit=('True', 'False'), n=1, nb=2)
    add('bad', h_bad, 'diagrams without a tensor', '4 kinds', wit=('refused',))
    if Th:
        add('t2_full', h_tensor, 'tensor of a diagram', '2 vertices of 4 kinds, 3 boundaries', wit=('ok',), n=2, nb=3)
        add('t4', h_tensor, 'tensor of a diagram', '4 spiders', wit=('ok',), n=4, nb=1, kinds=(VT.Z, VT.X), rows=(1,), brows=(3,), bedges=(ET.SIMPLE,), scalar=False)
    return H
