"""P31: the quimb tensor network of a diagram."""
import itertools
import math
import numpy as np
from fractions import Fraction
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
from symx.ring import R
import pyzx as zx
from pyzx import quimb as Q
from pyzx.symbolic import new_var
from .p09 import diagram, vertex

LEVEL = 'other'
EXPLANATION = ('The real conversion to a tensor network runs on diagrams with symbolic topology, vertex kinds, phases and scalars, with exact ring elements in place of floating point numbers and with stand-ins for the tensor and network classes of quimb that record what they are given. '
               'The recorded network is contracted exactly and must equal the linear map of the diagram, scalar included.')
ASSUMPTIONS = ['the classes of quimb contract a network as documented: one index per name, shared by every tensor that names it, the exponent a power of ten in front', 'phases are multiples of pi/4']
BUDGET = {'quick': 60, 'thorough': 600}
ZX = (VT.Z, VT.X)


def shims():
    from symx import ring
    ring.install()
    Q.np = ring.NP()
    Q.np.pi = ring.Pi(math.pi)


class Tensor:
    def __init__(self, data=1.0, inds=(), tags=None, **kw):
        self.data, self.inds, self.tags = np.array(data, dtype=object), tuple(inds), tags
        assert self.data.shape == (2,) * len(self.inds)

    def modify(self, data=None, inds=None, tags=None, apply=None):
        if apply is not None:
            data = apply(self.data)
        if data is not None:
            self.data = np.array(data, dtype=object)
        if inds is not None:
            self.inds = tuple(inds)
        if tags is not None:
            self.tags = tags
        assert self.data.shape == (2,) * len(self.inds)

    def __mul__(self, x):
        return Tensor(self.data * x, self.inds, self.tags)

    __rmul__ = __mul__

    def copy(self, *a, **k):
        return Tensor(self.data, self.inds, self.tags)


class TensorNetwork:
    def __init__(self, ts=(), **kw):
        self.tensors = []
        self.exponent = 0.0
        self.factor = 1
        self.spread = 0.0
        for t in ts:
            self.add(t)

    def add(self, t, **kw):
        if isinstance(t, Tensor):
            self.tensors.append(t.copy())
        elif isinstance(t, TensorNetwork):
            self.tensors += [x.copy() for x in t.tensors]
            self.exponent, self.factor, self.spread = self.exponent + t.exponent, self.factor * t.factor, self.spread + t.spread
        else:
            for x in t:
                self.add(x)

    add_tensor = add_tensor_network = __iand__ = __ior__ = add

    def multiply_(self, x, **kw):
        self.factor = self.factor * x
        return self

    multiply = multiply_

    def __imul__(self, x):
        return self.multiply_(x)

    def distribute_exponent(self):
        # spread over the tensors; without any there is nowhere to put it
        assert self.tensors or not self.exponent
        self.spread += self.exponent
        self.exponent = 0.0


class QTN:
    Tensor = Tensor
    TensorNetwork = TensorNetwork


class QU:
    @staticmethod
    def hadamard(*a, **kw):
        h = 1 / math.sqrt(2)
        return np.array([[h, h], [h, -h]], dtype=object)


def num(S, x):
    r = R.of(x) if S.symbolic else complex(x)
    if r is None:
        raise TypeError('not a number: %r' % (x,))
    return r


def network(S, g):
    Q.qu, Q.qtn = QU, QTN
    try:
        return Q.to_quimb_tensor(g)
    finally:
        Q.qu = Q.qtn = None


def contract(S, tn, outs):
    """entries over the indices outs, the first the most significant"""
    names = sorted({i for t in tn.tensors for i in t.inds} | set(outs))
    S.require(len(set(outs)) == len(outs), 'an index is used twice')
    p2 = (tn.exponent + tn.spread) / math.log10(math.sqrt(2))
    S.require(abs(p2 - round(p2)) < 1e-9, 'the exponent is not a power of the root of 2')
    f = num(S, tn.factor)
    if not S.symbolic:
        f = f * math.sqrt(2) ** round(p2)
    elif f.t:
        f = R(f.t, f.p2 + round(p2))
    res = {}
    for bits in itertools.product((0, 1), repeat=len(names)):
        b = dict(zip(names, bits))
        v = f
        for t in tn.tensors:
            x = num(S, t.data[tuple(b[i] for i in t.inds)])
            if not (x.t if S.symbolic else x):
                v = None
                break
            v = v * x
        if v is not None:
            k = tuple(b[o] for o in outs)
            res[k] = v if k not in res else res[k] + v
    zero = num(S, 0)
    a = np.empty((2,) * len(outs), dtype=object)
    for k in itertools.product((0, 1), repeat=len(outs)):
        a[k] = res.get(k, zero)
    return a


def run(S, g, msg='the network'):
    before = S.gmap(g)
    ren = {v: i for i, v in enumerate(g.vertices())}
    kinds = {v: (g.type(v), g.phase(v)) for v in g.vertices()}
    tn = network(S, g)
    S.require({v: (g.type(v), g.phase(v)) for v in g.vertices()} == kinds, 'the diagram is changed')
    S.same(S.gmap(g), before, 'the diagram is changed')
    # as for the tensors of diagrams: outputs first
    a = contract(S, tn, [str(ren[v]) for v in tuple(g.outputs()) + tuple(g.inputs())])
    S.same(S.tensor(a), before, msg)
    S.witness('ok')


def h_network(S, n, nb, scalar=False, **kw):
    nin = S.choose('nin', range(nb + 1))
    g = diagram(S, n, nb, nin, kinds=ZX, rows=(1,), brows=(0,), **kw)
    if scalar == 'phase':
        g.scalar.add_phase(S.phase('sc'))
        g.scalar.add_power(-1)
    elif scalar:
        more(S, g)
    run(S, g)


def more(S, g):
    g.scalar.add_phase(S.phase('sc'))
    g.scalar.add_power(S.choose('pw', (0, -3, 2)))
    nodes = S.choose('nodes', ('none', 'one', 'two', 'same'))
    if nodes != 'none':
        p = S.phase('nd')
        g.scalar.add_node(p)
        if nodes != 'one':
            g.scalar.add_node(p if nodes == 'same' else S.phase('nd2'))
    f = S.choose('ff', (1, 0.5, 0))
    if f != 1:
        g.scalar.add_float(f)


def h_gaps(S, backend):
    """vertex numbers with gaps; parallel edges and self-loops"""
    g = gen.new_graph(backend)
    a = [g.add_vertex(VT.BOUNDARY, 0, 0), g.add_vertex(VT.Z, 0, 0), g.add_vertex(VT.Z, 0, 0), g.add_vertex(VT.BOUNDARY, 0, 0), g.add_vertex(VT.X, 0, 0), g.add_vertex(VT.Z, 0, 0)]
    g.set_phase(a[2], S.phase('p'))
    g.set_phase(a[4], S.phase('q'))
    g.add_edge((a[0], a[2]), S.choose('e0', (ET.SIMPLE, ET.HADAMARD)))
    g.add_edge((a[4], a[3]), S.choose('e1', (ET.SIMPLE, ET.HADAMARD)))
    g.add_edge((a[2], a[4]), S.choose('e2', (ET.SIMPLE, ET.HADAMARD)))
    if backend == 'multigraph':
        g.set_auto_simplify(False)
        for i in range(S.choose('more', range(2))):
            g.add_edge((a[2], a[4]), S.choose('m%d' % i, (ET.SIMPLE, ET.HADAMARD)))
        for i in range(S.choose('loops', range(2))):
            g.add_edge((a[2], a[2]), S.choose('l%d' % i, (ET.SIMPLE, ET.HADAMARD)))
    for v in S.subset('gone', (a[1], a[5])):
        g.remove_vertex(v)
    g.set_inputs((a[0],))
    g.set_outputs((a[3],))
    run(S, g)


def h_refuse(S):
    g = gen.new_graph(S.choose('b', ('simple', 'multigraph')))
    b = g.add_vertex(VT.BOUNDARY, 0, 0)
    v = g.add_vertex(VT.Z, 0, 1, phase=S.phase('p'))
    g.add_edge((b, v))
    g.set_inputs((b,))
    how = S.choose('how', ('zero', 'box', 'zbox', 'poly', 'polyscalar', 'node'))
    if how == 'zero':
        g.scalar.is_zero = True
        g.scalar.add_phase(S.phase('s'))
        tn = network(S, g)
        S.same(S.tensor(contract(S, tn, ['0'])), S.gmap(g), 'the zero scalar')
        S.witness(how)
        return
    if how in ('box', 'zbox'):
        w = g.add_vertex(VT.H_BOX if how == 'box' else VT.Z_BOX, 0, 2)
        for i in range(S.choose('legs', range(3))):
            x = g.add_vertex(VT.Z, 0, 3)
            g.add_edge((w, x), S.choose('l%d' % i, (ET.SIMPLE, ET.HADAMARD)))
    elif how == 'poly':
        g.set_phase(v, new_var('a', False))
    elif how == 'polyscalar':
        g.scalar.add_phase(new_var('a', False))
    else:
        g.scalar.add_node(new_var('a', False))
    try:
        tn = network(S, g)
    except (NotImplementedError, ValueError):
        S.witness(how)
        return
    S.require('box' in how, 'a variable without a value is accepted')
    S.same(S.tensor(contract(S, tn, ['0'])), S.gmap(g), 'the network')
    S.witness(how)


def harnesses(tier):
    th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))

    W = 'to_quimb_tensor, to_gh'
    for b in ('simple', 'multigraph'):
        add('one_' + b, h_network, W, '1 spider, 2 boundaries', n=1, nb=2, scalar='phase', backend=b)
        add('gaps_' + b, h_gaps, W, '2 spiders in a row among removed vertices' + (', with parallel edges and loops' if b == 'multigraph' else ''), backend=b)
    add('spider', h_network, W, '1 loose spider, all scalars', n=1, nb=0, scalar=True)
    add('state', h_network, W, '1 spider, 1 boundary, all scalars', n=1, nb=1, scalar=True)
    add('none', h_network, W, 'no spiders and no wires, all scalars', n=0, nb=0, scalar=True)
    add('wires', h_network, W, 'wires only, all scalars', n=0, nb=2, scalar=True)
    add('loose', h_network, W, '2 spiders without boundaries', n=2, nb=0, scalar='phase')
    add('two', h_network, W, '2 spiders, 2 boundaries', n=2, nb=2)
    add('three', h_network, W, '3 spiders, 1 boundary', n=3, nb=1, bedges=(ET.SIMPLE,))
    add('two3', h_network, W, '2 spiders, 3 boundaries', n=2, nb=3, bedges=(ET.SIMPLE,))
    if th:
        add('three2', h_network, W, '3 spiders, 2 boundaries', n=3, nb=2)
        add('two3h', h_network, W, '2 spiders, 3 boundaries', n=2, nb=3)
    add('refuse', h_refuse, W, 'zero scalars, H-boxes, Z-boxes and variables', ('zero', 'poly', 'polyscalar', 'node'))
    return H
