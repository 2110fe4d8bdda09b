"""P25: sums of stabiliser diagrams and simulation."""
import contextlib
import io
import itertools
from fractions import Fraction
import numpy as np
from symx.run import Harness
from symx import gen, sem
from symx import amp as A
import pyzx as zx
from pyzx import simulate as SM
from pyzx.simulate import SumGraph, replace_magic_states, find_stabilizer_decomp, calculate_path_sum, max_terms_needed
from pyzx.utils import VertexType as VT, EdgeType as ET
from .p18 import snap

LEVEL = 'other'
EXPLANATION = ('The real decomposition and simulation code runs on diagrams whose wires and phases are solver variables; every branch on one is decided by the solver. '
               'The sum of the maps of the terms is computed independently as an exact expression in Z[zeta_8, 1/sqrt 2] and the phases, and compared with the map of the original for all values.')
ASSUMPTIONS = ['the random choice of spiders, effects and outcomes is replaced by an arbitrary choice (a solver variable)', 'the irrational constants of the decompositions are identified to 1e-7']
BUDGET = {'quick': 100, 'thorough': 900}


def shims():
    from symx import ring
    ring.install()


ODD = tuple(Fraction(k, 4) for k in (1, 3, 5, 7))
HE = (None, ET.HADAMARD)


class Rnd:
    """the random module, answering with solver variables"""
    def __init__(self, S, rot=False):
        self.S, self.n, self.rot = S, 0, rot

    def _name(self, k):
        self.n += 1
        return '%s%d' % (k, self.n)

    def sample(self, xs, k):
        xs = list(xs)
        if self.rot:
            r = self.S.choose(self._name('sample'), range(len(xs)))
            return (xs[r:] + xs[:r])[:k]
        return list(self.S.choose(self._name('sample'), list(itertools.permutations(xs, k))))

    def randint(self, a, b):
        return self.S.choose(self._name('randint'), range(a, b + 1))

    def random(self):
        return self.S.choose(self._name('random'), (0.0, 0.75))

    def seed(self, *a):
        pass


@contextlib.contextmanager
def randomness(r):
    o = SM.random
    SM.random = r
    try:
        yield r
    finally:
        SM.random = o


def plus(xs):
    t = xs[0]
    for x in xs[1:]:
        t = A.add(t, x) if isinstance(t, A.Amp) else t + x
    return t


def nothing(S, g):
    h = g.copy()
    h.scalar.is_zero = True
    return S.gmap(h)


def odd(S, name):
    return S.phase(name, vals=ODD)


def total(S, graphs, like):
    return plus([S.gmap(h) for h in graphs] or [nothing(S, like)])


def h_six(S, wires=0, pick=True, legs=6):
    """six T-like spiders, each with an output: everything else can be plugged in"""
    g = zx.Graph()
    vs = [g.add_vertex(VT.Z, i, 1, phase=odd(S, 'p%d' % i)) for i in range(6)]
    outs = []
    for i, v in enumerate(vs[:legs]):
        b = g.add_vertex(VT.BOUNDARY, i, 2)
        g.add_edge((v, b), S.choose('b%d' % i, (ET.SIMPLE, ET.HADAMARD)) if i == 0 else ET.SIMPLE)
        outs.append(b)
    for i, j in list(itertools.combinations(range(6), 2))[:wires]:
        if S.flag('w%d%d' % (i, j)):
            g.add_edge((vs[i], vs[j]), ET.HADAMARD)
    g.set_outputs(tuple(outs))
    before = snap(g)
    with randomness(Rnd(S, rot=True)):
        s = replace_magic_states(g, pick)
    S.require(snap(g) == before, 'the argument is changed')
    S.require(len(s.graphs) == 7, 'number of terms')
    for h in s.graphs:
        S.require(not tlike(h), 'a term has T-like spiders')
    S.same(total(S, s.graphs, g), S.gmap(g), 'sum of the six-spider decomposition')
    S.witness('ok')


def small(S, n, nout, edges=HE, gadget=False, phases='any', vals=(0, Fraction(1, 2), 1, Fraction(3, 2))):
    """a graph-like diagram"""
    out = [i < nout for i in range(n)]
    if phases == 'any':
        g, vs = gen.graphlike(S, n, out=out, edges=edges)
    elif phases == 'odd':
        g, vs = gen.graphlike(S, n, out=out, edges=edges, vphase=lambda i: odd(S, 'p%d' % i))
    else:
        g, vs = gen.graphlike(S, n, out=out, edges=edges, vphase=lambda i: odd(S, 'p%d' % i) if i < phases else S.phase('p%d' % i, vals=vals))
    axs = []
    for k in range(int(gadget)):
        a = g.add_vertex(VT.Z, -1, 2)
        l = g.add_vertex(VT.Z, -2, 2, phase=odd(S, 'leaf%d' % k))
        g.add_edge((a, l), ET.HADAMARD)
        for i, v in enumerate(vs):
            if S.flag('t%d%d' % (k, i)):
                g.add_edge((a, v), ET.HADAMARD)
        if axs and S.flag('axles'):
            g.add_edge((a, axs[0]), ET.HADAMARD)
        axs.append(a)
    return g, vs


def tlike(g):
    return [v for v in g.vertices() if g.phase(v).denominator == 4]


def h_replace(S, n, nout, gadget=False, edges=HE):
    g, vs = small(S, n, nout, edges, gadget)
    k = len(tlike(g))
    before = snap(g)
    pick = S.flag('pick')
    try:
        with randomness(Rnd(S)):
            s = replace_magic_states(g, pick)
    except Exception as e:
        S.require(k == 0 and 'No magic states' in str(e), 'refused')
        S.witness('none')
        return
    S.require(k > 0, 'nothing to replace')
    S.require(snap(g) == before, 'the argument is changed')
    for h in s.graphs:
        S.require(len(tlike(h)) == k - (2 if k > 1 else 1), 'T-like spiders left')
    S.same(total(S, s.graphs, g), S.gmap(g), 'sum of the decomposition')
    S.witness('ok')


def h_decomp(S, n, nout, gadget=False, edges=HE, phases='any', tensor=False, **kw):
    g, vs = small(S, n, nout, edges, gadget, phases, **kw)
    want = S.gmap(g)
    with randomness(Rnd(S, rot=True)):
        gs = find_stabilizer_decomp(g.copy())
    S.require(len(gs) <= max_terms_needed(g), 'more terms than announced')
    for h in gs:
        S.require(all(h.phase(v).denominator <= 2 for v in h.vertices()), 'a term is not a stabiliser diagram')
    if tensor:
        s = SumGraph(gs)
        if gs:
            t = s.to_tensor() if S.flag('tensor') else s.to_matrix()
            S.same(S.tensor(t), want, 'tensor of the sum')
        else:
            S.same(nothing(S, g), want, 'empty sum')
    else:
        S.same(total(S, gs, g), want, 'sum of the stabiliser decomposition')
    S.witness('ok')


def h_reduce(S, sizes, nout, edges=HE):
    """reducing every term of a sum"""
    gs = []
    for i, n in enumerate(sizes):
        g, vs = gen.graphlike(S, n, out=[j < nout for j in range(n)], edges=edges, name='g%d' % i, den=4 if i == 0 else 2)
        gs.append(g)
    want = plus([S.gmap(g) for g in gs])
    s = SumGraph(list(gs))
    how = S.choose('how', ('full_reduce', 'reduce_scalar'))
    getattr(s, how)()
    S.same(total(S, s.graphs, gs[0]), want, 'sum after ' + how)
    S.witness(how)


def h_path(S, n, gadget=False, edges=HE, phases='any', reduce='full_reduce', **kw):
    g, vs = small(S, n, 0, edges, gadget, phases, **kw)
    want = S.gmap(g)
    h = g.copy()
    getattr(zx.simplify, reduce)(h)
    z = calculate_path_sum(h)
    S.witness('trivial' if h.num_vertices() < 2 else 'sum')
    S.same(S.tensor(np.array([z], dtype=object) if S.symbolic else np.array([z])), want, 'path sum')


def chain(S, n, edges):
    """a graph state on n qubits with all outputs; optionally one more spider on the outputs"""
    return gen.graphlike(S, n, edges=edges)


def effect(g, q, e):
    """g followed by an effect on output q, by composition"""
    c = zx.Graph()
    ins, outs = [], []
    n = g.num_outputs()
    for i in range(n):
        a = c.add_vertex(VT.BOUNDARY)
        ins.append(a)
        if i == q:
            b = c.add_vertex(VT.X if e in '01' else VT.Z, phase=1 if e in '1-' else 0)
            c.scalar.add_power(-1)
        else:
            b = c.add_vertex(VT.BOUNDARY)
            outs.append(b)
        c.add_edge((a, b), ET.SIMPLE)
    c.set_inputs(tuple(ins))
    c.set_outputs(tuple(outs))
    return _then(g, c)


def _then(g, c):
    h = g.copy()
    h.compose(c)
    return h


def state(S, form, name='g'):
    """states with different wirings, including outputs joined to each other"""
    if form == 'graph':
        return gen.graphlike(S, 3, out=[True, True, False], name=name, vphase=lambda i: odd(S, '%sp%d' % (name, i)))[0]
    if form == 'three':
        return gen.graphlike(S, 3, name=name, edges=HE, vphase=lambda i: odd(S, '%sp%d' % (name, i)))[0]
    g = zx.Graph()
    b = [g.add_vertex(VT.BOUNDARY, i, 2) for i in range(3)]
    if form == 'bell':
        v = g.add_vertex(VT.Z, 0, 1, phase=odd(S, name + 'p'))
        g.add_edge((b[0], b[1]), S.choose(name + 'e', (ET.SIMPLE, ET.HADAMARD)))
        g.add_edge((v, b[2]), S.choose(name + 'f', (ET.SIMPLE, ET.HADAMARD)))
    else:   # ghz
        v = g.add_vertex(VT.Z, 0, 1, phase=odd(S, name + 'p'))
        for i, x in enumerate(b):
            g.add_edge((v, x), S.choose('%se%d' % (name, i), (ET.SIMPLE, ET.HADAMARD)))
    order = S.choose(name + 'o', [b[i:] + b[:i] for i in range(3)])
    g.set_outputs(tuple(order))
    return g


def h_select(S, form):
    g = state(S, form)
    n = g.num_outputs()
    sel = {}
    for q in S.choose('order', (range(n), range(n - 1, -1, -1))):
        e = S.choose('eff%d' % q, (None, '0', '1', '+', '-'))
        if e is not None:
            sel[q] = e
    S.assume(len(sel) > 0)
    before = snap(g)
    s = SumGraph([g]).post_select(sel)
    S.require(snap(g) == before, 'the argument is changed')
    S.require(len(s.graphs) == 1 and s.graphs[0].num_outputs() == n - len(sel), 'outputs left')
    w = g
    for q in sorted(sel, reverse=True):
        w = effect(w, q, sel[q])
    S.same(S.gmap(s.graphs[0]), S.gmap(w), 'post-selection')
    S.witness('ok')


def clifford_state(S, form, name='g', den=2):
    if form in ('bell', 'ghz'):
        g = zx.Graph()
        b = [g.add_vertex(VT.BOUNDARY, i, 2) for i in range(2)]
        if form == 'bell':
            g.add_edge((b[0], b[1]), S.choose(name + 'e', (ET.SIMPLE, ET.HADAMARD)))
        else:
            v = g.add_vertex(VT.Z, 0, 1, phase=S.phase(name + 'p', den))
            for i, x in enumerate(b):
                g.add_edge((v, x), S.choose('%se%d' % (name, i), (ET.SIMPLE, ET.HADAMARD)))
        g.set_outputs(tuple(b))
        return g
    n = int(form)
    return gen.graphlike(S, n, out=[i < 2 for i in range(n)], edges=HE, den=den, name=name, bedges=(ET.SIMPLE,) if n > 2 else (ET.SIMPLE, ET.HADAMARD))[0]


def h_inner(S, forms, k=1):
    """the inner product with a chosen equatorial state"""
    gs = [clifford_state(S, S.choose('form%d' % i, forms), 'g%d' % i) for i in range(k)]
    with randomness(Rnd(S)) as r:
        log = []
        ri, rr = r.randint, r.random
        r.randint = lambda a, b: log.append(ri(a, b)) or log[-1]
        r.random = lambda: log.append(rr()) or log[-1]
        z = SumGraph(list(gs)).inner_product_with_random_state()
    n = 2
    ph, con = log[:n], log[n:]
    S.require(len(log) == 3, 'random choices')
    parts = []
    for g in gs:
        h = g.copy()
        c = zx.Graph()
        ins = [c.add_vertex(VT.BOUNDARY) for _ in range(n)]
        vs = [c.add_vertex(VT.Z, phase=Fraction(p, 2)) for p in ph]
        for a, v in zip(ins, vs):
            c.add_edge((a, v), ET.SIMPLE)
        if con[0] > 0.5:
            c.add_edge((vs[0], vs[1]), ET.HADAMARD)
            c.scalar.add_power(1)
        c.set_inputs(tuple(ins))
        h.compose(c)
        parts.append(S.gmap(h))
    arr = np.array([z], dtype=object) if S.symbolic else np.array([z])
    S.same(S.tensor(arr), plus(parts), 'inner product with an equatorial state')
    S.witness('edge' if con[0] > 0.5 else 'no edge')


def h_norm(S, forms):
    """the mean of the estimate over all random states is the squared norm"""
    g = clifford_state(S, S.choose('form', forms), 'g')
    vals = []
    for ph in itertools.product(range(4), repeat=2):
        for c in (0.0, 0.75):
            it = iter(ph)

            class R:
                randint = staticmethod(lambda a, b: next(it))
                random = staticmethod(lambda: c)
            with randomness(R):
                vals.append(SumGraph([g]).estimate_norm(2))
    mean = sum(vals) / len(vals)
    h = g.adjoint()
    gg = g.copy()
    gg.compose(h)
    arr = np.array([mean], dtype=object) if S.symbolic else np.array([mean])
    S.same(S.tensor(arr), S.gmap(gg), 'mean of the norm estimates')
    S.witness('ok')


def prob(arr, n, given):
    """squared norm of the part of the state where the given qubits have the given values"""
    t = np.asarray(arr, dtype=complex).reshape((2,) * n)
    return float(np.sum(np.abs(t[tuple(given.get(q, slice(None)) for q in range(n))]) ** 2))


def dense(g):
    """the numeric state of a diagram without free phases"""
    return sem.diagram_numeric(sem.read_graph(g))


def h_sample(S, form, amount):
    """sampling: outcomes follow the conditional probabilities, norms being exact"""
    g = state(S, form)
    for v in list(g.vertices()):      # the norms are numbers: the phases are cases here
        if g.type(v) == VT.Z:
            g.set_phase(v, S.choose('f%d' % v, ODD[:2]) if form == 'bell' else ODD[v % 2])
    n = g.num_outputs()
    psi = dense(g)
    S.assume(prob(psi, n, {}) > 1e-9)
    qs = S.choose('qubits', [p for k in (1, 2, 3) for p in itertools.permutations(range(n), k)] if form != 'three' else [(0, 1), (1, 0), (2,), (0, 1, 2), (2, 0, 1)])
    rest = [q for q in range(n) if q not in qs]
    post, cond = None, {}
    if rest and S.flag('post'):
        e = S.choose('effect', '01')
        post = {rest[0]: e}
        cond = {rest[0]: int(e)}
        S.assume(prob(psi, n, cond) > 1e-9)
    asked = []

    class U:
        def __gt__(self, p):
            p = float(p)
            k = len(asked)
            r = S.flag('outcome%d' % k)
            S.assume(p < 1 - 1e-9 if r else p > 1e-9)
            asked.append(1 - p if r else p)
            return r

    class R(Rnd):
        def random(self):
            return U()
    est = SumGraph.estimate_norm
    SumGraph.estimate_norm = lambda self, epsilon=0.05: prob(sum(dense(h) for h in self.graphs), self.graphs[0].num_outputs(), {}) if self.graphs else 0.0
    try:
        with randomness(R(S)), contextlib.redirect_stdout(io.StringIO()):
            out = SumGraph([g.copy()]).sample(list(qs), post, amount, quiet=S.flag('quiet') if form == 'bell' else True)
    finally:
        SumGraph.estimate_norm = est
    S.require(len(out) == amount and all([q for q, v in o] == list(qs) for o in out), 'shape of the samples')
    S.require(len(asked) == amount * len(qs), 'one choice per qubit')
    for i, o in enumerate(out):
        p = 1.0
        for x in asked[i * len(qs):(i + 1) * len(qs)]:
            p *= x
        want = prob(psi, n, {**cond, **dict(o)}) / prob(psi, n, cond)
        S.require(abs(p - want) < 1e-6, 'an outcome is drawn with another probability')
    S.witness('post' if post else 'ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('six', h_six, 'six T-like spiders', '6 spiders with outputs, phases odd multiples of pi/4, 1 symbolic wire', wires=1, pick=False)
    add('sixpick', h_six, 'six T-like spiders, chosen at random', '6 spiders with outputs, phases odd multiples of pi/4', wires=0, pick=True)
    add('replace3', h_replace, 'diagrams', '3 spiders, 1 output, any wires and phases k/4', wit=('ok', 'none'), n=3, nout=1)
    add('replace2g', h_replace, 'diagrams with a phase gadget', '2 spiders, 1 output, gadget on any of them', n=2, nout=1, gadget=True)
    add('decomp3', h_decomp, 'scalars', '3 spiders, any wires and phases k/4', n=3, nout=0)
    add('decomp3o', h_decomp, 'states', '3 T-like spiders, 1 output, any wires', n=3, nout=1, phases='odd')
    add('decomp4', h_decomp, 'scalars', '4 spiders, 2 of them T-like, 2 with phase 0', n=4, nout=0, phases=2, vals=(0,))
    add('decomp2g', h_decomp, 'scalars with a gadget', '2 spiders and a gadget', n=2, nout=0, gadget=True)
    add('tensor3', h_decomp, 'scalars and states', '2 spiders, 1 output, phases k/4', n=2, nout=1, tensor=True)
    add('reduce2', h_reduce, 'sums of two diagrams', '2 and 1 spiders, 1 output', wit=('full_reduce', 'reduce_scalar'), sizes=(2, 1), nout=1)
    add('reduce0', h_reduce, 'sums of scalars', '2 and 1 spiders', wit=('full_reduce', 'reduce_scalar'), sizes=(2, 1), nout=0)
    add('path3', h_path, 'scalars', '3 spiders, any wires and phases k/4', wit=('sum', 'trivial'), n=3)
    add('path4', h_path, 'scalars', '4 T-like spiders, any wires', wit=('sum',), n=4, phases='odd')
    add('path3g', h_path, 'scalars with a gadget', '3 T-like spiders and a gadget', wit=('sum',), n=3, phases='odd', gadget=True)
    add('path4c', h_path, 'scalars', '4 spiders, 2 of them T-like, 2 with phase 0 or pi/2', wit=('sum',), n=4, phases=2, vals=(0, Fraction(1, 2)))
    add('path3s', h_path, 'scalars, reduced as scalars', '3 spiders, any wires and phases k/4', wit=('sum',), n=3, reduce='reduce_scalar')
    add('path2gg', h_path, 'scalars with two gadgets', '2 T-like spiders and 2 gadgets, maybe joined', wit=('sum',), n=2, phases='odd', gadget=2)
    add('select', h_select, 'states', '3 spiders, 2 outputs, any effects', form='graph')
    add('selectb', h_select, 'states with joined outputs', '3 outputs in any order, any effects', form='bell')
    add('selectg', h_select, 'GHZ states', '3 outputs in any order, any effects', form='ghz')
    add('inner', h_inner, 'Clifford states', '2 outputs, up to 2 spiders', wit=('edge', 'no edge'), forms=('bell', 'ghz', '2'))
    add('inner2', h_inner, 'sums of Clifford states', '2 outputs, up to 2 spiders each', wit=('edge', 'no edge'), forms=('bell', 'ghz'), k=2)
    add('norm', h_norm, 'Clifford states', '2 outputs, up to 3 spiders, all 32 equatorial states', forms=('bell', 'ghz', '2'))
    add('sample1', h_sample, 'sampling', '3 outputs, 2 terms of GHZ and Bell states, any qubits in any order, post-selection', wit=('ok', 'post'), form='ghz', amount=1)
    add('sampleb', h_sample, 'sampling', 'Bell states', wit=('ok', 'post'), form='bell', amount=1)
    add('sample2', h_sample, 'sampling twice', '2 outputs, 3 spiders', wit=('ok',), form='graph', amount=2)
    if T:
        add('sample3', h_sample, 'sampling', '3 outputs', wit=('ok', 'post'), form='three', amount=1)
        add('innert', h_inner, 'Clifford states', '2 outputs, 3 spiders', wit=('edge', 'no edge'), forms=('3',))
        add('decomp4c', h_decomp, 'scalars', '4 spiders, 2 of them T-like, any wires', n=4, nout=0, phases=2)
        add('path4ct', h_path, 'scalars', '4 spiders, 2 of them T-like', wit=('sum',), n=4, phases=2)
        add('reduce2t', h_reduce, 'sums of diagrams', '2 spiders each, 1 output', wit=('full_reduce', 'reduce_scalar'), sizes=(2, 2), nout=1)
        add('six2', h_six, 'six T-like spiders', '6 spiders with outputs, 6 symbolic wires', wires=6, pick=False)
        add('replace4', h_replace, 'diagrams', '4 spiders, 1 output', n=4, nout=1)
        add('decomp4t', h_decomp, 'scalars', '4 spiders', n=4, nout=0)
        add('path5', h_path, 'scalars', '5 T-like spiders, any wires', wit=('sum',), n=5, phases='odd')
        add('select3', h_select, 'states', '3 outputs, any effects', form='three')
        add('inner3', h_inner, 'sums of Clifford states', '2 outputs, up to 2 spiders each', wit=('edge', 'no edge'), forms=('bell', 'ghz', '2'), k=2)
    return H
