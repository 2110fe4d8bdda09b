"""P26: local search over equivalent diagrams."""
import contextlib
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen
import pyzx as zx
from pyzx.local_search import congruences as CO, genetic as GE, simulated_annealing as SA, scores as SC
from pyzx.utils import VertexType as VT, EdgeType as ET
from .p18 import snap

LEVEL = 'other'
EXPLANATION = ('The real congruences and optimisers run on diagrams and circuits whose wires, gates and phases are solver variables, with every random choice an arbitrary one; every branch on one is decided by the solver. '
               'The maps before and after are computed independently, as exact expressions in the phases, and compared for all values.')
ASSUMPTIONS = ['diagrams are compared up to a scalar', 'random choices are replaced by arbitrary ones (solver variables), also those of the acceptance tests']
BUDGET = {'quick': 100, 'thorough': 900}
HE = (None, ET.HADAMARD)


class NPR:
    def __init__(self, S, log=None):
        self.S, self.n = S, 0

    def choice(self, xs, size=None, p=None):
        xs = list(range(xs)) if isinstance(xs, int) else list(xs)
        self.n += 1
        r = self.S.choose('np%d' % self.n, xs)
        return [r] if size is not None else r


class PYR:
    def __init__(self, S):
        self.S, self.n = S, 0

    def _nm(self):
        self.n += 1
        return 'py%d' % self.n

    def uniform(self, a, b):
        return self.S.choose(self._nm(), (0.0, 0.999))

    def random(self):
        return self.S.choose(self._nm(), (0.0, 0.999))

    def sample(self, xs, k):
        xs = list(xs)
        return list(self.S.choose(self._nm(), list(itertools.permutations(xs, k))))

    def shuffle(self, xs):
        if self.S.flag(self._nm()):
            xs.reverse()


@contextlib.contextmanager
def randomness(S):
    class NP:
        random = NPR(S)

        def __getattr__(self, k):
            import numpy
            return getattr(numpy, k)
    py = PYR(S)
    old = (CO.np, GE.random, GE.shuffle, SA.random)
    CO.np, GE.random, GE.shuffle, SA.random = NP(), py, py.shuffle, py
    try:
        yield
    finally:
        CO.np, GE.random, GE.shuffle, SA.random = old


def boundary(S, g):
    S.require(all(g.vertex_degree(b) == 1 for b in list(g.inputs()) + list(g.outputs())), 'a boundary without a wire')


def h_pivot(S, n, nout, out=None, rand=False, den=4, edges=HE, **kw):
    g, vs = gen.graphlike(S, n, out=out if out else [i < nout for i in range(n)], edges=edges, den=den, **kw)
    want = S.gmap(g)
    es = [e for e in g.edges() if CO.is_pivot_edge(g, e)]
    S.require(all(g.type(v) == VT.Z for e in es for v in g.edge_st(e)) and len(es) == sum(1 for e in g.edges() if all(g.type(v) == VT.Z for v in g.edge_st(e))), 'pivot edges')
    S.assume(len(es) > 0)
    if rand:
        with randomness(S):
            CO.apply_rand_pivot(g)
    else:
        a, b = g.edge_st(S.choose('edge', es))
        if S.flag('swap'):
            a, b = b, a
        CO.pivot_cong(g, a, b)
    boundary(S, g)
    S.same_upto(S.gmap(g), want, 'pivot')
    S.witness('ok')


def h_lc(S, n, nout, which, out=None, den=4, **kw):
    g, vs = gen.graphlike(S, n, out=out if out else [i < nout for i in range(n)], edges=HE, den=den, **kw)
    want = S.gmap(g)
    v = S.choose('v', vs)
    if which == 'rand':
        ok = [w for w in vs if CO.is_lc_vertex(g, w)]
        S.require(set(ok) == {w for w in vs if g.vertex_degree(w) > 1 and all(g.type(x) != VT.BOUNDARY for x in g.neighbors(w))}, 'places for local complementation')
        S.assume(len(ok) > 0)
        with randomness(S):
            CO.apply_rand_lc(g)
    elif which == 'one':
        S.assume(CO.is_lc_vertex(g, v))
        CO.lc_cong(g, v)
    else:
        CO.lc_cong2(g, v)
    boundary(S, g)
    S.same_upto(S.gmap(g), want, 'local complementation')
    S.witness('ok')


def h_unfuse(S, n, out):
    g, vs = gen.graphlike(S, n, out=out, edges=HE)
    want = S.gmap(g)
    w = CO.unfuse(g, vs[0])
    S.require(g.phase(vs[0]) == 0 and all(g.type(x) != VT.BOUNDARY for x in g.neighbors(vs[0])), 'the phase and boundaries are not moved')
    S.require(all(x == vs[0] or g.type(x) == VT.BOUNDARY for x in g.neighbors(w)), 'the new spider takes other wires')
    S.same_upto(S.gmap(g), want, 'unfusing')
    S.witness('ok')


def h_toggle(S):
    g, vs = gen.graphlike(S, 4, out=[False] * 4, edges=HE, den=1)
    before = {(a, b): g.connected(a, b) for a, b in itertools.permutations(vs, 2)}
    A = S.subset('a', vs)
    B = [v for v in S.subset('b', vs) if v not in A]
    CO.toggle_subset_connectivity(g, A, B)
    for (a, b), c in before.items():
        t = (a in A and b in B) or (a in B and b in A)
        S.require(g.connected(a, b) == (c != t), 'wire between two spiders')
        S.require(not g.connected(a, b) or g.edge_type(g.edge(a, b)) == ET.HADAMARD, 'kind of wire')
    S.witness('ok')


def h_anneal(S, nq, slots, iters, frp, den=4):
    c = gen.circuit(S, nq, slots, den)
    want = S.cmap(c.gates, nq)
    g = c.to_graph()
    if S.flag('reduced'):
        zx.full_reduce(g)
    else:
        zx.to_graph_like(g)
    before = snap(g)
    with randomness(S):
        best, scores = SA.anneal(g, iters=iters, full_reduce_prob=frp, score=lambda h: h.num_edges(), quiet=True)
    S.require(snap(g) == before, 'the argument is changed')
    S.require(best.num_edges() <= g.num_edges(), 'the result is worse')
    S.same_upto(S.gmap(best), want, 'annealing')
    S.witness('ok')


def h_two(S, n, nout, how):
    """a pivot or local complementation after another"""
    g, vs = gen.graphlike(S, n, out=[i < nout for i in range(n)], edges=HE, bedges=(ET.SIMPLE,))
    want = S.gmap(g)
    with randomness(S):
        for w in how:
            (CO.apply_rand_pivot if w == 'p' else CO.apply_rand_lc)(g)
    boundary(S, g)
    S.same_upto(S.gmap(g), want, 'two congruences')
    S.witness('ok')


def cost(m):
    return m.g_curr.num_edges()


def h_action(S, nq, slots, which, den=4):
    """the actions of the genetic optimiser keep circuit and diagram equivalent"""
    c = gen.circuit(S, nq, slots, den)
    want = S.cmap(c.gates, nq)
    g = c.to_graph()
    zx.to_graph_like(g)
    before = snap(g)
    with randomness(S):
        ok, (c2, g2) = (GE.rand_pivot if which == 'p' else GE.rand_lc)(c, g)
    S.require(snap(g) == before, 'the argument is changed')
    S.same_upto(S.gmap(g2), want, 'diagram')
    S.same_uptophase(S.cmap(c2.gates, nq), want, 'circuit')
    S.witness('ok')


def h_evolve(S, nq, slots, mutants, gens, den=4):
    c = gen.circuit(S, nq, slots, den)
    want = S.cmap(c.gates, nq)
    g = c.to_graph()
    before = snap(g)
    opt = GE.GeneticOptimizer(actions=list(S.choose('actions', ([GE.rand_pivot, GE.rand_lc], [GE.rand_lc]))), score=cost)
    opt.quiet = True
    with randomness(S):
        best, gen_best, out = opt._evolve(g, mutants, gens)
    S.require(snap(g) == before, 'the argument is changed')
    S.require(all(a >= b for a, b in zip(best, best[1:])) and best[-1] == min(gen_best), 'the best score so far')
    S.require(out.num_edges() == best[-1], 'the result is not the one with the best score')
    S.same_upto(S.gmap(out), want, 'evolution')
    S.witness('ok')


def h_select(S, n):
    """a new generation: fresh copies of members, the best among them for the methods that keep them"""
    opt = GE.GeneticOptimizer()
    opt.n_mutants = n
    c = zx.Circuit(1)
    ms = []
    for i in range(n):
        m = GE.Mutant(c, c.to_graph())
        m.score, m.tag, m.dead = S.int('s%d' % i, 0, 3), i, False
        ms.append(m)
    how = S.choose('how', ('tournament', 'top_half', 'top_n'))
    if how == 'tournament':
        for m in ms:
            m.dead = S.flag('dead%d' % m.tag)
    opt.mutants = list(ms)
    with randomness(S):
        opt.select(how)
    new = opt.mutants
    S.require(len(new) == n and len({id(m) for m in new}) == n and not ({id(m) for m in new} & {id(m) for m in ms}), 'members are shared')
    for m in new:
        S.require(m.score == ms[m.tag].score, 'score of a member')
    if how != 'tournament':
        for m in ms:
            S.require(new[0].score <= m.score, 'the best member is lost')
    S.witness(how)


def h_score(S, nq, slots):
    c = gen.circuit(S, nq, slots)
    d = c.to_basic_gates()
    two = sum(1 for x in d.gates if hasattr(x, 'control'))
    w = S.choose('w', (10, 3))
    S.require(SC.wgc(c, w) == w * two + len(d.gates) - two, 'weighted count of a circuit')
    g = c.to_graph()
    zx.to_graph_like(g)
    before = snap(g)
    n = SC.g_wgc(g, w, g_simplify=S.flag('gs'), c_simplify=S.flag('cs'))
    S.require(n >= 0 and snap(g) == before, 'the argument is changed')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('pivot3', h_pivot, 'pivots', '3 spiders, any wires and outputs, phases k/4', n=3, nout=0, out=['sym'] * 3)
    add('pivot4', h_pivot, 'pivots', '4 spiders, any wires, 3 outputs', n=4, nout=3, bedges=(ET.SIMPLE,))
    add('rand3', h_pivot, 'random pivots', '3 spiders, any wires, 2 outputs', n=3, nout=2, rand=True)
    add('lc4o', h_lc, 'local complementation', '4 spiders, any wires, 3 outputs', n=4, nout=3, which='one', bedges=(ET.SIMPLE,))
    add('lc3b', h_lc, 'local complementation', '3 spiders, any wires, 2 outputs', n=3, nout=2, which='two')
    add('lc4', h_lc, 'random local complementation', '4 spiders, any wires, 3 outputs', n=4, nout=3, which='rand', bedges=(ET.SIMPLE,))
    add('unfuse', h_unfuse, 'unfusing a phase', '3 spiders, any wires and outputs', n=3, out=['sym'] * 3)
    add('toggle', h_toggle, 'toggling wires', '4 spiders, any two sets')
    add('anneal', h_anneal, 'annealing', '2 steps, 3 gates on 2 qubits', nq=2, slots=[('cz',), ('z', 'h'), ('cnot',)], iters=2, frp=0.1)
    add('two3', h_two, 'two pivots', '3 spiders, any wires, 2 outputs', n=3, nout=2, how='pp')
    add('two3l', h_two, 'a pivot and a local complementation', '3 spiders, any wires, 2 outputs', n=3, nout=2, how='pl')
    add('two3lp', h_two, 'local complementation and a pivot', '3 spiders, any wires, 1 output', n=3, nout=1, how='lp')
    add('pivact', h_action, 'actions on circuits', '3 gates on 2 qubits', nq=2, slots=[('cz',), ('z', 'h'), ('cnot', 'z')], which='p')
    add('lcact', h_action, 'actions on circuits', '3 gates on 2 qubits', nq=2, slots=[('cz',), ('z', 'h'), ('cnot', 'z')], which='l')
    add('evolve', h_evolve, 'evolution', '2 mutants, 1 generation, CZ and a rotation or Hadamard', nq=2, slots=[('cz',), ('z', 'h')], mutants=2, gens=1)
    add('selection', h_select, 'new generations', '3 members, any scores', wit=('tournament', 'top_half', 'top_n'), n=3)
    add('score', h_score, 'scores', '3 gates on 2 qubits', nq=2, slots=[('cnot', 'cz', 'swap'), ('h', 'z'), ('cnot',)])
    if T:
        add('pivot5', h_pivot, 'pivots', '5 spiders, any wires, 3 outputs', n=5, nout=3, bedges=(ET.SIMPLE,))
        add('lc5', h_lc, 'local complementation', '5 spiders, any wires, 4 outputs', n=5, nout=4, which='rand', bedges=(ET.SIMPLE,))
        add('evolve2', h_evolve, 'evolution', '2 mutants, 2 generations, 2 gates on 2 qubits', nq=2, slots=[('cz',), ('z', 'h', 'cnot')], mutants=2, gens=2)
        add('anneal3', h_anneal, 'annealing', '3 steps, 3 gates on 2 qubits', nq=2, slots=[('cz',), ('z', 'h'), ('cnot',)], iters=3, frp=0.1)
    return H
