"""P17: rewrite rules and simplification of diagrams with H-boxes."""
from fractions import Fraction
import contextlib, io
from symx.run import Harness
from symx import gen
from symx.gen import VT, ET
import pyzx as zx
from pyzx import rules, hrules, hsimplify

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real H-box rules and simplification strategies on diagrams whose topology, vertex types and phases are solver variables; on every '
               'feasible path the linear maps before and after, computed by an independent path-sum semantics as exact polynomials in the phase variables, must be equal with their scalar.')
ASSUMPTIONS = ['phases are multiples of pi/4 (exact arithmetic)', 'diagram sizes as stated per harness', 'simple graph backend, on which the rules are defined']
BUDGET = {'quick': 200, 'thorough': 850}
H, Z, X, B = VT.H_BOX, VT.Z, VT.X, VT.BOUNDARY
SI, HA = ET.SIMPLE, ET.HADAMARD


def run(S, g, match, rule, msg):
    a = S.gmap(g)
    m = match(g)
    if m:
        S.witness('match')
        if len(m) > 1:
            S.witness('several')
        rules.apply_rule(g, rule, m)
    S.same(S.gmap(g), a, msg)


PAIRS = {
    'had': (hrules.match_hadamards, hrules.hadamard_to_h_edge),
    'fuse': (hrules.match_connected_hboxes, hrules.fuse_hboxes),
    'copy': (hrules.match_copy, hrules.apply_copy),
    'not': (hrules.match_hbox_parallel_not, hrules.hbox_parallel_not_remove),
    'par': (hrules.match_par_hbox, hrules.par_hbox),
    'spider': (rules.match_spider_parallel, rules.spider),
    'id': (rules.match_ids_parallel, rules.remove_ids),
    'intro': (hrules.match_par_hbox_intro, hrules.par_hbox_intro),
}


def h_any(S, rule, n, nout, types=(H, Z, X), **kw):
    g, vs = gen.graph(S, n, nout=nout, types=types, **kw)
    run(S, g, *PAIRS[rule], rule)


def h_fuse4(S):
    g = gen.new_graph()
    vs = [g.add_vertex(H, 0, i + 1) for i in range(4)]
    for i in range(4):
        for j in range(i):
            e = S.choose('e%d%d' % (j, i), (HA, None) if i == j + 1 else (None, HA))
            if e is not None:
                g.add_edge((vs[j], vs[i]), e)
    outs(S, g, [vs[0], vs[3]], (SI, HA))
    g.set_phase(vs[S.choose('special', range(4))], S.phase('p', 2))
    run(S, g, *PAIRS['fuse'], 'fuse')


def h_had4(S):
    g = gen.new_graph()
    vs = [g.add_vertex(S.choose('t%d' % i, (Z, H, X)), 0, i + 1) for i in range(3)]
    hs = [g.add_vertex(H, 1, i) for i in range(3)]
    for h, (a, b) in zip(hs, ((0, 1), (1, 2), (0, 2))):
        g.add_edge((h, vs[a]), S.choose('a%d' % h, (SI, HA)))
        g.add_edge((h, vs[b]), S.choose('b%d' % h, (SI, HA)))
        g.set_phase(h, 1)
    if S.flag('e'):
        g.add_edge((vs[0], vs[2]), HA)
    outs(S, g, [vs[0], vs[1]])
    for v in vs:
        g.set_phase(v, S.phase('p%d' % v, vals=(1, 0)))
    run(S, g, *PAIRS['had'], 'had')


def outs(S, g, vs, et=(SI,)):
    os = []
    for v in vs:
        o = g.add_vertex(B, len(os), 9)
        g.add_edge((v, o), S.choose('o%d' % len(os), et))
        os.append(o)
    g.set_outputs(tuple(os))


def link(S, g, name, h, v, opts):
    """connect h to v: directly, through a NOT, or not at all"""
    k = S.choose(name, opts)
    if k is None:
        return None
    if k in (SI, HA):
        g.add_edge((h, v), k)
        return None
    e1, ty, e2 = k
    n = g.add_vertex(ty, 0, 5)
    g.set_phase(n, S.phase(name + 'p', vals=(1, 0)) if name.endswith('!') else 1)
    g.add_edge((h, n), e1)
    g.add_edge((n, v), e2)
    return n


NOTX, NOTZ = (SI, X, SI), (HA, Z, HA)
ODD = ((SI, X, HA), (HA, Z, SI), (SI, Z, SI))


def h_not(S, extra):
    """an H-box connected to a spider directly and through a NOT"""
    g = gen.new_graph()
    v = g.add_vertex(S.choose('tv', (Z, X, H)), 0, 1)
    h = g.add_vertex(H, 0, 2)
    g.set_phase(v, S.phase('pv', 2))
    g.set_phase(h, S.phase('ph', vals=(1, 0, Fraction(1, 2))))
    link(S, g, 'not!', h, v, (NOTX, NOTZ) + ODD)
    link(S, g, 'direct', h, v, (SI, HA, NOTX, NOTZ))
    ws = []
    for i in range(extra):
        w = g.add_vertex(S.choose('tw%d' % i, (Z, X, H, B)), 1, 1)
        if g.type(w) != B:
            g.set_phase(w, S.phase('pw%d' % i, vals=(0, Fraction(1, 2))))
        g.add_edge((h, w), S.choose('ew%d' % i, (SI, HA)))
        ws.append(w)
    bs = [w for w in ws if g.type(w) == B]
    outs(S, g, [v] + [w for w in ws if g.type(w) != B])
    g.set_outputs(tuple(bs) + tuple(g.outputs()))
    run(S, g, *PAIRS['not'], 'H-box with a spider in parallel to its negation')


def h_par(S, rule, nv, nh, opts, single=False, types=(Z,)):
    """H-boxes connected to the same spiders directly or through NOTs"""
    g = gen.new_graph()
    vs = [g.add_vertex(S.choose('tv%d' % i, types), i, 1) for i in range(nv)]
    for i in range(nh):
        h = g.add_vertex(H, i, 3)
        for j, v in enumerate(vs):
            link(S, g, 'l%d%d' % (i, j), h, v, opts)
        g.set_phase(h, S.phase('h%d' % i))
        if single and S.flag('s%d' % i):
            s = g.add_vertex(Z, i, 4)
            g.set_phase(s, S.phase('sp%d' % i, vals=(0, 1)))
            g.add_edge((s, h), SI)
    outs(S, g, vs)
    run(S, g, *PAIRS[rule], rule)


def spiders_h(S, nv, nh, arities, vphase=0, out=None, backend=None):
    """a hypergraph: white spiders and H-boxes on symbolic sets of them"""
    g = gen.new_graph(backend)
    vs = [g.add_vertex(Z, i, 1) for i in range(nv)]
    if vphase:
        for i, v in enumerate(vs[:vphase]):
            g.set_phase(v, S.phase('p%d' % i))
    subs = [[v for i, v in enumerate(vs) if m >> i & 1] for m in range(1, 1 << nv)]
    subs = [s for s in subs if len(s) in arities]
    for i in range(nh):
        h = g.add_vertex(H, i, 3)
        for v in S.choose('h%d' % i, subs if backend is None or i else subs[-1:]):
            g.add_edge((h, v))
        g.set_phase(h, S.phase('q%d' % i, vals=(1,)) if i == 0 else S.phase('q%d' % i))
    outs(S, g, [v for i, v in enumerate(vs) if out is None or out[i] or (out[i] is None and S.flag('out%d' % i))])
    return g


def h_hpivot(S, nv, nh, arities, out):
    g = spiders_h(S, nv, nh, arities, out=out)
    a = S.gmap(g)
    m = hrules.match_hpivot(g)
    if m:
        S.witness('match')
        hrules.hpivot(g, m)
    S.same(S.gmap(g), a, 'hyperpivot')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


STRAT = {
    'hadamard': lambda g: hsimplify.hadamard_simp(g, quiet=True),
    'to': hsimplify.to_hypergraph_form,
    'from': hsimplify.from_hypergraph_form,
    'zero': lambda g: hrules.zero_hbox(g, hrules.match_zero_hbox(g)),
    'hpivot': lambda g: hsimplify.hpivot_simp(g, quiet=True),
    'zh': lambda g: hsimplify.zh_simp(g, quiet=True),
}


def strategy(S, g, s):
    a = S.gmap(g)
    n = g.num_vertices()
    STRAT[s](g)
    if s == 'to':
        S.require(all(g.type(v) != X for v in g.vertices()), 'a hypergraph has no X-spiders')
        S.require(all(g.edge_type(e) == SI for e in g.edges() if not any(g.type(v) == B for v in g.edge_st(e))), 'a hypergraph has no inner Hadamard edges')
        S.require(all(not (g.type(u) == g.type(v) == H) for u, v in map(g.edge_st, g.edges())), 'H-boxes of a hypergraph are connected to white spiders')
        S.require(all(g.phase(v) == 0 for v in g.vertices() if g.type(v) == Z), 'phases of a hypergraph are H-boxes')
    S.witness('ok' if g.num_vertices() == n else 'changed')
    S.same(S.gmap(g), a, s)


def h_strategy(S, strat, n, nout, types=(H, Z, X), nin=0, **kw):
    g, vs = gen.graph(S, n, nout=nout, nin=nin, types=types, **kw)
    if strat == 'zero':
        S.assume(all(g.type(w) in (Z, B) or g.phase(v) != 0 for v in vs if g.type(v) == H for w in g.neighbors(v)))
        S.assume(all(not (g.type(w) == B and g.phase(v) == 0) for v in vs if g.type(v) == H for w in g.neighbors(v)))
        S.assume(all(g.edge_type(e) == SI for e in g.edges()))
    strategy(S, g, strat)


def h_hyper(S, strat, nv, nh, arities, **kw):
    strategy(S, spiders_h(S, nv, nh, arities, **kw), strat)


def h_circuit(S, strat, nq, slots, **kw):
    c = gen.circuit(S, nq, slots, **kw)
    strategy(S, c.to_graph(zh=True), strat)


def harnesses(tier):
    T = tier == 'thorough'
    L = []

    def add(name, fn, what, bounds, wit=('match',), **params):
        L.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    for r, w in (('had', 'H-boxes to Hadamard edges'), ('fuse', 'fusion of H-boxes'), ('copy', 'copying states'), ('spider', 'spider fusion next to H-boxes'), ('id', 'identity removal next to H-boxes')):
        add(r, h_any, w, '3 H-boxes and spiders, any edges, 1 output', rule=r, n=3, nout=1, bedges=(SI,), den=2, **({'btargets': [0]} if r == 'copy' and not T else {}))
        add(r + '2', h_any, w, '2 H-boxes and spiders, any edges, 2 outputs', rule=r, n=2, nout=2)
    for r in ('not', 'par', 'intro'):
        add(r + '_any', h_any, 'rule ' + r + ' on arbitrary diagrams', '3 H-boxes and spiders, any edges, 1 output', wit=(), rule=r, n=3, nout=1, bedges=(SI,), den=2)
    add('fuse4', h_fuse4, 'fusion of H-boxes', '4 H-boxes, any Hadamard edges, 2 outputs', wit=('match', 'several'))
    add('had4', h_had4, 'H-boxes to Hadamard edges', '2 H-boxes between 4 spiders or H-boxes', wit=('match', 'several'))
    add('not', h_not, 'H-box with a spider in parallel to its negation', 'one spider, one other neighbour', extra=1)
    add('par', h_par, 'parallel H-boxes', '2 H-boxes on 2 spiders, directly or through NOTs', rule='par', nv=2, nh=2, opts=(None, SI, NOTX, HA, NOTZ), types=(Z,))
    add('par3', h_par, 'parallel H-boxes', '3 H-boxes on a spider, directly or through NOTs', rule='par', nv=1, nh=3, opts=(None, SI, HA, NOTX, NOTZ), types=(Z, X))
    add('intro', h_par, 'introduction rule', '2 H-boxes on 2 spiders, directly or through NOTs', rule='intro', nv=2, nh=2, opts=(None, SI, NOTX), single=True)
    add('hpivot', h_hpivot, 'hyperpivot', '3 H-boxes on 3 spiders', nv=3, nh=3, arities=(1, 2, 3), out=(None, None, None))
    for s in STRAT:
        add(s + '3', h_strategy, 'strategy ' + s, '3 H-boxes and spiders, any edges, 1 output', wit=(), strat=s, n=3, nout=1, bedges=(SI,), den=2, **({'btargets': [0]} if s in ('zh', 'hpivot') and not T else {}))
        add(s + '2', h_strategy, 'strategy ' + s, '2 H-boxes and spiders, any edges, 1 input, 1 output', wit=(), strat=s, n=2, nout=1, nin=1)
    for s in ('hpivot', 'zh'):
        add(s + '_hyper', h_hyper, 'strategy ' + s, '2 H-boxes on 3 spiders', wit=('changed',), strat=s, nv=3, nh=2, arities=(1, 2, 3), vphase=1, out=(False, None, True))
        add(s + '_circ', h_circuit, 'strategy ' + s, 'circuits with CCZ and Toffoli gates', wit=('changed',), strat=s, nq=3, slots=[('ccz', 'tof', 'h', 'cz'), ('h', 'z', 'cnot'), ('ccz', 'tof')], den=2)
    if T:
        add('hpivot4', h_hpivot, 'hyperpivot', '3 H-boxes on 4 spiders', nv=4, nh=3, arities=(1, 2, 3), out=(None, False, True, None))
        add('hpivot34', h_hpivot, 'hyperpivot', '4 H-boxes on 3 spiders', nv=3, nh=4, arities=(1, 2, 3), out=(None, None, True))
        add('zh_hyper4', h_hyper, 'strategy zh', '3 H-boxes on 4 spiders', wit=('changed',), strat='zh', nv=4, nh=3, arities=(2, 3), vphase=1, out=(False, None, False, True))
        for r in PAIRS:
            add(r + '4', h_any, 'rule ' + r, '4 H-boxes and spiders', wit=(), rule=r, n=4, nout=1, bedges=(SI,), den=2, btargets=[0], types=(H, Z))
    return L
