"""Symbolic inputs shared by harnesses: diagrams and circuits."""
from fractions import Fraction
import pyzx as zx
from pyzx.utils import VertexType, EdgeType

VT, ET = VertexType, EdgeType
NOEDGE = None
ANYEDGE = (None, ET.SIMPLE, ET.HADAMARD)
HEDGE = (None, ET.HADAMARD)


def new_graph(backend=None):
    return zx.Graph(backend) if backend else zx.Graph()


def graph(S, n, nin=0, nout=2, types=(VT.Z, VT.X), edges=ANYEDGE, den=4, bedges=(ET.SIMPLE, ET.HADAMARD),
          name='', backend=None, rows=False, btargets=None, vphase=None):
    """n spiders of symbolic type and phase, every pair joined by a symbolic edge (or none);
    nin+nout boundaries, each hanging off a symbolic spider by a symbolic edge."""
    g = new_graph(backend)
    vs = []
    for i in range(n):
        ty = S.choose('%sty%d' % (name, i), types)
        v = g.add_vertex(ty, i, S.choose('%srow%d' % (name, i), (1, 0)) if rows else 1 + i)
        vs.append(v)
    for i in range(n):
        for j in range(i):
            e = S.choose('%se%d_%d' % (name, j, i), edges)
            if e is not None:
                g.add_edge((vs[j], vs[i]), e)
    bs = []
    lo = 0
    for k in range(nin + nout):
        b = g.add_vertex(VT.BOUNDARY, k, 0 if k < nin else n + 2)
        t = S.choose('%sb%d' % (name, k), range(lo, n)) if btargets is None else btargets[k]
        lo = t
        e = S.choose('%sbe%d' % (name, k), bedges)
        g.add_edge((b, vs[t]), e)
        bs.append(b)
    g.set_inputs(tuple(bs[:nin]))
    g.set_outputs(tuple(bs[nin:]))
    for i, v in enumerate(vs):
        if vphase is not None:
            g.set_phase(v, vphase(i))
        else:
            g.set_phase(v, S.phase('%sp%d' % (name, i), den))
    return g, vs


def graphlike(S, n, out=None, den=4, name='', backend=None, edges=HEDGE, vphase=None, bedges=(ET.SIMPLE, ET.HADAMARD), ins=()):
    """n Z-spiders with Hadamard edges; out[i] says whether spider i has an output leg:
    True, False or 'sym' (symbolic).  Legs have symbolic edge types."""
    g = new_graph(backend)
    vs = [g.add_vertex(VT.Z, i, 2) for i in range(n)]
    for i in range(n):
        for j in range(i):
            e = S.choose('%se%d_%d' % (name, j, i), edges)
            if e is not None:
                g.add_edge((vs[j], vs[i]), e)
    outs, inps = [], []
    for i in range(n):
        o = True if out is None else out[i]
        opts = list(bedges) if o is True else ([None] if o is False else [None] + list(bedges))
        e = S.choose('%sb%d' % (name, i), opts)
        if e is not None:
            isin = i in ins
            b = g.add_vertex(VT.BOUNDARY, i, 0 if isin else 4)
            g.add_edge((vs[i], b), e)
            (inps if isin else outs).append(b)
    g.set_inputs(tuple(inps))
    g.set_outputs(tuple(outs))
    for i, v in enumerate(vs):
        g.set_phase(v, vphase(i) if vphase is not None else S.phase('%sp%d' % (name, i), den))
    return g, vs


def gadgets(S, nt, ng, den=4, tedges=(None,), bedges=(ET.SIMPLE,), tphase=None, axle=None, subsets=None, leaf=None, name=''):
    """nt target spiders with outputs, ng phase gadgets on symbolic non-empty target sets"""
    g, vs = graphlike(S, nt, den=den, edges=tedges, bedges=bedges, name=name,
                      vphase=tphase if tphase is not None else (lambda i: S.phase('%sp%d' % (name, i), den)))
    subs = [[i for i in range(nt) if m >> i & 1] for m in range(1, 1 << nt)] if subsets is None else subsets
    gs = []
    for k in range(ng):
        t = S.choose('%sg%d' % (name, k), subs)
        a = g.add_vertex(VT.Z, -1, 2 + k)
        l = g.add_vertex(VT.Z, -2, 2 + k)
        g.add_edge((a, l), ET.HADAMARD)
        for i in t:
            g.add_edge((a, vs[i]), ET.HADAMARD)
        g.set_phase(a, axle(k) if axle else S.phase('%sax%d' % (name, k), vals=(0, 1)))
        g.set_phase(l, leaf(k) if leaf else S.phase('%slf%d' % (name, k), den))
        gs.append((a, l))
    return g, vs, gs


# ---------------------------------------------------------------------------------------
# circuits
# ---------------------------------------------------------------------------------------

GATES = zx.circuit.gates


def slot(S, name, nq, kinds, den=4, phase=None):
    """one gate, its kind and qubits symbolic; None = no gate.  The phase is a lazy solver variable."""
    opts = []
    for k in kinds:
        if k in (None, 'id'):
            opts.append((None, ()))
        elif k in ONE:
            opts += [(k, (q,)) for q in range(nq)]
        elif k in SYMM:
            opts += [(k, (a, b)) for a in range(nq) for b in range(a + 1, nq)]
        elif k in TWO:
            opts += [(k, (a, b)) for a in range(nq) for b in range(nq) if a != b]
        elif k in THREE:
            opts += [(k, p) for p in _perms3(nq)]
        else:
            raise ValueError(k)
    k, q = S.choose(name, opts)
    if k is None:
        return None
    return make_gate(S, name, k, q, den, phase)


ONE = ('z', 'x', 'y', 'h', 'S', 'Sd', 'T', 'Td', 'Z', 'NOT', 'zc', 'xc', 'SX')
TWO = ('cnot', 'cz', 'swap', 'xcx', 'cp', 'crz', 'rzz', 'czl')
SYMM = ('cz', 'swap', 'rzz', 'xcx')
THREE = ('tof', 'ccz')


def _perms3(nq):
    import itertools
    return list(itertools.permutations(range(nq), 3))


def make_gate(S, name, k, q, den=4, phase=None):
    G = GATES
    ph = phase if phase is not None else (lambda: S.phase(name + '.p', den))
    if k == 'z':
        return G.ZPhase(q[0], ph())
    if k == 'x':
        return G.XPhase(q[0], ph())
    if k == 'y':
        return G.YPhase(q[0], ph())
    if k == 'zc':
        return G.ZPhase(q[0], S.phase(name + '.p', 2))
    if k == 'xc':
        return G.XPhase(q[0], S.phase(name + '.p', 2))
    if k == 'h':
        return G.HAD(q[0])
    if k == 'S':
        return G.S(q[0])
    if k == 'Sd':
        return G.S(q[0], adjoint=True)
    if k == 'T':
        return G.T(q[0])
    if k == 'Td':
        return G.T(q[0], adjoint=True)
    if k == 'Z':
        return G.Z(q[0])
    if k == 'NOT':
        return G.NOT(q[0])
    if k == 'SX':
        return G.SX(q[0])
    if k == 'cnot':
        return G.CNOT(*q)
    if k in ('cz', 'czl'):
        return G.CZ(*q)
    if k == 'xcx':
        return G.XCX(*q)
    if k == 'swap':
        return G.SWAP(*q)
    if k == 'cp':
        return G.CPhase(q[0], q[1], ph())
    if k == 'crz':
        return G.CRZ(q[0], q[1], ph())
    if k == 'rzz':
        return G.RZZ(q[0], q[1], ph())
    if k == 'tof':
        return G.Tofolli(*q)
    if k == 'ccz':
        return G.CCZ(*q)
    raise ValueError(k)


def circuit(S, nq, slots, den=4, name='', phase=None):
    """slots: list of kind lists, one symbolic gate each"""
    c = zx.Circuit(nq)
    for i, kinds in enumerate(slots):
        g = slot(S, '%ss%d' % (name, i), nq, kinds, den, phase)
        if g is not None:
            c.gates.append(g)
    return c
