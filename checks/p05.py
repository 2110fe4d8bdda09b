"""P05: every gate class means the same thing in all its forms."""
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx

G = gen.GATES
LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real gate classes with symbolic qubits and symbolic angles: the gate expansion, the diagram of the gate, '
               'the adjoint, repositioning on other qubits, copying and equality must all agree with the intended unitary of the gate for every '
               'angle value (exact path-sum comparison).')
ASSUMPTIONS = ['angles are multiples of pi/4 (gates that halve an angle are followed down to pi/16)', 'up to 4 qubits']
BUDGET = {'quick': 80, 'thorough': 900}

# kind -> (number of qubits, number of angles, constructor)
KINDS = {
    'ZPhase': (1, 1, lambda q, p: G.ZPhase(q[0], p[0])), 'XPhase': (1, 1, lambda q, p: G.XPhase(q[0], p[0])),
    'YPhase': (1, 1, lambda q, p: G.YPhase(q[0], p[0])), 'Z': (1, 0, lambda q, p: G.Z(q[0])), 'NOT': (1, 0, lambda q, p: G.NOT(q[0])),
    'Y': (1, 0, lambda q, p: G.Y(q[0])), 'S': (1, 0, lambda q, p: G.S(q[0])), 'Sdg': (1, 0, lambda q, p: G.S(q[0], adjoint=True)),
    'T': (1, 0, lambda q, p: G.T(q[0])), 'Tdg': (1, 0, lambda q, p: G.T(q[0], adjoint=True)), 'SX': (1, 0, lambda q, p: G.SX(q[0])),
    'SXdg': (1, 0, lambda q, p: G.SX(q[0], adjoint=True)), 'HAD': (1, 0, lambda q, p: G.HAD(q[0])),
    'CNOT': (2, 0, lambda q, p: G.CNOT(*q)), 'CZ': (2, 0, lambda q, p: G.CZ(*q)), 'XCX': (2, 0, lambda q, p: G.XCX(*q)),
    'SWAP': (2, 0, lambda q, p: G.SWAP(*q)), 'CY': (2, 0, lambda q, p: G.CY(*q)), 'CHAD': (2, 0, lambda q, p: G.CHAD(*q)),
    'CSX': (2, 0, lambda q, p: G.CSX(*q)), 'CRX': (2, 1, lambda q, p: G.CRX(q[0], q[1], p[0])), 'CRY': (2, 1, lambda q, p: G.CRY(q[0], q[1], p[0])),
    'CRZ': (2, 1, lambda q, p: G.CRZ(q[0], q[1], p[0])), 'CPhase': (2, 1, lambda q, p: G.CPhase(q[0], q[1], p[0])),
    'RZZ': (2, 1, lambda q, p: G.RZZ(q[0], q[1], p[0])), 'RXX': (2, 1, lambda q, p: G.RXX(q[0], q[1], p[0])),
    'FSim': (2, 1, lambda q, p: G.FSim(q[0], q[1], Fraction(1, 2), p[0])), 'FSimdg': (2, 1, lambda q, p: G.FSim(q[0], q[1], Fraction(-1, 2), p[0])), 'CCZ': (3, 0, lambda q, p: G.CCZ(*q)),
    'Tofolli': (3, 0, lambda q, p: G.Tofolli(*q)), 'CSWAP': (3, 0, lambda q, p: G.CSWAP(*q)),
    'U2': (1, 2, lambda q, p: G.U2(q[0], *p)), 'U3': (1, 3, lambda q, p: G.U3(q[0], *p)), 'CU3': (2, 3, lambda q, p: G.CU3(q[0], q[1], *p)),
    'CU': (2, 4, lambda q, p: G.CU(q[0], q[1], *p)), 'ParityPhase': (3, 1, lambda q, p: G.ParityPhase(p[0], *q)),
    'ParityPhase2': (2, 1, lambda q, p: G.ParityPhase(p[0], *q)), 'ParityPhase1': (1, 1, lambda q, p: G.ParityPhase(p[0], *q)),
}
ALL = dict(KINDS, ParityPhase4=(4, 1, lambda q, p: G.ParityPhase(p[0], *q)))
FIXED = [k for k, v in KINDS.items() if not v[1]]
PARAM = [k for k, v in KINDS.items() if v[1]]
BASIC = ('ZPhase', 'XPhase', 'Z', 'S', 'T', 'NOT', 'SX', 'HAD', 'CNOT', 'CZ')


def any_gate(S, name, nq, kinds, den=4):
    kind = S.choose(name, [k for k in kinds if ALL[k][0] <= nq])
    ar, na, mk = ALL[kind]
    q = S.choose(name + '.q', list(itertools.permutations(range(nq), ar)))
    d = den
    return mk(q, [S.phase('%s.a%d' % (name, i), d) for i in range(na)]), kind


def sem_rename(ops, mask):
    out = []
    for o in ops:
        if o[0] == 'h':
            out.append(('h', mask[o[1]]))
        elif o[0] == 'swap':
            out.append(('swap', mask[o[1]], mask[o[2]]))
        elif o[0] == 'x':
            out.append(('x', mask[o[1]], [mask[c] for c in o[2]]))
        else:
            out.append((o[0], o[1], [mask[c] for c in o[2]]))
    return out


def h_basic(S, kinds, nq, den):
    g, k = any_gate(S, 'g', nq, kinds, den)
    S.witness(k)
    S.sig('basic:' + k)
    want = S.cmap([g], nq)
    b = g.to_basic_gates()
    if not k.startswith('FSim'):
        S.same_uptophase(S.cmap(b, nq), want, 'to_basic_gates of ' + k)
        for x in b:
            if k == 'CSWAP' or k == 'ParityPhase':
                continue
            S.require(type(x).__name__ in BASIC or x is g, 'to_basic_gates yields %s' % type(x).__name__)
        S.require(sum(x.tcount() for x in b) == g.tcount(), 'T-count of %s differs from that of its expansion' % k)
    S.same(S.cmap([g], nq), want, 'expanding changed the gate')


def h_graph(S, kinds, nq, den):
    g, k = any_gate(S, 'g', nq, kinds, den)
    S.witness(k)
    S.sig('graph:' + k)
    zh = S.flag('zh')
    c = zx.Circuit(nq)
    c.add_gate(g)
    gr = c.to_graph(zh=zh, compress_rows=S.flag('compress'))
    S.same_uptophase(S.gmap(gr), S.cmap([g], nq), 'diagram of ' + k)


def h_adjoint(S, kinds, nq, den):
    g, k = any_gate(S, 'g', nq, kinds, den)
    S.witness(k)
    S.sig('adjoint:' + k)
    want = S.cmap([g], nq)
    a = g.to_adjoint()
    S.same(S.cmap([g], nq), want, 'to_adjoint changed the gate')
    S.same_uptophase(S.cmap([g, a], nq), S.cmap([], nq), 'adjoint of ' + k)
    aa = a.to_adjoint()
    S.same_uptophase(S.cmap([aa], nq), want, 'double adjoint of ' + k)
    if not k.startswith('FSim'):
        S.same_uptophase(S.cmap([g] + a.to_basic_gates(), nq), S.cmap([], nq), 'expansion of the adjoint of ' + k)


def h_reposition(S, kinds, nq, den):
    g, k = any_gate(S, 'g', nq, kinds, den)
    S.witness(k)
    S.sig('reposition:' + k)
    mask = list(S.choose('mask', [p for p in itertools.permutations(range(4), nq)][::1]))
    want = S.opsmap(sem_rename(sem.gate_ops(g), mask), 4)
    orig = S.cmap([g], nq)
    r = g.reposition(mask)
    S.same(S.cmap([r], 4), want, 'reposition of ' + k)
    if not k.startswith('FSim'):
        S.same_uptophase(S.cmap(r.to_basic_gates(), 4), want, 'expansion of repositioned ' + k)
    S.require(r._max_target() < 4, 'reposition: _max_target')
    S.same(S.cmap([g], nq), orig, 'reposition changed the gate')


def h_eq(S, kinds, nq, den):
    """equal gates mean the same; a copy is equal and independent"""
    g, k = any_gate(S, 'g', nq, kinds, den)
    h, k2 = any_gate(S, 'h', nq, [x for x in kinds if x.rstrip('123') == k.rstrip('123')] if not S.flag('other') else kinds, den)
    S.sig('eq:' + k)
    if g == h:
        S.witness('equal')
        S.same_uptophase(S.cmap([g], nq), S.cmap([h], nq), 'equal gates with different meaning: ' + k)
        S.require(h == g, 'gate equality is not symmetric')
    c = g.copy()
    S.require(c == g and g == c, 'copy of %s differs from it' % k)
    if hasattr(c, 'phase'):
        want = S.cmap([g], nq)
        c.phase = c.phase + Fraction(1, 4)
        S.same(S.cmap([g], nq), want, 'changing a copy changed the gate')


def h_split(S, den):
    p = S.phase('p', den)
    if S.flag('neg'):
        p = p - 2
    g = (G.ZPhase if S.flag('z') else G.XPhase)(0, p)
    want = S.cmap([g], 1)
    l = g.split_phases()
    S.same_uptophase(S.cmap(l, 1), want, 'split_phases')
    S.require(sum(x.tcount() for x in l) == g.tcount(), 'split_phases changes the T-count')
    S.require(g.tcount() == (0 if (2 * p) % 1 == 0 else 1), 'tcount of a phase gate')
    if len(l) > 1:
        S.witness('split')


def h_emoji(S):
    """the emoji token of a phase gate spells its phase"""
    p = S.phase('p', 4)
    S.assume(p != 0)
    n = S.flag('z')
    g = (G.ZPhase if n else G.XPhase)(0, p)
    st = [[]]
    g.to_emoji(st)
    t = st[0][0]
    S.require(len(st[0]) == 1 and t[0] == ':' and t[-1] == ':' and t[1] == ('Z' if n else 'X'), 'emoji of a phase gate: ' + t)
    a, _, b = t[2:-1].partition('p')
    S.require(Fraction(int(a or 1), int(b or 1)) == p, 'emoji %s does not spell the phase' % t)


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    den = 8 if T else 4
    one = [k for k in KINDS if KINDS[k][0] == 1]
    two = [k for k in KINDS if KINDS[k][0] == 2]
    three = [k for k in KINDS if KINDS[k][0] == 3]
    four = [k for k in ALL if ALL[k][0] == 4]
    for nm, fn, what in (('basic', h_basic, 'expansion into basic gates'), ('graph', h_graph, 'diagram form'), ('adjoint', h_adjoint, 'adjoint'), ('reposition', h_reposition, 'reposition'), ('eq', h_eq, 'equality and copies')):
        add(nm + '4', fn, what, 'parity phases over 4 qubits in any order, angles multiples of pi/%d' % (4 if nm != 'eq' else 2), wit=tuple(four) if nm != 'eq' else ('equal',), kinds=four, nq=4, den=4 if nm != 'eq' else 2)
    for nm, fn, what in (('basic', h_basic, 'expansion into basic gates'), ('graph', h_graph, 'diagram form'), ('adjoint', h_adjoint, 'adjoint')):
        for ar, ks in ((1, one), (2, two), (3, three)):
            heavy = [k for k in ks if k in ('CU3', 'CU')]
            rest = [k for k in ks if k not in heavy]
            nq = max(ar, 2) if not T else ar + 1
            add('%s%d' % (nm, ar), fn, what, 'all %d-qubit gates on %d qubits, angles multiples of pi/%d' % (ar, nq, den), wit=tuple(rest),
                kinds=rest, nq=nq, den=den)
            if heavy:
                add('%s%d_cu' % (nm, ar), fn, what, 'CU3, CU on 2 qubits, angles multiples of pi/%d' % (4 if T else 2), wit=tuple(heavy),
                    kinds=heavy, nq=ar, den=4 if T else 2)
    add('reposition1', h_reposition, 'reposition', 'one-qubit gates', kinds=one, nq=2, den=4, wit=tuple(one))
    add('reposition2', h_reposition, 'reposition', 'two-qubit gates', kinds=two, nq=3, den=2, wit=tuple(two))
    add('reposition3', h_reposition, 'reposition', 'three-qubit gates', kinds=three, nq=3, den=4, wit=tuple(three))
    add('eq1', h_eq, 'equality and copies', 'one-qubit gates', kinds=one, nq=2, den=4, wit=('equal',))
    add('eq2', h_eq, 'equality and copies', 'two-qubit gates', kinds=two, nq=2, den=2, wit=('equal',))
    add('eq3', h_eq, 'equality and copies', 'three-qubit gates', kinds=three, nq=3, den=4, wit=('equal',))
    add('split', h_split, 'split_phases and tcount', 'phases multiples of pi/8, in [-2,2)', den=8, wit=('split',))
    add('emoji', h_emoji, 'emoji tokens', 'phases multiples of pi/4')
    return H
