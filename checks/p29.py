"""P29: verified equality of circuits."""
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen
import pyzx as zx

LEVEL = 'other'
EXPLANATION = ('The real comparison of two circuits runs on circuits whose gates, qubits and angles are solver variables; every branch on one is decided by the solver. '
               'Whenever it reports equality, the exact maps of the two circuits are compared for all values on the path; circuits that differ by rewriting with the rules of the groups must be recognised.')
ASSUMPTIONS = ['completeness is only asked for circuits that differ by cancellation, commutation or the order of independent gates']
BUDGET = {'quick': 80, 'thorough': 900}
SOME = (None, 'h', 'z', 'cnot')
CLIFF = (None, 'h', 'S', 'Z', 'NOT', 'cnot', 'cz', 'swap')
WIDE = (None, 'h', 'z', 'x', 'cnot', 'cz', 'swap', 'T', 'Sd', 'cp', 'rzz')


def circ(S, nm, n, k, kinds, den=4):
    c = zx.Circuit(n)
    for i in range(k):
        x = gen.slot(S, '%s%d' % (nm, i), n, kinds, den)
        if x is not None:
            c.add_gate(x)
    return c


def text(c):
    return [(type(g).__name__, getattr(g, 'target', None), getattr(g, 'control', None)) for g in c.gates]


def h_sound(S, n, k1, k2, kinds, kinds2=None, den=4, swaps=(False, True)):
    a, b = circ(S, 'a', n, k1, kinds, den), circ(S, 'b', n, k2, kinds2 or kinds, den)
    ta, tb = text(a), text(b)
    ga, gb = list(a.gates), list(b.gates)
    up = S.choose('swaps', swaps)
    r = a.verify_equality(b, up_to_swaps=up) if up else a.verify_equality(b)
    S.require(text(a) == ta and text(b) == tb and a.gates == ga and b.gates == gb and a.qubits == b.qubits == n, 'a circuit is changed')
    if r:
        S.witness('equal')
        if not up:
            S.same_uptophase(S.cmap(b.gates, n), S.cmap(a.gates, n), 'different circuits are reported to be equal')
        else:
            # b = (swaps) a, so the inputs of the inverses differ by a permutation
            S.same_upto_perm(S.cmap(a.adjoint().gates, n), S.cmap(b.adjoint().gates, n), n, 'circuits that differ by more than swaps are reported to be equal')
    else:
        S.witness('different')
        S.require(ta != tb or not same_gates(ga, gb), 'a circuit is not recognised as equal to itself')


def same_gates(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def h_same(S, n, k, kinds, den=4):
    """a circuit and an obviously equal one"""
    a = circ(S, 'a', n, k, kinds, den)
    b = zx.Circuit(n)
    how = S.choose('how', ('copy', 'basic', 'cancel', 'swap', 'optimise'))
    if how == 'copy':
        b = a.copy()
    elif how == 'basic':
        b = a.to_basic_gates()
    elif how == 'cancel':
        x = gen.slot(S, 'x', n, [i for i in kinds if i], den)
        i = S.choose('pos', range(len(a.gates) + 1))
        b.gates = [g.copy() for g in a.gates[:i]] + [x, x.to_adjoint()] + [g.copy() for g in a.gates[i:]]
    elif how == 'swap':
        b = a.copy()
        for q in range(n - 1):
            b.add_gate('SWAP', q, q + 1)
        S.require(a.verify_equality(b, up_to_swaps=True) is True, 'equal up to swaps')
        S.require(n == 1 or not a.verify_equality(b), 'swaps are not ignored unless asked for')
        S.witness(how)
        return
    else:
        b = zx.Circuit.from_graph(zx.simplify.teleport_reduce(a.to_graph()))
    S.require(a.verify_equality(b) is True and b.verify_equality(a, up_to_swaps=True) is True, 'equal circuits are not recognised')
    S.witness(how)


def h_refuse(S):
    a, b = zx.Circuit(2, bit_amount=S.choose('ba', (0, 1))), zx.Circuit(S.choose('n', (1, 2, 3)), bit_amount=S.choose('bb', (0, 1)))
    for c, nm in ((a, 'a'), (b, 'b')):
        if S.flag(nm):
            c.add_gate('HAD', 0)
    try:
        r = a.verify_equality(b, up_to_swaps=S.flag('up'))
    except (NotImplementedError, TypeError):
        S.require(a.bits or b.bits or a.qubits != b.qubits, 'a comparison is refused')
        S.witness('refused')
        return
    S.require(not (a.bits or b.bits), 'hybrid circuits are compared')
    S.require(not r or (a.qubits == b.qubits and len(a.gates) == len(b.gates)), 'different circuits are reported to be equal')
    S.witness('ok')


def harnesses(tier):
    th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('equal', 'different'), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))

    W = 'Circuit.verify_equality, full_reduce'
    add('one', h_sound, W, '1 qubit, 2 gates against 2, symbolic angles', n=1, k1=2, k2=2, kinds=(None, 'h', 'z', 'x'), kinds2=('h', 'z', 'x'))
    add('two', h_sound, W, '2 qubits, 1 gate against 2, symbolic angles', n=2, k1=1, k2=2, kinds=SOME)
    add('kinds', h_sound, W, '2 qubits, one gate of every kind against another', n=2, k1=1, k2=1, kinds=WIDE)
    add('cliff', h_sound, W, '2 qubits, 2 Clifford gates against 1', n=2, k1=2, k2=1, kinds=CLIFF)
    add('cliff2', h_sound, W, '2 qubits, 2 gates against 2', n=2, k1=2, k2=2, kinds=('h', 'cnot', 'z'), kinds2=('h', 'cnot'))
    add('swap3', h_sound, W, '3 qubits, two swaps or CNOTs against one', n=3, k1=2, k2=1, kinds=(None, 'cnot', 'swap'))
    hows = ('copy', 'basic', 'cancel', 'swap', 'optimise')
    add('same1', h_same, W, '1 qubit, 3 gates', hows, n=1, k=3, kinds=(None, 'h', 'z', 'x'))
    add('same2', h_same, W, '2 qubits, 2 gates', hows, n=2, k=2, kinds=SOME + ('cz',))
    add('same3', h_same, W, '3 qubits, 2 gates', hows, n=3, k=2, kinds=(None, 'h', 'z', 'cnot'))
    add('refuse', h_refuse, 'Circuit.verify_equality', 'different numbers of qubits or bits', ('refused', 'ok'))
    return H
