"""P22: the peephole optimiser for circuits."""
import itertools
from fractions import Fraction
from symx.run import Harness
import pyzx as zx
from pyzx.circuit.gates import ZPhase, NOT, HAD, CNOT, CZ, SWAP, S as SG, T as TG, Z as ZG, XPhase, CCZ, CHAD, YPhase
from pyzx.optimize import basic_optimization, Optimizer, stats

LEVEL = 'other'
EXPLANATION = ('The real optimiser runs on circuits whose gates and angles are solver variables; every branch on one is decided by the solver. '
               'The maps of the input and the output are computed independently, as exact expressions in the angles, and compared for all values.')
ASSUMPTIONS = ['circuits are compared up to a global phase']
BUDGET = {'quick': 100, 'thorough': 900}


def alphabet(n, kinds):
    out = []
    for k in kinds:
        if k in 'hxp' or k in ('s', 't', 'sd', 'z'):
            out += [(k, q) for q in range(n)]
        elif k == 'c':
            out += [('c',) + p for p in itertools.permutations(range(n), 2)]
        elif k == 'y':
            out += [('y',) + p for p in itertools.permutations(range(n), 2)]
        elif k == 'v':
            out += [('y',) + p for p in itertools.combinations(range(n), 2)]
    return out


def gate(S, name, sym, den=4):
    k, q = sym[0], sym[1]
    if k == 'h':
        return HAD(q)
    if k == 'x':
        return NOT(q)
    if k == 'p':
        return ZPhase(q, S.phase(name + 'p', den))
    if k == 's':
        return SG(q)
    if k == 'sd':
        return SG(q, adjoint=True)
    if k == 't':
        return TG(q)
    if k == 'z':
        return ZG(q)
    return (CNOT if k == 'c' else CZ)(*sym[1:])


def circuit(S, n, k, kinds, den=4, extra=()):
    c = zx.Circuit(n)
    al = alphabet(n, kinds)
    for i in range(k):
        c.add_gate(gate(S, 'g%d' % i, S.choose('g%d' % i, al), den))
    return c


def text(c):
    return [(g.name, getattr(g, 'control', None), g.target, getattr(g, 'phase', None)) for g in c.gates]


def pairs(gates):
    return {frozenset((g.control, g.target)) for g in gates if g.name in ('CNOT', 'CZ', 'SWAP')}


def verify(S, c, n, mode):
    want = S.cmap(c.gates, n)
    before = text(c)
    if mode == 'separate':
        d, corr = Optimizer(c).parse_circuit(separate_correction=True)
        S.require(all(g.name in ('NOT', 'SWAP') for g in corr), 'the corrections are NOTs and swaps')
        gates = d.gates + corr
    else:
        d = basic_optimization(c, do_swaps=mode != 'noswap')
        gates = d.gates
    S.require(d is not c and d.qubits == n, 'a new circuit')
    after = text(c)
    S.require(len(after) == len(before) and all(x[:3] == y[:3] and (x[3] is y[3] or x[3] == y[3]) for x, y in zip(before, after)), 'the argument is changed')
    S.same_uptophase(S.cmap(gates, n), want, 'optimised circuit')
    for g in d.gates:
        S.require(g.name in ('HAD', 'NOT', 'CNOT', 'CZ') or isinstance(g, ZPhase), 'gate of another kind')
    if mode == 'noswap':
        S.require(pairs(gates) <= pairs(c.gates), 'gate between qubits that did not interact')
    S.witness(mode)


def h_opt(S, n, k, kinds, modes, den=4):
    mode = S.choose('mode', modes)
    verify(S, circuit(S, n, k, kinds, den), n, mode)


def h_word(S, n, k, kinds, words, den=4):
    """symbolic gates around a fixed sequence"""
    w = S.choose('word', words)
    c = zx.Circuit(n)
    al = alphabet(n, kinds)
    i = 0
    for sym in w:
        if sym == '?':
            sym = S.choose('g%d' % i, al)
        c.add_gate(gate(S, 'g%d' % i, sym, den))
        i += 1
    verify(S, c, n, 'swaps')


def h_refuse(S):
    c = zx.Circuit(3)
    c.add_gate(HAD(0))
    g = S.choose('gate', (XPhase(0, Fraction(1, 4)), CCZ(0, 1, 2), CHAD(0, 1), SWAP(0, 1), YPhase(0, Fraction(1, 4))))
    c.add_gate(g)
    how = S.flag('basic')
    try:
        d = basic_optimization(c.to_basic_gates() if how else c)
    except (TypeError, AttributeError):
        S.require(not how or isinstance(g, (XPhase, YPhase)), 'a basic gate is refused')
        S.witness('refused')
        return
    S.same_uptophase(S.cmap(d.gates, 3), S.cmap(c.gates, 3), 'optimised circuit')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('swaps',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    M = ('swaps', 'noswap', 'separate')
    add('two4', h_opt, 'all gates', '4 gates on 2 qubits, angles k/4', wit=('swaps',), n=2, k=4, kinds='hxpcy', modes=M[:1])
    add('two3', h_opt, 'all gates and modes', '3 gates on 2 qubits, angles k/4', wit=M, n=2, k=3, kinds='hxpcy', modes=M)
    add('cliff2', h_opt, 'Clifford circuits', '5 gates on 2 qubits', wit=M[:1], n=2, k=5, kinds=('h', 's', 'x', 'c', 'v'), modes=M[:1])
    add('cliff2b', h_opt, 'Clifford circuits', '6 gates on 2 qubits', wit=M[:1], n=2, k=6, kinds=('h', 'c', 'v'), modes=M[:1])
    add('three3', h_opt, 'all gates', '3 gates on 3 qubits, angles k/4', n=3, k=3, kinds='hxpcv', modes=M[:1])
    add('three4', h_opt, 'CNOT, CZ and Hadamard gates', '4 gates on 3 qubits', n=3, k=4, kinds='hcv', modes=M[:1])
    c01, c10, z01, h0, h1 = ('c', 0, 1), ('c', 1, 0), ('y', 0, 1), ('h', 0), ('h', 1)
    W = [(c01, '?', '?', z01, '?'), (z01, '?', '?', c01, '?'), (c10, '?', '?', z01, '?'), (c01, '?', '?', c10, '?'), (h0, '?', h0, '?', c01, '?'), (h1, '?', h1, '?', c01, '?'),
         (h0, ('s', 0), h0, '?', '?', '?'), (('x', 0), '?', '?', c01, '?'), (('z', 1), '?', '?', c01, '?'), (c01, h0, '?', '?', h0, c01)]
    add('words2', h_word, 'gates around fixed ones', '3 gates around 10 words on 2 qubits, angles k/4', n=2, k=3, kinds='hxpcv', words=W)
    V = [(c01, '?', ('c', 0, 2), '?', z01), (('c', 0, 2), '?', z01, '?', ('c', 0, 2)), (('c', 1, 2), '?', ('y', 1, 2), '?', c01), (c01, '?', c10, '?', ('y', 0, 2)), (('c', 2, 1), ('h', 1), '?', '?', ('c', 2, 1)),
         (('c', 2, 0), '?', ('s', 0), '?', ('y', 0, 2))]
    add('words3', h_word, 'gates around fixed ones', '2 gates around 6 words on 3 qubits, angles k/4', n=3, k=2, kinds='hxpcv', words=V)
    add('refuse', h_refuse, 'other gates', '5 gates', wit=('ok', 'refused'))
    if T:
        add('two5', h_opt, 'all gates', '5 gates on 2 qubits, angles k/4', wit=('swaps',), n=2, k=5, kinds='hxpcv', modes=M[:1])
        add('cliff3', h_opt, 'Clifford circuits', '5 gates on 3 qubits', n=3, k=5, kinds='hcv', modes=M[:1])
        add('three4t', h_opt, 'all gates', '4 gates on 3 qubits, angles k/4', n=3, k=4, kinds='hxpcv', modes=M[:1])
        add('cliff2t', h_opt, 'Clifford circuits', '8 gates on 2 qubits', n=2, k=8, kinds=('h', 'c', 'v'), modes=M[:1])
    return H
