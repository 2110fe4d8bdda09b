"""P11: circuits survive being written as text and read back: QASM 2 and 3, .qc and Quipper."""
import os, re, tempfile
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from checks import wide
from checks.p05 import KINDS, any_gate

G = gen.GATES
LEVEL = 'other'
EXPLANATION = ('The real writers and parsers run on circuits with symbolic gates, qubits and angles; the circuit that is read back must denote, for '
               'every angle, the same map as the one written (independent gate semantics), on the same qubits.')
ASSUMPTIONS = ['angles are multiples of pi/8 (and pi/3, pi/5 for the number formats); the angle is printed, so each value is a separate path']
BUDGET = {'quick': 80, 'thorough': 900}
ODD = (Fraction(1, 3), Fraction(-2, 3), Fraction(7, 5), Fraction(1, 1000), Fraction(1, 10 ** 6), Fraction(3, 10 ** 7), Fraction(5, 1), 0, Fraction(1, 7))
QC_KINDS = ('ZPhase', 'XPhase', 'Z', 'NOT', 'S', 'Sdg', 'T', 'Tdg', 'SX', 'SXdg', 'HAD', 'CNOT', 'CZ', 'XCX', 'SWAP', 'CCZ', 'Tofolli', 'CSWAP', 'CY', 'CSX', 'CHAD', 'ParityPhase', 'Y', 'YPhase')
QUIP_KINDS = QC_KINDS + ('ParityPhase1',  'CRZ', 'CPhase', 'RZZ')


def check(S, c, c2, nq, exact=True):
    S.require(c2.qubits == nq, 'number of qubits after reading: %d' % c2.qubits)
    S.same_uptophase(S.cmap(c2.gates, nq), S.cmap(c.gates, nq), 'circuit read back')


def h_qasm(S, nq, k, kinds, den):
    c = zx.Circuit(nq)
    for i in range(k):
        g, kd = any_gate(S, 'g%d' % i, nq, kinds, den)
        c.add_gate(g)
        S.witness(kd)
    if k == 1 and S.flag('adjoint'):
        c = c.adjoint()
    S.sig('qasm:' + '+'.join(type(g).__name__ for g in c.gates))
    before = S.cmap(c.gates, nq)
    v = S.choose('version', (2, 3))
    s = c.to_qasm(version=v)
    S.same(S.cmap(c.gates, nq), before, 'to_qasm changed the circuit')
    S.require(s.startswith('OPENQASM %d' % v), 'header')
    check(S, c, zx.Circuit.from_qasm(s), nq)
    S.same_uptophase(S.cmap(zx.circuit.qasmparser.QASMParser().parse(s).gates, nq), before, 'parser object')


def h_odd(S, fmt):
    """angles that are not dyadic"""
    p = S.choose('p', ODD)
    p = -p if S.flag('neg') else p
    k = S.choose('k', ('ZPhase', 'XPhase', 'YPhase', 'U3', 'CRZ') if fmt == 'qasm' else ('ZPhase', 'XPhase', 'CRZ') if fmt == 'quipper' else ())
    ar, na, mk = KINDS[k]
    g = mk([0, 1][:ar], [p, Fraction(1, 4), Fraction(1, 2)][:na])
    c = zx.Circuit(2)
    c.add_gate(g)
    c2 = zx.Circuit.from_qasm(c.to_qasm(S.choose('v', (2, 3)))) if fmt == 'qasm' else zx.Circuit.from_quipper(c.to_quipper())
    S.witness('ok')
    import numpy as np
    a, b = sem.ops_numeric(sem.ops_of_gates(c.gates), 2), sem.ops_numeric(sem.ops_of_gates(c2.gates), 2)
    i = int(np.argmax(np.abs(a)))
    S.require(abs(b[i]) > 1e-9 and bool(np.allclose(b * (a[i] / b[i]), a, atol=1e-9)), 'angle %s becomes %s' % (p, [getattr(x, 'phase', None) for x in c2.gates]))
    if type(c2.gates[0]) is type(g) and hasattr(g, 'phase') and (p * 100000).denominator == 1:
        S.require((c2.gates[0].phase - p) % 2 == 0, 'the angle %s is read back as %s' % (p, c2.gates[0].phase))


def h_qc(S, nq, k, kinds, den):
    c = zx.Circuit(nq)
    for i in range(k):
        g, kd = any_gate(S, 'g%d' % i, nq, kinds, den)
        c.add_gate(g)
        S.witness(kd)
    if k == 1 and S.flag('adjoint'):
        c = c.adjoint()
    S.sig('qc:' + '+'.join(type(g).__name__ for g in c.gates))
    try:
        s = c.to_qc()
    except TypeError:
        S.witness('refused')
        S.require(any(hasattr(x, 'phase') and (4 * x.phase) % 1 != 0 for g in c.gates for x in g.to_basic_gates()), 'a Clifford+T circuit was refused')
        return
    S.require('undefined' not in s, 'undefined gate written')
    check(S, c, zx.Circuit.from_qc(s), nq)


def h_quipper(S, nq, k, kinds, den):
    c = zx.Circuit(nq)
    for i in range(k):
        g, kd = any_gate(S, 'g%d' % i, nq, kinds, den)
        c.add_gate(g)
        S.witness(kd)
    if k == 1 and S.flag('adjoint'):
        c = c.adjoint()
    S.sig('quipper:' + '+'.join(type(g).__name__ for g in c.gates))
    s = c.to_quipper()
    S.require('undefined' not in s, 'undefined gate written')
    check(S, c, zx.Circuit.from_quipper(s), nq)


def h_files(S):
    """files: the format is found from the name or the contents"""
    fmt = S.choose('fmt', ('qasm', 'qc', 'quipper'))
    ext = S.choose('ext', {'qasm': ('.qasm', '.txt', '.qasm2'), 'qc': ('.qc', '.tfc', '.txt'), 'quipper': ('.quip', '.quipper', '.txt')}[fmt])
    c = zx.Circuit(2)
    for i in range(2):
        c.add_gate(any_gate(S, 'g%d' % i, 2, ('HAD', 'T', 'CNOT', 'CZ'), 4)[0])
    s = {'qasm': c.to_qasm, 'qc': c.to_qc, 'quipper': c.to_quipper}[fmt]()
    d = tempfile.mkdtemp(prefix='symx')
    p = os.path.join(d, 'x' + ext)
    try:
        with open(p, 'w') as f:
            f.write(s)
        c2 = zx.Circuit.load(p)
        c3 = {'qasm': zx.Circuit.from_qasm_file, 'qc': zx.Circuit.from_qc_file, 'quipper': zx.Circuit.from_quipper_file}[fmt](p)
    finally:
        os.unlink(p)
        os.rmdir(d)
    S.witness(fmt)
    check(S, c, c2, 2)
    check(S, c, c3, 2)
    S.require(c2.name == c3.name == 'x' + ext, 'name of the circuit')


def h_wide(S, fmt, k, kinds, n=12, places=(0, 1, 2, 10, 11)):
    """many qubits, so that their numbers have one or two digits"""
    c = wide.circuit(S, n, places, k, kinds, 1)
    s, back = {'qasm': (c.to_qasm, zx.Circuit.from_qasm), 'qc': (c.to_qc, zx.Circuit.from_qc), 'quipper': (c.to_quipper, zx.Circuit.from_quipper)}[fmt]
    c2 = back(s())
    S.require(c2.qubits == n, 'number of qubits after reading: %d' % c2.qubits)
    S.same_uptophase(wide.cmap(S, c2.gates, places), wide.cmap(S, c.gates, places), 'circuit read back')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    allk = [k for k in KINDS if not k.startswith('FSim')]
    one = [k for k in allk if KINDS[k][1] <= 1]
    add('qasm1', h_qasm, 'QASM round trip', '1 gate of any kind with at most one angle, 3 qubits', wit=one, nq=3, k=1, kinds=one, den=4)
    add('qasm1m', h_qasm, 'QASM round trip', '1 gate with several angles, 2 qubits', wit=('U2', 'U3', 'CU3', 'CU'), nq=2, k=1, kinds=('U2', 'U3', 'CU3', 'CU'), den=2)
    add('qasm8', h_qasm, 'QASM round trip', '1 rotation, angles multiples of pi/8', nq=1, k=1, kinds=('ZPhase', 'XPhase', 'YPhase'), den=8)
    add('qasm2', h_qasm, 'QASM round trip', '2 gates, 2 qubits', nq=2, k=2, kinds=('ZPhase', 'HAD', 'CNOT', 'SXdg', 'SWAP', 'CRX', 'RZZ', 'XCX', 'CSX'), den=2)
    add('qasm_odd', h_odd, 'QASM angles', '9 non-dyadic angles, 5 gates', wit=('ok',), fmt='qasm')
    add('quip_odd', h_odd, 'Quipper angles', '9 non-dyadic angles, 3 gates', wit=('ok',), fmt='quipper')
    add('qc1', h_qc, 'qc round trip', '1 gate of 24 kinds or its adjoint, 3 qubits', wit=('ok',) if False else ('ZPhase', 'SXdg', 'CSWAP', 'refused'), nq=3, k=1, kinds=QC_KINDS, den=8)
    add('qc2', h_qc, 'qc round trip', '2 gates, 2 qubits', nq=2, k=2, kinds=('ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'SXdg', 'SWAP'), den=4)
    add('quip1', h_quipper, 'Quipper round trip', '1 gate of 27 kinds or its adjoint, 3 qubits', wit=('ZPhase', 'CRZ', 'CSWAP'), nq=3, k=1, kinds=QUIP_KINDS, den=4)
    add('quip2', h_quipper, 'Quipper round trip', '2 gates, 2 qubits', nq=2, k=2, kinds=('ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'SXdg', 'SWAP', 'Sdg', 'XCX'), den=2)
    for f in ('qasm', 'qc', 'quipper'):
        add('wide_' + f, h_wide, f + ' round trip', '12 qubits, 1 gate', wit=('ok',), fmt=f, k=1, kinds=('T', 'HAD', 'CNOT', 'CZ', 'SWAP', 'CCZ', 'Tofolli', 'CSWAP', 'SXdg', 'XCX'))
        add('wide2_' + f, h_wide, f + ' round trip', '12 qubits, 2 gates', wit=('ok',), fmt=f, k=2, kinds=('S', 'CNOT', 'SWAP'), places=(0, 1, 10, 11))
    add('files', h_files, 'reading files', '3 formats, 3 extensions each, 2 gates', wit=('qasm', 'qc', 'quipper'))
    if T:
        add('qasm3', h_qasm, 'QASM round trip', '3 gates, 3 qubits', nq=3, k=3, kinds=('T', 'HAD', 'CNOT', 'SXdg', 'SWAP', 'CCZ'), den=2)
        add('qc3', h_qc, 'qc round trip', '3 gates, 3 qubits', nq=3, k=3, kinds=('ZPhase', 'HAD', 'CNOT', 'CZ', 'Tofolli'), den=4)
        add('quip3', h_quipper, 'Quipper round trip', '3 gates, 3 qubits', nq=3, k=3, kinds=('ZPhase', 'HAD', 'CNOT', 'CZ', 'Tofolli'), den=2)
    return H
