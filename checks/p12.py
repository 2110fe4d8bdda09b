"""P12: the circuit parsers give programs their meaning: OpenQASM 2/3, .qc, Quipper and qsim."""
import itertools, math
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.sem import _rz, _rx, _ry, _u3, _crz, _cu3
import pyzx as zx
from checks import wide
from pyzx.circuit.qasmparser import QASMParser, qasm
from pyzx.circuit.qcparser import parse_qc
from pyzx.circuit.quipperparser import parse_quipper_block
from pyzx.circuit.qsimparser import parse_qsim
from checks.p05 import sem_rename

F = Fraction
G = gen.GATES
LEVEL = 'other'
EXPLANATION = ('Programs are assembled from symbolic choices (gates, operands, registers, definitions, layout, angle expressions) and run through the '
               'real parsers; the circuit returned must denote the map that the language definition assigns to the program (spelled out here, '
               'independently of pyzx), and programs outside the supported language must be refused rather than misread.')
ASSUMPTIONS = ['programs of a few statements', 'OpenQASM gates have the qelib1/stdgates meaning, up to a global phase per gate']
BUDGET = {'quick': 80, 'thorough': 900}
H = lambda q: [('h', q)]
X = lambda t, *c: [('x', t, list(c))]
CZ = lambda *q: [('ph', F(1), list(q))]
PP = lambda p, *q: [('pp', p, list(q))]
Q2 = {
    # name: (qubits, angles, meaning)
    'x': (1, 0, lambda q, a: X(q[0])), 'y': (1, 0, lambda q, a: _ry(F(1), q[0])), 'z': (1, 0, lambda q, a: _rz(F(1), q[0])),
    'h': (1, 0, lambda q, a: H(q[0])), 's': (1, 0, lambda q, a: _rz(F(1, 2), q[0])), 'sdg': (1, 0, lambda q, a: _rz(F(-1, 2), q[0])),
    't': (1, 0, lambda q, a: _rz(F(1, 4), q[0])), 'tdg': (1, 0, lambda q, a: _rz(F(-1, 4), q[0])), 'sx': (1, 0, lambda q, a: _rx(F(1, 2), q[0])),
    'sxdg': (1, 0, lambda q, a: _rx(F(-1, 2), q[0])), 'id': (1, 0, lambda q, a: []),
    'rx': (1, 1, lambda q, a: _rx(a[0], q[0])), 'ry': (1, 1, lambda q, a: _ry(a[0], q[0])), 'rz': (1, 1, lambda q, a: _rz(a[0], q[0])),
    'p': (1, 1, lambda q, a: _rz(a[0], q[0])), 'u1': (1, 1, lambda q, a: _rz(a[0], q[0])),
    'u2': (1, 2, lambda q, a: _u3(F(1, 2), a[0], a[1], q[0])), 'u3': (1, 3, lambda q, a: _u3(a[0], a[1], a[2], q[0])),
    'u': (1, 3, lambda q, a: _u3(a[0], a[1], a[2], q[0])), 'U': (1, 3, lambda q, a: _u3(a[0], a[1], a[2], q[0])),
    'cx': (2, 0, lambda q, a: X(q[1], q[0])), 'CX': (2, 0, lambda q, a: X(q[1], q[0])), 'cz': (2, 0, lambda q, a: CZ(*q)),
    'cy': (2, 0, lambda q, a: _rz(F(-1, 2), q[1]) + X(q[1], q[0]) + _rz(F(1, 2), q[1])), 'swap': (2, 0, lambda q, a: [('swap', q[0], q[1])]),
    'ch': (2, 0, lambda q, a: _ry(F(-1, 4), q[1]) + CZ(*q) + _ry(F(1, 4), q[1])),
    'csx': (2, 0, lambda q, a: H(q[1]) + [('ph', F(1, 2), [q[0], q[1]])] + H(q[1])),
    'crz': (2, 1, lambda q, a: _crz(a[0], q[0], q[1])), 'crx': (2, 1, lambda q, a: H(q[1]) + _crz(a[0], q[0], q[1]) + H(q[1])),
    'cry': (2, 1, lambda q, a: _rz(F(-1, 2), q[1]) + H(q[1]) + _crz(a[0], q[0], q[1]) + H(q[1]) + _rz(F(1, 2), q[1])),
    'cp': (2, 1, lambda q, a: [('ph', a[0], list(q))]), 'cphase': (2, 1, lambda q, a: [('ph', a[0], list(q))]), 'cu1': (2, 1, lambda q, a: [('ph', a[0], list(q))]),
    'rzz': (2, 1, lambda q, a: PP(a[0], *q)), 'rxx': (2, 1, lambda q, a: H(q[0]) + H(q[1]) + PP(a[0], *q) + H(q[0]) + H(q[1])),
    'ccx': (3, 0, lambda q, a: X(q[2], q[0], q[1])), 'ccz': (3, 0, lambda q, a: CZ(*q)),
    'cswap': (3, 0, lambda q, a: X(q[2], q[1]) + X(q[1], q[0], q[2]) + X(q[2], q[1])),
    'cu3': (2, 3, lambda q, a: _cu3(a[0], a[1], a[2], q[0], q[1])), 'cu': (2, 4, lambda q, a: _rz(a[3], q[0]) + _cu3(a[0], a[1], a[2], q[0], q[1])),
}
HEAD = {2: 'OPENQASM 2.0;\ninclude "qelib1.inc";\n', 3: 'OPENQASM 3;\ninclude "stdgates.inc";\n'}


def reg(v, name, n):
    return 'qubit[%d] %s;\n' % (n, name) if v == 3 else 'qreg %s[%d];\n' % (name, n)


def ang(p):
    return '%s*pi' % float(p) if p.denominator & (p.denominator - 1) == 0 else '%d*pi/%d' % (p.numerator, p.denominator)


def check(S, c, ops, n, what):
    S.require(c.qubits == n, 'number of qubits: %d instead of %d' % (c.qubits, n))
    S.same_uptophase(S.cmap(c.gates, n), S.opsmap(ops, n), what)


def h_gates(S, kinds):
    """every gate name, every operand order, symbolic angles"""
    k = S.choose('k', kinds)
    n, na, f = Q2[k]
    q = S.choose('q', list(itertools.permutations(range(max(n, 2)), n)))
    a = [S.phase('a%d' % i, 2 if na > 2 else 4) for i in range(na)]
    v = S.choose('v', (2, 3))
    s = HEAD[v] + reg(v, 'q', max(n, 2)) + k + ('(%s)' % ','.join(ang(F(x)) for x in a) if a else '') + ' ' + S.choose('sep', (',', ', ')).join('q[%d]' % x for x in q) + ';\n'
    S.witness(k)
    check(S, zx.Circuit.from_qasm(s), f(q, a), max(n, 2), 'gate ' + k)


def h_registers(S):
    """several registers, whole-register operands, statements without effect"""
    v = S.choose('v', (2, 3))
    sizes = {'a': S.choose('na', (1, 2)), 'q': S.choose('nq', (1, 2))}
    first = S.choose('first', ('a', 'q'))
    second = 'q' if first == 'a' else 'a'
    base = {first: 0, second: sizes[first]}
    late = S.flag('late')
    n = sizes['a'] + sizes['q']
    s = HEAD[v] + reg(v, first, sizes[first])
    ops = []
    if late:
        s += 'h %s[0];\n' % first
        ops += H(base[first])
    s += reg(v, second, sizes[second])
    s += S.choose('noop', ('', 'creg c[2];\n' if v == 2 else 'bit[2] c;\n', 'barrier a, q;\n', '// cx a[0], q[0];\n', 'measure q[0] -> c[0];\n' if v == 2 else 'c[0] = measure q[0];\n', 'id q[0];\n', '\n\n'))
    g = S.choose('g', ('h', 't', 'cx', 'crz'))
    nn, na, f = Q2[g]
    args = [S.choose('arg%d' % i, [('a', None), ('q', None)] + [(r, k) for r in 'aq' for k in range(sizes[r])]) for i in range(nn)]
    whole = [r for r, k in args if k is None]
    lens = {sizes[r] for r in whole}
    ref = lambda r, k: r if k is None else '%s[%d]' % (r, k)
    s += g + ('(pi/2)' if na else '') + ' ' + ','.join(ref(*x) for x in args) + ';\n'
    wires = lambda j: [base[r] + (j if k is None else k) for r, k in args]
    if len(lens) <= 1:
        m = lens.pop() if lens else 1
        if any(len(set(wires(j))) < nn for j in range(m)):
            return
        for j in range(m):
            ops += f(wires(j), [F(1, 2)] * na)
        S.witness('whole' if whole else 'single')
        check(S, zx.Circuit.from_qasm(s), ops, n, 'program over registers')
    else:
        S.witness('mismatch')
        try:
            zx.Circuit.from_qasm(s)
        except TypeError:
            return
        S.fail('operands of different sizes were accepted')


def h_custom(S, backend=None):
    """gate definitions, also nested, used with permuted operands and on whole registers"""
    v = S.choose('v', (2, 3))
    names = S.choose('names', (('foo', 'bar'), ('mygate', 'h2'), ('gate2', 'agate')))
    b1 = S.choose('b1', ('cx a,b;', 'h a; cx b,a;', 't b; cz a, b;', ''))
    ops1 = {'cx a,b;': X(1, 0), 'h a; cx b,a;': H(0) + X(0, 1), 't b; cz a, b;': _rz(F(1, 4), 1) + CZ(0, 1), '': []}[b1]
    par = S.choose('par', ('', '()'))
    nl = S.choose('nl', (' ', '\n'))
    s = HEAD[v] + 'gate %s%s a,b%s{%s %s %s}\n' % (names[0], par, nl, nl, b1, nl)
    n2 = S.flag('nested')
    if n2:
        s += 'gate %s x, y {%s y,x; s x;}\n' % (names[1], names[0])
    ops2 = sem_rename(ops1, [1, 0]) + _rz(F(1, 2), 0)
    s += reg(v, 'q', 2) + reg(v, 'r', 2)
    use = names[1] if n2 else names[0]
    ops = ops2 if n2 else ops1
    arg, w = S.choose('arg', (('q[0],q[1]', [[0, 1]]), ('q[1],q[0]', [[1, 0]]), ('r[0], q[1]', [[2, 1]]), ('q,r', [[0, 2], [1, 3]]), ('r[1],q', [[3, 0], [3, 1]])))
    s += 'h q[0];\n%s %s;\n' % (use, arg)
    want = H(0)
    for m in w:
        want += sem_rename(ops, m)
    S.witness('nested' if n2 else 'plain')
    check(S, zx.Circuit.from_qasm(s), want, 4, 'program with a gate definition')


NUM = (1, 2, 3, 5, 7)


def h_angles(S):
    """monomials in pi and plain numbers, in any notation: read exactly or refused"""
    neg = S.choose('neg', ('', '-', '- ', '+'))
    sg = -1 if '-' in neg else 1
    a, b = S.choose('a', NUM), S.choose('b', (1, 2, 4, 3))
    form, val = S.choose('form', [('pi', 1), ('pi/{b}', F(1, b)), ('{a}*pi', a), ('pi*{a}', a), ('{a}*pi/{b}', F(a, b)), ('pi*{a}/{b}', F(a, b)), ('{a}pi/{b}', F(a, b)),
                                  ('{a}pi', a), ('pi/{b}*{a}', F(a, b)), ('{a}*{b}*pi', a * b), ('{a}/{b}*pi', F(a, b)), ('0.{a}*pi', F(a, 10)), ('pi*0.{a}', F(a, 10)),
                                  ('0.{a}*pi/{b}', F(a, 10 * b)), ('{a}.5*pi', a + F(1, 2)), ('{a} * pi / {b}', F(a, b)), ('pi/{b}/{a}', F(1, a * b)), ('pi/{b}.0', F(1, b)),
                                  ('0', 0), ('2*pi/{b}*{a}', F(2 * a, b)), ('1e-1*pi', F(1, 10)), ('1E1*pi/{b}', F(10, b)),
                                  # sums and products of pi: outside the supported language, must not be misread
                                  ('pi+{a}', None), ('pi-pi/{b}', None), ('pi-{a}', None), ('pi/{b}+pi', None), ('pi*pi', None), ('{a}-pi', None), ('pi pi', None), ('pi{a}', None), ('{a}/pi', None)])
    e = neg + form.format(a=a, b=b)
    s = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\nrz(%s) q[0];\n' % e
    try:
        c = zx.Circuit.from_qasm(s)
    except TypeError:
        S.require(form not in ('pi', 'pi/{b}', '{a}*pi', '{a}*pi/{b}', '0.{a}*pi', '0', '{a}.5*pi') or neg == '+' or (neg == '- ' and form == '0'), 'the angle %s was refused' % e)
        S.witness('refused')
        return
    S.require(len(c.gates) == 1 and c.qubits == 1, 'one gate')
    p = c.gates[0].phase
    if val is not None:
        S.witness('exact')
        S.require((F(p) - sg * val) % 2 == 0, 'the angle %s is read as %s*pi' % (e, p))
    else:
        num = eval(e.replace('pi{a}'.format(a=a), 'pi*%d' % a) if False else e, {'pi': math.pi}) if form not in ('pi pi', 'pi{a}') else None
        S.require(num is not None and abs(float(p) * math.pi - num) < 1e-6, 'the angle %s is read as %s*pi' % (e, p))


def h_number(S):
    """plain numbers are radians"""
    x = S.choose('x', ('0.25', '-1.5', '3', '1e-2', '3.141592653589793', '1.5707963267948966', '-0.7853981633974483'))
    c = zx.Circuit.from_qasm('OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[1];\nrx(%s) q[0];\n' % x)
    S.witness('ok')
    S.require(abs(float(c.gates[0].phase) * math.pi - float(x)) < 1e-7, 'the angle %s is read as %s*pi' % (x, c.gates[0].phase))
    S.require(len(x) < 10 or 4 % c.gates[0].phase.denominator == 0, 'multiple of pi/4 not recognised')


def h_layout(S):
    """statements may be laid out freely"""
    nl = S.choose('nl', ('\n', ' ', '', '\n  ', ' // x q[1];\n'))
    sp = S.choose('sp', (' ', '  ', '\t', '\n'))
    head = S.choose('head', ('OPENQASM 2.0;\ninclude "qelib1.inc";\n', '// comment\nOPENQASM 2.0;\n\ninclude "qelib1.inc"; // lib\n', 'OPENQASM 2.0;\ninclude "qelib1.inc"; '))
    s = head + 'qreg q[2];' + nl + 'h' + sp + 'q[0];' + nl + 'rz(pi/2)' + sp + 'q[1];' + nl + 'cx' + sp + 'q[0],' + sp + 'q[1];' + S.choose('end', ('', '\n', '\n// end'))
    want = H(0) + _rz(F(1, 2), 1) + X(1, 0)
    S.witness('ok')
    check(S, zx.Circuit.from_qasm(s), want, 2, 'program laid out as %r' % s)


def h_refuse(S):
    """programs outside the supported subset are refused, not misread"""
    bad = S.choose('bad', ('reset q[0];', 'if(c==1) x q[0];', 'opaque g a;', 'foo q[0];', 'rx q[0];', 'x(pi) q[0];', 'u2(pi) q[0];', 'crz q[0],q[1];', 'cu3(1,2) q[0],q[1];',
                           'gate g(t) a { rz(t) a; }', 'x w[0];', 'rz(foo) q[0];', 'rz(1/2*q) q[0];', 'gate g a,a { h a; }', 'u0(1) q[0];', 'gate g a { h a; cx a,a2; }'))
    h = S.flag('header')
    s = ('OPENQASM 2.0;\ninclude "qelib1.inc";\n' if h else '') + 'qreg q[2];\ncreg c[1];\nh q[0];\n' + bad + '\n'
    try:
        (zx.Circuit.from_qasm if h else qasm)(s)
    except (TypeError, KeyError, ValueError):
        S.witness('refused')
        return
    S.fail('accepted: ' + bad)


def h_header(S):
    v = S.choose('v', ('OPENQASM 2.0;', 'OPENQASM 3.0;', 'OPENQASM 3;', 'OPENQASM 4;', '', 'OPENQASM 2'))
    inc = S.choose('inc', ('include "qelib1.inc";', 'include "stdgates.inc";', ''))
    ok = v.startswith('OPENQASM 2.') and 'qelib' in inc or v.startswith('OPENQASM 3') and 'std' in inc
    body = 'qubit[2] q;' if '3' in v else 'qreg q[2];'
    s = v + '\n' + inc + '\n' + body + '\ncx q[0], q[1];'
    p = QASMParser()
    if S.flag('twice'):
        p.parse(HEAD[S.choose('v0', (2, 3))] + 'gate cx2 a,b {h a;}\nqreg r[1];\nh r[0];')
    try:
        c = p.parse(s)
    except TypeError:
        S.witness('refused')
        S.require(not ok, 'refused')
        return
    S.require(ok, 'a header that is not supported was accepted')
    S.witness('ok')
    check(S, c, X(1, 0), 2, 'program')


def h_nonstrict(S):
    """qasm() also takes programs without a header"""
    d = zx.settings.default_qasm_version
    h = S.choose('h', ('', 'OPENQASM 2.0;\n', HEAD[2], HEAD[3]))
    body = S.choose('b', ('qreg q[2]; cx q[1], q[0];', 'qreg q[2];\ncx q[1], q[0];'))
    S.witness('ok')
    check(S, qasm(h + body), X(0, 1), 2, 'program')
    S.require(zx.settings.default_qasm_version == d, 'settings changed')


QC = {1: {'tof': X, 't1': X, 'not': X, 'x': X, 'z': CZ, 'Z': CZ, 's': None, 'p': None, 's*': None, 'p*': None, 't': None, 't*': None, 'h': H, 'H': H},
      2: {'cnot': None, 'tof': None, 't2': None, 'cz': CZ, 'z': CZ, 'swap': None, 'Tof': None}, 3: {'t3': None, 'tof': None, 'ccz': CZ, 'z': CZ}}
QCPH = {'s': F(1, 2), 'p': F(1, 2), 's*': F(-1, 2), 'p*': F(-1, 2), 't': F(1, 4), 't*': F(-1, 4)}


def qc_ops(k, q):
    if len(q) == 1 and k.lower() in QCPH:
        return _rz(QCPH[k.lower()], q[0])
    k = k.lower()
    if k == 'h':
        return H(q[0])
    if k == 'swap':
        return [('swap', q[0], q[1])]
    if k in ('z', 'cz', 'ccz'):
        return CZ(*q)
    return X(q[-1], *q[:-1])


def h_qc(S, k):
    names = S.choose('names', (('a', 'b', 'c'), ('0', '1', '2'), ('q2', 'q1', 'q0')))
    comma = S.choose('comma', (' ', ', ', ','))
    order = '.v %s\n.i %s\n.o %s\n' % (comma.join(names), names[0], names[1])
    if S.flag('iv'):
        order = '.i %s\n.v %s\n' % (names[1], comma.join(names))
        names = (names[1], names[0], names[2])
    s = '# comment\n' * S.flag('cm') + order + '\nBEGIN\n'
    ops = []
    for i in range(k):
        ar = S.choose('ar%d' % i, (1, 2, 3))
        g = S.choose('g%d' % i, sorted(QC[ar]))
        q = S.choose('q%d' % i, list(itertools.permutations(range(3), ar)))
        s += '%s %s\n' % (g, comma.join(names[x] for x in q))
        ops += qc_ops(g, q)
    S.witness('ok')
    check(S, parse_qc(s + 'END\n'), ops, 3, 'qc program')


def h_qc_multi(S):
    """multiply controlled gates: ancillas start and end in 0"""
    n = S.choose('n', (3, 4, 5, 6))
    name = S.choose('name', ('tof', 't%d' % (n + 1)))
    labels = ['x%d' % i for i in range(n + 1)]
    q = list(range(n + 1))
    if S.flag('rev'):
        q.reverse()
    two = S.flag('two')
    line = '%s %s\n' % (name, ' '.join(labels[i] for i in q))
    c = parse_qc('.v %s\nBEGIN\n%sEND' % (' '.join(labels), line * (2 if two else 1)))
    anc = c.qubits - (n + 1)
    S.witness(str(n))
    S.require(0 <= anc <= n - 2, 'number of ancillas')
    # reversible classical circuit: follow every symbolic input
    bits = [S.choose('x%d' % i, (0, 1)) for i in range(n + 1)]
    st = bits + [0] * anc
    for g in c.gates:
        S.require(type(g).__name__ == 'Tofolli', 'gate kind')
        st[g.target] ^= st[g.ctrl1] & st[g.ctrl2]
    want = list(bits)
    if not two and all(bits[i] for i in q[:-1]):
        want[q[-1]] ^= 1
    S.require(st == want + [0] * anc, 'multiply controlled gate')


def h_quipper(S, k):
    n = 3
    s = ['Inputs: ' + ', '.join('%d:Qbit' % i for i in range(n))]
    ops = []
    nc = lambda: S.choose('nc%d' % i, ('', ' with nocontrol'))
    for i in range(k):
        t = S.choose('g%d' % i, ('1', 'c', 'cc', 'rot', 'noop'))
        S.witness(t)
        if t == '1':
            g, f = S.choose('o%d' % i, (('H', lambda q: H(q)), ('not', lambda q: X(q)), ('Z', lambda q: CZ(q)), ('S', lambda q: _rz(F(1, 2), q)), ('T', lambda q: _rz(F(1, 4), q)),
                                        ('S*', lambda q: _rz(F(-1, 2), q)), ('T*', lambda q: _rz(F(-1, 4), q))))
            q = S.choose('q%d' % i, range(n))
            s.append('QGate["%s"]%s(%d)%s' % (g.rstrip('*'), '*' if '*' in g else '', q, nc()))
            ops += f(q)
        elif t == 'c':
            g, f = S.choose('o%d' % i, (('not', lambda c, q: X(q, c)), ('Z', lambda c, q: CZ(c, q)), ('X', lambda c, q: H(c) + X(q, c) + H(c))))
            c, q = S.choose('q%d' % i, list(itertools.permutations(range(n), 2)))
            s.append('QGate["%s"](%d) with controls=[+%d]%s' % (g, q, c, nc()))
            ops += f(c, q)
        elif t == 'cc':
            g = S.choose('o%d' % i, ('not', 'Z'))
            a, b, q = S.choose('q%d' % i, list(itertools.permutations(range(n), 3)))
            sa, sb = S.choose('sa%d' % i, '+-'), S.choose('sb%d' % i, '+-')
            s.append('QGate["%s"](%d) with controls=[%s%d, %s%d]%s' % (g, q, sa, a, sb, b, nc()))
            nots = (X(a) if sa == '-' else []) + (X(b) if sb == '-' else [])
            ops += nots + (X(q, a, b) if g == 'not' else CZ(a, b, q)) + nots
        elif t == 'rot':
            ax = S.choose('o%d' % i, 'ZX')
            p = S.phase('p%d' % i)
            q = S.choose('q%d' % i, range(n))
            s.append('QRot["exp(-i%%%s)",%s](%d)' % (ax, math.pi * p / 2, q))
            ops += _rz(p, q) if ax == 'Z' else _rx(p, q)
        else:
            s.append(S.choose('o%d' % i, ('Comment["x"](0:"a")', 'QMeas(0)', 'QTerm0(1)', 'QDiscard(1)', 'QInit0(2)')))
    s.append('Outputs: ' + ', '.join('%d:Qbit' % i for i in range(n)))
    check(S, zx.Circuit.from_quipper('\n'.join(s)), ops, n, 'quipper program')


def h_quipper_bad(S):
    bad = S.choose('bad', ('QGate["W"](0)', 'QGate["H"](0) with controls=[+1]', 'QGate["not"](0) with controls=[-1]', 'QRot["exp(-i%Y)",0.3](0)', 'QGate["S"](0) with controls=[+1,+2]',
                           'QGate["not"](0) with controls=[+1,+2,+3]', 'QPrep(0)', 'QRot["exp(-i%Z)",x](0)', 'Subroutine: "f"', 'QGate["S"](0) with controls=[+1]'))
    try:
        zx.Circuit.from_quipper('Inputs: 0:Qbit, 1:Qbit, 2:Qbit, 3:Qbit\n%s\nOutputs: 0:Qbit' % bad)
    except TypeError:
        S.witness('refused')
        return
    S.fail('accepted: ' + bad)


def h_qsim(S, k):
    n = 2
    s = ['%d' % n]
    ops = []
    for i in range(k):
        t = S.choose('g%d' % i, ('rz', 'hz_1_2', 'x_1_2', 'y_1_2', 'fs'))
        q = S.choose('q%d' % i, range(n))
        S.witness(t)
        if t == 'rz':
            p = S.phase('p%d' % i)
            s.append('%d rz %d %s' % (i, q, float(p) * math.pi))
            ops += _rz(F(p), q)
        elif t == 'fs':
            u = 1 - q
            p = S.phase('p%d' % i)
            s.append('%d fs %d %d %s %s' % (i, q, u, math.pi / 2, float(p) * math.pi))
            ops += [('swap', q, u), ('pp', F(-1, 2), [q, u]), ('ph', -F(p), [q, u])]
        else:
            s.append('%d %s %d' % (i, t, q))
            # square roots of X, Y and W = (X+Y)/sqrt2
            ops += {'x_1_2': _rx(F(1, 2), q), 'y_1_2': _ry(F(1, 2), q), 'hz_1_2': _rz(F(-1, 4), q) + _rx(F(1, 2), q) + _rz(F(1, 4), q)}[t]
    c = parse_qsim('\n'.join(s) + '\n')
    check(S, c, ops, n, 'qsim program')


def h_wide(S, fmt):
    """many qubits, so that their numbers have one or two digits"""
    n = 14
    places = (0, 1, 10, 11, 13)
    if fmt == 'qasm':
        v = S.choose('version', (2, 3))
        cut = S.choose('cut', (11, 12, 3))
        name = lambda q: 'a[%d]' % q if q < cut else 'q[%d]' % (q - cut)
        s = HEAD[v] + reg(v, 'a', cut) + reg(v, 'q', n - cut)
        line = lambda g, q: '%s %s;\n' % ({'not': 'x', 'swap': 'swap', 'H': 'h', 'T': 't', 'tof': 'ccx' if len(q) == 3 else 'cx'}[g], ','.join(name(x) for x in q))
    elif fmt == 'qc':
        style = S.choose('names', ('%d', 'q%d', 'q%d1'))
        names = [style % q for q in range(n)]
        s = '.v %s\n\nBEGIN\n' % ' '.join(names)
        line = lambda g, q: '%s %s\n' % ({'not': 'X'}.get(g, g), ' '.join(names[x] for x in q))
    elif fmt == 'quipper':
        s = 'Inputs: %s\n' % ', '.join('%d:Qbit' % i for i in range(n))
        line = lambda g, q: 'QGate["%s"](%s)%s\n' % ({'tof': 'not'}.get(g, g), ','.join(map(str, q[-1:] if g == 'tof' else q)), ' with controls=[%s]' % ', '.join('+%d' % x for x in q[:-1]) if g == 'tof' else '')
    ops = []
    for i in range(2):
        g = S.choose('g%d' % i, ('not', 'T', 'tof', 'H')[:4 if i == 0 else 3])
        q = S.choose('q%d' % i, list(itertools.permutations(places if i == 0 else places[1:3], (2 if i else S.choose('ar', (2, 3))) if g == 'tof' else 1)))
        s += line(g, q)
        ops += {'not': lambda: X(q[0]), 'T': lambda: _rz(F(1, 4), q[0]), 'H': lambda: H(q[0]), 'tof': lambda: X(q[-1], *q[:-1])}[g]()
    if fmt == 'quipper':
        s += 'Outputs: %s\n' % ', '.join('%d:Qbit' % i for i in range(n))
    c = {'qasm': zx.Circuit.from_qasm, 'qc': parse_qc, 'quipper': zx.Circuit.from_quipper}[fmt](s)
    S.require(c.qubits == n, 'number of qubits: %d instead of %d' % (c.qubits, n))
    pos = {q: i for i, q in enumerate(places)}
    S.same_uptophase(wide.cmap(S, c.gates, places), S.opsmap(sem_rename(ops, pos), len(places)), 'program on many qubits')
    S.witness('ok')


def harnesses(tier):
    T = tier == 'thorough'
    L = []

    def add(name, fn, what, bounds, wit=(), **params):
        L.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    one = [k for k in Q2 if Q2[k][1] <= 2]
    add('gates', h_gates, 'OpenQASM gates', 'all gate names with at most 2 angles, all operand orders', wit=one, kinds=one)
    add('gates_multi', h_gates, 'OpenQASM gates', 'gate names with 3 or 4 angles', wit=[k for k in Q2 if Q2[k][1] > 2], kinds=[k for k in Q2 if Q2[k][1] > 2])
    add('registers', h_registers, 'OpenQASM registers', '2 registers of 1-2 qubits, whole-register operands', wit=('whole', 'single', 'mismatch'))
    for f in ('qasm', 'qc', 'quipper'):
        add('wide_' + f, h_wide, f + ' programs', '2 gates on 14 qubits', wit=('ok',), fmt=f)
    add('custom', h_custom, 'OpenQASM gate definitions', '1-2 definitions', wit=('nested', 'plain'))
    add('angles', h_angles, 'OpenQASM angle expressions', '31 forms, 4 signs, 20 pairs of numbers', wit=('exact', 'refused'))
    add('numbers', h_number, 'OpenQASM numbers', '7 numbers', wit=('ok',))
    add('layout', h_layout, 'OpenQASM layout', '5x4x3x3 layouts', wit=('ok',))
    add('refuse', h_refuse, 'unsupported OpenQASM', '16 statements', wit=('refused',))
    add('header', h_header, 'OpenQASM headers', '6x3 headers', wit=('ok', 'refused'))
    add('nonstrict', h_nonstrict, 'qasm()', '4 headers', wit=('ok',))
    add('qc', h_qc, '.qc programs', '1 gate on 3 qubits', wit=('ok',), k=1)
    add('qc_multi', h_qc_multi, '.qc multiply controlled gates', '3-6 controls, symbolic inputs', wit=('3', '4', '5', '6'))
    add('quipper', h_quipper, 'Quipper programs', '1 gate on 3 qubits', wit=('1', 'c', 'cc', 'rot', 'noop'), k=1)
    add('quipper_bad', h_quipper_bad, 'unsupported Quipper', '10 lines', wit=('refused',))
    add('qsim', h_qsim, 'qsim programs', '2 gates on 2 qubits', wit=('rz', 'fs', 'hz_1_2', 'x_1_2', 'y_1_2'), k=2)
    if T:
        add('qc2', h_qc, '.qc programs', '2 gates on 3 qubits', wit=('ok',), k=2)
        add('quipper2', h_quipper, 'Quipper programs', '2 gates on 3 qubits', wit=('1', 'c', 'cc', 'rot', 'noop'), k=2)
    return L
