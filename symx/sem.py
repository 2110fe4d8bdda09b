"""Intended semantics, independent of pyzx: diagrams and gate lists -> linear maps.

Two evaluators each: an exact symbolic one (Amp) and a floating point one used to replay
counterexamples on concrete values (different algorithm: dense matrices / tensor network
contraction by summation in complex arithmetic).
Index order of every array: outputs (most significant first), then inputs.
"""
import cmath, math
from fractions import Fraction
import numpy as np
from . import engine as E
from .amp import Amp, NotRing, lin, sum_over_paths, recognise, M, RES

BOUNDARY, Z, X, HBOX, W_IN, W_OUT, ZBOX = range(7)
SIMPLE, HAD, W_IO = 1, 2, 3


# ---------------------------------------------------------------------------------------
# gates: primitive operations on wires
#   ('ph', phase, qubits)   e^{i pi phase} on the all-ones subspace of `qubits` (AND)
#   ('pp', phase, qubits)   e^{i pi phase * parity}
#   ('h', q)   ('x', target, controls)   ('perm', ...)
# ---------------------------------------------------------------------------------------

def F(a, b=1):
    return Fraction(a, b)


def _rz(p, q):      # spider convention diag(1, e^{i pi p})
    return [('ph', p, [q])]


def _rx(p, q):
    return [('h', q), ('ph', p, [q]), ('h', q)]


def _ry(p, q):      # exp(-i p pi Y/2) up to a global phase: S . RX(p) . S^dag
    return [('ph', F(-1, 2), [q])] + _rx(p, q) + [('ph', F(1, 2), [q])]


def _u3(theta, phi, lam, q):
    # U3 = e^{i.} Rz(phi) Ry(theta) Rz(lam); Ry(theta) = S Rx(theta) S^dag
    return _rz(lam, q) + _ry(theta, q) + _rz(phi, q)


def _crz(p, c, t):
    # diag(1,1,e^{-ip/2},e^{ip/2})
    return [('ph', p / 2, [c]) if False else ('ph', -(p / 2), [c]), ('ph', p, [c, t])]


def gate_ops(g):
    """Intended action of a pyzx gate object, read from its class name and public fields."""
    n = type(g).__name__
    if n in ('ZPhase', 'Z', 'S', 'T'):
        return _rz(g.phase, g.target)
    if n in ('XPhase', 'NOT', 'SX'):
        return _rx(g.phase, g.target)
    if n in ('YPhase', 'Y'):
        return _ry(g.phase, g.target)
    if n == 'HAD':
        return [('h', g.target)]
    if n == 'CNOT':
        return [('x', g.target, [g.control])]
    if n == 'CZ':
        return [('ph', F(1), [g.control, g.target])]
    if n == 'XCX':
        return [('h', g.control), ('x', g.target, [g.control]), ('h', g.control)]
    if n == 'SWAP':
        return [('swap', g.control, g.target)]
    if n == 'CY':
        return [('ph', F(-1, 2), [g.target]), ('x', g.target, [g.control]), ('ph', F(1, 2), [g.target])]
    if n == 'CHAD':
        # H = Ry(pi/4) Z Ry(-pi/4) (exact, incl. phase)
        t = g.target
        return _ry(F(-1, 4), t) + [('ph', F(1), [g.control, t])] + _ry(F(1, 4), t)
    if n == 'CSX':
        # SX = H S H exactly
        p = F(-1, 2) if getattr(g, 'adjoint', False) else F(1, 2)
        return [('h', g.target), ('ph', p, [g.control, g.target]), ('h', g.target)]
    if n == 'CRZ':
        return _crz(g.phase, g.control, g.target)
    if n == 'CRX':
        return [('h', g.target)] + _crz(g.phase, g.control, g.target) + [('h', g.target)]
    if n == 'CRY':
        # Ry = S Rx S^dag = S H Rz H S^dag
        t = g.target
        return [('ph', F(-1, 2), [t]), ('h', t)] + _crz(g.phase, g.control, t) + [('h', t), ('ph', F(1, 2), [t])]
    if n == 'CPhase':
        return [('ph', g.phase, [g.control, g.target])]
    if n == 'RZZ':
        return [('pp', g.phase, [g.control, g.target])]
    if n == 'ParityPhase':
        return [('pp', g.phase, list(g.targets))]
    if n == 'RXX':
        a, b = g.control, g.target
        return [('h', a), ('h', b), ('pp', g.phase, [a, b]), ('h', a), ('h', b)]
    if n == 'CCZ':
        return [('ph', F(1), [g.ctrl1, g.ctrl2, g.target])]
    if n == 'Tofolli':
        return [('x', g.target, [g.ctrl1, g.ctrl2])]
    if n == 'CSWAP':
        a, b, c = g.ctrl2, g.target, g.ctrl1
        return [('x', b, [a]), ('x', a, [b, c]), ('x', b, [a])]
    if n == 'U2':
        return _u3(F(1, 2), g.theta, g.phi, g.target)
    if n == 'U3':
        return _u3(g.theta, g.phi, g.rho, g.target)
    if n == 'CU3':
        # controlled-U3 of qiskit: U3(theta,phi,lam) with U3[0,0] = cos(theta/2)
        return _cu3(g.theta, g.phi, g.rho, g.control, g.target)
    if n == 'CU':
        return [('ph', g.gamma, [g.control])] + _cu3(g.theta, g.phi, g.rho, g.control, g.target)
    if n == 'FSim':
        # theta = +-1/2 (pi/2): swap with -+i on the odd subspace, e^{-i phi} on |11>
        a, b = g.control, g.target
        return [('swap', a, b), ('pp', -g.theta, [a, b]), ('ph', -g.phi, [a, b])]
    raise NotRing('no semantics for gate ' + n)


def _cu3(theta, phi, lam, c, t):
    # U3 = e^{i(phi+lam)/2} RZ(phi) RY(theta) RZ(lam) with symmetric rotations.
    # controlled: phase (phi+lam)/2 on c, then controlled rotations
    cry = [('ph', F(-1, 2), [t]), ('h', t)] + _crz(theta, c, t) + [('h', t), ('ph', F(1, 2), [t])]
    return [('ph', (phi + lam) / 2, [c])] + _crz(lam, c, t) + cry + _crz(phi, c, t)


def ops_of_gates(gates):
    out = []
    for g in gates:
        out += gate_ops(g)
    return out


def ops_amp(ops, nq):
    """exact symbolic matrix of a list of primitive operations"""
    flat = []
    for o in ops:
        if o[0] == 'x' and len(o[2]) > 1:
            flat += [('h', o[1]), ('ph', F(1), list(o[2]) + [o[1]]), ('h', o[1])]
        else:
            flat.append(o)
    ops = cancel_hh(flat)
    nv = nq
    wires = [2 << i for i in range(nq)]
    ins = list(wires)
    signs, phases, p2 = [], [], 0
    for o in ops:
        if o[0] == 'h':
            f = 2 << nv
            nv += 1
            signs.append((f, wires[o[1]]))
            wires[o[1]] = f
            p2 -= 1
        elif o[0] == 'x':
            f = wires[o[2][0]] if o[2] else 1
            wires[o[1]] ^= f
        elif o[0] == 'swap':
            wires[o[1]], wires[o[2]] = wires[o[2]], wires[o[1]]
        elif o[0] == 'ph':
            phases.append(([wires[q] for q in o[2]], lin(o[1])))
        elif o[0] == 'pp':
            f = 0
            for q in o[2]:
                f ^= wires[q]
            phases.append(([f], lin(o[1])))
        else:
            raise ValueError(o)
    try:
        return sum_over_paths(nv, signs, phases, p2, wires + ins, maxbits=max(2 * nq + 2, 11))
    except NotRing:
        return ops_amp_steps(ops, nq)


def cancel_hh(ops):
    ops = list(ops)
    changed = True
    while changed:
        changed = False
        for i, o in enumerate(ops):
            if o[0] != 'h':
                continue
            for j in range(i + 1, len(ops)):
                p = ops[j]
                if p[0] == 'h' and p[1] == o[1]:
                    del ops[j], ops[i]
                    changed = True
                    break
                touched = p[1:] if p[0] == 'swap' else [p[1]] if p[0] == 'h' else ([p[1]] + list(p[2])) if p[0] == 'x' else p[2]
                if o[1] in touched:
                    break
            if changed:
                break
    return ops


def ops_amp_steps(ops, nq):
    """as ops_amp, multiplying matrices column by column (many Hadamards)"""
    N = 1 << nq
    a = Amp.consts([_unit(i == j) for i in range(N) for j in range(N)])
    for o in ops:
        a = apply_op(a, o, nq)
    return a


def _unit(b):
    v = np.zeros(RES, dtype=np.int64)
    v[0] = 1 if b else 0
    return v


def apply_op(a, o, nq):
    from .amp import add, rot, merge_atoms
    N = 1 << nq
    K = a.keys.shape[0]
    c = a.coef.reshape(N, N, K, RES)
    idx = np.arange(N)
    b = lambda q: (idx >> (nq - 1 - q)) & 1
    if o[0] == 'h':
        q = o[1]
        st = 1 << (nq - 1 - q)
        c0 = c[idx & ~st]
        c1 = c[idx | st]
        sg = (1 - 2 * b(q))[:, None, None, None]
        return Amp(a.atoms, a.keys, (c0 + sg * c1).reshape(N * N, K, RES), a.p2 - 1)
    if o[0] == 'x':
        m = np.ones(N, dtype=np.int64)
        for q in o[2]:
            m = m & b(q)
        src = idx ^ (m << (nq - 1 - o[1]))
        return Amp(a.atoms, a.keys, c[src].reshape(N * N, K, RES), a.p2)
    if o[0] == 'swap':
        b1, b2 = b(o[1]), b(o[2])
        d = b1 ^ b2
        src = idx ^ (d << (nq - 1 - o[1])) ^ (d << (nq - 1 - o[2]))
        return Amp(a.atoms, a.keys, c[src].reshape(N * N, K, RES), a.p2)
    m = np.ones(N, dtype=np.int64) if o[0] == 'ph' else np.zeros(N, dtype=np.int64)
    for q in o[2]:
        m = (m & b(q)) if o[0] == 'ph' else (m ^ b(q))
    sel = np.repeat(m.astype(bool), N)
    on = a.coef.copy()
    on[~sel] = 0
    off = a.coef.copy()
    off[sel] = 0
    A = Amp(a.atoms, a.keys, on, a.p2).trim().mul_phase(o[1])
    B = Amp(a.atoms, a.keys, off, a.p2).trim()
    if A.keys.shape[0] == 0:
        return B
    if B.keys.shape[0] == 0:
        return A
    return add(A, B)


def ops_numeric(ops, nq):
    N = 1 << nq
    U = np.identity(N, dtype=complex)
    had = np.array([[1, 1], [1, -1]]) / math.sqrt(2)

    def on(q, m):
        r = np.array([[1.0]])
        for i in range(nq):
            r = np.kron(r, m if i == q else np.identity(2))
        return r
    for o in ops:
        if o[0] == 'h':
            U = on(o[1], had) @ U
            continue
        G = np.zeros((N, N), dtype=complex)
        for i in range(N):
            b = [(i >> (nq - 1 - q)) & 1 for q in range(nq)]
            if o[0] == 'x':
                if all(b[c] for c in o[2]):
                    b[o[1]] ^= 1
                G[sum(x << (nq - 1 - q) for q, x in enumerate(b)), i] = 1
            elif o[0] == 'swap':
                b[o[1]], b[o[2]] = b[o[2]], b[o[1]]
                G[sum(x << (nq - 1 - q) for q, x in enumerate(b)), i] = 1
            else:
                act = all(b[c] for c in o[2]) if o[0] == 'ph' else sum(b[c] for c in o[2]) % 2
                G[i, i] = cmath.exp(1j * math.pi * float(o[1])) if act else 1
        U = G @ U
    return U.reshape(-1)


# ---------------------------------------------------------------------------------------
# diagrams
# ---------------------------------------------------------------------------------------

class Diagram:
    """neutral description of a diagram, read through pyzx's public accessors"""

    def __init__(self):
        self.verts = {}      # v -> (type, phase, label)
        self.edges = []      # (s, t, type)
        self.inputs = ()
        self.outputs = ()
        self.scalar = None


def read_graph(g):
    d = Diagram()
    for v in g.vertices():
        ty = int(g.type(v))
        lab = None
        if ty == ZBOX:
            lab = g.vdata(v, 'label', 1)
        d.verts[v] = (ty, g.phase(v), lab)
    for e in g.edges():
        s, t = g.edge_st(e)
        d.edges.append((s, t, int(g.edge_type(e))))
    d.inputs = tuple(g.inputs())
    d.outputs = tuple(g.outputs())
    s = g.scalar
    d.scalar = dict(power2=s.power2, phase=s.phase, nodes=list(s.phasenodes), ff=s.floatfactor,
                    zero=bool(s.is_zero), unknown=bool(s.is_unknown))
    return d


def scalar_apply(a, sc):
    if sc['zero']:
        return Amp(a.atoms, a.keys, a.coef * 0, a.p2)
    a = a.mul_phase(sc['phase'])
    for p in sc['nodes']:
        a = a.mul_one_plus_phase(p)
    a = a.mul_complex(sc['ff'])
    return a.mul_p2(int(sc['power2']))


def scalar_numeric(sc):
    if sc['zero']:
        return 0
    z = cmath.exp(1j * math.pi * float(sc['phase'])) * complex(sc['ff']) * math.sqrt(2) ** sc['power2']
    for p in sc['nodes']:
        z *= 1 + cmath.exp(1j * math.pi * float(p))
    return z


class BadDiagram(Exception):
    """the diagram itself is malformed (dangling boundary, two wires on a boundary, ...)"""


def _network(d):
    """ports, wire classes; shared by both evaluators.
    returns (nbits, spiders, signs, p2, out_bits) with
      spiders: (kind, [bits], phase, label)   signs: [(bit, bit)] for Hadamard wires"""
    parent = []

    def new():
        parent.append(len(parent))
        return len(parent) - 1

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    node = {}
    ports = {}
    deg = {v: 0 for v in d.verts}
    bset = list(d.inputs) + list(d.outputs)
    for v, (ty, ph, lab) in d.verts.items():
        if ty in (Z, X, ZBOX):
            node[v] = new()
        ports[v] = []
    signs = []
    p2 = 0

    def port(v):
        nonlocal p2
        ty = d.verts[v][0]
        deg[v] += 1
        if ty in (Z, ZBOX):
            return node[v], False
        if ty == X:
            return node[v], True
        n = new()
        ports[v].append(n)
        return n, False
    for s, t, ty in d.edges:
        if s not in d.verts or t not in d.verts:
            raise BadDiagram('edge to a missing vertex')
        a, ta = port(s)
        b, tb = port(t)
        had = (ty == HAD) ^ ta ^ tb
        if had:
            signs.append((a, b))
            p2 -= 1
        else:
            parent[find(a)] = find(b)
    for v in bset:
        if v not in d.verts:
            raise BadDiagram('boundary vertex missing')
        if d.verts[v][0] != BOUNDARY:
            raise BadDiagram('input/output of wrong type')
        if deg[v] != 1:
            raise BadDiagram('boundary of degree %d' % deg[v])
    if len(set(bset)) != len(bset):
        raise BadDiagram('repeated boundary')
    for v, (ty, ph, lab) in d.verts.items():
        if ty == BOUNDARY and v not in bset:
            raise BadDiagram('boundary vertex not in inputs or outputs')
    roots = {}

    def idx(x):
        r = find(x)
        if r not in roots:
            roots[r] = len(roots)
        return roots[r]
    sp = []
    for v, (ty, ph, lab) in d.verts.items():
        if ty in (Z, X):
            sp.append(('z', [idx(node[v])], ph, None))
        elif ty == ZBOX:
            sp.append(('zbox', [idx(node[v])], ph, lab))
        elif ty == HBOX:
            sp.append(('h', [idx(p) for p in ports[v]], ph, None))
        elif ty in (W_IN, W_OUT):
            sp.append(('w', [idx(p) for p in ports[v]], ph, None))
    out = [idx(ports[v][0]) for v in list(d.outputs) + list(d.inputs)]
    sg = [(idx(a), idx(b)) for a, b in signs]
    for r in range(len(parent)):
        idx(r)
    return len(roots), sp, sg, p2, out


def diagram_amp(d, scalar=True):
    nb, sp, sg, p2, out = _network(d)
    f = lambda b: 2 << b
    signs = [(f(a), f(b)) for a, b in sg]
    phases, masks, weights = [], [], []
    for kind, bits, ph, lab in sp:
        if kind in ('z', 'h'):
            l = lin(ph)
            if l[0] or l[1]:
                phases.append(([f(b) for b in bits], l))
        elif kind == 'zbox':
            l = lin(ph)
            if l[0] or l[1]:
                raise BadDiagram('phase on a Z box')
            r = recognise(lab)
            if r is None:
                raise NotRing('label %r' % (lab,))
            v, k = r
            nz = np.nonzero(v)[0]
            if k != 0 or len(nz) > 1:
                raise NotRing('label %r' % (lab,))
            weights.append((f(bits[0]), int(v[nz[0]]) if len(nz) else 0))
            if len(nz) and nz[0]:
                phases.append(([f(bits[0])], (int(nz[0]), {})))
        else:
            masks.append([f(b) for b in bits])
    a = sum_over_paths(nb, signs, phases, p2, [f(b) for b in out], masks, weights)
    return scalar_apply(a, d.scalar) if scalar else a


def graph_amp(g, scalar=True):
    return diagram_amp(read_graph(g), scalar)


def diagram_numeric(d, scalar=True):
    """tensor contraction vertex by vertex (independent of pathsum)"""
    # one index per edge end; numpy einsum with integer labels, greedy path
    lab = {}
    ops = []
    ends = {v: [] for v in d.verts}
    n = 0
    had = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
    for s, t, ty in d.edges:
        if ty == HAD:
            ends[s].append(n)
            ends[t].append(n + 1)
            ops.append((had, [n, n + 1]))
            n += 2
        else:
            ends[s].append(n)
            ends[t].append(n + 1)
            ops.append((np.identity(2, dtype=complex), [n, n + 1]))
            n += 2
    outlab = []
    for v, (ty, ph, lb) in d.verts.items():
        k = len(ends[v])
        if ty == BOUNDARY:
            continue
        w = cmath.exp(1j * math.pi * float(ph))
        if ty == ZBOX:
            w = complex(lb)
        if ty in (Z, ZBOX):
            T = np.zeros((2,) * k, dtype=complex)
            if k == 0:
                T = np.array(1 + w)
            else:
                T[(0,) * k] = 1
                T[(1,) * k] = w
        elif ty == X:
            plus = np.array([1, 1]) / math.sqrt(2)
            minus = np.array([1, -1]) / math.sqrt(2)
            A, B = np.array(1.0 + 0j), np.array(1.0 + 0j)
            for _ in range(k):
                A, B = np.multiply.outer(A, plus), np.multiply.outer(B, minus)
            T = A + w * B
        elif ty == HBOX:
            T = np.ones((2,) * k, dtype=complex)
            T[(1,) * k] = w
        else:
            T = np.zeros((2,) * k, dtype=complex)
            for i in range(k):
                ix = [0] * k
                ix[i] = 1
                T[tuple(ix)] = 1
        ops.append((T, list(ends[v])))
    outlab = [ends[v][0] for v in list(d.outputs) + list(d.inputs)]
    # pairwise contraction
    t = contract(ops, outlab)
    z = scalar_numeric(d.scalar) if scalar else 1
    return np.asarray(t).reshape(-1) * z


def contract(ops, out):
    ops = [(_trace(T, ls)) for T, ls in ops]
    while True:
        # find a label shared by two tensors
        best = None
        owner = {}
        for i, (T, ls) in enumerate(ops):
            for l in ls:
                if l in owner:
                    j = owner[l]
                    size = len(set(ops[i][1]) ^ set(ops[j][1]))
                    if best is None or size < best[0]:
                        best = (size, j, i)
                else:
                    owner[l] = i
        if best is None:
            break
        _, j, i = best
        (A, la), (B, lb) = ops[j], ops[i]
        sh = [l for l in la if l in lb]
        C = np.tensordot(A, B, axes=([la.index(l) for l in sh], [lb.index(l) for l in sh]))
        lc = [l for l in la if l not in sh] + [l for l in lb if l not in sh]
        ops = [o for k, o in enumerate(ops) if k not in (i, j)] + [(C, lc)]
    T, ls = np.array(1.0 + 0j), []
    for A, la in ops:
        T = np.multiply.outer(T, A)
        ls = ls + la
    return np.transpose(T, [ls.index(l) for l in out]) if out else T


def _trace(T, ls):
    while True:
        for a in range(len(ls)):
            if ls[a] in ls[a + 1:]:
                b = ls.index(ls[a], a + 1)
                T = np.trace(T, axis1=a, axis2=b)
                ls = [l for k, l in enumerate(ls) if k not in (a, b)]
                break
        else:
            return T, ls
