"""P08: global scalars - arithmetic, conjugation, serialisation and display denote the same number."""
import cmath, math, re
from fractions import Fraction
from symx.run import Harness
from symx import gen, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx.graph.scalar import Scalar

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the global-scalar class under symbolic sequences of operations with symbolic phases; after every sequence the '
               'stored scalar must equal the exact product of what was multiplied in (evaluated as a legless diagram), and every representation '
               '(number, JSON, LaTeX, unicode, text) must evaluate to the same number.')
ASSUMPTIONS = ['phases are multiples of pi/8 (pi/4 for generic spider pairs)', 'rational phases only for serialisation']
BUDGET = {'quick': 60, 'thorough': 900}
FLOATS = (2, -1, 0.5, 1j, 0)
ZERO = dict(power2=0, phase=0, nodes=[], ff=1, zero=False, unknown=False)


def value(S, s):
    d = sem.Diagram()
    d.scalar = dict(power2=s.power2, phase=s.phase, nodes=list(s.phasenodes), ff=s.floatfactor, zero=bool(s.is_zero), unknown=False)
    return S.dmap(d)


class Want:
    """what the scalar should be: a diagram without legs plus plain factors"""

    def __init__(self):
        self.d = sem.Diagram()
        self.d.scalar = dict(ZERO, nodes=[])
        self.n = 0

    def vert(self, ty, ph):
        self.n += 1
        self.d.verts[self.n] = (ty, ph, None)
        return self.n

    def copy(self, conj=False):
        w = Want()
        w.n = self.n
        s = -1 if conj else 1
        w.d.verts = {v: (t, s * p, l) for v, (t, p, l) in self.d.verts.items()}
        w.d.edges = list(self.d.edges)
        w.d.scalar = dict(self.d.scalar, phase=s * self.d.scalar['phase'], nodes=[])
        if conj:
            w.d.scalar['ff'] = complex(self.d.scalar['ff']).conjugate()
        return w

    def mult(self, o):
        for v, x in o.d.verts.items():
            self.d.verts[('o', self.n, v)] = x
        self.d.edges += [(('o', self.n, a), ('o', self.n, b), t) for a, b, t in o.d.edges]
        self.n += 1
        sc = self.d.scalar
        sc['power2'] += o.d.scalar['power2']
        sc['phase'] = sc['phase'] + o.d.scalar['phase']
        sc['ff'] = sc['ff'] * o.d.scalar['ff']


def apply(S, s, w, nm, op, den=4):
    if op == 'power':
        k = S.choose(nm + '.k', (-3, -1, 0, 2))
        s.add_power(k)
        w.d.scalar['power2'] += k
    elif op == 'phase':
        p = S.phase(nm + '.p', den)
        s.add_phase(p)
        w.d.scalar['phase'] = w.d.scalar['phase'] + p
    elif op == 'node':
        p = S.phase(nm + '.p', den)
        s.add_node(p)
        w.vert(1, p)
    elif op == 'pair':
        p, q = S.phase(nm + '.p', den), S.phase(nm + '.q', den)
        s.add_spider_pair(p, q)
        a, b = w.vert(1, p), w.vert(1, q)
        w.d.edges.append((a, b, 2))
    elif op == 'float':
        f = S.choose(nm + '.f', FLOATS)
        s.add_float(f)
        w.d.scalar['ff'] = w.d.scalar['ff'] * f


BASE = ('power', 'phase', 'node', 'float')


def h_ops(S, k, ops):
    s, w = Scalar(), Want()
    for i in range(k):
        op = S.choose('op%d' % i, ops)
        S.witness(op)
        apply(S, s, w, 'o%d' % i, op)
    S.same(value(S, s), S.dmap(w.d), 'scalar after %d operations' % k)


def h_pair(S, den):
    s, w = Scalar(), Want()
    apply(S, s, w, 'o', 'pair', den)
    S.witness('ok')
    S.same(value(S, s), S.dmap(w.d), 'add_spider_pair')


def h_mult(S, k):
    s, w = Scalar(), Want()
    t, x = Scalar(), Want()
    for i in range(k):
        apply(S, s, w, 's%d' % i, S.choose('a%d' % i, BASE))
        apply(S, t, x, 't%d' % i, S.choose('b%d' % i, BASE))
    how = S.choose('how', ('mult', 'copy', 'conj', 'multcopy'))
    S.witness(how)
    before = value(S, t)
    if how == 'mult':
        s.mult_with_scalar(t)
        w.mult(x)
    elif how == 'multcopy':
        # multiplying a copy must not touch the original
        c = s.copy()
        c.mult_with_scalar(t)
        c.add_node(Fraction(1, 4))
        c.add_power(1)
    elif how == 'copy':
        cj = S.flag('cj')
        c = t.copy(conjugate=True) if cj else t.copy()
        s.mult_with_scalar(c)
        w.mult(x.copy(cj))
    else:
        s.mult_with_scalar(t.conjugate())
        w.mult(x.copy(True))
    S.same(value(S, s), S.dmap(w.d), 'product of scalars (%s)' % how)
    S.same(value(S, t), before, 'the argument changed')


def number(s):
    z = cmath.exp(1j * math.pi * float(s.phase)) * complex(s.floatfactor) * math.sqrt(2) ** s.power2
    for p in s.phasenodes:
        z *= 1 + cmath.exp(1j * math.pi * float(p))
    return 0 if s.is_zero else z


SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}
UFR = {'¼': 0.25, '½': 0.5, '¾': 0.75}
NUM = r'(\([^()]*\)|-?[0-9.]+(?:e[-+]?\d+)?j?)'


def eval_latex(t):
    if t == '0':
        return 0
    t = t.strip('$')
    m = re.fullmatch(r'(-(?![0-9.]))?' + NUM + r'?(?:\\sqrt\{2\}\^\{(-?\d+)\})?(?:\\exp\(i~\\frac\{(-?\d+)\\pi\}\{(\d+)\}\))?', t)
    assert m, t
    z = complex(-1 if m.group(1) else 1)
    if m.group(2):
        z *= complex(m.group(2))
    if m.group(3):
        z *= math.sqrt(2) ** int(m.group(3))
    if m.group(4):
        z *= cmath.exp(1j * math.pi * int(m.group(4)) / int(m.group(5)))
    return z


def eval_unicode(t):
    if t == '0':
        return 0
    m = re.fullmatch(r'(-(?![0-9.]))?' + NUM + r'?(?:√2(⁻?)([⁰¹²³⁴⁵⁶⁷⁸⁹]+))?(?:exp\(i([¼½¾]|-?\d+/\d+)π\))?', t)
    assert m, t
    z = complex(-1 if m.group(1) else 1)
    if m.group(2):
        z *= complex(m.group(2))
    if m.group(4):
        k = int(''.join(SUP[c] for c in m.group(4)))
        z *= math.sqrt(2) ** (-k if m.group(3) else k)
    if m.group(5):
        p = UFR[m.group(5)] if m.group(5) in UFR else float(Fraction(m.group(5)))
        z *= cmath.exp(1j * math.pi * p)
    return z


def h_repr(S, kind, ks, fs, den, nmax):
    s = Scalar()
    s.add_power(S.choose('k', ks))
    s.add_phase(S.phase('p', den))
    f = S.choose('f', fs)
    s.add_float(f)
    n = S.choose('n', range(nmax + 1))
    for i in range(n):
        s.add_node(S.phase('n%d' % i, 4))
    S.sig(kind)
    z = number(s)
    zr = complex(z)

    def close(a, b, tol=1e-9):
        return abs(a - b) <= tol * max(1e-3, abs(b))
    S.witness('zero' if s.is_zero else 'nonzero')
    if kind == 'number':
        S.require(close(s.to_number(), zr) or abs(zr) < 1e-12 and abs(s.to_number()) < 1e-12, 'to_number')
        S.require(complex(s) == s.to_number(), 'complex()')
        str(s), repr(s), s.polar_str()
        m = re.match(r'([\d.e+-]+)(?: \* exp\(i pi \* ([\d.e+-]+)\))?$', s.polar_str())
        S.require(m is not None, 'polar_str')
        v = float(m.group(1)) * cmath.exp(1j * math.pi * float(m.group(2) or 0))
        S.require(close(v, zr, 2e-2) or abs(zr) < 1e-12, 'polar_str')
    elif kind == 'json':
        t = Scalar.from_json(s.to_json())
        S.require((t.power2, t.floatfactor, t.is_zero, t.is_unknown) == (s.power2, s.floatfactor, s.is_zero, s.is_unknown), 'JSON round trip')
        S.require(t.phase == s.phase and len(t.phasenodes) == len(s.phasenodes) and all(a == b for a, b in zip(t.phasenodes, s.phasenodes)), 'JSON round trip of phases')
        S.same(value(S, t), value(S, s), 'JSON round trip')
    elif kind == 'latex':
        S.require(close(eval_latex(s.to_latex()), zr, 2e-3) or abs(zr) < 1e-12, 'to_latex: %s' % s.to_latex())
    else:
        S.require(close(eval_unicode(s.to_unicode()), zr, 2e-3) or abs(zr) < 1e-12, 'to_unicode: %s' % s.to_unicode())


def h_unknown(S):
    s = Scalar()
    s.add_phase(S.phase('p'))
    q = S.phase('q')
    S.assume(q != 1)
    s.add_node(q)
    s.set_unknown()
    S.require(s.is_unknown, 'unknown')
    t = Scalar.from_json(s.to_json())
    S.require(t.is_unknown is True, 'unknown scalar does not survive JSON')
    u = Scalar()
    u.mult_with_scalar(t)
    S.require(u.is_unknown and s.copy().is_unknown and s.conjugate().is_unknown, 'unknown is forgotten')
    S.witness('ok')
    S.require('nknown' in s.to_latex() and 'nknown' in s.to_unicode() and 'UNKNOWN' in str(s), 'unknown is displayed as known')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=(), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    add('ops', h_ops, 'sequences of scalar operations', '3 operations of 5 kinds' if T else '2 operations of 5 kinds', wit=BASE + ('pair',), k=3 if T else 2, ops=BASE + ('pair',))
    add('ops3', h_ops, 'sequences of scalar operations', '4 operations of 4 kinds' if T else '3 operations of 4 kinds', wit=BASE, k=4 if T else 3, ops=BASE)
    add('pair8', h_pair, 'scalar of a connected pair of spiders', 'all phases on the pi/8 grid', wit=('ok',), den=8)
    if T:
        add('pair16', h_pair, 'scalar of a connected pair of spiders', 'all phases on the pi/16 grid', wit=('ok',), den=16)
    add('mult', h_mult, 'products, copies, conjugates', '1-2 factors each', wit=('mult', 'copy', 'conj', 'multcopy'), k=1 if not T else 2)
    for k in ('number', 'json', 'latex', 'unicode'):
        add(k, h_repr, 'representation as %s' % k, '3 powers, pi/4 phases, 5 factors, 0-1 spiders', wit=('zero', 'nonzero'), kind=k,
            ks=(0, 1, -12), fs=(1, -1, 3 + 1j, 1 + 1e-6, 0), den=4, nmax=1)
        add(k + '8', h_repr, 'representation as %s' % k, 'pi/8 phases, 3 powers, 3 factors', wit=('nonzero',), kind=k,
            ks=(0, -1, 7), fs=(1, 0.5, -2.5j), den=8, nmax=0)
        if T:
            add(k + '_2', h_repr, 'representation as %s' % k, '2 powers, pi/4 phases, 2 factors, 0-2 spiders', wit=('nonzero',), kind=k, ks=(0, -1), fs=(1, 1e-6), den=4, nmax=2)
    add('unknown', h_unknown, 'unknown scalars', 'all phases', wit=('ok',))
    return H
