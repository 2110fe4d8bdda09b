"""P20: phases with variables."""
from fractions import Fraction
import time
import z3
from symx.run import Harness
from symx import gen, engine as E, sem
from symx.gen import VT, ET
import pyzx as zx
from pyzx import simplify, basicrules as br
from pyzx.symbolic import Poly, Term, Var, new_var, new_const, parse

LEVEL = 'other'
EXPLANATION = ('Symbolic execution of the real polynomial arithmetic and of the rewriting of diagrams whose phases are polynomials. For the arithmetic the value of every real variable is a solver variable over all the reals '
               'and the obligation is that both sides agree modulo 2 (as phases do); for diagrams the obligation is that putting values for the variables before or after rewriting gives the same linear map, as exact polynomials in those values.')
ASSUMPTIONS = ['polynomials and diagrams as stated per harness', 'Boolean variables are 0 or 1; in diagrams real variables take multiples of pi/4']
BUDGET = {'quick': 150, 'thorough': 850}
H, Z, X, B = VT.H_BOX, VT.Z, VT.X, VT.BOUNDARY
SI, HA = ET.SIMPLE, ET.HADAMARD
F = Fraction
KINDS = {'x': False, 'y': False, 'b': True, 'c': True}
MONO = ((), ('x',), ('b',), ('c',), ('x', 'b'), ('b', 'c'), ('x', 'x'), ('x', 'y'))
COEF = (1, 3, F(1, 2), F(-3, 4))


class Vals(list):
    """one term for every assignment of the Boolean variables"""
    def _do(self, o, f):
        return Vals(f(x, y) for x, y in zip(self, o)) if isinstance(o, Vals) else Vals(f(x, o) for x in self)

    def __add__(self, o):
        return self._do(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self._do(o, lambda x, y: x - y)

    def __mul__(self, o):
        return self._do(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __neg__(self):
        return Vals(-x for x in self)


class Val:
    """polynomials as z3 terms over the reals, one for every assignment of the Boolean variables"""
    def __init__(self, S, bools='bc', reals='xy'):
        self.S = S
        self.todo = []
        self.n = 1 << len(bools)
        self.vars = {n: Vals(z3.Q(k >> i & 1, 1) for k in range(self.n)) for i, n in enumerate(bools)}
        self.vars.update({n: Vals(z3.Real(n) for _ in range(self.n)) for n in reals})

    def fix(self, name, v):
        self.vars[name] = self.num(v)

    def var(self, n):
        return self.vars[n]

    def num(self, c):
        c = F(c)
        return Vals(z3.Q(c.numerator, c.denominator) for _ in range(self.n))

    def mono(self, c, names):
        r = self.num(c)
        for n in names:
            r = r * self.var(n)
        return r

    def poly(self, p):
        """value of what the code returned"""
        if not isinstance(p, Poly):
            return self.num(p)
        r = self.num(0)
        for c, t in p.terms:
            self.S.require(isinstance(c, (int, F)), 'coefficient %r is not exact' % (c,))
            k = self.num(c)
            for v, e in t.vars:
                self.S.require(isinstance(e, int) and e >= 0, 'exponent %r' % (e,))
                for _ in range(e):
                    k = k * self.var(v.name)
            r = r + k
        return r

    def solve(self, f, ds=()):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(f)
        r = s.check()
        st = getattr(getattr(self.S, 'eng', None), 'stats', None)
        if st is not None:
            st['obligations'] += 1
            st['ob_solver'] += 1
            st['solver_checks'] += 1
            st['solver_s'] += time.time() - t
        if r == z3.unknown:
            # polynomials over the reals: the solver decides the instances
            for x, y in ((F(1, 3), F(1, 5)), (F(1, 7), F(2, 3)), (F(5, 11), F(1, 13))):
                for i, (d, exact) in enumerate(ds):
                    d = z3.substitute(d, (z3.Real('x'), z3.Q(x.numerator, x.denominator)), (z3.Real('y'), z3.Q(y.numerator, y.denominator)))
                    if self.solve(self.bad(d, exact, i)):
                        return True
            raise RuntimeError('solver returned unknown')
        return r == z3.sat

    @staticmethod
    def bad(d, exact, i):
        """d is not a multiple of 2 (or not 0)"""
        d = z3.simplify(d, som=True)
        k, r = z3.Int('k%d' % i), z3.Real('r%d' % i)
        return d != 0 if exact else z3.And(d == z3.ToReal(k) + r, r >= 0, r < 1, z3.Or(r != 0, k % 2 != 0))

    def differ(self, a, b, exact=False):
        """whether for some values of the variables a and b are different phases"""
        ds = [(d, exact) for d in a - b]
        return self.solve(z3.Or([self.bad(d, exact, i) for i, (d, exact) in enumerate(ds)]), ds)

    def congruent(self, a, b, msg, exact=False):
        """for all values of the variables a and b are the same phase; decided by done()"""
        self.todo.append((a, b, msg, exact))

    def done(self):
        ds = [(d, exact) for a, b, msg, exact in self.todo for d in a - b]
        if self.solve(z3.Or([self.bad(d, exact, i) for i, (d, exact) in enumerate(ds)]), ds):
            for a, b, msg, exact in self.todo:
                if self.differ(a, b, exact):
                    self.S.fail('%s: off by %s' % (msg, [z3.simplify(d, som=True) for d in a - b]))
            raise RuntimeError('solver contradicts itself')
        self.todo = []


def var(n, kinds=KINDS):
    return new_var(n, kinds)


def mono(c, names, kinds=KINDS):
    p = None
    for n in names:
        p = var(n, kinds) if p is None else p * var(n, kinds)
    return new_const(c) if p is None else c * p


def sym(S, name, k, V, coef=COEF, monos=MONO):
    """a polynomial with k terms, as the library builds it, and its value"""
    ts = [(S.choose('%sc%d' % (name, i), coef), S.choose('%sm%d' % (name, i), monos)) for i in range(k)]
    p = None
    r = V.num(0)
    for c, m in ts:
        q = mono(c, m)
        p = q if p is None else p + q
        r = r + V.mono(c, m)
    return p, r


OPS = {
    'add': (lambda p, q: p + q, lambda a, b: a + b),
    'sub': (lambda p, q: p - q, lambda a, b: a - b),
    'mul': (lambda p, q: p * q, None),
}


def h_build(S, k):
    V = Val(S)
    p, r = sym(S, 'p', k, V)
    V.congruent(V.poly(p), r, 'sum of terms')
    V.congruent(V.poly(-p), -r, 'negation')
    V.congruent(V.poly(p % 2), r, 'remainder modulo 2')
    V.congruent(V.poly(p.copy()), V.poly(p), 'copy', True)
    V.done()


def h_op(S, op, kp, kq, cq=(F(1, 2), 3), mq=MONO, mp=MONO, cp=(3, F(1, 2))):
    V = Val(S)
    p, a = sym(S, 'p', kp, V, cp, mp)
    q, b = sym(S, 'q', kq, V, cq, mq)
    a, b = V.poly(p), V.poly(q)
    f = OPS[op][0]
    V.congruent(V.poly(f(p, q)), f(a, b), op)
    if op == 'mul':
        V.congruent(V.poly(q * p), a * b, 'mul the other way round')
    V.congruent(V.poly(p), a, 'first argument changed', True)
    V.congruent(V.poly(q), b, 'second argument changed', True)
    V.done()


NUMS = (0, 1, 2, -1, F(1, 2), F(7, 4), F(-1, 3))


def h_num(S, k):
    """with numbers on either side"""
    V = Val(S)
    p, _ = sym(S, 'p', k, V)
    a = V.poly(p)
    n = S.choose('n', NUMS)
    b = V.num(n)
    V.congruent(V.poly(p + n), a + b, 'p+n')
    V.congruent(V.poly(n + p), a + b, 'n+p')
    V.congruent(V.poly(p - n), a - b, 'p-n')
    V.congruent(V.poly(n - p), b - a, 'n-p')
    V.congruent(V.poly(p * n), a * b, 'p*n')
    V.congruent(V.poly(n * p), a * b, 'n*p')
    if n:
        V.congruent(V.poly(p / n), a * V.num(1 / F(n)), 'p/n')
    V.done()


def h_pow(S, most):
    """powers of a variable, times a number"""
    V = Val(S)
    n = S.choose('v', tuple('xb'))
    e = S.choose('e', range(most + 1))
    p = var(n) ** e
    r = V.num(1)
    for _ in range(e):
        r = r * V.var(n)
    V.congruent(V.poly(p), r, 'power')
    c = S.choose('c', COEF)
    V.congruent(V.poly(p * (c * var('y'))), r * V.num(c) * V.var('y'), 'power times a variable')
    V.done()


def h_eq(S, kp, kq, coef=(1, F(1, 2), F(-3, 2)), monos=MONO):
    """equality of reduced phases is equality for all values; equal phases have equal hashes"""
    V = Val(S)
    ts = []
    for name, k in (('p', kp), ('q', kq)):
        r = Poly([])
        for i in range(k):
            r = r + mono(S.choose('%sc%d' % (name, i), coef), S.choose('%sm%d' % (name, i), monos))
        ts.append(r % 2)
    p, q = ts
    same = p == q
    S.require(same is True or same is False, 'equality answers yes or no')
    S.require((p != q) == (not same), 'inequality')
    S.require(same == (not V.differ(V.poly(p), V.poly(q))), 'phases are %s but have %s values' % (('equal', 'different') if same else ('unequal', 'the same')))
    if same:
        S.witness('equal')
        S.require(hash(p) == hash(q), 'equal phases with different hashes')
    for n in (0, 1, F(1, 2)):
        if p == n:
            V.congruent(V.poly(p), V.num(n), 'a phase equal to %s' % n)
        if V.solve(z3.And([d == 0 for d in V.poly(p) - V.num(n)] + [z3.Real('x') == 0, z3.Real('y') == 0])) and not p.free_vars():
            S.require(p == n, 'a constant phase is not equal to %s' % n)
    S.require(bool(p) == (not p == 0), 'truth of a phase')
    V.done()


def h_kind(S, k):
    """phases that count as Pauli or Clifford are for all values"""
    V = Val(S)
    p, _ = sym(S, 'p', k, V, (1, F(1, 2), F(3, 2), F(1, 4)))
    p = p % 2
    a = V.poly(p)
    if p.is_pauli:
        S.witness('pauli')
        S.require(p.is_clifford, 'a Pauli phase is Clifford')
        V.congruent(2 * a, V.num(0), 'Pauli phase')
        S.require(zx.utils.phase_is_pauli(p) and zx.utils.is_pauli(p), 'the two tests for Pauli phases')
    if p.is_clifford:
        S.witness('clifford')
        V.congruent(4 * a, V.num(0), 'Clifford phase')
    if p == 0 or p == 1:
        S.require(p.is_pauli, 'constant Pauli phase')
    V.done()


def h_sub(S, k, many):
    """values for some variables; exact values stay exact"""
    V = Val(S)
    p, _ = sym(S, 'p', k, V)
    a = V.poly(p)
    vals = {}
    for n in S.subset('which', ('x', 'b', 'y') if many else ('x', 'b')):
        vals[n] = S.choose('to_' + n, (0, 1, F(1, 3), F(-7, 4)) if not KINDS[n] else (0, 1))
    env = {Var(n, KINDS): v for n, v in vals.items()}
    r = p.substitute(env)
    S.require(isinstance(r, Poly) and not ({v.name for v in r.free_vars()} & set(vals)), 'the variables are gone')
    for n, v in vals.items():
        V.fix(n, v)
    a = V.poly(p)
    V.congruent(V.poly(r), a, 'putting values for variables')
    S.require({v.name for v in p.free_vars()} >= {v.name for v in r.free_vars()}, 'new variables')
    V.done()


TEXT = (
    ('a', {'a': 1}), ('2a', {'a': 2}), ('-a', {'a': -1}), ('1/2a', {'a': F(1, 2)}), ('1/2*a', {'a': F(1, 2)}), ('a + b', {'a': 1, 'b': 1}), ('a-b', {'a': 1, 'b': -1}),
    ('-a - b', {'a': -1, 'b': -1}), ('pi + a', {'': 1, 'a': 1}), ('\\pi/4 + a', {'': F(1, 4), 'a': 1}), ('3pi/4 - 2a*b', {'': F(3, 4), 'ab': -2}), ('(a + b)', {'a': 1, 'b': 1}),
    ('a^2', {'aa': 1}), ('3a^2*b', {'aab': 3}), ('a*b*1/2', {'ab': F(1, 2)}), ('2*a*1/2', {'a': 1}), ('3*b*1/2', {'b': F(3, 2)}), ('a*2*b*1/4', {'ab': F(1, 2)}),
    ('1/2 + 1/2a + 1/4b', {'': F(1, 2), 'a': F(1, 2), 'b': F(1, 4)}), ('a*pi', {'a': 1}), ('2*pi*a', {'a': 2}), ('pi*a + pi/2', {'a': 1, '': F(1, 2)}), ('a + a', {'a': 2}), ('a*a', {'aa': 1}), ('-1/2a + 5', {'a': F(-1, 2), '': 5}),
)


def h_parse(S):
    """what a text means"""
    t, want = S.choose('text', TEXT)
    kinds = {'a': S.flag('abool'), 'b': S.flag('bbool')}
    p = parse(t, lambda n: new_var(n, kinds))
    V = Val(S, [n for n in 'ab' if kinds[n]], [n for n in 'ab' if not kinds[n]])
    w = V.num(0)
    for m, c in want.items():
        w = w + V.mono(c, m)
    V.congruent(V.poly(p), w, 'meaning of %r' % t)
    V.done()


def h_text(S, k):
    """a phase read back from its text is the same phase"""
    V = Val(S)
    p, _ = sym(S, 'p', k, V)
    if not p.terms:
        return
    q = parse(str(p), lambda n: new_var(n, KINDS))
    V.congruent(V.poly(q), V.poly(p), 'phase read back from %r' % str(p))
    S.require(q % 2 == p % 2, 'phase read back from %r differs' % str(p))
    V.done()


# -- diagrams -----------------------------------------------------------------------------

def value(p, env):
    if not isinstance(p, Poly):
        return p
    r = F(0)
    for c, t in p.terms:
        vs = [env[v.name] for v, e in t.vars for _ in range(e if not v.is_bool else min(e, 1))]
        if not vs:
            r = r + c
            continue
        k = c
        for v in vs[1:]:
            k = k * (v.conc() if isinstance(v, E.SymPhase) else v)
        r = r + vs[0] * k
    return r


def fill(S, g, env):
    """the diagram with values for its variables"""
    h = g.clone()
    for v in h.vertices():
        p = h.phase(v)
        if isinstance(p, Poly):
            h.set_phase(v, value(p, env))
    s = h.scalar
    s.phase = value(s.phase, env)
    s.phasenodes = [value(p, env) for p in s.phasenodes]
    if any(p == 1 for p in s.phasenodes):
        s.is_zero = True
    return h


def env_of(S):
    return {'x': S.phase('val_x', 4), 'y': S.phase('val_y', 4), 'b': S.phase('val_b', vals=(0, 1)), 'c': S.phase('val_c', vals=(0, 1))}


def phases(kinds):
    x, y, b, c = (new_var(n, kinds) for n in 'xybc')
    return {
        '0': 0, '1': 1, '1/2': F(1, 2), '1/4': F(1, 4), 'x': x, '-x': -x, 'x+1': x + 1, 'x+1/2': x + F(1, 2), 'x+y': x + y, 'b': b, 'c': c, 'b+1': b + 1, 'b+1/2': b + F(1, 2), 'b/2': b * F(1, 2),
        'b+c': b + c, 'bc': b * c, 'x+b': x + b, 'zero': b - b, 'one': (b - b) + 1, 'half': (b - b) + F(1, 2), '3half': (b - b) + F(3, 2), '-b': (-b) % 2, 'y': y,
    }


def set_phases(S, g, vs, opts):
    g.variable_types = dict(KINDS)
    ph = phases(g.variable_types)
    for i, v in enumerate(vs):
        g.set_phase(v, ph[S.choose('ph%d' % i, opts[i % len(opts)])])


SIMPS = {n: getattr(simplify, n + '_simp') for n in ('spider', 'id', 'copy', 'lcomp', 'pivot', 'pivot_gadget', 'pivot_boundary', 'gadget', 'supplementarity', 'bialg', 'interior_clifford', 'clifford', 'phase_free')}
SIMPS['full'] = simplify.full_reduce
SIMPS['reduce_scalar'] = simplify.reduce_scalar


def compare(S, g, a, env, msg):
    unknown = g.scalar.is_unknown
    h = fill(S, g, env)
    if unknown:
        h.scalar.is_unknown = False
        S.same_upto(S.gmap(h), a, msg)
    else:
        S.same(S.gmap(h), a, msg)


def h_simp(S, simp, n, nout, opts, graphlike=True, out=None, **kw):
    if graphlike:
        g, vs = gen.graphlike(S, n, out=out, vphase=lambda i: 0, **kw)
    else:
        g, vs = gen.graph(S, n, nout=nout, vphase=lambda i: 0, btargets=(0, n - 1), **kw)
    set_phases(S, g, vs, opts)
    env = env_of(S)
    a = S.gmap(fill(S, g, env))
    k = SIMPS[simp](g, quiet=True) if simp not in ('reduce_scalar',) else SIMPS[simp](g)
    if k:
        S.witness('rewritten')
    compare(S, g, a, env, simp)


def h_gadgets(S, simp, nt, ng, leaf, tp=('0',)):
    g, vs, gs = gen.gadgets(S, nt, ng, tphase=lambda i: 0, leaf=lambda k: 0)
    g.variable_types = dict(KINDS)
    ph = phases(g.variable_types)
    for k, (a, l) in enumerate(gs):
        g.set_phase(l, ph[S.choose('leaf%d' % k, leaf)])
    for i, v in enumerate(vs):
        g.set_phase(v, ph[S.choose('t%d' % i, tp)])
    env = env_of(S)
    a = S.gmap(fill(S, g, env))
    SIMPS[simp](g, quiet=True)
    compare(S, g, a, env, simp)


def h_teleport(S, n, opts, out=None):
    g, vs = gen.graphlike(S, n, out=out, vphase=lambda i: 0)
    set_phases(S, g, vs, opts)
    env = env_of(S)
    a = S.gmap(fill(S, g, env))
    shape = sorted((g.edge_s(e), g.edge_t(e), g.edge_type(e)) for e in g.edges())
    r = simplify.teleport_reduce(g)
    S.require(sorted((r.edge_s(e), r.edge_t(e), r.edge_type(e)) for e in r.edges()) == shape, 'teleporting changes the shape')
    S.same_upto(S.gmap(fill(S, r, env)), a, 'teleport_reduce')


RULES = {'fuse': (br.check_fuse, br.fuse, 2), 'strong_comp': (br.check_strong_comp, br.strong_comp, 2), 'color_change': (br.color_change, br.color_change, 1), 'copy_X': (br.check_copy_X, br.copy_X, 1),
         'copy_Z': (br.check_copy_Z, br.copy_Z, 1), 'pi_commute_X': (br.check_pi_commute_X, br.pi_commute_X, 1), 'pi_commute_Z': (br.check_pi_commute_Z, br.pi_commute_Z, 1), 'remove_id': (br.check_remove_id, br.remove_id, 1)}


def h_basic(S, rule, n, nout, opts, types=(Z, X), bedges=(SI,)):
    g, vs = gen.graph(S, n, nout=nout, types=types, vphase=lambda i: 0, bedges=bedges)
    set_phases(S, g, vs, opts)
    check, fn, k = RULES[rule]
    env = env_of(S)
    a = S.gmap(fill(S, g, env))
    v = S.choose('v', vs)
    args = (v,) if k == 1 else (v, S.choose('w', [w for w in vs if w != v]))
    if fn(g, *args):
        S.witness('applied')
    compare(S, g, a, env, rule)


def h_algebra(S, what_, opts, ho=None):
    """adjoint, composition and product of diagrams with variables"""
    def mk(name, opts):
        g, vs = gen.graph(S, 1, nin=1, nout=1, vphase=lambda i: 0, name=name)
        g.variable_types = dict(KINDS)
        ph = phases(g.variable_types)
        g.set_phase(vs[0], ph[S.choose(name + 'p', opts)])
        g.scalar.add_phase(ph[S.choose(name + 's', opts)])
        g.scalar.add_node(ph[S.choose(name + 'n', opts)])
        return g
    env = env_of(S)
    g = mk('g', opts)
    if what_ == 'adjoint':
        r, s = g.adjoint(), fill(S, g, env).adjoint()
    elif what_ == 'copy':
        r, s = g.copy(), fill(S, g, env)
    else:
        h = mk('h', ho)
        G, K = fill(S, g, env), fill(S, h, env)
        r, s = (g + h, G + K) if what_ == 'compose' else (g @ h, G @ K)
    S.same(S.gmap(fill(S, r, env)), S.gmap(s), what_)


GATES = {'ZPhase': 1, 'XPhase': 1, 'YPhase': 1, 'CRZ': 2, 'CRX': 2, 'CRY': 2, 'CPhase': 2, 'RZZ': 2, 'RXX': 2, 'ParityPhase': 2, 'U2': 1, 'U3': 1}


def h_circuit(S, kinds, opts, how):
    """circuits with variables: the diagram, the adjoint and the basic gates"""
    n = S.choose('gate', kinds)
    C = getattr(zx.gates, n)
    q = {1: (0,), 2: S.choose('q', ((0, 1), (1, 0)))}[GATES[n]]
    ph = phases(dict(KINDS))
    k = {'U2': 2, 'U3': 3}.get(n, 1)
    ps = [ph[S.choose('p%d' % i, opts)] for i in range(k)]
    env = env_of(S)
    mk = lambda ps: C(ps[0], *q) if n == 'ParityPhase' else C(*q, *ps)
    c, d = zx.Circuit(2), zx.Circuit(2)
    c.add_gate(mk(ps))
    d.add_gate(mk([value(p, env) for p in ps]))
    if how == 'adjoint':
        c, d = c.adjoint(), d.adjoint()
    elif how == 'basic':
        c = c.to_basic_gates()
    S.same(S.gmap(fill(S, c.to_graph(), env)), S.gmap(d.to_graph()), '%s of %s' % (how, n))


def harnesses(tier):
    q = tier == 'quick'
    F2 = [n for n in GATES if n not in ('U3',)]
    most = MONO[:3] + MONO[4:7] if q else MONO
    hs = [
        Harness('build', h_build, 'sums of two terms, their negation, remainder and copy', {'terms': 2}, dict(k=2)),
        Harness('numbers', h_num, 'arithmetic with numbers on either side', {'terms': 2 - q}, dict(k=2 - q)),
        Harness('powers', h_pow, 'powers of variables', {'exponent': 5}, dict(most=5)),
        Harness('equal', h_eq, 'equality of phases is equality for all values', {'terms': 2}, dict(kp=2, kq=1 if q else 2, monos=most, coef=(1, F(1, 2)) if q else (1, F(1, 2), F(-3, 2))), witnesses=('equal',)),
        Harness('kinds', h_kind, 'Pauli and Clifford phases', {'terms': 2}, dict(k=2), witnesses=('pauli', 'clifford')),
        Harness('substitute', h_sub, 'values for variables', {'terms': 2 - q}, dict(k=2 - q, many=True)),
        Harness('parse', h_parse, 'meaning of texts', {'texts': len(TEXT)}, {}),
        Harness('text', h_text, 'phases written and read back', {'terms': 2}, dict(k=2)),
    ]
    for op in OPS:
        hs.append(Harness('op_' + op, h_op, op + ' of polynomials', {'terms': 2}, dict(op=op, kp=2, kq=1, cq=(F(1, 2), 3), mq=most, mp=most)))
    pauli = ('b', 'c', 'b+1', '1', 'zero', 'bc')
    some = ('b', 'x', 'b+1/2', '1/2', 'zero', 'half')
    for s in ('spider', 'copy', 'lcomp', 'pivot', 'supplementarity', 'id', 'bialg', 'phase_free'):
        hs.append(Harness('simp_' + s, h_simp, s + '_simp', {'spiders': 3}, dict(simp=s, n=3, nout=2, opts=(some[:5] + ('half',) * (s == 'lcomp'), pauli[:3] + ('zero',), ('x', '3half')) if q else (some + pauli,), graphlike=s not in ('spider', 'id', 'bialg'), out=(True, False, False), bedges=(SI, HA) if s not in ('spider', 'id', 'bialg') else (SI,))))
    for s in ('pivot_gadget', 'pivot_boundary', 'gadget', 'interior_clifford', 'clifford', 'full', 'reduce_scalar'):
        hs.append(Harness('simp_' + s, h_simp, s, {'spiders': 3}, dict(simp=s, n=3, nout=2, opts=(('b', 'x', '1'), ('0', 'c', 'b+1/2', 'one'), ('x', 'half', '1/2')), out=(True, 'sym', False))))
    hs += [
        Harness('supp2', h_simp, 'supplementarity of symbolic phases', {'spiders': 4}, dict(simp='supplementarity', n=4, nout=2, opts=(('0',), ('x', 'b'), ('x', '-x', 'x+1', 'b+1'), ('0',)), out=(True, False, False, True))),
        Harness('gadgets_fuse', h_gadgets, 'phase gadgets with symbolic phases fuse', {'gadgets': 2}, dict(simp='gadget', nt=2, ng=2, leaf=('x', '-x', 'b', 'x+1/2', '1/4', 'zero'))),
        Harness('gadgets_full', h_gadgets, 'full_reduce of phase gadgets', {'gadgets': 2}, dict(simp='full', nt=2, ng=2, leaf=('x', 'b', 'x+1', '1/4') if not q else ('x', 'b', 'x+1'), tp=('0', 'c') if not q else ('0',))),
        Harness('teleport', h_teleport, 'teleport_reduce', {'spiders': 3}, dict(n=3, opts=(('x', 'b', '1/4'), ('x', '0', '1/2', 'half'), ('-x', 'y', 'b')), out=(True, False, 'sym'))),
    ]
    for r in RULES:
        hs.append(Harness('basic_' + r, h_basic, 'basic rule ' + r, {'spiders': 2}, dict(rule=r, n=2, nout=2, opts=(('b', 'x', 'b+1', '1', 'one', 'zero', 'x+b', 'b/2'), ('c', '0', 'y', '1', 'b+c') if q else pauli + some))))
    for w in ('graph', 'adjoint', 'basic'):
        hs.append(Harness('circuit_' + w, h_circuit, w + ' of a gate with symbolic phases', {'gates': 1}, dict(how=w, kinds=F2 if q else tuple(GATES), opts=('x', 'x+b') if q else ('x', 'x+b', 'b+1/2', '-x'))))
    for w in ('adjoint', 'copy', 'compose', 'product'):
        hs.append(Harness('algebra_' + w, h_algebra, w + ' of diagrams with symbolic phases and scalars', {'spiders': 2}, dict(what_=w, opts=('0', 'x', 'b+1/2', 'x+y') if w in ('adjoint', 'copy') else ('x', 'b'), ho=('c',) if q else ('x', 'c'))))
    return hs
