"""The harness context: symbolic (exploration) and concrete (replay) versions."""
import cmath, math
from fractions import Fraction
import numpy as np
import z3
from . import engine as E
from . import amp as A
from . import sem

TOL = 1e-7


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= TOL * max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)))


def permute_inputs(m, nq, perm):
    """numeric nq-qubit map (outputs, inputs) with its inputs permuted"""
    t = np.asarray(m).reshape((2,) * (2 * nq))
    return np.transpose(t, list(range(nq)) + [nq + p for p in perm]).reshape(-1)


def close_upto(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    na, nb = float(np.max(np.abs(a))), float(np.max(np.abs(b)))
    if na < 1e-9 or nb < 1e-9:
        return na < 1e-9 and nb < 1e-9
    i = int(np.argmax(np.abs(b)))
    if abs(a[i]) < 1e-9 * na:
        return False
    return close(a / a[i], b / b[i])


class Base:
    symbolic = False

    def __init__(self):
        self.witnesses = {}
        self.signature = None
        self._fresh = {}

    def witness(self, tag):
        self.witnesses[tag] = self.witnesses.get(tag, 0) + 1

    def sig(self, s):
        self.signature = s

    def fresh(self, base):
        n = self._fresh.get(base, 0)
        self._fresh[base] = n + 1
        return '%s#%d' % (base, n)

    def fail(self, msg):
        raise E.Violated(msg)

    # choose helpers
    def flag(self, name):
        return self.choose(name, [False, True])

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.choose('%s.%d' % (name, i), [False, True])]

    def permutation(self, name, items):
        rest = list(items)
        out = []
        k = 0
        while rest:
            i = self.choose('%s.%d' % (name, k), range(len(rest)))
            out.append(rest.pop(i))
            k += 1
        return out

    def gmap(self, g, scalar=True):
        return self.dmap(sem.read_graph(g), scalar)


    def tensor(self, t):
        """flattened tensor computed by the code under test"""
        if self.symbolic:
            from . import ring
            try:
                return ring.to_amp(t)
            except A.NotRing:
                return ring.plain(t).reshape(-1)
        return np.asarray(t, dtype=complex).reshape(-1)

    def permuted(self, a, nq, perm):
        if isinstance(a, A.Amp):
            idx = permute_inputs(np.arange(a.n), nq, perm)
            return A.Amp(a.atoms, a.keys, a.coef[idx], a.p2)
        return permute_inputs(a, nq, perm)

    def same_upto_perm(self, a, b, nq, msg):
        """equal up to a scalar after some permutation of the inputs of a"""
        import itertools
        model = self.eng.path_model() if self.symbolic else None
        num = lambda x: x.numeric(model) if isinstance(x, A.Amp) else x
        nb = num(b)
        for p in itertools.permutations(range(nq)):
            c = self.permuted(a, nq, p)
            if close_upto(num(c), nb):
                self.same_upto(c, b, msg)
                return
        self.fail(msg + ' (no permutation of the inputs matches)')


class Concrete(Base):
    def __init__(self, values):
        super().__init__()
        self.values = values

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.values.get(name, 0)
        if not 0 <= i < len(options):
            i = 0
        return options[i]

    def int(self, name, lo, hi):
        return self.values.get(name, lo)

    def bit(self, name):
        return self.values.get(name, 0)

    def phase(self, name, den=4, vals=None):
        if vals is not None:
            vals = list(vals)
            return Fraction(vals[self.values.get(name, 0)])
        return Fraction(self.values.get(name, 0), den)

    def assume(self, c):
        if not c:
            raise E.Prune()

    def require(self, c, msg):
        if not c:
            raise E.Violated(msg)

    def dmap(self, d, scalar=True):
        try:
            return sem.diagram_numeric(d, scalar)
        except sem.BadDiagram as e:
            raise E.Violated('malformed diagram: %s' % e)

    def opsmap(self, ops, nq):
        return sem.ops_numeric(ops, nq)

    def cmap(self, gates, nq):
        return sem.ops_numeric(sem.ops_of_gates(gates), nq)

    def same(self, a, b, msg):
        if not close(a, b):
            raise E.Violated('%s\n got  %s\n want %s' % (msg, fmt(a), fmt(b)))

    def same_upto(self, a, b, msg):
        if not close_upto(a, b):
            raise E.Violated('%s (up to scalar)\n got  %s\n want %s' % (msg, fmt(a), fmt(b)))

    def same_uptophase(self, a, b, msg):
        na, nb = float(np.max(np.abs(a))), float(np.max(np.abs(b)))
        if not close_upto(a, b) or abs(na - nb) > 1e-7 * max(1, nb):
            raise E.Violated('%s (up to global phase)\n got  %s\n want %s' % (msg, fmt(a), fmt(b)))


def fmt(a):
    a = np.asarray(a).reshape(-1)
    return '[' + ', '.join('%.4g%+.4gi' % (z.real, z.imag) for z in a[:16]) + (', ...' if len(a) > 16 else '') + ']'


class Sym(Base):
    symbolic = True

    def __init__(self, eng, fixed=None, raw_every=16):
        super().__init__()
        self.eng = eng
        self.values = {}     # choices made, by name
        self.fixed = fixed   # eager mode: choices fixed to these values, atoms forked at once
        self.raw_every = raw_every

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if not options:
            raise E.Prune()
        if self.fixed is not None and name in self.fixed:
            i = self.fixed[name]
            self.values[name] = i
            return options[i]
        t = self.eng.new_atom('c:' + name, 0, len(options) - 1)
        i = self.eng.choose_value(E.texpr(t), 'choose')
        self.values[name] = i
        return options[i]

    def _atom(self, name, lo, hi):
        t = self.eng.new_atom(name, lo, hi)
        return E.texpr(t)

    def int(self, name, lo, hi):
        e = self._atom(name, lo, hi)
        r = E.SymInt.wrap(e)
        return r.conc() if self.eng.eager and isinstance(r, E.SymInt) else r

    def bit(self, name):
        return self.int(name, 0, 1)

    def phase(self, name, den=4, vals=None):
        if vals is not None:
            vals = [Fraction(v) for v in vals]
            steps = {vals[i + 1] - vals[i] for i in range(len(vals) - 1)}
            if len(steps) == 1:
                e = self._atom(name, 0, len(vals) - 1).mulc(int(steps.pop() * E.RES)).addc(int(vals[0] * E.RES))
            else:
                e = self._atom(name, 0, len(vals) - 1)
                tab = [int(v * E.RES) for v in vals]
                e = e.table(lambda i: tab[i])
        else:
            e = self._atom(name, 0, 2 * den - 1).mulc(E.RES // den)
        r = E.SymPhase.mk(e)
        return r.conc() if self.eng.eager and isinstance(r, E.SymPhase) else r

    def assume(self, c):
        self.eng.assume(c)

    def require(self, c, msg):
        self.eng.stats['obligations'] += 1
        if isinstance(c, E.SymBool):
            v = c.b.const_value()
            if v is None:
                self.eng.stats['ob_solver'] += 1
                if self.eng.check(c.b.negate().z3()):
                    raise E.Violated(msg, self.eng.getmodel())
                return
            c = v
        else:
            self.eng.stats['ob_closed_norm'] += 1
        if not c:
            raise E.Violated(msg)

    # -- maps ---------------------------------------------------------------------------
    def dmap(self, d, scalar=True):
        try:
            try:
                return sem.diagram_amp(d, scalar)
            except A.NotRing:
                return sem.diagram_numeric(d, scalar)
        except sem.BadDiagram as e:
            raise E.Violated('malformed diagram: %s' % e)

    def opsmap(self, ops, nq):
        try:
            return sem.ops_amp(ops, nq)
        except A.NotRing:
            return sem.ops_numeric(ops, nq)

    def cmap(self, gates, nq):
        return self.opsmap(sem.ops_of_gates(gates), nq)

    def _num(self, a):
        if isinstance(a, A.Amp):
            m = {t.name: self.eng.concretize(E.texpr(t)) for t in a.atoms}
            return a.numeric(m)
        return a

    def _split(self, atoms):
        """fork on the values of one atom, preferring one tied to others by the path condition"""
        tied = set()
        for c in self.eng.conds:
            x = c.atoms()
            if x is not None and len(x) > 1:
                tied |= {t.name for t in x}
        at = min(atoms, key=lambda t: (t.name not in tied, len(self.eng.domain(t)), t.name))
        self.eng.concretize(E.texpr(at))

    def _settle(self, diff, a, b, msg, force_raw=False):
        """diff: Amp that must vanish under the path condition"""
        st = self.eng.stats
        st['obligations'] += 1
        diff = diff.collect()
        red = diff if diff.is_zero_poly() else A.reduce_domains(diff, self.eng.domain)
        if red.is_zero_poly():
            st['ob_closed_norm'] += 1
            if a is not None and (st['ob_closed_norm'] % self.raw_every == 1 or self.raw_every == 1) and small(a, 2, 96) and small(b, 2, 96):
                # the same obligation, both sides untouched, to the solver
                r = self.eng.check_soft(A.differ_z3(a, b), 400)
                if r is not None:
                    st['ob_raw'] += 1
                if r:
                    raise RuntimeError('normal form and solver disagree')
            return
        # does the current witness already refute it?
        m = self.eng.path_model()
        if np.abs(red.numeric(m)).max() > 1e-6:
            st['ob_solver'] += 1
            raise E.Violated(msg, m)
        # too large for one query: split on the values of one phase at a time
        while not small(red, 3, 200):
            self._split(red.atoms)
            red = A.reduce_domains(red, self.eng.domain).collect()
            if red.is_zero_poly():
                st['ob_closed_norm'] += 1
                return
        st['ob_solver'] += 1
        if self.eng.check(A.nonzero_z3(red)):
            raise E.Violated(msg, self.eng.getmodel())

    def same(self, a, b, msg):
        if not (isinstance(a, A.Amp) and isinstance(b, A.Amp)):
            if not close(self._num(a), self._num(b)):
                raise E.Violated(msg)
            return
        if a.n != b.n:
            raise E.Violated(msg + ' (arity %d vs %d)' % (a.n, b.n))
        at = A.merge_atoms(a.atoms, b.atoms)
        self._settle(A.add(a, b, -1), a.with_atoms(at), b.with_atoms(at), msg)

    def same_upto(self, a, b, msg):
        if not (isinstance(a, A.Amp) and isinstance(b, A.Amp)):
            if not close_upto(self._num(a), self._num(b)):
                raise E.Violated(msg)
            return
        if a.n != b.n:
            raise E.Violated(msg + ' (arity %d vs %d)' % (a.n, b.n))
        dom = self.eng.domain
        while True:
            a, b = A.reduce_domains(a.collect(), dom), A.reduce_domains(b.collect(), dom)
            # equal up to a unit c*zeta^(linear): settles the common case at once
            if A.unit_multiple(a, b):
                self.eng.stats['obligations'] += 1
                self.eng.stats['ob_closed_norm'] += 1
                return
            x = A.cross(a, b, 6000 if (a.atoms or b.atoms) else None)
            if x is not None:
                y = x if x.is_zero_poly() else A.reduce_domains(x.collect(), dom)
                if y.is_zero_poly() or small(y, 3, 200) or not (a.atoms or b.atoms) or \
                        np.abs(y.numeric(self.eng.path_model())).max() > 1e-6:
                    break
            # too large: split on the values of one phase
            self._split(set(a.atoms) | set(b.atoms))
        self._settle(x, None, None, msg)
        # neither side may vanish where the other does not
        za, zb = a.collect(), b.collect()
        ra, rb = A.reduce_domains(za, self.eng.domain), A.reduce_domains(zb, self.eng.domain)
        if nonvanishing(ra) and nonvanishing(rb):
            return
        st = self.eng.stats
        st['obligations'] += 1
        st['ob_solver'] += 1
        fa, fb = A.nonzero_z3(ra), A.nonzero_z3(rb)
        if self.eng.check(fa != fb):
            raise E.Violated(msg + ' (one side vanishes)', self.eng.getmodel())

    def same_uptophase(self, a, b, msg):
        self.same_upto(a, b, msg)
        # equal norms: compare sum |entry|^2, which is phase independent
        if isinstance(a, A.Amp) and isinstance(b, A.Amp):
            try:
                na, nb = norm2(a), norm2(b)
            except MemoryError:
                return
            self._settle(A.add(na, nb, -1), na, nb, msg + ' (norm)')
        else:
            x, y = self._num(a), self._num(b)
            if abs(np.sum(np.abs(x) ** 2) - np.sum(np.abs(y) ** 2)) > 1e-6 * max(1, np.sum(np.abs(y) ** 2)):
                raise E.Violated(msg + ' (norm)')


def small(a, natoms, size):
    used = [j for j in range(len(a.atoms)) if a.keys[:, j].any()] if a.atoms else []
    return len(used) <= natoms and int(a.coef.any(axis=2).sum()) <= size


def nonvanishing(a):
    """cheap sufficient test: some entry is a single monomial with a nonzero coefficient"""
    nz = a.coef.any(axis=2)
    cnt = nz.sum(axis=1)
    return bool((cnt == 1).any())


def conj(v):
    out = np.zeros_like(v)
    out[0] = v[0]
    for j in range(1, A.RES):
        out[A.RES - j] = -v[j]
    return out


def norm2(a):
    """sum over entries of |entry|^2 as a one-entry Amp"""
    acc = {}
    for i in range(a.n):
        e = A.entry(a, i)
        for k1, c1 in e:
            for k2, c2 in e:
                k = tuple((x - y) % A.M for x, y in zip(k1, k2))
                v = A.vmul(c1, conj(c2))
                acc[k] = acc[k] + v if k in acc else v
    if not acc:
        acc = {tuple([0] * len(a.atoms)): np.zeros(A.RES, dtype=np.int64)}
    keys = np.array(list(acc), dtype=np.int64).reshape(len(acc), len(a.atoms))
    coef = np.array([acc[k] for k in acc], dtype=np.int64).reshape(1, len(acc), A.RES)
    return A.Amp(a.atoms, keys, coef, 2 * a.p2)
