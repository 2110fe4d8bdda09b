"""Symbolic execution of real Python code by proxy objects.

The explored function is ordinary Python which calls the code under test.  Its
inputs are created through a context object S:

    S.choose(name, options)   a solver variable with len(options) values, forked at once
    S.int(name, lo, hi)       a symbolic integer (SymInt), forked only when the code branches on it
    S.phase(name)             a symbolic fraction k/den (SymPhase, a Fraction subclass)
    S.assume(cond) / S.require(cond, msg)

Each time the code under test needs the truth value of a condition over symbolic
inputs, `__bool__` asks z3 which outcomes are feasible under the path condition and
the explorer visits each feasible one (depth-first, by re-execution with a decision
prefix).  Whatever a proxy cannot represent is concretised by forking over all the
values the path condition still allows, so nothing is ever approximated.
"""
import math, sys, time
from fractions import Fraction
import z3

W = 20  # bit-width of solver integers; bounds are checked against it
MAXV = 1 << (W - 2)
RES = 16  # phases are represented as integer multiples of pi/RES

ENG = None  # the running engine (symbolic mode) or None


class Prune(BaseException):
    """The current path is infeasible or outside the stated bounds."""


class Stop(BaseException):
    """Exploration was interrupted (budget)."""


class PathTimeout(BaseException):
    """The code under test did not return within the per-path limit."""


class Violated(BaseException):
    def __init__(self, msg, detail=None):
        self.msg, self.detail = msg, detail


class Nondeterminism(Exception):
    pass


# ----------------------------------------------------------------------------------
# integer expressions in linear normal form over terms
# ----------------------------------------------------------------------------------

class Term:
    """Atom, or a non-linear function of an expression."""
    __slots__ = ('kind', 'key', 'lo', 'hi', 'arg', 'm', 'name', 'table', '_z3', 'atoms', '_h')

    def __repr__(self):
        return str(self.key)


def atom(name, lo, hi):
    t = Term()
    t.kind, t.name, t.lo, t.hi = 'atom', name, lo, hi
    t.key = ('a', name)
    t.arg = t.m = t.table = None
    t._z3 = None
    t.atoms = frozenset([t])
    return t


def _mkterm(kind, arg, m, table, lo, hi):
    t = Term()
    t.kind, t.arg, t.m, t.table, t.lo, t.hi, t.name = kind, arg, m, table, lo, hi, None
    t.key = (kind, arg.key, m if table is None else tuple(sorted(table.items())))
    t._z3 = None
    t.atoms = arg.atoms
    return t


class IntExpr:
    __slots__ = ('c', 'terms', 'key', 'lo', 'hi', 'atoms', '_z3')

    def __init__(self, c, terms):
        # terms: dict key->(Term, coef), no zero coefs
        self.c = c
        self.terms = terms
        self.key = (c,) + tuple(sorted(((k, v[1]) for k, v in terms.items()), key=repr)) if terms else (c,)
        lo = hi = c
        ats = set()
        for t, a in terms.values():
            if a > 0:
                lo += a * t.lo
                hi += a * t.hi
            else:
                lo += a * t.hi
                hi += a * t.lo
            ats |= t.atoms
        self.lo, self.hi = lo, hi
        self.atoms = frozenset(ats)
        self._z3 = None

    @property
    def is_const(self):
        return not self.terms

    def add(self, o, f=1):
        terms = dict(self.terms)
        for k, (t, a) in o.terms.items():
            if k in terms:
                n = terms[k][1] + f * a
                if n:
                    terms[k] = (t, n)
                else:
                    del terms[k]
            else:
                terms[k] = (t, f * a)
        return IntExpr(self.c + f * o.c, terms)

    def addc(self, k):
        return IntExpr(self.c + k, self.terms)

    def mulc(self, f):
        if f == 0:
            return const(0)
        return IntExpr(self.c * f, {k: (t, a * f) for k, (t, a) in self.terms.items()})

    def mod(self, m):
        if 0 <= self.lo and self.hi < m:
            return self
        if self.is_const:
            return const(self.c % m)
        terms = {}
        for k, (t, a) in self.terms.items():
            # a*(x mod m') with m | a*m'  ==  a*x  (mod m): unwrap nested mods
            if t.kind == 'mod' and (a * t.m) % m == 0:
                sub = t.arg.mulc(a)
                e = IntExpr(self.c, {kk: vv for kk, vv in self.terms.items() if kk != k}).add(sub)
                return e.mod(m)
            a2 = a % m
            if a2:
                terms[k] = (t, a2)
        c = self.c % m
        e = IntExpr(c, terms)
        if e.hi < m and e.lo >= 0:
            return e
        return texpr(_mkterm('mod', e, m, None, 0, m - 1))

    def floordiv(self, m):
        if self.is_const:
            return const(self.c // m)
        if all(a % m == 0 for t, a in self.terms.values()):
            return IntExpr(self.c // m, {k: (t, a // m) for k, (t, a) in self.terms.items()})
        lo, hi = self.lo // m, self.hi // m
        if lo == hi:
            return const(lo)
        return texpr(_mkterm('div', self, m, None, lo, hi))

    def table(self, fn):
        """Apply an arbitrary function to the (finitely many) values."""
        if self.is_const:
            return const(fn(self.c))
        if self.hi - self.lo > 4096:
            raise OverflowError('table too large')
        tab = {v: fn(v) for v in range(self.lo, self.hi + 1)}
        lo, hi = min(tab.values()), max(tab.values())
        if lo == hi:
            return const(lo)
        return texpr(_mkterm('tab', self, None, tab, lo, hi))

    def ev(self, model):
        r = self.c
        for t, a in self.terms.values():
            r += a * evterm(t, model)
        return r

    def z3(self):
        if self._z3 is None:
            if self.lo < -MAXV or self.hi > MAXV:
                raise OverflowError('expression exceeds solver width')
            r = z3.BitVecVal(self.c, W)
            for t, a in self.terms.values():
                z = z3term(t)
                r = r + (z if a == 1 else z * z3.BitVecVal(a, W))
            self._z3 = r
        return self._z3

    def linear(self, m):
        """(const, {atom: coef}) modulo m, or None when not linear modulo m."""
        e = self.mod(m) if not self.is_const else const(self.c % m)
        # an outer mod by m is transparent
        while len(e.terms) == 1 and e.c == 0:
            (t, a), = e.terms.values()
            if t.kind == 'mod' and a == 1 and t.m % m == 0:
                e = t.arg
            else:
                break
        out = {}
        for t, a in e.terms.values():
            if t.kind != 'atom':
                if t.kind == 'mod' and (a * t.m) % m == 0:
                    sub = t.arg.mulc(a).linear(m)
                    if sub is None:
                        return None
                    e2 = IntExpr(e.c, {k: v for k, v in e.terms.items() if v[0] is not t})
                    rest = e2.linear(m)
                    if rest is None:
                        return None
                    d = dict(rest[1])
                    for k, v in sub[1].items():
                        d[k] = (d.get(k, 0) + v) % m
                    return ((rest[0] + sub[0]) % m, {k: v for k, v in d.items() if v})
                return None
            a %= m
            if a:
                out[t] = a
        return (e.c % m, out)

    def __repr__(self):
        return 'IntExpr%r' % (self.key,)


def const(c):
    return IntExpr(int(c), {})


def texpr(t):
    return IntExpr(0, {t.key: (t, 1)})


def evterm(t, model):
    if t.kind == 'atom':
        return model[t.name]
    v = t.arg.ev(model)
    if t.kind == 'mod':
        return v % t.m
    if t.kind == 'div':
        return v // t.m
    return t.table[v]


def z3term(t):
    if t._z3 is None:
        if t.kind == 'atom':
            t._z3 = z3.BitVec(t.name, W)
        else:
            a = t.arg.z3()
            if t.kind in ('mod', 'div'):
                m = t.m
                if m & (m - 1) == 0:
                    sh = m.bit_length() - 1
                    t._z3 = (a & z3.BitVecVal(m - 1, W)) if t.kind == 'mod' else (a >> z3.BitVecVal(sh, W))
                else:
                    md = a % z3.BitVecVal(m, W)
                    t._z3 = md if t.kind == 'mod' else (a - md) / z3.BitVecVal(m, W)
            else:
                # group equal outputs
                byv = {}
                for k, v in t.table.items():
                    byv.setdefault(v, []).append(k)
                items = sorted(byv.items(), key=lambda kv: len(kv[1]))
                r = z3.BitVecVal(items[-1][0], W)
                for v, ks in items[:-1]:
                    r = z3.If(z3.Or([a == z3.BitVecVal(k, W) for k in ks]), z3.BitVecVal(v, W), r)
                t._z3 = r
    return t._z3


# ----------------------------------------------------------------------------------
# boolean expressions
# ----------------------------------------------------------------------------------

class BoolExpr:
    """op in 'eq' (e==0), 'le' (e<=0); 'and'/'or' over args; 'raw' (z3 formula + evaluator)."""
    __slots__ = ('op', 'e', 'neg', 'key', 'args', 'raw', '_z3')

    def __init__(self, op, e=None, neg=False, args=None, raw=None, key=None):
        self.op, self.e, self.neg, self.args, self.raw = op, e, neg, args, raw
        self._z3 = None
        self.key = key if key is not None else (op, neg, e.key if e is not None else tuple(a.key for a in args))

    def const_value(self):
        if self.op == 'eq':
            if self.e.is_const:
                r = self.e.c == 0
            elif self.e.lo > 0 or self.e.hi < 0:
                r = False
            else:
                return None
        elif self.op == 'le':
            if self.e.hi <= 0:
                r = True
            elif self.e.lo > 0:
                r = False
            else:
                return None
        elif self.op in ('and', 'or'):
            vals = [a.const_value() for a in self.args]
            if self.op == 'and':
                r = False if False in vals else (True if all(v is True for v in vals) else None)
            else:
                r = True if True in vals else (False if all(v is False for v in vals) else None)
            if r is None:
                return None
        else:
            return None
        return r != self.neg

    def ev(self, model):
        if self.op == 'eq':
            r = self.e.ev(model) == 0
        elif self.op == 'le':
            r = self.e.ev(model) <= 0
        elif self.op == 'and':
            r = all(a.ev(model) for a in self.args)
        elif self.op == 'or':
            r = any(a.ev(model) for a in self.args)
        else:
            r = self.raw[1](model)
        return r != self.neg

    def z3(self):
        if self._z3 is None:
            if self.op == 'eq':
                r = self.e.z3() == z3.BitVecVal(0, W)
            elif self.op == 'le':
                r = self.e.z3() <= z3.BitVecVal(0, W)
            elif self.op == 'and':
                r = z3.And([a.z3() for a in self.args])
            elif self.op == 'or':
                r = z3.Or([a.z3() for a in self.args])
            else:
                r = self.raw[0]
            self._z3 = z3.Not(r) if self.neg else r
        return self._z3

    def negate(self):
        return BoolExpr(self.op, self.e, not self.neg, self.args, self.raw,
                        None if self.op != 'raw' else ('raw', not self.neg, self.key[2]))

    def atoms(self):
        if self.op in ('eq', 'le'):
            return self.e.atoms
        if self.op in ('and', 'or'):
            return frozenset().union(*[a.atoms() for a in self.args])
        return None


class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        v = self.b.const_value()
        if v is not None:
            return v
        return ENG.decide(self.b)

    def __and__(self, o):
        o = _asbool(o)
        return SymBool(BoolExpr('and', args=[self.b, o.b])) if o is not None else NotImplemented

    def __or__(self, o):
        o = _asbool(o)
        return SymBool(BoolExpr('or', args=[self.b, o.b])) if o is not None else NotImplemented

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(self.b.negate())

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return repr(bool(self))

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


TRUE = BoolExpr('eq', const(0))
FALSE = BoolExpr('eq', const(0), True)


def _asbool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, bool) or type(o).__name__ == 'bool_':
        return SymBool(TRUE if o else FALSE)
    return None


def mkeq(e):
    b = BoolExpr('eq', e)
    v = b.const_value()
    return v if v is not None else SymBool(b)


def mkle(e):
    b = BoolExpr('le', e)
    v = b.const_value()
    return v if v is not None else SymBool(b)


def mknot(x):
    return (not x) if isinstance(x, bool) else ~x


# ----------------------------------------------------------------------------------
# SymInt
# ----------------------------------------------------------------------------------

def _isint(x):
    return isinstance(x, int) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and x.dtype.kind in 'iub')


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def wrap(e):
        return e.c if e.is_const else SymInt(e)

    def conc(self):
        return ENG.concretize(self.e)

    def _o(self, o):
        if type(o) is SymInt:
            return o.e
        if _isint(o):
            return const(int(o))
        if isinstance(o, SymBool):
            return const(int(bool(o)))
        return None

    def _frac(self):
        return SymPhase.mk(self.e.mulc(RES))

    def __add__(self, o):
        e = self._o(o)
        if e is None:
            return self._other(o, '__add__')
        return SymInt.wrap(self.e.add(e))

    __radd__ = __add__

    def _other(self, o, op):
        if isinstance(o, (Fraction,)):
            return getattr(self._frac(), op)(o)
        if isinstance(o, (float, complex)):
            return getattr(float(self.conc()), op)(o) if isinstance(o, float) else getattr(complex(self.conc()), op)(o)
        return NotImplemented

    def __sub__(self, o):
        e = self._o(o)
        if e is None:
            return self._other(o, '__sub__')
        return SymInt.wrap(self.e.add(e, -1))

    def __rsub__(self, o):
        e = self._o(o)
        if e is None:
            return self._other(o, '__rsub__')
        return SymInt.wrap(e.add(self.e, -1))

    def __neg__(self):
        return SymInt.wrap(self.e.mulc(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __mul__(self, o):
        e = self._o(o)
        if e is None:
            if isinstance(o, (list, tuple, str, bytes)):
                return o * self.conc()
            return self._other(o, '__mul__')
        if e.is_const:
            return SymInt.wrap(self.e.mulc(e.c))
        # 0/1 factors stay symbolic through a case split on one of them
        return SymInt.wrap(e.mulc(self.conc()))

    __rmul__ = __mul__

    def __mod__(self, o):
        e = self._o(o)
        if e is None:
            return self._other(o, '__mod__')
        if e.is_const and e.c > 0:
            return SymInt.wrap(self.e.mod(e.c))
        return self.conc() % ENG.concretize(e)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.conc()
        return o % self.conc()

    def __floordiv__(self, o):
        e = self._o(o)
        if e is None:
            return self._other(o, '__floordiv__')
        if e.is_const and e.c > 0:
            return SymInt.wrap(self.e.floordiv(e.c))
        return self.conc() // ENG.concretize(e)

    def __rfloordiv__(self, o):
        return o // self.conc()

    def __truediv__(self, o):
        return self.conc() / o if not isinstance(o, SymInt) else self.conc() / o.conc()

    def __rtruediv__(self, o):
        return o / self.conc()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return self.conc() ** (o.conc() if isinstance(o, SymInt) else o)

    def __rpow__(self, o):
        return o ** self.conc()

    def _bits(self):
        return self.e.lo >= 0 and self.e.hi <= 1

    def __xor__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        if self._bits() and e.lo >= 0 and e.hi <= 1:
            return SymInt.wrap(self.e.add(e).mod(2))
        return self.conc() ^ ENG.concretize(e)

    __rxor__ = __xor__

    def __and__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        if e.is_const and (e.c + 1) & e.c == 0 and e.c >= 0:
            return SymInt.wrap(self.e.mod(e.c + 1))
        if self.e.is_const:
            return SymInt.wrap(e) & self.e.c
        return self.conc() & ENG.concretize(e)

    __rand__ = __and__

    def __or__(self, o):
        e = self._o(o)
        if e is None:
            return NotImplemented
        return self.conc() | ENG.concretize(e)

    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __eq__(self, o):
        e = self._o(o)
        if e is None:
            if isinstance(o, Fraction):
                return self._frac() == o
            if isinstance(o, (float, complex)):
                return self.conc() == o
            return NotImplemented
        return mkeq(self.e.add(e, -1))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def _cmp(self, o, f, strict, rev):
        e = self._o(o)
        if e is None:
            if isinstance(o, float):
                c = self.conc()
                return f(c, o)
            if isinstance(o, Fraction):
                return f(self._frac(), o)
            return NotImplemented
        d = e.add(self.e, -1) if rev else self.e.add(e, -1)  # want d<0 or d<=0
        return mkle(d.addc(1) if strict else d)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, False, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, True, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)

    def __bool__(self):
        return bool(mknot(mkeq(self.e)))

    def __int__(self):
        return self.conc()

    __index__ = __int__

    def __float__(self):
        return float(self.conc())

    def __complex__(self):
        return complex(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        if ENG is not None and ENG.tokens is not None:
            return ENG.token(self)
        return str(self.conc())

    def __repr__(self):
        return str(self)

    def __format__(self, spec):
        if not spec and ENG is not None and ENG.tokens is not None:
            return ENG.token(self)
        return format(self.conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (int, (self.conc(),))

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def bit_length(self):
        return self.conc().bit_length()

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__


# ----------------------------------------------------------------------------------
# SymPhase
# ----------------------------------------------------------------------------------

_frac_new = Fraction.__new__


class SymPhase(Fraction):
    """A Fraction whose value is e/RES with e symbolic."""
    __slots__ = ('e',)

    @staticmethod
    def mk(e):
        if e.is_const:
            return Fraction(e.c, RES)
        self = object.__new__(SymPhase)
        self.e = e
        return self

    def __new__(cls, *a, **k):
        raise TypeError('SymPhase is built by the engine')

    def conc(self):
        return _frac_new(Fraction, ENG.concretize(self.e), RES)

    @property
    def _numerator(self):
        return self.conc()._numerator

    @property
    def _denominator(self):
        return self.conc()._denominator

    @property
    def numerator(self):
        return SymInt.wrap(self.e.table(lambda v: Fraction(v, RES).numerator))

    @property
    def denominator(self):
        return SymInt.wrap(self.e.table(lambda v: Fraction(v, RES).denominator))

    @staticmethod
    def _o(o):
        """-> IntExpr of o*RES, or None."""
        if type(o) is SymPhase:
            return o.e
        if type(o) is SymInt:
            return o.e.mulc(RES)
        if isinstance(o, Fraction):
            if RES % o.denominator == 0:
                return const(o.numerator * (RES // o.denominator))
            return None
        if _isint(o):
            return const(int(o) * RES)
        if isinstance(o, SymBool):
            return const(int(bool(o)) * RES)
        return None

    def _fall(self, o, op):
        if type(o) in (SymPhase, SymInt):
            o = o.conc()
        if not isinstance(o, (int, float, complex, Fraction)) and not _isint(o):
            return NotImplemented
        return getattr(self.conc(), op)(o)

    def __add__(self, o):
        e = SymPhase._o(o)
        if e is None:
            return self._fall(o, '__add__')
        return SymPhase.mk(self.e.add(e))

    def __radd__(self, o):
        e = SymPhase._o(o)
        if e is None:
            return self._fall(o, '__radd__')
        return SymPhase.mk(self.e.add(e))

    def __sub__(self, o):
        e = SymPhase._o(o)
        if e is None:
            return self._fall(o, '__sub__')
        return SymPhase.mk(self.e.add(e, -1))

    def __rsub__(self, o):
        e = SymPhase._o(o)
        if e is None:
            return self._fall(o, '__rsub__')
        return SymPhase.mk(e.add(self.e, -1))

    def __neg__(self):
        return SymPhase.mk(self.e.mulc(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def _mulf(self, f):
        """multiply by a Fraction"""
        f = Fraction(f)
        n, d = f.numerator, f.denominator
        e = self.e.mulc(n)
        if d == 1:
            return SymPhase.mk(e)
        if e.c % d == 0 and all(a % d == 0 for t, a in e.terms.values()):
            return SymPhase.mk(IntExpr(e.c // d, {k: (t, a // d) for k, (t, a) in e.terms.items()}))
        if all(t.kind == 'atom' for t, a in e.terms.values()):
            return self.conc() * f
        # split on the value of the non-linear terms' quotients, then retry
        e2 = ENG.linearize(self.e)
        if e2.key != self.e.key:
            r = SymPhase.mk(e2)
            return r._mulf(f) if isinstance(r, SymPhase) else r * f
        return self.conc() * f

    def __mul__(self, o):
        if type(o) is SymPhase:
            if o.e.is_const:
                return self._mulf(Fraction(o.e.c, RES))
            return o._mulf(self.conc())
        if type(o) is SymInt:
            return self._mulf(Fraction(o.conc()))
        if isinstance(o, Fraction) or _isint(o):
            return self._mulf(o)
        return self._fall(o, '__mul__')

    def __rmul__(self, o):
        if isinstance(o, Fraction) or _isint(o) or type(o) in (SymPhase, SymInt):
            return self.__mul__(o)
        if type(o) is complex and o.real == 0 and abs(o.imag) == math.pi:
            from .ring import Ang
            return Ang(self if o.imag > 0 else -self, 1)
        return self._fall(o, '__rmul__')

    def __truediv__(self, o):
        if type(o) in (SymPhase, SymInt):
            o = o.conc()
        if isinstance(o, Fraction) or _isint(o):
            return self._mulf(Fraction(1) / Fraction(o))
        return self._fall(o, '__truediv__')

    def __rtruediv__(self, o):
        return self._fall(o, '__rtruediv__')

    def __mod__(self, o):
        e = SymPhase._o(o)
        if e is not None and e.is_const and e.c > 0:
            return SymPhase.mk(self.e.mod(e.c))
        return self._fall(o, '__mod__')

    def __rmod__(self, o):
        return self._fall(o, '__rmod__')

    def __floordiv__(self, o):
        e = SymPhase._o(o)
        if e is not None and e.is_const and e.c > 0:
            return SymInt.wrap(self.e.floordiv(e.c))
        return self._fall(o, '__floordiv__')

    def __rfloordiv__(self, o):
        return self._fall(o, '__rfloordiv__')

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return self._fall(o, '__pow__')

    def __rpow__(self, o):
        return self._fall(o, '__rpow__')

    def __eq__(self, o):
        e = SymPhase._o(o)
        if e is None:
            if isinstance(o, Fraction):
                return False if RES % o.denominator else self.conc() == o
            if isinstance(o, (float, complex)):
                if isinstance(o, float) and o.is_integer():
                    return self == int(o)
                return self.conc() == o
            return NotImplemented
        return mkeq(self.e.add(e, -1))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mknot(r)

    def _cmp(self, o, f, strict, rev):
        e = SymPhase._o(o)
        if e is None:
            if isinstance(o, (float, Fraction)):
                if isinstance(o, float) and (o * RES).is_integer():
                    return f(self, Fraction(int(o * RES), RES))
                return f(self.conc(), o)
            return NotImplemented
        d = e.add(self.e, -1) if rev else self.e.add(e, -1)
        return mkle(d.addc(1) if strict else d)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, False, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, True, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)

    def __bool__(self):
        return bool(mknot(mkeq(self.e)))

    def __hash__(self):
        return hash(self.conc())

    def __int__(self):
        return int(self.__trunc__())

    def __trunc__(self):
        if bool(self < 0):
            return -((-self) // 1)
        return self // 1

    def __floor__(self):
        return self // 1

    def __ceil__(self):
        return -((-self) // 1)

    def __round__(self, n=None):
        return round(self.conc(), n) if n is not None else round(self.conc())

    def __float__(self):
        return float(self.conc())

    def __complex__(self):
        return complex(self.conc())

    def __str__(self):
        if ENG is not None and ENG.tokens is not None:
            n, d = self.numerator, self.denominator
            return ENG.fracstr(n, d)
        return str(self.conc())

    def __repr__(self):
        return 'Fraction(%s)' % str(self) if ENG is not None and ENG.tokens is not None else repr(self.conc())

    def __format__(self, spec):
        return str(self) if not spec else format(self.conc(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        c = self.conc()
        return (Fraction, (c.numerator, c.denominator))

    def limit_denominator(self, m=1000000):
        if m >= RES:
            return self
        return self.conc().limit_denominator(m)

    def as_integer_ratio(self):
        return (self.numerator, self.denominator)

    def is_integer(self):
        return self.denominator == 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def copy(self):
        return self


def _patched_new(cls, numerator=0, denominator=None, **kw):
    if cls is Fraction:
        if type(numerator) is SymPhase:
            if denominator is None:
                return numerator
            return numerator / denominator
        if type(numerator) is SymInt:
            if denominator is None:
                return numerator._frac()
            if type(denominator) is SymInt:
                denominator = denominator.conc()
            if _isint(denominator) and RES % denominator == 0 and denominator != 0:
                return SymPhase.mk(numerator.e.mulc(RES // int(denominator)))
            return numerator._frac() / denominator
        if type(denominator) is SymInt:
            denominator = denominator.conc()
        elif type(denominator) is SymPhase:
            denominator = denominator.conc()
    return _frac_new(cls, numerator, denominator, **kw) if kw else _frac_new(cls, numerator, denominator)


def install_fraction_patch():
    Fraction.__new__ = _patched_new


def uninstall_fraction_patch():
    Fraction.__new__ = _frac_new


# ----------------------------------------------------------------------------------
# the engine
# ----------------------------------------------------------------------------------

class Decision:
    __slots__ = ('key', 'val', 'alts', 'b')

    def __init__(self, key, val, alts, b):
        self.key, self.val, self.alts, self.b = key, val, alts, b


def _khash(key):
    return hash(repr(key)) & 0xffffffff


class Engine:
    """Explores all paths of fn(S) below a decision prefix."""

    def __init__(self, solver_timeout_ms=60000):
        self.solver = z3.Solver()
        self.timeout_ms = solver_timeout_ms
        self.solver.set('timeout', solver_timeout_ms)
        self.pushed = 0
        self.decisions = []     # list of Decision for the current DFS branch
        self.pos = 0
        self.memo = {}
        self.stats = dict(paths=0, pruned=0, decisions=0, solver_checks=0, solver_s=0.0,
                          obligations=0, ob_closed_norm=0, ob_solver=0, ob_raw=0, concretisations=0, maxdepth=0)
        self.tokens = None
        self.model = {}
        self.atomdecl = {}
        self.eager = False
        self.deadline = None
        self._vk, self._eqc = {}, {}

    # -- path life cycle ------------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.memo = {}
        self.conds = []          # BoolExprs on the path (all, in order)
        self.cur_atoms = {}      # name -> Term
        self.domains = {}        # name -> set of values (over-approximation from unary constraints)
        self.multi = False       # some constraint over several atoms
        self.values = {}         # choices by name (for replay)
        self.tokens = None
        self.model = {}

    # solver stack discipline: level i+1 holds the constraint of decision i
    def _push(self, b):
        self.solver.push()
        self.solver.add(b)
        self.pushed += 1

    def _pop_to(self, n):
        if self.pushed > n:
            self.solver.pop(self.pushed - n)
            self.pushed = n

    def check(self, *assumps):
        t = time.time()
        r = self.solver.check(*assumps)
        self.stats['solver_checks'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise RuntimeError('solver returned unknown: %s' % self.solver.reason_unknown())
        return r == z3.sat

    def check_soft(self, f, ms):
        """like check, but None when the solver does not answer in time"""
        t = time.time()
        self.solver.set('timeout', ms)
        try:
            r = self.solver.check(f)
        finally:
            self.solver.set('timeout', self.timeout_ms)
        self.stats['solver_checks'] += 1
        self.stats['solver_s'] += time.time() - t
        return None if r == z3.unknown else r == z3.sat

    def getmodel(self):
        m = self.solver.model()
        out = {}
        for n, t in self.cur_atoms.items():
            v = m.eval(z3term(t), model_completion=True).as_signed_long()
            if not t.lo <= v <= t.hi:
                v = t.lo        # unconstrained in this query
            out[n] = v
        return out

    # -- variables --------------------------------------------------------------------
    def new_atom(self, name, lo, hi):
        if name in self.cur_atoms:
            raise ValueError('duplicate symbolic name ' + name)
        key = (name, lo, hi)
        r = self.atomdecl.get(key)
        if r is None:
            t = atom(name, lo, hi)
            b = BoolExpr('and', args=[BoolExpr('le', const(lo).add(texpr(t), -1)), BoolExpr('le', texpr(t).addc(-hi))])
            r = self.atomdecl[key] = (t, b, _khash(('range', name, lo, hi)))
        t, b, k = r
        self.cur_atoms[name] = t
        self.domains[name] = None
        self.model[name] = lo
        # range constraint: a decision without alternatives (it always holds)
        if self.pos < len(self.decisions):
            if self.decisions[self.pos].key != k:
                raise Nondeterminism('decision %d differs on re-execution' % self.pos)
            if self.pos >= self.pushed:
                self._push(b.z3())
        else:
            self.decisions.append(Decision(k, True, [], b))
            self._push(b.z3())
        self.pos += 1
        return t

    def _forced(self, key, b):
        """record a constraint that holds on this path with no alternative"""
        k = _khash(key)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.key != k:
                raise Nondeterminism('decision %d differs on re-execution' % self.pos)
            if self.pos >= self.pushed:
                self._push(b.z3())
        else:
            self.decisions.append(Decision(k, True, [], b))
            self._push(b.z3())
        self.pos += 1
        self._learn(b)

    def _learn(self, b):
        self.conds.append(b)
        ats = b.atoms()
        if ats is None or len(ats) > 1:
            self.multi = True
        elif len(ats) == 1:
            (t,) = ats
            dom = self.domains[t.name]
            if dom is None:
                dom = range(t.lo, t.hi + 1)
            self.domains[t.name] = [v for v in dom if b.ev({t.name: v})]

    def domain(self, t):
        d = self.domains.get(t.name)
        return list(range(t.lo, t.hi + 1)) if d is None else d

    def _ensure_model(self):
        """the cached model must satisfy the path condition"""
        for b in self.conds[self.model_ok:] if hasattr(self, 'model_ok') else self.conds:
            if not b.ev(self.model):
                return False
        return True

    def path_model(self):
        if all(b.ev(self.model) for b in self.conds):
            return self.model
        if not self.check():
            raise Prune()
        self.model = self.getmodel()
        return self.model

    def decide(self, b):
        """fork on a boolean expression"""
        if self.deadline is not None and time.time() > self.deadline:
            raise Stop()
        k = b.key
        if k in self.memo:
            return self.memo[k]
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.key != _khash(k):
                raise Nondeterminism('decision %d differs on re-execution' % self.pos)
            if self.pos >= self.pushed:
                self._push((b if d.val else b.negate()).z3())
            val = d.val
        else:
            m = self.path_model()
            val = b.ev(m)
            other = b.negate() if val else b
            # is the other side feasible?
            dom_inf = False
            sat = self.check(other.z3())
            self.stats['decisions'] += 1
            alts = [not val] if sat else []
            self.decisions.append(Decision(_khash(k), val, alts, b))
            self._push((b if val else b.negate()).z3())
        self.pos += 1
        bb = b if val else b.negate()
        self._learn(bb)
        self.memo[k] = val
        self.memo[b.negate().key] = not val
        return val

    def choose_value(self, e, what):
        """n-ary fork: fix the expression to one of its feasible values"""
        if e.is_const:
            return e.c
        if self.deadline is not None and time.time() > self.deadline:
            raise Stop()
        mk = ('val', e.key)
        if mk in self.memo:
            return self.memo[mk]
        k = self._vk.get(mk)
        if k is None:
            k = self._vk[mk] = _khash((what, e.key))
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.key != k:
                raise Nondeterminism('decision %d differs on re-execution' % self.pos)
            val = d.val
            b = self._eqb(e, val)
            if self.pos >= self.pushed:
                self._push(b.z3())
        else:
            # all feasible values, by the solver
            vals = []
            ats = e.atoms
            if len(ats) == 1 and not self.multi and len(e.terms) == 1:
                # a variable constrained only by unary conditions: its domain is exact
                (t,) = ats
                vals = sorted({e.ev({t.name: v}) for v in self.domain(t)})
            else:
                m = self.path_model()
                v = e.ev(m)
                vals = [v]
                self.solver.push()
                z = e.z3()
                self.solver.add(z != v)
                while self.check():
                    mm = self.getmodel()
                    v = e.ev(mm)
                    vals.append(v)
                    self.solver.add(z != v)
                self.solver.pop()
                vals.sort()
            self.stats['decisions'] += 1
            if not vals:
                raise Prune()
            val = vals[0]
            self.decisions.append(Decision(k, val, vals[1:], None))
            b = self._eqb(e, val)
            self._push(b.z3())
        self.pos += 1
        self._learn(b)
        self.memo[mk] = val
        if len(e.terms) == 1 and e.terms:
            (t, a), = e.terms.values()
            if t.kind == 'atom':
                self.model[t.name] = (val - e.c) // a
        return val

    def _eqb(self, e, val):
        k = (e.key, val)
        b = self._eqc.get(k)
        if b is None:
            b = BoolExpr('eq', e.addc(-val))
            b.z3()
            if len(self._eqc) < 200000:
                self._eqc[k] = b
        return b

    def concretize(self, e):
        self.stats['concretisations'] += 1
        # concretise atom by atom when it is a plain atom; else the value only
        return self.choose_value(e, 'conc')

    def linearize(self, e):
        """replace mod/div terms by linear expressions, forking on their quotients"""
        for t, a in list(e.terms.values()):
            if t.kind == 'mod':
                arg = self.linearize(t.arg)
                q = self.choose_value(arg.floordiv(t.m), 'quot')
                new = arg.addc(-q * t.m)
            elif t.kind == 'div':
                arg = self.linearize(t.arg)
                r = self.choose_value(arg.mod(t.m), 'rem')
                new = arg.addc(-r)
                assert all(aa % t.m == 0 for _, aa in new.terms.values()) or True
                if all(aa % t.m == 0 for _, aa in new.terms.values()) and new.c % t.m == 0:
                    new = IntExpr(new.c // t.m, {k: (tt, aa // t.m) for k, (tt, aa) in new.terms.items()})
                else:
                    new = const(self.concretize(texpr(t)))
            elif t.kind == 'tab':
                new = const(self.concretize(texpr(t)))
            else:
                continue
            e = IntExpr(e.c, {k: v for k, v in e.terms.items() if v[0] is not t}).add(new.mulc(a))
        return e

    def assume(self, cond):
        if isinstance(cond, SymInt):
            cond = cond != 0
        if isinstance(cond, SymBool):
            v = cond.b.const_value()
            if v is None:
                # constrain without exploring the other side
                b = cond.b
                k = _khash(('assume', b.key))
                if self.pos >= len(self.decisions):
                    if not b.ev(self.path_model()):
                        if not self.check(b.z3()):
                            raise Prune()
                        self.model = self.getmodel()
                self._forced(('assume', b.key), b)
                self.memo[b.key] = True
                self.memo[b.negate().key] = False
                return
            cond = v
        if not cond:
            raise Prune()

    # -- tokens: symbolic integers travelling through text -------------------------------
    def token(self, si):
        for tok, v in self.tokens.items():
            if v.e.key == si.e.key:
                return tok
        # digits only, recognisable: 9000000000 + index
        tok = '77777%05d77777' % len(self.tokens)
        self.tokens[tok] = si
        return tok

    def fracstr(self, n, d):
        d = int(d)
        return str(n) if d == 1 else '%s/%s' % (n, d)

    # -- driver ---------------------------------------------------------------------------
    def backtrack(self, floor):
        """move to the next unexplored branch at or above `floor`; False when done"""
        del self.decisions[self.pos:]
        while len(self.decisions) > floor:
            d = self.decisions[-1]
            if d.alts:
                n = len(self.decisions) - 1
                self._pop_to(n)
                d.val = d.alts.pop(0)
                return True
            self.decisions.pop()
            self._pop_to(len(self.decisions))
        return False

    def frontier(self, floor):
        """unexplored branches as independent prefixes"""
        out = []
        base = [(d.key, d.val) for d in self.decisions]
        for i in range(floor, len(self.decisions)):
            d = self.decisions[i]
            for alt in d.alts:
                out.append(base[:i] + [(d.key, alt)])
        return out

    def load_prefix(self, prefix):
        self._pop_to(0)
        self.decisions = [Decision(k, v, [], None) for k, v in prefix]
        self.model_ok = 0

    def frontier_after_backtrack(self, floor):
        """all unexplored branches, including the one backtrack() just selected"""
        base = [(d.key, d.val) for d in self.decisions]
        out = [list(base)]
        for i in range(len(self.decisions) - 1, floor - 1, -1):
            for alt in self.decisions[i].alts:
                out.append(base[:i] + [(self.decisions[i].key, alt)])
        return out
