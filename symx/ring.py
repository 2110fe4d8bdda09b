"""Numbers of the ring Z[zeta][1/sqrt 2][characters of symbolic phases] that flow through the repository's own numeric code
(tensors as numpy object arrays), and the stand-ins for pi, exp and numpy constructors that create them."""
import cmath, math
import numpy as np
from . import engine as E
from . import amp as A

RES, M = A.RES, A.M
SQT = ((RES // 4, 1), (3 * RES // 4, -1))      # sqrt(2) as exponents of zeta


_cache = {}


def _rec(z):
    z = complex(z)
    r = _cache.get(z)
    if r is None:
        v = A.recognise(z)
        if v is None:
            raise A.NotRing('float %r' % z)
        vec, p2 = v
        r = ({(frozenset(), i): int(c) for i, c in enumerate(vec) if c}, p2)
        if len(_cache) < 100000:
            _cache[z] = r
    return r


class R:
    """sqrt(2)^p2 * sum of integer multiples of zeta^(e + atoms)"""
    __slots__ = ('t', 'p2')

    def __init__(self, t, p2=0):
        self.t, self.p2 = t, p2

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            return R({(frozenset(), 0): int(x)} if x else {}, 0)
        try:
            z = complex(x)
        except TypeError:
            return None
        t, p2 = _rec(z)
        return R(t, p2)

    @staticmethod
    def phase(p):
        c, at = A.lin(p)
        return R({}, 0)._acc(frozenset((t, k % M) for t, k in at.items() if k % M), c, 1)

    def _acc(self, a, e, n):
        e %= M
        if e >= RES:
            e -= RES
            n = -n
        k = (a, e)
        v = self.t.get(k, 0) + n
        if v:
            self.t[k] = v
        else:
            self.t.pop(k, None)
        return self

    def lower(self, p2):
        k = self.p2 - p2
        if k == 0:
            return self
        f = 1 << (k // 2)
        t = {key: v * f for key, v in self.t.items()}
        r = R(t, p2)
        if k % 2:
            o = R({}, p2)
            for (a, e), v in t.items():
                for s, c in SQT:
                    o._acc(a, e + s, c * v)
            r = o
        return r

    def __add__(self, o):
        o = R.of(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        p2 = min(self.p2, o.p2)
        a, b = self.lower(p2), o.lower(p2)
        r = R(dict(a.t), p2)
        for (k, e), v in b.t.items():
            r._acc(k, e, v)
        return r

    __radd__ = __add__

    def __neg__(self):
        return R({k: -v for k, v in self.t.items()}, self.p2)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = R.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = R.of(o)
        if o is None:
            return NotImplemented
        r = R({}, self.p2 + o.p2)
        for (a, e), v in self.t.items():
            for (b, f), w in o.t.items():
                if a and b:
                    d = dict(a)
                    for t, k in b:
                        k = (d.get(t, 0) + k) % M
                        if k:
                            d[t] = k
                        else:
                            d.pop(t, None)
                    c = frozenset(d.items())
                else:
                    c = a or b
                r._acc(c, e + f, v * w)
        return r

    __rmul__ = __mul__

    def inverse(self):
        if len(self.t) == 1:
            ((a, e), v), = self.t.items()
            k = abs(v)
            if k & (k - 1) == 0:
                s = 1 if v > 0 else -1
                return R({}, -self.p2 - 2 * (k.bit_length() - 1))._acc(frozenset((t, -x % M) for t, x in a), -e, s)
        return R.of(1 / complex(self))

    def __truediv__(self, o):
        if isinstance(o, R):
            return self * o.inverse()
        return self * (1 / complex(o))

    def __rtruediv__(self, o):
        return self.inverse() * o

    def __pow__(self, n):
        if not isinstance(n, (int, np.integer)):
            return complex(self) ** n
        if n < 0:
            return self.inverse() ** (-n)
        r = R.of(1)
        for _ in range(n):
            r = r * self
        return r

    def conjugate(self):
        r = R({}, self.p2)
        for (a, e), v in self.t.items():
            r._acc(frozenset((t, -k % M) for t, k in a), -e, v)
        return r

    conj = conjugate

    def atoms(self):
        return {t for a, e in self.t for t, k in a}

    def __complex__(self):
        m = {t: E.ENG.concretize(E.texpr(t)) for t in sorted(self.atoms(), key=lambda t: t.name)}
        z = 0
        for (a, e), v in self.t.items():
            z += v * cmath.exp(1j * math.pi / RES * (e + sum(k * m[t] for t, k in a)))
        return complex(z * math.sqrt(2) ** self.p2)

    def __abs__(self):
        return abs(complex(self))

    def __eq__(self, o):
        o = R.of(o)
        if o is None:
            return NotImplemented
        d = self - o
        if not d.t:
            return True
        return abs(complex(d)) < 1e-12

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return not self == 0

    @property
    def real(self):
        return (self + self.conjugate()) * 0.5

    @property
    def imag(self):
        return (self - self.conjugate()) * (-0.5j)

    def __float__(self):
        return complex(self).real


class Ang:
    """pi * phase (optionally times i)"""

    def __init__(self, p, i=0):
        self.p, self.i = p, i

    def __mul__(self, o):
        if isinstance(o, Ang):
            return NotImplemented
        z = complex(o)
        if z == 1j and self.i == 0:
            return Ang(self.p, 1)
        if z == -1j and self.i == 0:
            return Ang(-self.p, 1)
        if z.imag == 0:
            from fractions import Fraction
            return Ang(self.p * Fraction(z.real).limit_denominator(1024), self.i)
        return complex(self) * z

    __rmul__ = __mul__

    def __neg__(self):
        return Ang(-self.p, self.i)

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and abs(o - round(o)) < 1e-12:
            return Ang(self.p / int(round(o)), self.i)
        return self._num() / o

    def _num(self):
        x = math.pi * float(self.p)
        return 1j * x if self.i else x

    def __complex__(self):
        return complex(self._num())

    def __float__(self):
        return float(self._num())

    def __eq__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self.p == 0
        return self._num() == o

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return bool(self != 0)

    def __add__(self, o):
        if isinstance(o, Ang) and o.i == self.i:
            return Ang(self.p + o.p, self.i)
        return self._num() + (o._num() if isinstance(o, Ang) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __rpow__(self, base):
        # e**(i pi x) written as a power: evaluated at a chosen value of x
        return base ** self._num()

    def __pow__(self, n):
        return self._num() ** n

    def __abs__(self):
        return abs(self._num())

    __hash__ = None


class Pi(float):
    def __mul__(self, o):
        from fractions import Fraction
        if isinstance(o, Fraction) or type(o).__name__ in ('SymInt', 'SymPhase'):
            return Ang(o)
        return float.__mul__(self, o)

    def __rmul__(self, o):
        from fractions import Fraction
        if isinstance(o, Fraction) or type(o).__name__ in ('SymInt', 'SymPhase'):
            return Ang(o)
        if isinstance(o, complex) and o.real == 0 and o.imag in (1, -1):
            return ImPi(float(self), int(o.imag))
        return NotImplemented if isinstance(o, complex) else float.__mul__(self, o)


class ImPi(complex):
    """1j*pi or -1j*pi"""
    def __new__(cls, x, s):
        o = complex.__new__(cls, 0, s * x)
        return o

    def __init__(self, x, s):
        self.s = s

    def __mul__(self, o):
        from fractions import Fraction
        if isinstance(o, Fraction) or type(o).__name__ in ('SymInt', 'SymPhase'):
            return Ang(o if self.s > 0 else -o, 1)
        return complex(self) * o

    __rmul__ = __mul__


def exp(x):
    if isinstance(x, Ang) and x.i == 1:
        try:
            return R.phase(x.p)
        except A.NotRing:
            return cmath.exp(complex(x))
    if isinstance(x, Ang):
        return math.exp(float(x))
    return None


def _obj(a):
    return np.asarray(a).astype(object)


class NP:
    """numpy whose complex constructors make object arrays"""

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, shape, dtype=float, **kw):
        return _obj(np.zeros(shape, dtype, **kw))

    def ones(self, shape, dtype=float, **kw):
        return _obj(np.ones(shape, dtype, **kw))

    def identity(self, n, dtype=float, **kw):
        return _obj(np.identity(n))

    def eye(self, *a, **kw):
        return _obj(np.eye(*a, **kw))

    def array(self, x, dtype=None, **kw):
        if dtype is None:
            a = np.array(x, **kw)
            return a
        return _obj(np.array(x, dtype=object))

    def exp(self, x):
        r = exp(x)
        return np.exp(x) if r is None else r

    def abs(self, x):
        x = np.asarray(x)
        if x.dtype == object:
            return np.array([abs(complex(y)) for y in x.flat]).reshape(x.shape)
        return np.abs(x)

    absolute = abs

    def allclose(self, a, b, *r, **kw):
        return np.allclose(plain(a), plain(b), *r, **kw)


def plain(a):
    a = np.asarray(a)
    return np.array([complex(y) for y in a.flat], dtype=complex).reshape(a.shape) if a.dtype == object else a


class CMath:
    def __init__(self, mod):
        self.mod = mod

    def __getattr__(self, k):
        return getattr(self.mod, k)

    pi = Pi(math.pi)

    def exp(self, x):
        r = exp(x)
        return self.mod.exp(x) if r is None else r


def to_amp(arr):
    """object array -> Amp over its flattened entries"""
    rs = [R.of(x) for x in np.asarray(arr, dtype=object).flat]
    if any(r is None for r in rs):
        raise A.NotRing('not a number')
    p2 = min([r.p2 for r in rs if r.t], default=0)
    atoms = sorted({t for r in rs for t in r.atoms()}, key=lambda t: t.name)
    pos = {t.name: j for j, t in enumerate(atoms)}
    keys = {}
    rows = []
    for r in rs:
        if not r.t:
            rows.append({})
            continue
        r = r.lower(p2)
        rows.append(r.t)
        for a, e in r.t:
            keys.setdefault(a, len(keys))
    if not keys:
        keys[frozenset()] = 0
    K = np.zeros((len(keys), len(atoms)), dtype=np.int64)
    for a, i in keys.items():
        for t, k in a:
            K[i, pos[t.name]] = k
    C = np.zeros((len(rs), len(keys), RES), dtype=np.int64)
    for j, t in enumerate(rows):
        for (a, e), v in t.items():
            C[j, keys[a], e] += v
    return A.Amp(tuple(atoms), K, C, p2).collect()


def install():
    """make pyzx's tensor code compute with ring elements"""
    import pyzx.tensor as T
    import pyzx.graph.scalar as sc
    for mod in (T, sc):
        if hasattr(mod, 'np'):
            mod.np = NP()
        if hasattr(mod, 'pi'):
            mod.pi = Pi(math.pi)
        if hasattr(mod, 'math'):
            mod.math = CMath(math)
        if hasattr(mod, 'cmath'):
            mod.cmath = CMath(cmath)
    sc.cexp = _cexp(sc.cexp)


def _cexp(old):
    def cexp(val):
        try:
            return R.phase(val)
        except A.NotRing:
            return old(val)
    return cexp
