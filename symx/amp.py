"""Amplitude arrays: exact symbolic linear maps.

An Amp is an array over 2^n basis indices of polynomials

        sqrt(2)^p2 * sum_k  c_k * zeta^(sum_i a_ki x_i)      zeta = exp(i*pi/RES)

with c_k in Z[zeta] (integer vectors of length RES, zeta^RES = -1) and x_i the phase
atoms of the current path.  The functions zeta^(a.x) of unconstrained atoms are
characters of a finite abelian group, hence linearly independent: two polynomials are
equal for every value of the atoms iff their coefficients are.  Where the path condition
restricts atoms, the per-atom coset hull is substituted first and what is left is decided
by z3 (see obligations()).
"""
import cmath, math
import numpy as np
import z3
from . import engine as E

RES = E.RES
M = 2 * RES


class NotRing(Exception):
    pass


def lin(e):
    """phase-like value (Fraction, int, SymPhase, SymInt) -> (const, {atom: coef}) mod 2*RES"""
    if isinstance(e, E.SymBool):
        e = int(bool(e))
    x = E.SymPhase._o(e)
    if x is None:
        if isinstance(e, float):
            k = e * RES
            if abs(k - round(k)) < 1e-6:
                return (round(k) % M, {})
        raise NotRing('phase %r is not a multiple of pi/%d' % (e, RES))
    if x.is_const:
        return (x.c % M, {})
    r = x.linear(M)
    if r is None:
        if E.ENG is None:
            raise NotRing()
        x = E.ENG.linearize(x)
        r = x.linear(M)
    if E.ENG is not None and r[1]:
        c, at = r
        fixed = {}
        for t in at:
            d = E.ENG.domains.get(t.name)
            if d is not None and len(d) == 1:
                fixed[t] = d[0]
        if fixed:
            c = (c + sum(at[t] * v for t, v in fixed.items())) % M
            r = (c, {t: k for t, k in at.items() if t not in fixed})
    return r


def vec(c, n=1):
    v = np.zeros(RES, dtype=np.int64)
    c %= M
    if c >= RES:
        v[c - RES] -= n
    else:
        v[c] += n
    return v


def rot(v, c):
    """multiply (last axis) by zeta^c"""
    c %= M
    s = 1
    if c >= RES:
        c -= RES
        s = -1
    if c == 0:
        return v * s
    out = np.empty_like(v)
    out[..., c:] = v[..., :RES - c]
    out[..., :c] = -v[..., RES - c:]
    return out * s


def vmul(u, v):
    out = np.zeros(RES, dtype=np.int64)
    for i in np.nonzero(u)[0]:
        out += u[i] * rot(v, int(i))
    return out


SQ = vec(RES // 4) - vec(3 * RES // 4)   # sqrt(2)


def recognise(z, maxabs=64):
    """complex float -> (vector in Z[zeta_8] embedded, p2) or None"""
    z = complex(z)
    s2 = math.sqrt(2)
    if 0 < abs(z) < 1 / 64 and math.isfinite(abs(z)):  # exact multiples of a small power of two
        (a, m), (b, n) = z.real.as_integer_ratio(), z.imag.as_integer_ratio()
        k = max(m, n).bit_length() - 1
        if k <= 120 and abs(z) * 2 ** k <= 4096:
            return vec(0, a * (2 ** k // m)) + vec(RES // 2, b * (2 ** k // n)), -2 * k
    for k in range(0, 13):
        w = z * s2 ** k
        best = None
        parts = []
        for comp in (w.real, w.imag):
            hit = None
            for b in sorted(range(-12, 13), key=abs):
                a = comp - b * s2
                if abs(a) <= 4096 and abs(a - round(a)) < 1e-7:
                    hit = (round(a), b)
                    break
            if hit is None:
                break
            parts.append(hit)
        if len(parts) == 2:
            (a, b), (c, d) = parts
            v = vec(0, a) + vec(RES // 2, c) + b * SQ + d * rot(SQ, RES // 2)
            return v, -k
    return None


class Amp:
    """atoms: tuple of Term; keys: (K, len(atoms)) exponents mod M; coef: (N, K, RES)"""
    __slots__ = ('atoms', 'keys', 'coef', 'p2')

    def __init__(self, atoms, keys, coef, p2):
        self.atoms, self.keys, self.coef, self.p2 = atoms, keys, coef, p2

    @property
    def n(self):
        return self.coef.shape[0]

    @staticmethod
    def consts(vecs, p2=0):
        c = np.array(vecs, dtype=np.int64).reshape(len(vecs), 1, RES)
        return Amp((), np.zeros((1, 0), dtype=np.int64), c, p2)

    def with_atoms(self, atoms):
        if atoms == self.atoms:
            return self
        keys = np.zeros((self.keys.shape[0], len(atoms)), dtype=np.int64)
        for j, a in enumerate(self.atoms):
            keys[:, atoms.index(a)] = self.keys[:, j]
        return Amp(atoms, keys, self.coef, self.p2)

    def is_zero_poly(self):
        return not self.coef.any()

    def trim(self):
        nz = self.coef.any(axis=(0, 2))
        if nz.all():
            return self
        return Amp(self.atoms, self.keys[nz], self.coef[:, nz], self.p2)

    def collect(self):
        if self.keys.shape[0] <= 1:
            return self
        u, inv = np.unique(self.keys, axis=0, return_inverse=True)
        inv = inv.reshape(-1)
        c = np.zeros((self.n, u.shape[0], RES), dtype=np.int64)
        np.add.at(c, (slice(None), inv), self.coef)
        return Amp(self.atoms, u, c, self.p2).trim()

    def mul_phase(self, ph):
        c, at = lin(ph)
        a = self
        if at:
            atoms = merge_atoms(a.atoms, tuple(at))
            a = a.with_atoms(atoms)
            keys = a.keys.copy()
            for t, k in at.items():
                j = atoms.index(t)
                keys[:, j] = (keys[:, j] + k) % M
            a = Amp(atoms, keys, a.coef, a.p2)
        return Amp(a.atoms, a.keys, rot(a.coef, c), a.p2)

    def mul_vec(self, v):
        out = np.zeros_like(self.coef)
        for i in np.nonzero(v)[0]:
            out += int(v[i]) * rot(self.coef, int(i))
        return Amp(self.atoms, self.keys, out, self.p2)

    def mul_p2(self, k):
        return Amp(self.atoms, self.keys, self.coef, self.p2 + int(k))

    def mul_one_plus_phase(self, ph):
        b = self.mul_phase(ph)
        return add(self, b)

    def mul_complex(self, z):
        if z == 1:
            return self
        r = recognise(z)
        if r is None:
            raise NotRing('float factor %r' % (z,))
        return self.mul_vec(r[0]).mul_p2(r[1])

    def set_p2(self, p2):
        """same value with a lower global power"""
        k = self.p2 - p2
        assert k >= 0
        a = self
        if k >= 2:
            a = Amp(a.atoms, a.keys, a.coef * (1 << (k // 2)), a.p2)
        if k % 2:
            a = a.mul_vec(SQ)
        return Amp(a.atoms, a.keys, a.coef, p2)

    def numeric(self, model):
        """complex values under an assignment of the atoms"""
        z = np.exp(1j * np.pi / RES * np.arange(RES))
        out = np.zeros(self.n, dtype=complex)
        for k in range(self.keys.shape[0]):
            ex = sum(int(self.keys[k, j]) * model[t.name] for j, t in enumerate(self.atoms))
            out += (self.coef[:, k] @ z) * cmath.exp(1j * math.pi * (ex % M) / RES)
        return out * math.sqrt(2) ** self.p2


def merge_atoms(a, b):
    if a == b:
        return a
    s = {t.name: t for t in a}
    for t in b:
        s[t.name] = t
    return tuple(s[k] for k in sorted(s))


def add(a, b, sign=1):
    atoms = merge_atoms(a.atoms, b.atoms)
    p2 = min(a.p2, b.p2)
    a = a.with_atoms(atoms).set_p2(p2)
    b = b.with_atoms(atoms).set_p2(p2)
    keys = np.concatenate([a.keys, b.keys])
    coef = np.concatenate([a.coef, sign * b.coef], axis=1)
    return Amp(atoms, keys, coef, p2).collect()


def sum_over_paths(nv, signs, phases, p2, outs, masks=(), weights=(), maxbits=19):
    """sum over assignments of nv bits.

    Forms are affine over GF(2), as ints: bit 0 is the constant 1, bit i+1 is variable i.
    signs:  list of (form, form)           contributes (-1)^(f*g)
    phases: list of ([forms], lin)         contributes zeta^(lin * AND(forms)), lin = (const, {atom: coef})
    outs:   output forms, most significant first
    masks:  lists of forms of which exactly one must be 1
    weights: (form, integer)               factor when the form is 1
    Variables that occur only in sign terms are summed out symbolically first: a sum over y of
    (-1)^(y*L) is 2*[L = 0], which then eliminates a variable of L.
    """
    # quadratic part: adjacency over variables + linear part + constant
    adj = [0] * nv        # adj[i]: mask over variables (bit j)
    linear = 0            # mask over variables
    konst = 0

    def addprod(f, g):
        nonlocal linear, konst
        fc, gc = f & 1, g & 1
        f >>= 1
        g >>= 1
        if fc:
            linear ^= g
        if gc:
            linear ^= f
        konst ^= fc & gc
        i = 0
        ff = f
        while ff:
            if ff & 1:
                gg = g
                if gg >> i & 1:
                    linear ^= 1 << i
                    gg ^= 1 << i
                adj[i] ^= gg
                k = gg
                while k:
                    low = k & -k
                    adj[low.bit_length() - 1] ^= 1 << i
                    k ^= low
            ff >>= 1
            i += 1
    for f, g in signs:
        addprod(f, g)
    ph = []
    for fs, l in phases:
        c, at = l
        if c == 0 and not at:
            continue
        if any(f == 0 for f in fs):
            continue
        fs = list(dict.fromkeys(f for f in fs if f != 1))
        if c == RES and not at and len(fs) == 1:
            linear ^= fs[0] >> 1
            konst ^= fs[0] & 1
            continue
        if c == RES and not at and len(fs) == 2:
            addprod(fs[0], fs[1])
            continue
        ph.append((fs, l))
    outs = list(outs)
    masks = [list(m) for m in masks]
    weights = list(weights)
    alive = (1 << nv) - 1
    zero = False
    changed = True
    while changed and not zero:
        changed = False
        used = 0
        for fs, _ in ph:
            for f in fs:
                used |= f >> 1
        for f in outs:
            used |= f >> 1
        for m in masks:
            for f in m:
                used |= f >> 1
        for f, _ in weights:
            used |= f >> 1
        for y in range(nv):
            if not alive >> y & 1 or used >> y & 1:
                continue
            L = adj[y]
            c = linear >> y & 1
            alive ^= 1 << y
            # drop y
            k = L
            while k:
                low = k & -k
                adj[low.bit_length() - 1] ^= 1 << y
                k ^= low
            adj[y] = 0
            linear &= ~(1 << y)
            p2 += 2
            if L == 0:
                if c:
                    zero = True
            else:
                # z = (L without z) + c ; prefer a variable that is not an output
                z = None
                for cand in range(nv):
                    if L >> cand & 1:
                        z = cand
                        if not used >> cand & 1:
                            break
                rest = ((L ^ (1 << z)) << 1) | c
                zb = 1 << z
                nb = adj[z]
                lz = linear >> z & 1
                # remove z from the quadratic form, add rest * (nb + lz)
                k = nb
                while k:
                    low = k & -k
                    adj[low.bit_length() - 1] ^= zb
                    k ^= low
                adj[z] = 0
                linear &= ~zb
                alive &= ~zb
                addprod(rest, nb << 1)
                if lz:
                    linear ^= rest >> 1
                    konst ^= rest & 1
                zf = 2 << z
                sub = lambda f: (f ^ zf ^ rest) if f & zf else f
                ph = [([sub(f) for f in fs], l) for fs, l in ph]
                outs = [sub(f) for f in outs]
                masks = [[sub(f) for f in m] for m in masks]
                weights = [(sub(f), w) for f, w in weights]
            changed = True
            break
    vs = [i for i in range(nv) if alive >> i & 1]
    if zero:
        return Amp((), np.zeros((1, 0), dtype=np.int64), np.zeros((1 << len(outs), 1, RES), dtype=np.int64), 0)
    if len(vs) > maxbits:
        raise NotRing('path sum over %d bits' % len(vs))
    ar = np.arange(1 << len(vs))
    col = {v: ((ar >> k) & 1).astype(np.int64) for k, v in enumerate(vs)}
    cache = {}

    def column(f):
        r = cache.get(f)
        if r is None:
            r = np.full(len(ar), f & 1, dtype=np.int64)
            g = f >> 1
            while g:
                low = g & -g
                r = r ^ col[low.bit_length() - 1]
                g ^= low
            cache[f] = r
        return r
    if masks:
        sel = np.ones(len(ar), dtype=bool)
        for m in masks:
            sel &= (sum(column(f) for f in m) == 1) if m else False
        ar = ar[sel]
        col = {v: c[sel] for v, c in col.items()}
        cache = {}
    q = np.full(len(ar), konst, dtype=np.int64)
    for i in vs:
        up = adj[i] >> (i + 1) << (i + 1)
        f = (up << 1) | (linear >> i & 1)
        if f:
            q = q + col[i] * column(f)
    cexp = RES * q
    aexp = {}
    for fs, (c, at) in ph:
        m = None
        for f in fs:
            x = column(f)
            m = x if m is None else m * x
        if m is None:
            m = np.ones(len(ar), dtype=np.int64)
        if c:
            cexp = cexp + c * m
        for t, k in at.items():
            aexp[t] = aexp[t] + k * m if t in aexp else k * m
    w = None
    for f, x in weights:
        y = np.where(column(f) == 1, x, 1)
        w = y if w is None else w * y
    out = np.zeros(len(ar), dtype=np.int64)
    for f in outs:
        out = out * 2 + column(f)
    return _gather(len(outs), out, cexp, aexp, w, p2)


def _gather(nout, out, cexp, aexp, w, p2):
    atoms = tuple(sorted(aexp, key=lambda t: t.name))
    if len(atoms) > 12:
        raise NotRing('too many atoms')
    cexp = cexp % M
    key = np.zeros(len(out), dtype=np.int64)
    for t in atoms:
        key = key * M + aexp[t] % M
    if atoms:
        u, inv = np.unique(key, return_inverse=True)
        inv = inv.reshape(-1)
    else:
        u, inv = np.zeros(1, dtype=np.int64), key
    coef = np.zeros((1 << nout, len(u), RES), dtype=np.int64)
    sgn = np.where(cexp >= RES, -1, 1)
    np.add.at(coef, (out, inv, cexp % RES), sgn if w is None else sgn * w)
    keys = np.zeros((len(u), len(atoms)), dtype=np.int64)
    for j in range(len(atoms) - 1, -1, -1):
        keys[:, j] = u % M
        u = u // M
    return Amp(atoms, keys, coef, p2).trim()


# ----------------------------------------------------------------------------------
# normalisation under per-atom coset hulls, and z3 obligations
# ----------------------------------------------------------------------------------

def coset_hull(vals, lo, hi):
    """smallest {v0 + s*y} containing vals; s divides the full span when the domain is cyclic"""
    v0 = vals[0]
    s = 0
    for v in vals[1:]:
        s = math.gcd(s, v - v0)
    return v0, s


def reduce_domains(a, dom):
    """substitute the per-atom hulls; exact for values in the hull"""
    if not a.atoms:
        return a
    keys = a.keys.copy()
    coef = a.coef.copy()
    for j, t in enumerate(a.atoms):
        vals = dom(t)
        v0, s = coset_hull(vals, t.lo, t.hi)
        ks = keys[:, j]
        for i in range(len(ks)):
            k = int(ks[i])
            if not k:
                continue
            # zeta^(k*(v0+s*y)) = zeta^(k*v0) * zeta^(k*s*y);  y ranges over integers 0..ymax
            if s == 0:
                coef[:, i] = rot(coef[:, i], k * v0)
                keys[i, j] = 0
            else:
                # canonical exponent: k modulo M/gcd(s, M) represents the same character in y
                per = M // math.gcd(s, M)
                k2 = k % per
                # zeta^(k v) = zeta^(k2 v) * zeta^((k-k2) v), and (k-k2)*(v-v0) = 0 mod M
                coef[:, i] = rot(coef[:, i], (k - k2) * v0)
                keys[i, j] = k2
    r = Amp(a.atoms, keys, coef, a.p2).collect().trim()
    used = [j for j in range(len(r.atoms)) if r.keys[:, j].any()]
    if len(used) < len(r.atoms):
        r = Amp(tuple(r.atoms[j] for j in used), r.keys[:, used], r.coef, r.p2).collect()
    return r


def poly_z3(a, idx, g):
    """coordinates of entry idx as a list of BitVec terms (RES/g of them)"""
    R = RES // g
    m = 2 * R
    coords = [[] for _ in range(R)]
    nb = m.bit_length() - 1
    for k in range(a.keys.shape[0]):
        v = a.coef[idx, k]
        if not v.any():
            continue
        vr = v[::g]
        ex = None
        for j, t in enumerate(a.atoms):
            c = int(a.keys[k, j]) // g
            if c % m:
                z = E.z3term(t) * z3.BitVecVal(c, E.W)
                ex = z if ex is None else ex + z
        if ex is None:
            for r in range(R):
                if vr[r]:
                    coords[r].append(z3.BitVecVal(int(vr[r]), E.W))
            continue
        ex = ex & z3.BitVecVal(m - 1, E.W)
        for r in range(R):
            # coefficient of zeta^r in sum_j vr[j] zeta^(j+t):  t = r-j or r-j+R (mod m)
            byval = {}
            for t in range(m):
                s = 0
                j = (r - t) % m
                if j < R:
                    s = int(vr[j])
                else:
                    s = -int(vr[j - R])
                byval.setdefault(s, []).append(t)
            items = sorted(byval.items(), key=lambda kv: len(kv[1]))
            e = z3.BitVecVal(items[-1][0], E.W)
            for s, ts in items[:-1]:
                e = z3.If(z3.Or([ex == z3.BitVecVal(t, E.W) for t in ts]) if len(ts) > 1 else ex == z3.BitVecVal(ts[0], E.W),
                          z3.BitVecVal(s, E.W), e)
            coords[r].append(e)
    return coords


def gcd_grid(*amps):
    g = RES
    for a in amps:
        for j in np.nonzero(a.coef.any(axis=(0, 1)))[0]:
            g = math.gcd(g, int(j))
        for k in np.unique(a.keys):
            g = math.gcd(g, int(k))
    return g


def nonzero_z3(a):
    """z3 formula: some entry of the array is non-zero"""
    a = a.collect()
    g = gcd_grid(a)
    seen = set()
    ors = []
    for i in range(a.n):
        h = a.coef[i].tobytes()
        if h in seen or not a.coef[i].any():
            continue
        seen.add(h)
        if (-a.coef[i]).tobytes() in seen and (-a.coef[i]).tobytes() != h:
            continue
        for cs in poly_z3(a, i, g):
            if cs:
                s = cs[0]
                for c in cs[1:]:
                    s = s + c
                ors.append(s != z3.BitVecVal(0, E.W))
    return z3.Or(ors) if ors else z3.BoolVal(False)


def differ_z3(a, b):
    """z3 formula built from both sides separately (no cancellation done by us)"""
    p2 = min(a.p2, b.p2)
    a, b = a.set_p2(p2), b.set_p2(p2)
    g = gcd_grid(a, b)
    seen = set()
    ors = []
    zero = z3.BitVecVal(0, E.W)

    def tot(cs):
        if not cs:
            return zero
        s = cs[0]
        for c in cs[1:]:
            s = s + c
        return s
    for i in range(a.n):
        h = (a.coef[i].tobytes(), b.coef[i].tobytes())
        if h in seen or not (a.coef[i].any() or b.coef[i].any()):
            continue
        seen.add(h)
        for ca, cb in zip(poly_z3(a, i, g), poly_z3(b, i, g)):
            if ca or cb:
                ors.append(tot(ca) != tot(cb))
    return z3.Or(ors) if ors else z3.BoolVal(False)


def pmul(atoms, pa, pb):
    """product of two single polynomials given as (keys, coef) -> dict key tuple -> vec"""
    out = {}
    for ka, ca in pa:
        for kb, cb in pb:
            k = tuple((x + y) % M for x, y in zip(ka, kb))
            v = vmul(ca, cb)
            if k in out:
                out[k] = out[k] + v
            else:
                out[k] = v
    return out


def entry(a, i):
    return [(tuple(int(x) for x in a.keys[k]), a.coef[i, k]) for k in range(a.keys.shape[0]) if a.coef[i, k].any()]


def unit_multiple(a, b):
    """True when b = a * sqrt(2)^k * zeta^(c + linear) is recognised (a, b normalised); None = don't know"""
    atoms = merge_atoms(a.atoms, b.atoms)
    a, b = a.with_atoms(atoms).collect(), b.with_atoms(atoms).collect()
    if a.n != b.n or a.keys.shape[0] != b.keys.shape[0] or not a.coef.any() or not b.coef.any():
        return None
    i = int(np.argmax(a.coef.any(axis=(1, 2))))
    ea, eb = entry(a, i), entry(b, i)
    if len(ea) != len(eb):
        return None
    p2 = min(a.p2, b.p2)
    k0, c0 = ea[0]
    na = int((c0 ** 2).sum())
    for k1, c1 in eb:
        # ratio c1/c0 must be zeta^m * sqrt(2)^k
        nb = int((c1 ** 2).sum())
        z = np.exp(1j * np.pi / RES * np.arange(RES))
        za, zb = complex(c0 @ z), complex(c1 @ z)
        if abs(za) < 1e-9 or abs(zb) < 1e-9:
            continue
        r = zb / za
        k = round(2 * math.log2(abs(r)))
        if abs(abs(r) - 2 ** (k / 2)) > 1e-6 * abs(r):
            continue
        m = round(cmath.phase(r) * RES / math.pi) % M
        keys = (a.keys + (np.array(k1, dtype=np.int64) - np.array(k0, dtype=np.int64))) % M if atoms else a.keys
        c = Amp(atoms, keys, rot(a.coef, m), 0)
        bb = Amp(atoms, b.keys, b.coef, 0)
        try:
            d = add(c.mul_p2(k), bb, -1)
        except (AssertionError, OverflowError):
            continue
        if d.is_zero_poly():
            return True
    return None


def cross(a, b, limit=None):
    """Amp of all A_i*B_j - A_j*B_i (i<j, deduplicated): zero iff A and B are proportional (or one is 0)"""
    atoms = merge_atoms(a.atoms, b.atoms)
    a, b = a.with_atoms(atoms).collect(), b.with_atoms(atoms).collect()
    # distinct (A_i, B_i) pairs only
    reps, seen = [], set()
    for i in range(a.n):
        h = (a.coef[i].tobytes(), b.coef[i].tobytes())
        if h not in seen and (a.coef[i].any() or b.coef[i].any()):
            seen.add(h)
            reps.append(i)
    ea = {i: entry(a, i) for i in reps}
    eb = {i: entry(b, i) for i in reps}
    keyidx, rows = {}, []
    # with an entry of one side that can never vanish, comparing against that entry is enough
    piv = [i for i in reps if len(ea[i]) == 1 or len(eb[i]) == 1]
    if piv:
        p = min(piv, key=lambda i: len(ea[i]) + len(eb[i]))
        pairs = [(p, j) for j in reps if j != p]
    else:
        pairs = [(i, j) for x, i in enumerate(reps) for j in reps[x + 1:]]
    if limit is not None and sum(len(ea[i]) * len(eb[j]) + len(ea[j]) * len(eb[i]) for i, j in pairs) > limit:
        return None
    for i, j in pairs:
        if True:
            p = pmul(atoms, ea[i], eb[j])
            for k, v in pmul(atoms, ea[j], eb[i]).items():
                p[k] = p[k] - v if k in p else -v
            p = {k: v for k, v in p.items() if v.any()}
            if p:
                rows.append(p)
                for k in p:
                    keyidx.setdefault(k, len(keyidx))
    if not rows:
        return Amp((), np.zeros((1, 0), dtype=np.int64), np.zeros((1, 1, RES), dtype=np.int64), 0)
    coef = np.zeros((len(rows), len(keyidx), RES), dtype=np.int64)
    for r, p in enumerate(rows):
        for k, v in p.items():
            coef[r, keyidx[k]] = v
    keys = np.array(list(keyidx), dtype=np.int64).reshape(len(keyidx), len(atoms))
    return Amp(atoms, keys, coef, 0)
