"""P15: linear algebra over GF(2)."""
import itertools
from symx.run import Harness
import pyzx as zx
from pyzx.linalg import Mat2, CNOTMaker

LEVEL = 'other'
EXPLANATION = ('The real matrix code runs on matrices whose entries are solver variables; every branch on an entry is decided by the solver, and the results are '
               'compared with the defining equations over GF(2), as formulas in the entries.')
ASSUMPTIONS = ['the optional compiled linalg_c module is not installed']
BUDGET = {'quick': 80, 'thorough': 900}


def mat(S, r, c, name='m'):
    return [[S.bit('%s%d_%d' % (name, i, j)) for j in range(c)] for i in range(r)]


def cp(d):
    return [list(r) for r in d]


def sparse(S, r, c, pat, k=7):
    """a larger matrix with k symbolic bits spread over its blocks"""
    if pat == 'id':
        d = [[int(j == (3 * i + 1) % c if r == c and c % 3 else i == j) for j in range(c)] for i in range(r)]
    else:
        d = [[int((i % 2 * 7 + j * 3 + i % 2 * j) % 5 < 2) for j in range(c)] for i in range(r)]
    for t in range(k):
        i, j = (2 * t + (t > 3)) % r, (5 * t + 1) % c
        d[i][j] = S.bit('w%d' % t)
    return d


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0) % 2 for j in range(len(b[0]))] for i in range(len(a))]


def eye(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def eq(S, a, b, msg):
    S.require(len(a) == len(b) and all(len(x) == len(y) for x, y in zip(a, b)), msg + ' (shape)')
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            d = (u - v) % 2
            S.require(d == 0, msg)


def conc(d):
    return [[int(x) for x in r] for r in d]


def rank_of(d):
    """independent rank of a concrete matrix: rows as bit masks"""
    basis = []
    for r in d:
        x = sum(v << i for i, v in enumerate(r))
        for b in basis:
            x = min(x, x ^ b)
        if x:
            basis.append(x)
    return len(basis)


def h_gauss(S, shapes, blocks, pats=None):
    r, c = S.choose('shape', shapes)
    d = mat(S, r, c) if pats is None else sparse(S, r, c, S.choose('pat', pats))
    full = S.flag('full')
    bs = S.choose('block', blocks)
    m = Mat2(cp(d))
    x, y = Mat2.id(r), Mat2.id(r)
    piv = []
    rank = m.gauss(full_reduce=full, x=x, y=y, blocksize=bs, pivot_cols=piv)
    e = conc(m.data)
    S.witness('full' if full else 'echelon')
    lead = [next((j for j in range(c) if row[j]), None) for row in e]
    Mat2(cp(e)).gauss(full_reduce=True)
    S.require(all(not v for v in Mat2.gauss.__defaults__ if isinstance(v, list)), 'a call leaves its pivots behind for the next call')
    S.require(all(l is not None for l in lead[:rank]) and all(l is None for l in lead[rank:]), 'number of nonzero rows')
    S.require(all(lead[i] < lead[i + 1] for i in range(rank - 1)), 'not in echelon form')
    S.require(piv == lead[:rank], 'pivot columns')
    if full:
        S.require(all(e[i][lead[k]] == (i == k) for k in range(rank) for i in range(r)), 'not fully reduced')
    eq(S, mul(x.data, d), e, 'x times the matrix is the echelon form')
    eq(S, mul(y.data, e), d, 'y times the echelon form is the matrix')
    eq(S, mul(y.data, x.data), eye(r), 'y is the inverse of x')


def h_solve(S, shapes, pats=None):
    """rank, inverse, factor, solve, nullspace"""
    r, c = S.choose('shape', shapes)
    op = S.choose('op', ('rank', 'inverse', 'factor', 'solve', 'null', 'null2'))
    d = mat(S, r, c) if pats is None else sparse(S, r, c, S.choose('pat', pats))
    m = Mat2(cp(d))
    S.witness(op)
    if op == 'rank':
        k = m.rank()
        S.require(k == rank_of(conc(d)), 'rank')
    elif op == 'inverse':
        i = m.inverse()
        k = rank_of(conc(d))
        S.require((i is None) == (k < r or r != c), 'inverse exists exactly for invertible matrices')
        if i is not None:
            eq(S, mul(i.data, d), eye(r), 'inverse')
            eq(S, mul(d, i.data), eye(r), 'inverse')
    elif op == 'factor':
        a, b = m.factor()
        k = rank_of(conc(d))
        S.require(a.cols() == (k if r else 0) and b.rows() == k, 'inner dimension is the rank')
        if k:
            eq(S, mul(a.data, b.data), d, 'factors')
        else:
            S.require(not any(any(x) for x in conc(d)), 'factors of the zero matrix')
    elif op == 'solve':
        b = mat(S, r, 1, 'b') if pats is None else [[S.bit('b%d' % i) if i < 3 else 0] for i in range(r)]
        x = m.solve(Mat2(cp(b)))
        dd, bb = conc(d), conc(b)
        if x is None:
            S.witness('unsolvable')
            S.require(rank_of([u + v for u, v in zip(dd, bb)]) > rank_of(dd), 'a solvable system has no solution')
        else:
            S.require(x.rows() == c, 'shape of the solution')
            eq(S, mul(d, x.data), b, 'solution')
    else:
        vs = m.nullspace(should_copy=op == 'null')
        k = rank_of(conc(d))
        S.require(len(vs) == c - k, 'dimension of the nullspace')
        S.require(rank_of(vs) == len(vs), 'the vectors are independent')
        for v in vs:
            eq(S, mul(d, [[t] for t in v]), [[0]] * r, 'vectors of the nullspace')
    if op != 'null2':
        eq(S, m.data, d, op + ' changed the matrix')


def apply_cnots(gates, n):
    """matrix of a CNOT circuit acting on bit vectors"""
    a = eye(n)
    for g in gates:
        assert type(g) is zx.circuit.gates.CNOT
        a[g.target] = [x ^ y for x, y in zip(a[g.target], a[g.control])]
    return a


def h_cnots(S, n, pats=None):
    d = mat(S, n, n) if pats is None else sparse(S, n, n, S.choose('pat', pats))
    opt = S.flag('opt')
    m = Mat2(cp(d))
    cn = m.to_cnots(optimize=opt, use_log_blocksize=S.flag('log') if not opt else False)
    eq(S, m.data, d, 'to_cnots changed the matrix')
    dd = conc(d)
    if rank_of(dd) < n:
        S.witness('singular')
        return
    S.witness('ok')
    a = apply_cnots(cn, n)
    eq(S, [[a[j][i] for j in range(n)] for i in range(n)], d, 'CNOT circuit of a matrix')
    w = cp(dd)
    for g in cn:
        w[g.control] = [x ^ y for x, y in zip(w[g.control], w[g.target])]
    eq(S, w, eye(n), 'row operations of the CNOTs')


def h_ops(S):
    """elementary operations against their definitions"""
    r, c = S.choose('shape', ((2, 3), (3, 2), (1, 2), (3, 3)))
    op = S.choose('op', ('row_add', 'col_add', 'row_swap', 'col_swap', 'permr', 'permc', 'transpose', 'copy', 'eq', 'mul'))
    if op == 'eq':
        S.assume((r, c) == (1, 2) or (r, c) == (2, 3))
        r = min(r, 2)
        c = 2
    d = mat(S, r, c)
    m = Mat2(cp(d))
    w = cp(d)
    S.witness(op)
    if op in ('row_add', 'row_swap'):
        i, j = S.choose('ij', [(i, j) for i in range(r) for j in range(r) if i != j] or [(0, 0)])
        S.assume(i != j)
        getattr(m, op)(i, j)
        if op == 'row_add':
            w[j] = [(x + y) % 2 for x, y in zip(w[i], w[j])]
        else:
            w[i], w[j] = w[j], w[i]
    elif op in ('col_add', 'col_swap'):
        i, j = S.choose('ij', [(i, j) for i in range(c) for j in range(c) if i != j])
        getattr(m, op)(i, j)
        for row in w:
            if op == 'col_add':
                row[j] = (row[i] + row[j]) % 2
            else:
                row[i], row[j] = row[j], row[i]
    elif op == 'permr':
        p = S.permutation('p', range(r))
        m.permute_rows(p)
        w = [w[i] for i in p]
    elif op == 'permc':
        p = S.permutation('p', range(c))
        m.permute_cols(p)
        w = [[row[i] for i in p] for row in w]
    elif op == 'transpose':
        t = m.transpose()
        eq(S, t.data, [[w[i][j] for i in range(r)] for j in range(c)], 'transpose')
        S.require((t.rows(), t.cols()) == (c, r), 'shape of the transpose')
    elif op == 'copy':
        t = m.copy()
        S.require(t == m, 'copy')
        if r > 1:
            t.row_add(0, 1)
        t.col_add(0, 1)
    elif op == 'eq':
        e = mat(S, r, c, 'e')
        res = m == Mat2(cp(e))
        S.require(bool(res) == (conc(d) == conc(e)), 'equality')
        S.require(not (m == Mat2([row[:-1] for row in cp(e)])), 'equality of shapes')
    else:
        k = S.choose('k', (1, 2))
        e = mat(S, c, k, 'e')
        eq(S, (m * Mat2(cp(e))).data, mul(d, e), 'product')
    eq(S, m.data, w, op)


def h_slices(S):
    """indexing agrees with lists"""
    r, c = 3, 3
    d = [[i * 3 + j for j in range(c)] for i in range(r)]
    V = (0, 1, -1, 2, slice(None), slice(1, None), slice(0, 2), slice(None, -1), slice(None, None, 2), slice(1, 1))
    a, b = S.choose('a', range(len(V))), S.choose('b', range(len(V)))
    rs, cs = V[a], V[b]
    m = Mat2(cp(d))
    got = m[rs, cs]
    ri = [rs % r] if isinstance(rs, int) else list(range(*rs.indices(r)))
    ci = [cs % c] if isinstance(cs, int) else list(range(*cs.indices(c)))
    S.witness('ok')
    if isinstance(rs, int) and isinstance(cs, int):
        S.require(got == d[rs][cs], 'element')
    else:
        S.require(isinstance(got, Mat2) and got.data == [[d[i][j] for j in ci] for i in ri], 'selected part of a matrix')
    val = [[100 + i * 10 + j for j in range(len(ci))] for i in range(len(ri))]
    if isinstance(rs, int) and isinstance(cs, int):
        m[rs, cs] = 100
    else:
        m[rs, cs] = Mat2(val)
    w = cp(d)
    for i, x in enumerate(ri):
        for j, y in enumerate(ci):
            w[x][y] = val[i][j]
    S.require(m.data == w, 'assigned part of a matrix')
    S.require(Mat2.unit_vector(3, 1).data == [[0], [1], [0]] and Mat2.zeros(2, 3).data == [[0] * 3] * 2 and Mat2.id(2).data == [[1, 0], [0, 1]], 'constants')


def harnesses(tier):
    T = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))
    small = ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2))
    add('gauss', h_gauss, 'Gaussian elimination', 'matrices up to 3x3 and 2x4, block sizes 1 to 6', wit=('full', 'echelon'), shapes=small, blocks=(1, 2, 3, 6))
    add('gauss4', h_gauss, 'Gaussian elimination', '3x4 matrices', wit=('full', 'echelon'), shapes=((3, 4), (4, 3)) if T else ((3, 4),), blocks=(3,))
    add('solve', h_solve, 'rank, inverse, factorisation, systems and nullspaces', 'matrices up to 3x3 and 2x4', wit=('rank', 'inverse', 'factor', 'solve', 'unsolvable', 'null'), shapes=small)
    for n in (1, 2, 3):
        add('cnots%d' % n, h_cnots, 'CNOT circuits of matrices', '%dx%d matrices' % (n, n), n=n, wit=('ok', 'singular'))
    add('gauss_wide', h_gauss, 'Gaussian elimination', '7 symbolic bits in matrices of 4x14, 7x13 and 14x3, block sizes 2 to 7', wit=('full', 'echelon'), shapes=((4, 14), (7, 13), (14, 3)), blocks=(2, 3, 6, 7), pats=('id', 'rep'))
    add('solve_wide', h_solve, 'rank, inverse, factorisation, systems and nullspaces', '7 symbolic bits in matrices of 4x9, 9x4 and 8x8', wit=('rank', 'inverse', 'factor', 'solve', 'null'), shapes=((4, 9), (9, 4), (8, 8)), pats=('id', 'rep'))
    add('cnots8', h_cnots, 'CNOT circuits of matrices', '7 symbolic bits in 8x8 matrices', n=8, pats=('id',), wit=('ok', 'singular'))
    add('ops', h_ops, 'elementary operations', 'matrices up to 3x3', wit=('row_add', 'col_add', 'permr', 'permc', 'mul', 'eq'))
    add('slices', h_slices, 'indexing', '10x10 indices and slices of a 3x3 matrix')
    if T:
        add('gauss44', h_gauss, 'Gaussian elimination', '4x4 and 3x5 matrices', wit=('full', 'echelon'), shapes=((4, 4), (3, 5)), blocks=(2, 3))
        add('solve4', h_solve, 'rank, inverse, factorisation, systems and nullspaces', '4x4 and 3x5 matrices', wit=('rank',), shapes=((4, 4), (3, 5)))
        add('cnots4', h_cnots, 'CNOT circuits of matrices', '4x4 matrices', n=4, wit=('ok', 'singular'))
    return H
