"""Matrix algebra over arrays of matrices."""
from .common import H, dimkey, el, ndindex, at

SIZES = dict(freq=2, rep=2, pow=3)


def _pool(D):
    return {'freq': D.DimSweep("freq", [1, 2]), 'rep': D.DimRep("rep", 2),
            'pow': D.DimSweep("pow", [1, 2, 3])}


def _mat(c, D, label, sweeps, m, n, kind='c'):
    p = _pool(D)
    dims = tuple(p[s] for s in sweeps) + (D.DimMatrix_i("i", m),
                                          D.DimMatrix_j("j", n))
    shape = tuple(SIZES[s] for s in sweeps)
    return D.hfarray(c.kinds(label, shape + (m, n), kind, holo=True),
                     dims=dims)


def _pos(A, R, idx):
    """prefix of A that belongs to prefix idx of R"""
    co = {dimkey(d): i for d, i in zip(R.dims, idx)}
    return tuple(0 if n == 1 else co[dimkey(d)]
                 for d, n in zip(A.dims[:-2], A.shape[:-2]))


def _frame(c, R, shape_ij, *args):
    want = {}
    for A in args:
        for d, n in zip(A.dims[:-2], A.shape[:-2]):
            want[dimkey(d)] = n
    got = {dimkey(d): n for d, n in zip(R.dims[:-2], R.shape[:-2])}
    c.same('sweeps of the result', got, want)
    c.same('matrix size', tuple(R.shape[-2:]), shape_ij)
    c.same('matrix dims last', [type(d).__name__ for d in R.dims[-2:]],
           ['DimMatrix_i', 'DimMatrix_j'])
    c.same('as many coordinates as points', [len(d.data) for d in R.dims],
           list(R.shape))


def _dot(u, v):
    s = u[0] * v[0]
    for p, q in zip(u[1:], v[1:]):
        s = s + p * q
    return s


SW = [((), ()), (('freq',), ('freq',)), (('freq',), ()), ((), ('freq',)),
      (('freq',), ('pow',)), (('rep',), ('freq',)),
      (('freq', 'rep'), ('rep',)), (('pow',), ('pow', 'freq'))]


def multiply(c, shapes, kinds):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    sa, sb = c.choice('sweeps', SW)
    m, k, n = c.choice('shape', shapes)
    ka, kb = c.choice('kinds', kinds)
    A, B = _mat(c, D, 'a', sa, m, k, ka), _mat(c, D, 'b', sb, k, n, kb)
    R = M.matrix_multiply(A, B)
    _frame(c, R, (m, n), A, B)
    for idx in ndindex(R.shape[:-2]):
        pa, pb = _pos(A, R, idx), _pos(B, R, idx)
        for i in range(m):
            for j in range(n):
                c.eq('matrix product', el(R, idx + (i, j)),
                     _dot([el(A, pa + (i, q)) for q in range(k)],
                          [el(B, pb + (q, j)) for q in range(k)]))


def inverse(c, ns):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    n = c.choice('n', ns)
    sw = c.choice('sweeps', [(), ('freq',)] if n < 3 else [()])
    A = _mat(c, D, 'a', sw, n, n)
    R = M.inv(A)
    _frame(c, R, (n, n), A)
    for p in ndindex(A.shape[:-2]):
        for i in range(n):
            for j in range(n):
                c.eq('A inv(A) = 1',
                     _dot([el(A, p + (i, q)) for q in range(n)],
                          [el(R, p + (q, j)) for q in range(n)]),
                     1 if i == j else 0)


def _det(m):
    if len(m) == 1:
        return m[0][0]
    s = None
    for j in range(len(m)):
        t = m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]])
        if j % 2:
            t = -t
        s = t if s is None else s + t
    return s


def determinant(c, ns):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    n = c.choice('n', ns)
    sw = c.choice('sweeps', [(), ('freq',), ('freq', 'rep')])
    A = _mat(c, D, 'a', sw, n, n)
    R = M.det(A)
    c.same('dims without the matrix', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims[:-2]])
    for p in ndindex(A.shape[:-2]):
        c.eq('determinant', el(R, p),
             _det([[el(A, p + (i, j)) for j in range(n)]
                   for i in range(n)]))


def solve(c, sweeps, ns, rhs=(1, 2), kind='c'):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    fn = c.choice('fn', ['solve_Ab', 'lstsq'])
    sa, sb = c.choice('sweeps', sweeps)
    n, k = c.choice('n', ns), c.choice('rhs', list(rhs))
    A = _mat(c, D, 'a', sa, n, n, kind)
    B = _mat(c, D, 'b', sb, n, k, kind)
    for p in ndindex(A.shape[:-2]):
        c.assume(_det([[el(A, p + (i, j)) for j in range(n)]
                       for i in range(n)]) != 0)
    if fn == 'solve_Ab':
        X = M.solve_Ab(A, B, squeeze=False)
    else:
        X = M.lstsq(A, B)
    _frame(c, X, (n, k), A, B)
    for idx in ndindex(X.shape[:-2]):
        pa, pb = _pos(A, X, idx), _pos(B, X, idx)
        for i in range(n):
            for j in range(k):
                c.eq('A x = b', _dot([el(A, pa + (i, q)) for q in range(n)],
                                     [el(X, idx + (q, j))
                                      for q in range(n)]),
                     el(B, pb + (i, j)))


def solve_squeeze(c):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    A, B = _mat(c, D, 'a', ('freq',), 2, 2), _mat(c, D, 'b', ('freq',), 2, 1)
    X = M.solve_Ab(A, B)
    c.same('the single column is dropped', [d.name for d in X.dims],
           ['freq', 'i'])
    for p in range(2):
        for i in range(2):
            c.eq('A x = b', _dot([el(A, (p, i, q)) for q in range(2)],
                                 [el(X, (p, q)) for q in range(2)]),
                 el(B, (p, i, 0)))


def make_matrix(c):
    """Four arrays become the elements of a 2x2 matrix, aligned by
    dimension; nothing is lost whatever their types."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    p = _pool(D)
    sws = [c.choice('sw', [('freq',), ('freq', 'rep')])]
    sws += [c.choice('sw%d' % q, [('freq',), ('rep',)]) for q in range(2)]
    sws += [('freq',)]
    ks = c.choice('kinds', ['cccc', 'ffff', 'fcff', 'iffi'])
    arrs = [D.hfarray(c.kinds('abcd'[q], tuple(SIZES[s] for s in sw), ks[q]),
                      dims=tuple(p[s] for s in sw))
            for q, sw in enumerate(sws)]
    R = M.make_matrix(*arrs)
    c.same('2x2', tuple(R.shape[-2:]), (2, 2))
    c.same('dims match', [len(d.data) for d in R.dims], list(R.shape))
    c.same('matrix dims', [type(d).__name__ for d in R.dims[-2:]],
           ['DimMatrix_i', 'DimMatrix_j'])
    c.same('sweeps', sorted(d.name for d in R.dims[:-2]),
           sorted(set(s for sw in sws for s in sw)))
    for idx in ndindex(R.shape):
        co = {dimkey(d): i for d, i in zip(R.dims, idx)}
        A = arrs[2 * idx[-2] + idx[-1]]
        c.eq('element', el(R, idx), at(A, co))


SW2 = SW[:6]


def overdetermined(c, m=3, n=2):
    """Least squares: the residual is orthogonal to the columns."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    sa, sb = c.choice('sweeps', [((), ()), (('freq',), ('freq',)),
                                 (('freq',), ()), ((), ('freq',))])
    A = _mat(c, D, 'a', sa, m, n, 'f')
    B = _mat(c, D, 'b', sb, m, 1, 'f')
    for p in ndindex(A.shape[:-2]):
        # full column rank
        c.assume(_det([[el(A, p + (i, j)) for j in range(n)]
                       for i in range(n)]) != 0)
    X = M.lstsq(A, B)
    _frame(c, X, (n, 1), A, B)
    for idx in ndindex(X.shape[:-2]):
        pa, pb = _pos(A, X, idx), _pos(B, X, idx)
        r = [_dot([el(A, pa + (i, q)) for q in range(n)],
                  [el(X, idx + (q, 0)) for q in range(n)]) -
             el(B, pb + (i, 0)) for i in range(m)]
        for j in range(n):
            s = [el(A, pa + (i, j)) for i in range(m)]
            c.eq('orthogonal residual', 1 + _dot(s, r), 1)


def sparse(c):
    """Larger matrices with three symbolic elements, over more points."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    n = c.choice('n', [4, 5, 6])
    nf = c.choice('nf', [1, 5])
    op = c.choice('op', ['multiply', 'inv', 'det', 'solve'])
    k = c.choice('row', [0, n - 1])
    f = D.DimSweep("freq", nf)
    i, j = D.DimMatrix_i("i", n), D.DimMatrix_j("j", n)

    def mk(label, s):
        z = c.np.array(c.carray(label, (nf, n, n), holo=True))
        for x in range(nf):
            for p in range(n):
                for q in range(n):
                    v = 0 if (p + 2 * q + s) % 3 else (p + q + s) % 5 + 1
                    if p == q:
                        v = v + 3 + x
                    if x != nf - 1 or p != k or q not in (k, n // 2):
                        z[x, p, q] = v
        return D.hfarray(z, dims=(f, i, j))
    A = mk('a', 0)
    row = lambda X, x, p: [el(X, (x, p, q)) for q in range(n)]
    col = lambda X, x, q: [el(X, (x, p, q)) for p in range(n)]
    if op == 'multiply':
        B = mk('b', 1)
        R = M.matrix_multiply(A, B)
        _frame(c, R, (n, n), A, B)
        want = lambda x, p, q: (el(R, (x, p, q)),
                                _dot(row(A, x, p), col(B, x, q)))
    elif op == 'inv':
        R = M.inv(A)
        _frame(c, R, (n, n), A)
        want = lambda x, p, q: (_dot(row(A, x, p), col(R, x, q)),
                                1 if p == q else 0)
    elif op == 'solve':
        B = mk('b', 1)
        R = M.solve_Ab(A, B, squeeze=False)
        _frame(c, R, (n, n), A, B)
        want = lambda x, p, q: (_dot(row(A, x, p), col(R, x, q)),
                                el(B, (x, p, q)))
    else:
        R = M.det(A)
        c.same('shape', tuple(R.shape), (nf,))
        for x in range(nf):
            c.eq('determinant', el(R, (x,)),
                 _det([row(A, x, p) for p in range(n)]))
        return
    for x in range(nf):
        for p in range(n):
            for q in range(n):
                g, w = want(x, p, q)
                c.eq(op, g, w)


HARNESSES = [
    H('sparse', sparse, '4-6 rows, 1-5 points, two symbolic elements'),
    H('multiply', lambda c: multiply(c, [(2, 2, 2), (1, 2, 3), (3, 3, 3),
                                          (2, 1, 2)],
                                      [('c', 'c'), ('f', 'c'), ('c', 'f'),
                                       ('f', 'f'), ('i', 'c')]),
      'up to 3x3, up to 2 sweeps'),
    H('inverse', lambda c: inverse(c, [1, 2, 3]), 'n <= 3'),
    H('determinant', lambda c: determinant(c, [1, 2, 3]), 'n <= 3'),
    H('solve', lambda c: solve(c, SW2[:5], [1, 2]), 'n <= 2'),
    H('overdetermined', overdetermined, '3x2 real'),
    H('solve3', lambda c: solve(c, SW2[:1], [3], (1,)), 'n = 3'),
    H('solve_sw', lambda c: solve(c, SW[5:], [2]), 'n = 2, 2 sweeps'),
    H('solve_squeeze', solve_squeeze, ''),
    H('make_matrix', make_matrix, 'sweeps of 2 points'),
]
ASSUMPTIONS = ["every matrix inverted is non-singular"]
