"""Cascading and de-embedding networks obeys the physics of connection."""
from .common import H, dimkey, el, ndindex, at
from .P05 import TWO, _mk, _rows, _consistent


def _at(A, names, coord):
    """2x2 rows of A at the sweep coordinates (broadcasting)."""
    full = []
    for d, n in zip(A.dims[:-2], A.shape[:-2]):
        full.append(0 if n == 1 else coord[d.name])
    return _rows(A, tuple(full), 2)


def _chain(c, Ms, tag):
    """Waves at the outer ports of the cascade of S-matrices Ms for free
    outgoing/incoming waves on the right: a1, b1, a2, b2."""
    a2, b2 = c.cplx('a2' + tag, holo=True), c.cplx('b2' + tag, holo=True)
    o, i = b2, a2       # wave leaving to the right / entering from right
    for S in reversed(Ms):
        a1 = (o - S[1][1] * i) / S[1][0]
        b1 = S[0][0] * a1 + S[0][1] * i
        o, i = a1, b1
    return o, i, a2, b2


def _check_chain(c, Ms, R, label, tag=''):
    a1, b1, a2, b2 = _chain(c, Ms, tag)
    c.eq(label + ' (left port)', b1, R[0][0] * a1 + R[0][1] * a2)
    c.eq(label + ' (right port)', b2, R[1][0] * a1 + R[1][1] * a2)


def _nz(c, *arrs):
    for A in arrs:
        for i in ndindex(A.shape[:-2]):
            c.assume(el(A, i + (1, 0)) != 0)
            c.assume(el(A, i + (0, 1)) != 0)


def _mkS(c, D, label, sweeps, n=2, kind='c'):
    """S data over the named sweeps"""
    pool = {'freq': D.DimSweep("freq", [1, 2]), 'rep': D.DimRep("rep", 2),
            'pow': D.DimSweep("pow", [0, 5])}
    dims = tuple(pool[s] for s in sweeps) + (D.DimMatrix_i("i", n),
                                             D.DimMatrix_j("j", n))
    return D.hfarray(c.kinds(label, (2,) * len(sweeps) + (n, n), kind,
                             holo=True), dims=dims)


SW = [((), ()), (('freq',), ('freq',)), (('freq',), ()), ((), ('freq',)),
      (('freq',), ('rep',)), (('rep',), ('freq',)),
      (('freq', 'rep'), ('rep',)), (('rep', 'freq'), ('freq',))]


def _frame(c, R, *args):
    want = []
    for A in args:
        for d in A.dims:
            if dimkey(d) not in want:
                want.append(dimkey(d))
    c.same('dimensions of the result', sorted(dimkey(d) for d in R.dims),
           sorted(want))
    c.same('matrix last', [d.name for d in R.dims[-2:]], ['i', 'j'])
    sw = [d.name for d in R.dims[:-2]]
    c.same('full size', tuple(R.shape), (2,) * R.ndim)
    return [dict(zip(sw, i)) for i in ndindex(R.shape[:-2])]


def cascade(c, sweeps, srcs=('SArray',)):
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    sa, sb = c.choice('sweeps', sweeps)
    ka, kb = c.choice('A', list(srcs)), c.choice('B', list(srcs))
    A0 = MP.SArray(_mkS(c, D, 'a', sa))
    B0 = MP.SArray(_mkS(c, D, 'b', sb))
    _nz(c, A0, B0)
    A, B = getattr(MP, ka)(A0), getattr(MP, kb)(B0)
    R = A.cascade(B)
    c.same('class of the first operand', type(R).__name__, ka)
    S = MP.SArray(R)
    for k, co in enumerate(_frame(c, S, A0, B0)):
        _check_chain(c, [_at(A0, sa, co), _at(B0, sb, co)],
                     _rows(S, tuple(co[d.name] for d in S.dims[:-2]), 2),
                     'cascade', '_%d' % k)


def cascade_many(c):
    SP = c.mod('hftools.networks.spar_functions')
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    n = c.choice('n', [2, 3])
    Ss = [MP.SArray(_mkS(c, D, 'abc'[k], ())) for k in range(n)]
    _nz(c, *Ss)
    R = SP.cascadeS(*Ss)
    _check_chain(c, [_rows(S, (), 2) for S in Ss], _rows(R, (), 2),
                 'cascade of several')


def cascade_long(c):
    """Longer chains; one or two of the networks are symbolic."""
    SP = c.mod('hftools.networks.spar_functions')
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    n = c.choice('n', [4, 5, 7])
    free = c.choice('free', [0, 1, n // 2, n - 1])
    dims = (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
    Ss = []
    for k in range(n):
        if k == free:
            Ss.append(MP.SArray(_mkS(c, D, 'a', ())))
        else:
            Ss.append(MP.SArray(D.hfarray(c.np.array(
                [[(k + 1) / 8., 0.5 + k / 4.],
                 [0.75 - k / 2.0, -(k + 2) / 16.]]) + 0j, dims=dims)))
    _nz(c, Ss[free])
    R = SP.cascadeS(*Ss)
    _check_chain(c, [_rows(S, (), 2) for S in Ss], _rows(R, (), 2),
                 'cascade of several')


def cascade_sweep(c):
    """More points and dimensions: the points stay apart."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    n = {'freq': c.choice('nf', [5, 9]), 'rep': 3, 'pow': 2}
    sa, sb = c.choice('sweeps', [
        (('freq',), ('freq',)), (('rep', 'freq'), ('freq',)),
        (('freq',), ('rep',)), (('freq', 'pow'), ('pow', 'freq')),
        (('pow', 'rep', 'freq'), ('rep',))])
    pool = {k: (D.DimRep if k == 'rep' else D.DimSweep)(k, n[k]) for k in n}
    pt = [n[k] - 1 for k in sa]        # the last point is symbolic

    def mk(label, sw, seed):
        sh = tuple(n[k] for k in sw)
        a = c.np.array(c.carray(label, sh + (2, 2), holo=True))
        for k, p in enumerate(ndindex(sh)):
            if any(x != n[m] - 1 for x, m in zip(p, sw)):
                a[p + (0, 0)] = (k % 7 + seed) / 16.
                a[p + (0, 1)] = (k % 5 + 2 + seed) / 8.
                a[p + (1, 0)] = (k % 3 + 1 + seed) / 4.
                a[p + (1, 1)] = -(k % 4 + seed) / 16.
        return MP.SArray(D.hfarray(a, dims=tuple(pool[k] for k in sw) +
                                   (D.DimMatrix_i("i", 2),
                                    D.DimMatrix_j("j", 2))))
    A, B = mk('a', sa, 1), mk('b', sb, 2)
    for X in (A, B):
        last = tuple(k - 1 for k in X.shape[:-2])
        c.assume(el(X, last + (1, 0)) != 0)
        c.assume(el(X, last + (0, 1)) != 0)
    R = A.cascade(B)
    got = {d.name: k for d, k in zip(R.dims[:-2], R.shape[:-2])}
    c.same('sweeps', got, {k: n[k] for k in set(sa) | set(sb)})
    c.same('matrix last', [d.name for d in R.dims[-2:]], ['i', 'j'])
    for q in ndindex(R.shape[:-2]):
        co = dict(zip([d.name for d in R.dims], q))
        a = _rows(A, tuple(co[d.name] for d in A.dims[:-2]), 2)
        b = _rows(B, tuple(co[d.name] for d in B.dims[:-2]), 2)
        r = _rows(R, q, 2)
        d = 1 - a[1][1] * b[0][0]
        c.eq('s11', r[0][0] * d, a[0][0] * d + a[0][1] * a[1][0] * b[0][0])
        c.eq('s21', r[1][0] * d, a[1][0] * b[1][0])
        c.eq('s12', r[0][1] * d, a[0][1] * b[0][1])
        c.eq('s22', r[1][1] * d, b[1][1] * d + b[0][1] * b[1][0] * a[1][1])


def thru(c):
    """A zero-length line changes nothing, on either side."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    A = MP.SArray(_mkS(c, D, 'a', c.choice('sw', [(), ('freq',)])))
    U = MP.unit_smatrix()
    side = c.choice('side', ['left', 'right'])
    R = A.cascade(U) if side == 'right' else U.cascade(A)
    for i in ndindex(A.shape):
        c.eq('unchanged', el(R, i), el(A, i))


def mixed_kind(c):
    """A real-valued network cascaded with a complex-valued one."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('kinds', [('f', 'c'), ('c', 'f'), ('f', 'f')])
    A = MP.SArray(_mkS(c, D, 'a', (), kind=ka))
    B = D.hfarray(c.kinds('b', (2, 2), kb),
                  dims=(D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2)))
    B = MP.SArray(B)
    op = c.choice('op', ['cascade', 'left', 'right'])
    a, b = _rows(A, (), 2), _rows(B, (), 2)
    c.assume(1 - a[1][1] * b[0][0] != 0)
    if op == 'cascade':
        R = _rows(A.cascade(B), (), 2)
        d = 1 - a[1][1] * b[0][0]
        c.eq('s11', R[0][0] * d, a[0][0] * d + a[0][1] * a[1][0] * b[0][0])
        c.eq('s21', R[1][0] * d, a[1][0] * b[1][0])
        c.eq('s12', R[0][1] * d, a[0][1] * b[0][1])
        c.eq('s22', R[1][1] * d, b[1][1] * d + b[0][1] * b[1][0] * a[1][1])
    elif op == 'left':
        X = A.deembed(left=B)
        _same(c, B.cascade(X), A)
    else:
        X = A.deembed(right=B)
        _same(c, X.cascade(B), A)


def _same(c, X, Y):
    for i in ndindex(X.shape):
        c.eq('same network', el(X, i), el(Y, i))


def deembed(c, sweeps, srcs=('SArray',)):
    """Connecting and then removing a network gives back the original."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    sa, sb = c.choice('sweeps', sweeps)
    k = c.choice('X', list(srcs))
    mode = c.choice('mode', ['left', 'right', 'both', 'none'])
    X0 = MP.SArray(_mkS(c, D, 'x', sa))
    L0 = MP.SArray(_mkS(c, D, 'l', sb))
    R0 = MP.SArray(_mkS(c, D, 'r', ()))
    _nz(c, X0, L0, R0)
    L, R = getattr(MP, k)(L0), getattr(MP, k)(R0)
    X = getattr(MP, k)(X0)
    if mode == 'none':
        Q = X.deembed()
    elif mode == 'left':
        Q = X.deembed(left=L)
    elif mode == 'right':
        Q = X.deembed(right=L)
    else:
        Q = X.deembed(L, R)
    c.same('class kept', type(Q).__name__, k)
    S = MP.SArray(Q)
    args = (X0,) if mode == 'none' else (X0, L0)
    for n, co in enumerate(_frame(c, S, *args)):
        q = _rows(S, tuple(co[d.name] for d in S.dims[:-2]), 2)
        ch = [q]
        if mode in ('left', 'both'):
            ch = [_at(L0, sb, co)] + ch
        if mode == 'right':
            ch = ch + [_at(L0, sb, co)]
        if mode == 'both':
            ch = ch + [_rows(R0, (), 2)]
        # connecting again gives X
        c.assume(q[1][0] != 0)
        _check_chain(c, ch, _at(X0, sa, co), 'reconnected', '_%d' % n)


def reference(c):
    """Networks referred to different impedances connect correctly."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    za, zb = c.choice('za', [50, 75]), c.choice('zb', [50, 75, 10])
    A0, B0 = _mkS(c, D, 'a', ()), _mkS(c, D, 'b', ())
    A, B = MP.SArray(A0, Z0=za), MP.SArray(B0, Z0=zb)
    A50, B50 = MP.SArray(MP.ZArray(A)), MP.SArray(MP.ZArray(B))
    R = MP.ZArray(A.cascade(B))
    W = MP.ZArray(A50.cascade(B50))
    for i in ndindex(R.shape):
        c.eq('same network', el(R, i), el(W, i))
    how = c.choice('deembed', ['left', 'right', 'both']
                   if za == 50 or zb == 50 else ['left', 'right'])
    if how == 'both':
        C = MP.SArray(D.hfarray(c.np.array([[.25, .5], [.5, -.125]]),
                                dims=A0.dims), Z0=zb)
        C50 = MP.SArray(MP.ZArray(C))
        kw, kw50 = dict(left=B, right=C), dict(left=B50, right=C50)
    else:
        kw, kw50 = {how: B}, {how: B50}
    X = MP.ZArray(A.deembed(**kw))
    W = MP.ZArray(A50.deembed(**kw50))
    for i in ndindex(X.shape):
        c.eq('same network', el(X, i), el(W, i))


def switch(c):
    """Switch correction: Sm a = b for the returned Sm."""
    SP = c.mod('hftools.networks.spar_functions')
    D = c.mod('hftools.dataset')
    sw = c.choice('sw', [(), ('freq',)])
    a, b = _mkS(c, D, 'a', sw), _mkS(c, D, 'b', sw)
    R = SP.switch_correct(b, a)
    for pre in ndindex(R.shape[:-2]):
        A, B, S = _rows(a, pre, 2), _rows(b, pre, 2), _rows(R, pre, 2)
        for i in range(2):
            for j in range(2):
                c.eq('b = S a', B[i][j], S[i][0] * A[0][j] +
                     S[i][1] * A[1][j])


HARNESSES = [
    H('cascade', lambda c: cascade(c, SW), 'S, up to 2 sweeps of 2 points'),
    H('cascade_cls', lambda c: cascade(c, SW[:1], TWO),
      'all 64 pairs of representations'),
    H('cascade_many', cascade_many, '2-3 networks'),
    H('cascade_long', cascade_long, '4-7 networks, one of them symbolic'),
    H('cascade_sweep', cascade_sweep, 'up to 9 x 3 x 2 points, the last '
      'symbolic'),
    H('thru', thru, ''),
    H('mixed_kind', mixed_kind, 'real/complex data'),
    H('deembed', lambda c: deembed(c, SW), 'S, up to 2 sweeps'),
    H('deembed_cls', lambda c: deembed(c, SW[:1], TWO),
      'every representation'),
    H('reference', reference, 'Z0 50/75/10'),
    H('switch', switch, '2x2'),
]
ASSUMPTIONS = ["transmission terms of the networks are non-zero",
               "every denominator met is non-zero"]
