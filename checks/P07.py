"""Noise of linear twoports: correlation matrices and noise parameters."""
from .common import H, dimkey, el, ndindex
from .P05 import TWO, _rows

T0 = 290


def _k(c):
    return c.mod('hftools.constants').k


def _net(c, MP, D, cls, label='m', sweep=False, n=2, kind='c'):
    dims = ((D.DimSweep("freq", 2),) if sweep else ()) + \
        (D.DimMatrix_i("i", n), D.DimMatrix_j("j", n))
    shape = ((2,) if sweep else ()) + (n, n)
    return getattr(MP, cls)(c.kinds(label, shape, kind), dims=dims)


def _herm(c, D, label, sweep=False):
    """A symbolic Hermitian correlation matrix."""
    pre = (2,) if sweep else ()
    out = c.np.zeros(pre + (2, 2), dtype=complex)
    for p in ndindex(pre):
        t = "".join("_%d" % q for q in p)
        d0, d1 = c.real(label + '0' + t), c.real(label + '1' + t)
        x = c.cplx(label + 'x' + t)
        out[p + (0, 0)] = d0
        out[p + (1, 1)] = d1
        out[p + (0, 1)] = x
        out[p + (1, 0)] = x.conjugate()
    dims = ((D.DimSweep("freq", 2),) if sweep else ()) + \
        (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
    return D.hfarray(out, dims=dims)


def passive(c):
    """Thermal noise of a passive network: the textbook matrices."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    cls = c.choice('cls', ['YArray', 'ZArray', 'SArray'])
    sweep = c.choice('sweep', [False, True])
    A = _net(c, MP, D, cls, sweep=sweep)
    deflt = c.choice('default T', [True, False])
    T = T0 if deflt else c.real('T', nonneg=True)
    N = NO.passive_noise(A) if deflt else NO.passive_noise(A, T)
    k = _k(c)
    c.scale = 1e-23
    for pre in ndindex(A.shape[:-2]):
        m, C = _rows(A, pre, 2), _rows(N.C, pre, 2)
        for i in range(2):
            for j in range(2):
                if cls == 'SArray':
                    w = (1 if i == j else 0) - \
                        (m[i][0] * m[j][0].conjugate() +
                         m[i][1] * m[j][1].conjugate())
                    c.eq('k T (1 - S S^H)', C[i][j], w * T * k)
                else:
                    c.eq('2 k T (X + X^H)', C[i][j],
                         (m[i][j] + m[j][i].conjugate()) * T * 2 * k)


def unsupported(c):
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    cls = c.choice('cls', ['HArray', 'GArray', 'TArray', 'ABCDArray'])
    A = _net(c, MP, D, cls)
    c.raises('no thermal noise rule for %s' % cls, Exception,
             NO.passive_noise, A)


def passive_convert(c):
    """Thermal noise is the same whichever representation it is computed
    in."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    a, b = c.choice('pair', [('YArray', 'ZArray'), ('ZArray', 'YArray'),
                             ('YArray', 'SArray'), ('ZArray', 'SArray'),
                             ('SArray', 'YArray'), ('SArray', 'ZArray')])
    A = _net(c, MP, D, a, kind=c.choice('kind', ['f', 'c']))
    N = NO.passive_noise(A, 1).convert(getattr(MP, b))
    c.same('class', type(N.N).__name__, b)
    W = NO.passive_noise(getattr(MP, b)(A), 1)
    c.scale = 1e-23
    for i in ndindex((2, 2)):
        c.eq('thermal noise', el(N.C, i), el(W.C, i))


def _noise_source(kind, M, x, s):
    """Port voltages/currents of a noisy twoport: dependent = M x + s."""
    y = [M[p][0] * x[0] + M[p][1] * x[1] + s[p] for p in range(2)]
    if kind == 'ZArray':
        return y, x
    if kind == 'YArray':
        return x, y
    if kind == 'ABCDArray':
        return [y[0], x[0]], [y[1], -x[1]]
    if kind == 'HArray':
        return [y[0], x[1]], [x[0], y[1]]
    if kind == 'GArray':
        return [x[0], y[1]], [y[0], x[1]]
    raise ValueError(kind)


NOISY = ['ZArray', 'YArray', 'ABCDArray', 'HArray', 'GArray']


def transform(c):
    """convert() uses the transformation that maps the noise sources of one
    representation to those of the other: T(dest)."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    a, b = c.choice('from', NOISY), c.choice('to', NOISY)
    dims = (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
    A = getattr(MP, a)(c.carray('m', (2, 2), holo=True), dims=dims)
    N = NO.NoisyTwoport(A, None)
    T = N.T(getattr(MP, b))
    B = getattr(MP, b)(A)
    x = [c.cplx('x%d' % q, holo=True) for q in range(2)]
    s = [c.cplx('s%d' % q, holo=True) for q in range(2)]
    V, I = _noise_source(a, _rows(A, (), 2), x, s)
    from .P05 import _vars
    dep, ind = _vars(b, V, I, 50)
    m, t = _rows(B, (), 2), _rows(T, (), 2)
    # dep = m ind + s', with s' = +-T s (the sign has no effect on C)
    sp = [dep[p] - m[p][0] * ind[0] - m[p][1] * ind[1] for p in range(2)]
    ts = [t[p][0] * s[0] + t[p][1] * s[1] for p in range(2)]
    # one common sign
    c.eq('sources, first', sp[0] * sp[0], ts[0] * ts[0])
    c.eq('sources, second', sp[1] * sp[1], ts[1] * ts[1])
    c.eq('sources, relative', sp[0] * ts[1], sp[1] * ts[0])


def correlate(c):
    """The converted correlation matrix is T C T^H."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    a, b = c.choice('from', TWO[:6]), c.choice('to', TWO[:6])
    sweep = c.choice('sweep', [False, True])
    num = [[(2, 1), (-1, 3)], [(3, 0), (1, -2)]]
    dat = c.np.array([[complex(*v) for v in r] for r in num])
    dims = (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
    A = getattr(MP, a)(dat, dims=dims)
    C = _herm(c, D, 'C', sweep)
    N, T = NO.NoisyTwoport(A, C).convert(getattr(MP, b), Tout=True)
    t = _rows(T, (), 2)
    for pre in ndindex(C.shape[:-2]):
        m, r = _rows(C, pre, 2), _rows(N.C, pre, 2)
        for i in range(2):
            for j in range(2):
                w = 0
                for p in range(2):
                    for q in range(2):
                        w = w + t[i][p] * m[p][q] * t[j][q].conjugate()
                c.eq('T C T^H', r[i][j], w)
    # and back again
    B = N.convert(getattr(MP, a))
    for i in ndindex(C.shape):
        c.eq('round trip', el(B.C, i), el(C, i))


def factor(c, branch):
    """F(Ys) = Fmin + Rn/Gs |Ys - Yopt|^2 reproduces the noise factor
    computed from the correlation matrix, for every source admittance."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    k = _k(c)
    num = [[(2, 1), (-1, 3)], [(3, 0), (1, -2)]]
    dat = c.np.array([[complex(*v) for v in r] for r in num])
    dims = (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
    A = MP.ABCDArray(dat, dims=dims)
    # positive semi-definite correlation: equivalent Rn, Gn, Ycor
    Rn = c.real('Rn', pos=True)
    Gopt = c.real('Gopt', pos=True)
    Bopt = c.real('Bopt')
    Gcor = c.real('Gcor')
    c.assume(Gopt >= Gcor)
    c.assume(Gopt >= -Gcor)
    # C11 = 4kT Rn, C12 = 4kT Rn (Gcor - conj?)...
    s = 4 * T0 * k
    C11, C22 = Rn, Rn * (Gopt * Gopt + Bopt * Bopt)
    C12r, C12i = Rn * Gcor, Rn * Bopt
    C = c.np.zeros((2, 2), dtype=complex)
    C[0, 0] = C11 * s
    C[1, 1] = C22 * s
    C[0, 1] = (C12r + 1j * C12i) * s
    C[1, 0] = (C12r - 1j * C12i) * s
    C = D.hfarray(C, dims=dims)
    N = NO.NoisyTwoport(A, C)
    if branch != 'ABCDArray':
        N = N.convert(getattr(MP, branch))
    P = N.noise_parameters()
    sc = lambda v: el(v, ()) if hasattr(v, 'dims') else v
    rn, fmin, yo = sc(P.Rn), sc(P.Fmin), sc(P.Yopt)
    Gs, Bs = c.real('Gs', pos=True), c.real('Bs')
    Ys2 = Gs * Gs + Bs * Bs
    # |i + Ys v|^2 / (4kT0 Gs)
    Fc = C22 + Ys2 * C11 + 2 * (Gs * C12r - Bs * C12i)
    dy = (Gs - yo.real) * (Gs - yo.real) + (Bs - yo.imag) * (Bs - yo.imag)
    c.eq('noise factor', (fmin - 1) * Gs + rn * dy, Fc)
    c.check('optimum source conductance', yo.real >= 0)
    g = sc(P.Gopt)
    c.eq('optimum reflection', g * (1 + 50 * yo), 1 - 50 * yo)


def noisepar(c, sweep=False):
    """noise parameters -> correlation matrix -> noise parameters."""
    MP, NO, D = c.mods('hftools.networks.multiports',
                       'hftools.networks.noise', 'hftools.dataset')
    n = 2 if sweep else 1
    f = D.DimSweep("freq", [float(q + 1) for q in range(n)])
    db = D.DataBlock()
    num = [[(2, 1), (-1, 3)], [(3, 0), (1, -2)]]
    dat = c.np.array([[[complex(*v) for v in r] for r in num]] * n)
    db.S = D.hfarray(dat / 8, dims=(f, D.DimMatrix_i("i", 2),
                                    D.DimMatrix_j("j", 2)))
    yg = [c.real('G%d' % q, pos=True) for q in range(n)]
    yb = [c.real('B%d' % q) for q in range(n)]
    Yo = [g + 1j * b for g, b in zip(yg, yb)]
    Go = [(1 - 50 * y) / (1 + 50 * y) for y in Yo]
    Rn = [c.real('Rn%d' % q, pos=True) for q in range(n)]
    Fm = [c.real('F%d' % q, lo=1) for q in range(n)]
    db.Gopt = D.hfarray(c.np.array(Go), dims=(f,))
    db.Rn = D.hfarray(c.np.array(Rn), dims=(f,))
    db.Fmin = D.hfarray(c.np.array(Fm), dims=(f,))
    N = NO.from_noisepar(db)
    P = N.noise_parameters()
    for q in range(n):
        c.eq('Rn', el(P.Rn, (q,)), Rn[q])
        c.eq('Fmin', el(P.Fmin, (q,)), Fm[q])
        c.eq('Gopt', el(P.Gopt, (q,)), Go[q])


def conjugate(c):
    """The Hermitian conjugate exchanges the matrix indices, wherever they
    are, and conjugates."""
    D = c.mod('hftools.dataset')
    N = c.mod('hftools.networks.noise')
    mk = dict(freq=D.DimSweep("freq", [1., 2., 3.], unit="Hz"),
              rep=D.DimRep("rep", 2), i=D.DimMatrix_i("i", 2),
              j=D.DimMatrix_j("j", 2))
    names = c.choice('dims', [('i', 'j'), ('freq', 'i', 'j'),
                              ('i', 'j', 'freq'), ('i', 'freq', 'j'),
                              ('j', 'rep', 'i', 'freq'), ('j', 'i'),
                              ('rep', 'i', 'freq', 'j')])
    n = dict(freq=3, rep=2, i=2, j=2)
    A = D.hfarray(c.carray('a', tuple(n[d] for d in names)),
                  dims=tuple(mk[d] for d in names))
    R = N.Hconj(A)
    c.same('dimensions', [(dimkey(d), d.data.tolist()) for d in R.dims],
           [(dimkey(d), d.data.tolist()) for d in A.dims])
    i, j = names.index('i'), names.index('j')
    for idx in ndindex(R.shape):
        p = list(idx)
        p[i], p[j] = idx[j], idx[i]
        c.eq('conjugate of the transposed', el(R, idx),
             el(A, p).conjugate())


HARNESSES = [
    H('conjugate', conjugate, 'rank 2-4'),
    H('passive', passive, '2x2, up to 2 frequencies'),
    H('unsupported', unsupported, ''),
    H('passive_convert', passive_convert, '2x2, 1 point'),
    H('transform', transform, '25 pairs of representations'),
    H('correlate', correlate, '36 pairs, symbolic correlation matrix, one '
      'fixed network'),
    H('factor_abcd', lambda c: factor(c, 'ABCDArray'),
      'any positive noise matrix and source admittance'),
    H('factor_y', lambda c: factor(c, 'YArray'),
      'any positive noise matrix and source admittance'),
    H('factor_s', lambda c: factor(c, 'SArray'),
      'any positive noise matrix and source admittance'),
    H('noisepar', noisepar, '1 frequency'),
    H('noisepar2', lambda c: noisepar(c, True), '2 frequencies'),
]
ASSUMPTIONS = ["every matrix inverted on the way is non-singular",
               "noise correlation matrices are positive semi-definite"]
