"""Changing the representation of a network never changes the network."""
from .common import H, dimkey, el, ndindex

TWO = ['ZArray', 'YArray', 'SArray', 'GArray', 'HArray', 'ABCDArray',
       'TArray', 'TpArray']
MULTI = ['ZArray', 'YArray', 'SArray']


def _vars(kind, V, I, r):
    """(dependent, independent) port quantities of a representation, for
    voltages V, currents I and reference impedance r (common scale factors
    of the waves are left out: they cancel)."""
    a = [v + r * i for v, i in zip(V, I)]
    b = [v - r * i for v, i in zip(V, I)]
    return {'ZArray': lambda: (V, I),
            'YArray': lambda: (I, V),
            'SArray': lambda: (b, a),
            'GArray': lambda: ([I[0], V[1]], [V[0], I[1]]),
            'HArray': lambda: ([V[0], I[1]], [I[0], V[1]]),
            'ABCDArray': lambda: ([V[0], I[0]], [V[1], -I[1]]),
            'TArray': lambda: ([b[0], a[0]], [a[1], b[1]]),
            'TpArray': lambda: ([a[0], b[0]], [b[1], a[1]])}[kind]()


def _port(kind, M, x, r):
    """Voltages and currents when the independent quantities are x."""
    n = len(x)
    y = [_dot(M[p], x) for p in range(n)]
    wave = lambda a, b: ((a + b) / 2, (a - b) / (2 * r))
    if kind == 'ZArray':
        return y, x
    if kind == 'YArray':
        return x, y
    if kind == 'SArray':
        p = [wave(a, b) for a, b in zip(x, y)]
    elif kind == 'GArray':
        return [x[0], y[1]], [y[0], x[1]]
    elif kind == 'HArray':
        return [y[0], x[1]], [x[0], y[1]]
    elif kind == 'ABCDArray':
        return [y[0], x[0]], [y[1], -x[1]]
    elif kind == 'TArray':
        p = [wave(y[1], y[0]), wave(x[0], x[1])]
    else:
        p = [wave(y[0], y[1]), wave(x[1], x[0])]
    return [q[0] for q in p], [q[1] for q in p]


def _dot(u, v):
    s = u[0] * v[0]
    for p, q in zip(u[1:], v[1:]):
        s = s + p * q
    return s


def _rows(A, pre, n):
    return [[el(A, pre + (i, j)) for j in range(n)] for i in range(n)]


def _consistent(c, A, ka, ra, B, kb, rb, n, shape):
    """Every excitation allowed by A is allowed by B."""
    for pre in ndindex(shape):
        x = [c.cplx('x%d' % q, holo=True) for q in range(n)]
        V, I = _port(ka, _rows(A, pre, n), x, ra)
        dep, ind = _vars(kb, V, I, rb)
        M = _rows(B, pre, n)
        for p in range(n):
            c.eq('%s equation %d' % (kb[:-5], p), dep[p], _dot(M[p], ind))


def _mk(c, D, cls, n, sweep, label='m', kind='c'):
    if sweep == 'rep,freq':
        shape = (2, 2)
        dims = (D.DimRep("rep", 2), D.DimSweep("freq", 2))
    else:
        shape = (2,) if sweep else ()
        dims = (D.DimSweep("freq", 2),) if sweep else ()
    dims = dims + (D.DimMatrix_i("i", n), D.DimMatrix_j("j", n))
    data = c.kinds(label, shape + (n, n), kind, holo=True)
    return cls(data, dims=dims), shape


def twoport(c, sweeps, srcs=TWO, kind='c'):
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('from', srcs), c.choice('to', TWO)
    sweep = c.choice('sweep', sweeps)
    A, shape = _mk(c, D, getattr(MP, ka), 2, sweep, kind=kind)
    keep = [el(A, i) for i in ndindex(A.shape)]
    B = getattr(MP, kb)(A)
    c.same('dims', [dimkey(d) for d in B.dims], [dimkey(d) for d in A.dims])
    c.same('class', type(B).__name__, kb)
    c.eq('source untouched', [el(A, i) for i in ndindex(A.shape)], keep)
    _consistent(c, A, ka, 50, B, kb, 50, 2, shape)


def roundtrip(c):
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('from', TWO), c.choice('via', TWO)
    A, shape = _mk(c, D, getattr(MP, ka), 2, False)
    B = getattr(MP, ka)(getattr(MP, kb)(A))
    for i in ndindex(A.shape):
        c.eq('round trip', el(B, i), el(A, i))


def nport(c, n, sweeps=(False,), kind='c'):
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('from', MULTI), c.choice('to', MULTI)
    sweep = c.choice('sweep', sweeps)
    A, shape = _mk(c, D, getattr(MP, ka), n, sweep, kind=kind)
    B = getattr(MP, kb)(A)
    c.same('class', type(B).__name__, kb)
    _consistent(c, A, ka, 50, B, kb, 50, n, shape)


def manyports(c):
    """More ports: a diagonally dominant matrix with one arbitrary element.
    """
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('from', MULTI), c.choice('to', MULTI)
    n = c.choice('ports', [5, 6])
    p, q = c.choice('at', [(0, n - 1), (n - 1, 1)])
    rows = [[(a + 2.) if a == b else (1. if b == a + 1 else 0.)
             for b in range(n)] for a in range(n)]
    rows[p][q] = c.real('m')
    A = getattr(MP, ka)(c.np.array(rows), dims=(D.DimMatrix_i("i", n),
                                                D.DimMatrix_j("j", n)))
    B = getattr(MP, kb)(A)
    c.same('class', type(B).__name__, kb)
    _consistent(c, A, ka, 50, B, kb, 50, n, ())


def integers(c):
    """Data given as whole numbers converts without losing fractions."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka, kb = c.choice('from', TWO), c.choice('to', TWO)
    m = c.choice('m', [[[3, 1], [-1, 2]], [[1, 5], [7, 2]]])
    A = getattr(MP, ka)(c.np.array(m), dims=(D.DimMatrix_i("i", 2),
                                             D.DimMatrix_j("j", 2)))
    B = getattr(MP, kb)(A)
    _consistent(c, A, ka, 50, B, kb, 50, 2, ())


Z0S = [50, 75, 1, 12.5]


def reference(c):
    """S-parameters referred to any real impedance."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka = c.choice('from', TWO[:2] + ['SArray', 'ABCDArray'])
    z = c.choice('Z0', Z0S + ['any'])
    if z == 'any':
        z = c.real('Z0', pos=True)
    n = 2 if ka == 'ABCDArray' else c.choice('ports', [1, 2])
    za = 50
    if ka == 'SArray':
        za = c.choice('from Z0', Z0S[:3])
        A0, shape = _mk(c, D, D.hfarray, n, False)
        A = MP.SArray(A0, Z0=za)
        c.eq('given data taken as it is', [el(A, i) for i in
                                           ndindex(A.shape)],
             [el(A0, i) for i in ndindex(A.shape)])
        c.eq('recorded impedance', A.Z0, za)
    else:
        A, shape = _mk(c, D, getattr(MP, ka), n, False)
    B = MP.SArray(A, Z0=z)
    c.eq('impedance', B.Z0, z)
    _consistent(c, A, ka, za, B, 'SArray', z, n, shape)
    C = MP.ZArray(B)
    _consistent(c, A, ka, za, C, 'ZArray', 50, n, shape)


def reference_to(c):
    """From S-parameters with any reference to every representation and on
    to another; wave representations state the reference they use."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    z = c.choice('Z0', [75, 1, 12.5])
    A0, shape = _mk(c, D, D.hfarray, 2, c.choice('sweep', [False, True]))
    A = MP.SArray(A0, Z0=z)
    kb = c.choice('to', TWO)
    B = getattr(MP, kb)(A)
    zb = B.Z0 if kb in ('SArray', 'TArray', 'TpArray') else 50
    _consistent(c, A, 'SArray', z, B, kb, zb, 2, shape)
    kc = c.choice('on to', ['ZArray', 'SArray', 'TArray', 'TpArray'])
    C = getattr(MP, kc)(B)
    zc = C.Z0 if kc != 'ZArray' else 50
    _consistent(c, A, 'SArray', z, C, kc, zc, 2, shape)


def reference_kept(c):
    """Views, slices, transposes and arithmetic keep the reference
    impedance and do not disturb the array."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    z = c.choice('Z0', Z0S[:3])
    A0, shape = _mk(c, D, D.hfarray, 2, True)
    A = MP.SArray(A0, Z0=z)
    form = c.choice('form', ['view', 'copy', 'slice', 'reorder', 'neg',
                             'same'])
    if form == 'slice':
        B = A[0:1]
    else:
        B = {'view': lambda: A.view(), 'copy': lambda: A.copy(),
             'reorder': lambda: A.reorder_dimensions(A.dims[0]),
             'neg': lambda: -A, 'same': lambda: MP.SArray(A)}[form]()
    c.same('class', type(B).__name__, 'SArray')
    c.eq('impedance', B.Z0, z)
    s = -1 if form == 'neg' else 1
    c.eq('result', [el(B, i) for i in ndindex(B.shape)],
         [s * el(A0, i) for i in ndindex(B.shape)])
    c.eq('source untouched', [el(A, i) for i in ndindex(A.shape)],
         [el(A0, i) for i in ndindex(A0.shape)])


def views(c):
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    ka = c.choice('from', TWO)
    A, shape = _mk(c, D, getattr(MP, ka), 2, True)
    B = A.view()
    c.same('class', type(B).__name__, ka)
    c.eq('view', [el(B, i) for i in ndindex(B.shape)],
         [el(A, i) for i in ndindex(B.shape)])


def not_square(c):
    """Only whole matrices convert; a twoport model needs two ports."""
    MP = c.mod('hftools.networks.multiports')
    D = c.mod('hftools.dataset')
    kb = c.choice('to', TWO[3:])
    A, shape = _mk(c, D, MP.SArray, 3, False)
    c.raises('a three-port has no %s' % kb, ValueError, getattr(MP, kb), A)


HARNESSES = [
    H('twoport', lambda c: twoport(c, [False]), '2x2, all 64 pairs'),
    H('sweep', lambda c: twoport(c, [True, 'rep,freq']),
      '2x2, all pairs; one sweep of 2 points or two in any order'),
    H('ports', lambda c: nport(c, 2, ('rep,freq',)), '2 ports, two sweeps'),
    H('real', lambda c: twoport(c, [False], kind='f'),
      '2x2 real data, all pairs'),
    H('roundtrip', roundtrip, '2x2, all 64 pairs'),
    H('oneport', lambda c: nport(c, 1, (False, True)), '1x1'),
    H('threeport', lambda c: nport(c, 3), '3x3', timeout_ms=60000),
    H('fourport', lambda c: nport(c, 4, kind='f'), '4x4',
      timeout_ms=600000),
    H('manyports', manyports, '5-6 ports, sparse'),
    H('integers', integers, '2 integer matrices, all pairs'),
    H('reference', reference, 'Z0 in 50,75,1,12.5 or any positive number; 1-2 ports'),
    H('reference_to', reference_to, 'Z0 in 75,1,12.5; 8 x 4 chains'),
    H('reference_kept', reference_kept, 'Z0 in 50,75,1'),
    H('views', views, '2x2, 2 frequencies'),
    H('not_square', not_square, '3x3 to every twoport model'),
]
ASSUMPTIONS = ["every matrix inverted on the way is non-singular"]
