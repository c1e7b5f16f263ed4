"""Port-indexed access to network data, and helpers that build or repair
networks."""
from .common import H, dimkey, el, ndindex
from .P05 import TWO, _mk, _rows

SHORT = dict(ZArray='Z', YArray='Y', SArray='S', GArray='G', HArray='H',
             ABCDArray='A', TArray='T', TpArray='Tp')


def access(c):
    """x.S21 is row 2, column 1, for every sweep point; assigning writes
    that element and no other."""
    MP, D = c.mods('hftools.networks.multiports', 'hftools.dataset')
    cls = c.choice('cls', TWO)
    n = 2 if cls not in ('ZArray', 'YArray', 'SArray') else \
        c.choice('n', [1, 2, 3, 5, 9])
    sweep = c.choice('sweep', [False, True, 'rep,freq'] if n < 5 else
                     [False, True] if n < 9 else [True])
    A, shape = _mk(c, D, getattr(MP, cls), n, sweep)
    made = c.choice('made by', ['constructor', 'sum', 'product', 'copy',
                                'slice']) if n < 9 else 'constructor'
    if made == 'sum':
        A = A + 1
    elif made == 'product':
        A = A * 2
    elif made == 'copy':
        A = A.copy()
    elif made == 'slice':
        A = A[...]
    c.same('kind', type(A).__name__, cls)
    old = {i: el(A, i) for i in ndindex(A.shape)}
    near = list(range(n)) if n < 9 else [0, 3, 7, 8]
    i, j = c.choice('i', near), c.choice('j', near)
    nm = "%s%d%d" % (c.choice('case', [SHORT[cls], SHORT[cls].lower()]),
                     i + 1, j + 1)
    v = getattr(A, nm)
    for p in ndindex(shape):
        c.eq('element read', el(v, p) if hasattr(v, 'dims') else v,
             old[p + (i, j)])
    if sweep:
        c.same('dims of the element', [dimkey(d) for d in v.dims],
               [dimkey(d) for d in A.dims[:-2]])
        x = c.cplx('x', holo=True)
        setattr(A, nm, x)
        for p in ndindex(A.shape):
            c.eq('only that element written', el(A, p),
                 x if p[-2:] == (i, j) else old[p])


def copies(c):
    """A network made from data has data of its own (unless told not to),
    whatever the class of the data."""
    MP, D = c.mods('hftools.networks.multiports', 'hftools.dataset')
    cls = c.choice('cls', TWO)
    src = c.choice('source', TWO + ['hfarray', 'ndarray'])
    sweep = c.choice('sweep', [False, True])
    B, shape = _mk(c, D, getattr(MP, cls), 2, sweep)
    dims = B.dims
    if src == 'hfarray':
        B = D.hfarray(B)
    elif src == 'ndarray':
        B = c.np.array(B)
    elif src != cls:
        B, shape = _mk(c, D, getattr(MP, src), 2, sweep)
    old = {i: el(B, i) for i in ndindex(B.shape)}
    A = getattr(MP, cls)(B, dims=dims) if src == 'ndarray' else \
        getattr(MP, cls)(B)
    c.same('kind', type(A).__name__, cls)
    how = c.choice('write', ['item', 'name', 'product'])
    if how == 'item':
        A[..., 0, 1] = c.cplx('x')
    elif how == 'name':
        setattr(A, SHORT[cls] + '12', c.cplx('x'))
    else:
        A *= 2
    for i in ndindex(B.shape):
        c.eq('the source is unchanged', el(B, i), old[i])


def missing(c):
    MP, D = c.mods('hftools.networks.multiports', 'hftools.dataset')
    cls = c.choice('cls', TWO)
    A, shape = _mk(c, D, getattr(MP, cls), 2, True)
    nm = c.choice('nm', ['33', '10', '01', '13', '31'])
    c.raises('no such port', AttributeError, getattr, A, SHORT[cls] + nm)


def slices(c):
    """Indexing the sweep keeps the kind of network; taking an element gives
    plain data."""
    MP, D = c.mods('hftools.networks.multiports', 'hftools.dataset')
    cls = c.choice('cls', TWO)
    A, shape = _mk(c, D, getattr(MP, cls), 2, True)
    k = c.int('k', -2, 1)
    B = A[k]
    c.same('class', type(B).__name__, cls)
    for i in ndindex((2, 2)):
        c.eq('one sweep point', el(B, i), el(A, (int(k) % 2,) + i))
    B = A[::-1]
    c.same('class', type(B).__name__, cls)
    for i in ndindex(B.shape):
        c.eq('slice', el(B, i), el(A, (1 - i[0],) + i[1:]))
    p, q = c.choice('p', [0, 1]), c.choice('q', [0, 1])
    E = A[..., p, q]
    c.same('element is plain data', type(E).__name__, 'hfarray')
    for i in range(2):
        c.eq('element', el(E, (i,)), el(A, (i, p, q)))


def reciprocal(c):
    """make_reciprocal: one transmission value, a square root of the
    product, on the side of the original one."""
    MP, D, SP = c.mods('hftools.networks.multiports', 'hftools.dataset',
                       'hftools.networks.spar_functions')
    n = 1
    dims = (D.DimSweep("freq", n), D.DimMatrix_i("i", 2),
            D.DimMatrix_j("j", 2))
    dat = c.np.zeros((n, 2, 2), dtype=complex)
    # s12 and s21 given by their roots so that no nested radicals appear:
    # s12 = u*u, s21 = w*w, root of the product = +-u*w
    u = c.cplx('u', nonzero=True)
    w = c.cplx('w', nonzero=True)
    a, b = u * u, w * w
    c.assume((w * u.conjugate()).real > 0)
    dat[0, 0, 1] = a
    dat[0, 1, 0] = b
    S = MP.SArray(dat, dims=dims)
    R = SP.make_reciprocal(S)
    r12, r21 = el(R, (0, 0, 1)), el(R, (0, 1, 0))
    c.eq('reciprocal', r12, r21)
    c.eq('a root of the product', r12 * r12, a * b)
    t = r12 * a.conjugate()
    c.check('on the side of the original', t.real >= 0)


def reciprocal_fixed(c):
    """A reciprocal network is left as it is."""
    MP, D, SP = c.mods('hftools.networks.multiports', 'hftools.dataset',
                       'hftools.networks.spar_functions')
    n = 2
    dims = (D.DimSweep("freq", n), D.DimMatrix_i("i", 2),
            D.DimMatrix_j("j", 2))
    dat = c.np.zeros((n, 2, 2), dtype=complex)
    s = c.np.array([c.cplx('s%d' % q, nonzero=True) for q in range(n)])
    dat[:, 0, 1] = s
    dat[:, 1, 0] = s
    d = c.np.array([c.cplx('d%d' % q) for q in range(n)])
    dat[:, 0, 0] = d
    S = MP.SArray(dat, dims=dims)
    R = SP.make_reciprocal(S)
    for q in range(n):
        c.eq('s12', el(R, (q, 0, 1)), s[q])
        c.eq('s21', el(R, (q, 1, 0)), s[q])
        c.eq('s11', el(R, (q, 0, 0)), d[q])


def units(c):
    MP, D = c.mods('hftools.networks.multiports', 'hftools.dataset')
    cls = c.choice('cls', ['SArray', 'ABCDArray', 'TArray'])
    U = MP.unit_matrix(cls=getattr(MP, cls))
    c.same('class', type(U).__name__, cls)
    for i in ndindex((2, 2)):
        c.eq('identity', el(U, i), 1 if i[0] == i[1] else 0)
    U = MP.unit_smatrix(cls=getattr(MP, cls))
    c.same('class', type(U).__name__, cls)
    S = MP.SArray(U)
    for i in ndindex((2, 2)):
        c.eq('thru', el(S, i), 0 if i[0] == i[1] else 1)
    n = c.choice('n', [1, 2, 3])
    U = MP.unit_matrix(n)
    for i in ndindex((n, n)):
        c.eq('identity', el(U, i), 1 if i[0] == i[1] else 0)


HARNESSES = [
    H('access', access, 'all classes, 1-5 ports, 0-2 sweeps',
      max_paths=4000),
    H('copies', copies, 'all pairs of classes'),
    H('missing', missing, ''),
    H('slices', slices, ''),
    H('reciprocal', reciprocal, 'any complex transmission terms'),
    H('reciprocal_fixed', reciprocal_fixed, '2 frequencies'),
    H('units', units, ''),
]
ASSUMPTIONS = []
