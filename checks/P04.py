"""Rearranging dimensions relabels and moves data together."""
import itertools
from .common import H, perms, dimkey, el, ndindex

SIZES = dict(freq=3, pow=2, rep=2, rep2=3, i=2, j=3)


def _dims(D, names, sizes=SIZES):
    mk = {'freq': lambda n: D.DimSweep("freq", [10 * (k + 1) for k in
                                               range(n)], unit="Hz"),
          'pow': lambda n: D.DimSweep("pow", [k - 1 for k in range(n)],
                                      unit="dBm"),
          'rep': lambda n: D.DimRep("rep", n),
          'rep2': lambda n: D.DimRep("rep2", [7 * k for k in range(n)]),
          'i': lambda n: D.DimMatrix_i("i", n),
          'j': lambda n: D.DimMatrix_j("j", n)}
    return tuple(mk[n](sizes[n]) for n in names)


def _szs(c, sizes=SIZES):
    """Lengths: distinct ones, all equal (square), or longer."""
    return c.choice('lengths', [sizes, {n: 2 for n in sizes},
                                {n: dict(freq=7, pow=5, rep=4, rep2=3, i=4,
                                         j=3)[n] for n in sizes}])


def _arr(c, D, names, sizes=SIZES, kind='f', unit="V", order=None):
    if order is None:
        order = c.choice('memory', ['C', 'F']) if len(names) > 1 else 'C'
    return D.hfarray(c.np.array(c.kinds('a', tuple(sizes[n] for n in names),
                                        kind), order=order),
                     dims=_dims(D, names, sizes), unit=unit)


def _same_labelled(c, A, R, names):
    """R holds A's data with dims in the order `names` (subset-of/equal)."""
    c.same('dimension order', [d.name for d in R.dims], list(names))
    an = [d.name for d in A.dims]
    c.same('unit and format', (R.unit, R.outputformat),
           (A.unit, A.outputformat))
    for d, n in zip(R.dims, R.shape):
        src = A.dims[an.index(d.name)]
        c.same('kind and coordinates travel with the axis',
               (type(d), list(d.data.tolist()), d.unit),
               (type(src), list(src.data.tolist()), src.unit))
        c.same('length', n, A.shape[an.index(d.name)])
    for idx in ndindex(R.shape):
        p = [idx[list(names).index(n)] for n in an]
        c.eq('values travel with the axis', el(R, idx), el(A, p))


COMBOS2 = [('freq', 'rep'), ('rep', 'freq'), ('freq', 'pow')]
COMBOS3 = [('freq', 'rep', 'pow'), ('freq', 'i', 'j')]


def transpose(c, combos):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', combos)
    A = _arr(c, D, names, _szs(c))
    order = c.choice('order', [None] + list(itertools.permutations(
        range(len(names)))))
    if order is None:
        R = A.transpose() if c.choice('prop', [True, False]) else A.T
        order = tuple(range(len(names)))[::-1]
    else:
        R = A.transpose(*order)
    _same_labelled(c, A, R, [names[k] for k in order])
    c.same('unit kept', R.unit, A.unit)


def reorder(c, combos):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', combos)
    A = _arr(c, D, names, _szs(c))
    first = c.choice('first', perms(names))
    R = A.reorder_dimensions(*[A.dims[names.index(n)] for n in first])
    rest = [n for n in names if n not in first]
    _same_labelled(c, A, R, list(first) + rest)


def mtranspose(c):
    """.t exchanges the matrix indices and leaves the other axes alone."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('i', 'j'), ('freq', 'i', 'j'),
                              ('i', 'freq', 'j'), ('j', 'i'),
                              ('freq', 'i'), ('freq', 'rep', 'i', 'j')])
    A = _arr(c, D, names, _szs(c))
    if c.choice('ports', ['numbered', 'named']) == 'named':
        # e.g. ports 3 and 5 of a larger network
        A.dims = [type(d)(d.name, [3 + (3 if d.name == 'i' else 2) * q
                                   for q in range(n)])
                  if d.name in 'ij' else d for d, n in zip(A.dims, A.shape)]
    R = A.t
    c.same('positions kept', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    if 'i' not in names or 'j' not in names:
        for idx in ndindex(A.shape):
            c.eq('not a matrix: unchanged', el(R, idx), el(A, idx))
        return
    i, j = names.index('i'), names.index('j')
    c.same('shape', (R.shape[i], R.shape[j]), (A.shape[j], A.shape[i]))
    c.same('coordinates', (R.dims[i].data.tolist(), R.dims[j].data.tolist()),
           (A.dims[j].data.tolist(), A.dims[i].data.tolist()))
    for idx in ndindex(R.shape):
        p = list(idx)
        p[i], p[j] = idx[j], idx[i]
        c.eq('transposed values', el(R, idx), el(A, p))


def add_dim(c):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq',), ('freq', 'rep'), ()])
    A = _arr(c, D, names)
    new = c.choice('new', ['pow', 'freq', None, 'one'])
    axis = c.choice('axis', [0, 1, 2, 5])
    if new is None:
        nd = None
    elif new == 'one':
        nd = D.DimSweep('one', 1)
    else:
        nd = _dims(D, (new,))[0]
    A.unit, A.outputformat = 'V', '%.3f'
    R = A.add_dim(nd, axis)
    c.same('unit', R.unit, 'V')
    c.same('format', R.outputformat, '%.3f')
    if nd is None or nd.name in names:
        _same_labelled(c, A, R, names)
        return
    k = min(axis, len(names))
    want = list(names)
    want.insert(k, nd.name)
    c.same('dimension order', [d.name for d in R.dims], want)
    c.same('shape', R.shape[k], len(nd.data))
    c.same('coordinates', list(R.dims[k].data.tolist()),
           list(nd.data.tolist()))
    for idx in ndindex(R.shape):
        p = list(idx)
        del p[k]
        c.eq('repeated along the new axis', el(R, idx), el(A, p))


def change(c):
    """change_shape/make_same_dims: new axes have length one, the data is
    unchanged."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', perms(['freq', 'rep', 'i'], 3))
    SIZES = _szs(c)
    A = _arr(c, D, names, SIZES)
    target = c.choice('target', [t for t in perms(['freq', 'rep', 'i'], 3)
                                 if set(names) <= set(t)])
    R = M.change_shape(A, _dims(D, target, SIZES))
    c.same('dims', [d.name for d in R.dims], list(target))
    c.same('shape', list(R.shape), [SIZES[n] if n in names else 1
                                    for n in target])
    for idx in ndindex(R.shape):
        p = [idx[target.index(n)] for n in names]
        c.eq('values', el(R, idx), el(A, p))


def same_dims(c):
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    pool = ['freq', 'rep', 'i']
    na = c.choice('A', perms(pool, 3))
    nb = c.choice('B', perms(pool, 3 if len(na) == 3 else 2))
    SIZES = _szs(c)
    A = _arr(c, D, na, SIZES)
    B = D.hfarray(c.rarray('b', tuple(SIZES[n] for n in nb)),
                  dims=_dims(D, nb, SIZES))
    X, Y = M.make_same_dims(A, B)
    c.same('same dims', [dimkey(d) for d in X.dims],
           [dimkey(d) for d in Y.dims])
    c.same('union', set(d.name for d in X.dims), set(na) | set(nb))
    tn = [d.name for d in X.dims]
    for src, out, nm in ((A, X, na), (B, Y, nb)):
        c.same('shape', list(out.shape), [SIZES[n] if n in nm else 1
                                          for n in tn])
        for idx in ndindex(out.shape):
            p = [idx[tn.index(n)] for n in nm]
            c.eq('values', el(out, idx), el(src, p))


def remove_rep(c, combos):
    """All repetition dimensions become one, row-major; everything else
    stays where it is."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', combos)
    sz = _szs(c, dict(SIZES, freq=2))
    A = _arr(c, D, names, sz)
    R = M.remove_rep(A)
    reps = [n for n in names if n.startswith('rep')]
    if not reps:
        _same_labelled(c, A, R, names)
        return
    pos = names.index(reps[0])
    tail = [n for n in names[pos + 1:] if n not in reps]
    want = list(names[:pos]) + ['AllReps'] + tail
    c.same('dims', [d.name for d in R.dims], want)
    size = 1
    for r in reps:
        size *= sz[r]
    c.same('size', R.shape[pos], size)
    c.check('the collapsed dimension is a repetition',
            isinstance(R.dims[pos], D.DimRep))
    c.same('points', len(R.dims[pos].data), size)
    for k, n in enumerate(want):
        if n != 'AllReps':
            c.same('other dims', list(R.dims[k].data.tolist()),
                   list(A.dims[names.index(n)].data.tolist()))
    for idx in ndindex(R.shape):
        q = idx[pos]
        ri = {}
        for r in reversed(reps):
            ri[r] = q % sz[r]
            q //= sz[r]
        p = [ri[n] if n in reps else idx[want.index(n)] for n in names]
        c.eq('values', el(R, idx), el(A, p))


def remove_tail(c):
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', [('freq',), ('freq', 'rep'),
                              ('freq', 'rep', 'rep2'),
                              ('freq', 'i', 'j'), ('freq', 'rep', 'i', 'j'),
                              ('rep', 'freq', 'i', 'j'), ('rep', 'freq'),
                              ('freq', 'rep', 'pow', 'i', 'j')])
    sz = _szs(c, dict(SIZES, freq=2))
    A = _arr(c, D, names, sz)
    R = M.remove_tail(A)
    mat = ('i', 'j') if 'i' in names else ()
    tail = [n for n in names[1:] if n not in mat]
    size = 1
    for n in tail:
        size *= sz[n]
    c.same('dims', [d.name for d in R.dims], [names[0], 'Tail'] + list(mat))
    c.same('shape', list(R.shape), [sz[names[0]], size] +
           [sz[m] for m in mat])
    c.same('points', len(R.dims[1].data), size)
    c.same('unit', R.unit, A.unit)
    for idx in ndindex(R.shape):
        q = idx[1]
        ri = {}
        for r in reversed(tail):
            ri[r] = q % sz[r]
            q //= sz[r]
        p = [idx[0]] + [ri[n] for n in tail] + list(idx[2:])
        c.eq('values', el(R, idx), el(A, p))


def fullcomplex(c):
    """The 2x2 real form of a complex array represents complex
    multiplication."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', [('freq',), ('freq', 'rep'), ()])
    A = _arr(c, D, names, kind='c')
    R = M.make_fullcomplex_array(A)
    c.same('shape', tuple(R.shape), tuple(A.shape) + (2, 2))
    c.same('leading dims', [dimkey(d) for d in R.dims[:-2]],
           [dimkey(d) for d in A.dims])
    c.same('lengths', [len(d.data) for d in R.dims], list(R.shape))
    c.check('recognised', M.isfullcomplex(R))
    x = c.cplx('x')
    for idx in ndindex(A.shape):
        z = el(A, idx)
        w = z * x
        m = [[el(R, idx + (p, q)) for q in range(2)] for p in range(2)]
        c.eq('real part of the product', m[0][0] * x.real + m[0][1] * x.imag,
             w.real)
        c.eq('imaginary part of the product',
             m[1][0] * x.real + m[1][1] * x.imag, w.imag)
    R2 = M.make_fullcomplex_array(R)
    c.same('idempotent', tuple(R2.shape), tuple(R.shape))


def expand(c):
    """expand_diagonals puts the data on the diagonal and zeros elsewhere."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', [('freq',), ('freq', 'rep'), ('rep', 'freq')])
    which = c.choice('which', ['one', 'all'])
    A = _arr(c, D, names, unit=None)
    diags = [A.dims[c.choice('k', list(range(len(names))))]] \
        if which == 'one' else None
    R = M.expand_diagonals(A, diags)
    ex = [d.name for d in (diags or A.dims)]
    c.same('rank', R.ndim, A.ndim + len(ex))
    for idx in ndindex(R.shape):
        p, off, k = [], False, 0
        for n in names:
            if n in ex:
                p.append(idx[k])
                off = off or idx[k] != idx[k + 1]
                k += 2
            else:
                p.append(idx[k])
                k += 1
        c.eq('diagonal', el(R, idx), 0 if off else el(A, p))


def diagonal(c):
    """diagonal_view shows the elements whose indices along the given axes
    are equal, at the place of the axis given first."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.arrayobj')
    names = c.choice('dims', [('freq', 'pow'), ('freq', 'pow', 'rep'),
                              ('rep', 'freq', 'pow')])
    sizes = c.choice('sizes', [dict(freq=2, pow=2, rep=2),
                               dict(freq=3, pow=2, rep=2)])
    A = _arr(c, D, names, sizes, unit=None)
    diag = c.choice('diagonal', [p for p in perms(names, 2) if len(p) == 2])
    at = [names.index(n) for n in diag]
    n = min(A.shape[k] for k in at)
    R = M.diagonal_view(A, [A.dims[k] for k in at])
    rest = [k for k in range(len(names)) if k not in at]
    first = min(at[0], len(rest))
    c.same('shape', tuple(R.shape),
           tuple([A.shape[k] for k in rest][:first] + [n] +
                 [A.shape[k] for k in rest][first:]))
    for idx in ndindex(R.shape):
        p = [None] * len(names)
        other = idx[:first] + idx[first + 1:]
        for k, v in zip(rest, other):
            p[k] = v
        for k in at:
            p[k] = idx[first]
        c.eq('diagonal', el(R, idx), el(A, p))


def take(c):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', COMBOS2 + COMBOS3)
    A = _arr(c, D, names)
    k = c.choice('axis', list(range(len(names))))
    n = SIZES[names[k]]
    pick = c.choice('pick', [[0], [1, 0], [0, 0, 1], [n - 1, 0],
                             [n, 0], [-1, n + 1]])
    ax = c.choice('form', [k, names[k], A.dims[k]])
    if max(pick) >= n:
        mode = c.choice('mode', ['raise', 'clip', 'wrap'])
        if mode == 'raise':
            c.raises('out of range', IndexError, A.take, pick, axis=ax)
            return
        R = A.take(pick, axis=ax, mode=mode)
        pick = [q % n if mode == 'wrap' else min(max(q, 0), n - 1)
                for q in pick]
    else:
        R = A.take(pick, axis=ax)
    c.same('dims', [dimkey(d) for d in R.dims], [dimkey(d) for d in A.dims])
    c.same('coordinates of the taken points',
           list(R.dims[k].data.tolist()),
           [A.dims[k].data.tolist()[q] for q in pick])
    c.same('unit of the dimension', R.dims[k].unit, A.dims[k].unit)
    for idx in ndindex(R.shape):
        p = list(idx)
        p[k] = pick[p[k]]
        c.eq('taken values', el(R, idx), el(A, p))


def replace(c):
    """replace_dim relabels one axis only; the data stays."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', COMBOS2 + COMBOS3[:1])
    A = _arr(c, D, names)
    vals = [el(A, i) for i in ndindex(A.shape)]
    k = c.choice('k', list(range(len(names))))
    form = c.choice('form', ['dim', 'name', 'class'])
    if form == 'class':
        A.replace_dim(names[k], D.DimRep)
        new = D.DimRep(_dims(D, names)[k])
    else:
        new = D.DimSweep('new', [k2 * 2 for k2 in range(SIZES[names[k]])])
        A.replace_dim(A.dims[k] if form == 'dim' else names[k], new)
    want = list(_dims(D, names))
    want[k] = new
    c.same('dims', [(dimkey(d), d.data.tolist()) for d in A.dims],
           [(dimkey(d), d.data.tolist()) for d in want])
    c.eq('data', [el(A, i) for i in ndindex(A.shape)], vals)


def copies(c):
    """A copy is independent; a view shares."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', COMBOS2)
    A = _arr(c, D, names)
    v = c.real('v')
    form = c.choice('form', ['copy', 'ctor', 'view'])
    B = {'copy': lambda: A.copy(), 'ctor': lambda: D.hfarray(A),
         'view': lambda: A.view()}[form]()
    c.same('dims', [dimkey(d) for d in B.dims], [dimkey(d) for d in A.dims])
    c.same('unit', B.unit, A.unit)
    old = el(A, (0, 1))
    B[0, 1] = v
    c.eq('written', el(B, (0, 1)), v)
    c.eq('independent' if form != 'view' else 'shared', el(A, (0, 1)),
         old if form != 'view' else v)


RR = [('freq',), ('rep',), ('rep', 'rep2'), ('freq', 'rep'),
      ('rep', 'freq'), ('freq', 'rep', 'rep2'), ('rep', 'rep2', 'freq'),
      ('rep2', 'freq', 'rep'), ('rep', 'freq', 'rep2', 'i'),
      ('freq', 'rep', 'i', 'j', 'rep2'), ('i', 'rep', 'rep2', 'j', 'freq')]
HARNESSES = [
    H('transpose', lambda c: transpose(c, COMBOS2 + COMBOS3), 'rank 2-3'),
    H('reorder', lambda c: reorder(c, COMBOS2 + COMBOS3), 'rank 2-3'),
    H('mtranspose', mtranspose, 'rank 2-4'),
    H('add_dim', add_dim, 'rank 0-2'),
    H('change', change, 'rank 0-2 into 0-3 dimensions'),
    H('same_dims', same_dims, 'rank 0-2 each'),
    H('remove_rep', lambda c: remove_rep(c, RR), 'rank 1-4'),
    H('remove_tail', remove_tail, 'rank 1-5'),
    H('fullcomplex', fullcomplex, 'rank 0-2'),
    H('expand', expand, 'rank 1-2'),
    H('diagonal', diagonal, 'rank 2-3, two axes in either order'),
    H('take', take, 'rank 2'),
    H('replace', replace, 'rank 2'),
    H('copies', copies, 'rank 2'),
    H('transpose4', lambda c: transpose(c, [('freq', 'rep', 'i', 'j')]),
      'rank 4'),
    H('reorder4', lambda c: reorder(c, [('freq', 'rep', 'i', 'j')]),
      'rank 4'),
]
ASSUMPTIONS = []
