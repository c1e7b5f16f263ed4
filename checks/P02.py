"""Indexing keeps values, dimensions, coordinates and units in step."""
from .common import H, perms, dimkey, el, ndindex

SIZES = dict(freq=3, rep=2, i=2, j=2)


def _dims(D, names, sizes=SIZES):
    mk = {'freq': lambda: D.DimSweep("freq", [10 * (k + 1) for k in
                                             range(sizes['freq'])],
                                     unit="Hz"),
          'rep': lambda: D.DimRep("rep", ["r%d" % k for k in
                                          range(sizes['rep'])]),
          'i': lambda: D.DimMatrix_i("i", sizes['i']),
          'j': lambda: D.DimMatrix_j("j", sizes['j'])}
    return tuple(mk[n]() for n in names)


def _index(c, label, n, small=False):
    """A symbolic index for an axis of n points."""
    form = c.choice(label + '.form',
                    ['int', 'full', 'lo', 'hi', 'lohi', 'step'] if not small
                    else ['int', small, 'full'])
    if form == 'int':
        return c.int(label, -n, n - 1)
    if form == 'full':
        return slice(None)
    if form == 'lo':
        return slice(c.int(label + '.lo', -n - 1, n + 1), None)
    if form == 'hi':
        return slice(None, c.int(label + '.hi', -n - 1, n + 1))
    if form == 'lohi':
        return slice(c.int(label + '.lo', -n, n),
                     c.int(label + '.hi', -n, n))
    return slice(None, None, c.choice(label + '.st', [2, -1, -2, 3]))


def _is_int(x):
    return not isinstance(x, slice)


def _conc(x, n):
    """positions selected by index x on an axis with n points"""
    if isinstance(x, slice):
        f = lambda v: None if v is None else int(v)
        return list(range(n))[slice(f(x.start), f(x.stop), f(x.step))]
    k = int(x)
    return k if k >= 0 else k + n


def _verify(c, A, R, sel):
    """R must be A restricted to sel (one entry per axis of A: an int or a
    list of positions)."""
    want = [d for d, s in zip(A.dims, sel) if isinstance(s, list)]
    lens = [len(s) for s in sel if isinstance(s, list)]
    if not want:
        v = R if not hasattr(R, 'dims') else el(R, ())
        c.eq('value', v, el(A, tuple(sel)))
        return
    c.same('dimensions: integers drop, slices keep',
           [dimkey(d) for d in R.dims], [dimkey(d) for d in want])
    c.same('shape', tuple(R.shape), tuple(lens))
    k = 0
    for d, s in zip(A.dims, sel):
        if not isinstance(s, list):
            continue
        c.same('coordinates follow the selection',
               list(R.dims[k].data.tolist()),
               [d.data.tolist()[p] for p in s])
        c.same('dimension unit', R.dims[k].unit, d.unit)
        k += 1
    c.same('unit of the data', R.unit, A.unit)
    for idx in ndindex(R.shape):
        it = iter(idx)
        src = tuple(s if not isinstance(s, list) else s[next(it)]
                    for s in sel)
        c.eq('values follow the selection', el(R, idx), el(A, src))


def basic(c, combos, small=False):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', combos)
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=_dims(D, names), unit=c.choice('unit', [None, "V"]))
    nidx = c.choice('count', list(range(1, len(names) + 1)))
    idx = [_index(c, 'x%d' % k, SIZES[names[k]], small) for k in range(nidx)]
    tup = c.choice('tuple', [True, False]) if nidx == 1 else True
    R = A[tuple(idx) if tup else idx[0]]
    full = list(idx) + [slice(None)] * (len(names) - nidx)
    _verify(c, A, R, [_conc(x, SIZES[n]) for x, n in zip(full, names)])
    if hasattr(R, 'dims') and R.ndim:
        # the result can be indexed again
        R2 = R[::2] if R.ndim == 1 else R[:, ::2]
        c.same('sliced again', R2.shape[-1 if R.ndim == 1 else 1],
               (R.shape[-1 if R.ndim == 1 else 1] + 1) // 2)


def ellipsis(c, combos):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', combos)
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=_dims(D, names), unit="V")
    nl = c.choice('left', list(range(0, len(names) + 1)))
    nr = c.choice('right', list(range(0, len(names) + 1 - nl)))
    form = 'lo' if c.tier == 'quick' or len(names) < 3 else 'lohi'
    left = [_index(c, 'l%d' % k, SIZES[names[k]], form) for k in range(nl)]
    right = [_index(c, 'r%d' % k, SIZES[names[len(names) - nr + k]],
                    form)
             for k in range(nr)]
    if nl == 0 and nr == 0:
        R = A[...] if c.choice('tuple', [False, True]) is False else A[..., ]
    else:
        R = A[tuple(left) + (Ellipsis,) + tuple(right)]
    full = left + [slice(None)] * (len(names) - nl - nr) + right
    _verify(c, A, R, [_conc(x, SIZES[n]) for x, n in zip(full, names)])


def mask1(c, combos):
    """A boolean array along one dimension selects the points of that
    dimension, wherever the dimension sits."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', combos)
    dims = _dims(D, names)
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=dims, unit="V")
    k = c.choice('axis', list(range(len(names))))
    n = SIZES[names[k]]
    bits = [c.bool('m_%d' % q) for q in range(n)]
    bits = [c.truth(b) for b in bits]
    M = D.hfarray(c.np.array(bits), dims=(dims[k],))
    R = A[M]
    sel = [list(range(SIZES[m])) for m in names]
    sel[k] = [q for q in range(n) if bits[q]]
    # the other dimensions keep their relative order
    c.same('masked dimension and the others are all there',
           sorted(dimkey(d) for d in R.dims),
           sorted(dimkey(d) for d in A.dims))
    R = R.reorder_dimensions(*[R.dims.get_matching_dim(d) for d in A.dims])
    _verify(c, A, R, sel)
    R[tuple(slice(0, 1) for _ in names)]


def maskcmp(c):
    """Selecting with a comparison of the data itself."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq',), ('rep',)])
    dims = _dims(D, names)
    n = SIZES[names[0]]
    A = D.hfarray(c.rarray('a', (n,)), dims=dims, unit="V")
    t = c.real('t')
    R = A[A > t]
    keep = [q for q in range(n) if c.truth(el(A, (q,)) > t)]
    _verify(c, A, R, [keep])
    B = D.hfarray(c.rarray('b', (n, 2)), dims=dims + _dims(D, ('i',)))
    R = B[A > t]
    _verify(c, B, R, [keep, [0, 1]])


def mask2(c):
    """A boolean array over several dimensions flattens those dimensions."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq', 'rep'), ('i', 'freq', 'rep'),
                              ('freq', 'rep', 'i')])
    sz = dict(SIZES, freq=2)
    dims = _dims(D, names, sz)
    A = D.hfarray(c.rarray('a', tuple(sz[n] for n in names)), dims=dims)
    md = [d for d in dims if d.name in ('freq', 'rep')]
    bits = {}
    for p in ndindex((2, 2)):
        bits[p] = c.truth(c.bool('m_%d_%d' % p))
    M = D.hfarray(c.np.array([[bits[i, j] for j in range(2)]
                              for i in range(2)]), dims=tuple(md))
    if names[0] == 'freq' and c.choice('plain', [False, True]):
        M = c.np.array([[bits[i, j] for j in range(2)] for i in range(2)])
    R = A[M]
    keep = [p for p in ndindex((2, 2)) if bits[p]]
    c.same('one dimension per remaining axis', len(R.dims), R.ndim)
    ax = [d.name for d in R.dims]
    c.same('other dimensions kept', [a for a in ax if a in ('i',)],
           [a for a in names if a == 'i'])
    pos = [k for k, d in enumerate(R.dims) if d.name != 'i'][0]
    c.same('selected count', R.shape[pos], len(keep))
    c.same('count of coordinates', len(R.dims[pos].data), len(keep))
    for idx in ndindex(R.shape):
        p = keep[idx[pos]]
        src, it = [], iter(p)
        for n in names:
            if n == 'i':
                src.append(idx[ax.index('i')])
            else:
                src.append(next(it))
        c.eq('selected values in order', el(R, idx), el(A, src))


def fancy(c):
    """A plain list, integer array or boolean array along one dimension."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq',), ('freq', 'rep'), ('rep', 'freq')])
    dims = _dims(D, names)
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=dims, unit="V")
    k = names.index('freq')
    pick = c.choice('pick', [[0, 2], [2, 0], [1], [0, 1, 2], [2, 2, 0, 1]])
    form = c.choice('form', ['list', 'array', 'bool', 'mask'])
    if form in ('bool', 'mask'):
        pick = sorted(set(pick))
        ix = c.np.array([q in pick for q in range(3)])
        if form == 'mask':
            ix = D.hfarray(ix, dims=(dims[k],))
    else:
        ix = pick if form == 'list' else c.np.array(pick)
    sel = [list(range(SIZES[m])) for m in names]
    sel[k] = list(pick)
    if len(names) == 1:
        full = (ix,)
    else:
        other = c.choice('other', ['none', 'all', 'int', 'slice', 'dots'])
        o = {'int': 1, 'slice': slice(1, None)}.get(other, slice(None))
        full = (o, ix) if k else (ix, o)
        if other == 'none' and not k:
            full = (ix,)
        elif other == 'dots':
            full = (Ellipsis, ix) if k else (ix, Ellipsis)
        if other == 'int':
            sel[1 - k] = 1
        elif other == 'slice':
            sel[1 - k] = sel[1 - k][1:]
    R = A[full]
    _verify(c, A, R, sel)


def errors(c):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq',), ('freq', 'rep')])
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=_dims(D, names))
    k = c.int('k', -9, 9)
    c.assume((k >= SIZES[names[0]]) | (k < -SIZES[names[0]]))
    c.raises('an index outside the axis is an error', IndexError,
             lambda: A[int(k)])


def large(c):
    """A longer axis: every integer and every start, stop and step."""
    D = c.mod('hftools.dataset')
    n = c.choice('n', [9, 12])
    names = c.choice('dims', [('freq',), ('freq', 'i'), ('rep', 'freq')])
    sz = dict(SIZES, freq=n)
    A = D.hfarray(c.rarray('a', tuple(sz[m] for m in names)),
                  dims=_dims(D, names, sz), unit="V")
    k = names.index('freq')
    form = c.choice('form', ['int', 'lo', 'hi', 'lohi', 'step', 'mask',
                             'list'])
    st = None
    if form == 'int':
        ix = c.int('x', -n, n - 1)
    elif form == 'mask':
        bits = [q % c.choice('every', [2, 3, 5]) == 0 for q in range(n)]
        bits[n - 1] = c.truth(c.bool('last'))
        ix = D.hfarray(c.np.array(bits), dims=A.dims[k:k + 1])
        R = A[ix]
        sel = [list(range(sz[m])) for m in names]
        sel[k] = [q for q in range(n) if bits[q]]
        R = R.reorder_dimensions(*[R.dims.get_matching_dim(d)
                                   for d in A.dims])
        return _verify(c, A, R, sel)
    elif form == 'list':
        pick = c.choice('pick', [[8, 0, 3], [1, 2, 4, 5, 6, 7, 8],
                                 list(range(8, -1, -1)) + [0]])
        R = A[(slice(None),) * k + (pick,)]
        sel = [list(range(sz[m])) for m in names]
        sel[k] = pick
        return _verify(c, A, R, sel)
    else:
        if form == 'step':
            st = c.choice('st', [2, 3, 5, -1, -3])
        lo = c.int('lo', -n - 1, n + 1) if form in ('lo', 'lohi') else \
            c.choice('lo', [None, 1, 7, -2]) if st else None
        hi = c.int('hi', -n - 1, n + 1) if form in ('hi', 'lohi') else \
            c.choice('hi', [None, 2, -1]) if st else None
        if form == 'lohi':
            c.assume((lo >= 5) | (lo < -5))
            c.assume((hi >= 7) | (hi < -7))
        ix = slice(lo, hi, st)
    R = A[(slice(None),) * k + (ix,)]
    full = [slice(None)] * len(names)
    full[k] = ix
    _verify(c, A, R, [_conc(x, sz[m]) for x, m in zip(full, names)])


def four(c):
    """Rank four, one index per axis among a few, in any order of dims."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('freq', 'rep', 'i', 'j'),
                              ('i', 'freq', 'j', 'rep'),
                              ('rep', 'j', 'i', 'freq')])
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)),
                  dims=_dims(D, names), unit="V")
    idx = []
    for k, n in enumerate(names):
        f = c.choice('f%d' % k, ['int', 'full', 'lo'])
        idx.append(slice(None) if f == 'full' else slice(1, None)
                   if f == 'lo' else c.choice('x%d' % k, [0, -1]))
    cut = c.choice('ellipsis', [None, 0, 1, 2, 3, 4])
    if cut is None:
        R = A[tuple(idx)]
    else:
        full = [k for k in range(cut, 4) if idx[k] == slice(None)]
        run = [k for q, k in enumerate(full) if k == cut + q]
        R = A[tuple(idx[:cut]) + (Ellipsis,) + tuple(idx[cut + len(run):])]
    _verify(c, A, R, [_conc(x, SIZES[n]) for x, n in zip(idx, names)])


TWO = [p for p in perms(['freq', 'rep', 'i'], 2) if len(p) == 2]
HARNESSES = [
    H('basic1', lambda c: basic(c, [('freq',), ('rep',)]),
      'one axis (2..3 points), every integer, every start/stop in '
      '[-n-1, n+1], steps 2,3,-1,-2'),
    H('basic2', lambda c: basic(c, TWO, 'lo'),
      'two axes, int/start:/full per axis, all values in range',
      max_paths=40000),
    H('basic2+', lambda c: basic(c, TWO, 'lohi'),
      'two axes, int/start:stop/full per axis, all values in range',
      max_paths=90000, tier='thorough'),
    H('ellipsis', lambda c: ellipsis(c, [('freq',), ('freq', 'rep')]),
      'rank 1-2 with an Ellipsis at every place', max_paths=40000),
    H('ellipsis3', lambda c: ellipsis(c, [('freq', 'rep', 'i')]),
      'rank 3 with an Ellipsis at every place', max_paths=60000),
    H('mask1', lambda c: mask1(c, perms(['freq', 'rep', 'i'], 2)[1:]),
      'every mask over one dimension of rank 1-2 arrays'),
    H('mask1_3', lambda c: mask1(c, [p for p in perms(['freq', 'rep', 'i'])
                                     if len(p) == 3]),
      'every mask over one dimension of rank 3 arrays'),
    H('maskcmp', maskcmp, 'symbolic data and threshold, 2-3 points'),
    H('mask2', mask2, 'every 2x2 mask over two dimensions, rank 2-3'),
    H('fancy', fancy, 'lists/integer arrays/boolean arrays on one axis'),
    H('large', large, '9 and 12 points with one other axis: every integer, '
      'start and stop, steps 2,3,5,-1,-3, masks and lists', max_paths=9000),
    H('four', four, 'rank 4 in 3 orders: integers, 1: and full slices, '
      'Ellipsis anywhere', max_paths=12000),
    H('errors', errors, 'indices in [-9, 9] outside the axis'),
]
ASSUMPTIONS = ["index start/stop beyond n+1 behave as n+1 (slice clipping)"]
