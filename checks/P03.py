"""Reductions and cumulative operations act along the named dimension."""
from .common import H, perms, dimkey, el, ndindex

SIZES = dict(freq=3, rep=2, i=2)


def _dims(D, names, sizes=SIZES):
    mk = {'freq': lambda: D.DimSweep("freq", [10 * (k + 1) for k in
                                             range(sizes['freq'])],
                                     unit="Hz"),
          'rep': lambda: D.DimRep("rep", sizes['rep']),
          'i': lambda: D.DimMatrix_i("i", sizes['i'])}
    return tuple(mk[n]() for n in names)


CLS = dict(freq='DimSweep', rep='DimRep', i='DimMatrix_i')


def _axis(c, D, names, dims, label='axis', forms=('none', 'int', 'neg',
                                                  'name', 'dim', 'class')):
    """-> (argument, set of reduced positions)"""
    form = c.choice(label + '.form', list(forms))
    if form == 'none':
        return None, set(range(len(names)))
    k = c.choice(label + '.k', list(range(len(names))))
    arg = {'int': k, 'neg': k - len(names), 'name': names[k],
           'dim': dims[k], 'class': getattr(D, CLS[names[k]])}[form]
    return arg, {k}


def _groups(shape, red):
    kept = [k for k in range(len(shape)) if k not in red]
    for idx in ndindex([shape[k] for k in kept]):
        cells = []
        for r in ndindex([shape[k] for k in sorted(red)]):
            full = [None] * len(shape)
            for k, v in zip(kept, idx):
                full[k] = v
            for k, v in zip(sorted(red), r):
                full[k] = v
            cells.append(tuple(full))
        yield idx, cells


def _frame(c, A, R, red, keep):
    """check dims; returns function mapping kept index -> element of R"""
    kept = [k for k in range(A.ndim) if k not in red]
    if keep:
        c.same('kept dimensions', [dimkey(d) for d in R.dims],
               [dimkey(d) for d in A.dims])
        c.same('reduced axes have length one', list(R.shape),
               [1 if k in red else A.shape[k] for k in range(A.ndim)])

        def get(idx):
            full = [0] * A.ndim
            for k, v in zip(kept, idx):
                full[k] = v
            return el(R, full)
        return get
    if not kept and not hasattr(R, 'dims'):
        return lambda idx: R
    c.same('remaining dimensions', [dimkey(d) for d in R.dims],
           [dimkey(A.dims[k]) for k in kept])
    c.same('remaining shape', list(R.shape), [A.shape[k] for k in kept])
    for d, k in zip(R.dims, kept):
        c.same('remaining coordinates', list(d.data.tolist()),
               list(A.dims[k].data.tolist()))
    return lambda idx: el(R, idx)


def _tot(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def _ab2(c, x, kind):
    if kind == 'c':
        return x.real * x.real + x.imag * x.imag
    return x * x


def reduce_(c, ops, combos, sizes=SIZES, kinds=('f',), multi=False):
    D = c.mod('hftools.dataset')
    op = c.choice('op', list(ops))
    names = c.choice('dims', combos)
    kind = c.choice('kind', list(kinds)) if op not in ('min', 'max') else 'f'
    dims = _dims(D, names, sizes)
    A = D.hfarray(c.kinds('a', tuple(sizes[n] for n in names), kind),
                  dims=dims)
    if multi:
        a1, r1 = _axis(c, D, names, dims, 'ax1', ('int', 'name', 'class'))
        a2, r2 = _axis(c, D, names, dims, 'ax2', ('neg', 'dim'))
        c.assume(r1 != r2)
        arg, red = c.choice('seq', [tuple, list])([a1, a2]), r1 | r2
    else:
        arg, red = _axis(c, D, names, dims)
    kw = {}
    ddof = 0
    if op in ('std', 'var'):
        ddof = c.choice('ddof', [0, 1, 2])
        c.assume(ddof < 2 or all(A.shape[k] > 2 for k in red))
        if ddof:
            kw['ddof'] = ddof
    keep = False
    if op != 'rss':
        keep = c.choice('keepdims', [False, True])
        if keep:
            kw['keepdims'] = True
    R = getattr(A, op)(arg, **kw)
    get = _frame(c, A, R, red, keep)
    for idx, cells in _groups(A.shape, red):
        xs = [el(A, p) for p in cells]
        v = get(idx)
        n = len(xs)
        if op == 'sum':
            c.eq('sum', v, _tot(xs))
        elif op == 'mean':
            c.eq('mean', v * n, _tot(xs))
        elif op == 'rss':
            c.eq('rss', v * v, _tot([_ab2(c, x, kind) for x in xs]))
            c.check('rss sign', v >= 0)
        elif op in ('std', 'var'):
            m = _tot(xs) / n
            s2 = _tot([_ab2(c, x - m, kind) for x in xs])
            if op == 'var':
                c.eq('variance', v * (n - ddof), s2)
            else:
                c.eq('standard deviation', v * v * (n - ddof), s2)
                c.check('standard deviation sign', v >= 0)
        else:
            best = xs[0]
            for x in xs[1:]:
                if c.truth(x < best if op == 'min' else x > best):
                    best = x
            c.eq(op, v, best)


def mixed_axes(c):
    """Axes given as a mixture of names, numbers, objects and kinds; a kind
    stands for every dimension of that kind."""
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [('rep', 'rep2', 'freq'), ('rep', 'freq', 'rep2'),
                              ('freq', 'rep', 'rep2', 'i'),
                              ('freq', 'rep', 'pow')])
    mk = dict(rep=D.DimRep("rep", 2), rep2=D.DimRep("rep2", 2),
              freq=D.DimSweep("freq", [10, 20]), pow=D.DimSweep("pow", 2),
              i=D.DimMatrix_i("i", 2))
    dims = tuple(mk[n] for n in names)
    A = D.hfarray(c.rarray('a', (2,) * len(names)), dims=dims)
    kind = c.choice('kind', [D.DimRep, D.DimSweep])
    ks = {k for k, n in enumerate(names)
          if n.startswith('rep' if kind is D.DimRep else ('freq', 'pow'))}
    other = [k for k in range(len(names)) if k not in ks]
    extra = c.choice('extra', [None] + other)
    form = c.choice('form', ['name', 'int', 'neg', 'dim'])
    first = c.choice('first', [True, False])
    if extra is None:
        arg, red = kind, ks
        if form in ('int', 'neg'):
            arg = [kind] if form == 'int' else (kind,)
    else:
        e = dict(name=names[extra], int=extra, neg=extra - len(names),
                 dim=dims[extra])[form]
        arg, red = ((e, kind) if first else [kind, e]), ks | {extra}
    op = c.choice('op', ['sum', 'mean'])
    R = getattr(A, op)(arg)
    get = _frame(c, A, R, red, False)
    for idx, cells in _groups(A.shape, red):
        xs = [el(A, p) for p in cells]
        c.eq(op, get(idx), _tot(xs) if op == 'sum' else _tot(xs) / len(xs))


def cumulative(c, combos, SIZES=SIZES, kinds=('f', 'c')):
    D = c.mod('hftools.dataset')
    op = c.choice('op', ['cumsum', 'cumprod'])
    names = c.choice('dims', combos)
    kind = c.choice('kind', list(kinds))
    dims = _dims(D, names, SIZES)
    A = D.hfarray(c.kinds('a', tuple(SIZES[n] for n in names), kind),
                  dims=dims)
    arg, red = _axis(c, D, names, dims, forms=('int', 'neg', 'name', 'dim',
                                               'class'))
    k = list(red)[0]
    R = getattr(A, op)(arg)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    for idx in ndindex(A.shape):
        acc = None
        for q in range(idx[k] + 1):
            p = list(idx)
            p[k] = q
            x = el(A, p)
            acc = x if acc is None else (acc + x if op == 'cumsum'
                                         else acc * x)
        c.eq(op, el(R, idx), acc)


def twins(c):
    """Dimensions with one name (the variable and the derivative of a sweep)
    are told apart by number, object and kind."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.dim')
    dims = (M.IndepAxis("f", [1, 2]), M.DerivAxis("f", [1, 2, 3]))
    if c.choice('swap', [False, True]):
        dims = dims[::-1]
    A = D.hfarray(c.rarray('a', tuple(len(d.data) for d in dims)), dims=dims)
    k = c.choice('k', [0, 1])
    arg = {'int': k, 'neg': k - 2, 'dim': dims[k],
           'class': type(dims[k])}[c.choice('form', ['int', 'neg', 'dim',
                                                     'class'])]
    op = c.choice('op', ['sum', 'mean', 'cumsum', 'cumprod', 'take'])
    if op in ('sum', 'mean'):
        R = getattr(A, op)(arg)
        get = _frame(c, A, R, {k}, False)
        for idx, cells in _groups(A.shape, {k}):
            xs = [el(A, p) for p in cells]
            c.eq(op, get(idx) * (len(xs) if op == 'mean' else 1), _tot(xs))
        return
    if op == 'take':
        R = A.take([1, 0], arg)
        c.same('coordinates', [d.data.tolist() for d in R.dims],
               [[2, 1] if q == k else d.data.tolist()
                for q, d in enumerate(dims)])
    else:
        R = getattr(A, op)(arg)
        c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
               [dimkey(d) for d in A.dims])
    for idx in ndindex(R.shape):
        p = list(idx)
        if op == 'take':
            p[k] = 1 - idx[k]
            c.eq('taken', el(R, idx), el(A, p))
            continue
        acc = None
        for q in range(idx[k] + 1):
            p[k] = q
            x = el(A, p)
            acc = x if acc is None else (acc + x if op == 'cumsum'
                                         else acc * x)
        c.eq(op, el(R, idx), acc)


def extreme_large(c):
    """The largest and smallest of many points: the result is one of them
    and none lies beyond it."""
    D = c.mod('hftools.dataset')
    names, sizes = c.choice('dims', [(('freq',), dict(freq=9)),
                                     (('freq', 'rep'), dict(freq=7, rep=2)),
                                     (('rep', 'freq'), dict(freq=7, rep=2))])
    op = c.choice('op', ['min', 'max'])
    dims = _dims(D, names, dict(SIZES, **sizes))
    # one point is compared with known values
    sh = tuple(sizes[n] for n in names)
    data = {p: ((sum((k + 2) * x for k, x in enumerate(p)) * 7) % 11) - 5
            for p in ndindex(sh)}
    free = c.choice('free', [p for p in ndindex(sh)])
    x = c.real('x')
    data[free] = x
    a = c.np.array(c.rarray('z', sh))
    for p in ndindex(sh):
        a[p] = data[p]
    A = D.hfarray(a, dims=dims)
    arg, red = _axis(c, D, names, dims, forms=('none', 'name', 'neg'))
    R = getattr(A, op)(arg)
    get = _frame(c, A, R, red, False)
    for idx, cells in _groups(A.shape, red):
        xs = [data[p] for p in cells if p != free]
        best = min(xs) if op == 'min' else max(xs)
        if free in cells and c.truth(x < best if op == 'min' else x > best):
            best = x
        c.eq(op, get(idx), best)


def missing(c):
    """A dimension the array does not have is an error, or is ignored with
    dimerror=False."""
    D = c.mod('hftools.dataset')
    op = c.choice('op', ['sum', 'mean', 'std', 'var', 'min', 'max'])
    names = c.choice('dims', perms(['freq', 'rep'], 2)[1:])
    dims = _dims(D, names)
    A = D.hfarray(c.rarray('a', tuple(SIZES[n] for n in names)), dims=dims)
    axis = c.choice('axis', ['nope', D.DimSweep('nope', 3)])
    c.raises('unknown dimension', IndexError, getattr(A, op), axis)
    cum = c.choice('cum', [A.cumsum, A.cumprod])
    c.raises('no such kind', IndexError, cum, D.DimMatrix_i)
    c.raises('no such dimension', IndexError, cum, 'nope')
    B = D.hfarray(c.rarray('b', (2, 2)), dims=(D.DimSweep('p', 2),
                                               D.DimSweep('q', 2)))
    c.raises('two of that kind', IndexError, B.cumsum, D.DimSweep)
    c.raises('no dimension given', Exception, cum, None)
    R = getattr(A, op)(axis, dimerror=False)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    for idx in ndindex(A.shape):
        c.eq('values unchanged', el(R, idx), el(A, idx))


def squeeze(c):
    D = c.mod('hftools.dataset')
    names = c.choice('dims', [p for p in perms(['freq', 'rep', 'i'], 3)
                              if len(p) >= 2])
    sizes = {n: c.choice('n' + n, [1, 2]) for n in names}
    dims = _dims(D, names, dict(SIZES, **sizes))
    A = D.hfarray(c.rarray('a', tuple(sizes[n] for n in names)), dims=dims)
    form = c.choice('form', ['none', 'int', 'neg', 'name', 'dim'])
    if form == 'none':
        R = A.squeeze()
        red = {k for k, n in enumerate(names) if sizes[n] == 1}
    else:
        k = c.choice('k', list(range(len(names))))
        c.assume(sizes[names[k]] == 1)
        R = A.squeeze({'int': k, 'neg': k - len(names), 'name': names[k],
                       'dim': dims[k]}[form])
        red = {k}
    get = _frame(c, A, R, red, False)
    for idx, cells in _groups(A.shape, red):
        c.eq('values', get(idx), el(A, cells[0]))


P1 = [('freq',), ('rep',)]
P2 = [p for p in perms(['freq', 'rep', 'i'], 2) if len(p) == 2]
P3 = [p for p in perms(['freq', 'rep', 'i'], 3) if len(p) == 3]
SMALL = dict(freq=2, rep=2, i=2)
LIN = ('sum', 'mean', 'rss')
HARNESSES = [
    H('linear', lambda c: reduce_(c, LIN, P1 + P2, kinds=('f', 'c')),
      'sum/mean/rss, rank 1-2, 2-3 points', max_paths=6000),
    H('spread', lambda c: reduce_(c, ('std', 'var'), P1 + P2[:3],
                                  kinds=('f', 'c')),
      'std/var with ddof 0-2, rank 1-2, 2-3 points'),
    H('extreme', lambda c: reduce_(c, ('min', 'max'), P1 + P2[:3],
                                   dict(freq=2, rep=2, i=2)),
      'min/max, every ordering of the values, rank 1-2, 2 points'),
    H('extreme3', lambda c: reduce_(c, ('min', 'max'), [('freq',)]),
      'min/max, every ordering of 3 values'),
    H('mixed_axes', mixed_axes, 'rank 3-4, 2 points each'),
    H('rss', lambda c: reduce_(c, ('rss',), P1 + P2, SMALL,
                               kinds=('f', 'c')), 'rank 1-2'),
    H('multi', lambda c: reduce_(c, ('sum', 'mean', 'var'), P2 + P3[:2],
                                 SMALL, multi=True),
      'two dimensions at once, rank 2-3'),
    H('linear3', lambda c: reduce_(c, LIN[:2], P3, kinds=('f', 'c')),
      'sum/mean, rank 3'),
    H('rss3', lambda c: reduce_(c, LIN[2:], P3, kinds=('c',)),
      'rss of complex values, rank 3'),
    H('rss_large', lambda c: reduce_(c, LIN[2:], [('freq',), ('rep', 'freq')],
                                     dict(freq=9, rep=3), kinds=('c',)),
      'rss of complex values, 9 x 3 points'),
    H('linear_large', lambda c: reduce_(c, LIN[:2], [('freq',), ('freq', 'rep'),
                                                 ('i', 'freq')],
                                        dict(freq=9, rep=4, i=3)),
      'sum/mean, 9 x 4 points'),
    H('spread_large', lambda c: reduce_(c, ('std', 'var'),
                                        [('freq',), ('rep', 'freq')],
                                        dict(freq=8, rep=3, i=3)),
      'std/var, 8 x 3 points'),
    H('extreme_large', extreme_large, '9 and 7 x 2 points, one of them '
      'symbolic'),
    H('spread3', lambda c: reduce_(c, ('std', 'var'), P3[1:3], SMALL,
                                   kinds=('f', 'c')),
      'std/var, rank 3'),
    H('extreme2x3', lambda c: reduce_(c, ('min', 'max'), [('freq', 'rep')]),
      'min/max rank 2, 2-3 points', tier='thorough', max_paths=100000),
    H('cumulative', lambda c: cumulative(c, P1 + P2),
      'cumsum/cumprod, rank 1-2'),
    H('cumulative3', lambda c: cumulative(c, P3),
      'cumsum/cumprod, rank 3'),
    H('cumulative_large', lambda c: cumulative(
        c, [('freq',), ('rep', 'freq')], dict(freq=9, rep=3, i=2), ('f',)),
      'cumsum/cumprod, 9 x 3 points'),
    H('twins', twins, 'two dimensions of one name, 2 and 3 points'),
    H('missing', missing, 'rank 1-2'),
    H('squeeze', squeeze, 'rank 2-3, 1-2 points'),
]
ASSUMPTIONS = []
