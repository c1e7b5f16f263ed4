"""Arithmetic between arrays pairs elements by dimension name and kind."""
import operator
from .common import H, perms, dimkey, el, at, ndindex

OPS = [('add', operator.add), ('sub', operator.sub), ('mul', operator.mul),
       ('truediv', operator.truediv), ('eq', operator.eq)]
BOPS = [('and', operator.and_), ('or', operator.or_), ('xor', operator.xor)]


def _pool(D, sizes):
    return {'freq': D.DimSweep("freq", [10 * (k + 1) for k in
                                        range(sizes['freq'])]),
            'pow': D.DimSweep("pow", [k - 3 for k in range(sizes['pow'])]),
            'rep': D.DimRep("rep", range(sizes['rep'])),
            'i': D.DimMatrix_i("i", sizes['i']),
            'j': D.DimMatrix_j("j", sizes['j'])}


def _scal(op, x, y):
    return op(x, y)


def pairwise(c, names, maxlen, sizes, ops, kinds=('f', 'f')):
    D = c.mod('hftools.dataset')
    if isinstance(sizes, list):
        sizes = c.choice('sizes', sizes)
    pool = _pool(D, sizes)
    alldims = perms(names, maxlen)
    da = c.choice('dimsA', alldims)
    db = c.choice('dimsB', alldims)
    opn, op = c.choice('op', ops)
    order = c.choice('memory', ['C', 'F'])
    mk = lambda n, dims, k: D.hfarray(
        c.np.array(c.kinds(n, tuple(sizes[d] for d in dims), k,
                           **({'nonzero': True} if k in 'fc' else {})),
                   order=order),
        dims=tuple(pool[d] for d in dims))
    A, B = mk('a', da, kinds[0]), mk('b', db, kinds[1])
    R = op(A, B)
    c.check('the result is an array with dimensions', hasattr(R, 'dims'))
    want = {dimkey(pool[d]) for d in da} | {dimkey(pool[d]) for d in db}
    c.same('result has the union of the dimensions, once each',
           sorted(dimkey(d) for d in R.dims), sorted(want))
    pr = [d.sortprio for d in R.dims]
    c.same('sweeps come before repetitions before matrix indices',
           pr, sorted(pr))
    for d in R.dims:
        p = pool[d.name]
        c.same('coordinates of %s kept' % d.name, list(d.data.tolist()),
               list(p.data.tolist()))
        c.same('axis length', R.shape[R.dims_index(d.name)],
               sizes[d.name])
    for idx in ndindex(R.shape):
        coord = {dimkey(d): i for d, i in zip(R.dims, idx)}
        c.eq('element pairs by dimension', el(R, idx),
             _scal(op, at(A, coord), at(B, coord)))


def three(c):
    swap = c.choice('swap', [False, True])
    names = ['freq', 'rep', 'pow']
    full = [p for p in perms(names) if len(p) == 3]
    da, db = c.choice('A', full), c.choice('B', perms(names)[1:])
    if swap:
        da, db = db, da
    _fixed(c, da, db, c.choice('sizes', [dict(freq=2, rep=2, pow=2),
                                         dict(freq=2, rep=3, pow=1)]),
           c.choice('op', [OPS[0], OPS[1]]), c.choice('memory', ['C', 'F']))


def four(c):
    names = ['freq', 'rep', 'i', 'j']
    da = c.choice('A', [p for p in perms(names) if len(p) == 4])
    db = c.choice('B', [('freq',), ('rep', 'j'), ('i',), ('freq', 'rep',
                                                          'i', 'j')])
    if c.choice('swap', [False, True]):
        da, db = db, da
    _fixed(c, da, db, dict(freq=2, rep=2, i=2, j=2, pow=2), OPS[0], 'C')


def _fixed(c, da, db, sizes, op, order):
    sizes = dict(dict(i=2, j=2, pow=2), **sizes)
    D = c.mod('hftools.dataset')
    pool = _pool(D, sizes)
    mk = lambda n, dims: D.hfarray(
        c.np.array(c.rarray(n, tuple(sizes[d] for d in dims)), order=order),
        dims=tuple(pool[d] for d in dims))
    A, B = mk('a', da), mk('b', db)
    R = op[1](A, B)
    c.same('result has the union of the dimensions, once each',
           sorted(dimkey(d) for d in R.dims),
           sorted(dimkey(pool[d]) for d in set(da) | set(db)))
    pr = [d.sortprio for d in R.dims]
    c.same('sweeps come before repetitions before matrix indices',
           pr, sorted(pr))
    for d in R.dims:
        c.same('coordinates of %s kept' % d.name, list(d.data.tolist()),
               list(pool[d.name].data.tolist()))
    c.same('shape', list(R.shape), [sizes[d.name] for d in R.dims])
    for idx in ndindex(R.shape):
        coord = {dimkey(d): i for d, i in zip(R.dims, idx)}
        c.eq('element pairs by dimension', el(R, idx),
             op[1](at(A, coord), at(B, coord)))


def scalars(c):
    """array op scalar and scalar op array, every operator."""
    D = c.mod('hftools.dataset')
    sizes = dict(freq=2, rep=2, pow=2, i=2, j=2)
    pool = _pool(D, sizes)
    da = c.choice('dims', perms(['freq', 'rep'], 2))
    kind = c.choice('scalar kind', ['f', 'i', 'c'])
    akind = c.choice('array kind', ['f', 'c'])
    side = c.choice('side', ['left', 'right'])
    opn, op = c.choice('op', OPS)
    A = D.hfarray(c.kinds('a', tuple(sizes[d] for d in da), akind,
                          nonzero=True), dims=tuple(pool[d] for d in da))
    if kind == 'i':
        s = c.choice('int', [3, -2])
    elif kind == 'f':
        s = c.real('s', nonzero=True)
    else:
        s = c.cplx('s', nonzero=True)
    R = op(A, s) if side == 'left' else op(s, A)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    for idx in ndindex(A.shape):
        x = el(A, idx)
        c.eq('elementwise with a scalar', el(R, idx),
             op(x, s) if side == 'left' else op(s, x))


def power(c):
    D = c.mod('hftools.dataset')
    sizes = dict(freq=2, rep=2, pow=2, i=2, j=2)
    pool = _pool(D, sizes)
    da = c.choice('dims', perms(['freq', 'rep'], 2))
    n = c.choice('n', [0, 1, 2, 3, -1, 0.5])
    A = D.hfarray(c.rarray('a', tuple(sizes[d] for d in da), pos=True),
                  dims=tuple(pool[d] for d in da))
    R = A ** n
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    for idx in ndindex(A.shape):
        x = el(A, idx)
        if n == 0.5:
            c.eq('square root', el(R, idx) * el(R, idx), x)
        elif n == -1:
            c.eq('inverse', el(R, idx) * x, 1)
        else:
            w = 1
            for _ in range(n):
                w = w * x
            c.eq('integer power', el(R, idx), w)
    N = D.hfarray(c.np.array([0, 1, 2]), dims=(D.DimSweep("n", 3),))
    R = A ** N
    for idx in ndindex(R.shape):
        coord = {dimkey(d): i for d, i in zip(R.dims, idx)}
        x = at(A, coord)
        w = 1
        for _ in range(int(at(N, coord))):
            w = w * x
        c.eq('power pairs by dimension', el(R, idx), w)


def plain(c):
    """hfarray op plain ndarray of the same shape keeps the dims."""
    D = c.mod('hftools.dataset')
    sizes = dict(freq=2, rep=3, pow=2, i=2, j=2)
    pool = _pool(D, sizes)
    da = c.choice('dims', [('freq',), ('freq', 'rep')])
    opn, op = c.choice('op', OPS)
    sh = tuple(sizes[d] for d in da)
    A = D.hfarray(c.rarray('a', sh, nonzero=True),
                  dims=tuple(pool[d] for d in da))
    b = c.rarray('b', sh, nonzero=True)
    R = op(A, b)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in A.dims])
    for idx in ndindex(A.shape):
        c.eq('elementwise with an ndarray', el(R, idx),
             op(el(A, idx), el(b, idx)))


def unary(c):
    D = c.mod('hftools.dataset')
    sizes = dict(freq=2, rep=2, pow=2, i=2, j=2)
    pool = _pool(D, sizes)
    da = c.choice('dims', perms(['freq', 'rep'], 2))
    k = c.choice('kind', ['f', 'c'])
    unit = c.choice('unit', [None, 'V'])
    A = D.hfarray(c.kinds('a', tuple(sizes[d] for d in da), k),
                  dims=tuple(pool[d] for d in da), unit=unit)
    for nm, f in (('neg', operator.neg), ('abs', abs)):
        R = f(A)
        c.same(nm + ' keeps dims', [dimkey(d) for d in R.dims],
               [dimkey(d) for d in A.dims])
        for idx in ndindex(A.shape):
            x = el(A, idx)
            if nm == 'neg':
                c.eq('negation', el(R, idx), -x)
            else:
                y = el(R, idx)
                c.check('modulus is non-negative', y >= 0)
                c.eq('modulus', y * y, x.real * x.real + x.imag * x.imag)


CMP = [('ne', operator.ne), ('lt', operator.lt), ('le', operator.le),
       ('gt', operator.gt), ('ge', operator.ge)]
INPLACE = [('iadd', operator.iadd, operator.add),
           ('isub', operator.isub, operator.sub),
           ('imul', operator.imul, operator.mul),
           ('itruediv', operator.itruediv, operator.truediv)]


def inplace(c):
    """An operation in place pairs by dimension too and changes the array it
    is given; what does not fit is refused, leaving it as it was."""
    D = c.mod('hftools.dataset')
    sizes = c.choice('sizes', [dict(freq=2, rep=2, pow=2, i=2, j=2),
                               dict(freq=2, rep=3, pow=1, i=2, j=2)])
    pool = _pool(D, sizes)
    names = ['freq', 'rep', 'pow']
    da, db = c.choice('A', perms(names, 3)), c.choice('B', perms(names, 2))
    nm, iop, op = c.choice('op', INPLACE)
    mk = lambda n, dims: D.hfarray(
        c.rarray(n, tuple(sizes[d] for d in dims), nonzero=True),
        dims=tuple(pool[d] for d in dims))
    A, B = mk('a', da), mk('b', db)
    old = {i: el(A, i) for i in ndindex(A.shape)}
    view = A[...]
    if set(db) - set(da):
        c.raises('no room for the result', ValueError, iop, A, B)
        R = A
    else:
        R = iop(A, B)
        c.check('the same array', R is A)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(pool[d]) for d in da])
    for idx in ndindex(A.shape):
        coord = {dimkey(d): i for d, i in zip(A.dims, idx)}
        want = old[idx]
        if not set(db) - set(da):
            want = op(want, at(B, coord))
        c.eq('element pairs by dimension', el(R, idx), want)
        c.eq('changed in place', el(view, idx), want)


def inplace_more(c):
    """Scalars and plain arrays; logical operations."""
    D = c.mod('hftools.dataset')
    sizes = dict(freq=2, rep=2, pow=2, i=2, j=2)
    pool = _pool(D, sizes)
    da = c.choice('dims', perms(['freq', 'rep'], 2)[1:])
    dims = tuple(pool[d] for d in da)
    what = c.choice('what', ['scalar', 'plain', 'bool'])
    if what == 'bool':
        db = c.choice('B', [p for p in perms(['freq', 'rep'], 2)
                            if set(p) <= set(da)])
        A = D.hfarray(c.kinds('a', (2,) * len(da), 'b'), dims=dims)
        B = D.hfarray(c.kinds('b', (2,) * len(db), 'b'),
                      dims=tuple(pool[d] for d in db))
        iop, op = c.choice('op', [(operator.iand, operator.and_),
                                  (operator.ior, operator.or_),
                                  (operator.ixor, operator.xor)])
    else:
        A = D.hfarray(c.rarray('a', (2,) * len(da)), dims=dims)
        B = c.real('s', nonzero=True) if what == 'scalar' else \
            c.rarray('b', (2,) * len(da), nonzero=True)
        nm, iop, op = c.choice('op', INPLACE)
    old = {i: el(A, i) for i in ndindex(A.shape)}
    R = iop(A, B)
    c.same('dimensions unchanged', [dimkey(d) for d in R.dims],
           [dimkey(d) for d in dims])
    for idx in ndindex(A.shape):
        coord = {dimkey(d): i for d, i in zip(A.dims, idx)}
        b = at(B, coord) if what == 'bool' else \
            B if what == 'scalar' else el(B, idx)
        c.eq('elementwise', el(R, idx), op(old[idx], b))


def large(c):
    """More points and dimensions than in the other harnesses."""
    D = c.mod('hftools.dataset')
    sizes = dict(freq=c.choice('nf', [7, 11]), rep=5, pow=3, i=2, j=2)
    da, db = c.choice('dims', [
        (('freq', 'rep'), ('rep', 'freq')), (('rep', 'freq'), ('freq',)),
        (('freq',), ('rep',)), (('freq', 'pow'), ('rep', 'pow')),
        (('j', 'freq'), ('freq', 'i')), (('freq',), ('freq',)),
        (('pow', 'rep', 'freq'), ('freq', 'rep'))])
    _fixed(c, da, db, sizes, c.choice('op', [OPS[0], OPS[2]]), 'C')


def many(c):
    """Five dimensions, in any order that rotation gives."""
    names = ['freq', 'pow', 'rep', 'i', 'j']
    k = c.choice('rotate', [0, 1, 2, 3, 4])
    da = names[k:] + names[:k]
    if c.choice('reverse', [False, True]):
        da = da[::-1]
    db = c.choice('B', [('freq', 'pow', 'rep', 'i', 'j'), ('pow', 'j'),
                        ('j', 'i', 'rep', 'pow', 'freq')])
    if c.choice('swap', [False, True]):
        da, db = db, da
    _fixed(c, tuple(da), tuple(db), dict(freq=2, rep=2, i=2, j=2, pow=2),
           OPS[1], 'C')


def twins(c):
    """Dimensions of different kinds are different dimensions, also when they
    have the same name (the variable and the derivative of one sweep)."""
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.dim')
    mk = {'indep': lambda: M.IndepAxis("f", [1, 2]),
          'deriv': lambda: M.DerivAxis("f", [1, 2, 3]),
          'sweep': lambda: D.DimSweep("f", [5, 6]),
          'rep': lambda: D.DimRep("f", [7, 8, 9])}
    n = dict(indep=2, deriv=3, sweep=2, rep=3)
    cand = [('indep', 'deriv'), ('deriv', 'indep'), ('sweep', 'rep'),
            ('rep', 'sweep'), ('indep',), ('deriv',), ('sweep',), ('rep',)]
    da, db = c.choice('A', cand), c.choice('B', cand)
    opn, op = c.choice('op', OPS[:3])
    mka = lambda nm, ds: D.hfarray(c.rarray(nm, tuple(n[d] for d in ds)),
                                   dims=tuple(mk[d]() for d in ds))
    A, B = mka('a', da), mka('b', db)
    R = op(A, B)
    c.same('result has the union of the dimensions, once each',
           sorted(dimkey(d) for d in R.dims),
           sorted({dimkey(mk[d]()) for d in da + db}))
    for d, k in zip(R.dims, R.shape):
        c.same('coordinates kept', k, len(d.data))
    for idx in ndindex(R.shape):
        coord = {dimkey(d): i for d, i in zip(R.dims, idx)}
        c.eq('element pairs by dimension', el(R, idx),
             op(at(A, coord), at(B, coord)))


_S = dict(freq=2, pow=3, rep=2, i=2, j=2)
_S2 = dict(freq=2, pow=2, rep=3, i=2, j=2)
HARNESSES = [
    H('pair sweep/rep', pairwise,
      "dims of each operand: every ordered subset of {freq(2), rep(3), "
      "pow(2)} with at most 2 dims; + - * / ==; C and F memory order; all "
      "element values symbolic reals",
      params=dict(names=['freq', 'rep', 'pow'], maxlen=2, sizes=_S2,
                  ops=OPS)),
    H('pair three', three,
      "left operand with every order of freq, rep, pow (equal and unequal "
      "lengths), right operand with every ordered subset of at most 2 or "
      "all 3; +, and the other way round; C and F memory order"),
    H('pair four', four,
      "four dimensions of equal length in every order against one to four "
      "of them in canonical order"),
    H('pair matrix', pairwise,
      "every ordered subset (<=2) of {freq(2), i(2), j(2)}, symbolic complex "
      "values, + - *",
      params=dict(names=['freq', 'i', 'j'], maxlen=2, sizes=_S, ops=OPS[:3],
                  kinds=('c', 'c'))),
    H('pair mixed kinds', pairwise,
      "real array with complex array, dims from {freq(2), rep(3)}",
      params=dict(names=['freq', 'rep'], maxlen=2, sizes=_S2, ops=OPS[:4],
                  kinds=('f', 'c'))),
    H('pair boolean', pairwise,
      "boolean arrays, & | ^, dims from {freq(2), rep(3)}",
      params=dict(names=['freq', 'rep'], maxlen=2, sizes=dict(_S2, rep=2),
                  ops=BOPS, kinds=('b', 'b'))),
    H('pair compare', pairwise,
      "!= < <= > >=, dims from {freq(2), rep(2)} and unequal lengths",
      params=dict(names=['freq', 'rep'], maxlen=2,
                  sizes=[dict(_S2, rep=2), _S2], ops=CMP), max_paths=20000),
    H('inplace', inplace, "+= -= *= /=, ordered subsets of {freq, rep, pow}"
      " (up to 3 on the left, 2 on the right), equal and unequal lengths"),
    H('inplace_more', inplace_more, "scalars, plain arrays and &= |= ^=, "
      "dims from {freq(2), rep(2)}"),
    H('large', large, "up to 11 x 5 x 3 points, + and *"),
    H('twins', twins, "dimensions of one name and different kinds, + - *"),
    H('many', many, "five dimensions in 10 orders, -"),
    H('scalars', scalars, "dims from {freq(2), rep(2)}; int/real/complex "
      "scalar on either side of every operator"),
    H('power', power, "exponents 0,1,2,3,-1,1/2 and an exponent array"),
    H('plain ndarray', plain, "same-shape plain array as right operand"),
    H('unary', unary, "negation and modulus, real and complex"),
    H('pair sweep/rep+', pairwise,
      "as 'pair sweep/rep' with up to 3 dims per operand",
      max_paths=40000,
      params=dict(names=['freq', 'rep', 'pow'], maxlen=3, sizes=_S2,
                  ops=OPS)),
    H('pair matrix+', pairwise,
      "as 'pair matrix' with 3 dims and rep",
      max_paths=40000,
      params=dict(names=['freq', 'rep', 'i', 'j'], maxlen=3, sizes=_S2,
                  ops=OPS[:3], kinds=('c', 'c'))),
]
