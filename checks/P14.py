"""Interpolation and smoothing."""
from .common import H, el, ndindex


def _inc(c, n, p='x'):
    """n strictly increasing symbolic abscissae"""
    xs = [c.real('%s%d' % (p, k)) for k in range(n)]
    for k in range(1, n):
        c.assume(xs[k - 1] < xs[k])
    return xs


def _num(c, name, kind):
    return c.cplx(name) if kind == 'c' else c.real(name)


def linear(c, n, kind, fname):
    """The interpolant is the line through the two neighbouring points;
    interpolate refuses to extrapolate, linear_extrapolate continues the
    outermost line."""
    M = c.mod('hftools.math')
    xs = _inc(c, n)
    ys = [_num(c, 'y%d' % k, kind) for k in range(n)]
    q = [c.real('q%d' % k) for k in range(2)]
    form = c.choice('form', ['array', 'list'])
    X, Y, Q = (c.np.array(v) if form == 'array' else list(v)
               for v in (xs, ys, q))
    f = getattr(M, fname)
    below = any(bool(v < xs[0]) for v in q)
    above = any(bool(v > xs[-1]) for v in q)
    if fname == 'interpolate' and (below or above):
        c.raises('outside', ValueError, f, X, Y, Q)
        return
    r = f(X, Y, Q)
    c.same('shape', r.shape, (2,))
    for m, v in enumerate(q):
        k = 0
        while k < n - 2 and bool(v > xs[k + 1]):
            k += 1
        # (r - y_k)(x_k+1 - x_k) = (v - x_k)(y_k+1 - y_k)
        c.eq('on the line', (el(r, (m,)) - ys[k]) * (xs[k + 1] - xs[k]),
             (v - xs[k]) * (ys[k + 1] - ys[k]))


def long_table(c):
    """A longer table with known abscissae, some of them close together."""
    M = c.mod('hftools.math')
    xs = [0, 1, 2, 2.5, 2.75, 4, 6, 7, 11, 12, 12.5, 40]
    xs = xs[:c.choice('n', [9, 12])]
    n = len(xs)
    kind = c.choice('kind', 'fc')
    ys = [_num(c, 'y%d' % k, kind) for k in range(n)]
    fname = c.choice('fn', ['interpolate', 'linear_extrapolate'])
    q = [c.real('q'), 3, xs[-1]]
    if fname == 'interpolate':
        c.assume(q[0] >= xs[0])
        c.assume(q[0] <= xs[-1])
    r = getattr(M, fname)(c.np.array(xs), c.np.array(ys), c.np.array(q))
    for m, v in enumerate(q):
        k = 0
        while k < n - 2 and bool(v > xs[k + 1]):
            k += 1
        c.eq('on the line', (el(r, (m,)) - ys[k]) * (xs[k + 1] - xs[k]),
             (v - xs[k]) * (ys[k + 1] - ys[k]))


def smooth(c, n, kind):
    """A point is the mean of the samples in the aperture around it, which
    shrinks towards the ends."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    ap = c.choice('aperture', [1, 2, 3, 4, 5])
    form = c.choice('form', ['1d', '2d', 'axis1', 'hf', 'hf2', 'hf2 axis1'])
    ax = 1 if 'axis1' in form else 0
    if form in ('1d', 'hf'):
        a = c.kinds('a', (n,), kind)
    else:
        a = c.kinds('a', (2, n) if ax else (n, 2), kind)
    if form.startswith('hf'):
        f, r = D.DimSweep("f", n), D.DimRep("r", 2)
        a = D.hfarray(a, dims=(f,) if a.ndim == 1 else
                      ((r, f) if ax else (f, r)), unit="V")
    R = M.smooth(a, ap, axis=ax) if ax else M.smooth(a, ap)
    c.same('shape', R.shape, a.shape)
    if form.startswith('hf'):
        c.same('dims', [d.name for d in R.dims], [d.name for d in a.dims])
    for idx in ndindex(a.shape):
        i = idx[ax]
        wid = min(i, ap // 2, n - 1 - i)
        if wid:
            ws = range(i - wid, i + wid + ap % 2)
        else:
            ws = [i]
        tot = 0
        for w in ws:
            tot = tot + el(a, idx[:ax] + (w,) + idx[ax + 1:])
        c.eq('mean over the aperture', el(R, idx) * len(ws), tot)


def poly(c, n):
    """A polynomial of the fitted degree (or less) is unchanged, and the
    result is linear in the data."""
    M = c.mod('hftools.math')
    ap = c.choice('aperture', [3, 4, 5])
    N = c.choice('degree', [d for d in (0, 1, 2, 3) if d + 1 <= ap])
    grid = c.choice('grid', ['even', 'uneven'])
    xs = list(range(n)) if grid == 'even' else [k * k + k for k in range(n)]
    kind = c.choice('kind', ['f', 'i', 'c'])
    form = c.choice('form', ['1d', '2d', 'axis1'])
    co = list(c.kinds('c', (N + 1,), kind))
    x = c.np.array([float(v) for v in xs])
    ys = []
    for v in xs:
        t = 0
        for k in range(N, -1, -1):
            t = t * v + co[k]
        ys.append(t)
    if form == '1d':
        r = M.poly_smooth(x, c.np.array(ys), ap, N=N)
        for k in range(n):
            c.eq('polynomial reproduced', el(r, (k,)), ys[k])
    elif form == '2d':
        r = M.poly_smooth(x, c.np.array([[y, 2 * y] for y in ys]), ap, N=N)
        for k in range(n):
            c.eq('polynomial reproduced', el(r, (k, 0)), ys[k])
            c.eq('polynomial reproduced', el(r, (k, 1)), 2 * ys[k])
    else:
        r = M.poly_smooth(x, c.np.array([ys, [2 * y for y in ys]]), ap,
                          axis=1, N=N)
        for k in range(n):
            c.eq('polynomial reproduced', el(r, (0, k)), ys[k])
            c.eq('polynomial reproduced', el(r, (1, k)), 2 * ys[k])


def poly_local(c, n):
    """Every point is the value of the least-squares polynomial through
    `aperture` neighbouring samples that include it (the last sample uses
    the preceding window): the residual is orthogonal to the polynomials."""
    M = c.mod('hftools.math')
    ap = c.choice('aperture', [3, 4, 5])
    N = c.choice('degree', [0, 1, 2, 'default'])
    opt = dict(N=N)
    if N == 'default':
        ap = ap + 1
        N, opt = 3, {}
    x = c.np.array([float(k) for k in range(n)])
    kind = c.choice('kind', ['f', 'i'])
    y = c.kinds('y', (n,), kind)
    z = c.rarray('z', (n,))
    s = c.real('s')
    r1 = M.poly_smooth(x, y, ap, **opt)
    r2 = M.poly_smooth(x, z, ap, **opt)
    r3 = M.poly_smooth(x, y + s * z, ap, **opt)
    for k in range(n):
        c.eq('linear', el(r3, (k,)), el(r1, (k,)) + s * el(r2, (k,)))
    for k in range(n):
        st = min(max(k - ap // 2, 0), n - ap)
        h = _hat(list(range(st, st + ap)), k, N)
        want = 0
        for q in range(ap):
            want = want + el(y, (st + q,)) * h[q]
        c.eq('least squares over the window', el(r1, (k,)), want)


def _hat(xs, x, N):
    """weights w with p(x) = sum(w*y) for the least-squares polynomial p of
    degree N through (xs, y), exactly"""
    V = [[Frac(v) ** j for j in range(N + 1)] for v in xs]
    G = [[sum(V[r][i] * V[r][j] for r in range(len(xs)))
          for j in range(N + 1)] for i in range(N + 1)]
    b = [Frac(x) ** j for j in range(N + 1)]
    m = N + 1
    A = [G[i] + [b[i]] for i in range(m)]
    for i in range(m):
        p = [r for r in range(i, m) if A[r][i] != 0][0]
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(m):
            if r != i:
                A[r] = [u - A[r][i] * v for u, v in zip(A[r], A[i])]
    g = [A[i][m] for i in range(m)]
    return [sum(V[r][j] * g[j] for j in range(m)) for r in range(len(xs))]


def magphase(c):
    """Smoothing magnitude and phase: constant magnitude and linear phase
    are unchanged."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    n = 4
    ap = c.choice('aperture', [1, 3])
    m = c.real('m', pos=True)
    th = c.real('th', lo=0, hi=Frac(1, 2))
    ph = [k * th for k in range(n)]
    z = D.hfarray(c.np.array([m * c.np.exp(1j * p) for p in ph]),
                  dims=(D.DimSweep("f", n),))
    r = M.smooth_magphase(z, ap)
    for k in range(n):
        c.eq('unchanged', el(r, (k,)), el(z, (k,)))


def dataset(c, mode):
    """Interpolating a dataset along one dimension; the others follow."""
    D = c.mod('hftools.dataset')
    n = 3
    xs = _inc(c, n)
    # the samples are stored in any order
    perm = c.choice('stored', [(0, 1, 2), (2, 0, 1), (2, 1, 0)])
    f = D.DimSweep("freq", c.np.array([xs[k] for k in perm]), unit="Hz")
    r = D.DimRep("rep", 2)
    db = D.DataBlock()
    o = c.choice('order', [(f, r), (r, f), (f,)])
    db.A = D.hfarray(c.kinds('a', tuple(len(d.data) for d in o),
                             c.choice('kind', ['f', 'c'])),
                     dims=o, unit="V", outputformat="%.3f")
    db.B = D.hfarray(c.rarray('b', (2,)), dims=(r,))
    if mode == 'points':
        sel = c.choice('points', [[0], [0, 2], [2, 1], [1, 0, 2], [0, 0]])
        q = [xs[k] for k in sel]
    else:
        q = [c.real('q%d' % k) for k in range(2)]
    new = D.DimSweep("freq", c.np.array(q), unit="Hz")
    how = c.choice('how', ['dim', 'array'])
    arg = new if how == 'dim' else D.hfarray(new)
    m = None if mode == 'points' else 'linear'
    if mode != 'points' and any(bool(v < xs[0]) or bool(v > xs[-1])
                                for v in q):
        c.raises('outside', ValueError, db.interpolate, arg, m)
        return
    out = db.interpolate(arg, m)
    c.eq('others untouched', [el(out.B, (k,)) for k in range(2)],
         [el(db.B, (k,)) for k in range(2)])
    c.same('dims', [d.name for d in out.A.dims], [d.name for d in o])
    c.same('unit, format', (out.A.unit, out.A.outputformat),
           ("V", "%.3f"))
    ax = [d.name for d in o].index('freq')
    c.eq('coordinates', list(out.A.dims[ax].data), q)
    c.same('shape', out.A.shape, tuple(len(q) if k == ax else v for k, v in
                                       enumerate(db.A.shape)))
    for idx in ndindex(out.A.shape):
        v = q[idx[ax]]

        def at(k):
            return el(db.A, idx[:ax] + (perm.index(k),) + idx[ax + 1:])
        if mode == 'points':
            c.eq('value', el(out.A, idx), at(sel[idx[ax]]))
        else:
            k = 0
            while k < n - 2 and bool(v > xs[k + 1]):
                k += 1
            c.eq('on the line',
                 (el(out.A, idx) - at(k)) * (xs[k + 1] - xs[k]),
                 (v - xs[k]) * (at(k + 1) - at(k)))


def dataset_errors(c):
    D = c.mod('hftools.dataset')
    f = D.DimSweep("freq", c.np.array(_inc(c, 2)))
    db = D.DataBlock()
    db.A = D.hfarray(c.rarray('a', (2,)), dims=(f,))
    q = c.real('q')
    c.assume(q != f.data[0])
    c.assume(q != f.data[1])
    c.raises('missing point', ValueError, db.interpolate,
             D.DimSweep("freq", c.np.array([q])))
    c.raises('unknown mode', ValueError, db.interpolate,
             D.DimSweep("freq", c.np.array([f.data[0]])), 'cubic?')
    c.raises('one dimension', ValueError, db.interpolate,
             D.hfarray(c.rarray('z', (2, 2)),
                       dims=(f, D.DimRep("r", 2))))


from fractions import Fraction as Frac    # noqa

HARNESSES = [
    H('long table', long_table, '9 and 12 points, 3 queries'),
    H('smooth long', lambda c: smooth(c, c.choice('n', [9, 12]), 'f'),
      '9 and 12 points'),
    H('linear_extrapolate', lambda c: linear(
        c, c.choice('n', [2, 3, 4]), c.choice('kind', 'fc'),
        'linear_extrapolate'), '2-4 points', max_paths=5000),
    H('interpolate', lambda c: linear(
        c, c.choice('n', [2, 3, 4]), c.choice('kind', 'fc'),
        'interpolate'), '2-4 points', max_paths=5000),
    H('smooth', lambda c: smooth(c, c.choice('n', [1, 2, 5, 6]),
                                 c.choice('kind', 'fci')), '1-6 points'),
    H('poly_smooth', lambda c: poly(c, c.choice('n', [5, 6, 7])),
      '5-7 points'),
    H('poly_smooth linear', lambda c: poly_local(c, 6), '6 points'),
    H('magphase', magphase, '4 points'),
    H('dataset points', lambda c: dataset(c, 'points'), '3 points'),
    H('dataset linear', lambda c: dataset(c, 'linear'), '3 points',
      max_paths=5000),
    H('dataset errors', dataset_errors, ''),
]
ASSUMPTIONS = ['abscissae strictly increasing']
