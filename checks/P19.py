"""Merging of datasets along the values that differ between them."""
from .common import H, el, ndindex
from .files import increasing


def _block(c, D, q, f, parts, names, kinds):
    """dataset number q over the sweep f with the partial values parts"""
    db = D.DataBlock()
    for k, x in parts:
        db[k] = D.DimPartial(k, c.np.array([x]), unit='V')
    freq = D.DimSweep("freq", c.np.array(f), unit="Hz")
    vals = {}
    for n in names:
        kind = kinds[n]
        dims = () if kind == 'scalar' else (freq,)
        if kind == 'matrix':
            dims += (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
        shape = tuple(len(d.data) for d in dims)
        mk = c.carray if kind != 'real' and kind != 'scalar' else c.rarray
        vals[n] = mk('%s%d' % (n, q), shape)
        db[n] = D.hfarray(vals[n], dims=dims, unit='A')
    return db, vals


def _same_elements(c, label, X, at, x, shape):
    """X[at] and x are the same; the index of X starts with the sweep"""
    for ix in ndindex(shape):
        c.eq(label, el(X, ix[:1] + at + ix[1:]), el(x, ix))


def partial(c):
    """All blocks have the same partial values: every variable gets an index
    over the blocks, every value of block q is found at index q."""
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    m = c.choice('m', [2, 3, 6])
    n = c.choice('n', [1, 2, 3] if m < 6 else [2, 7])
    kind = c.choice('kind', ['real', 'cplx', 'matrix', 'scalar', 'all'])
    np_ = c.choice('parts', [1, 2])
    com = c.choice('comments', [False, True])
    f = increasing(c, n)
    kinds = dict(a='real', b='cplx', S='matrix', k='scalar')
    names = ['a', 'b', 'S', 'k'] if kind == 'all' else \
        [x for x in kinds if kinds[x] == kind]
    P = [[('Vg', c.real('Vg%d' % q)), ('Vd', c.real('Vd%d' % q))][:np_]
         for q in range(m)]
    B, V = [], []
    F = c.mod('hftools.file_formats')
    for q in range(m):
        b, v = _block(c, D, q, f, P[q], names, kinds)
        if com:
            b.comments = F.Comments(["number%d: %d" % (q, q)])
        B.append(b)
        V.append(v)
    db = M.merge_blocks(B)
    c.same('variables', [x for x in db.vardata if x in kinds], names)
    for k in range(np_):
        X = db[P[0][k][0]]
        c.same('partial values over the blocks', X.shape, (m,))
        c.same('unit', X.unit, 'V')
        for q in range(m):
            c.eq('partial value', el(X, (q,)), P[q][k][1])
    index = db['Vg'].dims[0]
    for x in names:
        X = db[x]
        c.same('unit', X.unit, 'A')
        shape = V[0][x].shape
        c.check('index', index in X.dims)
        squeezed = n == 1 and kinds[x] != 'scalar'
        want = shape[:1] + (m,) + shape[1:] if not squeezed else \
            (m,) + shape[1:]
        if kinds[x] == 'scalar':
            want = (m,)
        c.same('shape', X.shape, want)
        for q in range(m):
            for ix in ndindex(shape):
                at = ix[:1] + (q,) + ix[1:]
                if squeezed:
                    at = (q,) + ix[1:]
                elif kinds[x] == 'scalar':
                    at = (q,)
                c.eq('value', el(X, at), el(V[q][x], ix))
    if n > 1 and kind != 'scalar':
        for k in range(n):
            c.eq('sweep', el(db.ivardata['freq'].data, (k,)), f[k])
        c.same('unit', db.ivardata['freq'].unit, 'Hz')
    if com:
        c.same('comments', db.comments.fullcomments,
               ["number%d: %d" % (q, q) for q in range(m)])


def hyper(c):
    """With hyper the index becomes the grid of the partial values."""
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    shape = c.choice('grid', [(2, 2), (2, 1), (1, 2), (3,), (2, 3),
                              (2, 2, 2), (7,)])
    order = c.choice('order', list(range(6)))
    n = 2
    f = increasing(c, n)
    g = [increasing(c, k, 'p%d' % q) for q, k in enumerate(shape)]
    names = ['Vg', 'Vd', 'Vs'][:len(shape)]
    cells = list(ndindex(shape))
    perms = {4: [(0, 1, 2, 3), (3, 2, 1, 0), (0, 2, 1, 3), (1, 0, 3, 2),
                 (2, 0, 3, 1), (1, 3, 0, 2)],
             2: [(0, 1), (1, 0)],
             3: [(0, 1, 2), (2, 1, 0), (1, 0, 2), (2, 0, 1), (0, 2, 1),
                 (1, 2, 0)],
             6: [tuple(range(6)), (5, 4, 3, 2, 1, 0), (2, 0, 4, 1, 5, 3)],
             7: [tuple(range(7)), (6, 0, 5, 2, 1, 4, 3)],
             8: [tuple(range(8)), (7, 6, 5, 4, 3, 2, 1, 0),
                 (0, 4, 2, 6, 1, 5, 3, 7), (3, 0, 6, 5, 1, 7, 2, 4)]
             }[len(cells)]
    if order >= len(perms):
        return
    kinds = dict(a='real', S='matrix')
    B, V = [], {}
    for q in perms[order]:
        ix = cells[q]
        b, v = _block(c, D, q, f, [(nm, g[k][ix[k]])
                                   for k, nm in enumerate(names)],
                      ['a', 'S'], kinds)
        B.append(b)
        V[ix] = v
    db = M.merge_blocks(B, hyper=True)
    c.same('shape', db.a.shape,
           (n,) + tuple(k for k in shape if k > 1))
    for ix in cells:
        at = tuple(i for i, k in zip(ix, shape) if k > 1)
        for k in range(n):
            c.eq('value', el(db.a, (k,) + at), el(V[ix]['a'], (k,)))
            for ij in ndindex((2, 2)):
                c.eq('value', el(db.S, (k,) + at + ij),
                     el(V[ix]['S'], (k,) + ij))
    for k, nm in enumerate(names):
        if shape[k] > 1:
            c.same('coordinates', db.ivardata[nm].data.shape, (shape[k],))
            for q in range(shape[k]):
                c.eq('coordinate', el(db.ivardata[nm].data, (q,)), g[k][q])
        else:
            x = D.hfarray(db[nm])
            c.eq('coordinate', x.flatten()[0], g[k][0])


def incomplete(c):
    """A grid with a missing or a repeated point is refused."""
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    E = c.mod('hftools.core.exceptions')
    what = c.choice('what', ['missing', 'repeated'])
    f = increasing(c, 2)
    g = [increasing(c, 2, 'p'), increasing(c, 2, 'r')]
    cells = list(ndindex((2, 2)))
    cells = cells[:3] + (cells[:1] if what == 'repeated' else [])
    B = [_block(c, D, q, f, [('Vg', g[0][i]), ('Vd', g[1][j])], ['a'],
                dict(a='real'))[0] for q, (i, j) in enumerate(cells)]
    c.raises('refused', Exception, M.merge_blocks, B, hyper=True)


def present(c):
    """Variables that are missing in some blocks: each value either ends up
    with the partial values of its own block or the merge is refused."""
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    m = c.choice('m', [2, 3])
    has = [c.choice('has%d' % q, ['x', 'y', 'xy']) for q in range(m)]
    groups = [c.choice('group%d' % q, ['Vg', 'Vd', 'VgVd'])
              for q in range(m)]
    n = 2
    f = increasing(c, n)
    B, V, P = [], [], []
    for q in range(m):
        p = [(k, c.real('%s%d' % (k, q))) for k in ('Vg', 'Vd')
             if k in groups[q]]
        b, v = _block(c, D, q, f, p, list(has[q]), dict(x='real', y='cplx'))
        B.append(b)
        V.append(v)
        P.append(dict(p))
    try:
        db = M.merge_blocks(B)
    except Exception:
        c.check('blocks that fit together are merged', not (
            len(set(groups)) == 1 and
            all(sum(x in h for h in has) in (0, 1, m) for x in 'xy')))
        return
    for x in 'xy':
        own = [q for q in range(m) if x in has[q]]
        if not own:
            c.check('absent', x not in db)
            continue
        X = db[x]
        if len(own) == 1:
            c.same('only in one block', X.shape, (n,))
            for k in range(n):
                c.eq('value', el(X, (k,)), el(V[own[0]][x], (k,)))
            continue
        c.same('shape', X.shape, (n, len(own)))
        index = X.dims[1]
        for s, q in enumerate(own):
            for k in range(n):
                c.eq('value', el(X, (k, s)), el(V[q][x], (k,)))
            for name, p in P[q].items():
                c.check('same index', index in db[name].dims)
                c.eq('partial value of the block', el(db[name], (s,)), p)


def sweeps(c):
    """Blocks whose sweeps differ are not put on a common sweep."""
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    n = c.choice('n', [2, 3])
    extra = c.choice('extra', [0, 1])
    f = increasing(c, n)
    d = c.real('shift')
    c.assume(d > 1)
    c.assume(f[-1] < 10)
    c.assume(f[0] > -10)
    k = c.choice('which', list(range(n)))
    g = list(f)
    for q in range(k, n):
        g[q] = g[q] + d
    g += [g[-1] + 1] * extra
    B = [_block(c, D, q, h, [('Vg', c.real('Vg%d' % q))], ['x'],
                dict(x='real'))[0] for q, h in enumerate([f, g])]
    c.raises('refused', Exception, M.merge_blocks, B)


def mixed(c):
    """Blocks that hold the variable as whole numbers, real or complex
    numbers, or as texts of different lengths; more than one setting."""
    import numpy
    M, D = c.mods('hftools.file_formats.merge', 'hftools.dataset')
    m = 3
    kinds = c.choice('kinds', [('i', 'f', 'f'), ('f', 'c', 'f'),
                               ('i', 'i', 'c'), ('c', 'f', 'i'),
                               ('f', 'i', 'i')])
    f = increasing(c, 2)
    hyper = c.choice('hyper', [False, True])
    scalar = c.choice('scalar', [False, True])
    p = increasing(c, m, 'Vg')
    order = c.choice('order', [(0, 1, 2), (2, 0, 1)])
    texts = [u'on', u'a longer text', u'']
    B, V = [], {}
    for q in order:
        db = D.DataBlock()
        db.blockname = 'blk%d' % q
        db.Vg = D.DimPartial('Vg', c.np.array([p[q]]), unit='V')
        freq = D.DimSweep('freq', c.np.array(f), unit='Hz')
        dims = () if scalar else (freq,)
        V[q] = {'i': lambda n, s: c.iarray(n, s, -50, 50), 'f': c.rarray,
                'c': c.carray}[kinds[q]]('x%d' % q, (2,)[:len(dims)])
        db.x = D.hfarray(V[q], dims=dims, unit='A')
        db.y = D.hfarray(c.rarray('y%d' % q, (2,)), dims=(freq,))
        V['y', q] = [el(db.y, (k,)) for k in range(2)]
        db.t = D.hfarray(numpy.array(texts[q]))
        B.append(db)
    db = M.merge_blocks(B, hyper=hyper)
    c.same('name', db.blockname, 'blk%d' % order[0])
    X = db.x
    c.same('unit', X.unit, 'A')
    c.same('dims', [d.name for d in X.dims][:-1], ['freq'] * (not scalar))
    c.check('settings on the same index', X.dims[-1].name ==
            D.hfarray(db.Vg).dims[0].name == db.t.dims[0].name ==
            db.y.dims[-1].name)
    for s in range(m):
        q = s if hyper else order[s]
        c.eq('setting', el(D.hfarray(db.Vg), (s,)), p[q])
        c.same('text', str(db.t[s]), str(texts[q]))
        for k in range(1 if scalar else 2):
            c.eq('value', el(X, (s,) if scalar else (k, s)),
                 el(V[q], () if scalar else (k,)))
        for k in range(2):
            c.eq('value', el(db.y, (k, s)), V['y', q][k])


HARNESSES = [H('partial', partial, '2-3 blocks, 1-3 points'),
             H('hyper', hyper, 'grids up to 2x2 in several orders'),
             H('incomplete', incomplete, '2x2 grid'),
             H('present', present, '2-3 blocks'),
             H('mixed', mixed, '3 blocks, 5 mixtures of kinds'),
             H('sweeps', sweeps, '2 blocks, 2-3 points')]
ASSUMPTIONS = ['sweeps strictly increasing']
