"""Dataset transformations (filter, sort, squeeze, regrouping, splitting) move
whole points: every value stays with its coordinates."""
from .common import H, dimkey, el, ndindex


def _vals(a):
    return [el(a, i) for i in ndindex(a.shape)]


def _names(a):
    return [d.name for d in a.dims]


def _base(c, D, nf=3, sym=True):
    f = D.DimSweep("freq", c.rarray('f', (nf,)) if sym else
                   [10 * (k + 1) for k in range(nf)], unit="Hz")
    r = D.DimRep("rep", ["r0", "r1"])
    i, j = D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2)
    db = D.DataBlock()
    db.blockname = "blk"
    dn = c.choice('order', [(f, r), (r, f)])
    db.B = D.hfarray(c.rarray('B', tuple(len(d.data) for d in dn)),
                     dims=dn, unit="A")
    db.A = D.hfarray(c.rarray('A', (nf,)), dims=(f,), unit="V",
                     outputformat="%.3f")
    db.R = D.hfarray(c.rarray('R', (2,)), dims=(r,))
    db.X = D.hfarray(c.real('X'))
    if c.tier == 'thorough' or nf > 1:
        db.S = D.hfarray(c.carray('S', (nf, 2, 2)), dims=(f, i, j))
    return db, f, r


def _pick(c, src, out, dim, pos, skip=()):
    """out is src with only points `pos` (in this order) along dim."""
    c.same('variables', list(out.vardata.keys()), list(src.vardata.keys()))
    c.same('name', out.blockname, src.blockname)
    for k, v in src.vardata.items():
        w = out.vardata[k]
        c.same('dims of ' + k, [dimkey(d) for d in w.dims],
               [dimkey(d) for d in v.dims])
        c.same('unit of ' + k, w.unit, v.unit)
        c.same('format of ' + k, w.outputformat, v.outputformat)
        ax = [q for q, d in enumerate(v.dims) if d.name == dim.name]
        if not ax:
            c.eq('untouched ' + k, _vals(w), _vals(v))
            continue
        ax = ax[0]
        shape = tuple(len(pos) if q == ax else n
                      for q, n in enumerate(v.shape))
        c.same('shape of ' + k, w.shape, shape)
        for idx in ndindex(shape):
            s = list(idx)
            s[ax] = pos[idx[ax]]
            c.eq('value of ' + k, el(w, idx), el(v, s))
        c.eq('coordinates of ' + k, list(w.dims[ax].data),
             [dim.data[q] for q in pos])
        c.same('unit of coordinates', w.dims[ax].unit, dim.unit)
    od = out.ivardata[dim.name]
    c.check('kind of dimension', type(od) is type(dim) and
            od.unit == dim.unit)
    c.eq('coordinates', list(od.data), [dim.data[q] for q in pos])


def filt(c):
    """filter keeps exactly the points the condition holds for."""
    D = c.mod('hftools.dataset')
    db, f, r = _base(c, D, 3 if c.tier == 'quick' else 4)
    form = c.choice('form', ['mask', 'le', 'variable', 'rep'])
    before = {k: _vals(v) for k, v in db.vardata.items()}
    if form == 'rep':
        m = c.barray('m', (2,))
        mask = D.hfarray(m, dims=(r,))
        pos = [q for q in range(2) if bool(m[q])]
        out = db.filter(mask)
        _pick(c, db, out, r, pos)
        return
    n = len(f.data)
    if form == 'mask':
        m = c.barray('m', (n,))
        out = db.filter(D.hfarray(m, dims=(f,)))
        pos = [q for q in range(n) if bool(m[q])]
    elif form == 'le':
        x = c.real('x')
        out = db.filter(db.freq <= x)
        pos = [q for q in range(n) if bool(f.data[q] <= x)]
    else:
        x = c.real('x')
        out = db.filter(db.A > x)
        pos = [q for q in range(n) if bool(el(db.A, (q,)) > x)]
    _pick(c, db, out, f, pos)
    for k, v in db.vardata.items():
        c.eq('original unchanged', _vals(v), before[k])


def filter_values(c):
    """filter by a list of coordinate values keeps those coordinates."""
    D = c.mod('hftools.dataset')
    db, f, r = _base(c, D, 3, sym=False)
    have = [10, 20, 30]
    want = c.choice('want', [[20], [10, 30], [10, 20, 30], [20, 99],
                             [99, 10], [5, 7, 20, 30]])
    out = db.filter(D.hfarray(D.DimSweep("freq", want, unit="Hz")))
    _pick(c, db, out, f, [q for q in range(3) if have[q] in want])


def filter_errors(c):
    D = c.mod('hftools.dataset')
    db, f, r = _base(c, D, 2)
    c.raises('one dimension only', ValueError, db.filter, db.B > 0)


def filter_missing(c):
    """Dimensions no variable depends on are kept, and filtered too."""
    D = c.mod('hftools.dataset')
    db = D.DataBlock()
    f = D.DimSweep("freq", c.rarray('f', (2,)))
    g = D.DimSweep("g", [1, 2])
    db.freq = f
    db.h = D.DimRep("h", [4, 5])
    db.A = D.hfarray(c.rarray('A', (2,)), dims=(g,))
    m = c.barray('m', (2,))
    w = c.choice('which', ['f', 'g'])
    out = db.filter(D.hfarray(m, dims=(dict(f=f, g=g)[w],)))
    pos = [q for q in range(2) if bool(m[q])]
    c.eq('coordinates', list(out.ivardata['freq'].data),
         [f.data[q] for q in pos] if w == 'f' else list(f.data))
    c.same('untouched', list(out.ivardata['h'].data), [4, 5])
    c.eq('data', _vals(out.A), [el(db.A, (q,)) for q in
                                (pos if w == 'g' else range(2))])


def sort(c):
    """sort reorders every variable by the given key; the sort is by value
    and permutes whole points."""
    D = c.mod('hftools.dataset')
    db, f, r = _base(c, D, 3)
    key = c.choice('key', ['freq', 'A', 'R', 'other'])
    if key == 'freq':
        dim, kv = f, list(f.data)
        arg = c.choice('arg', [f, db.freq])
    elif key == 'A':
        dim, kv = f, _vals(db.A)
        arg = db.A
    elif key == 'R':
        dim, kv = r, _vals(db.R)
        arg = db.R
    else:
        dim = f
        k = c.rarray('k', (3,))
        kv = list(k)
        arg = D.hfarray(k, dims=(f,))
    n = len(kv)
    # distinct keys: the order is then unique
    for a in range(n):
        for b in range(a):
            c.assume(kv[a] != kv[b])
    pos = sorted(range(n), key=lambda q: sum(
        1 for b in range(n) if bool(kv[b] < kv[q])))
    out = db.sort(arg)
    _pick(c, db, out, dim, pos)


def sort_missing(c):
    """Sorting along a dimension no variable has still sorts it."""
    D = c.mod('hftools.dataset')
    db = D.DataBlock()
    f = D.DimSweep("freq", c.rarray('f', (2,)))
    g = D.DimSweep("g", [1, 2])
    c.assume(f.data[1] < f.data[0])
    db.freq = f
    db.A = D.hfarray(c.rarray('A', (2,)), dims=(g,))
    out = db.sort(f)
    c.eq('sorted', list(out.ivardata['freq'].data), [f.data[1], f.data[0]])
    c.eq('untouched', _vals(out.A), _vals(db.A))
    c.raises('one dimension only', ValueError, db.sort,
             D.hfarray(c.rarray('q', (2, 2)), dims=(f, g)))


def squeeze(c):
    D = c.mod('hftools.dataset')
    nf, nr = c.choice('nf', [1, 2]), c.choice('nr', [1, 2])
    f = D.DimSweep("freq", c.rarray('f', (nf,)), unit="Hz")
    r = D.DimRep("rep", nr)
    db = D.DataBlock()
    db.blockname = "b"
    dn = c.choice('order', [(f, r), (r, f), (f,), (r,), ()])
    db.A = D.hfarray(c.rarray('a', tuple(len(d.data) for d in dn)), dims=dn,
                     unit="V")
    out = db.squeeze()
    c.same('dims', _names(out.A), [d.name for d in dn if len(d.data) > 1])
    c.eq('data', _vals(out.A), _vals(db.A))
    c.same('unit', out.A.unit, "V")
    c.same('name', out.blockname, "b")
    for d in dn:
        c.eq('dimension kept', list(out.ivardata[d.name].data),
             list(d.data))


def remove_rep(c):
    """All repetitions become one dimension; the former repetition
    coordinates become variables along it."""
    D = c.mod('hftools.dataset')
    f = D.DimSweep("freq", [1, 2])
    g = D.DimRep("g", c.rarray('g', (2,)), unit='K', outputformat="%.2f")
    h = D.DimRep("h", [5, 6, 9])
    db = D.DataBlock()
    db.blockname = 'blk'
    o1 = c.choice('first', [(f, g, h), (f, h, g), (g, f, h), (h, f, g),
                            (g, h)])
    db.A = D.hfarray(c.rarray('a', tuple(len(d.data) for d in o1)), dims=o1,
                     unit="V", outputformat="%.1f")
    o2 = c.choice('second', [(h, g), (g, h, f), (f,), (g,), (f, h), ()])
    db.B = D.hfarray(c.rarray('b', tuple(len(d.data) for d in o2)), dims=o2)
    out = db.remove_rep()
    c.same('one repetition dimension',
           [d.name for d in out.ivardata.values() if type(d) is D.DimRep],
           ['AllReps'])
    c.same('its size', len(out.ivardata['AllReps'].data), 6)
    c.same('name', out.blockname, 'blk')
    c.same('unit, format of the coordinates',
           (out['g'].unit, out['g'].outputformat, out['h'].unit),
           ('K', '%.2f', None))
    for k in ('A', 'B'):
        src, res = db[k], out[k]
        rest = [n for n in _names(src) if n not in 'gh']
        if len(rest) == src.ndim:
            c.same('dims', _names(res), rest)
            c.eq('data', _vals(res), _vals(src))
            continue
        c.same('dims', sorted(_names(res)), sorted(rest + ['AllReps']))
        c.same('unit', (res.unit, res.outputformat),
               (src.unit, src.outputformat))
        ax = _names(res).index('AllReps')
        c.same('length', res.shape[ax], 6)
        # every combination, located through its own g and h values
        for a in range(6):
            gv, hv = el(out['g'], (a,)), el(out['h'], (a,))
            if k == 'A' and bool(g.data[0] == g.data[1]):
                c.assume(False)
            gi = [q for q in (0, 1) if bool(g.data[q] == gv)][0]
            hi = [q for q in (0, 1, 2) if h.data[q] == hv][0]
            for q in range(2 if rest else 1):
                co = dict(freq=q, g=gi, h=hi)
                want = el(src, [co[n] for n in _names(src)])
                got = el(res, [a if n == 'AllReps' else q
                               for n in _names(res)])
                c.eq('value', got, want)


def hyper(c, na, nb):
    """Regrouping a flat index into the swept variables puts every point
    under its own coordinates."""
    D = c.mod('hftools.dataset')
    n = na * nb
    I = D.DimSweep("Index", n)
    f = D.DimSweep("freq", [1, 2])
    av = [c.real('av%d' % k) for k in range(na)]
    bv = [c.real('bv%d' % k) for k in range(nb)]
    for vs in (av, bv):
        for p in range(len(vs)):
            for q in range(p):
                c.assume(vs[p] != vs[q])
    combos = [(p, q) for p in range(na) for q in range(nb)]
    import itertools
    perms = list(itertools.permutations(combos)) if n <= 4 else \
        [tuple(combos), tuple(reversed(combos)),
         tuple(sorted(combos, key=lambda t: t[::-1]))]
    perm = c.choice('perm', perms)
    db = D.DataBlock()
    db.blockname = "blk"
    db.a = D.hfarray(c.np.array([av[p] for p, q in perm]), dims=(I,),
                     unit="V", outputformat="%.5f")
    db.b = D.hfarray(c.np.array([bv[q] for p, q in perm]), dims=(I,),
                     unit="A")
    db.y = D.hfarray(c.rarray('y', (n,)), dims=(I,), unit="W",
                     outputformat="%.4f")
    o = c.choice('order', [(I, f), (f, I)])
    db.z = D.hfarray(c.rarray('z', tuple(len(d.data) for d in o)), dims=o)
    db.w = D.hfarray(c.rarray('w', (2,)), dims=(f,))
    idx = c.choice('indexed', [False, True])
    al = c.choice('all', [True, False])
    rep = c.choice('by', ['Index', I])
    keys = c.choice('keys', [('a', 'b'), ('b', 'a')])
    out = db.hyper(list(keys), rep, indexed=idx, all=al)
    dn = [k + '_index' if idx else k for k in keys]
    c.same('name', out.blockname, 'blk')
    c.same('dims of y', _names(out.y), dn)
    c.same('dims of z', _names(out.z), sum([dn if d is I else [d.name]
                                            for d in o], []))
    c.same('rest', 'w' in out, al)
    c.same('the flat index is gone', 'Index' in out, False)
    c.same('units', (out.y.unit, out.ivardata[dn[keys.index('a')]].unit),
           ("W", "V"))
    c.same('formats', (out.y.outputformat,
                       out.ivardata[dn[keys.index('a')]].outputformat),
           ("%.4f", "%.5f"))
    ax = {k: list(out.ivardata[d].data) for k, d in zip(keys, dn)}
    c.same('sizes', (len(ax['a']), len(ax['b'])), (na, nb))
    if al:
        c.eq('untouched', _vals(out.w), _vals(db.w))
    for m, (p, q) in enumerate(perm):
        pa = [t for t in range(na) if bool(ax['a'][t] == av[p])]
        pb = [t for t in range(nb) if bool(ax['b'][t] == bv[q])]
        c.same('coordinate present once', (len(pa), len(pb)), (1, 1))
        co = dict(zip(dn, [dict(a=pa[0], b=pb[0])[k] for k in keys]))
        c.eq('value', el(out.y, [co[d] for d in dn]), el(db.y, (m,)))
        for fq in range(2):
            cc = dict(co, freq=fq)
            c.eq('value', el(out.z, [cc[d] for d in _names(out.z)]),
                 el(db.z, (m, fq) if o[0] is I else (fq, m)))
        if idx:
            c.eq('kept variable', el(out.a, [co[d] for d in dn]), av[p])


def hyper_incomplete(c):
    """A set of points that is not a full grid is refused."""
    D = c.mod('hftools.dataset')
    I = D.DimSweep("Index", 4)
    db = D.DataBlock()
    pts = [(c.choice('a%d' % k, [0, 1]), c.choice('b%d' % k, [0, 1]))
           for k in range(4)]
    db.a = D.hfarray([p for p, _ in pts], dims=(I,))
    db.b = D.hfarray([q for _, q in pts], dims=(I,))
    db.y = D.hfarray(c.rarray('y', (4,)), dims=(I,))
    if len(set(pts)) == 4:
        out = db.hyper(['a', 'b'], 'Index')
        for m, (p, q) in enumerate(pts):
            c.eq('value', el(out.y, (p, q)), el(db.y, (m,)))
    else:
        c.raises('not a grid', ValueError, db.hyper, ['a', 'b'], 'Index')


def keep(c):
    D = c.mod('hftools.dataset')
    db, f, r = _base(c, D, 2)
    vs = c.choice('vars', [['A'], ['R', 'A'], ['B', 'nope'], [],
                           ('X', 'R')])
    out = db.keep_variables(vs)
    have = [v for v in vs if v in db.vardata]
    c.same('only those', list(out.vardata.keys()), have)
    c.same('name', out.blockname, "blk")
    for v in have:
        c.eq('data', _vals(out[v]), _vals(db[v]))
        c.same('dims', _names(out[v]), _names(db[v]))
    c.same('no other dimensions', sorted(out.ivardata.keys()),
           sorted(set(sum([_names(db[v]) for v in have], []))))


def split(c):
    """Splitting into consistent datasets loses nothing and mixes no
    dimensions."""
    D = c.mod('hftools.dataset')
    f = D.DimSweep("f", c.rarray('f', (2,)))
    g = D.DimSweep("g", [3, 4])
    r = D.DimRep("r", [1, 2])
    sets = [(f,), (g,), (r,), (f, r), (g, r), (f, g, r), ()]
    db = D.DataBlock()
    for k in range(3):
        dn = c.choice('d%d' % k, sets)
        db['v%d' % k] = D.hfarray(c.rarray('v%d' % k, (2,) * len(dn)),
                                  dims=dn, unit="u%d" % k,
                                  outputformat="%%.%df" % k)
    seen = {}
    for dims, sub in D.yield_dim_consistent_datablocks(db):
        for k, v in sub.vardata.items():
            seen.setdefault(k, 0)
            seen[k] += 1
            c.check('only dimensions of the group',
                    set(_names(v)) <= set(d.name for d in dims))
            c.check('all or all but the first dimension',
                    list(_names(v)) in ([d.name for d in dims],
                                        [d.name for d in dims[1:]]))
            c.same('unit', v.unit, db[k].unit)
            c.same('format', v.outputformat, "%%.%sf" % k[1])
            c.eq('data', _vals(v), _vals(db[k]))
    c.same('nothing lost', sorted(seen), ['v0', 'v1', 'v2'])


def elements(c):
    """Splitting matrices into elements names each element by its row and
    column."""
    D = c.mod('hftools.dataset')
    f = D.DimSweep("f", c.rarray('f', (2,)))
    n, m = c.choice('n', [1, 2, 3]), c.choice('m', [1, 2, 3])
    i, j = D.DimMatrix_i("i", n), D.DimMatrix_j("j", m)
    db = D.DataBlock()
    db.blockname = "blk"
    dn = c.choice('dims', [(f, i, j), (i, j)])
    db.S = D.hfarray(c.carray('S', tuple(len(d.data) for d in dn)),
                     dims=dn, unit="V", outputformat="%.2f")
    db.A = D.hfarray(c.rarray('A', (2,)), dims=(f,), unit='A',
                     outputformat="%.1f")
    fe = c.choice('fmt', [None, lambda v, i, j: "%s_%s_%s" % (j, v, i)])
    out = D.convert_matrices_to_elements(db, fe)
    fm = fe or (lambda v, i, j: "%s%s%s" % (v, i, j))
    want = [fm('S', p + 1, q + 1) for p in range(n) for q in range(m)]
    c.same('names', list(out.vardata.keys()), want + ['A'])
    c.same('name', out.blockname, "blk")
    for p in range(n):
        for q in range(m):
            v = out[fm('S', p + 1, q + 1)]
            c.same('dims', _names(v), _names(db.S)[:-2])
            c.same('unit', v.unit, "V")
            c.same('format', v.outputformat, "%.2f")
            for k in ndindex(v.shape):
                c.eq('element', el(v, k), el(db.S, k + (p, q)))
    c.eq('others untouched', _vals(out.A), _vals(db.A))
    c.same('others untouched', (out.A.unit, out.A.outputformat),
           ('A', '%.1f'))


def change(c):
    D = c.mod('hftools.dataset')
    M = c.mod('hftools.dataset.dim')
    db, f, r = _base(c, D, 2)
    before = {k: _vals(v) for k, v in db.vardata.items()}
    old = c.choice('old', ['DimSweep', 'DimRep'])
    new = c.choice('new', ['DiagAxis', 'DimRep', 'DimSweep'])
    out = D.change_dim(db, getattr(M, old), getattr(M, new))
    for k, v in out.vardata.items():
        c.same('dims', [dimkey(d) for d in v.dims],
               [(d.name, new if {'freq': 'DimSweep', 'rep': 'DimRep'}
                 .get(d.name) == old else type(d).__name__)
                for d in v.dims])
        c.eq('data', _vals(v), before[k])
    c.eq('coordinates', list(out.ivardata['freq'].data), list(f.data))
    c.same('unit', out.ivardata['freq'].unit, "Hz")


def large(c):
    """More points: filter and sort with part of the keys symbolic."""
    D = c.mod('hftools.dataset')
    n = c.choice('n', [8, 10])
    known = [((k * 7) % n) * 10 for k in range(n)]
    free = c.choice('free', [0, 4, n - 1])
    x = c.real('x')
    keys = list(known)
    keys[free] = x
    for k in range(n):
        if k != free:
            c.assume(x != keys[k])
    f = D.DimSweep("freq", c.np.array(keys), unit="Hz")
    r = D.DimRep("rep", ["r%d" % k for k in range(3)])
    db = D.DataBlock()
    db.blockname = "blk"
    o = c.choice('order', [(f, r), (r, f)])
    db.B = D.hfarray(c.rarray('B', tuple(len(d.data) for d in o)), dims=o,
                     unit="A")
    db.A = D.hfarray(c.rarray('A', (n,)), dims=(f,), unit="V")
    db.X = D.hfarray(c.real('X'))
    if c.choice('what', ['sort', 'filter']) == 'sort':
        out = db.sort(f)
        pos = sorted(range(n), key=lambda q: sum(
            1 for b in range(n) if bool(keys[b] < keys[q])))
    else:
        t = c.choice('threshold', [25, 55])
        out = db.filter(db.freq <= t)
        pos = [q for q in range(n) if bool(keys[q] <= t)]
    _pick(c, db, out, f, pos)


HARNESSES = [
    H('large', large, '8 and 10 points, 3 repetitions, one key symbolic'),
    H('filter', filt, '3-4 points, 2 repetitions'),
    H('filter values', filter_values, '3 points'),
    H('filter missing', filter_missing, '2 points'),
    H('filter errors', filter_errors, ''),
    H('sort', sort, '3 points', max_paths=8000),
    H('sort missing', sort_missing, ''),
    H('squeeze', squeeze, '1-2 points'),
    H('remove_rep', remove_rep, '2x3 repetitions'),
    H('hyper 2x2', lambda c: hyper(c, 2, 2), '2x2 grid in every order',
      max_paths=20000),
    H('hyper 3x2', lambda c: hyper(c, 3, 2), '3x2 grid', max_paths=20000),
    H('hyper incomplete', hyper_incomplete, '4 points of a 2x2 grid'),
    H('keep', keep, '5 selections'),
    H('split', split, '3 variables over 7 dimension sets'),
    H('elements', elements, '1-3 x 1-3 matrices'),
    H('change', change, ''),
]
ASSUMPTIONS = ['sort: the keys are distinct (otherwise the order is not '
               'unique)']
