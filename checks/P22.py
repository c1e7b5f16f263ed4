"""HDF5 files: what is saved is read back; appending adds along the
expansion dimension."""
import os
import shutil
import tempfile

import numpy

from symex import fakeh5
from .common import H, el, ndindex


def _mods(c):
    fakeh5.STORE.clear()
    return c.mods('hftools.file_formats', 'hftools.dataset',
                  'hftools.file_formats.hdf5.helper')


def _snap(a):
    return [el(a, i) for i in ndindex(a.shape)]


def _dims(c, D):
    t = numpy.array(['2012-08-13T08:03:01', '1969-02-03T00:00:00'],
                    dtype='datetime64[us]')
    f = [c.real('f%d' % k) for k in range(3)]
    return {
        'freq': D.DimSweep('freq', c.np.array(f), unit='Hz',
                           outputformat='%.3f'),
        'rep': D.DimRep('rep', [4, 2]),
        'v/d': D.DimSweep('v/d', c.np.array([c.real('v0'), c.real('v1')]),
                          unit='V'),
        'i': D.DimMatrix_i('i', 2), 'j': D.DimMatrix_j('j', 2),
        'p': D.DimPartial('p', c.np.array([c.real('p0')])),
        'time': D.DimSweep('time', t),
        'word': D.DimSweep('word', numpy.array([u'on', u'off'])),
        'any': c.mod('hftools.dataset.dim').DimAnonymous('any', [3, 5])}


def _same_dim(c, d, s, fmt=True):
    c.same('name', d.name, s.name)
    c.check('kind of dimension', type(d) is type(s))
    c.same('unit of dimension', d.unit, s.unit)
    if fmt:
        c.same('format of dimension', d.outputformat, s.outputformat)
    c.same('points', len(d.data), len(s.data))
    if s.data.dtype.kind in 'MU':
        c.check('coordinates', d.data.dtype.kind == s.data.dtype.kind and
                bool((numpy.array(d.data) == numpy.array(s.data)).all()))
    else:
        for k in range(len(s.data)):
            c.eq('coordinates', el(d.data, (k,)), el(s.data, (k,)))


def _same_var(c, a, b, fmt=True):
    c.same('shape', a.shape, b.shape)
    c.same('dims', [d.name for d in a.dims], [d.name for d in b.dims])
    for d, s in zip(a.dims, b.dims):
        _same_dim(c, d, s, fmt)
    c.same('kind of number', a.dtype.kind, b.dtype.kind)
    c.same('unit', a.unit, b.unit)
    if fmt and b.outputformat is not None:      # None: the usual one
        c.same('format', a.outputformat, b.outputformat)
    if b.dtype.kind in 'MU':
        c.check('value', bool((numpy.array(a) == numpy.array(b)).all()))
    else:
        for idx in ndindex(b.shape):
            c.eq('value', el(a, idx), el(b, idx))


def _file(c, F, h, how, version, db):
    """save and read"""
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        fn = os.path.join(d, "x.hdf5")
        kw = {} if version == 'default' else dict(version=version)
        if how == 'name':
            F.save_hdf5(db, fn, **kw)
            return F.read_hdf5(fn)
        if how == 'handle':
            with h.h5py.File(fn, mode="w") as fil:
                F.save_hdf5(db, fil, **kw)
            with h.h5py.File(fn, mode="r") as fil:
                return F.read_hdf5(fil)
        if how == 'read_data':
            F.save_hdf5(db, fn, **kw)
            return F.read_data(fn)
    finally:
        shutil.rmtree(d)


DIMS = [(), ('freq',), ('rep', 'freq'), ('v/d',), ('freq', 'i', 'j'),
        ('p', 'freq'), ('time',), ('freq', 'word'), ('any',)]


def roundtrip(c):
    F, D, h = _mods(c)
    version = c.choice('version', ['0.1', '0.2', 'default'])
    how = c.choice('how', ['name', 'handle'])
    dn = c.choice('dims', DIMS)
    old = version == '0.1'
    if old and 'word' in dn:
        return
    kind = c.choice('kind', ['f', 'i', 'c', 'b', 'M'] + ([] if old
                                                         else ['U']))
    name = c.choice('name', ['x', 'a/b', 'Re(S11)', 'b1/a1/a2'])
    unit = c.choice('unit', [None, 'mV'])
    dims = _dims(c, D)
    dd = tuple(dims[n] for n in dn)
    sh = tuple(len(d.data) for d in dd)
    n = int(numpy.prod(sh))
    if kind == 'M':
        a = (numpy.arange(n) * 86400000000 - 5).astype(
            'datetime64[us]').reshape(sh)
    elif kind == 'U':
        a = numpy.array([u'q' * (k % 3) + u'\xb5' for k in range(n)]
                        ).reshape(sh)
    else:
        a = c.kinds('a', sh, kind)
    db = D.DataBlock()
    db.blockname, com, fmt = c.choice('extra', [
        (None, [], None), ('Spar', ['Hej: 10', 'no value', 'T = 3 V'], ''),
        (None, ['a: b'], '%.1f'), ('x y', [], None)])
    db.comments = F.Comments(list(com))
    db[name] = D.hfarray(a, dims=dd, unit=unit)
    if kind in 'fc':
        db[name].outputformat = '%.2f'
    scalar = D.hfarray(c.real('s'), unit='A')
    if fmt != '':
        scalar.outputformat = fmt
        if kind == 'i':
            db[name].outputformat = fmt
    db.scalar = scalar
    db.single = D.DimSweep('single', c.np.array([c.real('u0')]), unit='s')
    r = _file(c, F, h, how, version, db)
    c.same('variables', sorted(r.vardata), sorted([name, 'scalar']))
    c.same('dimensions', sorted(r.ivardata), sorted(dn + ('single',)))
    _same_var(c, r[name], db[name], not old)
    _same_var(c, r.scalar, db.scalar, not old)
    for n in r.ivardata:
        _same_dim(c, r.ivardata[n], db.ivardata[n], not old)
    c.same('name of the block', r.blockname, db.blockname)
    c.same('comments', list(r.comments.fullcomments), com)
    c.same('properties', sorted(r.comments.property),
           sorted(db.comments.property))


def many(c):
    """Many variables over different dimensions, longer sweeps."""
    F, D, h = _mods(c)
    version = c.choice('version', ['0.1', '0.2'])
    how = c.choice('how', ['name', 'handle'])
    n = c.choice('n', [11, 16])
    dims = dict(f=D.DimSweep('f', c.np.array([c.real('f%d' % k)
                                              for k in range(n)]),
                             unit='Hz'),
                g=D.DimSweep('g', [3, 1, 2]), r=D.DimRep('r', 2),
                i=D.DimMatrix_i('i', 3), j=D.DimMatrix_j('j', 2))
    db = D.DataBlock()
    db.blockname = 'b'
    names = ['zeta', 'S', 'x10', 'x9', 'Alpha', 'alpha', 'x 1', 'e']
    combos = [('f',), ('f', 'i', 'j'), (), ('r', 'f'), ('g', 'r'), ('g',),
              ('f', 'g'), ('r',)]
    for k, (nm, dn) in enumerate(zip(names, combos)):
        dd = tuple(dims[q] for q in dn)
        db[nm] = D.hfarray(c.kinds('v%d' % k, tuple(len(q.data)
                                                    for q in dd),
                                   'fc'[k % 2]), dims=dd,
                           unit=[None, 'V'][k % 2])
    r = _file(c, F, h, how, version, db)
    c.same('variables', sorted(r.vardata), sorted(names))
    c.same('dimensions', sorted(r.ivardata), sorted(dims))
    for nm in names:
        _same_var(c, r[nm], db[nm], version != '0.1')
    for nm in dims:
        _same_dim(c, r.ivardata[nm], db.ivardata[nm], version != '0.1')


def dispatch(c):
    """read_data finds out that it is an HDF5 file; comments become
    variables."""
    F, D, h = _mods(c)
    version = c.choice('version', ['0.1', '0.2'])
    dims = _dims(c, D)
    db = D.DataBlock()
    db.comments = F.Comments(['T = 3 V'])
    db.x = D.hfarray(c.rarray('a', (3,)), dims=(dims['freq'],))
    r = _file(c, F, h, 'read_data', version, db)
    c.same('variables', sorted(r.vardata), ['T', 'x'])
    _same_var(c, r.x, db.x, False)
    c.eq('property', el(r['T'], ()), 3)
    c.same('unit', r['T'].unit, 'V')


def append(c):
    """Datasets appended one after another."""
    F, D, h = _mods(c)
    n = c.choice('n', [1, 2, 3, 4, 11] if c.tier == 'quick' else
                 [1, 2, 3, 4, 5, 6, 11])
    dn = c.choice('dims', [(), ('freq',), ('freq', 'rep'), ('v/d',),
                           ('freq', 'i', 'j')] if n < 11 else
                  [(), ('freq', 'rep')])
    kind = c.choice('kind', ['f', 'c', 'M', 'U', 'i'] if n < 11 else ['f'])
    name = c.choice('name', ['x', 'a/b'] if n < 11 else ['x'])
    exp = c.choice('expand', ['default', 'own'])
    where = c.choice('handle', ['kept', 'reopened'])
    dims = _dims(c, D)
    dd = tuple(dims[q] for q in dn)
    sh = tuple(len(d.data) for d in dd)
    kw = {}
    first = 0
    if exp == 'own':
        first = c.int('first', lo=-3, hi=10)
        kw = dict(expanddim=D.DimSweep('run', c.np.array([first]), unit='s'))

    def mk(q):
        db = D.DataBlock()
        m = int(numpy.prod(sh))
        if kind == 'M':
            a = (numpy.arange(m) * 86400000000 - q).astype(
                'datetime64[us]').reshape(sh)
        elif kind == 'U':
            a = numpy.array([u'q' * (q % 3) + u'%d' % k for k in range(m)]
                            ).reshape(sh)
        else:
            a = c.kinds('a%d' % q, sh, kind)
        db[name] = D.hfarray(a, dims=dd, unit='V')
        db.c = D.hfarray(c.real('c%d' % q))
        return db
    dbs = [mk(q) for q in range(n)]
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        fn = os.path.join(d, "x.hdf5")
        with h.h5py.File(fn, mode="w") as fil:
            F.save_hdf5(dbs[0], fil, expandable=True, **kw)
            if where == 'kept':
                for db in dbs[1:]:
                    F.append_hdf5(db, fil, **kw)
        if where == 'reopened':
            for db in dbs[1:]:
                with h.h5py.File(fn, mode="a") as fil:
                    F.append_hdf5(db, fil, **kw)
        r = F.read_hdf5(fn)
    finally:
        shutil.rmtree(d)
    ax = 'run' if exp == 'own' else 'INDEX'
    c.same('variables', sorted(r.vardata), sorted([name, 'c']))
    c.same('dimensions', sorted(r.ivardata), sorted(dn + (ax,)))
    X = r[name]
    c.same('dims', [q.name for q in X.dims], list(dn[:1]) + [ax] +
           list(dn[1:]))
    c.same('unit', X.unit, 'V')
    I = r.ivardata[ax]
    c.check('kind of the expansion', type(I) is (
        D.DimSweep if exp == 'own' else D.DimRep))
    c.same('number of parts', len(I.data), n)
    for q in range(n):
        c.eq('index', el(I.data, (q,)), first + q)
        c.eq('scalar', el(r.c, (q,)), el(dbs[q].c, ()))
        for idx in ndindex(sh):
            at = idx[:1] + (q,) + idx[1:]
            a, b = el(X, at), el(dbs[q][name], idx)
            if kind in 'MU':
                c.check('value', a == b)
            else:
                c.eq('value', a, b)
    for q in dn:
        _same_dim(c, r.ivardata[q], dims[q])


def append_wrong(c):
    """What does not fit is refused and the file stays as it was."""
    F, D, h = _mods(c)
    what = c.choice('what', ['missing', 'extra', 'coordinates', 'length',
                             'dims', 'order'])
    dims = _dims(c, D)
    f, r = dims['freq'], dims['rep']

    def mk(q, dd=(f, r), names=('a', 'b', 'c')):
        db = D.DataBlock()
        for nm in names:
            db[nm] = D.hfarray(c.rarray('%s%d' % (nm, q), tuple(
                len(x.data) for x in dd)), dims=dd)
        return db
    one = mk(0)
    if what == 'missing':
        two = mk(1, names=('a', 'b') if c.choice('which', [0, 1])
                 else ('b', 'c'))
    elif what == 'extra':
        two = mk(1, names=('a', 'b', 'c', 'd'))
    elif what == 'coordinates':
        g = [c.real('g%d' % k) for k in range(3)]
        fs = [el(f.data, (k,)) for k in range(3)]
        c.assume((g[0] != fs[0]) | (g[1] != fs[1]) | (g[2] != fs[2]))
        two = mk(1, (D.DimSweep('freq', c.np.array(g), unit='Hz'), r))
    elif what == 'length':
        two = mk(1, (f, D.DimRep('rep', [4])))
    elif what == 'dims':
        two = mk(1, (f,))
    else:
        two = mk(1, (r, f))
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        fn = os.path.join(d, "x.hdf5")
        with h.h5py.File(fn, mode="w") as fil:
            F.save_hdf5(one, fil, expandable=True)
            c.raises('refused', (ValueError, TypeError), F.append_hdf5, two,
                     fil)
        x = F.read_hdf5(fn)
    finally:
        shutil.rmtree(d)
    c.same('variables', sorted(x.vardata), ['a', 'b', 'c'])
    for nm in 'abc':
        c.same('shape', x[nm].shape, (3, 1, 2))
        for idx in ndindex((3, 2)):
            c.eq('unchanged', el(x[nm], (idx[0], 0, idx[1])),
                 el(one[nm], idx))


def versions(c):
    """Only files of version 0.2 can be appended to."""
    F, D, h = _mods(c)
    dims = _dims(c, D)
    db = D.DataBlock()
    db.x = D.hfarray(c.rarray('a', (3,)), dims=(dims['freq'],))
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        fn = os.path.join(d, "x.hdf5")
        with h.h5py.File(fn, mode="w") as fil:
            F.save_hdf5(db, fil, version='0.1')
            c.raises('refused', Exception, F.append_hdf5, db, fil)
    finally:
        shutil.rmtree(d)


HARNESSES = [H('roundtrip', roundtrip, '0-3 dims of length 1-3'),
             H('many', many, '8 variables over 5 dimensions of up to 16 '
               'points'),
             H('dispatch', dispatch, 'one variable'),
             H('append', append, '1-4 (thorough: 6) datasets, 0-3 dims'),
             H('append_wrong', append_wrong, '3 variables'),
             H('versions', versions, 'one variable')]
ASSUMPTIONS = []
