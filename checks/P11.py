"""Dimensions are immutable values: equality, hashing, ordering, slicing,
derivation and lookup agree with name, kind, coordinates and unit."""
from .common import H

KINDS = ['DimSweep', 'DimRep', 'DimMatrix_i', 'DimMatrix_j', 'DiagAxis']
ALLK = KINDS + ['DimAnonymous', 'IndepAxis', 'DerivAxis', 'ComplexDiagAxis',
                'ComplexIndepAxis', 'ComplexDerivAxis', 'DimPartial',
                'DimMatrix_Indep_i', 'DimMatrix_Deriv_i',
                'DimMatrix_Indep_j', 'DimMatrix_Deriv_j']


def _mk(c, M, p, kinds, n=2, names=('f', 'g'), units=(None, 'Hz', 'V'),
        fmts=(None, '%.3e')):
    kind = c.choice(p + '.kind', kinds)
    name = c.choice(p + '.name', list(names))
    unit = c.choice(p + '.unit', list(units))
    fmt = c.choice(p + '.fmt', list(fmts))
    data = [c.real('%s.x%d' % (p, k)) for k in range(n)]
    return (getattr(M, kind)(name, c.np.array(data) if data else [],
                             unit=unit, outputformat=fmt),
            (kind, name, unit, fmt, data))


def equality(c, kinds, n1, n2):
    """== is equality of kind, name, coordinates and unit, equal dimensions
    are interchangeable as keys, and the order is consistent with it."""
    M = c.mod('hftools.dataset.dim')
    a, (ka, na, ua, fa, da) = _mk(c, M, 'a', kinds, n1)
    b, (kb, nb, ub, fb, db) = _mk(c, M, 'b', kinds, n2)
    same = len(da) == len(db)
    for x, y in zip(da, db):
        if not same:
            break
        if not bool(x == y):
            same = False
    want = same and (ka, na, ua) == (kb, nb, ub)
    c.same('equal', bool(a == b), want)
    c.same('symmetric', bool(b == a), want)
    c.same('not equal', bool(a != b), not want)
    c.check('reflexive', a == a)
    if want:
        c.check('equal dimensions have the same hash', hash(a) == hash(b))
        c.same('interchangeable in a set', len(set([a, b])), 1)
        c.same('interchangeable as keys', {a: 1}.get(b), 1)
    lt, gt = bool(a < b), bool(b < a)
    c.same('exactly one of less, equal, greater', (lt, want, gt).count(True),
           1)
    c.check('name comparison', (a == 'f') == (na == 'f') and
            not a == 'other')


def order(c, kinds):
    """Sorting puts sweeps before repetitions before matrix dimensions and
    does not depend on the initial order."""
    M = c.mod('hftools.dataset.dim')
    ds = [_mk(c, M, p, kinds, 1, units=(None, 'V'), fmts=(None,))[0]
          for p in 'abc']
    s = sorted(ds)
    key = [d.sortprio for d in s]
    c.same('sorted by priority', key, sorted(key))
    p = c.choice('perm', [(1, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1),
                          (0, 2, 1)])
    t = sorted([ds[k] for k in p])
    c.check('sorting is independent of the order given',
            all(bool(x == y) for x, y in zip(s, t)))
    prio = [M.DimSweep.sortprio, M.DimRep.sortprio, M.DimMatrix_i.sortprio,
            M.DimMatrix_j.sortprio, M.ComplexIndepAxis.sortprio,
            M.ComplexDerivAxis.sortprio]
    c.check('canonical order', all(x < y for x, y in zip(prio, prio[1:])))


def build(c):
    """Every way of giving the coordinates gives the same dimension."""
    M = c.mod('hftools.dataset.dim')
    D = c.mod('hftools.dataset')
    x = [c.real('x%d' % k) for k in range(3)]
    f = c.choice('form', ['list', 'tuple', 'array', 'hfarray', 'nested',
                          'arrays', 'iter', 'int', 'empty', 'strings'])
    if f == 'list':
        d = M.DimSweep('f', list(x))
    elif f == 'tuple':
        d = M.DimSweep('f', tuple(x))
    elif f == 'array':
        d = M.DimSweep('f', c.np.array(x))
    elif f == 'hfarray':
        d = M.DimSweep('f', D.hfarray(c.np.array(x),
                                      dims=(M.DimSweep('q', 3),)))
    elif f == 'nested':
        d = M.DimSweep('f', [[x[0]], [x[1], x[2]]])
    elif f == 'arrays':
        d = M.DimSweep('f', [x[0], x[1], x[2]], name='h')
        c.same('name', d.name, 'h')
        d = M.DimSweep(d, name='f')
    elif f == 'iter':
        d = M.DimSweep('f', iter(x))
    elif f == 'int':
        d = M.DimSweep('f', 3)
        x = [0, 1, 2]
        c.same('integer format', d.outputformat, '%d')
    elif f == 'empty':
        d = M.DimSweep('f', [])
        x = []
    else:
        d = M.DimSweep('f', ['a', 'b', 'c'])
        c.same('strings', list(d.data), ['a', 'b', 'c'])
        c.same('format', d.outputformat, '%s')
        c.same('size', d.fullsize(), 3)
        return
    c.same('name', d.name, 'f')
    c.same('unit', d.unit, None)
    c.same('size', (d.fullsize(), len(d.data)), (len(x), len(x)))
    c.eq('coordinates', list(d.data), x)
    if f not in ('int', 'empty'):
        c.same('format', d.outputformat, '%.16e')


def derive(c):
    """A dimension made from another takes over what is not overridden."""
    M = c.mod('hftools.dataset.dim')
    src, (k, n, u, fm, data) = _mk(c, M, 'a', ALLK, 2, names=('f',),
                                   units=('Hz', None))
    tgt = c.choice('to', ALLK)
    over = c.choice('override', [(), ('data',), ('unit',), ('name',),
                                 ('outputformat',),
                                 ('data', 'unit', 'name', 'outputformat')])
    new = [c.real('y0')]
    val = dict(data=new, unit='m', name='z', outputformat='%5d')
    d = getattr(M, tgt)(src, **{o: val[o] for o in over})
    c.check('kind', type(d) is getattr(M, tgt))
    c.same('name', d.name, 'z' if 'name' in over else n)
    c.same('unit', d.unit, 'm' if 'unit' in over else u)
    c.eq('coordinates', list(d.data), new if 'data' in over else data)
    c.same('format', d.outputformat, '%5d' if 'outputformat' in over else
           (fm or '%.16e'))
    # the source is untouched
    c.same('source', (type(src).__name__, src.name, src.unit), (k, n, u))
    c.eq('source', list(src.data), data)


def axes(c):
    """Independent, derivative and diagonal forms of a dimension keep name,
    coordinates and unit, and lead back."""
    M = c.mod('hftools.dataset.dim')
    src, (k, n, u, fm, data) = _mk(
        c, M, 'a', ['DimSweep', 'DimRep', 'DiagAxis', 'DimMatrix_i',
                    'DimMatrix_j', 'ComplexDiagAxis', 'DimAnonymous'],
        2, names=('f',))
    I, J = src.indep_axis, src.deriv_axis
    fam = {'DimMatrix_i': ('DimMatrix_Indep_i', 'DimMatrix_Deriv_i'),
           'DimMatrix_j': ('DimMatrix_Indep_j', 'DimMatrix_Deriv_j'),
           'ComplexDiagAxis': ('ComplexIndepAxis', 'ComplexDerivAxis')}
    want = fam.get(k, ('IndepAxis', 'DerivAxis'))
    c.same('kinds', (type(I).__name__, type(J).__name__), want)
    forms = [I, J]
    if k in ('DiagAxis', 'ComplexDiagAxis', 'DimSweep', 'DimRep',
             'DimAnonymous'):
        d1, d2 = I.diag_axis, J.diag_axis
        c.same('back to the diagonal', (type(d1).__name__,
                                        type(d2).__name__),
               ('ComplexDiagAxis',) * 2 if k == 'ComplexDiagAxis' else
               ('DiagAxis',) * 2)
        forms += [d1, d2, I.deriv_axis, J.indep_axis]
        c.check('across', I.deriv_axis == J and J.indep_axis == I)
    for d in forms:
        c.same('name, unit', (d.name, d.unit), (n, u))
        c.eq('coordinates', list(d.data), data)
        c.same('format', d.outputformat, fm or '%.16e')


def slicing(c, n):
    M = c.mod('hftools.dataset.dim')
    d, (k, nm, u, fm, data) = _mk(c, M, 'a', KINDS, n, names=('f',),
                                  units=('Hz', None))
    form = c.choice('form', ['slice', 'full', 'mask', 'list', 'int'])
    if form == 'int':
        c.raises('not with an integer', IndexError, d.__getitem__, 0)
        c.raises('not with an integer', IndexError, d.__getitem__, 'f')
        return
    if form == 'full':
        r = d[:]
        pos = list(range(n))
    elif form == 'slice':
        lo = c.int('lo', -n - 1, n + 1)
        hi = c.int('hi', -n - 1, n + 1)
        st = c.choice('step', [None, 1, 2, -1, -2])
        r = d[slice(lo, hi, st)]
        pos = list(range(n))[slice(int(lo), int(hi), st)]
    elif form == 'mask':
        m = c.barray('m', (n,))
        r = d[m]
        pos = [q for q in range(n) if bool(m[q])]
    else:
        i = c.iarray('i', (2,), -n, n - 1)
        r = d[i]
        pos = [int(v) % n for v in i]
    c.check('kind', type(r) is type(d))
    c.same('name, unit', (r.name, r.unit), (nm, u))
    if pos:
        c.same('format', r.outputformat, d.outputformat)
    c.eq('coordinates', list(r.data), [data[q] for q in pos])
    c.eq('source', list(d.data), data)


def slicing_kinds(c):
    """Integer, text and time coordinates keep their kind and format."""
    import datetime
    M = c.mod('hftools.dataset.dim')
    data, fmt = c.choice('data', [([3, 1, 2], '%d'), (['b', 'a', 'c'], '%s'),
                                  ([True, False, True], None),
                                  ([1 + 2j, 0j, 3j], '%.16e'),
                                  ([datetime.datetime(2020, 1, k)
                                    for k in (3, 1, 2)], '%s')])
    own = c.choice('format', [None, '%5s'])
    d = getattr(M, c.choice('kind', KINDS))('f', data, unit='s',
                                            outputformat=own)
    form = c.choice('form', ['slice', 'mask', 'list'])
    np = c.np
    r, pos = {'slice': (d[::-1], [2, 1, 0]),
              'mask': (d[np.array([True, False, True])], [0, 2]),
              'list': (d[np.array([1, 1])], [1, 1])}[form]
    if own or fmt:
        c.same('format of all', d.outputformat, own or fmt)
    c.same('format', r.outputformat, d.outputformat)
    c.same('name, unit, kind', (r.name, r.unit, type(r)),
           ('f', 's', type(d)))
    c.same('coordinates', r.data.tolist(),
           [d.data.tolist()[q] for q in pos])
    c.same('type', r.data.dtype.kind, d.data.dtype.kind)


def immutable(c):
    M = c.mod('hftools.dataset.dim')
    d, (k, n, u, fm, data) = _mk(c, M, 'a', KINDS, 2, names=('f',),
                                 units=('Hz', None))
    for a in ('name', 'unit', 'data', 'outputformat'):
        c.raises('cannot be changed', AttributeError, setattr, d, a, 'x')
    d.data[0] = c.real('y')
    c.eq('coordinates', list(d.data), data)
    src = [c.real('z0'), c.real('z1')]
    arr = c.np.array(src)
    e = M.DimSweep('g', arr)
    arr[0] = c.real('w')
    c.eq('independent of the array it was made from', list(e.data), src)
    c.check('copy', d.copy() == d)


def lookup(c):
    """Looking a dimension up in an array's dims."""
    M = c.mod('hftools.dataset.dim')
    A = c.mod('hftools.dataset.arrayobj')
    n = c.choice('n', [1, 2, 3])
    names = 'fgh'[:n]
    kinds = [c.choice('k%d' % q, ['DimSweep', 'DimRep', 'DimMatrix_i'])
             for q in range(n)]
    cont = c.choice('container', ['Dims', 'DimsList'])
    ds = getattr(A, cont)([getattr(M, k)(nm, c.rarray('x' + nm, (2,)))
                           for k, nm in zip(kinds, names)])
    wk = c.choice('wk', ['DimSweep', 'DimRep', 'DimMatrix_i', 'DimBase'])
    wn = c.choice('wn', ['f', 'h'])
    w = getattr(M, wk)(wn, c.rarray('w', (2,)))
    hit = [q for q in range(n) if names[q] == wn and
           (wk == 'DimBase' or wk == kinds[q])]
    c.same('contained', w in ds, bool(hit))
    c.same('names', 'f' in ds, cont == 'Dims')
    if hit:
        c.check('same dimension', ds.get_matching_dim(w) is ds[hit[0]])
        c.same('position', ds.matching_index(w), hit[0])
    else:
        c.raises('missing', KeyError, ds.get_matching_dim, w)
        c.raises('missing', KeyError, ds.matching_index, w)
    c.raises('missing', KeyError, ds.get_matching_dim, 'f')


def cplx(c):
    M = c.mod('hftools.dataset.dim')
    ks = [c.choice('k%d' % q, ALLK) for q in range(2)]
    ds = tuple(getattr(M, k)('n%d' % q, 2) for q, k in enumerate(ks))
    c.same('complex axes found', M.dims_has_complex(ds),
           any(k.startswith('Complex') for k in ks))
    c.same('none in nothing', M.dims_has_complex(()), False)
    c.same('the complex pair', [type(d).__name__ for d in M.CPLX],
           ['ComplexIndepAxis', 'ComplexDerivAxis'])


HARNESSES = [
    H('equality', lambda c: equality(c, KINDS[:3], 2, 2), '2 coordinates, '
      '3 kinds', max_paths=20000),
    H('equality sizes', lambda c: equality(
        c, KINDS[:2], *c.choice('sizes', [(1, 2), (0, 1), (0, 0)])),
      'different sizes', max_paths=20000),
    H('equality+', lambda c: equality(c, ALLK, 1, 1), '16 kinds',
      tier='thorough', max_paths=60000),
    H('order', lambda c: order(c, ['DimSweep', 'DimRep', 'DimMatrix_j']
                               if c.tier == 'thorough' else
                               ['DimSweep', 'DiagAxis']),
      '3 dimensions', max_paths=40000),
    H('build', build, '10 forms'),
    H('derive', derive, '16 kinds to 16 kinds'),
    H('axes', axes, '7 kinds'),
    H('slicing', lambda c: slicing(c, 3), '3 coordinates'),
    H('slicing_kinds', slicing_kinds, '5 kinds of data'),
    H('immutable', immutable, '5 kinds'),
    H('lookup', lookup, '1-3 dimensions'),
    H('complex axes', cplx, 'pairs of 16 kinds'),
]
ASSUMPTIONS = []
