"""The printed report of a dataset: every dimension and variable with its
size, unit and limits."""
from .common import H, el

PREFIX = {'p': -12, 'n': -9, 'u': -6, 'm': -3, '': 0, 'k': 3, 'M': 6,
          'G': 9, 'T': 12}


def _ten(c, p):
    from fractions import Fraction
    return Fraction(10) ** p if c.sym else 10. ** p


def _split(c, db, wide):
    """(rows of dimensions, rows of variables) as lists of words"""
    text = db.report(100000 if wide else 1)
    lines = text.split('\n')
    c.same('block', lines[0], 'Blockname: %s' % (db.blockname,))
    dims, vars_ = [], []
    if wide:
        for l in lines[1:]:
            a, _, b = l.partition(' - ')
            vars_.append(a.split())
            dims.append(b.split())
        dims = [x for x in dims if x]
        vars_ = [x for x in vars_ if x]
    else:
        now = None
        for l in lines[1:]:
            w = l.split()
            if not w:
                continue
            if w == ['Dimensions:']:
                now = dims
            elif w == ['Variables:']:
                now = vars_
            now.append(w)
    for rows, head in ((dims, 'Dimensions:'), (vars_, 'Variables:')):
        if rows:
            c.same('heading', rows[0], [head])
            del rows[0]
    return dims, vars_


def _shown(c, label, num, u, unit, x):
    """number and unit with prefix stand for x"""
    base = unit or ''
    c.check(label + ': unit', u.endswith(base))
    pre = u[:len(u) - len(base)] if base else u
    c.check(label + ': prefix', pre in PREFIX)
    got = c.number(num)
    p = _ten(c, PREFIX[pre])
    if c.sym:
        c.eq(label, got * p, x)
    else:
        c.check(label, abs(got * p - float(x)) <=
                1e-9 * abs(float(x)) + 1e-15)


def _limits(c, words, unit, lo, hi):
    """words: value [unit] value [unit]"""
    vals = []
    k = 0
    while k < len(words):
        num = words[k]
        k += 1
        u = ''
        if k < len(words) and words[k][0].isalpha():
            u = words[k]
            k += 1
        vals.append((num, u))
    c.same('minimum and maximum', len(vals), 2)
    _shown(c, 'minimum', vals[0][0], vals[0][1], unit, lo)
    _shown(c, 'maximum', vals[1][0], vals[1][1], unit, hi)


def sweeps(c):
    """The row of a dimension of real numbers."""
    D = c.mod('hftools.dataset')
    c.text_values(signs=0)
    n = c.choice('points', [1, 2, 3])
    unit = c.choice('unit', ['Hz', 'm', None])
    wide = c.choice('layout', [False, True])
    show = c.choice('limits', [True, False])
    units = c.choice('units', [True, False])
    x = [c.real('x%d' % k) for k in range(n)]
    decade = c.choice('decade', [0, 4, -5] if n < 3 else [1])
    for v in x:
        c.assume(v >= _ten(c, decade))
        c.assume(v < 10 * _ten(c, decade))
    db = D.DataBlock()
    db.blockname = 'b'
    f = D.DimSweep('f', c.np.array(x), unit=unit)
    db.f = f
    other = c.choice('other', [False, True])
    if other:
        db.v = D.hfarray(c.rarray('v', (n,)), dims=(f,), unit='V')
        db['g_long_name'] = D.DimRep('g_long_name', 3)
    db.report_minmax = show
    db.report_units = units
    dims, vars_ = _split(c, db, wide)
    c.same('rows', [r[0] for r in dims],
           ['f'] + ['g_long_name'] * other)
    c.same('rows', [r[0] for r in vars_], ['v'] * other)
    row = dims[0]
    lo, hi = x[0], x[0]
    for v in x[1:]:
        if c.truth(v < lo):
            lo = v
        if c.truth(v > hi):
            hi = v
    size = '<%d>' % n
    c.check('size', size in row)
    k = row.index(size)
    if show:
        c.same('unit', row[1:k], [])
        _limits(c, row[k + 1:], unit, lo, hi)
    else:
        c.same('unit', row[1:k], ['[%s]' % (unit or '')] * units)
        c.same('no limits', row[k + 1:], [])
    if other:
        c.same('variable', vars_[0],
               ['v'] + ['[V]'] * units + ['<%d>' % n])
        c.check('size', '<3>' in dims[1])
        if show:
            c.same('limits', dims[1][-2:], ['0', '2'])


def unordered(c):
    """Dimensions with no limits: complex, boolean or empty."""
    D = c.mod('hftools.dataset')
    kind = c.choice('kind', ['complex', 'bool', 'empty', 'no integers'])
    n = 0 if kind in ('empty', 'no integers') else c.choice('n', [1, 2, 3])
    data = {'complex': lambda: c.carray('z', (n,)),
            'bool': lambda: c.barray('b', (n,)),
            'empty': lambda: c.np.array([], dtype=float),
            'no integers': lambda: c.np.array([], dtype=int)}[kind]()
    unit = c.choice('unit', ['Hz', None])
    show = c.choice('limits', [True, False])
    units = c.choice('units', [True, False])
    db = D.DataBlock()
    db.blockname = 'b'
    db.f = D.DimSweep('f', data, unit=unit)
    db.report_minmax = show
    db.report_units = units
    dims, vars_ = _split(c, db, c.choice('layout', [False, True]))
    c.same('row', dims, [['f'] + ['[%s]' % (unit or '')] * units +
                         ['<%d>' % n]])
    c.same('rows', vars_, [])


def integers(c):
    """Limits of integer coordinates."""
    D = c.mod('hftools.dataset')
    c.text_values()
    from .files import I
    n = c.choice('points', [1, 2, 3])
    x = [c.int('x%d' % k, -5000, 5000) for k in range(n)]
    wide = c.choice('layout', [False, True])
    cls = c.choice('class', ['DimRep', 'DimSweep', 'DimPartial'])
    db = D.DataBlock()
    db.blockname = c.choice('blockname', [None, 'b'])
    db.f = getattr(D, cls)('f', c.np.array(x))
    dims, vars_ = _split(c, db, wide)
    lo, hi = x[0], x[0]
    for v in x[1:]:
        if c.truth(v < lo):
            lo = v
        if c.truth(v > hi):
            hi = v
    c.same('row', len(dims), 1)
    c.same('row', dims[0][:2], ['f', '<%d>' % n])
    c.same('limits', len(dims[0]), 4)
    c.eq('minimum', c.number(dims[0][2]), lo)
    c.eq('maximum', c.number(dims[0][3]), hi)


SHAPES = [((), '<>'), (('f',), '<2>'), (('f', 'g'), '<2x3>'),
          (('f', 'i', 'j'), '<2x2x2>'), (('t',), '<2>'), (('w',), '<2>'),
          (('t', 'w'), '<2x2>'), (('t', 'w', 'i', 'g'), '<2x2x2x3>'),
          (('f', 'g', 'w', 'i', 'j'), '<2x3x2x2x2>')]


def variables(c):
    """Rows of variables, and of dimensions of dates and texts."""
    import numpy
    D = c.mod('hftools.dataset')
    c.text_values()
    wide = c.choice('layout', [False, True])
    units = c.choice('units', [True, False])
    dims = {'f': D.DimSweep('f', [1., 2.], unit='Hz'),
            'g': D.DimRep('g', 3), 'i': D.DimMatrix_i('i', 2),
            'j': D.DimMatrix_j('j', 2),
            't': D.DimSweep('t', numpy.array(
                ['2012-08-13T08:03:01', '1969-02-03T00:00:00'],
                dtype='datetime64[us]')),
            'w': D.DimSweep('w', numpy.array([u'on', u'off']))}
    db = D.DataBlock()
    db.blockname = c.choice('blockname', [None, 'a b'])
    db.report_units = units
    nv = c.choice('variables', [0, 1, 2])
    want = []
    used = []
    for k in range(nv):
        dn, size = c.choice('dims%d' % k, SHAPES)
        unit = c.choice('unit%d' % k, [None, 'mV'])
        dd = tuple(dims[x] for x in dn)
        a = c.rarray('a%d' % k, tuple(len(d.data) for d in dd))
        name = ['x', 'longer/name'][k]
        db[name] = D.hfarray(a, dims=dd, unit=unit)
        want.append([name] + ['[%s]' % (unit or '')] * units + [size])
        used += [x for x in dn if x not in used]
    rows, vars_ = _split(c, db, wide)
    c.same('variables', vars_, want)
    c.same('dimensions', sorted(r[0] for r in rows), sorted(used))
    for r in rows:
        if r[0] == 't':
            c.same('limits', r[1:], ['<2>', '1969-02-03T00:00:00.000000',
                                     '2012-08-13T08:03:01.000000'])
        elif r[0] == 'w':
            c.same('size', r[1], '<2>')
            c.check('kind', '<U3' in ' '.join(r[1:]))
        elif r[0] == 'f':
            c.same('limits', r[1:], ['<2>', '1.0', 'Hz', '2.0', 'Hz'])
        elif r[0] == 'g':
            c.same('limits', r[1:], ['<3>', '0', '2'])
        else:
            c.same('limits', r[1:], ['<2>', '0', '1'])
    c.same('text', str(db), db.report())
    c.same('text', repr(db), db.report())


def many(c):
    """One row each for many variables or dimensions."""
    D = c.mod('hftools.dataset')
    c.text_values()
    nv = c.choice('variables', [0, 1, 5, 12, 30])
    nd = c.choice('dimensions', [1, 2, 6, 14])
    wide = c.choice('layout', [False, True])
    dims = [D.DimSweep('d%d' % k, c.rarray('x%d' % k, (2,)), unit='V')
            for k in range(nd)]
    db = D.DataBlock()
    db.report_minmax = False
    for d in dims:
        db[d.name] = d
    for k in range(nv):
        db['name%d' % k * (k % 3 + 1)] = D.hfarray(
            c.rarray('a', (2,)), dims=(dims[k % nd],), unit='A')
    rows, vars_ = _split(c, db, wide)
    c.same('variables', sorted(vars_), sorted(
        ['name%d' % k * (k % 3 + 1), '[A]', '<2>'] for k in range(nv)))
    c.same('dimensions', sorted(rows), sorted(
        ['d%d' % k, '[V]', '<2>'] for k in range(nd)))


def comments(c):
    """The table of comments has one row per property."""
    F = c.mod('hftools.file_formats.common')
    c.text_values()
    from .files import T
    n = c.choice('n', [0, 1, 2, 3])
    lines, want = [], {}
    for k in range(n):
        key = ['Temp', 'a_much_longer_key', 'B'][k]
        what = c.choice('what%d' % k, ['number', 'text'])
        if what == 'number':
            v = c.real('v%d' % k)
            lines.append('%s: %s' % (key, T(v)))
            want[key] = v
        else:
            lines.append('%s: some words' % key)
            want[key] = None
    t = F.Comments(lines)
    rows = t.table()
    if not n:
        c.same('empty', rows, [])
        return
    rows = [r.split() for r in rows]
    c.same('heading', rows[0][1], 'Comments')
    c.same('heading', rows[1], ['Key', 'Value'])
    c.same('keys', [r[0] for r in rows[3:]], sorted(want))
    for r in rows[3:]:
        v = want[r[0]]
        if v is None:
            c.same('text', r[1:], ['some', 'words'])
        else:
            c.same('number', len(r), 2)
            c.eq('number', c.number(r[1]), v)
    c.same('text', repr(t), '\n'.join(t.table()))


HARNESSES = [
    H('sweeps', sweeps, '1-3 points, decades 1e-5, 1, 10, 1e4'),
    H('unordered', unordered, '0-3 points', exact=True),
    H('integers', integers, '1-3 integers below 5000'),
    H('variables', variables, '0-2 variables, 0-3 dims'),
    H('many', many, '0-30 variables, 1-14 dims', exact=True),
    H('comments', comments, '0-3 comments'),
]
ASSUMPTIONS = ['names without white space']
