"""CITI files."""
from .common import H, el, ndindex
from .files import T, roundtrip, increasing


def _re_im(c, typ, a, b):
    if typ == 'RI':
        return a, b
    if typ == 'MAG':
        return a, 0
    th = b * c.np.pi / 180
    return a * c.np.cos(th), a * c.np.sin(th)


def _pair(typ, a, b, sep=','):
    return T(a) if typ == 'MAG' else T(a) + sep + T(b)


def read(c):
    """Every number ends up under its name at its sweep point."""
    CI, D = c.mods('hftools.file_formats.citi', 'hftools.dataset')
    c.text_values()
    shape = c.choice('shape', [(1,), (2,), (3,), (2, 2), (2, 3), (1, 2),
                               (2, 1, 3), (9,), (2, 2, 2, 2)])
    types = c.choice('types', [('RI', 'MAG'), ('MAG', 'RI'),
                               ('MAGANGLE', 'RI'), ('MAG', 'MAGANGLE')])
    names = c.choice('names', [('b', 'a'), ('Pout', 'Pin')])
    seg = c.choice('seg', [False, True] if len(shape) < 3 else [False])
    style = c.choice('style', ['plain', 'messy'])
    vnames = ['freq', 'power', 'Vg', 'Vd'][:len(shape)]
    coords = []
    lists = []
    for v, n in zip(vnames, shape):
        if seg:
            lo, hi = c.real(v + '_lo'), c.real(v + '_hi')
            if n > 1:
                x = [lo + (hi - lo) * k / (n - 1) for k in range(n)]
            else:
                x = [lo]
            lists.append(["SEG_LIST_BEGIN", "SEG %s %s %d" % (
                T(lo), T(hi), n), "SEG_LIST_END"])
        else:
            x = [c.real('%s%d' % (v, k)) for k in range(n)]
            lists.append(["VAR_LIST_BEGIN"] + [T(y) for y in x] +
                         ["VAR_LIST_END"])
        coords.append(x)
    data = {}
    blocks = []
    for nm, typ in zip(names, types):
        b = ["BEGIN"]
        for idx in ndindex(shape):
            k = '_'.join(map(str, idx))
            p = (c.real('%s_re_%s' % (nm, k)), c.real('%s_im_%s' % (nm, k)))
            data[nm, idx] = p
            b.append(_pair(typ, *p))
        blocks.append(b + ["END"])
    text = ["CITIFILE A.01.00", "NAME RAW_DATA"]
    text += ["VAR %s MAG %d" % (v, n) for v, n in zip(vnames, shape)]
    text += ["DATA %s %s" % x for x in zip(names, types)]
    com = []
    if style == 'messy':
        com = ["!first", "#NA VERSION HP8510C", "COMMENT Temp: 23.5", "",
               "  "]
        text[1:1] = com
    for k, b in enumerate(lists + blocks):
        if style == 'messy':
            b = ["  " + x for x in b] + [""]
        text += b
    db = CI.ReadCITIFileFormat(make_matrix=True).do_file(
        [x + "\n" for x in text])
    for v, x in zip(vnames, coords):
        X = D.hfarray(db.ivardata[v])
        c.same('length of sweep', X.shape, (len(x),))
        for k in range(len(x)):
            c.eq('sweep point', el(X, (k,)), x[k])
    for nm, typ in zip(names, types):
        A = db[nm]
        c.same('dims of variable', [d.name for d in A.dims], vnames)
        c.same('shape of variable', A.shape, shape)
        for idx in ndindex(shape):
            re, im = _re_im(c, typ, *data[nm, idx])
            z = el(A, idx)
            c.eq('real part', z.real, re)
            c.eq('imaginary part', z.imag, im)
    c.same('blockname', db.blockname, 'RAW_DATA')
    if style == 'messy':
        c.same('comments', db.comments.fullcomments,
               ["first", "NA VERSION HP8510C", "Temp: 23.5"])
        c.eq('property', el(db.Temp, ()), 23.5)


def matrix(c):
    """Elements are gathered into matrices by their indices, in whatever
    order and type they are stored."""
    CI, D = c.mods('hftools.file_formats.citi', 'hftools.dataset')
    c.text_values()
    form = c.choice('form', ['S[%d,%d]', 'S%d%d'])
    n, m = c.choice('shape', [(2, 2), (3, 3), (1, 2), (2, 1), (1, 1),
                              (5, 5), (9, 2)])
    order = c.choice('order', ['rows', 'columns', 'reversed'])
    mixed = c.choice('mixed', ['RI', 'MAG first', 'RI first'])
    nf = 2
    cells = [(i, j) for i in range(n) for j in range(m)]
    if order == 'columns':
        cells = [(i, j) for j in range(m) for i in range(n)]
    elif order == 'reversed':
        cells = cells[::-1]
    f = increasing(c, nf)
    val = {}
    text = ["CITIFILE A.01.00", "NAME DATA_1", "VAR freq MAG %d" % nf]
    body = ["VAR_LIST_BEGIN"] + [T(x) for x in f] + ["VAR_LIST_END"]
    for i, j in cells:
        typ = 'RI'
        if mixed == 'MAG first' and (i, j) == (0, 0):
            typ = 'MAG'
        elif mixed == 'RI first' and (i, j) != (0, 0):
            typ = 'MAG'
        text.append("DATA %s %s" % (form % (i + 1, j + 1), typ))
        body.append("BEGIN")
        for k in range(nf):
            p = (c.real('re%d%d_%d' % (i, j, k)),
                 c.real('im%d%d_%d' % (i, j, k)) if typ == 'RI' else 0)
            val[k, i, j] = p
            body.append(_pair(typ, *p))
        body.append("END")
    db = CI.ReadCITIFileFormat(make_matrix=True).do_file(text + body)
    if (n, m) == (1, 1):
        A = db[form % (1, 1)]
        get = lambda k, i, j: el(A, (k,))     # noqa
    else:
        A = db.S
        c.same('shape', A.shape, (nf, n, m))
        c.same('matrix', [type(d).__name__ for d in A.dims],
               ['DimSweep', 'DimMatrix_i', 'DimMatrix_j'])
        get = lambda k, i, j: el(A, (k, i, j))     # noqa
    for (k, i, j), (re, im) in val.items():
        z = get(k, i, j)
        c.eq('real part', z.real, re)
        c.eq('imaginary part', z.imag, im)


def save(c):
    """Saved data is read back unchanged."""
    CI, D, F = c.mods('hftools.file_formats.citi', 'hftools.dataset',
                      'hftools.file_formats')
    c.text_values()
    shape = c.choice('shape', [(1,), (3,), (2, 3), (2, 2), (9,), (2, 3, 2)])
    kinds = c.choice('kinds', ['fc', 'cf', 'ci', 'm', 'cm', 'mf'])
    swap = c.choice('order of dims', ['same', 'swapped']
                    if len(shape) > 1 else ['same'])
    scalar = c.choice('scalar', ['no', 'first', 'last'])
    com = c.choice('comments', ['none', 'some'])
    names = ['freq', 'power', 'Vg'][:len(shape)]
    coords = [increasing(c, n, v) for v, n in zip(names, shape)]
    dims = tuple(D.DimSweep(v, c.np.array(x)) for v, x in
                 zip(names, coords))
    db = D.DataBlock()
    if scalar == 'first':
        s = c.real('s')
        db.sc = D.hfarray(s)
    src = {}
    for q, kind in enumerate(kinds):
        nm = ['S', 'R'][q]
        dd, sh = dims, tuple(shape)
        if q == 1 and swap == 'swapped':
            dd, sh = dims[::-1], sh[::-1]
        if kind == 'm':
            A = c.carray(nm, sh + (2, 2))
            dd = dd + (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
        else:
            A = c.kinds(nm, sh, kind)
        src[nm] = (A, dd)
        db[nm] = D.hfarray(A, dims=dd)
    if scalar == 'last':
        s = c.real('s')
        db.sc = D.hfarray(s)
    if com == 'some':
        db.comments = F.Comments(["Project: x 1"])
    db.blockname = "blk"
    r = roundtrip(lambda fn: CI.save_citi(db, fn),
                  lambda fn: CI.read_citi(fn), "x.citi")
    for v, x in zip(names, coords):
        X = D.hfarray(r.ivardata[v])
        c.same('length of sweep', X.shape, (len(x),))
        for k in range(len(x)):
            c.eq('sweep point', el(X, (k,)), x[k])
    for nm, (A, dd) in src.items():
        B = r[nm]
        c.same('dims', sorted(d.name for d in B.dims),
               sorted(d.name for d in dd))
        pos = [[d.name for d in dd].index(d.name) for d in B.dims]
        for idx in ndindex(B.shape):
            src_idx = [0] * len(idx)
            for k, p in zip(idx, pos):
                src_idx[p] = k
            c.eq('value', el(B, idx), el(A, src_idx))
    if scalar != 'no':
        c.eq('scalar', el(r.sc, ()), s)
    c.same('blockname', r.blockname, 'blk')
    if com == 'some':
        c.check('comments', "Project: x 1" in r.comments.fullcomments)


def numerals(c):
    """Numbers may be spelled in every usual way."""
    CI, D = c.mods('hftools.file_formats.citi', 'hftools.dataset')
    c.text_values()
    t, v = c.choice('text', [('1', 1), ('+2', 2), ('3.', 3), ('.5', 0.5),
                             ('-.5', -0.5), ('1e3', 1000), ('+1E+03', 1000),
                             ('-2.5E-1', -0.25), ('0', 0), ('-0.0', 0),
                             ('007', 7)])
    at = c.choice('at', ['sweep', 'mag', 're', 'im', 'seg'])
    x = [c.real('x%d' % k) for k in range(6)]
    tt = [T(y) for y in x]
    k = dict(sweep=0, seg=0, mag=1, re=2, im=3)[at]
    tt[k], x[k] = t, v
    lists = ["SEG_LIST_BEGIN", "SEG %s %s 2" % (tt[0], tt[4]),
             "SEG_LIST_END"] if at == 'seg' else \
        ["VAR_LIST_BEGIN", tt[0], tt[4], "VAR_LIST_END"]
    db = CI.ReadCITIFileFormat(make_matrix=True).do_file(
        ["CITIFILE A.01.00", "NAME X", "VAR freq MAG 2", "DATA a MAG",
         "DATA b RI"] + lists + ["BEGIN", tt[1], tt[5], "END", "BEGIN",
                                 tt[2] + "," + tt[3], tt[5] + "," + tt[5],
                                 "END"])
    F = D.hfarray(db.ivardata['freq'])
    c.eq('sweep', [el(F, (0,)), el(F, (1,))], [x[0], x[4]])
    c.eq('magnitude', [el(db.a, (0,)), el(db.a, (1,))], [x[1], x[5]])
    z = el(db.b, (0,))
    c.eq('complex', [z.real, z.imag], [x[2], x[3]])


def reject(c):
    """Incomplete or inconsistent files are refused."""
    CI = c.mod('hftools.file_formats.citi')
    c.text_values()
    f = increasing(c, 2)
    v = [c.real('v%d' % k) for k in range(4)]
    text = ["CITIFILE A.01.00", "NAME X", "VAR freq MAG 2", "DATA a RI",
            "VAR_LIST_BEGIN", T(f[0]), T(f[1]), "VAR_LIST_END",
            "BEGIN", T(v[0]) + "," + T(v[1]), T(v[2]) + "," + T(v[3]), "END"]
    what = c.choice('what', ['too few', 'too many', 'bad line', 'bad type',
                             'no end', 'no begin', 'truncated',
                             'no name', 'missing data', 'no var list'])
    if what == 'too few':
        del text[9]
    elif what == 'too many':
        text.insert(9, text[9])
    elif what == 'bad line':
        text.insert(4, "WHAT is this")
    elif what == 'bad type':
        text[3] = "DATA a XY"
    elif what == 'no end':
        del text[-1]
    elif what == 'no begin':
        del text[8]
    elif what == 'truncated':
        k = c.choice('lines', list(range(0, 12)))
        text = text[:k]
    elif what == 'no name':
        del text[1]
    elif what == 'missing data':
        del text[8:]
    elif what == 'no var list':
        del text[4:8]
    c.raises('refused', Exception,
             CI.ReadCITIFileFormat(make_matrix=True).do_file, text)


HARNESSES = [
    H('read', read, '1-2 sweeps of 1-3 points, two variables'),
    H('matrix', matrix, 'matrices up to 3x3, 2 sweep points'),
    H('save', save, '1-2 sweeps of 1-3 points, two variables'),
    H('numerals', numerals, '11 spellings in 5 places'),
    H('reject', reject, '2 sweep points'),
]
ASSUMPTIONS = ['a number written with %.16e is read back unchanged',
               'variable names without white space']
