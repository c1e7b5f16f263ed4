"""SP-data (tab separated) files."""
from .common import H, el, ndindex
from .files import T, roundtrip, in_files, increasing


def read(c):
    """Columns become variables over the first column; pairs of columns
    become complex, repeated columns become repetitions, units are removed
    from the names and applied."""
    SP, D = c.mods('hftools.file_formats.spdata', 'hftools.dataset')
    c.text_values()
    n = c.choice('n', [1, 2, 3])
    cols = c.choice('columns', ['plain', 'reim', 'magarg', 'unit', 'rep',
                                'imre', 'mixed', 'many rep', 'reim rep'])
    style = c.choice('style', ['plain', 'messy'])
    xu = c.choice('x', ['freq', 'freq [GHz]', 'Freq[Hz]', 'x'])
    mul = 1e9 if 'GHz' in xu else 1
    f = [c.real('f%d' % k) for k in range(n)]

    def v(name):
        return [c.real('%s%d' % (name, k)) for k in range(n)]
    table = [(xu, f)]
    want = {}
    if cols == 'plain':
        a, b = v('a'), v('b')
        table += [('alpha', a), ('beta', b)]
        want = {'alpha': (a, None, None), 'beta': (b, None, None)}
    elif cols == 'reim':
        a, b, d = v('a'), v('b'), v('d')
        table += [('Re(z)', a), ('w', d), ('Im(z)', b)]
        want = {'z': (a, b, None), 'w': (d, None, None)}
    elif cols == 'imre':
        a, b = v('a'), v('b')
        table += [('Im(z)', b), ('Re(z)', a)]
        want = {'z': (a, b, None)}
    elif cols == 'magarg':
        a, b = v('a'), v('b')
        table += [('Mag(z)', a), ('Arg(z)', b)]
        th = [y * c.np.pi / 180 for y in b]
        want = {'z': ([x * c.np.cos(t) for x, t in zip(a, th)],
                      [x * c.np.sin(t) for x, t in zip(a, th)], None)}
    elif cols == 'unit':
        a, b = v('a'), v('b')
        table += [('Vx [mV]', a), ('t[ns]', b)]
        want = {'Vx': ([x / 1000 for x in a], None, 'V'),
                't': ([x / 1000000000 for x in b], None, 's')}
    elif cols == 'rep':
        a, b, d = v('a'), v('b'), v('d')
        table += [('q', a), ('r', b), ('q', d)]
        want = {'r': (b, None, None)}
    elif cols == 'many rep':
        reps = [v('q%d_' % k) for k in range(12)]
        b = v('b')
        table += [('q', x) for x in reps[:5]] + [('r', b)]
        table += [('q', x) for x in reps[5:]]
        want = {'r': (b, None, None)}
    elif cols == 'reim rep':
        reps = [v('q%d_' % k) for k in range(6)]
        table += [(('Re(q)', 'Im(q)')[k % 2], x) for k, x in enumerate(reps)]
    elif cols == 'mixed':
        a, b = v('a'), v('b')
        table += [('Re(z)', a), ('Im(y)', b)]
        want = {'Re(z)': (a, None, None), 'Im(y)': (b, None, None)}
    lines = ["\t".join(x for x, _ in table)]
    lines += ["\t".join(T(col[k]) for _, col in table) for k in range(n)]
    if style == 'messy':
        lines = ["!Project : Test", "!  Temp [C] : 23.5", "", "!Fullcomments",
                 "!Mail: me@here"] + [lines[0] + " ", ""] + ["  " + x for x in lines[1:]]
    db = SP.ReadSPFileFormat(make_matrix=True).do_file(lines)
    xn = 'x' if xu == 'x' else 'freq'
    X = D.hfarray(db.ivardata[xn])
    c.same('number of points', X.shape, (n,))
    for k in range(n):
        c.eq('sweep', el(X, (k,)), f[k] * mul)
    c.same('unit of the sweep', db.ivardata[xn].unit,
           None if xn == 'x' else 'Hz')
    for name, (re, im, unit) in want.items():
        A = db[name]
        c.same('dims', [d.name for d in A.dims], [xn])
        for k in range(n):
            z = el(A, (k,))
            c.eq('value', z.real, re[k])
            c.eq('imaginary part', z.imag, 0 if im is None else im[k])
        if unit:
            c.same('unit', A.unit, unit)
    if cols == 'rep':
        A = db.q
        if n > 1:
            c.same('shape', A.shape, (n, 2))
            for k in range(n):
                c.eq('first', el(A, (k, 0)), a[k])
                c.eq('second', el(A, (k, 1)), d[k])
    elif cols == 'many rep' and n > 1:
        c.same('shape', db.q.shape, (n, 12))
        for k in range(n):
            for i in range(12):
                c.eq('repetition', el(db.q, (k, i)), reps[i][k])
    elif cols == 'reim rep' and n > 1:
        c.same('shape', db.q.shape, (n, 3))
        for k in range(n):
            for i in range(3):
                c.eq('repetition', el(db.q, (k, i)).real, reps[2 * i][k])
                c.eq('repetition', el(db.q, (k, i)).imag, reps[2 * i + 1][k])
    names = set(want) | ({'q'} if 'rep' in cols else set())
    if style == 'messy':
        names |= {'Project', 'Temp', 'Mail'}
        c.eq('property', el(db.Temp, ()), 23.5)
        c.same('unit of property', db.Temp.unit, 'C')
        c.same('comments', db.comments.fullcomments,
               ["Project : Test", "  Temp [C] : 23.5", "Mail: me@here"])
    c.same('variables', set(db.vardata.keys()), names)


def save(c):
    """One sweep: what is saved is read back."""
    SP, D, F = c.mods('hftools.file_formats.spdata', 'hftools.dataset',
                      'hftools.file_formats')
    c.text_values()
    n = c.choice('n', [1, 3, 9])
    kinds = c.choice('kinds', ['fc', 'cf', 'ic', 'm', 'cm', 'Mf', 'r'])
    scalar = c.choice('scalar', ['no', 'first', 'last'])
    unit = c.choice('unit', [None, 'V'])
    com = c.choice('comments', ['none', 'some'])
    f = increasing(c, n)
    freq = D.DimSweep("freq", c.np.array(f), unit="Hz")
    db = D.DataBlock()
    if scalar == 'first':
        s = c.real('s')
        db.sc = D.hfarray(s, unit="A")
    src = {}
    for q, kind in enumerate(kinds):
        nm = ['S', 'R'][q]
        dd, sh = (freq,), (n,)
        if kind in 'mMr':
            p = (3, 3) if kind == 'M' else ((2, 2) if kind == 'm' else (2, 3))
            dd += (D.DimMatrix_i("i%d" % p[0], p[0]),
                   D.DimMatrix_j("j%d" % p[1], p[1]))
            A = c.carray(nm, sh + p)
        else:
            A = c.kinds(nm, sh, kind)
        src[nm] = A
        db[nm] = D.hfarray(A, dims=dd, unit=unit)
    if scalar == 'last':
        s = c.real('s')
        db.sc = D.hfarray(s, unit="A")
    if com == 'some':
        db.comments = F.Comments(["Project: x 1"])
    r = roundtrip(lambda fn: SP.save_spdata(db, fn),
                  lambda fn: SP.read_spdata(fn), "x.txt")
    X = D.hfarray(r.ivardata['freq'])
    c.same('number of points', X.shape, (n,))
    for k in range(n):
        c.eq('sweep', el(X, (k,)), f[k])
    c.same('unit of the sweep', r.ivardata['freq'].unit, 'Hz')
    for q, (nm, A) in enumerate(src.items()):
        c.same('shape', r[nm].shape, A.shape)
        for idx in ndindex(A.shape):
            c.eq('value', el(r[nm], idx), el(A, idx))
        if kinds[q] in 'fi' and unit:
            c.same('unit', r[nm].unit, unit)
    if scalar != 'no':
        c.eq('scalar', el(r.sc, ()), s)
        c.same('unit of scalar', r.sc.unit, "A")
    if com == 'some':
        c.check('comments', "Project: x 1" in r.comments.fullcomments)


def sweeps(c, shape, kinds=('f', 'c', 'm')):
    """Several sweeps are written as one block per point of the outer ones
    and recovered point by point."""
    SP, D, F = c.mods('hftools.file_formats.spdata', 'hftools.dataset',
                      'hftools.file_formats')
    c.text_values()
    hyper = c.choice('hyper', [False, True])
    kind = c.choice('kind', list(kinds))
    scalar = c.choice('scalar', [False, True])
    names = ['freq', 'Vg', 'Vd'][:len(shape)]
    coords = [increasing(c, k, nm) for k, nm in zip(shape, names)]
    rev = c.choice('reversed', [False, True])
    if rev:
        coords = [x[::-1] for x in coords]
    dims = tuple(D.DimSweep(nm, c.np.array(x), unit=u) for nm, x, u in
                 zip(names, coords, ["Hz", "V", None]))
    db = D.DataBlock()
    if scalar:
        s = c.real('s')
        db.sc = D.hfarray(s)
    a = c.rarray('a', shape)
    db.a = D.hfarray(a, dims=dims)
    if kind == 'm':
        b = c.carray('b', tuple(shape) + (2, 2))
        db.b = D.hfarray(b, dims=dims + (D.DimMatrix_i("i", 2),
                                         D.DimMatrix_j("j", 2)))
        sub = [(0, 0), (0, 1), (1, 0), (1, 1)]
    else:
        b = c.kinds('b', shape, kind)
        db.b = D.hfarray(b, dims=dims)
        sub = [()]
    r = roundtrip(lambda fn: SP.save_spdata(db, fn),
                  lambda fn: SP.read_spdata(fn, hyper=hyper), "x.txt")
    if scalar:
        c.eq('scalar', el(r.sc, ()), s)
    outer = list(ndindex(shape[1:]))
    for nm, A, subs in (('a', a, [()]), ('b', b, sub)):
        R = r[nm]
        if hyper:
            c.same('dims', sorted(d.name for d in R.dims[:len(shape)]),
                   sorted(names))
            for idx in ndindex(R.shape[:len(shape)]):
                src = [None] * len(shape)
                for d, k in zip(R.dims, idx):
                    p = names.index(d.name)
                    x = d.data[k]
                    for m, y in enumerate(coords[p]):
                        if bool(x == y):
                            src[p] = m
                c.check('coordinates are those saved', None not in src)
                for t in subs:
                    c.eq('value', el(R, tuple(idx) + t),
                         el(A, tuple(src) + t))
        else:
            c.same('one point per block', R.shape[:2],
                   (shape[0], len(outer)))
            X = D.hfarray(r.ivardata['freq'])
            for i in range(shape[0]):
                c.eq('sweep', el(X, (i,)), coords[0][i])
            for k, o in enumerate(outer):
                for p, m in enumerate(o):
                    V = r[names[p + 1]]
                    c.same('dims', [d.name for d in V.dims],
                           [R.dims[1].name])
                    c.eq('outer sweep', el(V, (k,)), coords[p + 1][m])
                for i in range(shape[0]):
                    for t in subs:
                        c.eq('value', el(R, (i, k) + t),
                             el(A, (i,) + tuple(o) + t))


def wide(c):
    """More rows and columns."""
    SP, D = c.mods('hftools.file_formats.spdata', 'hftools.dataset')
    c.text_values()
    n, m = c.choice('size', [(12, 2), (3, 12), (9, 6)])
    x = [[c.real('x%d_%d' % (k, q)) for q in range(m)] for k in range(n)]
    pairs = c.choice('pairs', [False, True])
    head = ["freq [MHz]"] + ["%s(v%d)" % (["Re", "Im"][q % 2], q // 2)
                             if pairs else "v%d" % q for q in range(m)]
    f = increasing(c, n)
    db = SP.ReadSPFileFormat(make_matrix=True).do_file(
        ["\t".join(head)] + ["\t".join(T(y) for y in [f[k]] + x[k])
                             for k in range(n)])
    c.same('columns', sorted(db.vardata), sorted(
        "v%d" % q for q in range(m // 2 if pairs else m)))
    F = D.hfarray(db.ivardata['freq'])
    c.same('points', F.shape, (n,))
    for k in range(n):
        c.eq('sweep', el(F, (k,)), f[k] * 1000000)
        for q in range(m):
            z = el(db["v%d" % (q // 2 if pairs else q)], (k,))
            c.eq('value', z.imag if pairs and q % 2 else z.real, x[k][q])


def formats(c):
    """Output formats with a width pad the columns; nothing is cut."""
    SP, D = c.mods('hftools.file_formats.spdata', 'hftools.dataset')
    c.text_values()
    fmt = c.choice('format', ['%.16e', '%25.16e', '%-25.16e', '%30.16e',
                              '%5.16e'])
    kind = c.choice('kind', ['f', 'c', 'm'])
    name = c.choice('name', ['a', 'temperature_of_the_second_stage'])
    unit = c.choice('unit', [None, 'V'])
    f = increasing(c, 2)
    freq = D.DimSweep("freq", c.np.array(f), unit="Hz",
                      outputformat=c.choice('dimension', ['%.16e', fmt]))
    dims, shape = (freq,), (2,)
    if kind == 'm':
        dims += (D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2))
        shape += (2, 2)
    a = c.kinds('a', shape, 'f' if kind == 'f' else 'c')
    b = c.rarray('b', (2,))
    db = D.DataBlock()
    db[name] = D.hfarray(a, dims=dims, unit=unit, outputformat=fmt)
    db.b = D.hfarray(b, dims=(freq,))
    r = roundtrip(lambda fn: SP.save_spdata(db, fn),
                  lambda fn: SP.read_spdata(fn), "x.txt")
    c.check('name', name in r.vardata and 'b' in r.vardata)
    X = D.hfarray(r.ivardata['freq'])
    for k in range(2):
        c.eq('sweep', el(X, (k,)), f[k])
        c.eq('other', el(r.b, (k,)), el(b, (k,)))
    for i in ndindex(shape):
        c.eq('value', el(r[name], i), el(a, i))


def numerals(c):
    """Numbers may be spelled in every usual way."""
    SP, D = c.mods('hftools.file_formats.spdata', 'hftools.dataset')
    c.text_values()
    t, v = c.choice('text', [('1', 1), ('+2', 2), ('3.', 3), ('.5', 0.5),
                             ('-.5', -0.5), ('1e3', 1000), ('+1E+03', 1000),
                             ('-2.5E-1', -0.25), ('0', 0), ('-0.0', 0),
                             ('007', 7)])
    at = c.choice('at', list(range(6)))
    x = [c.real('x%d' % k) for k in range(6)]
    tt = [T(y) for y in x]
    tt[at], x[at] = t, v
    db = SP.ReadSPFileFormat(make_matrix=True).do_file(
        ["freq\ta\tb", "\t".join(tt[:3]), "\t".join(tt[3:])])
    F = D.hfarray(db.ivardata['freq'])
    c.eq('numbers', [el(y, (k,)) for k in (0, 1) for y in (F, db.a, db.b)],
         x)


def blocks(c):
    """Blocks of a file, and several files, are kept apart."""
    SP, D = c.mods('hftools.file_formats.spdata', 'hftools.dataset')
    c.text_values()
    nb = c.choice('blocks', [2, 3, 7])
    split = c.choice('split', ['one file', 'a file each'])
    n = 2
    f = increasing(c, n)
    vg = [c.real('vg%d' % k) for k in range(nb)]
    a = [[c.real('a%d_%d' % (k, i)) for i in range(n)] for k in range(nb)]
    texts = []
    for k in range(nb):
        texts.append(["!@Vg = %s V" % T(vg[k]), "!Id = %s" % T(vg[k]),
                      "freq\talpha"] +
                     ["\t".join([T(f[i]), T(a[k][i])]) for i in range(n)])
    if split == 'one file':
        texts = [sum(texts, [])]
    db = in_files(texts, lambda names: SP.read_spdata(names))
    c.same('one column per block', db.alpha.shape, (n, nb))
    for k in range(nb):
        c.eq('block variable', el(db.Vg, (k,)), vg[k])
        c.eq('block property', el(db.Id, (k,)), vg[k])
        for i in range(n):
            c.eq('value', el(db.alpha, (i, k)), a[k][i])
    c.same('unit', db.Vg.unit, 'V')
    if split != 'one file':
        c.same('file names', len(set(db.FILENAME.tolist())), nb)


def reject(c):
    SP = c.mod('hftools.file_formats.spdata')
    c.text_values()
    v = [c.real('v%d' % k) for k in range(6)]
    L = ["!c", "freq\ta\tb", "\t".join(map(T, v[:3])),
         "\t".join(map(T, v[3:]))]
    what = c.choice('what', ['short header', 'long header', 'no header',
                             'only comments', 'only header', 'empty',
                             'two headers', 'short row', 'long row',
                             'short first row', 'block without data'])
    if what == 'short header':
        L[1] = "freq\ta"
    elif what == 'long header':
        L[1] += "\tc"
    elif what == 'no header':
        del L[1]
    elif what == 'only comments':
        del L[1:]
    elif what == 'only header':
        del L[2:]
    elif what == 'empty':
        L = []
    elif what == 'two headers':
        L.insert(1, L[1])
    elif what == 'short row':
        L[-1] = "\t".join(map(T, v[3:5]))
    elif what == 'long row':
        L[-1] += "\t" + T(v[0])
    elif what == 'short first row':
        L[2] = "\t".join(map(T, v[:2]))
    elif what == 'block without data':
        L = L[:2] + L
    c.raises('refused', Exception,
             SP.ReadSPFileFormat(make_matrix=True).do_file, L)


HARNESSES = [
    H('read', read, '1-3 points, up to 3 columns'),
    H('save', save, '1 or 3 points, two variables'),
    H('sweeps 2x2', lambda c: sweeps(c, (2, 2)), '2x2 points'),
    H('sweeps 2x3', lambda c: sweeps(c, (2, 3)), '2x3 points'),
    H('sweeps 2x2x2', lambda c: sweeps(c, (2, 2, 2)), '2x2x2 points'),
    H('sweeps 6x2', lambda c: sweeps(c, (6, 2), 'c'), '6x2 points'),
    H('sweeps 2x6', lambda c: sweeps(c, (2, 6), 'm'), '2x6 points'),
    H('wide', wide, 'up to 12 rows or 12 columns'),
    H('formats', formats, '5 formats'),
    H('numerals', numerals, '11 spellings in 6 places'),
    H('blocks', blocks, '2-3 blocks or files of 2 points'),
    H('reject', reject, '2 points'),
]
ASSUMPTIONS = ['a number written with %.16e is read back unchanged',
               'all variables share the sweeps']
