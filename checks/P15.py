"""Touchstone files."""
import os
import shutil
import tempfile
from .common import H, el


def T(x):
    return "%.16e" % x


UNITS = dict(HZ=1, KHZ=1e3, MHZ=1e6, GHZ=1e9, THZ=1e12, PHZ=1e15)


def _freqs(c, nf, p='f'):
    f = [c.real('%s%d' % (p, k), nonneg=True) for k in range(nf)]
    for k in range(1, nf):
        c.assume(f[k - 1] < f[k])
    return f


def _cells(n):
    """Order of the matrix elements in the file: column by column for
    two-ports, row by row otherwise."""
    if n == 2:
        return [(0, 0), (1, 0), (0, 1), (1, 1)]
    return [(i, j) for i in range(n) for j in range(n)]


def _lines(f, pairs, n, layout, sep):
    """Data lines of one frequency point."""
    nums = []
    for a, b in pairs:
        nums.append([T(a), T(b)])
    if layout == 'one' or n < 3:
        rows = [nums]
    elif layout == 'rows':          # a line per matrix row, <= 4 pairs
        rows = []
        for i in range(n):
            row = nums[n * i:n * i + n]
            while row:
                rows.append(row[:4])
                row = row[4:]
    out = []
    for k, row in enumerate(rows):
        toks = [t for p in row for t in p]
        if k == 0:
            toks = [T(f)] + toks
        out.append(sep.join(toks))
    return out


def _value(c, fmt, a, b):
    if fmt == 'RI':
        return a, b
    th = b * c.np.pi / 180
    m = a if fmt == 'MA' else 10 ** (a / 20)
    return m * c.np.cos(th), m * c.np.sin(th)


def _decorate(lines, style):
    if style == 'plain':
        return [x + "\n" for x in lines]
    out = ["! a comment", "!Vg: 2.5"]
    for k, x in enumerate(lines):
        out.append("\t %s  ! trailing 7 8 9" % x)
        if k % 2:
            out.append("   ")
            out.append("! between 1 2 3")
        else:
            out.append("")
    return [x + "\r\n" for x in out]


def read(c, n, nf):
    """Every number ends up at its frequency and matrix element, in Hz and
    as the complex number it denotes."""
    TS, D = c.mods('hftools.file_formats.touchstone', 'hftools.dataset')
    c.text_values()
    fmt = c.choice('fmt', ['RI', 'MA', 'DB'])
    unit = c.choice('unit', ['HZ', 'GHz', 'mhz', 'KHz', 'THZ', 'PHZ']
                    if n < 3 and fmt == 'RI' else ['GHz'])
    style = c.choice('style', ['plain', 'messy'])
    layout = c.choice('layout', ['one', 'rows'] if n > 2 else ['one'])
    par = c.choice('par', ['S', 'Z', 'Y', 'H', 'G'] if fmt == 'RI' and
                   n == 2 and unit == 'GHz' else ['S', 'Z']
                   if fmt == 'RI' else ['S'])
    z0 = c.choice('z0', ['R 50', 'r  75.5'] if n == 1 or n == 3
                  else ['R 50'])
    f = _freqs(c, nf)
    v = [[(c.real('a%d_%d' % (k, q), nonneg=(fmt == 'MA')),
           c.real('b%d_%d' % (k, q))) for q in range(n * n)]
         for k in range(nf)]
    lines = []
    for k in range(nf):
        lines.extend(_lines(f[k], v[k], n, layout,
                            " " if style == 'plain' else " \t  "))
    head = "# %s %s %s %s" % (unit, par, fmt, z0)
    if style == 'messy':
        head = "  #%s\t%s   %s %s" % (unit, par.lower(), fmt.lower(), z0)
    if style == 'messy':
        text = _decorate(["@@"] + lines, style)
        text = [head + "\n" if "@@" in x else x for x in text]
    else:
        text = [head + "\n"] + _decorate(lines, style)
    db = TS.ReadTouchstoneFileFormat(make_matrix=True).do_file(text)
    X = db[par]
    c.same('shape', X.shape, (nf, n, n))
    c.same('sweep', X.dims[0].name, 'freq')
    c.same('matrix', [type(d).__name__ for d in X.dims[1:]],
           ['DimMatrix_i', 'DimMatrix_j'])
    c.same('frequency unit', db.ivardata['freq'].unit, 'Hz')
    F = D.hfarray(db.ivardata['freq'])
    for k in range(nf):
        c.eq('frequency in Hz', el(F, (k,)), f[k] * UNITS[unit.upper()])
        for q, (i, j) in enumerate(_cells(n)):
            re, im = _value(c, fmt, *v[k][q])
            z = el(X, (k, i, j))
            c.eq('real part of element', z.real, re)
            c.eq('imaginary part of element', z.imag, im)
    c.eq('reference impedance', el(db.Z0, ()),
         75.5 if '75.5' in z0 else 50)
    if style == 'messy':
        c.same('comments', db.comments.fullcomments[:2],
               ["a comment", "Vg: 2.5"])
        c.eq('property from comment', el(db.Vg, ()), 2.5)


def noise(c):
    """The noise block of a two-port file."""
    TS, D = c.mods('hftools.file_formats.touchstone', 'hftools.dataset')
    c.text_values()
    fmt = c.choice('fmt', ['MA', 'RI', 'DB'])
    nf = c.choice('nf', [1, 2, 3])
    nn = c.choice('nn', [1, 2])
    grid = c.choice('grid', ['own', 'same'])
    if grid == 'same' and nn != nf:
        return
    f = _freqs(c, nf)
    fn = f if grid == 'same' else _freqs(c, nn, 'fn')
    c.assume(fn[0] <= f[-1])
    v = [[(c.real('a%d_%d' % (k, q), nonneg=(fmt == 'MA')),
           c.real('b%d_%d' % (k, q))) for q in range(4)] for k in range(nf)]
    w = [[c.real('fmin%d' % k), c.real('m%d' % k, nonneg=True),
          c.real('p%d' % k), c.real('r%d' % k, nonneg=True)]
         for k in range(nn)]
    lines = ["# GHz S %s R 75\n" % fmt]
    for k in range(nf):
        lines.extend(_lines(f[k], v[k], 2, 'one', " "))
    lines.append("! noise\n")
    for k in range(nn):
        lines.append(" ".join(map(T, [fn[k]] + w[k])))
    db = TS.ReadTouchstoneFileFormat(make_matrix=True).do_file(lines)
    c.same('shape', db.S.shape, (nf, 2, 2))
    for k in range(nf):
        for q, (i, j) in enumerate(_cells(2)):
            re, im = _value(c, fmt, *v[k][q])
            z = el(db.S, (k, i, j))
            c.eq('real part of element', z.real, re)
            c.eq('imaginary part of element', z.imag, im)
    for name in ('Rn', 'Fmin', 'Gopt'):
        c.same('one value per noise frequency', db[name].shape, (nn,))
    FN = D.hfarray(db.Rn.dims[0])
    for k in range(nn):
        d = el(FN, (k,)) - fn[k] * 1e9
        if grid == 'same':
            c.eq('noise frequency in Hz', d, 0)
        tol = fn[k] * 1e4 + 1e-8
        c.check('noise frequency in Hz', (d <= tol) & (-d <= tol))
        c.eq('Rn in Ohm', el(db.Rn, (k,)), w[k][3] * 75)
        c.eq('Fmin as a ratio', el(db.Fmin, (k,)), 10 ** (w[k][0] / 10))
        re, im = _value(c, 'MA', w[k][1], w[k][2])
        c.eq('Gopt', el(db.Gopt, (k,)).real, re)
        c.eq('Gopt', el(db.Gopt, (k,)).imag, im)


def save(c, n, nf):
    """What is saved is read back: same network, same frequencies, same
    reference impedance."""
    TS, D, F = c.mods('hftools.file_formats.touchstone', 'hftools.dataset',
                      'hftools.file_formats')
    c.text_values()
    f = _freqs(c, nf)
    S = c.carray('S', (nf, n, n))
    db = D.DataBlock()
    freq = D.DimSweep("freq", c.np.array(f), unit="Hz")
    db.S = D.hfarray(S, dims=(freq, D.DimMatrix_i("i", n),
                              D.DimMatrix_j("j", n)))
    com = c.choice('comments', ['none', 'some', 'empty'])
    if com != 'none':
        db.comments = F.Comments(["Vg: 2"] if com == 'some' else [])
    z = c.choice('Z0', ['absent', 'given'])
    z0 = 50
    if z == 'given':
        z0 = c.real('z0')
        c.assume(z0 > 0)
        db.Z0 = D.hfarray(z0, unit="Ohm")
    d = tempfile.mkdtemp(prefix="p15_")
    try:
        fname = os.path.join(d, "x.s%dp" % n)
        TS.save_touchstone(db, fname)
        r = TS.read_touchstone(fname)
    finally:
        shutil.rmtree(d)
    c.same('shape', r.S.shape, (nf, n, n))
    FF = D.hfarray(r.ivardata['freq'])
    for k in range(nf):
        c.eq('frequency', el(FF, (k,)), f[k])
        for i in range(n):
            for j in range(n):
                a, b = el(r.S, (k, i, j)), el(S, (k, i, j))
                c.eq('element', a, b)
    c.eq('reference impedance', el(r.Z0, ()), z0)
    if com == 'some':
        c.same('comments', r.comments.fullcomments[:1], ["Vg: 2"])


def numerals(c):
    """Numbers may be spelled in every usual way."""
    TS, D = c.mods('hftools.file_formats.touchstone', 'hftools.dataset')
    c.text_values()
    t, v = c.choice('text', [('1', 1), ('+2', 2), ('3.', 3), ('.5', 0.5),
                             ('-.5', -0.5), ('1e3', 1000), ('1E+03', 1000),
                             ('-2.5E-1', -0.25), ('0', 0), ('-0.0', 0),
                             ('007', 7)])
    at = c.choice('at', list(range(1, 9)))
    x = [c.real('x%d' % k) for k in range(8)]
    toks = ["4.5"] + [T(y) for y in x]
    toks[at] = t
    x[at - 1] = v
    db = TS.ReadTouchstoneFileFormat(make_matrix=True).do_file(
        ["# MHz S RI R 50\n", " ".join(toks) + "\n"])
    c.eq('frequency', el(D.hfarray(db.ivardata['freq']), (0,)), 4500000)
    for q, (i, j) in enumerate(_cells(2)):
        z = el(db.S, (0, i, j))
        c.eq('real part', z.real, x[2 * q])
        c.eq('imaginary part', z.imag, x[2 * q + 1])


def reject(c):
    """Files that are not Touchstone files are refused, not misread."""
    TS = c.mod('hftools.file_formats.touchstone')
    c.text_values()
    what = c.choice('what', ['no option line', 'two option lines',
                             'unknown unit', 'unknown format', 'extra',
                             'short', 'long', 'no data', 'backwards'])
    n = c.choice('n', [1, 2, 3])
    f = _freqs(c, 2)
    v = [[(c.real('a%d_%d' % (k, q)), c.real('b%d_%d' % (k, q)))
          for q in range(n * n)] for k in range(2)]
    lines = _lines(f[0], v[0], n, 'one', ' ') + \
        _lines(f[1], v[1], n, 'one', ' ')
    head = ["#GHZ S RI R 50"]
    if what == 'no option line':
        head = []
    elif what == 'two option lines':
        lines = lines[:1] + head + lines[1:]
    elif what == 'unknown unit':
        head = ["#GCYCLES S RI R 50"]
    elif what == 'unknown format':
        head = ["#GHZ S XY R 50"]
    elif what == 'extra':
        head = ["#GHZ S RI R 50 2"]
    elif what == 'short':
        lines[1] = lines[1].rsplit(None, 1)[0]
    elif what == 'long':
        lines[1] += " " + T(c.real('x1')) + " " + T(c.real('x2'))
    elif what == 'no data':
        lines = []
    elif what == 'backwards':
        if n == 1:
            return
        lines = lines[::-1]
    c.raises('refused', TS.TouchstoneError,
             TS.ReadTouchstoneFileFormat(make_matrix=True).do_file,
             head + lines)


HARNESSES = []
for _n, _nf in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1),
                (4, 2), (5, 1), (1, 12), (2, 9), (7, 1), (9, 1)]:
    HARNESSES.append(H('read %dx%d' % (_n, _nf),
                       lambda c, n=_n, nf=_nf: read(c, n, nf),
                       '%d-port, %d frequencies' % (_n, _nf),
                       ))
for _n, _nf in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1),
                (4, 2), (1, 12), (2, 9), (6, 1), (9, 1)]:
    HARNESSES.append(H('save %dx%d' % (_n, _nf),
                       lambda c, n=_n, nf=_nf: save(c, n, nf),
                       '%d-port, %d frequencies' % (_n, _nf),
                       ))
HARNESSES += [H('numerals', numerals, '11 spellings in every place'),
              H('noise', noise, '2-port, 1-3 frequencies'),
              H('reject', reject, '1-3 ports, 2 frequencies')]
ASSUMPTIONS = ['frequencies strictly increasing',
               'a number written with %.16e is read back unchanged']
