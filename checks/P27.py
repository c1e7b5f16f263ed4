"""The common part of all readers: from the columns of a file to variables
and matrices; which files are read, by which reader; the cache."""
import os
import shutil
import tempfile

from symex import fakeh5
from .common import H, el, ndindex, subsets
from .files import T, increasing


def _mods(c):
    return c.mods('hftools.file_formats.readbase', 'hftools.dataset')


# ----------------------------------------------------- complex pairs
STEMS = ['x', 'S21', 'b1/a1 raw', 'V(1)']
RESTS = ['', ' [mV]', ' raw']


def pairs(c):
    """Re(x) and Im(x), or Mag(x) and Arg(x), become x; everything else is
    left alone."""
    R, D = _mods(c)
    n = c.choice('points', [1, 2])
    dim = D.DimSweep('f', c.np.array(increasing(c, n)))
    stem = c.choice('stem', STEMS)
    rest = c.choice('rest', RESTS)
    form = c.choice('form', [('Re', 'Im'), ('Im', 'Re'), ('Mag', 'Arg'),
                             ('Re', 'Arg'), ('Mag', 'Im'), ('Re',),
                             ('Arg',), ('Mean', 'Std'), ('Re', 'Im', '')])
    space = c.choice('space', ['', ' '])
    db = D.DataBlock()
    want = {}
    for k, fun in enumerate(form):
        name = (fun + space + '(' + stem + ')' if fun else stem) + rest
        a = c.rarray('v%d' % k, (n,))
        if fun == 'Arg':
            # multiples of quarter turns: exact
            q = c.choice('quarters', [0, 1, -1, 2])
            a = c.np.array([90 * q] * n, dtype=float)
        db[name] = D.hfarray(a, dims=(dim,))
        want[name] = [el(a, (i,)) for i in range(n)]
    other = c.choice('other', [None, 'Re(y)', 'Reg(y)', 'y'])
    if other:
        a = c.rarray('o', (n,))
        db[other] = D.hfarray(a, dims=(dim,))
        want[other] = [el(a, (i,)) for i in range(n)]
    key = lambda f: f + space + '(' + stem + ')' + rest
    if '' not in form:
        if 'Re' in form and 'Im' in form:
            re, im = want.pop(key('Re')), want.pop(key('Im'))
            want[stem + rest] = [x + 1j * y for x, y in zip(re, im)]
        elif 'Mag' in form and 'Arg' in form:
            mag, _ = want.pop(key('Mag')), want.pop(key('Arg'))
            want[stem + rest] = [x * 1j ** (q % 4) for x in mag]
    out = R.make_cplx(db)
    c.same('variables', sorted(out.vardata), sorted(want))
    for name in want:
        c.same('shape', out[name].shape, (n,))
        c.same('dims', out[name].dims, (dim,))
        for i in range(n):
            c.eq('value', el(out[name], (i,)), want[name][i])


# ----------------------------------------------------- names
TR = {'b1/a1 raw': 'b11', 'b1/a2 raw': 'b12', 'b2/a1 raw': 'b21',
      'b2/a2 raw': 'b22', 'a1 raw': 'a11', 'a1/a2 raw': 'a12',
      'a2/a1 raw': 'a21', 'a2 raw': 'a22', 'b1/a1': 'b11', 'b1/a2': 'b12',
      'b2/a1': 'b21', 'b2/a2': 'b22', 'a1': 'a11', 'a1/a2': 'a12',
      'a2/a1': 'a21', 'a2': 'a22'}
FREQ = ['Freq[Hz]', 'Frequency', 'Freq', 'freq', 'Vg']


def names(c):
    """Standard names are made simple; no variable is lost or mixed up."""
    F, D = c.mods('hftools.file_formats.common', 'hftools.dataset')
    fname = c.choice('dimension', FREQ)
    dim = D.DimSweep(fname, c.np.array(increasing(c, 2)), unit='Hz')
    set_ = c.choice('set', [
        sorted(TR)[:8], sorted(TR)[8:], ['b1/a1', 'b1/a1 raw'],
        ['a1', 'a11'], ['b2/a1 raw', 'b21', 'b2/a1'], ['alpha', 'Beta'],
        ['Mean(x)', 'Std(x)'], ['Mean(x)', 'y'], ['Std(x)', 'x'],
        ['Mean(a1)', 'Std(a1)'], ['Mean(Std(x))'], ['Meaning(x)', 'Mean'],
        ['Mean(x) raw'], ['Mean(x)', 'x'], ['Std(x)', 's_x'],
        ['Freq', 'x'], ['Frequency', 'Freq[Hz]'],
        [x for x in sorted(TR) if 'raw' in x],
        [x for x in sorted(TR) if 'raw' not in x]])
    db = D.DataBlock()
    db.comments = None
    vals = {}
    for k, nm in enumerate(set_):
        if nm == fname:
            return
        a = c.rarray('v%d' % k, (2,))
        db[nm] = D.hfarray(a, dims=(dim,), unit='V')
        vals[nm] = [el(a, (i,)) for i in range(2)]
    if 'Mean(x)' in vals and 'x' in vals or \
            'Std(x)' in vals and 's_x' in vals:
        c.raises('refused', ValueError, F.normalize_names, db)
        return
    out = F.normalize_names(db)
    want = {}
    clash = set()
    new = {}
    for nm in set_:
        t = TR.get(nm, 'freq' if nm in FREQ[:3] else nm)
        if t.startswith('Mean(') and t.endswith(')'):
            t = t[5:-1]
        if t.startswith('Std(') and t.endswith(')'):
            t = 's_' + t[4:-1]
        new.setdefault(t, []).append(nm)
    fnew = 'freq' if fname in FREQ[:3] else fname
    new.setdefault(fnew, []).append(fname)
    # as many variables as before, each value under one name
    c.same('number of variables', len(out.vardata) + len(out.ivardata),
           len(set_) + 1)
    for t, olds in new.items():
        if len(olds) == 1 and olds[0] in vals:
            c.check('renamed', t in out.vardata)
            for i in range(2):
                c.eq('value', el(out[t], (i,)), vals[olds[0]][i])
            c.same('unit', out[t].unit, 'V')
        elif len(olds) > 1:
            # one gets the name, the others keep theirs
            for old in olds:
                if old not in vals:
                    continue
                here = [nm for nm in [t] + olds if nm in out.vardata and
                        bool(c.truth(el(out[nm], (0,)) ==
                                     vals[old][0])) and
                        bool(c.truth(el(out[nm], (1,)) == vals[old][1]))]
                c.check('kept', len(here) > 0)
    if len(new[fnew]) == 1:
        c.check('dimension renamed', fnew in out.ivardata)
    d = list(out.ivardata.values())[0]
    c.same('unit of dimension', d.unit, 'Hz')
    for i in range(2):
        c.eq('points', el(d.data, (i,)), el(dim.data, (i,)))
    for nm in out.vardata:
        c.same('dims', [x.name for x in out[nm].dims], [d.name])
    # the original is left alone
    c.same('original', sorted(db.vardata), sorted(set_))
    for nm in set_:
        for i in range(2):
            c.eq('original', el(db[nm], (i,)), vals[nm][i])


# ----------------------------------------------------- units in names
UNITS = [('Hz', 1, 'Hz'), ('GHz', 10 ** 9, 'Hz'), ('mV', (1, 1000), 'V'),
         ('m', 1, 'm'), ('mm', (1, 1000), 'm'), ('dBm', 1, 'dBm'),
         ('kOhm', 1000, 'Ohm'), ('mdB', 1, 'mdB')]


def units(c):
    """name [unit] becomes name, in the unit without prefix."""
    R, D = _mods(c)
    n = 2
    u, mul, base = c.choice('unit', UNITS)
    space = c.choice('space', ['', ' ', '\t '])
    what = c.choice('what', ['variable', 'dimension', 'both'])
    also = c.choice('also', [False, True])
    kind = c.choice('kind', ['f', 'c', 'i'])
    if kind == 'i' and u not in ('Hz', 'GHz', 'mV'):
        return
    x = increasing(c, n)
    dn = 'V g' + space + '[%s]' % u if what != 'variable' else 'V g'
    cls = c.choice('class', ['DimSweep', 'DimRep'])
    dim = getattr(D, cls)(dn, c.np.array(x))
    vn = 'I_d' + space + '[%s]' % u if what != 'dimension' else 'I_d'
    a = c.kinds('a', (n,), kind)
    b = c.rarray('b', (n,))
    db = D.DataBlock()
    db[vn] = D.hfarray(a, dims=(dim,))
    db.b = D.hfarray(b, dims=(dim,), unit='A')
    if also:
        # the name is taken
        o = c.rarray('o', (n,))
        db['I_d'] = D.hfarray(o, dims=(dim,))
    obj = R.ReadFileFormat()
    out, = obj._guess_unit([db])

    def times(v):
        return v * mul[0] / mul[1] if isinstance(mul, tuple) else v * mul
    dv = what != 'variable'
    vv = what != 'dimension'
    c.same('dimensions', sorted(out.ivardata), ['V g'])
    d = list(out.ivardata.values())[0]
    c.check('kind of dimension', type(d) is type(dim))
    for i in range(n):
        c.eq('points', el(d.data, (i,)), times(x[i]) if dv else x[i])
    c.same('unit of dimension', d.unit, base if dv else None)
    want = set(['I_d', 'b'])
    if also and vv:
        want.add(vn)
    c.same('variables', sorted(out.vardata), sorted(want))
    for nm in want:
        c.same('dims', [y.name for y in out[nm].dims], ['V g'])
        for i in range(n):
            c.eq('points seen from the variable',
                 el(out[nm].dims[0].data, (i,)), el(d.data, (i,)))
    for i in range(n):
        c.eq('other variable', el(out.b, (i,)), el(b, (i,)))
        if not also:
            v = el(a, (i,))
            c.eq('value', el(out.I_d, (i,)), times(v) if vv else v)
        elif vv:
            c.eq('value kept', el(out[vn], (i,)), el(a, (i,)))
            c.eq('value kept', el(out.I_d, (i,)), el(o, (i,)))
        else:
            c.eq('value', el(out.I_d, (i,)), el(o, (i,)))
    c.same('unit', out.b.unit, 'A')
    if not also:
        c.same('unit', out.I_d.unit, base if vv else None)


# ----------------------------------------------------- matrices
def _elements(c):
    sets = [('S11',), ('S11', 'S21'), ('S11', 'S12'),
            ('S11', 'S12', 'S21', 'S22'), ('S22', 'S21', 'S12', 'S11'),
            ('S11', 'S12', 'S21'), ('S22', 'S23', 'S32', 'S33'),
            ('S11', 'S13', 'S31', 'S33'), ('S12', 'S22'),
            ('S11', 'S12', 'S13', 'S21', 'S22', 'S23'),
            ('S11', 'S21', 'S31', 'S12', 'S22', 'S32'),
            ('S00', 'S01', 'S10', 'S11'), ('X1', 'X2'),
            ('S11', 'S12', 'S21', 'S22', 'S211'),
            ('S11', 'S12', 'S21', 'S22', 'Y11', 'Y21', 'Y12', 'Y22'),
            ('S_dut11', 'S_dut21', 'S_dut12', 'S_dut22'),
            ('_Z21', '_Z11'), ('ab12', 'Ab11', 'ab11', 'Ab12'),
            tuple('S1%d' % k for k in range(9, 0, -1)),
            tuple('S%d%d' % (i, j) for j in (3, 1, 4, 2)
                  for i in (2, 4, 1, 3))]
    return c.choice('elements', sets)


def matrices(c):
    """The elements of a complete matrix are combined; every element is
    still found by its name, with its value."""
    R, D = _mods(c)
    nd = c.choice('ndim', [0, 1, 2])
    dims = (D.DimSweep('f', c.np.array(increasing(c, 2))),
            D.DimRep('r', 2))[:nd]
    shape = (2,) * nd
    elems = _elements(c)
    kinds = c.choice('kinds', ['c', 'f', 'fc', 'cf'])
    if len(elems) > 4 and (nd == 2 or len(kinds) > 1):
        return
    db = D.DataBlock()
    vals = {}
    for k, nm in enumerate(elems):
        a = c.kinds(nm, shape, kinds[k % len(kinds)])
        db[nm] = D.hfarray(a, dims=dims)
        vals[nm] = [el(a, i) for i in ndindex(shape)]
    s = c.real('s')
    db.other = D.hfarray(s)
    obj = R.ReadFileFormat(make_matrix=True)
    on = c.choice('make_matrix', [True, False])
    obj.make_matrix = on
    out, = obj._combine_matrices([db])
    groups = {}
    for nm in elems:
        if len(nm) > 2 and not nm[-3].isdigit() and nm[-2:].isdigit():
            groups.setdefault(nm[:-2], []).append(nm)
    left = set(elems) | set(['other'])
    for stem, nms in groups.items():
        i_ = sorted(set(int(nm[-2]) for nm in nms))
        j_ = sorted(set(int(nm[-1]) for nm in nms))
        full = on and len(nms) > 1 and len(nms) == len(i_) * len(j_) and \
            i_ == list(range(1, len(i_) + 1)) and \
            j_ == list(range(1, len(j_) + 1))
        if full:
            left -= set(nms)
            left.add(stem)
            m = out[stem]
            c.same('shape', m.shape, shape + (len(i_), len(j_)))
            c.check('dims', m.dims[:nd] == dims and
                    type(m.dims[-2]) is D.DimMatrix_i and
                    type(m.dims[-1]) is D.DimMatrix_j)
            for nm in nms:
                p = (int(nm[-2]) - 1, int(nm[-1]) - 1)
                for k, i in enumerate(ndindex(shape)):
                    c.eq('element', el(m, i + p), vals[nm][k])
    c.same('variables', sorted(out.vardata), sorted(left))
    for nm in elems:
        v = out[nm]
        c.same('dims', tuple(v.dims), dims)
        for k, i in enumerate(ndindex(shape)):
            c.eq('found by name', el(v, i), vals[nm][k])
    c.eq('other', el(out.other, ()), s)


def combine(c):
    """combine_elements_to_matrix adds the matrix and keeps its elements"""
    R, D = _mods(c)
    nd = c.choice('ndim', [0, 1])
    dims = (D.DimSweep('f', c.np.array(increasing(c, 2))),)[:nd]
    shape = (2,) * nd
    elems = _elements(c)
    if any(len(nm) > 4 or nm[0] in 'aA_' for nm in elems):
        return
    kinds = c.choice('kinds', ['c', 'f', 'fc', 'cf'])
    db = D.DataBlock()
    vals = {}
    for k, nm in enumerate(elems):
        a = c.kinds(nm, shape, kinds[k % len(kinds)])
        db[nm] = D.hfarray(a, dims=dims)
        vals[nm] = [el(a, i) for i in ndindex(shape)]
    nms = [nm for nm in elems if nm[0] == 'S']
    if 'S211' in nms:
        return
    i_ = sorted(set(int(nm[1]) for nm in nms))
    j_ = sorted(set(int(nm[2]) for nm in nms))
    if not nms or len(nms) != len(i_) * len(j_):
        c.raises('refused', Exception, R.combine_elements_to_matrix, db,
                 'S')
        return
    out = R.combine_elements_to_matrix(db, 'S')
    m = out['S']
    c.same('shape', m.shape, shape + (len(i_), len(j_)))
    for nm in nms:
        p = (i_.index(int(nm[1])), j_.index(int(nm[2])))
        for k, i in enumerate(ndindex(shape)):
            c.eq('element', el(m, i + p), vals[nm][k])
    for nm in elems:
        for k, i in enumerate(ndindex(shape)):
            c.eq('found by name', el(out[nm], i), vals[nm][k])


# ----------------------------------------------------- order of files
def order(c):
    """File names are ordered with their numbers as numbers, whatever the
    numbers; nothing is lost."""
    U = c.mod('hftools.utils')
    c.text_values()
    from .files import I
    n = c.choice('files', [1, 2, 3])
    pre = c.choice('prefix', ['f', '', 'a/b_', 'f 10_'])
    post = c.choice('suffix', ['.txt', '', '_7', 'x'])
    v = [c.int('v%d' % k, 0, 999999) for k in range(n)]
    names = [pre + I(x) + post for x in v]
    mixed = c.choice('mixed', [None, 'g.txt', '5', 'f', ''])
    if mixed is not None:
        names = names[:1] + [mixed] + names[1:]
    out = U.lex_order(names)
    c.same('nothing lost', sorted(out), sorted(names))
    nums = [x for x in out if mixed is None or x != mixed]
    w = dict(zip([pre + I(x) + post for x in v], v))
    for p, q in zip(nums, nums[1:]):
        if p in w and q in w:
            c.check('increasing', w[p] <= w[q])


# ----------------------------------------------------- which reader
def _touchstone(f, s):
    return "x.s1p", ["# HZ S RI R 50"] + [
        " ".join([T(f[i]), T(s[i].real), T(s[i].imag)])
        for i in range(len(f))]


def _citi(f, s):
    return "x.citi", ["CITIFILE A.01.00", "NAME x",
                      "VAR freq MAG %d" % len(f), "DATA S RI",
                      "VAR_LIST_BEGIN"] + [T(x) for x in f] + [
        "VAR_LIST_END", "BEGIN"] + [
        T(x.real) + ", " + T(x.imag) for x in s] + ["END"]


def _mdif(f, s):
    return "x.mdf", ["BEGIN DSCRDATA", "% freq(real) S(complex)"] + [
        "\t".join([T(a), T(b.real), T(b.imag)]) for a, b in zip(f, s)] + \
        ["END"]


def _spdata(f, s):
    return "x.txt", ["!Power[dBm]: 1.2", "freq\tRe(S)\tIm(S)"] + [
        "\t".join([T(a), T(b.real), T(b.imag)]) for a, b in zip(f, s)]


FORMATS = {'touchstone': _touchstone, 'citi': _citi, 'mdif': _mdif,
           'spdata': _spdata}


def _sval(db):
    for nm in ('S11', 'S'):
        if nm in db:
            v = db[nm]
            return v
    return None


def which(c):
    """read_data reads each kind of file, given as a name, a pattern, a
    list."""
    F = c.mod('hftools.file_formats')
    fakeh5.STORE.clear()
    c.text_values()
    fmt = c.choice('format', sorted(FORMATS))
    how = c.choice('how', ['name', 'pattern', 'list', 'list of patterns'])
    nf = c.choice('files', [1, 2] if how != 'name' else [1])
    blank = c.choice('blank', [False, True])
    n = 2
    f = increasing(c, n)
    s = [[c.cplx('s%d_%d' % (k, i)) for i in range(n)] for k in range(nf)]
    folder = tempfile.mkdtemp(prefix='vf_')
    try:
        fns = []
        for k in range(nf):
            name, lines = FORMATS[fmt](f, s[k])
            if blank and fmt == 'touchstone':
                lines = ['! comment', '! B = 3 V'] + lines
            elif blank and fmt == 'spdata':
                lines = ['! comment'] + lines
            elif blank and fmt == 'mdif':
                lines = ['! comment', ''] + lines
            # 2 before 10, although '1' < '2'
            fn = os.path.join(folder, ['m2', 'm10'][k] + name)
            with open(fn, 'w') as fil:
                fil.write('\n'.join(lines) + '\n')
            fns.append(fn)
        if how == 'name':
            arg = fns[0]
        elif how == 'pattern':
            arg = os.path.join(folder, 'm*')
        elif how == 'list':
            arg = fns
        else:
            arg = [os.path.join(folder, 'm2*'),
                   os.path.join(folder, 'm1?*')][:nf]
        db = F.read_data(arg, verbose=False)
        if fmt == 'mdif':
            c.same('blocks', list(db), ['DSCRDATA'])
            db = db['DSCRDATA']
        v = _sval(db)
        c.check('variable', v is not None)
        d = list(x for x in v.dims if x.name == 'freq')
        c.same('sweep', len(d), 1)
        for i in range(n):
            c.eq('sweep', el(d[0].data, (i,)), f[i])
        rest = tuple(0 for x in v.dims[2 if nf > 1 else 1:])
        for k in range(nf):
            for i in range(n):
                idx = (i, k) if nf > 1 else (i,)
                c.eq('value', el(v, idx + rest), s[k][i])
        if nf > 1:
            c.same('files', [os.path.basename(str(x)) for x in
                             db.FILENAME.tolist()],
                   [os.path.basename(x) for x in fns])
    finally:
        shutil.rmtree(folder)


def missing(c):
    F = c.mod('hftools.file_formats')
    how = c.choice('how', ['name', 'pattern', 'list', 'empty list'])
    folder = tempfile.mkdtemp(prefix='vf_')
    try:
        a = os.path.join(folder, 'x.s2p')
        arg = {'name': a, 'pattern': os.path.join(folder, '*'),
               'list': [a, a + 'x'], 'empty list': []}[how]
        c.raises('refused', IOError, F.read_data, arg)
    finally:
        shutil.rmtree(folder)


# ----------------------------------------------------- cache
def cache(c):
    """The first use reads the file and stores what the user made of it;
    later uses get exactly that."""
    F, D = c.mods('hftools.file_formats', 'hftools.dataset')
    fakeh5.STORE.clear()
    c.text_values()
    named = c.choice('named', [False, True])
    change = c.choice('change', [False, True])
    reread = c.choice('reread', [False, True])
    n = 2
    f = increasing(c, n)
    s = [c.cplx('s%d' % i) for i in range(n)]
    t = [c.cplx('t%d' % i) for i in range(n)]
    g = c.real('g')
    folder = tempfile.mkdtemp(prefix='vf_')
    try:
        name, lines = _spdata(f, s)
        fn = os.path.join(folder, name)
        with open(fn, 'w') as fil:
            fil.write('\n'.join(lines) + '\n')
        kw = dict(cachedir=os.path.join(folder, 'cc'), verbose=False)
        if named:
            kw['cachename'] = 'other'

        def use(expect_read, v, gg, **kw2):
            with F.read_to_cache(fn, **dict(kw, **kw2)) as (db, new):
                c.same('read', new, expect_read)
                for i in range(n):
                    c.eq('sweep', el(D.hfarray(db.ivardata["freq"]), (i,)), f[i])
                    c.eq('value', el(db.S, (i,)), v[i])
                c.same('stored change', 'gain' in db, gg is not None)
                if gg is not None:
                    c.eq('stored change', el(db.gain, ()), gg)
                if new and change:
                    db.gain = D.hfarray(g)
        use(True, s, None)
        # the file changes afterwards
        _, lines = _spdata(f, t)
        with open(fn, 'w') as fil:
            fil.write('\n'.join(lines) + '\n')
        use(False, s, g if change else None)
        if reread:
            use(True, t, None, reread=True)
            s = t
        use(False, s, g if change else None)
        db = F.read_from_cache('other' if named else 'x',
                               cachedir=kw['cachedir'])
        for i in range(n):
            c.eq('read_from_cache', el(db.S, (i,)), s[i])
    finally:
        shutil.rmtree(folder)


# ----------------------------------------------------- small helpers
def unique(c):
    """Unique elements: in order of appearance, or sorted."""
    U = c.mod('hftools.utils')
    n = c.choice('n', [0, 1, 2, 3, 4])
    v = [c.int('v%d' % k, 0, 50) for k in range(n)]
    long = n == 2 and c.choice('long', [False, True])
    if long:
        v = v[:1] + [51, 49, 52, 48, 55, 54] + v[1:] + [51]
    out = U.stable_uniq(v)
    want = []
    for x in v:
        if not any(bool(x == y) for y in want):
            want.append(x)
    c.same('number', len(out), len(want))
    for a, b in zip(out, want):
        c.eq('order of appearance', a, b)
    if long:
        return
    out = U.uniq(v)
    c.same('number', len(out), len(want))
    for a, b in zip(out, out[1:]):
        c.check('sorted', a < b)
    for x in v:
        c.check('present', any(bool(x == y) for y in out))


def nested(c):
    U = c.mod('hftools.utils')
    x = [c.real('x%d' % k) for k in range(4)]
    shape = c.choice('shape', [
        lambda: x, lambda: [x], lambda: [x[0], x[1:]],
        lambda: [x[:1], (x[1], [x[2:], ()])], lambda: (tuple(x),),
        lambda: [[[x[0]], []], x[1], [x[2]], x[3]], lambda: []])
    lst = shape()
    out = U.flatten(lst)
    want = x if lst else []
    c.same('length', len(out), len(want))
    for a, b in zip(out, want):
        c.eq('order', a, b)


def small(c):
    """chop sets exactly the small numbers to zero."""
    U, D = c.mods('hftools.utils', 'hftools.dataset')
    n = c.choice('n', [1, 2, 3])
    kind = c.choice('kind', ['f', 'c'])
    tol = c.choice('tol', [{}, dict(rtol=.25), dict(atol=.5, rtol=0),
                           dict(atol=.5, rtol=.5)])
    if kind == 'c' and n > 2:
        return
    a = c.kinds('a', (n,), kind)
    x = [el(a, (i,)) for i in range(n)]
    out = U.chop(a, **tol)
    r = tol.get('rtol', 1e-9)
    t = tol.get('atol', 1e-15)

    def sq(v):
        return v * v if kind == 'f' else v.real ** 2 + v.imag ** 2
    big = sq(x[0])
    for v in x[1:]:
        if c.truth(sq(v) > big):
            big = sq(v)
    for i in range(n):
        v = sq(x[i])
        lo = c.truth((v < t * t) | (v < r * r * big))
        c.eq('chopped' if lo else 'kept', el(out, (i,)),
             0 if lo else x[i])
        c.eq('original', el(a, (i,)), x[i])


def numbers(c):
    """Text becomes a number if it is one."""
    U = c.mod('hftools.utils')
    c.text_values()
    from .files import I
    what = c.choice('what', ['int', 'float', 'number', 'text', 'date'])
    if what == 'int':
        v = c.int('v', -9999, 9999)
        r = U.to_numeric(I(v))
        c.eq('value', r, v)
    elif what == 'float':
        v = c.real('v')
        r = U.to_numeric(c.choice('pad', ['', ' ']) + T(v))
        c.eq('value', r, v)
    elif what == 'number':
        v = c.real('v')
        c.eq('value', U.to_numeric(v), v)
    elif what == 'text':
        t = c.choice('t', ['abc', '', '1.2.3', 'e5'])
        c.raises('refused', ValueError, U.to_numeric, t)
        c.same('kept', U.to_numeric(t, False), t)
    else:
        import numpy
        t = c.choice('d', ['2012-08-13 08:03', '2012-08-13 08:03:01'])
        c.check('date', U.to_numeric(t) == numpy.datetime64(t))


HARNESSES = [
    H('pairs', pairs, 'up to 3 columns of 1-2 points'),
    H('names', names, 'up to 8 columns of 2 points'),
    H('units', units, '3 columns of 2 points'),
    H('matrices', matrices, 'up to 8 elements, 0-2 dims of 2 points'),
    H('combine', combine, 'up to 8 elements, 0-1 dims of 2 points'),
    H('order', order, '1-3 numbers below 1000000 and one other name',
      exact=True),
    H('which', which, '1-2 files of 2 points'),
    H('missing', missing, '-'),
    H('cache', cache, '2 points'),
    H('unique', unique, 'up to 4 integers'),
    H('nested', nested, '4 numbers'),
    H('small', small, 'up to 3 numbers'),
    H('numbers', numbers, 'one number'),
]
ASSUMPTIONS = ['a number written with %.16e is read back unchanged',
               'hdf5 files keep what is stored (P22)']
