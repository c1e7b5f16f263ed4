"""MDIF files."""
from .common import H, el, ndindex
from .files import T, I, roundtrip, in_files, increasing

S22 = [(1, 1), (1, 2), (2, 1), (2, 2)]
ORDERS = {'rows': S22, 'columns': [(1, 1), (2, 1), (1, 2), (2, 2)],
          'reversed': S22[::-1]}


TEXTS = ['run10', '"quoted"', 'a=b', '"-1.50"', 'M1.s2p', '2:00']


def _value(c, kind, name):
    """a value of a kind and the texts of its columns"""
    if kind == 'complex':
        a, b = c.real(name + 'r'), c.real(name + 'i')
        return (a, b), [T(a), T(b)]
    if kind == 'integer':
        a = c.int(name, -1000, 1000)
        return (a, 0), [I(a)]
    if kind == 'string':
        a = TEXTS[sum(map(ord, name)) % len(TEXTS)]
        return a.strip('"'), [a]
    a = c.real(name)
    return (a, 0), [T(a)]


def _is(c, label, x, v):
    if isinstance(v, str):
        c.same('text', str(x), v)
        return
    c.eq(label, x.real, v[0])
    c.eq(label, x.imag, v[1])


COLS = {'plain': [('a', 'real'), ('b', 'complex'), ('k', 'integer')],
        'rows': [('S[%d,%d]' % x, 'complex') for x in ORDERS['rows']],
        'columns': [('S[%d,%d]' % x, 'complex') for x in ORDERS['columns']],
        'reversed': [('S[%d,%d]' % x, 'real') for x in ORDERS['reversed']]
        + [('q', 'real')],
        'oblong': [('S[1,2]', 'real'), ('S[1,1]', 'complex')],
        'vector': [('v[2]', 'complex'), ('v[1]', 'complex'), ('b', 'real')],
        'large': [('S[%d,%d]' % x, 'real') for x in
                  [(3, 1), (1, 3), (2, 2), (1, 1), (3, 3), (2, 1), (1, 2),
                   (3, 2), (2, 3)]],
        'row': [('S[1,%d]' % k, 'real') for k in range(11, 0, -1)],
        'column': [('S[%d,1]' % k, 'real') for k in range(11, 0, -1)],
        'long vector': [('v[%d]' % k, 'real') for k in range(12, 0, -1)],
        'texts': [('a', 'real'), ('id', 'string'), ('run', 'string'),
                  ('b', 'complex')],
        'incomplete': [('S[1,1]', 'real'), ('S[2,2]', 'real'),
                       ('w[2]', 'real'), ('w[3]', 'real')],
        'dotted': [('OUT.S.m[1,2]', 'real'), ('OUT.S.m[2,1]', 'real'),
                   ('OUT.S.m[1,1]', 'real'), ('OUT.S.m[2,2]', 'real'),
                   ('OUT.Id', 'real')]}


def _block(c, cols, f, tag, style, split, sweep='freq', name='Spar',
           var=(), attrib=(), comments=()):
    """values {(column, row)} and the lines of a block"""
    head = [sweep + "(real)"] + ["%s(%s)" % x for x in cols]
    values, rows = {}, []
    for k, x in enumerate(f):
        row = [[T(x)]]
        for q, (n, kind) in enumerate(cols):
            values[q, k], texts = _value(c, kind, '%sv%d_%d' % (tag, q, k))
            row.append(texts)
        rows.append(row)
    cut = (len(head) + 1) // 2 if split else len(head)
    sep = " " if style == 'plain' else "\t  "
    lines = ["!" + x for x in comments]
    lines += ["VAR %s(real) = %s" % x for x in var]
    lines.append("BEGIN " + name)
    lines += ["# %s(real) = %s" % x for x in attrib]
    for part in (slice(0, cut), slice(cut, None)):
        if head[part]:
            lines.append("% " + sep.join(head[part]))
    for row in rows:
        for part in (slice(0, cut), slice(cut, None)):
            if row[part]:
                lines.append(sep.join(t for x in row[part] for t in x))
    lines.append("END")
    if style != 'plain':
        lines = [y for x in lines for y in ("  " + x, "")]
    return values, [x + "\n" for x in lines]


def _compare(c, db, cols, values, f, at=()):
    """the columns are in db; at = index after the sweep"""
    names = {}
    for q, (n, kind) in enumerate(cols):
        names[n] = q
    for n, q in names.items():
        base, _, ix = n.partition('[')
        ix = [int(x) - 1 for x in ix.rstrip(']').split(',')] if ix else []
        if ix and n not in db:
            X = db[base]
            c.same('index dimensions', [type(d).__name__
                                        for d in X.dims[-len(ix):]],
                   ['DimMatrix_i', 'DimMatrix_j'] if len(ix) == 2
                   else [type(X.dims[-1]).__name__])
        else:
            X, ix = db[n], []
        c.same('shape', len(X.dims), 1 + len(at) + len(ix))
        c.same('sweep', X.dims[0].name, 'freq')
        for k in range(len(f)):
            _is(c, 'value', el(X, (k,) + tuple(at) + tuple(ix)),
                values[q, k])
    X = db.ivardata['freq']
    c.same('points', len(X.data), len(f))
    for k in range(len(f)):
        c.eq('sweep', el(X.data, (k,)), f[k])


def one(c):
    """One block."""
    M, D = c.mods('hftools.file_formats.mdif', 'hftools.dataset')
    c.text_values()
    n = c.choice('n', [1, 2, 9])
    cols = COLS[c.choice('columns', sorted(COLS) if n < 9 else
                         ['plain', 'rows'])]
    style = c.choice('style', ['plain', 'messy'])
    split = c.choice('split', [False, True])
    sweep = c.choice('sweep', ['freq', 'SWEEP.freq', 'sweep.freq'])
    var = c.choice('var', [0, 2])
    attrib = c.choice('attrib', [0, 1])
    f = [c.real('f%d' % k) for k in range(n)]
    V = [('Vg', c.real('Vg')), ('SWEEP.Vd', c.real('Vd'))][:var]
    A = [('Power', c.real('P'))][:attrib]
    values, lines = _block(c, cols, f, '', style, split, sweep,
                           var=[(k, T(x)) for k, x in V],
                           attrib=[(k, T(x)) for k, x in A],
                           comments=["note one", "two"][:var])
    if style == 'messy':
        lines += ["! the end\n", "\n"]
    r = M.ReadMDIFFileFormat(make_matrix=True).do_file(lines)
    c.same('blocks', list(r), ['Spar'])
    db = r['Spar']
    c.same('name', db.blockname, 'Spar')
    _compare(c, db, cols, values, f)
    full = set(n.partition('[')[0] for n, _ in cols)
    if cols is COLS['incomplete']:
        c.check('incomplete matrices stay elements',
                'S' not in db and 'w' not in db)
    else:
        c.same('variables', set(db.vardata), full | set(k for k, _ in A))
    for k, x in V:
        c.eq('VAR', el(D.hfarray(db[k.split('.')[-1]]), (0,)), x)
    for k, x in A:
        c.eq('attribute', el(db[k], ()), x)
    if var:
        c.same('comments', db.comments.fullcomments, ["note one", "two"])


def several(c):
    """Blocks of the same name become one dataset, indexed in the order of
    the file, with the variables that differ between them."""
    M, D = c.mods('hftools.file_formats.mdif', 'hftools.dataset')
    c.text_values()
    m = c.choice('m', [2, 3, 7])
    n = c.choice('n', [1, 2] if m < 7 else [2])
    cols = COLS[c.choice('columns', ['plain', 'rows', 'vector', 'texts'])]
    other = c.choice('other', ['no', 'first', 'between'])
    how = c.choice('how', ['blocks', 'files', 'object'])
    f = increasing(c, n)
    V = [[c.real('Vg%d' % q), c.real('Vd%d' % q)] for q in range(m)]
    P = [c.real('P%d' % q) for q in range(m)]
    texts, vals = [], []
    for q in range(m):
        values, lines = _block(c, cols, f, 'b%d' % q, 'plain', False,
                               var=[('Vg', T(V[q][0])), ('Vd', T(V[q][1]))],
                               attrib=[('Power', T(P[q]))])
        texts.append(lines)
        vals.append(values)
    ocols = [('z', 'real')]
    ovalues, olines = _block(c, ocols, f, 'o', 'plain', False, name='Other')
    if other == 'first':
        texts[0] = olines + texts[0]
    elif other == 'between':
        texts[1] = olines + texts[1]
    if how == 'object':
        r = M.ReadMDIFFileFormat(make_matrix=True).do_file(sum(texts, []))
    else:
        if how == 'blocks':
            texts = [sum(texts, [])]
        texts = [[y.rstrip("\n") for y in x] for x in texts]
        r = in_files(texts, lambda names: M.read_mdif(
            names[0][:-5] + "*.txt", verbose=False))
    c.same('blocks', set(r), set(['Spar'] + ['Other'] * (other != 'no')))
    db = r['Spar']
    for q in range(m):
        _compare(c, db, cols, vals[q], f, at=(q,))
        c.eq('VAR', el(db['Vg'], (q,)), V[q][0])
        c.eq('VAR', el(db['Vd'], (q,)), V[q][1])
        c.eq('attribute', el(db['Power'], (q,)), P[q])
    if other != 'no':
        _compare(c, r['Other'], ocols, ovalues, f)


def save(c):
    """What is saved is read back."""
    M, D = c.mods('hftools.file_formats.mdif', 'hftools.dataset')
    c.text_values()
    what = c.choice('what', ['scalar', 'matrix', 'swept', 'swept matrix',
                             'two', 'three', 'four'])
    att = c.choice('attribute', [False, True])
    n = c.choice('n', [1, 2, 9] if what not in ('three', 'four') else [2])
    name = c.choice('name', [None, 'Spar'])
    f = increasing(c, n)
    freq = D.DimSweep("freq", c.np.array(f), unit="Hz")
    db = D.DataBlock()
    db.blockname = name
    dims = (freq,)
    if what != 'scalar' and what != 'matrix':
        vg = [c.real('vg0'), c.real('vg1')]
        c.assume(vg[0] < vg[1])
        dims += (D.DimSweep("Vg", c.np.array(vg)),)
    if what in ('two', 'three', 'four'):
        dims += (D.DimSweep("Vd", c.np.array([c.real('vd0')])),)
    if what in ('three', 'four'):
        dims += (D.DimSweep("Vb", c.np.array([c.real('vb0'), c.real('vb1')])),)
    if what == 'four':
        dims += (D.DimSweep("P", c.np.array([c.real('pp%d' % k)
                                             for k in range(3)])),)
    shape = tuple(len(d.data) for d in dims)
    if 'matrix' in what:
        x = c.carray('S', shape + (2, 2))
        db.S = D.hfarray(x, dims=dims + (D.DimMatrix_i("i", 2),
                                         D.DimMatrix_j("j", 2)))
    else:
        x = c.rarray('a', shape)
        y = c.carray('b', shape)
        db.a = D.hfarray(x, dims=dims)
        db.b = D.hfarray(y, dims=dims)
    if att:
        p = c.rarray('p', shape[1:])
        db.Power = D.hfarray(p, dims=dims[1:])
    r = roundtrip(lambda fn: M.save_mdif(db, fn),
                  lambda fn: M.read_mdif(fn, verbose=False), "x.mdif")
    c.same('block', list(r), [name or "DATABLOCK"])
    r = r[name or "DATABLOCK"]
    blocks = list(ndindex(shape[1:]))
    many = len(blocks) > 1
    c.same('points', r.ivardata['freq'].data.shape, (n,))
    for k in range(n):
        c.eq('sweep', el(r.ivardata['freq'].data, (k,)), f[k])
    for q, ix in enumerate(blocks):
        at = (q,) if many else ()
        for d, i in zip(dims[1:], ix):
            c.eq('coordinate', el(D.hfarray(r[d.name]), (q,)),
                 el(d.data, (i,)))
        for k in range(n):
            if 'matrix' in what:
                for ij in ndindex((2, 2)):
                    c.eq('element', el(r.S, (k,) + at + ij),
                         el(x, (k,) + ix + ij))
            else:
                c.eq('value', el(r.a, (k,) + at), el(x, (k,) + ix))
                c.eq('value', el(r.b, (k,) + at), el(y, (k,) + ix))
        if att:
            c.eq('attribute', el(r.Power, at), el(p, ix))


def reject(c):
    """Broken files and missing blocks are refused."""
    M = c.mod('hftools.file_formats.mdif')
    c.text_values()
    what = c.choice('what', ['no END', 'no BEGIN', 'missing block', 'type',
                             'short', 'empty', 'variable type', 'no error',
                             'other sweep', 'missing variable'])
    f = increasing(c, 2)
    values, lines = _block(c, COLS['plain'], f, '', 'plain', False,
                           var=[('Vg', T(c.real('Vg')))])
    def read(**kw):
        return in_files([[x.rstrip("\n") for x in lines]],
                        lambda n: M.read_mdif(n[0], verbose=False, **kw))
    kw = {}
    if what in ('other sweep', 'missing variable'):
        d = c.real('shift')
        c.assume(d > 1)
        c.assume(f[-1] < 10)
        c.assume(f[0] > -10)
        n = 2 if what == 'missing variable' else 3
        for q in range(2 if n == 2 else 1):
            lines = lines + _block(
                c, COLS['plain'][:n + q], f if n == 2 else [f[0], f[1] + d],
                'o%d' % q, 'plain', False,
                var=[('Vg', T(c.real('Vg%d' % q)))])[1]
    if what in ('other sweep', 'missing variable'):
        pass
    elif what == 'no END':
        lines = [x for x in lines if not x.startswith("END")]
    elif what == 'no BEGIN':
        lines = [x for x in lines if not x.startswith("BEGIN")]
    elif what == 'missing block':
        kw['blockname'] = 'Nope'
    elif what == 'type':
        lines = [x.replace("(integer)", "(quaternion)") for x in lines]
    elif what == 'short':
        lines = [x.rsplit(None, 1)[0] if k == len(lines) - 2 else x
                 for k, x in enumerate(lines)]
    elif what == 'empty':
        lines = ["! nothing here\n"]
    elif what == 'variable type':
        lines = [x.replace("Vg(real)", "Vg(quaternion)") for x in lines]
    else:
        c.same('selected block', read(blockname='Spar').vardata.keys()[:3],
               ['a', 'b', 'k'])
        return
    c.raises('refused', Exception, read, **kw)


HARNESSES = [H('one', one, '1 block, up to 9 rows, up to 12 columns'),
             H('several', several, '2-7 blocks'),
             H('save', save, 'up to 5 sweeps'),
             H('reject', reject, '1 block')]
ASSUMPTIONS = ['sweeps strictly increasing',
               'a number written with %.16e is read back unchanged']
