"""A dataset stores variables under their names, in order, with one shared
set of dimensions, through any history of changes."""
from .common import H, dimkey, el, ndindex


def _mkdims(c, D):
    return dict(
        freq=D.DimSweep("freq", c.np.array([c.real('f0'), c.real('f1')]),
                        unit="Hz"),
        rep=D.DimRep("rep", 2), pow=D.DimSweep("pow", [-3, 0]),
        i=D.DimMatrix_i("i", 2), j=D.DimMatrix_j("j", 2))


def _var(c, D, dims, name, names, kind='f'):
    return D.hfarray(c.kinds(name, (2,) * len(names), kind),
                     dims=tuple(dims[n] for n in names))


def ordered(c, steps):
    """The ordered dictionary behind a dataset."""
    M = c.mod('hftools.dataset.dataset')
    D = c.mod('hftools.dataset')
    dd = M.DataDict()
    model = []
    keys = ['a', 'b', 'c']

    def get(k):
        for q, (n, v) in enumerate(model):
            if n == k:
                return q
        return None
    vals = [D.hfarray(c.rarray('v%d' % s, (2,)),
                      dims=(D.DimSweep("f", 2),)) for s in range(steps + 2)]
    for s in range(2):
        dd[keys[s]] = vals[s]
        model.append((keys[s], vals[s]))
    for s in range(steps):
        op = c.choice('op%d' % s, ['set', 'attr', 'del', 'default', 'rename'])
        k = c.choice('k%d' % s, keys)
        v = vals[s + 2]
        q = get(k)
        if op in ('set', 'attr', 'default'):
            if op == 'set':
                dd[k] = v
            elif op == 'attr':
                setattr(dd, k, v)
            else:
                r = dd.setdefault(k, v)
                c.check('setdefault returns the stored value',
                        r is (v if q is None else model[q][1]))
            if q is None:
                model.append((k, v))
            elif op != 'default':
                model[q] = (k, v)
        elif op == 'del':
            if q is None:
                continue
            if c.choice('form%d' % s, ['item', 'attr']) == 'item':
                del dd[k]
            else:
                delattr(dd, k)
            del model[q]
        else:
            k2 = c.choice('to%d' % s, keys)
            if q is None:
                c.raises('renaming nothing', KeyError, dd.rename, k, k2)
                continue
            dd.rename(k, k2)
            q2 = get(k2)
            if q2 is None or q2 == q:
                model[q] = (k2, model[q][1])
            else:
                model[q2] = (k2, model[q][1])
                del model[q]
        names = [n for n, _ in model]
        c.same('names in order', list(dd.keys()), names)
        c.same('size', len(dd), len(model))
        c.check('values in order', all(x is y for x, (_, y) in
                                       zip(dd.values(), model)))
        c.same('items', [n for n, _ in dd.items()], names)
        for n in keys:
            c.same('membership', n in dd, n in names)
            if n in names:
                c.check('lookup', dd[n] is model[get(n)][1])
                c.check('attribute', getattr(dd, n) is model[get(n)][1])
            else:
                c.raises('no such key', KeyError, dd.__getitem__, n)
                c.raises('no such attribute', AttributeError, getattr, dd, n)


def _snap(a):
    return [el(a, i) for i in ndindex(a.shape)]


def _invariant(c, db, model, dimnames):
    """model: list of (name, values, dim names)"""
    c.same('variables in order', list(db.vardata.keys()),
           [m[0] for m in model])
    c.same('dimensions in order', list(db.ivardata.keys()), dimnames)
    for name, vals, dn in model:
        v = db[name]
        c.same('dims of %s' % name, [d.name for d in v.dims], dn)
        c.eq('data of %s' % name, _snap(v), vals)
        for d in v.dims:
            s = db.ivardata[d.name]
            c.check('one shared dimension object',
                    type(s) is type(d) and s.unit == d.unit and
                    s.name == d.name and s.outputformat == d.outputformat)
            c.eq('coordinates', list(s.data), list(d.data))
        c.check('contains', name in db)
    for n in dimnames:
        c.check('contains', n in db)
        a = db[n]
        c.same('a dimension reads as an array over itself',
               [d.name for d in a.dims], [n])
        c.eq('coordinates', _snap(a), list(db.ivardata[n].data))


def history(c, steps, ops):
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    db = D.DataBlock()
    model, dimnames = [], []

    def put(name, a, dn):
        for n in dn:
            if n not in dimnames:
                dimnames.append(n)
        for q, m in enumerate(model):
            if m[0] == name:
                model[q] = (name, _snap(a), list(dn))
                return
        model.append((name, _snap(a), list(dn)))
    for name, dn, k in (('A', ('freq',), 'f'), ('B', ('freq', 'rep'), 'f'),
                        ('S', ('freq', 'i', 'j'), 'c')):
        a = _var(c, D, dims, name, dn, k)
        db[name] = a
        put(name, a, dn)
    for s in range(steps):
        op = c.choice('op%d' % s, ops)
        names = [m[0] for m in model]
        if op == 'set':
            name = c.choice('name%d' % s, ['A', 'C'])
            dn = c.choice('dims%d' % s, [('freq',), ('pow', 'rep'), ()])
            real = tuple({'freq': 'frequency'}.get(n, n)
                         if n not in dimnames and 'frequency' in dimnames
                         else n for n in dn)
            cur = {n: db.ivardata[n] if n in dimnames else dims[n]
                   for n in real}
            a = _var(c, D, cur, 'new%d' % s, real)
            if c.choice('form%d' % s, ['item', 'attr']) == 'item':
                db[name] = a
            else:
                setattr(db, name, a)
            put(name, a, real)
        elif op == 'del':
            name = c.choice('name%d' % s, names)
            if len(names) > 2:
                del db[name]
            else:
                delattr(db, name)
            model[:] = [m for m in model if m[0] != name]
        elif op == 'rename':
            name = c.choice('name%d' % s, names)
            new = c.choice('new%d' % s, ['D', name])
            db.rename(name, new)
            moved = [m for m in model if m[0] == name][0][1:]
            if new != name and new in names:
                model[:] = [(new,) + moved if m[0] == new else m
                            for m in model if m[0] != name]
            else:
                model[:] = [(new,) + m[1:] if m[0] == name else m
                            for m in model]
        elif op == 'rename dim':
            old = c.choice('name%d' % s, ['freq', 'rep'])
            if old not in dimnames:
                continue
            new = c.choice('new%d' % s, ['frequency', old])
            if old == 'rep' and new != old:
                new = 'repetition'
            if new != old and new in dimnames:
                continue            # onto another dimension: not claimed
            keep = (type(db.ivardata[old]), list(db.ivardata[old].data),
                    db.ivardata[old].unit)
            db.rename(old, new)
            nd = db.ivardata[new]
            c.check('renaming keeps kind and unit',
                    (type(nd), nd.unit) == (keep[0], keep[2]))
            c.eq('renaming keeps coordinates', list(nd.data), keep[1])
            dimnames[dimnames.index(old)] = new
            model[:] = [(n, v, [new if d == old else d for d in dn])
                        for n, v, dn in model]
        elif op == 'kind':
            old = c.choice('name%d' % s, dimnames[:2])
            keep = list(db.ivardata[old].data)
            db.replace_dim(old, D.DimRep)
            c.check('new kind', type(db.ivardata[old]) is D.DimRep)
            c.eq('same coordinates', list(db.ivardata[old].data), keep)
        elif op == 'coordinates':
            old = dimnames[0]
            new = D.hfarray(c.rarray('x%d' % s, (2,)),
                            dims=(db.ivardata[old],))
            k = type(db.ivardata[old])
            db[old] = new
            c.check('kind kept', type(db.ivardata[old]) is k)
            c.eq('new coordinates', list(db.ivardata[old].data),
                 _snap(new))
        elif op == 'element':
            if 'S' not in names:
                continue
            p, q = c.choice('p%d' % s, [0, 1]), c.choice('q%d' % s, [0, 1])
            nm = 'S%d%d' % (p + 1, q + 1)
            dn = model[names.index('S')][2]
            x = D.hfarray(c.carray('e%d' % s, (2,)),
                          dims=db['S'].dims[:1])
            db[nm] = x
            r = db[nm]
            c.eq('element read back', _snap(r), _snap(x))
            vals = list(model[names.index('S')][1])
            for f in range(2):
                vals[f * 4 + p * 2 + q] = el(x, (f,))
            model[names.index('S')] = ('S', vals, dn)
        elif op == 'format':
            n = c.choice('name%d' % s, names[:2] + dimnames[:2])
            db.set_outputformat(n, "%.3e")
            c.same('format', (db[n] if n in names else
                              db.ivardata[n]).outputformat, "%.3e")
        elif op == 'guess':
            db.guess_units()
        _invariant(c, db, model, dimnames)


def wide(c):
    """Renaming or replacing a dimension, wherever it is in a variable."""
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    n = c.choice('n', [1, 2, 3, 4])
    left, dn = ['freq', 'rep', 'pow'] + (['i', 'j'] if n == 4 else []), []
    for k in range(n):
        dn.append(c.choice('dim%d' % k, left))
        left = [x for x in left if x != dn[-1]]
    other = c.choice('other', dn)
    old = c.choice('old', dn)
    how = c.choice('how', ['rename', 'kind', 'object'])
    db = D.DataBlock()
    model = []
    for name, dd in (('A', dn), ('B', [other]), ('C', [])):
        a = _var(c, D, dims, name, dd)
        db[name] = a
        model.append((name, _snap(a), list(dd)))
    dimnames = list(dn)
    new = old
    keep = db.ivardata[old]
    if how == 'rename':
        new = 'new'
        db.rename(old, new)
        cls = type(keep)
    elif how == 'kind':
        cls = D.DimRep if old != 'rep' else D.DimSweep
        db.replace_dim(old, cls)
    else:
        new, cls = 'new', D.DimSweep
        db.replace_dim(keep, cls(keep, name=new))
    dimnames[dimnames.index(old)] = new
    model = [(nm, v, [new if d == old else d for d in dd])
             for nm, v, dd in model]
    c.check('kind', type(db.ivardata[new]) is cls)
    c.same('unit', db.ivardata[new].unit, keep.unit)
    c.eq('coordinates', list(db.ivardata[new].data), list(keep.data))
    _invariant(c, db, model, dimnames)


def names(c):
    """A name addresses a stored variable first, an element of a matrix
    second, and nothing else."""
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    db = D.DataBlock()
    S = _var(c, D, dims, 'S', ('freq', 'i', 'j'), 'c')
    db.S = S
    v = _var(c, D, dims, 'v', ('freq',))
    db.V = v
    base = _snap(S)
    nm = c.choice('name', ['S21', 'S12x', 'S21_raw', 'S112', 'S1', 'S_21',
                           'Sm21', 'S2', 'xS21', 'V11', 'S00', 'S10', 'S01'])
    other = _var(c, D, dims, 'o', ('freq',))
    if nm == 'S21':
        c.eq('read', _snap(db[nm]), [base[2], base[6]])
        c.eq('read', _snap(getattr(db, nm)), [base[2], base[6]])
        return
    c.raises('not a stored name', KeyError, db.__getitem__, nm)
    c.raises('not a stored name', AttributeError, getattr, db, nm)
    c.same('not contained', nm in db, False)
    if nm == 'V11':
        return
    db[nm] = other
    c.same('stored as a variable', list(db.vardata.keys()), ['S', 'V', nm])
    c.eq('stored value', _snap(db[nm]), _snap(other))
    c.eq('matrix untouched', _snap(db.S), base)


def shadow(c):
    """What was stored last under a name is what it reads, also where the
    name is that of an element, a dimension and a variable at once."""
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    db = D.DataBlock()
    what = c.choice('what', ['element', 'dimension', 'element dimension'])
    S = _var(c, D, dims, 'S', ('freq', 'i', 'j'), 'c')
    v = _var(c, D, dims, 'v', ('freq',))
    n = 'pow' if what == 'dimension' else 'S21'
    over = D.DimSweep(n, c.rarray('over', (2,)))
    if what != 'element dimension':
        db[n] = v
    if what != 'element':
        db.P = D.hfarray(c.rarray('P', (2,)), dims=(over,))
    db.S = S
    base = _snap(S)
    x = _var(c, D, dims, 'x', ('freq',)) if what == 'element' else \
        D.hfarray(c.rarray('x', (2,)), dims=(over,))
    form = c.choice('form', ['item', 'attr'])
    if form == 'item':
        db[n] = x
    else:
        setattr(db, n, x)
    c.eq('stored value', _snap(db[n] if form == 'item' else
                               getattr(db, n)), _snap(x))
    c.eq('matrix untouched', _snap(db.S), base)
    if what == 'element':
        del db[n]
        c.eq('the element of the matrix', _snap(db[n]), [base[2], base[6]])
        db[n] = y = _var(c, D, dims, 'y', ('freq',), 'c')
        c.eq('element', _snap(db.S)[2::4], _snap(y))
        c.same('variables', list(db.vardata.keys()), ['S'])


def copies(c):
    """A copy shares nothing that matters, a view shares the data; neither
    lets a structural change through."""
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    db = D.DataBlock()
    db.A = _var(c, D, dims, 'A', ('freq',))
    db.B = _var(c, D, dims, 'B', ('freq', 'rep'))
    db.blockname = "blk"
    db.comments = c.mod('hftools.dataset.comments').Comments(['Id: 3'])
    db.xname = c.choice('xname', ['freq', 'A'])
    form = c.choice('form', ['copy', 'view'])
    d2 = getattr(db, form)()
    c.same('name', d2.blockname, "blk")
    c.same('abscissa', d2.xname, db.xname)
    c.eq('abscissa', _snap(d2.xvalue), _snap(db[db.xname]))
    c.same('comments', list(d2.comments.fullcomments), ['Id: 3'])
    c.same('variables', list(d2.vardata.keys()), ['A', 'B'])
    c.same('dimensions', list(d2.ivardata.keys()), ['freq', 'rep'])
    a0, b0 = _snap(db.A), _snap(db.B)
    act = c.choice('act', ['write', 'del', 'rename', 'add', 'kind',
                           'unit', 'comment'])
    x = c.real('x')
    if act == 'write':
        d2.A[1] = x
        c.eq('copy isolates, view shares', el(db.A, (1,)),
             x if form == 'view' else a0[1])
        return
    if act == 'comment':
        if form == 'copy':
            d2.comments.extend(type(d2.comments)(['Vd: 1']))
            d2.comments.property['Id'] = x
            c.same('comments of the original', list(db.comments.fullcomments),
                   ['Id: 3'])
            c.same('properties of the original',
                   list(db.comments.property.keys()), ['Id'])
            c.eq('property', db.comments.property['Id'], 3)
        return
    if act == 'del':
        del d2['A']
    elif act == 'rename':
        d2.rename('A', 'Q')
        d2.rename('freq', 'f')
    elif act == 'add':
        d2.C = _var(c, D, dims, 'C', ('pow',))
    elif act == 'kind':
        d2.replace_dim('freq', D.DimRep)
    else:
        d2.A.unit = "V"
        c.same('unit of the original', db.A.unit, None)
    c.same('variables of the original', list(db.vardata.keys()), ['A', 'B'])
    c.same('dimensions of the original',
           [dimkey(d) for d in db.ivardata.values()],
           [('freq', 'DimSweep'), ('rep', 'DimRep')])
    c.same('dims of its variables', [dimkey(d) for d in db.B.dims],
           [('freq', 'DimSweep'), ('rep', 'DimRep')])
    c.eq('data of the original', (_snap(db.A), _snap(db.B)), (a0, b0))


def errors(c):
    D = c.mod('hftools.dataset')
    dims = _mkdims(c, D)
    db = D.DataBlock()
    db.A = _var(c, D, dims, 'A', ('freq',))
    w = c.choice('what', ['dim', 'fmt', 'ndim'])
    if w == 'dim':
        c.raises('no such dimension', KeyError, db.replace_dim, 'nope',
                 D.DimRep)
        c.raises('no such dimension', KeyError, db.replace_dim,
                 dims['pow'], D.DimRep)
    elif w == 'fmt':
        c.raises('no such name', c.mod('hftools.dataset.dataset')
                 .DataBlockError, db.set_outputformat, 'nope', "%d")
    else:
        c.raises('coordinates are one-dimensional', AttributeError,
                 db.__setitem__, 'freq', _var(c, D, dims, 'B',
                                              ('freq', 'rep')))
    db.rename('nope', 'other')
    c.same('unchanged', (list(db.vardata.keys()), list(db.ivardata.keys())),
           (['A'], ['freq']))


OPS = ['set', 'del', 'rename', 'rename dim', 'kind', 'coordinates',
       'element', 'format', 'guess']
HARNESSES = [
    H('ordered', lambda c: ordered(c, 2), '2 steps on 3 keys'),
    H('ordered+', lambda c: ordered(c, 3), '3 steps on 3 keys',
      max_paths=60000),
    H('history', lambda c: history(c, 2, OPS), '2 steps'),
    H('history+', lambda c: history(c, 3, OPS), '3 steps', tier='thorough',
      max_paths=60000),
    H('wide', wide, '1-4 dimensions in any order, 2 coordinates each'),
    H('names', names, '13 names'),
    H('shadow', shadow, 'a variable, a dimension, an element of one name'),
    H('copies', copies, '7 changes'),
    H('errors', errors, ''),
]
ASSUMPTIONS = []
