"""Operations leave their arguments as they were; copies are complete and
share nothing with the original."""
import copy
from .common import H, el, ndindex
from .files import roundtrip


# ---------------------------------------------------------------- snapshots

def snap(c, x):
    """(discrete structure, list of numbers)"""
    vals = []

    def rec(x):
        D = c.mod('hftools.dataset')
        if isinstance(x, D.DataBlock):
            return ('dataset', x.blockname, rec(x.comments),
                    [(k, rec(v)) for k, v in x.ivardata.items()],
                    [(k, rec(v)) for k, v in x.vardata.items()])
        if isinstance(x, c.mod('hftools.dataset.dim').DimBase):
            return (type(x).__name__, x.name, x.unit, x.outputformat,
                    rec(c.np.asarray(x.data)))
        if hasattr(x, 'fullcomments'):
            return ('comments', list(x.fullcomments),
                    [(k, rec(v)) for k, v in sorted(x.property.items())])
        if hasattr(x, 'twoport') and hasattr(x, 'corrmatrix'):
            return ('noisy', rec(x.twoport), rec(x.corrmatrix))
        if hasattr(x, 'dims') and hasattr(x, 'outputformat'):
            return (type(x).__name__, x.unit, x.outputformat,
                    getattr(x, 'Z0', None), [rec(d) for d in x.dims],
                    arr(x))
        if hasattr(x, 'shape') and hasattr(x, 'dtype'):
            return ('array', arr(x))
        if isinstance(x, dict):
            return [(k, rec(x[k])) for k in sorted(x)]
        if isinstance(x, (list, tuple)):
            return [rec(v) for v in x]
        if isinstance(x, (str, type(None))):
            return x
        vals.append(x)
        return 'number'

    def arr(x):
        for i in ndindex(x.shape):
            v = el(x, i)
            if isinstance(v, str):
                return [str(el(x, k)) for k in ndindex(x.shape)]
            vals.append(v)
        return x.shape
    return rec(x), vals


def same(c, label, a, b):
    c.same(label, a[0], b[0])
    c.eq(label, a[1], b[1])


# ---------------------------------------------------------------- arguments

class Args(object):
    """arguments of the operations"""

    def __init__(self, c):
        D = c.mod('hftools.dataset')
        self.c, self.D = c, D
        self.f = D.DimSweep("freq", c.np.array([1., 2.]), unit="Hz")
        self.r = D.DimRep("rep", 2)
        self.i, self.j = D.DimMatrix_i("i", 2), D.DimMatrix_j("j", 2)

    def arr(self, name, dims, kind='f', unit='V', fmt='%.3f'):
        dims = tuple(getattr(self, d) for d in dims)
        return self.D.hfarray(
            self.c.kinds(name, tuple(len(d.data) for d in dims), kind),
            dims=dims, unit=unit, outputformat=fmt)

    def net(self, name, cls, dims='fij', Z0=75, kind='c'):
        MP = self.c.mod('hftools.networks.multiports')
        kw = dict(Z0=Z0) if cls == 'SArray' else {}
        return getattr(MP, cls)(self.arr(name, dims, kind), **kw)

    def db(self, comments=True):
        F = self.c.mod('hftools.file_formats')
        b = self.D.DataBlock()
        b.blockname = 'blk'
        if comments:
            b.comments = F.Comments(['Vd: 3', 'text'])
        b.a = self.arr('a', 'f')
        b.b = self.arr('b', 'fr', unit='A')
        b.S = self.arr('S', 'fij', 'c', unit=None)
        b.x = self.D.hfarray(self.c.real('x'), unit='W')
        return b


ARRAYS = {
    'add': (lambda a: (a.arr('p', 'fr'), a.arr('q', 'rf')),
            lambda a, p, q: p + q),
    'sub scalar': (lambda a: (a.arr('p', 'fr'), a.arr('q', '')),
                   lambda a, p, q: p - q),
    'mul ndarray': (lambda a: (a.arr('p', 'fr'), a.c.rarray('q', (2, 2))),
                    lambda a, p, q: p * q),
    'div': (lambda a: (a.arr('p', 'f', 'c'), a.arr('q', 'rf')),
            lambda a, p, q: p / q),
    'rsub': (lambda a: (a.arr('p', 'f'),), lambda a, p: 2 - p),
    'pow': (lambda a: (a.arr('p', 'f'),), lambda a, p: p ** 2),
    'eq': (lambda a: (a.arr('p', 'f'), a.arr('q', 'rf')),
           lambda a, p, q: p == q),
    'neg': (lambda a: (a.arr('p', 'f'),), lambda a, p: -p),
    'abs': (lambda a: (a.arr('p', 'f', 'c'),), lambda a, p: abs(p)),
    'sum': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.sum('freq')),
    'mean': (lambda a: (a.arr('p', 'fr'),),
             lambda a, p: p.mean(('freq', 'rep'))),
    'std': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.std('rep')),
    'var': (lambda a: (a.arr('p', 'fr', 'c'),), lambda a, p: p.var('rep')),
    'rss': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.rss('rep')),
    'min': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.min('rep')),
    'max': (lambda a: (a.arr('p', 'f'),), lambda a, p: p.max()),
    'cumsum': (lambda a: (a.arr('p', 'fr'),),
               lambda a, p: p.cumsum('freq')),
    'cumprod': (lambda a: (a.arr('p', 'fr'),),
                lambda a, p: p.cumprod('freq')),
    'reorder': (lambda a: (a.arr('p', 'fr'),),
                lambda a, p: p.reorder_dimensions('rep', 'freq')),
    'transpose': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.transpose()),
    't': (lambda a: (a.arr('p', 'fij'),), lambda a, p: p.t),
    'take': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.take([1], 0)),
    'squeeze': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p.squeeze()),
    'add_dim': (lambda a: (a.arr('p', 'fr'),),
                lambda a, p: p.add_dim(a.D.DimRep('z', 1))),
    'index': (lambda a: (a.arr('p', 'fr'),), lambda a, p: p[1:, 0]),
    'mask': (lambda a: (a.arr('p', 'f'),),
             lambda a, p: p[a.c.np.array([True, False])]),
    'remove_tail': (lambda a: (a.arr('p', 'fr'),),
                    lambda a, p: a.D.remove_tail(p)),
    'remove_rep': (lambda a: (a.arr('p', 'fr'),),
                   lambda a, p: a.D.remove_rep(p)),
    'same dims': (lambda a: (a.arr('p', 'fr'), a.arr('q', 'r')),
                  lambda a, p, q: a.D.make_same_dims(p, q)),
    'same dims list': (lambda a: ([a.arr('p', 'fr'), a.arr('q', 'r')],),
                       lambda a, p: a.D.make_same_dims_list(p)),
    'make fullcomplex': (lambda a: (a.arr('p', 'f', 'c'),),
                         lambda a, p: a.D.make_fullcomplex_array(p)),
    'matrix of data': (lambda a: (a.c.rarray('p', (2, 2, 2)), (a.f,)),
                    lambda a, p, d: a.D.make_matrix(p, d)),
    'plain data': (lambda a: (a.c.rarray('p', (2, 2)), [a.f, a.r]),
                   lambda a, p, d: a.D.hfarray(p, dims=tuple(d)) * 2),
    'repr': (lambda a: (a.arr('p', ''),), lambda a, p: p.help),
}


def _m(a):
    return a.c.mod('hftools.math')


def _sp(a):
    return a.c.mod('hftools.networks.spar_functions')


MATH = {
    'angle': (lambda a: (a.arr('p', 'f', 'c'),),
              lambda a, p: _m(a).angle(p)),
    'angle branch': (lambda a: (a.arr('p', 'f', 'c'),),
                     lambda a, p: _m(a).angle(p, deg=True, branch=-90)),
    'make_matrix': (lambda a: tuple(a.arr(n, d) for n, d in zip(
        'pqrs', ('f', 'rf', 'r', 'f'))),
        lambda a, *p: _m(a).make_matrix(*p)),
    'chop': (lambda a: (a.arr('p', 'f'),), lambda a, p: _m(a).chop(p, .5)),
    'dB': (lambda a: (a.arr('p', 'f', 'c'),), lambda a, p: _m(a).dB(p)),
    'dBinv': (lambda a: (a.arr('p', 'f'),), lambda a, p: _m(a).dBinv(p)),
    'dB_angle': (lambda a: (a.arr('p', 'f'), a.arr('q', 'fr')),
                 lambda a, p, q: _m(a).dB_angle_to_complex(p, q)),
    'mag_angle': (lambda a: (a.arr('p', 'f'), a.arr('q', 'fr')),
                  lambda a, p, q: _m(a).mag_angle_to_complex(p, q)),
    're_im': (lambda a: (a.arr('p', 'f'), a.arr('q', 'fr')),
              lambda a, p, q: _m(a).re_im_to_complex(p, q)),
    'delay': (lambda a: (a.arr('p', 'f'), a.arr('q', 'fr', 'c')),
              lambda a, p, q: _m(a).delay(p, q)),
    'sqrt': (lambda a: (a.arr('p', 'f', 'c'),),
             lambda a, p: _m(a).continous_phase_sqrt(p)),
    'unwrap': (lambda a: (a.arr('p', 'f', 'c'),),
               lambda a, p: _m(a).unwrap_phase(p)),
    'smooth': (lambda a: (a.arr('p', 'fr'),),
               lambda a, p: _m(a).smooth(p, 2)),
    'poly_smooth': (lambda a: (a.c.np.array([1., 2.]), a.arr('p', 'f')),
                    lambda a, x, p: _m(a).poly_smooth(x, p, 2, N=1)),
    'interpolate': (lambda a: (a.c.np.array([1., 2.]), a.arr('p', 'f'),
                               a.c.np.array([1.5])),
                    lambda a, *p: _m(a).interpolate(*p)),
    'extrapolate': (lambda a: (a.c.np.array([1., 2.]), a.arr('p', 'f'),
                               a.c.np.array([2.5])),
                    lambda a, *p: _m(a).linear_extrapolate(*p)),
    'inv': (lambda a: (a.arr('p', 'fij', 'c'),), lambda a, p: _m(a).inv(p)),
    'det': (lambda a: (a.arr('p', 'fij', 'c'),), lambda a, p: _m(a).det(p)),
    'product': (lambda a: (a.arr('p', 'fij'), a.arr('q', 'rij', 'c')),
                lambda a, p, q: _m(a).matrix_multiply(p, q)),
    'solve': (lambda a: (a.arr('p', 'fij'), a.arr('q', 'rij')),
              lambda a, p, q: _m(a).solve_Ab(p, q)),
    'lstsq': (lambda a: (a.arr('p', 'ij'), a.arr('q', 'rij')),
              lambda a, p, q: _m(a).lstsq(p, q)),
}
CLS = ['ZArray', 'YArray', 'SArray', 'HArray', 'GArray', 'ABCDArray',
       'TArray', 'TpArray']
NETS = {
    'cascade': (lambda a: (a.arr('p', 'fij', 'c'), a.arr('q', 'rij', 'c')),
                lambda a, p, q: _sp(a).cascadeS(p, q)),
    'deembedleft': (lambda a: (a.arr('p', 'fij', 'c'),
                               a.arr('q', 'rij', 'c')),
                    lambda a, p, q: _sp(a).deembedleft(p, q)),
    'deembedright': (lambda a: (a.arr('p', 'rij', 'c'),
                                a.arr('q', 'fij', 'c')),
                     lambda a, p, q: _sp(a).deembedright(p, q)),
    'deembed': (lambda a: (a.arr('p', 'ij'), a.arr('q', 'ij'),
                           a.arr('r', 'ij')),
                lambda a, *p: _sp(a).deembed(*p)),
    'switch': (lambda a: (a.arr('p', 'fij', 'c'), a.arr('q', 'fij', 'c')),
               lambda a, *p: _sp(a).switch_correct(*p)),
    'x.cascade': (lambda a: (a.net('p', 'SArray', 'ij'),
                             a.net('q', 'SArray', 'ij', 50)),
                  lambda a, p, q: p.cascade(q)),
    'x.deembed': (lambda a: (a.net('p', 'SArray', 'ij', 50),
                             a.net('q', 'SArray', 'ij', 50)),
                  lambda a, p, q: p.deembed(left=q)),
    'noise': (lambda a: (a.net('p', 'ZArray'),),
              lambda a, p: a.c.mod('hftools.networks.noise').passive_noise(
                  p)),
}
for _s in CLS:
    for _d in ('SArray', 'ZArray', 'ABCDArray'):
        NETS['%s to %s' % (_s, _d)] = (
            lambda a, s=_s: (a.net('p', s, 'ij', 50, 'f'),),
            lambda a, p, d=_d: getattr(
                a.c.mod('hftools.networks.multiports'), d)(p))


def _ff(a, m):
    return a.c.mod('hftools.file_formats.' + m)


def _db(fn):
    return (lambda a: (a.db(),), fn)


def _save(fn, name):
    def run(a, db):
        a.c.text_values()
        if a.c.sym and name.endswith('hdf5'):
            from symex import fakeh5
            fakeh5.STORE.clear()
        roundtrip(lambda p: fn(a, db, p), lambda p: None, name)
    return run


DATA = {
    'filter': (lambda a: (a.db(), a.arr('k', 'f')),
               lambda a, db, k: db.filter(db.a > 0)),
    'sort': _db(lambda a, db: db.sort(db.a)),
    'sort freq': _db(lambda a, db: db.sort(db.freq)),
    'squeeze': _db(lambda a, db: db.squeeze()),
    'remove_rep': _db(lambda a, db: db.remove_rep()),
    'keep_variables': _db(lambda a, db: db.keep_variables(['a', 'S'])),
    'interpolate': _db(lambda a, db: db.interpolate(
        a.D.DimSweep('freq', a.c.np.array([2.])))),
    'report': _db(lambda a, db: db.keep_variables(['x']).report()),
    'elements': _db(lambda a, db: a.D.dataset.convert_matrices_to_elements(
        db)),
    'subset': _db(lambda a, db: a.D.dataset.subset_datablock_by_dims(
        db, (a.f,))),
    'consistent': _db(lambda a, db: list(
        a.D.dataset.yield_dim_consistent_datablocks(db))),
    'normalize': _db(lambda a, db: _ff(a, 'common').normalize_names(db)),
    'read element': _db(lambda a, db: db.S21 * 2),
    'read': _db(lambda a, db: [db[k] for k in db.allvarnames]),
    'copy': _db(lambda a, db: db.copy()),
    'save touchstone': _db(_save(
        lambda a, db, p: _ff(a, 'touchstone').save_touchstone(db, p),
        'x.s2p')),
    'save citi': _db(_save(
        lambda a, db, p: _ff(a, 'citi').save_citi(
            db.keep_variables(['a', 'S']), p), 'x.citi')),
    'save spdata': _db(_save(
        lambda a, db, p: _ff(a, 'spdata').save_spdata(
            db.keep_variables(['a', 'S']), p), 'x.txt')),
    'save mdif': _db(_save(
        lambda a, db, p: _ff(a, 'mdif').save_mdif(
            db.keep_variables(['a', 'S']), p), 'x.mdif')),
    'save hdf5': _db(_save(
        lambda a, db, p: _ff(a, 'hdf5').save_hdf5(db, p), 'x.hdf5')),
}


def _blocks(a):
    out = []
    for q in range(2):
        db = a.D.DataBlock()
        db.comments = a.c.mod('hftools.file_formats').Comments(['Vd: %d' % q])
        db.Vg = a.D.DimPartial('Vg', a.c.np.array([a.c.real('v%d' % q)]))
        db.a = a.arr('a%d' % q, 'f')
        db.S = a.arr('S%d' % q, 'fij', 'c')
        out.append(db)
    a.c.assume(a.c.real('v0') < a.c.real('v1'))
    return (out,)


DATA['merge'] = (_blocks, lambda a, bs: _ff(a, 'merge').merge_blocks(bs))
DATA['merge hyper'] = (_blocks, lambda a, bs: _ff(a, 'merge').merge_blocks(
    bs, hyper=True))


# their results are views of the argument
VIEWS = ('reorder', 'transpose', 't', 'squeeze', 'add_dim', 'index',
         'remove_tail', 'remove_rep', 'same dims', 'same dims list', 'repr',
         'make fullcomplex', 'matrix of data')


def arguments(table):
    def run(c):
        a = Args(c)
        op = c.choice('op', sorted(table))
        mk, fn = table[op]
        args = mk(a)
        before = [snap(c, x) for x in args]
        res = fn(a, *args)
        if op not in VIEWS and table is not DATA:
            for x in res if isinstance(res, (tuple, list)) else [res]:
                if hasattr(x, 'dims') and getattr(x, 'ndim', 0):
                    x[...] = 0
                    x.unit = 'K'
        for k, x in enumerate(args):
            same(c, 'argument %d of %s is unchanged' % (k, op), snap(c, x),
                 before[k])
    return run


def saving(c):
    """What is saved stays what it was."""
    arguments(SAVE)(c)


SAVE = {k: DATA.pop(k) for k in list(DATA) if k.startswith('save')}


# ------------------------------------------------------------------- copies

def _things():
    out = {'array': lambda a: a.arr('p', 'fr', 'c'),
           'scalar': lambda a: a.arr('p', ''),
           'integers': lambda a: a.arr('p', 'f', 'i', fmt='%d'),
           'matrix': lambda a: a.arr('p', 'fij'),
           'dataset': lambda a: a.db(),
           'plain dataset': lambda a: a.db(False),
           'empty dataset': lambda a: a.D.DataBlock(),
           'comments': lambda a: a.c.mod('hftools.file_formats').Comments(
               ['Vd: 3', 'text'])}
    for k in CLS:
        out[k] = lambda a, k=k: a.net('p', k)
    for k in ('DimSweep', 'DimRep', 'DimPartial', 'DimMatrix_i'):
        out[k] = lambda a, k=k: getattr(a.D, k)(
            'd', a.c.rarray('d', (2,)), unit='V', outputformat='%.2f')
    return out


THINGS = _things()


def copies(c):
    """copy(), the copy module and pickle keep everything."""
    a = Args(c)
    what = c.choice('what', sorted(THINGS))
    x = THINGS[what](a)
    before = snap(c, x)
    how = c.choice('how', ['copy', 'copy.copy', 'deepcopy', 'pickle',
                           'pickle 2'])
    if how == 'copy':
        y = x.copy()
    elif how == 'copy.copy':
        y = copy.copy(x)
    elif how == 'deepcopy':
        y = copy.deepcopy(x)
    else:
        y = c.pickled(x, 2 if how == 'pickle 2' else 4)
    same(c, 'copy', snap(c, y), before)
    c.same('kind', type(y).__name__, type(x).__name__)
    if what in CLS:
        n = 'A' if what == 'ABCDArray' else what[:-5]
        c.eq('element by name', el(getattr(y, n + '21'), (1,)),
             el(x, (1, 1, 0)))
    if how == 'copy.copy' and (what.endswith('dataset') or
                               what == 'comments'):
        return      # the variables are those of the original
    if what.endswith('dataset'):
        for k in list(y.vardata):
            y[k][...] = 7
            y[k].unit = 'K'
            y[k].dims = y[k].dims[::-1]
        y.new = a.arr('new', 'fr')
        if y.comments:
            y.comments.extend(type(y.comments)(['Id: 4']))
    elif what == 'comments':
        y.extend(type(y)(['Id: 4']))
        y.property['Vd'] = 8
    elif not what.startswith('Dim'):
        y[...] = 7
        y.unit = 'K'
    same(c, 'the original is not affected', snap(c, x), before)


def constructor(c):
    """hfarray(x) has data of its own, hfarray(x, copy=False) those of x."""
    a = Args(c)
    kind = c.choice('kind', ['hfarray', 'ndarray', 'network'])
    x = {'hfarray': lambda: a.arr('p', 'fij', 'c'),
         'ndarray': lambda: c.carray('p', (2, 2, 2)),
         'network': lambda: a.net('p', 'SArray')}[kind]()
    own = c.choice('copy', [None, True, False])
    dims = (a.f, a.i, a.j)
    y = a.D.hfarray(x, dims=dims, **({} if own is None else
                                     dict(copy=own)))
    v = c.cplx('v')
    old = el(x, (1, 0, 1))
    y[1, 0, 1] = v
    c.eq('written', el(y, (1, 0, 1)), v)
    c.eq('the source', el(x, (1, 0, 1)), v if own is False else old)


HARNESSES = [
    H('arrays', arguments(ARRAYS), '%d operations on arrays of 0-3 dims of '
      '2 points' % len(ARRAYS)),
    H('math', arguments(MATH), '%d functions' % len(MATH)),
    H('networks', arguments(NETS), '%d operations' % len(NETS)),
    H('datasets', arguments(DATA),
      'operations on datasets of 4 variables, with comments'),
    H('saving', saving, 'all formats'),
    H('copies', copies, 'copy, copy module, pickle of %d kinds of objects' %
      len(THINGS)),
    H('constructor', constructor, ''),
]
ASSUMPTIONS = ["every matrix inverted is non-singular"]
