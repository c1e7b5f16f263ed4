"""Plots: the curves are the data, the labels name them."""
from fractions import Fraction
from symex.core import approx                       # noqa
from .common import H, el, ndindex
from .P20 import PREFIX, _ten


def _axes(c, name):
    """axes of a projection"""
    P = c.mod('hftools.plotting')
    if c.sym:
        found = {}
        for m in (c.mod('hftools.plotting.helper'),
                  c.mod('hftools.plotting.smith')):
            for k in vars(m).values():
                if isinstance(k, type) and getattr(k, 'name', None) and \
                        hasattr(k, 'plot'):
                    if k.__module__ == m.__name__:
                        found[k.name] = k
        return found[name]()
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot(111, projection=name)


def _polar(c, z):
    """magnitude and cos, sin of the phase"""
    r = c.np.sqrt(z.real * z.real + z.imag * z.imag)
    return r, z.real / r, z.imag / r


def _scalar(c, v):
    return v


def _expect(c, proj, label, x, z, lx, ly):
    """The point (lx, ly) on a curve is z at x."""
    if proj in ('cplx', 'smith', 'cpolar'):
        c.eq(label, lx, z.real)
        c.eq(label, ly, z.imag)
        return
    if proj == 'cplxpolar':
        r, C, S = _polar(c, z)
        c.eq(label, ly, r)
        c.eq(label, c.np.cos(lx), C)
        c.eq(label, c.np.sin(lx), S)
        return
    c.eq(label + ' abscissa', lx, x)
    if proj in ('db', 'db10'):
        r2 = z.real * z.real + z.imag * z.imag
        c.eq(label, 10 ** (ly / 10), r2 if proj == 'db' else
             c.np.sqrt(r2))
    elif proj == 'mag':
        c.eq(label, ly, _polar(c, z)[0])
    elif proj == 'mag_square':
        c.eq(label, ly, z.real * z.real + z.imag * z.imag)
    elif proj in ('real', 'imag'):
        c.eq(label, ly, getattr(z, proj))
    elif proj in ('rad', 'deg'):
        r, C, S = _polar(c, z)
        full = c.np.pi if proj == 'rad' else 180
        c.eq(label, c.np.cos(ly * c.np.pi / full), C)
        c.eq(label, c.np.sin(ly * c.np.pi / full), S)
        c.check(label + ': principal value', (ly > -full) & (ly <= full)
                if c.sym else -full - 1e-9 <= ly <= full + 1e-9)
    else:
        c.eq(label, ly, z)


CPLX = ['db', 'db10', 'mag', 'mag_square', 'real', 'imag', 'rad', 'deg',
        'cplx', 'smith', 'cpolar', 'cplxpolar']
YUNIT = dict(db='dB', db10='dB', deg=u'\xb0', rad='rad', mag='V', real='V',
             imag='V', cplx='V')


def curves(c):
    """One curve per column, through the projected data over the first
    dimension, in order."""
    D = c.mod('hftools.dataset')
    proj = c.choice('projection', CPLX + ['rectilinear', 'x-si'])
    real = proj in ('rectilinear', 'x-si') or \
        proj in ('mag', 'db', 'real', 'cplxpolar') and \
        c.choice('real', [False, True])
    nd = c.choice('ndim', [1, 2, 3])
    arg = c.choice('x', ['none', 'dim', 'array', 'own', 'function'])
    plain = c.choice('array', [False, True])
    if plain and (nd == 3 or arg == 'function'):
        return
    if c.tier == 'quick' and nd == 3 and arg in ('none', 'array'):
        return
    style = c.choice('style', [(), (u'r-',)] if c.tier == 'thorough' or
                     nd == 1 else [(u'r-',) if arg == 'own' else ()])
    if arg == 'function' and (nd < 2 or proj == 'cplxpolar'):
        return
    if real and proj == 'cplxpolar' and (arg == 'none' or nd == 3):
        return
    ax = _axes(c, proj)
    f = D.DimSweep('freq', c.np.array([c.real('f%d' % k) for k in range(2)]),
                   unit=c.choice('unit', ['Hz', None] if nd == 1 and
                                 arg in ('none', 'dim') else ['Hz']))
    dims = (f, D.DimRep('rep', [0, 1]),
            D.DimSweep('pwr', [3., 1.], unit='W'))[:nd]
    sh = (2,) * nd
    a = c.rarray('y', sh) if real else c.carray('y', sh)
    if not real or proj == 'db':
        for i in ndindex(sh):
            v = a[i]
            if proj not in ('cplx', 'smith', 'cpolar', 'real', 'imag') and \
                    not (real and proj == 'cplxpolar'):
                c.assume(v.real * v.real + v.imag * v.imag >
                         (0 if c.sym else 1e-4))
    y = a if plain else D.hfarray(a, dims=dims, unit='V')
    xs = [el(f.data, (k,)) for k in range(2)]
    X = {}
    if arg == 'none':
        args = (y,)
        if plain:
            xs = [0, 1]
    elif arg == 'dim':
        args = (D.hfarray(f), y)
    elif arg == 'array':
        xs = [c.real('x0'), c.real('x1')]
        args = (c.np.array(xs), y)
    elif arg == 'own':
        b = c.rarray('X', sh)
        args = (b if plain else D.hfarray(b, dims=dims, unit='Hz'), y)
        X = b
    else:
        # x depends on one or two of the dimensions
        sub = c.choice('over', [(1,), (2,), (2, 0), (0, 2), (1, 0)]
                       if nd == 3 else [(1,), (1, 0)])
        b = c.rarray('X', (2,) * len(sub))
        args = (D.hfarray(b, dims=tuple(dims[k] for k in sub), unit='Hz'), y)
    if real and proj == 'cplxpolar':
        # x and y are the coordinates of the points
        for i in ndindex(sh):
            x = b[i] if arg == 'own' else xs[i[0]]
            c.assume(x * x + a[i] * a[i] > (0 if c.sym else 1e-4))
    lines = ax.plot(*(args + style))
    cols = list(ndindex(sh[1:]))
    c.same('number of curves', len(lines), len(cols))
    for line, j in zip(lines, cols):
        lx, ly = line.get_xdata(), line.get_ydata()
        c.same('points', (len(lx), len(ly)), (2, 2))
        for k in range(2):
            idx = (k,) + j
            x = xs[k]
            if arg == 'own':
                x = b[idx]
            elif arg == 'function':
                x = b[tuple(idx[q] for q in sub)]
            z = a[idx]
            if proj == 'cplxpolar' and real:
                z = x + 1j * z
            _expect(c, proj, 'point', x, z, el(lx, (k,)), el(ly, (k,)))
    if not plain and proj in ('cplx', 'smith'):
        c.same('unit of both axes', (ax.get_xlabel_unit(),
                                     ax.get_ylabel_unit()),
               ('V', 'V') if proj == 'cplx' else (None, None))
    elif not plain and proj in YUNIT:
        c.same('unit of the data', ax.get_ylabel_unit(), YUNIT[proj])
        if arg in ('none', 'dim', 'own', 'function'):
            c.same('unit of the abscissa', ax.get_xlabel_unit(),
                   'Hz' if arg in ('own', 'function') or f.unit else '')


def groupdelay(c):
    """tau = -dphi/domega between neighbouring frequencies."""
    D = c.mod('hftools.dataset')
    nd = c.choice('ndim', [1, 2])
    n = 3
    ax = _axes(c, 'groupdelay')
    fs = [c.real('f%d' % k) for k in range(n)]
    for k in range(n - 1):
        c.assume(fs[k + 1] > (fs[k] if c.sym else fs[k] + 1e-3))
    f = D.DimSweep('freq', c.np.array(fs), unit='Hz')
    dims = (f, D.DimRep('rep', [0, 1]))[:nd]
    sh = (n, 2)[:nd]
    a = c.carray('y', sh)
    for i in ndindex(sh):
        v = a[i]
        c.assume(v.real * v.real + v.imag * v.imag > (0 if c.sym else 1e-4))
    lines = ax.plot(D.hfarray(a, dims=dims, unit='V'))
    c.same('number of curves', len(lines), len(list(ndindex(sh[1:]))))
    pi = c.np.pi
    for line, j in zip(lines, ndindex(sh[1:])):
        lx, ly = line.get_xdata(), line.get_ydata()
        c.same('points', (len(lx), len(ly)), (n - 1, n - 1))
        for k in range(n - 1):
            c.eq('middle frequency', el(lx, (k,)) * 2, fs[k] + fs[k + 1])
            dphi = -el(ly, (k,)) * 2 * pi * (fs[k + 1] - fs[k])
            p, q = a[(k,) + j], a[(k + 1,) + j]
            re = q.real * p.real + q.imag * p.imag
            im = q.imag * p.real - q.real * p.imag
            r = c.np.sqrt(re * re + im * im)
            c.eq('delay', c.np.cos(dphi) * r, re)
            c.eq('delay', c.np.sin(dphi) * r, im)
    c.same('unit of the delay', ax.get_ylabel_unit(), 's')


def _whole(c, s):
    """s is close to a whole number"""
    s = abs(s)
    fr = s - c.np.floor(s)
    c.check('decimals needed', (fr < .0011) | (fr > .9989))


EXP = dict((b, a) for a, b in PREFIX if b % 3 == 0)


def ticks(c):
    """The tick label, with the prefix the axis label shows, is the value
    of the tick."""
    M = c.mod('hftools.plotting.helper')
    n = c.choice('ticks', [1, 2, 3])
    kind = c.choice('size', ['alike', 'wide'])
    if kind == 'wide' and n == 1:
        return
    deep = c.tier == 'thorough'
    e = c.choice('decade', list(range(-26, 28)) if deep else
                 [-25, -22, -12, -4, -3, -1, 0, 2, 3, 5, 9, 11, 23, 26]
                 if n == 1 else [-4, 2, 9])
    fmt, unit = c.choice('label', [('f []', 'Hz'), ('{default} []', 'Hz'),
                                   (u'f [^]', 'Hz'), ('f []', None),
                                   ('[^]', None), ('f []', '%')][
                                       :6 if n == 1 else 1])
    c.text_values(signs=0)
    sign = c.choice('sign', [1, -1])
    lo, hi = (_ten(e), _ten(e + 1)) if c.sym else (
        float(_ten(e)) * (1 + 1e-9), float(_ten(e + 1)) * (1 - 1e-9))
    t = c.real('t')
    c.assume(t * sign > 0)
    locs = [t]
    big = abs(t)
    if n == 2:
        # the largest decides the prefix; the other is given
        if c.choice('given', ['smaller', 'larger']) == 'smaller':
            q = c.choice('ratio', [Fraction(0)] + [Fraction(-1, 2)] * (deep and e == 2)
                         if kind == 'alike' else [Fraction(1, 20000)])
            locs = [t, t * (q if c.sym else float(q))]
        else:
            m = Fraction(c.choice('mantissa', ['1', '2.5', '9.99'][
                :3 if deep else 2])) * _ten(e)
            m = m if c.sym else float(m)
            c.assume(big <= m)
            c.assume(big * 9999 >= m if kind == 'alike' else
                     big * 10001 < m)
            big = m
            locs = [m, t]
    elif n == 3:
        # one of three ticks is arbitrary, in any place
        m = [Fraction(v) * _ten(e) for v in c.choice('others', [
            ('1', '2.5'), ('1', '2'), ('-1', '3')])]
        m = m if c.sym else [float(v) for v in m]
        big = max(map(abs, m))
        c.assume(abs(t) <= big)
        c.assume(abs(t) * 9999 >= big if kind == 'alike' else
                 abs(t) * 10001 < big)
        locs = m
        locs.insert(c.choice('place', [0, 1, 2]), t)
    c.assume(big >= lo)
    c.assume(big < hi)
    got = []
    F = M.UnitFormatter('%.3f', set_label_fun=got.append, label_fmt=fmt,
                        unit=unit)
    if not c.sym:
        locs = [float(t) for t in locs]
    F.set_locs(locs)
    k = c.choice('which', list(range(n)))
    text = F(locs[k], k)
    c.check('axis labelled', len(got) > 0)
    label = got[-1]
    if kind == 'wide':
        p = 0
        if c.sym:
            c.eq('value', text.x, locs[k])
        else:
            num, _, u = text.partition(' ')
            p2 = {a: b for a, b in PREFIX}
            p2.update({u'\xb5': -6, 'r': -27, 'q': -30, 'R': 27, 'Q': 30})
            v = float(num.replace(u'\u2212', '-')) * float(
                Fraction(10) ** p2[u])
            c.check('value', abs(v - locs[k]) <= abs(locs[k]) * .0051 or
                    abs(locs[k]) < 1e-24 or abs(locs[k]) > 1e26)
    else:
        p = max(min(e // 3 * 3, 24), -24)
        v = c.number(text)
        _, _, dec = text.partition('.')
        d = len(dec)
        c.check('at most three decimals', d <= 3)
        y = locs[k] * (_ten(-p) if c.sym else float(_ten(-p)))
        if c.sym and isinstance(locs[k], Fraction):
            c.check('value', abs(v - y) <= Fraction(11, 10000))
        elif c.sym:
            c.eq('value', v, y)
            s = y * 10 ** d
            if d < 3:
                _whole(c, s)
        else:
            c.check('value', abs(v - y) <= .0011 + 1e-9 * abs(y))
    pre = EXP[p]
    if fmt.endswith('[]'):
        want = '[' + pre + (unit or 'U') + ']'
        c.check('prefix in the label', label.endswith(want))
    else:
        c.check('power in the label', '10^{%s%d%s}' % (
            ('', p, '') if unit else ('{', p, '}')) in label or
            '10^{%d}' % p in label)
        c.check('unit in the label', (unit or '') in label)
    c.check('nothing left to fill in', '%' not in label.replace('%]', '')
            and '{default}' not in label and '{unit}' not in label)
    if '{default}' in fmt:
        c.check('name', label.startswith('Frequency'))


def simple(c):
    """Axes without prefixes show the value itself."""
    M = c.mod('hftools.plotting.helper')
    n = c.choice('ticks', [1, 2])
    fmt, unit = c.choice('label', [('L []', 'dB'), ('[]', None),
                                   ('gain %(unit)s', 'dB'), ('[]', '%')])
    c.text_values(signs=0)
    t = c.real('t')
    c.assume(abs(t) < 1000)
    c.assume(t * c.choice('sign', [1, -1]) > 0)
    locs = [t] + [Fraction(c.choice('other', ['-2.5', '30']))] * (n - 1)
    if not c.sym:
        locs = [float(t) for t in locs]
    got = []
    F = M.SimpleUnitFormatter('%.3f', set_label_fun=got.append,
                              label_fmt=fmt, unit=unit)
    F.set_locs(locs)
    k = c.choice('which', list(range(n)))
    text = F(locs[k], k)
    c.check('axis labelled', len(got) > 0)
    c.same('label', got[-1], fmt.replace('[]', '[%s]' % (unit or 'U'))
           .replace('%(unit)s', unit or ''))
    _, _, dec = text.partition('.')
    d = len(dec)
    if c.sym:
        c.eq('value', c.number(text), locs[k])
        s = locs[k] * 10 ** d
        if d < 3:
            _whole(c, s)
    else:
        c.check('value', abs(float(text) - locs[k]) <= .0011)


def label_units(c):
    """Units and formats of the labels are what was set last."""
    D = c.mod('hftools.dataset')
    proj = c.choice('projection', ['db', 'mag', 'cplx', 'deg', 'x-si'])
    which = c.choice('axis', ['x', 'y'])
    if proj == 'x-si' and which == 'y':
        return
    ax = _axes(c, proj)
    get = lambda w: getattr(ax, 'get_%slabel_%s' % (which, w))
    put = lambda w: getattr(ax, 'set_%slabel_%s' % (which, w))
    fmt = unit = None
    for k in range(3):
        op = c.choice('op%d' % k, ['fmt', 'fmt+unit', 'unit'])
        if op == 'fmt+unit':
            fmt, unit = 'n%d []' % k, 'u%d' % k
            put('fmt')(fmt, unit=unit)
        elif op == 'fmt':
            fmt = 'n%d []' % k
            if proj == 'deg' and which == 'y':
                unit = u'\xb0'
            put('fmt')(fmt)
        else:
            unit = 'w%d' % k
            put('unit')(unit)
        if fmt is not None:
            c.same('format', get('fmt')(), fmt)
        if unit is not None:
            c.same('unit', get('unit')(), unit)
        if fmt is not None and unit is not None:
            F = getattr(ax, which + 'axis').get_major_formatter()
            F.set_locs([1., 2.])
            F(2., 1)
            lab = getattr(ax, 'get_%slabel' % which)()
            c.same('label', lab, fmt.replace('[]', '[%s]' % unit))


HARNESSES = [
    H('curves', curves, '2 points along each of 1-3 dimensions, every '
      'projection but the unwrapped ones', max_paths=6000),
    H('groupdelay', groupdelay, '3 frequencies, 1-2 dimensions'),
    H('ticks', ticks, '1-3 ticks of 1e-26 to 1e28', max_paths=6000),
    H('simple', simple, '1-2 ticks below 1000'),
    H('label_units', label_units, 'histories of 3 changes'),
]
ASSUMPTIONS = ['a number written to text is read back unchanged']
