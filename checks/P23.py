"""The Smith chart: what is drawn is where the impedances are."""
import math
from symex.core import approx
from .common import H, el

TOL = 1e-7


def _cs(c, t):
    """cos and sin of an angle in degrees"""
    a = t * c.np.pi / 180
    return c.np.cos(a), c.np.sin(a)


def gamma(adm, re, im):
    """Reflection of z = re + j im, or y = re + j im, as (x, y)."""
    d = (re + 1) * (re + 1) + im * im
    x = (re * re + im * im - 1) / d
    y = 2 * im / d
    return (-x, -y) if adm else (x, y)


def _area(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def _near(c, label, p, q):
    c.check(label, (p[0] - q[0]) * (p[0] - q[0]) +
            (p[1] - q[1]) * (p[1] - q[1]) <= TOL)


def mapping(c):
    """z2gamma and y2gamma map an impedance and an admittance to the
    reflection coefficient."""
    S = c.mod('hftools.plotting.smith')
    adm = c.choice('admittance', [False, True])
    kind = c.choice('kind', ['complex', 'real', 'imaginary infinite',
                             'real infinite', 'infinite'])
    f = S.y2gamma if adm else S.z2gamma
    inf = float('inf')
    if kind == 'complex':
        r, x = c.real('r'), c.real('x')
        c.assume((r + 1) * (r + 1) + x * x > (0 if c.sym else 1e-6))
        g = f(r + 1j * x)
        p = gamma(adm, r, x)
    elif kind == 'real':
        r = c.real('r')
        c.assume((r + 1) * (r + 1) > (0 if c.sym else 1e-6))
        g = f(r)
        p = gamma(adm, r, 0)
    else:
        s = c.choice('sign', [1, -1])
        z = complex(1, s * inf) if kind == 'imaginary infinite' else \
            complex(inf, s) if kind == 'real infinite' else inf
        g = f(z)
        p = (-1, 0) if adm else (1, 0)
    _near(c, 'reflection', (c.np.real(g), c.np.imag(g)), p)


def _on(c, S, adm, m, g, label):
    """The point g lies on the circle or line m."""
    if isinstance(m, S.MyLine):
        a, b = (m.x1, m.y1), (m.x2, m.y2)
        c.eq(label + ': line through the point', _area(a, b, g), 0)
    else:
        dx, dy = g[0] - m.x, g[1] - m.y
        c.check(label + ': radius is positive', m.r > 0)
        c.eq(label + ': circle through the point', dx * dx + dy * dy,
             m.r * m.r)


def _limits(c, lo=None):
    """Two limits (number or infinity), lower and upper"""
    k = c.choice('limits', ['finite', 'upper infinite'] +
                 (['lower infinite', 'both infinite'] if lo is None else
                  ['zero', 'zero to infinity']))
    inf = float('inf')
    a = b = None
    if 'zero' in k:
        a = 0
    elif k in ('lower infinite', 'both infinite'):
        a = -inf
    else:
        a = c.real('a')
        c.assume(a > -100)
        if lo is not None:
            c.assume(a >= lo)
    if 'infin' in k and k != 'lower infinite':
        b = inf
    else:
        b = c.real('b')
        c.assume(b < 100)
        c.assume(b > (a if c.sym else a + 1e-3))
    t = c.real('t')
    c.assume(t > -1000)
    c.assume(t < 1000)
    if a != -inf:
        c.assume(t >= a)
    if b != inf:
        c.assume(t <= b)
    return a, b, t


def _inf(x):
    return isinstance(x, float) and math.isinf(x)


def arcs(c):
    """The curve of constant resistance, reactance, conductance or
    susceptance, whole or between two values of the other quantity, is the
    set of their reflection coefficients."""
    S = c.mod('hftools.plotting.smith')
    kind = c.choice('kind', ['R', 'X', 'G', 'B'])
    adm = kind in 'GB'
    f = getattr(S, kind + 'Circle')
    ends = c.choice('ends', ['whole', 'ascending', 'descending'])
    pos = kind in 'RG'
    p = c.real('p')
    if pos:
        c.assume(p >= 0)
        c.assume(p < 1000)
    else:
        sign = c.choice('sign', [0, 1, -1])
        if sign == 0:
            p = c.choice('zero', [0, 0.0])
        else:
            c.assume(p * sign > (0 if c.sym else 1e-3))
            c.assume(p * sign < 1000)
    if ends == 'whole':
        m = f(p)
        t = c.real('t')
        c.assume(t > -1000)
        c.assume(t < 1000)
        if not pos:
            c.assume(t >= 0)
        g = gamma(adm, p, t) if pos else gamma(adm, t, p)
        _on(c, S, adm, m, g, 'whole')
        if isinstance(m, S.MyLine):
            c.check('line from end to end of the chart',
                    c.truth(m.x1 == -1) and c.truth(m.x2 == 1) or
                    c.truth(m.x1 == 1) and c.truth(m.x2 == -1))
        else:
            c.check('whole circle', m.t1 is None or m.t2 is None)
        return
    a, b, t = _limits(c, None if pos else 0)
    m = f(p, a, b) if ends == 'ascending' else f(p, b, a)
    g = gamma(adm, p, t) if pos else gamma(adm, t, p)
    _on(c, S, adm, m, g, 'part')
    inf = (-1, 0) if adm else (1, 0)
    A = inf if _inf(a) else gamma(adm, p, a) if pos else gamma(adm, a, p)
    B = inf if _inf(b) else gamma(adm, p, b) if pos else gamma(adm, b, p)
    if isinstance(m, S.MyLine):
        c.check('line along the real axis', (m.y1 == 0) & (m.y2 == 0)
                if c.sym else m.y1 == m.y2 == 0)
        xs = sorted([m.x1, m.x2])
        ref = sorted([A[0], B[0]])
        c.eq('left end', xs[0], ref[0])
        c.eq('right end', xs[1], ref[1])
        return
    # an arc is drawn counter-clockwise from t1 to t2; the reflection moves
    # clockwise when the reactance or the susceptance grows, or when the
    # resistance or conductance grows along a negative reactance or
    # susceptance
    if pos or sign < 0:
        A, B = B, A
    e1, e2 = _cs(c, m.t1), _cs(c, m.t2)
    P1 = (m.x + m.r * e1[0], m.y + m.r * e1[1])
    P2 = (m.x + m.r * e2[0], m.y + m.r * e2[1])
    _near(c, 'start of the arc', P1, A)
    _near(c, 'end of the arc', P2, B)
    if _inf(a) and _inf(b):
        c.check('all of the circle',
                (m.t2 - m.t1 > 180) & (m.t2 - m.t1 <= 360))
    else:
        c.check('arc through the point',
                _area(A, g, B) >= (0 if c.sym else -1e-9))
        # the arc spans what is between its ends: no full turns added
        c.check('at most one turn', (m.t2 - m.t1 < 360) &
                (m.t2 - m.t1 > -360))


def _axes(c):
    if c.sym:
        from symex.fakempl import Axes
        return Axes()
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot(111)


def _kinds(c):
    if c.sym:
        from symex import fakempl as m
        return m.Arc, m.Circle, m.Polygon
    from matplotlib.patches import Arc, Circle, Polygon
    return Arc, Circle, Polygon


def _f(x):
    return float(approx(x))


def _drawn(c, ax):
    """[(centre, radius, start, span)] and [(point, point)]"""
    Arc, Circle, Polygon = _kinds(c)
    curves, lines = [], []
    for p in ax.patches:
        if isinstance(p, Arc):
            w, h = _f(p.width), _f(p.height)
            if abs(w) == 0:
                continue
            c.check('arcs are circular', abs(abs(w) - abs(h)) < 1e-12)
            t1, t2 = _f(p.theta1), _f(p.theta2)
            span = (t2 - t1) % 360
            if span < 1e-6 and t1 != t2:
                span += 360
            if w < 0:
                t1 = 180 - (t1 + span)
            if h < 0:
                t1 = -(t1 + span)
            curves.append((tuple(map(_f, p.center)), abs(w) / 2,
                           t1, span))
        elif isinstance(p, Circle):
            curves.append((tuple(map(_f, p.center)), _f(p.radius), 0,
                           360))
        else:
            xy = p.get_xy()
            lines.append(((_f(el(xy, (0, 0))), _f(el(xy, (0, 1)))),
                          (_f(el(xy, (1, 0))), _f(el(xy, (1, 1))))))
    return curves, lines


def _covers(c, label, drawn, centre, radius, g):
    """One of the drawn curves is on the given circle and has the point"""
    cand = [x for x in drawn if abs(x[0][0] - centre[0]) < 1e-9 and
            abs(x[0][1] - centre[1]) < 1e-9 and abs(x[1] - radius) < 1e-9]
    c.check(label + ': drawn', bool(cand))
    ok = False
    for o, r, t, span in cand:
        if span > 359.999:
            ok = True
            break
        if span < 1e-6:
            continue
        a = math.radians(t)
        b = math.radians(t + span)
        P1 = (o[0] + r * math.cos(a), o[1] + r * math.sin(a))
        P2 = (o[0] + r * math.cos(b), o[1] + r * math.sin(b))
        if abs(span - 180) < 1e-3:
            # chord through the centre: on which side is the point
            ok = ok | (_area(P1, g, P2) >= -1e-4)
        else:
            ok = ok | (_area(P1, g, P2) >= -1e-6)
    c.check(label, ok)


R = [0, 1. / 3, 1, 3]


def grid(c):
    """The chart shows the whole circles of r = 0, 1/3, 1, 3 and the arcs
    of x = 0, +-1/3, +-1, +-3 (conductance and susceptance in the inverted
    chart), in the half that is asked for."""
    S = c.mod('hftools.plotting.smith')
    fn = c.choice('chart', ['smith', 'inv_smith', 'smith_lower',
                            'smith_upper', 'grid lower', 'grid upper',
                            'smith_polar'])
    ax = _axes(c)
    adm = fn in ('inv_smith', 'grid lower', 'grid upper')
    half = 0
    if fn.startswith('grid'):
        half = 1 if 'upper' in fn else -1
        S.smith_grid(ax, fn.split()[1], standard=False)
    else:
        half = {'smith_lower': -1, 'smith_upper': 1,
                'smith_polar': -1}.get(fn, 0)
        getattr(S, fn)(ax)
    curves, lines = _drawn(c, ax)
    sgn = -1 if adm else 1
    known = [(0., 0., 1.)]
    known += [(sgn * v / (v + 1.), 0., 1 / (v + 1.)) for v in R]
    known += [(sgn, sgn / x, 1 / abs(x)) for v in R[1:] for x in (v, -v)]
    if fn == 'smith_polar':
        known += [(0., 0., k * .2) for k in range(1, 6)]
    for o, r, t, span in curves:
        c.check('nothing but the grid', any(
            abs(o[0] - x) + abs(o[1] - y) + abs(r - z) < 1e-9
            for x, y, z in known))
        if half and fn != 'smith_polar':
            m = math.radians(t + span / 2)
            c.check('in the half asked for', span < 181 and
                    half * (o[1] + r * math.sin(m)) > -1e-6)
    what = c.choice('curve', [('r', 0), ('r', 1. / 3), ('r', 1), ('r', 3),
                              ('x', 0), ('x', 1. / 3), ('x', 1), ('x', 3)])
    t = c.real('t')
    c.assume(t > -1000)
    c.assume(t < 1000)
    v = what[1]
    if what[0] == 'r':
        # lower half of the chart has negative reactance, but positive
        # susceptance
        if half:
            c.assume(t * half * sgn >= 0)
        g = gamma(adm, v, t)
        _covers(c, 'resistance %.2g' % v, curves,
                (sgn * v / (v + 1.), 0), 1 / (v + 1.), g)
        return
    c.assume(t >= 0)
    if v == 0:
        pts = [sorted(x) for x in lines if abs(x[0][1]) < 1e-9 and
               abs(x[1][1]) < 1e-9]
        g = gamma(adm, t, 0)
        ok = False
        for p, q in pts:
            ok = ok | ((g[0] >= p[0] - 1e-6) & (g[0] <= q[0] + 1e-6))
        c.check('real axis', ok)
        return
    for s in ((1, -1) if half == 0 else (half * sgn,)):
        x = s * v
        g = gamma(adm, t, x)
        _covers(c, 'reactance %.2g' % x, curves,
                (sgn * 1, sgn * 1. / x), 1. / v, g)


def polar(c):
    """The polar grid has circles of radius 0.2 to 1 and lines every
    45 degrees."""
    S = c.mod('hftools.plotting.smith')
    mode = c.choice('mode', ['full', 'lower', 'upper', 'smith_polar'])
    ax = _axes(c)
    if mode == 'smith_polar':
        S.smith_polar(ax)
        mode = 'upper'
    else:
        S.polar_grid(ax, mode)
    half = {'full': 0, 'lower': -1, 'upper': 1}[mode]
    curves, lines = _drawn(c, ax)
    t = c.real('t')
    c.assume(t > -1000)
    c.assume(t < 1000)
    if half:
        c.assume(t * half >= 0)
    k = c.choice('radius', [1, 2, 3, 4, 5])
    d = 1 + t * t
    _covers(c, 'circle', curves, (0, 0), k * .2,
            (k * .2 * (1 - t * t) / d, k * .2 * 2 * t / d))
    ends = [q for p, q in lines if abs(p[0]) + abs(p[1]) < 1e-9]
    for k in range(8):
        a = k * math.pi / 4
        if half * math.sin(a) < -1e-9 or half and k == (
                4 if half > 0 else 0):
            continue
        c.check('line at %d degrees' % (45 * k), any(
            abs(q[0] - math.cos(a)) + abs(q[1] - math.sin(a)) < 1e-9
            for q in ends))


def angles(c):
    """angle gives the argument in the turn that starts at the branch."""
    S = c.mod('hftools.plotting.smith')
    deg = c.choice('deg', [False, True])
    b = c.choice('branch', [0, 90, 180, -90, -180, 270])
    x, y = c.real('x'), c.real('y')
    c.assume(x * x + y * y > (0 if c.sym else 1e-6))
    pi = c.np.pi
    turn = 360 if deg else 2 * pi
    br = b if deg else b * pi / 180
    if not c.sym:
        # keep clear of the branch, where rounding picks either end
        w = math.degrees(math.atan2(y, x)) - b
        c.assume(1e-6 < w % 360 < 360 - 1e-6)
    a = S.angle(x + 1j * y, deg, br)
    c.check('not before the branch', a >= br)
    c.check('less than a turn from the branch', a < br + turn)
    C, Sn = _cs(c, a if deg else a * 180 / pi)
    r = c.np.sqrt(x * x + y * y)
    c.eq('cosine', C * r, x)
    c.eq('sine', Sn * r, y)


HARNESSES = [
    H('mapping', mapping, 'any impedance or admittance but -1; infinite ones'),
    H('arcs', arcs, 'r and g in [0, 1000), x and b with absolute value below '
      '1000, limits up to 100 or infinite, whole curves and parts, both '
      'orders of the limits', max_paths=4000),
    H('grid', grid, 'all charts; every point of the eight curves with the '
      'other coordinate below 1000', max_paths=4000),
    H('polar', polar, 'all modes; every point of the circles'),
    H('angles', angles, 'any non-zero number; branches at the quarter turns'),
]
