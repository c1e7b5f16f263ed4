"""Complex data in polar, decibel and phase form."""
from .common import H, dimkey, el, ndindex


def _hf(c, D, data, name="freq"):
    return D.hfarray(data, dims=(D.DimSweep(name, len(data)),))


def polar(c):
    """magnitude/angle, dB/angle and real/imaginary pairs describe the same
    number."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    form = c.choice('form', ['MA', 'RI', 'DB'])
    arr = c.choice('array', ['scalar', 'ndarray', 'hfarray'])
    n = 2
    a = [c.real('ang%d' % k) for k in range(n)]
    m = [c.real('mag%d' % k, nonneg=(form == 'MA')) for k in range(n)]
    fn = dict(MA=M.mag_angle_to_complex, DB=M.dB_angle_to_complex,
              RI=M.re_im_to_complex)[form]
    if arr == 'scalar':
        z = [fn(x, y) for x, y in zip(m, a)]
    else:
        A, B = c.np.array(m), c.np.array(a)
        if arr == 'hfarray':
            A, B = _hf(c, D, A), _hf(c, D, B)
        R = fn(A, B)
        if arr == 'hfarray':
            c.same('dims', [d.name for d in R.dims], ['freq'])
        z = [el(R, (k,)) for k in range(n)]
    for k in range(n):
        if form == 'RI':
            c.eq('real', z[k].real, m[k])
            c.eq('imag', z[k].imag, a[k])
            continue
        th = a[k] * c.np.pi / 180
        mag = m[k] if form == 'MA' else 10 ** (m[k] / 20)
        c.eq('real', z[k].real, mag * c.np.cos(th))
        c.eq('imag', z[k].imag, mag * c.np.sin(th))


def decibel(c):
    """dB and dBinv are inverse; products add, powers of ten are 20 dB."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    which = c.choice('which', ['inv', 'roundtrip', 'complex', 'decade'])
    x = c.real('x')
    if which == 'inv':
        c.eq('dB(dBinv(x)) = x', M.dB(M.dBinv(x)), x)
    elif which == 'roundtrip':
        c.assume(x != 0)
        y = M.dBinv(M.dB(x))
        c.eq('dBinv(dB(x)) = |x|', y * y, x * x)
        c.check('positive', y > 0)
    elif which == 'complex':
        z = c.cplx('z', nonzero=True)
        y = M.dBinv(M.dB(z))
        c.eq('magnitude', y * y, z.real * z.real + z.imag * z.imag)
    else:
        k = c.choice('k', [-3, -1, 0, 1, 2, 6])
        c.eq('20 dB per decade', M.dB(10.0 ** k), 20 * k)
        A = _hf(c, D, c.np.array([10.0 ** k, -10.0 ** k]))
        R = M.dB(A)
        c.same('dims', [d.name for d in R.dims], ['freq'])
        for q in range(2):
            c.eq('20 dB per decade', el(R, (q,)), 20 * k)


def branch(c):
    """angle(z, branch): the right direction, inside the chosen turn."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    deg = c.choice('deg', [False, True])
    z = c.cplx('z', nonzero=True)
    br = c.choice('branch', ['none', 0, -90, 45, 180, -360, 720])
    arr = c.choice('array', ['scalar', 'hfarray'])
    lo = -180 if br == 'none' else br
    arg = z if arr == 'scalar' else _hf(c, D, c.np.array([z, z]))
    if br == 'none':
        R = M.angle(arg, deg)
    elif deg:
        R = M.angle(arg, deg, branch=br)
    else:
        R = M.angle(arg, deg, branch=br * c.np.pi / 180)
    if arr == 'hfarray':
        c.same('dims', [d.name for d in R.dims], ['freq'])
        R = el(R, (1,))
    t = R * c.np.pi / 180 if deg else R
    m = abs(z)
    c.eq('direction (real)', m * c.np.cos(t), z.real)
    c.eq('direction (imag)', m * c.np.sin(t), z.imag)
    d = R if deg else R * 180 / c.np.pi
    c.check('not below the branch', d >= lo - 1e-9)
    c.check('less than a turn above the branch', d <= lo + 360 + 1e-9)


def _turns(c, n, label='t', lo=-8, hi=8, frac=4):
    """Phase steps as multiples of pi/frac, chosen symbolically."""
    out = []
    for k in range(n):
        q = c.int('%s%d' % (label, k), lo, hi)
        out.append(int(q))
    return out


def unwrap(c, n):
    """The unwrapped phase is a phase of the data and moves by at most half
    a turn between neighbours."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    deg = c.choice('deg', [False, True])
    z = [c.cplx('z%d' % k, nonzero=True) for k in range(n)]
    A = _hf(c, D, c.np.array(z))
    R = M.unwrap_phase(A, deg=deg)
    c.same('dims', [d.name for d in R.dims], ['freq'])
    t = [el(R, (k,)) for k in range(n)]
    if deg:
        t = [x * c.np.pi / 180 for x in t]
    for k in range(n):
        m = abs(z[k])
        c.eq('phase of the data (real)', m * c.np.cos(t[k]), z[k].real)
        c.eq('phase of the data (imag)', m * c.np.sin(t[k]), z[k].imag)
    for k in range(n - 1):
        d = t[k + 1] - t[k]
        c.check('at most half a turn up', d <= c.np.pi + 1e-9)
        c.check('at most half a turn down', d >= -c.np.pi - 1e-9)


def unwrap2(c):
    """Every repetition is unwrapped on its own along the sweep."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    z = [[c.cplx('z%d%d' % (k, r), nonzero=True) for r in range(2)]
         for k in range(2)]
    R = M.unwrap_phase(D.hfarray(c.np.array(z), dims=(
        D.DimSweep("freq", 2), D.DimRep("rep", 2))))
    c.same('dims', [d.name for d in R.dims], ['freq', 'rep'])
    for r in range(2):
        t = [el(R, (k, r)) for k in range(2)]
        for k in range(2):
            m = abs(z[k][r])
            c.eq('phase of the data (real)', m * c.np.cos(t[k]), z[k][r].real)
            c.eq('phase of the data (imag)', m * c.np.sin(t[k]), z[k][r].imag)
        d = t[1] - t[0]
        c.check('at most half a turn up', d <= c.np.pi + 1e-9)
        c.check('at most half a turn down', d >= -c.np.pi - 1e-9)


def csqrt(c, n):
    """A square root that does not jump sign."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    # every complex number is the square of some root
    w = [c.cplx('w%d' % k, nonzero=True) for k in range(n)]
    z = [x * x for x in w]
    A = _hf(c, D, c.np.array(z))
    R = M.continous_phase_sqrt(A)
    r = [el(R, (k,)) for k in range(n)]
    for k in range(n):
        c.eq('squares to the data', r[k] * r[k], z[k])
    for k in range(n - 1):
        w = r[k + 1] * r[k].conjugate()
        c.check('no jump', w.real >= -1e-9)


def group_delay(c, n):
    """-dphi/domega at the midpoints."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    fd = D.DimSweep("freq", n)
    f = [c.real('f%d' % k) for k in range(n)]
    for k in range(n - 1):
        c.assume(f[k] < f[k + 1])
    z = [c.cplx('z%d' % k, nonzero=True) for k in range(n)]
    fm, tau = M.delay(D.hfarray(c.np.array(f), dims=(fd,)),
                      D.hfarray(c.np.array(z), dims=(fd,)))
    c.same('one point less', (fm.shape[0], tau.shape[0]), (n - 1, n - 1))
    for k in range(n - 1):
        c.eq('midpoint', el(fm, (k,)) * 2, f[k] + f[k + 1])
        ph = -el(tau, (k,)) * 2 * c.np.pi * (f[k + 1] - f[k])
        w = z[k + 1] * z[k].conjugate()
        m = abs(w)
        c.eq('phase step (real)', m * c.np.cos(ph), w.real)
        c.eq('phase step (imag)', m * c.np.sin(ph), w.imag)
        c.check('shortest step', ph <= c.np.pi + 1e-9)
        c.check('shortest step', ph >= -c.np.pi - 1e-9)


def group_delay2(c):
    """With repetitions, and frequencies given along the sweep only."""
    M, D = c.mods('hftools.math', 'hftools.dataset')
    n = c.choice('n', [2, 3])
    fd = D.DimSweep("freq", n)
    names = c.choice('dims', [('freq', 'rep'), ('rep', 'freq')])
    f = [c.real('f%d' % k) for k in range(n)]
    for k in range(n - 1):
        c.assume(f[k] < f[k + 1])
    z = [[c.cplx('z%d%d' % (k, r), nonzero=True) for r in range(2)]
         for k in range(n)]
    A = c.np.array(z)
    dims = (fd, D.DimRep("rep", 2))
    if names[0] == 'rep':
        A, dims = A.T, dims[::-1]
    fm, tau = M.delay(D.hfarray(c.np.array(f), dims=(fd,)),
                      D.hfarray(A, dims=dims))
    c.same('dims', [d.name for d in tau.dims], ['freq', 'rep'])
    c.same('shape', tau.shape, (n - 1, 2))
    for k in range(n - 1):
        for r in range(2):
            c.eq('midpoint', el(fm, (k, 0)), (f[k] + f[k + 1]) / 2)
            ph = -el(tau, (k, r)) * 2 * c.np.pi * (f[k + 1] - f[k])
            w = z[k + 1][r] * z[k][r].conjugate()
            m = abs(w)
            c.eq('phase step (real)', m * c.np.cos(ph), w.real)
            c.eq('phase step (imag)', m * c.np.sin(ph), w.imag)
            c.check('shortest step', ph <= c.np.pi + 1e-9)
            c.check('shortest step', ph >= -c.np.pi - 1e-9)


def chop(c):
    M, D = c.mods('hftools.math', 'hftools.dataset')
    kind = c.choice('kind', ['f', 'c'])
    arr = c.choice('array', ['scalar', 'ndarray', 'hfarray'])
    th = c.real('th', pos=True)
    n = 2
    x = [c.real('x%d' % k) if kind == 'f' else c.cplx('x%d' % k)
         for k in range(n)]
    if arr == 'scalar':
        r = [M.chop(v, th) for v in x]
    else:
        A = c.np.array(x)
        if arr == 'hfarray':
            A = _hf(c, D, A)
        R = M.chop(A, th)
        r = [el(R, (k,)) for k in range(n)]
        for k in range(n):
            c.eq('argument untouched', el(A, (k,)), x[k])
    for k in range(n):
        small = c.truth(abs(x[k]) < th)
        c.eq('small values vanish, others stay', r[k], 0 if small else x[k])


HARNESSES = [
    H('polar', polar, '2 points, any magnitude and angle'),
    H('decibel', decibel, 'any value'),
    H('branch', branch, 'any non-zero number, 7 branches'),
    H('unwrap', lambda c: unwrap(c, 2), '2 points, any values'),
    H('unwrap3', lambda c: unwrap(c, 3), '3 points'),
    H('unwrap2', unwrap2, '2 points, 2 repetitions, any values'),
    H('csqrt', lambda c: csqrt(c, 2), '2 points'),
    H('csqrt3', lambda c: csqrt(c, 3), '3 points'),
    H('group_delay', lambda c: group_delay(c, 2), '2 points'),
    H('group_delay3', lambda c: group_delay(c, 3), '3 points'),
    H('group_delay5', lambda c: group_delay(c, 5), '5 points'),
    H('unwrap4', lambda c: unwrap(c, 4), '4 points'),
    H('csqrt4', lambda c: csqrt(c, 4), '4 points'),
    H('group_delay2', group_delay2, '2-3 points, 2 repetitions'),
    H('chop', chop, '2 points'),
]
ASSUMPTIONS = ["angles are compared through their cosine and sine; a "
               "value exactly on the branch may be reported at either end"]
