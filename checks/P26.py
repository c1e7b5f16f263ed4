"""Passivity: what is made passive has its largest eigenvalue or singular
value below one, and is only scaled or clipped."""
from fractions import Fraction
from .common import H, el, ndindex


def _know(c, m, **what):
    if c.sym:
        from symex.symnp import know_matrix
        know_matrix(m, **what)


def _stack(c, nd):
    """dimensions before the matrix"""
    D = c.mod('hftools.dataset')
    return (D.DimSweep('freq', [1., 2.], unit='Hz'),
            D.DimRep('rep', [0, 1]))[:nd]


def _array(c, ms, nd, n):
    D = c.mod('hftools.dataset')
    sh = (2,) * nd
    a = c.np.array([[[m[i][j] for j in range(n)] for i in range(n)]
                    for m in ms]).reshape(sh + (n, n))
    r = list(range(n))
    return D.hfarray(a, dims=_stack(c, nd) + (D.DimMatrix_i('i', r),
                                              D.DimMatrix_j('j', r)))


def _mul(a, b):
    n = len(a)
    return [[sum((a[i][k] * b[k][j] for k in range(1, n)), a[i][0] * b[0][j])
             for j in range(n)] for i in range(n)]


def _eig_matrix(c, tag, n):
    """A matrix with known eigenvalues: similar to a triangular one."""
    lam = [c.cplx('l%s%d' % (tag, k)) for k in range(n)]
    m = [[lam[i] if i == j else
          c.cplx('u%s%d%d' % (tag, i, j)) if j > i else lam[0] * 0
          for j in range(n)] for i in range(n)]
    how = c.choice('form' + tag, ['upper', 'lower', 'mixed'])
    if how == 'lower':
        m = [[m[j][i] for j in range(n)] for i in range(n)]
    elif how == 'mixed' and n == 2:
        # similarity with [[1, 0], [t, 1]]
        t = c.choice('t' + tag, [1, -2])
        m = _mul(_mul([[1, 0], [t, 1]], m), [[1, 0], [-t, 1]])
    return m, lam


def _abs2(z):
    return z.real * z.real + z.imag * z.imag


def eigenvalues(c):
    """The matrices whose largest eigenvalue is above one are scaled to
    1 - delta, the others are left alone."""
    M = c.mod('hftools.networks.spar_functions')
    nd = c.choice('ndim', [0, 1, 2])
    n = c.choice('size', [1, 2] if nd else [1, 2, 3])
    delta = c.choice('delta', [None, Fraction(1, 8)])
    ms, lams = [], []
    for k in range(2 ** nd):
        if k >= 2:
            # the rest are given
            x = [complex(.5, .25), complex(0, 2)][k % 2]
            m = [[x if i == j else x * 0 for j in range(n)]
                 for i in range(n)]
            lam = [x] * n
        else:
            m, lam = _eig_matrix(c, 'ab'[k], n) if k == 0 or nd == 1 and \
                n == 1 else ([[complex(1.5 * (i == j)) for j in range(n)]
                              for i in range(n)], [complex(1.5)] * n)
        ms.append(m)
        lams.append(lam)
    S = _array(c, ms, nd, n)
    for m, lam in zip(ms, lams):
        _know(c, c.np.array(m), eig=c.np.array(lam))
    d = 1e-6 if delta is None else float(delta)
    big = M.check_passive(S)
    out = M.make_passive_eig(S) if delta is None else \
        M.make_passive_eig(S, d)
    c.same('dimensions', out.dims, S.dims)
    c.same('dimensions', tuple(big.dims), _stack(c, nd))
    for k, i in enumerate(ndindex((2,) * nd)):
        m, lam = ms[k], lams[k]
        b = el(big, i)
        for x in lam:
            c.check('no eigenvalue is larger',
                    _abs2(x) <= b * b + (0 if c.sym else 1e-9))
        if c.sym:
            hit = False
            for x in lam:
                hit = hit | (b * b == _abs2(x))
        else:
            hit = any(abs(b * b - _abs2(x)) < 1e-6 * (1 + b * b)
                      for x in lam)
        c.check('one eigenvalue is as large', hit)
        c.check('not negative', b >= 0)
        active = c.truth(b > 1)
        for p in range(n):
            for q in range(n):
                got = el(out, i + (p, q))
                if active:
                    c.eq('scaled', got * b, m[p][q] * (1 - d))
                else:
                    c.eq('unchanged', got, m[p][q])


def _unitary(c, tag, kind):
    """2x2 rotation with phases (rational points of the circle)."""
    def unit(name):
        t = c.real(name)
        if not c.sym:
            t = float(t)
        w = 1 + t * t
        return (1 - t * t) / w, 2 * t / w
    C, S = unit('t' + tag)
    m = [[C + 0j * C, -S + 0j * C], [S + 0j * C, C + 0j * C]]
    if kind == 'complex':
        a, b = unit('p' + tag)
        e = a + 1j * b
        m = [[m[0][0] * e, m[0][1] * e], m[1]]
    return m


def singular(c):
    """Singular values above 1 - delta are set to 1 - delta, the rest of
    the matrix is kept."""
    M = c.mod('hftools.networks.spar_functions')
    nd = c.choice('ndim', [0, 1, 2])
    delta = c.choice('delta', [None, Fraction(1, 8)])
    kind = c.choice('kind', ['real', 'complex'])
    if c.tier == 'quick' and kind == 'complex' and (nd or delta):
        return
    ms, facts = [], []
    for k in range(2 ** nd):
        if k == nd % 2:
            u = _unitary(c, 'u', kind)
            v = _unitary(c, 'v', 'real')
            s = [c.real('s0'), c.real('s1')]
            c.assume(s[1] >= (0 if c.sym else 1e-2))
            c.assume(s[0] > (s[1] if c.sym else s[1] + 1e-2))
            c.assume(s[0] < 100)
        else:
            u = [[complex(0), complex(1)], [complex(1), complex(0)]]
            v = [[complex(1), complex(0)], [complex(0), complex(1)]]
            s = [2., .5] if k % 2 else [.75, .25]
        m = _mul([[u[i][j] * s[j] for j in range(2)] for i in range(2)], v)
        ms.append(m)
        facts.append((u, s, v))
        _know(c, c.np.array(m), svd=(c.np.array(u), c.np.array(s),
                                     c.np.array(v)))
    S = _array(c, ms, nd, 2)
    d = 1e-6 if delta is None else float(delta)
    out = M.make_passive_svd(S) if delta is None else \
        M.make_passive_svd(S, d)
    c.same('dimensions', out.dims, S.dims)
    for k, i in enumerate(ndindex((2,) * nd)):
        u, s, v = facts[k]
        w = []
        for x in s:
            w.append(1 - d if c.truth(x > 1 - d) else x)
        m = _mul([[u[p][q] * w[q] for q in range(2)] for p in range(2)], v)
        for p in range(2):
            for q in range(2):
                c.eq('clipped', el(out, i + (p, q)), m[p][q])


HARNESSES = [
    H('eigenvalues', eigenvalues, '1x1 to 3x3 triangular matrices and '
      'similar 2x2 ones, 0-2 further dimensions of 2 points'),
    H('singular', singular, '2x2 matrices U diag(s) V with rotations (and '
      'phases), 0-2 further dimensions of 2 points'),
]
ASSUMPTIONS = ['numpy.linalg.eigvals and svd return eigenvalues and a '
               'singular value decomposition; the checked matrices are '
               'built from theirs']
