"""Numbers with units and SI prefixes."""
from fractions import Fraction
from .common import H, el
from .files import T, I

PREFIX = [('', 0), ('d', -1), ('c', -2), ('m', -3), ('u', -6), ('n', -9),
          ('p', -12), ('f', -15), ('a', -18), ('z', -21), ('y', -24),
          ('k', 3), ('M', 6), ('G', 9), ('T', 12), ('P', 15), ('E', 18),
          ('Z', 21), ('Y', 24)]
BASE = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]
OTHER = ['dB', 'dBm', 'C', 'K', 'deg', 'mHg', 'GOhms', 'xHz', 'pHd', 'Pa',
         'kg', 'HZ', 'mXYZ', 'min']


def _ten(k):
    return Fraction(10) ** k


def _is(c, label, got, x, k):
    """got == x * 10**k, relative to the size of the number"""
    c.eq(label, got * float(_ten(-k)) if not c.sym else got * _ten(-k), x)


def _unit(c):
    """(text, exponent, base unit)"""
    p = c.choice('prefix', list(range(len(PREFIX) + 2)))
    if p < len(PREFIX):
        u = c.choice('unit', BASE)
        return PREFIX[p][0] + u, PREFIX[p][1], u
    if p == len(PREFIX):
        u = c.choice('unit', OTHER)
        return u, 0, u
    u = c.choice('unit', ['%', '#', None])
    return u, (-2 if u == '%' else 0), None


def multiplier(c):
    S = c.mod('hftools.constants.si_units')
    u, k, base = _unit(c)
    if u is None:
        return
    pad = c.choice('pad', ['%s', ' %s', '%s\t ', '  %s '])
    mul, unit = S.unit_to_multiplier(pad % u)
    c.same('unit', unit, base)
    _is(c, 'multiplier', c.np.float64(mul), 1, k)
    x = c.real('x')
    r = S.convert_with_unit(pad % u, x)
    c.same('unit', r.unit, base)
    _is(c, 'value', el(r, ()), x, k)


def parse(c):
    """Text with a number and a unit."""
    S = c.mod('hftools.constants.si_units')
    c.text_values()
    u, k, base = _unit(c)
    if u == '#':
        return
    how = c.choice('number', ['%e', '%f', '%d', '%g', '+'])
    if how == '%d':
        x = c.int('x', -10 ** 6, 10 ** 6)
        t = I(x)
    else:
        x = c.real('x')
        t = ('%.16e' if how == '%e' else '%.6f' if how == '%f' else
             '%r') % (float(x) if c.sym or how != '%f' else
                      round(float(x), 6))
        if how == '+':
            c.assume(x > 0)
            t = '+' + t
        if how == '%f' and not c.sym:
            x = round(float(x), 6)
    sep = c.choice('sep', [' ', '', '\t ', ' ['])
    if u is None:
        s = t if sep != ' ' else t + ' '
    elif sep == ' [':
        s = t + ' [' + u + ']'
    else:
        s = t + sep + u
    r = S.string_number_with_unit_to_value(s)
    c.same('unit', r.unit, base)
    _is(c, 'value', el(r, ()), x, k)


def words(c):
    """Text that does not start with a number is not taken for one."""
    S, U = c.mods('hftools.constants.si_units', 'hftools.utils')
    t = c.choice('text', ['abc', '', 'V', '-', '+', '.', '1.2.3', '--3',
                          '2010-04-20', '2010-04-20 11:12', 'e5', '% 3',
                          'x 3', '1-2', '+-1', '[V]'])
    c.raises('not a number', ValueError,
             S.string_number_with_unit_to_value, t)


def _decade(c):
    e = c.choice('decade', list(range(-25, 28)) if c.tier == 'thorough'
                 else [-25, -24, -23, -22, -21, -18, -17, -15, -10, -7, -6,
                       -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 12, 16, 18, 20,
                       21, 22, 23, 24, 25, 26, 27])
    neg = c.choice('negative', [False, True])
    x = c.real('x')
    y = -x if neg else x
    if not c.sym:
        # keep clear of the borders, where log10 rounds
        y = float(y)
        c.assume(float(_ten(e)) * (1 + 1e-9) < y)
        c.assume(y < float(_ten(e + 1)) * (1 - 1e-9))
    else:
        c.assume(y >= _ten(e))
        c.assume(y < _ten(e + 1))
    return e, x


def show(c):
    """A number is shown as a number between 1 and 1000 with the prefix that
    makes it the same number."""
    S = c.mod('hftools.constants.si_units')
    c.text_values(signs=0)
    e, x = _decade(c)
    unit = c.choice('unit', ['Hz', None])
    greek = c.choice('greek', [False, True])
    how = c.choice('how', ['format_number', 'SIFormat'])
    digs = c.choice('digs', [0, 3, 9, None])
    rnd = 1e-9 if digs is None else 10. ** -digs
    fmt = c.choice('fmt', ["%(num)s %(unit)s", "%(unit)s=%(num)s"])
    if digs == 9 and unit and not greek and '=' not in fmt and \
            c.choice('part', ['whole', 'edge']) == 'edge':
        # just below the next decade
        c.assume(abs(x) >= Fraction(9995, 1000) * _ten(e) if c.sym else
                 abs(float(x)) >= 9.995 * float(_ten(e)))
    if how == 'SIFormat':
        t = S.SIFormat(fmt=fmt, unit=unit, digs=digs, greek=greek) % x
    else:
        t = S.format_number(x, fmt=fmt, unit=unit or '', digs=digs,
                            greek=greek)
    if '=' in fmt:
        u, _, num = t.partition("=")
    else:
        num, _, u = t.partition(" ")
    num = c.number(num)
    p = e // 3 * 3
    if -24 <= p <= 24:
        want = dict((b, a) for a, b in PREFIX)[p]
        if greek and p == -6:
            want = u'\u03bc'
        c.same('prefix', u, want + (unit or ''))
        if not c.sym:
            c.check('number', abs(num * float(_ten(p)) - float(x)) <=
                    rnd * float(_ten(p)) + 1e-12 * abs(float(x)))
            c.check('size', 1 - rnd <= abs(num) <= 1000)
        else:
            c.eq('number', num * _ten(p), x)
            c.check('size', (abs(num) >= 1) & (abs(num) < 1000))
    else:
        p2 = [b for a, b in PREFIX if a + (unit or '') == u and b % 3 == 0]
        c.check('some prefix', len(p2) == 1)
        c.same('the outermost prefix', p2[0], 24 if p > 0 else -24)
        if not c.sym:
            c.check('number', abs(num * float(_ten(p2[0])) - float(x)) <=
                    rnd * float(_ten(p2[0])) + 1e-12 * abs(float(x)))
        else:
            c.eq('number', num * _ten(p2[0]), x)


def back(c):
    """Shown and read again, a number is the same."""
    S = c.mod('hftools.constants.si_units')
    c.text_values(signs=0)
    e, x = _decade(c)
    unit = c.choice('unit', ['Hz', 'Ohm', 'W'])
    t = S.format_number(x, unit=unit, digs=9)
    r = S.string_number_with_unit_to_value(t)
    c.same('unit', r.unit, unit)
    got = el(r, ())
    if not c.sym:
        p = max(min(e // 3 * 3, 24), -24)
        c.check('value', abs(float(got.real) - float(x)) <=
                1e-9 * float(_ten(p)) + 1e-12 * abs(float(x)))
    else:
        c.eq('value', got, x)


def special(c):
    S = c.mod('hftools.constants.si_units')
    unit = c.choice('unit', ['Hz', ''])
    digs = c.choice('digs', [0, 3, None])
    zero = S.format_number(0., unit=unit, digs=digs)
    c.same('zero', float(zero.partition(" ")[0]), 0.)
    c.same('zero', zero.partition(" ")[2], unit)
    c.same('infinite', S.format_number(float('inf'), unit=unit, digs=digs),
           'inf ' + unit)
    c.same('infinite', S.format_number(-float('inf'), unit=unit, digs=digs),
           '-inf ' + unit)
    c.same('not a number', S.format_number(float('nan'), unit=unit,
                                           digs=digs).split(),
           ['nan'] + ([unit] if unit else []))


HARNESSES = [H('multiplier', multiplier, 'all prefixes and units'),
             H('parse', parse, 'all prefixes and units'),
             H('words', words, 'fixed texts'),
             H('show', show, 'numbers from 1e-25 to 1e28'),
             H('back', back, 'numbers from 1e-25 to 1e28'),
             H('special', special, '0, inf, nan')]
ASSUMPTIONS = ['a number written to text is read back unchanged']
