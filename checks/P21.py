"""Comments and properties."""
from fractions import Fraction
from .common import H, el
from .files import T, I

MODS = {'file_formats': 'hftools.file_formats.common',
        'dataset': 'hftools.dataset.comments'}
KEYS = ['Vg', 'Start_Frequency', 'Description of DUT', 'MV_8_104_GT1',
        'RF Power 1', 'a-b/c']
UNITS = [(None, 0, None), ('V', 0, 'V'), ('mA', -3, 'A'), ('GHz', 9, 'Hz'),
         ('dBm', 0, 'dBm'), ('%', -2, None), ('#', 0, None),
         ('C', 0, 'C')]
FORMS = ["%(key)s%(eq)s%(num)s%(u)s", "!%(key)s %(eq)s %(num)s%(u)s",
         "  %(key)s\t%(eq)s   %(num)s%(u)s  ",
         "! %(key)s%(eq)s %(num)s%(u)s"]


def _mod(c):
    return c.mod(MODS[c.choice('module', sorted(MODS))])


def _number(c, x, how):
    if how == '%d':
        return I(x)
    return T(x)


def value(c):
    """key: number with its unit, in all the ways to write them"""
    M = _mod(c)
    c.text_values()
    key = c.choice('key', KEYS)
    u, k, base = c.choice('unit', UNITS)
    where = c.choice('where', ['key', 'value'])
    how = c.choice('number', ['%e', '%d'])
    form = c.choice('form', FORMS)
    eq = c.choice('eq', [':', '='])
    x = c.int('x', -9999, 9999) if how == '%d' else c.real('x')
    t = _number(c, x, how)
    if where == 'key':
        if u is not None:
            name = key + c.choice('space', ['', '  ']) + "[%s]" % u
        else:
            name = key
        line = form % dict(key=name, eq=eq, num=t, u='')
    else:
        if u is None or u == '#':
            return
        line = form % dict(key=key, eq=eq, num=t, u=' ' + u)
    C = M.Comments([line])
    c.same('keys', list(C.property), [key])
    v = C.property[key]
    c.same('unit', v.unit, base)
    c.same('scalar', v.shape, ())
    c.eq('value', el(v, ()), x * (float(Fraction(10) ** k) if not c.sym
                                  else Fraction(10) ** k))
    c.same('comment is kept', [z.lstrip("!").strip()
                               for z in C.fullcomments],
           [line.lstrip("!").strip()])


def words(c):
    """Values that are not numbers stay what they are."""
    M = _mod(c)
    key = c.choice('key', KEYS)
    unit = c.choice('unit', ['', ' [1=ON]', '  [ ]', '[V]', '[dB/GHz]'])
    t = c.choice('text', ['N/A', 'done!', 'Agilent E8361A', 'No Cal - Raw Data',
                          '"HP8510C raw waves"', 'x = 3', 'a: b: c', '-',
                          'Cable at Port 1', '%', 'LIN',
                          '2006-05-08 09:27:02', '2010-04-20'])
    eq = c.choice('eq', [': ', ' = ', ':', '  :   '])
    C = M.Comments(["!  " + key + unit + eq + t])
    c.same('keys', list(C.property), [key])
    c.same('text', str(C.property[key]).replace('T', ' ')
           if t[:2] == '20' else C.property[key], t)


def none(c):
    """Lines without a value give no property; they are kept."""
    M = _mod(c)
    t = c.choice('text', ['just text', 'Measurement Setups', 'Project:',
                          'Customer=', '12', 'a [V] 3', '! !'])
    C = M.Comments([t])
    c.same('no property', dict(C.property), {})
    if t != '! !':
        c.same('kept', C.fullcomments, [t])


def history(c):
    """The last value of a key counts; extending adds, copies are
    independent."""
    M = _mod(c)
    c.text_values(signs=0)
    n = c.choice('n', [2, 3])
    keys = [c.choice('key%d' % q, ['a', 'b', 'ab']) for q in range(n)]
    how = [c.choice('how%d' % q, ['comment', 'extend', 'copy', 'kw'])
           for q in range(n)]
    C = M.Comments()
    want, lines = {}, []
    kept = []
    for q in range(n):
        x = c.real('x%d' % q, nonneg=True)
        line = "%s = %s" % (keys[q], T(x))
        if how[q] == 'comment':
            C.add_from_comment(line)
        elif how[q] == 'extend':
            C.extend(M.Comments([line]))
            lines.append(line)
        elif how[q] == 'copy':
            kept.append((C, dict(want), list(C.fullcomments), list(lines)))
            C = C.copy()
            C.extend(M.Comments([line]))
            lines.append(line)
        else:
            C.extend(M.Comments(**{str(keys[q]): x}))
        want[keys[q]] = x
    kept.append((C, want, list(C.fullcomments), list(lines)))
    for C, w, full, ln in kept:
        c.same('comments as they were', C.fullcomments, full)
        c.same('keys', set(C.property), set(w))
        for k in w:
            c.eq('last value', C.property[k] if not hasattr(
                C.property[k], 'dims') else el(C.property[k], ()), w[k])
        got = [z for z in C.fullcomments if z in ln]
        c.same('comments in order', got, ln)


def variables(c):
    """Numeric properties become variables of the dataset unless there is a
    variable of that name; units are guessed only where unknown."""
    D = c.mod('hftools.dataset')
    M = _mod(c)
    c.text_values()
    u = c.choice('unit', [None, 'mV'])
    key = c.choice('key', ['Vgs', 'Temp'])
    taken = c.choice('taken', ['no', 'variable', 'sweep'])
    x = c.real('x')
    y = [c.real('y0'), c.real('y1')]
    db = D.DataBlock()
    freq = D.DimSweep('freq', c.np.array([1., 2.]))
    if taken == 'variable':
        db[key] = D.hfarray(c.np.array(y), dims=(freq,))
    elif taken == 'sweep':
        db[key] = D.DimSweep(key, c.np.array(y))
    else:
        db.other = D.hfarray(c.np.array(y), dims=(freq,))
    db.comments = M.Comments(["%s = %s%s" % (key, T(x),
                                             ' ' + u if u else '')])
    db.values_from_property()
    db.guess_units()
    guess = 'V' if key == 'Vgs' else None
    mul = Fraction(1, 1000) if u else 1
    if not c.sym:
        mul = float(mul)
    if taken == 'no':
        c.eq('value', el(db[key], ()), x * mul)
        c.same('unit', db[key].unit, 'V' if u else guess)
        c.same('unit of sweep', db.ivardata['freq'].unit, 'Hz')
    else:
        for k in range(2):
            c.eq('variable is kept', el(D.hfarray(db[key]), (k,)), y[k])
        c.same('unit', db[key].unit, guess)
    p = db.comments.property[key]
    c.eq('property is kept', el(p, ()), x * mul)
    c.same('unit of property', p.unit, 'V' if u else guess)


HARNESSES = [H('value', value, '1 comment'), H('words', words, 'fixed texts'),
             H('none', none, 'fixed texts'),
             H('history', history, 'histories of 3'),
             H('variables', variables, '1 comment')]
ASSUMPTIONS = ['a number written to text is read back unchanged']
