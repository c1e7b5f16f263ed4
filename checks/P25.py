"""Configuration files: values, units and scope."""
import datetime
import os
import shutil
import tempfile
from fractions import Fraction
from symex.core import approx                       # noqa
from .common import H
from .files import T, I

PREFIX = {'': 0, 'd': -1, 'c': -2, 'm': -3, 'u': -6, 'n': -9, 'p': -12,
          'f': -15, 'a': -18, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15,
          'E': 18}
UNIT = ['', 'Hz', 'V', 'A', 'm', 's', 'W', 'Ohm']


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def name(self, n='a.yaml'):
        return os.path.join(self.d, n)

    def put(self, text, n='a.yaml'):
        with open(self.name(n), 'w', encoding='utf-8') as f:
            f.write(text)
        return self.name(n)


def _ten(c, e):
    return Fraction(10) ** e if c.sym else float(Fraction(10) ** e)


def _read(c, s, text, kind=None):
    C = c.mod('hftools.file_formats.config')
    kind = kind or c.choice('reader', ['Config', 'LexicalConfig'])
    return getattr(C, kind)(s.put(text))


def numbers(c):
    """A number with prefix and unit has its value in the base unit."""
    c.text_values(signs=1)
    x = c.real('x')
    p = c.choice('prefix', sorted(PREFIX) + ['%', 'ppm', 'ppb'])
    gap = c.choice('gap', ['', ' ', '  '])
    if p in ('%', 'ppm', 'ppb'):
        unit = ''
        e = {'%': -2, 'ppm': -6, 'ppb': -9}[p]
    else:
        unit = c.choice('unit', UNIT)
        e = PREFIX[p]
        if (p, unit) == ('', 'm'):
            return              # one m is the prefix
        if p == '' and unit == '':
            gap = ''
    where = c.choice('where', ['top', 'list', 'nested'])
    text = T(x) + gap + p + unit
    text = {'top': 'a: %s\n', 'list': 'a: [%s]\n',
            'nested': 'a:\n  b: %s\n'}[where] % text
    with Scratch() as s:
        v = _read(c, s, text)['a']
    if where == 'list':
        c.same('one value', len(v), 1)
        v = v[0]
    elif where == 'nested':
        v = v['b']
    c.eq('value', v, x * _ten(c, e))
    c.same('unit', getattr(v, 'unit', None) or '', unit)


def sivalue(c):
    """SIValue of a text."""
    C = c.mod('hftools.file_formats.config')
    c.text_values(signs=1)
    x, y = c.real('x'), c.real('y')
    p = c.choice('prefix', sorted(PREFIX))
    unit = c.choice('unit', UNIT)
    if (p, unit) == ('', 'm'):
        return
    a = C.SIValue(T(x) + p + unit)
    d = C.SIValue(y)
    b = C.SIValue(T(y) + ' kV')
    c.eq('value', a, x * _ten(c, PREFIX[p]))
    c.same('unit', a.unit or '', unit)
    c.eq('other value', b, y * 1000)
    c.same('other unit', b.unit, 'V')
    c.eq('number', d, y)
    c.same('unit of a number', d.unit, None)


def intervals(c):
    """Time intervals add up."""
    c.text_values(signs=0)
    parts, total = [], 0
    for n, f in (('day', 86400), ('hour', 3600), ('minute', 60),
                 ('second', 1)):
        k = c.choice(n, [None, n, n + 's'])
        if k is None:
            continue
        x = c.real(n)
        c.assume(x >= 0)
        c.assume(x < 100000)
        if not c.sym:
            x = round(float(x), 3)
        parts.append(('%.6f' % x) + c.choice('gap', [' ', '']) + k)
        total = total + x * f
    if not parts:
        return
    with Scratch() as s:
        v = _read(c, s, 'a: %s\n' % ' '.join(parts))['a']
    c.check('interval', isinstance(v, datetime.timedelta))
    if c.sym:
        c.eq('length', v.total_seconds(), total)
    else:
        c.check('length', abs(v.total_seconds() - total) < 1e-3)


def texts(c):
    """Texts, dates, integers, flags stay what they are."""
    text, want = c.choice('text', [
        ('12:30-13:30', '12:30-13:30'), ('12:30 lunch', '12:30 lunch'),
        ('2014-01-02 12:30 noon', '2014-01-02 12:30 noon'),
        ('5 min', '5 min'), ('5 kg', '5 kg'), ('1.2.3', '1.2.3'),
        ('10 Hz max', '10 Hz max'), ('5% of 3', '5% of 3'),
        ('1 day ago', '1 day ago'), ('day', 'day'), ('Hz', 'Hz'),
        ('k', 'k'), ('"5 Hz"', '5 Hz'), ("'12:30'", '12:30'),
        ('"1 day"', '1 day'), ('"5%"', '5%'), ('5 Hzz', '5 Hzz'),
        ('5 kk', '5 kk'), ('true', True), ('', None), ('""', ''),
        ('2014-01-02', datetime.date(2014, 1, 2)),
        ('2014-01-02 12:30', datetime.datetime(2014, 1, 2, 12, 30)),
        ('2014-01-02 12:30:15', datetime.datetime(2014, 1, 2, 12, 30, 15)),
        ('a: 1', {'a': 1}), ('[]', []), ('[x, y]', ['x', 'y']),
    ])
    with Scratch() as s:
        v = _read(c, s, 'q:\n  %s\n' % text if 'a: ' in text else
                  'q: %s\n' % text)['q']
    c.same('value', v, want)
    c.same('kind', isinstance(v, str), isinstance(want, str))


def integers(c):
    """Integers are integers."""
    c.text_values(signs=1)
    n = c.int('n', -10 ** 6, 10 ** 6)
    with Scratch() as s:
        v = _read(c, s, 'q: %s\n' % I(n))['q']
    c.eq('value', v, n)


def _chain(cfg, path):
    """the mappings from the innermost to the outermost"""
    out, x = [cfg], cfg
    for k in path:
        x = x[k]
        if isinstance(x, dict):
            out.append(x)
    return out[::-1]


SHAPES = [
    # text, path to the innermost mapping; %s: definitions of the level
    ('{0}inner:\n  {1}x: 0\n', ['inner']),
    ('{0}lst:\n- 1\n- {1}x: 0\n', ['lst', 1]),
    ('{0}mid:\n  {1}inner:\n    {2}x: 0\n', ['mid', 'inner']),
    ('{0}mid:\n- {1}inner:\n    {2}x: 0\n', ['mid', 0, 'inner']),
    ('{0}mid:\n  {1}lst:\n  - - {2}x: 0\n', ['mid', 'lst', 0, 0]),
]


def scope(c):
    """A name has the value of the innermost scope that defines it; [],
    get and in agree, also after changes."""
    c.text_values(signs=0)
    text, path = c.choice('shape', SHAPES)
    n = text.count('{')
    vals = [c.real('v%d' % k) for k in range(n)]
    for v in vals:
        c.assume(v > 0)
    has = [c.choice('defined%d' % k, [False, True]) for k in range(n)]
    texts, indents = [], []
    for k in range(n):
        pre = text.split('{%d}' % k)[0].split('\n')[-1]
        indent = ' ' * len(pre)
        texts.append('key: %s\n%s' % (T(vals[k]), indent) if has[k] else '')
    with Scratch() as s:
        cfg = _read(c, s, text.format(*texts), 'LexicalConfig')
    scopes = _chain(cfg, path)
    c.same('scopes', len(scopes), n)
    want = [vals[k] if has[k] else None for k in range(n)]    # outer first
    for step in range(3 if c.tier == 'thorough' else 2):
        op = c.choice('op%d' % step, ['none', 'set', 'delete', 'new'])
        if op == 'none':
            break
        k = c.choice('level%d' % step, list(range(n)))
        sc = scopes[n - 1 - k]
        if op == 'set':
            w = c.real('w%d' % step)
            sc['key'] = w
            want[k] = w
        elif op == 'new':
            sc.update({'unrelated': 1})
        else:
            if want[k] is None:
                break
            del sc['key']
            want[k] = None
    for q in range(n):
        sc = scopes[n - 1 - q]
        found = [v for v in want[:q + 1] if v is not None]
        c.same('in', 'key' in sc, bool(found))
        if found:
            c.eq('[]', sc['key'], found[-1])
            c.eq('get', sc.get('key'), found[-1])
        else:
            c.raises('[]', KeyError, sc.__getitem__, 'key')
            c.same('get', sc.get('key', 'no'), 'no')
            c.same('get', sc.get('key'), None)
        c.check('others', 'nothing' not in sc)
    std = scopes[0].convert_to_standard()
    c.same('own names', 'key' in std, want[-1] is not None)
    c.same('plain', type(std), dict)


def empty(c):
    """A name that stands for nothing, zero, no or an empty text hides the
    outer name as any other does."""
    c.text_values(signs=0)
    text, path = c.choice('shape', SHAPES)
    v = c.real('v')
    c.assume(v > 0)
    t, want = c.choice('value', [('null', None), ('0', 0), ('false', False),
                                 ("''", ''), ('[]', []), ('0 Hz', 0)])
    n = text.count('{')
    inner = c.choice('level', list(range(1, n)))
    texts = []
    for k in range(n):
        pre = text.split('{%d}' % k)[0].split('\n')[-1]
        d = T(v) if k == 0 else t if k == inner else None
        texts.append('' if d is None else 'key: %s\n%s' % (d, ' ' * len(pre)))
    with Scratch() as s:
        cfg = _read(c, s, text.format(*texts), 'LexicalConfig')
    scopes = _chain(cfg, path)
    for q in range(n):
        sc = scopes[n - 1 - q]
        c.check('in', 'key' in sc)
        for r in (sc['key'], sc.get('key', 'no')):
            if q < inner:
                c.eq('outer', r, v)
            else:
                c.check('inner', r == want and
                        isinstance(r, str) == isinstance(want, str) and
                        (r is None) == (want is None))
    if c.choice('set', [False, True]):
        scopes[n - 1 - inner]['key'] = None
        c.check('set', scopes[n - 1 - inner]['key'] is None)
        c.check('set', scopes[0]['key'] is None)


def merged(c):
    """Of merged dictionaries the last one that has the name counts."""
    C = c.mod('hftools.file_formats.config')
    n = c.choice('number', [1, 2, 3])
    vals = [c.real('v%d' % k) for k in range(n)]
    has = [c.choice('defined%d' % k, [False, True]) for k in range(n)]
    par = c.choice('parent', [False, True])
    # a name may stand for nothing, zero or an empty text
    if any(has):
        last = n - 1 - has[::-1].index(True)
        what = c.choice('value', ['number', 'none', 'zero', 'no', 'text',
                                  'list'])
        if what != 'number':
            vals[last] = dict(none=None, zero=0, no=False, text=u'',
                              list=[])[what]
    m = C.MergedDicts(*[dict(key=v, other=1) if h else {'more%d' % k: 2}
                        for k, (v, h) in enumerate(zip(vals, has))])
    if par:
        pv = c.real('p')
        m.parent = C.LexicalScopeDict({'key': pv})
    found = ([pv] if par else []) + [v for v, h in zip(vals, has) if h]
    if c.choice('copy', [False, True]):
        q = m.copy()
        q.parent = m.parent
        m = q
    c.same('in', bool('key' in m), bool(found))
    if found:
        if any(has) and what != 'number':
            c.check('[]', m['key'] is found[-1])
        else:
            c.eq('[]', m['key'], found[-1])
    else:
        c.raises('[]', KeyError, m.__getitem__, 'key')
    c.same('names', sorted(m.keys()), sorted(set(
        (['key', 'other'] if any(has) else []) +
        ['more%d' % k for k in range(n) if not has[k]])))


def roundtrip(c):
    """What is written is read back the same."""
    C = c.mod('hftools.file_formats.config')
    c.text_values(signs=1, plain=True)
    kind = c.choice('kind', ['Config', 'LexicalConfig'])
    where = c.choice('where', ['top', 'list', 'nested'])
    what = c.choice('what', ['float', 'int', 'unit', 'no unit', 'interval',
                             'date', 'text', 'path', 'list', 'mapping'])
    same = None
    if what == 'float':
        v = c.real('x')
    elif what == 'int':
        v = c.int('n', -10 ** 6, 10 ** 6)
    elif what == 'unit':
        x = c.real('x')
        u = c.choice('unit', UNIT[1:])
        v = C.SIValue(T(x) + ('m' if u == 'm' else '') + u)
        x = x / 1000 if u == 'm' else x
    elif what == 'no unit':
        x = c.real('x')
        v = C.SIValue(T(x))
    elif what == 'interval':
        d = []
        for n, lim in (('days', 50), ('hours', 24), ('minutes', 60)):
            d.append(c.choice(n, [0, 1, lim - 1]))
        x = c.real('x')
        z = c.choice('seconds', ['none', 'some'])
        if z == 'none':
            x = 0
        else:
            c.assume(x > 0)
            c.assume(x < 60)
            if not c.sym:
                x = max(round(float(x), 6), 1e-6)
        x = d[0] * 86400 + d[1] * 3600 + d[2] * 60 + x
        if c.sym and z == 'some':
            from symex.loader import SymDelta
            v = SymDelta(seconds=x)
        else:
            v = datetime.timedelta(seconds=x)
    elif what == 'date':
        v = same = c.choice('date', [
            datetime.datetime(2014, 1, 2, 3, 4, 5),
            datetime.datetime(2014, 12, 31, 0, 0, 0),
            datetime.datetime(1999, 2, 3, 23, 59, 59, 250000),
            datetime.date(2014, 2, 3)])
    elif what == 'text':
        v = same = c.choice('text', [
            'abc', '', '5 Hz', '12:30', '12:30:15', '1 day', '5%', '5', '1.5',
            'true', '2014-01-02', '2014-01-02 12:30', '1e3', '5 k',
            u'\xe5\xe4\xf6', 'a: b', '- x', ' x ', 'two\nlines'])
    elif what == 'path':
        P = c.mod('hftools')
        v = P.path('folder/file.txt')
        same = 'folder/file.txt'
    elif what == 'list':
        same = ['x', 1, ['y']]
        v = C.LexicalScopeList(['x', 1, C.LexicalScopeList(['y'])]) \
            if c.choice('lexical', [False, True]) else ['x', 1, ['y']]
    else:
        same = {'x': 1, 'z': {'w': 'q'}}
        v = C.LexicalScopeDict([('x', 1), ('z', C.LexicalScopeDict(w='q'))]) \
            if c.choice('lexical', [False, True]) else dict(same)
    with Scratch() as s:
        cfg = getattr(C, kind)(s.put('first: 1\n'))
        cfg['a'] = v if where == 'top' else [v] if where == 'list' else \
            {'b': v}
        if c.choice('own name', [True, False]):
            cfg.write()
            f = s.name()
        else:
            f = s.name('b.yaml')
            cfg.write(f)
        new = getattr(C, kind)(f)
    c.same('names', sorted(new.keys()), ['a', 'first'])
    c.same('others', new['first'], 1)
    r = new['a']
    if where == 'list':
        c.same('one value', len(r), 1)
        r = r[0]
    elif where == 'nested':
        c.same('one value', list(r.keys()), ['b'])
        r = r['b']
    if same is not None:
        c.same('value', r, same)
        c.same('kind', isinstance(r, str), isinstance(same, str))
    elif what == 'interval':
        c.check('interval', isinstance(r, datetime.timedelta))
        if c.sym:
            c.eq('length', r.total_seconds(), x)
        else:
            c.check('length', abs(r.total_seconds() - float(x)) < 1e-5)
    elif what in ('unit', 'no unit'):
        c.eq('value', r, x)
        c.same('unit', getattr(r, 'unit', None), v.unit)
    else:
        c.eq('value', r, v)


def reload(c):
    """Reading again gives the state of the file; a file without content is
    an empty configuration."""
    C = c.mod('hftools.file_formats.config')
    c.text_values(signs=0)
    kind = c.choice('kind', ['Config', 'LexicalConfig'])
    x, y = c.real('x'), c.real('y')
    c.assume(x > 0)
    c.assume(y > 0)
    with Scratch() as s:
        empty = c.choice('first', ['empty', 'comment', 'values'])
        f = s.put({'empty': '', 'comment': '# nothing\n',
                   'values': 'a: %s\nb: 2\n' % T(x)}[empty])
        cfg = getattr(C, kind)(f)
        c.same('names', sorted(cfg.keys()),
               ['a', 'b'] if empty == 'values' else [])
        cfg['c'] = 5
        s.put('a: %s\nin: {d: 1}\n' % T(y))
        cfg.reload_settings()
        c.same('names', sorted(cfg.keys()), ['a', 'in'])
        c.eq('value', cfg['a'], y)
        if kind == 'LexicalConfig':
            c.eq('inner', cfg['in']['a'], y)
            z = c.real('z')
            cfg['a'] = z
            c.eq('inner after change', cfg['in']['a'], z)


HARNESSES = [
    H('numbers', numbers, 'every prefix and unit', max_paths=6000),
    H('sivalue', sivalue, 'every prefix and unit'),
    H('intervals', intervals, 'days, hours, minutes, seconds below 100000',
      max_paths=3000),
    H('texts', texts, 'the texts listed'),
    H('integers', integers, 'any integer'),
    H('scope', scope, '2-3 levels of mappings and lists, 2 changes '
      '(thorough: 3)', max_paths=12000),
    H('empty', empty, '6 values'),
    H('merged', merged, 'up to 3 dictionaries'),
    H('roundtrip', roundtrip, 'one value at the top, in a list or nested',
      max_paths=4000),
    H('reload', reload, 'a file, a change, another file'),
]
ASSUMPTIONS = ['a number written to text is read back unchanged']
