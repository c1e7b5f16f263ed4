"""Loads a second copy of the hftools sources, read from /repo at run time,
whose numpy/builtins are replaced by symbolic stand-ins."""
import ast
import builtins
import datetime
import importlib.util
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from .core import SymNum, SymBool, Unsupported, lift, eng, pi_num, \
    tag_int, untag_int
from .symnp import MODULES, NP, SymNdarray, base, is_lifted, asarr
from . import symstr
from .fakeh5 import H5PY
from . import fakempl
from .symstr import SymStr

REPO = os.environ.get("HFTOOLS_REPO", "/repo")

_real_import = builtins.__import__


# ------------------------------------------------------ builtins stand-ins

def sx_isinstance(fn, x, cls):
    if fn is not builtins.isinstance:
        return fn(x, cls)
    if isinstance(x, (SymNum, SymBool, SymStr)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, tuple):
                if sx_isinstance(fn, x, c):
                    return True
                continue
            if isinstance(x, SymStr):
                if c in (str, SymStr, object):
                    return True
                continue
            if isinstance(x, SymBool):
                if c in (bool, int, np.bool_, np.generic, object, SymBool):
                    return True
                continue
            k = x.kind
            if c in (object, SymNum):
                return True
            if c is int and k == 'i':
                return True
            if c is float and k == 'f':
                return True
            if c is complex and k == 'c':
                return True
            if isinstance(c, type) and issubclass(c, np.generic):
                t = {'i': np.int64, 'f': np.float64,
                     'c': np.complex128}[k]
                if issubclass(t, c):
                    return True
            if isinstance(c, type) and c.__module__ == 'numbers':
                if issubclass({'i': int, 'f': float, 'c': complex}[k], c):
                    return True
        return False
    if isinstance(x, np.ndarray) and cls is np.ndarray:
        return True
    return builtins.isinstance(x, cls)


def sx_float(fn, *a, **k):
    if fn is builtins.float and len(a) == 1:
        x = a[0]
        if isinstance(x, SymStr):
            return x.to_float()
        if isinstance(x, SymNum):
            if x.kind == 'c':
                raise TypeError("can't convert complex to float")
            return x.cast('f')
        if isinstance(x, SymBool):
            return x._num().cast('f')
        if isinstance(x, np.ndarray) and is_lifted(x):
            if x.size != 1:
                raise TypeError("only size-1 arrays can be converted to "
                                "Python scalars")
            return sx_float(fn, base(x).reshape(-1)[0])
        if isinstance(x, str):
            v = float(x)
            e = eng()
            if e.tags and (v in e.tags or -v in e.tags):
                return lift(v)
            if e.itags and v == v and abs(v) in e.itags:
                return untag_int(int(v)).cast('f')
            return v
    return fn(*a, **k)


def sx_int(fn, *a, **k):
    if fn is builtins.int and len(a) >= 1:
        x = a[0]
        if isinstance(x, SymStr):
            return x.to_int()
        if isinstance(x, SymNum):
            if x.kind == 'c':
                raise TypeError("can't convert complex to int")
            return x.trunc() if x.kind != 'i' else x
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, np.ndarray) and is_lifted(x) and x.size == 1:
            return sx_int(fn, base(x).reshape(-1)[0])
        if isinstance(x, str) and len(a) == 1:
            v = int(x)
            e = eng()
            if e.itags and abs(v) in e.itags:
                return untag_int(v)
            return v
    return fn(*a, **k)


class InfComplex(complex):
    """A complex number with an infinite part; its magnitude is infinite,
    whatever the other part is, and nothing is computed with it."""

    def __new__(cls, *parts):
        self = complex.__new__(cls, *[
            x if isinstance(x, float) and math.isinf(x) else 1. for x in parts])
        self.parts = parts
        return self

    real = property(lambda self: self.parts[0])
    imag = property(lambda self: self.parts[1])

    def _no(self, *a):
        raise Unsupported("arithmetic with an infinite number")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _no
    conjugate = _no


def sx_complex(fn, *a, **k):
    if fn is builtins.complex and a and any(
            isinstance(x, (SymNum, str)) for x in a):
        if len(a) == 1 and isinstance(a[0], str):
            return fn(*a)
        if len(a) == 2 and any(isinstance(x, float) and math.isinf(x)
                               for x in a):
            return InfComplex(*a)
        re = lift(a[0]).cast('c')
        if len(a) > 1:
            re = re + lift(a[1]) * SymNum('c', lift(0).re, lift(1).re)
        return re
    return fn(*a, **k)


def sx_str(fn, *a, **k):
    if fn is builtins.str and len(a) == 1 and isinstance(a[0], SymStr):
        return a[0]
    if fn is builtins.str and len(a) == 1 and isinstance(a[0], SymNum) and \
            eng().allow_tags:
        return fn(_int_text(a[0]))
    return fn(*a, **k)


def sx_len(fn, *a):
    if fn is builtins.len and isinstance(a[0], SymStr):
        return len(a[0].c)
    return fn(*a)


def sx_round(fn, *a, **k):
    if fn is builtins.round and isinstance(a[0], SymNum):
        raise Unsupported("round")
    return fn(*a, **k)


def sx_type(fn, *a, **k):
    if fn is builtins.type and len(a) == 1:
        if isinstance(a[0], SymDelta):
            return SymDelta.sx_type
        if isinstance(a[0], SxFloat):
            return fn(a[0])
        if isinstance(a[0], SymNum):
            return {'i': int, 'f': float, 'c': complex}[a[0].kind]
        if isinstance(a[0], SymBool):
            return bool
        if isinstance(a[0], SymStr):
            return str
    return fn(*a, **k)


def sx_map(fn, *a, **k):
    if fn is builtins.map and a and a[0] in (builtins.float, builtins.int,
                                             builtins.str, builtins.len,
                                             builtins.complex):
        f = a[0]
        h = CALLS[f.__name__]
        return builtins.map(lambda *x: h(f, *x), *a[1:])
    return fn(*a, **k)


CALLS = {'map': sx_map, 'isinstance': sx_isinstance, 'float': sx_float, 'int': sx_int,
         'complex': sx_complex, 'str': sx_str, 'len': sx_len,
         'round': sx_round, 'type': sx_type}


def sx_in(x, c):
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(x, SymStr):
        if isinstance(c, str):
            return SymStr.lit(c).contains(x)
        if isinstance(c, (dict, set, frozenset, list, tuple)) and \
                type(c).__contains__ in (dict.__contains__,
                                         set.__contains__,
                                         frozenset.__contains__,
                                         list.__contains__,
                                         tuple.__contains__):
            for y in list(c):
                if isinstance(y, (str, SymStr)) and bool(x == y):
                    return True
            return False
    if isinstance(c, (dict, set, frozenset)) and isinstance(x, SymNum) and \
            type(c).__contains__ in (dict.__contains__, set.__contains__,
                                     frozenset.__contains__):
        for y in list(c):
            if bool(x == y):
                return True
        return False
    return x in c


def sx_notin(x, c):
    return not sx_in(x, c)


def sx_get(o, k):
    if isinstance(k, (SymNum, SymStr)) and isinstance(o, dict) and \
            type(o).__getitem__ is dict.__getitem__:
        for y in list(o):
            if bool(k == y):
                return o[y]
        raise KeyError(k)
    return o[k]


def sx_mod(a, b):
    if isinstance(a, SymStr):
        return a % b
    if isinstance(a, str):
        bs = b if isinstance(b, tuple) else \
            (tuple(b.values()) if isinstance(b, dict) else (b,))
        if any(isinstance(x, SymStr) for x in bs):
            return symstr.fmt_mod(a, b)
        if eng().allow_tags:
            f = _int_text
            b = tuple(map(f, b)) if isinstance(b, tuple) else \
                ({k: f(v) for k, v in b.items()} if isinstance(b, dict)
                 else f(b))
    return a % b


def _int_text(x):
    """Integers in text are tags, too."""
    if isinstance(x, np.ndarray) and x.ndim == 0 and is_lifted(x):
        y = base(x).reshape(-1)[0]
        if isinstance(y, SymNum) and y.kind == 'i':
            x = y
    if isinstance(x, SymNum) and x.kind == 'i' and not x.is_const():
        return tag_int(x)
    return x


def sx_method(o, name, *a, **k):
    if isinstance(o, str) and any(_has_symstr(x) for x in a):
        return getattr(SymStr.lit(o), name)(*a, **k)
    if isinstance(o, dict) and name in ('get', 'setdefault', 'pop') and a \
            and isinstance(a[0], (SymNum, SymStr)):
        for y in list(o):
            if bool(a[0] == y):
                return getattr(o, name)(y, *a[1:], **k)
        if name == 'get':
            return a[1] if len(a) > 1 else None
        if name == 'pop':
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
    return getattr(o, name)(*a, **k)


def _has_symstr(x):
    if isinstance(x, SymStr):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_symstr(y) for y in x)
    return False


_METHODS = {'join', 'format', 'startswith', 'endswith', 'replace', 'split',
            'strip', 'lstrip', 'rstrip', 'find', 'index', 'count', 'get',
            'setdefault', 'pop'}


class SxFloat(SymNum):
    """What a class derived from float is derived from."""

    def __new__(cls, value=0., *a):
        if isinstance(value, str):
            value = sx_float(float, value)
        v = lift(value)
        if v.kind == 'c':
            raise TypeError("can't convert complex to float")
        v = v.cast('f')
        self = object.__new__(cls)
        SymNum.__init__(self, 'f', v.re, v.im, v.special)
        return self

    def __init__(self, *a, **k):
        pass


class SymDelta(datetime.timedelta):
    """A time interval of a symbolic number of seconds."""
    sx_type = datetime.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
        self = datetime.timedelta.__new__(cls, 0)
        self.total = lift(weeks) * 604800 + lift(days) * 86400 + \
            lift(hours) * 3600 + lift(minutes) * 60 + lift(seconds) + \
            lift(milliseconds) / 1000 + lift(microseconds) / 1000000
        return self

    def total_seconds(self):
        return self.total

    def _no(self, *a):
        raise Unsupported("timedelta")
    days = seconds = microseconds = property(_no)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __floordiv__ = __neg__ = __abs__ = __bool__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __str__ = __repr__ = _no
    __hash__ = object.__hash__


def sx_timedelta(fn, *a, **k):
    if fn is datetime.timedelta and any(
            isinstance(x, SymNum) and not x.is_const()
            for x in list(a) + list(k.values())):
        return SymDelta(*a, **k)
    return fn(*a, **k)


class Rewriter(ast.NodeTransformer):
    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for k, b in enumerate(node.bases):
            if isinstance(b, ast.Name) and b.id == 'float':
                node.bases[k] = ast.copy_location(
                    ast.Name(id='__sx_Float__', ctx=ast.Load()), b)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == 'float' \
                and node.attr.startswith('__'):
            node.value = ast.copy_location(
                ast.Name(id='__sx_Float__', ctx=ast.Load()), node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALLS:
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__sx_' + node.func.id + '__', ctx=ast.Load()),
                args=[node.func] + node.args, keywords=node.keywords), node)
        if isinstance(node.func, (ast.Attribute, ast.Name)) and \
                getattr(node.func, 'attr', getattr(node.func, 'id', None)) \
                == 'timedelta':
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__sx_timedelta__', ctx=ast.Load()),
                args=[node.func] + node.args, keywords=node.keywords), node)
        if isinstance(node.func, ast.Attribute) and \
                node.func.attr in _METHODS and node.args and not any(
                    isinstance(a, ast.Starred) for a in node.args):
            if isinstance(node.func.value, ast.Name) and \
                    node.func.value.id in ('np', 're', 'os', 'ndarray'):
                return node
            if isinstance(node.func.value, ast.Call) and \
                    isinstance(node.func.value.func, ast.Name) and \
                    node.func.value.func.id == 'super':
                return node
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__sx_method__', ctx=ast.Load()),
                args=[node.func.value, ast.Constant(node.func.attr)] +
                node.args, keywords=node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.In, ast.NotIn)):
            n = '__sx_in__' if isinstance(node.ops[0], ast.In) else '__sx_notin__'
            return ast.copy_location(ast.Call(
                func=ast.Name(id=n, ctx=ast.Load()),
                args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not _has_slice(node.slice):
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__sx_get__', ctx=ast.Load()),
                args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__sx_mod__', ctx=ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AnnAssign(self, node):
        return node


def _has_slice(n):
    if isinstance(n, ast.Slice):
        return True
    if isinstance(n, ast.Tuple):
        return any(_has_slice(e) for e in n.elts)
    if isinstance(n, ast.Starred):
        return True
    return False


# ------------------------------------------------------------ stdlib math

class _MathProxy(types.ModuleType):
    def __init__(self, real):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        if n == 'pi':
            return pi_num()
        f = getattr(self.__dict__['_real'], n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, (SymNum, SymNdarray)) for x in a):
                xs = [lift(x) for x in a]
                if n in ('sqrt', 'log10', 'exp', 'cos', 'sin', 'floor',
                         'ceil', 'trunc'):
                    r = getattr(xs[0], n)()
                    return r.cast('i') if n in ('floor', 'ceil') else r
                if n == 'atan2':
                    return xs[0].arctan2(xs[1])
                if n == 'phase':
                    return xs[0].angle()
                if n == 'hypot':
                    return (xs[0] * xs[0] + xs[1] * xs[1]).sqrt()
                if n == 'fabs':
                    return abs(xs[0])
                if n in ('isnan', 'isinf'):
                    return xs[0].special is not None and (
                        (xs[0].special == 'nan') == (n == 'isnan'))
                if n == 'radians':
                    return xs[0] * pi_num() / 180
                if n == 'degrees':
                    return xs[0] * 180 / pi_num()
                raise Unsupported("math.%s" % n)
            return f(*a)
        return g


class SymWorld(object):
    """One loaded symbolic copy of the package."""

    def __init__(self, repo=REPO, extra=None):
        self.repo = repo
        self.mods = {}
        self.files = {}
        self.extra = dict(MODULES)
        import math
        import cmath
        self.extra['math'] = _MathProxy(math)
        self.extra['cmath'] = _MathProxy(cmath)
        self.extra['re'] = symstr.RE
        self.extra['h5py'] = H5PY
        self.extra.update(fakempl.make())
        if extra:
            self.extra.update(extra)
        b = dict(builtins.__dict__)
        b['__import__'] = self.import_
        for n, f in CALLS.items():
            b['__sx_' + n + '__'] = f
        b['__sx_in__'] = sx_in
        b['__sx_Float__'] = SxFloat
        b['__sx_timedelta__'] = sx_timedelta
        b['__sx_notin__'] = sx_notin
        b['__sx_get__'] = sx_get
        b['__sx_mod__'] = sx_mod
        b['__sx_method__'] = sx_method
        self.builtins = b

    def path_of(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel)
        if name.split('.')[0] == 'yaml':
            # the library is executed symbolically, too
            p = os.path.join(os.path.dirname(os.path.dirname(
                importlib.util.find_spec('yaml').origin)), rel)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        else:
            pm = None
        path, ispkg = self.path_of(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, path, 'exec', dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        self.files[name] = path
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if pm is not None:
            setattr(pm, leaf, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            full = '.'.join(parts + ([name] if name else []))
        else:
            full = name
        top = full.split('.')[0]
        if top in ('hftools', 'yaml'):
            m = self.load(full)
            if not fromlist:
                return self.mods[top] if not level else m
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(full + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if full in self.extra:
            if fromlist:
                return self.extra[full]
            return self.extra[top] if top in self.extra else \
                _real_import(name, globals, locals, fromlist, level)
        if top in ('numpy',):
            m = _real_import(name, None, None, fromlist, 0)
            return m if fromlist else self.extra['numpy']
        if top in self.extra:
            return self.extra[top] if not fromlist else \
                _real_import(name, None, None, fromlist, 0)
        return _real_import(name, globals, locals, fromlist, level)
