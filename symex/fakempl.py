"""A model of the part of matplotlib that hftools.plotting uses: axes that
record what is drawn in them, artists that keep their geometry and tick
formatters.  Only used while executing symbolically; every path is replayed
with the real matplotlib (Agg)."""
import types

import numpy as np

from .core import Unsupported
from .symnp import SymNdarray, asarr, base


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Artist(object):
    def __init__(self, **kw):
        self.kw = kw


class Arc(Artist):
    def __init__(self, xy, width, height, *, angle=0.0, theta1=0.0,
                 theta2=360.0, **kw):
        Artist.__init__(self, **kw)
        self.center = xy
        self.width = width
        self.height = height
        self.angle = angle
        self.theta1 = theta1
        self.theta2 = theta2


class Circle(Artist):
    def __init__(self, xy, radius=5, **kw):
        Artist.__init__(self, **kw)
        self.center = xy
        self.radius = radius


class Polygon(Artist):
    def __init__(self, xy, *, closed=True, **kw):
        Artist.__init__(self, **kw)
        self.xy = asarr(xy)

    def get_xy(self):
        return self.xy


class Line(object):
    def __init__(self, x, y, label):
        self.x, self.y, self.label = x, y, label

    def get_xdata(self):
        return self.x

    def get_ydata(self):
        return self.y

    def get_label(self):
        return self.label


def _columns(a):
    a = asarr(a)
    if a.ndim < 1:
        a = a.reshape((1,))
    if a.ndim > 2:
        raise ValueError("x and y can be no greater than 2D")
    a = a.view(SymNdarray) if isinstance(a, SymNdarray) else \
        a.view(np.ndarray)
    return a.reshape((-1, 1)) if a.ndim == 1 else a


class Axis(object):
    def __init__(self):
        self.formatter = Formatter()
        self.ticks = None

    def set_major_formatter(self, f):
        f.axis = self
        self.formatter = f

    def get_major_formatter(self):
        return self.formatter

    def set_ticks(self, t):
        self.ticks = t


class Axes(object):
    name = "rectilinear"

    def __init__(self, *a, **kw):
        self.axes = self
        self.xaxis = Axis()
        self.yaxis = Axis()
        self.lines = []
        self.patches = []
        self._xlabel = self._ylabel = ''

    def plot(self, *args, **kw):
        args = list(args)
        if args and isinstance(args[-1], str):
            args.pop()
        if len(args) == 1:
            y = _columns(args[0])
            x = None
        elif len(args) == 2:
            x, y = _columns(args[0]), _columns(args[1])
        else:
            raise Unsupported("plot with %d arguments" % len(args))
        if x is None:
            x = np.arange(y.shape[0], dtype=float).reshape((-1, 1))
        if x.shape[0] != y.shape[0]:
            raise ValueError("x and y must have same first dimension, but "
                             "have shapes %r and %r" % (x.shape, y.shape))
        nx, ny = x.shape[1], y.shape[1]
        if nx > 1 and ny > 1 and nx != ny:
            raise ValueError("x has %d columns but y has %d columns" %
                             (nx, ny))
        if nx == 0 or ny == 0:
            return []
        out = []
        label = kw.get('label')
        n = max(nx, ny)
        for k in range(n):
            out.append(Line(x[:, k % nx], y[:, k % ny],
                            label if label is not None else
                            '_child%d' % len(self.lines)))
            self.lines.append(out[-1])
        return out

    def add_patch(self, p):
        if not isinstance(p, Artist):
            raise TypeError("artist %r" % (p,))
        self.patches.append(p)
        return p

    def set_xlabel(self, s, *a, **k):
        self._xlabel = s

    def set_ylabel(self, s, *a, **k):
        self._ylabel = s

    def get_xlabel(self):
        return self._xlabel

    def get_ylabel(self):
        return self._ylabel

    def set_frame_on(self, b):
        pass

    def axis(self, *a):
        pass


class PolarAxes(Axes):
    name = "polar"


class Formatter(object):
    locs = []
    axis = None

    def set_locs(self, locs):
        self.locs = locs


class FormatStrFormatter(Formatter):
    def __init__(self, fmt):
        self.fmt = fmt

    def __call__(self, x, pos=None):
        from .loader import sx_mod
        return sx_mod(self.fmt, x)


class EngText(object):
    """What EngFormatter makes of a number: the number with its prefix."""
    def __init__(self, x, places):
        self.x = x
        self.places = places


class EngFormatter(Formatter):
    def __init__(self, unit="", places=None, sep=" ", *, usetex=None,
                 useMathText=None):
        self.unit = unit
        self.places = places

    def __call__(self, x, pos=None):
        return EngText(x, self.places)


REGISTRY = {}


def register_projection(cls):
    REGISTRY[cls.name] = cls


def _no(name):
    def f(*a, **k):
        raise Unsupported("matplotlib: " + name)
    return f


class _Lazy(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _no(self.__name__ + '.' + n)


def make():
    """A fresh set of modules."""
    pyplot = _Lazy('matplotlib.pyplot')
    pyplot.Circle = Circle
    pyplot.Polygon = Polygon
    helpers = _mod('matplotlib._pylab_helpers', Gcf=_Lazy('Gcf'))
    projections = _mod('matplotlib.projections',
                       register_projection=register_projection)
    polar = _mod('matplotlib.projections.polar', PolarAxes=PolarAxes)
    projections.polar = polar
    patches = _mod('matplotlib.patches', Arc=Arc, Circle=Circle,
                   Polygon=Polygon)
    axes = _mod('matplotlib.axes', Axes=Axes)
    ticker = _mod('matplotlib.ticker', FormatStrFormatter=FormatStrFormatter,
                  EngFormatter=EngFormatter)
    pdf = _mod('matplotlib.backends.backend_pdf', PdfPages=_no('PdfPages'))
    backends = _mod('matplotlib.backends', backend_pdf=pdf)
    top = _mod('matplotlib', pyplot=pyplot, _pylab_helpers=helpers,
               projections=projections, patches=patches, axes=axes,
               ticker=ticker, backends=backends)
    out = {m.__name__: m for m in (pyplot, helpers, projections, polar,
                                   patches, axes, ticker, pdf, backends, top)}
    out['pylab'] = _Lazy('pylab')
    return out
