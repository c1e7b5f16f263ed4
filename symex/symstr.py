"""Bounded symbolic strings (placeholder; filled in below)."""
import re as _re
import types


class SymStr(object):
    pass


def fmt_mod(a, b):
    raise NotImplementedError


RE = _re
