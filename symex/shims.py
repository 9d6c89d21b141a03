"""Runtime helpers the instrumented code calls, and stand-ins for builtins and modules."""
import builtins
import collections
import types
from . import core, values as V
from .core import Unsupported, SxControl, cur, c_or, c_and
from .values import (SymBool, SymStr, SymInt, SymReal, SymFloat, SymBytes, is_sym, is_tok, lift, mkbool, mkstr,
                     chars_of, s_str, s_int, s_float, s_repr, s_format, s_mod, s_format_value, s_concat, cond_of,
                     deep_sym, s_not)
from .symdict import SymOD, SxDict, KeyBox

_str, _int, _float, _bool, _dict, _set, _frozenset, _list, _tuple, _type = (
    builtins.str, builtins.int, builtins.float, builtins.bool, builtins.dict, builtins.set,
    builtins.frozenset, builtins.list, builtins.tuple, builtins.type)


# ------------------------------------------------------------------ builtin type stand-ins
class _ShimMeta(_type):
    real = None

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__dict__["_real"])

    def __subclasscheck__(cls, c):
        if c is cls:
            return True
        return issubclass(c, cls.__dict__["_real"])

    def __eq__(cls, o):
        return cls is o or o is cls.__dict__["_real"]

    def __hash__(cls):
        return hash(cls.__dict__["_real"])

    def __repr__(cls):
        return repr(cls.__dict__["_real"])

    def __getattr__(cls, n):
        real = cls.__dict__["_real"]
        a = getattr(real, n)
        if n in ("maketrans", "fromhex", "from_bytes"):
            return a
        if callable(a):
            return lambda o, *args, **kw: callm(o, n, *args, **kw)
        return a

    def __call__(cls, *a, **k):
        return cls.__dict__["_conv"](*a, **k)


def _mk(name, real, conv):
    return _ShimMeta(name, (), {"_real": real, "_conv": staticmethod(conv)})


def conv_bool(x=False):
    if type(x) is SymBool:
        return x
    return _bool(x)


str_shim = _mk("str", _str, s_str)
int_shim = _mk("int", _int, s_int)
float_shim = _mk("float", _float, s_float)
bool_shim = _mk("bool", _bool, conv_bool)


def sx_type(*a):
    if len(a) != 1:
        return _type(*a)
    x = a[0]
    t = _type(x)
    if t is SymStr or t is _str:
        return str_shim
    if t is SymInt or t is _int:
        return int_shim
    if t in (SymReal, SymFloat) or t is _float:
        return float_shim
    if t is SymBool or t is _bool:
        return bool_shim
    return t


class SymSet:
    """a set whose elements may be symbolic (insertion ordered, unique up to forked equality)"""

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def __contains__(self, x):
        for y in self._l:
            if x is y or x == y:
                return True
        return False

    def add(self, x):
        if x not in self:
            self._l.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        for i, y in enumerate(self._l):
            if x is y or x == y:
                del self._l[i]
                return True
        return False

    def remove(self, x):
        if not self.discard(x):
            raise KeyError(x)

    def pop(self):
        return self._l.pop()

    def copy(self):
        return SymSet(self._l)

    def clear(self):
        self._l.clear()

    def __iter__(self):
        return iter(self._l)

    def __len__(self):
        return len(self._l)

    def difference(self, *its):
        ex = [SymSet(i) if not isinstance(i, SymSet) else i for i in its]
        return SymSet(x for x in self._l if not any(x in e for e in ex))

    def union(self, *its):
        r = SymSet(self._l)
        r.update(*its)
        return r

    def intersection(self, *its):
        ex = [SymSet(i) if not isinstance(i, SymSet) else i for i in its]
        return SymSet(x for x in self._l if all(x in e for e in ex))

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self._l)

    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        return isinstance(o, (SymSet, _set, _frozenset)) and len(o) == len(self) and all(x in self for x in o)

    __hash__ = None

    @property
    def __class__(self):
        return _set


def _needs_symset(items):
    return any(is_sym(x) or is_tok(x) or (isinstance(x, _tuple) and deep_sym(x)) for x in items)


def mkset(items):
    items = _list(items)
    return SymSet(items) if _needs_symset(items) else _set(items)


def conv_set(it=()):
    return mkset(it)


def conv_frozenset(it=()):
    items = _list(it)
    return SymSet(items) if _needs_symset(items) else _frozenset(items)


set_shim = _mk("set", _set, conv_set)
frozenset_shim = _mk("frozenset", _frozenset, conv_frozenset)


# ------------------------------------------------------------------ helpers
_STRM = frozenset(n for n in dir(_str) if not n.startswith("__"))


def fstr(*parts):
    return s_concat(parts)


def fval(v, conv, spec):
    return s_format_value(v, conv, spec)


def _anysym(a, k):
    for x in a:
        if is_sym(x) or _hastoksym(x):
            return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


def _hastoksym(x):
    return isinstance(x, _str) and is_sym(getattr(x, "value", None))


def callm(o, name, /, *a, **k):
    t = _type(o)
    if t is _str:
        if name == "join":
            items = _list(a[0])
            if any(is_sym(x) or _hastoksym(x) for x in items):
                return SymStr(chars_of(o)).join(items)
            return o.join(items)
        if name == "format":
            return s_format(o, a, k)
        if name == "format_map":
            return s_format(o, (), a[0])
        if name in _STRM:
            if _anysym(a, k):
                return getattr(SymStr(chars_of(o)), name)(*a, **k)
            if a and isinstance(a[0], _tuple) and deep_sym(a[0]):
                return getattr(SymStr(chars_of(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is _dict or (isinstance(o, _dict) and not hasattr(o, "_find")):
        if a and type(a[0]) is SymStr and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            k0 = dict_key(o, a[0])
            if k0 is not None:
                return getattr(o, name)(k0, *a[1:])
            if name == "get":
                return a[1] if len(a) > 1 else None
            if name == "pop" and len(a) > 1:
                return a[1]
            if name == "__contains__":
                return False
            if name in ("pop", "__getitem__"):
                raise KeyError(a[0])
            raise Unsupported("symbolic key stored in a builtin dict")
    elif t is _set or t is _frozenset:
        if name in ("add", "update", "discard", "remove", "__contains__") and (_anysym(a, k)):
            if name == "__contains__":
                return contains(o, a[0])
            raise Unsupported("symbolic element in a builtin set")
        if any(isinstance(x, SymSet) for x in a):
            return getattr(SymSet(o), name)(*a, **k)
    elif t is SymStr and name == "join":
        return o.join(_list(a[0]))
    return getattr(o, name)(*a, **k)


def dict_key(d, key):
    """the builtin-dict key equal to a symbolic key (forks), or None"""
    from .symdict import eq_cond
    n = len(key)
    for k in d:
        if isinstance(k, _str) and len(k) == n:
            c = eq_cond(k, key)
            if c is not False and cur().branch(c):
                return k
    return None


def eq_c(a, b):
    """condition a == b (no fork when avoidable)"""
    if a is b:
        return True
    r = a == b
    return cond_of(r)


def contains(c, x):
    """x in c"""
    t = _type(c)
    if t is _str or t is SymStr or isinstance(c, _str):
        if t is SymStr or is_sym(x) or _hastoksym(c):
            if not isinstance(x, _str):
                raise TypeError("'in <string>' requires string as left operand, not %s" % _type(x).__name__)
            return lift(c).sx_contains(x)
        return x in c
    if isinstance(c, (_list, _tuple)) and _type(c).__contains__ in (_list.__contains__, _tuple.__contains__):
        if is_sym(x) or deep_sym(c, 1) or deep_sym(x, 2):
            return mkbool(c_or([eq_c(x, y) for y in c]))
        return x in c
    if t in (_set, _frozenset, _dict) or t is types.MappingProxyType:
        if type(x) is SymStr:
            n = len(x)
            return mkbool(c_or([eq_c(x, y) for y in c if isinstance(y, _str) and len(y) == n]))
        if type(x) is SymInt:
            return mkbool(c_or([eq_c(x, y) for y in c if isinstance(y, (_int, _float))]))
        return x in c
    if t in _VIEWS:
        if type(x) is SymStr:
            return mkbool(c_or([eq_c(x, y) for y in c if isinstance(y, _str) and len(y) == len(x)]))
        return x in c
    m = getattr(t, "__contains__", None)
    if m is not None and isinstance(m, types.FunctionType):
        r = m(c, x)
        return r if type(r) is SymBool else _bool(r)
    return x in c


_VIEWS = (_type({}.keys()), _type(collections.OrderedDict().keys()))


def not_contains(c, x):
    return s_not(contains(c, x))


def is_(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if type(x) is SymBool and (y is True or y is False):
            return mkbool(x.c if y else core.c_not(x.c))
    if type(a) is _ShimMeta or type(b) is _ShimMeta:
        return a == b if type(a) is _ShimMeta else b == a
    # `x is SxDict` against builtins
    return False


def is_not(a, b):
    return s_not(is_(a, b))


def getitem(o, k):
    if type(k) is SymStr:
        if isinstance(o, _dict) and not hasattr(o, "_find"):
            k0 = dict_key(o, k)
            if k0 is None:
                m = getattr(_type(o), "__missing__", None)
                if m is not None:
                    return m(o, k)
                raise KeyError(k)
            return o[k0]
        return o[k]
    if _type(o) is _str and _type(k) is slice:
        return o[slice(*[None if v is None else v.__index__() for v in (k.start, k.stop, k.step)])]
    return o[k]


def setitem(o, k, v):
    if type(k) is SymStr and isinstance(o, _dict) and not hasattr(o, "_find"):
        k0 = dict_key(o, k)
        if k0 is None:
            raise Unsupported("symbolic key stored in a builtin dict")
        o[k0] = v
        return
    o[k] = v


def delitem(o, k):
    if type(k) is SymStr and isinstance(o, _dict) and not hasattr(o, "_find"):
        k0 = dict_key(o, k)
        if k0 is None:
            raise KeyError(k)
        del o[k0]
        return
    del o[k]


def mod(a, b):
    if isinstance(a, _str) and not isinstance(a, _int):
        if type(a) is SymStr or is_sym(b) or is_tok(b) or deep_sym(b):
            return s_mod(a, b)
    return a % b


def mkdict(*parts):
    """dict display: parts are (k, v) pairs or 1-tuples of mappings to unpack"""
    d = SxDict()
    for p in parts:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def dictcomp(it):
    d = SxDict()
    for k, v in it:
        d[k] = v
    return d


def sx_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        ch = c.cs[0]
        if isinstance(ch, int):
            return ch
        import z3
        # codepoint as a z3 term over the alphabet index
        t = V.ALPHA if ch.table is None else ch.table
        d = cur().domain(ch.var)
        e = None
        for i in core.bits(d):
            e = z3.IntVal(t[i]) if e is None else z3.If(ch.var.z == i, z3.IntVal(t[i]), e)
        return SymInt(e, (ch.var,))
    return ord(c)


def sx_chr(i):
    if type(i) is SymInt:
        i = V.conc_int(i)
    return chr(i)


def sx_repr(x):
    if deep_sym(x) and not isinstance(x, _dict):
        return s_repr(x)
    return repr(x)


def sx_format(x, spec=""):
    return s_format_value(x, None, spec)


def sx_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def sx_hash(x):
    return hash(x)


def sx_abs(x):
    return abs(x)


def sx_len(x):
    return len(x)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_bool(x=False):
    return conv_bool(x)


def sx_isinstance(x, t):
    return isinstance(x, t)


def sx_print(*a, **k):
    pass


class Loud:
    """a logger stand-in: message formatting is not modelled"""

    def __getattr__(self, n):
        if n in ("debug", "info", "warning", "warn", "error", "exception", "critical", "log", "addHandler",
                 "setLevel", "addFilter", "removeHandler"):
            return lambda *a, **k: None
        if n == "isEnabledFor":
            return lambda *a: False
        if n == "level":
            return 30
        if n in ("handlers", "filters"):
            return []
        if n == "propagate":
            return True
        raise AttributeError(n)


class LoggingShim(types.ModuleType):
    def __init__(self):
        super().__init__("logging")
        import logging as _l
        self._l = _l

    def getLogger(self, *a):
        return Loud()

    def basicConfig(self, **k):
        pass

    def __getattr__(self, n):
        if n in ("debug", "info", "warning", "error", "exception", "critical"):
            return lambda *a, **k: None
        return getattr(self._l, n)


# what the instrumented names resolve to
BUILTINS = {
    "str": str_shim, "int": int_shim, "float": float_shim, "bool": bool_shim,
    "dict": SxDict, "set": set_shim, "frozenset": frozenset_shim,
    "type": sx_type, "ord": sx_ord, "chr": sx_chr, "repr": sx_repr, "format": sx_format,
    "round": sx_round, "sum": sx_sum, "print": sx_print,
}


class Helper:
    fstr = staticmethod(fstr)
    fval = staticmethod(fval)
    callm = staticmethod(callm)
    contains = staticmethod(contains)
    not_contains = staticmethod(not_contains)
    is_ = staticmethod(is_)
    is_not = staticmethod(is_not)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    mod = staticmethod(mod)
    mkdict = staticmethod(mkdict)
    mkset = staticmethod(mkset)
    dictcomp = staticmethod(dictcomp)
    SxControl = SxControl


HELPER = Helper()
