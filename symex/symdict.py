"""Ordered dictionaries with symbolic string keys.  Storage is a real OrderedDict whose symbolic
keys are boxed; lookups with (or against) symbolic keys fork on equality."""
import builtins
import collections
from .core import cur, Unsupported
from .values import SymStr, SymInt, SymReal, SymFloat, SymBool, is_sym, is_tok, mkbool, c_eq, mkstr, conc_int, cond_of, RC, rc_eq, chars_of
from . import core
from .core import c_and

_OD = collections.OrderedDict
_dict = builtins.dict
_MISSING = object()


class KeyBox:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "<key>"


def unbox(k):
    return k.k if type(k) is KeyBox else k


def norm_key(k):
    t = type(k)
    if t is SymStr:
        return mkstr(k.cs)
    if t is SymInt:
        return conc_int(k)
    if t is SymBool:
        return builtins.bool(k)
    if t is tuple:
        return tuple(norm_key(x) for x in k)
    return k


def symkey(k):
    t = type(k)
    return t is SymStr or t is SymReal or t is SymFloat or (t is tuple and any(map(symkey, k)))


def eq_cond(a, b):
    """condition a == b for keys, at least one SymStr"""
    if not (isinstance(a, str) and isinstance(b, str)):
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b):
                return False
            return c_and([eq_cond(x, y) if symkey(x) or symkey(y) else x == y for x, y in zip(a, b)])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return cond_of(a == b)
        return False
    if type(a) is SymStr and type(a.cs[-1]) is RC or type(b) is SymStr and type(b.cs[-1]) is RC:
        return rc_eq(chars_of(a), chars_of(b))
    ca = a.cs if type(a) is SymStr else None
    cb = b.cs if type(b) is SymStr else None
    la = len(a)
    if la != len(b):
        return False
    if ca is None:
        ca = tuple(map(ord, a))
    if cb is None:
        cb = tuple(map(ord, b))
    return c_and([c_eq(x, y) for x, y in zip(ca, cb)])


class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SymOD:
            return isinstance(x, _OD) and not isinstance(x, SxDict)
        if cls is SxDict:
            return isinstance(x, _dict)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SxDict:
            return issubclass(c, _dict)
        return type.__subclasscheck__(cls, c)


class SymOD(_OD, metaclass=_Meta):
    """stands in for collections.OrderedDict"""

    def __new__(cls, *a, **k):
        self = _OD.__new__(cls)
        self._nsym = 0
        return self

    def __init__(self, *args, **kw):
        if len(args) > 1:
            raise TypeError("expected at most 1 argument, got %d" % len(args))
        if args or kw:
            SymOD.update(self, *args, **kw)

    # -- key location
    def _find(self, key):
        """the stored (raw) key equal to key, or _MISSING"""
        if not symkey(key):
            if _OD.__contains__(self, key):
                return key
            if not self._nsym or not isinstance(key, (str, tuple, int, float)):
                return _MISSING
            for rk in _OD.__iter__(self):
                if type(rk) is KeyBox and cur().branch(eq_cond(rk.k, key)):
                    return rk
            return _MISSING
        for rk in _OD.__iter__(self):
            k = rk.k if type(rk) is KeyBox else rk
            if k is key:
                return rk
            c = eq_cond(k, key)
            if c is not False and cur().branch(c):
                return rk
        return _MISSING

    def _new_raw(self, key):
        if symkey(key):
            self._nsym += 1
            return KeyBox(key)
        return key

    # -- mapping protocol
    def __getitem__(self, key):
        key = norm_key(key)
        if not self._nsym and not symkey(key):
            if _OD.__contains__(self, key):
                return _OD.__getitem__(self, key)
        else:
            rk = self._find(key)
            if rk is not _MISSING:
                return _dict.__getitem__(self, rk)
        miss = getattr(type(self), "__missing__", None)
        if miss is not None:
            return miss(self, key)
        raise KeyError(key)

    def __setitem__(self, key, value):
        key = norm_key(key)
        if not self._nsym and not symkey(key):
            _OD.__setitem__(self, key, value)
            return
        rk = self._find(key)
        if rk is _MISSING:
            rk = self._new_raw(key)
        _OD.__setitem__(self, rk, value)

    def __delitem__(self, key):
        key = norm_key(key)
        rk = self._find(key)
        if rk is _MISSING:
            raise KeyError(key)
        if type(rk) is KeyBox:
            self._nsym -= 1
        _OD.__delitem__(self, rk)

    def __contains__(self, key):
        key = norm_key(key)
        if not self._nsym and not symkey(key):
            return _OD.__contains__(self, key)
        return self._find(key) is not _MISSING

    def get(self, key, default=None):
        key = norm_key(key)
        rk = self._find(key)
        return default if rk is _MISSING else _dict.__getitem__(self, rk)

    def pop(self, key, default=_MISSING):
        # C OrderedDict.pop: uses the stored value directly; for a missing key of a subclass
        # with __missing__ and no default, calls __missing__
        key = norm_key(key)
        rk = self._find(key)
        if rk is not _MISSING:
            v = _dict.__getitem__(self, rk)
            if type(rk) is KeyBox:
                self._nsym -= 1
            _OD.__delitem__(self, rk)
            return v
        if default is not _MISSING:
            return default
        raise KeyError(key)

    def _raw_items(self):
        for rk in _OD.__iter__(self):
            yield unbox(rk), _dict.__getitem__(self, rk)

    def popitem(self, last=True):
        if not _OD.__len__(self):
            raise KeyError("dictionary is empty")
        rk = next(reversed(_OD.keys(self))) if last else next(_OD.__iter__(self))
        v = _dict.__getitem__(self, rk)
        if type(rk) is KeyBox:
            self._nsym -= 1
        _OD.__delitem__(self, rk)
        return unbox(rk), v

    def setdefault(self, key, default=None):
        # C OrderedDict.setdefault for subclasses: `if key in self: return self[key]` else self[key]=default
        if type(self) in (SymOD, SxDict):
            k = norm_key(key)
            rk = self._find(k)
            if rk is not _MISSING:
                return _dict.__getitem__(self, rk)
            SymOD.__setitem__(self, k, default)
            return default
        if key in self:
            return self[key]
        self[key] = default
        return default

    def update(*args, **kw):
        self = args[0]
        if len(args) > 2:
            raise TypeError("update() takes at most 1 positional argument")
        if len(args) == 2:
            o = args[1]
            if isinstance(o, _dict) or hasattr(o, "keys"):
                if type(o) is _dict:
                    for k, v in o.items():
                        self[k] = v
                else:
                    for k in o.keys():
                        self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._nsym = 0
        _OD.clear(self)

    def move_to_end(self, key, last=True):
        key = norm_key(key)
        rk = self._find(key)
        if rk is _MISSING:
            raise KeyError(key)
        _OD.move_to_end(self, rk, last)

    # -- views
    def __iter__(self):
        if not self._nsym:
            return _OD.__iter__(self)
        return (unbox(k) for k in _OD.__iter__(self))

    def __reversed__(self):
        return (unbox(k) for k in _OD.__reversed__(self))

    def keys(self):
        if not self._nsym:
            return _OD.keys(self)
        return KeysView(self)

    def items(self):
        if not self._nsym:
            return _OD.items(self)
        return ItemsView(self)

    def values(self):
        return _OD.values(self)

    def copy(self):
        return type(self)(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy
        r = type(self)()
        memo[id(self)] = r
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        for k, v in self.__dict__.items():
            if k != "_nsym":
                setattr(r, k, copy.deepcopy(v, memo))
        return r

    def __eq__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        if _OD.__len__(self) != len(o):
            return False
        ordered = isinstance(self, SymOD) and isinstance(o, _OD) and not isinstance(o, SxDict)
        so = hasattr(o, "_find")
        if ordered:
            for (k1, v1), (k2, v2) in zip(self._raw_items(), o._raw_items() if so else _OD.items(o)):
                if not (k1 == k2) or not (v1 is v2 or v1 == v2):
                    return False
            return True
        if so:
            for k, v in self._raw_items():
                rk = o._find(norm_key(k))
                if rk is _MISSING or not (v is _dict.__getitem__(o, rk) or v == _dict.__getitem__(o, rk)):
                    return False
            return True
        for k, v in o.items():
            rk = self._find(norm_key(k))
            if rk is _MISSING or not (_dict.__getitem__(self, rk) == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        r = type(self)(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "SymOD(%s)" % ", ".join("%r: %r" % kv for kv in _OD.items(self))

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __reduce__(self):
        d = {k: v for k, v in self.__dict__.items() if k != "_nsym"}
        return type(self), (), d or None, None, iter(self.items())

    def __reduce_ex__(self, proto):
        return self.__reduce__()


class SxDict(SymOD):
    """stands in for the builtin dict"""

    def popitem(self):
        return SymOD.popitem(self)

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in _OD.items(self))


class KeysView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __reversed__(self):
        return reversed(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return SymOD.__contains__(self.d, k)

    def _lst(self):
        return list(self)

    def __eq__(self, o):
        o = list(o)
        return len(o) == len(self) and all(k in self for k in o)

    def __sub__(self, o):
        from .shims import SymSet
        return SymSet(self) - SymSet(o)

    def __and__(self, o):
        from .shims import SymSet
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        from .shims import SymSet
        return SymSet(self) | SymSet(o)


class ItemsView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        for k in list(_OD.__iter__(self.d)):
            yield unbox(k), _dict.__getitem__(self.d, k)

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        return len(self.d)

    def __contains__(self, kv):
        return any(a == kv[0] and b == kv[1] for a, b in self)
