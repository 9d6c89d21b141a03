"""Symbolic proxy values."""
import builtins
import z3
from . import core
from .core import (ALPHA, ALPHA_IDX, FULL, NALPHA, And, Mem, Or, Unsupported, Z, bits, c_and, c_not,
                   c_or, cur, mask_of, mask_pred, to_z3)

_str = builtins.str
_int = builtins.int


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return cur().branch(self.c)

    def __and__(self, o):
        return mkbool(c_and([self.c, cond_of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(c_or([self.c, cond_of(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(c_not(self.c))

    def __xor__(self, o):
        d = cond_of(o)
        return mkbool(c_or([c_and([self.c, c_not(d)]), c_and([c_not(self.c), d])]))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (builtins.bool, SymBool)):
            return ~(self ^ o)
        if isinstance(o, _int):
            if o == 1:
                return self
            if o == 0:
                return ~self
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(builtins.bool(self))

    def __repr__(self):
        return "<SymBool>"

    @property
    def __class__(self):
        return builtins.bool


def is_symbool(x):
    return type(x) is SymBool


def mkbool(c):
    if c is True or c is False:
        return c
    p = core.CUR
    if p is not None:
        r = p.eval3(c)
        if r is not None:
            return r
    return SymBool(c)


def cond_of(x):
    if type(x) is SymBool:
        return x.c
    return builtins.bool(x)


def s_not(x):
    return mkbool(c_not(cond_of(x)))


def s_and(*xs):
    return mkbool(c_and([cond_of(x) for x in xs]))


def s_or(*xs):
    return mkbool(c_or([cond_of(x) for x in xs]))


# ------------------------------------------------------------------ characters
# table: tuple of NALPHA codepoints (or None = identity)
_tables = {}


def _map_table(table, key, fn):
    """compose a char->char function; returns (table, mask of inputs whose image is not one char)"""
    k = (table, key)
    r = _tables.get(k)
    if r is None:
        src = ALPHA if table is None else table
        out = []
        multi = 0
        for i, cp in enumerate(src):
            s = fn(chr(cp))
            if len(s) == 1:
                out.append(ord(s))
            else:
                out.append(cp)
                multi |= 1 << i
        t = tuple(out)
        if t == tuple(ALPHA):
            t = None
        r = _tables[k] = (t, multi)
    return r


_maskcache = {}


def table_mask(table, cps):
    """mask of var indices whose image lies in the codepoint collection cps"""
    k = (table, cps)
    m = _maskcache.get(k)
    if m is None:
        if table is None:
            m = mask_of(cps)
        else:
            s = set(cps)
            m = 0
            for i, cp in enumerate(table):
                if cp in s:
                    m |= 1 << i
        _maskcache[k] = m
    return m


_predcache = {}


def table_pred(table, key, fn):
    k = (table, key)
    m = _predcache.get(k)
    if m is None:
        m = 0
        for i, cp in enumerate(ALPHA if table is None else table):
            if fn(chr(cp)):
                m |= 1 << i
        _predcache[k] = m
    return m


class SC:
    """one symbolic character: image of a Var under a table"""
    __slots__ = ("var", "table")

    def __init__(self, var, table=None):
        self.var = var
        self.table = table

    def is_in(self, cps):
        return Mem(self.var, table_mask(self.table, cps))

    def pred(self, key, fn):
        return Mem(self.var, table_pred(self.table, key, fn))

    def outcomes(self):
        d = cur().domain(self.var)
        t = ALPHA if self.table is None else self.table
        return {t[i] for i in bits(d)}

    def norm(self):
        p = core.CUR
        if p is None:
            return self
        d = p.dom.get(self.var, self.var.dom0)
        if d & (d - 1) == 0:
            i = d.bit_length() - 1
            return (ALPHA if self.table is None else self.table)[i]
        if self.table is not None:
            o = self.outcomes()
            if len(o) == 1:
                return next(iter(o))
        return self

    def zout(self):
        """z3 int: an injective code of the outcome codepoint"""
        if self.table is None:
            return self.var.z
        groups = {}
        for i, cp in enumerate(self.table):
            j = ALPHA_IDX.get(cp)
            if j is None:
                j = 1000000 + cp
            groups[j - i] = groups.get(j - i, 0) | (1 << i)
        e = self.var.z
        for delta, m in groups.items():
            if delta:
                e = z3.If(core.mem_z3(self.var, m), self.var.z + delta, e)
        return e


_onecache = {}


def _one(cp):
    t = _onecache.get(cp)
    if t is None:
        t = _onecache[cp] = (cp,)
    return t


class RC:
    """the text of a symbolic real as the last "character" of a string: only equality is known"""
    __slots__ = ("real",)

    def __init__(self, real):
        self.real = real

    def norm(self):
        return self

    def __getattr__(self, n):
        raise Unsupported("characters of the text of a symbolic real")


def rc_eq(a, b):
    """condition: strings a and b (char tuples, at least one ends in an RC) are equal"""
    if type(a[-1:] and a[-1]) is not RC:
        a, b = b, a
    n = len(a) - 1
    if len(b) <= n:
        return False
    rest = b[n:]
    pre = [c_eq(x, y) for x, y in zip(a[:n], b)]
    if c_and(pre) is False:
        return False
    if type(rest[-1]) is RC:
        if len(rest) > 1:
            raise Unsupported("text of a symbolic real")
        return c_and(pre + [cond_of(a[n].real == rest[0].real)])
    if not all(isinstance(c, _int) for c in rest):
        raise Unsupported("text of a symbolic real")
    t = "".join(map(chr, rest))
    try:
        f = float(t)
    except ValueError:
        return False
    if repr(f) != t:
        return False
    return c_and(pre + [cond_of(a[n].real == f)])


def c_eq(a, b):
    """condition: characters a and b (int or SC) are equal"""
    if isinstance(a, _int):
        if isinstance(b, _int):
            return a == b
        return b.is_in(_one(a))
    if isinstance(b, _int):
        return a.is_in(_one(b))
    if a.var is b.var and a.table == b.table:
        return True
    p = cur()
    na, nb = a.norm(), b.norm()
    if isinstance(na, _int) or isinstance(nb, _int):
        return c_eq(na, nb)
    if a.table is None and b.table is None:
        if p.domain(a.var) & p.domain(b.var) == 0:
            return False
        return Z(a.var.z == b.var.z, (a.var, b.var))
    if not (a.outcomes() & b.outcomes()):
        return False
    if a.var is b.var:
        m = 0
        ta = ALPHA if a.table is None else a.table
        tb = ALPHA if b.table is None else b.table
        for i in range(NALPHA):
            if ta[i] == tb[i]:
                m |= 1 << i
        return Mem(a.var, m)
    return Z(a.zout() == b.zout(), (a.var, b.var))


def c_concretise(ch):
    """fork until the character is concrete"""
    if isinstance(ch, _int):
        return ch
    n = ch.norm()
    while not isinstance(n, _int):
        o = min(n.outcomes())
        if cur().branch(n.is_in(_one(o))):
            return o
        n = n.norm()
    return n


# ------------------------------------------------------------------ strings
def chars_of(s):
    """tuple of chars for str or SymStr"""
    t = type(s)
    if t is SymStr:
        return s.cs
    if isinstance(s, _str) and t is not SymStr:
        if issubclass(t, _str):
            if hasattr(t, "sxtoken"):  # lark's str-based token
                return chars_of(s_str(s.sxsrc))
            return tuple(map(ord, s))
    raise TypeError("expected str, got %s" % t.__name__)


def mkstr(cs):
    p = core.CUR
    out = []
    allc = True
    for c in cs:
        if not isinstance(c, _int):
            if p is not None:
                c = c.norm()
            if not isinstance(c, _int):
                allc = False
        out.append(c)
    if allc:
        return "".join(map(chr, out))
    return SymStr(tuple(out))


def is_sym(x):
    return type(x) in SYMTYPES


def is_str(x):
    return isinstance(x, _str)


_SPACE = "space"
_isspace = _str.isspace


def _casedni(ch):
    return (ch + "\u03a3").lower()[-1] == "\u03c2"


def _ignorable(ch):
    return not _casedni(ch) and ("a" + ch + "\u03a3").lower()[-1] == "\u03c2"


class SymStr:
    __slots__ = ("cs", "digits_of")

    def __init__(self, cs):
        self.cs = cs

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def __class__(self):
        return _str

    # -- protocol
    def __len__(self):
        if self.cs and type(self.cs[-1]) is RC:
            raise Unsupported("length of the text of a symbolic real")
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __hash__(self):
        n = mkstr(self.cs)
        if type(n) is _str:
            return hash(n)
        raise Unsupported("hash of a symbolic string")

    def __repr__(self):
        return "'<SymStr>'"

    def __str__(self):
        return "<SymStr>"

    def __format__(self, spec):
        return "<SymStr>"

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __eq__(self, o):
        if not isinstance(o, _str):
            return NotImplemented if not is_tok(o) else o.__eq__(self)
        oc = chars_of(o)
        if type(self.cs[-1]) is RC or (oc and type(oc[-1]) is RC):
            return mkbool(rc_eq(self.cs, oc))
        if len(oc) != len(self.cs):
            return False
        return mkbool(c_and([c_eq(a, b) for a, b in zip(self.cs, oc)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def _lt(self, o, strict):
        a, b = self.cs, chars_of(o)
        for x, y in zip(a, b):
            if cur().branch(c_eq(x, y)):
                continue
            if isinstance(x, SC) and isinstance(y, SC):
                x = c_concretise(x)
            if isinstance(x, _int) and isinstance(y, _int):
                return x < y
            if isinstance(x, _int):
                return mkbool(y.pred(("gt", x), lambda ch: ord(ch) > x))
            return mkbool(x.pred(("lt", y), lambda ch: ord(ch) < y))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, _str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, _str) else NotImplemented

    def __gt__(self, o):
        return s_not(self._lt(o, False)) if isinstance(o, _str) else NotImplemented

    def __ge__(self, o):
        return s_not(self._lt(o, True)) if isinstance(o, _str) else NotImplemented

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        i = i.__index__()
        return mkstr((self.cs[i],)) if -len(self.cs) <= i < len(self.cs) else self._ierr()

    def _ierr(self):
        raise IndexError("string index out of range")

    def __add__(self, o):
        if isinstance(o, _str):
            return mkstr(self.cs + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, _str):
            return mkstr(chars_of(o) + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        return s_mod(self, args)

    def __contains__(self, sub):
        return builtins.bool(self.sx_contains(sub))

    # -- searching
    def _match_at(self, sub, i):
        sc = chars_of(sub)
        if i < 0 or i + len(sc) > len(self.cs):
            return False
        return c_and([c_eq(self.cs[i + k], sc[k]) for k in range(len(sc))])

    def sx_contains(self, sub):
        n = len(chars_of(sub))
        return mkbool(c_or([self._match_at(sub, i) for i in range(len(self.cs) - n + 1)]))

    def startswith(self, pre, start=0, end=None):
        s = self if start == 0 and end is None else lift(self[start:end])
        if isinstance(pre, tuple):
            return s_or(*[s.startswith(p) for p in pre])
        return mkbool(s._match_at(pre, 0))

    def endswith(self, suf, start=0, end=None):
        s = self if start == 0 and end is None else lift(self[start:end])
        if isinstance(suf, tuple):
            return s_or(*[s.endswith(p) for p in suf])
        return mkbool(s._match_at(suf, len(s.cs) - len(chars_of(suf))))

    def _rng(self, start, end):
        n = len(self.cs)
        st, en, _ = slice(start, end).indices(n)
        return st, en

    def find(self, sub, start=None, end=None):
        st, en = self._rng(start, end)
        n = len(chars_of(sub))
        if start is not None and start > len(self.cs):
            return -1
        for i in range(st, en - n + 1):
            if cur().branch(self._match_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        st, en = self._rng(start, end)
        n = len(chars_of(sub))
        for i in range(en - n, st - 1, -1):
            if cur().branch(self._match_at(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        st, en = self._rng(start, end)
        n = len(chars_of(sub))
        if n == 0:
            return max(en - st + 1, 0)
        k = 0
        i = st
        while i <= en - n:
            if cur().branch(self._match_at(sub, i)):
                k += 1
                i += n
            else:
                i += 1
        return k

    def replace(self, old, new, count=-1):
        oc, nc = chars_of(old), chars_of(new)
        out = []
        i = 0
        k = 0
        n = len(oc)
        if n == 0:
            for c in self.cs:
                if count < 0 or k < count:
                    out += nc
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out += nc
            return mkstr(out)
        while i < len(self.cs):
            if (count < 0 or k < count) and i + n <= len(self.cs) and cur().branch(self._match_at(old, i)):
                out += nc
                i += n
                k += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    # -- stripping / splitting
    def _inset(self, c, chars):
        if chars is None:
            if isinstance(c, _int):
                return chr(c).isspace()
            return c.pred(_SPACE, _isspace)
        cc = chars_of(chars)
        return c_or([c_eq(c, x) for x in cc])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and cur().branch(self._inset(self.cs[i], chars)):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, chars=None):
        i = len(self.cs)
        while i > 0 and cur().branch(self._inset(self.cs[i - 1], chars)):
            i -= 1
        return mkstr(self.cs[:i])

    def strip(self, chars=None):
        return lift(self.lstrip(chars)).rstrip(chars)

    def removeprefix(self, p):
        return mkstr(self.cs[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self.cs[:len(self.cs) - len(p)]) if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i = 0
            n = len(self.cs)
            while True:
                while i < n and cur().branch(self._inset(self.cs[i], None)):
                    i += 1
                if i >= n:
                    return out
                if 0 <= maxsplit <= len(out):
                    out.append(lift(mkstr(self.cs[i:])).rstrip())
                    return out
                j = i
                while j < n and not cur().branch(self._inset(self.cs[j], None)):
                    j += 1
                out.append(mkstr(self.cs[i:j]))
                i = j
        n = len(chars_of(sep))
        if n == 0:
            raise ValueError("empty separator")
        i = j = 0
        while j + n <= len(self.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and cur().branch(self._match_at(sep, j)):
                out.append(mkstr(self.cs[i:j]))
                j += n
                i = j
            else:
                j += 1
        out.append(mkstr(self.cs[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        n = len(chars_of(sep))
        out = []
        j = len(self.cs)
        i = j - n
        while i >= 0 and len(out) < maxsplit:
            if cur().branch(self._match_at(sep, i)):
                out.insert(0, mkstr(self.cs[i + n:j]))
                j = i
                i = j - n
            else:
                i -= 1
        out.insert(0, mkstr(self.cs[:j]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(sep)
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        n = len(sep)
        return (mkstr(self.cs[:i]), sep, mkstr(self.cs[i + n:]))

    def splitlines(self, keepends=False):
        seps = (0xA, 0xB, 0xC, 0xD, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029)
        out = []
        i = j = 0
        n = len(self.cs)
        while j < n:
            c = self.cs[j]
            br = c in seps if isinstance(c, _int) else cur().branch(c.is_in(seps))
            if not br:
                j += 1
                continue
            k = j + 1
            if cur().branch(c_eq(c, 0xD)) and k < n and cur().branch(c_eq(self.cs[k], 0xA)):
                k += 1
            out.append(mkstr(self.cs[i:k if keepends else j]))
            i = j = k
        if i < n:
            out.append(mkstr(self.cs[i:]))
        return out

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not isinstance(x, _str):
                raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
            if not first:
                out += self.cs
            first = False
            out += chars_of(x)
        return mkstr(out)

    # -- mapping
    def _mapped(self, key, fn):
        out = []
        for c in self.cs:
            if isinstance(c, _int):
                out += [ord(x) for x in fn(chr(c))]
            else:
                t, multi = _map_table(c.table, key, fn)
                if multi and cur().branch(Mem(c.var, multi)):
                    out += [ord(x) for x in fn(chr(c_concretise(c)))]
                else:
                    out.append(SC(c.var, t))
        return mkstr(out)

    def lower(self):
        # U+03A3 is context dependent in CPython
        final = {}
        for i, c in enumerate(self.cs):
            if (c == 0x3A3) if isinstance(c, _int) else cur().branch(c.is_in((0x3A3,))):
                final[i] = self._near(i, -1) and not self._near(i, 1)
        if True in final.values():
            cs = tuple(0x3C2 if final.get(i) else c for i, c in enumerate(self.cs))
            return SymStr(cs)._mapped("lower", _str.lower)
        return self._mapped("lower", _str.lower)

    def _near(self, i, step):
        """is the next character in direction step that is not case-ignorable a cased one?"""
        j = i + step
        while 0 <= j < len(self.cs):
            c = self.cs[j]
            if _ignorable(chr(c)) if isinstance(c, _int) else cur().branch(c.pred("ignorable", _ignorable)):
                j += step
                continue
            return _casedni(chr(c)) if isinstance(c, _int) else cur().branch(c.pred("casedni", _casedni))
        return False

    def upper(self):
        return self._mapped("upper", _str.upper)

    def casefold(self):
        return self._mapped("casefold", _str.casefold)

    def swapcase(self):
        return self._mapped("swapcase", _str.swapcase)

    def capitalize(self):
        if not self.cs:
            return self
        return mkstr(chars_of(lift(self[:1])._mapped("title", _str.title))
                     + chars_of(lift(self[1:]).lower()))

    def title(self):
        return _str_concrete(self).title()

    def translate(self, table):
        return _str_concrete(self).translate(table)

    # -- predicates
    def _all(self, key, fn):
        if not self.cs:
            return False
        return mkbool(c_and([fn(chr(c)) if isinstance(c, _int) else c.pred(key, fn) for c in self.cs]))

    def isdigit(self):
        return self._all("isdigit", _str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", _str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", _str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", _str.isalpha)

    def isalnum(self):
        return self._all("isalnum", _str.isalnum)

    def isspace(self):
        return self._all("space", _isspace)

    def isascii(self):
        return mkbool(c_and([c < 128 if isinstance(c, _int) else c.pred("ascii", _str.isascii)
                             for c in self.cs]))

    def isprintable(self):
        return mkbool(c_and([chr(c).isprintable() if isinstance(c, _int)
                             else c.pred("printable", _str.isprintable) for c in self.cs]))

    def isupper(self):
        return s_and(mkstr(self.cs) == lift(self).upper(), self._hascase())

    def islower(self):
        return s_and(mkstr(self.cs) == lift(self).lower(), self._hascase())

    def _hascase(self):
        f = lambda ch: ch.isupper() or ch.islower()  # noqa
        return mkbool(c_or([f(chr(c)) if isinstance(c, _int) else c.pred("cased", f) for c in self.cs]))

    # -- padding
    def ljust(self, w, fill=" "):
        return mkstr(self.cs + chars_of(fill) * max(0, w - len(self.cs)))

    def rjust(self, w, fill=" "):
        return mkstr(chars_of(fill) * max(0, w - len(self.cs)) + self.cs)

    def center(self, w, fill=" "):
        pad = max(0, w - len(self.cs))
        left = pad // 2 + (pad & w & 1)
        return mkstr(chars_of(fill) * left + self.cs + chars_of(fill) * (pad - left))

    def expandtabs(self, tabsize=8):
        return _str_concrete(self).expandtabs(tabsize)

    def format(self, *a, **k):
        return s_format(self, a, k)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self, encoding, errors)

    def __getattr__(self, name):
        if name.startswith("_sx") or name in ("value", "sx_tok", "read", "tolist", "data", "__html__"):
            raise AttributeError(name)
        if hasattr(_str, name):
            raise Unsupported("str." + name)
        raise AttributeError("'str' object has no attribute %r" % name)


def _str_concrete(s):
    return "".join(chr(c_concretise(c)) for c in s.cs)


class SymBytes:
    """encoded text; only good for writing to the modelled file system"""
    __slots__ = ("s", "encoding", "errors")

    def __init__(self, s, encoding, errors):
        self.s, self.encoding, self.errors = s, encoding, errors

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") == self.encoding.lower().replace("_", "-"):
            return self.s
        raise Unsupported("decode with another encoding")

    def __getattr__(self, n):
        raise Unsupported("bytes." + n)


def lift(s):
    if type(s) is SymStr:
        return s
    return SymStr(chars_of(s))


def is_tok(x):
    return hasattr(type(x), "sx_tok")


# ------------------------------------------------------------------ numbers
def _zint(x):
    if isinstance(x, SymInt):
        return x.e
    return z3.IntVal(_int(x))


def num_z(x):
    """(z3 arith expr, vars, is_real)"""
    t = type(x)
    if t is SymInt:
        return x.e, x.vars, False
    if t is SymReal:
        return x.e, x.vars, True
    if t is SymFloat:
        return x.real(), x.vars(), True
    if t is SymBool:
        return z3.If(to_z3(x.c), z3.IntVal(1), z3.IntVal(0)), tuple(core.c_vars(x.c, set())), False
    if isinstance(x, builtins.bool):
        return z3.IntVal(_int(x)), (), False
    if isinstance(x, _int):
        return z3.IntVal(x), (), False
    if isinstance(x, builtins.float):
        if x != x or x in (builtins.float("inf"), -builtins.float("inf")):
            raise Unsupported("nan/inf")
        return z3.RealVal(repr(x) if "e" not in repr(x) else "%.20f" % x), (), True
    return None


def _arith(a, b, fn, real_result=None):
    x, y = num_z(a), num_z(b)
    if x is None or y is None:
        return NotImplemented
    ex, ey = x[0], y[0]
    real = x[2] or y[2]
    if real:
        if not x[2]:
            ex = z3.ToReal(ex)
        if not y[2]:
            ey = z3.ToReal(ey)
    e = z3.simplify(fn(ex, ey))
    vs = tuple(set(x[1]) | set(y[1]))
    return mkreal(e, vs) if real else mkint(e, vs)


_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}


def _cmp(a, b, fn, op=None):
    if op is not None:
        if type(a) is SymReal and a.name is not None and type(b) in (_int, builtins.float) and b == b and abs(b) != builtins.float("inf"):
            return mkbool(core.rng(a.name, a.e, op, b))
        if type(b) is SymReal and b.name is not None and type(a) in (_int, builtins.float) and a == a and abs(a) != builtins.float("inf"):
            return mkbool(core.rng(b.name, b.e, _FLIP[op], a))
    x, y = num_z(a), num_z(b)
    if x is None or y is None:
        return NotImplemented
    ex, ey = x[0], y[0]
    if x[2] and not y[2]:
        ey = z3.ToReal(ey)
    if y[2] and not x[2]:
        ex = z3.ToReal(ex)
    e = z3.simplify(fn(ex, ey))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return mkbool(Z(e, tuple(set(x[1]) | set(y[1]))))


def mkint(e, vars_=()):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, vars_)


def mkreal(e, vars_=()):
    return SymReal(e, vars_)


class _Num:
    __slots__ = ()

    def __add__(self, o):
        return _arith(self, o, lambda a, b: a + b)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __radd__(self, o):
        return _arith(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return _arith(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _arith(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (_str, list, tuple)):
            return o * self.__index__()
        return _arith(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return _arith(0, self, lambda a, b: a - b)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b, "<")

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        if num_z(o) is None:
            return NotImplemented
        return _cmp(self, o, lambda a, b: a == b, "==")

    def __ne__(self, o):
        if num_z(o) is None:
            return NotImplemented
        return _cmp(self, o, lambda a, b: a != b)

    def __bool__(self):
        return builtins.bool(_cmp(self, 0, lambda a, b: a != b))

    def __truediv__(self, o):
        return self._div(self, o)

    def __rtruediv__(self, o):
        return self._div(o, self)

    @staticmethod
    def _div(a, b):
        x, y = num_z(a), num_z(b)
        if x is None or y is None:
            return NotImplemented
        if b == 0:
            raise ZeroDivisionError("division by zero")
        ex = x[0] if x[2] else z3.ToReal(x[0])
        ey = y[0] if y[2] else z3.ToReal(y[0])
        return mkreal(z3.simplify(ex / ey), tuple(set(x[1]) | set(y[1])))

    def __floordiv__(self, o):
        return self._fdiv(self, o)

    def __rfloordiv__(self, o):
        return self._fdiv(o, self)

    @staticmethod
    def _fdiv(a, b):
        x, y = num_z(a), num_z(b)
        if x is None or y is None or x[2] or y[2]:
            raise Unsupported("real floor division")
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        vs = tuple(set(x[1]) | set(y[1]))
        if b > 0:  # z3 div is floor for positive divisors
            return mkint(z3.simplify(x[0] / y[0]), vs)
        return mkint(z3.simplify((-x[0]) / (-y[0])), vs)

    def __mod__(self, o):
        return self - self._fdiv(self, o) * o

    def __rmod__(self, o):
        if isinstance(o, _str):
            return NotImplemented
        return o - self._fdiv(o, self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __and__(self, o):
        if isinstance(o, _int) and type(o) is not SymInt and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("int &")

    __rand__ = __and__

    def __pow__(self, o):
        if type(o) is _int and 0 <= o < 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("pow")

    def __format__(self, spec):
        return "<SymNum>"

    def __repr__(self):
        return "<SymNum>"

    __str__ = __repr__


class SymInt(_Num):
    __slots__ = ("e", "vars", "digits")

    def __init__(self, e, vars_=(), digits=None):
        self.e = e
        self.vars = tuple(vars_)
        self.digits = digits  # (negative, digits read, perhaps with leading zeros), a str once canonical

    @property
    def text(self):
        """canonical decimal text if the number was read from text, or None"""
        d = self.digits
        if type(d) is tuple:
            neg, cs = d
            i = 0
            while i < len(cs) - 1 and cur().branch(c_eq(cs[i], 48)):
                i += 1
            if neg and len(cs) - i == 1:
                neg = not cur().branch(c_eq(cs[i], 48))
            d = self.digits = mkstr(((45,) if neg else ()) + tuple(cs[i:]))
        return d

    @property
    def __class__(self):
        return _int

    def __index__(self):
        return conc_int(self)

    __int__ = __index__

    def __float__(self):
        return builtins.float(conc_int(self))

    def __hash__(self):
        return hash(conc_int(self))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def bit_length(self):
        return conc_int(self).bit_length()

    def is_integer(self):
        return True

    def __getattr__(self, n):
        if hasattr(_int, n):
            raise Unsupported("int." + n)
        raise AttributeError("'int' object has no attribute %r" % n)


def conc_int(x, limit=2000):
    """fork over the feasible values of a symbolic int"""
    if not isinstance(x, SymInt) or type(x) is not SymInt:
        return x
    p = cur()
    for _ in range(limit):
        # deterministic choice: smallest non-negative feasible value found by bisection-free probing
        v = _probe(p, x)
        if v is None:
            raise core.PathAbort()
        if p.branch(Z(x.e == v, x.vars)):
            return v
    raise Unsupported("too many values for a symbolic int")


def _probe(p, x):
    # reproducible: the solver model may differ between runs, so minimise |x|
    if p.pos < len(p.prefix):
        # replay: the value tried is recorded in the trace as an int choice
        v = p.prefix[p.pos]
        p.pos += 1
        p.trace.append(v)
        return v
    res, m = p.model_for(True)
    if m is None:
        return None
    v = m.eval(x.e, model_completion=True).as_long()
    # prefer small magnitudes: try to improve with a few bounded queries
    lo = 0 if v >= 0 else None
    if lo == 0:
        a, b = 0, v
        while a < b:
            mid = (a + b) // 2
            if p.sat(Z(z3.And(x.e >= 0, x.e <= mid), x.vars)):
                b = mid
            else:
                a = mid + 1
        v = a
    p.trace.append(v)
    return v


class SymReal(_Num):
    __slots__ = ("e", "vars", "name")

    def __init__(self, e, vars_=(), name=None):
        self.e = e
        self.name = name
        self.vars = tuple(vars_)

    @property
    def __class__(self):
        return builtins.float

    def __hash__(self):
        return SymKeyHash.get(self)

    def trunc(self):
        e = z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
        return mkint(e, self.vars)

    def __int__(self):
        return conc_int(self.trunc())

    __trunc__ = __int__

    def __floor__(self):
        return mkint(z3.simplify(z3.ToInt(self.e)), self.vars)

    def __ceil__(self):
        return mkint(z3.simplify(-z3.ToInt(-self.e)), self.vars)

    def __round__(self, n=None):
        k = 10 ** (n or 0)
        y = self.e * k
        f = z3.ToInt(y)
        d = y - z3.ToReal(f)
        r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1,
                                                 z3.If(f % 2 == 0, f, f + 1)))
        if n is None:
            return mkint(z3.simplify(r), self.vars)
        return mkreal(z3.simplify(z3.ToReal(r) / k), self.vars)

    def __float__(self):
        raise Unsupported("float(SymReal) in C code")

    def is_integer(self):
        return mkbool(Z(self.e == z3.ToReal(z3.ToInt(self.e)), self.vars))

    def __getattr__(self, n):
        if hasattr(builtins.float, n):
            raise Unsupported("float." + n)
        raise AttributeError(n)


class SymKeyHash:
    @staticmethod
    def get(x):
        raise Unsupported("hash of a symbolic real")


class SymFloat(_Num):
    """a float read from decimal text: sign, integer digits, fraction digits (made canonical -
    no leading zeros except one, no trailing zeros in the fraction - when its text is asked for)"""
    __slots__ = ("neg", "ip", "fp", "canonical")

    def __init__(self, neg, ip, fp):
        self.neg, self.ip, self.fp = neg, ip, fp
        self.canonical = False

    def canon(self):
        if self.canonical:
            return
        ip, fp = list(self.ip), list(self.fp)
        while len(ip) > 1 and cur().branch(c_eq(ip[0], 48)):
            ip.pop(0)
        while fp and cur().branch(c_eq(fp[-1], 48)):
            fp.pop()
        if len(fp) > 4 and ip == [48] and all(cur().branch(c_eq(c, 48)) for c in fp[:4]) or len(ip) > 15:
            raise Unsupported("text of a float with an exponent")
        self.ip, self.fp, self.canonical = tuple(ip), tuple(fp), True

    @property
    def __class__(self):
        return builtins.float

    def vars(self):
        return tuple({c.var for c in self.ip + self.fp if isinstance(c, SC)})

    def real(self):
        e = z3.IntVal(0)
        n = len(self.fp)
        ds = self.ip + self.fp
        for c in ds:
            e = e * 10 + (_int(c) - 48 if isinstance(c, _int) else c.zout() - 48)
        r = z3.ToReal(e) / z3.RealVal(10 ** n)
        return z3.simplify(-r if self.neg else r)

    def text(self):
        self.canon()
        return self.raw_text()

    def raw_text(self):
        cs = ((45,) if self.neg else ()) + self.ip + (46,) + (self.fp or (48,))
        return mkstr(cs)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def trunc(self):
        e = z3.IntVal(0)
        for c in self.ip:
            e = e * 10 + (_int(c) - 48 if isinstance(c, _int) else c.zout() - 48)
        return mkint(z3.simplify(-e if self.neg else e), self.vars())

    def __int__(self):
        return conc_int(self.trunc())

    __trunc__ = __int__

    def is_integer(self):
        self.canon()
        return len(self.fp) == 0

    def __float__(self):
        raise Unsupported("float(SymFloat) in C code")

    def __round__(self, n=None):
        return SymReal(self.real(), self.vars()).__round__(n)

    def __getattr__(self, n):
        if hasattr(builtins.float, n):
            raise Unsupported("float." + n)
        raise AttributeError(n)


SYMTYPES = frozenset([SymBool, SymStr, SymInt, SymReal, SymFloat, SymBytes])


# ------------------------------------------------------------------ conversions
DIGITS = tuple(range(48, 58))


def _isdig(c):
    return (48 <= c <= 57) if isinstance(c, _int) else cur().branch(c.is_in(DIGITS))


def s_int(x=0, *a):
    if a or not is_sym(x):
        if is_tok(x):
            x = x.value
        else:
            return _int(x, *a)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return 1 if x else 0
    if t in (SymReal, SymFloat):
        return x.trunc()
    if t is _str:
        return _int(x)
    cs = x.cs
    # whitespace around, underscores and non-ASCII digits are outside the modelled cases
    neg = False
    i = 0
    if cs and cur().branch(c_or([c_eq(cs[0], 43), c_eq(cs[0], 45)])):
        neg = cur().branch(c_eq(cs[0], 45))
        i = 1
    if i >= len(cs):
        raise ValueError("invalid literal for int() with base 10")
    for c in cs[i:]:
        if not _isdig(c):
            ok = (chr(c).isspace() or chr(c) == "_" or chr(c).isdigit() or chr(c) in "+-") if isinstance(c, _int) \
                else cur().branch(c.pred("intodd", lambda ch: ch.isspace() or ch == "_" or ch.isdigit() or ch in "+-"))
            if ok:
                raise Unsupported("int() of unusual text")
            raise ValueError("invalid literal for int() with base 10")
    e = z3.IntVal(0)
    vs = set()
    for c in cs[i:]:
        if isinstance(c, _int):
            e = e * 10 + (c - 48)
        else:
            e = e * 10 + (c.zout() - 48)
            vs.add(c.var)
    e = z3.simplify(-e if neg else e)
    if not vs:
        return e.as_long()
    return SymInt(e, vs, (neg, cs[i:]))


def s_float(x=0.0):
    if is_tok(x):
        x = x.value
    if not is_sym(x):
        return builtins.float(x)
    t = type(x)
    if t in (SymReal, SymFloat):
        return x
    if t is SymInt:
        if type(x.digits) is tuple:
            return SymFloat(x.digits[0], tuple(x.digits[1]), ())
        if x.text is not None:
            cs = chars_of(x.text)
            neg = cs[0] == 45
            return SymFloat(neg, tuple(cs[1:] if neg else cs), ())
        return SymReal(z3.ToReal(x.e), x.vars)
    if t is SymBool:
        return 1.0 if x else 0.0
    cs = x.cs
    neg = False
    i = 0
    if cs and cur().branch(c_or([c_eq(cs[0], 43), c_eq(cs[0], 45)])):
        neg = cur().branch(c_eq(cs[0], 45))
        i = 1
    ip, fp = [], []
    dot = False
    shift = 0
    for j, c in enumerate(cs[i:], i):
        if _isdig(c):
            (fp if dot else ip).append(c)
        elif not dot and cur().branch(c_eq(c, 46)):
            dot = True
        elif (ip or fp) and j + 1 < len(cs) and cur().branch(c_or([c_eq(c, 101), c_eq(c, 69)])):
            exp = "".join(chr(c_concretise(d)) for d in cs[j + 1:])
            if not exp.lstrip("+-").isdigit() or len(exp) > 3:
                return builtins.float(_str_concrete(x))
            shift = _int(exp)
            break
        else:
            return builtins.float(_str_concrete(x))
    if not ip and not fp:
        raise ValueError("could not convert string to float")
    while shift > 0:
        ip.append(fp.pop(0) if fp else 48)
        shift -= 1
    while shift < 0:
        fp.insert(0, ip.pop() if ip else 48)
        shift += 1
    if not ip:
        ip = [48]
    if len(ip) + len(fp) > 15:
        return builtins.float(_str_concrete(x))
    ip = [c if isinstance(c, _int) else c.norm() for c in ip]
    fp = [c if isinstance(c, _int) else c.norm() for c in fp]
    if all(isinstance(c, _int) for c in ip + fp):
        v = builtins.float("".join(map(chr, ip)) + "." + "".join(map(chr, fp)) + "0")
        return -v if neg else v
    return SymFloat(neg, tuple(ip), tuple(fp))


def int_text(x):
    """decimal text of a symbolic int"""
    if x.text is not None:
        return x.text
    p = cur()
    neg = p.branch(Z(x.e < 0, x.vars))
    a = z3.simplify(-x.e) if neg else x.e
    n = 1
    while p.branch(Z(a >= 10 ** n, x.vars)):
        n += 1
        if n > 12:
            raise Unsupported("long symbolic int")
    out = []
    for k in range(n):
        v = core.get_var(p.fresh_name("dig"), mask_of("0123456789"))
        out.append(SC(v))
    s = z3.IntVal(0)
    for c in out:
        s = s * 10 + (c.var.z - 48)
    p.assume_c(Z(s == a, tuple(c.var for c in out) + x.vars))
    if n > 1:
        p.assume_c(Mem(out[0].var, mask_of("123456789")))
    t = mkstr(((45,) if neg else ()) + tuple(out))
    return t


def real_text(x):
    """str() of a symbolic real: only equality and concatenation on the left are known"""
    return SymStr((RC(x),))


def s_str(x="", *a, **k):
    if a or k:
        return _str(x, *a, **k)
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_text(x)
    if t is SymFloat:
        return x.text()
    if t is SymReal:
        return real_text(x)
    if t is SymBool:
        return "True" if x else "False"
    if is_tok(x):
        return s_str(x.value)
    if isinstance(x, _str):
        if hasattr(t, "sxtoken"):
            return s_str(x.sxsrc)
        return _str(x)
    if isinstance(x, (list, tuple, dict)) and deep_sym(x):
        return s_repr(x)
    return _str(x)


def deep_sym(x, depth=6):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    if isinstance(x, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(deep_sym(v, depth - 1) for v in x)
    if is_tok(x):
        return is_sym(x.value)
    return False


def s_repr(x):
    """repr with symbolic parts; string escapes are only modelled for plain characters"""
    t = type(x)
    if t is SymStr:
        plain = lambda ch: ch.isprintable() and ch not in "'\"\\"  # noqa
        for c in x.cs:
            ok = plain(chr(c)) if isinstance(c, _int) else cur().branch(c.pred("plainrepr", plain))
            if not ok:
                return repr(_str_concrete(x))
        return mkstr((39,) + x.cs + (39,))
    if is_sym(x):
        return s_str(x)
    if deep_sym(x):
        if isinstance(x, list):
            return lift("[") + lift(", ").join([s_repr(v) for v in x]) + "]"
        if isinstance(x, tuple):
            return lift("(") + lift(", ").join([s_repr(v) for v in x]) + (",)" if len(x) == 1 else ")")
        raise Unsupported("repr of a symbolic container")
    return repr(x)


def s_format_value(v, conv, spec):
    if conv == "r":
        v = s_repr(v)
    elif conv == "s":
        v = s_str(v)
    elif conv == "a":
        if deep_sym(v):
            raise Unsupported("ascii()")
        v = ascii(v)
    if is_sym(spec):
        raise Unsupported("symbolic format spec")
    if is_sym(v) or is_tok(v):
        if not spec or spec == "s":
            return s_str(v)
        if type(v) is SymStr:
            import re as _re
            m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?s?", spec)
            if m:
                fill, al, w = m.group(1) or " ", m.group(2) or "<", _int(m.group(3) or 0)
                return {"<": v.ljust, ">": v.rjust, "^": v.center}[al](w, fill)
        if type(v) is SymInt and spec == "d":
            return s_str(v)
        if type(v) is SymInt:
            return format(conc_int(v), spec)
        raise Unsupported("format spec %r" % spec)
    if not spec and isinstance(v, (list, tuple, dict)) and deep_sym(v):
        return s_str(v)
    return format(v, spec)


def s_concat(parts):
    if any(type(p) is SymStr for p in parts):
        out = []
        for p in parts:
            out += chars_of(p)
        return mkstr(out)
    return "".join(parts)


def s_format(tmpl, args, kw):
    import string
    if type(tmpl) is SymStr:
        tmpl = _str_concrete(tmpl)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec and "{" in spec:
            spec = s_format(spec, args, kw)
            if is_sym(spec):
                raise Unsupported("symbolic format spec")
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == "":
            v = args[auto]
            auto += 1
        elif isinstance(first, _int):
            v = args[first]
        else:
            v = kw[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else v[name]
        out.append(s_format_value(v, conv, spec or ""))
    return s_concat(out)


def s_mod(fmt, args):
    """printf-style formatting"""
    if type(fmt) is SymStr:
        fmt = _str_concrete(fmt)
    import re as _re
    single = not isinstance(args, tuple)
    if isinstance(args, dict) and "%(" in fmt:
        out = []
        pos = 0
        for m in _re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(\.\d+)?([a-zA-Z%])", fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            out.append("%" if m.group(5) == "%" else _mod1(m, args[m.group(1)]))
        out.append(fmt[pos:])
        return s_concat(out)
    al = [args] if single else list(args)
    out = []
    pos = 0
    for m in _re.finditer(r"%()([-+ #0]*)(\d+|\*)?(\.(?:\d+|\*))?([a-zA-Z%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if not al:
            raise TypeError("not enough arguments for format string")
        if m.group(3) == "*":
            w = al.pop(0)
            v = al.pop(0)
            out.append(_mod1(m, v, w.__index__()))
            continue
        out.append(_mod1(m, al.pop(0)))
    out.append(fmt[pos:])
    if al and not (single and isinstance(args, dict)):
        raise TypeError("not all arguments converted during string formatting")
    return s_concat(out)


def _mod1(m, v, width=None):
    flags, w, prec, ty = m.group(2), m.group(3), m.group(4), m.group(5)
    if width is None and w and w != "*":
        width = _int(w)
    if not (is_sym(v) or is_tok(v) or deep_sym(v)):
        return ("%" + flags + (_str(width) if width is not None else "") + (prec or "") + ty) % (v,)
    if ty == "s":
        r = s_str(v)
    elif ty == "r":
        r = s_repr(v)
    elif ty in "di":
        r = s_str(s_int(v))
    elif ty in "fgeE" and type(v) in (SymInt, SymFloat, SymReal):
        raise Unsupported("%%%s of a symbolic number" % ty)
    else:
        raise Unsupported("%" + ty)
    if width:
        r = lift(r).ljust(width) if "-" in flags else lift(r).rjust(width)
    return r
