"""Environment models: file system, json, jsonref, module stand-ins for instrumented code."""
import builtins
import collections
import io
import json as _json
import os as _os
import posixpath as _pp
import sys as _sys
import types
import fnmatch
from . import core, shims, symre, larkplug
from .core import Unsupported, cur, mask_range, c_or, SURROGATES, Mem
from .values import SymStr, SymBytes, SymInt, SymReal, SymFloat, SymBool, is_sym, is_tok, chars_of, mkstr, lift, s_str, \
    table_mask, deep_sym
from .symdict import SymOD, SxDict


# ------------------------------------------------------------------ virtual file system
def _norm_enc(e):
    import codecs
    return codecs.lookup(e or "utf-8").name


def concretise_text(t):
    from .values import _str_concrete
    return _str_concrete(t) if is_sym(t) else t


class SymKey:
    """a file whose name holds symbolic characters"""
    def __init__(self, d, base):
        self.dir = d
        self.base = base


class VFS:
    def __init__(self):
        self.files = {}   # abs path -> (text, encoding name)
        self.dirs = {"/"}
        self.cwd = "/"
        self.locale_encoding = "utf-8"

    def abspath(self, p):
        p = concretise_text(_os.fspath(p) if not is_sym(p) else p)
        return _pp.normpath(_pp.join(self.cwd, p))

    def mkdir(self, p):
        p = self.abspath(p)
        while p != "/":
            self.dirs.add(p)
            p = _pp.dirname(p)

    def split(self, p):
        """(concrete directory, possibly symbolic last name)"""
        p = lift(p)
        i = p.rfind("/")
        if i < 0:
            return self.cwd, p
        d = p[:i]
        d = concretise_text(d) if is_sym(d) else str(d)
        return _pp.normpath(_pp.join(self.cwd, d or "/")), p[i + 1:]

    def find(self, p):
        """the stored path equal to p (forks on symbolic characters), or None"""
        if is_sym(p):
            d, base = self.split(p)
            for k in sorted(k for k in self.files if isinstance(k, str)):
                if _pp.dirname(k) == d and base == _pp.basename(k):
                    return k
        else:
            a = self.abspath(p)
            if a in self.files:
                return a
            d, base = _pp.dirname(a), _pp.basename(a)
        for k in self.files:
            if isinstance(k, SymKey) and k.dir == d and k.base == base:
                return k
        return None

    def key(self, p):
        """where p is or would be stored"""
        k = self.find(p)
        if k is not None:
            return k
        if is_sym(p):
            d, base = self.split(p)
            self.mkdir(d)
            return SymKey(d, base)
        a = self.abspath(p)
        self.mkdir(_pp.dirname(a))
        return a

    def put(self, path, text, encoding="utf-8"):
        self.files[self.key(path)] = (text, _norm_enc(encoding))

    def real_ok(self, p):
        return not is_sym(p) and isinstance(p, str) and p.startswith(REAL_PREFIXES) and self.abspath(p) not in self.files

    # -- reading/writing text
    def read_text(self, path, encoding, newline, errors=None, universal=True):
        k = self.find(path)
        if k is None:
            if self.real_ok(path):
                return REALCACHE_read(path, encoding)
            if not is_sym(path) and self.abspath(path) in self.dirs:
                raise IsADirectoryError(21, "Is a directory", path)
            raise FileNotFoundError(2, "No such file or directory")
        text, enc = self.files[k]
        want = _norm_enc(encoding or self.locale_encoding)
        text = reencode(text, enc, want, errors)
        if universal and newline is None:
            t = lift(text) if is_sym(text) else text
            text = t.replace("\r\n", "\n")
            text = text.replace("\r", "\n")
        return text

    def write_text(self, path, text, encoding, newline=None, errors=None):
        enc = _norm_enc(encoding or self.locale_encoding)
        check_encodable(text, enc, errors)
        if newline not in (None, "", "\n"):
            text = text.replace("\n", newline)
        a = self.key(path)
        self.files[a] = (text, enc)
        return a


REAL_PREFIXES = ()
_realcache = {}


def REALCACHE_read(path, encoding):
    st = _os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size, encoding)
    r = _realcache.get(key)
    if r is None:
        with io.open(path, encoding=encoding or "utf-8") as f:
            r = _realcache[key] = f.read()
    return r


ASCII_MASK = mask_range(0, 127)


def _chars_all(text, key, fn):
    """fork: do all characters satisfy fn?"""
    if not is_sym(text):
        return all(fn(ch) for ch in text)
    from .core import c_and
    c = c_and([fn(chr(x)) if type(x) is int else x.pred(key, fn) for x in text.cs])
    return cur().branch(c)


def _enc_ok(enc):
    def f(ch):
        try:
            ch.encode(enc)
            return True
        except UnicodeError:
            return False
    return f


def check_encodable(text, enc, errors):
    if errors not in (None, "strict"):
        if not _chars_all(text, ("enc", enc), _enc_ok(enc)):
            raise Unsupported("lossy encoding")
        return
    if enc.startswith("utf-8") and not is_sym(text):
        text.encode(enc)
        return
    if not _chars_all(text, ("enc", enc), _enc_ok(enc)):
        t = concretise_text(text)
        t.encode(enc)
        raise Unsupported("encoding")


def reencode(text, enc, want, errors):
    if enc == want:
        if want == "utf-8-sig":
            pass
        return text
    if {enc, want} <= {"utf-8", "utf-8-sig"}:
        if want == "utf-8-sig":
            return lift(text).removeprefix("\ufeff") if is_sym(text) else text.removeprefix("\ufeff")
        return "\ufeff" + text
    asc = {"utf-8", "ascii", "iso8859-1", "cp1252", "latin-1", "iso8859-15"}
    if enc in asc and want in asc and _chars_all(text, "ascii", str.isascii):
        return text
    t = concretise_text(text)
    return t.encode(enc).decode(want, errors or "strict")


class VFile:
    def __init__(self, vfs, path, mode, encoding, newline, errors, universal=True):
        self.vfs, self.name, self.mode = vfs, path, mode
        self.encoding, self.newline, self.errors = encoding, newline, errors
        self.closed = False
        self.binary = "b" in mode
        self.buf = []
        self.pos = 0
        self.text = None
        if "r" in mode:
            if self.binary:
                k = vfs.find(path)
                if k is None:
                    if vfs.real_ok(path):
                        with io.open(path, "rb") as f:
                            self.text = f.read()
                        return
                    raise FileNotFoundError(2, "No such file or directory")
                t, e = vfs.files[k]
                self.text = SymBytes(t, e, "strict") if is_sym(t) else t.encode(e)
            else:
                self.text = vfs.read_text(path, encoding, newline, errors, universal)
        elif "w" in mode or "x" in mode:
            a = vfs.abspath(path)
            if _pp.dirname(a) not in vfs.dirs:
                raise FileNotFoundError(2, "No such file or directory")
            vfs.files[a] = ("", _norm_enc(encoding) if not self.binary else "utf-8")
        elif "a" in mode:
            k = vfs.find(path)
            self.buf = [vfs.files[k][0]] if k else []

    def read(self, n=-1):
        t = self.text
        if self.binary:
            return t
        if n is None or n < 0:
            r = t[self.pos:]
            self.pos = len(t)
            return r
        r = t[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readlines(self):
        return list(self)

    def readline(self):
        for l in self:
            return l
        return ""

    def __iter__(self):
        while self.pos < len(self.text):
            t = self.text
            i = lift(t).find("\n", self.pos) if is_sym(t) else t.find("\n", self.pos)
            e = len(t) if i < 0 else i + 1
            r = t[self.pos:e]
            self.pos = e
            yield r

    def write(self, s):
        if self.binary:
            if isinstance(s, SymBytes):
                self.buf.append((s.s, s.encoding))
            else:
                self.buf.append((s.decode("utf-8"), "utf-8"))
            return
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.buf.append(s)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        self._commit()

    def _commit(self):
        if any(c in self.mode for c in "wax"):
            if self.binary:
                enc = self.buf[0][1] if self.buf else "utf-8"
                t = ""
                for s, e in self.buf:
                    t = t + s if not is_sym(s) else lift(t) + s
                self.vfs.files[self.vfs.key(self.name)] = (t, _norm_enc(enc))
                return
            t = ""
            for s in self.buf:
                t = t + s
            self.vfs.write_text(self.name, t, self.encoding, self.newline, self.errors)

    def close(self):
        if not self.closed:
            self.closed = True
            self._commit()

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "r" not in self.mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Env:
    """the environment of one path"""

    def __init__(self):
        self.vfs = VFS()


ENV = Env()


def v_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    return VFile(ENV.vfs, file, mode, encoding, newline, errors)


def v_codecs_open(filename, mode="r", encoding=None, errors="strict", buffering=-1):
    # codecs.open with an encoding opens in binary mode: no newline translation
    if encoding is None:
        return VFile(ENV.vfs, filename, mode, None, None, errors)
    return VFile(ENV.vfs, filename, mode.replace("b", ""), encoding, "", errors, universal=False)


class PassThrough(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__file__",):
            raise AttributeError(n)
        return getattr(self.__dict__["_real"], n)


def _sp_exists(p):
    v = ENV.vfs
    if v.find(p) is not None:
        return True
    if is_sym(p):
        return False
    if v.abspath(p) in v.dirs:
        return True
    return v.real_ok(p) and _os.path.exists(p)


def _sp_isfile(p):
    v = ENV.vfs
    if v.find(p) is not None:
        return True
    return v.real_ok(p) and _os.path.isfile(p)


def _sp_isdir(p):
    v = ENV.vfs
    if is_sym(p):
        return False
    if v.abspath(p) in v.dirs:
        return True
    return v.real_ok(p) and _os.path.isdir(p)


def v_fspath(p):
    if is_sym(p):
        return p
    return _os.fspath(p)


class _StatResult:
    st_mode = 0o100644
    st_size = 0
    st_mtime = 0.0


def v_stat(p, **k):
    import stat
    if _sp_isdir(p) and not _sp_isfile(p):
        r = _StatResult()
        r.st_mode = stat.S_IFDIR | 0o755
        return r
    if _sp_isfile(p):
        r = _StatResult()
        r.st_mode = stat.S_IFREG | 0o644
        return r
    raise FileNotFoundError(2, "No such file or directory")


def v_glob(pattern, **kw):
    v = ENV.vfs
    pat = concretise_text(pattern)
    ap = v.abspath(pat)
    out = []
    rel = not pat.startswith("/")
    if any(isinstance(k, SymKey) for k in v.files):
        raise Unsupported("glob over symbolic file names")
    cands = list(v.files) + list(v.dirs)
    if not any(c in pat for c in "*?["):
        return [pat] if ap in v.files or ap in v.dirs else []
    for f in sorted(set(cands)):
        if f.count("/") == ap.count("/") and fnmatch.fnmatchcase(f, ap) and not _pp.basename(f).startswith("."):
            out.append(_pp.relpath(f, v.cwd) if rel else f)
    return out


# ------------------------------------------------------------------ json
def _conv_json(x, hook, keyconv=True):
    """what json.loads(json.dumps(x)) gives"""
    if isinstance(x, dict):
        pairs = []
        for k, v in x.items():
            if not isinstance(k, str):
                if k is True or k is False or k is None:
                    k = _json.dumps(k)
                elif isinstance(k, (int, float)):
                    k = s_str(k) if is_sym(k) else _json.dumps(k)
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            elif not is_sym(k):
                k = str(k)
            pairs.append((k, _conv_json(v, hook)))
        if hook is not None:
            return hook(pairs)
        d = SxDict()
        for k, v in pairs:
            d[k] = v
        return d
    if isinstance(x, (list, tuple)):
        return [_conv_json(v, hook) for v in x]
    if is_sym(x):
        if isinstance(x, SymBytes):
            raise TypeError("Object of type bytes is not JSON serializable")
        return x
    if isinstance(x, str):
        v = getattr(x, "value", x)
        return v if is_sym(v) else str(x)
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, float):
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


class JsonText:
    """json text of a structure with symbolic parts; only json.loads understands it"""

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return str

    def __getattr__(self, n):
        raise Unsupported("text of a symbolic json document")


def _has_symod(x):
    return deep_sym(x, 12)


class _PlainEnc(_json.JSONEncoder):
    pass


def v_json_dumps(x, **kw):
    if _has_symod(x):
        return JsonText(_conv_json(x, None))
    return _json.dumps(x, **kw)


def v_json_loads(s, object_pairs_hook=None, **kw):
    if isinstance(s, SymStr) is False and type(s) is JsonText:
        return _conv_json(s.data, object_pairs_hook)
    if is_sym(s):
        raise Unsupported("json.loads of symbolic text")
    if object_pairs_hook is None and not kw:
        return _json.loads(s, object_pairs_hook=JSON_HOOK)
    return _json.loads(s, object_pairs_hook=object_pairs_hook, **kw)


JSON_HOOK = None  # builtin dicts: schemas are only looked up with concrete keys


def v_json_load(fp, **kw):
    return v_json_loads(fp.read(), **kw)


def v_json_dump(x, fp, **kw):
    fp.write(v_json_dumps(x, **kw))


# ------------------------------------------------------------------ jsonref
_jr_cache = {}
JSONREF_SHARED = True


class SharedSchemas:
    """set per harness: whether expanded schemas may be shared between paths"""


def v_jsonref_load(fp, base_uri="", **kw):
    import jsonref
    text = fp.read()
    if JSONREF_SHARED:
        key = (text, base_uri)
        r = _jr_cache.get(key)
        if r is None:
            r = _jr_cache[key] = jsonref.loads(text, base_uri=base_uri, **kw)
            _force(r)
        return r
    if "loader" not in kw:
        kw["loader"] = _schema_text_loader
    return jsonref.loads(text, base_uri=base_uri, **kw)


_texts = {}


def _schema_text_loader(uri, **kw):
    """jsonref's own loader, reading each file once: every call gives fresh objects"""
    import jsonref
    if not uri.startswith("file:"):
        return jsonref.jsonloader(uri, **kw)
    t = _texts.get(uri)
    if t is None:
        from urllib.request import urlopen
        with urlopen(uri) as f:
            t = _texts[uri] = f.read().decode("utf-8")
    return _json.loads(t, **kw)


def _force(x, seen=None):
    seen = set() if seen is None else seen
    import jsonref
    if isinstance(x, jsonref.JsonRef):
        x = x.__subject__
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in dict.values(x):
            _force(v, seen)
    elif isinstance(x, list):
        for v in x:
            _force(v, seen)


# ------------------------------------------------------------------ warnings/sys/click
class EchoLog:
    def __init__(self):
        self.lines = []


ECHO = EchoLog()


def v_echo(message=None, file=None, nl=True, err=False, color=None):
    if not err and file is None:
        ECHO.lines.append(message if message is not None else "")


def v_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        t = ""
        for i, a in enumerate(args):
            t = t + (sep if i else "") + (a if isinstance(a, str) else str(a))
        ECHO.lines.append(t)


class ClickShim(PassThrough):
    pass


def make_overrides(world_getter):
    """module table for a World"""
    import codecs as _codecs
    import copy as _copy
    import glob as _glob
    import click as _click
    import jsonref as _jsonref
    import lark as _lark
    import logging as _logging

    ov = {}
    coll = PassThrough("collections", collections, OrderedDict=SymOD)
    ov["collections"] = coll
    ov["re"] = symre.ReModule
    ov["logging"] = shims.LoggingShim()
    ov["io"] = PassThrough("io", io, open=v_open)
    ov["codecs"] = PassThrough("codecs", _codecs, open=v_codecs_open)
    ov["json"] = PassThrough("json", _json, dumps=v_json_dumps, loads=v_json_loads, load=v_json_load,
                             dump=v_json_dump)
    ov["glob"] = PassThrough("glob", _glob, glob=v_glob, iglob=lambda p, **k: iter(v_glob(p, **k)))
    ov["jsonref"] = PassThrough("jsonref", _jsonref, load=v_jsonref_load)
    ov["click"] = PassThrough("click", _click, echo=v_echo, format_filename=lambda f, shorten=False: f)
    ov["lark"] = PassThrough("lark", _lark, Lark=larkplug.LarkShim)
    import lark.lexer as _lxm
    ov["lark.lexer"] = PassThrough("lark.lexer", _lxm, Token=larkplug.LarkToken)
    fake = types.ModuleType("lark_cython")
    fake.Token = larkplug.Token
    fake.plugins = larkplug.plugins
    ov["lark_cython"] = fake
    import importlib.metadata as _md
    eps = {}

    def entry_points(**kw):
        k = tuple(sorted(kw.items()))
        if k not in eps:
            eps[k] = _md.entry_points(**kw)
        return eps[k]

    ov["importlib.metadata"] = PassThrough("importlib.metadata", _md, entry_points=entry_points)
    path = PosixPath(world_getter)
    osm = PassThrough("os", _os, path=path, getcwd=lambda: ENV.vfs.cwd, fspath=v_fspath, stat=v_stat,
                      lstat=v_stat, chdir=_forbid, remove=_forbid, unlink=_forbid, rename=_forbid,
                      listdir=_forbid, scandir=_forbid, makedirs=_forbid, mkdir=_forbid)
    ov["os"] = osm
    ov["os.path"] = path
    ov["posixpath"] = path
    path.__dict__["_os"] = osm
    return ov


def _forbid(*a, **k):
    raise Unsupported("os call outside the file system model")


class PosixPath(types.ModuleType):
    """os.path: instrumented CPython posixpath over the modelled file system"""

    def __init__(self, world_getter):
        super().__init__("posixpath")
        self.__dict__["_wg"] = world_getter
        self.__dict__["_m"] = None
        self.__dict__["exists"] = _sp_exists
        self.__dict__["lexists"] = _sp_exists
        self.__dict__["isfile"] = _sp_isfile
        self.__dict__["isdir"] = _sp_isdir
        self.__dict__["islink"] = lambda p: False
        self.__dict__["realpath"] = self._realpath

    def _realpath(self, p, **k):
        if not is_sym(p):
            return _pp.normpath(_pp.join(ENV.vfs.cwd, p))
        return self.abspath(p)

    def _mod(self):
        m = self.__dict__["_m"]
        if m is None:
            m = self.__dict__["_m"] = _load_posixpath(self)
        return m

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(_pp, n)
        if not callable(real):
            return real
        m = self._mod()
        symf = getattr(m, n)

        def f(*a, **k):
            if any(is_sym(x) for x in a):
                return symf(*a, **k)
            if n in ("abspath",):
                return _pp.normpath(_pp.join(ENV.vfs.cwd, _os.fspath(a[0])))
            if n == "relpath":
                return symf(*a, **k)
            return real(*a, **k)
        return f


def _load_posixpath(pathobj):
    from . import loader
    import posixpath
    import genericpath
    b = dict(builtins.__dict__)
    b.update(shims.BUILTINS)
    fake_os = PassThrough("os", _os, fspath=v_fspath, getcwd=lambda: ENV.vfs.cwd, path=pathobj)

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if name == "os":
            return fake_os
        if name == "genericpath":
            return gp
        if name == "posix":
            raise ImportError(name)
        if name == "re":
            return symre.ReModule
        return __import__(name, g, l, fromlist, level)

    b["__import__"] = imp
    gp = types.ModuleType("genericpath")
    gp.__dict__.update({"__builtins__": b, "__sx__": shims.HELPER})
    exec(loader.get_code(genericpath.__file__), gp.__dict__)
    m = types.ModuleType("posixpath")
    m.__dict__.update({"__builtins__": b, "__sx__": shims.HELPER})
    exec(loader.get_code(posixpath.__file__), m.__dict__)
    return m


class VText:
    """io.StringIO over possibly symbolic text"""

    def __init__(self, text=""):
        self.t = text
        self.pos = 0

    def read(self, n=-1):
        t = self.t
        r = t[self.pos:] if n is None or n < 0 else t[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        t = self.t
        i = lift(t).find("\n", self.pos) if is_sym(t) else t.find("\n", self.pos)
        e = len(t) if i < 0 else i + 1
        r = t[self.pos:e]
        self.pos = e
        return r

    def __iter__(self):
        while self.pos < len(self.t):
            yield self.readline()

    def readlines(self):
        return list(self)

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        self.t = self.t + s if not is_sym(s) or is_sym(self.t) else lift(self.t) + s
        self.pos = len(self.t)
        return len(s)

    def getvalue(self):
        return self.t

    def seek(self, n, *a):
        self.pos = n

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
