"""Symbolic exploration of one harness unit by re-execution."""
from fractions import Fraction
import builtins
import os
import random
import signal
import re as _real_re
import sys
import time
import traceback
from . import core
import z3
from . import ctx as C, loader, models, values as V, shims, symre, larkplug
from .core import (ALPHA, ALPHA_IDX, FULL, SURROGATES, Mem, Or, And, Z, OutOfBudget, Path, PathAbort, PathEnd,
                   SxControl, Unsupported, bits, c_and, c_not, c_or, mask_of, set_cur)
from .symdict import KeyBox
from .values import SC, SymBool, SymBytes, SymFloat, SymInt, SymReal, SymStr, chars_of, cond_of, is_sym, is_tok, mkbool, mkstr

REPO = os.environ.get("SX_REPO", "/repo")  # SX_REPO: development only (planted changes in scratch copies)
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
ROOT = "/w"
_mask_cache = {}
_mask_ids = {}


def alpha_mask(alphabet, exclude=""):
    k = (alphabet, exclude)
    m = _mask_cache.get(k)
    if m is None:
        if alphabet == "any":
            # capital sigma has a context dependent lower case: its own alphabet ("anysig")
            m = FULL & ~SURROGATES & ~mask_of([0x3A3])
        elif alphabet == "anysig":
            m = FULL & ~SURROGATES
        elif alphabet == "anycp":
            m = FULL
        else:
            m = mask_of(C.ALPHAS.get(alphabet, alphabet))
        m &= ~mask_of(exclude)
        _mask_cache[k] = m
    return m


class SymCtx:
    symbolic = True
    root = ROOT

    def __init__(self, path, result):
        self.p = path
        self.res = result
        self.names = {}
        self.obs = []
        self.checked = []
        self._world = None
        self.failed = []

    def steps(self, fn, *args, limit=1000000):
        """matcher steps taken by fn(*args), limit + 1 if there would be more"""
        k = symre.STEPS[0]
        symre.COUNT[0] = True
        symre.LIMIT[0] = k + limit
        try:
            fn(*args)
        except symre.StepLimit:
            return limit + 1
        finally:
            symre.COUNT[0] = False
            symre.LIMIT[0] = symre.STEPS[0] + 3000000
        return symre.STEPS[0] - k

    # -- inputs
    def _reg(self, name, kind, obj):
        if name in self.names:
            raise RuntimeError("input %r used twice" % name)
        self.names[name] = (kind, obj)
        return obj

    def string(self, name, n, alphabet="any", exclude=""):
        if isinstance(n, tuple):
            lo, hi = n
            n = lo + self.p.choose(hi - lo + 1)
        m = alpha_mask(alphabet, exclude)
        mi = _mask_ids.setdefault(m, len(_mask_ids))
        cs = tuple(SC(core.get_var("%s.%d/%d" % (name, i, mi), m)) for i in range(n))
        self._reg(name, "str", cs)
        return mkstr(cs)

    def int(self, name, lo, hi):
        z = z3.Int("i:" + name)
        x = SymInt(z)
        self.p.cons.append(z3.And(z >= lo, z <= hi))
        self._reg(name, "int", x)
        return x

    def real(self, name, lo, hi):
        z = z3.Real("r:" + name)
        self.p.cons.append(z3.And(z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))))
        x = SymReal(z, (), "r:" + name)
        self.p.ivl["r:" + name] = (Fraction(lo), False, Fraction(hi), False)
        self._reg(name, "real", x)
        return x

    def pick(self, name, options):
        i = self.p.choose(len(options))
        self._reg(name, "pick", i)
        return options[i]

    def bool(self, name):
        i = self.p.choose(2)
        self._reg(name, "bool", i)
        return i == 1

    # -- assertions
    def assume(self, cond):
        if type(cond) is SymBool:
            self.p.assume_c(cond.c)
            # multi-variable assumptions may contradict the path condition
            if not isinstance(self.p.simplify(cond.c), (bool, Mem)):
                if not self.p.sat(True):
                    raise PathAbort()
        elif not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        c = cond_of(cond)
        r = self.res
        r.checks += 1
        r.labels[label] = r.labels.get(label, 0) + 1
        if c is True:
            r.trivial += 1
            return
        nc = c_not(c)
        if c is False:
            res, m = self.p.model_for(True)
        else:
            e = self.p.eval3(nc)
            if e is False:
                r.proved += 1
                return
            res, m = self.p.model_for(nc)
        if res == z3.unsat:
            r.proved += 1
            if c is False:
                raise PathAbort()
            return
        if res == z3.unknown:
            r.inconclusive.append((label, "solver gave unknown"))
            self.p.assume_c(c)
            return
        inputs = self.model_inputs(m, nc if c is not False else True)
        self.failed.append((label, inputs))
        if c is False or not self.p.sat(c):
            raise PathEnd()
        self.p.assume_c(c)

    def fail(self, label, detail=None):
        self.check(False, label)

    def observe(self, label, value):
        self.obs.append((label, value))

    # -- model -> concrete
    def model_inputs(self, m, extra=True, rnd=None):
        p = self.p
        ev = {}
        known = p.ent | core.c_vars(extra, set())

        def val(var):
            if var in ev:
                return ev[var]
            d = p.domain(var)
            if m is not None and var in known:
                z = m[var.z]
                if z is not None:
                    ev[var] = z.as_long()
                    return ev[var]
            # unconstrained beyond its domain (a conjunction of domains when extra is a Mem)
            ev[var] = pref(d, rnd)
            return ev[var]

        out = {}
        for name, (kind, obj) in self.names.items():
            if kind == "str":
                out[name] = [ALPHA[val(c.var)] for c in obj]
            elif kind in ("pick", "bool"):
                out[name] = obj
            elif kind == "int":
                out[name] = m.eval(obj.e, model_completion=True).as_long() if m is not None else 0
            elif kind == "real":
                v = m.eval(obj.e, model_completion=True) if m is not None else z3.RealVal(0)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = float(v.as_fraction())
        self._ev = ev
        self._m = m
        self._val = val
        return out

    def concretise(self, x):
        """value of x under the model chosen by model_inputs"""
        if type(x) is KeyBox:
            x = x.s
        if type(x) is SymStr:
            return "".join(chr(c if type(c) is int else (ALPHA if c.table is None else c.table)[self._val(c.var)])
                           for c in x.cs)
        if type(x) is SymInt:
            return self._num(x).as_long()
        if type(x) is SymFloat:
            return float(self.concretise(SymStr(chars_of(x.raw_text()))))
        if type(x) is SymReal:
            return float(self._num(x).as_fraction())
        if type(x) is SymBool:
            return self._cond(x.c)
        if type(x) is SymBytes:
            return self.concretise(x.s)
        if is_tok(x):
            return self.concretise(x.value)
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                d[self.concretise(k)] = self.concretise(v)
            return d
        if isinstance(x, list):
            return [self.concretise(v) for v in x]
        if isinstance(x, tuple):
            return tuple(self.concretise(v) for v in x)
        if isinstance(x, str):
            v = getattr(x, "value", None)
            if v is not None and is_sym(v):
                return self.concretise(v)
        return x

    def _num(self, x):
        e = x.e
        for v in x.vars:
            if v.z.decl().name():
                e = z3.substitute(e, (v.z, z3.IntVal(self._val(v))))
        e = z3.simplify(e)
        if self._m is not None:
            e = self._m.eval(e, model_completion=True)
        return e

    def _cond(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, Mem):
            return bool((1 << self._val(c.var)) & c.mask)
        if isinstance(c, And):
            return all(self._cond(x) for x in c.xs)
        if isinstance(c, Or):
            return any(self._cond(x) for x in c.xs)
        e = c.e
        for v in c.vars:
            e = z3.substitute(e, (v.z, z3.IntVal(self._val(v))))
        if self._m is not None:
            e = self._m.eval(e, model_completion=True)
        return z3.is_true(z3.simplify(e))

    # -- the code under test
    @property
    def world(self):
        if self._world is None:
            self._world = new_world()
        return self._world

    @property
    def mappyfile(self):
        return self.world.load("mappyfile")

    def mod(self, name):
        return self.world.load("mappyfile." + name)

    def lark_errors(self):
        import lark
        return lark.exceptions.LarkError

    def fresh(self, fn):
        """fn() with freshly loaded modules"""
        saved = self._world, _cur_world[0]
        self._world = None
        try:
            return fn()
        finally:
            self._world, _cur_world[0] = saved

    def interleave(self, a, b, name, limit=60000):
        """a(), with all of b() run at an arbitrary line of the package which a executes (before its
        first visit); after a() if there is none.  Returns both results and whether b ran inside a."""
        k = self.int(name, 1, limit)
        st = {"n": 0, "r": None, "done": False}
        seen = set()

        def local(frame, event, arg):
            if event == "line" and not st["done"]:
                key = (frame.f_code.co_filename, frame.f_lineno)
                if key not in seen:
                    seen.add(key)
                    if k == C.line_code(*key):
                        st["done"] = True
                        st["r"] = b()
            return local

        def trace(frame, event, arg):
            return local if not st["done"] and "/mappyfile/" in frame.f_code.co_filename else None

        sys.settrace(trace)
        try:
            ra = a()
        finally:
            sys.settrace(None)
        if not st["done"]:
            self.assume(k == limit)
            return ra, b(), False
        return ra, st["r"], True

    # -- files
    def path(self, rel):
        if is_sym(rel):
            return ROOT + "/" + rel
        return os.path.join(ROOT, rel) if rel else ROOT

    def put_file(self, rel, text, encoding="utf-8"):
        p = self.path(rel)
        models.ENV.vfs.put(p, text, encoding)
        return p

    def get_file(self, rel, encoding="utf-8"):
        v = models.ENV.vfs
        text, enc = v.files[v.find(self.path(rel))]
        return models.reencode(text, enc, models._norm_enc(encoding), None)

    def file_exists(self, rel):
        return models.ENV.vfs.find(self.path(rel)) is not None

    def mkdir(self, rel):
        models.ENV.vfs.mkdir(self.path(rel))

    def chdir(self, rel):
        models.ENV.vfs.cwd = models.ENV.vfs.abspath(self.path(rel))
        models.ENV.vfs.mkdir(models.ENV.vfs.cwd)

    def text_stream(self, text):
        return models.VText(text)

    def cli(self, cmd, args):
        import click.types
        models.ECHO.lines = []
        saved = click.types.os
        # click itself looks at the file system too
        click.types.os = models.PassThrough("os", saved, stat=models.v_stat, access=lambda p, m: models._sp_exists(p))
        try:
            code = C.run_click(cmd, args)
        finally:
            click.types.os = saved
        out = []
        for t in models.ECHO.lines:
            out += t.split("\n")
        return code, out

    def freeze(self, x):
        return freeze(x)

    def same(self, a, b):
        return mkbool(same_c(a if isinstance(a, tuple) and a and a[0] in _FZ else freeze(a),
                             b if isinstance(b, tuple) and b and b[0] in _FZ else freeze(b)))

    def eq_str(self, a, b):
        return a == b

    def all(self, conds):
        return mkbool(c_and([cond_of(x) for x in conds]))

    def any(self, conds):
        return mkbool(c_or([cond_of(x) for x in conds]))

    def not_(self, c):
        return V.s_not(c)


_FZ = ("fzD", "fzL", "fzT", "fzV")


def freeze(x):
    if type(x) is KeyBox:
        x = x.s
    if is_tok(x):
        return ("fzV", "tok", x.value)
    if is_sym(x):
        return ("fzV", C.fingerprint(x)[0] if not isinstance(x, str) else "s", x)
    if isinstance(x, dict):
        return ("fzD", [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, list):
        return ("fzL", [freeze(v) for v in x])
    if isinstance(x, tuple):
        return ("fzT", [freeze(v) for v in x])
    if isinstance(x, str):
        v = getattr(x, "value", None)
        return ("fzV", "s", v if isinstance(v, str) else str(x))
    if isinstance(x, bool):
        return ("fzV", "b", x)
    if isinstance(x, int):
        return ("fzV", "i", x)
    if isinstance(x, float):
        return ("fzV", "f", x)
    return ("fzV", type(x).__name__, x if x is None else type(x).__name__)


def same_c(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "fzV":
        if a[1] != b[1]:
            return False
        if a[1] == "f":
            return cond_of(a[2] == b[2])
        return cond_of(a[2] == b[2])
    if len(a[1]) != len(b[1]):
        return False
    out = []
    for x, y in zip(a[1], b[1]):
        if a[0] == "fzD":
            out.append(same_c(x[0], y[0]))
            out.append(same_c(x[1], y[1]))
        else:
            out.append(same_c(x, y))
        if out[-1] is False:
            return False
    return c_and(out)


_PREF = None


def pref(d, rnd=None):
    global _PREF
    if rnd is not None:
        bs = bits(d)
        # half of the time stay with ASCII, to keep samples readable
        if rnd.random() < 0.5:
            a = [b for b in bs if 32 <= ALPHA[b] < 127]
            bs = a or bs
        return rnd.choice(bs)
    if _PREF is None:
        _PREF = [mask_of("abcdefghijklmnopqrstuvwxyz"), mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
                 mask_of("0123456789"), mask_of("".join(map(chr, range(33, 127))))]
    for m in _PREF:
        if d & m:
            return bits(d & m)[0]
    return bits(d)[0]


_harness_world = None
_overrides = None
_cur_world = [None]


def harness_world():
    global _harness_world
    if _harness_world is None:
        roots = {}
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith(".py"):
                roots[f[:-3]] = os.path.join(HARNESS, f)
        models.REAL_PREFIXES = (REPO + "/",)
        w = loader.World(REPO, overrides(), roots)
        w.builtins["open"] = models.v_open
        w.builtins["print"] = models.v_print
        _harness_world = w
    return _harness_world


def find_additional_properties(instance, schema):
    properties = list(schema.get("properties", {}))
    patterns = "|".join(schema.get("patternProperties", {}))
    for p in instance:
        hit = False
        for q in properties:
            if p == q:
                hit = True
                break
        if hit or (patterns and symre.ReModule.search(patterns, p)):
            continue
        yield p


def sorted_keys(xs, **kw):
    """only the order of names inside the text of an error depends on it"""
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        return xs
    return sorted(xs, **kw)


def overrides():
    global _overrides
    if _overrides is None:
        _overrides = models.make_overrides(lambda: _cur_world[0])
        import jsonschema._keywords as jk
        jk.re = symre.ReModule
        # the same functions without hashing the keys, which are distinct anyway
        jk.find_additional_properties = find_additional_properties
        jk.set = list
        jk.sorted = sorted_keys
        # reading the installed packages takes longer than most paths, and always gives the same
        import functools
        import importlib.metadata
        importlib.metadata.entry_points = functools.lru_cache(None)(importlib.metadata.entry_points)
        import click.types as ct
        ct.os = _overrides["os"]
        ct.format_filename = lambda f, shorten=False: f
    return _overrides


def new_world():
    w = loader.World(REPO, overrides())
    w.builtins["open"] = models.v_open
    w.builtins["print"] = models.v_print
    _cur_world[0] = w
    return w


class Result:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.trivial = 0
        self.proved = 0
        self.labels = {}
        self.inconclusive = []
        self.candidates = []   # (label, inputs)
        self.samples = []      # (inputs, observations)
        self.exhausted = False
        self.pending = []
        self.unsupported = []  # (reason, inputs)
        self.decisions = 0
        self.reached = 0
        self.funcs = {}


PATH_SECONDS = 30  # a path which takes longer is left to its replay


def _alarm(*_):
    raise Unsupported("no end within %d s" % PATH_SECONDS)


def explore(func, params, deadline, prefixes=None, max_paths=None, sample_rate=0.1, seed=1, min_samples=1):
    """run paths until none is pending or the deadline; returns a Result"""
    res = Result()
    hw = harness_world()
    mod, _, name = func.rpartition(".")
    fn = getattr(hw.load(mod), name)
    fresh = getattr(hw.load(mod), "FRESH_SCHEMAS", False)
    models.JSONREF_SHARED = not (fresh is True or (fresh and name in fresh))
    stack = list(prefixes) if prefixes is not None else [[]]
    rnd = random.Random("%s/%s/%s" % (seed, func, sorted(params.items(), key=repr)))
    while stack:
        if time.time() > deadline or (max_paths is not None and res.paths >= max_paths):
            break
        prefix = stack.pop()
        p = Path(prefix)
        p.deadline = deadline + 5
        symre.LIMIT[0] = symre.STEPS[0] + 3000000
        set_cur(p)
        signal.signal(signal.SIGALRM, _alarm)
        models.ENV.vfs = models.VFS()
        models.ENV.vfs.mkdir(ROOT)
        models.ENV.vfs.cwd = ROOT
        c = SymCtx(p, res)
        status = "ok"
        try:
            try:
                signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS, 5)
                try:
                    fn(c, **params)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Exception as e:  # an exception the harness does not expect
                status = "exc"
                res.checks += 1
                r, m = p.model_for(True)
                if r == z3.sat:
                    c.failed.append(("exception:%s" % type(e).__name__, c.model_inputs(m)))
                    res.last_tb = traceback.format_exc()[-1800:]
        except PathAbort:
            status = "abort"
        except PathEnd:
            status = "end"
        except Unsupported as e:
            status = "unsupported"
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
            reason = "%s [%s]" % (e, where)
        except RecursionError:
            status = "unsupported"
            reason = "recursion"
        except OutOfBudget as e:
            status = "unsupported"
            reason = "budget: %s" % e
        res.decisions += len(p.trace)
        stack.extend(p.pending)
        if status == "abort":
            res.aborted += 1
        else:
            res.paths += 1
            if p.unknown:
                res.inconclusive.append(("path", "solver unknown"))
            if c.failed:
                res.candidates.extend(c.failed)
            elif status == "unsupported":
                try:
                    r, m = p.model_for(True)
                    if r == z3.sat:
                        res.unsupported.append((reason, c.model_inputs(m)))
                except SxControl:
                    pass
            elif status in ("ok",):
                res.reached += 1
                want = len(res.samples) < min_samples or rnd.random() < sample_rate
                r, m = p.model_for(True)
                if r == z3.unsat:
                    res.paths -= 1
                    res.aborted += 1
                elif want:
                    try:
                        inp = c.model_inputs(m, rnd=rnd)
                        obs = [[l, C.fingerprint(c.concretise(v))] for l, v in c.obs]
                        res.samples.append((inp, obs))
                    except SxControl as e:
                        res.inconclusive.append(("sample", str(e)))
        p.close()
        set_cur(None)
    res.exhausted = not stack
    res.pending = stack
    res.funcs = {os.path.relpath(k, REPO): len(v) for k, v in loader.CODE_FUNCS.items() if k.startswith(REPO)}
    return res
