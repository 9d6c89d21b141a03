"""The harness API, in its symbolic and its concrete form.

A harness is a function h(ctx, **params).  Run symbolically, ctx hands out solver variables and
ctx.check asks the solver; run concretely (replay), ctx hands out the values of one solver model and
the same function runs on the real, uninstrumented mappyfile."""
import hashlib

ALPHAS = {
    "digit": "0123456789",
    "lower": "abcdefghijklmnopqrstuvwxyz",
    "upper": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "alpha": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "alnum": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
    "word": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_",
    "hex": "0123456789abcdefABCDEF",
    "ascii": "".join(map(chr, range(32, 127))),
    "ws": " \t\r\n\f",
    "blank": " \t",
}


class Violation(Exception):
    pass


class MissingInput(BaseException):
    """the real code runs on where the encoding stopped: the two disagree"""


class AssumeFailed(BaseException):
    pass


def fingerprint(x):
    """a comparable form of a concrete result: types, order and values"""
    t = type(x)
    n = getattr(x, "value", None)
    if isinstance(x, dict):
        return ["D" if isinstance(x, dict) else t.__name__, [[fingerprint(k), fingerprint(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return ["L" if isinstance(x, list) else "T", [fingerprint(v) for v in x]]
    if isinstance(x, str):
        return ["s", str(n) if isinstance(n, str) else str(x)]
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, int):
        return ["i", str(x)]
    if isinstance(x, float):
        return ["f", repr(x)]
    if x is None:
        return ["n"]
    if n is not None and "oken" in t.__name__:
        return ["tok", fingerprint(n)]
    return ["o", t.__name__]


FILES = ("__init__", "parser", "transformer", "pprint", "quoter", "validator", "utils", "ordereddict", "dictutils", "tokens")


def line_code(filename, line):
    """a number for a line of the package"""
    import os
    f = os.path.splitext(os.path.basename(filename))[0]
    return (FILES.index(f) if f in FILES else len(FILES)) * 5000 + line


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, root):
        self.inputs = inputs
        self.violations = []
        self.observed = []
        self.root = root
        self.log = []

    # -- inputs
    def _get(self, name):
        if name not in self.inputs:
            raise MissingInput(name)
        return self.inputs[name]

    def string(self, name, n, alphabet="any", exclude=""):
        v = "".join(map(chr, self._get(name)))
        return v

    def int(self, name, lo, hi):
        return int(self._get(name))

    def real(self, name, lo, hi):
        v = self._get(name)
        return float(v)

    def pick(self, name, options):
        return options[self._get(name)]

    def bool(self, name):
        return bool(self._get(name))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, detail=None):
        if not cond:
            self.violations.append((label, None if detail is None else str(detail)[:500]))
            raise Violation(label)

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def observe(self, label, value):
        self.observed.append([label, fingerprint(value)])

    # -- the code under test
    @property
    def mappyfile(self):
        import mappyfile
        return mappyfile

    def mod(self, name):
        import importlib
        return importlib.import_module("mappyfile." + name)

    def lark_errors(self):
        import lark
        return lark.exceptions.LarkError

    def fresh(self, fn):
        """fn() with freshly loaded modules"""
        import sys
        saved = {k: v for k, v in sys.modules.items() if k == "mappyfile" or k.startswith("mappyfile.")}
        for k in saved:
            del sys.modules[k]
        try:
            return fn()
        finally:
            for k in [k for k in sys.modules if k == "mappyfile" or k.startswith("mappyfile.")]:
                del sys.modules[k]
            sys.modules.update(saved)

    def interleave(self, a, b, name, limit=60000):
        """the schedule on real threads: a() here stops at that line until b() has ended in another thread"""
        import sys
        import threading
        k = self._get(name)
        st = {"t": None, "r": None, "e": None}
        seen = set()

        def run():
            try:
                st["r"] = b()
            except BaseException as e:
                st["e"] = e

        def local(frame, event, arg):
            if event == "line" and st["t"] is None:
                key = (frame.f_code.co_filename, frame.f_lineno)
                if key not in seen:
                    seen.add(key)
                    if k == line_code(*key):
                        st["t"] = threading.Thread(target=run)
                        st["t"].start()
                        st["t"].join(20)  # b may have to wait for a
            return local

        def trace(frame, event, arg):
            return local if st["t"] is None and "/mappyfile/" in frame.f_code.co_filename else None

        sys.settrace(trace)
        try:
            ra = a()
        finally:
            sys.settrace(None)
            if st["t"] is not None:
                st["t"].join()
        if st["t"] is None:
            return ra, b(), False
        if st["e"] is not None:
            raise st["e"]
        return ra, st["r"], True

    # -- files
    def path(self, rel):
        import os
        return os.path.join(self.root, rel)

    def put_file(self, rel, text, encoding="utf-8"):
        import os
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode(encoding))
        return p

    def get_file(self, rel, encoding="utf-8"):
        with open(self.path(rel), "rb") as f:
            return f.read().decode(encoding)

    def file_exists(self, rel):
        import os
        return os.path.isfile(self.path(rel))

    def mkdir(self, rel):
        import os
        os.makedirs(self.path(rel), exist_ok=True)

    def chdir(self, rel):
        import os
        self.mkdir(rel)
        os.chdir(self.path(rel))

    def text_stream(self, text):
        import io
        return io.StringIO(text)

    def cli(self, cmd, args):
        """run a click command function; (exit status, printed lines)"""
        import contextlib
        import io
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            code = run_click(cmd, args)
        return code, out.getvalue().split("\n")[:-1]

    def freeze(self, x):
        """a deep structural snapshot for purity checks"""
        return fingerprint(x)

    def same(self, a, b):
        return fingerprint(a) == fingerprint(b)

    def eq_str(self, a, b):
        return a == b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def not_(self, c):
        return not c


def run_click(cmd, args):
    try:
        cmd.main(args=list(args), prog_name="mappyfile", standalone_mode=False)
    except SystemExit as e:
        c = e.code
        if c is None:
            return 0
        if isinstance(c, int):
            return c & 0xFF
        return 1
    except Exception as e:  # click usage errors and uncaught exceptions end the process with a non-zero status
        ec = getattr(e, "exit_code", None)
        if isinstance(ec, int):
            return ec & 0xFF
        return 1
    return 0


def short(*xs):
    return hashlib.sha1(repr(xs).encode("utf-8", "replace")).hexdigest()[:12]
