"""Replay server: runs harnesses on the real mappyfile.  One JSON request per line on stdin."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_one(func, params, inputs):
    from symex.ctx import AssumeFailed, ConcreteCtx, MissingInput, Violation
    mod, _, name = func.rpartition(".")
    fn = getattr(importlib.import_module(mod), name)
    root = tempfile.mkdtemp(prefix="sxreplay.")
    cwd = os.getcwd()
    os.chdir(root)
    c = ConcreteCtx(inputs, root)
    out = {"status": "ok"}
    try:
        fn(c, **params)
    except Violation:
        out["status"] = "violation"
    except AssumeFailed:
        out["status"] = "assume"
    except MissingInput:
        out["status"] = "violation" if c.violations else "diverged"
    except Exception as e:
        out["status"] = "violation"
        c.violations.append(("exception:%s" % type(e).__name__, traceback.format_exc()[-1500:]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    out["violations"] = c.violations
    out["observed"] = c.observed
    return out


_lark_cache = {}


def memo_lark():
    """reuse compiled grammars between replays of passing samples (not for violations)"""
    import lark
    real = lark.Lark.open.__func__

    def fast(cls, grammar_filename, rel_to=None, **options):
        if not FAST[0] or options.get("lexer_callbacks"):
            return real(cls, grammar_filename, rel_to=rel_to, **options)
        k = (grammar_filename, rel_to, repr(sorted((k, repr(v)) for k, v in options.items())))
        r = _lark_cache.get(k)
        if r is None:
            r = _lark_cache[k] = real(cls, grammar_filename, rel_to=rel_to, **options)
        return r

    lark.Lark.open = classmethod(fast)


FAST = [False]


def main():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the process which started this one
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    sys.path.insert(0, VERIF)
    repo = os.environ.get("SX_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.setrecursionlimit(3000)
    import logging
    logging.disable(logging.CRITICAL)
    import mappyfile
    assert os.path.realpath(mappyfile.__file__).startswith(repo + "/"), mappyfile.__file__
    memo_lark()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    for line in sys.stdin:
        r = json.loads(line)
        FAST[0] = r.get("fast", False)
        try:
            res = run_one(r["func"], r["params"], r["inputs"])
        except Exception:
            res = {"status": "error", "violations": [], "observed": [], "error": traceback.format_exc()[-1500:]}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
