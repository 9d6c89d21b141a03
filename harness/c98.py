"""development only: encoding validation on the repository's own sample Mapfiles"""
import glob
from symex.runner import Unit


def one(ctx, fn, mode):
    with open(fn, encoding="utf-8") as f:
        text = f.read()
    s = ctx.string("s", 1, "lower")
    m = ctx.mappyfile
    try:
        d = m.loads(text + "\n# " + s, expand_includes=False, include_position=mode == 1, include_comments=mode == 1)
    except ctx.lark_errors() as e:
        ctx.observe("err", type(e).__name__)
        ctx.check(True, "err")
        return
    ctx.observe("d", d)
    try:
        ctx.observe("out", m.dumps(d, align_values=mode == 1, end_comment=mode == 1))
    except ValueError as e:
        ctx.observe("err", "ValueError")
    if isinstance(d, dict) and "__type__" in d:
        ctx.observe("val", m.validate(d, 7.6 if mode else None))
    ctx.check(True, "x")


def units(tier):
    fs = glob.glob("/repo/tests/**/*.map", recursive=True) + glob.glob("/repo/docs/**/*.map", recursive=True)
    return [Unit("m%d:%s" % (k, f), "c98.one", {"fn": f, "mode": k}) for f in fs for k in (0, 1)]
