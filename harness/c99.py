from symex.runner import Unit


def smoke(ctx, k):
    m = ctx.mappyfile
    s = ctx.string("s", k, "anysig", exclude='"')
    text = 'MAP\n NAME "' + s + '"\nEND'
    d = m.loads(text)
    ctx.observe("d", d)
    ctx.check(d["name"] == s, "name")
    out = m.dumps(d)
    ctx.observe("out", out)
    d2 = m.loads(out)
    ctx.check(ctx.same(d, d2), "rt")


def val(ctx):
    m = ctx.mappyfile
    s = ctx.string("s", 3, "any")
    d = m.loads("MAP NAME 'x' STATUS ON SIZE 10 20 END")
    d["status"] = s
    e = m.validate(d)
    ctx.observe("n", len(e))
    ctx.observe("d", d)


def units(tier):
    return [Unit("smoke:%d" % k, "c99.smoke", {"k": k}) for k in (0, 1, 2, 3)] + [Unit("val", "c99.val")]
