"""Longer strings in one slot per way of printing a string: repeated characters at either end, words that look like
something else, and long text."""
import gen

ABC = " \t/#'.(%-"
WORDS = ["007", "1e5", "-1", "0x1F", "TRUE", "end", "NULL", "#fff", "#aabbcc", "on", "auto", "Polygon", "a;b", "a=b,c=d", "/a", "a/", "%a%",
         "http://x.org/a?b=c&d=[e]#f", "é ü", "\u4e2d\u6587", "a\tb", "NOT a", "a  b", " a ", "x" * 90, "a b " * 30, "a,b " * 22 + "c", "b" * 300, "C:\\dir\\x y"]

SLOTS = {
    "name": ("layer", lambda s: {"name": s}, False),
    "template": ("layer", lambda s: {"template": s, "type": "point"}, False),
    "data": ("layer", lambda s: {"data": s, "type": "point"}, False),
    "connection": ("layer", lambda s: {"connection": s, "connectiontype": "OGR"}, False),
    "labelitem": ("layer", lambda s: {"labelitem": s}, False),
    "filter": ("layer", lambda s: {"filter": s, "name": "x"}, True),
    "expression": ("class", lambda s: {"expression": s, "name": "x"}, True),
    "classtext": ("class", lambda s: {"text": s, "name": "x"}, True),
    "labeltext": ("label", lambda s: {"text": s, "size": 1}, True),
    "symbol": ("style", lambda s: {"symbol": s, "size": 1}, True),
    "geomtransform": ("style", lambda s: {"geomtransform": s, "size": 1}, True),
    "keyimage": ("class", lambda s: {"keyimage": s}, False),
    "kvvalue": ("layer", lambda s: {"metadata": {"a": s, "b": "c", "__type__": "metadata"}}, False),
    "kvkey": ("layer", lambda s: {"validation": {s.lower(): "c", "__type__": "validation"}}, False),
    "options": ("layer", lambda s: {"connectionoptions": {"b": s, "__type__": "connectionoptions"}, "name": "x"}, False),
    "values": ("scaletoken", lambda s: {"values": {"0": s, "__type__": "values"}, "name": "x"}, False),
    "configvalue": ("map", lambda s: {"config": {"a": s}, "name": "x"}, False),
    "projection1": ("layer", lambda s: {"projection": [s]}, False),
    "projection2": ("map", lambda s: {"projection": ["init=a", s, "b"]}, False),
    "processing": ("layer", lambda s: {"processing": ["a", s, "b"]}, False),
    "formatoption": ("outputformat", lambda s: {"formatoption": [s]}, False),
    "compfilter": ("composite", lambda s: {"compfilter": [s, s]}, False),
    "wkt": ("feature", lambda s: {"wkt": s}, False),
    "imagepath": ("web", lambda s: {"imagepath": s}, False),
    "unknown": ("map", lambda s: {"foo": s, "name": "x"}, True),
    "mapname": ("map", lambda s: {"name": s, "layers": [{"__type__": "layer", "name": s}]}, False),
    "font": ("label", lambda s: {"font": s, "encoding": "a"}, False),
    "character": ("symbol", lambda s: {"character": s, "name": "x"}, False),
    "enumword": ("map", lambda s: {"units": s, "name": "x"}, True),
}


def content(ctx, form):
    if form == "runs":
        i, j = ctx.pick("ij", [(0, 3), (3, 0), (2, 2), (1, 1)])
        a = ctx.string("a", 1, ABC)
        b = ctx.string("b", 1, ABC)
        return a * i + "m" + b * j
    if form == "words":
        return ctx.pick("w", WORDS) + ctx.string("z", (0, 1), "a1 ")
    if form == "blank":
        return ctx.string("a", 1, " \t\x0b\xa0\u2003") * ctx.pick("n", [1, 2, 3])


def make(ctx, name, form):
    """a dictionary with one such string, printed by the printer's default quote"""
    t, f, free = SLOTS[name]
    s = content(ctx, form)
    if free:
        ctx.assume(ctx.not_(gen.lookalike(ctx, s)))
    if name.startswith("projection"):
        ctx.assume(ctx.not_(s.upper() == "AUTO"))
    d = {"__type__": t}
    x = f(s)
    for k in x:
        d[k] = x[k]
    return d


def units(Unit, func, tier, skip=1, off=0):
    out = []
    i = off
    for n in SLOTS:
        for form in ("runs", "words", "blank"):
            i += 1
            if tier == "thorough" or i % skip == 0:
                out.append(Unit("long:%s.%s" % (n, form), func, {"name": n, "form": form}))
    return out
