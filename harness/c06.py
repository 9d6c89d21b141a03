"""C06: formatting options never change content."""
from symex.runner import Unit
import vocab
import gen
import docs
import opts
import c03
import c04

BOUNDS = ("every (block type, keyword, schema alternative) with two option sets each, 22 nestings, 9 documents per leaf with "
          "two option sets, documents with every combination of 3 indents x 3 spacers x 2 quotes x 3 newlines x 8 flags; "
          "strings up to 2 characters without the quote character in use (docs/pretty_printing.rst), plus symbolic indents")

BLOCKKEYS = ("projection", "points", "pattern", "values", "metadata", "validation", "connectionoptions")


def blockval(k, v):
    """is the value of key k printed as a KEY ... END block"""
    if k in BLOCKKEYS or isinstance(v, dict) and k != "config":
        return True
    return k in vocab.PLURALS and isinstance(v, list)


def moved(ctx, a, b, sep):
    """b is a, where only block-valued keys may come later"""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        ka, kb = list(a.keys()), list(b.keys())
        if sep:
            if a.get("__type__") != b.get("__type__"):
                return False
            rest = [k for k in ka if k != "__type__"]
            kb = [k for k in kb if k != "__type__"]
            ka = [k for k in rest if not blockval(k, a[k])] + [k for k in rest if blockval(k, a[k])]
        if len(ka) != len(kb):
            return False
        for x, y in zip(ka, kb):
            if not x == y:
                return False
        for x in ka:
            if not moved(ctx, a[x], b[x], sep):
                return False
        return True
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not moved(ctx, x, y, sep):
                return False
        return True
    return ctx.same(a, b)


def compare(ctx, d, o, label):
    m = ctx.mappyfile
    base = m.loads(m.dumps(d))
    t = m.dumps(d, **o)
    ctx.observe("t", t)
    try:
        d2 = m.loads(t)
    except ctx.lark_errors():
        ctx.fail(label + ":formatted text rejected")
        return
    ctx.check(moved(ctx, base, d2, o.get("separate_complex_types", False)), label + ":content")


def slot(ctx, t, k, kind, os, n=1):
    gen.STRMAX[0] = n
    o = ctx.pick("o", os)
    s, v = gen.slot(ctx, t, k, kind, "v")
    c04.dig(ctx, v, o.get("quote", '"'))
    d = c03.slotdict(t, k, kind, v)
    if t == "symbol":  # SYMBOL followed by an unknown keyword is not Mapfile text
        d["font" if k == "name" else "name"] = "z"
    else:
        d["bar"] = "z"
    compare(ctx, d, o, "slot")


def doc(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=1 if len(os) < 9 else 2)
    o = ctx.pick("opt", os)
    d = docs.expect(inst)
    c04.dig(ctx, d, o.get("quote", '"'))
    compare(ctx, d, o, "doc")


def combos(ctx, name, holes):
    inst = docs.make(ctx, name, holes, strmax=1, strabc="ascii")
    o = opts.full(ctx)
    d = docs.expect(inst)
    c04.dig(ctx, d, o["quote"])
    compare(ctx, d, o, "combos")


def nest(ctx, p, c, os):
    inst = docs.Maker(ctx, frozenset([1]), strmax=1).make(docs.nest_spec(p, c))
    d = docs.expect(inst)
    o = ctx.pick("opt", os)
    c04.dig(ctx, d, o.get("quote", '"'))
    compare(ctx, d, o, "nest")


# simple keywords sharing a block's name, blocks in every position
ORDER = [
    "STYLE SYMBOL '%s' WIDTH 3 PATTERN 1 2 END COLOR 1 2 3 END",
    "STYLE SYMBOL [%s] COLOR 1 2 3 END",
    "MAP SYMBOLSET '%s' FONTSET 'b' LAYER NAME 'x' END SHAPEPATH 'c' END",
    "MAP QUERYMAP STYLE HILITE STATUS ON END NAME '%s' END",
    "MAP SCALEBAR STYLE 1 STATUS ON LABEL SIZE 3 END UNITS METERS END NAME '%s' END",
    "QUERYMAP STYLE HILITE SIZE 1 2 STATUS ON END",
    "MAP CONFIG 'a' '%s' LAYER NAME 'x' END CONFIG 'b' 'c' PROJECTION AUTO END NAME 'd' END",
    "LAYER METADATA 'z' '%s' 'long_key' 'x' END CLASS END NAME 'a' VALIDATION 'b' 'c' END PROCESSING 'd' CLASS SYMBOL 'x' END "
    "PROCESSING 'e' END",
    "CLASS SYMBOL '%s' STYLE END COLOR 1 2 3 LABEL END NAME 'b' LEADER STYLE END END TITLE 'c' END",
    "LAYER FEATURE POINTS 1 2 END TEXT '%s' POINTS 3 4 END END DATA 'x' GRID MINARCS 1 END STATUS ON CLUSTER REGION 'r' END "
    "TYPE POINT JOIN NAME 'a' TABLE 'b' END GROUP 'g' COMPOSITE OPACITY 3 COMPFILTER 'f' END TEMPLATE 't' END",
    "SYMBOLSET SYMBOL NAME '%s' POINTS 1 1 END TYPE ELLIPSE END SYMBOL FILLED TRUE END END",
    "METADATA 'a' '%s' 'bcdefghij' 'c' END CLASS NAME 'b' END",
    "OUTPUTFORMAT FORMATOPTION 'a' NAME '%s' FORMATOPTION 'b' DRIVER 'c' END",
    "MAP WEB METADATA 'a' 'b' END IMAGEPATH '%s' VALIDATION 'x' 'y' END END LEGEND LABEL END STATUS ON END SIZE 1 2 REFERENCE "
    "IMAGE 'x' END ANGLE 5 OUTPUTFORMAT NAME 'x' END IMAGETYPE 'png' SYMBOL NAME 's' END EXTENT 1 2 3 4 END",
    "LAYER SCALETOKEN VALUES '0' '%s' '1000' 'b' END NAME 't' END NAME 'x' CONNECTIONOPTIONS 'a' 'b' END TYPE POINT END",
    "LABEL TEXT ('[%s]' + 'x') STYLE GEOMTRANSFORM (buffer([shape],2)) END ANGLE AUTO STYLE WIDTH 2 END EXPRESSION {a,b} END",
    "MAP INCLUDE '%s' NAME 'a' INCLUDE \"b\" LAYER INCLUDE 'c' END DEBUG 1 END",
]


def order(ctx, i, os):
    s = ctx.string("s", (1, 2), "word", exclude="0123456789")
    out = ""
    for j, p in enumerate(ORDER[i].split("%s")):
        out = out + (s if j else "") + p
    o = ctx.pick("opt", os)
    if o.get("quote") == "'" and i == 15:
        ctx.assume(False)
    d = ctx.mappyfile.loads(out, expand_includes=False)
    compare(ctx, d, o, "order") if i != 16 else compare_inc(ctx, d, o)


def compare_inc(ctx, d, o):
    m = ctx.mappyfile
    base = m.loads(m.dumps(d), expand_includes=False)
    d2 = m.loads(m.dumps(d, **o), expand_includes=False)
    ctx.check(moved(ctx, base, d2, o.get("separate_complex_types", False)), "order:include")


def widths(ctx, i):
    """every alignment distance: key lengths against indents"""
    n = ctx.pick("n", list(range(1, 14)))
    ind = ctx.pick("ind", [0, 1, 2, 4, 5, 8, 13])
    k = "x" * n
    d = {"__type__": "layer", k: 5, "name": ctx.string("s", (0, 1), "any", exclude='"\\'), "metadata": {k: "v", "y": "w"},
         "processing": ["a", "b"], "fooo": [1, 2]}
    compare(ctx, d, {"indent": ind, "align_values": i == 0, "spacer": ctx.pick("sp", [" ", "\t"]),
                     "newlinechar": ctx.pick("nl", ["\n", "\r\n"]) if n < 4 else "\n"}, "widths")


def units(tier):
    out = []
    i = 0
    n = 2 if tier == "thorough" else 1
    for t, k, j, kind in vocab.slots():
        i += 1
        out.append(Unit("slot:%s.%s.%d.%s" % (t, k, j, kind), "c06.slot",
                        {"t": t, "k": k, "kind": kind, "os": opts.some(tier, i), "n": n}))
    for nm, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            i += 1
            out.append(Unit("doc:%s.%d" % (nm, h), "c06.doc", {"name": nm, "holes": [h], "os": opts.some(tier, i)}))
    for nm in docs.SCENARIOS:
        out.append(Unit("combos:%s" % nm, "c06.combos", {"name": nm, "holes": [0] if tier == "thorough" else []}))
    for p, c in docs.nestings():
        i += 1
        out.append(Unit("nest:%s.%s" % (p, c), "c06.nest", {"p": p, "c": c, "os": opts.some(tier, i)}))
    for q in range(len(ORDER)):
        out.append(Unit("order:%d" % q, "c06.order", {"i": q, "os": opts.SETS}))
    for q in (0, 1):
        out.append(Unit("widths:%d" % q, "c06.widths", {"i": q}))
    return out
