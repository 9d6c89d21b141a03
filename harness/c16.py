"""C16: layout of the written text."""
from symex.runner import Unit
import vocab
import gen
import docs
import opts
import c06

BOUNDS = ("indent 0..13, spacers of 0-2 characters, newlines LF / CRLF / LF LF, all flag combinations; every nesting of blocks, "
          "9 documents per leaf, depth up to 5, keyword lengths 1..16 against every indent; strings up to 2 characters "
          "without line breaks; one symbolic leaf per document unit")


def layout(d, level, o, parentkey=None):
    """(kind, level, keyword, group) of every expected line"""
    sep = o.get("separate_complex_types", False)
    out = []
    t = d["__type__"]
    out.append(("open", level, t.upper(), None))
    keys = [k for k in d if not (k.startswith("__") and k.endswith("__"))]
    if t in vocab.KVBLOCKS:
        for k in keys:
            out.append(("row", level + 1, None, None))
        out.append(("end", level, t.upper(), None))
        return out
    if sep:
        keys = [k for k in keys if not c06.blockval(k, d[k])] + [k for k in keys if c06.blockval(k, d[k])]
    simple = [k for k in keys if not c06.blockval(k, d[k]) and k != "config"]
    longest = 0
    for k in simple:
        longest = max(longest, len(k))
    for k in keys:
        v = d[k]
        if k in vocab.PLURALS and isinstance(v, list):
            for x in v:
                out += layout(x, level + 1, o)
        elif k in ("points", "pattern"):
            multi = len(v) > 0 and isinstance(v[0], list)
            for ps in (v if multi else [v]):
                out.append(("open", level + 1, k.upper(), None))
                out += [("row", level + 2, None, None)] * len(ps)
                out.append(("end", level + 1, k.upper(), None))
        elif k in vocab.KVBLOCKS:
            w = {x: v[x] for x in v}
            w["__type__"] = k
            out += layout(w, level + 1, o)
        elif k == "projection":
            out.append(("open", level + 1, "PROJECTION", None))
            out += [("row", level + 2, None, None)] * (1 if isinstance(v, str) else len(v))
            out.append(("end", level + 1, "PROJECTION", None))
        elif k == "config":
            out += [("kw", level + 1, "CONFIG", None)] * len([x for x in v if not x.startswith("__")])
        elif k in ("processing", "formatoption", "compfilter", "include"):
            out += [("kw", level + 1, k.upper(), longest)] * len(v)
        elif isinstance(v, dict):
            out += layout(v, level + 1, o)
        else:
            out.append(("kw", level + 1, k.upper(), longest))
    out.append(("end", level, t.upper(), None))
    return out


def laid(ctx, d, o, label, comments=()):
    text = ctx.mappyfile.dumps(d, **o)
    ctx.observe("text", text)
    exp = []
    for x in d if isinstance(d, list) else [d]:
        exp += layout(x, 0, o)
    nl = o.get("newlinechar", "\n")
    lines = text.split(nl)
    if comments:
        lines = [l for l in lines if l.strip() not in comments]
    ctx.check(len(lines) == len(exp), label + ":line count")
    unit = o.get("spacer", " ") * o.get("indent", 4)
    ind = max(1, o.get("indent", 4))
    for line, (kind, level, kw, longest) in zip(lines, exp):
        ctx.check(ctx.not_("\n" in line) and ctx.not_("\r" in line), label + ":line break")
        ws = unit * level
        ctx.check(line.startswith(ws), label + ":indentation")
        rest = line[len(ws):]
        ctx.check(len(rest) > 0 and ctx.not_(rest[0:1] in (" ", "\t")), label + ":indentation")
        for c in comments:
            if rest.endswith(" " + c) and kind != "end":
                rest = rest[:len(rest) - len(c) - 1]
        if kind == "open":
            ctx.check(rest == kw, label + ":opener")
        elif kind == "end":
            if o.get("end_comment"):
                ctx.check(rest == "END # " + kw, label + ":end comment")
            else:
                ctx.check(rest == "END", label + ":end")
        elif kind == "kw":
            n = len(kw)
            ctx.check(rest.startswith(kw + " "), label + ":keyword")
            j = n
            while j < len(rest) and rest[j] == " ":
                j += 1
            ctx.check(j < len(rest), label + ":value on the line")
            if o.get("align_values") and longest is not None:
                ctx.check(j == (longest // ind + 1) * ind, label + ":alignment")


def clean(ctx, d, q):
    """no line breaks and no quote of the option in the strings"""
    if isinstance(d, str):
        ctx.assume(ctx.not_("\n" in d))
        ctx.assume(ctx.not_("\r" in d))
    elif isinstance(d, dict):
        for k in d:
            clean(ctx, k, q)
            clean(ctx, d[k], q)
    elif isinstance(d, (list, tuple)):
        for y in d:
            clean(ctx, y, q)


def lopts(tier, i):
    return [x for x in opts.some(tier, i) if x.get("newlinechar") != " "] or [opts.SETS[i % 6]]


def doc(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=1 if len(os) < 9 else 2)
    o = ctx.pick("opt", os)
    d = docs.expect(inst)
    clean(ctx, d, o)
    laid(ctx, d, o, "doc")


def loaded(ctx, name, o):
    inst = docs.make(ctx, name, [])
    laid(ctx, ctx.mappyfile.loads(docs.text(inst)), o, "loaded")


def combos(ctx, name, ind):
    inst = docs.make(ctx, name, [])
    o = opts.full(ctx)
    o["indent"] = ind
    laid(ctx, docs.expect(inst), o, "combos")


def nest(ctx, p, c, os):
    inst = docs.Maker(ctx, frozenset([0, 1]), strmax=1, strabc="ascii").make(docs.nest_spec(p, c))
    o = ctx.pick("opt", os)
    laid(ctx, docs.expect(inst), o, "nest")


def order(ctx, i):
    s = ctx.string("s", (1, 2), "word", exclude="0123456789")
    out = ""
    for j, p in enumerate(c06.ORDER[i].split("%s")):
        out = out + (s if j else "") + p
    o = ctx.pick("opt", [x for x in opts.SETS if x.get("newlinechar") != " "])
    laid(ctx, ctx.mappyfile.loads(out, expand_includes=False), o, "order")


def widths(ctx, ind):
    """alignment: every keyword length against every indent, keys in either order"""
    n = ctx.pick("n", list(range(1, 18)))
    m = ctx.pick("m", [1, 4, 8, 16])
    k, k2 = "x" * n, "y" * m
    d = {"__type__": "layer"}
    if ctx.bool("first"):
        d[k] = 5
        d[k2] = [1, 2]
    else:
        d[k2] = [1, 2]
        d[k] = 5
    hid = ctx.bool("hidden")
    if hid:
        d["__averylonghiddenkeyname__"] = "x"
    d["metadata"] = {"averyveryverylongkey": "v"}
    d["classes"] = [{"__type__": "class", "z": 1, "styles": [{"__type__": "style", k: 1, "width": 3}]}]
    laid(ctx, d, {"indent": ind, "align_values": True, "spacer": ctx.pick("sp", [" ", "\t"]), "end_comment": hid}, "widths")


def deep(ctx):
    """depth 5 with symbolic strings at each level"""
    o = opts.full(ctx)
    s = ctx.string("s", (0, 1), "ascii", exclude="\"'\\")
    d = {"__type__": "map", "name": s, "legend": {"__type__": "legend", "label": 1}, "layers": [
        {"__type__": "layer", "classes": [{"__type__": "class", "labels": [
            {"__type__": "label", "styles": [{"__type__": "style", "pattern": [(1, 2)], "symbol": s}], "text": s}],
            "validation": {"a": s}}], "features": [{"__type__": "feature", "points": [[(1, 2)], [(3, 4)]]}],
            "projection": ["init=epsg:1", s]}]}
    laid(ctx, d, o, "deep")


def roots(ctx):
    o = opts.full(ctx)
    s = ctx.string("s", (0, 1), "ascii", exclude="\"'\\")
    d = [{"__type__": "class", "name": s}, {"__type__": "metadata", "a": s}, {"__type__": "validation", "b": s, "cde": "f"},
         {"__type__": "connectionoptions", "b": s}, {"__type__": "symbolset", "symbols": [{"__type__": "symbol", "name": s}]},
         {"__type__": "feature", "points": [(1, 2)]}, {"__type__": "layer"}]
    laid(ctx, d, o, "roots")


def comments(ctx):
    """comment lines aside, the same layout"""
    o = ctx.pick("opt", [x for x in opts.SETS if x.get("newlinechar") != " "])
    c = "# " + ctx.string("c", 1, "alpha")
    t = ("# top\nMAP\n" + c + "\nNAME 'a' # trail\n# lay\n" + c + "\nLAYER\nTYPE POINT\n# meta\nMETADATA\n# row\n'a' 'b'\nEND\n"
         "# cls\nCLASS\nNAME 'b'\nEND\nEND\nEND")
    d = ctx.mappyfile.loads(t, include_comments=True)
    text = ctx.mappyfile.dumps(d, **o)
    plain = ctx.mappyfile.loads(t)
    nl = o.get("newlinechar", "\n")
    laid(ctx, plain, o, "comments:plain")
    kept = []
    for l in text.split(nl):
        ctx.check(ctx.not_("\n" in l) and ctx.not_("\r" in l), "comments:line break")
        if l.strip().startswith("#"):
            continue
        z = l.find(" #")
        if z >= 0 and not l.strip().startswith("END #"):
            l = l[:z]
        kept.append(l)
    exp = ctx.mappyfile.dumps(plain, **o)
    ctx.check(nl.join(kept) == exp, "comments:layout")


def units(tier):
    out = []
    i = 0
    for nm, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            i += 1
            if tier == "thorough" or i % 2:
                out.append(Unit("doc:%s.%d" % (nm, h), "c16.doc", {"name": nm, "holes": [h], "os": lopts(tier, i)}))
        for ind in (0, 1, 2, 4, 13) if tier == "thorough" else (0, 3):
            out.append(Unit("combos:%s.%d" % (nm, ind), "c16.combos", {"name": nm, "ind": ind}))
        for j, o in enumerate(opts.SETS):
            if o.get("newlinechar") != " ":
                out.append(Unit("loaded:%s.%d" % (nm, j), "c16.loaded", {"name": nm, "o": o}))
    for p, c in docs.nestings():
        i += 1
        out.append(Unit("nest:%s.%s" % (p, c), "c16.nest", {"p": p, "c": c, "os": lopts(tier, i)}))
    for q in range(len(c06.ORDER)):
        out.append(Unit("order:%d" % q, "c16.order", {"i": q}))
    for ind in range(0, 14):
        out.append(Unit("widths:%d" % ind, "c16.widths", {"ind": ind}))
    out.append(Unit("deep", "c16.deep"))
    out.append(Unit("roots", "c16.roots"))
    out.append(Unit("comments", "c16.comments"))
    return out
