"""C04: formatting is a deterministic normal form."""
from symex.runner import Unit
import copy
import vocab
import gen
import docs
import opts
import c03
import longs

BOUNDS = ("texts written from loaded texts and from plain dictionaries: every (block type, keyword, schema alternative), every "
          "other value class per keyword, nested documents with one or two symbolic leaves, 12 option sets and all option "
          "combinations on one document; strings up to 2 characters without the quote character in use")


# create(type, version) prunes schemas in place: these units load them afresh on every path
FRESH_SCHEMAS = ("created",)


def normal(ctx, d, o, label):
    """d a dictionary; its text is a fixed point"""
    m = ctx.mappyfile
    t = m.dumps(d, **o)
    ctx.observe("t", t)
    ctx.check(m.dumps(d, **o) == t, label + ":repeat")
    try:
        d1 = m.loads(t)
    except ctx.lark_errors():
        ctx.fail(label + ":own output rejected")
        return
    t2 = m.dumps(d1, **o)
    ctx.check(t2 == t, label + ":fixed point")
    d2 = m.loads(t2)
    ctx.check(ctx.same(d2, m.loads(t)), label + ":same dictionary")


def noquote(ctx, v, q):
    """the option's quote character in a value: see the findings of C01, and docs/pretty_printing.rst"""
    if q == "'":
        ctx.assume(ctx.not_("'" in v))


def dig(ctx, x, q):
    if isinstance(x, str):
        noquote(ctx, x, q)
    elif isinstance(x, dict):
        for k in x:
            dig(ctx, k, q)
            dig(ctx, x[k], q)
    elif isinstance(x, (list, tuple)):
        for y in x:
            dig(ctx, y, q)


def slot(ctx, t, k, kind, via, o, n=1):
    gen.STRMAX[0] = n
    q = o.get("quote", '"')
    s, v = gen.slot(ctx, t, k, kind, "v")
    dig(ctx, v, q)
    if via == "text":
        d = ctx.mappyfile.loads(t.upper() + "\nNAME x\n" + s + "\nDATA 'b'\nEND")
    else:
        d = c03.slotdict(t, k, kind, v)
        d["bar"] = "z"
    normal(ctx, d, o, "slot")


def cross(ctx, t, k, kind, o, n=1):
    gen.STRMAX[0] = n
    s, v = gen.value(ctx, t, k, kind, "v")
    dig(ctx, v, o.get("quote", '"'))
    try:
        d = ctx.mappyfile.loads(t.upper() + "\n" + k.upper() + " " + s + "\nEND")
    except ctx.lark_errors():
        ctx.check(True, "reached")
        return
    normal(ctx, d, o, "cross")


def doc(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=1 if len(os) < 9 else 2)
    o = ctx.pick("opt", os)
    d = docs.expect(inst)
    dig(ctx, d, o.get("quote", '"'))
    normal(ctx, d, o, "doc")


def doctext(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=1 if len(os) < 9 else 2)
    o = ctx.pick("opt", os)
    dig(ctx, docs.expect(inst), o.get("quote", '"'))
    normal(ctx, ctx.mappyfile.loads(docs.text(inst)), o, "doc")


def combos(ctx, name, holes):
    inst = docs.make(ctx, name, holes, strmax=1, strabc="ascii")
    o = opts.full(ctx)
    d = docs.expect(inst)
    dig(ctx, d, o["quote"])
    normal(ctx, d, o, "combos")


def nest(ctx, p, c, o):
    inst = docs.Maker(ctx, frozenset([1]), strmax=1).make(docs.nest_spec(p, c))
    d = docs.expect(inst)
    dig(ctx, d, o.get("quote", '"'))
    normal(ctx, d, o, "nest")


# (text with one hole, what fills it)
W = {
    "expr1": ("CLASS EXPRESSION ([%s] = 1 AND [b] > 2 OR NOT [c] < 3) NAME 'a' END", "word"),
    "expr2": ("CLASS EXPRESSION ( ( \"[%s]\" = 'x y' ) && ( [b] ~ 'c' ) ) END", "word"),
    "expr3": ("CLASS EXPRESSION (!([%s] + 1 * 2 - -3) = 4) END", "word"),
    "expr4": ("CLASS EXPRESSION (length('%s') > 1 || ([a] in 'a,b')) END", "word"),
    "expr5": ("LABEL TEXT ([%s] + '-' + tostring([b],\"%%.2f\")) END", "word"),
    "expr6": ("LAYER FILTER (('%s' = 'b') AND (([a] ^ 2) / 3 >= 1)) END", "word"),
    "expr7": ("LAYER FILTER NOT ([%s] = 1) NAME 'a' END", "word"),
    "expr8": ("STYLE GEOMTRANSFORM (buffer([shape],-%s)) END", "digit"),
    "regex": ("CLASS EXPRESSION /^a%s.*$/ TEXT '[a] [b]' END", "alnum"),
    "iregex": ("LAYER FILTER /%s/i FILTERITEM 'a' END", "alnum"),
    "istr": ("CLASS EXPRESSION 'a%s'i END", "alnum"),
    "list": ("CLASS EXPRESSION {a%s,b,c} END", "alnum"),
    "num": ("LAYER MINSCALEDENOM %s.50 MAXSCALEDENOM 1e%s CLASS MAXSCALEDENOM 00%s END END", "digit"),
    "numstr": ("LAYER NAME %s GROUP 1.50 DATA -0%s END", "digit"),
    "enumcase": ("MAP UNITS meters IMAGETYPE Png%s STATUS on LAYER STATUS Default TYPE point END END", "lower"),
    "escape": ("CLASS EXPRESSION 'a\\'%s' TITLE \"b\\\"c\" END", "alnum"),
    "hexcase": ("STYLE COLOR '#AbC%s00' OUTLINECOLOR '#FFF' COLORRANGE '#Ab0000' '#00cD00' END", "hex"),
    "config": ("MAP CONFIG 'a' 'x' CONFIG \"MS_ErrorFile\" '%s' CONFIG ON_MISSING_DATA fail NAME 'b' END", "word"),
    "meta": ("LAYER METADATA 'A_%s' 'x' wms_title b 'c' '' END VALIDATION 'd' '^[a-z]+$' END END", "word"),
    "path": ("MAP SYMBOLSET ../etc/sym%s.txt SHAPEPATH './data' FONTSET \"/a/b/c\" END", "lower"),
    "roots": ("CLASS NAME '%s' END CLASS STYLE WIDTH 1.0 END END METADATA 'a' 'b' END", "word"),
    "points": ("FEATURE POINTS %s 1.50 -2 3e1 END POINTS 1 2 END TEXT 'a' POINTS .5 5. END END", "digit"),
    "auto": ("LAYER PROJECTION auto END NAME 'a%s' END", "word"),
    "bool": ("LABEL FORCE true PARTIALS FALSE ANGLE auto POSITION Auto TEXT 'x%s' END", "word"),
    "bind": ("LABEL SIZE [%s] COLOR [b] OFFSET [c] 3 SHADOWSIZE [a] [b] STYLE SIZE [d] END END", "word"),
    "unknown": ("MAP FOO '%s' BAR 1 2 3 BAZ abc QUX '#aabbcc' '#aabbcd' OFF TRUE END", "word"),
}


def form(ctx, name):
    w, abc = W[name]
    n = ctx.pick("n", [1, 2])
    s = ctx.string("s", n, abc)
    if abc == "word":
        ctx.assume(ctx.not_(s[0:1].isdigit()))
    if name in ("escape", "istr"):
        ctx.assume(ctx.not_(s.endswith("i")))
    out = ""
    for i, p in enumerate(w.replace("%%", "\x00").split("%s")):
        out = out + (s if i else "") + p.replace("\x00", "%")
    o = opts.pick(ctx)
    if o.get("quote") == "'" and name in ("expr1", "escape"):
        ctx.assume(False)
    try:
        d = ctx.mappyfile.loads(out)
    except ctx.lark_errors():
        ctx.assume(False)
    normal(ctx, d, o, "form")


def created(ctx, t):
    v = ctx.pick("v", [None, 5.0, 6.4, 7.6, 8.0, 8.2])
    d = ctx.mappyfile.create(t, v)
    normal(ctx, d, opts.pick(ctx, 4), "created")


def long(ctx, name, form):
    normal(ctx, longs.make(ctx, name, form), {}, "long")


def finding(ctx, kind):
    a = ctx.string("a", (0, 1), "ab")
    if kind == "quote":
        d = {"__type__": "layer", "name": a + '"' + "b", "data": "c"}
    elif kind == "escape":
        d = ctx.mappyfile.loads("CLASS EXPRESSION 'x" + a + "\\'y' TITLE 'z' END")
        normal(ctx, d, {"quote": "'"}, "finding")
        return
    normal(ctx, d, {}, "finding")


CROSS = ["int", "float", "bool", "string", "bare", "binding", "regex", "iregex", "expr", "list", "hex", "array:int,int",
         "array:binding,binding"]


def units(tier):
    out = []
    i = 0
    ns = len(opts.SETS)
    n = 2 if tier == "thorough" else 1
    for t, k, j, kind in vocab.slots():
        i += 1
        vias = ("text", "dict") if tier == "thorough" else (("text", "dict")[i % 2],)
        for via in vias:
            if via == "text" and t in ("metadata", "validation"):
                continue
            out.append(Unit("slot:%s.%s.%d.%s.%s" % (t, k, j, kind, via), "c04.slot",
                            {"t": t, "k": k, "kind": kind, "via": via, "o": opts.SETS[(i // 2) % ns], "n": n}))
    for t in vocab.BLOCKS:
        for k in vocab.keywords(t):
            if vocab.is_block_key(t, k) or k in ("points", "pattern", "projection", "config", "metadata",
                                                "validation", "values", "connectionoptions", "include"):
                continue
            for c, kind in enumerate(CROSS):
                i += 1
                if tier == "thorough" or i % 3 == 0:
                    out.append(Unit("cross:%s.%s.%s" % (t, k, kind), "c04.cross",
                                    {"t": t, "k": k, "kind": kind, "o": opts.SETS[(i // 3) % ns], "n": n}))
    for n, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            i += 1
            if tier == "thorough" or h % 2 == 0:
                out.append(Unit("doc:%s.%d" % (n, h), "c04.doc", {"name": n, "holes": [h], "os": opts.some(tier, i)}))
            if tier == "thorough" or h % 2 == 1:
                out.append(Unit("doctext:%s.%d" % (n, h), "c04.doctext", {"name": n, "holes": [h],
                                                                         "os": opts.some(tier, i)}))
    for n in ("class", "map2") if tier == "quick" else docs.SCENARIOS:
        out.append(Unit("combos:%s" % n, "c04.combos", {"name": n, "holes": [0] if tier == "thorough" else []}))
    for p, c in docs.nestings():
        i += 1
        out.append(Unit("nest:%s.%s" % (p, c), "c04.nest", {"p": p, "c": c, "o": opts.SETS[i % ns]}))
    for n in W:
        out.append(Unit("form:" + n, "c04.form", {"name": n}))
    for t in vocab.BLOCKS:
        out.append(Unit("created:" + t, "c04.created", {"t": t}))
    out += longs.units(Unit, "c04.long", tier)
    for f in ("quote", "escape"):
        out.append(Unit("finding:" + f, "c04.finding", {"kind": f}))
    return out
