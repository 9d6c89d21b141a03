"""C01: parse -> print -> parse preserves content."""
from symex.runner import Unit
import vocab
import gen
import docs
import longs

BOUNDS = ("string values up to 2 characters over the whole alphabet; numbers up to 2+2 digits; every "
          "(block type, keyword, schema alternative); every other value class in every keyword")


def equiv_value(ctx, t, k, a, b):
    """equality of one keyword value up to the documented differences"""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        al = a.lower()
        if al == b.lower():
            for e in vocab.enum_values(t, k) if k in vocab.schema(t).get("properties", {}) else []:
                if isinstance(e, str) and e == al:
                    return True
        return False
    if isinstance(b, str) and not isinstance(a, bool) and isinstance(a, (int, float)):
        return str(a) == b and vocab.schema_is_string(t, k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and k in ("processing", "formatoption",
                                                                                   "compfilter", "include"):
        for x, y in zip(a, b):
            if isinstance(y, str) and not isinstance(x, (str, bool)):
                if not str(x) == y:
                    return False
            elif not same(ctx, x, y):
                return False
        return True
    if k == "projection" and isinstance(a, list) and isinstance(b, list) and len(a) == 1 and len(b) == 1:
        if same(ctx, a, b):
            return True
        return isinstance(a[0], str) and isinstance(b[0], str) and a[0].lower() == "auto" and b[0].lower() == "auto"
    return same(ctx, a, b)


def same(ctx, a, b):
    return ctx.same(a, b)


def equiv(ctx, a, b):
    """the two dictionaries say the same thing"""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        t = a.get("__type__", None)
        ka = list(a.keys())
        kb = list(b.keys())
        if len(ka) != len(kb):
            return False
        for i in range(len(ka)):
            if not (ka[i] == kb[i]):
                return False
        for k in ka:
            va, vb = a[k], b[k]
            if isinstance(va, dict):
                if not equiv(ctx, va, vb):
                    return False
            elif isinstance(va, list) and va and isinstance(va[0], dict):
                if not isinstance(vb, list) or len(va) != len(vb):
                    return False
                for x, y in zip(va, vb):
                    if not equiv(ctx, x, y):
                        return False
            elif t in vocab.BLOCKS and not k.startswith("__"):
                if not equiv_value(ctx, t, k, va, vb):
                    return False
            elif not same(ctx, va, vb):
                return False
        return True
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not equiv(ctx, x, y):
                return False
        return True
    return same(ctx, a, b)


def roundtrip(ctx, text, label, opts=None):
    m = ctx.mappyfile
    try:
        d = m.loads(text)
    except ctx.lark_errors():
        return None  # only accepted texts are in scope
    out = m.dumps(d)
    ctx.observe("out", out)
    try:
        d2 = m.loads(out)
    except ctx.lark_errors():
        ctx.fail(label + ":written text rejected")
        return None
    ctx.check(equiv(ctx, d, d2), label + ":content")
    return d


def slot(ctx, t, k, kind, tail):
    s, _ = gen.slot(ctx, t, k, kind, "v")
    text = t.upper() + "\n" + s + "\n" + tail + "END"
    d = roundtrip(ctx, text, "slot")
    ctx.check(d is not None, "slot:accepted")


def cross(ctx, t, k, kind):
    s, _ = gen.value(ctx, t, k, kind, "v")
    text = t.upper() + "\n" + k.upper() + " " + s + "\nEND"
    roundtrip(ctx, text, "cross")
    ctx.check(True, "reached")


def doc(ctx, name, holes):
    d = roundtrip(ctx, docs.text(docs.make(ctx, name, holes)), "doc")
    ctx.check(d is not None, "doc:accepted")


def nest(ctx, p, c, holes):
    inst = docs.Maker(ctx, frozenset(holes), strmax=1).make(docs.nest_spec(p, c))
    d = roundtrip(ctx, docs.text(inst), "nest")
    ctx.check(d is not None, "nest:accepted")


def special(ctx, form):
    """documents outside the schema vocabulary, repeated keywords, several roots"""
    v, _ = gen.quoted(ctx, "v", 0, 2)
    if form == "unknown":
        ctx.assume(ctx.not_(gen.lookalike(ctx, v[1:-1])))
        t = "MAP\nFOO " + v + "\nBAR 5\nLAYER\nNAME 'x'\nQUX " + v + "\nEND\nEND"
    elif form == "twice":
        t = "LAYER\nNAME " + v + "\nTYPE POINT\nNAME 'b'\nMETADATA 'a' 'b' END\nMETADATA 'c' " + v + " END\nEND"
    elif form == "roots":
        t = "CLASS NAME " + v + " END\nCLASS NAME 'b' STYLE COLOR 1 2 3 END END\nLAYER NAME 'c' END"
    elif form == "symbolset":
        t = "SYMBOLSET\nSYMBOL NAME " + v + " TYPE ELLIPSE POINTS 1 1 END END\nSYMBOL NAME 'b' END\nEND"
    elif form == "rootkv":
        kind = ctx.pick("kind", ["METADATA", "VALIDATION", "CONNECTIONOPTIONS"])
        t = kind + "\n'a' " + v + "\n'B' 'c'\nEND"
    elif form == "numbers":
        w = ctx.pick("w", ["1e5", "1E-7", "1.5e22", "123456789012345678901234567890", "0.1", "-0.0", "007",
                           "1e16", ".000001", "+5", "5.", "1e308", "100000000000000000000.0"])
        t = "LAYER MINSCALEDENOM " + w + " NAME " + v + " FOO " + w + " END"
    elif form == "numstring":
        w = ctx.pick("w", ["7", "007", "1.50", "-3", "1e5", "+4"])
        t = "LAYER NAME " + w + " DATA " + v + " GROUP " + w + " END"
    elif form == "backslash":
        a = ctx.string("a", 1, "any", exclude="'\"\\")
        b = ctx.string("b", 1, "any", exclude="'\"\\")
        t = "LAYER NAME '" + a + "\\" + b + "' DATA " + v + " END"
    elif form == "emptyblocks":
        t = "MAP WEB END LEGEND END LAYER METADATA END CLASS END CLASS STYLE END END END NAME " + v + " END"
    elif form == "backtick":
        a = ctx.string("a", (0, 2), "any", exclude="`\"\\\n")
        t = "CLASS NAME 'x' EXPRESSION `" + a + "` TITLE " + v + " END"
    elif form == "slashpath":
        a = ctx.string("a", (0, 2), "alnum", exclude="0123456789")
        e = ctx.pick("e", ["/", "/i", "/b/c", "/c/"])
        t = "CLASS STYLE SYMBOL '/" + a + e + "' END KEYIMAGE '/" + a + e + "' NAME " + v + " END"
    elif form == "parens":
        a = ctx.string("a", 1, "abx1")
        w = ctx.pick("w", ["(([%s] + 1) * ([b] + 2))", "(([%s] + 1) * 2 = ([b] + 2))", "((([%s])))", "(-([%s] + 1))",
                           "(length('(%s') > ([b]))", "('[%s])' = \"(\")", "(NOT ([%s] = 1) AND ([b] = 2))"])
        p = w.split("%s")
        t = "CLASS EXPRESSION " + p[0] + a + p[1] + " NAME " + v + " END"
    elif form == "quoteopt":
        t = "LAYER NAME " + v + " CLASS EXPRESSION ('[a]' = " + v + ") END END"
    else:
        raise ValueError(form)
    d = roundtrip(ctx, t, form)
    ctx.check(True, "reached")


SPECIAL = ["unknown", "twice", "roots", "symbolset", "rootkv", "numbers", "numstring", "backslash", "emptyblocks",
           "backtick", "quoteopt", "slashpath", "parens"]


def long(ctx, name, form):
    d0 = longs.make(ctx, name, form)
    try:
        text = ctx.mappyfile.dumps(d0)
        m = ctx.mappyfile.loads(text)
    except ctx.lark_errors():
        ctx.fail("long:rejected")
        return
    roundtrip(ctx, text, "long")


def finding(ctx, form):
    """inputs with a recorded finding: the violation is expected (known_findings.json)"""
    if form == "quote":
        a = ctx.string("a", (0, 1), "ab")
        b = ctx.string("b", (0, 1), "1i")
        w = "'" + a + '"' + b + "'"
        slot = ctx.pick("slot", ["LAYER NAME %s TYPE POINT END", "CLASS EXPRESSION %s NAME 'b' END",
                                 "LAYER METADATA 'a' %s END NAME 'b' END", "LAYER PROCESSING %s NAME 'b' END",
                                 "MAP CONFIG 'a' %s NAME 'b' END", "MAP PROJECTION %s END NAME 'b' END"])
        t = slot % ("\x00",)
        t = t.split("\x00")[0] + w + t.split("\x00")[1]
    elif form == "lookalike":
        w = ctx.pick("w", ["it'i", "[a] [b]", "{a} {b}", " [a] ", "(a b)", "[a b]", " (a) ", "{a;b}"])
        q = '"'
        t = "CLASS EXPRESSION " + q + w + q + " NAME 'b' END"
    elif form == "endslash":
        a = ctx.string("a", (0, 1), "alnum")
        t = "LAYER DATA '" + a + "\\' NAME b END"
    elif form == "uconfig":
        w = ctx.pick("w", ["\u00df", "\u0131", "\u0149"])
        t = "MAP CONFIG '" + w + "' 'b' END"
    elif form == "infinity":
        t = "LAYER MINSCALEDENOM 1e400 END"
    d = roundtrip(ctx, t, "finding")
    ctx.check(True, "reached")


CROSS = ["int", "float", "bool", "string", "bare", "binding", "regex", "iregex", "expr", "list", "hex",
         "array:int,int", "array:int,int,int", "array:binding,binding", "array:string,string"]


def units(tier):
    out = []
    for t, k, i, kind in vocab.slots():
        out.append(Unit("slot:%s.%s.%d.%s" % (t, k, i, kind), "c01.slot", {"t": t, "k": k, "kind": kind, "tail": ""}))
        if kind in ("string", "expr", "regex", "hex", "kv", "repeated", "projection"):
            out.append(Unit("slottail:%s.%s.%d.%s" % (t, k, i, kind), "c01.slot",
                            {"t": t, "k": k, "kind": kind, "tail": "METADATA \"k\" 'v' END\n"}))
    for t in vocab.BLOCKS:
        for k in vocab.keywords(t):
            if vocab.is_block_key(t, k) or k in ("points", "pattern", "projection", "config", "metadata",
                                                "validation", "values", "connectionoptions", "include"):
                continue
            for kind in CROSS:
                out.append(Unit("cross:%s.%s.%s" % (t, k, kind), "c01.cross", {"t": t, "k": k, "kind": kind}))
    for form in SPECIAL:
        out.append(Unit("special:" + form, "c01.special", {"form": form}))
    out += longs.units(Unit, "c01.long", tier)
    for form in ("quote", "lookalike", "endslash", "uconfig", "infinity"):
        out.append(Unit("finding:" + form, "c01.finding", {"form": form}))
    for n, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            out.append(Unit("doc:%s.%d" % (n, h), "c01.doc", {"name": n, "holes": [h]}))
    for p, c in docs.nestings():
        out.append(Unit("nest:%s.%s" % (p, c), "c01.nest", {"p": p, "c": c, "holes": [1]}))
    return out
