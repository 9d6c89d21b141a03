"""Symbolic value generators: Mapfile text together with the dictionary value it documents."""
import vocab

QUOTES = ['"', "'"]


def int_text(ctx, nm, maxdig=2, signs=("", "-", "+")):
    sign = ctx.pick(nm + ".sign", signs)
    return sign + ctx.string(nm + ".d", (1, maxdig), "digit")


def float_text(ctx, nm, signs=("", "-", "+")):
    sign = ctx.pick(nm + ".sign", signs)
    form = ctx.pick(nm + ".form", ["a.b", "a.", ".b"])
    a = ctx.string(nm + ".a", (1, 2), "digit") if form != ".b" else ""
    b = ctx.string(nm + ".b", (1, 2), "digit") if form != "a." else ""
    return sign + a + "." + b


STRMAX = [2]


def quoted(ctx, nm, lo=0, hi=None, alphabet="any", exclude="\\", quotes=QUOTES, dq=False):
    """a quoted string; without dq the value holds no double quote (the printer's default quote)"""
    if hi is None:
        hi = STRMAX[0]
    q = ctx.pick(nm + ".q", quotes)
    s = ctx.string(nm, (lo, hi), alphabet, exclude=exclude + q + ("" if dq or q == '"' else '"'))
    return q + s + q, s


def lookalike(ctx, s):
    """a free string that reads as an expression, list, binding or regular expression: the dictionary
    cannot tell it from one, so it is out of scope of the string units (see the lookalike units)"""
    z = s.strip()
    return ctx.any([z.startswith("(") and z.endswith(")"), z.startswith("[") and z.endswith("]"),
                    z.startswith("{") and z.endswith("}"), z.startswith("/") and (z.endswith("/") or z.endswith("/i")),
                    s.endswith("'i"), s.endswith('"i')])


def free(ctx, t, k):
    """does the schema give the keyword an expression-like alternative, so that quoting is content-driven?"""
    if k not in vocab.schema(t).get("properties", {}):
        return False
    p = vocab.resolve(vocab.schema(t)["properties"][k])
    return "oneOf" in p or "anyOf" in p or p.get("description") == "expression" or p.get("type") != "string"


RESERVED = sorted(["end", "true", "false", "null", "auto", "hilite", "selected", "not", "and", "or", "in", "ne",
                      "eq", "le", "lt", "ge", "gt", "like", "points", "pattern", "projection", "config", "values",
                      "metadata", "validation", "connectionoptions", "symbolset"] + vocab.BLOCKS)


def case_word(ctx, nm, word):
    """the word in any letter case (every letter a solver variable)"""
    out = ""
    for i, ch in enumerate(word):
        if ch.isalpha() and ord(ch) < 128:
            out = out + ctx.string("%s.%d" % (nm, i), 1, ch.lower() + ch.upper())
        else:
            out = out + ch
    return out


def value(ctx, t, k, kind, nm, rich=True):
    """(text, expected dictionary value) of one keyword value"""
    if kind == "int":
        s = int_text(ctx, nm)
        return s, int(s)
    if kind == "float":
        s = float_text(ctx, nm)
        return s, float(s)
    if kind == "bool":
        b = ctx.pick(nm + ".b", [True, False])
        return case_word(ctx, nm, "true" if b else "false"), b
    if kind == "string":
        s, v = quoted(ctx, nm)
        if free(ctx, t, k):
            ctx.assume(ctx.not_(lookalike(ctx, v)))
        return s, v
    if kind == "char":
        s, v = quoted(ctx, nm, 1, 1)
        if free(ctx, t, k):
            ctx.assume(ctx.not_(lookalike(ctx, v)))
        return s, v
    if kind == "bare":
        s = ctx.string(nm, (1, 3), "word")
        ctx.assume(ctx.not_(s[0:1].isdigit()))
        low = s.lower()
        for w in RESERVED:
            if len(w) <= 3:
                ctx.assume(ctx.not_(low == w))
        return s, s
    if kind == "enum":
        vals = [x for x in vocab.enum_values(t, k)]
        v = ctx.pick(nm + ".e", vals)
        if isinstance(v, int) or isinstance(v, float):
            return str(v), v
        if v == "end":
            return '"end"', "end"
        s = case_word(ctx, nm, v)
        return s, s
    if kind.startswith("strword:"):
        s = kind[8:]
        return '"' + s + '"', s
    if kind == "charref":
        s = "&#" + ctx.string(nm, (1, 3), "digit") + ";"
        return '"' + s + '"', s
    if kind == "hex":
        q = ctx.pick(nm + ".q", QUOTES)
        n = ctx.pick(nm + ".n", [3, 6, 8])
        s = "#" + ctx.string(nm, n, "hex")
        return q + s + q, s.lower()
    if kind == "binding":
        s = "[" + ctx.string(nm, (1, 3), "word") + "]"
        return s, s
    if kind == "regex":
        s = "/" + ctx.string(nm, (1, 2), "ascii", exclude="/\\*\"") + "/"
        return s, s
    if kind == "iregex":
        s = "/" + ctx.string(nm, (1, 2), "ascii", exclude="/\\*\"") + "/i"
        return s, s
    if kind == "expr":
        a = ctx.string(nm + ".a", (1, 2), "word")
        d = ctx.string(nm + ".d", (1, 2), "digit")
        op = ctx.pick(nm + ".op", ["=", "<", ">=", "eq", "~"])
        s = "([" + a + "]" + " " + op + " " + d + ")"
        return s, "( [" + a + "] " + op + " " + d + " )"
    if kind == "list":
        a = ctx.string(nm + ".a", (1, 2), "word")
        b = ctx.string(nm + ".b", (1, 2), "word")
        s = "{" + a + "," + b + "}"
        return s, s
    if kind.startswith("array:"):
        parts = kind[6:]
        if parts.startswith("array:"):
            parts = parts[6:]
        ts, vs = [], []
        for i, p in enumerate(parts.split(",")):
            if p == "int":
                # one digit each keeps six-fold arrays small
                sg = ctx.pick("%s.%d.sign" % (nm, i), ["", "-"]) if i == 0 else ""
                s = sg + ctx.string("%s.%d" % (nm, i), 1 if i else (1, 2), "digit")
                ts.append(s)
                vs.append(int(s))
            elif p == "float":
                s = ("-" if i == 0 and ctx.bool("%s.sign" % nm) else "") + ctx.string("%s.%da" % (nm, i), 1, "digit")
                s = s + "." + ctx.string("%s.%db" % (nm, i), 1, "digit")
                ts.append(s)
                vs.append(float(s))
            elif p == "string":
                s = "'#" + ctx.string("%s.%d" % (nm, i), 6, "hex") + "'" if i == 0 else '"#aAbB01"'
                ts.append(s)
                vs.append(s[1:-1].lower())
            else:
                s, v = value(ctx, t, k, p, "%s.%d" % (nm, i))
                ts.append(s)
                vs.append(v)
        return " ".join(ts), vs
    raise ValueError(kind)


def pairs(ctx, nm, n):
    """n number pairs: text, list of tuples"""
    ts, vs = [], []
    for i in range(n):
        a = int_text(ctx, "%s.%da" % (nm, i), 1, ("", "-"))
        b = int_text(ctx, "%s.%db" % (nm, i), 1, ("",)) if i else float_text(ctx, "%s.%db" % (nm, i), ("",))
        ts.append(a + " " + b)
        vs.append((int(a), int(b) if i else float(b)))
    return "\n".join(ts), vs


def kv(ctx, nm, n, quoted_keys=True):
    """n key/value lines: text and [(lower-case key, value)]"""
    ts, out = [], []
    for i in range(n):
        kt, kv_ = quoted(ctx, "%s.k%d" % (nm, i), 1, 2, "any", exclude="\\_")
        vt, vv = quoted(ctx, "%s.v%d" % (nm, i), 0, 1)
        ts.append(kt + " " + vt)
        out.append((kv_, vv))
    return "\n".join(ts), out


def slot(ctx, t, k, kind, nm):
    """(text of the whole keyword or block, key, expected value) - value None when only the text matters"""
    K = k.upper()
    if kind == "points":
        n = ctx.pick(nm + ".n", [1, 2])
        s, v = pairs(ctx, nm, n)
        return "POINTS\n" + s + "\nEND", v
    if kind == "pattern":
        s, v = pairs(ctx, nm, 1)
        return "PATTERN\n" + s + "\nEND", v
    if kind == "projection":
        a, av = quoted(ctx, nm + ".p0", 1, 2)
        if ctx.bool(nm + ".two"):
            b, bv = quoted(ctx, nm + ".p1", 0, 1)
            return "PROJECTION\n" + a + "\n" + b + "\nEND", [av, bv]
        return "PROJECTION\n" + a + "\nEND", [av]
    if kind == "projection_auto":
        s = case_word(ctx, nm, "auto")
        return "PROJECTION\n" + s + "\nEND", [s]
    if kind == "kv":
        s, kvs = kv(ctx, nm, 1)
        return K + "\n" + s + "\nEND", kvs
    if kind == "config":
        kt, kk = quoted(ctx, nm + ".k", 1, 2, "ascii", exclude="\\_")
        vt, vv = quoted(ctx, nm + ".v", 0, 1)
        return "CONFIG " + kt + " " + vt, [(kk, vv)]
    if kind == "repeated":
        a, av = quoted(ctx, nm + ".a")
        b, bv = quoted(ctx, nm + ".b", 0, 1)
        return K + " " + a + "\n" + K + " " + b, [av, bv]
    if kind.startswith("block:"):
        return "SYMBOL\nNAME \"x\"\nEND", None
    s, v = value(ctx, t, k, kind, nm)
    return K + " " + s, v
