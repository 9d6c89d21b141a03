"""C05: surface syntax does not change meaning."""
from symex.runner import Unit
import vocab
import gen
import docs
import c02

BOUNDS = ("letter case: every letter of every schema keyword, block name and END a solver variable; separators: every gap between "
          "two tokens of 9 documents, 18 expression / token-rewriting texts, filled with 1-2 symbolic whitespace characters, a # "
          "comment or a /* */ comment of up to 2 symbolic characters; quotes and bare words: every string-valued slot with up "
          "to 2 (3 bare) symbolic characters")


def both(ctx, a, b, label):
    m = ctx.mappyfile
    try:
        da = m.loads(a)
    except ctx.lark_errors():
        ctx.assume(False)
    try:
        db = m.loads(b)
    except (ctx.lark_errors(), IOError):
        ctx.fail(label + ":rejected")
        return
    ctx.observe("d", db)
    ctx.check(ctx.same(da, db), label)


def kwcase(ctx, t, k, kind):
    s = const_slot(t, k, kind)
    low = t.upper() + "\n" + s + "\nEND"
    if s.upper().startswith(k.upper()):
        hi = t.upper() + "\n" + gen.case_word(ctx, "k", k) + s[len(k):] + "\nEND"
        both(ctx, low, hi, "kwcase")
    else:
        ctx.assume(False)


def const_slot(t, k, kind):
    K = k.upper()
    if kind == "points" or kind == "pattern":
        return K + " 1 2 3 4 END"
    if kind == "projection":
        return "PROJECTION 'a' 'b' END"
    if kind == "projection_auto":
        return "PROJECTION AUTO END"
    if kind == "kv":
        return K + " 'a' 'b' END"
    if kind == "config":
        return "CONFIG 'a' 'b'"
    if kind == "repeated":
        return K + " 'a' " + K + " 'b'"
    if kind.startswith("block:"):
        return "SYMBOL NAME 'a' END"
    return K + " " + docs.const(t, k, kind)[0]


def blockcase(ctx, t, inner):
    """block opener and END in any case, at the root and nested"""
    w = gen.case_word(ctx, "b", t)
    e = gen.case_word(ctx, "e", "end")
    if inner is None:
        k, d = docs.simple_kw(t)
        b = "\n" + k.upper() + " " + docs.const(t, k, d)[0] + "\n"
        both(ctx, t.upper() + b + "END", w + b + e, "blockcase")
    else:
        kc, dc = docs.simple_kw(t)
        k, d = docs.simple_kw(inner)
        b = "\n" + kc.upper() + " " + docs.const(t, kc, dc)[0] + "\n"
        o = "\n" + k.upper() + " " + docs.const(inner, k, d)[0] + "\n"
        I = inner.upper()
        both(ctx, I + o + t.upper() + b + "END" + o + "END", I + o + w + b + e + o + "END", "blockcase")


def rootcase(ctx, form):
    if form in vocab.KVBLOCKS:
        t = "SCALETOKEN %s 'a' 'b' %s END" if form == "values" else "%s 'a' 'b' %s"
    elif form == "symbolset":
        t = "%s SYMBOL NAME 'a' END %s"
    elif form == "projection":
        t = "MAP %s 'a' 'b' %s NAME 'c' END"
    elif form in ("points", "pattern"):
        t = ("FEATURE" if form == "points" else "STYLE") + " %s 1 2 %s END"
    elif form == "config":
        t = "MAP %s 'a' 'b' %s"
    p = t.split("%s")
    w = gen.case_word(ctx, "w", form)
    e = gen.case_word(ctx, "e", "end")
    both(ctx, p[0] + form.upper() + p[1] + "END" + p[2], p[0] + w + p[1] + e + p[2], "rootcase")


# texts around the token-stream rewriting, expressions and values that look like keywords
TEXTS = {
    "symbolname": "STYLE SYMBOL circle WIDTH 3 END",
    "symbolval": "CLASS SYMBOL 'circle' SIZE 3 SYMBOL 0 STYLE SYMBOL [a] END END",
    "symbolblock": "MAP SYMBOL NAME circle TYPE ELLIPSE FILLED TRUE POINTS 1 1 END END SYMBOL POINTS 1 2 END NAME b END END",
    "symbolset": "SYMBOLSET SYMBOL TYPE VECTOR NAME x END SYMBOL IMAGE 'a.png' NAME y END END",
    "symbolattrs": "SYMBOL ANTIALIAS TRUE CHARACTER 'a' FONT b TRANSPARENT 3 ANCHORPOINT 0.5 0.5 END",
    "gridname": "LAYER NAME grid GRID LABELFORMAT DDMM END END",
    "gridlayer": "LAYER GRID MINARCS 3 END NAME GRID END",
    "querymap": "MAP QUERYMAP STYLE HILITE STATUS ON COLOR 1 2 3 END QUERYMAP STYLE normal SIZE 1 2 END END",
    "stylekw": "SCALEBAR STYLE 1 STATUS ON END",
    "expr1": "CLASS EXPRESSION ( [a] = 1 AND [b] > 2 OR NOT [c] < 3 ) NAME 'a' END",
    "expr2": "CLASS EXPRESSION ( ( \"[a]\" = 'x y' ) && ! ( [b] ~ 'c' ) || ( [d] IN 'e' ) ) END",
    "expr3": "LABEL TEXT ( tostring( [a] , \"%.2f\" ) ) SIZE [b] OFFSET [c] -3 ANGLE AUTO END",
    "expr4": "LAYER FILTER ( ( [a] + 1 ) * -2 - [b] / 3 ^ 2 >= 4 ) TYPE POINT END",
    "regex": "CLASS EXPRESSION /^a.*$/ NAME b EXPRESSION /c/i KEYIMAGE 'a' END",
    "colors": "STYLE COLOR '#aabbcc' OUTLINECOLOR 1 2 3 COLORRANGE 1 2 3 4 5 6 COLORRANGE \"#000000\" '#ffffff' END",
    "nums": "MAP EXTENT -1.5 +2 3e2 .5 SIZE 10 20 RESOLUTION 7.5 ANGLE -3 END",
    "bare": "MAP NAME abc FONTSET fonts/a.txt SHAPEPATH ../data CONFIG a b CONFIG ON_MISSING_DATA 'x' STATUS ON END",
    "kv": "WEB METADATA a 'b' 'c' d wms_title \"e\" END VALIDATION 'f' '%g%' END END",
    "runtime": "LAYER DATA %file% NAME '%a%' CLASS EXPRESSION `[a]` END END",
    "roots": "CLASS NAME a END LAYER NAME b END METADATA 'c' 'd' END STYLE WIDTH 3 END",
    "repeated": "LAYER PROCESSING 'a=b' PROCESSING 'c' COMPOSITE COMPFILTER 'd' COMPFILTER 'e' END END",
    "points": "FEATURE POINTS 1 2 3.5 -4 END POINTS 5 6 END WKT 'POINT(1 2)' END",
    "pattern": "STYLE PATTERN 1 2 3 4 END GAP -5 SYMBOL 'x' END",
}


def tokens(text):
    """tokens of a concrete text, without a regex"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c in " \n":
            i += 1
        elif c in "\"'`":
            j = text.index(c, i + 1)
            if j + 1 < len(text) and text[j + 1] == "i":
                j += 1
            out.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < len(text) and text[j] not in " \n":
                j += 1
            out.append(text[i:j])
            i = j
    return out


def source(name):
    if name in TEXTS:
        return TEXTS[name]
    return docs.text(docs.make(None, name, []))


def filler(ctx, form, last, pre=False):
    if form == "ws":
        return ctx.string("w", (1, 2), "ws")
    if form == "hash":
        return ctx.string("w", (0, 1), "blank") + "#" + ctx.string("c", (0, 2), "any", exclude="\n") + \
            ("\n" if not last or ctx.bool("nl") else "")
    if form == "slash1":
        c = ctx.string("c", (0, 1), "any")
        ctx.assume(ctx.not_("*/" in c))
        return (" " if pre else ctx.string("w", (0, 1), "blank")) + "/*" + c + "*/"
    if form == "slash":
        c = ctx.string("c", (0, 2), "any")
        ctx.assume(ctx.not_("*/" in c))
        return (" " if pre else ctx.string("w", (0, 1), "ws")) + "/*" + c + "*/" + ctx.string("z", (0, 1), "ws")
    if form == "mixed":
        c = ctx.string("c", 1, "any", exclude="\r\n")
        return " /* " + c + "\r\n " + c + " */\r\n# " + c + "\r\n\t#\n"
    raise ValueError(form)


def path(tok):
    """an unquoted path, which a / right behind it would prolong"""
    return "/" in tok and tok[0] not in "/'\"`"


def gap(ctx, name, i, form):
    tk = tokens(source(name))
    f = filler(ctx, form, i == len(tk), i > 0 and path(tk[i - 1]))
    both(ctx, " ".join(tk), " ".join(tk[:i]) + f + " ".join(tk[i:]), "gap")


def everywhere(ctx, name, form):
    """all separators of a document at once"""
    tk = tokens(source(name))
    if form == "ws":
        f = ctx.string("w", (1, 2), "ws")
    elif form == "crlf":
        f = "\r\n"
    else:
        f = filler(ctx, form, False, any(path(x) for x in tk))
    both(ctx, " ".join(tk), f + f.join(tk) + f, "everywhere")


def quotes(ctx, t, k):
    n = ctx.string("v", (0, 2), "any", exclude="\"'\\")
    L = c02.lead(t, k)
    both(ctx, "%s\n%s%s " % (t.upper(), L, k.upper()) + '"' + n + '"' + "\nEND",
         "%s\n%s%s " % (t.upper(), L, k.upper()) + "'" + n + "'" + "\nEND", "quotes")


QUOTED = {
    "kv": "LAYER METADATA %s %s END VALIDATION %s 'b' END CONNECTIONOPTIONS 'x' %s END END",
    "config": "MAP CONFIG %s %s END",
    "projection": "MAP PROJECTION %s %s END END",
    "processing": "LAYER PROCESSING %s PROCESSING 'a' END",
    "hex": "STYLE COLORRANGE %s %s COLOR %s END",
    "hexsix": "STYLE COLORRANGE %s %s COLOR %s END",
    "values": "SCALETOKEN VALUES %s %s END END",
    "backslash": "LAYER DATA %s NAME 'b' END",
    "symbol": "STYLE SYMBOL %s WIDTH 3 END",
    "rootkv": "METADATA %s %s END",
}


def quoted(ctx, form):
    if form.startswith("hex"):
        n = "#" + ctx.string("v", 3 if form == "hex" else 6, "hex")
    elif form == "backslash":
        n = ctx.string("v", 1, "any", exclude="\"'\\") + "\\" + ctx.string("z", 1, "any", exclude="\"'\\")
    else:
        n = ctx.string("v", (0, 2), "any", exclude="\"'\\")
        if form in ("kv", "values", "rootkv"):
            ctx.assume(ctx.not_(n.lower() == "x"))
    p = QUOTED[form].split("%s")
    a = p[0]
    b = p[0]
    for i, x in enumerate(p[1:]):
        a = a + '"' + n + '"' + x
        b = b + "'" + n + "'" + x
    both(ctx, a, b, "quoted")


BARE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:-" + "".join(map(chr, range(0xc0, 0x100)))


def bareword(ctx, nm, n, extra=()):
    w = ctx.string(nm, 1, BARE, exclude="0123456789:-")
    if n > 1:
        w = w + ctx.string(nm + ".r", n - 1, BARE)
    low = w.lower()
    for r in list(gen.RESERVED) + [x.lower() for x in extra]:
        if len(r) == n:
            ctx.assume(ctx.not_(low == r))
    return w


SYMBOLWORDS = ("ANCHORPOINT", "ANTIALIAS", "BACKGROUNDCOLOR", "FILLED", "FONT", "IMAGE", "NAME", "COLOR", "TYPE", "CHARACTER",
               "POINTS", "TRANSPARENT")


def bare(ctx, t, k, n):
    w = bareword(ctx, "w", n, SYMBOLWORDS if k == "symbol" else ())
    L = c02.lead(t, k)
    both(ctx, "%s\n%s%s " % (t.upper(), L, k.upper()) + '"' + w + '"' + "\nEND",
         "%s\n%s%s " % (t.upper(), L, k.upper()) + w + "\nEND", "bare")


BARED = {"kv": "LAYER METADATA %s %s END VALIDATION %s 'b' END CONNECTIONOPTIONS 'x1' %s END END", "config": "MAP CONFIG %s %s END",
         "values": "SCALETOKEN VALUES %s %s END END", "processing": "LAYER PROCESSING %s PROCESSING 'a' END",
         "rootkv": "METADATA %s %s END", "first": "LAYER NAME %s END", "symbolname": "SYMBOL NAME %s END",
         "symbol": "STYLE SYMBOL %s END", "classsymbol": "CLASS SYMBOL %s NAME 'x' END", "last": "CLASS STYLE SYMBOL %s END END"}


def bared(ctx, form):
    w = bareword(ctx, "w", ctx.pick("n", [1, 2, 3, 4, 5]), SYMBOLWORDS)
    p = BARED[form].split("%s")
    a = p[0]
    b = p[0]
    for i, x in enumerate(p[1:]):
        a = a + '"' + w + '"' + x
        b = b + w + x
    both(ctx, a, b, "bared")


def digits(ctx, form):
    """bare words starting with digits"""
    w = ctx.string("d", (1, 2), "digit") + ctx.string("w", (1, 2), "alpha")
    ctx.assume(ctx.not_(w[-1:].lower() == "e"))
    p = BARED[form].split("%s")
    a = p[0]
    b = p[0]
    for i, x in enumerate(p[1:]):
        a = a + '"' + w + '"' + x
        b = b + w + x
    both(ctx, a, b, "digits")


def symbolword(ctx, which):
    """SYMBOL followed by a word that is not one of the keywords of a symbol"""
    w = gen.case_word(ctx, "w", which)
    both(ctx, "STYLE SYMBOL '" + w + "' WIDTH 3 END", "STYLE SYMBOL " + w + " WIDTH 3 END", "symbolword")
    both(ctx, "LAYER NAME '" + w + "' TYPE POINT END", "LAYER NAME " + w + " TYPE POINT END", "symbolword")


def lineword(ctx):
    """an unquoted word at the start of a line that starts like INCLUDE"""
    w = gen.case_word(ctx, "w", "include") + ctx.string("s", (1, 2), "word")
    both(ctx, "MAP WEB METADATA\n'" + w + "' 'b'\nEND END NAME\n'" + w + "'\nEND",
         "MAP WEB METADATA\n" + w + " 'b'\nEND END NAME\n" + w + "\nEND", "lineword")


def commentwords(ctx, form):
    """comments holding words that mean something elsewhere"""
    w = ctx.pick("w", ["END", "MAP", "'", "\"", "LAYER NAME 'x' END", "/*", "//", "*", "#", "`", "[", "({", "include", "%a%", "/a/",
                       "NAME", "INCLUDE"])
    s = ctx.string("s", (0, 1), "any", exclude="\r\n")
    base = "MAP NAME 'a' LAYER TYPE POINT METADATA 'a' 'b' END END END"
    tk = tokens(base)
    i = ctx.pick("i", [0, 1, 2, 4, 6, 8, 9, 11])
    if form == "hash":
        f = " # " + w + s + "\n"
    else:
        ctx.assume(ctx.not_("*/" in (w + s)))
        f = " /* " + w + s + "*/ "
    both(ctx, base, " ".join(tk[:i]) + f + " ".join(tk[i:]), "commentwords")


def finding_include(ctx):
    """a line starting with INCLUDE inside a /* */ comment or a string is read as an include"""
    w = gen.case_word(ctx, "w", "include")
    n = ctx.string("n", (1, 2), "alpha")
    both(ctx, "MAP NAME 'a' END", "MAP\n/*\n" + w + " " + n + "\n*/\nNAME 'a' END", "finding")


def units(tier):
    out = [Unit("finding:include", "c05.finding_include", {})]
    seen = set()
    for t, k, j, kind in vocab.slots():
        if tier == "thorough" or (t, k) not in seen:
            out.append(Unit("kwcase:%s.%s.%s" % (t, k, kind), "c05.kwcase", {"t": t, "k": k, "kind": kind}))
        if kind in ("string", "char", "enum") and (t, k) not in seen and k not in ("wrap",):
            out.append(Unit("quotes:%s.%s" % (t, k), "c05.quotes", {"t": t, "k": k}))
            for n in (1, 2, 3) if tier == "thorough" else (2,):
                out.append(Unit("bare:%s.%s.%d" % (t, k, n), "c05.bare", {"t": t, "k": k, "n": n}))
        seen.add((t, k))
    for t in vocab.BLOCKS:
        out.append(Unit("blockcase:" + t, "c05.blockcase", {"t": t, "inner": None}))
    for p, c in docs.nestings():
        out.append(Unit("blockcase:%s.%s" % (p, c), "c05.blockcase", {"t": c, "inner": p}))
    for f in list(vocab.KVBLOCKS) + ["symbolset", "projection", "points", "pattern", "config"]:
        out.append(Unit("rootcase:" + f, "c05.rootcase", {"form": f}))
    for f in QUOTED:
        out.append(Unit("quoted:" + f, "c05.quoted", {"form": f}))
    for f in BARED:
        out.append(Unit("bared:" + f, "c05.bared", {"form": f}))
        out.append(Unit("digits:" + f, "c05.digits", {"form": f}))
    for w in ("circle", "size", "width", "offset", "style", "stylex", "names", "grids", "gri", "angle", "opacity", "normal", "x"):
        if w not in ("style",):
            out.append(Unit("symbolword:" + w, "c05.symbolword", {"which": w}))
    out.append(Unit("lineword:include", "c05.lineword", {}))
    for f in ("hash", "slash"):
        out.append(Unit("commentwords:" + f, "c05.commentwords", {"form": f}))
    i = 0
    for name in list(docs.SCENARIOS) + list(TEXTS):
        n = len(tokens(source(name)))
        for form in ("ws", "crlf", "hash", "slash", "mixed"):
            out.append(Unit("everywhere:%s.%s" % (name, form), "c05.everywhere", {"name": name, "form": form}))
        for g in range(n + 1):
            i += 1
            forms = ["ws", "hash", "slash1", "mixed"]
            if tier != "thorough":
                forms = [forms[i % 3]] + (["ws"] if g in (0, n) and i % 3 else [])
            else:
                forms.append("slash")
            for form in forms:
                out.append(Unit("gap:%s.%d.%s" % (name, g, form), "c05.gap", {"name": name, "i": g, "form": form}))
    return out
