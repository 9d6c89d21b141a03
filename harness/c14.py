"""C14: kept comments are verbatim, never invented or duplicated, and stay attached."""
from symex.runner import Unit
import vocab
import docs
import opts
import c05
import c06

BOUNDS = ("9 structured documents (up to 60 lines) with a comment above / behind every line, one comment at any one line, two comments at any two lines, C-style, "
          "multi-line and joined comments; every simple keyword and every nesting of blocks with comments above the block and behind the keyword; "
          "16 orders; comment texts with up to 2 arbitrary characters; 10 option sets with line breaks")

OBJ = [b for b in vocab.BLOCKS if b != "values"]


# ---------------------------------------------------------------- source text and expected lines

def lines(inst):
    """(text, kind, item) of every source line"""
    out = []
    if inst.kind == "block":
        out.append((inst.t.upper(), "open", inst))
        for x in inst.items:
            out += lines(x)
        out.append(("END", "end", inst))
        return out
    tk = docs.toks(inst)
    for kw, vals, kind in tk:
        out.append((" ".join([kw] + vals), kind, inst))
    return out


def printed(inst, sep):
    """(kind, item) of every written line, in the order of writing"""
    if inst.kind == "attr":
        return [("attr", inst)]
    if inst.kind in ("rep", "cfg"):
        return [("rep", inst)]
    if inst.kind in ("kv", "pairs", "proj"):
        return [(kind, inst) for _, _, kind in docs.toks(inst)]
    groups = []
    for x in inst.items:
        k = None
        if x.kind == "block":
            k = ("b", x.t)
        elif x.kind in ("rep", "pairs"):
            k = ("r", x.k)
        elif x.kind == "cfg":
            k = ("c",)
        for g in groups:
            if k is not None and g[0] == k:
                g[1].append(x)
                break
        else:
            groups.append((k, [x]))
    simple = [g for g in groups if g[1][0].kind in ("attr", "rep", "cfg")]
    block = [g for g in groups if g[1][0].kind not in ("attr", "rep", "cfg")]
    out = [("open", inst)]
    for g in (simple + block if sep else groups):
        for x in g[1]:
            out += printed(x, sep)
    out.append(("end", inst))
    return out


class Src:
    """source comments: their texts, and where the written ones have to be"""
    def __init__(self, ctx, n):
        self.c = ctx.string("c", n, "any", exclude="\n*")
        self.n = 0
        self.all = []
        self.above = []
        self.behind = []

    def line(self):
        i = self.n
        self.n += 1
        pre = ("# k%d:", "#k%d:", "#\tk%d;", "## k%d:")[i % 4] % i
        return self.add(pre, pre + (self.c if i % 3 == 1 else "x") + ("", " ' y", ' "', " */")[i % 4])

    def block(self):
        i = self.n
        self.n += 1
        pre = ("/* k%d:", "/*k%d:", "/* # k%d:")[i % 3] % i
        return self.add(pre, pre + (self.c if i % 3 == 1 else "x") + ("", "\n y ", " 'z")[i % 3] + " */")

    def add(self, pre, s):
        self.all.append((pre, s.strip()))
        return s

    def text(self):
        return self.all[-1][1]


def opener(kind, item):
    return kind == "open" and (item.kind == "block" or (item.kind == "kv" and item.name != "values"))


def source(ctx, s, inst, style, at):
    """the text with comments"""
    out = ""
    n = 0
    for text, kind, item in lines(inst):
        if style in ("above", "both", "two") or (style in ("one", "pair") and n in at[0:1]):
            for k in range(2 if style == "two" else 1):
                out = out + " " * n + s.line() + "\n"
                if opener(kind, item):
                    s.above.append((item, s.text()))
        if style == "c":
            out = out + s.block() + "\n" + s.block() + " "
        if style == "mixed":
            out = out + s.block() + "\n" + s.line() + "\n"
            if opener(kind, item):
                s.above.append((item, s.text()))
        out = out + text
        if style == "c":
            out = out + s.block() + " " + s.line() if n % 2 else out + s.block()
        if style in ("behind", "both", "mixed") or (style in ("one", "pair") and n in at[1:2]):
            out = out + " " * (n % 3) + s.line()
            if kind == "attr" and item.kind == "attr":
                s.behind.append((item, s.text()))
        out = out + ("\n" if n % 4 or style != "both" else "\r\n")
        n += 1
    return out


# ---------------------------------------------------------------- written text

def read(text, nl):
    """(code, comments) of every line; a comment over several lines belongs to the first"""
    out = []
    code = ""
    com = []
    q = ""
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if q:
            code = code + c
            if c == q:
                q = ""
            i += 1
        elif c == '"' or c == "'":
            q = c
            code = code + c
            i += 1
        elif (c == "#" and code[-1:].strip() == "") or (c == "/" and text[i + 1:i + 2] == "*"):
            if c == "#":
                j = text.find(nl, i)
                j = n if j < 0 else j
            else:
                j = text.find("*/", i)
                j = n if j < 0 else j + 2
            com.append(text[i:j])
            i = j
        elif text.startswith(nl, i):
            out.append((code.strip(" \t"), com))
            code = ""
            com = []
            i += len(nl)
        else:
            code = code + c
            i += 1
    out.append((code.strip(" \t"), com))
    return out


def take(ctx, left, t):
    """uses up the source comments one written comment consists of"""
    while True:
        hit = None
        for e in left:
            if t.startswith(e[0]):
                hit = e
                break
        if hit is None:
            return False
        left.remove(hit)
        s = hit[1]
        if not t.startswith(s):
            return False
        t = t[len(s):]
        if t.strip() == "":
            return True
        if not t.startswith(" "):
            return False
        t = t[1:]


def verdict(ctx, s, inst, text, o, label):
    m = ctx.mappyfile
    nl = o.get("newlinechar", "\n")
    out = m.dumps(m.loads(text, include_comments=True), **o)
    plain = m.dumps(m.loads(text), **o)
    ctx.observe("text", out)
    ctx.check(ctx.same(m.loads(out), m.loads(plain)), label + ":content")
    rows = read(out, nl)
    left = list(s.all)
    for code, com in rows:
        for t in com:
            if o.get("end_comment") and code == "END" and not any([t.startswith(e[0]) for e in left]):
                continue
            ctx.check(take(ctx, left, t), label + ":verbatim")
    if inst is None:
        return
    exp = printed(inst, o.get("separate_complex_types", False))
    nums = [i for i in range(len(rows)) if len(rows[i][0]) > 0]
    ctx.check(len(nums) == len(exp), label + ":lines")
    where = {}
    for i, (kind, item) in zip(nums, exp):
        code = rows[i][0]
        if kind == "open":
            ctx.check(code == (item.t if item.kind == "block" else item.name if item.kind == "kv" else
                               "projection" if item.kind == "proj" else item.k).upper(), label + ":lines")
            where[id(item)] = i
        elif kind == "attr":
            ctx.check(code.startswith(item.k.upper() + " "), label + ":lines")
            where[id(item)] = i
    for item, t in s.behind:
        com = rows[where[id(item)]][1]
        ctx.check(len(com) > 0 and com[-1].strip().endswith(t), label + ":behind")
    for kind, item in exp:
        want = [t for x, t in s.above if x is item] if kind == "open" else []
        if not want:
            continue
        i = where[id(item)]
        got = []
        while i > 0 and len(rows[i - 1][0]) == 0 and len(rows[i - 1][1]) > 0:
            i -= 1
            got.insert(0, rows[i][1])
        j = 0
        for com in got:
            if j < len(want) and len(com) == 1 and com[0].strip() == want[j]:
                j += 1
        ctx.check(j == len(want), label + ":above")


def lopts(tier, i):
    return [x for x in opts.some(tier, i) if x.get("newlinechar") != " "] or [opts.SETS[i % 6]]


def scen(ctx, name, hole, style, os, n):
    inst = docs.make(ctx, name, [] if hole is None else [hole], strmax=1, strabc="alnum")
    s = Src(ctx, n)
    o = dict(ctx.pick("o", os))
    verdict(ctx, s, inst, source(ctx, s, inst, style, None), o, "doc")


def spot(ctx, name, lo, hi, o):
    """one or two comments anywhere"""
    inst = docs.make(ctx, name, [])
    s = Src(ctx, 1)
    n = len(lines(inst))
    a = ctx.pick("a", list(range(lo, min(n, hi))))
    b = ctx.pick("b", [-1, 0, 1, 7])
    verdict(ctx, s, inst, source(ctx, s, inst, "one", (a, (a + b) % n if b >= 0 else -1)), dict(o), "spot")


def slot(ctx, t, k, kind, form, o):
    """every keyword: comments above its block and behind it"""
    c = docs.Inst("attr", k=k, text=c05.const_slot(t, k, kind).split(" ", 1)[1], value=None)
    b = docs.Inst("block", t=t, items=[c])
    root = b
    if t != "map" and form:
        other = docs.Inst("attr", k="name", text="'n'", value=None)
        root = docs.Inst("block", t="map", items=[other, b] if form == 1 else [b, other])
    s = Src(ctx, (0, 1))
    verdict(ctx, s, root, source(ctx, s, root, ("both", "mixed", "two")[form], None), dict(o), "slot")


def nest(ctx, p, c, style, o):
    inst = docs.Maker(ctx, frozenset()).make(docs.nest_spec(p, c))
    s = Src(ctx, (0, 1))
    verdict(ctx, s, inst, source(ctx, s, inst, style, None), dict(o), "nest")


def kvroot(ctx, name, style):
    inst = docs.Maker(ctx, frozenset([1])).make(docs.KV(name, 2))
    s = Src(ctx, (0, 1))
    verdict(ctx, s, inst, source(ctx, s, inst, style, None), {}, "root")


def order(ctx, i):
    """keywords in any arrangement, repeated ones too: verbatim and content only"""
    s = Src(ctx, (0, 1))
    out = ""
    for j, p in enumerate(c06.ORDER[i].split("%s")):
        out = out + ("w%d" % j if j else "")
        for w in p.split(" "):
            if w in ("END", "NAME"):
                out = out + "\n" + s.line() + "\n" + w + " " + (s.line() + "\n" if w == "END" else "")
            else:
                out = out + w + " "
    verdict(ctx, s, None, out + s.line() + "\n", dict(ctx.pick("o", opts.SETS[:4])), "order")


def oneline(ctx, i):
    """several things on a line, comments between the words of a keyword"""
    s = Src(ctx, (0, 1))
    L = s.line
    B = s.block
    text = [
        lambda: "MAP NAME 'a' " + L() + "\nSIZE 1 2 ANGLE 3 " + B() + L() + "\nEND " + L(),
        lambda: "LAYER " + L() + "\nNAME " + L() + "\n'a' " + L() + "\nTYPE " + B() + " LINE END",
        lambda: "CLASS STYLE COLOR 1 " + L() + "\n2 3 END " + L() + "\nSTYLE WIDTH 1 END END",
        lambda: "LAYER CLASS " + L() + "\nEND CLASS END " + L() + "\n" + L() + "\nCLASS END END",
        lambda: "LAYER METADATA 'a' " + L() + "\n'b' 'c' 'd' " + L() + "\n'A' 'x' " + L() + "\nEND END",
        lambda: "LAYER PROJECTION " + L() + "\n'a' " + L() + "\n'b' " + B() + " END NAME 'x' END",
        lambda: "LAYER NAME 'a' " + L() + "\n NAME 'b' " + L() + "\n NAME 'c' END",
        lambda: "LAYER PROCESSING 'a' " + L() + "\nPROCESSING 'b' " + L() + "\nNAME 'x' END",
        lambda: "MAP CONFIG 'a' 'b' " + L() + "\nCONFIG 'c' " + L() + "\n'd' NAME 'x' " + L() + "\nEND",
        lambda: "SYMBOL NAME 'a' POINTS 1 " + L() + "\n2 " + L() + "\nEND TYPE ELLIPSE " + B() + "END",
        lambda: "LAYER DATA 'a\nb' " + L() + "\nNAME 'x' " + L() + "\nEND",
        lambda: "CLASS EXPRESSION ([a] = 1 " + B() + " AND\n [b] = 2) " + L() + "\nNAME 'x' END",
        lambda: L() + "\n" + L() + "\nLAYER END " + L() + "\n" + L() + "\nLAYER NAME 'x' END " + L(),
        lambda: "LAYER TEMPLATE '# no' " + L() + "\nDATA '/* no */' " + L() + "\nFOOTER 'x\n# no' " + L() + "\nEND",
        lambda: "CLASS EXPRESSION /a#b/ " + L() + "\nNAME `a # b` " + L() + "\nEND",
        lambda: "SYMBOLSET " + L() + "\nSYMBOL " + L() + "\nNAME 'x' " + L() + "\nEND END",
    ][i]()
    verdict(ctx, s, None, text, dict(ctx.pick("o", opts.SETS[:6])), "oneline")


ONELINE = 16


def include(ctx, n):
    """comments of included files"""
    m = ctx.mappyfile
    s = Src(ctx, (0, 1))
    nm = docs.Inst("attr", k="name", text="'n'", value=None)
    ty = docs.Inst("attr", k="type", text="LINE", value=None)
    cl = docs.Inst("block", t="class", items=[docs.Inst("attr", k="title", text="'t'", value=None)])
    lay = docs.Inst("block", t="layer", items=[nm, cl, ty])
    root = docs.Inst("block", t="map", items=[lay])
    ls = source(ctx, s, root, "both", None).replace("\r\n", "\n").split("\n")
    a, b = ((2, 4), (0, 9), (5, 8))[n]
    ctx.put_file("x.inc", "\n".join(ls[a:b]))
    p = ctx.put_file("a.map", "\n".join(ls[:a] + ["INCLUDE 'x.inc'"] + ls[b:]))
    d = m.open(p, include_comments=True)
    text = m.dumps(d)
    full = m.dumps(m.loads("\n".join(ls), include_comments=True))
    ctx.check(text == full, "include")


def wild(ctx, n, where):
    """any comment text"""
    m = ctx.mappyfile
    s = ctx.string("s", n, "any", exclude="\n")
    if where == "hash":
        a, b = "#" + s, "#" + s + " "
    else:
        ctx.assume(ctx.not_("*/" in "*" + s[1:] if s.startswith("/") else "*/" in s))
        a, b = "/*" + s + "*/", "/*" + s + "*/"
    text = b + "\nLAYER\n    NAME \"a\" " + b + "\n    " + b + "\n    METADATA\n        \"k\" \"v\"\n    END\n    TYPE LINE " + b + "\nEND"
    a = a.strip()
    want = a + "\nLAYER\n    NAME \"a\" " + a + "\n    " + a + "\n    METADATA\n        \"k\" \"v\"\n    END\n    TYPE LINE " + a + "\nEND"
    out = m.dumps(m.loads(text, include_comments=True))
    ctx.observe("text", out)
    # with or without indentation above METADATA
    ctx.check(ctx.any([out == want, out == want.replace("    " + a + "\n    META", a + "\n    META")]), "wild")


def multi(ctx, i):
    """keywords over several lines keep the comment at their end"""
    s = ctx.string("s", (0, 2), "any", exclude="\n")
    t = ctx.string("t", (0, 1), "any", exclude="'\"\\")
    v = ["DATA \"a\n" + t + "b\"", "FILTER ([a] = 1\n AND [b] = 2)", "EXTENT 1 2\n 3 4"][i]
    c = "#k" + s
    out = ctx.mappyfile.dumps(ctx.mappyfile.loads("LAYER\n" + v + " " + c + "\nNAME \"x\"\nEND", include_comments=True))
    ctx.observe("text", out)
    want = ["DATA \"a\n" + t + "b\"", "FILTER ( ( [a] = 1 ) AND ( [b] = 2 ) )", "EXTENT 1 2 3 4"][i]
    ctx.check(out == "LAYER\n    " + want + " " + c.strip() + "\n    NAME \"x\"\nEND", "multi")


def units(tier):
    out = []
    thorough = tier == "thorough"
    i = 0
    for n, spec in docs.SCENARIOS.items():
        nh = docs.nholes(spec)
        for st in ("above", "behind", "both", "two", "c", "mixed"):
            i += 1
            for h in [None] + list(range(nh)) if thorough else [None]:
                os = lopts(tier, i)
                out.append(Unit("scen:%s.%s.%s" % (n, st, h), "c14.scen", {"name": n, "hole": h, "style": st, "os": os,
                                                                           "n": (0, 2) if thorough else (0, 1)}))
        for lo in range(0, 80, 8):
            i += 1
            nl = len(lines(docs.make(NoCtx(), n, [])))
            if lo < nl:
                out.append(Unit("spot:%s.%d" % (n, lo), "c14.spot", {"name": n, "lo": lo, "hi": lo + 8, "o": lopts(tier, i)[0]}))
    for t, k, j, kind in vocab.slots():
        if k in ("include", "config", "points", "pattern", "processing", "formatoption", "compfilter", "projection", "colorrange", "datarange") or t in vocab.KVBLOCKS:
            continue
        if kind == "kv" or kind.startswith("block"):
            continue
        i += 1
        for f in range(3):
            if thorough or i % 6 == f:
                out.append(Unit("slot:%s.%s.%s.%d" % (t, k, kind, f), "c14.slot", {"t": t, "k": k, "kind": kind, "form": f, "o": lopts(tier, i)[0]}))
    for p, c in docs.nestings():
        for st in ("both", "two", "mixed"):
            i += 1
            if thorough or i % 3 == 0:
                out.append(Unit("nest:%s.%s.%s" % (p, c, st), "c14.nest", {"p": p, "c": c, "style": st, "o": lopts(tier, i // 3)[0]}))
    for n in ("metadata", "validation", "connectionoptions"):
        for st in ("above", "both", "two", "mixed"):
            out.append(Unit("kvroot:%s.%s" % (n, st), "c14.kvroot", {"name": n, "style": st}))
    for q in range(len(c06.ORDER) - 1):
        out.append(Unit("order:%d" % q, "c14.order", {"i": q}))
    for q in range(ONELINE):
        out.append(Unit("oneline:%d" % q, "c14.oneline", {"i": q}))
    for w in ("hash", "c"):
        for n in range(3 if not thorough else 4):
            out.append(Unit("wild:%s.%d" % (w, n), "c14.wild", {"n": n, "where": w}))
    for q in range(3):
        out.append(Unit("multi:%d" % q, "c14.multi", {"i": q}))
    for q in range(3):
        out.append(Unit("include:%d" % q, "c14.include", {"n": q}))
    return out


class NoCtx:
    symbolic = False

    def assume(self, c):
        pass

    def not_(self, c):
        return not c
