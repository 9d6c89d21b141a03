"""C13: positions and comments are transparent."""
from symex.runner import Unit
import vocab
import gen
import docs
import opts
import longs
import c04
import c05
import c06
import c08
import c11

BOUNDS = ("9 structured documents with a comment on and above every line and one symbolic leaf; 18 token layouts with one symbolic gap (whitespace or a comment "
          "of up to 2 arbitrary characters); every keyword of every block between comments; 26 text forms and 17 orders with symbolic words; arbitrary texts of up "
          "to 2 characters in 29 contexts; strings with repeated ends and long words; the three bookkeeping combinations, 12 option sets")

COMBOS = [{"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}]


HIDDEN = ("__position__", "__comments__")


def visible(x):
    """the content: the keys of the bookkeeping removed, order and types kept"""
    if isinstance(x, dict):
        d = {}
        for k in x:
            if k not in HIDDEN:
                d[k] = visible(x[k])
        return d
    if isinstance(x, list):
        return [visible(v) for v in x]
    if isinstance(x, tuple):
        return tuple([visible(v) for v in x])
    return x


def extra(x, o):
    """only the keys asked for are added"""
    if isinstance(x, dict):
        for k in x:
            if k == "__position__":
                if not o.get("include_position"):
                    return False
            elif k == "__comments__":
                if not o.get("include_comments"):
                    return False
            elif not extra(x[k], o):
                return False
        return True
    if isinstance(x, (list, tuple)):
        return all([extra(v, o) for v in x])
    return True


def uncomment(text, nl="\n"):
    """written text without its comments; lines left empty by that are dropped"""
    out = ""
    line = ""
    gone = False
    q = ""
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if q:
            line = line + c
            if c == q:
                q = ""
            i += 1
        elif (c == '"' or c == "'") and line[-1:] != "\\":
            q = c
            line = line + c
            i += 1
        elif c == "#":
            gone = True
            j = text.find(nl, i)
            i = n if j < 0 else j
        elif c == "/" and text[i + 1:i + 2] == "*":
            gone = True
            j = text.find("*/", i)
            i = n if j < 0 else j + 2
        elif text.startswith(nl, i):
            if gone:
                line = line.rstrip(" \t")
            if not gone or len(line) > 0:
                out = out + line + nl
            line = ""
            gone = False
            i += len(nl)
        else:
            line = line + c
            i += 1
    if gone:
        line = line.rstrip(" \t")
    return out + line


def clear(ctx, text, plain, o, label, po=None):
    m = ctx.mappyfile
    import c20
    d = c20.norm(ctx, lambda: m.loads(text, expand_includes=False, **o))
    ctx.observe("kind", d[0])
    ctx.check(d[0] == plain[0], label + ":outcome")
    if d[0] != "ok":
        return
    ctx.check(ctx.same(visible(d[1]), plain[1]), label)
    ctx.check(extra(d[1], o), label + ":hidden keys")
    if po is None:
        return
    want = m.dumps(plain[1], **po)
    got = m.dumps(d[1], **po)
    ctx.observe("text", got)
    nl = po.get("newlinechar", "\n")
    ctx.check("__position__" not in got, label + ":positions printed")
    if o.get("include_comments"):
        ctx.observe("want", want)
        ctx.check(uncomment(got, nl) == uncomment(want, nl), label + ":printed")
    else:
        ctx.check(got == want, label + ":printed")


def plainly(ctx, text):
    import c20
    return c20.norm(ctx, lambda: ctx.mappyfile.loads(text, expand_includes=False))


def combo(ctx, text, label, po=None, o=None):
    o = ctx.pick("o", COMBOS) if o is None else COMBOS[o]
    clear(ctx, text, plainly(ctx, text), dict(o), label, po)


def layout(ctx, name, form, g, bad, po, o):
    text, nodes, n = c08.build(ctx, c08.DOCS[name], form, g, bad, ctx.string("s", (0, 2), "any", exclude="'\"\\#/") if g is None else None)
    combo(ctx, text, "layout", po, o)


def decorate(ctx, text, c, style):
    """a comment above and behind every line; c: the symbolic content of some of them"""
    out = ""
    i = 0
    for l in text.split("\n")[:-1]:
        i += 1
        if style in ("above", "both"):
            out = out + "# a%d " % i + (c if i == 3 else "") + "\n"
        if style == "c":
            out = out + "/* b%d\n x */ " % i
        out = out + l
        if style in ("behind", "both"):
            out = out + " # b%d" % i + (c if i % 3 == 2 else "")
        if style == "c":
            out = out + " /* d%d " % i + (c if i == 2 else "") + "*/ # e"
        out = out + "\n"
    return out


def scen(ctx, name, hole, style, os, o, n):
    inst = docs.make(ctx, name, [hole], strmax=1, strabc="alnum")
    c = ctx.string("c", n, "any", exclude="\n\r*")
    po = dict(ctx.pick("po", os))
    if po.get("newlinechar") == " ":
        # comments need lines of their own
        po["newlinechar"] = "\n"
    combo(ctx, decorate(ctx, docs.text(inst), c, style), "scenario", po, o)


def slot(ctx, t, k, kind, form, o):
    s = c05.const_slot(t, k, kind)
    c = ctx.string("c", (0, 2), "any", exclude="\n\r*")
    pre = t.upper() + (" TYPE ELLIPSE" if t == "symbol" else "")
    if t in ("metadata", "validation"):
        pre = t.upper()
    text = {0: pre + "\n# a" + c + "\n" + s + " # b\n# c\nEND", 1: "# a\n" + pre + " /* b" + c + "*/ " + s + "\n/* c */ # d\nEND # e",
            2: "# x\nMAP # y" + c + "\n" + pre + "\n" + s.replace(" ", " # z\n", 1) + "\nEND\nEND # a"}[form]
    combo(ctx, text, "slot", {}, o)


def form(ctx, name, c):
    """the text forms of C04"""
    w, abc = c04.W[name]
    s = ctx.string("s", (1, 2), abc)
    parts = w.replace("%%", "\x00").split("%s")
    out = ""
    for i, p in enumerate(parts):
        p = p.replace("\x00", "%")
        if c and i == 0:
            p = "# top\n" + p.replace(" ", " # w\n", 1)
        out = out + (s if i else "") + p
    combo(ctx, out + " # e\n", "form", {})


def order(ctx, i, c):
    s = ctx.string("s", (0, 2), "word")
    out = ""
    for j, p in enumerate(c06.ORDER[i].split("%s")):
        if c:
            p = p.replace(" END ", "\n# q\nEND # r\n").replace(" NAME ", "\n# n\nNAME ")
        out = out + (s if j else "") + p
    combo(ctx, out, "order", dict(ctx.pick("po", opts.SETS[:4])))


def wild(ctx, c, n, abc):
    a, b = c11.CONTEXTS[c]
    s = ctx.string("s", n, abc)
    combo(ctx, a + s + b, "wild")


def wild2(ctx, c, n):
    """a comment within arbitrary text"""
    a, b = c11.CONTEXTS[c]
    s = ctx.string("s", n, c11.PUNCT)
    combo(ctx, a + s + " # c\n" + b + "# d", "wild")


def long(ctx, name, form):
    text = ctx.mappyfile.dumps(longs.make(ctx, name, form))
    combo(ctx, text, "long")


def sources(ctx, how):
    """open and load as well"""
    m = ctx.mappyfile
    s = ctx.string("s", (0, 2), "any", exclude="'\"\\\n\r")
    text = "# a" + s + "\nMAP # b\nNAME '" + s + "' # c" + s + "\n# d\nWEB\n# e\nMETADATA\n'x' '" + s + "' # f\nEND\nEND\nEND # g\n"
    p = ctx.put_file("a.map", text)
    plain = m.loads(text)
    o = dict(ctx.pick("o", COMBOS))
    if how == "open":
        d = m.open(p, **o)
    else:
        d = m.load(ctx.text_stream(text), **o)
    ctx.check(ctx.same(visible(d), plain), "sources")
    ctx.check(extra(d, o), "sources:hidden keys")


def hidden(ctx, b, k):
    """keys of METADATA and the like with the names of the bookkeeping"""
    s = ctx.string("s", (0, 2), "alnum")
    combo(ctx, b.upper() + " '" + k + s + "' 'v' END", "hidden")


def units(tier):
    out = []
    thorough = tier == "thorough"
    i = 0
    for name in c08.DOCS:
        for f in list(range(len(c08.LAYOUTS))) + ["mix"]:
            i += 1
            if thorough or f == "mix" or i % 3 == 0:
                po = opts.SETS[i % 6]
                out.append(Unit("layout:%s.%s" % (name, f), "c13.layout", {"name": name, "form": str(f), "g": None, "bad": bool(i % 2), "po": po, "o": None if thorough else i % 3}))
        for g in range(c08.count(name)):
            i += 1
            if thorough or i % 5 == 0:
                out.append(Unit("gap:%s.%d" % (name, g), "c13.layout", {"name": name, "form": ("0", "mix")[i % 2], "g": g, "bad": False, "po": None, "o": None if thorough else i // 5 % 3}))
    for n, spec in docs.SCENARIOS.items():
        nh = docs.nholes(spec)
        for j, st in enumerate(("above", "behind", "both", "c")):
            for h in range(nh) if thorough else [(j * 5 + 1) % nh][:0 if j == 1 else 1]:
                i += 1
                out.append(Unit("scen:%s.%s.%d" % (n, st, h), "c13.scen", {"name": n, "hole": h, "style": st, "os": opts.some(tier, i)[:None if thorough else 1], "o": None if thorough else (2, 1, 2, 0)[i % 4],
                                                                                     "n": (0, 2) if thorough else 1}))
    for t, k, j, kind in vocab.slots():
        i += 1
        for f in range(3):
            if (thorough or i % 3 == f) and not (f == 2 and t == "map"):
                out.append(Unit("slot:%s.%s.%s.%d" % (t, k, kind, f), "c13.slot", {"t": t, "k": k, "kind": kind, "form": f, "o": None if thorough else i // 3 % 3}))
    for n in c04.W:
        for c in (False, True):
            out.append(Unit("form:%s.%d" % (n, c), "c13.form", {"name": n, "c": c}))
    for q in range(len(c06.ORDER)):
        for c in (False, True):
            out.append(Unit("order:%d.%d" % (q, c), "c13.order", {"i": q, "c": c}))
    for c in c11.CONTEXTS:
        out.append(Unit("wild:" + c, "c13.wild", {"c": c, "n": 1 if not thorough else 2, "abc": "any"}))
        if thorough:
            out.append(Unit("wild2:" + c, "c13.wild2", {"c": c, "n": 2}))
        else:
            out.append(Unit("wild2:" + c, "c13.wild2", {"c": c, "n": 1}))
    out += longs.units(Unit, "c13.long", tier, 3)
    for b in ("metadata", "validation", "connectionoptions"):
        for k in HIDDEN:
            out.append(Unit("finding:%s.%s" % (b, k), "c13.hidden", {"b": b, "k": k}))
    for how in ("open", "load"):
        out.append(Unit("sources:" + how, "c13.sources", {"how": how}))
    return out
