"""C02: the dictionary returned by loads is the documented image of the text."""
from symex.runner import Unit
import vocab
import gen
import docs

BOUNDS = ("per (block type, keyword, schema alternative): strings up to 2 characters over the whole alphabet, numbers up to "
          "2+2 digits, enumerated words in every letter case; 9 nested documents with each leaf symbolic in turn; every "
          "parent/child nesting; fixed-shape documents for repeated keys, multi-part POINTS, CONFIG, several roots")


def load(ctx, text):
    try:
        return ctx.mappyfile.loads(text)
    except ctx.lark_errors() as e:
        ctx.fail("rejected")


def compare(ctx, d, exp, label):
    ctx.observe("d", d)
    ctx.check(only_type(d), label + ":hidden keys")
    ctx.check(ctx.same(docs.strip(d), docs.strip(exp)), label)


def only_type(x):
    if isinstance(x, dict):
        for k in x:
            if k.startswith("__") and k.endswith("__") and k != "__type__":
                return False
            if not only_type(x[k]):
                return False
    elif isinstance(x, (list, tuple)):
        for v in x:
            if not only_type(v):
                return False
    return True


def expected_slot(k, kind, v):
    if kind == "kv":
        d = {}
        for kk, vv in v:
            d[kk.lower()] = vv
        d["__type__"] = k
        return d
    if kind == "config":
        d = {}
        for kk, vv in v:
            d[kk.lower()] = vv
        return d
    return v


def lead(t, k):
    """a keyword written first (SYMBOL needs one of its own: SYMBOL FOO is a keyword with a value)"""
    return "FOO 1\n" if t != "symbol" else "FILLED TRUE\n" if k != "filled" else "NAME 'n0'\n"


def lead_value(exp, t, k):
    if t != "symbol":
        exp["foo"] = 1
    elif k != "filled":
        exp["filled"] = True
    else:
        exp["name"] = "n0"


def slot(ctx, t, k, kind, place):
    s, v = gen.slot(ctx, t, k, kind, "v")
    before = lead(t, k) if place else ""
    after = "\nBAR 'z'" if place else ""
    d = load(ctx, t.upper() + "\n" + before + s + after + "\nEND")
    exp = {"__type__": t}
    if place:
        lead_value(exp, t, k)
    if kind.startswith("block:"):
        exp["symbols"] = [{"__type__": "symbol", "name": "x"}]
    else:
        exp[k] = expected_slot(k, kind, v)
    if place:
        exp["bar"] = "z"
    compare(ctx, d, exp, "slot")


def cross(ctx, t, k, kind):
    s, v = gen.value(ctx, t, k, kind, "v")
    d = load(ctx, t.upper() + "\n" + lead(t, k) + k.upper() + " " + s + "\nEND")
    rep = k in ("processing", "formatoption", "compfilter")
    exp = {"__type__": t}
    lead_value(exp, t, k)
    exp[k] = [v] if rep else v
    compare(ctx, d, exp, "cross")


def doc(ctx, name, holes):
    inst = docs.make(ctx, name, holes)
    compare(ctx, load(ctx, docs.text(inst)), docs.expect(inst), "doc")


def nest(ctx, p, c, holes):
    inst = docs.Maker(ctx, frozenset(holes), strmax=1).make(docs.nest_spec(p, c))
    compare(ctx, load(ctx, docs.text(inst)), docs.expect(inst), "nest")


def keyword(ctx, t, n):
    """any keyword name: stored lower-cased, as one key of the object it is written in"""
    w = ctx.string("w", n, "alnum", exclude="0123456789")
    low = w.lower()
    for r in gen.RESERVED:
        if len(r) == n:
            ctx.assume(ctx.not_(low == r))
    x, v = gen.value(ctx, t, "name", ctx.pick("kind", ["int", "string"]), "v")
    d = load(ctx, t.upper() + " " + w + " " + x + " END")
    ctx.check(ctx.same(docs.strip(d), {"__type__": t, low: v}), "keyword")


def twice(ctx, form):
    """a key given twice keeps its last value; the repeatable keywords keep all of them"""
    a, av = gen.quoted(ctx, "a", 0, 1)
    b, bv = gen.quoted(ctx, "b", 0, 1)
    if form == "attr":
        d = load(ctx, "LAYER NAME " + a + " TYPE POINT name " + b + " END")
        ctx.check(ctx.all([len(d) == 3, d["name"] == bv, d["type"] == "POINT"]), "twice")
    elif form == "kv":
        kind = ctx.pick("kind", ["METADATA", "VALIDATION", "CONNECTIONOPTIONS"])
        k1, x1 = gen.quoted(ctx, "k1", 1, 1, "alpha")
        d = load(ctx, "LAYER " + kind + " " + k1 + " " + a + "\n'zz' 'y' " + k1.upper() + " " + b + " END NAME 'n' END")
        m = d[kind.lower()]
        ctx.check(ctx.all([m[x1.lower()] == bv, m["zz"] == "y", len(m) == 3, d["name"] == "n"]), "twice")
    elif form == "config":
        k1, x1 = gen.quoted(ctx, "k1", 1, 1, "alpha")
        d = load(ctx, "MAP CONFIG " + k1 + " " + a + "\nCONFIG 'zz' 'y' CONFIG " + k1.upper() + " " + b + " NAME 'n' END")
        m = d["config"]
        ctx.check(ctx.all([m[x1.lower()] == bv, m["zz"] == "y", len(m) == 2, d["name"] == "n"]), "twice")
    elif form == "kvblock":
        d = load(ctx, "LAYER METADATA 'a' " + a + " END METADATA 'b' " + b + " END NAME 'n' END")
        ctx.check(ctx.same(docs.strip(d), {"__type__": "layer", "metadata": {"__type__": "metadata", "b": bv}, "name": "n"}),
                  "twice")
    elif form == "singleton":
        d = load(ctx, "MAP WEB IMAGEPATH " + a + " END NAME 'n' WEB IMAGEURL " + b + " END END")
        ctx.check(ctx.all([ctx.same(docs.strip(d["web"]), {"__type__": "web", "imageurl": bv}), len(d) == 3]), "twice")
    elif form == "projection":
        d = load(ctx, "MAP PROJECTION " + a + " END NAME 'n' PROJECTION " + b + " END END")
        ctx.check(ctx.all([ctx.same(d["projection"], [bv]), len(d) == 3]), "twice")
    elif form == "pattern":
        x = gen.int_text(ctx, "x")
        d = load(ctx, "STYLE PATTERN 1 2 END GAP 3 PATTERN " + x + " 4 5 6 END END")
        ctx.check(ctx.all([ctx.same(d["pattern"], [(int(x), 4), (5, 6)]), len(d) == 3]), "twice")
    elif form == "repeat":
        t, k = ctx.pick("tk", [("LAYER", "PROCESSING"), ("OUTPUTFORMAT", "FORMATOPTION"), ("COMPOSITE", "COMPFILTER"),
                               ("MAP", "INCLUDE")])
        d = ctx.mappyfile.loads(t + " " + k + " " + a + " NAME 'n' " + k.lower() + " " + b + " " + k + " " + a + " END",
                                expand_includes=False)
        ctx.check(ctx.same(docs.strip(d), {"__type__": t.lower(), k.lower(): [av, bv, av], "name": "n"}), "twice")
    ctx.check(True, "reached")


def strings(ctx, form):
    """string literals lose exactly their outer quotes; bare words and paths are kept as written"""
    T = "CLASS KEYIMAGE %s NAME 'n' END"

    def put(s):
        p = T.split("%s")
        return p[0] + s + p[1]
    if form == "dq":
        s = ctx.string("s", (0, 3), "any", exclude='"\\')
        w, v = '"' + s + '"', s
    elif form == "sq":
        s = ctx.string("s", (0, 3), "any", exclude="'\\")
        w, v = "'" + s + "'", s
    elif form == "esc":
        a = ctx.string("a", (0, 1), "any", exclude="'\"\\")
        q = ctx.pick("q", ["'", '"'])
        s = a + "\\" + q + a
        w, v = q + s + q, s
    elif form == "backslash":
        a = ctx.string("a", (1, 1), "any", exclude="'\"\\")
        b = ctx.string("b", (1, 1), "any", exclude="'\"\\")
        s = a + "\\" + b
        w, v = '"' + s + '"', s
    elif form == "path":
        a = ctx.string("a", 1, "alpha")
        b = ctx.string("b", 1, "alnum")
        s = ctx.pick("lead", ["", "../", "./"]) + a + "/" + b + ctx.pick("ext", ["", ".shp", "/c-d.x"])
        w, v = s, s
    elif form == "bare":
        s = ctx.string("s", 1, "alpha") + ctx.string("r", (0, 1), "alnum") + ctx.pick("m", ["x", "_1", "-q", ":z9"])
        low = s.lower()
        for r in gen.RESERVED:
            ctx.assume(ctx.not_(low == r))
        w, v = s, s
    elif form == "latin":
        s = "a" + ctx.string("s", (1, 2), "\u00e9\u00c0\u00ff\u00df\u00f1\u00d7")
        w, v = s, s
    elif form == "runtime":
        s = "%" + ctx.string("s", (1, 2), "alnum") + "%"
        w, v = s, s
    elif form == "null":
        s = gen.case_word(ctx, "s", "null")
        w, v = s, s
    d = load(ctx, put(w))
    compare(ctx, d, {"__type__": "class", "keyimage": v, "name": "n"}, "strings:" + form)


def numbers(ctx, form):
    if form == "int":
        s = gen.int_text(ctx, "s", 5)
        v = int(s)
    elif form == "float":
        s = gen.float_text(ctx, "s")
        v = float(s)
    elif form == "exp":
        s = ctx.string("a", 1, "digit") + ctx.pick("f", ["e2", ".5E+1", ".e-1", "e-03"])
        v = float(s)
    elif form == "words":
        # a number glued to letters is a word
        s = ctx.string("a", (1, 2), "digit") + ctx.string("b", 1, "abXY_") + ctx.pick("c", ["", "7", "-z"])
        v = s
    d = load(ctx, "LAYER FOO " + s + " BAR 'x' END")
    compare(ctx, d, {"__type__": "layer", "foo": v, "bar": "x"}, "numbers:" + form)


def ambiguous(ctx, form):
    """SYMBOL, STYLE and GRID used as keyword values and as blocks"""
    if form == "symbolvalue":
        s = ctx.string("s", (1, 3), "word", exclude="0123456789")
        low = s.lower()
        for r in gen.RESERVED:
            if len(r) <= 3:
                ctx.assume(ctx.not_(low == r))
        d = load(ctx, "CLASS STYLE SYMBOL " + s + " SIZE 5 END STYLE SIZE 6 SYMBOL " + s + " END END")
        exp = {"__type__": "class", "styles": [{"__type__": "style", "symbol": s, "size": 5},
                                               {"__type__": "style", "size": 6, "symbol": s}]}
    elif form == "symbolint":
        n = gen.int_text(ctx, "n", 2, ("",))
        d = load(ctx, "STYLE SYMBOL " + n + " SIZE 5 END")
        exp = {"__type__": "style", "symbol": int(n), "size": 5}
    elif form == "symbolquoted":
        s, v = gen.quoted(ctx, "s", 0, 2)
        d = load(ctx, "CLASS SYMBOL " + s + " STYLE SYMBOL " + s + " END SYMBOL 'x' END")
        exp = {"__type__": "class", "symbol": "x", "styles": [{"__type__": "style", "symbol": v}]}
    elif form == "gridname":
        g = gen.case_word(ctx, "g", "grid")
        n = gen.case_word(ctx, "n", "name")
        d = load(ctx, "LAYER " + n + " " + g + " TYPE LINE GRID LABELFORMAT 'DD' END END")
        exp = {"__type__": "layer", "name": g, "type": "LINE", "grid": {"__type__": "grid", "labelformat": "DD"}}
    elif form == "symbolblock":
        k = ctx.pick("k", ["NAME", "IMAGE", "FONT", "CHARACTER"])
        s, v = gen.quoted(ctx, "s", 1, 2)
        d = load(ctx, "MAP SYMBOL " + k + " " + s + " TYPE PIXMAP END SYMBOL TYPE ELLIPSE POINTS 1 1 END FILLED TRUE END END")
        exp = {"__type__": "map", "symbols": [{"__type__": "symbol", k.lower(): v, "type": "PIXMAP"},
                                              {"__type__": "symbol", "type": "ELLIPSE", "points": [(1, 1)], "filled": True}]}
    elif form == "symbolset":
        s, v = gen.quoted(ctx, "s", 1, 2)
        d = load(ctx, "SYMBOLSET SYMBOL NAME " + s + " TYPE PIXMAP END SYMBOL NAME 'b' END END")
        exp = {"__type__": "symbolset", "symbols": [{"__type__": "symbol", "name": v, "type": "PIXMAP"},
                                                    {"__type__": "symbol", "name": "b"}]}
    elif form == "querymap":
        w = gen.case_word(ctx, "w", ctx.pick("pick", ["normal", "hilite", "selected"]))
        d = load(ctx, "MAP QUERYMAP STYLE " + w + " SIZE 1 2 COLOR 1 2 3 END NAME 'x' END")
        exp = {"__type__": "map", "querymap": {"__type__": "querymap", "style": w, "size": [1, 2], "color": [1, 2, 3]},
               "name": "x"}
    elif form == "kvbare":
        a = ctx.string("a", (1, 2), "alpha")
        b = ctx.string("b", (1, 2), "word")
        low = a.lower()
        lob = b.lower()
        for r in gen.RESERVED:
            if len(r) <= 2:
                ctx.assume(ctx.not_(low == r))
                ctx.assume(ctx.not_(lob == r))
        kind = ctx.pick("kind", ["METADATA", "VALIDATION", "VALUES", "CONNECTIONOPTIONS"])
        P = "SCALETOKEN" if kind == "VALUES" else "LAYER"
        d = load(ctx, P + " " + kind + "\n" + a + " '5'\n'QQQ' " + b + "x\nEND NAME 'n' END")
        exp = {"__type__": P.lower(), kind.lower(): {low: "5", "qqq": b + "x", "__type__": kind.lower()}, "name": "n"}
    compare(ctx, d, exp, "ambiguous:" + form)


def roots(ctx, form):
    s, v = gen.quoted(ctx, "s", 0, 2)
    if form == "list":
        d = load(ctx, "CLASS NAME " + s + " END\nLAYER NAME 'b' END CLASS NAME 'c' END")
        ctx.check(isinstance(d, list) and len(d) == 3, "roots:list")
        for x, e in zip(d, [{"__type__": "class", "name": v}, {"__type__": "layer", "name": "b"},
                            {"__type__": "class", "name": "c"}]):
            compare(ctx, x, e, "roots")
    elif form == "kv":
        k = ctx.pick("k", ["METADATA", "VALIDATION", "CONNECTIONOPTIONS"])
        d = load(ctx, k + "\n'A' " + s + "\n'b' 'c' END")
        compare(ctx, d, {"__type__": k.lower(), "a": v, "b": "c"}, "roots")
    elif form == "empty":
        t = ctx.pick("t", vocab.BLOCKS)
        c = gen.case_word(ctx, "e", "end")
        d = load(ctx, t.upper() + " " + c)
        compare(ctx, d, {"__type__": t}, "roots")


def points(ctx, t, n):
    """POINTS blocks given n times: a list of pairs, one level deeper when repeated"""
    text, exp = t.upper() + "\n", []
    for i in range(n):
        m = ctx.pick("m%d" % i, [1, 2])
        text = text + "POINTS\n"
        ps = []
        for j in range(m):
            a = ctx.string("a%d%d" % (i, j), 1, "digit")
            text = text + a + " %d.5\n" % j
            ps.append((int(a), j + 0.5))
        text = text + "END\n"
        exp.append(ps)
    d = load(ctx, text + "FOO 1 END")
    compare(ctx, d, {"__type__": t, "points": exp[0] if n == 1 else exp, "foo": 1}, "points")


def finding(ctx, form):
    if form == "hiddenkey":
        w = ctx.pick("w", ["__type__", "__TYPE__"])
        d = load(ctx, "LAYER METADATA '" + w + "' 'x' END END")
        ctx.check(d["metadata"]["__type__"] == "x", "finding")
    elif form == "listnumber":
        w = ctx.pick("w", ["007", "1.50", "+5"])
        d = load(ctx, "CLASS EXPRESSION {" + w + ",b} END")
        ctx.check(d["expression"] == "{" + w + ",b}", "finding")


CROSS = ["int", "float", "bool", "string", "bare", "binding", "regex", "iregex", "expr", "list", "hex"]


def units(tier):
    out = []
    for t, k, i, kind in vocab.slots():
        for place in ((0, 1) if tier == "thorough" or kind not in ("string", "int", "enum") else (1,)):
            out.append(Unit("slot:%s.%s.%d.%s.%d" % (t, k, i, kind, place), "c02.slot",
                            {"t": t, "k": k, "kind": kind, "place": place}))
    for t in vocab.BLOCKS:
        ks = [k for k in vocab.keywords(t) if not vocab.is_block_key(t, k) and k not in (
            "points", "pattern", "projection", "config", "metadata", "validation", "values", "connectionoptions", "include",
            "symbol")]
        for j, k in enumerate(ks):
            for i, kind in enumerate(CROSS):
                if tier == "thorough" or (i + j) % 3 == 0:
                    out.append(Unit("cross:%s.%s.%s" % (t, k, kind), "c02.cross", {"t": t, "k": k, "kind": kind}))
    for n, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            out.append(Unit("doc:%s.%d" % (n, h), "c02.doc", {"name": n, "holes": [h]}))
    for p, c in docs.nestings():
        out.append(Unit("nest:%s.%s" % (p, c), "c02.nest", {"p": p, "c": c, "holes": [1]}))
    for t in ("map", "layer", "web"):
        for n in (1, 2, 3):
            if n < 3 or t == "layer":
                out.append(Unit("keyword:%s.%d" % (t, n), "c02.keyword", {"t": t, "n": n}))
    for f in ("attr", "kv", "config", "kvblock", "singleton", "projection", "pattern", "repeat"):
        out.append(Unit("twice:" + f, "c02.twice", {"form": f}))
    for f in ("dq", "sq", "esc", "backslash", "path", "bare", "latin", "runtime", "null"):
        out.append(Unit("strings:" + f, "c02.strings", {"form": f}))
    for f in ("int", "float", "exp", "words"):
        out.append(Unit("numbers:" + f, "c02.numbers", {"form": f}))
    for f in ("symbolvalue", "symbolint", "symbolquoted", "gridname", "symbolblock", "symbolset", "querymap", "kvbare"):
        out.append(Unit("ambiguous:" + f, "c02.ambiguous", {"form": f}))
    for f in ("list", "kv", "empty"):
        out.append(Unit("roots:" + f, "c02.roots", {"form": f}))
    for f in ("hiddenkey", "listnumber"):
        out.append(Unit("finding:" + f, "c02.finding", {"form": f}))
    for t in ("feature", "symbol"):
        for n in (1, 2, 3, 4):
            if t == "feature" or n == 1:
                out.append(Unit("points:%s.%d" % (t, n), "c02.points", {"t": t, "n": n}))
    return out
