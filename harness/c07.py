"""C07: the validation verdict equals the schema's verdict."""
from symex.runner import Unit
import vocab
import gen
import docs
import opts
import schemacheck as S
import c02

FRESH_SCHEMAS = ("created", "version")
BOUNDS = ("every (block type, keyword) with a symbolic value of 20 shapes (integers and decimals in a window around the limits, strings up "
          "to 2 characters, enumerated words in any case, lists of up to 5 elements, nested lists, dictionaries), every chain of "
          "nested blocks, unknown keywords of up to 3 characters, missing keywords, hidden keys, lists of up to 3 roots, 10 "
          "texts loaded with and without positions and comments, objects from create for every type")


def twins(ctx, p, c, n):
    """the same violation in several objects of one list: a message for each of them"""
    bad = {"zz": 1} if ctx.bool("unknown") else {}
    k, kind = docs.simple_kw(c)
    v = ctx.pick("v", [{"x": 1}, [[1]], True])
    if not bad:
        bad[k] = v
    items = []
    for i in range(n):
        x = {"__type__": c}
        if c == "layer":
            x["type"] = "point"
        if i == 0 or ctx.bool("b%d" % i):
            for y in bad:
                x[y] = bad[y]
        items.append(x)
    d = {"__type__": p}
    if p == "layer":
        d["type"] = "point"
    d[vocab.plural(c)] = items
    judge(ctx, ctx.mappyfile.validate(d), S.expected(d), "twins")


def twokeys(ctx, t):
    """several violating keywords in one object"""
    d = {"__type__": t}
    if t == "layer":
        d["type"] = "point"
    ks = [docs.simple_kw(t), docs.simple_kw(t, 1), docs.simple_kw(t, 2), ("zz", ""), ("yy", "")]
    for i, (k, kind) in enumerate(ks):
        if ctx.bool("b%d" % i):
            d[k] = {"x": 1}
    judge(ctx, ctx.mappyfile.validate(d), S.expected(d), "twokeys")


def judge(ctx, msgs, exp, label):
    ctx.observe("msgs", [m["message"] for m in msgs])
    if not exp:
        ctx.check(len(msgs) == 0, label + ":accepted")
        return
    ctx.check(len(msgs) > 0, label + ":rejected")
    names = [n for _, n in exp]
    for n in names:
        # one message per violating keyword or object
        want = len([x for x in names if x == n])
        have = len([m for m in msgs if says(m, n)])
        ctx.check(have >= want, label + ":named")
    for m in msgs:
        ctx.check(ctx.any([says(m, n) for n in names]), label + ":nothing else named")


def says(m, n):
    t = m["message"].upper()
    n = n.upper()
    return t == n or t.endswith(" " + n) or (" " + n + " ") in t


def run(ctx, d, label, ver=None):
    v = ctx.mod("validator").Validator() if ctx.bool("reuse") else ctx.mappyfile
    judge(ctx, v.validate(d, version=ver), S.expected(d, ver), label)


SHAPES = ["int", "bigint", "real", "bool", "str", "str1", "words", "bind", "paren", "slash", "hexs", "list", "strs", "mixed", "nested", "dict",
          "typed", "dicts", "empty", "none"]


def shaped(ctx, t, k, nm, shape):
    if shape == "int":
        return ctx.int(nm, -300, 1100)
    if shape == "bigint":
        return ctx.int(nm, -10**9, 10**9)
    if shape == "real":
        return float(ctx.pick(nm + ".s", ["", "-"]) + ctx.string(nm, (1, 2), "digit") + "." + ctx.string(nm + ".f", 1, "digit"))
    if shape == "bool":
        return ctx.bool(nm)
    if shape == "str":
        return ctx.string(nm, (0, 2), "any")
    if shape == "str1":
        return ctx.string(nm, 3, "ascii")
    if shape == "words":
        ws = [w for w in vocab.enum_values(t, k) if isinstance(w, str)]
        ws = ws + ["on", "off", "auto"]
        w = ctx.pick(nm + ".w", ws[:10])
        w = gen.case_word(ctx, nm, w)
        return w + ctx.pick(nm + ".x", ["", "x"])
    if shape == "bind":
        return ctx.pick(nm + ".a", ["", "x"]) + "[" + ctx.string(nm, (0, 2), "any", exclude="[]") + "]" + ctx.pick(nm + ".z", ["", "\n", "y"])
    if shape == "paren":
        return ctx.pick(nm + ".a", ["", "x"]) + "(" + ctx.string(nm, (0, 2), "any") + ctx.pick(nm + ".z", [")", ")\n", ") "])
    if shape == "slash":
        return ctx.pick(nm + ".a", ["", "x"]) + "/" + ctx.string(nm, (0, 2), "any") + ctx.pick(nm + ".z", ["/", "/i"])
    if shape == "hexs":
        n = ctx.pick(nm + ".n", [2, 3, 4, 5, 6, 7, 8, 9])
        return "#" + "a" * (n - 2) + ctx.string(nm, 2, "hex") if ctx.bool(nm + ".ok") else "#" + "1" * (n - 1) + ctx.string(nm, 1, "ascii")
    if shape == "list":
        n = ctx.pick(nm + ".n", [0, 1, 2, 3, 4, 5, 6])
        return [ctx.int("%s.%d" % (nm, i), -3, 300) if i in (0, 2, n - 1) else 5 for i in range(n)]
    if shape == "strs":
        n = ctx.pick(nm + ".n", [1, 2, 3])
        return [ctx.string("%s.%d" % (nm, i), (0, 1), "any") for i in range(n)]
    if shape == "mixed":
        b = "[" + ctx.string(nm, 1, "any") + "]"
        x = float(ctx.string(nm + ".f", 1, "digit") + ".5")
        i = ctx.int(nm + ".i", -3, 300)
        return ctx.pick(nm + ".m", [[b, i], [i, b], [b, b], [x, i], [i, x], [i, x, i], [i, i, True], [i, i, x, i], ["#aabbcc", "#" + "abcdez"],
                                    [b, "a"], [i, "end"], [i, None]])
    if shape == "nested":
        i = ctx.int(nm + ".i", -3, 300)
        return ctx.pick(nm + ".m", [[[i, i]], [[i]], [[i, i], [i, "a"]], [(i, i), (1.5, i)], [[[i, i]]], [i, [i, i]], [[]]])
    if shape == "dict":
        return {ctx.string(nm, 1, "lower"): ctx.int(nm + ".i", 0, 3)}
    if shape == "typed":
        return {"__type__": ctx.pick(nm + ".t", ["symbol", "style", t]), ctx.pick(nm + ".k", ["name", "x"]): ctx.string(nm, (0, 1), "any")}
    if shape == "dicts":
        return [{"__type__": ctx.pick(nm + ".t", ["symbol", "style", vocab.PLURALS.get(k, "layer")]), "type": "point"}, {"x": 1}][:ctx.pick(nm + ".n", [1, 2])]
    if shape == "empty":
        return {}
    if shape == "none":
        return None
    raise ValueError(shape)


def slot(ctx, t, k, shape):
    d = {"__type__": t}
    if t == "layer" and k != "type":
        d["type"] = "point"
    d[k] = shaped(ctx, t, k, "v", shape)
    msgs = ctx.mappyfile.validate(d)
    judge(ctx, msgs, S.expected(d), "slot")


def chain(ctx, path, form):
    """an object at the end of a chain of nested blocks, of which any may be wrong"""
    root = d = {"__type__": path[0]}
    if path[0] == "layer":
        d["type"] = "point"
    for p, c in zip(path, path[1:]):
        x = {"__type__": c}
        if c == "layer":
            x["type"] = "point"
        for k, ch in vocab.child_blocks(p):
            if ch == c:
                if k == c:
                    d[k] = x
                else:
                    d[k] = [{"__type__": c, "type": "line"} if c == "layer" else {"__type__": c}, x]
        if form == "unknown" and ctx.bool("u." + c):
            d["zz"] = 1
        d = x
    if form == "unknown":
        u = ctx.string("u", (1, 3), "word")
        for w in vocab.keywords(path[-1]):
            if len(w) <= 3:
                ctx.assume(ctx.not_(u.lower() == w))
        d[u] = ctx.pick("uv", [1, "a", [], {}])
    elif form == "wrong":
        k, kind = docs.simple_kw(path[-1])
        d[k] = ctx.pick("w", ["zz", -5, [1], {}, 1.5])
    elif form == "two":
        k, kind = docs.simple_kw(path[-1])
        d[k] = {}
        d[ctx.string("u", 1, "alpha")] = 2
    elif form == "missing":
        d["type"] = 1
        del d["type"]
    judge(ctx, ctx.mappyfile.validate(root), S.expected(root), "chain")


def keycase(ctx, t, k, kind):
    """letter case of keys and of values"""
    s, v = docs.const(t, k, kind)
    kk = gen.case_word(ctx, "k", k)
    if isinstance(v, str):
        v = gen.case_word(ctx, "v", v)
    bad = ctx.bool("bad")
    d = {"__TYPE__" if ctx.bool("T") else "__type__": gen.case_word(ctx, "t", t), kk: {} if bad else v}
    if t == "layer" and k != "type":
        d["Type"] = "Point"
    if bad:
        d["Zz"] = 1
    judge(ctx, ctx.mappyfile.validate(d), S.expected(d), "keycase")
    if t in ("class", "label", "style", "layer"):
        p = {"class": "layer", "label": "class", "style": "class", "layer": "map"}[t]
        r = {"__type__": p, gen.case_word(ctx, "p", vocab.plural(t)): [d]}
        if p == "layer":
            r["TYPE"] = "POINT"
        judge(ctx, ctx.mappyfile.validate(r), S.expected(r), "keycase:nested")


def hidden(ctx, t):
    """hidden keys never matter"""
    h = "__" + ctx.string("h", (1, 2), "lower") + "__"
    ctx.assume(ctx.not_(h == "__type__"))
    k, kind = docs.simple_kw(t)
    d = {"__type__": t, k: ctx.pick("v", [docs.const(t, k, kind)[1], {}])}
    if t == "layer":
        d["type"] = "point"
    e = {x: d[x] for x in d}
    e[h] = ctx.pick("hv", [1, "a", {}, [1], None, {"a": {"b": 2}}])
    a = [m["message"] for m in ctx.mappyfile.validate(d)]
    b = [m["message"] for m in ctx.mappyfile.validate(e)]
    ctx.observe("a", a)
    ctx.check(a == b, "hidden")
    judge(ctx, ctx.mappyfile.validate(e), S.expected(e), "hidden")


def roots(ctx, form):
    """a list of roots gives the messages of its roots one by one"""
    m = ctx.mappyfile
    ds = []
    for i in range(ctx.pick("n", [1, 2, 3] if form != "mixed" else [2])):
        t = form if form != "mixed" else ctx.pick("t%d" % i, ["map", "layer", "class", "metadata", "symbolset"])
        d = {"__type__": t}
        if t in ("metadata",):
            d["a"] = "b"
        elif t == "symbolset":
            d["symbols"] = [{"__type__": "symbol", "name": "a"}]
        else:
            k, kind = docs.simple_kw(t)
            d[k] = ctx.pick("v%d" % i, [docs.const(t, k, kind)[1], -5])
        if ctx.bool("x%d" % i):
            d["zz"] = 1
        ds.append(d)
    one = []
    for d in ds:
        one += m.validate(d)
    ctx.observe("one", [x["message"] for x in one])
    many = m.validate(ds)
    ctx.check([(x["message"], x["error"]) for x in one] == [(x["message"], x["error"]) for x in many], "roots")
    exp = []
    for i, d in enumerate(ds):
        exp += [((i,) + p, n) for p, n in S.expected(d)]
    judge(ctx, many, exp, "roots")


def created(ctx, t):
    m = ctx.mappyfile
    v = ctx.pick("ver", [None, 4.0, 5.0, 6.2, 7.0, 7.6, 8.0, 8.4])
    d = m.create(t, v)
    ctx.observe("d", d)
    judge(ctx, m.validate(d), S.expected(d), "created")


TEXTS = {
    "size": "MAP SIZE %s %s NAME 'a' END",
    "extent": "MAP EXTENT 1 2 %s %s SIZE 1 %s END",
    "color": "CLASS STYLE COLOR %s %s 3 END STYLE OUTLINECOLOR '#12' WIDTH %s END END",
    "layer": "LAYER TYPE point PROCESSING 'a' PROCESSING %s PROCESSING %s OPACITY %s END",
    "points": "FEATURE POINTS %s 2 3 %s END END",
    "points2": "FEATURE POINTS 1 2 END POINTS %s 2 END END",
    "pattern": "STYLE PATTERN %s 2 END GAP %s WIDTH 'x' END",
    "projection": "MAP PROJECTION 'a' 'b' END LAYER TYPE %s NAME 'x' END LAYER NAME 'y' END END",
    "kv": "MAP WEB METADATA 'a' %s 'b' 'c' END TEMPLATE %s END CONFIG 'MS_NONSQUARE' %s END",
    "include": "MAP NAME 'a' WEB INCLUDE %s INCLUDE 'b' END END",
    "symbol": "MAP SYMBOL NAME %s TYPE %s POINTS 1 1 END FILLED %s END END",
    "nested": "MAP WEB MINSCALEDENOM %s FOO %s END LEGEND LABEL SIZE %s END END QUERYMAP SIZE 1 %s END END",
    "compop": "LAYER TYPE point COMPOSITE OPACITY %s COMPOP %s END COMPOSITE COMPFILTER %s END END",
    "style": "CLASS STYLE SYMBOL %s COLORRANGE '#000' %s END LABEL ANGLE %s OFFSET [a] %s END END",
    "grid": "LAYER TYPE line GRID LABELFORMAT %s MINARCS %s END FEATURE POINTS 1 1 END ITEMS %s END END",
}


def text(ctx, name):
    """dictionaries produced by loads, with positions and comments or without"""
    p = TEXTS[name].split("%s")
    s = p[0]
    f = ctx.pick("f", range(len(p) - 1))
    for i, x in enumerate(p[1:]):
        if f != i:
            s = s + "5" + x
            continue
        s = s + ctx.pick("w", ["5", "-5", "1.5", "'a'", "TRUE", "polygon", "[a]", "( [a] = 1 )", "256", "'#aabbcc'", "2 2", "1e3", "'auto'", "''"]) + x
    m = ctx.mappyfile
    # single inputs, so that loads may fail on any of them
    pos, com = ctx.pick("pc", [(False, False), (True, True), (True, False), (False, True)])
    try:
        d = m.loads(s + "\n# c\n", include_position=pos, include_comments=com, expand_includes=False)
    except ctx.lark_errors():
        ctx.assume(False)
    judge(ctx, m.validate(d), S.expected(d), "text")
    v = ctx.mod("validator").Validator()
    if ctx.bool("twice"):
        v.validate(d, add_comments=True)
    judge(ctx, v.validate(d, add_comments=True), S.expected(d), "text:comments")


def doc(ctx, name, hole):
    """a full document with one symbolic leaf"""
    made = docs.make(ctx, name, [hole])
    m = ctx.mappyfile
    try:
        d = m.loads(docs.text(made), include_position=True, include_comments=True)
    except ctx.lark_errors():
        ctx.assume(False)
    judge(ctx, m.validate(d), S.expected(d), "doc")


def edited(ctx, form):
    """after edits and reads through the dict API"""
    m = ctx.mappyfile
    d = m.loads("MAP NAME 'a' LAYER NAME 'b' TYPE POINT CLASS NAME 'c' STYLE WIDTH 1 END END END END", include_position=ctx.bool("pos"))
    k = ctx.pick("k", ["layers", "classes", "web", "metadata", "legend", "size", "symbols", "x", "styles", "NAME"])
    x = [d, d["layers"][0], d["layers"][0]["classes"][0]][ctx.pick("at", [0, 1, 2])]
    if form == "read":
        x[k]
    elif form == "set":
        x[k] = ctx.pick("v", [1, "a", [], {}, [1, 2], [{}], {"__type__": "web"}])
    elif form == "del":
        if k in x:
            del x[k]
        else:
            x[k]
            del x[k]
        if ctx.bool("type") and d["layers"]:
            d["layers"][0].pop("type")
    elif form == "update":
        m.update(d, ctx.pick("u", [{"layers": [{"status": "zz"}]}, {"layers": [None, {"name": "x"}]}, {"web": {"foo": 1}}, {"size": [1]},
                                   {"layers": [{"classes": [{"styles": [{"color": [1, 2]}]}]}]}]))
    judge(ctx, m.validate(d), S.expected(d), "edited")


def units(tier):
    out = []
    for t in vocab.BLOCKS:
        i = len(out)
        for k in vocab.keywords(t):
            for j, sh in enumerate(SHAPES):
                i += 1
                if sh == "words" and not any(isinstance(w, str) for w in vocab.enum_values(t, k)):
                    continue
                if tier == "thorough" or relevant(t, k, sh) or i % 5 == 0:
                    out.append(Unit("slot:%s.%s.%s" % (t, k, sh), "c07.slot", {"t": t, "k": k, "shape": sh}))
        for f in ("unknown", "wrong", "two", "missing"):
            if f != "missing" or t == "layer":
                for p in chains(t, tier):
                    out.append(Unit("chain:%s.%s" % ("-".join(p), f), "c07.chain", {"path": p, "form": f}))
        out.append(Unit("hidden:" + t, "c07.hidden", {"t": t}))
        out.append(Unit("created:" + t, "c07.created", {"t": t}))
        out.append(Unit("roots:" + t, "c07.roots", {"form": t}))
    for t, k, j, kind in vocab.slots():
        if kind in ("int", "string", "enum", "bool", "array:int,int", "hex") and not k.startswith("__"):
            nm = "keycase:%s.%s" % (t, k)
            if nm not in [u.name for u in out]:
                out.append(Unit(nm, "c07.keycase", {"t": t, "k": k, "kind": kind}))
    for p, c in docs.nestings():
        if not docs.singleton(p, c):
            out.append(Unit("twins:%s.%s" % (p, c), "c07.twins", {"p": p, "c": c, "n": 3}))
    for t in vocab.BLOCKS:
        out.append(Unit("twokeys:" + t, "c07.twokeys", {"t": t}))
    out.append(Unit("roots:mixed", "c07.roots", {"form": "mixed"}))
    for n in TEXTS:
        out.append(Unit("text:" + n, "c07.text", {"name": n}))
    for n in docs.SCENARIOS:
        h = docs.nholes(docs.SCENARIOS[n])
        for i in range(h):
            if tier == "thorough" or i % 4 == 0:
                out.append(Unit("doc:%s.%d" % (n, i), "c07.doc", {"name": n, "hole": i}))
    for f in ("read", "set", "del", "update"):
        out.append(Unit("edited:" + f, "c07.edited", {"form": f}))
    return out


def relevant(t, k, sh):
    """shapes near the boundary of a keyword's schema"""
    for p in vocab.alternatives(vocab.schema(t)["properties"][k]):
        ty = p.get("type")
        if "enum" in p and sh in ("words",):
            return True
        if ty in ("integer", "number") and sh in ("int", "real"):
            return True
        if ty == "array" and sh in ("list", "mixed", "nested" if k in ("points", "pattern") else "list"):
            return True
        pat = p.get("pattern", "")
        if pat.startswith("^#") and sh == "hexs" or pat.startswith("^\\[") and sh == "bind" or pat.startswith("^\\(") and sh == "paren":
            return True
        if p.get("_ref") in vocab.BLOCKS and sh in ("typed", "empty"):
            return True
        if "maxLength" in p and sh == "str":
            return True
    return False


_parents = {}


def chains(t, tier):
    """ways of nesting a block, from the roots"""
    if not _parents:
        for p in vocab.BLOCKS:
            for k, c in vocab.child_blocks(p):
                _parents.setdefault(c, []).append(p)
    out = [[t]]
    for p in _parents.get(t, []):
        if p == t:
            continue
        for q in chains(p, tier)[:2 if tier != "thorough" else 4]:
            if t not in q and len(q) < 5:
                out.append(q + [t])
    return out
