"""C08: recorded positions and the locations of validation messages are exact."""
from symex.runner import Unit
import vocab
import gen
import docs
import schemacheck as S

BOUNDS = ("18 documents covering every block type, keyword shape and nesting; one gap between two tokens made of up to 2 symbolic "
          "whitespace characters or a symbolic comment, the others from 8 fixed layouts (LF, CRLF, tabs, comments, one line); one "
          "string value of up to 3 symbolic characters incl. line breaks; every keyword of every schema with a violating value; up to 3 violations")


class B:
    def __init__(self, t, *items):
        self.t = t
        self.items = items


class K:
    """a keyword with its value tokens; bad tokens replace them when the violation is switched on"""
    def __init__(self, k, *vals, bad=None):
        self.k = k
        self.vals = vals
        self.bad = bad


class E:
    """KEY ... END (kv blocks, projection, points, pattern) with rows of tokens"""
    def __init__(self, k, *vals, bad=None):
        self.k = k
        self.vals = vals
        self.bad = bad


class C:
    """CONFIG key value"""
    def __init__(self, key, val):
        self.key = key
        self.val = val


DOCS = {
    "map": B("map", K("name", "'a b'"), K("size", "10", "20", bad=("10.5", "20")), K("extent", "1", "2", "3.5", "4"), K("status", "ON", bad=("'zz'",)),
             C("'k'", "'v'"), C("K2", "v2"), E("projection", "'a'", "'b'"), B("web", K("template", "'x'"), E("metadata", "'a'", "'b'", "c", "'d'"),
                                                                             K("minscaledenom", "-5")),
             K("angle", "'a'")),
    "layers": B("map", B("layer", K("type", "POINT", bad=("zz",)), K("opacity", "400"), B("class", K("name", "'a'"), B("style", K("width", "'x'"), K("color", "1", "2", "300"))),
                         B("class", K("zz", "1"))), B("layer", K("name", "'b'")), K("foo", "1")),
    "repeated": B("layer", K("type", "point"), K("processing", "'a'", bad=("1",)), K("name", "'x'"), K("processing", "'b'"), K("processing", "'c'", bad=("2",)),
                  K("opacity", "'a'"), B("composite", K("compfilter", "'a'"), K("compfilter", "3"), K("compop", "'zz'"))),
    "points": B("feature", E("points", "1", "2", "3.5", "-4"), E("points", "1", "2"), K("wkt", "'a'", bad=("5",)), E("points", "1", "2", "3", "4")),
    "pattern": B("style", E("pattern", "1", "2", "3", "4"), K("gap", "'x'"), K("offset", "[a]", "3"), K("colorrange", "1", "2", "3", "4", "5", "6"), K("colorrange", "'#aabbcc'", "'#000000'"),
                 K("initialgap", "-4"), K("size", "[a]"), K("symbol", "'circle'")),
    "kv": B("layer", E("metadata", "'a'", "'b'", "C", "'d'"), E("validation", "'a'", "'b'"), E("connectionoptions", "'x'", "y"), K("status", "zz"),
            B("scaletoken", K("name", "'%a%'"), E("values", "'0'", "'a'", "'1'", "'b'"), K("foo", "2")), K("type", "line")),
    "expr": B("class", K("expression", "(", "[a]", "=", "1", "AND", "[b]", ">", "2", ")"), K("text", "(", "tostring", "(", "[a]", ",", '"%.2f"', ")", ")"), K("expression", "/ab/"),
              K("name", "{a,b}"), K("minscaledenom", "'a'"), B("label", K("text", "'[a]'"), K("size", "-3"), K("angle", "AUTO"), K("offset", "1", "2")),
              B("leader", K("gridstep", "'x'"), B("style", K("width", "1")))),
    "symbolset": B("symbolset", B("symbol", K("name", "'a'"), K("type", "ELLIPSE", bad=("5",)), E("points", "1", "1"), K("filled", "TRUE")), B("symbol", K("image", "'a.png'"), K("foo", "1"))),
    "symbol": B("map", B("symbol", K("name", "circle"), K("filled", "'a'"), K("anchorpoint", "0.5", "0.5")), B("querymap", K("style", "hilite"), K("status", "zz"), K("size", "1.5", "2")),
                B("scalebar", K("style", "1"), K("intervals", "'a'")), K("symbolset", "'x'")),
    "grid": B("layer", K("name", "grid"), B("grid", K("labelformat", "DDMM"), K("minarcs", "'x'"), K("foo", "1")), B("cluster", K("maxdistance", "'a'"), K("region", "'ellipse'")), K("units", "zz")),
    "legend": B("legend", K("keysize", "1", "2", bad=("1", "2000")), B("label", K("type", "TRUETYPE"), K("size", "MEDIUM"), K("position", "zz")), K("status", "ON"), K("imagecolor", "1", "2", "999")),
    "reference": B("map", B("reference", K("extent", "1", "2", "3", "4"), K("size", "1", "2"), K("color", "-1", "-1", "-2"), K("marker", "'a'")), B("outputformat", K("name", "png"), K("formatoption", "'A=B'"),
                                                                                                                                 K("formatoption", "3"), K("transparent", "5"))),
    "join": B("layer", B("join", K("name", "'a'"), K("type", "zz"), K("table", "1")), K("type", "raster"), K("tileitem", "'a'")),
    "metaroot": B("metadata"),
    "web": B("web", E("metadata"), K("empty", "7"), E("validation", "'a'", "'b'")),
    "multi": None,
}
MULTI = [B("class", K("name", "'a'"), K("foo", "1")), B("layer", K("name", "'b'"), K("status", "zz")), B("style", K("width", "'x'")), B("metadata")]
for _k in list(DOCS):
    if DOCS[_k] is None:
        DOCS[_k] = MULTI


class Emit:
    """writes tokens with separators and knows where each starts"""
    def __init__(self, sep):
        self.sep = sep
        self.text = ""
        self.n = 0
        self.at = (1, 1)

    def put(self, s):
        self.text = self.text + s
        self.at = where(s, self.at)

    def tok(self, s):
        self.put(self.sep(self.n))
        self.n += 1
        pos = self.at
        self.put(s)
        return pos


def where(text, at=(1, 1)):
    """1-based line and column of what would come next"""
    line, col = at
    for c in text:
        if c == "\n":
            line += 1
            col = 1
        else:
            col += 1
    return (line, col)


def emit(e, x, bad, hole, idx):
    """(kind, key, start, [value starts], [children])"""
    if isinstance(x, B):
        p = e.tok(x.t.upper())
        if x.t == "metadata":
            vs = [e.tok("'a'"), e.tok("'b'")]
            e.tok("END")
            return ("kv", "metadata", p, vs, [])
        ch = []
        for y in x.items:
            ch.append(emit(e, y, bad, hole, idx))
        e.tok("END")
        return ("block", x.t, p, [], ch)
    if isinstance(x, C):
        p = e.tok("CONFIG")
        vs = [e.tok(x.key), e.tok(x.val)]
        return ("config", x.key.strip("'").lower(), p, vs, [])
    p = e.tok(x.k.upper() if idx[0] % 2 else x.k)
    idx[0] += 1
    vals = x.bad if bad and x.bad else x.vals
    vs = []
    for v in vals:
        if hole is not None and v == "'a'" and not idx[1]:
            idx[1] = 1
            v = "'" + hole + "'"
        vs.append(e.tok(v))
    if isinstance(x, E):
        e.tok("END")
        kind = "kv" if x.k in vocab.KVBLOCKS else "pairs" if x.k in ("points", "pattern") else "proj"
        return (kind, x.k, p, vs, [])
    return ("kw", x.k, p, vs, [])


LAYOUTS = [" ", "\n", "\n  ", "\t", "\r\n", " # c ' MAP\n", " /* a\n b */ ", "\n\n \t "]


def separators(ctx, form, g):
    mix = LAYOUTS if form == "mix" else [LAYOUTS[int(form)]]

    def sep(i):
        if i == g:
            how = ctx.pick("how", ["ws", "hash", "slash"])
            if how == "ws":
                return ctx.string("w", (1, 2), "ws")
            if how == "hash":
                return " #" + ctx.string("c", (0, 2), "any", exclude="\n") + "\n" + ctx.string("w", (0, 1), "ws")
            c = ctx.string("c", (0, 2), "any")
            ctx.assume(ctx.not_("*/" in c))
            return " /*" + c + "*/" + ctx.string("w", (0, 1), "ws")
        return mix[(i * 5 + i // 3) % len(mix)] if i or form == "mix" else ""
    return sep


def pos_ok(ctx, p, start, vals, label, exact):
    ctx.check(p["line"] == start[0] and p["column"] == start[1], label + ":keyword")
    if vals is None:
        return
    vp = [(a, b) for a, b in p.get("values", [])]
    if exact:
        ctx.check(len(vp) == len(vals), label + ":number of values")
    prev = start
    for q in vp:
        ctx.check(q > prev, label + ":values in order")
        prev = q
        ctx.check(ctx.any([q == v or q == (v[0], v[1] + 1) for v in vals]), label + ":values")
    if vals and len(vp) == 0:
        ctx.fail(label + ":values missing")


def verify(ctx, d, node, label):
    """the positions of one object"""
    kind, t, start, vals, ch = node
    p = d["__position__"]
    if kind == "kv":
        pos_ok(ctx, p, start, vals, label, True)
        return
    ctx.check(p["line"] == start[0] and p["column"] == start[1], label + ":object")
    seen = {}
    last = {}
    for c in ch:
        if c[0] in ("kw", "pairs", "proj"):
            last[c[1]] = c
    for c in ch:
        k = c[1]
        if c[0] == "block" or c[0] == "kv":
            pl = vocab.plural(k)
            if pl in d:
                i = seen.get(k, 0)
                seen[k] = i + 1
                verify(ctx, d[pl][i], c, label)
            else:
                verify(ctx, d[k], c, label)
        elif c[0] == "config":
            pos_ok(ctx, p["config"][k], c[2], c[3], label, True)
        elif k in ("processing", "formatoption", "compfilter"):
            i = seen.get(k, 0)
            seen[k] = i + 1
            pos_ok(ctx, p[k][i], c[2], c[3], label, True)
        elif k == "points":
            n = len([x for x in ch if x[1] == "points"])
            i = seen.get(k, 0)
            seen[k] = i + 1
            pos_ok(ctx, p[k] if n == 1 else p[k][i], c[2], c[3], label, False)
        elif c is last[k]:
            pos_ok(ctx, p[k], c[2], c[3], label, c[0] == "kw" and k not in ("expression", "text"))


def locate(node, path):
    """start of the keyword or object a path leads to"""
    kind, t, start, vals, ch = node
    if not path:
        return start
    k = path[0]
    rest = path[1:]
    if rest and isinstance(rest[0], int) and k in vocab.PLURALS:
        cs = [c for c in ch if c[0] == "block" and vocab.plural(c[1]) == k]
        return locate(cs[rest[0]], rest[1:])
    cs = [c for c in ch if c[1] == k]
    if not cs:
        # a list of objects as a whole
        return start
    if cs[-1][0] in ("block", "kv"):
        return locate(cs[-1], rest)
    if k in ("processing", "formatoption", "compfilter") or (k == "points" and len(cs) > 1):
        return cs[rest[0] if rest else 0][2]
    return cs[-1][2]


def messages(ctx, d, nodes, label):
    ds = d if isinstance(d, list) else [d]
    exp = []
    for x, n in zip(ds, nodes):
        low = S.lower(x)
        for p in S.errors(vocab.schema(S.target(low, ()) and x["__type__"] or x["__type__"]), low):
            # (name, position): one per violating keyword, occurrence or object
            q = (S.named(low, p), locate(n, p))
            if q not in exp:
                exp.append(q)
    msgs = ctx.mappyfile.validate(d)
    ctx.observe("msgs", [(m["message"], m.get("line"), m.get("column")) for m in msgs])
    ctx.check((len(exp) > 0) == (len(msgs) > 0), label + ":verdict")
    for n, q in exp:
        hit = [m for m in msgs if m["message"].upper().endswith(" " + n.upper()) and m["line"] == q[0] and m["column"] == q[1]]
        ctx.check(len(hit) > 0, label + ":location")
    for m in msgs:
        hit = [1 for n, q in exp if m["message"].upper().endswith(" " + n.upper()) and m["line"] == q[0] and m["column"] == q[1]]
        ctx.check(len(hit) > 0, label + ":location of a message")


def build(ctx, spec, form, g, bad, hole=None):
    e = Emit(separators(ctx, form, g))
    idx = [0, 0]
    nodes = [emit(e, x, bad, hole, idx) for x in (spec if isinstance(spec, list) else [spec])]
    e.text = e.text + "\n"
    return e.text, nodes, e.n


def doc(ctx, name, form, g, bad, com):
    text, nodes, n = build(ctx, DOCS[name], form, g, bad, ctx.string("s", (0, 2), "any", exclude="'\\i") if g is None else None)
    m = ctx.mappyfile
    try:
        d = m.loads(text, include_position=True, include_comments=com)
    except ctx.lark_errors():
        ctx.assume(False)
    for x, nd in zip(d if isinstance(d, list) else [d], nodes):
        verify(ctx, x, nd, "position")
    messages(ctx, d, nodes, "message")


def slot(ctx, t, k, bads):
    """a violation in every keyword of every block"""
    bad = ctx.pick("bad", bads)
    sp = ctx.string("w", (1, 2) if k == "zz" else 1, "ws")
    pre = t.upper() + sp + ("TYPE point\n" if t == "layer" and k != "type" else "NAME 'a' " if t == "symbol" and k == "zz" else "")
    text = pre + k.upper() + " " + bad
    start = where(pre)
    root = (1, 1)
    par = None
    for p in vocab.BLOCKS:
        for kk, c in vocab.child_blocks(p):
            if c == t and p != t and kk != "symbol":
                par = p
    if par and ctx.bool("nested"):
        head = par.upper() + "\n\t" + ("TYPE line " if par == "layer" else "")
        root = where(head)
        text = head + text + " END"
        start = (start[0] + 1, start[1] if start[0] > 1 else start[1] + root[1] - 1)
    text = text + "\nEND"
    m = ctx.mappyfile
    try:
        d = m.loads(text, include_position=True)
    except ctx.lark_errors():
        ctx.assume(False)
    msgs = m.validate(d)
    ctx.observe("msgs", [(x["message"], x.get("line"), x.get("column")) for x in msgs])
    low = S.lower(d)
    es = S.errors(vocab.schema(d["__type__"]), low)
    ctx.assume(len(es) > 0)
    want = []
    for p in es:
        nm = S.named(low, p)
        want.append((nm, start if k in p else root))
    ctx.check(len(msgs) > 0, "slot:verdict")
    for nm, q in want:
        ctx.check(len([x for x in msgs if x["message"].upper().endswith(" " + nm.upper()) and x["line"] == q[0] and x["column"] == q[1]]) > 0, "slot:location")
    for x in msgs:
        ctx.check(len([1 for nm, q in want if x["line"] == q[0] and x["column"] == q[1]]) > 0, "slot:location of a message")


def keypos(ctx, t, k, kind):
    """the position of every keyword, after a symbolic separator and before one"""
    import c05
    s = c05.const_slot(t, k, kind)
    a = ctx.string("a", (1, 2), "ws")
    pre = t.upper() + a
    start = where(pre)
    i = s.index(" ")
    word = s[:i]
    text = pre + gen.case_word(ctx, "k", word) + ctx.string("b", 1, "ws") + s[i + 1:] + "\nEND"
    try:
        d = ctx.mappyfile.loads(text, include_position=True)
    except ctx.lark_errors():
        ctx.assume(False)
    x = d
    p = d["__position__"]
    ctx.observe("p", p)
    ctx.check(p["line"] == 1 and p["column"] == 1, "keypos:object")
    if kind.startswith("block:"):
        q = d["symbols"][0]["__position__"]
    elif kind == "kv":
        q = d[k]["__position__"]
    elif kind == "config":
        q = p[k]["a"]
    elif kind == "repeated":
        q = p[k][0]
    else:
        q = p[k]
    ctx.check(q["line"] == start[0] and q["column"] == start[1], "keypos:keyword")


def included(ctx, form):
    """positions refer to the text after INCLUDE expansion"""
    a = ctx.string("a", (0, 2), "ws", exclude="\r")
    ctx.put_file("x.map", "LAYER" + "\n " + a + "NAME 'a'\nSTATUS zz END")
    text = "MAP\n" + "INCLUDE 'x.map'\n" + " ANGLE 'b'\nEND"
    ctx.put_file("m.map", text)
    m = ctx.mappyfile
    d = m.open(ctx.path("m.map"), include_position=True)
    full = "MAP\nLAYER\n " + a + "NAME 'a'\nSTATUS zz END\n ANGLE 'b'\nEND"
    ctx.check(ctx.same(d, m.loads(full, include_position=True)), "included")
    l = d["layers"][0]
    w = where("MAP\nLAYER\n " + a)
    ctx.check((l["__position__"]["name"]["line"], l["__position__"]["name"]["column"]) == w, "included:keyword")
    ctx.check((l["__position__"]["line"], l["__position__"]["column"]) == (2, 1), "included:object")


def finding_line(ctx):
    """keywords named LINE or COLUMN overwrite the position of their object"""
    k = ctx.pick("k", ["LINE", "COLUMN"])
    d = ctx.mappyfile.loads("MAP " + k + " " + ctx.string("n", 1, "digit") + " END", include_position=True)
    p = d["__position__"]
    ctx.observe("p", p)
    ctx.check(p["line"] == 1 and p["column"] == 1, "finding")


def count(name):
    class X:
        def pick(self, n, o):
            return o[0]

        def string(self, *a, **k):
            return "a"

        def assume(self, c):
            pass

        def not_(self, c):
            return not c
    return build(X(), DOCS[name], "0", None, False)[2]


def units(tier):
    out = [Unit("finding:line", "c08.finding_line", {})]
    j = 0
    for name in DOCS:
        n = count(name)
        for form in list(range(len(LAYOUTS))) + ["mix"]:
            for bad in (False, True):
                j += 1
                if tier != "thorough" and form != "mix" and j % 4:
                    continue
                out.append(Unit("layout:%s.%s.%d" % (name, form, bad), "c08.doc", {"name": name, "form": str(form), "g": None, "bad": bad, "com": bad}))
        for g in range(n):
            j += 1
            for form in ("0", "mix") if tier == "thorough" else (("0", "mix")[j % 2],):
                if tier == "thorough" or j % 3 == 0:
                    out.append(Unit("gap:%s.%d.%s" % (name, g, form), "c08.doc", {"name": name, "form": form, "g": g, "bad": bool(j % 4 > 1), "com": j % 5 == 0}))
    for t in vocab.BLOCKS:
        for k in vocab.keywords(t):
            if vocab.is_block_key(t, k):
                continue
            if k in ("points", "pattern", "projection", "config", "values") or k in vocab.KVBLOCKS or k == "include":
                continue
            out.append(Unit("slot:%s.%s" % (t, k), "c08.slot", {"t": t, "k": k, "bads": ["-99999", "'zz'", "1 2", "TRUE", "[a]"][:5 if tier == "thorough" else 3]}))
        out.append(Unit("slot:%s.zz" % t, "c08.slot", {"t": t, "k": "zz", "bads": ["1"]}))
    seen = set()
    for t, k, i, kind in vocab.slots():
        if (t, k) not in seen:
            seen.add((t, k))
            out.append(Unit("keypos:%s.%s" % (t, k), "c08.keypos", {"t": t, "k": k, "kind": kind}))
    out.append(Unit("included", "c08.included", {"form": "a"}))
    return out
