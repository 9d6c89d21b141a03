"""C03: the written text, read by an independent reader, says exactly what the dictionary says."""
from symex.runner import Unit
import vocab
import gen
import longs
import docs
import reader

BOUNDS = ("dictionaries given as plain dicts: every (block type, keyword, schema alternative) and other value classes, strings "
          "up to 2 characters (double quotes only in the escaping units), 9 nested documents per leaf, hidden keys, edited "
          "dictionaries, refused values")


def is_num(v):
    return not isinstance(v, bool) and isinstance(v, (int, float))


def num_ok(tok, v):
    if tok[0] != "bare":
        return False
    try:
        x = float(tok[1]) if isinstance(v, float) else int(tok[1])
    except ValueError:
        return False
    return x == v


def enum_of(t, k, v):
    if k not in vocab.schema(t).get("properties", {}):
        return False
    low = v.lower()
    for e in vocab.enum_values(t, k):
        if isinstance(e, str) and e == low:
            return True
    return False


def lexclass(t, k, v):
    """allowed token classes of a string value, from the schema and MapServer's syntax"""
    if k in ("processing", "formatoption", "compfilter", "include"):
        return ("str",)
    props = vocab.schema(t).get("properties", {})
    alts = vocab.alternatives(props[k]) if k in props else []
    if enum_of(t, k, v):
        return ("str",) if k == "compop" or v.lower() == "end" else ("bare",)
    pats = "".join([p.get("pattern", "") for p in alts])
    exprs = [p for p in alts if p.get("description") == "expression"]
    plain = all([p.get("type") == "string" and "pattern" not in p for p in alts]) and alts
    if plain and "oneOf" in props[k]:
        # a value that is none of the listed words has no prescribed class
        return ("str", "bind", "expr", "list", "regex")
    if plain:
        return ("str",)
    if v.startswith("(") and v.endswith(")"):
        return ("expr",)
    if v.startswith("[") and v.endswith("]"):
        return ("bind", "str") if k == "text" else ("bind",)
    if v.startswith("{") and v.endswith("}") and k in ("expression", "filter"):
        return ("list",)
    if exprs and v.startswith("/") and (v.endswith("/") or v.endswith("/i")):
        # numbers and texts list a regular expression only through the shared expression schema
        return ("regex", "str") if (t, k) in (("label", "priority"), ("label", "size"), ("label", "text"), ("style", "size")) else ("regex",)
    if exprs and (v.endswith("'i") or v.endswith('"i')):
        return ("istr",)
    return ("str",)


def scalar_ok(ctx, t, k, toks, v):
    if isinstance(v, bool):
        return len(toks) == 1 and toks[0][0] == "bare" and toks[0][1] == ("TRUE" if v else "FALSE")
    if is_num(v):
        if len(toks) != 1:
            return False
        if toks[0][0] == "str":  # numbers may be strings where the schema says string
            rep = k in ("processing", "formatoption", "compfilter")
            return toks[0][1] == str(v) and (rep or vocab.schema_is_string(t, k))
        return num_ok(toks[0], v)
    if isinstance(v, str):
        if len(toks) == 2 and v.startswith("NOT "):
            return toks[0] == ("bare", "NOT") and toks[1][0] == "expr" and toks[1][1] == v[4:]
        if len(toks) != 1:
            return False
        if toks[0][0] not in lexclass(t, k, v):
            return False
        if toks[0][0] == "bare":
            return toks[0][1].lower() == v.lower()
        if toks[0][0] == "istr":
            return toks[0][1] == v[1:-2]
        return toks[0][1] == v
    if isinstance(v, (list, tuple)):
        if len(toks) != len(v):
            return False
        for tk, x in zip(toks, v):
            if is_num(x):
                if not num_ok(tk, x):
                    return False
            elif tk[0] == "bind":
                if not (tk[1] == x):
                    return False
            elif not (tk[0] == "str" and tk[1] == x and not (x.startswith("[") and x.endswith("]"))):
                return False
        return True
    return False


def pairs_ok(node, v):
    if len(node[2]) != len(v):
        return False
    for row, p in zip(node[2], v):
        if len(row[1]) != 2 or not num_ok(row[1][0], p[0]) or not num_ok(row[1][1], p[1]):
            return False
    return True


def kv_ok(node, v):
    ks = [k for k in v if not (k.startswith("__") and k.endswith("__"))]
    if node[2] is None or len(node[2]) != len(ks):
        return False
    for row, k in zip(node[2], ks):
        if len(row[1]) != 2 or row[1][0][0] != "str" or row[1][1][0] != "str":
            return False
        if not (row[1][0][1] == k and row[1][1][1] == v[k]):
            return False
    return True


def says(ctx, node, d, where):
    """the block node says exactly what the dictionary d says"""
    t = d["__type__"]
    ctx.check(node[0] == t, where + ":block")
    if t in ("metadata", "validation", "connectionoptions"):
        ctx.check(kv_ok(node, d), where + ":pairs")
        return
    rest = list(node[2])

    def take():
        ctx.check(len(rest) > 0, where + ":missing")
        return rest.pop(0)
    for k in d:
        v = d[k]
        if k.startswith("__") and k.endswith("__"):
            continue
        if k in vocab.PLURALS and isinstance(v, list):
            for x in v:
                says(ctx, take(), x, where)
        elif k == "points" or k == "pattern":
            multi = len(v) > 0 and isinstance(v[0], list) and len(v[0]) > 0 and isinstance(v[0][0], (list, tuple))
            for ps in (v if multi else [v]):
                n = take()
                ctx.check(n[0] == k and pairs_ok(n, ps), where + ":" + k)
        elif k in vocab.KVBLOCKS:
            n = take()
            ctx.check(n[0] == k and kv_ok(n, v), where + ":" + k)
        elif k == "projection":
            n = take()
            items = [v] if isinstance(v, str) else v
            ok = n[0] == k and n[2] is not None and len(n[2]) == len(items)
            ctx.check(ok, where + ":projection")
            if len(items) == 1 and items[0].upper() == "AUTO":
                tk = n[2][0][1]
                ctx.check(len(tk) == 1 and tk[0][1] == "AUTO" and (tk[0][0] == "bare" or isinstance(v, str)),
                          where + ":projection")
            else:
                for row, x in zip(n[2], items):
                    ctx.check(len(row[1]) == 1 and row[1][0][0] == "str" and row[1][0][1] == x, where + ":projection")
        elif k == "config":
            for ck in v:
                if ck.startswith("__") and ck.endswith("__"):
                    continue
                n = take()
                ok = n[0] == "config" and len(n[1]) == 2 and n[1][0][0] == "str" and n[1][1][0] == "str"
                ctx.check(ok and n[1][0][1].lower() == ck.lower() and n[1][1][1] == v[ck], where + ":config")
        elif k in ("processing", "formatoption", "compfilter", "include"):
            for x in v:
                n = take()
                ctx.check(n[0] == k and n[2] is None and scalar_ok(ctx, t, k, n[1], x), where + ":" + k)
        elif isinstance(v, dict):
            says(ctx, take(), v, where)
        else:
            n = take()
            ctx.check(n[0] == k.lower() and n[2] is None, where + ":keyword")
            ctx.check(scalar_ok(ctx, t, k, n[1], v), where + ":value")
    ctx.check(len(rest) == 0, where + ":extra")


def written(ctx, d, where, opts=None):
    out = ctx.mappyfile.dumps(d, **(opts or {}))
    ctx.observe("out", out)
    try:
        nodes = reader.read(out)
    except reader.ReadError as e:
        ctx.fail(where + ":unreadable", str(e))
        return
    ds = d if isinstance(d, list) else [d]
    ctx.check(len(nodes) == len(ds), where + ":roots")
    for n, x in zip(nodes, ds):
        says(ctx, n, x, where)


def slotdict(t, k, kind, v):
    d = {"__type__": t}
    if kind == "kv":
        m = {}
        for kk, vv in v:
            m[kk.lower()] = vv
        m["__type__"] = k
        d[k] = m
    elif kind == "config":
        d[k] = {v[0][0].lower(): v[0][1]}
    elif kind.startswith("block:"):
        d["symbols"] = [{"__type__": "symbol", "name": "x"}]
    else:
        d[k] = v
    return d


def slot(ctx, t, k, kind):
    _, v = gen.slot(ctx, t, k, kind, "v")
    d = slotdict(t, k, kind, v)
    d["bar"] = "z"
    written(ctx, d, "slot")


def cross(ctx, t, k, kind):
    _, v = gen.value(ctx, t, k, kind, "v")
    if isinstance(v, str) and kind not in ("string", "bare") and (not gen.free(ctx, t, k) or k not in ("expression", "filter")):
        if kind in ("regex", "iregex", "list") or not gen.free(ctx, t, k):
            ctx.assume(False)
    if k in ("processing", "formatoption", "compfilter"):
        v = [v]
    written(ctx, {"__type__": t, "foo": 1, k: v, "bar": "z"}, "cross")


def doc(ctx, name, holes, via):
    inst = docs.make(ctx, name, holes)
    d = docs.expect(inst)
    if via == "loads":
        d = ctx.mappyfile.loads(docs.text(inst))
    elif via == "hidden":
        d["__foo__"] = {"a": 1}
        d["__%s__" % ctx.string("hid", (0, 1), "lower")] = "x"
        for k in d:
            if isinstance(d[k], dict) and not k.startswith("__"):
                d[k]["__bar__"] = "secret"
    written(ctx, d, "doc")


def nest(ctx, p, c):
    inst = docs.Maker(ctx, frozenset([1]), strmax=1).make(docs.nest_spec(p, c))
    written(ctx, docs.expect(inst), "nest")


def edited(ctx, form):
    m = ctx.mappyfile
    s = ctx.string("s", (0, 2), "any", exclude='"\\')
    if form == "set":
        d = m.loads("MAP NAME 'a' LAYER NAME 'b' END END")
        d["Name"] = s
        d["LAYERS"][0]["Data"] = s
        d["layers"].append({"__type__": "layer", "name": s})
        d["layers"].insert(0, m.loads("LAYER TYPE POINT END"))
    elif form == "auto":
        d = m.loads("MAP NAME 'a' END")
        l = {"__type__": "layer", "name": s}
        d["layers"].append(l)
        d["symbols"].append({"__type__": "symbol", "type": "ellipse"})
        x = d["outputformats"]
    elif form == "update":
        d = m.loads("MAP NAME 'a' WEB METADATA 'x' 'y' END END LAYER NAME 'b' END END")
        d = m.update(d, {"name": s, "web": {"metadata": {"x": s, "z": "1"}}, "layers": [{"data": s}, {"__type__": "layer",
                                                                                                      "name": "c"}]})
    elif form == "create":
        d = m.create("map", ctx.pick("ver", [7.0, 7.6, 8.0]))
        d["name"] = s
    elif form == "delete":
        d = m.loads("MAP NAME 'a' SIZE 1 2 LAYER NAME 'b' END LAYER NAME 'c' END END")
        del d["size"]
        d["layers"].pop(0)
        d["extent"] = [1, 2.5, 3, 4]
        d["layers"][0]["status"] = "on"
        d["layers"][0]["template"] = s
    elif form == "case":
        d = {"__type__": "map", "config": {"ms_errorfile": s}, "units": "METERS", "layers": [
            {"__type__": "layer", "type": "point", "units": "Meters", "status": "default"}]}
    elif form == "projection":
        if ctx.bool("list"):
            ctx.assume(ctx.not_(s.upper() == "AUTO"))
            d = {"__type__": "map", "projection": ["init=epsg:4326", s]}
        else:
            d = {"__type__": "map", "projection": s}
    elif form == "roots":
        d = [{"__type__": "class", "name": s}, {"__type__": "metadata", "a": s}, {"__type__": "style", "color": "#Aabb00"}]
    elif form == "numbers":
        n = ctx.int("n", -10 ** 6, 10 ** 6)
        d = {"__type__": "layer", "minscaledenom": n, "classes": [{"__type__": "class", "minscaledenom": 0.5, "styles": [
            {"__type__": "style", "width": n, "color": [n, 2, 3], "initialgap": 1e-7}]}], "opacity": n, "name": s}
    elif form == "hex":
        h = "#" + ctx.string("h", ctx.pick("n", [3, 6, 8]), "hex")
        d = {"__type__": "class", "color": h, "styles": [{"__type__": "style", "color": h, "colorrange": [h, "#000000"]}],
             "labels": [{"__type__": "label", "outlinecolor": h}], "leader": {"__type__": "leader", "styles": [
                 {"__type__": "style", "outlinecolor": h}]}, "backgroundcolor": h}
    elif form == "binding":
        b = "[" + ctx.string("b", (1, 2), "word") + "]"
        d = {"__type__": "label", "angle": b, "size": b, "color": b, "offset": [b, 3], "shadowsize": [b, b], "minsize": b,
             "styles": [{"__type__": "style", "size": b, "offset": [2, b], "polaroffset": [b, b], "opacity": b, "symbol": b}]}
    written(ctx, d, "edited:" + form)


def exprs(ctx, form):
    a = ctx.string("a", (1, 2), "word")
    p = ctx.string("p", (0, 1), "any", exclude="'\"\\/()`\n")
    if form == "paren":
        v = ctx.pick("w", ["( [%s] = 1 )", "( ( [%s] > 2 ) AND ( [b] < 3 ) )", "(\"[%s]\" = 'x')", "(length('%s'))", "([%s] + 1)"])
    elif form == "regex":
        v = ctx.pick("w", ["/%s/", "/^%s.*$/", "/%s/i", "/(%s|b)/i"])
    elif form == "list":
        v = ctx.pick("w", ["{%s}", "{%s,b c}"])
    elif form == "istring":
        v = ctx.pick("w", ["'%s'i", "\"%s\"i"])
    elif form == "not":
        v = "NOT ( [%s] = 1 )"
    elif form == "string":
        v = "%s "
    x = v.split("%s")
    s = x[0] + a + (p if form in ("regex",) else "") + x[1]
    if form == "string":
        s = p + a + p
        ctx.assume(ctx.not_(gen.lookalike(ctx, s)))
    d = {"__type__": "layer", "filter": s, "classes": [{"__type__": "class", "expression": s, "labels": [
        {"__type__": "label", "expression": s}]}]}
    if form == "istring":
        del d["filter"]
    if form in ("list", "istring"):
        d["classes"][0]["labels"][0]["expression"] = "abc"
    written(ctx, d, "exprs:" + form)


def hidden(ctx, form):
    """__name__ keys never appear in the text"""
    h = "__" + ctx.string("h", (0, 2), "any", exclude="") + "__"
    d = {"__type__": "layer", "name": "x"}
    if form == "attr":
        d[h] = "q"
        d["data"] = "y"
    elif form == "kv":
        d["metadata"] = {"a": "b", h: "q", "__type__": "metadata"}
    elif form == "validation":
        d["validation"] = {h: "q", "a": "b"}
    elif form == "dict":
        d[h] = {"__type__": "class", "name": "q"}
    elif form == "root":
        d = {"__type__": "metadata", "a": "b", h: "q"}
    elif form == "config":
        d = {"__type__": "map", "config": {"a": "b", h: "q"}}
    written(ctx, d, "hidden")
    # and keys that only look similar are ordinary keys
    k = ctx.pick("k", ["_a_", "__a", "a__", "_"])
    written(ctx, {"__type__": "layer", k: 5, "metadata": {k: "v"}}, "visible")


def refused(ctx, form):
    """values without a Mapfile form are refused with an error"""
    m = ctx.mappyfile
    t, k = ctx.pick("tk", [("layer", "name"), ("layer", "type"), ("layer", "minscaledenom"), ("class", "expression"),
                           ("layer", "tolerance"), ("map", "size"), ("style", "color"), ("map", "fooo"), ("label", "force"),
                           ("layer", "status"), ("class", "template"), ("composite", "compop")])
    d = m.loads(t.upper() + " END") if not form == "plain" else {"__type__": t}
    if form == "auto":
        x = d[k]
    elif form == "none":
        d[k] = None
    elif form == "plain":
        d[k] = {}
    elif form == "dict":
        d[k] = {"a": ctx.string("s", (0, 1), "lower")}
    try:
        out = m.dumps(d)
    except Exception as e:
        ctx.check(isinstance(e, (ValueError, TypeError, KeyError, AttributeError, UnboundLocalError)), "refused:error")
        return
    ctx.observe("out", out)
    ctx.fail("refused:written")


def escaped(ctx, form):
    """a double quote inside an expression-capable keyword's string is written escaped, once"""
    a = ctx.string("a", (0, 1), "alnum")
    b = ctx.string("b", (0, 1), "alnum", exclude="i")
    v = a + '"' + b if form == "plain" else a + '\\"' + b
    out = ctx.mappyfile.dumps({"__type__": "class", "expression": v, "name": "n"}, indent=0)
    ctx.check(out == 'CLASS\nEXPRESSION "' + a + '\\"' + b + '"\nNAME "n"\nEND', "escaped")
    out = ctx.mappyfile.dumps({"__type__": "class", "expression": v.replace('"', "'"), "name": "n"}, indent=0, quote="'")
    ctx.check(out == "CLASS\nEXPRESSION '" + a + "\\'" + b + "'\nNAME 'n'\nEND", "escaped")


def long(ctx, name, form):
    written(ctx, longs.make(ctx, name, form), "long")


def finding(ctx, form):
    a = ctx.string("a", (0, 1), "ab")
    if form == "quote":
        t, k = ctx.pick("tk", [("layer", "name"), ("layer", "data"), ("layer", "processing"), ("layer", "metadata")])
        v = a + '"' + "b"
        d = {"__type__": t, k: {"x": v} if k == "metadata" else [v] if k == "processing" else v, "group": "c"}
        written(ctx, d, "finding")


CROSS = ["int", "float", "bool", "string", "binding", "regex", "iregex", "expr", "list", "hex", "array:int,int",
         "array:binding,binding"]


def units(tier):
    out = []
    for t, k, i, kind in vocab.slots():
        out.append(Unit("slot:%s.%s.%d.%s" % (t, k, i, kind), "c03.slot", {"t": t, "k": k, "kind": kind}))
    for t in vocab.BLOCKS:
        ks = [k for k in vocab.keywords(t) if not vocab.is_block_key(t, k) and k not in (
            "points", "pattern", "projection", "config", "metadata", "validation", "values", "connectionoptions", "include")]
        for j, k in enumerate(ks):
            for i, kind in enumerate(CROSS):
                if k in ("processing", "formatoption", "compfilter") and kind not in ("int", "string", "bool", "float"):
                    continue
                if kind in ("regex", "iregex", "list") and k not in ("expression", "filter"):
                    continue
                if not gen.free(None, t, k) and kind in ("binding", "expr", "hex"):
                    continue
                out.append(Unit("cross:%s.%s.%s" % (t, k, kind), "c03.cross", {"t": t, "k": k, "kind": kind}))
    for n, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            for via in ("plain", "loads", "hidden"):
                if tier == "thorough" or (h + len(n)) % 3 == ("plain", "loads", "hidden").index(via):
                    out.append(Unit("doc:%s.%d.%s" % (n, h, via), "c03.doc", {"name": n, "holes": [h], "via": via}))
    for p, c in docs.nestings():
        out.append(Unit("nest:%s.%s" % (p, c), "c03.nest", {"p": p, "c": c}))
    for f in ("set", "auto", "update", "create", "delete", "case", "projection", "roots", "numbers", "hex", "binding"):
        out.append(Unit("edited:" + f, "c03.edited", {"form": f}))
    for f in ("paren", "regex", "list", "istring", "not", "string"):
        out.append(Unit("exprs:" + f, "c03.exprs", {"form": f}))
    for f in ("attr", "kv", "validation", "dict", "root", "config"):
        out.append(Unit("hidden:" + f, "c03.hidden", {"form": f}))
    for f in ("auto", "none", "plain", "dict"):
        out.append(Unit("refused:" + f, "c03.refused", {"form": f}))
    for f in ("plain", "escaped"):
        out.append(Unit("escaped:" + f, "c03.escaped", {"form": f}))
    out += longs.units(Unit, "c03.long", tier)
    out.append(Unit("finding:quote", "c03.finding", {"form": "quote"}))
    return out
