"""C09: version-aware validation follows minVersion / maxVersion."""
from symex.runner import Unit
import vocab
import gen
import docs
import schemacheck as S
import c07

FRESH_SCHEMAS = True
BOUNDS = ("the version is a solver variable over the reals 0..12; every keyword and every schema alternative of every block type with "
          "representative and wrong values, at its root and below every chain of parent blocks; sequences of up to 3 versions on one "
          "Validator and on the module functions, with the exported schema observed before and after")


def values(t, k):
    """one value for each alternative of a keyword"""
    out = []
    for i, p in enumerate(vocab.alternatives(vocab.schema(t)["properties"][k])):
        for kind in vocab.alt_kind(t, k, p):
            if kind in ("points", "pattern"):
                v = [[1, 2]]
            elif kind == "projection":
                v = ["a"]
            elif kind == "projection_auto":
                v = "auto"
            elif kind in ("kv", "config"):
                v = {"a": "b"}
            elif kind == "repeated":
                v = ["a"]
            elif "block:" in kind:
                continue
            else:
                v = docs.const(t, k, kind)[1]
            if v not in out:
                out.append(v)
    c = vocab.block_child(t, k)
    if c is not None:
        b = {"__type__": c}
        if c == "layer":
            b["type"] = "point"
        if vocab.plural(c) == k:
            out += [[b], []]
        else:
            out.append(b)
    return out


def root(path, k, v):
    """(root dictionary) with k: v at the end of a chain of blocks"""
    r = d = {"__type__": path[0]}
    if path[0] == "layer" and (k != "type" or len(path) > 1):
        d["type"] = "point"
    for p, c in zip(path, path[1:]):
        x = {"__type__": c}
        if c == "layer" and not (k == "type" and c == path[-1]):
            x["type"] = "point"
        kk = [kk for kk, ch in vocab.child_blocks(p) if ch == c and kk != "symbol"][0]
        d[kk] = x if kk == c else [x]
        d = x
    d[k] = v
    return r


def slot(ctx, path, k):
    t = path[-1]
    ver = ctx.real("ver", 0, 12)
    val = ctx.mod("validator").Validator()
    for v in values(t, k) + ["zz", -99999, [1], {}]:
        d = root(path, k, v)
        c07.judge(ctx, val.validate(d, version=ver), S.expected(d, ver), "slot")


def order(ctx, path, k, n):
    """one Validator asked about several versions"""
    t = path[-1]
    ds = [root(path, k, v) for v in values(t, k)]
    a = ctx.real("a", 0, 12)
    b = ctx.pick("b", bounds_of(t, k)[:n])
    val = ctx.mod("validator").Validator()
    for ver in ctx.pick("order", [[a, b, None], [None, a, b], [b, None, a], [a, a, b]]):
        for d in ds:
            c07.judge(ctx, val.validate(d, version=ver), S.expected(d, ver), "order")


def bounds_of(t, k):
    """versions at and around the annotations of a keyword"""
    out = []
    p = vocab.schema(t)["properties"][k]
    for q in [p] + p.get("oneOf", []) + p.get("anyOf", []) + ([vocab.schema(p["$ref"].replace(".json", ""))] if "$ref" in p else []):
        for x in q.get("metadata", {}).values() if isinstance(q.get("metadata"), dict) else []:
            if isinstance(x, (int, float)):
                out += [x, round(x - 0.1, 1), round(x + 0.1, 1)]
    return out or [7.6]


def annotated(t, k):
    return bounds_of(t, k) != [7.6]


def doc(ctx, form):
    """several annotated keywords at once, in a nested document"""
    d = {"__type__": "map", "layers": [
        {"__type__": "layer", "type": "point", "composites": [{"__type__": "composite", "opacity": 50, "compfilter": ["a"]}], "utfitem": "a", "opacity": 5,
         "connectionoptions": {"__type__": "connectionoptions", "a": "b"},
         "classes": [{"__type__": "class", "name": "a", "backgroundcolor": [1, 2, 3], "labels": [
             {"__type__": "label", "size": "[a]", "force": "group", "angle": "auto", "expression": "( [a] = 1 )", "styles": [{"__type__": "style", "width": "[b]", "color": "[c]"}]}],
             "leader": {"__type__": "leader", "gridstep": 5, "styles": [{"__type__": "style", "opacity": 50}]},
             "styles": [{"__type__": "style", "geomtransform": "end", "initialgap": 5, "linecap": "butt", "size": "( [a] + 1 )"}]}]}],
        "web": {"__type__": "web", "temppath": "a", "log": "b"}, "symbols": [{"__type__": "symbol", "name": "a", "type": "vector", "gap": 5}],
        "legend": {"__type__": "legend", "labels": [{"__type__": "label", "priority": "[a]", "font": "[b]"}]}}
    low = S.lower(d)
    ver = ctx.real("ver", 0, 12)
    val = ctx.mod("validator").Validator() if form == "object" else ctx.mappyfile
    if form == "list":
        exp = [((0,) + p, n) for p, n in S.expected(d, ver)] + [((1,) + p, n) for p, n in S.expected(d["layers"][0], ver)]
        c07.judge(ctx, val.validate([d, d["layers"][0]], version=ver), exp, "doc")
        return
    c07.judge(ctx, val.validate(d, version=ver), S.expected(d, ver), "doc")


def plain(x):
    if isinstance(x, dict):
        return {k: plain(x[k]) for k in x}
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def export(ctx, t, how):
    """the exported schema of a version does not depend on other questions"""
    mod = ctx.mod("validator")
    a = ctx.pick("a", [None, 4.0, 5.0, 6.2, 7.6, 7.8, 8.2])
    b = ctx.pick("b", [None, 5.6, 7.6, 8.0, 8.4])
    fresh = plain(mod.Validator().get_versioned_schema(a, t))
    v = mod.Validator()
    if how == "before":
        v.get_versioned_schema(b, t)
        v.validate({"__type__": t}, version=b)
        got = plain(v.get_versioned_schema(a, t))
    elif how == "expanded":
        v.get_versioned_schema(b, t)
        if b is not None:
            v.validate({"__type__": t}, version=b)
        got = plain(v.get_expanded_schema(t, a)) if a is None else plain(v.get_versioned_schema(a, t))
    else:
        first = v.get_versioned_schema(a, t)
        v.get_versioned_schema(b, t)
        v.validate({"__type__": t}, version=b)
        ctx.mappyfile.create(t, b)
        got = plain(first)
    ctx.observe("same", fresh == got)
    ctx.check(fresh == got, "export")


def filtered(ctx, t):
    """the exported schema of a version holds exactly the keywords and alternatives of the version"""
    ver = ctx.real("ver", 0, 12)
    sch = plain(ctx.mod("validator").Validator().get_versioned_schema(ver, t))
    compare(ctx, sch, vocab.schema(t), ver)


def compare(ctx, got, raw, ver):
    if "$ref" in raw:
        raw = vocab.schema(raw["$ref"].replace(".json", ""))
    if "properties" in raw:
        names = [n for n in raw["properties"] if S.available(raw["properties"][n], ver)]
        ctx.check(sorted(got["properties"]) == sorted(names), "filtered:keywords")
        for n in names:
            compare(ctx, got["properties"][n], raw["properties"][n], ver)
    for c in ("oneOf", "anyOf", "allOf"):
        if c in raw:
            alts = [q for q in raw[c] if S.available(q, ver)]
            ctx.check(len(alts) == len(got[c]), "filtered:alternatives")
            for g, q in zip(got[c], alts):
                if "__type__" not in g.get("properties", {}):
                    compare(ctx, g, q, ver)
    if isinstance(raw.get("items"), dict):
        compare(ctx, got["items"], raw["items"], ver)
    for c in ("type", "enum", "pattern", "minimum", "maximum", "minItems", "maxItems", "required", "additionalProperties", "minLength", "maxLength"):
        if c in raw and not isinstance(raw[c], dict):
            ctx.check(got.get(c) == raw[c], "filtered:" + c)


def roots(ctx, t):
    ver = ctx.real("ver", 0, 12)
    d = {"__type__": t}
    if t == "layer":
        d["type"] = "point"
    if t in vocab.KVBLOCKS:
        d["a"] = "b"
    exp = S.expected(d, ver)
    msgs = ctx.mappyfile.validate(d, ver)
    ctx.observe("n", len(msgs))
    if exp is None:
        ctx.check(len(msgs) > 0, "roots:unavailable")
    else:
        c07.judge(ctx, msgs, exp, "roots")


def created(ctx, t):
    """defaults of a version are only those of its keywords"""
    ver = ctx.pick("ver", [None, 4.0, 5.0, 5.2, 5.4, 6.0, 6.2, 7.0, 7.6, 7.8, 8.0, 8.2, 8.4])
    if ctx.bool("first"):
        ctx.mappyfile.create(t, ctx.pick("other", [7.6, 4.0, 9.0]))
    d = ctx.mappyfile.create(t, ver)
    ctx.observe("d", d)
    for k in d:
        if k != "__type__":
            ctx.check(S.available(vocab.schema(t)["properties"][k], ver), "created")
    for k in vocab.keywords(t):
        p = vocab.schema(t)["properties"][k]
        if "default" in p and "$ref" not in p and S.available(p, ver):
            ctx.check(k in d, "created:default")


def units(tier):
    out = []
    i = 0
    for t in vocab.BLOCKS:
        for k in vocab.keywords(t):
            if k == "__type__":
                continue
            ch = [p for p in c07.chains(t, tier) if all(any(c == b and kk != "symbol" for kk, c in vocab.child_blocks(a)) for a, b in zip(p, p[1:]))]
            if annotated(t, k):
                use = ch if tier == "thorough" else ch[:1] + ch[-1:]
            else:
                i += 1
                use = [ch[i % len(ch)]] if tier == "thorough" or i % 4 == 0 else []
            done = []
            for p in use:
                if p in done:
                    continue
                done.append(p)
                out.append(Unit("slot:%s.%s" % ("-".join(p), k), "c09.slot", {"path": p, "k": k}))
            if annotated(t, k):
                out.append(Unit("order:%s.%s" % (t, k), "c09.order", {"path": ch[i % len(ch)] if tier == "thorough" else min(ch, key=len), "k": k, "n": 9 if tier == "thorough" else 3}))
        out.append(Unit("created:" + t, "c09.created", {"t": t}))
        if t not in ("map", "layer") or tier == "thorough":
            out.append(Unit("filtered:" + t, "c09.filtered", {"t": t}))
        for h in ("before", "expanded", "after"):
            if tier == "thorough" or t in ("layer", "class", "label", "style", "web", "symbol", "map"):
                out.append(Unit("export:%s.%s" % (t, h), "c09.export", {"t": t, "how": h}))
    for t in S.ROOTS:
        out.append(Unit("roots:" + t, "c09.roots", {"t": t}))
    for f in ("module", "object", "list"):
        out.append(Unit("doc:" + f, "c09.doc", {"form": f}))
    return out
