"""Vocabulary read from the repository's own JSON schemas (independently of mappyfile's code)."""
import json
import os

REPO = os.environ.get("SX_REPO", "/repo")
SCHEMAS = os.path.join(REPO, "mappyfile", "schemas")
BLOCKS = ["class", "cluster", "composite", "feature", "grid", "join", "label", "layer", "leader", "legend", "map",
          "outputformat", "querymap", "reference", "scalebar", "scaletoken", "style", "web", "symbol"]
KVBLOCKS = ["metadata", "validation", "connectionoptions", "values"]
_cache = {}


def schema(name):
    if name not in _cache:
        with open(os.path.join(SCHEMAS, name + ".json"), encoding="utf-8") as f:
            _cache[name] = json.load(f)
    return _cache[name]


def resolve(p):
    """follow $ref / single allOf"""
    while True:
        if "$ref" in p:
            p = dict(schema(p["$ref"].replace(".json", "")), _ref=p["$ref"].replace(".json", ""))
        elif "allOf" in p and len(p["allOf"]) == 1:
            q = resolve(p["allOf"][0])
            p = {k: v for k, v in p.items() if k != "allOf"}
            r = dict(q)
            r.update(p)
            p = r
            return p
        else:
            return p


def alternatives(p):
    """leaf alternatives of a keyword schema"""
    p = resolve(p)
    for comb in ("oneOf", "anyOf"):
        if comb in p:
            out = []
            for q in p[comb]:
                out += alternatives(q)
            return out
    return [p]


def keywords(t):
    return [k for k in schema(t).get("properties", {}) if not k.startswith("__")]


def plural(t):
    return t + "es" if t.endswith("s") else t + "s"


PLURALS = {plural(t): t for t in BLOCKS}


def block_child(t, k):
    """block type stored under key k of type t (singleton or list), or None"""
    for p in alternatives(schema(t)["properties"][k]):
        if p.get("_ref") in BLOCKS:
            return p["_ref"]
        it = p.get("items")
        if isinstance(it, dict) and "$ref" in it and it["$ref"].replace(".json", "") in BLOCKS:
            return it["$ref"].replace(".json", "")
    return None


def is_block_key(t, k):
    return block_child(t, k) is not None and not (k == "symbol")


def alt_kind(t, k, p):
    """how MapServer writes one alternative: a list of generator kinds"""
    if k == "points":
        return ["points"]
    if k == "pattern":
        return ["pattern"]
    if k == "projection":
        return ["projection"] if p.get("type") == "array" else ["projection_auto"]
    if k in KVBLOCKS or k in ("metadata", "validation", "connectionoptions"):
        return ["kv"]
    if k == "config":
        return ["config"]
    if k in ("include",):
        return []
    if k in ("processing", "formatoption", "compfilter"):
        return ["repeated"]
    if "enum" in p:
        return ["enum"]
    ty = p.get("type")
    pat = p.get("pattern")
    if p.get("_ref") in BLOCKS:
        return ["block:" + p["_ref"]]
    if pat:
        if pat.startswith("^#"):
            return ["hex"]
        if pat.startswith("^\\["):
            return ["binding"]
        if pat.startswith("^\\("):
            return ["expr"]
        if pat.startswith("^/"):
            return ["regex"]
        if pat in ("^rectangle$", "^ellipse$"):
            return ["strword:" + pat[1:-1]]
        if pat.startswith("^&#"):
            return ["charref"]
        return ["string"]
    if ty == "string":
        if p.get("maxLength") == 1:
            return ["char"]
        return ["string"]
    if ty == "integer":
        return ["int"]
    if ty == "number":
        return ["int", "float"]
    if ty == "boolean":
        return ["bool"]
    if ty == "array":
        it = p["items"]
        n = p.get("minItems")
        if isinstance(it, list):
            its = (it * 4)[:n]
        else:
            if n is None:
                n = it.get("minItems")
            its = [it] * (n or 1)
        kinds = []
        for q in its:
            q = resolve(q)
            for c in ("oneOf", "anyOf"):
                if c in q:
                    q = resolve(q[c][0])
            kk = alt_kind(t, k, q)
            kinds.append(kk[0])
        out = ["array:" + ",".join(kinds)]
        if isinstance(it, dict) and ("oneOf" in it):
            # mixed pairs
            a = [alt_kind(t, k, resolve(q))[0] for q in it["oneOf"]]
            out = ["array:%s,%s" % (x, y) for x in a for y in a]
        return out
    return []


def slots():
    """(type, key, alternative index, kind) for every simple keyword alternative in the schemas"""
    out = []
    for t in BLOCKS:
        for k in keywords(t):
            if is_block_key(t, k):
                continue
            alts = alternatives(schema(t)["properties"][k])
            for i, p in enumerate(alts):
                kinds = alt_kind(t, k, p)
                for kind in kinds:
                    out.append((t, k, i, kind))
    return out


def enum_values(t, k):
    out = []
    for p in alternatives(schema(t)["properties"][k]):
        out += p.get("enum", [])
    return out


def schema_is_string(t, k):
    p = schema(t).get("properties", {}).get(k)
    if p is None:
        return False
    return any(q.get("type") == "string" for q in alternatives(p))


def child_blocks(t):
    out = []
    for k in keywords(t):
        c = block_child(t, k)
        if c is not None:
            out.append((k, c))
    return out


if __name__ == "__main__":
    import collections
    s = slots()
    print(len(s))
    c = collections.Counter(x[3] for x in s)
    print(c)
    seen = {(x[0], x[1]) for x in s}
    for t in BLOCKS:
        for k in keywords(t):
            if (t, k) not in seen and not is_block_key(t, k):
                print("no slot", t, k)
