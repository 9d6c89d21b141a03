"""C19: grammar, keyword tables and schemas describe one vocabulary."""
import json
import os
from symex.runner import Unit
import vocab
import gen
import docs
import c01
import schemacheck as S

FRESH_SCHEMAS = ("defaults", "created", "lookup")
BOUNDS = ("the name of the root block is a symbolic word of 2..18 letters; every keyword alternative of every schema (all enumerated values in any of "
          "three letter cases, symbolic numbers within the schema's bounds, symbolic strings) as only, first, middle and last keyword of its block, at the "
          "root and within every parent block; every nesting; every default in every MapServer version (a solver variable over the reals 0..12)")


def stored(t):
    return vocab.BLOCKS + vocab.KVBLOCKS[:3] + ["symbolset"]


def rootword(ctx, n):
    """whatever word opens a block"""
    w = ctx.string("w", n, "upper")
    m = ctx.mappyfile
    ctx.check(True, "reached")
    try:
        d = m.loads(w + " END", expand_includes=False)
    except ctx.lark_errors():
        # the known ones are accepted
        for t in stored(None):
            if len(t) == n:
                ctx.check(ctx.not_(w.lower() == t), "root:rejected")
        return
    ctx.check(isinstance(d, dict), "root:dictionary")
    t = d["__type__"]
    ctx.observe("type", t)
    ctx.check(w.lower() == t, "root:type")
    ctx.check(ctx.any([t == x for x in stored(None)]), "root:unknown type")
    s = ctx.mod("validator").Validator().get_expanded_schema(t)
    ctx.check("properties" in s or "patternProperties" in s or "additionalProperties" in s, "root:schema")
    out = m.dumps(d)
    ctx.observe("out", out)
    ctx.check(ctx.same(m.loads(out), d), "root:printed")
    for x in m.validate(d):
        ctx.check("is a required property" in x["error"], "root:validated")


# ---------------------------------------------------------------- keywords

def number(ctx, p, kind):
    lo, hi = p.get("minimum"), p.get("maximum")
    sign = ctx.pick("sign", [""] if lo is not None and lo >= 0 else ["", "-"])
    if kind == "int":
        s = sign + ctx.string("v", 1 if (hi is not None and hi < 10) else 2, "digit")
        v = int(s)
    else:
        s = sign + ("7" if lo is not None and lo >= 10 else "") + ctx.string("v", 1, "digit") + "." + ctx.string("u", 1, "digit")
        v = float(s)
    if lo is not None:
        ctx.assume(v > lo if p.get("exclusiveMinimum") else v >= lo)
    if hi is not None:
        ctx.assume(v < hi if p.get("exclusiveMaximum") else v <= hi)
    return s, v


def represent(ctx, t, k, i, kind, rich):
    """(source text of keyword and value, stored value) of a value of one alternative"""
    p = vocab.alternatives(vocab.schema(t)["properties"][k])[i]
    q = vocab.resolve(vocab.schema(t)["properties"][k])
    p = dict({a: q[a] for a in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum") if a in q}, **p)
    K = k.upper()
    if not rich and kind in ("int", "float", "string", "hex", "binding", "enum"):
        if kind == "enum":
            n = (len(t) + len(k)) % len(p["enum"])
            e = p["enum"][n]
            if e == "end":
                # END has to be quoted
                return K + " 'end'", e
            return K + " " + str(e).upper(), e.upper() if isinstance(e, str) else e
        if kind in ("int", "float"):
            x, y = docs.const(t, k, kind)
            if y < p.get("minimum", y):
                y = p["minimum"] + (0.5 if kind == "float" else 1)
                x = str(y)
            if y > p.get("maximum", y) or (y == p.get("maximum", y + 1) and p.get("exclusiveMaximum")):
                y = p["maximum"] if not p.get("exclusiveMaximum") else p["maximum"] / 2
                x = str(y)
            return K + " " + x, y
        x, y = docs.const(t, k, kind)
        if kind == "string" and p.get("maxLength", 9) < 3:
            x, y = '"a"', "a"
        return K + " " + x, y
    if kind == "enum":
        e = ctx.pick("e", p["enum"])
        if isinstance(e, str):
            c = ctx.pick("c", [0, 2])
            w = e.upper() if c == 0 else e.lower() if c == 1 else e.capitalize()
            if e == "end":
                return K + ' "' + w + '"', w
            return K + " " + w, w
        return K + " " + str(e), e
    if kind == "string" and "pattern" not in p:
        s = ctx.string("v", (max(1, p.get("minLength", 1)), min(2, p.get("maxLength", 2))), "alnum", exclude="0123456789")
        if gen.free(ctx, t, k):
            ctx.assume(ctx.not_(gen.lookalike(ctx, s)))
        return K + ' "' + s + '"', s
    if kind in ("int", "float") and not (kind == "float" and False):
        s, v = number(ctx, p, kind)
        return K + " " + s, v
    if kind == "hex":
        h = "aB" + ctx.string("v", 1, "hex") + "00" + ctx.string("u", 1, "hex")
        return K + ' "#' + h + '"', "#" + h
    if kind == "binding":
        s = ctx.string("v", (1, 2), "alpha")
        return K + " [" + s + "]", "[" + s + "]"
    if kind == "points":
        return "POINTS 1 2 3 4.5 END", [(1, 2), (3, 4.5)]
    if kind == "pattern":
        return "PATTERN 1 2 3 4.5 END", [(1, 2), (3, 4.5)]
    if kind == "projection":
        s = ctx.string("v", (1, 2), "alpha")
        return "PROJECTION 'x" + s + "' 'b' END", ["x" + s, "b"]
    if kind == "projection_auto":
        return "PROJECTION AUTO END", ["AUTO"]
    if kind == "kv":
        s = ctx.string("v", (0, 2), "alpha")
        return K + " 'a' '" + s + "' END", {"a": s, "__type__": k}
    if kind == "config":
        s = ctx.string("v", (0, 2), "alpha")
        return "CONFIG 'a' 'z" + s + "'", {"a": "z" + s}
    if kind == "include":
        s = ctx.string("v", (1, 2), "alpha")
        return "INCLUDE 'f" + s + "'", ["f" + s]
    if kind == "repeated":
        s = ctx.string("v", (1, 2), "alpha")
        return K + " 'a' " + K + " 'z" + s + "'", ["a", "z" + s]
    if kind.startswith("block:"):
        c = kind[6:]
        return c.upper() + " NAME 'a' END", [{"__type__": c, "name": "a"}]
    s, v = docs.const(t, k, kind)
    it = p.get("items")
    if isinstance(it, dict) and "minimum" in it and kind.startswith("array:int"):
        v = [x + it["minimum"] for x in v]
        s = " ".join([str(x) for x in v])
    return K + " " + s, v


def others(t, k):
    """two other keywords of the block"""
    out = []
    for n in range(6):
        a, kind = docs.simple_kw(t, n)
        if a != k and a not in [x for x, _ in out]:
            out.append((a, docs.const(t, a, kind)))
    return (out + out)[:2] if out else []


def chain(t, c):
    """c within its parent t, or alone"""
    return [c] if t is None else [t, c]


def word(ctx, t, k, i, kind, pos, parent, rich):
    m = ctx.mappyfile
    s, v = represent(ctx, t, k, i, kind, rich)
    ot = others(t, k)
    pre, post = [], []
    if pos in ("middle", "last"):
        pre = ot[:1]
    if pos in ("middle", "first"):
        post = ot[1:2] if pos == "middle" else ot[:1]
    if pos == "middle" and len(ot) > 1 and ot[0][0] == ot[1][0]:
        post = []
    text = t.upper()
    for a, (x, _) in pre:
        text = text + "\n" + a.upper() + " " + x
    text = text + "\n" + s
    for a, (x, _) in post:
        text = text + "\n" + a.upper() + " " + x
    text = text + "\nEND"
    if parent:
        text = parent.upper() + "\n" + text + "\nEND"
    try:
        d = m.loads(text, expand_includes=False)
    except ctx.lark_errors():
        ctx.fail("word:rejected")
        return
    b = d
    if parent:
        b = inner(d, parent, t)
    key = k if not kind.startswith("block:") else "symbols"
    if key == "symbol" and isinstance(v, list) and v and isinstance(v[0], dict):
        key = "symbols"
    want = {"__type__": t}
    for a, (_, y) in pre:
        want[a] = y
    want[key] = v
    for a, (_, y) in post:
        want[a] = y
    ctx.observe("block", b)
    ctx.check(plain(ctx, b, want, t), "word:stored")
    if rich:
        msgs = m.validate(d)
        ctx.observe("messages", len(msgs))
        for x in msgs:
            ctx.check("is a required property" in x["error"], "word:validated")
    out = m.dumps(d)
    ctx.observe("out", out)
    try:
        e = m.loads(out, expand_includes=False)
    except ctx.lark_errors():
        ctx.fail("word:written text rejected")
        return
    eb = inner(e, parent, t) if parent else e
    if key == "symbols" and kind.startswith("block"):
        ctx.check(ctx.same(eb, b), "word:printed")
    else:
        ctx.check(plain(ctx, eb, want, t), "word:printed")
    for x in m.validate(e) if rich else []:
        ctx.check("is a required property" in x["error"], "word:printed form validated")


def inner(d, parent, t):
    s = docs.singleton(parent, t)
    if s:
        return d[t]
    return d[vocab.plural(t)][0]


def plain(ctx, b, want, t):
    """the block stores the values, up to the letter case of enumerated words"""
    if not isinstance(b, dict) or len(b) != len(want):
        return False
    for k in want:
        if k not in b:
            return False
        x, y = b[k], want[k]
        if isinstance(y, dict) and isinstance(x, dict):
            if not plain(ctx, x, y, k):
                return False
        elif isinstance(y, str) and isinstance(x, str):
            if not (x == y or (k in vocab.schema(t)["properties"] and x.lower() == y.lower() and (is_enum(t, k, y) or y.startswith("#")))):
                return False
        elif isinstance(y, list) and len(y) > 0 and isinstance(y[0], dict):
            if not (isinstance(x, list) and len(x) == len(y) and all([plain(ctx, p, q, q["__type__"]) for p, q in zip(x, y)])):
                return False
        elif not ctx.same(x, y):
            return False
    return True


def is_enum(t, k, v):
    for p in vocab.alternatives(vocab.schema(t)["properties"][k]):
        for e in p.get("enum", []):
            if isinstance(e, str) and e.lower() == v.lower():
                return True
    return k == "projection"


# ---------------------------------------------------------------- storage of blocks

def auto(d, single, c):
    """the auto-creating dictionary"""
    return d[c] if single else d[vocab.plural(c)]


def nest(ctx, p, c):
    m = ctx.mappyfile
    single = bool(docs.singleton(p, c))
    inst = docs.Maker(ctx, frozenset([1]), strmax=1, strabc="alnum").make(docs.nest_spec(p, c))
    text = docs.text(inst)
    want = docs.expect(inst)
    d = m.loads(text)
    ctx.check(ctx.same(docs.strip(d), want), "nest:transformer")
    key = c if single else vocab.plural(c)
    for x in m.validate(d):
        ctx.check("regexes" not in x["error"] and "is not of type 'object'" not in x["error"] and "is not of type 'array'" not in x["error"], "nest:schema")
    # a key of the parent schema, with the type it stores
    props = vocab.schema(p)["properties"]
    ctx.check(key in props and vocab.block_child(p, key) == c, "nest:schema key")
    # one built with the auto-creating dictionary prints the same
    e = m.loads(p.upper() + " END")
    n = 0
    for it in inst.items:
        if it.kind == "block":
            b = m.loads(docs.text(it))
            if single:
                got = e[c]
                ctx.check(isinstance(got, dict) and len(got) == 0, "nest:auto-created")
                e[c] = b
            else:
                got = e[vocab.plural(c)]
                ctx.check(isinstance(got, list) and len(got) == n, "nest:auto-created")
                got.append(b)
            n += 1
        else:
            e[it.k] = it.value
    ctx.check(ctx.same(docs.strip(e), want), "nest:auto-creating dict")
    ctx.check(m.dumps(e) == m.dumps(d), "nest:printer")
    ctx.check(c01.equiv(ctx, d, m.loads(m.dumps(e))), "nest:reloaded")


# ---------------------------------------------------------------- defaults

def created(ctx, t, finding=False):
    m = ctx.mappyfile
    ver = ctx.real("ver", 0, 12)
    if ctx.bool("none"):
        ver = None
    try:
        d = m.create(t, ver)
    except S_UNAVAILABLE:
        ctx.fail("created:refused")
        return
    if t == "label" and not finding:
        d.pop("backgroundshadowsize", None)  # a recorded finding: the unit finding:created.label
    ctx.observe("d", d)
    for x in m.validate(d, ver):
        ctx.check("is a required property" in x["error"], "created:validated " + x["message"].rpartition(" ")[2])
    out = m.dumps(d)
    ctx.observe("out", out)
    try:
        e = m.loads(out)
    except ctx.lark_errors():
        ctx.fail("created:written text rejected")
        return
    ctx.check(len(e) == len(d), "created:reloaded")
    for k in d:
        ctx.check(k in e, "created:reloaded")
        ctx.check(default_same(ctx, e[k], d[k]), "created:reloaded")
    for x in m.validate(e, ver):
        ctx.check("is a required property" in x["error"], "created:reloaded form validated " + x["message"].rpartition(" ")[2])


S_UNAVAILABLE = (KeyError, ValueError)


def default_same(ctx, a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a.lower() == b.lower()
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all([default_same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    return a == b


def defaults(ctx, t):
    """every default, also those within references and alternatives, is valid for its keyword"""
    k = ctx.pick("k", with_default(t))
    v = ctx.pick("v", default_of(t, k))
    d = {"__type__": t}
    if t == "layer" and k != "type":
        d["type"] = "point"
    d[k] = v
    msgs = ctx.mappyfile.validate(d)
    for x in msgs:
        ctx.check("is a required property" in x["error"], "defaults:valid " + k)
    ctx.check(len([x for x in msgs if "required" not in x["error"]]) == 0, "defaults:valid " + k)
    out = ctx.mappyfile.dumps(d)
    ctx.observe("out", out)
    e = ctx.mappyfile.loads(out)
    ctx.check(k in e and default_same(ctx, e[k], v), "defaults:reloaded")


def find_defaults(p, out):
    if isinstance(p, dict):
        if "default" in p and not isinstance(p["default"], dict):
            out.append(p["default"])
        for k in ("oneOf", "anyOf", "allOf"):
            for q in p.get(k, []):
                find_defaults(q, out)
        if "$ref" in p and p["$ref"].replace(".json", "") not in vocab.BLOCKS + vocab.KVBLOCKS:
            find_defaults(vocab.schema(p["$ref"].replace(".json", "")), out)


def default_of(t, k):
    out = []
    find_defaults(vocab.schema(t)["properties"][k], out)
    return out


def with_default(t):
    return [k for k in vocab.keywords(t) if default_of(t, k)]


def tables(ctx, name):
    """the keyword tables of the code against the schemas"""
    T = ctx.mod("tokens")
    single = set()
    plural = set()
    for p in vocab.BLOCKS:
        for k, c in vocab.child_blocks(p):
            if c in vocab.BLOCKS and k != "symbol":
                (single if docs.singleton(p, c) else plural).add(c)
    ctx.check(len(single & plural) == 0, "tables:one storage")
    for c in plural:
        ctx.check(vocab.plural(c) in T.OBJECT_LIST_KEYS, "tables:lists")
    for c in single:
        ctx.check(c in T.SINGLETON_COMPOSITE_NAMES, "tables:singletons")
        ctx.check(vocab.plural(c) not in T.OBJECT_LIST_KEYS, "tables:lists")


def parents(t):
    out = []
    for p in vocab.BLOCKS:
        if any(c == t and k != "symbol" for k, c in vocab.child_blocks(p)):
            out.append(p)
    return out


def units(tier):
    out = []
    thorough = tier == "thorough"
    for n in range(2, 19):
        out.append(Unit("root:%d" % n, "c19.rootword", {"n": n}))
    j = 0
    seen = set()
    for t, k, i, kind in vocab.slots() + [(t, "include", 0, "include") for t in vocab.BLOCKS if "include" in vocab.keywords(t)]:
        if (t, k, i, kind) in seen:
            continue
        seen.add((t, k, i, kind))
        ps = [None] + parents(t)
        for pos in ("only", "first", "middle", "last"):
            j += 1
            for n, p in enumerate(ps):
                if thorough or n == (j // 4 + j) % len(ps):
                    out.append(Unit("word:%s%s.%s.%d.%s.%s" % (p + "-" if p else "", t, k, i, kind, pos), "c19.word",
                                    {"t": t, "k": k, "i": i, "kind": kind, "pos": pos, "parent": p, "rich": thorough or pos == "only"}))
    for p, c in docs.nestings():
        out.append(Unit("nest:%s.%s" % (p, c), "c19.nest", {"p": p, "c": c}))
    for t in vocab.BLOCKS:
        out.append(Unit("created:" + t, "c19.created", {"t": t}))
        if t == "label":
            out.append(Unit("finding:created.label", "c19.created", {"t": t, "finding": True}))
        if with_default(t):
            out.append(Unit("defaults:" + t, "c19.defaults", {"t": t}))
    out.append(Unit("tables", "c19.tables", {"name": "all"}))
    return out
