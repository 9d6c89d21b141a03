"""C12: calls are pure, history-independent and safe to run concurrently.

Three oracles, all of them the code itself on fresh modules: a deep snapshot of every argument before and after a call;
the result of the same call made alone on freshly loaded modules; and the same for two calls of which one runs, in
another thread, while the other is stopped at an arbitrary line of the package."""
import opts
import vocab
from symex.runner import Unit

FRESH_SCHEMAS = ("reuse", "versions", "history", "schedule", "check_again")
BOUNDS = ("purity: dumps, dump, save, validate (with and without a version) of a dictionary of every object type with one "
          "keyword of the schemas (or an unknown one) holding each of 16 shapes of value (strings and numbers symbolic), "
          "as mapfile and as plain dictionaries, and of 7 loaded documents with bookkeeping; find, findall, findunique, "
          "findkey over loaded and plain lists with an arbitrary key and value of up to 2 characters; reuse: sequences of 2 "
          "(thorough 3) documents out of 12, three of them refused, with symbolic names and comments, through one Parser, "
          "MapfileToDict, PrettyPrinter, Validator, and one Validator for two objects with every version dependent keyword at every pair of versions on and around the bounds in the schemas; history: 2 (thorough 3) public calls out of 14 before one of 14, the "
          "results of the earlier ones modified in place; schedules: one public call stopped before any line of the package "
          "(first visit) for a sequence of whole public calls in another thread, over the same and over other documents")
ASSUMPTIONS = ["one context switch into the second thread, which then runs to its end: schedules with more switches, and "
               "switches inside lark, jsonschema or jsonref, are outside",
               "results are compared as structures of types, order and values; errors by class, line and column"]

# documents: %(s)s is a symbolic name, %(c)s a symbolic comment
DOCS = {
    "plain": 'MAP NAME "%(s)s" LAYER NAME "l" TYPE POINT END END',
    "comments": '# %(c)s\nMAP # m%(c)s\n  NAME "%(s)s" # n\n  # o%(c)s\n  LAYER\n    NAME "x" # %(c)s\n  END\nEND',
    "ccomment": '/* %(c)s */\nMAP\n  NAME "%(s)s" /* b */\n  LAYER\n    STATUS ON # s\n  END\nEND',
    "web": 'MAP\n  WEB\n    METADATA\n      # %(c)s\n      "k" "%(s)s" # d\n    END\n  END\n  PROJECTION\n    "init=epsg:1" # p\n  END\nEND',
    "class": 'CLASS # %(c)s\n  NAME "%(s)s"\n  STYLE\n    COLOR 1 2 3 # c%(c)s\n  END\n  TEXT ("[a]")\nEND',
    "layer": 'LAYER\n  NAME "%(s)s" # g%(c)s\n  GROUP "g"\n  PROCESSING "a=1"\n  PROCESSING "b=2" # z\nEND',
    "symbol": 'MAP SYMBOLSET "f" SYMBOL NAME "%(s)s" TYPE ELLIPSE POINTS 1 1 END END SYMBOL STYLE 1 END END',
    "config": 'MAP CONFIG "a%(s)s" "1" CONFIG \'b\' "2" EXTENT 0 0 1 1 END',
    "invalid": 'MAP\n  NAME "%(s)s"\n  STATUS maybe # %(c)s\n  LAYER\n    TYPE blob\n    NAME 1\n  END\nEND',
    "versions": 'MAP LAYER NAME "%(s)s" TYPE POINT UTFDATA "u" CLASS STYLE INITIALGAP 1 END LEADER MAXDISTANCE 1 END END END END',
    # refused
    "open": '# %(c)s\nMAP # x%(c)s\n  NAME "%(s)s" # y\n  LAYER # z\n',
    "stray": '# q%(c)s\nMAP\n NAME "%(s)s" # w\n END END\n',
    "char": '# %(c)s\nLAYER NAME ; "%(s)s" # t\n END',
}
NAMES = tuple(DOCS)
GOOD = tuple(k for k in NAMES if k not in ("open", "stray", "char"))


def text(ctx, name, nm, n=1):
    t = DOCS[name]
    s = ctx.string(nm + "_s", n, "alnum")
    c = ctx.string(nm + "_c", 1, "word")
    return t % {"s": s, "c": c}


def outcome(ctx, fn):
    try:
        r = fn()
    except Exception as e:
        return ["err", type(e).__name__, getattr(e, "line", None), getattr(e, "column", None)]
    return ["ok", ctx.freeze(r)]


def equal(ctx, a, b, label):
    ctx.check(a[0] == b[0], label + ": accepted or refused", (a[1:], b[1:]))
    if a[0] == "err":
        ctx.check(a[1] == b[1], label + ": class of the error")
        ctx.check(ctx.same(ctx.freeze(a[2:]), ctx.freeze(b[2:])), label + ": place of the error")
    else:
        ctx.check(ctx.same(a[1], b[1]), label + ": result")


def unchanged(ctx, x, before, label):
    ctx.check(ctx.same(ctx.freeze(x), before), label + " leaves its argument alone")


# ------------------------------------------------------------------ purity
SHAPES = ("text", "word", "int", "float", "bool", "none", "binding", "expr", "regex", "pair", "ints", "texts", "points",
          "empty", "dict", "nothing", "child", "children", "mixed")


def shape(ctx, name, t, mk):
    s = ctx.string("s", (0, 2)) if name in ("text", "binding", "expr", "regex") else "aB"
    if name == "text":
        return s
    if name == "word":
        return ctx.pick("word", ["ON", "default", "Point", "end", "auto", "png"])
    if name == "int":
        return ctx.int("n", 0, 300)
    if name == "float":
        return ctx.pick("f", [0.5, -1.0, 1e30])
    if name == "bool":
        return ctx.bool("b")
    if name == "none":
        return None
    if name == "binding":
        return "[" + s + "]"
    if name == "expr":
        return "(" + s + ")"
    if name == "regex":
        return "/" + s + "/i"
    if name == "pair":
        return [ctx.int("n", 0, 9), "[" + s + "]"]
    if name == "ints":
        return [1, ctx.int("n", 0, 300), 3]
    if name == "texts":
        return ["b", s, "a"]
    if name == "points":
        return [[1, 2], [3, ctx.int("n", 0, 9)]]
    if name == "empty":
        return mk({})
    if name == "dict":
        return mk({"B": s, "a": "1"})
    if name == "nothing":
        return []
    if name == "child":
        return mk({"__type__": ctx.pick("ct", ["style", "class", "web", "nothing"]), "NAME": s, "X": mk({})})
    if name == "children":
        return [mk({"__type__": "class", "Name": s, "styles": [mk({"__type__": "style", "Color": [1, 2, 3], "angle": 1})]}),
                mk({"__type__": "class"})]
    return [mk({"__type__": "layer", "name": s}), s, None]


def maker(ctx, plain):
    if plain:
        return dict
    cls = ctx.mod("ordereddict").CaseInsensitiveOrderedDict

    def mk(d):
        r = cls(cls)
        for k, v in d.items():
            r[k] = v
        return r
    return mk


def printed(ctx, d, fn, o):
    if fn == "dumps":
        return ctx.mappyfile.dumps(d, **o)
    if fn == "dump":
        f = ctx.text_stream("")
        ctx.mappyfile.dump(d, f, **o)
        return None
    fn = ctx.path("out.map")
    ctx.mappyfile.save(d, fn, **o)
    return ctx.get_file("out.map")


def check_pure(ctx, t, plain, fn, o, book):
    """printing and validating leave a dictionary of type t alone"""
    mk = maker(ctx, plain)
    keys = vocab.keywords(t) + ["zzz"]
    k = ctx.pick("k", keys)
    v = shape(ctx, ctx.pick("shape", SHAPES), t, mk)
    d = mk({"__type__": t, "Zz": 1, "name": "n"})
    d[k.upper() if plain else k] = v
    if book:  # bookkeeping a loaded document would have
        d["__position__"] = {"line": 1, "column": 1}
        d["__comments__"] = {"__type__": ["# a", "# b"], "name": "# c"}
        d["__other__"] = [1]
    f = ctx.freeze(d)
    if fn == "validate":
        call = lambda: ctx.mappyfile.validate(d)
    elif fn == "version":
        call = lambda: ctx.mappyfile.validate(d, 7.6)
    else:
        call = lambda: printed(ctx, d, fn, dict(o))
    a = outcome(ctx, call)
    unchanged(ctx, d, f, "a call")


def check_again(ctx, doc, fn):
    """the calls on a loaded document, with and without bookkeeping, twice"""
    t = text(ctx, doc, "t", (0, 2))
    d = ctx.mappyfile.loads(t, include_comments=ctx.bool("com"), include_position=ctx.bool("pos"))
    if ctx.bool("edited"):
        d["MAXSIZE"]
    f = ctx.freeze(d)
    o = ctx.pick("o", [{}, {"align_values": True, "end_comment": True, "quote": "'"}])
    if fn == "validate":
        v = ctx.pick("v", [None, 6.0, 7.6])
        call = lambda: ctx.mappyfile.validate(d, v)
    else:
        call = lambda: printed(ctx, d, fn, o)
    a = outcome(ctx, call)
    unchanged(ctx, d, f, fn)
    b = outcome(ctx, call)
    unchanged(ctx, d, f, fn)
    equal(ctx, a, b, "the same call again")


LISTS = ('MAP LAYER NAME "ab" GROUP "g" END LAYER NAME "b" STATUS ON END LAYER GROUP "h" NAME "C" CLASS END END END')


def check_query(ctx, fn, plain):
    if plain:
        d = {"layers": [{"name": "ab", "Group": "g"}, {"name": ctx.string("n", (0, 2))}, {"group": ["g"], "x": {}}, {}]}
    else:
        d = ctx.mappyfile.loads(LISTS, include_comments=ctx.bool("com"), include_position=ctx.bool("pos"))
    k = ctx.string("k", (0, 2)) if ctx.bool("any") else ctx.pick("kn", ["name", "GROUP", "classes", "Status", "x", "__type__"])
    m = ctx.mappyfile
    f = ctx.freeze(d)
    arg = None
    if fn == "find":
        arg = ctx.string("v", (0, 2))
        call = lambda: m.find(d["layers"], k, arg)
    elif fn == "findall":
        arg = [ctx.string("v", (0, 2)), "g", {}] if ctx.bool("several") else ctx.string("w", (0, 2))
        call = lambda: m.findall(d["layers"], k, arg)
    elif fn == "findunique":
        call = lambda: m.findunique(d["layers"], k)
    else:
        arg = ctx.pick("path", [["layers", 0], ["layers", 1, k], [k], ["layers", 2, "classes", 0, k], [k, k], ["layers", 9], []])
        call = lambda: m.findkey(d, *arg)
    fa = ctx.freeze(arg)
    a = outcome(ctx, call)
    unchanged(ctx, d, f, fn)
    unchanged(ctx, arg, fa, fn)
    b = outcome(ctx, call)
    unchanged(ctx, d, f, fn)
    equal(ctx, a, b, "the same query again")


# ------------------------------------------------------------------ reuse of the worker objects
def reuse(ctx, worker, docs, p1=False, p2=False):
    """one worker object over several documents, against a fresh one for each"""
    texts = [text(ctx, n, "t%d" % i) for i, n in enumerate(docs)]
    prs, trs, pps, val = ctx.mod("parser"), ctx.mod("transformer"), ctx.mod("pprint"), ctx.mod("validator")
    if worker == "parse":
        mkp = lambda: prs.Parser(expand_includes=p2, include_comments=p1)
        mkt = lambda: trs.MapfileToDict(include_position=p2, include_comments=p1)
        p, t = mkp(), mkt()
        for i, x in enumerate(texts):
            r = outcome(ctx, lambda: t.transform(p.parse(x)))
            alone = outcome(ctx, lambda: mkt().transform(mkp().parse(x)))
            equal(ctx, r, alone, "document %d" % i)
    elif worker == "print":
        o = dict(opts.SETS[2] if p1 else opts.SETS[4] if p2 else {})
        mk = lambda: pps.PrettyPrinter(**o)
        p = mk()
        for i, x in enumerate(texts):
            load = lambda: ctx.mappyfile.loads(x, include_comments=True)
            d, e = load(), load()
            if ctx.bool("refuse%d" % i):
                d["classes" if docs[i] in ("class",) else "angle"] = {}
                e["classes" if docs[i] in ("class",) else "angle"] = {}
            equal(ctx, outcome(ctx, lambda: p.pprint(d)), outcome(ctx, lambda: mk().pprint(e)), "document %d" % i)
    else:
        v = val.Validator()
        for i, x in enumerate(texts):
            ver = ctx.pick("v%d" % i, [None, 5.0, 7.0, 7.6, 8.0])
            add = ctx.bool("add%d" % i)
            load = lambda: ctx.mappyfile.loads(x, include_position=True)
            d, e = load(), load()
            equal(ctx, outcome(ctx, lambda: v.validate(d, add_comments=add, version=ver)),
                  outcome(ctx, lambda: val.Validator().validate(e, add_comments=add, version=ver)), "document %d" % i)
            equal(ctx, ["ok", ctx.freeze(d)], ["ok", ctx.freeze(e)], "comments added to document %d" % i)


def boundaries():
    """versions on both sides of every minVersion and maxVersion of the schemas"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("minVersion", "maxVersion") and isinstance(v, (int, float)):
                    out.add(float(v))
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for t in vocab.BLOCKS:
        walk(vocab.schema(t))
    vs = sorted(out)
    return [None, vs[0] - 1] + vs + [vs[-1] + 1]


def versioned(t):
    """the keywords of t which depend on the version, in some way"""
    return [k for k in vocab.keywords(t) if "Version" in repr(vocab.schema(t)["properties"][k])]


def versions(ctx, t, u, between):
    """one Validator for objects of types t and u, at versions each, with something else between"""
    val = ctx.mod("validator")
    vs = boundaries()
    one = val.Validator()

    def build(x):
        d = {"__type__": x, "name": "n", "zzz": 1}
        for k in versioned(x):
            d[k] = "%%"
        return d
    for i, x in enumerate((t, u)):
        ver = ctx.pick("v%d" % i, vs)
        equal(ctx, outcome(ctx, lambda: one.validate(build(x), version=ver)),
              outcome(ctx, lambda: val.Validator().validate(build(x), version=ver)), "object %d" % i)
        if i == 0 and between == "expanded":
            one.get_expanded_schema(u)
        elif i == 0 and between == "versioned":
            one.get_versioned_schema(ver, "map")


# ------------------------------------------------------------------ histories of public calls
CALLS = ("loads", "loadsc", "loadsp", "refused", "open", "dumps", "dumpsc", "dumpsref", "save", "validate", "old", "invalid",
         "create", "update", "find")


def prepare(ctx, call, nm):
    """the inputs of one public call, as a function making the call on freshly built arguments"""
    x = text(ctx, {"loads": "plain", "loadsc": "comments", "loadsp": "web", "refused": "open", "open": "layer", "dumps": "symbol",
                   "dumpsc": "comments", "dumpsref": "plain", "save": "config", "validate": "versions", "old": "versions",
                   "invalid": "invalid", "create": "plain", "update": "plain", "find": "plain"}[call], nm)

    def setup():
        m = ctx.mappyfile
        if call == "loads":
            return lambda: m.loads(x)
        if call == "loadsc":
            return lambda: m.loads(x, include_comments=True)
        if call == "loadsp":
            return lambda: m.loads(x, include_comments=True, include_position=True)
        if call == "refused":
            return lambda: m.loads(x, include_comments=True)
        if call == "open":
            fn = ctx.put_file(nm + ".map", x)
            return lambda: m.open(fn, include_position=True)
        if call == "create":
            return lambda: m.create("layer")
        d = m.loads(x, include_comments=call in ("dumpsc", "invalid"), include_position=call == "invalid")
        if call == "dumps":
            return lambda: m.dumps(d)
        if call == "dumpsc":
            return lambda: m.dumps(d, align_values=True, quote="'", indent=2, end_comment=True)
        if call == "dumpsref":
            d["layers"][0]["x"] = {}
            return lambda: m.dumps(d)
        if call == "save":
            return lambda: [m.save(d, ctx.path(nm + "out.map")), ctx.get_file(nm + "out.map")]
        if call == "validate":
            return lambda: m.validate(d)
        if call == "old":
            return lambda: m.validate(d, 6.0)
        if call == "invalid":
            return lambda: m.validate(d, 7.6)
        if call == "update":
            return lambda: m.update(d, {"layers": [{"name": "u"}, {"name": "v"}], "web": {"metadata": {"a": "b"}}})
        return lambda: [m.find(d["layers"], "group", "x"), m.findall(d["layers"], "name", "l", ), m.findunique(d["layers"], "type")]
    return setup


def spoil(x):
    """modify a result in place"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["name"] = "spoilt"
        x["zzz"] = [1]
        for k in list(x.keys())[:1]:
            if k != "name":
                del x[k]
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoilt")


def history(ctx, before, call):
    """a call after others, against the same call on fresh modules"""
    pre = [prepare(ctx, c, "p%d" % i) for i, c in enumerate(before)]
    last = prepare(ctx, call, "q")
    for s in pre:
        try:
            r = s()()
            spoil(r)
        except Exception:
            pass
    r = outcome(ctx, last())
    alone = ctx.fresh(lambda: outcome(ctx, last()))
    equal(ctx, r, alone, "the same call on its own")


# ------------------------------------------------------------------ schedules
def schedule(ctx, call, others, same):
    """a call stopped at any line while another thread makes whole calls; each against its run alone"""
    a = prepare(ctx, call, "a")
    bs = [prepare(ctx, c, "b%d" % i) for i, c in enumerate(others)]
    if same:
        bs = [a] + bs
    ra = a()
    rbs = [b() for b in bs]
    r, rs, inside = ctx.interleave(lambda: outcome(ctx, ra), lambda: [outcome(ctx, b) for b in rbs], "k")
    ctx.observe("inside", inside)
    equal(ctx, r, ctx.fresh(lambda: outcome(ctx, a())), "the interrupted call on its own")
    for i, b in enumerate(bs):
        equal(ctx, rs[i], ctx.fresh(lambda: outcome(ctx, b())), "call %d of the other thread on its own" % i)


def units(tier):
    thorough = tier == "thorough"
    out = []
    types = vocab.BLOCKS
    for i, t in enumerate(types):
        for j, fn in enumerate(("dumps", "validate", "version") if thorough or t in ("style", "label") else ("dumps", "validate")):
            for plain in (False, True) if thorough else (bool((i + j) % 2),):
                for book in (False, True) if thorough else (bool((i + j) // 2 % 2),):
                    for n, o in enumerate(({}, opts.SETS[2], opts.SETS[10]) if thorough and fn == "dumps" else ((opts.SETS[2], {})[i % 2],)):
                        out.append(Unit("pure:%s.%s.%d.%d.%d" % (t, fn, plain, book, n), "c12.check_pure",
                                        {"t": t, "plain": plain, "fn": fn, "o": o, "book": book}))
    fns = ("dumps", "dump", "save", "validate")
    for i, n in enumerate(GOOD):
        for j, fn in enumerate(fns):
            if thorough or fn in ("dumps", "validate") or (i + j) % 3 == 0:
                out.append(Unit("again:%s.%s" % (n, fn), "c12.check_again", {"doc": n, "fn": fn}))
    for fn in ("find", "findall", "findunique", "findkey"):
        for plain in (False, True):
            out.append(Unit("query:%s.%d" % (fn, plain), "c12.check_query", {"fn": fn, "plain": plain}))
    n = 0
    for a in NAMES:
        for b in NAMES:
            n += 1
            for p1, p2 in ((True, bool(n % 2)),) if not thorough else ((False, False), (False, True), (True, False), (True, True)):
                out.append(Unit("parse:%s.%s.%d%d" % (a, b, p1, p2), "c12.reuse", {"worker": "parse", "docs": (a, b), "p1": p1, "p2": p2}))
            if a not in GOOD or b not in GOOD:
                continue
            out.append(Unit("print:%s.%s" % (a, b), "c12.reuse", {"worker": "print", "docs": (a, b), "p1": bool(n % 2), "p2": bool(n % 3)}))
            if a in ("versions", "invalid", "class", "web") and b in ("versions", "invalid", "class", "layer"):
                out.append(Unit("val:%s.%s" % (a, b), "c12.reuse", {"worker": "val", "docs": (a, b)}))
    vt = [t for t in types if versioned(t)]
    for i, a in enumerate(vt):
        for b in vt if thorough else (a if a != "map" else vt[(i + 1) % len(vt)],):
            for w in ("", "expanded", "versioned") if thorough else (("", "expanded", "versioned")[i % 3],):
                out.append(Unit("versions:%s.%s.%s" % (a, b, w), "c12.versions", {"t": a, "u": b, "between": w}))
    if thorough:
        for a in NAMES:
            for b in NAMES:
                for c in NAMES:
                    out.append(Unit("parse3:%s.%s.%s" % (a, b, c), "c12.reuse", {"worker": "parse", "docs": (a, b, c), "p1": True}))
    for a in CALLS:
        for b in CALLS:
            out.append(Unit("history:%s.%s" % (a, b), "c12.history", {"before": (a,), "call": b}))
            if thorough:
                for c in CALLS:
                    out.append(Unit("history:%s.%s.%s" % (a, b, c), "c12.history", {"before": (a, b), "call": c}))
    parse = ("loadsc", "refused", "open")
    write = ("dumpsc", "dumpsref", "old", "create")
    for a in CALLS:
        for i, other in enumerate((parse, write)):
            kind = a in ("loads", "loadsc", "loadsp", "refused", "open")
            if thorough or a in ("update", "find", "create") or kind == (i == 0):
                for same in (False, True) if thorough else (True,):
                    out.append(Unit("schedule:%s.%d.%d" % (a, i, same), "c12.schedule", {"call": a, "others": other, "same": same}))
    return out
