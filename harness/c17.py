"""C17: Mapfile dictionaries are case-insensitive, insertion-ordered dictionaries.

The oracle is a list of [lower-case key, value] pairs, searched linearly."""
import copy
import pickle
from symex.runner import Unit
import gen

BOUNDS = ("dictionaries: every kind of dictionary in a loaded document (block, METADATA, VALUES, VALIDATION, "
          "CONNECTIONOPTIONS, CONFIG, list item, with and without bookkeeping), their copies, deep copies, pickles and "
          "constructed ones; operations: every sequence of 1 and 2 (thorough 3) operations out of 13 "
          "(get/set/delete item, membership, get, pop, setdefault with and without a default, update with a mapping, with "
          "pairs), each with an arbitrary key of up to 2 characters (thorough 3) that may meet any existing key, and with "
          "every existing and object-list key in any letter case; keyword-argument forms with a fixed list of names")
ASSUMPTIONS = ["dict keys are strings", "reading a missing key which is no object list creates an empty dictionary of the same kind"]
LISTS = ("layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins")
TEXT = ("MAP NAME \"n\" CONFIG \"aB\" \"1\" CONFIG 'Cd' '2' WEB METADATA \"K\" \"v\" 'k2' 'w' END VALIDATION 'q' 'r' END END "
        "LAYER NAME 'l' CONNECTIONOPTIONS 'a' 'b' END CLASS NAME 'c' END END SYMBOL NAME 's' POINTS 1 2 END END END")
PATHS = {"root": (), "config": ("config",), "web": ("web",), "metadata": ("web", "metadata"), "validation": ("web", "validation"),
         "layer": ("layers", 0), "options": ("layers", 0, "connectionoptions"), "class": ("layers", 0, "classes", 0), "symbol": ("symbols", 0)}
OPS = ("getitem", "setitem", "delitem", "in", "get", "getdef", "pop", "popdef", "setdefault", "setdefdef", "update", "updpairs", "upddict")
BOOK = {"": {}, "pos": {"include_position": True}, "com": {"include_comments": True}, "both": {"include_position": True, "include_comments": True}}


def find(m, k):
    for p in m:
        if p[0] == k:
            return p
    return None


def base(ctx, where="root", book="", text=TEXT):
    d = ctx.mappyfile.loads(text, **BOOK[book])
    for k in PATHS[where]:
        d = d[k]
    return d


def model(d):
    return [[k, v] for k, v in d.items()]


def agree(ctx, d, m, label):
    ks = list(d.keys())
    ctx.check(len(d) == len(m), label + ":size")
    ctx.check(len(ks) == len(m), label + ":number of keys")
    for a, b in zip(ks, m):
        ctx.check(a == b[0], label + ":keys")
        ctx.check(a == a.lower(), label + ":key in lower case")
    for (k, v), b in zip(list(d.items()), m):
        ctx.check(k == b[0], label + ":item key")
        ctx.check(v is b[1], label + ":item value")
    for v, b in zip(list(d.values()), m):
        ctx.check(v is b[1], label + ":values")
    ctx.check([k for k in d] == ks, label + ":iteration")


def raises(ctx, fn, label):
    try:
        r = fn()
    except KeyError:
        return
    ctx.observe("r", r)
    ctx.fail(label)


def fresh(ctx, cls, v, k, label):
    """a value created by reading the missing key k"""
    if k in LISTS:
        ctx.check(isinstance(v, list) and len(v) == 0, label + ":missing object list")
    else:
        ctx.check(isinstance(v, cls) and len(v) == 0, label + ":missing key")
        v["Ab"] = 1
        ctx.check(v["aB"] == 1 and list(v.keys()) == ["ab"], label + ":created dictionary")
        del v["AB"]


def apply(ctx, d, m, op, k, v, label):
    """one operation on both"""
    lk = k.lower()
    p = find(m, lk)
    if op == "getitem":
        r = d[k]
        if p is None:
            fresh(ctx, type(d), r, lk, label)
            m.append([lk, r])
        else:
            ctx.check(r is p[1], label + ":value")
    elif op == "setitem":
        d[k] = v
        put(m, lk, v)
    elif op == "delitem":
        if p is None:
            def dele():
                del d[k]
            raises(ctx, dele, label + ":no KeyError")
        else:
            del d[k]
            m.remove(p)
    elif op == "in":
        ctx.check((k in d) == (p is not None), label + ":membership")
        ctx.check((k not in d) == (p is None), label + ":no membership")
    elif op == "get":
        ctx.check(d.get(k) is (None if p is None else p[1]), label + ":value")
    elif op == "getdef":
        ctx.check(d.get(k, v) is (v if p is None else p[1]), label + ":value")
    elif op == "pop":
        if p is None:
            raises(ctx, lambda: d.pop(k), label + ":no KeyError")
        else:
            ctx.check(d.pop(k) is p[1], label + ":value")
            m.remove(p)
    elif op == "popdef":
        ctx.check(d.pop(k, v) is (v if p is None else p[1]), label + ":value")
        if p is not None:
            m.remove(p)
    elif op == "setdefault":
        ctx.check(d.setdefault(k) is (None if p is None else p[1]), label + ":value")
        if p is None:
            m.append([lk, None])
    elif op == "setdefdef":
        ctx.check(d.setdefault(k, v) is (v if p is None else p[1]), label + ":value")
        if p is None:
            m.append([lk, v])
    elif op == "update":
        w = [1]
        d.update({k: v, "Zz": w})
        put(m, lk, v)
        put(m, "zz", w)
    elif op == "updpairs":
        w = [1]
        d.update([(k, v), ("name", w), (k.upper(), w)])
        put(m, lk, v)
        put(m, "name", w)
        put(m, k.upper().lower(), w)
    elif op == "upddict":
        w = [1]
        o = type(d)(type(d))
        o["NAME"] = w
        o[k] = v
        q = [["name", w]]
        put(q, lk, v)
        d.update(o)
        for a, b in q:
            put(m, a, b)
        agree(ctx, o, q, label + ":argument")


def put(m, k, v):
    p = find(m, k)
    if p is None:
        m.append([k, v])
    else:
        p[1] = v


def seq(ctx, where, ops, n, book=""):
    d = base(ctx, where, book)
    m = model(d)
    for i, op in enumerate(ops):
        k = ctx.string("k%d" % i, (1, n) if n > 1 else 1, "any")
        apply(ctx, d, m, op, k, ["v", i], "%s:%d" % (op, i))
        agree(ctx, d, m, "%s:%d" % (op, i))
    ctx.observe("keys", [k for k in d])
    for k, v in m:
        ctx.check(d[k] is v and d[k.upper()] is v if k.upper().lower() == k else d[k] is v, "read back")


def cases(ctx, where, op, word):
    """an existing or object-list key in any letter case"""
    d = base(ctx, where)
    m = model(d)
    k = gen.case_word(ctx, "k", word)
    apply(ctx, d, m, op, k, ["v"], op)
    agree(ctx, d, m, op)
    k2 = gen.case_word(ctx, "k2", word)
    for op2 in ("in", "get", "getdef", "getitem", "setitem", "getitem", "delitem", "in"):
        apply(ctx, d, m, op2, k2, ["w"], op + "," + op2)
        agree(ctx, d, m, op + "," + op2)
    ctx.observe("keys", [x for x in d])


def auto(ctx, word, read):
    """reading a missing object list stores it: what is put in it stays"""
    d = base(ctx, "layer" if word not in ("layers", "symbols") else "web")
    for k in list(d.keys()):
        if k == word:
            del d[k]
    m = model(d)
    k = gen.case_word(ctx, "k", word)
    r = d[k]
    ctx.check(isinstance(r, list) and len(r) == 0, "new list")
    item = {"__type__": "x"}
    r.append(item)
    m.append([word, r])
    agree(ctx, d, m, "stored")
    k2 = gen.case_word(ctx, "k2", word)
    if read == "item":
        s = d[k2]
    elif read == "get":
        s = d.get(k2)
    elif read == "setdefault":
        s = d.setdefault(k2, [])
    else:
        s = d.pop(k2)
    ctx.check(s is r and len(s) == 1 and s[0] is item, "the same list")
    other = base(ctx, "class")
    ctx.check(len(other[word]) == 0 and other[word] is not r, "a list of its own")


FORMS = ("mapping", "pairs", "iter", "dict", "mapping+kw", "kw", "empty", "none")
KW = [("Name", "x"), ("e", 5), ("self", 1), ("TYPE", "a"), ("default_factory", 3), ("args", 4), ("f", 6), ("key", 7), ("__delete__", True)]


def construct(ctx, form, how):
    """construction, and update of a dictionary, with all kinds of arguments"""
    d = base(ctx)
    cls = type(d)
    if "kw" in form:
        a, b = ctx.pick("a", ["Name", "nAme", "x", "E"]), "q"
    else:
        a = ctx.string("a", (1, 2), "any")
        b = ctx.string("b", 1, "any")
    va, vb, vc = ["a"], ["b"], ["c"]
    pairs = [(a, va), ("Name", vc), (b, vb)]
    kw = {}
    if form == "mapping":
        arg = {}
        for k, v in pairs:
            arg[k] = v
        src = [(k, v) for k, v in arg.items()]
    elif form in ("pairs", "iter"):
        arg, src = pairs, pairs
    elif form == "dict":
        arg = base(ctx, "class")
        arg[a] = va
        arg[b] = vb
        src = list(arg.items())
    elif form == "mapping+kw":
        arg = {a: va}
        src = [(a, va)]
    else:
        arg, src = None, []
    if "kw" in form:
        kw = {}
        src = list(src)
        names = [x for x in KW if how == "update" or x[0] not in ("self", "default_factory")]
        for nm in (0, 1):
            x = ctx.pick("kw%d" % nm, names)
            kw[x[0]] = [x[1], nm]
        src += list(kw.items())
    if form == "iter":
        arg = iter(pairs)
    if how == "update":
        m = model(d)
        if arg is None and form != "none":
            d.update(**kw) if form == "kw" else d.update({})
        elif arg is None:
            d.update()
        else:
            d.update(arg, **kw)
    else:
        m = []
        d = cls(cls, **kw) if arg is None else cls(cls, arg, **kw)
    for k, v in src:
        put(m, k.lower(), v)
    agree(ctx, d, m, how)
    ctx.observe("keys", [x for x in d])
    ctx.check(d[a.upper()] is d[a.lower()] if a.upper().lower() == a.lower() else True, "letter case")
    if arg is not None:
        ctx.check(d[a] is find(m, a.lower())[1], "lookup")
    ctx.check(isinstance(d["STYLES"], list), "object list")


def pickled(ctx, d):
    if not ctx.symbolic:
        p = ctx.pick("proto", [2, 4])
        return pickle.loads(pickle.dumps(d, p))
    p = ctx.pick("proto", [2, 4])
    return rebuild(d, p, {})


def rebuild(x, proto, memo):
    """what pickling and unpickling makes of x: the reduce protocol, carried out"""
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, (str, int, float, bool)) or x is None or callable(x):
        return x
    if type(x) is list:
        r = []
        memo[id(x)] = (r, x)
        for v in x:
            r.append(rebuild(v, proto, memo))
        return r
    if isinstance(x, tuple):
        return tuple([rebuild(v, proto, memo) for v in x])
    if type(x) is dict:
        r = {}
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[rebuild(k, proto, memo)] = rebuild(v, proto, memo)
        return r
    red = x.__reduce_ex__(proto)
    fn = red[0]
    args = rebuild(red[1], proto, memo)
    r = fn(*args)
    memo[id(x)] = (r, x)
    state = red[2] if len(red) > 2 else None
    if len(red) > 3 and red[3] is not None:
        for v in red[3]:
            r.append(rebuild(v, proto, memo))
    if len(red) > 4 and red[4] is not None:
        for k, v in red[4]:
            r[rebuild(k, proto, memo)] = rebuild(v, proto, memo)
    if state is not None:
        state = rebuild(state, proto, memo)
        if hasattr(r, "__setstate__"):
            r.__setstate__(state)
        else:
            for k, v in state.items():
                setattr(r, k, v)
    return r


COPIES = ("copy", "copy.copy", "deepcopy", "pickle")


def copied(ctx, d, how):
    if how == "copy":
        return d.copy()
    if how == "copy.copy":
        return copy.copy(d)
    if how == "deepcopy":
        return copy.deepcopy(d)
    return pickled(ctx, d)


def mutable(x, out):
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            mutable(v, out)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append(x)
        for v in x:
            mutable(v, out)
    return out


def shape(ctx, a, b, label):
    """equal structure, the same classes all the way down"""
    ctx.check(type(a) is type(b) or isinstance(a, str), label + ":class")
    if isinstance(a, dict):
        ctx.check(isinstance(b, dict) and len(a) == len(b), label + ":size")
        for (k, v), (l, w) in zip(a.items(), b.items()):
            ctx.check(k == l, label + ":keys")
            shape(ctx, v, w, label)
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), label + ":length")
        for v, w in zip(a, b):
            shape(ctx, v, w, label)
    else:
        ctx.check(a == b, label + ":value")


def copies(ctx, where, how, op, book=""):
    d = base(ctx, where, book)
    s = ctx.string("s", 1, "any")
    d[s] = [[s, {"x": s}], (1, 2)]
    before = ctx.freeze(d)
    m0 = model(d)
    e = copied(ctx, d, how)
    ctx.check(type(e) is type(d), "class of the copy")
    ctx.check(e == d and d == e, "equal")
    ctx.check(not (e != d), "not unequal")
    shape(ctx, d, e, "copy")
    ctx.check(e is not d, "a new dictionary")
    if how in ("deepcopy", "pickle"):
        xs, ys = mutable(d, []), mutable(e, [])
        for x in xs:
            for y in ys:
                ctx.check(x is not y, "shared state")
        for y in ys:
            if isinstance(y, list):
                y.append("more")
        for y in ys:
            if isinstance(y, dict):
                y["more"] = 1
        ctx.check(ctx.same(ctx.freeze(d), before), "the original is untouched")
        e = copied_again(ctx, d, how)
    else:
        for k, v in d.items():
            ctx.check(e[k] is v, "the same values")
    # the copy behaves like the original, which stays as it is
    m = model(e)
    k = ctx.string("k", 1, "any")
    apply(ctx, e, m, op, k, ["v"], how + "," + op)
    agree(ctx, e, m, how + "," + op)
    agree(ctx, d, m0, how + "," + op + ":original")
    w = gen.case_word(ctx, "w", "styles")
    r = e[w]
    ctx.check(isinstance(r, list) and len(r) == 0 and e["styles"] is r, "object list of the copy")
    x = e["Absent"]
    ctx.check(isinstance(x, type(d)) and "ABSENT" in e, "missing key of the copy")
    agree(ctx, d, m0, "original")


def copied_again(ctx, d, how):
    return copy.deepcopy(d) if how == "deepcopy" else rebuild(d, 2, {}) if ctx.symbolic else pickle.loads(pickle.dumps(d))


def nested(ctx, how):
    """copies of a whole document: every dictionary inside behaves as before"""
    d = base(ctx)
    e = copied(ctx, d, how)
    where = ctx.pick("where", sorted(PATHS))
    x, y = d, e
    for k in PATHS[where]:
        x, y = x[k], y[k]
    ctx.check(type(x) is type(y) and x == y, "equal")
    k = gen.case_word(ctx, "k", list(x.keys())[0])
    ctx.check(k in y and y.get(k) == x.get(k) and y[k] == x[k], "letter case")
    o = gen.case_word(ctx, "o", "composites")
    r = y[o]
    ctx.check(isinstance(r, list) and len(r) == 0 and y["Composites"] is r, "object list")
    if how not in ("copy", "copy.copy"):
        ctx.check("composites" not in x, "the original is untouched")
    k2 = ctx.string("k2", (1, 2), "any")
    m = model(y)
    for op in ("setitem", "in", "delitem"):
        apply(ctx, y, m, op, k2, ["v"], op)
        agree(ctx, y, m, op)


def keys(ctx, form, n):
    """what loads stores: keys in lower case, found in any letter case"""
    a = ctx.string("a", n, "any", exclude="\"\\")
    b = ctx.string("b", 1, "any", exclude="\"\\")
    t = {"metadata": "WEB METADATA \"%s\" \"1\" \"%s\" \"2\" END END", "config": "MAP CONFIG \"%s\" \"1\" CONFIG \"%s\" \"2\" END",
         "validation": "LAYER VALIDATION \"%s\" \"1\" \"%s\" \"2\" END END", "values": "LAYER SCALETOKEN VALUES \"%s\" \"1\" \"%s\" \"2\" END END END",
         "options": "LAYER CONNECTIONOPTIONS \"%s\" \"1\" \"%s\" \"2\" END END"}[form].split("%s")
    d = ctx.mappyfile.loads(t[0] + a + t[1] + b + t[2])
    for k in {"metadata": ["metadata"], "config": ["config"], "validation": ["validation"], "values": ["scaletokens", 0, "values"],
              "options": ["connectionoptions"]}[form]:
        d = d[k]
    got = [[k, v] for k, v in d.items() if k != "__type__"]
    m = []
    put(m, a.lower(), "1")
    put(m, b.lower(), "2")
    ctx.assume(a.lower() != "__type__" and b.lower() != "__type__")
    ctx.observe("got", got)
    ctx.check(got == m, "keys")
    for k in (a, a.lower()):
        ctx.check(k in d and d[k] == find(m, a.lower())[1] and d.get(k) == d[k], "lookup")
    if a.upper().lower() == a.lower():
        ctx.check(a.upper() in d and d[a.upper()] == d[a], "lookup in upper case")


def units(tier):
    q = tier == "quick"
    out = []
    n = 2
    for op in OPS:
        for w in PATHS:
            if q and w not in ("root", "metadata", "config", "layer"):
                continue
            out.append(Unit("one:%s.%s" % (op, w), "c17.seq", {"where": w, "ops": [op], "n": n if q else 3}))
        for bk in ("pos", "com", "both"):
            out.append(Unit("book:%s.%s" % (op, bk), "c17.seq", {"where": "layer", "ops": [op], "n": 1, "book": bk}))
        for op2 in OPS:
            out.append(Unit("two:%s.%s" % (op, op2), "c17.seq", {"where": "symbol", "ops": [op, op2], "n": 1 if q else 2}))
            if not q:
                for op3 in OPS:
                    out.append(Unit("three:%s.%s.%s" % (op, op2, op3), "c17.seq", {"where": "class", "ops": [op, op2, op3], "n": 1}))
        for w, word in (("root", "name"), ("root", "layers"), ("layer", "styles"), ("config", "ab"), ("metadata", "k")):
            out.append(Unit("case:%s.%s.%s" % (op, w, word), "c17.cases", {"where": w, "op": op, "word": word}))
    for word in LISTS:
        for r in ("item", "get", "setdefault", "pop"):
            out.append(Unit("auto:%s.%s" % (word, r), "c17.auto", {"word": word, "read": r}))
    for f in FORMS:
        for how in ("update", "new"):
            out.append(Unit("args:%s.%s" % (f, how), "c17.construct", {"form": f, "how": how}))
    for how in COPIES:
        for op in OPS if not q else OPS[::2]:
            for w in ("root", "metadata", "config") if q else PATHS:
                out.append(Unit("copy:%s.%s.%s" % (how, op, w), "c17.copies", {"where": w, "how": how, "op": op}))
        out.append(Unit("copybook:" + how, "c17.copies", {"where": "layer", "how": how, "op": "setitem", "book": "both"}))
        out.append(Unit("nested:" + how, "c17.nested", {"how": how}))
    for f in ("metadata", "config", "validation", "values", "options"):
        for n in (1, 2) if not q or f in ("config", "metadata") else (1,):
            out.append(Unit("keys:%s.%d" % (f, n), "c17.keys", {"form": f, "n": n}))
    return out
