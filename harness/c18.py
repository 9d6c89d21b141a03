"""C18: update and find* against reference implementations.

update: both dictionaries are turned into lists of [lower-case key, value] pairs and merged by `merge`, which is written
from the property's text; the dictionary update returns must equal the merged list, keys in order."""
import zlib
from symex.runner import Unit
import gen

BOUNDS = ("update: a loaded, a created and a plain dictionary of 5 kinds of places (root, nested block, key-value block, list "
          "item, list item of a list item); every pair of the edits (scalar, number list, '__delete__', deleted object, merged "
          "object, object lists with None, deleted, merged and extra items in every order up to 3 items) at two places, both "
          "values of overwrite; string values of up to 2 arbitrary characters or ones that may be '__delete__', keys in any "
          "letter case or arbitrary strings of 1 character; find*: lists of up to 3 items, values and wanted values symbolic "
          "strings (<= 2 characters), integers, decimal numbers, booleans, lists")
ASSUMPTIONS = ["an empty list given for a key which is no object list, and values of different kinds (an object for a string) are left open"]
DEL = "__delete__"


# -- the reference
def model(x):
    if isinstance(x, dict):
        ci = hasattr(x, "default_factory")  # a Mapfile dictionary: keys in lower case
        return ("d", [[k, model(v)] for k, v in x.items()], ci)
    if isinstance(x, (list, tuple)):
        return ("l", [model(v) for v in x])
    return ("v", x)


def put(pairs, k, v):
    for p in pairs:
        if p[0] == k:
            p[1] = v
            return
    pairs.append([k, v])


def get(pairs, k):
    for p in pairs:
        if p[0] == k:
            return p
    return None


def deleted(m):
    p = get(m[1], DEL) if m[0] == "d" else None
    return p is not None and bool(p[1][1])


def merge(m1, m2, overwrite):
    """m1 changed where m2 speaks; both are ("d", pairs, case-insensitive)"""
    a = m1[1]
    for k, v in m2[1]:
        if m1[2]:
            k = k.lower()
        p = get(a, k)
        if v[0] == "d":
            if deleted(v):
                if p is not None:
                    a.remove(p)
            elif p is None:
                a.append([k, merge(("d", [], False), v, overwrite)])
            else:
                p[1] = merge(p[1], v, overwrite)
        elif v[0] == "l" and all([x[0] == "d" or x[1] is None for x in v[1]]):
            old = list(p[1][1]) if p is not None else []
            new = []
            for i in range(max(len(old), len(v[1]))):
                e = v[1][i] if i < len(v[1]) else ("v", None)
                if e[0] == "v":  # None: this index is skipped
                    if i < len(old):
                        new.append(old[i])
                elif deleted(e):
                    pass
                elif i < len(old):
                    new.append(merge(old[i], e, overwrite))
                else:
                    new.append(merge(("d", [], False), e, overwrite))
            put(a, k, ("l", new))
        elif isinstance(v[1], str) and v[1] == DEL:
            if p is not None:
                a.remove(p)
        elif p is None or overwrite:
            put(a, k, v)
    return m1


def compare(ctx, d, m, label):
    if m[0] == "d":
        ctx.check(isinstance(d, dict), label + ":object")
        ks = list(d.keys())
        ctx.check(len(ks) == len(m[1]), label + ":number of keys")
        for k, p in zip(ks, m[1]):
            ctx.check(k == p[0] or not m[2] and k == p[0].lower(), label + ":keys")
            compare(ctx, d[k], p[1], label)
    elif m[0] == "l":
        ctx.check(isinstance(d, (list, tuple)) and len(d) == len(m[1]), label + ":list")
        for x, y in zip(d, m[1]):
            compare(ctx, x, y, label)
    else:
        ctx.check(type(d) is type(m[1]) or isinstance(d, str) and isinstance(m[1], str), label + ":type")
        ctx.check(d == m[1], label + ":value")


# -- the dictionaries
def target(ctx, form):
    s = ctx.string("old", 1, "any", exclude="\"\\")
    if form == "plain":
        return {"__type__": "map", "name": s, "size": [1, 2], "web": {"__type__": "web", "imagepath": "p", "metadata": {"__type__": "metadata", "a": "1"}},
                "layers": [{"__type__": "layer", "name": "l0", "classes": [{"__type__": "class", "name": "c"}, {"__type__": "class"}]},
                           {"__type__": "layer", "name": s}]}
    d = ctx.mappyfile.loads("MAP NAME \"" + s + "\" SIZE 1 2 WEB IMAGEPATH 'p' METADATA 'a' '1' END END LAYER NAME 'l0' CLASS NAME 'c' END CLASS END END "
                            "LAYER NAME \"" + s + "\" END END", **({"include_position": True, "include_comments": True} if form == "book" else {}))
    return d


PLACES = {"root": (), "web": ("web",), "metadata": ("web", "metadata"), "layer": ("layers", 0), "second": ("layers", 1),
          "class": ("layers", 0, "classes", 0), "newlayer": ("layers", 2), "newblock": ("legend",), "newdeep": ("legend", "labels", 0)}
LISTS = ["N", "X", "M", "NN", "NM", "XM", "MX", "XX", "NX", "MM", "NNM", "XXM", "XNM", "MNM", "NMN", "MXM", "NNN", "XXX", "", "NNX"]
KINDS = ["string", "int", "numbers", "delete", "maybe", "object", "objdel", "objnodel", "objmaybe", "none", "bool", "strings", "empty"]


def value(ctx, kind, nm):
    if kind == "string":
        return ctx.string(nm, (0, 2), "any")
    if kind == "int":
        return ctx.int(nm, -3, 99)
    if kind == "numbers":
        return [ctx.int(nm, -3, 99), 2.5, "x"]
    if kind == "strings":
        return ["a", ctx.string(nm, 1, "any")]
    if kind == "delete":
        return DEL
    if kind == "maybe":
        return "__dele" + ctx.string(nm, 2, "teTE_x") + ctx.string(nm + "2", (0, 3), "_ ")
    if kind == "object":
        return {"__type__": "x", "n": ctx.string(nm, 1, "any")}
    if kind == "objdel":
        return {"name": "a", DEL: True}
    if kind == "objnodel":
        return {"name": "a", "b": DEL}
    if kind == "objmaybe":
        return {"__delet" + ctx.string(nm, 1, "eE_") + "__": True, "q": 1}
    if kind == "none":
        return None
    if kind == "bool":
        return ctx.bool(nm)
    if kind == "empty":
        return {}
    # a list of objects: N None, X deleted, M merged
    return [None if c == "N" else {DEL: True} if c == "X" else {"name": ctx.string("%s.%d" % (nm, i), 1, "any"), "t": DEL}
            for i, c in enumerate(kind[5:])]


def put_at(d2, path, k, v):
    """d2 speaking about key k of the object at path"""
    x = d2
    for i, p in enumerate(path):
        if isinstance(p, int):
            while len(x) <= p:
                x.append(None)
            if x[p] is None:
                x[p] = {}
            x = x[p]
        else:
            if p not in x:
                x[p] = [] if i + 1 < len(path) and isinstance(path[i + 1], int) else {}
            x = x[p]
    x[k] = v


def key(ctx, form, place, kind, nm):
    """the key an edit is about: one that is there, one that is not, or an arbitrary one"""
    if form == "arbitrary":
        return ctx.string(nm, 1, "any")
    if form == "new":
        return {"list": "styles"}.get(kind[:4], "novel")
    if kind[:4] == "list":
        return {"layer": "classes"}.get(place, "layers" if place == "root" else "styles")
    if kind[:3] == "obj" or kind == "empty":
        return {"root": "web", "web": "metadata"}.get(place, "novel")
    return gen.case_word(ctx, nm, {"metadata": "a", "web": "imagepath"}.get(place, "name")) if form == "case" else \
        {"metadata": "a", "web": "imagepath"}.get(place, "name")


def merged(ctx, d1, d2, overwrite, label):
    exp = merge(model(d1), model(d2), overwrite)
    f2 = ctx.freeze(d2)
    r = ctx.mappyfile.update(d1, d2, overwrite=overwrite) if ctx.pick("call", ["keyword", "positional"]) == "keyword" else \
        ctx.mappyfile.update(d1, d2, overwrite) if not overwrite else ctx.mappyfile.update(d1, d2)
    ctx.check(r is d1, label + ":returns d1")
    ctx.observe("result", r)
    compare(ctx, r, exp, label)
    ctx.check(ctx.same(ctx.freeze(d2), f2), label + ":the second dictionary is unchanged")


def edit(ctx, form, place, kind, kf, overwrite):
    d1 = target(ctx, form)
    d2 = {}
    k = key(ctx, kf, place, kind, "k")
    v = value(ctx, kind, "v")
    if kf == "arbitrary":
        # the kinds must agree where the key exists: one-letter keys exist nowhere but in METADATA
        ctx.assume(not (kind[:3] == "obj" or kind == "empty" or kind[:4] == "list") or place != "metadata")
    put_at(d2, PLACES[place], k, v)
    merged(ctx, d1, d2, overwrite, "edit")


def two(ctx, form, a, ka, b, kb, overwrite):
    """two edits at once"""
    d1 = target(ctx, form)
    d2 = {}
    put_at(d2, PLACES[a], key(ctx, "old", a, ka, "k"), value(ctx, ka, "v"))
    put_at(d2, PLACES[b], "other" if a == b else key(ctx, "old", b, kb, "l"), value(ctx, kb, "w"))
    merged(ctx, d1, d2, overwrite, "two")


def chain(ctx, form, ka, kb):
    """an update of an update"""
    d1 = target(ctx, form)
    e1, e2 = {}, {}
    put_at(e1, PLACES["layer"], key(ctx, "old", "layer", ka, "k"), value(ctx, ka, "v"))
    put_at(e2, PLACES["layer"], key(ctx, "old", "layer", kb, "l"), value(ctx, kb, "w"))
    ka_, kb_ = [ka[:4] == "list" or ka[:3] == "obj" or ka == "empty"], [kb[:4] == "list" or kb[:3] == "obj" or kb == "empty"]
    ctx.assume(ka_ == kb_ and (not ka_[0] or ka[:4] == kb[:4]))
    exp = merge(merge(model(d1), model(e1), True), model(e2), True)
    r = ctx.mappyfile.update(ctx.mappyfile.update(d1, e1), e2)
    ctx.check(r is d1, "chain:returns d1")
    ctx.observe("result", r)
    compare(ctx, r, exp, "chain")


def loaded(ctx, form):
    """dictionaries read from text on both sides"""
    m = ctx.mappyfile
    d1 = target(ctx, "loaded")
    s = ctx.string("s", 1, "any", exclude="\"\\")
    t = {"web": "MAP WEB METADATA \"" + s + "\" 'n' END END END", "layer": "MAP LAYER NAME \"" + s + "\" CLASS END CLASS NAME 'x' END CLASS END END END",
         "size": "MAP SIZE 5 6 NAME \"" + s + "\" END", "config": "MAP CONFIG \"" + s + "\" 'on' END",
         "more": "MAP SYMBOL NAME \"" + s + "\" POINTS 1 2 END END LAYER END LAYER END LAYER NAME 'third' END END"}[form]
    d2 = m.loads(t)
    merged(ctx, d1, d2, ctx.bool("overwrite"), "loaded")
    ctx.check(d1.get("NAME") is d1["name"] and "Layers" in d1, "loaded:still a Mapfile dictionary")


def laws(ctx, form, overwrite):
    """d1 is itself again after an empty update; None entries and empty objects change nothing"""
    d1 = target(ctx, form)
    f = ctx.freeze(d1)
    for d2 in ({}, {"layers": [None]}, {"layers": [{}, {}]}, {"layers": []}, {"web": {}}, {"layers": [{"classes": [None, {}]}]}, {"legend": {DEL: True}},
               {"nothing": DEL}, {"web": {"nothing": DEL, "validation": {DEL: True}}}, {"layers": [None, None, {DEL: True}, None]}):
        r = ctx.mappyfile.update(d1, d2, overwrite)
        ctx.check(r is d1, "laws:returns d1")
        ctx.check(ctx.same(ctx.freeze(d1), f), "laws:unchanged")
    ctx.observe("d", d1)


# -- queries
def items(ctx, n, kinds, form, word):
    out, vals = [], []
    for i in range(n):
        kind = kinds[i]
        if kind == "absent":
            v = None
        elif kind == "str":
            v = ctx.string("i%d" % i, (0, 2), "any", exclude="\"\\")
        elif kind == "c":
            v = ctx.string("i%d" % i, 1, "any", exclude="\"\\")
        elif kind == "ab":
            v = ctx.string("i%d" % i, (0, 2), "aB\u00e9")
        elif kind == "a":
            v = ctx.string("i%d" % i, 1, "aB_z\u00e9 ")
        elif kind == "int":
            v = ctx.int("i%d" % i, -2, 40)
        elif kind == "real":
            v = ctx.real("i%d" % i, -2, 40)
        elif kind == "bool":
            v = ctx.bool("i%d" % i)
        elif kind == "zero":
            v = 0
        elif kind == "list":
            v = [ctx.int("i%d" % i, 0, 5), 2]
        vals.append(v)
        if form == "text":
            t = "LAYER MINSCALEDENOM %d " % i
            if kind == "absent":
                pass
            else:
                t = t + word + " \"" + v + "\""
            d = ctx.mappyfile.loads(t + " END")
        elif form == "plain":
            d = {"__type__": "layer", "minscaledenom": i}
            if kind != "absent":
                d[word] = v
        else:
            d = ctx.mappyfile.loads("LAYER MINSCALEDENOM %d END" % i)
            if kind != "absent":
                d[word] = v
        out.append(d)
    return out, vals


def wanted(ctx, w):
    if w == "str":
        return ctx.string("w", (0, 3), "any")
    if w == "c":
        return ctx.string("w", 1, "any")
    if w == "int":
        return ctx.int("w", -2, 40)
    if w == "real":
        return ctx.real("w", -2, 40)
    if w == "bool":
        return ctx.bool("w")
    if w == "strs":
        return [ctx.string("w", (0, 2), "any"), "zz", ctx.string("w2", 1, "any")]
    if w == "one":
        return [ctx.string("w", (0, 2), "any")]
    if w == "tuple":
        return (ctx.string("w", 1, "any"), ctx.string("w2", 1, "any"))
    if w == "ints":
        return [ctx.int("w", -2, 40), 7]
    if w == "none":
        return []
    raise ValueError(w)


def query(ctx, fn, kinds, form, want):
    m = ctx.mappyfile
    word = "name"
    lst, vals = items(ctx, len(kinds), kinds, form, word)
    w = wanted(ctx, want)
    f = ctx.freeze(lst)
    k = gen.case_word(ctx, "k", word)
    idx = []
    many = isinstance(w, (list, tuple))
    for i, kind in enumerate(kinds):
        if kind == "absent":
            continue
        if (any([vals[i] == x for x in w]) if many else vals[i] == w):
            idx.append(i)
    if fn == "find":
        r = m.find(lst, k, w)
        exp = lst[idx[0]] if idx else None
        ctx.check(r is exp, "find")
        ctx.observe("r", idx[:1])
    else:
        r = m.findall(lst, k, w)
        ctx.check(isinstance(r, list), "findall:list")
        ctx.check(len(r) == len(idx), "findall:number")
        for a, i in zip(r, idx):
            ctx.check(a is lst[i], "findall:items in order")
        ctx.observe("r", idx)
    ctx.check(len(lst) == len(kinds) and ctx.same(ctx.freeze(lst), f), fn + ":items unchanged")


def unique(ctx, kinds, form):
    m = ctx.mappyfile
    lst, vals = items(ctx, len(kinds), kinds, form, "group")
    f = ctx.freeze(lst)
    r = m.findunique(lst, gen.case_word(ctx, "k", "group"))
    ctx.check(isinstance(r, list), "list")
    ctx.observe("r", r)
    here = [v for v, k in zip(vals, kinds) if k != "absent"]
    for v in here:
        ctx.check(any([x == v for x in r]), "every value")
    for i, x in enumerate(r):
        ctx.check(any([x == v for v in here]), "no other value")
        if i:
            ctx.check(r[i - 1] < x, "sorted and distinct")
    ctx.check(ctx.same(ctx.freeze(lst), f), "items unchanged")


def path(ctx, form, place):
    m = ctx.mappyfile
    d = target(ctx, form)
    f = ctx.freeze(d)
    pth = PLACES[place]
    x = d
    for p in pth:
        x = x[p]
    keys = [p if isinstance(p, int) or form == "plain" else gen.case_word(ctx, "p%d" % i, p) for i, p in enumerate(pth)]
    r = m.findkey(d, *keys)
    ctx.check(r is x, "element")
    if place not in ("metadata", "web") and pth[-1:] != (1,):
        pass
    for k in list(x.keys()):
        v = m.findkey(d, *(keys + [k]))
        ctx.check(v is x[k], "value")
        if isinstance(v, list) and len(v):
            i = ctx.int("n" + k, 0, len(v) - 1)
            ctx.check(m.findkey(d, *(keys + [k, int(i)])) is v[int(i)], "list element")
            ctx.check(m.findkey(d, *(keys + [k, -1])) is v[-1], "last element")
    ctx.observe("n", len(x))
    ctx.check(ctx.same(ctx.freeze(d), f), "unchanged")


def absent(ctx, form, place):
    """a path which leads nowhere: nothing is found and nothing is created"""
    m = ctx.mappyfile
    d = target(ctx, form)
    f = ctx.freeze(d)
    k = ctx.pick("key", ["layers", "foo", "styles", "NAME2"])
    keys = list(PLACES[place])
    x = d
    for p in keys:
        x = x[p]
    ctx.assume(k not in x)
    try:
        r = m.findkey(d, *(keys + [k]))
        ctx.check(r is None or r == [] or r == {}, "nothing there")
    except (KeyError, IndexError):
        pass
    ctx.check(ctx.same(ctx.freeze(d), f), "unchanged")


def units(tier):
    q = tier == "quick"
    out = []
    kinds = KINDS + ["list:" + x for x in LISTS]
    n = 0
    for form in ("loaded", "plain", "book"):
        for place in PLACES:
            for kind in kinds:
                for kf in ("old", "case", "new", "arbitrary"):
                    if kf == "case" and (form == "plain" or kind not in ("string", "delete", "maybe", "int")) or place.startswith("new") and kf in ("case",):
                        continue
                    if kf == "arbitrary" and (place == "metadata" and (kind[:3] == "obj" or kind == "empty" or kind[:4] == "list")):
                        continue
                    if kf == "arbitrary" and (form == "plain" or kind not in ("string", "delete", "maybe", "object", "objdel", "list:NXM", "list:XM")):
                        continue
                    if place in ("metadata",) and kind[:4] == "list" and kf == "old":
                        continue
                    for ow in (True, False):
                        n += 1
                        if q and (form == "book" and n % 5 or n % 3 and kind[:4] == "list" or form == "plain" and n % 2):
                            continue
                        if q and zlib.crc32(("%s.%s.%s.%d" % (place, kind, kf, ow)).encode()) % 5 > 1:
                            continue
                        out.append(Unit("edit:%s.%s.%s.%s.%d" % (form, place, kind, kf, ow), "c18.edit",
                                        {"form": form, "place": place, "kind": kind, "kf": kf, "overwrite": ow}))
    pl = ["root", "web", "metadata", "layer", "second", "class", "newlayer", "newdeep"]
    for i, a in enumerate(pl):
        for b in pl:
            for j, ka in enumerate(KINDS[:9]):
                kb = KINDS[:9][(i + 2 * j + len(b)) % 9]
                for ow in (True, False):
                    n += 1
                    if q and n % 4:
                        continue
                    if clash(a, ka, b):
                        continue
                    out.append(Unit("two:%s.%s.%s.%s.%d" % (a, ka, b, kb, ow), "c18.two", {"form": "loaded" if n % 3 else "plain", "a": a, "ka": ka, "b": b, "kb": kb, "overwrite": ow}))
    for ka in ("string", "delete", "maybe", "int", "numbers", "none"):
        for kb in ("string", "delete", "maybe", "int"):
            out.append(Unit("chain:%s.%s" % (ka, kb), "c18.chain", {"form": "loaded", "ka": ka, "kb": kb}))
    for ka in LISTS:
        for kb in LISTS if not q else ("N", "X", "M", "XM", "NMN", "MXM"):
            out.append(Unit("chain:%s.%s" % (ka or "-", kb or "-"), "c18.chain", {"form": "loaded", "ka": "list:" + ka, "kb": "list:" + kb}))
    for f in ("web", "layer", "size", "config", "more"):
        out.append(Unit("loaded:" + f, "c18.loaded", {"form": f}))
    for f in ("loaded", "plain", "book"):
        for ow in (True, False):
            out.append(Unit("laws:%s.%d" % (f, ow), "c18.laws", {"form": f, "overwrite": ow}))
    ks = {"str": [["str"], ["c", "absent", "c"], ["absent", "c"], ["c", "c", "c"], []], "c": [["c", "c"], ["absent", "c", "int"]],
          "int": [["int", "int"], ["zero", "int", "absent"], ["real", "int"], ["c", "int"]], "real": [["real", "int"], ["real", "absent", "real"]],
          "bool": [["bool", "bool"], ["bool", "absent"]], "strs": [["str"], ["c", "c"], ["c", "absent", "c"]], "one": [["str", "absent"], ["c", "c"]],
          "tuple": [["c", "c"]], "ints": [["int", "zero"], ["int", "absent", "int"]], "none": [["c"], ["absent", "int"]]}
    for fn in ("find", "findall"):
        for w in ks:
            if fn == "find" and w in ("strs", "one", "tuple", "ints", "none"):
                continue
            for kk in ks[w]:
                for form in ("loaded", "plain", "text"):
                    if form == "text" and any([x not in ("str", "c", "absent") for x in kk]):
                        continue
                    out.append(Unit("query:%s.%s.%s.%s" % (fn, w, "-".join(kk), form), "c18.query", {"fn": fn, "kinds": kk, "form": form, "want": w}))
    for kk in ([], ["absent"], ["c"], ["a", "a"], ["ab", "a"], ["a", "absent", "a"], ["a", "a", "a"], ["int", "int"], ["int", "absent", "int", "int"],
               ["real", "int"], ["bool", "bool"], ["zero", "int"], ["zero", "absent", "zero"], ["list", "list"], ["list", "absent", "list"]):
        for form in ("loaded", "plain", "text"):
            if form == "text" and any([x not in ("str", "a", "ab", "c", "absent") for x in kk]):
                continue
            out.append(Unit("unique:%s.%s" % ("-".join(kk), form), "c18.unique", {"kinds": kk, "form": form}))
    for form in ("loaded", "plain", "book"):
        for place in PLACES:
            if place.startswith("new"):
                continue
            out.append(Unit("path:%s.%s" % (form, place), "c18.path", {"form": form, "place": place}))
            out.append(Unit("absent:%s.%s" % (form, place), "c18.absent", {"form": form, "place": place}))
    return out


def clash(a, ka, b):
    """the first edit deletes or replaces what the second one speaks about"""
    if a == b:
        return False
    if ka[:3] == "obj" or ka == "empty":
        k = {"root": "web", "web": "metadata"}.get(a, "novel")
        return k in [x for x in PLACES[b] if isinstance(x, str)]
    return False
