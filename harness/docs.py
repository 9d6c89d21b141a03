"""Structured documents: one specification gives the Mapfile text, the documented dictionary (an
independent statement of the text-to-dict contract) and the expected layout.

A specification is a tree of items.  Every leaf value is a numbered hole; exactly the holes listed in
`holes` are symbolic, the rest take a fixed sample, so each unit varies a few leaves of a full document."""
import vocab
import gen


class N:
    """a block"""
    def __init__(self, t, *items):
        self.t = t
        self.items = items


class A:
    """a simple keyword"""
    def __init__(self, k, kind, const=None):
        self.k = k
        self.kind = kind
        self.const = const


class R(A):
    """one occurrence of a repeatable keyword (PROCESSING ...)"""


class KV:
    """METADATA / VALIDATION / VALUES / CONNECTIONOPTIONS with n lines"""
    def __init__(self, name, n=2):
        self.name = name
        self.n = n


class CFG:
    def __init__(self, key="ab"):
        self.key = key


class PROJ:
    def __init__(self, n=2, auto=False):
        self.n = n
        self.auto = auto


class PAIRS:
    """POINTS / PATTERN"""
    def __init__(self, k, n=2):
        self.k = k
        self.n = n


CONST = {"int": ("12", 12), "float": ("1.5", 1.5), "bool": ("TRUE", True), "string": ('"a b"', "a b"),
         "char": ('"c"', "c"), "bare": ("abc", "abc"), "binding": ("[ab]", "[ab]"), "regex": ("/ab/", "/ab/"),
         "iregex": ("/ab/i", "/ab/i"), "expr": ("([a] = 1)", "( [a] = 1 )"), "list": ("{a,b}", "{a,b}"),
         "hex": ('"#aabbcc"', "#aabbcc"), "charref": ('"&#123;"', "&#123;")}


def const(t, k, kind):
    if kind in CONST:
        return CONST[kind]
    if kind == "enum":
        v = vocab.enum_values(t, k)[0]
        return (str(v).upper(), v.upper()) if isinstance(v, str) else (str(v), v)
    if kind.startswith("array:"):
        ps = kind[6:].split(",")
        cs = [const(t, k, "hex" if p == "string" else p) for p in ps]
        cs = [(str(i + 1), i + 1) if p == "int" else c for i, (p, c) in enumerate(zip(ps, cs))]
        return " ".join(c[0] for c in cs), [c[1] for c in cs]
    if kind.startswith("strword:"):
        return '"' + kind[8:] + '"', kind[8:]
    raise ValueError(kind)


class Inst:
    """an instantiated item: kind, texts and values"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Maker:
    def __init__(self, ctx, holes, strmax=2, strabc="any"):
        self.ctx = ctx
        self.holes = holes
        self.i = 0
        self.strmax = strmax
        self.strabc = strabc

    def hole(self):
        h = self.i
        self.i += 1
        return h in self.holes, "h%d" % h

    def value(self, t, k, kind):
        on, nm = self.hole()
        if on:
            if kind == "string" and (self.strmax != 2 or self.strabc != "any"):
                s, v = gen.quoted(self.ctx, nm, 0, self.strmax, self.strabc)
                if gen.free(self.ctx, t, k):
                    self.ctx.assume(self.ctx.not_(gen.lookalike(self.ctx, v)))
                return s, v
            return gen.value(self.ctx, t, k, kind, nm)
        return const(t, k, kind)

    def text(self, sample, lo=0, hi=None, alphabet=None):
        """a quoted string leaf"""
        on, nm = self.hole()
        if on:
            return gen.quoted(self.ctx, nm, lo, self.strmax if hi is None else hi, alphabet or self.strabc)
        return '"' + sample + '"', sample

    def make(self, spec):
        if isinstance(spec, N):
            return Inst("block", t=spec.t, items=[self.make1(spec.t, x) for x in spec.items])
        return self.make1(None, spec)

    def make1(self, t, x):
        ctx = self.ctx
        if isinstance(x, N):
            return self.make(x)
        if isinstance(x, A):
            if x.const is not None:
                s, v = x.const
            else:
                s, v = self.value(t, x.k, x.kind)
            return Inst("rep" if isinstance(x, R) else "attr", k=x.k, text=s, value=v)
        if isinstance(x, KV):
            rows = []
            for j in range(x.n):
                # distinct first characters keep the keys distinct and off the hidden-key form
                kt, kk = self.text("k%d" % j, 0, 1, "word")
                lead = "pqrst"[j]
                vt, vv = self.text("v%d" % j)
                q = kt[0:1]
                rows.append((q + lead + kt[1:], lead + kk, vt, vv))
            return Inst("kv", name=x.name, rows=rows)
        if isinstance(x, CFG):
            vt, vv = self.text("cv")
            return Inst("cfg", kt='"' + x.key + '"', key=x.key.lower(), text=vt, value=vv)
        if isinstance(x, PROJ):
            if x.auto:
                return Inst("proj", texts=["AUTO"], values=["AUTO"])
            tv = [self.text("p%d" % j, 0) for j in range(x.n)]
            if x.n == 1 and self.holes:
                ctx.assume(ctx.not_(tv[0][1].upper() == "AUTO"))
            return Inst("proj", texts=[a for a, _ in tv], values=[b for _, b in tv])
        if isinstance(x, PAIRS):
            rows = []
            for j in range(x.n):
                on, nm = self.hole()
                if on:
                    a = gen.int_text(ctx, nm + "a", 2, ("", "-"))
                    b = gen.float_text(ctx, nm + "b", ("",))
                    rows.append((a, int(a), b, float(b)))
                else:
                    rows.append((str(j), j, str(j + 0.5), j + 0.5))
            return Inst("pairs", k=x.k, rows=rows)
        raise ValueError(x)


def nholes(spec):
    class C:
        symbolic = False

        def assume(self, c):
            pass

        def not_(self, c):
            return not c
    m = Maker(C(), frozenset())
    m.make(spec)
    return m.i


# ---------------------------------------------------------------- text

def toks(inst):
    """lines of (keyword, [values]) in source order; keywords upper case"""
    out = []
    if inst.kind == "block":
        out.append((inst.t.upper(), [], "open"))
        for x in inst.items:
            out += toks(x)
        out.append(("END", [], "end"))
    elif inst.kind in ("attr", "rep"):
        out.append((inst.k.upper(), [inst.text], "attr"))
    elif inst.kind == "kv":
        out.append((inst.name.upper(), [], "open"))
        for kt, _, vt, _ in inst.rows:
            out.append((kt, [vt], "pair"))
        out.append(("END", [], "end"))
    elif inst.kind == "cfg":
        out.append(("CONFIG", [inst.kt, inst.text], "attr"))
    elif inst.kind == "proj":
        out.append(("PROJECTION", [], "open"))
        for s in inst.texts:
            out.append((s, [], "item"))
        out.append(("END", [], "end"))
    elif inst.kind == "pairs":
        out.append((inst.k.upper(), [], "open"))
        for a, _, b, _ in inst.rows:
            out.append((a, [b], "item"))
        out.append(("END", [], "end"))
    return out


def text(inst):
    out = ""
    for kw, vals, _ in toks(inst):
        out = out + " ".join([kw] + vals) + "\n"
    return out


# ---------------------------------------------------------------- documented dictionary

SINGLE = ("grid", "legend", "leader", "web", "querymap", "reference", "scalebar", "cluster", "composite", "join")


def singleton(parent, t):
    """stored as a nested dict (True) or collected under the plural key - from the parent's schema"""
    props = vocab.schema(parent).get("properties", {})
    if vocab.plural(t) in props:
        return False
    if t in props and vocab.block_child(parent, t) == t and t != "symbol":
        return True
    return None


def kvdict(inst):
    d = {}
    for _, k, _, v in inst.rows:
        d[k.lower()] = v
    d["__type__"] = inst.name
    return d


def expect(inst):
    if inst.kind == "kv":
        return kvdict(inst)
    d = {"__type__": inst.t}
    for x in inst.items:
        if x.kind == "block":
            s = singleton(inst.t, x.t)
            if s:
                d[x.t] = expect(x)
            else:
                d.setdefault(vocab.plural(x.t), []).append(expect(x))
        elif x.kind == "attr":
            d[x.k] = x.value
        elif x.kind == "rep":
            d.setdefault(x.k, []).append(x.value)
        elif x.kind == "kv":
            d[x.name] = kvdict(x)
        elif x.kind == "cfg":
            d.setdefault("config", {})[x.key] = x.value
        elif x.kind == "proj":
            d["projection"] = x.values
        elif x.kind == "pairs":
            v = [(a, b) for _, a, _, b in x.rows]
            if x.k == "points" and "points" in d:
                if x.k + "#" in d:
                    d["points"].append(v)
                else:
                    d["points"] = [d["points"], v]
                    d["points#"] = 1
            else:
                d[x.k] = v
    d.pop("points#", None)
    return d


# ---------------------------------------------------------------- scenarios

SCENARIOS = {
    "map": N("map", A("name", "string"), A("extent", "array:int,float,int,float"), CFG("Ab"), A("size", "array:int,int"),
             CFG("cD"), A("units", "enum"), PROJ(2), A("imagecolor", "array:int,int,int"), A("shapepath", "string"),
             N("web", A("imagepath", "string"), KV("metadata"), KV("validation", 1)),
             N("legend", A("status", "enum"), N("label", A("size", "int"), A("color", "hex"))),
             N("layer", A("name", "bare")), A("angle", "float"), N("layer", A("name", "string"), A("type", "enum"))),
    "layer": N("layer", A("name", "string"), A("type", "enum"), R("processing", "string"), A("status", "enum"),
               R("processing", "string"), A("data", "string"), KV("metadata"), A("filter", "expr"),
               N("class", A("name", "string"), A("expression", "regex"), N("style", A("color", "array:int,int,int"))),
               A("minscaledenom", "float"), KV("connectionoptions"),
               N("class", A("expression", "list"), A("text", "string"), N("style", A("size", "binding")),
                 N("style", A("outlinecolor", "hex"), A("opacity", "int")), N("label", A("angle", "binding"))),
               PROJ(1), KV("validation", 1), N("scaletoken", A("name", "string"), KV("values")),
               N("scaletoken", A("name", "string"), KV("values", 1)),
               N("composite", R("compfilter", "string"), A("opacity", "int")), N("composite", A("compop", "enum")),
               A("template", "string")),
    "class": N("class", A("name", "string"), A("group", "bare"), N("style", A("width", "float"), A("color", "binding"),
                                                                   PAIRS("pattern", 2), A("gap", "int")),
               N("label", A("text", "expr"), A("type", "enum"), A("offset", "array:int,int"),
                 N("style", A("geomtransform", "expr"), A("color", "array:int,int,int"))),
               N("leader", A("gridstep", "int"), N("style", A("width", "int"))), A("expression", "iregex"),
               N("label", A("wrap", "char"), A("force", "bool")), A("keyimage", "string")),
    "feature": N("feature", PAIRS("points", 2), A("text", "string"), PAIRS("points", 1), A("items", "string"),
                 PAIRS("points", 1)),
    "symbol": N("symbol", A("name", "string"), A("type", "enum"), PAIRS("points", 2), A("filled", "bool"),
                A("anchorpoint", "array:float,float")),
    "outputformat": N("outputformat", A("name", "string"), R("formatoption", "string"), A("driver", "string"),
                      R("formatoption", "string"), A("imagemode", "enum"), A("transparent", "enum"),
                      R("formatoption", "string")),
    "grid": N("layer", N("grid", A("labelformat", "string"), A("minarcs", "int")),
              N("cluster", A("maxdistance", "int"), A("region", "string"), A("group", "expr")),
              N("feature", PAIRS("points", 1)), N("join", A("name", "string"), A("table", "string")),
              N("feature", A("wkt", "string"))),
    "map2": N("map", N("symbol", A("name", "string"), PAIRS("points", 2)), N("symbol", A("type", "enum")),
              N("reference", A("image", "string"), A("extent", "array:int,int,int,int")),
              N("scalebar", A("intervals", "int"), N("label", A("size", "int"))),
              N("querymap", A("status", "enum"), A("size", "array:int,int")),
              N("outputformat", A("name", "string"), R("formatoption", "string")), PROJ(auto=True),
              N("outputformat", A("mimetype", "string")), N("layer", A("connection", "string"))),
    "style": N("style", A("symbol", "string"), A("colorrange", "array:string,string"), A("datarange", "array:float,float"),
               A("angle", "binding"), A("offset", "array:binding,binding"), A("antialias", "bool"), A("rangeitem", "string")),
}


def make(ctx, name, holes, **kw):
    m = Maker(ctx, frozenset(holes), **kw)
    return m.make(SCENARIOS[name])


def simple_kw(t, nth=0):
    """an ordinary keyword of block t"""
    c = [(k, kind) for (a, k, i, kind) in vocab.slots()
         if a == t and kind in ("string", "int", "enum") and k not in ("include",)]
    c.sort(key=lambda x: ("string", "int", "enum").index(x[1]))
    return c[min(nth, len(c) - 1)]


def nest_spec(p, c):
    """block c inside block p, between two simple keywords, twice when the schema collects it"""
    k1, d1 = simple_kw(p)
    k2, d2 = simple_kw(p, 1)
    kc, dc = simple_kw(c)
    items = [A(k1, d1), N(c, A(kc, dc))]
    if not singleton(p, c):
        items.append(N(c, A(kc, dc)))
    if k2 != k1:
        items.append(A(k2, d2))
    return N(p, *items)


def nestings():
    out = []
    for p in vocab.BLOCKS:
        for k, c in vocab.child_blocks(p):
            if k != "symbol":
                out.append((p, c))
    return out


def strip(x):
    """the dictionary without hidden keys other than __type__, __type__ first"""
    if isinstance(x, dict):
        d = {}
        if "__type__" in x:
            d["__type__"] = x["__type__"]
        for k in x:
            if not (k.startswith("__") and k.endswith("__")):
                d[k] = strip(x[k])
        return d
    if isinstance(x, list):
        return [strip(v) for v in x]
    if isinstance(x, tuple):
        return tuple([strip(v) for v in x])
    return x
