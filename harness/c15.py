"""C15: INCLUDE expansion is textual substitution, bounded at five levels."""
from symex.runner import Unit
import vocab
import gen
import docs

BOUNDS = ("9 structured documents with one symbolic leaf cut into include trees of depth 1..5 and fan-out up to 4 at every keyword line (32 trees each "
          "when thorough, 4 when quick); INCLUDE lines in any letter case, with up to 2 symbolic blanks before, between and after, quoted or not, with "
          "symbolic trailing comments, LF or CRLF; file names of up to 2 symbolic characters in 8 relative or absolute forms; files with up to 2 arbitrary "
          "symbolic characters anywhere; roots read through file objects with a name of bytes, a descriptor, another name or none; chains of 0..8 files, cycles of 1..4 files; every block type with the directives kept")


HOWS = ["open", "load", "loads", "relative", "relload"]
# file objects of other kinds: a name of bytes, no name at all, a file descriptor for a name, an object whose name is no path
OBJECTS = ["bytesname", "noname", "fdname", "othername"]


class Reader:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text


def reader(kind, text, path):
    r = Reader(text)
    if kind == "bytesname":
        r.name = path.encode("utf-8")
    elif kind == "fdname":
        r.name = 7
    elif kind == "othername":
        r.name = None
    return r


def flat_equal(ctx, root, text, flat, label, os=({},), hows=HOWS):
    """root: path of the root file (relative to the scratch directory), holding text"""
    import c20
    m = ctx.mappyfile
    o = dict(ctx.pick("o", list(os)))
    p = ctx.path(root)
    ctx.chdir("else")
    # files of the same names in the working directory are not to be used
    want = c20.norm(ctx, lambda: m.loads(flat, expand_includes=False, **o))
    ctx.observe("kind", want[0])
    how = ctx.pick("how", hows)
    d = root[:root.rindex("/")]
    if how == "loads" or how == "relative" or how == "relload" or how in OBJECTS and how != "bytesname":
        ctx.chdir(d)
    if how == "open":
        got = c20.norm(ctx, lambda: m.open(p, **o))
    elif how == "load":
        def f():
            with open(p, "r", encoding="utf-8", newline="") as fp:
                return m.load(fp, **o)
        got = c20.norm(ctx, f)
    elif how == "loads":
        got = c20.norm(ctx, lambda: m.loads(text, **o))
    elif how in OBJECTS:
        got = c20.norm(ctx, lambda: m.load(reader(how, text, p), **o))
    elif how == "relative":
        ctx.mkdir(d + "/zz")
        ctx.chdir(d + "/zz")
        got = c20.norm(ctx, lambda: m.open("../" + root[root.rindex("/") + 1:], **o))
    else:
        def g():
            with open(root[root.rindex("/") + 1:], "r", encoding="utf-8", newline="") as fp:
                return m.load(fp, **o)
        got = c20.norm(ctx, g)
    ctx.check(got[0] == want[0], label + ":outcome")
    if want[0] == "ok":
        ctx.check(ctx.same(got[1], want[1]), label)


class Rnd:
    """a small deterministic generator: the shapes are the same for symbolic runs and replays"""
    def __init__(self, seed):
        self.x = seed * 7919 + 17

    def __call__(self, n):
        self.x = (self.x * 1103515245 + 12345) % 2147483648
        return (self.x >> 8) % n


DIRS = ["", "sub/", "sub/deep/", "./", "../w/", "other/"]
STYLE = ["INCLUDE '%s'", "  include \"%s\" # c", "INCLUDE %s", "\tInclude\t'%s'\t", "INCLUDE\"%s\"", "iNCLUDE  %s  # x 'y", "INCLUDE '%s' #"]


class Tree:
    def __init__(self, ctx, seed, eol, depth):
        self.ctx = ctx
        self.r = Rnd(seed)
        self.eol = eol
        self.n = 0
        self.maxdepth = depth

    def make(self, lines, depth):
        """(text with INCLUDE lines, flat text) of the lines"""
        r = self.r
        out = []
        flat = []
        i = 0
        k = len(lines)
        fan = 0
        while i < k:
            if depth < self.maxdepth and fan < 4 and (r(3) == 0 or (fan == 0 and i >= k // 2)):
                j = min(k, i + 1 + r(max(1, k - i)) if depth else i + 2 + r(max(1, k // 2)))
                fan += 1
                t, f = self.make(lines[i:j], depth + 1)
                end = ["", self.eol][r(2)]
                self.n += 1
                name = DIRS[r(len(DIRS))] + ["f%d.inc", "g_%d.map", "h%d"][r(3)] % self.n
                self.ctx.put_file(norm("w/" + name), t + end)
                st = STYLE[r(len(STYLE))] % name
                out.append(st)
                flat.append(f + end)
                i = j
            else:
                out.append(lines[i])
                flat.append(lines[i])
                i += 1
        return self.eol.join(out), self.eol.join(flat)


def norm(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            out.pop()
        elif x != ".":
            out.append(x)
    return "/".join(out)


def tree(ctx, name, hole, seed, depth):
    inst = docs.make(ctx, name, [hole], strmax=1, strabc="ascii")
    lines = docs.text(inst).split("\n")[:-1]
    # a string with a line break in it is no cut point, nor its text an INCLUDE line
    t = Tree(ctx, seed, ["\n", "\r\n"][seed % 2], depth)
    text, flat = t.make(lines, 0)
    ctx.mkdir("w/sub")
    ctx.put_file("w/root.map", text)
    flat_equal(ctx, "w/root.map", text, flat, "tree", ({}, {"include_position": True}))


NAMES = {
    "plain": ("%s.map", "w/%s.map"),
    "sub": ("sub/%s", "w/sub/%s"),
    "dot": ("./a%s.inc", "w/a%s.inc"),
    "up": ("../%s.x", "%s.x"),
    "deep": ("sub/../sub/d/%s.map", "w/sub/d/%s.map"),
    "abs": (None, "abs/%s.map"),
    "noext": ("%s", "w/%s"),
    "space": ("my file %s.map", "w/my file %s.map"),
}


def line(ctx, form, quote, n):
    """the INCLUDE line itself"""
    rel, at = NAMES[form]
    if quote:
        s = ctx.string("s", (1, n), "any", exclude="/\x00\n\r" + quote)
    else:
        s = ctx.string("s", (1, n), "word")
    ctx.assume(ctx.not_(s == "."))
    ctx.assume(ctx.not_(s == ".."))
    f = at.replace("%s", s)
    name = rel.replace("%s", s) if rel else ctx.path(f)
    inner = "ANGLE 3\nSHAPEPATH 'b'"
    ctx.put_file(f, inner)
    part = ctx.pick("part", ["case", "lead", "mid", "trail", "comment", "crlf", "upper"])
    kw, a, b, c = "INCLUDE", "", " ", ""
    if part == "case":
        kw = gen.case_word(ctx, "kw", "include")
    elif part == "lead":
        a = ctx.string("a", (1, 2), "blank")
    elif part == "mid":
        b = ctx.string("b", (0 if quote else 1, 2), "blank")
    elif part == "trail":
        c = ctx.string("c", (1, 2), "blank")
    elif part == "comment":
        c = ctx.string("c1", (0, 1), "blank") + "#" + ctx.string("c", (0, 2), "any", exclude="\n")
        if not quote:
            c = " " + c
    elif part == "crlf":
        c = "\r"
    text = "MAP\n" + a + kw + b + quote + name + quote + c + "\nNAME 'x'\nEND"
    ctx.put_file("w/root.map", text)
    flat_equal(ctx, "w/root.map", text, "MAP\n" + inner + "\nNAME 'x'\nEND", "line")


# %s arbitrary characters; the text of the included file and of its parent
CONTENT = {
    "any": ("%s", "MAP\nINCLUDE 'x.inc'\nEND"),
    "value": ("NAME 'a%sb'", "MAP\n INCLUDE \"x.inc\"\nANGLE 2 END"),
    "tail": ("NAME 'a' ANGLE 2%s", "MAP\nINCLUDE x.inc\nSHAPEPATH 'b' END"),
    "head": ("%sNAME 'a'", "MAP SHAPEPATH 'b'\nINCLUDE 'x.inc'\nEND"),
    "openquote": ("NAME 'a", "MAP\nINCLUDE 'x.inc'\n%sb'\nEND"),
    "opencomment": ("/* a%s", "MAP\nINCLUDE 'x.inc'\n b*/ NAME 'c'\nEND"),
    "endcomment": ("NAME 'a' # b%s", "MAP\nINCLUDE 'x.inc'\nANGLE 3\nEND"),
    "kwvalue": ("'a%s'", "MAP NAME\nINCLUDE 'x.inc'\nANGLE 3 END"),
    "root": ("LAYER NAME 'a%s' END", "INCLUDE 'x.inc'\nINCLUDE 'x.inc'"),
    "projection": ("'init=%s'", "MAP PROJECTION\nINCLUDE 'x.inc'\nEND END"),
    "metadata": ("'a%s' 'b'\n", "LAYER METADATA\nINCLUDE 'x.inc'\n'c' 'd'\nEND END"),
    "points": ("1 2%s", "FEATURE POINTS\nINCLUDE 'x.inc'\n3 4 END END"),
    "expression": ("([a%s] = 1)", "CLASS EXPRESSION\nINCLUDE 'x.inc'\nNAME 'b' END"),
    "twice": ("LAYER NAME 'a%s' END\n", "MAP\nINCLUDE 'x.inc'\nINCLUDE 'x.inc'\nLAYER END\ninclude x.inc\nEND"),
    "comments": ("# a%s\nNAME 'x' # b", "# top\nMAP # c\n# d\nINCLUDE 'x.inc' # e\n# f\nEND"),
    "commented": ("FOO %s", "MAP\n# INCLUDE 'x.inc'\n  #INCLUDE 'y.inc'\nNAME 'a' # INCLUDE 'x.inc'\nEND"),
    "notone": ("FOO %s", "MAP\nINCLUDED 'x.inc'\nEND"),
    "openinc": ("NAME 'a%s", "MAP\nINCLUDE 'x.inc'\n'\nEND"),
}


def content(ctx, name, n, hows, os):
    inc, text = CONTENT[name]
    s = ctx.string("s", (0, n), "any")
    inc = inc.replace("%s", s)
    text = text.replace("%s", s)
    ctx.put_file("w/x.inc", inc)
    ctx.put_file("else/x.inc", "MAP")
    ctx.put_file("w/root.map", text)
    ls = []
    for x in text.split("\n"):
        z = x.strip().upper() if not ctx.symbolic or isinstance(x, str) else x
        ls.append(inc if z in ("INCLUDE 'X.INC'", "INCLUDE \"X.INC\"", "INCLUDE X.INC", "INCLUDE 'X.INC' # E") else x)
    flat_equal(ctx, "w/root.map", text, "\n".join(ls), "content", os, hows)


def chain(ctx, n, branch):
    """root -> 1 -> ... -> n"""
    s = ctx.string("s", (0, 2), "any", exclude="'\\")
    ctx.assume(ctx.not_("\n" in s))
    flat = "NAME '" + s + "'"
    if n:
        ctx.put_file("w/%s%d.inc" % ("" if n % 2 else "sub/", n), flat)
    for i in range(n - 1, 0, -1):
        body = "INCLUDE '%s%d.inc'" % ("" if (i + 1) % 2 else "sub/", i + 1)
        if branch:
            ctx.put_file("w/b%d.inc" % i, "ANGLE %d" % i)
            body = "SHAPEPATH 'a'\n" + body + "\n  INCLUDE \"b%d.inc\"\nMAXSIZE %d" % (i, i)
            flat = "SHAPEPATH 'a'\n" + flat + "\nANGLE %d\nMAXSIZE %d" % (i, i)
        ctx.put_file("w/%s%d.inc" % ("" if i % 2 else "sub/", i), body)
    text = "MAP\n" + ("INCLUDE '1.inc'" if n else flat) + "\nEND"
    flat = "MAP\n" + flat + "\nEND"
    ctx.put_file("w/root.map", text)
    if n <= 5 and not branch or n <= 4:
        flat_equal(ctx, "w/root.map", text, flat, "chain")
        return
    if n == 5:
        # the branches of the fifth file are not there, as it has none
        flat_equal(ctx, "w/root.map", text, flat, "chain")
        return
    refused(ctx, "w/root.map", text, "chain")


def refused(ctx, root, text, label):
    m = ctx.mappyfile
    how = ctx.pick("how", ["open", "loads", "load"])
    ctx.chdir("w")
    kind = "loaded"
    try:
        if how == "open":
            m.open(ctx.path(root))
        elif how == "loads":
            m.loads(text)
        else:
            m.load(ctx.text_stream(text))
    except RecursionError:
        kind = "recursion"
    except Exception as ex:
        kind = "error"
    ctx.observe("kind", kind)
    ctx.check(kind == "error", label + ":refused")


def cycle(ctx, n, lead):
    """a cycle of n files, entered after lead more"""
    s = ctx.string("s", 1, "any", exclude="'\\\n")
    names = ["l%d.inc" % i for i in range(lead)] + ["c%d.inc" % i for i in range(n)]
    for i, f in enumerate(names):
        nxt = names[i + 1] if i + 1 < len(names) else names[lead]
        ctx.put_file("w/" + f, "# x\nMETADATA 'a' '" + s + "' END\ninclude '" + nxt + "'\nANGLE 3")
    text = "MAP\nINCLUDE '" + names[0] + "'\nEND"
    ctx.put_file("w/root.map", text)
    refused(ctx, "w/root.map", text, "cycle")


def selfcycle(ctx):
    text = "MAP\nNAME '" + ctx.string("s", (0, 1), "any", exclude="'\\\n") + "'\nINCLUDE 'root.map'\nEND"
    ctx.put_file("w/root.map", text)
    refused(ctx, "w/root.map", text, "cycle")


def wide(ctx, levels, fan):
    """many files, few levels: no limit on their number"""
    s = ctx.string("s", (0, 1), "any", exclude="'\\\n")
    cnt = [0]

    def build(depth):
        if depth == levels:
            return "LAYER NAME '" + s + "' END", "LAYER NAME '" + s + "' END"
        t, f = [], []
        for i in range(fan):
            a, b = build(depth + 1)
            cnt[0] += 1
            fn = "n%d.inc" % cnt[0]
            ctx.put_file("w/" + fn, a)
            t.append("INCLUDE '" + fn + "'")
            f.append(b)
        return "\n".join(t), "\n".join(f)
    t, f = build(0)
    text = "MAP\n" + t + "\nEND"
    ctx.put_file("w/root.map", text)
    flat_equal(ctx, "w/root.map", text, "MAP\n" + f + "\nEND", "wide")


def dag(ctx, k, seed):
    """k files, each including some of the later ones: a file may be reached along several paths and on several levels"""
    r = Rnd(seed)
    s = ctx.string("s", (0, 1), "any", exclude="'\\\n")
    flats = {}
    depth = {}
    for i in range(k - 1, -1, -1):
        t, f = [], []
        depth[i] = 0
        for j in range(1 + r(3)):
            n = i + 1 + r(3)
            if n < k and depth[n] < 4 + (i == 0):
                t.append(STYLE[r(len(STYLE))] % ("./" * r(2) + "n%d.inc" % n))
                f.append(flats[n])
                depth[i] = max(depth[i], depth[n] + 1)
            else:
                x = "LAYER NAME '" + s + "' STATUS %s END" % ("ON", "OFF")[r(2)]
                t.append(x)
                f.append(x)
        text = "\n".join(t)
        flats[i] = "\n".join(f)
        if i:
            ctx.put_file("w/n%d.inc" % i, text)
    text = "MAP\n" + text + "\nEND"
    ctx.put_file("w/root.map", text)
    flat_equal(ctx, "w/root.map", text, "MAP\n" + flats[0] + "\nEND", "dag", ({}, {"include_position": True}))


def missing(ctx, depth, kind):
    s = ctx.string("s", (1, 2), "any", exclude="'\x00\n\r/\\")
    ctx.assume(ctx.not_(s == "."))
    ctx.assume(ctx.not_(s == ".."))
    name = {"file": "none" + s + ".inc", "dir": "nodir/" + s, "abs": None, "isdir": "sub", "empty": ""}[kind]
    if name is None:
        name = ctx.path("gone") + "/" + s
    ctx.mkdir("w/sub")
    body = "INCLUDE '" + name + "'"
    for i in range(depth):
        ctx.put_file("w/m%d.inc" % i, body)
        body = "INCLUDE 'm%d.inc'" % i
    text = "MAP\n" + body + "\nEND"
    ctx.put_file("w/root.map", text)
    # in the other directory it would be found
    ctx.put_file("else/none" + s + ".inc", "NAME 'a'")
    ctx.chdir("else")
    m = ctx.mappyfile
    how = ctx.pick("how", ["open", "load", "loads"])
    res = "loaded"
    try:
        if how == "open":
            m.open(ctx.path("w/root.map"))
        elif how == "load":
            with open(ctx.path("w/root.map"), "r", encoding="utf-8") as fp:
                m.load(fp)
        else:
            ctx.chdir("w")
            m.loads(text)
    except OSError:
        res = "oserror"
    except Exception as ex:
        res = type(ex).__name__
    ctx.observe("res", res)
    ctx.check(res == "oserror", "missing")


def simple(t):
    return docs.simple_kw(t)


def keep(ctx, t, pos, n, hi):
    """expand_includes=False"""
    m = ctx.mappyfile
    names = []
    ls = []
    for i in range(n):
        q = ctx.pick("q%d" % i, ["'", '"', ""]) if i else ctx.pick("q0", ["'", '"'])
        if q:
            s = ctx.string("s%d" % i, (1, hi), "any", exclude="\"'\\\n") if i == 0 else "y.map"
        else:
            s = "dir/x" + ctx.string("s%d" % i, 1, "word") + ".map"
        names.append(s)
        ls.append("INCLUDE " + q + s + q + ctx.pick("c%d" % i, ["", " # c"]))
    k, kind = simple(t)
    kt, kv = docs.const(t, k, kind)
    kw = k.upper() + " " + kt
    body = {"only": ls, "first": ls + [kw], "last": [kw] + ls, "around": ls[:1] + [kw] + ls[1:]}[pos]
    if t == "symbol" and pos in ("only", "first", "around"):
        body = ["TYPE ELLIPSE"] + body
    text = t.upper() + "\n" + "\n".join(body) + "\nEND"
    par = ctx.bool("map") and t == "layer"
    if par:
        text = "MAP\n" + text + "\nEND"
    how = ctx.pick("how", ["loads", "open"])
    if how == "loads":
        d = m.loads(text, expand_includes=False)
    else:
        ctx.put_file("w/root.map", text)
        d = m.open(ctx.path("w/root.map"), expand_includes=False)
    x = d["layers"][0] if par else d
    ctx.observe("inc", x["include"])
    ctx.check(ctx.same(list(x["include"]), names), "keep:data")
    out = m.dumps(d, indent=0)
    got = [z for z in out.split("\n") if z.startswith("INCLUDE")]
    ctx.check(len(got) == n, "keep:number of lines written")
    for z, s in zip(got, names):
        ctx.check(z == 'INCLUDE "' + s + '"', "keep:line written")
    d2 = m.loads(out, expand_includes=False)
    ctx.check(ctx.same(d2, d), "keep:read back")


def keep_then_expand(ctx, t):
    """formatting without expansion, then loading: the same as loading"""
    m = ctx.mappyfile
    s = ctx.string("s", (0, 2), "any", exclude="\"'\\\n")
    ctx.put_file("w/x" + s.replace("/", "-").replace("\x00", "-") + ".inc" if False else "w/x.inc", "LAYER TYPE point NAME '" + s + "' END")
    ctx.put_file("w/y.inc", "LAYER TYPE line END")
    text = "MAP\nNAME 'a'\nINCLUDE 'x.inc'\nINCLUDE \"y.inc\" # c\nWEB\nIMAGEPATH 'b'\nEND\nEND"
    ctx.put_file("w/root.map", text)
    o = dict(ctx.pick("o", [{}, {"indent": 0}, {"quote": "'"}, {"newlinechar": "\r\n"}, {"align_values": True}, {"end_comment": True},
                            {"separate_complex_types": True}]))
    d = m.open(ctx.path("w/root.map"), expand_includes=False)
    m.save(d, ctx.path("w/out.map"), **o)
    ctx.check(ctx.same(m.open(ctx.path("w/out.map")), m.open(ctx.path("w/root.map"))), "kept, written and expanded")


FINDINGS = {
    "metadata": "LAYER METADATA\nINCLUDE 'a%s'\nINCLUDE 'b'\nEND END",
    "projection": "LAYER PROJECTION\nINCLUDE 'a%s'\nEND END",
    "points": "FEATURE POINTS\nINCLUDE 'a%s'\nEND END",
    "root": "INCLUDE 'a%s'",
    "unquoted": "MAP\nINCLUDE /a/b%s.map\nEND",
}


def finding(ctx, kind):
    """directives which cannot be kept"""
    m = ctx.mappyfile
    s = ctx.string("s", (0, 1), "lower")
    try:
        d = m.loads(FINDINGS[kind].replace("%s", s), expand_includes=False)
    except ctx.lark_errors():
        ctx.fail("finding:rejected")
        return
    t = m.dumps(d)
    ctx.observe("t", t)
    ctx.check(len([x for x in t.split("\n") if x.strip().startswith("INCLUDE ")]) == FINDINGS[kind].count("INCLUDE"), "finding:written")


def units(tier):
    out = []
    thorough = tier == "thorough"
    i = 0
    for n, spec in docs.SCENARIOS.items():
        nh = docs.nholes(spec)
        for k in range(32 if thorough else 4):
            i += 1
            out.append(Unit("tree:%s.%d" % (n, k), "c15.tree", {"name": n, "hole": (k * 5 + 1) % nh, "seed": i * 37 + k, "depth": 1 + (i + k) % 5}))
    for f in NAMES:
        for q in ("'", '"', ""):
            if q == "" and f == "space":
                continue
            out.append(Unit("line:%s.%s" % (f, {"'": "s", '"': "d", "": "u"}[q]), "c15.line", {"form": f, "quote": q, "n": 2}))
    for n in CONTENT:
        os = [{}, {"include_position": True}, {"include_comments": True}] if n in ("comments", "twice", "value") else [{}]
        small = n in ("any", "openquote", "opencomment", "endcomment", "root", "commented", "notone", "openinc", "comments")
        for h in (HOWS if thorough else ["open", "load"]):
            i += 1
            out.append(Unit("content:%s.%s" % (n, h), "c15.content", {"name": n, "n": 2 if thorough or small and h == "open" else 1,
                                                                      "hows": [h] if thorough else [h, HOWS[i % 5]][:1 + (h == "load")],
                                                                      "os": os if thorough or h == "load" else [{}]}))
    for n in ("root", "any", "comments", "twice"):
        for h in OBJECTS:
            out.append(Unit("object:%s.%s" % (n, h), "c15.content", {"name": n, "n": 1, "hows": [h], "os": [{}]}))
    for n in range(9):
        for b in (False, True):
            if n or not b:
                out.append(Unit("chain:%d.%d" % (n, b), "c15.chain", {"n": n, "branch": b}))
    for n in (1, 2, 3, 4):
        for lead in (0, 1, 3):
            out.append(Unit("cycle:%d.%d" % (n, lead), "c15.cycle", {"n": n, "lead": lead}))
    out.append(Unit("cycle:self", "c15.selfcycle", {}))
    for l, f in ((1, 4), (2, 3), (2, 4), (3, 2), (4, 2), (5, 1)) + (((3, 4), (5, 2)) if thorough else ()):
        out.append(Unit("wide:%d.%d" % (l, f), "c15.wide", {"levels": l, "fan": f}))
    for k in range(40 if thorough else 10):
        out.append(Unit("dag:%d" % k, "c15.dag", {"k": 3 + k % 5, "seed": k * 101 + 7}))
    for d in (0, 1, 2, 4):
        for k in ("file", "dir", "abs", "isdir"):
            out.append(Unit("missing:%d.%s" % (d, k), "c15.missing", {"depth": d, "kind": k}))
    for t in vocab.BLOCKS:
        if t in vocab.KVBLOCKS or t == "metadata" or t == "validation":
            continue
        for p, n in (("only", 1), ("first", 2), ("last", 1), ("around", 2)):
            i += 1
            if thorough or i % 2 or t in ("map", "layer"):
                out.append(Unit("keep:%s.%s" % (t, p), "c15.keep", {"t": t, "pos": p, "n": n, "hi": 2 if thorough or t == "map" and n == 1 else 1}))
    out.append(Unit("keep:expand", "c15.keep_then_expand", {"t": "map"}))
    for k in FINDINGS:
        out.append(Unit("finding:" + k, "c15.finding", {"kind": k}))
    return out
