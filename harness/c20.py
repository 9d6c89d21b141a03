"""C20: files, streams and the command line agree with the string API."""
from symex.runner import Unit
import vocab
import gen
import docs
import opts
import schemacheck as S

BOUNDS = ("loaders: 9 structured documents with one symbolic leaf each and 16 texts with up to 3 arbitrary symbolic characters (values, keys, "
          "comments, separators), CR/LF/CRLF, includes, all 8 loader option combinations; writers: the same documents, 12 option sets, every option "
          "combination on one; string values of up to 3 characters of the whole Unicode range without surrogates through save and open in 14 keywords; "
          "format: 10 option sets with escapes; validate: 1 to 3 files out of 9 kinds, up to 300 messages, 4 versions, globs, with and without "
          "includes; schema: every version")
ASSUMPTIONS = ["command line runs call the click commands in the process (click's own argument parsing runs as it is); the exit "
               "status is the status the process would report (modulo 256)"]
FRESH_SCHEMAS = ("schema_cmd", "validate_version")

LOADOPTS = [{}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True},
            {"expand_includes": False}, {"expand_includes": False, "include_comments": True}]


def norm(ctx, f):
    """('ok', result) or ('error', type name)"""
    try:
        return ("ok", f())
    except ctx.lark_errors():
        return ("parse error", None)
    except (ValueError, IOError) as ex:
        return (type(ex).__name__, None)


def agree(ctx, text, o, label="loaders"):
    """open(path), load of a file and of a stream, loads"""
    m = ctx.mappyfile
    ctx.put_file("w/a.map", text)
    ctx.chdir("w")
    p = ctx.path("w/a.map")
    want = norm(ctx, lambda: m.loads(text, **o))
    ctx.observe("kind", want[0])

    def byfile():
        with open(p, "r", encoding="utf-8", newline="") as f:
            return m.load(f, **o)
    for how, f in (("open", lambda: m.open(p, **o)), ("open relative", lambda: m.open("a.map", **o)),
                   ("load file", byfile), ("load stream", lambda: m.load(ctx.text_stream(text), **o))):
        got = norm(ctx, f)
        ctx.check(got[0] == want[0], label + ":" + how)
        if want[0] == "ok":
            ctx.check(ctx.same(got[1], want[1]), label + ":" + how)
    return want


def doc(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=2)
    o = dict(ctx.pick("o", os))
    agree(ctx, docs.text(inst), o)


# %s: up to n arbitrary characters
TEXTS = {
    "value": ("MAP NAME '%s' END\n", 3, "'\\"),
    "dvalue": ('LAYER NAME "%s" DATA "x" END', 3, '"\\'),
    "key": ("METADATA '%s' 'v' END", 2, "'\\"),
    "mvalue": ("LAYER METADATA\r\n 'a' '%s'\r\n END END", 2, "'\\"),
    "comment": ("MAP # c%s\nNAME 'a' # d\nEND # e", 2, "\n"),
    "ccomment": ("MAP /* c%s */ NAME 'a'\n/* d\r\n e */ END", 2, "*/"),
    "sep": ("MAP NAME%s'a' ANGLE 1\r\nEND", 2, ""),
    "lead": ("%sMAP NAME 'a' END", 1, ""),
    "trail": ("MAP NAME 'a' END%s", 2, ""),
    "bare": ("MAP NAME a%sb END", 1, ""),
    "expr": ("CLASS EXPRESSION ('[a]' = '%s') END", 2, "'\\"),
    "regex": ("CLASS EXPRESSION /a%s/ END", 2, "/\\"),
    "list": ("CLASS EXPRESSION {a%s,b} END", 1, ""),
    "any": ("%s", 2, ""),
    "cr": ("MAP\rNAME 'a%sb'\r\nDATA\n\r'c'\rEND\r", 2, "'\\"),
    "config": ("MAP CONFIG 'a%s' 'b' END", 2, "'\\"),
}


def form(ctx, name, os, n):
    w, hi, ex = TEXTS[name]
    n = min(n, hi)
    s = ctx.string("s", (0, n), "any", exclude=ex)
    i = w.index("%s")
    o = dict(ctx.pick("o", os))
    agree(ctx, w[:i] + s + w[i + 2:], o, "text")


def includes(ctx, kind):
    """the same text with INCLUDE lines, seen from the directory of the Mapfile"""
    s = ctx.string("s", (0, 2), "any", exclude="'\\\n")
    o = dict(ctx.pick("o", LOADOPTS))
    ctx.put_file("w/x.inc", "NAME '" + s + "'" + ctx.pick("end", ["", "\n", "\r\n"]))
    ctx.put_file("w/sub/y.inc", "ANGLE 1 INCLUDED 'a'\nINCLUDE 'x.inc'")
    text = {"one": "MAP\nINCLUDE 'x.inc'\nEND", "crlf": "MAP\r\n  INCLUDE x.inc\r\nANGLE 3 END\r\n",
            "sub": "MAP\nINCLUDE \"sub/y.inc\" # c\nEND\n", "missing": "MAP\nINCLUDE 'none.inc'\nEND",
            "twice": "MAP\nINCLUDE 'x.inc'\ninclude \"x.inc\"\nEND"}[kind]
    agree(ctx, text, o, "includes")


def bom(ctx):
    """a byte order mark is a character like any other: the same for the three of them"""
    agree(ctx, "\ufeffMAP NAME '" + ctx.string("s", (0, 1), "any", exclude="'\\") + "' END", {}, "bom")


def lit(t, i=0):
    def f():
        return t
    return f


def write3(ctx, d, o, label="writers"):
    m = ctx.mappyfile
    want = m.dumps(d, **o)
    ctx.observe("t", want)
    st = ctx.text_stream("")
    m.dump(d, st, **o)
    ctx.check(st.getvalue() == want, label + ":dump to a stream")
    ctx.put_file("w/o.map", "x" * 3)
    p = ctx.path("w/o.map")
    ctx.check(m.save(d, p, **o) == p, label + ":save returns its path")
    ctx.check(ctx.get_file("w/o.map") == want, label + ":save")
    p2 = ctx.path("w/p.map")
    with open(p2, "w", encoding="utf-8", newline="") as f:
        m.dump(d, f, **o)
    ctx.check(ctx.get_file("w/p.map") == want, label + ":dump to a file")
    return want


def wdoc(ctx, name, holes, os):
    inst = docs.make(ctx, name, holes, strmax=2)
    o = dict(ctx.pick("o", os))
    write3(ctx, docs.expect(inst), o)


def wcombos(ctx, name):
    inst = docs.make(ctx, name, [], strmax=1)
    write3(ctx, docs.expect(inst), opts.full(ctx))


def wlist(ctx):
    """several root objects"""
    s = ctx.string("s", (0, 2), "any", exclude="'\\\"")
    d = [{"__type__": "class", "name": s}, {"__type__": "layer", "name": "b"}]
    write3(ctx, d, dict(ctx.pick("o", opts.SETS)))


def wlong(ctx):
    """saving over a longer file"""
    m = ctx.mappyfile
    p = ctx.put_file("a.map", "MAP " * ctx.pick("n", [1, 5, 40]))
    d = {"__type__": "map", "name": ctx.string("s", (0, 2), "any", exclude="\"\\")}
    t = m.dumps(d)
    m.save(d, p)
    ctx.check(ctx.get_file("a.map") == t, "saved over a longer file")
    m.save(d, p, indent=0)
    ctx.check(ctx.get_file("a.map") == m.dumps(d, indent=0), "saved twice")


CYCLE = {
    "name": lambda v: {"__type__": "map", "name": v},
    "layername": lambda v: {"__type__": "layer", "data": "a", "name": v},
    "nested": lambda v: {"__type__": "map", "layers": [{"__type__": "layer", "classes": [{"__type__": "class", "title": v}]}]},
    "shapepath": lambda v: {"__type__": "map", "shapepath": v, "fontset": "b"},
    "config": lambda v: {"__type__": "map", "config": {"a": v}},
    "metadata": lambda v: {"__type__": "layer", "metadata": {"__type__": "metadata", "a": v, "b": "c"}},
    "rootmeta": lambda v: {"__type__": "metadata", "a": v},
    "validation": lambda v: {"__type__": "layer", "validation": {"__type__": "validation", "x": v}},
    "connopt": lambda v: {"__type__": "layer", "connectionoptions": {"__type__": "connectionoptions", "x": v}},
    "values": lambda v: {"__type__": "scaletoken", "values": {"__type__": "values", "0": v}},
    "projection": lambda v: {"__type__": "map", "projection": [v, "b"]},
    "processing": lambda v: {"__type__": "layer", "processing": ["a", v, "b"]},
    "formatoption": lambda v: {"__type__": "outputformat", "name": "a", "formatoption": [v]},
    "connection": lambda v: {"__type__": "layer", "connection": v},
}


def dig(d, path):
    for k in path:
        d = d[k]
    return d


def cycle(ctx, kind, n, plane):
    """any Unicode string value survives save and open, character for character"""
    m = ctx.mappyfile
    s = ctx.string("s", (0, n), "any", exclude="\"'\\")
    if plane:
        # at least one character off the basic plane, and a line break or a lone carriage return beside it
        s = s + ctx.pick("ch", ["\U0001f600", "\U00010000", "\U0010ffff", "\u2028", "\x85", "\ufeff", "\r", "\n", "\r\n", "\x00", "\xe9", "e\u0301"]) + ctx.string("z", (0, 1), "any", exclude="\"'\\")
    ctx.assume(ctx.not_(gen.lookalike(ctx, s)))
    if kind == "projection":
        ctx.assume(ctx.not_(s.strip().upper() == "AUTO"))
    d = CYCLE[kind](s)
    p = ctx.path("a.map")
    m.save(d, p)
    try:
        d2 = m.open(p)
    except ctx.lark_errors():
        ctx.fail("cycle:own output rejected")
        return
    ctx.observe("d", d2)
    ctx.check(ctx.same(docs.strip(d2), docs.strip(d)), "cycle")


def decode(s):
    """the escapes of the command line's options"""
    return s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\'", "'").replace('\\"', '"')


FORMAT = [
    [],
    ["--indent", "2"],
    ["--indent=1", "--spacer", "\\t"],
    ["--indent=1", "--spacer", "\t", "--quote", "'"],
    ["--quote=\\'"],
    ["--newlinechar", "\\r\\n"],
    ["--newlinechar", "\n\n", "--indent", "0"],
    ["--no-expand"],
    ["--comments"],
    ["--no-comments", "--expand", "--indent", "7"],
    ["--no-expand", "--comments", "--quote", "\\\"", "--newlinechar", "\\n", "--spacer", "  "],
]


def fargs(args):
    """the options of save and of open the arguments stand for"""
    so, oo = {}, {}
    i = 0
    while i < len(args):
        a = args[i]
        i += 1
        if a in ("--no-expand", "--expand"):
            oo["expand_includes"] = a == "--expand"
            continue
        if a in ("--comments", "--no-comments"):
            oo["include_comments"] = a == "--comments"
            continue
        if "=" in a:
            k, v = a.split("=", 1)
        else:
            k, v = a, args[i]
            i += 1
        k = k[2:]
        so[k] = int(v) if k == "indent" else decode(v)
    return so, oo


SRC = {
    "value": ("MAP # top\n NAME '%s' # c\n INCLUDE 'x.inc'\nLAYER NAME 'b' TYPE point METADATA 'a' 'b' END END\nEND\n", "'\"\\"),
    "comment": ("# c%s\nMAP\n # d\n NAME 'x' # e\n INCLUDE 'x.inc'\nEND\n", "\n"),
    "broken": ("MAP NAME '%s' END END", "'\"\\"),
    "list": ("CLASS NAME '%s' END\nCLASS NAME 'b' END\n", "'\"\\"),
}


def fmt(ctx, src, args):
    """mappyfile format IN OUT"""
    m = ctx.mappyfile
    w, ex = SRC[src]
    args = list(args)
    s = ctx.string("s", (0, 2), "any", exclude=ex)
    ctx.put_file("x.inc", "ANGLE 3 # inc")
    p = ctx.put_file("in.map", w.replace("%s", s))
    q = ctx.path("out.map")
    had = ctx.bool("had")
    if had:
        ctx.put_file("out.map", "old" * 200)
    so, oo = fargs(args)
    want = norm(ctx, lambda: m.save(m.open(p, **oo), ctx.path("want.map"), **so))
    pos = ctx.pick("pos", [0, 2])
    code, lines = ctx.cli(ctx.mod("cli").main, ["format"] + ([p, q] + args if pos == 0 else args + [p, q]))
    ctx.observe("code", code)
    ctx.check((code == 0) == (want[0] == "ok"), "format:exit status")
    if want[0] == "ok":
        ctx.check(ctx.get_file("out.map") == ctx.get_file("want.map"), "format:content")
    ctx.check(ctx.get_file("in.map") == w.replace("%s", s), "format:input unchanged")


def fmt_self(ctx):
    """formatting a file in place"""
    m = ctx.mappyfile
    p = ctx.put_file("in.map", "MAP NAME '" + ctx.string("s", (0, 2), "any", exclude="'\"\\") + "' END")
    want = m.dumps(m.open(p), indent=2)
    code, lines = ctx.cli(ctx.mod("cli").main, ["format", p, p, "--indent", "2"])
    ctx.check(code == 0, "format:exit status")
    ctx.check(ctx.get_file("in.map") == want, "format:in place")


def fmt_missing(ctx):
    code, lines = ctx.cli(ctx.mod("cli").main, ["format", ctx.path("none.map"), ctx.path("o.map")])
    ctx.check(code != 0, "format:missing input")
    ctx.check(not ctx.file_exists("o.map"), "format:no output for a missing input")


def nerr(k):
    """a document with k validation errors"""
    return "MAP NAME 'a'\n" + "LAYER TYPE point STATUS zz END\n" * k + "END"


KINDS = {
    "valid": ("MAP NAME '%s' END", "'\\"),
    "valid2": ("# %s\nLAYER TYPE point END", "\n"),
    "one": ("MAP\n\nNAME 'a' ANGLE '%s'\nEND", "'\\"),
    "three": ("MAP\nFOO '%s'\nLAYER\n STATUS zz\nEND END", "'\\"),
    "broken": ("MAP NAME '%s' ", "'\\"),
    "list": ("CLASS NAME '%s' END CLASS FOO 1 END", "'\\"),
    "listok": ("CLASS NAME '%s' END CLASS TITLE 'a' END", "'\\"),
    "empty": ("%s", "\x00"),
    "meta": ("METADATA 'a' '%s' END", "'\\"),
    "notinc": ("MAP\nINCLUDE 'none%s.inc'\nEND", "'\\\"\n/\x00"),
}


def content(ctx, i, kind):
    w, ex = KINDS[kind]
    hi = 1 if i else 2
    s = ctx.string("s%d" % i, (0, hi), "word" if kind == "empty" else "any", exclude=ex)
    return w.replace("%s", s)


def expected(ctx, p, text, version, oo):
    """messages of one file, or None when it does not parse"""
    m = ctx.mappyfile
    got = norm(ctx, lambda: m.open(p, include_position=True, **oo))
    if got[0] != "ok":
        return None
    return m.validate(got[1], version)


def report(ctx, files, code, lines, want, label):
    """files: paths in order; want: their messages"""
    n = 0
    clean = 0
    left = list(lines)
    for p, ms in zip(files, want):
        if ms is None:
            n += 1
            ctx.check(len(left) > 0 and p in left[0], label + ":a line for an unreadable file")
            left = left[1:]
        elif not ms:
            clean += 1
            ctx.check(len(left) > 0 and p in left[0], label + ":a line for a valid file")
            left = left[1:]
        else:
            for v in ms:
                n += 1
                ok = len(left) > 0 and left[0].startswith(p)
                ctx.check(ok, label + ":one line per message")
                ctx.check(ctx.all([v["message"] in left[0], v["error"] in left[0], str(v["line"]) in left[0], str(v["column"]) in left[0]]),
                          label + ":content of a message line")
                left = left[1:]
    ctx.check(len(left) <= 1, label + ":number of lines")
    ctx.check((code == 0) == (n == 0), label + ":exit status")
    if n <= 255:
        ctx.check(code == n, label + ":exit status is the number of problems")


def validate_cmd(ctx, kinds, args):
    m = ctx.mappyfile
    files = []
    texts = []
    for i, k in enumerate(kinds):
        t = content(ctx, i, k)
        texts.append(t)
        files.append(ctx.put_file("f%d.map" % i, t))
    oo = {"expand_includes": False} if "--no-expand" in args else {}
    want = [expected(ctx, p, t, 8.2, oo) for p, t in zip(files, texts)]
    code, lines = ctx.cli(ctx.mod("cli").main, ["validate"] + files + list(args))
    ctx.observe("code", code)
    ctx.observe("lines", len(lines))
    report(ctx, files, code, lines, want, "validate")


def validate_version(ctx, args, version):
    """the version option, with a keyword which comes and goes"""
    t = ctx.pick("t", ["MAP LAYER TYPE point LABELANGLEITEM 'a' END END", "MAP LAYER TYPE point UTFDATA 'a' END END",
                       "MAP TRANSPARENT TRUE END", "LABEL EXPRESSION 'a' END", "CLASS LABEL FORCE GROUP END END", "LAYER IDENTIFIER 'a' CONNECTIONTYPE SDE TYPE point END"])
    p = ctx.put_file("f.map", t)
    want = [expected(ctx, p, t, version, {})]
    code, lines = ctx.cli(ctx.mod("cli").main, ["validate", p] + list(args))
    report(ctx, [p], code, lines, want, "version")


def validate_glob(ctx):
    """a pattern: the matching files, no directories"""
    k = ctx.pick("k", ["valid", "broken", "one"])
    a = ctx.put_file("d/a.map", content(ctx, 0, k))
    b = ctx.put_file("d/b.map", "MAP END")
    ctx.put_file("d/c.txt", "nothing")
    ctx.mkdir("d/e.map")
    n = {"valid": 0, "broken": 1, "one": 1}[k]
    want = [expected(ctx, p, None, 8.2, {}) for p in (a, b)]
    n = sum([1 if w is None else len(w) for w in want])
    how = ctx.pick("how", ["glob", "twice", "none"])
    if how == "glob":
        code, lines = ctx.cli(ctx.mod("cli").main, ["validate", ctx.path("d/*.map")])
        ctx.check(code == n, "glob:exit status")
        ctx.check(len([x for x in lines if x.startswith(a)]) == (1 if want[0] is None else max(1, len(want[0]))), "glob:lines")
        ctx.check(len([x for x in lines if "e.map" in x or "c.txt" in x]) == 0, "glob:other files")
        ctx.check(len([x for x in lines if x.startswith(b)]) == 1, "glob:lines of the second file")
    elif how == "twice":
        code, lines = ctx.cli(ctx.mod("cli").main, ["validate", ctx.path("d/b.map"), ctx.path("d/a*.map")])
        ctx.check(code == n, "glob:exit status")
    else:
        code, lines = ctx.cli(ctx.mod("cli").main, ["validate", ctx.path("d/*.zzz")])
        ctx.check(code == 0, "glob:nothing matched")


def validate_bytes(ctx):
    """a file which is not UTF-8 is a problem"""
    p = ctx.put_file("l.map", "MAP NAME '" + ctx.string("s", 1, "\xe9\xfc\xe8") + "' END", "latin-1")
    q = ctx.put_file("m.map", "MAP END")
    code, lines = ctx.cli(ctx.mod("cli").main, ["validate", p, q] if ctx.bool("first") else ["validate", q, p])
    ctx.check(code == 1, "undecodable:exit status")
    ctx.check(len([x for x in lines if x.startswith(p)]) == 1, "undecodable:line")


def validate_many(ctx, n):
    """n messages, one of them behind a symbolic value"""
    s = ctx.string("s", 1, "any", exclude="'\\")
    p = ctx.put_file("f.map", nerr(n - 1) + "\n" + "CLASS FOO '" + s + "' END")
    code, lines = ctx.cli(ctx.mod("cli").main, ["validate", p])
    ctx.observe("code", code)
    ctx.check(code != 0, "many:exit status")
    if n <= 255:
        ctx.check(code == n, "many:exit status is the number of problems")
    ctx.check(len([x for x in lines if x.startswith(p)]) == n, "many:lines")


def validate_sum(ctx, a, b):
    """the problems of several files are added up"""
    s = ctx.string("s", (0, 1), "any", exclude="'\\")
    p = ctx.put_file("f.map", nerr(a) + "\nCLASS NAME '" + s + "' END")
    q = ctx.put_file("g.map", nerr(b))
    r = ctx.put_file("h.map", "MAP")
    code, lines = ctx.cli(ctx.mod("cli").main, ["validate", p, q, r])
    n = a + b + 1
    ctx.check(code == n if n <= 255 else code != 0, "sum:exit status")


VERSIONS = [None, 4.0, 5.0, 5.2, 5.4, 6.0, 6.2, 6.4, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2, 8.4]


def schema_cmd(ctx, v):
    had = ctx.bool("had")
    p = ctx.path("s.json")
    if had:
        ctx.put_file("s.json", "x" * 9)
    how = ctx.pick("how", [0, 1]) if v is not None else 0
    args = ["schema", p] + ([] if v is None else [["--version=%s" % v], ["--version", str(v)]][how])
    code, lines = ctx.cli(ctx.mod("cli").main, args)
    ctx.check(code == 0, "schema:exit status")
    import json
    with open(p, encoding="utf-8") as f:
        got = json.load(f)
    want = ctx.mod("validator").Validator().get_versioned_schema(v)
    ctx.check(same(got, want), "schema:content")


def same(a, b):
    """equality of JSON data, references resolved"""
    if hasattr(b, "items") and hasattr(a, "items"):
        if len(a) != len(b):
            return False
        for k in b:
            if k not in a or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all([same(x, y) for x, y in zip(a, b)])
    return a == b


def units(tier):
    out = []
    i = 0
    thorough = tier == "thorough"
    for n, spec in docs.SCENARIOS.items():
        for h in range(docs.nholes(spec)):
            i += 1
            if thorough or i % 3 == 0:
                out.append(Unit("doc:%s.%d" % (n, h), "c20.doc", {"name": n, "holes": [h], "os": LOADOPTS if thorough else [LOADOPTS[i % 6], LOADOPTS[(i + 3) % 6]]}))
            if thorough or i % 3 == 1:
                out.append(Unit("wdoc:%s.%d" % (n, h), "c20.wdoc", {"name": n, "holes": [h], "os": opts.some(tier, i)}))
    for n in TEXTS:
        out.append(Unit("text:" + n, "c20.form", {"name": n, "os": LOADOPTS if thorough else LOADOPTS[:4:3], "n": 3 if thorough or n not in ("sep", "trail") else 1}))
    for k in ("one", "crlf", "sub", "missing", "twice"):
        out.append(Unit("includes:" + k, "c20.includes", {"kind": k}))
    out.append(Unit("bom", "c20.bom", {}))
    for n in ("class", "map2") if not thorough else docs.SCENARIOS:
        out.append(Unit("wcombos:" + n, "c20.wcombos", {"name": n}))
    out.append(Unit("wlist", "c20.wlist", {}))
    out.append(Unit("wlong", "c20.wlong", {}))
    for k in CYCLE:
        out.append(Unit("cycle:" + k, "c20.cycle", {"kind": k, "n": 3, "plane": False}))
        out.append(Unit("cycle2:" + k, "c20.cycle", {"kind": k, "n": 1, "plane": True}))
    for j, a in enumerate(FORMAT):
        for s in SRC:
            if thorough or s == "value" or (j + len(s)) % 4 == 0:
                out.append(Unit("format:%s.%d" % (s, j), "c20.fmt", {"src": s, "args": a}))
    out.append(Unit("format:self", "c20.fmt_self", {}))
    out.append(Unit("format:missing", "c20.fmt_missing", {}))
    ks = list(KINDS)
    for j, k in enumerate(ks):
        out.append(Unit("validate:" + k, "c20.validate_cmd", {"kinds": [k], "args": []}))
        out.append(Unit("validate:no:" + k, "c20.validate_cmd", {"kinds": [k], "args": ["--no-expand"]}))
        for x, k2 in enumerate(ks):
            if thorough or (j + 2 * x) % 5 == 0:
                out.append(Unit("validate:%s.%s" % (k, k2), "c20.validate_cmd", {"kinds": [k, k2], "args": []}))
        out.append(Unit("validate:%s.3" % k, "c20.validate_cmd", {"kinds": ["valid", k, ks[(j * 3 + 1) % len(ks)]], "args": ["--expand"]}))
    for v in (None, 4.0, 6.0, 7.6, 8.0, 8.2, 8.4):
        if v is None:
            out.append(Unit("version:default", "c20.validate_version", {"args": [], "version": 8.2}))
        else:
            out.append(Unit("version:%s" % v, "c20.validate_version", {"args": ["--version", str(v)], "version": v}))
    out.append(Unit("glob", "c20.validate_glob", {}))
    out.append(Unit("undecodable", "c20.validate_bytes", {}))
    for n in (2, 254, 255, 256, 257, 300) if not thorough else (2, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513):
        out.append(Unit("many:%d" % n, "c20.validate_many", {"n": n}))
    for a, b in ((1, 2), (127, 127), (128, 127), (200, 100)):
        out.append(Unit("sum:%d.%d" % (a, b), "c20.validate_sum", {"a": a, "b": b}))
    for v in VERSIONS:
        out.append(Unit("schema:%s" % v, "c20.schema_cmd", {"v": v}))
    return out
