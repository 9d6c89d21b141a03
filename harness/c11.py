"""C11: every input is parsed or rejected with a parse error, promptly."""
import signal
import time
from symex.runner import Unit
import vocab
import gen
import docs
import c05

BOUNDS = ("arbitrary text: every character, and every string of 2 of 36 representative characters (thorough: 2 over the whole alphabet, 3), alone and inside 24 "
          "contexts (every kind of block, value, expression, list, string and comment); token sequences: every sequence of "
          "2 (thorough 3) of 48 tokens in 10 contexts; mutations of 9 documents and 23 texts: a token deleted, doubled, "
          "exchanged, the text cut at every token, a foreign token inserted at every gap; every block type as a root; "
          "nesting up to 3000 levels; cost: 44 repeated fragments with a symbolic character, 4/8/16 repetitions counted in "
          "matcher steps (replays: 4000/16000 repetitions timed)")
ASSUMPTIONS = ["a text whose INCLUDE lines name unreadable files may raise OSError (C15)"]


def position(text, line, column):
    """offset of a 1-based line and column, None when outside the text"""
    i = 0
    n = 1
    while n < line:
        j = text.find("\n", i)
        if j < 0:
            return None
        i = j + 1
        n += 1
    e = text.find("\n", i)
    if e < 0:
        e = len(text)
    if column < 1 or i + column - 1 > e:
        return None
    return i + column - 1


def attempt(ctx, text, label, deep=False, io=False):
    """('ok', dictionary) | ('error', exception); anything but a Lark exception ends the path as a violation"""
    try:
        d = ctx.mappyfile.loads(text)
    except ctx.lark_errors() as e:
        return "error", e
    except OSError as e:
        if not io:
            ctx.fail(label + ":OSError")
        return "io", e
    ok = isinstance(d, dict) or (isinstance(d, list) and len(d) > 0 and all([isinstance(x, dict) for x in d]))
    ctx.check(ok, label + ":result type")
    return "ok", d


def verdict(ctx, text, label, deep=False, io=False, viable=True):
    st, e = attempt(ctx, text, label, deep, io)
    if st != "error":
        ctx.observe("st", st)
        ctx.check(st in ("ok", "io"), label + ":outcome")
        return st, None
    line, col = getattr(e, "line", None), getattr(e, "column", None)
    if deep and not isinstance(line, int):
        return "deep", None
    ctx.check(isinstance(line, int) and isinstance(col, int), label + ":no line and column")
    ctx.observe("at", [line, col])
    p = position(text, line, col)
    ctx.check(p is not None, label + ":position outside the text")
    tok = getattr(e, "token", None)
    tt = getattr(tok, "type", None)
    if tt == "$END":
        return "end", None
    if tok is not None:
        s = str(tok)
        ctx.check(text[p:p + len(s)] == s, label + ":position of the token")
    else:
        ctx.check(p < len(text), label + ":position of the character")
    if viable:
        # what comes before the offending token is no error by itself
        st, e2 = attempt(ctx, text[:p], label + ":prefix", deep, io)
        if st == "error":
            tok2 = getattr(e2, "token", None)
            ctx.check(getattr(tok2, "type", None) == "$END", label + ":an earlier token is the offending one")
    return "at", p


CONTEXTS = {
    "root": ("", ""),
    "map": ("MAP ", " END"),
    "name": ("CLASS NAME ", " END"),
    "nameend": ("CLASS NAME ", ""),
    "dstring": ("CLASS NAME \"", "\" END"),
    "sstring": ("LAYER DATA '", "' END"),
    "backtick": ("CLASS EXPRESSION `", "` END"),
    "expr": ("CLASS EXPRESSION (", ") END"),
    "exprop": ("CLASS EXPRESSION ([a] ", " 1) END"),
    "exprval": ("CLASS EXPRESSION ([a] = ", ") END"),
    "list": ("CLASS EXPRESSION {", "} END"),
    "listval": ("CLASS EXPRESSION {a,", "} END"),
    "binding": ("STYLE SIZE [", "] END"),
    "func": ("LABEL TEXT (tostring(", ")) END"),
    "color": ("STYLE COLOR 1 ", " 3 END"),
    "hex": ("STYLE COLOR '#aabb", "' END"),
    "points": ("SYMBOL POINTS ", " END END"),
    "projection": ("LAYER PROJECTION ", " END END"),
    "config": ("MAP CONFIG ", " 'x' END"),
    "kv": ("METADATA ", " 'x' END"),
    "symbol": ("STYLE SYMBOL ", " END"),
    "style": ("QUERYMAP STYLE ", " END"),
    "comment": ("MAP #", "\n END"),
    "ccomment": ("MAP /*", "*/ END"),
    "runtime": ("LAYER DATA %", "% END"),
    "regex": ("CLASS EXPRESSION /", "/ END"),
    "key": ("LAYER ", " 'a' END"),
    "number": ("LAYER MINSCALEDENOM 1", "2 END"),
    "end": ("LAYER NAME 'a' END", ""),
}


def text(ctx, c, n, abc):
    a, b = CONTEXTS[c]
    s = ctx.string("s", n, abc)
    verdict(ctx, a + s + b, "text")


PUNCT = "\"'`[](){}/\\#%!=<>~*&|,.-+@ \na1\xe9"
SAMPLES = ["STYLE", "SYMBOL", "NAME", "END", "POINTS", "METADATA", "CONFIG", "PROJECTION", "GRID", "AUTO", "TRUE", "NULL",
           "HILITE", "ab", "1", "-2.5", "'s'", '"t"', "[w]", "(", ")", "{", "}", ",", "=", "~", "AND", "OR", "NOT", "!", "IN",
           "+", "-", "*", "/", "%", "^", "/r/", "%v%", "`b`", "'#aabbcc'", "a/b", "# c\n", "&&", "[", "]", "SYMBOLSET", "||"]
SOUP = ["root", "map", "name", "expr", "exprop", "list", "color", "points", "kv", "symbol"]


def soup(ctx, c, first, n, cut):
    a, b = CONTEXTS[c]
    out = first
    for i in range(n - 1):
        out = out + " " + ctx.pick("t%d" % i, SAMPLES)
    verdict(ctx, a + out + ("" if cut else b), "soup")


def doctokens(name):
    """tokens of a document without symbolic leaves"""
    class C:
        def assume(self, c):
            pass
    out = []
    for kw, vals, kind in docs.toks(docs.Maker(C(), frozenset()).make(docs.SCENARIOS[name])):
        out.append(kw)
        out.extend(vals)
    return out


def alltokens(src):
    return doctokens(src[4:]) if src.startswith("doc:") else c05.tokens(c05.TEXTS[src])


FOREIGN = [")", "}", "]", "@", "=", ",", "&&", "(", "[a", "'x", "\"", "`", "%", "{", "/", "NULL", "END", "5", "SYMBOL", "'y'",
           "*/", ";"]


def mutate(ctx, src, how, lo, hi):
    T = alltokens(src)
    i = ctx.pick("i", list(range(lo, min(hi, len(T)))))
    sep = ctx.string("sep", 1, " \n")
    if how == "delete":
        T = T[:i] + T[i + 1:]
    elif how == "double":
        T = T[:i] + [T[i]] + T[i:]
    elif how == "swap":
        T = T[:i] + T[i + 1:i + 2] + [T[i]] + T[i + 2:]
    elif how == "cut":
        T = T[:i]
    elif how == "insert":
        T = T[:i] + [ctx.pick("f", FOREIGN)] + T[i:]
    out = ""
    for j, t in enumerate(T):
        out = out + (sep if 0 < j == i else "\n" if j % 3 == 0 else " ") + t
    verdict(ctx, out[1:], how, viable=how != "double")


def chars(ctx, src, lo, hi):
    """one arbitrary character inserted at any place of a text"""
    t = c05.TEXTS[src]
    i = ctx.pick("i", list(range(lo, min(hi, len(t) + 1))))
    s = ctx.string("s", 1, "any")
    verdict(ctx, t[:i] + s + t[i:], "chars", io=False)


def offend(ctx, src, lo, hi, w=2):
    """a character no token can start with, after symbolic white space: the reported position is exact"""
    T = alltokens(src)
    i = ctx.pick("i", list(range(lo, min(hi, len(T)))))
    w = ctx.string("w", (1, w), " \n\t\r")
    q = ctx.pick("q", ["@", "'@", "\"", "$", ";", "\\"])
    pre = ""
    for t in T[:i]:
        pre = pre + t + " "
    pre = pre + w
    body = pre + q + " " + " ".join([t for t in T[i:] if "'" not in t and '"' not in t])
    st, e = attempt(ctx, body, "offend")
    if q == "'@":
        # inside a list expression this is an unquoted word
        ctx.assume(st == "error")
    ctx.check(st == "error", "offend:accepted")
    if q == "'@":
        ctx.check(position(body, e.line, e.column) is not None, "offend:position")
        return
    ctx.check(isinstance(e.line, int) and isinstance(e.column, int), "offend:no line and column")
    ctx.check(e.line == pre.count("\n") + 1, "offend:line")
    ctx.check(e.column == len(pre) - (pre.rfind("\n") + 1) + 1, "offend:column")


def root(ctx, t):
    """every block type is accepted as the root of a partial Mapfile, in any letter case"""
    w = gen.case_word(ctx, "w", t)
    e = gen.case_word(ctx, "e", "end")
    empty = ctx.bool("empty")
    body = " "
    if not empty:
        k, d = docs.simple_kw(t)
        body = "\n" + k.upper() + " " + docs.const(t, k, d)[0] + "\n"
    st, d = attempt(ctx, w + body + e, "root")
    ctx.check(st == "ok", "root:accepted")
    ctx.check(d["__type__"] == t, "root:type")
    if not empty:
        ctx.check(len(d) == 2, "root:keywords")


def roots2(ctx):
    """several roots of any two block types"""
    a = ctx.pick("a", vocab.BLOCKS)
    b = ctx.pick("b", vocab.BLOCKS)
    st, d = attempt(ctx, a.upper() + " END\n" + b + " END", "roots2")
    ctx.check(st == "ok" and isinstance(d, list) and len(d) == 2, "roots2:accepted")
    ctx.check(d[0]["__type__"] == a and d[1]["__type__"] == b, "roots2:types")


def kvroot(ctx, t):
    w = gen.case_word(ctx, "w", t)
    st, d = attempt(ctx, w + " 'a' \"b\" END", "kvroot")
    ctx.check(st == "ok" and d["__type__"] == t and d["a"] == "b", "kvroot:accepted")


DEEP = {
    "paren": ("CLASS EXPRESSION ", "(", "[a]", ")", " END"),
    "sum": ("CLASS EXPRESSION ([a]", " + 1", "", "", ") END"),
    "mul": ("CLASS EXPRESSION ([a]", " * 1 / 2", "", "", ") END"),
    "and": ("CLASS EXPRESSION ([a]=1", " AND [b]=1", "", "", ") END"),
    "or": ("CLASS EXPRESSION ([a]=1", " || 'b'='c'", "", "", ") END"),
    "neg": ("CLASS EXPRESSION (", "- ", "1", "", ") END"),
    "not": ("CLASS EXPRESSION (", "NOT ", "[a]=1", "", ") END"),
    "nest": ("", "CLASS ", "", "END ", ""),
    "layers": ("MAP ", "LAYER CLASS STYLE END END END ", "", "", "END"),
    "list": ("CLASS EXPRESSION {a", ",b", "", "", "} END"),
    "points": ("SYMBOL POINTS ", "1 2 ", "", "", "END END"),
    "kv": ("METADATA ", "'a' 'b' ", "", "", "END"),
    "open": ("CLASS EXPRESSION ", "(", "", "", ""),
    "roots": ("", "CLASS END ", "", "", ""),
}


def deep(ctx, form, ns):
    n = ctx.pick("n", ns)
    a, o, m, c, b = DEEP[form]
    x = ctx.bool("close")
    t = a + o * n + m + c * (n if x else n - 1) + b
    st, _ = verdict(ctx, t, "deep", deep=True, viable=False)
    if n <= 100 and x and form != "open":
        ctx.check(st == "ok", "deep:accepted")


# ---------------------------------------------------------------- cost

FRAGS = {
    "word": ("CLASS ", "N%s 'a' ", " END"), "string": ("METADATA ", "'k' \"%s\" ", "END"), "quote": ("CLASS NAME ", "'%s", ""),
    "instr": ("CLASS NAME \"", "%sx", "\" END"), "escapes": ("CLASS NAME \"", "\\%s", "\" END"), "unended": ("CLASS NAME '", "a%s", ""),
    "escq": ("CLASS NAME \"", "\\\"%s", " END"), "backtick": ("CLASS EXPRESSION `", "%sa", "` END"),
    "unbacktick": ("CLASS EXPRESSION `", "%sa", ""), "regex": ("CLASS EXPRESSION /", "%sa", "/ END"),
    "dunended": ("CLASS NAME \"", "a%s", ""), "bunended": ("CLASS NAME '", "\\%s", ""), "exprunended": ("CLASS EXPRESSION (\"", "%sa ", ""),
    "metaunended": ("METADATA 'a' \"", "%s\n", ""), "bopen": ("CLASS EXPRESSION {", "%sa ", ""), "paropen": ("CLASS EXPRESSION (", "[%sa] + ", ""),
    "runopen": ("LAYER DATA %", "%sa", ""), "hexopen": ("STYLE COLOR \"#", "%sa", ""), "regexq": ("CLASS EXPRESSION \\\\", "%s\\", ""),
    "incspace": ("", " %s", "INCLUDE x"), "incq": ("INCLUDE \"", "%s ", ""), "numdots": ("LAYER MINSCALEDENOM ", "1.%s", " END"),
    "dotpath": ("LAYER DATA ", "../%s", " END"), "underpath": ("LAYER DATA ", "a_%s", ". END"),
    "unregex": ("CLASS EXPRESSION ", "/%s", ""), "slashes": ("LAYER DATA ", "a%s/", " END"), "dots": ("LAYER DATA ", "%s.", " END"),
    "percent": ("LAYER DATA ", "%%a%s", " END"), "comment": ("MAP ", "#%s\n", " END"), "hashes": ("MAP #", "#%s", "\n END"),
    "ccomment": ("MAP /*", "*%s", "*/ END"), "unccomment": ("MAP /*", "%s*", " END"), "digits": ("LAYER MINSCALEDENOM ", "1%s", " END"),
    "spaces": ("MAP", "%s ", "END"), "lines": ("MAP", "%s\n", "END"), "points": ("SYMBOL POINTS ", "%s 1 ", "END END"),
    "list": ("CLASS EXPRESSION {", "%s,", "b} END"), "listwords": ("CLASS EXPRESSION {", "a%s", "} END"),
    "exprs": ("CLASS EXPRESSION (1", "+%s", ") END"), "hex": ("STYLE COLOR '#", "a%s", "' END"), "dashes": ("CLASS NAME ", "-%s", " END"),
    "include": ("", "INCLUD%s ", ""), "proj": ("LAYER PROJECTION ", "'%s' ", "END END"), "exp10": ("LAYER MINSCALEDENOM 1", "e%s", " END"),
    "parens": ("CLASS EXPRESSION (a", "(%s", ") END"), "brackets": ("STYLE SIZE [", "a%s", "] END"),
    "exprstr": ("CLASS EXPRESSION (\"", "%s(", "\" = 'a') END"), "bquoted": ("CLASS EXPRESSION (", "\"%s)\"+", "1) END"),
}


class Slow(Exception):
    pass


def slow(*a):
    raise Slow()


def cost(ctx, form):
    a, f, b = FRAGS[form]
    c = ctx.string("c", 1, "any")
    p = f.split("%s")
    frag = p[0].replace("%%", "%") + c + p[1]

    def run(n):
        try:
            ctx.mappyfile.loads(a + frag * n + b)
        except ctx.lark_errors():
            pass
        except OSError:
            pass
    if ctx.symbolic:
        s = []
        run(4)
        for n in (8, 16, 32):
            s.append(ctx.steps(run, n, limit=100000))
            ctx.check(s[-1] <= 100000, "cost:more than 100000 matcher steps")
        # linear growth doubles the difference, quadratic growth quadruples it
        ctx.check(s[2] - s[1] <= 3 * (s[1] - s[0]) + 60, "cost:steps grow faster than the input")
    else:
        s = []
        signal.signal(signal.SIGALRM, slow)
        for n in (0, 40, 4000, 16000):
            k = time.process_time()
            signal.setitimer(signal.ITIMER_REAL, 25)
            try:
                run(n)
            except Slow:
                ctx.fail("cost:time grows faster than the input")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            s.append(time.process_time() - k)
            if s[-1] > 20:
                break
        ctx.check(s[-1] < 2.5 or (len(s) == 4 and s[3] - s[0] < 7 * (s[2] - s[0])), "cost:time grows faster than the input")


def include(ctx, form):
    """INCLUDE lines may raise an I/O error, nothing else"""
    s = ctx.string("s", (0, 2), "any", exclude="" if form == "bare" else "\n")
    t = {"double": "INCLUDE \"%s\"", "single": "include '%s' MAP END", "bare": "MAP\nInclude %s\nEND", "glued": "INCLUDE%s\nMAP END",
         "open": "MAP END INCLUDE\nINCLUDE \"%s"}[form].split("%s")
    verdict(ctx, t[0] + s + t[1], "include", io=True, viable=False)


def units(tier):
    q = tier == "quick"
    out = []
    for c in CONTEXTS:
        out.append(Unit("text:%s.0" % c, "c11.text", {"c": c, "n": 0, "abc": "any"}))
        out.append(Unit("text:%s.1" % c, "c11.text", {"c": c, "n": 1, "abc": "any"}))
        out.append(Unit("text:%s.2" % c, "c11.text", {"c": c, "n": 2, "abc": PUNCT if q else "any"}))
        if not q:
            out.append(Unit("text:%s.3" % c, "c11.text", {"c": c, "n": 3, "abc": "any"}))
    for c in (SOUP[::2] if q else CONTEXTS):
        for i, f in enumerate(SAMPLES):
            for cut in (False, True) if not q or i % 4 == 0 else (False,):
                out.append(Unit("soup:%s.%d.%d" % (c, i, cut), "c11.soup", {"c": c, "first": f, "n": 2 if q else 3, "cut": cut}))
    srcs = ["doc:" + n for n in docs.SCENARIOS] + list(c05.TEXTS)
    for s in srcs:
        n = len(alltokens(s))
        for how in ("delete", "double", "swap", "cut", "insert"):
            step = 8 if how == "insert" else 24
            for lo in range(0, n, step):
                if q and how == "insert" and (lo // 8) % 4 != len(s) % 4 and n > 8:
                    continue
                out.append(Unit("mutate:%s.%s.%d" % (how, s, lo), "c11.mutate", {"src": s, "how": how, "lo": lo, "hi": lo + step}))
        for lo in range(0, n, 12):
            out.append(Unit("offend:%s.%d" % (s, lo), "c11.offend", {"src": s, "lo": lo, "hi": lo + 12, "w": 1 if q else 2}))
    for s in c05.TEXTS:
        n = len(c05.TEXTS[s]) + 1
        for lo in range(0, n, 10):
            if not q or (lo // 10) % 5 == 0:
                out.append(Unit("chars:%s.%d" % (s, lo), "c11.chars", {"src": s, "lo": lo, "hi": lo + 10}))
    for t in vocab.BLOCKS:
        out.append(Unit("root:" + t, "c11.root", {"t": t}))
    for t in ("metadata", "validation", "connectionoptions"):
        out.append(Unit("kvroot:" + t, "c11.kvroot", {"t": t}))
    out.append(Unit("roots2", "c11.roots2", {}))
    for f in DEEP:
        out.append(Unit("deep:" + f, "c11.deep", {"form": f, "ns": [1, 30, 100]}))
        out.append(Unit("deeper:" + f, "c11.deep", {"form": f, "ns": [400, 3000]}))
    for f in FRAGS:
        out.append(Unit("cost:" + f, "c11.cost", {"form": f}, samples=1))
    for f in ("double", "single", "bare", "glued", "open"):
        out.append(Unit("include:" + f, "c11.include", {"form": f}))
    return out
