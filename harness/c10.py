"""C10: the normalised text of an expression denotes the same expression as its source."""
import itertools
from symex.runner import Unit
import gen

BOUNDS = ("every pair of operators (28 spellings) on three operands in every parenthesisation, every triple of 6 (quick) / 9 (thorough) operators "
          "on four operands in every parenthesisation, NOT and unary minus before every operand and parenthesis where they may stand, thorough "
          "also four operators; operands with symbolic contents (strings of up to 3 characters over the whole alphabet, names of up to 2, numbers "
          "of up to 4 digits), lists and function calls of up to 3 elements; every expression keyword position; words in every letter case")

BOOL = ["OR", "||", "AND", "&&"]
CMP = ["=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*", "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE"]
ARITH = ["+", "-", "*", "/", "^", "%"]
OPS = BOOL + CMP + ARITH
WORDS = ("OR", "AND", "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE", "NOT")
LEVEL = {"OR": 1, "AND": 2, "+": 5, "-": 5, "*": 6, "/": 6, "^": 6, "%": 6}
SYNONYM = {"||": "OR", "&&": "AND", "!": "NOT"}


class Bad(Exception):
    pass


# tokens: ("op", text) ("(",) (")",) (",",) ("leaf", text) ("fn", name)

def level(op):
    return LEVEL.get(op, 4)


def normal(op):
    u = op.upper()
    return SYNONYM.get(u, u if u in ("OR", "AND", "NOT") else op)


class Reader:
    """MapServer's precedence over a stream with peek_op / eat / operand"""

    def __init__(self, src):
        self.s = src

    def binary(self, lo, hi, sub):
        a = sub()
        while True:
            op = self.s.peek_op()
            if op is None or not lo <= level(op) <= hi:
                return a
            self.s.eat_op()
            a = (op, a, sub())

    def or_(self):
        return self.binary(1, 1, self.and_)

    def and_(self):
        return self.binary(2, 2, self.not_)

    def not_(self):
        if self.s.take("NOT"):
            return ("NOT", self.not_())
        return self.binary(4, 4, self.sum)

    def sum(self):
        return self.binary(5, 5, self.product)

    def product(self):
        return self.binary(6, 6, self.unary)

    def unary(self):
        if self.s.take("-"):
            return ("neg", self.unary())
        if self.s.take("("):
            a = self.or_()
            if not self.s.take(")"):
                raise Bad("unbalanced parenthesis")
            return a
        leaf = self.s.leaf()
        if leaf[0] == "fn":
            if not self.s.take("("):
                raise Bad("function call")
            args = [self.or_()]
            while self.s.take(","):
                args.append(self.or_())
            if not self.s.take(")"):
                raise Bad("function call")
            return ("call", leaf[1], tuple(args))
        return leaf

    def whole(self):
        a = self.or_()
        if not self.s.done():
            raise Bad("text after the expression")
        return a


class Source:
    """the tokens a source text was written from"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.n = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end",)

    def peek_op(self):
        t = self.peek()
        return normal(t[1]) if t[0] == "op" else None

    def eat_op(self):
        self.i += 1

    def take(self, x):
        t = self.peek()
        if t[0] == x or (t[0] == "op" and normal(t[1]) == x):
            self.i += 1
            return True
        return False

    def leaf(self):
        t = self.peek()
        if t[0] not in ("leaf", "fn"):
            raise Bad("operand expected")
        self.i += 1
        self.n += 1
        return (t[0], self.n)

    def done(self):
        return self.i == len(self.t)


class Output:
    """a normalised text, read with the operands of the source in their order"""

    def __init__(self, ctx, text, toks):
        self.ctx = ctx
        self.s = text
        self.i = 0
        self.leaves = [t for t in toks if t[0] in ("leaf", "fn")]
        self.n = 0
        self.spell = sorted(set([t[1] for t in toks if t[0] == "op" and normal(t[1]) not in ("OR", "AND", "NOT")]), key=len, reverse=True)

    def skip(self):
        while self.i < len(self.s) and self.s[self.i:self.i + 1] == " ":
            self.i += 1

    def at(self, w):
        self.skip()
        n = len(w)
        if not self.s[self.i:self.i + n] == w:
            return False
        last = w[n - 1:] in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
        return not (last and self.i + n < len(self.s) and self.s[self.i + n:self.i + n + 1].isalnum())

    def peek_op(self):
        self.skip()
        if self.i >= len(self.s):
            return None
        for w in ["OR", "AND"] + self.spell:
            if self.at(w):
                return w
        return None

    def eat_op(self):
        self.i += len(self.peek_op())

    def take(self, w):
        if self.i < len(self.s) and self.at(w):
            if w == "-" and self.n < len(self.leaves) and self.leaves[self.n][1][:1] == "-" and self.leaf_here():
                return False
            self.i += len(w)
            return True
        return False

    def leaf_here(self):
        x = self.leaves[self.n][1]
        return self.s[self.i:self.i + len(x)] == x

    def leaf(self):
        self.skip()
        if self.n >= len(self.leaves):
            raise Bad("more operands than the source")
        kind, x = self.leaves[self.n]
        if not self.leaf_here():
            raise Bad("operand changed")
        self.i += len(x)
        self.n += 1
        return (kind, self.n)

    def done(self):
        self.skip()
        return self.i == len(self.s)


def spelled(t):
    """operators in reading order of a tree"""
    if t[0] in ("leaf", "fn"):
        return []
    if t[0] == "call":
        return sum([spelled(a) for a in t[2]], [])
    if len(t) == 2:
        return [t[0]] + spelled(t[1])
    return spelled(t[1]) + [t[0]] + spelled(t[2])


def write(toks, style):
    out = ""
    for i, t in enumerate(toks):
        x = t[0] if len(t) == 1 else t[1]
        if i and not (t[0] == "," or t[0] == "(" and toks[i - 1][0] == "fn"):
            if style == "spaced":
                out = out + " "
            elif style == "lines":
                out = out + "\n\t"
            elif style == "tight":
                p = toks[i - 1]
                px = p[0] if len(p) == 1 else p[1]
                word = lambda z: z.upper() in WORDS  # noqa: E731
                glue = (p[0] in ("(", ",") and t[0] != "op") or t[0] == ")" or (t[0] == "op" and not word(x) and x not in ("-", "/", "%", "!") and p[0] != "op") or (p[0] == "op" and not word(px) and px not in ("-", "/", "%", "~", "~*", "!") and t[0] == "(")
                out = out + ("" if glue else " ")
        out = out + x
    return out


POS = {"class": "CLASS EXPRESSION", "layer": "LAYER FILTER", "text": "LABEL TEXT", "ctext": "CLASS TEXT", "geom": "STYLE GEOMTRANSFORM",
       "lgeom": "LAYER GEOMTRANSFORM", "group": "CLUSTER GROUP", "cfilter": "CLUSTER FILTER", "labelexpr": "LABEL EXPRESSION"}


def decide(ctx, toks, pos="class", style="spaced", printed=False, src=None, wrap=True):
    blk, kw = POS[pos].split()
    src = write([("(",)] + toks + [(")",)], style) if wrap else write(toks, style)
    try:
        d = ctx.mappyfile.loads("%s\n%s " % (blk, kw) + src + "\nEND")
    except ctx.lark_errors():
        ctx.fail("rejected")
        return
    v = d[kw.lower()]
    ctx.observe("v", v)
    want = Reader(Source(toks)).whole()
    try:
        got = Reader(Output(ctx, v, toks)).whole()
    except Bad as ex:
        ctx.fail("structure:" + str(ex))
        return
    ctx.check(got == want, "structure")
    try:
        w = ctx.mappyfile.loads("%s\n%s " % (blk, kw) + v + "\nEND")
    except ctx.lark_errors():
        ctx.fail("reparse:rejected")
        return
    ctx.check(w[kw.lower()] == v, "reparse")
    if printed:
        ctx.check(ctx.mappyfile.dumps(d) == "%s\n    %s " % (blk, kw) + v + "\nEND", "printed")


# ------------------------------------------------------------------ operators
PLAIN = [("leaf", "[a]"), ("leaf", "'b'"), ("leaf", "3"), ("leaf", '"[d]"'), ("leaf", "[e]")]


def shapes(n):
    """token skeletons of every parenthesisation of n operators: lists of '(' ')' 'x' 'o'"""
    def go(lo, hi):
        # renderings of operands lo..hi (inclusive), without outer parentheses
        if lo == hi:
            return [["x"]]
        out = []
        parts = [lo]

        def rec(i, acc):
            if i > hi:
                if len(acc) > 1:
                    choices = []
                    for a, b in acc:
                        choices.append([["x"]] if a == b else [["("] + r + [")"] for r in go(a, b)])
                    for c in itertools.product(*choices):
                        r = []
                        for k, p in enumerate(c):
                            r += (["o"] if k else []) + p
                        out.append(r)
                return
            for j in range(i, hi + 1):
                rec(j + 1, acc + [(i, j)])
        rec(lo, [])
        del parts
        return out
    return go(0, n)


def fill(shape, ops, leaves):
    toks, i, j = [], 0, 0
    for s in shape:
        if s == "x":
            toks.append(leaves[i % len(leaves)])
            i += 1
        elif s == "o":
            toks.append(("op", ops[j]))
            j += 1
        else:
            toks.append((s,))
    return toks


def pair(ctx, shape, a):
    b = ctx.pick("b", OPS)
    decide(ctx, fill(shape, [a, b], PLAIN))


def ops(ctx, shape, first, reps):
    n = shape.count("o")
    decide(ctx, fill(shape, [first] + [ctx.pick("op%d" % i, reps) for i in range(1, n)], PLAIN))


def prefixed(ctx, shape, reps):
    """NOT / ! / unary minus in front of operands and parentheses"""
    toks = fill(shape, [ctx.pick("op%d" % i, reps) for i in range(shape.count("o"))], PLAIN)
    out, any_ = [], False
    for i, t in enumerate(toks):
        prev = toks[i - 1] if i else ("(",)
        if t[0] in ("(", "leaf"):
            can = ["", "-"]
            if prev[0] == "(" or (prev[0] == "op" and normal(prev[1]) in ("AND", "OR")):
                can += ["NOT", "!"]
            p = ctx.pick("p%d" % i, can)
            if p:
                any_ = True
                out.append(("op", p))
        out.append(t)
    ctx.assume(any_)
    decide(ctx, out)


def chain(ctx, pre, rest):
    """chains of prefixes"""
    toks = [("op", p) for p in pre] + [ctx.pick("x", PLAIN)]
    if rest:
        toks += [("op", ctx.pick("op", ["AND", "=", "+", "*"])), ("leaf", "[z]")]
    decide(ctx, toks)


def cased(ctx, op):
    w = gen.case_word(ctx, "w", op)
    if op in ("AND", "OR"):
        toks = [("leaf", "[a]"), ("op", op), ("leaf", "[b]"), ("op", "="), ("leaf", "[c]")]
        src = "( [a] " + w + " [b] = [c] )"
    elif op == "NOT":
        toks = [("op", op), ("leaf", "[a]"), ("op", "="), ("leaf", "[c]")]
        src = "( " + w + " [a] = [c] )"
    else:
        toks = [("leaf", "[a]"), ("op", w), ("leaf", "[c]")]
        src = "( [a] " + w + " [c] )"
    d = ctx.mappyfile.loads("CLASS EXPRESSION " + src + " END")
    v = d["expression"]
    ctx.observe("v", v)
    if op == "NOT":
        ctx.check(ctx.any([v == "(NOT ( [a] = [c] ))", v == "( NOT ( [a] = [c] ) )"]), "cased")
    elif op in ("AND", "OR"):
        ctx.check(v == "( [a] " + op + " ( [b] = [c] ) )", "cased")
    else:
        ctx.check(v == "( [a] " + w + " [c] )", "cased")


# ------------------------------------------------------------------ operands
def operand(ctx, kind, nm):
    """tokens of one operand with symbolic contents"""
    S = lambda lo, hi, alpha, ex="": ctx.string(nm, (lo, hi), alpha, exclude=ex)  # noqa: E731
    if kind == "binding":
        s = S(1, 2, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:\xe9")
        return [("leaf", "[" + s + "]")]
    if kind == "int":
        return [("leaf", ctx.pick(nm + ".s", ["", "-", "+"]) + S(1, 3, "digit"))]
    if kind == "float":
        f = ctx.pick(nm + ".f", ["a.b", "a.", ".b", "aEb", "a.be"])
        a = ctx.string(nm + ".a", (1, 2), "digit")
        b = ctx.string(nm + ".b", (1, 2), "digit")
        return [("leaf", ctx.pick(nm + ".s", ["", "-"]) + {"a.b": a + "." + b, "a.": a + ".", ".b": "." + b, "aEb": a + "." + b + "E" + ctx.pick(nm + ".e", ["", "+", "-"]) + "2",
                                                               "a.be": a + ".5e1"}[f])]
    if kind in ("dq", "sq"):
        q = '"' if kind == "dq" else "'"
        s = S(0, 3, "any", "\\" + q)
        return [("leaf", q + s + q + ctx.pick(nm + ".i", ["", "i"]))]
    if kind == "bq":
        return [("leaf", "`" + S(0, 2, "any", "`\n") + "`" + ctx.pick(nm + ".i", ["", "i"]))]
    if kind == "hex":
        q = ctx.pick(nm + ".q", ["'", '"'])
        return [("leaf", q + "#" + ctx.string(nm, ctx.pick(nm + ".n", [3, 6]), "0123456789abcdefABCDEF") + q)]
    if kind == "word":
        return [("leaf", gen.case_word(ctx, nm, ctx.pick(nm + ".w", ["true", "false", "null", "auto"])))]
    if kind == "runtime":
        return [("leaf", "%" + S(1, 2, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") + "%")]
    if kind == "regex":
        s = S(1, 3, "any", "/\n\\'\"`")
        ctx.assume(ctx.not_(s.startswith("*")))
        return [("leaf", "/" + s + "/" + ctx.pick(nm + ".i", ["", "i"]))]
    if kind == "list":
        n = ctx.pick(nm + ".n", [1, 2, 3])
        els = []
        for i in range(n):
            k = ctx.pick("%s.k%d" % (nm, i), ["word", "sq", "num", "float"] if i == 0 else ["word", "sq"])
            x = "%s.%d" % (nm, i)
            els.append({"word": lambda: "w" + ctx.string(x, 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- "), "sq": lambda: "'" + ctx.string(x, 1, "any", "\\'") + "'",
                        "num": lambda: ctx.string(x, 2, "digit"), "float": lambda: ctx.string(x, 1, "digit") + ".50"}[k]())
        return [("leaf", "{" + ",".join(els[:0]) + _join(els) + "}")]
    if kind == "call":
        name = ctx.pick(nm + ".w", ["tostring", "round", "Buffer", "x_y"])
        toks = [("fn", name), ("(",)]
        for i in range(ctx.pick(nm + ".n", [1, 2, 3])):
            k = ctx.pick("%s.k%d" % (nm, i), ["binding", "dq"] if i == 0 else ["int", "lit"] if i == 1 else ["lit"])
            toks += ([(",",)] if i else []) + (operand(ctx, k, "%s.%d" % (nm, i)) if k != "lit" else [("leaf", ['"%.2f"', "1.50"][i % 2])])
        return toks + [(")",)]
    if kind == "callexpr":
        return [("fn", "f"), ("(",), ("(",)] + operand(ctx, "binding", nm) + [("op", ctx.pick(nm + ".o", ["+", "=", "%", "AND"])), ("leaf", "[k]"), (")",), (",",), ("leaf", "007"), (")",)]
    raise ValueError(kind)


def _bind(ctx, nm):
    return ("leaf", "[" + ctx.string(nm, 1, "abcXYZ09_") + "]")


SMALL = {
    "call": lambda ctx: [("fn", "round"), ("(",), _bind(ctx, "x"), (",",), ("leaf", "0." + ctx.string("d", 1, "digit") + "0"), (")",)],
    "float": lambda ctx: [("leaf", ctx.pick("s", ["", "-"]) + "0" + ctx.string("x", 1, "digit") + ".50")],
    "callexpr": lambda ctx: [("fn", "f"), ("(",), ("(",), _bind(ctx, "x"), ("op", "%"), ("leaf", "[k]"), (")",), (")",)],
}


def _join(els):
    out = els[0]
    for e in els[1:]:
        out = out + "," + e
    return out


KINDS = ["binding", "int", "float", "dq", "sq", "bq", "hex", "word", "runtime", "regex", "list", "call", "callexpr"]
FORMS = ["alone", "left", "right", "chain", "nested", "neg", "sum"]


def leaf(ctx, kind, form, pos="class", small=False):
    x = operand(ctx, kind, "x") if not small else SMALL[kind](ctx)
    A = [("leaf", "[p]")]
    if form == "alone":
        toks = x
    elif form == "left":
        toks = x + [("op", ctx.pick("op", ["=", "IN", "AND", "%"] if kind != "regex" else ["="]))] + A
    elif form == "right":
        toks = A + [("op", ctx.pick("op", ["=", "IN", "OR", "^"] if kind != "regex" else ["~", "~*"]))] + x
    elif form == "chain":
        toks = A + [("op", "~" if kind == "regex" else "=")] + x + [("op", ctx.pick("op", ["AND", "||"])), ("op", "NOT")] + A + [("op", ">"), ("leaf", "1")]
    elif form == "nested":
        toks = [("(",), ("(",)] + A + [("op", "~" if kind == "regex" else "==")] + x + [(")",), ("op", "OR"), ("leaf", "'q'"), (")",), ("op", "&&"), ("leaf", "[r]")]
    elif form == "neg":
        toks = [("op", "-")] + x + [("op", ctx.pick("op", ["+", "<"])), ("op", "-")] + x
    else:
        toks = A + [("op", ctx.pick("op", ["+", "-", "*", "/", "^", "%"]))] + x + [("op", ctx.pick("op2", ["-", "/", "="]))] + A
    decide(ctx, toks, pos=pos, printed=pos in ("class", "layer") and form in ("alone", "right"))


def stand(ctx, kind, pos):
    """lists, regular expressions and bindings as the whole value, without parentheses"""
    x = operand(ctx, kind, "x")[0][1]
    blk, kw = POS[pos].split()
    d = ctx.mappyfile.loads("%s\n%s " % (blk, kw) + x + "\nEND")
    v = d[kw.lower()]
    ctx.observe("v", v)
    ctx.check(v == x, "verbatim")
    ctx.check(ctx.mappyfile.loads("%s\n%s " % (blk, kw) + v + "\nEND")[kw.lower()] == v, "reparse")
    ctx.check(ctx.mappyfile.dumps(d) == "%s\n    %s " % (blk, kw) + v + "\nEND", "printed")


SAMPLES = [
    [("leaf", "[a]"), ("op", "+"), ("leaf", "1"), ("op", "="), ("leaf", "[b]"), ("op", "*"), ("leaf", "2"), ("op", "||"), ("op", "!"), ("leaf", "'x'"), ("op", "IN"), ("leaf", "'x,y'")],
    [("(",), ("leaf", "[a]"), ("op", "or"), ("leaf", "[b]"), (")",), ("op", "and"), ("leaf", "[c]"), ("op", "%"), ("leaf", "2"), ("op", "=="), ("leaf", "0")],
    [("fn", "buffer"), ("(",), ("leaf", "[shape]"), (",",), ("leaf", "5.50"), (")",)],
    [("leaf", '"a "'), ("op", "+"), ("fn", "tostring"), ("(",), ("leaf", "[area]"), (",",), ("leaf", '"%.2f"'), (")",)],
    [("op", "NOT"), ("(",), ("leaf", "[a]"), ("op", "="), ("leaf", "1"), ("op", "AND"), ("leaf", "[b]"), ("op", ">"), ("op", "-"), ("leaf", "[c]"), (")",), ("op", "OR"), ("leaf", "[d]"), ("op", "LIKE"), ("leaf", "'%x'")],
    [("(",), ("(",), ("leaf", "[a]"), (")",), ("op", "^"), ("leaf", "2"), (")",), ("op", "<="), ("(",), ("leaf", "[b]"), ("op", "-"), ("(",), ("leaf", "[c]"), ("op", "-"), ("leaf", "1"), (")",), (")",)],
]


def position(ctx, pos):
    decide(ctx, ctx.pick("toks", SAMPLES), pos=pos, style=ctx.pick("style", ["spaced", "tight", "lines"]), printed=True)


def negated(ctx, op):
    """NOT before a parenthesised value"""
    i = ctx.pick("i", range(len(SAMPLES)))
    decide(ctx, [("op", op), ("(",)] + SAMPLES[i] + [(")",)], wrap=False)


def doubled(ctx, n):
    """redundant parentheses around everything"""
    i = ctx.pick("i", range(len(SAMPLES)))
    decide(ctx, [("(",)] * n + SAMPLES[i] + [(")",)] * n)


def units(tier):
    out = []
    deep = tier == "thorough"
    for i, s in enumerate(shapes(2)):
        for a in OPS:
            out.append(Unit("pair:%d.%s" % (i, a), "c10.pair", {"shape": s, "a": a}))
    for a in OPS:
        out.append(Unit("one:" + a, "c10.ops", {"shape": ["x", "o", "x"], "first": a, "reps": []}))
    reps = ["OR", "&&", "=", "IN", "+", "-", "*", "%", "^"] if deep else ["OR", "&&", "=", "-", "*", "%"]
    for i, s in enumerate(shapes(3)):
        for a in reps:
            out.append(Unit("triple:%d.%s" % (i, a), "c10.ops", {"shape": s, "first": a, "reps": reps}))
    if deep:
        r4 = ["OR", "AND", "=", "-", "*", "%"]
        for i, s in enumerate(shapes(4)):
            for a in r4:
                out.append(Unit("four:%d.%s" % (i, a), "c10.ops", {"shape": s, "first": a, "reps": r4}))
    pr = ["||", "AND", "<", "-", "^"] if not deep else ["||", "AND", "<", "+", "-", "/", "%", "^"]
    for i, s in enumerate([["x", "o", "x"]] + shapes(2)):
        out.append(Unit("prefixed:%d" % i, "c10.prefixed", {"shape": s, "reps": pr if len(s) == 3 or deep else ["||", "AND", "<", "-"]}))
    if deep:
        for i, s in enumerate(shapes(3)):
            out.append(Unit("prefixed3:%d" % i, "c10.prefixed", {"shape": s, "reps": ["AND", "=", "-"]}))
    for pre in (["NOT"], ["!"], ["-"], ["NOT", "NOT"], ["!", "NOT"], ["-", "-"], ["-", "-", "-"], ["NOT", "-"], ["!", "-", "-"]):
        for rest in (False, True):
            out.append(Unit("chain:%s.%d" % ("".join(pre), rest), "c10.chain", {"pre": pre, "rest": rest}))
    for w in WORDS:
        out.append(Unit("cased:" + w, "c10.cased", {"op": w}))
    for k in KINDS:
        for f in FORMS:
            if f in ("neg", "sum", "alone", "left") and k == "regex":
                continue
            if f in ("neg", "sum") and k in ("regex", "list", "word", "hex", "bq", "runtime"):
                continue
            out.append(Unit("leaf:%s.%s" % (k, f), "c10.leaf", {"kind": k, "form": f, "small": k in SMALL and f not in (("alone", "right") if deep else ("alone",))}))
        if deep:
            for p in POS:
                if p != "class":
                    out.append(Unit("leaf:%s.right.%s" % (k, p), "c10.leaf", {"kind": k, "form": "right", "pos": p}))
    for k in ("list", "regex", "binding"):
        for p in ("class", "layer", "labelexpr"):
            if k == "list" or p == "class":
                out.append(Unit("stand:%s.%s" % (k, p), "c10.stand", {"kind": k, "pos": p}))
    for p in POS:
        out.append(Unit("position:" + p, "c10.position", {"pos": p}))
    for o in ("NOT", "!"):
        out.append(Unit("negated:" + o, "c10.negated", {"op": o}))
    for n in (1, 2, 3):
        out.append(Unit("doubled:%d" % n, "c10.doubled", {"n": n}))
    return out
