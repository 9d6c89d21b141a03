"""Python `re` semantics over strings with symbolic characters.

The pattern is parsed by CPython's own re._parser; the matcher enumerates the candidate matches
of the backtracking engine in priority order, each with the conjunction of character conditions
under which it is the one found, and the caller branches on them in that order."""
import builtins
import re as _re
import re._parser as _sp
import re._constants as _sc
from . import core
from .core import FULL, ALPHA, Mem, c_and, c_not, cur, Unsupported, mask_pred
from .values import SC, SymStr, chars_of, mkstr, is_sym, c_eq, table_mask

MAXREPEAT = _sc.MAXREPEAT

_catcache = {}


def _cat_fn(cat, flags):
    asc = bool(flags & _re.ASCII)
    nm = str(cat)
    if nm == "CATEGORY_DIGIT":
        f = (lambda ch: ch in "0123456789") if asc else str.isdecimal
    elif nm == "CATEGORY_NOT_DIGIT":
        f = (lambda ch: ch not in "0123456789") if asc else (lambda ch: not ch.isdecimal())
    elif nm == "CATEGORY_SPACE":
        f = (lambda ch: ch in " \t\n\r\f\v") if asc else str.isspace
    elif nm == "CATEGORY_NOT_SPACE":
        f = (lambda ch: ch not in " \t\n\r\f\v") if asc else (lambda ch: not ch.isspace())
    elif nm == "CATEGORY_WORD":
        f = (lambda ch: (ch.isalnum() and ch.isascii()) or ch == "_") if asc else (lambda ch: ch.isalnum() or ch == "_")
    elif nm == "CATEGORY_NOT_WORD":
        g = _cat_fn(_sc.CATEGORY_WORD, flags)
        f = lambda ch: not g(ch)  # noqa
    else:
        raise Unsupported("regex category " + nm)
    return f


_mask_cache = {}


def _single_mask(op, av, flags):
    """mask over ALPHA of characters matched by a single-character node, decided by CPython's
    re itself on every alphabet character"""
    key = (str(op), repr(av), flags)
    m = _mask_cache.get(key)
    if m is not None:
        return m
    pat = _unparse_single(op, av)
    rx = _re.compile(pat, flags & (_re.I | _re.S | _re.A | _re.M))
    m = 0
    for i, cp in enumerate(ALPHA):
        if rx.fullmatch(chr(cp)):
            m |= 1 << i
    _mask_cache[key] = m
    return m


def _esc(cp):
    return "\\U%08x" % cp


def _unparse_single(op, av):
    nm = str(op)
    if nm == "LITERAL":
        return _esc(av)
    if nm == "NOT_LITERAL":
        return "[^" + _esc(av) + "]"
    if nm == "ANY":
        return "."
    if nm == "IN":
        out = "["
        for o, a in av:
            n = str(o)
            if n == "NEGATE":
                out += "^"
            elif n == "LITERAL":
                out += _esc(a)
            elif n == "RANGE":
                out += _esc(a[0]) + "-" + _esc(a[1])
            elif n == "CATEGORY":
                out += {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s",
                        "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w",
                        "CATEGORY_NOT_WORD": r"\W"}[str(a)]
            else:
                raise Unsupported("regex set " + n)
        return out + "]"
    raise Unsupported("regex node " + nm)


def _conc_single(op, av, flags):
    key = ("c", str(op), repr(av), flags)
    r = _mask_cache.get(key)
    if r is None:
        rx = _re.compile(_unparse_single(op, av), flags & (_re.I | _re.S | _re.A | _re.M))
        memo = {}

        def r(cp):
            v = memo.get(cp)
            if v is None:
                v = memo[cp] = rx.fullmatch(chr(cp)) is not None
            return v
        _mask_cache[key] = r
    return r


class _Node:
    """compiled pattern: node.m(S, i, conds, groups, k) generator of results from k"""


class Ctx:
    __slots__ = ("cs", "n", "end")

    def __init__(self, cs, end):
        self.cs = cs
        self.n = end


SINGLE = {"LITERAL", "NOT_LITERAL", "ANY", "IN"}


def _compose(table, mask):
    if table is None:
        return mask
    return table_mask(table, tuple(cp for i, cp in enumerate(ALPHA) if mask >> i & 1))


class Single:
    __slots__ = ("mask", "fn")

    def __init__(self, op, av, flags):
        self.mask = _single_mask(op, av, flags)
        self.fn = _conc_single(op, av, flags)

    def test(self, ch):
        """condition that ch is accepted"""
        if type(ch) is int:
            return self.fn(ch)
        if ch.table is None:
            m = self.mask
        else:
            fn = self.fn
            m = 0
            for i, cp in enumerate(ch.table):
                if fn(cp):
                    m |= 1 << i
        p = cur()
        d = p.dom.get(ch.var, ch.var.dom0)
        if d & m == 0:
            return False
        if d & ~m == 0:
            return True
        return Mem(ch.var, m)


def _compile(sub, flags):
    return [_compile1(op, av, flags) for op, av in sub]


def _compile1(op, av, flags):
    nm = str(op)
    if nm in SINGLE:
        return ("S", Single(op, av, flags))
    if nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
        lo, hi, sub = av
        if nm == "POSSESSIVE_REPEAT":
            raise Unsupported("possessive repeat")
        body = _compile(sub, flags)
        if len(body) == 1 and body[0][0] == "S":
            return ("R1", lo, hi, body[0][1], nm == "MAX_REPEAT")
        return ("R", lo, hi, body, nm == "MAX_REPEAT")
    if nm == "SUBPATTERN":
        g, add, dele, sub = av
        return ("G", g, _compile(sub, (flags | add) & ~dele))
    if nm == "BRANCH":
        return ("B", [_compile(s, flags) for s in av[1]])
    if nm in ("ASSERT", "ASSERT_NOT"):
        d, sub = av
        if d != 1:
            raise Unsupported("lookbehind")
        return ("L", nm == "ASSERT", _compile(sub, flags))
    if nm == "AT":
        return ("A", str(av), flags)
    raise Unsupported("regex node " + nm)


STEPS = [0]  # matcher steps taken, for cost properties
COUNT = [False]  # match concrete text with this engine too, to count its steps
LIMIT = [None]  # steps at which the matcher gives up


class StepLimit(Unsupported):
    """more matcher steps than LIMIT"""


# matcher: generator over (i, conds tuple, groups dict) in priority order ------------------
def _seq(nodes, k, S, i, conds, groups):
    STEPS[0] += 1
    if LIMIT[0] is not None and STEPS[0] > LIMIT[0]:
        raise StepLimit("more than %d matcher steps" % LIMIT[0])
    if k == len(nodes):
        yield i, conds, groups
        return
    nd = nodes[k]
    t = nd[0]
    if t == "S":
        if i < S.n:
            c = nd[1].test(S.cs[i])
            if c is not False:
                c2 = conds if c is True else _add(conds, c)
                if c2 is not None:
                    yield from _seq(nodes, k + 1, S, i + 1, c2, groups)
        return
    if t == "R1":
        _, lo, hi, sg, greedy = nd
        if greedy:
            states = [conds]
            j = i
            cc = conds
            mx = S.n - i if hi is MAXREPEAT else min(hi, S.n - i)
            while j - i < mx:
                c = sg.test(S.cs[j])
                if c is False:
                    break
                if c is not True:
                    cc = _add(cc, c)
                    if cc is None:
                        break
                states.append(cc)
                j += 1
            STEPS[0] += j - i
            for q in range(len(states) - 1, lo - 1, -1):
                yield from _seq(nodes, k + 1, S, i + q, states[q], groups)
        else:
            j = i
            cc = conds
            while True:
                if j - i >= lo:
                    yield from _seq(nodes, k + 1, S, j, cc, groups)
                if j >= S.n or (hi is not MAXREPEAT and j - i >= hi):
                    return
                STEPS[0] += 1
                c = sg.test(S.cs[j])
                if c is False:
                    return
                if c is not True:
                    cc = _add(cc, c)
                    if cc is None:
                        return
                j += 1
        return
    if t == "R":
        _, lo, hi, body, greedy = nd
        yield from _rep(nodes, k, S, i, conds, groups, lo, hi, body, greedy, 0)
        return
    if t == "G":
        for j, c, g in _seq(nd[2], 0, S, i, conds, groups):
            if nd[1] is not None:
                g = dict(g)
                g[nd[1]] = (i, j)
                g["last"] = nd[1]
            yield from _seq(nodes, k + 1, S, j, c, g)
        return
    if t == "B":
        for alt in nd[1]:
            for j, c, g in _seq(alt, 0, S, i, conds, groups):
                yield from _seq(nodes, k + 1, S, j, c, g)
        return
    if t == "L":
        if nd[1]:
            for j, c, g in _seq(nd[2], 0, S, i, conds, groups):
                yield from _seq(nodes, k + 1, S, i, c, g)
                # a lookahead is atomic: later alternatives only matter if this one's
                # conditions fail, which the caller's ordered branching takes care of
            return
        alts = []
        for j, c, g in _seq(nd[2], 0, S, i, (), {}):
            alts.append(c_and([x for x in c]))
            if alts[-1] is True:
                return
        c = c_not(core.c_or(alts)) if alts else True
        if c is False:
            return
        c2 = conds if c is True else _add(conds, c)
        if c2 is not None:
            yield from _seq(nodes, k + 1, S, i, c2, groups)
        return
    if t == "A":
        c = _at(nd[1], nd[2], S, i)
        if c is False:
            return
        c2 = conds if c is True else _add(conds, c)
        if c2 is not None:
            yield from _seq(nodes, k + 1, S, i, c2, groups)
        return
    raise Unsupported("regex")


def _rep(nodes, k, S, i, conds, groups, lo, hi, body, greedy, n):
    def more():
        if hi is not MAXREPEAT and n >= hi:
            return
        for j, c, g in _seq(body, 0, S, i, conds, groups):
            if j == i and n >= lo:
                continue  # empty iteration
            yield from _rep(nodes, k, S, j, c, g, lo, hi, body, greedy, n + 1)

    if n < lo:
        yield from more()
        return
    if greedy:
        yield from more()
        yield from _seq(nodes, k + 1, S, i, conds, groups)
    else:
        yield from _seq(nodes, k + 1, S, i, conds, groups)
        yield from more()


def _add(conds, c):
    """append a condition; None if trivially inconsistent with the earlier ones"""
    if isinstance(c, Mem):
        m = c.mask & cur().domain(c.var)
        for x in conds:
            if isinstance(x, Mem) and x.var is c.var:
                m &= x.mask
        if m == 0:
            return None
    return conds + (c,)


def _wordish(ch, flags):
    f = _cat_fn(_sc.CATEGORY_WORD, flags)
    if type(ch) is int:
        return f(chr(ch))
    return ch.pred(("w", bool(flags & _re.ASCII)), f)


def _at(nm, flags, S, i):
    n = S.n
    if nm == "AT_BEGINNING":
        if i == 0:
            return True
        if flags & _re.M:
            return c_eq(S.cs[i - 1], 10)
        return False
    if nm == "AT_BEGINNING_STRING":
        return i == 0
    if nm == "AT_END_STRING":
        return i == n
    if nm == "AT_END":
        if i == n:
            return True
        if flags & _re.M:
            return c_eq(S.cs[i], 10)
        if i == n - 1:
            return c_eq(S.cs[i], 10)
        return False
    if nm in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
        a = _wordish(S.cs[i - 1], flags) if i > 0 else False
        b = _wordish(S.cs[i], flags) if i < n else False
        x = core.c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])])
        return x if nm == "AT_BOUNDARY" else c_not(x)
    raise Unsupported("regex anchor " + nm)


_prog = {}


def program(pattern, flags):
    k = (pattern, flags)
    p = _prog.get(k)
    if p is None:
        tree = _sp.parse(pattern, flags)
        fl = tree.state.flags
        p = _prog[k] = (_compile(list(tree), fl), tree.state.groups, dict(tree.state.groupdict))
    return p


def _has_sym(cs, a, b):
    for c in cs[a:b]:
        if type(c) is not int:
            return True
    return False


def run(prog, cs, pos, endpos, full=False):
    """first match of the backtracking engine at pos; forks.  -> (end, groups) or None"""
    S = Ctx(cs, endpos)
    p = cur()
    for j, conds, groups in _seq(prog, 0, S, pos, (), {}):
        if full and j != endpos:
            continue
        c = c_and(list(conds))
        if c is False:
            continue
        if c is True or p.branch(c):
            return j, groups
    return None


# ----------------------------------------------------------------- `re` module shim
class SymMatch:
    def __init__(self, rx, string, pos, end, groups, spos, endpos):
        self.re = rx
        self.string = string
        self._s, self._e = pos, end
        self._g = groups
        self.pos, self.endpos = spos, endpos
        self.lastindex = groups.get("last")

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _span(self, g=0):
        if not isinstance(g, int):
            g = self.re.groupindex[g]
        if g == 0:
            return (self._s, self._e)
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _one(self, g, default=None):
        a, b = self._span(g)
        if a < 0:
            return default
        return mkstr(chars_of(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def expand(self, tmpl):
        return _expand(tmpl, self)

    def __bool__(self):
        return True


def _expand(tmpl, m):
    if is_sym(tmpl):
        raise Unsupported("symbolic regex template")
    out = []
    for x in _sp.parse_template(tmpl, m.re._real):
        out.append(x if isinstance(x, str) else (m._one(x) or ""))
    s = ""
    for x in out:
        s = s + x if not isinstance(x, SymStr) else mkstr(chars_of(s) + x.cs)
    return s


class SymPattern:
    def __init__(self, pattern, flags=0):
        self._real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._real.flags
        self.groups = self._real.groups
        self.groupindex = dict(self._real.groupindex)
        self._cflags = flags

    def _cs(self, s):
        return chars_of(s)

    @staticmethod
    def _conc(s):
        return not is_sym(s) and not is_sym(getattr(s, "value", None)) and not COUNT[0]

    def _prog(self):
        f = int(self._cflags)
        return program(self.pattern, f)[0]

    def _rng(self, s, pos, endpos):
        n = len(s)
        endpos = n if endpos is None else max(0, min(endpos, n))
        return min(max(pos, 0), n), endpos

    def match(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._real.match(s, pos, *(() if endpos is None else (endpos,)))
        pos, e = self._rng(s, pos, endpos)
        r = run(self._prog(), self._cs(s), pos, e)
        return r and SymMatch(self, s, pos, r[0], r[1], pos, e)

    def fullmatch(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._real.fullmatch(s, pos, *(() if endpos is None else (endpos,)))
        pos, e = self._rng(s, pos, endpos)
        r = run(self._prog(), self._cs(s), pos, e, full=True)
        return r and SymMatch(self, s, pos, r[0], r[1], pos, e)

    def search(self, s, pos=0, endpos=None):
        if self._conc(s):
            return self._real.search(s, pos, *(() if endpos is None else (endpos,)))
        pos, e = self._rng(s, pos, endpos)
        cs = self._cs(s)
        for i in builtins.range(pos, e + 1):
            r = run(self._prog(), cs, i, e)
            if r is not None:
                return SymMatch(self, s, i, r[0], r[1], pos, e)
        return None

    def finditer(self, s, pos=0, endpos=None):
        if self._conc(s):
            yield from self._real.finditer(s, pos, *(() if endpos is None else (endpos,)))
            return
        pos, e = self._rng(s, pos, endpos)
        cs = self._cs(s)
        i = pos
        noempty = False
        while i <= e:
            found = None
            for st in builtins.range(i, e + 1):
                r = self._first(cs, st, e, noempty and st == i)
                if r is not None:
                    found = (st, r)
                    break
            if found is None:
                return
            st, (en, g) = found
            yield SymMatch(self, s, st, en, g, pos, e)
            i = en
            noempty = True  # after a match, an empty match at its end is allowed only if not adjacent-empty
            if st != en:
                noempty = False
            # CPython: empty matches adjacent to a previous non-empty match are allowed,
            # but the same empty match is not returned twice
            if st == en:
                noempty = True

    def _first(self, cs, st, e, noempty):
        S = Ctx(cs, e)
        p = cur()
        for j, conds, groups in _seq(self._prog(), 0, S, st, (), {}):
            if noempty and j == st:
                continue
            c = c_and(list(conds))
            if c is False:
                continue
            if c is True or p.branch(c):
                return j, groups
        return None

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple("" if g is None else g for g in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        if self._conc(s):
            return self._real.split(s, maxsplit)
        out = []
        last = 0
        n = 0
        cs = self._cs(s)
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(cs[last:m.start()]))
            out += list(m.groups())
            last = m.end()
            n += 1
        out.append(mkstr(cs[last:]))
        return out

    def subn(self, repl, s, count=0):
        if self._conc(s) and not is_sym(repl):
            if callable(repl):
                pass
            else:
                return self._real.subn(repl, s, count)
        out = []
        last = 0
        n = 0
        cs = self._cs(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += cs[last:m.start()]
            if callable(repl):
                r = repl(m)
            elif is_sym(repl):
                raise Unsupported("symbolic regex replacement")
            elif isinstance(m, SymMatch):
                r = _expand(repl, m)
            else:
                r = m.expand(repl)
            out += chars_of(r)
            last = m.end()
            n += 1
        out += cs[last:]
        return mkstr(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


_pc = {}


def _compile_any(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return SymPattern(pattern.pattern, pattern.flags & ~_re.U)
    if is_sym(pattern):
        raise Unsupported("symbolic regex pattern")
    k = (pattern, int(flags))
    r = _pc.get(k)
    if r is None:
        r = _pc[k] = SymPattern(pattern, flags)
    return r


class ReModule:
    """stands in for the module `re` inside instrumented code"""
    IGNORECASE = I = _re.I
    ASCII = A = _re.A
    DOTALL = S = _re.S
    MULTILINE = M = _re.M
    VERBOSE = X = _re.X
    UNICODE = U = _re.U
    LOCALE = L = _re.L
    error = _re.error
    Pattern = SymPattern
    Match = SymMatch
    NOFLAG = _re.NOFLAG
    RegexFlag = _re.RegexFlag

    compile = staticmethod(_compile_any)

    @staticmethod
    def match(p, s, flags=0):
        return _compile_any(p, flags).match(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return _compile_any(p, flags).fullmatch(s)

    @staticmethod
    def search(p, s, flags=0):
        return _compile_any(p, flags).search(s)

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return _compile_any(p, flags).sub(r, s, count)

    @staticmethod
    def subn(p, r, s, count=0, flags=0):
        return _compile_any(p, flags).subn(r, s, count)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return _compile_any(p, flags).split(s, maxsplit)

    @staticmethod
    def findall(p, s, flags=0):
        return _compile_any(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return _compile_any(p, flags).finditer(s)

    @staticmethod
    def escape(s):
        if is_sym(s):
            raise Unsupported("re.escape of symbolic text")
        return _re.escape(s)

    @staticmethod
    def purge():
        pass
