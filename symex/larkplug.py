"""Run lark's own (pure Python) lexer/LALR driver on symbolic text.

`FakeLarkCython` stands in for the compiled lark_cython package: same Token interface, and plugin
classes which are lark's own with a scanner that matches terminals by symbolic regex matching."""
import lark
from lark import lexer as _lx
from lark.lexer import BasicLexer, ContextualLexer, LexerThread, Scanner, LexError
from lark.exceptions import UnexpectedCharacters
from . import symre, core
from .values import chars_of, mkstr, SymStr, is_sym, s_str


class Token:
    """behaves like lark_cython.Token"""
    sx_tok = True
    __slots__ = ("type", "_value", "start_pos", "line", "column", "end_line", "end_column", "end_pos")

    def __init__(self, type_, value, start_pos=None, line=None, column=None, end_line=None,
                 end_column=None, end_pos=None):
        self.type = type_
        self.value = value
        self.start_pos = start_pos
        self.line = line
        self.column = column
        self.end_line = end_line
        self.end_column = end_column
        self.end_pos = end_pos

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if v is not None and not isinstance(v, str):
            raise TypeError("Expected unicode, got %s" % type(v).__name__)
        self._value = v

    @classmethod
    def new_borrow_pos(cls, type_, value, borrow_t):
        return cls(type_, value, borrow_t.start_pos, borrow_t.line, borrow_t.column, borrow_t.end_line,
                   borrow_t.end_column, borrow_t.end_pos)

    def update(self, type=None, value=None):
        return Token.new_borrow_pos(type if type is not None else self.type,
                                    value if value is not None else self.value, self)

    def __repr__(self):
        return "Token(%r, %r)" % (self.type, self.value)

    def __str__(self):
        return self.value if isinstance(self.value, str) and not is_sym(self.value) else "<SymTok>"

    def __hash__(self):
        return hash(self.value)

    def __eq__(self, o):
        if isinstance(o, Token):
            return self.value == o.value if self.type == o.type else False
        return self.value == o

    def __ne__(self, o):
        from .values import s_not
        return s_not(self.__eq__(o))

    def __lark_meta__(self):
        return self


class LarkToken(_lx.Token):
    """lark's own str-based Token for symbolic values: the text is fixed when the token is made"""
    sxtoken = True

    @classmethod
    def _future_new(cls, type, value, *a, **k):
        inst = _lx.Token._future_new.__func__(cls, type, value, *a, **k)
        inst.sxsrc = value
        return inst

    def __eq__(self, o):
        if isinstance(o, _lx.Token) and self.type != o.type:
            return False
        v = s_str(self)
        return v.__eq__(o) if is_sym(v) else str.__eq__(self, o)

    def __ne__(self, o):
        from .values import s_not
        return s_not(self.__eq__(o))

    __hash__ = _lx.Token.__hash__


_progs = {}


def _term_prog(t, gflags):
    rx = t.pattern.to_regexp()
    k = (rx, gflags)
    r = _progs.get(k)
    if r is None:
        r = _progs[k] = symre.program(rx, gflags)[0]
    return r


class SymScanner(Scanner):
    def __init__(self, terminals, g_regex_flags, re_, use_bytes):
        super().__init__(terminals, g_regex_flags, re_, use_bytes)
        self._tp = None

    def _terms(self):
        if self._tp is None:
            out = []
            for t in self.terminals:
                prog = _term_prog(t, self.g_regex_flags)
                out.append((t.name, prog, _first_mask(prog)))
            self._tp = out
            self._first = {}
        return self._tp

    def match(self, text, pos):
        s = text.text
        if type(s) is not SymStr:
            if not symre.COUNT[0]:
                return super().match(text, pos)
            cs = [ord(c) for c in s]
        else:
            cs = s.cs
        end = text.end
        terms = self._terms()
        ch = cs[pos]
        if type(ch) is int:
            lst = self._first.get(ch)
            if lst is None:
                lst = self._first[ch] = [t for t in terms if t[2] is None or t[2].fn(ch)]
            terms = lst
        p = core.cur()
        for name, prog, fm in terms:
            if fm is not None and type(ch) is not int and fm.test(ch) is False:
                continue
            r = symre.run(prog, cs, pos, end)
            if r is not None:
                return mkstr(cs[pos:r[0]]), name
        return None

    def fullmatch(self, text):
        if type(text) is not SymStr:
            return super().fullmatch(text)
        cs = text.cs
        terms = self._terms()
        for name, prog, fm in terms:
            if fm is not None and (fm.test(cs[0]) is False):
                continue
            r = symre.run(prog, cs, 0, len(cs), full=True)
            if r is not None:
                return name
        return None


def _first_mask(prog):
    """Single test every match must pass on its first character, or None"""
    if not prog:
        return None
    nd = prog[0]
    if nd[0] == "S":
        return nd[1]
    if nd[0] == "R1" and nd[1] > 0:
        return nd[3]
    if nd[0] == "G":
        return _first_mask(nd[2])
    return None


class SymBasicLexer(BasicLexer):
    def _build_scanner(self):
        terminals, self.callback = _create_unless(self.terminals, self.g_regex_flags, self.re, self.use_bytes)
        assert all(self.callback.values())
        for type_, f in self.user_callbacks.items():
            if type_ in self.callback:
                self.callback[type_] = _lx.CallChain(self.callback[type_], f, lambda t: t.type == type_)
            else:
                self.callback[type_] = f
        return SymScanner(terminals, self.g_regex_flags, self.re, self.use_bytes)

    def next_token(self, lex_state, parser_state=None):
        line_ctr = lex_state.line_ctr
        while line_ctr.char_pos < lex_state.text.end:
            res = self.match(lex_state.text, line_ctr.char_pos)
            if not res:
                allowed = self.scanner.allowed_types - self.ignore_types
                if not allowed:
                    allowed = {"<END-OF-FILE>"}
                raise UnexpectedCharacters(lex_state.text.text, line_ctr.char_pos, line_ctr.line, line_ctr.column,
                                           allowed=allowed,
                                           token_history=lex_state.last_token and [lex_state.last_token],
                                           state=parser_state, terminals_by_name=self.terminals_by_name)
            value, type_ = res
            ignored = type_ in self.ignore_types
            t = None
            if not ignored or type_ in self.callback:
                t = Token(type_, value, line_ctr.char_pos, line_ctr.line, line_ctr.column)
            line_ctr.feed(value, type_ in self.newline_types)
            if t is not None:
                t.end_line = line_ctr.line
                t.end_column = line_ctr.column
                t.end_pos = line_ctr.char_pos
                if t.type in self.callback:
                    t = self.callback[t.type](t)
                if not ignored:
                    if not isinstance(t, (Token, _lx.Token)):
                        raise LexError("Callbacks must return a token (returned %r)" % t)
                    lex_state.last_token = t
                    return t
        raise EOFError(self)


def _create_unless(terminals, g_regex_flags, re_, use_bytes):
    # lark's own, with the symbolic scanner
    saved = _lx.Scanner
    _lx.Scanner = SymScanner
    try:
        return _lx._create_unless(terminals, g_regex_flags, re_, use_bytes)
    finally:
        _lx.Scanner = saved


class SymContextualLexer(ContextualLexer):
    BasicLexer = SymBasicLexer


class SymLexerThread(LexerThread):
    _Token = Token


plugins = {
    "BasicLexer": SymBasicLexer,
    "ContextualLexer": SymContextualLexer,
    "LexerThread": SymLexerThread,
}


# ------------------------------------------------------------------ Lark.open cache
_lark_cache = {}


class _Box:
    """per-handle lexer callbacks for a cached Lark instance"""

    def __init__(self):
        self.cb = {}


class LarkHandle:
    """a Lark instance shared between paths; the lexer callbacks are those of this handle"""

    def __init__(self, lark_obj, box, callbacks):
        self._l = lark_obj
        self._box = box
        self._cb = callbacks

    def parse_interactive(self, *a, **k):
        ip = self._l.parse_interactive(*a, **k)
        return _IP(ip, self)

    def parse(self, *a, **k):
        self._box.cb = self._cb
        return self._l.parse(*a, **k)

    def __getattr__(self, n):
        self._box.cb = self._cb
        return getattr(self._l, n)


class _IP:
    def __init__(self, ip, h):
        self.__dict__["_ip"] = ip
        self.__dict__["_h"] = h

    def iter_parse(self):
        it = self._ip.iter_parse()
        while True:
            self._h._box.cb = self._h._cb
            try:
                t = next(it)
            except StopIteration:
                return
            yield t

    def __getattr__(self, n):
        self._h._box.cb = self._h._cb
        return getattr(self._ip, n)

    def __setattr__(self, n, v):
        setattr(self._ip, n, v)


def lark_open(grammar_filename, rel_to=None, **options):
    import os
    fn = os.path.join(os.path.dirname(rel_to), grammar_filename) if rel_to else grammar_filename
    cbs = options.get("lexer_callbacks") or {}
    st = os.stat(fn)
    key = (fn, st.st_mtime_ns, st.st_size, tuple(sorted(cbs)),
           tuple(sorted((k, repr(v) if k != "_plugins" else "p") for k, v in options.items()
                        if k != "lexer_callbacks")))
    ent = _lark_cache.get(key)
    if ent is None:
        box = _Box()
        opts = dict(options)
        opts["_plugins"] = plugins
        if cbs:
            opts["lexer_callbacks"] = {n: (lambda t, n=n: box.cb[n](t)) for n in cbs}
        ent = _lark_cache[key] = (lark.Lark.open(grammar_filename, rel_to=rel_to, **opts), box)
    return LarkHandle(ent[0], ent[1], cbs)


class LarkShim:
    """replaces the class Lark inside instrumented modules"""

    def __new__(cls, grammar, **options):
        opts = dict(options)
        opts["_plugins"] = plugins
        key = ("src", grammar if isinstance(grammar, str) else id(grammar))
        if options.get("lexer_callbacks"):
            return lark.Lark(grammar, **opts)
        key = key + (tuple(sorted((k, repr(v) if k != "_plugins" else "p") for k, v in options.items())),)
        ent = _lark_cache.get(key)
        if ent is None:
            ent = _lark_cache[key] = (lark.Lark(grammar, **opts), _Box())
        return LarkHandle(ent[0], ent[1], {})

    open = staticmethod(lark_open)
