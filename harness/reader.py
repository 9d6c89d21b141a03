"""An independent reader of written Mapfile text (it shares nothing with mappyfile's grammar).

read(text) -> list of nodes; a node is [keyword, tokens, children or None]; a token is (class, content) with
class one of str (quoted), num, bare, bind, expr, regex, list.  Works on strings with symbolic characters."""

BLOCKY = ("class", "cluster", "composite", "feature", "grid", "join", "label", "layer", "leader", "legend", "map",
          "outputformat", "querymap", "reference", "scalebar", "scaletoken", "style", "web", "symbol", "symbolset",
          "metadata", "validation", "values", "connectionoptions", "points", "pattern", "projection")
PAIRBLOCKS = ("metadata", "validation", "values", "connectionoptions", "points", "pattern", "projection")


class ReadError(Exception):
    pass


def tokenize(text):
    """lines of tokens; a newline inside a string does not end the line"""
    lines, cur = [], []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c == "\n":
            if cur:
                lines.append(cur)
            cur = []
            i += 1
        elif c == " " or c == "\t":
            i += 1
        elif c == "#":
            while i < n and not text[i] == "\n":
                i += 1
        elif c == '"' or c == "'":
            q = c
            j = i + 1
            s = ""
            while True:
                if j >= n:
                    raise ReadError("unterminated string")
                d = text[j]
                if d == "\\" and j + 1 < n and text[j + 1] == q:
                    s = s + q
                    j += 2
                elif d == q:
                    break
                else:
                    s = s + d
                    j += 1
            j += 1
            if j < n and text[j] == "i" and (j + 1 >= n or text[j + 1] in " \n"):
                cur.append(("istr", s))
                j += 1
            else:
                if j < n and not text[j] in " \n\t":
                    raise ReadError("text glued to a string")
                cur.append(("str", s))
            i = j
        elif c == "[":
            j = i
            while j < n and not text[j] == "]":
                j += 1
            cur.append(("bind", text[i:j + 1]))
            i = j + 1
        elif c == "{":
            j = i
            while j < n and not text[j] == "}":
                j += 1
            cur.append(("list", text[i:j + 1]))
            i = j + 1
        elif c == "(":
            depth, j = 0, i
            while True:
                if j >= n:
                    raise ReadError("unterminated expression")
                d = text[j]
                if d == "(":
                    depth += 1
                elif d == ")":
                    depth -= 1
                    if depth == 0:
                        break
                elif d == '"' or d == "'":
                    j += 1
                    while j < n and not text[j] == d:
                        j += 1
                j += 1
            cur.append(("expr", text[i:j + 1]))
            i = j + 1
        elif c == "/":
            j = i + 1
            while j < n and not text[j] in "/\n":
                j += 1
            if j >= n or text[j] == "\n":
                raise ReadError("unterminated regex")
            j += 1
            if j < n and text[j] == "i":
                j += 1
            cur.append(("regex", text[i:j]))
            i = j
        else:
            j = i
            while j < n and not text[j] in " \n\t":
                j += 1
            cur.append(("bare", text[i:j]))
            i = j
    if cur:
        lines.append(cur)
    return lines


def read(text):
    lines = tokenize(text)
    pos = 0
    roots = []
    stack = []
    while pos < len(lines):
        ln = lines[pos]
        pos += 1
        top = stack[-1] if stack else None
        if len(ln) == 1 and ln[0][0] == "bare" and ln[0][1] == "END":
            if not stack:
                raise ReadError("END without a block")
            stack.pop()
            continue
        if top is not None and top[0] in PAIRBLOCKS:
            top[2].append(["", ln, None])
            continue
        kw = ln[0]
        if not kw[0] == "bare":
            raise ReadError("a line does not start with a keyword")
        low = kw[1].lower()
        node = [low, ln[1:], None]
        if not kw[1] == kw[1].upper():
            raise ReadError("keyword not in upper case")
        if len(ln) == 1 and low in BLOCKY:
            node[2] = []
            (stack[-1][2] if stack else roots).append(node)
            stack.append(node)
        else:
            if not stack:
                raise ReadError("keyword outside a block")
            stack[-1][2].append(node)
    if stack:
        raise ReadError("missing END")
    return roots
