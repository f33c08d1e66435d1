"""A small, total reader for (macro-expanded) Rust source.

It only understands what mechanical extraction needs: tokens, balanced brackets
and the item structure (modules, impls, traits, functions).  The text it hands
out is always a verbatim slice of the source it was given, comments and
attributes excepted.
"""
import re

_TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<raw>(?:br|r|cr)(?P<h>\#*)".*?"(?P=h))
  | (?P<str>(?:b|c)?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?(?:[eE][+-]?\d+)?)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|>>=)
  | (?P<p>.)
""", re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


class Tok:
    __slots__ = ("kind", "text", "start", "end", "match")

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end
        self.match = None

    def __repr__(self):
        return self.text


class ReadError(Exception):
    pass


def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = _TOKEN.match(src, i)
        kind = m.lastgroup
        if kind == "h":
            kind = "raw"
        # `1..2` and `1.method()` : the number regex must not eat the range
        if m.group("num") is not None:
            kind = "num"
        if kind not in ("ws", "lc"):
            toks.append(Tok(kind, m.group(0), i, m.end()))
        i = m.end()
    stack = []
    for k, t in enumerate(toks):
        if t.kind != "p":
            continue
        if t.text in OPEN:
            stack.append(k)
        elif t.text in CLOSE:
            if not stack or toks[stack[-1]].text != CLOSE[t.text]:
                raise ReadError(f"unbalanced {t.text} at {t.start}")
            o = stack.pop()
            toks[o].match = k
            t.match = o
    if stack:
        raise ReadError("unbalanced brackets")
    return toks


class Item:
    def __init__(self, kind, name, path, header, body, src, toks, lo, hi, parent):
        self.kind, self.name, self.path = kind, name, path
        self.header, self.body = header, body  # token ranges (lo, hi), body excludes braces
        self.src, self.toks, self.lo, self.hi, self.parent = src, toks, lo, hi, parent
        self.items = []

    def text(self, lo, hi):
        return render(self.src, self.toks, lo, hi)

    @property
    def header_text(self):
        return norm(self.text(*self.header))

    @property
    def body_text(self):
        return self.text(*self.body) if self.body else None


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def render(src, toks, lo, hi):
    """The verbatim source of a token range, comments removed, layout kept."""
    out, prev = [], None
    for t in toks[lo:hi]:
        if prev is not None:
            gap = src[prev.end:t.start]
            if gap.strip() == "":
                out.append(gap)
            else:
                out.append("\n" if "\n" in gap else " ")
        out.append(t.text)
        prev = t
    return "".join(out)


_ITEM_KW = {"fn", "mod", "impl", "trait", "struct", "enum", "union", "use", "const", "static", "type", "macro_rules", "extern"}


def _skip_attrs(toks, i, hi):
    while i < hi and toks[i].text == "#":
        j = i + 1
        if j < hi and toks[j].text == "!":
            j += 1
        if j < hi and toks[j].text == "[":
            i = toks[j].match + 1
        else:
            break
    return i


def _find_body(toks, i, hi):
    """From an item start, the index of its `{` body or terminating `;`."""
    angle = 0
    while i < hi:
        t = toks[i]
        if t.text in ("(", "["):
            i = t.match + 1
            continue
        if t.text == "{":
            return i
        if t.text == ";":
            return i
        i += 1
    return None


def parse(src):
    toks = lex(src)
    root = Item("mod", "", "", (0, 0), (0, len(toks)), src, toks, 0, len(toks), None)
    _parse_items(root, toks, src)
    return root


def _parse_items(parent, toks, src):
    i, hi = parent.body
    while i < hi:
        start = _skip_attrs(toks, i, hi)
        i = start
        if i >= hi:
            break
        # visibility and qualifiers
        k = i
        if toks[k].text == "pub":
            k += 1
            if k < hi and toks[k].text == "(":
                k = toks[k].match + 1
        q = k
        while q < hi and toks[q].text in ("const", "unsafe", "async", "default", "extern") or (
            q < hi and toks[q].kind == "str" and toks[q - 1].text == "extern"
        ):
            if toks[q].text == "const" and toks[q + 1].text not in ("fn", "unsafe", "extern", "async"):
                break
            q += 1
        kw = toks[q].text if q < hi else ""
        if kw not in ("fn", "mod", "impl", "trait", "struct", "enum", "union"):
            kw0 = toks[k].text
            # anything else runs to `;` or a brace group
            j = k
            while j < hi and toks[j].text not in (";", "{"):
                j = toks[j].match + 1 if toks[j].text in ("(", "[") else j + 1
            if j < hi and toks[j].text == "{":
                if kw0 in ("use", "const", "static", "type", "let"):
                    while j < hi and toks[j].text != ";":
                        j = toks[j].match + 1 if toks[j].text in OPEN else j + 1
                    end = j + 1
                else:
                    end = toks[j].match + 1
                    if end < hi and toks[end].text == ";":
                        end += 1
            else:
                end = j + 1
            name = toks[k + 1].text if k + 1 < hi else ""
            it = Item(kw0, name, _join(parent.path, name), (start, end), None, src, toks, start, end, parent)
            parent.items.append(it)
            if kw0 == "const" and name == "_":
                # `const _: () = { items };`, where derive macros put what they write
                eq = next((j for j in range(k, end) if toks[j].text == "="), end)
                if eq + 1 < end and toks[eq + 1].text == "{":
                    it.path, it.body = parent.path, (eq + 2, toks[eq + 1].match)
                    _parse_items(it, toks, src)
            i = end
            continue
        b = _find_body(toks, q, hi)
        if b is None:
            raise ReadError(f"no body for item at {toks[q].start}")
        if toks[b].text == "{":
            body = (b + 1, toks[b].match)
            end = toks[b].match + 1
        else:
            body, end = None, b + 1
        if kw == "impl":
            name = "impl"
            seg = norm(render(src, toks, q, b))
            path = _join(parent.path, "{" + seg + "}")
        else:
            name = toks[q + 1].text
            path = _join(parent.path, name)
        it = Item(kw, name, path, (start, b), body, src, toks, start, end, parent)
        parent.items.append(it)
        if body and kw in ("mod", "impl", "trait"):
            _parse_items(it, toks, src)
        i = end


def _join(a, b):
    return f"{a}::{b}" if a else b


def walk(item):
    yield item
    for c in item.items:
        yield from walk(c)


# --- loops and calls inside a function body -------------------------------

def loops(item):
    """Loop headers in a body, outermost first in source order: (kw index, `{` index)."""
    out = []
    toks = item.toks
    lo, hi = item.body
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.text in ("for", "while", "loop"):
            if t.text == "for" and toks[i + 1].text == "<":
                i += 1
                continue
            j = i + 1
            while j < hi and toks[j].text != "{":
                j = toks[j].match + 1 if toks[j].text in ("(", "[") else j + 1
            out.append((i, j))
        i += 1
    return out
