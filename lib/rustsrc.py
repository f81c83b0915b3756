"""Mechanical extraction of Rust items from /repo's current source.

No rustc, no syn: a small lexer that understands comments, strings, raw strings, char literals and
lifetimes, plus brace matching.  Everything a template does to the text of an extracted item goes
through `Edits` (span replacement on the original text), so the text that reaches the verifier is the
text in /repo except for the edits listed in `DROPS` and in the template's own //@sub lines.
"""
import re


class LostAnchor(Exception):
    """The template refers to something the current source does not have in that shape."""


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9][0-9a-zA-Z_]*(\.[0-9][0-9a-zA-Z_]*)?([eE][+-]?[0-9_]+)?")
_RAW = re.compile(r'(?:b|c)?r(#*)"')
_WS = re.compile(r"\s+")


def lex(src, keep_comments=False):
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        m = _WS.match(src, i)
        if m:
            i = m.end()
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            if keep_comments:
                out.append(Tok("c", src[i:j], i, j))
            i = j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            if keep_comments:
                out.append(Tok("c", src[i:j], i, j))
            i = j
            continue
        m = _RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            j = n if j < 0 else j + len(end)
            out.append(Tok("s", src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("s", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            q = i if c == "'" else i + 1
            # char literal or lifetime
            if q + 1 < n and src[q + 1] == "\\":
                j = src.find("'", q + 3)
                j += 1
                out.append(Tok("s", src[i:j], i, j))
                i = j
                continue
            if q + 2 < n and src[q + 2] == "'":
                out.append(Tok("s", src[i:q + 3], i, q + 3))
                i = q + 3
                continue
            m = _ID.match(src, q + 1)
            if m and c == "'":
                out.append(Tok("l", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
        m = _ID.match(src, i)
        if m:
            out.append(Tok("i", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            e = m.end()
            # `0..5` is three tokens
            out.append(Tok("n", src[i:e], i, e))
            i = e
            continue
        for p in ("->", "=>", "::", "..=", "..", "&&", "||", "==", "!=", "<=", ">="):
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LostAnchor("unbalanced brackets")


class Item:
    """kind, name, attrs[(text)], span; for fn: sig/body token indexes; for impl: header text, children."""

    def __init__(self):
        self.kind = self.name = ""
        self.attrs = []
        self.start = self.vis_start = self.kw_start = self.end = 0
        self.body = None  # (tok index of '{', tok index of '}')
        self.tok0 = self.tok1 = 0
        self.header = ""
        self.children = None
        self.parent = None


def _skip_generics(toks, i):
    """toks[i] is '<': index after the matching '>'"""
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
            if d == 0:
                return i + 1
        elif t == "->" or t == "=>" or t == ">=":
            pass
        elif t in OPEN:
            i = match_close(toks, i)
        i += 1
    raise LostAnchor("unbalanced generics")


def parse_items(src, toks, lo, hi, parent=None):
    items = []
    i = lo
    while i < hi:
        it = Item()
        it.parent = parent
        it.tok0 = i
        it.start = toks[i].s
        while i < hi and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            j = match_close(toks, j)
            it.attrs.append(src[toks[i].s:toks[j].e])
            i = j + 1
        if i >= hi:
            break
        it.vis_start = toks[i].s
        if toks[i].t == "pub":
            i += 1
            if i < hi and toks[i].t == "(":
                i = match_close(toks, i) + 1
        it.kw_start = toks[i].s
        j = i
        while j < hi and toks[j].t in ("default", "const", "async", "unsafe", "extern", "auto") and not (
                toks[j].t == "const" and toks[j + 1].k == "i" and toks[j + 1].t not in ("fn", "unsafe", "async", "extern")):
            if toks[j].t == "extern" and toks[j + 1].k == "s":
                j += 1
            if toks[j].t == "extern" and toks[j + 1].t == "crate":
                break
            j += 1
        kw = toks[j].t if j < hi else ""
        it.kind = kw
        if kw == "fn":
            it.name = toks[j + 1].t
            q = j + 2
            if toks[q].t == "<":
                q = _skip_generics(toks, q)
            while q < hi and toks[q].t not in ("{", ";"):
                if toks[q].t in ("(", "["):
                    q = match_close(toks, q)
                q += 1
            if toks[q].t == "{":
                c = match_close(toks, q)
                it.body = (q, c)
                i = c + 1
            else:
                i = q + 1
        elif kw in ("struct", "enum", "union", "trait", "mod", "impl"):
            if kw != "impl":
                it.name = toks[j + 1].t
            q = j + 1
            while q < hi and (toks[q].t not in ("{", ";") or (toks[q].t == "{" and toks[q - 1].t == "<")):
                if toks[q].t in ("(", "[", "{"):        # `<{ N }>` is a const argument
                    q = match_close(toks, q)
                q += 1
            it.header = src[toks[j].s:toks[q].s]
            if toks[q].t == "{":
                c = match_close(toks, q)
                it.body = (q, c)
                i = c + 1
            else:
                i = q + 1
            if kw == "impl":
                it.name = norm_impl(it.header)
            if kw in ("trait", "mod", "impl") and it.body:
                it.children = (it.body[0] + 1, it.body[1])
        elif kw in ("const", "static", "type", "use", "extern") or (kw == "let"):
            it.name = toks[j + 1].t
            if it.name == "mut":
                it.name = toks[j + 2].t
            q = j
            while q < hi and toks[q].t != ";":
                if toks[q].t in OPEN:
                    q = match_close(toks, q)
                q += 1
            i = q + 1
        else:  # macro invocation or macro_rules
            it.kind = "macro"
            it.name = kw
            q = j
            while q < hi and toks[q].t not in OPEN and toks[q].t != ";":
                q += 1
            if q < hi and toks[q].t in OPEN:
                br = toks[q].t
                if toks[j].t == "macro_rules":
                    it.kind, it.name = "macro_rules", toks[j + 2].t
                q = match_close(toks, q)
                if br != "{" and q + 1 < hi and toks[q + 1].t == ";":
                    q += 1
            i = q + 1
        it.tok1 = i
        it.end = toks[i - 1].e
        items.append(it)
    return items


def nested_items(src, toks, it):
    """items declared at the top level of a function body"""
    out = []
    i = it.body[0] + 1
    while i < it.body[1]:
        if toks[i].t in ("struct", "enum", "impl", "fn", "use", "const") and toks[i - 1].t in ("{", "}", ";"):
            sub = first_item(src, toks, i, it.body[1], it)
            out.append(sub)
            i = sub.tok1
            continue
        if toks[i].t in OPEN:
            i = match_close(toks, i)
        i += 1
    return out


def first_item(src, toks, lo, hi, parent):
    """the one item starting at token lo"""
    j = lo
    while j < hi and toks[j].t not in ("{", ";"):
        if toks[j].t in ("(", "["):
            j = match_close(toks, j)
        j += 1
    end = match_close(toks, j) + 1 if toks[j].t == "{" else j + 1
    if toks[lo].t == "use":
        while toks[j].t != ";":
            j += 1
        end = j + 1
    return parse_items(src, toks, lo, end, parent)[0]


def strip_generics(t):
    out, d = [], 0
    t = t.replace("->", "@@")
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out).replace("@@", "->")


def norm_impl(header):
    """`impl<T: X> Foo<T> for a::Bar<T> where ..` -> `Foo for Bar`"""
    h = header.strip()
    assert h.startswith("impl")
    h = h[4:].lstrip()
    h = strip_generics(h)
    h = re.split(r"\bwhere\b", h)[0]
    parts = re.split(r"\bfor\b", h)
    names = []
    for p in parts:
        p = p.strip().lstrip("&").strip()
        p = re.sub(r"^'\w+\s+", "", p)
        p = re.sub(r"\b(mut|dyn)\b", "", p).strip()
        names.append(p.split("::")[-1].strip())
    return " for ".join(names)


def is_test_attr(attrs):
    return any(re.search(r"cfg\s*\(\s*(test\b|any\s*\(\s*test)", a) or re.search(r"#\[\s*test\s*\]", a) for a in attrs)


class Source:
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        self.src = text
        self.toks = lex(self.src)
        self.items = parse_items(self.src, self.toks, 0, len(self.toks))
        self._kids = {}

    def kids(self, it):
        if it.kind == "fn" and it.body:
            if id(it) not in self._kids:
                self._kids[id(it)] = nested_items(self.src, self.toks, it)
            return self._kids[id(it)]
        if it.children is None:
            return []
        if id(it) not in self._kids:
            self._kids[id(it)] = parse_items(self.src, self.toks, it.children[0], it.children[1], it)
        return self._kids[id(it)]

    def walk(self, items=None):
        for it in (self.items if items is None else items):
            if is_test_attr(it.attrs):
                continue
            yield it
            if it.kind in ("impl", "mod", "trait"):
                yield from self.walk(self.kids(it))

    def find(self, path):
        """path: segments separated by ' :: ', each `kind name` (fn foo, impl Foo, impl Tr for Foo, ...)"""
        segs = [s.strip() for s in path.split(" :: ")]
        level = [(it, None) for it in self.items]
        cur = [it for it in self.items if not is_test_attr(it.attrs)]
        for n, seg in enumerate(segs):
            kind, name = seg.split(None, 1)
            hits = [it for it in cur if it.kind == kind and it.name == name]
            if kind == "impl" and "<" in name:
                # `impl From<A> for B`: the trait's own arguments decide between several impls
                want = re.sub(r"\s+", "", name.split(" for ")[0])
                hits = [it for it in cur if it.kind == "impl" and it.name == norm_impl("impl " + name)
                        and want in re.sub(r"\s+", "", self.src[it.start:it.end].split("{")[0])]
            if kind == "impl" and " for " in name:
                # `impl Tr for &T` and `impl Tr for T` share a name
                def hdr(it):
                    return re.sub(r"\s+", "", self.src[it.start:it.end].split("{")[0])
                if " for &" in name:
                    want = "for" + re.sub(r"\s+", "", name.split(" for ")[1])
                    hits = [it for it in cur if it.kind == "impl" and it.name == name.replace(" for &", " for ") and want in hdr(it)]
                elif len(hits) > 1:
                    hits = [it for it in hits if "for&" not in hdr(it)] or hits
                    want = "for" + re.sub(r"\s+", "", name.split(" for ")[1])
                    hits = [it for it in hits if want in hdr(it)] or hits
            if not hits:
                raise LostAnchor(f"{self.path}: no `{path}` (segment `{seg}`)")
            if n + 1 == len(segs):
                return hits[0] if len(hits) == 1 else hits[0]
            cur = [k for h in hits for k in self.kids(h) if not is_test_attr(k.attrs)]
        raise LostAnchor(path)

    def text(self, it):
        return self.src[it.start:it.end]


# ------------------------------------------------------------------ text-level rewriting of one item

TRACE = {"debug", "info", "trace", "warn", "error"}
DROPS = [
    "comments and doc comments",
    "attributes (#[instrument], #[inline], #[derive], #[cfg(..)] on the item; statements under #[cfg(test)])",
    "tracing macros debug!/info!/trace!/warn!/error! (whole statement; as a block tail replaced by ())",
    "visibility qualifiers (rewritten to pub)",
]


class Edits:
    def __init__(self, text):
        self.text = text
        self.ed = []

    def rep(self, s, e, new):
        self.ed.append((s, e, new))

    def apply(self):
        out, p = [], 0
        seen = -1
        for s, e, new in sorted(self.ed, key=lambda x: (x[0], x[1])):
            if s < p:  # nested inside an already removed span
                continue
            out.append(self.text[p:s])
            out.append(new)
            p = e
        out.append(self.text[p:])
        return "".join(out)


def strip_comments(text):
    ed = Edits(text)
    for t in lex(text, keep_comments=True):
        if t.k == "c":
            ed.rep(t.s, t.e, "")
    return ed.apply()


def clean(text, drop_tracing=True, keep_attrs=()):
    """comments, attributes, tracing macros and #[cfg(test)] statements out"""
    text = strip_comments(text)
    toks = lex(text)
    ed = Edits(text)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t == "macro_rules" and i + 3 < len(toks) and toks[i + 1].t == "!" and toks[i + 3].t in OPEN:
            i = match_close(toks, i + 3) + 1      # a macro's own text stays as it is
            continue
        if t.t == "#" and i + 1 < len(toks) and toks[i + 1].t in ("[", "!"):
            j = i + 1
            if toks[j].t == "!":
                j += 1
            if toks[j].t != "[":
                i += 1
                continue
            j = match_close(toks, j)
            a = text[t.s:toks[j].e]
            if is_test_attr([a]):
                # drop the attribute and the statement / item / field it guards
                q = j + 1
                while q < len(toks) and toks[q].t not in (";", "}", ","):
                    if toks[q].t in OPEN:
                        c = match_close(toks, q)
                        if toks[q].t == "{":
                            q = c
                            break
                        q = c
                    q += 1
                if q < len(toks) and toks[q].t in (";", ","):
                    ed.rep(t.s, toks[q].e, "")
                elif q < len(toks) and toks[q].t == "}" and match_open_of(toks, q) >= i:
                    ed.rep(t.s, toks[q].e, "")
                else:
                    ed.rep(t.s, toks[q].s, "")
                i = q + 1
                continue
            if not any(k in a for k in keep_attrs):
                ed.rep(t.s, toks[j].e, "")
            i = j + 1
            continue
        if drop_tracing and t.k == "i" and t.t in TRACE and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in OPEN:
            s = t.s
            if i >= 2 and toks[i - 1].t == "::" and toks[i - 2].t == "tracing":
                s = toks[i - 2].s
            j = match_close(toks, i + 2)
            if j + 1 < len(toks) and toks[j + 1].t == ";":
                ed.rep(s, toks[j + 1].e, "")
                i = j + 2
            else:
                ed.rep(s, toks[j].e, "()")
                i = j + 1
            continue
        i += 1
    return ed.apply()


def match_open_of(toks, i):
    d = 0
    for j in range(i, -1, -1):
        t = toks[j]
        if t.k == "p":
            if t.t in CLOSE:
                d += 1
            elif t.t in OPEN:
                d -= 1
                if d == 0:
                    return j
    return -1


def expand_macro(text, name, fn):
    """replace every `name!( a , b , ..)` by fn([a, b, ..])"""
    while True:
        toks = lex(text)
        for i, t in enumerate(toks):
            if t.k == "i" and t.t == name and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in OPEN:
                j = match_close(toks, i + 2)
                args = split_args(text, toks, i + 3, j)
                text = text[:t.s] + fn(args) + text[toks[j].e:]
                break
        else:
            return text


def split_args(text, toks, lo, hi, types=False):
    out, s, i = [], lo, lo
    d = 0
    while i < hi:
        t = toks[i].t
        if t in OPEN:
            i = match_close(toks, i)
        elif types and t in ("<", "<<"):
            d += len(t)
        elif types and t in (">", ">>"):
            d -= len(t)
        elif t == "," and d == 0:
            out.append(text[toks[s].s:toks[i].s].strip())
            s = i + 1
        i += 1
    if s < hi:
        out.append(text[toks[s].s:toks[hi - 1].e].strip())
    return out


class FnText:
    """one extracted function, after clean()"""

    def __init__(self, text):
        self.text = text
        self.reparse()

    def reparse(self):
        self.toks = lex(self.text)
        its = parse_items(self.text, self.toks, 0, len(self.toks))
        fns = [x for x in its if x.kind == "fn"]
        if len(fns) != 1:
            raise LostAnchor("extracted text is not one function")
        self.it = fns[0]
        self.name = self.it.name

    def set_pub(self):
        self.text = ("pub " if True else "") + self.text[self.it.kw_start:]
        self.reparse()

    def no_pub(self):
        self.text = self.text[self.it.kw_start:]
        self.reparse()

    def params(self):
        i = next(k for k, t in enumerate(self.toks) if t.t == "fn") + 2
        if self.toks[i].t == "<":
            i = _skip_generics(self.toks, i)
        j = match_close(self.toks, i)
        return i, j

    def param_list(self):
        i, j = self.params()
        return split_args(self.text, self.toks, i + 1, j, types=True)

    def ret_span(self):
        """(arrow_tok, start_off, end_off) of the return type or None"""
        _, j = self.params()
        b = self.it.body[0] if self.it.body else len(self.toks) - 1
        if self.toks[j + 1].t != "->":
            return None
        q = j + 2
        while q < b and self.toks[q].t != "where":
            if self.toks[q].t in ("(", "["):
                q = match_close(self.toks, q)
            q += 1
        return self.toks[j + 1].s, self.toks[j + 2].s, self.toks[q - 1].e

    def name_ret(self, r):
        sp = self.ret_span()
        if sp is None:
            return
        a, s, e = sp
        self.text = self.text[:s] + f"({r}: {self.text[s:e]})" + self.text[e:]
        self.reparse()

    def loops(self):
        """[(kw_tok, in_tok or None, brace_tok)] of the loops in source order"""
        out = []
        b0, b1 = self.it.body
        i = b0 + 1
        while i < b1:
            t = self.toks[i]
            if t.k == "i" and t.t in ("for", "while", "loop") and self.toks[i + 1].t != "<":
                q = i + 1
                intok = None
                while self.toks[q].t != "{":
                    if self.toks[q].t in ("(", "["):
                        q = match_close(self.toks, q)
                    elif self.toks[q].t == "in" and intok is None:
                        intok = q
                    q += 1
                out.append((i, intok, q))
            i += 1
        return out

    def calls(self):
        """names called: [(form, name, start, end_of_args)] form in {'free','self','Self'}"""
        out = []
        if not self.it.body:
            return out
        b0, b1 = self.it.body
        for i in range(b0, b1):
            t = self.toks[i]
            if t.k != "i" or self.toks[i + 1].t != "(":
                continue
            prev = self.toks[i - 1].t
            if prev == "." and self.toks[i - 2].t == "self" and self.toks[i - 3].t != ".":
                out.append(("self", t.t, i))
            elif prev == "::" and self.toks[i - 2].t == "Self":
                out.append(("Self", t.t, i))
            elif prev not in (".", "::", "fn", "!"):
                out.append(("free", t.t, i))
        return out
