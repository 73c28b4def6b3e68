"""A small reader of block YAML that keeps comments: the independent oracle for what a piece of recipe text says.

Nodes (class T): root(kids) | key(key, comment, kids) | item(value, comment) | coll(comment, kids) | scalar(value, comment) | comment(text).
"""

from __future__ import annotations

import json
import re
from typing import Any, Optional


class Invalid(Exception):
    """Text no YAML parser accepts: the entries at one indentation are not of one kind."""


class Unsupported(Exception):
    pass


class T:
    __slots__ = ("kind", "key", "value", "comment", "kids", "multi", "new", "raw")

    def __init__(self, kind: str, key: Any = None, value: Any = None, comment: str = "", kids: Optional[list] = None, multi: str = "") -> None:
        self.kind, self.key, self.value, self.comment, self.kids, self.multi, self.new = kind, key, value, comment, kids if kids is not None else [], multi, False
        self.raw: Optional[list] = None  # the lines of a multi-line text
        if multi and isinstance(value, list):
            self.raw, self.value = value, fold(multi, value)

    def copy(self) -> "T":
        t = T(self.kind, self.key, self.value, self.comment, [k.copy() for k in self.kids], self.multi)
        t.new, t.raw = self.new, self.raw
        return t

    def real(self) -> list:
        return [k for k in self.kids if k.kind != "comment"]

    def __repr__(self) -> str:
        return f"T({self.kind}, {self.key!r}, {self.value!r}, {self.comment!r}, {self.kids!r})"


_KEY = re.compile(r"""("(?:[^"\\]|\\.)*"|'[^']*'|[^\s#"'\[\]{}&*!|>%@`,?:-][^#:]*?|[^\s"'\[\]{}&*!|>%@`,?:#-][^:]*?)\s*:(?=\s|$)""")
_JKEY = re.compile(r"(\{\{[^{}]*\}\}[\w.-]*)\s*:(?=\s|$)")
_INT, _FLT = re.compile(r"[-+]?(0|[1-9][0-9_]*)$"), re.compile(r"[-+]?[0-9][0-9_]*\.[0-9_]*([eE][-+][0-9]+)?$")


JINJA = [False]  # whether values may start with a Jinja substitution


def scalar(s: str) -> Any:
    s = s.strip()
    if s in ("", "~", "null", "Null", "NULL"):
        return None
    if s.lower() in ("true", "yes", "on"):
        return True
    if s.lower() in ("false", "no", "off"):
        return False
    if _INT.match(s):
        return int(s.replace("_", ""))
    if _FLT.match(s):
        return float(s.replace("_", ""))
    m = re.match(r"([-+]?)0(?:x([0-9a-fA-F_]+)|b([01_]+)|([0-7_]+))$", s)
    if m:
        n = int(m.group(2), 16) if m.group(2) else int(m.group(3), 2) if m.group(3) else int(m.group(4), 8)
        return -n if m.group(1) == "-" else n
    if s[0] == '"':
        if len(s) < 2 or s[-1] != '"':
            raise Invalid(s)
        return json.loads(s)
    if s[0] == "'":
        if len(s) < 2 or s[-1] != "'":
            raise Invalid(s)
        return s[1:-1].replace("''", "'")
    if s == "[]":
        return []
    if s == "{}":
        return {}
    if re.fullmatch(r"""\[(\w+|'[^',\[\]]*'|"[^",\[\]]*")(, (\w+|'[^',\[\]]*'|"[^",\[\]]*"))*\]""", s):
        return [scalar(x) for x in s[1:-1].split(", ")]
    if s.startswith("{{"):
        if JINJA[0] and re.match(r"(\{\{[^{}]*\}\}[^{}]*)+$", s):
            return s
        raise Invalid(s)
    if re.match(r"[*&][^\w-]", s) or s[0] in "`@%}]," or re.match(r"[|>](?![-+]?\d?$|\d[-+]$)", s):
        raise Invalid(s)
    if s[0] in "[{&*!|>%@`,?" or s.startswith("- ") or re.match(r"[0-9]+(:[0-9]+)+$|[0-9]{4}-[0-9]|0[xob0-9]|[-+.]?\.?(inf|nan)$", s, re.I) or ": " in s or s.endswith(":"):
        raise Unsupported(s)
    return s


def recipe(text: str) -> T:
    """What a recipe says: lines with only Jinja statements or Jinja remarks are not part of the document."""
    JINJA[0] = True
    try:
        return parse("\n".join(l for l in text.split("\n") if not re.match(r"\s*(\{%.*%\}|\{#.*#\})\s*$", l)))
    finally:
        JINJA[0] = False


def cut(s: str) -> tuple:
    """Text and trailing comment of a line."""
    q = None
    for i, c in enumerate(s):
        if q:
            if c == q and not (q == '"' and s[i - 1] == "\\"):
                q = None
        elif c in "\"'" and (i == 0 or s[i - 1] in " :[-,"):
            q = c
        elif c == "#" and (i == 0 or s[i - 1] in " \t"):
            return s[:i].rstrip(), s[i:].rstrip()
    return s.rstrip(), ""


def parse(text: str) -> T:
    lines = []
    for n, l in enumerate(text.split("\n")):
        if l.strip():
            if "\t" in l:
                raise Unsupported("tab")
            lines.append((len(l) - len(l.lstrip(" ")), l.strip(" "), l))
        else:
            lines.append((None, "", l))
    p = _Parser(lines)
    p.skip()
    root = T("root")
    if p.i < len(lines) and not lines[p.i][1].startswith(("#", "- ")) and lines[p.i][1] != "-" and not _KEY.match(lines[p.i][1]) and not _JKEY.match(lines[p.i][1]):
        body = [l for l in lines if l[0] is not None]
        if body[0][1][0] in "|>":
            m = re.match(r"([|>][-+]?)\s*(#.*)?$", body[0][1])
            if not m:
                raise Unsupported(body[0][1])
            p.i += 1
            root.kids = [T("scalar", value=p.block(m.group(1), -1), multi=m.group(1))]
            return root
        if len(body) > 1:
            raise Unsupported("multi-line scalar")
        t, c = cut(body[0][1])
        root.kids = [T("scalar", value=scalar(t), comment=c)]
        return root
    root.kids = p.kids(-1)
    p.skip()
    if p.i < len(lines):
        raise Invalid(lines[p.i][1])
    return root


class _Parser:
    def __init__(self, lines: list) -> None:
        self.l, self.i = lines, 0

    def skip(self) -> None:
        while self.i < len(self.l) and self.l[self.i][0] is None:
            self.i += 1

    def kids(self, above: int, same_list: bool = False) -> list:
        """Entries of the block whose indentation is larger than `above` (a list may also start at the indentation of its key)."""
        out: list = []
        ind: Optional[int] = None
        kind = None
        while True:
            self.skip()
            if self.i >= len(self.l):
                return out
            n, s, _ = self.l[self.i]
            if s.startswith("#"):
                # a comment belongs to the entry that follows it, or ends the block
                j = self.i
                while j < len(self.l) and (self.l[j][0] is None or self.l[j][1].startswith("#")):
                    j += 1
                nx = self.l[j][0] if j < len(self.l) else -1
                if (n <= above and not (same_list and n == above)) and (nx <= above):
                    return out
                if ind is not None and nx < ind and n < ind:
                    return out
                out.append(T("comment", comment=s.rstrip()))
                self.i += 1
                continue
            is_item = s == "-" or s.startswith("- ")
            if ind is None:
                if n <= above and not (same_list and n == above and is_item):
                    return out
                ind, kind = n, is_item
            if n != ind:
                if n > ind:
                    raise Unsupported("indentation")
                return out
            if is_item != kind:
                if not is_item or n > above:
                    return out
                return out
            self.i += 1
            out.append(self.item(n, s) if is_item else self.entry(n, s))

    def item(self, n: int, s: str) -> T:
        rest = s[1:].lstrip(" ")
        off = n + (len(s) - len(rest))
        if not rest or rest.startswith("#"):
            k = self.kids(n)
            return T("coll", comment=rest, kids=k) if k else T("item", value=None, comment=rest)
        if rest.startswith("- ") or _KEY.match(rest) or _JKEY.match(rest):
            self.i -= 1
            self.l[self.i] = (off, rest, rest)
            return T("coll", kids=self.kids(n))
        m = re.match(r"([|>][-+]?)\s*(#.*)?$", rest)
        if m:
            return T("item", value=self.block(m.group(1), n), comment=m.group(2) or "", multi=m.group(1))
        t, c = cut(rest)
        return T("item", value=scalar(t), comment=c)

    def entry(self, n: int, s: str) -> T:
        m = _KEY.match(s) or (_JKEY.match(s) if JINJA[0] else None)
        if not m and _JKEY.match(s):
            raise Invalid(s)  # a mapping as a key
        if not m:
            raise Unsupported(s)
        key = m.group(1) if m.group(1).startswith("{{") else scalar(m.group(1))
        t, c = cut(s[m.end():].strip())
        if not t:
            return T("key", key=key, comment=c, kids=self.kids(n, True))
        b = re.match(r"([|>][-+]?)$", t)
        if b:
            return T("key", key=key, comment=c, kids=[T("scalar", value=self.block(t, n), multi=t)])
        return T("key", key=key, comment=c, kids=[T("scalar", value=scalar(t), comment=c)])

    def block(self, style: str, above: int) -> list:
        got: list = []
        ind = None
        while self.i < len(self.l):
            n, s, raw = self.l[self.i]
            if n is not None:
                if n <= above:
                    break
                if ind is None:
                    ind = n
            got.append(raw[ind:] if n is not None and ind is not None else "")
            self.i += 1
        while got and not got[-1]:
            got.pop()
        return got


def fold(style: str, got: list) -> str:
    """What the lines of a multi-line text stand for; the final line break is not told apart."""
    got = list(got)
    while got and not got[-1]:
        got.pop()
    if style[0] == "|":
        return "\n".join(got)
    if any(x.startswith(" ") for x in got):
        raise Unsupported("folded text with more indented lines")
    v, run = "", 0
    for i, x in enumerate(got):
        if not x:
            run += 1
            continue
        v += ("" if i == 0 else "\n" * run if run else " ") + x
        run = 0
    return v


# ---- the data a tree stands for ------------------------------------------------------------------------------------


def data(t: T) -> Any:
    ks = t.real()
    if t.kind in ("item", "scalar"):
        return t.value
    if not ks:
        return None
    if ks[0].kind == "scalar":
        return ks[0].value
    if ks[0].kind == "key":
        return {k.key: data(k) for k in ks}
    return [data(k) for k in ks]


def load(text: str) -> Any:
    ls = [x.strip() for x in text.strip().split("\n")]
    if len([x for x in ls if x]) > 1 and all(re.fullmatch(r"[\w$/.(][^#:{}\[\]]*", x) for x in ls if x):
        return scalar(fold(">", ls))  # a plain text over several lines
    return data(parse(text))


def from_data(v: Any) -> list:
    """Kids that stand for a value."""
    if isinstance(v, dict):
        return [T("key", key=k, kids=from_data(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [T("coll", kids=from_data(x)) if isinstance(x, (dict, list)) and x else T("item", value=x) for x in v]
    return [T("scalar", value=v)] if v is not None else []


def norm(v: Any) -> Any:
    """Empty collections and null are the same."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()} or None
    if isinstance(v, list):
        return [norm(x) for x in v] or None
    return v


def eq(a: Any, b: Any) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def flat(t: T, path: str = "", new: bool = False) -> list:
    """Entries in document order: (path, leaf?, value, comment, new?) and ('#', comment)."""
    out: list = []
    i = 0
    for k in t.kids:
        nw = new or k.new
        if k.kind == "comment":
            out.append(("#", k.comment))
        elif k.kind == "key":
            ks = k.real()
            p = f"{path}/{k.key}"
            if len(k.kids) == 1 and ks and ks[0].kind == "scalar":
                out.append((p, True, ks[0].value, k.comment, nw or ks[0].new))
            else:
                out.append((p, not ks, None, k.comment, nw))
                out += flat(k, p, nw)
        elif k.kind == "item":
            out.append((f"{path}/{i}", True, k.value, k.comment, nw))
            i += 1
        elif k.kind == "coll":
            out += flat(k, f"{path}/{i}", nw)
            i += 1
        elif k.kind == "scalar":
            out.append((path or "/", True, k.value, k.comment, nw or k.new))
    return out


def find(t: T, parts: list) -> Optional[T]:
    for x in parts:
        ks = t.real()
        if ks and ks[0].kind in ("item", "coll"):
            if not x.isdigit() or int(x) >= len(ks):
                return None
            t = ks[int(x)]
        else:
            n = next((k for k in ks if k.kind == "key" and str(k.key) == x), None)
            if n is None:
                return None
            t = n
    return t


def paths(t: T, path: str = "") -> list:
    """Every path of a document."""
    out: list = []
    for i, k in enumerate(t.real()):
        if k.kind == "scalar":
            continue
        p = f"{path}/{k.key if k.kind == 'key' else i}"
        out.append(p)
        out += paths(k, p)
    return out
