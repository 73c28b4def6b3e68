"""Abstract values: hash-consed provenance terms, persistent maps, and abstract program states."""

from __future__ import annotations

from typing import Any, Iterable, Optional

from .model import ClassInfo, FuncInfo

_TABLE: dict = {}
_NEXT = [0]
MAX_DEPTH = 14


class Term:
    """A hash-consed term. Equality is identity; hashing is by a deterministic serial number."""

    __slots__ = ("op", "args", "uid", "typ", "deps", "depth", "meta")

    def __hash__(self) -> int:
        return self.uid

    def __eq__(self, o: object) -> bool:
        return self is o

    def __lt__(self, o: "Term") -> bool:
        return self.uid < o.uid

    def __repr__(self) -> str:
        return show(self)


_NODEPS: frozenset = frozenset()


def mk(op: str, *args: Any, typ: Any = None, site: Any = None) -> Term:
    key = (op,) + args if site is None else (op,) + args + (("@", site),)
    # bool/int/float constants compare equal in Python; constants carry their type name in the arguments.
    t = _TABLE.get(key)
    if t is None:
        deps = set()
        depth = 1
        for a in args:
            if isinstance(a, Term):
                deps |= a.deps
                depth = max(depth, a.depth + 1)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        deps |= b.deps
                        depth = max(depth, b.depth + 1)
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                deps |= c.deps
                                depth = max(depth, c.depth + 1)
        if site is not None:
            deps.add(site)
        if depth > MAX_DEPTH and op not in ("K", "top"):
            return mk("top", typ=typ)
        t = Term()
        t.op = op
        t.args = args
        t.typ = typ
        t.deps = frozenset(deps) if deps else _NODEPS
        t.depth = depth
        t.meta = None
        t.uid = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = t
    elif t.typ is None and typ is not None:
        t.typ = typ
    return t


# ---- types ------------------------------------------------------------------------------------------------------------
# ('c', ClassInfo, ()) repository class; ('x', dotted, args) external class; ('u', (types...)) union; None unknown


def xt(d: str, *args: Any) -> tuple:
    return ("x", d, tuple(args))


def ct(c: ClassInfo) -> tuple:
    return ("c", c, ())


T_STR, T_INT, T_BOOL, T_FLOAT, T_NONE, T_BYTES = (
    xt("builtins.str"),
    xt("builtins.int"),
    xt("builtins.bool"),
    xt("builtins.float"),
    xt("builtins.NoneType"),
    xt("builtins.bytes"),
)
T_LIST, T_DICT, T_SET, T_TUPLE = (
    xt("builtins.list"),
    xt("builtins.dict"),
    xt("builtins.set"),
    xt("builtins.tuple"),
)
T_PATH = xt("pathlib.Path")

IMMUTABLE_X = {
    "builtins.str",
    "builtins.int",
    "builtins.bool",
    "builtins.float",
    "builtins.NoneType",
    "builtins.bytes",
    "builtins.complex",
    "pathlib.Path",
    "re.Pattern",
    "re.Match",
}


def ty_name(t: Any) -> Optional[str]:
    if t is None:
        return None
    if t[0] == "c":
        return t[1].qual
    if t[0] == "x":
        return t[1]
    return None


def ty_members(t: Any) -> list:
    if t is None:
        return []
    if t[0] == "u":
        return list(t[1])
    return [t]


def ty_strip_none(t: Any) -> Any:
    if t is not None and t[0] == "u":
        ms = tuple(m for m in t[1] if m != T_NONE)
        if len(ms) == 1:
            return ms[0]
        return ("u", ms)
    return t


# ---- constructors -----------------------------------------------------------------------------------------------------


_KT = {str: T_STR, int: T_INT, bool: T_BOOL, float: T_FLOAT, type(None): T_NONE, bytes: T_BYTES}


def K(v: Any) -> Term:
    return mk("K", type(v).__name__, v, typ=_KT.get(type(v)))


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
TOP = mk("top")


def is_k(v: Term) -> bool:
    return v.op == "K"


def kv(v: Term) -> Any:
    return v.args[1]


def tup(vals: Iterable[Term]) -> Term:
    return mk("tup", tuple(vals), typ=T_TUPLE)


def phi(vals: Iterable[Term], limit: int = 6) -> Term:
    flat: dict = {}
    for v in vals:
        if v.op == "top" and v.typ is None:
            return TOP
        if v.op == "phi":
            for w in v.args[0]:
                flat[w] = 1
        else:
            flat[v] = 1
    ms = sorted(flat, key=lambda t: t.uid)
    if len(ms) == 1:
        return ms[0]
    if not ms:
        return TOP
    if len(ms) > limit:
        ty = ms[0].typ
        if ty is not None and all(m.typ == ty for m in ms):
            return mk("top", ("of",) + ty[:2], typ=ty)
        return TOP
    typs = {repr(m.typ): m.typ for m in ms}
    ty = list(typs.values())[0] if len(typs) == 1 else None
    return mk("phi", tuple(ms), typ=ty)


def members(v: Term) -> tuple:
    return v.args[0] if v.op == "phi" else (v,)


def deps_of(v: Any) -> frozenset:
    """Volatile sites a value (term, tuple, record, map) mentions."""
    if isinstance(v, Term):
        return v.deps
    if isinstance(v, (PMap, Rec)):
        return v.deps()
    if isinstance(v, tuple):
        out: frozenset = _NODEPS
        for x in v:
            d = deps_of(x)
            if d:
                out = out | d
        return out
    return _NODEPS


class PMap:
    """Persistent map with an incrementally maintained order-independent hash."""

    __slots__ = ("d", "h", "_deps")

    def deps(self) -> frozenset:
        if self._deps is None:
            acc: set = set()
            for k, v in self.d.items():
                acc |= deps_of(v)
                if not isinstance(k, str):
                    acc |= deps_of(k)
            self._deps = frozenset(acc)
        return self._deps

    def __init__(self, d: Optional[dict] = None, h: int = 0) -> None:
        self.d = d if d is not None else {}
        self.h = h
        self._deps = None

    def get(self, k: Any, default: Any = None) -> Any:
        return self.d.get(k, default)

    def __contains__(self, k: Any) -> bool:
        return k in self.d

    def set(self, k: Any, v: Any) -> "PMap":
        old = self.d.get(k, _MISS)
        if old is v or (old is not _MISS and old == v):
            return self
        d = dict(self.d)
        h = self.h
        if old is not _MISS:
            h ^= hash((k, old))
        d[k] = v
        return PMap(d, h ^ hash((k, v)))

    def delete(self, k: Any) -> "PMap":
        old = self.d.get(k, _MISS)
        if old is _MISS:
            return self
        d = dict(self.d)
        del d[k]
        return PMap(d, self.h ^ hash((k, old)))

    def items(self):
        return self.d.items()

    def __len__(self) -> int:
        return len(self.d)

    def __hash__(self) -> int:
        return self.h

    def __eq__(self, o: object) -> bool:
        return isinstance(o, PMap) and (self.d is o.d or (self.h == o.h and self.d == o.d))


_MISS = object()
EMPTY = PMap()


class Rec:
    """Immutable heap record of an abstract object."""

    __slots__ = ("kind", "cls", "fields", "elems", "summ", "weak", "h", "_deps")

    def deps(self) -> frozenset:
        if self._deps is None:
            self._deps = self.fields.deps() | deps_of(self.elems or ()) | deps_of(self.summ)
        return self._deps

    def __init__(self, kind: str, cls: Any = None, fields: PMap = EMPTY, elems: Optional[tuple] = None,
                 summ: Optional[Term] = None, weak: bool = False) -> None:
        self.kind = kind  # inst | list | dict | set
        self.cls = cls
        self.fields = fields  # attributes (inst) or constant-key entries (dict)
        self.elems = elems  # exactly known elements, or None
        self.summ = summ  # join of the unknown elements / values
        self.weak = weak
        self._deps = None
        self.h = hash((kind, fields, elems, summ, weak))

    def __hash__(self) -> int:
        return self.h

    def __eq__(self, o: object) -> bool:
        return isinstance(o, Rec) and (
            self is o
            or (
                self.h == o.h
                and self.kind == o.kind
                and self.cls is o.cls
                and self.fields == o.fields
                and self.elems == o.elems
                and self.summ is o.summ
                and self.weak == o.weak
            )
        )

    def but(self, **kw: Any) -> "Rec":
        a = dict(kind=self.kind, cls=self.cls, fields=self.fields, elems=self.elems, summ=self.summ, weak=self.weak)
        a.update(kw)
        return Rec(**a)

    def values(self) -> list:
        out = []
        if self.elems is not None:
            out += list(self.elems)
        if self.summ is not None:
            out.append(self.summ)
        if self.kind == "dict":
            out += list(self.fields.d.values())
        return out


class State:
    __slots__ = ("frames", "heap", "facts", "mon", "trace")

    def __init__(self, frames: PMap = EMPTY, heap: PMap = EMPTY, facts: PMap = EMPTY, mon: Any = None,
                 trace: Any = None) -> None:
        self.frames = frames
        self.heap = heap
        self.facts = facts
        self.mon = mon
        self.trace = trace  # linked list (event, parent)

    def fork(self) -> "State":
        return State(self.frames, self.heap, self.facts, self.mon, self.trace)

    def sig(self) -> tuple:
        return (self.frames.h, self.heap.h, self.facts.h, self.mon)

    def events(self) -> list:
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


# ---- display ----------------------------------------------------------------------------------------------------------


def show(v: Any, d: int = 0) -> str:
    if not isinstance(v, Term):
        if isinstance(v, (FuncInfo, ClassInfo)):
            return v.name
        if isinstance(v, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
        return str(v)
    if d > 6:
        return "…"
    o, a = v.op, v.args
    if o == "K":
        return repr(a[1])
    if o == "param":
        return str(a[0])
    if o == "attr":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
    if o == "elem":
        return f"elem({show(a[0], d + 1)})"
    if o == "call":
        return f"{show(a[0], d + 1)}({', '.join(show(x, d + 1) for x in a[1])})"
    if o == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a[0]) + ")"
    if o == "enum":
        return f"{a[0].name}.{a[1]}"
    if o == "phi":
        return "{" + " | ".join(show(x, d + 1) for x in a[0]) + "}"
    if o in ("fn", "cls"):
        return a[0].name
    if o == "ext":
        return a[0]
    if o == "obj":
        return f"new {v.typ and ty_name(v.typ)}"
    if o == "fmt":
        return "f" + "".join(kv(x) if is_k(x) else "{" + show(x, d + 1) + "}" for x in a[0])
    if o == "bm":
        return f"{show(a[0], d + 1)}.{a[1]}"
    return f"{o}({', '.join(show(x, d + 1) for x in a)})"


def contains(v: Any, pred: Any, _seen: Optional[set] = None) -> bool:
    """True when a sub-term satisfies pred."""
    if isinstance(v, Term):
        if _seen is None:
            _seen = set()
        if v in _seen:
            return False
        _seen.add(v)
        if pred(v):
            return True
        return any(contains(a, pred, _seen) for a in v.args)
    if isinstance(v, tuple):
        return any(contains(a, pred, _seen if _seen is not None else set()) for a in v)
    return False


def find(v: Any, pred: Any) -> list:
    """Sub-terms satisfying pred."""
    out: list = []
    contains(v, lambda t: bool(pred(t) and out.append(t)))
    return out
