"""Path facts: what a path has established about the truth of atoms over abstract values."""

from __future__ import annotations

import ast
from typing import Any, Optional

from .exctypes import supers
from .model import ClassInfo
from .values import K, NONE, Rec, State, Term, is_k, kv, members, mk, ty_members, ty_name

# atoms: ('t', v) truthiness; ('none', v); ('eq', a, b); ('lt', a, b); ('inst', v, class); ('in', a, b)
# ('p', name, args...) an opaque predicate

NONNULL_OPS = {"obj", "tup", "fmt", "fn", "cls", "enum", "bin", "atom", "not", "ext", "mod", "path", "bm", "pure", "deepcopy", "exc", "future", "seq", "view"}


def enum_value(m: Term) -> Any:
    """Literal value of an enum member when it is one (None otherwise)."""
    c, name = m.args
    v = c.attrs.get(name)
    if isinstance(v, ast.Constant):
        return v.value
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
        return -v.operand.value
    return None


def k_of_enum(m: Term) -> Any:
    v = enum_value(m)
    bases = m.args[0].ext_bases()
    if any(b.endswith(("StrEnum", "IntEnum")) for b in bases):
        return v
    return None


def is_lit(v: Term) -> bool:
    return v.op in ("K", "enum")


def is_key(v: Term) -> bool:
    """Usable as an exactly known dictionary key."""
    return v.op in ("K", "enum", "future") or (v.op == "pure" and v.args[0] == "pathlib.Path" and all(x.op == "K" for x in v.args[1]))


def lit_eq(a: Term, b: Term) -> Optional[bool]:
    """Whether two literal terms are equal."""
    if a is b:
        return True
    if a.op == "K" and b.op == "K":
        try:
            return bool(kv(a) == kv(b))
        except Exception:  # pragma: no cover
            return None
    if a.op == "enum" and b.op == "enum":
        if a.args[0] is b.args[0]:
            va, vb = enum_value(a), enum_value(b)
            if va is not None and vb is not None:
                return va == vb
            return a.args[1] == b.args[1]
        return None
    if a.op == "K":
        a, b = b, a
    ev = k_of_enum(a)
    if ev is not None:
        return bool(ev == kv(b))
    if not any(x.endswith(("StrEnum", "IntEnum", "IntFlag")) for x in a.args[0].ext_bases()):
        return False
    return None


_BUILTIN_SCALARS = {"builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.bytes", "builtins.NoneType",
                    "builtins.list", "builtins.dict", "builtins.set", "builtins.tuple"}


def static_type(v: Term) -> Any:
    """Type of a value when the value itself (not an annotation) fixes it."""
    if v.op in ("K", "obj", "tup", "fmt", "enum", "pure", "path", "atom", "not"):
        return v.typ
    return None


def inst_static(v: Term, c: Any) -> Optional[bool]:
    """isinstance(v, c) decided from the value. c: ClassInfo or dotted str."""
    t = static_type(v)
    if v.op in ("atom", "not"):
        t = ("x", "builtins.bool", ())
    if t is None:
        return None
    if t[0] == "c":
        k = t[1]
        if isinstance(c, ClassInfo):
            return k.issub(c)
        if c == "builtins.object":
            return True
        exts = k.ext_bases()
        if c in exts:
            return True
        if c == "builtins.str":
            return any(e.endswith("StrEnum") for e in exts)
        if c == "builtins.int":
            return any(e.endswith("IntEnum") for e in exts)
        if c == "builtins.tuple":
            return k.is_namedtuple()
        for e in exts:
            if c in supers(e):
                return True
        return False if c in _BUILTIN_SCALARS else None
    if t[0] == "x":
        if isinstance(c, ClassInfo):
            return False if t[1] in _BUILTIN_SCALARS else None
        if t[1] == c or c == "builtins.object":
            return True
        if t[1] == "builtins.bool" and c == "builtins.int":
            return True
        if t[1] in _BUILTIN_SCALARS and c in _BUILTIN_SCALARS:
            return False
        if t[1] == "pathlib.Path" and c in _BUILTIN_SCALARS:
            return False
    return None


def _norm(a: tuple) -> tuple:
    if a[0] == "eq" and (is_lit(a[1]) and not is_lit(a[2]) or (is_lit(a[1]) == is_lit(a[2]) and a[2].uid < a[1].uid)):
        return ("eq", a[2], a[1])
    return a


def length_of(v: Term, st: State) -> Optional[tuple[int, Optional[int]]]:
    """(min, max) length of a container value, when known."""
    if v.op == "K" and isinstance(kv(v), (str, bytes)):
        n = len(kv(v))
        return n, n
    if v.op == "tup":
        n = len(v.args[0])
        return n, n
    if v.op == "obj":
        r: Rec = st.heap.get(v)
        if r is None or r.weak:
            return None
        if r.kind in ("list", "set") and r.elems is not None:
            if r.kind == "set" and len(r.elems) > 1:
                return 1, len(r.elems)
            return len(r.elems), len(r.elems)
        if r.kind == "dict" and r.summ is None:
            return len(r.fields), len(r.fields)
    return None


def truth(v: Term, st: State) -> Any:
    """True/False when decided, otherwise (atom, polarity)."""
    o = v.op
    if o == "K":
        return bool(kv(v))
    if o == "not":
        r = truth(v.args[0], st)
        return (not r) if isinstance(r, bool) else (r[0], not r[1])
    if o == "atom":
        k = known(st, v.args[0])
        if k is None:
            return v.args[0], v.args[1]
        return k == v.args[1]
    if o == "bool":
        return truth(v.args[0], st)
    if o in ("obj", "tup"):
        n = length_of(v, st)
        if n is not None:
            if n[0] > 0:
                return True
            if n[1] == 0:
                return False
        r = st.heap.get(v)
        if r is not None and r.kind == "inst" and isinstance(r.cls, ClassInfo):
            if not r.cls.find_method("__bool__") and not r.cls.find_method("__len__"):
                return True
    elif o == "enum":
        ev = k_of_enum(v)
        return True if ev is None else bool(ev)
    elif o in ("fn", "cls", "ext", "mod", "bm", "path"):
        return True
    elif o == "fmt":
        if any(is_k(p) and kv(p) for p in v.args[0]):
            return True
    elif o == "phi":
        rs = [truth(m, st) for m in v.args[0]]
        if all(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
    a = ("t", v)
    k = known(st, a)
    return (a, True) if k is None else k


def known(st: State, a: tuple) -> Optional[bool]:
    a = _norm(a)
    f = st.facts
    r = f.get(a)
    if r is not None:
        return r
    kind = a[0]
    x = a[1]
    if kind == "t":
        if f.get(("none", x)):
            return False
        for b in st.facts.get(("eqk", x), ()):
            if is_lit(b):
                t = truth(b, st)
                if isinstance(t, bool):
                    return t
        # isinstance of a class without __bool__/__len__
        return None
    if kind == "none":
        if x is NONE:
            return True
        if x.op in NONNULL_OPS or x.op == "K":
            return False
        if x.op == "phi":
            ks = [known(st, ("none", m)) for m in members(x)]
            if all(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        if f.get(("t", x)) is True:
            return False
        for b in st.facts.get(("eqk", x), ()):
            if is_lit(b):
                return b is NONE
        if st.facts.get(("instk", x)):
            return False
        return None
    if kind == "eq":
        y = a[2]
        if x is y and x.op not in ("top", "phi"):
            return True
        if is_lit(x) and is_lit(y):
            return lit_eq(x, y)
        if y is NONE:
            return known(st, ("none", x))
        if is_lit(y):
            for b in f.get(("eqk", x), ()):
                if is_lit(b):
                    e = lit_eq(b, y)
                    if e is not None:
                        return e
            if f.get(("none", x)):
                return False
            t = f.get(("t", x))
            if t is not None and y.op == "K" and bool(kv(y)) != t:
                return False
            s = inst_static(x, ty_name(y.typ)) if y.op == "K" and y.typ else None
            if s is False and not (isinstance(kv(y), (int, float)) and ty_name(static_type(x)) in
                                   ("builtins.int", "builtins.float", "builtins.bool")) and x.op != "enum":
                return False
            if x.op == "fmt" and y.op == "K" and isinstance(kv(y), str):
                p0, pn = x.args[0][0], x.args[0][-1]
                if is_k(p0) and not kv(y).startswith(kv(p0)):
                    return False
                if is_k(pn) and not kv(y).endswith(kv(pn)):
                    return False
            if x.op == "obj" and y.op == "K":
                return False
        return None
    if kind == "lt":
        y = a[2]
        vx = kv(x) if is_k(x) else k_of_enum(x) if x.op == "enum" else None
        vy = kv(y) if is_k(y) else k_of_enum(y) if y.op == "enum" else None
        if vx is not None and vy is not None:
            try:
                return bool(vx < vy)
            except TypeError:
                return None
        if x is y:
            return False
        return None
    if kind == "inst":
        c = a[2]
        s = inst_static(x, c)
        if s is not None:
            return s
        if x is NONE or f.get(("none", x)):
            return c == "builtins.NoneType"
        for d, pol in f.get(("instk", x), ()):
            if pol:
                if d is c or d == c:
                    return True
                if isinstance(d, ClassInfo) and (isinstance(c, ClassInfo) or c in d.ext_bases()) and d.issub(c):
                    return True
                if d in _BUILTIN_SCALARS and c in _BUILTIN_SCALARS and not (d == "builtins.int" and c == "builtins.bool") \
                        and not (d == "builtins.bool" and c == "builtins.int"):
                    return False
        return None
    if kind == "in":
        y = a[2]
        elems = literal_elems(y, st)
        if elems is not None:
            rs = [known(st, ("eq", x, e)) for e in elems]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if is_k(x) and is_k(y) and isinstance(kv(x), str) and isinstance(kv(y), str):
            return kv(x) in kv(y)
        return None
    return None


def literal_elems(y: Term, st: State) -> Optional[list]:
    """Elements (or keys) of a container whose contents are exactly known."""
    if y.op == "tup":
        return list(y.args[0])
    if y.op == "obj":
        r = st.heap.get(y)
        if r is None or r.weak:
            return None
        if r.kind in ("list", "set") and r.elems is not None and r.summ is None:
            return list(r.elems)
        if r.kind == "dict" and r.summ is None:
            return list(r.fields.d.keys())
    return None


def assume(st: State, a: tuple, val: bool) -> Optional[State]:
    """The state refined with the atom's truth value; None when contradictory. Never mutates st."""
    a = _norm(a)
    k = known(st, a)
    if k is not None:
        return st.fork() if k == val else None
    if a[0] == "in" and a[2].op in ("obj", "tup"):
        pass
    s = st.fork()
    s.facts = s.facts.set(a, val)
    x = a[1]
    if a[0] == "eq":
        y = a[2]
        if val and is_lit(y):
            s.facts = s.facts.set(("eqk", x), s.facts.get(("eqk", x), ()) + (y,))
        if is_lit(y) and not val:
            # exhaustion of an enum- or bool-typed value
            for t in ty_members(x.typ)[:1]:
                if t[0] == "c" and t[1].is_enum() and len(ty_members(x.typ)) == 1:
                    ms = [mk("enum", t[1], m, typ=("c", t[1], ())) for m in t[1].enum_members()]
                    if ms and all(known(s, ("eq", x, m)) is False for m in ms):
                        return None
        if y.op == "K" and isinstance(kv(y), bool) and ty_name(x.typ) == "builtins.bool":
            s2 = assume(s, ("t", x), val == kv(y))
            return s2
    if a[0] == "inst" and val:
        s.facts = s.facts.set(("instk", x), s.facts.get(("instk", x), ()) + ((a[2], True),))
    if a[0] == "t" and not val and ty_name(x.typ) == "builtins.bool":
        s.facts = s.facts.set(("eq", x, K(False)), True)
    return s


def split(v: Term, st: State) -> tuple[list, list]:
    """(states where v is truthy, states where it is falsy)."""
    if v.op == "phi" and len(v.args[0]) <= 6:
        ts, fs = [], []
        for m in v.args[0]:
            t, f = split(m, st)
            ts += t
            fs += f
        return _dedupe(ts), _dedupe(fs)
    r = truth(v, st)
    if isinstance(r, bool):
        s = st.fork()
        return ([s], []) if r else ([], [s])
    atom, pol = r
    t = assume(st, atom, pol)
    f = assume(st, atom, not pol)
    return ([t] if t else []), ([f] if f else [])


def _dedupe(ss: list) -> list:
    seen: dict = {}
    for s in ss:
        seen.setdefault(s.sig(), s)
    return list(seen.values())


def kill(st: State, site: Any) -> None:
    """Drops facts about values a re-executed site produced earlier."""
    dead = []
    for a in st.facts.d:
        if _mentions(a, site):
            dead.append(a)
    for a in dead:
        st.facts = st.facts.delete(a)


def _mentions(a: tuple, site: Any) -> bool:
    for x in a:
        if isinstance(x, Term):
            if site in x.deps:
                return True
        elif isinstance(x, tuple) and _mentions(x, site):
            return True
    return False
