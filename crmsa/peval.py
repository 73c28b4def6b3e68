"""Partial evaluation of the source over partly known values.

Known parts (constants, enumeration members, tables, shapes of lists) are propagated exactly; everything else is a symbolic term.  A branch on
an unknown condition is explored both ways, each under the assumption it stands for.  Nothing of the repository is imported or executed by Python:
the evaluator walks the syntax trees of the program model, and library calls are terms unless a check models them.
"""

from __future__ import annotations

import ast
import builtins as _b
import json as _json
import re as _re
from typing import Any, Callable, Optional

from .exctypes import canon, is_exc_name, supers
from .model import ClassInfo, ExtRef, FuncInfo, GlobalVar, ModInfo, Program


class Undec(Exception):
    """The evaluator cannot follow this path."""


class Sym:
    """A symbolic term; hash-consed, so equality is identity."""

    __slots__ = ("op", "args", "typ", "uid")
    _tbl: dict = {}

    def __repr__(self) -> str:
        return show(self)

    def __bool__(self) -> bool:
        raise Undec(f"truth of {show(self)} needed outside a condition")

    def __iter__(self):
        raise Undec(f"iteration over {show(self)}")

    def __lt__(self, o: Any) -> bool:
        raise Undec("ordering of symbolic values")


def sym(op: str, *args: Any, typ: Any = None) -> Sym:
    key = (op, tuple(freeze(a) for a in args))
    s = Sym._tbl.get(key)
    if s is None:
        s = Sym()
        s.op, s.args, s.typ, s.uid = op, args, typ, len(Sym._tbl)
        Sym._tbl[key] = s
    elif s.typ is None:
        s.typ = typ
    return s


class SEnum(str):
    cls: ClassInfo
    name: str

    def __str__(self) -> str:
        return str.__str__(self)

    def __repr__(self) -> str:
        return f"{self.cls.name}.{self.name}"


class IEnum(int):
    cls: ClassInfo
    name: str

    def __repr__(self) -> str:
        return f"{self.cls.name}.{self.name}"


class OEnum:
    def __init__(self, cls: ClassInfo, name: str, value: Any) -> None:
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self) -> str:
        return f"{self.cls.name}.{self.name}"


ENUMS = (SEnum, IEnum, OEnum)


class Inst:
    """An instance of a repository class."""

    def __init__(self, cls: ClassInfo, ev: Any = None) -> None:
        self.cls, self.attrs, self.ev = cls, {}, ev

    def __repr__(self) -> str:
        return f"<{self.cls.name} {', '.join(f'{k}={v!r}' for k, v in list(self.attrs.items())[:4])}>"

    def __eq__(self, o: object) -> bool:
        if self is o:
            return True
        m = self.cls.find_method("__eq__")
        if m is not None and self.ev is not None:
            return self.ev.truth(self.ev.call(Bound(m, self), [o], {}))
        if self.cls.is_dataclass() and isinstance(o, Inst) and o.cls is self.cls:
            return same(self.attrs, o.attrs)
        return False

    def __hash__(self) -> int:
        m = self.cls.find_method("__hash__")
        if m is not None and self.ev is not None:
            h = self.ev.call(Bound(m, self), [], {})
            return h if isinstance(h, int) else 0
        return id(self)


class NT(tuple):
    """A named tuple of a repository class."""

    cls: ClassInfo
    names: tuple

    def __repr__(self) -> str:
        return f"{self.cls.name}{tuple(self)!r}"


class Exc:
    """An exception value of an external class."""

    def __init__(self, name: str, args: tuple = ()) -> None:
        self.name, self.args = name, args

    def __repr__(self) -> str:
        return self.name


class PyExc(Exception):
    def __init__(self, val: Any, node: Any = None) -> None:
        self.val, self.node = val, node


class Fn:
    def __init__(self, fi: Any, node: Any, env: "Env") -> None:
        self.fi, self.node, self.env = fi, node, env
        self.defaults: Optional[dict] = None


class Bound:
    def __init__(self, f: Any, self_: Any) -> None:
        self.f, self.self_ = f, self_


class Native:
    def __init__(self, obj: Any, name: str) -> None:
        self.obj, self.name = obj, name


class Foreign:
    """An object of a modelled library. Subclasses answer attribute reads, method calls, operators and `with`."""

    isa: tuple = ()
    truthy = True

    def attr(self, ev: "PEval", n: str) -> Any:
        return Native(self, n)

    def call(self, ev: "PEval", n: str, args: list, kw: dict) -> Any:
        raise Undec(f"method {n} of {type(self).__name__}")

    def set(self, ev: "PEval", n: str, v: Any) -> None:
        raise Undec(f"store to {n} of {type(self).__name__}")

    def enter(self, ev: "PEval") -> Any:
        raise Undec(f"with {type(self).__name__}")

    def exit(self, ev: "PEval") -> None:
        return None

    def binop(self, ev: "PEval", op: str, other: Any, right: bool) -> Any:
        raise Undec(f"operator {op} of {type(self).__name__}")

    def text(self, ev: "PEval") -> Any:
        return sym("str", self, typ="str")

    def items(self, ev: "PEval") -> Any:
        raise Undec(f"iteration over {type(self).__name__}")

    def refs(self) -> list:
        """Other objects this one keeps alive."""
        return []


class Super:
    def __init__(self, cls: ClassInfo, self_: Any) -> None:
        self.cls, self.self_ = cls, self_


class Env:
    __slots__ = ("vars", "parent", "mod", "fi", "globals_", "nonlocals", "cls", "yields")

    def __init__(self, parent: Optional["Env"], mod: ModInfo, fi: Any = None, cls: Any = None) -> None:
        self.vars: dict = {}
        self.parent, self.mod, self.fi, self.cls = parent, mod, fi, cls
        self.globals_: set = set()
        self.nonlocals: set = set()
        self.yields: Optional[list] = None


class _Ret(Exception):
    def __init__(self, v: Any) -> None:
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


def has_sym(v: Any, d: int = 0) -> bool:
    if isinstance(v, Sym):
        return True
    if d > 8:
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(has_sym(x, d + 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(k, d + 1) or has_sym(x, d + 1) for k, x in v.items())
    return False


def freeze(v: Any, d: int = 0) -> Any:
    if d > 10:
        return id(v)
    if isinstance(v, SEnum):
        return ("E", v.cls.qual, v.name)
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x, d + 1) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(freeze(x, d + 1) for x in v))
    if isinstance(v, dict):
        return ("dict", frozenset((freeze(k, d + 1), freeze(x, d + 1)) for k, x in v.items()))
    if isinstance(v, Inst):
        return ("inst", id(v))
    if isinstance(v, Bound):
        return ("bound", freeze(v.f, d + 1), freeze(v.self_, d + 1))
    if isinstance(v, Native):
        return ("native", freeze(v.obj, d + 1), v.name)
    if isinstance(v, ExtRef):
        return ("ext", v.dotted)
    return ("id", id(v))


def same(a: Any, b: Any) -> bool:
    return freeze(a) == freeze(b)


def show(v: Any, d: int = 0) -> str:
    if d > 5:
        return "…"
    if isinstance(v, Sym):
        o, a = v.op, v.args
        if o == "in" and len(a) == 1:
            return str(a[0])
        if o == "attr":
            return f"{show(a[0], d + 1)}.{a[1]}"
        if o == "item":
            return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
        if o == "bin":
            return f"({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})"
        if o == "cmp":
            return f"({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})"
        if o == "call":
            return f"{show(a[0], d + 1)}({', '.join(show(x, d + 1) for x in a[1])})"
        return f"{o}({', '.join(show(x, d + 1) for x in a)})"
    if isinstance(v, (FuncInfo, ClassInfo)):
        return v.name
    if isinstance(v, ExtRef):
        return v.dotted
    if isinstance(v, ENUMS) or isinstance(v, NT):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x, d + 1) for x in v) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(show(x, d + 1) for x in v)) + "}"
    if isinstance(v, Native):
        return f"{show(v.obj, d + 1)}.{v.name}"
    if isinstance(v, Bound):
        return f"{show(v.self_, d + 1)}.{getattr(v.f, 'name', '?')}"
    return repr(v)[:60]


class Path:
    def __init__(self, kind: str, value: Any, asm: list, events: list, lines: set) -> None:
        self.kind, self.value, self.asm, self.events, self.lines = kind, value, asm, events, lines

    def assumed(self, t: Sym) -> Optional[bool]:
        for k, b in self.asm:
            if k is t:
                return b
        return None

    def why(self) -> list:
        return [("" if b else "not ") + show(k) for k, b in self.asm]


class Hooks:
    """What a check plugs in."""

    max_iter = 2  # elements of an unknown iterable
    max_steps = 60_000
    max_depth = 60
    max_paths = 3000

    def model(self, ev: "PEval", name: str, recv: Any, args: list, kw: dict) -> Any:
        """The result of a call, or NotImplemented."""
        return NotImplemented

    def attr(self, ev: "PEval", obj: Any, name: str) -> Any:
        return NotImplemented

    def decide(self, ev: "PEval", cond: Sym) -> Optional[bool]:
        return None


_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
        ast.NotIn: "not in"}
_BIN: dict = {ast.Add: ("+", lambda a, b: a + b), ast.Sub: ("-", lambda a, b: a - b), ast.Mult: ("*", lambda a, b: a * b), ast.Div: ("/", lambda a, b: a / b),
              ast.FloorDiv: ("//", lambda a, b: a // b), ast.Mod: ("%", lambda a, b: a % b), ast.Pow: ("**", lambda a, b: a ** b if abs(b) < 64 else None),
              ast.BitAnd: ("&", lambda a, b: a & b), ast.BitOr: ("|", lambda a, b: a | b), ast.BitXor: ("^", lambda a, b: a ^ b),
              ast.LShift: ("<<", lambda a, b: a << b), ast.RShift: (">>", lambda a, b: a >> b)}
_NATIVE_EXC = (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError, StopIteration, RecursionError, OverflowError, UnicodeError)
_MISSING = object()
RE_TYPES = (_re.Pattern, _re.Match)


def _PatRef(o: Any) -> ExtRef:
    return ExtRef("re:" + (o.pattern if isinstance(o, _re.Pattern) else o.re.pattern))


_SAFE_NEW = {"list": list, "dict": dict, "set": set, "tuple": tuple, "frozenset": frozenset}


def _plain(v: Any) -> bool:
    """Only constants of the standard types."""
    if type(v) in (list, tuple):
        return all(_plain(x) for x in v)
    if type(v) is dict:
        return all(_plain(x) for x in v) and all(_plain(x) for x in v.values())
    return type(v) in (str, int, float, bool, type(None))


class PEval:
    def __init__(self, p: Program, hooks: Optional[Hooks] = None) -> None:
        self.p = p
        self.h = hooks or Hooks()
        self.functions: set = set()
        self.paths_run = 0
        self.truncated = False
        self.total_steps = 0

    # ---- exploration of the paths -----------------------------------------------------------------------------------

    def explore(self, body: Callable[["PEval"], Any]) -> list:
        """Every path of `body(self)`; the body builds its inputs afresh each time."""
        out, todo = [], [[]]
        while todo:
            if len(out) >= self.h.max_paths:
                self.truncated = True
                break
            pre = todo.pop()
            self.reset(pre)
            try:
                v, kind = body(self), "ret"
            except PyExc as e:
                v, kind = e.val, "exc"
            except Undec as e:
                v, kind = str(e), "undec"
            except RecursionError:
                v, kind = "recursion", "undec"
            self.paths_run += 1
            self.total_steps += self.steps
            out.append(Path(kind, v, list(self.asm), list(self.events), set(self.lines)))
            for i in range(len(pre), len(self.taken)):
                if self.forked[i]:
                    todo.append(self.taken[:i] + [not self.taken[i]])
        return out

    def reset(self, pre: list) -> None:
        self.pre, self.taken, self.forked = pre, [], []
        self.asm: list = []
        self.events: list = []
        self.lines: set = set()
        self.steps = self.depth = 0
        self.modenv: dict = {}
        self.enums: dict = {}
        self.clsattrs: dict = {}
        self.enum_tables: dict = {}
        self.counter: dict = {}

    def decide(self, c: Sym) -> bool:
        neg = False
        while c.op == "not":
            c, neg = c.args[0], not neg
        b = self.known(c)
        if b is None:
            i = len(self.taken)
            b = self.pre[i] if i < len(self.pre) else True
            self.taken.append(b)
            self.forked.append(True)
            self.asm.append((c, b))
        return b != neg

    def known(self, c: Sym) -> Optional[bool]:
        for k, b in self.asm:
            if k is c:
                return b
        r = self.h.decide(self, c)
        if r is not None:
            return r
        if c.op == "cmp" and c.args[0] == "==":
            x, k = c.args[1], c.args[2]
            if isinstance(x, Sym) and not isinstance(k, Sym):
                for a, b in self.asm:
                    if b and a.op == "cmp" and a.args[0] == "==" and a.args[1] is x and not isinstance(a.args[2], Sym) and not same(a.args[2], k):
                        return False
                    if b and k in ("", None) and a.op == "truth" and a.args[0] is x:
                        return False
        if c.op == "truth":
            x = c.args[0]
            for a, b in self.asm:
                if b and a.op == "cmp" and a.args[0] == "==" and a.args[1] is x and not has_sym(a.args[2]):
                    return bool(a.args[2])
                if a.op == "isnone" and a.args[0] is x and b:
                    return False
                if b and a.op == "isinst" and a.args[0] is x and isinstance(a.args[1], ClassInfo):
                    return True
        if c.op == "isnone":
            x = c.args[0]
            for a, b in self.asm:
                if b and a.op in ("truth", "isinst") and a.args[0] is x:
                    return False
                if b and a.op == "cmp" and a.args[0] == "==" and a.args[1] is x and a.args[2] is not None and not isinstance(a.args[2], Sym):
                    return False
        if c.op == "isinst":
            x = c.args[0]
            for a, b in self.asm:
                if b and a.op == "isnone" and a.args[0] is x:
                    return False
                if b and a.op == "isinst" and a.args[0] is x and not same(a.args[1], c.args[1]):
                    r = self._disjoint(a.args[1], c.args[1])
                    if r is not None:
                        return r
        return None

    def _disjoint(self, known: Any, asked: Any) -> Optional[bool]:
        kn = self._super_names(known)
        ak = asked.qual if isinstance(asked, ClassInfo) else asked.dotted
        if ak in kn:
            return True
        an = self._super_names(asked)
        kk = known.qual if isinstance(known, ClassInfo) else known.dotted
        if kk in an:
            return None
        return False

    def _super_names(self, c: Any) -> set:
        if isinstance(c, ClassInfo):
            out = set()
            for x in c.mro():
                out.add(x.qual if isinstance(x, ClassInfo) else x)
            return out | ({"builtins.str"} if self._kind(c) == "s" else set()) | ({"builtins.int"} if self._kind(c) == "i" else set())
        return {c.dotted} | ({"builtins.int"} if c.dotted == "builtins.bool" else set())

    def truth(self, v: Any) -> bool:
        if isinstance(v, Sym):
            if v.typ == "bool" or v.op in ("cmp", "isinst", "not", "isnone", "contains", "truth"):
                return self.decide(v)
            if v.typ in ("inst",) or isinstance(v.typ, ClassInfo) and v.typ.find_method("__bool__") is None and v.typ.find_method("__len__") is None:
                return True
            return self.decide(sym("truth", v, typ="bool"))
        if isinstance(v, Inst):
            for n in ("__bool__", "__len__"):
                m = v.cls.find_method(n)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, Foreign):
            return v.truthy
        if isinstance(v, (Fn, Bound, Native, ClassInfo, FuncInfo, ExtRef, ModInfo, OEnum, Exc)):
            return True
        return bool(v)

    def emit(self, name: str, *args: Any) -> None:
        self.events.append((name,) + args)

    # ---- names ------------------------------------------------------------------------------------------------------

    def module_env(self, m: ModInfo) -> Env:
        e = self.modenv.get(m.name)
        if e is None:
            e = self.modenv[m.name] = Env(None, m)
        return e

    def entity(self, x: Any) -> Any:
        if isinstance(x, GlobalVar):
            e = self.module_env(self.p.mods[x.mod])
            if x.name in e.vars:
                v = e.vars[x.name]
                if v is _MISSING:
                    raise Undec(f"cyclic global {x.name}")
                return v
            e.vars[x.name] = _MISSING
            try:
                v = self._global(x, e)
            except BaseException:
                e.vars.pop(x.name, None)
                raise
            e.vars[x.name] = v
            return v
        if x is None:
            raise Undec("unresolved name")
        return x

    def _global(self, x: GlobalVar, e: Env) -> Any:
        got = _MISSING
        for s in e.mod.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.name for t in s.targets):
                got = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == x.name and s.value is not None:
                got = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.For, ast.With, ast.AugAssign, ast.While)) and any(
                    isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x.name for n in ast.walk(s)):
                return sym("global", x.qual)
        if got is _MISSING:
            return sym("global", x.qual)
        return self.ev(got, e)

    def lookup(self, name: str, env: Env) -> Any:
        e: Optional[Env] = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is _MISSING:
                    break
                return v
            if e.parent is None:
                break
            e = e.parent
        if name in env.globals_ and name in self.module_env(env.mod).vars:
            return self.module_env(env.mod).vars[name]
        x = self.p.resolve_name(env.mod, name)
        if x is None:
            if name in env.globals_:
                raise PyExc(Exc("builtins.NameError", (name,)))
            if name == "__file__":
                return sym("file", env.mod.name)
            raise Undec(f"name {name}")
        return self.entity(x)

    # ---- calls ------------------------------------------------------------------------------------------------------

    def enum_members(self, c: ClassInfo) -> dict:
        t = self.enum_tables.get(c)
        if t is not None:
            return t
        t = self.enum_tables[c] = {}
        kind = self._kind(c)
        env = Env(None, c.mod, cls=c)
        last = 0
        for n in c.enum_members():
            expr = c.attrs[n]
            if isinstance(expr, ast.Call):
                f = self.p.resolve_expr(c.mod, expr.func)
                if isinstance(f, ExtRef) and f.dotted == "enum.auto":
                    v: Any = n.lower() if kind == "s" else last + 1
                else:
                    v = self.ev(expr, env)
            else:
                v = self.ev(expr, env)
            if isinstance(v, int):
                last = v
            env.vars[n] = v
            dup = next((m for m in t.values() if same(self.enum_value(m), v)), None)
            if dup is not None:
                t[n] = dup
                continue
            m = SEnum(v) if kind == "s" and isinstance(v, str) else IEnum(v) if kind == "i" and isinstance(v, int) else OEnum(c, n, v)
            m.cls, m.name = c, n
            t[n] = m
        return t

    def _kind(self, c: ClassInfo) -> str:
        bs = c.ext_bases()
        if any(b.endswith("StrEnum") for b in bs) or ("builtins.str" in bs and c.is_enum()):
            return "s"
        if any(b.endswith(("IntEnum", "IntFlag")) for b in bs) or ("builtins.int" in bs and c.is_enum()):
            return "i"
        return "o"

    @staticmethod
    def enum_value(m: Any) -> Any:
        return str.__str__(m) if isinstance(m, SEnum) else int(m) if isinstance(m, IEnum) else m.value

    def call(self, f: Any, args: list, kw: dict, node: Any = None) -> Any:
        name, recv = self.fname(f)
        r = self.h.model(self, name, recv, args, kw)
        if r is not NotImplemented:
            return r
        if isinstance(f, Bound):
            if isinstance(f.f, FuncInfo):
                return self.invoke(f.f, None, [f.self_] + args, kw)
            return self.call(f.f, [f.self_] + args, kw, node)
        if isinstance(f, FuncInfo):
            return self.invoke(f, None, args, kw)
        if isinstance(f, Fn):
            return self.invoke(f.fi, f, args, kw)
        if isinstance(f, ClassInfo):
            return self.construct(f, args, kw)
        if isinstance(f, NewOf):
            return Inst(args[0], self)
        if isinstance(f, ExtRef):
            return self.ext(f.dotted, args, kw)
        if isinstance(f, Native):
            return self.native(f, args, kw)
        if isinstance(f, Inst):
            m = f.cls.find_method("__call__")
            if m is not None:
                return self.invoke(m, None, [f] + args, kw)
        if isinstance(f, Sym):
            return sym("call", f, tuple(args), tuple(sorted(kw.items())))
        raise Undec(f"call of {show(f)}")

    def fname(self, f: Any) -> tuple:
        if isinstance(f, Bound):
            return (f.f.short if isinstance(f.f, FuncInfo) else "?"), f.self_
        if isinstance(f, FuncInfo):
            return f.short, None
        if isinstance(f, Fn):
            return (f.fi.short if f.fi is not None else "<lambda>"), None
        if isinstance(f, ClassInfo):
            return f.qual.replace("conda_recipe_manager.", "", 1), None
        if isinstance(f, ExtRef):
            return f.dotted, None
        if isinstance(f, Native):
            return f".{f.name}", f.obj
        if isinstance(f, Sym) and f.op == "attr":
            return f".{f.args[1]}", f.args[0]
        return "?", None

    def invoke(self, fi: FuncInfo, clo: Optional[Fn], args: list, kw: dict) -> Any:
        node = clo.node if clo is not None else fi.node
        mod = clo.env.mod if clo is not None else fi.mod
        self.depth += 1
        if self.depth > self.h.max_depth:
            self.depth -= 1
            raise Undec("call depth")
        if fi is not None:
            self.functions.add(fi.qual)
        env = Env(clo.env if clo is not None else None, mod, fi, fi.cls if fi is not None and fi.cls is not None else (clo.env.cls if clo else None))
        if env.parent is None and fi is not None and fi.cls is not None:
            env.cls = fi.cls
        try:
            self.bind(node.args, env, clo.env if clo is not None else self.def_env(fi), args, kw, getattr(node, "name", "<lambda>"), clo)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if fi is not None and fi.is_generator():
                env.yields = []
            try:
                self.block(node.body, env)
            except _Ret as r:
                return r.v if env.yields is None else env.yields
            return env.yields
        finally:
            self.depth -= 1

    def def_env(self, fi: FuncInfo) -> Env:
        """Where default values are evaluated: for a method the names of the class body come first."""
        if fi.cls is None:
            return self.module_env(fi.mod)
        env = Env(None, fi.mod, cls=fi.cls)
        a = fi.node.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            for x in ast.walk(d):
                if isinstance(x, ast.Name) and x.id in fi.cls.attrs and x.id not in env.vars:
                    env.vars[x.id] = self.class_attr(fi.cls, x.id)
        return env

    def bind(self, a: ast.arguments, env: Env, denv: Env, args: list, kw: dict, name: str, clo: Optional[Fn]) -> None:
        ps = a.posonlyargs + a.args
        kw = dict(kw)
        for i, x in enumerate(ps):
            if i < len(args):
                env.vars[x.arg] = args[i]
            elif x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            else:
                j = i - (len(ps) - len(a.defaults))
                if j < 0:
                    raise PyExc(Exc("builtins.TypeError", (f"{name}() missing argument {x.arg}",)))
                env.vars[x.arg] = self.ev(a.defaults[j], denv)
        if len(args) > len(ps):
            if a.vararg is None:
                raise PyExc(Exc("builtins.TypeError", (f"{name}() takes {len(ps)} arguments",)))
            env.vars[a.vararg.arg] = tuple(args[len(ps):])
        elif a.vararg is not None:
            env.vars[a.vararg.arg] = ()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.vars[x.arg] = self.ev(d, denv)
            else:
                raise PyExc(Exc("builtins.TypeError", (f"{name}() missing argument {x.arg}",)))
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            raise PyExc(Exc("builtins.TypeError", (f"{name}() got unexpected arguments {sorted(kw)}",)))

    def construct(self, c: ClassInfo, args: list, kw: dict) -> Any:
        if c.is_enum():
            return self.to_enum(c, args)
        if c.is_exception():
            i = Inst(c, self)
            i.attrs["args"] = tuple(args)
            m = c.find_method("__init__")
            if m is not None:
                self.invoke(m, None, [i] + args, kw)
            return i
        if c.is_namedtuple():
            return self._nt(c, args, kw)
        m = c.find_method("__new__")
        if m is not None:
            if c.ext_bases():
                return sym("new", c.qual, typ=c)
            i = self.invoke(m, None, [c] + args, kw)
            init = c.find_method("__init__")
            if isinstance(i, Inst) and i.cls is c and init is not None:
                self.invoke(init, None, [i] + args, kw)
            return i
        i = Inst(c, self)
        m = c.find_method("__init__")
        if m is not None:
            self.invoke(m, None, [i] + args, kw)
        elif c.is_dataclass():
            self._dataclass(c, i, args, kw)
        elif args or kw:
            if not c.ext_bases():
                raise PyExc(Exc("builtins.TypeError", ()))
            return sym("new", c.qual, tuple(args), tuple(sorted(kw.items())), typ=c)
        return i

    def _fields(self, c: ClassInfo) -> list:
        out: dict = {}
        for k in reversed([x for x in c.mro() if isinstance(x, ClassInfo)]):
            for n, an in k.annots.items():
                if "ClassVar" not in ast.unparse(an):
                    out[n] = (k, k.attrs.get(n))
        return [(n, k, d) for n, (k, d) in out.items()]

    def _nt(self, c: ClassInfo, args: list, kw: dict) -> NT:
        vals, names = [], []
        kw = dict(kw)
        for i, (n, k, d) in enumerate(self._fields(c)):
            names.append(n)
            if i < len(args):
                vals.append(args[i])
            elif n in kw:
                vals.append(kw.pop(n))
            elif d is not None:
                vals.append(self.ev(d, self.module_env(k.mod)))
            else:
                raise PyExc(Exc("builtins.TypeError", (n,)))
        t = NT(vals)
        t.cls, t.names = c, tuple(names)
        return t

    def _dataclass(self, c: ClassInfo, i: Inst, args: list, kw: dict) -> None:
        kw = dict(kw)
        args = list(args)
        for n, k, d in self._fields(c):
            fk: dict = {}
            env = self.module_env(k.mod)
            if isinstance(d, ast.Call) and isinstance(self.p.resolve_expr(k.mod, d.func), ExtRef) and self.p.resolve_expr(k.mod, d.func).dotted == "dataclasses.field":
                fk = {x.arg: x.value for x in d.keywords}
            init = not ("init" in fk and self.ev(fk["init"], env) is False)
            if init and args:
                i.attrs[n] = args.pop(0)
            elif init and n in kw:
                i.attrs[n] = kw.pop(n)
            elif "default_factory" in fk:
                i.attrs[n] = self.call(self.ev(fk["default_factory"], env), [], {})
            elif "default" in fk:
                i.attrs[n] = self.ev(fk["default"], env)
            elif d is not None and not fk:
                i.attrs[n] = self.ev(d, env)
            elif init:
                raise PyExc(Exc("builtins.TypeError", (n,)))
        m = c.find_method("__post_init__")
        if m is not None:
            self.invoke(m, None, [i], {})

    def to_enum(self, c: ClassInfo, args: list) -> Any:
        ms = self.enum_members(c)
        if len(args) != 1:
            raise Undec("enum call")
        v = args[0]
        if isinstance(v, Sym):
            return sym("enum", c.qual, v, typ=c)
        for m in ms.values():
            if m is v or same(self.enum_value(m), self.enum_value(v) if isinstance(v, (SEnum, IEnum)) else v):
                return m
        miss = c.find_method("_missing_")
        if miss is not None:
            r = self.invoke(miss, None, [c, v], {})
            if r is not None:
                return r
        raise PyExc(Exc("builtins.ValueError", (v,)))

    # ---- external functions -----------------------------------------------------------------------------------------

    def items_of(self, v: Any) -> list:
        """The elements of an iterable, with an unknown one explored for 0..max_iter elements."""
        if isinstance(v, ClassInfo) and v.is_enum():
            seen: list = []
            for m in self.enum_members(v).values():
                if not any(m is x for x in seen):
                    seen.append(m)
            return seen
        if isinstance(v, Sym):
            out = []
            for i in range(self.h.max_iter):
                if not self.decide(sym("more", v, i, typ="bool")):
                    return out
                out.append(self.h.attr(self, v, f"[{i}]") if self.h.attr(self, v, f"[{i}]") is not NotImplemented else sym("elem", v, i))
            return out
        if isinstance(v, Inst):
            m = v.cls.find_method("__iter__")
            if m is not None:
                return self.items_of(self.call(Bound(m, v), [], {}))
            raise Undec(f"iteration over {v.cls.name}")
        if isinstance(v, Foreign):
            return list(v.items(self))
        if isinstance(v, (list, tuple, str, dict, range, bytes)) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=lambda x: (show(x), ))
        raise Undec(f"iteration over {show(v)}")

    def ext(self, d: str, args: list, kw: dict) -> Any:
        f = getattr(self, "x_" + d.replace("builtins.", "").replace(".", "_"), None)
        if f is not None:
            r = f(args, kw)
            if r is not NotImplemented:
                return r
        c = canon(d)
        last = c.rsplit(".", 1)[-1]
        if is_exc_name(c) or last[:1].isupper() and last.endswith(("Error", "Exception", "Warning")):
            return Exc(c, tuple(args))
        return sym("call", ExtRef(d), tuple(args), tuple(sorted(kw.items())))

    def x_cast(self, a, k):
        return a[1]

    x_typing_cast = x_cast

    def x_typing_no_type_check(self, a, k):
        return a[0]

    def x_isinstance(self, a, k):
        return self.isinst(a[0], a[1])

    def x_len(self, a, k):
        v = a[0]
        if isinstance(v, Sym):
            return sym("len", v, typ="int")
        if isinstance(v, Inst):
            m = v.cls.find_method("__len__")
            return self.call(Bound(m, v), [], {}) if m else NotImplemented
        if isinstance(v, ClassInfo) and v.is_enum():
            return len(self.items_of(v))
        return self.nat(lambda: len(v))

    def x_str(self, a, k):
        if not a:
            return ""
        return self.to_str(a[0])

    def x_repr(self, a, k):
        return repr(a[0]) if (isinstance(a[0], (str, int, float, type(None))) or type(a[0]) in (list, tuple, dict) and _plain(a[0])) and not isinstance(a[0], ENUMS) else sym("repr", a[0], typ="str")

    def x_int(self, a, k):
        return self._num(int, a)

    def x_float(self, a, k):
        return self._num(float, a)

    def _num(self, t, a):
        if not a:
            return t()
        if has_sym(a):
            return sym(t.__name__, *a, typ=t.__name__)
        return self.nat(lambda: t(*a))

    def x_bool(self, a, k):
        return self.truth(a[0]) if a else False

    def _coll(self, t, a):
        if not a:
            return t()
        v = a[0]
        if isinstance(v, Sym):
            return sym(t.__name__, v, typ=t.__name__)
        return t(self.items_of(v))

    def x_list(self, a, k):
        return self._coll(list, a)

    def x_set(self, a, k):
        return self._coll(set, a)

    def x_frozenset(self, a, k):
        return self._coll(frozenset, a)

    def x_tuple(self, a, k):
        return self._coll(tuple, a)

    def x_dict(self, a, k):
        if a and isinstance(a[0], Sym):
            return sym("dict", a[0], tuple(sorted(k.items())), typ="dict")
        d = dict(a[0]) if a and isinstance(a[0], dict) else {x[0]: x[1] for x in (self.items_of(y) for y in self.items_of(a[0]))} if a else {}
        d.update(k)
        return d

    def x_dict_fromkeys(self, a, k):
        if isinstance(a[0], Sym):
            return sym("fromkeys", *a, typ="dict")
        return dict.fromkeys(self.items_of(a[0]), a[1] if len(a) > 1 else None)

    def x_sorted(self, a, k):
        v = a[0]
        if isinstance(v, Sym):
            return sym("sorted", v, typ="list")
        return self._sort(self.items_of(v), k)

    def _sort(self, xs, k):
        key = k.get("key")
        ks = [self.call(key, [x], {}) for x in xs] if key is not None else xs
        if has_sym(ks):
            raise Undec("sorting symbolic values")
        rev = self.truth(k.get("reverse", False))
        order = self.nat(lambda: sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev))
        return [xs[i] for i in order]

    def x_reversed(self, a, k):
        return list(reversed(self.items_of(a[0])))

    def x_enumerate(self, a, k):
        s = a[1] if len(a) > 1 else k.get("start", 0)
        return [(s + i, x) for i, x in enumerate(self.items_of(a[0]))]

    def x_zip(self, a, k):
        return [tuple(x) for x in zip(*[self.items_of(y) for y in a])]

    def x_range(self, a, k):
        if has_sym(a):
            return sym("range", *a)
        return range(*a)

    def x_map(self, a, k):
        return [self.call(a[0], list(x), {}) for x in zip(*[self.items_of(y) for y in a[1:]])]

    def x_filter(self, a, k):
        return [x for x in self.items_of(a[1]) if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x)]

    def x_any(self, a, k):
        return any(self.truth(x) for x in self.items_of(a[0]))

    def x_all(self, a, k):
        return all(self.truth(x) for x in self.items_of(a[0]))

    def x_sum(self, a, k):
        t: Any = a[1] if len(a) > 1 else 0
        for x in self.items_of(a[0]):
            t = self.binop(ast.Add, t, x)
        return t

    def _minmax(self, f, a, k):
        xs = self.items_of(a[0]) if len(a) == 1 else a
        if has_sym(xs):
            return sym(f.__name__, *xs)
        if not xs and "default" in k:
            return k["default"]
        return self.nat(lambda: f(xs)) if "key" not in k else self._sort(xs, {"key": k["key"]})[0 if f is min else -1]

    def x_min(self, a, k):
        return self._minmax(min, a, k)

    def x_max(self, a, k):
        return self._minmax(max, a, k)

    def x_abs(self, a, k):
        return abs(a[0]) if not has_sym(a) else sym("abs", *a)

    def x_round(self, a, k):
        return round(*a) if not has_sym(a) else sym("round", *a)

    def x_iter(self, a, k):
        return self.items_of(a[0])

    def x_next(self, a, k):
        v = a[0]
        if isinstance(v, list):
            if v:
                return v.pop(0)
            if len(a) > 1:
                return a[1]
            raise PyExc(Exc("builtins.StopIteration"))
        raise Undec("next()")

    def x_type(self, a, k):
        v = a[0]
        if isinstance(v, (Inst, NT) + ENUMS):
            return v.cls
        if isinstance(v, Sym):
            return sym("type", v)
        return ExtRef(f"builtins.{type(v).__name__}")

    def x_callable(self, a, k):
        return isinstance(a[0], (Fn, FuncInfo, Bound, Native, ClassInfo))

    def x_getattr(self, a, k):
        try:
            return self.getattr(a[0], a[1])
        except PyExc:
            if len(a) > 2:
                return a[2]
            raise

    def x_hasattr(self, a, k):
        try:
            self.getattr(a[0], a[1])
            return True
        except PyExc:
            return False

    def x_setattr(self, a, k):
        self.setattr(a[0], a[1], a[2])

    def x_super(self, a, k):
        raise Undec("super()")

    def x_hash(self, a, k):
        return sym("hash", a[0], typ="int")

    def x_copy_copy(self, a, k):
        v = a[0]
        if isinstance(v, (list, dict, set)):
            return v.copy()
        if isinstance(v, Inst):
            i = Inst(v.cls, self)
            i.attrs = dict(v.attrs)
            return i
        return v if not isinstance(v, Sym) else NotImplemented

    def x_copy_deepcopy(self, a, k):
        return self._deep(a[0], {})

    def _deep(self, v, memo):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, list):
            r = memo[id(v)] = []
            r += [self._deep(x, memo) for x in v]
        elif isinstance(v, dict):
            r = memo[id(v)] = {}
            r.update({k: self._deep(x, memo) for k, x in v.items()})
        elif isinstance(v, Inst):
            new = v.cls.find_method("__new__")
            r = memo[id(v)] = self.invoke(new, None, [v.cls], {}) if new is not None and not v.cls.ext_bases() else Inst(v.cls, self)
            r.attrs.update({k: self._deep(x, memo) for k, x in v.attrs.items()})
        elif isinstance(v, set):
            r = {self._deep(x, memo) for x in v}
        elif type(v) is tuple:
            r = tuple(self._deep(x, memo) for x in v)
        else:
            r = v
        return r

    def x_functools_partial(self, a, k):
        f = a[0]
        return Partial(f, list(a[1:]), dict(k))

    def x_collections_defaultdict(self, a, k):
        raise Undec("defaultdict")

    def x_itertools_chain(self, a, k):
        return [y for x in a for y in self.items_of(x)]

    def x_itertools_chain_from_iterable(self, a, k):
        return [y for x in self.items_of(a[0]) for y in self.items_of(x)]

    def x_functools_reduce(self, a, k):
        xs = self.items_of(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = self.call(a[0], [acc, x], {})
        return acc

    def x_operator_or_(self, a, k):
        return self.binop(ast.BitOr, a[0], a[1])

    def x_operator_and_(self, a, k):
        return self.binop(ast.BitAnd, a[0], a[1])

    def x_operator_sub(self, a, k):
        return self.binop(ast.Sub, a[0], a[1])

    def x_print(self, a, k):
        self.emit("print", *a)

    def to_str(self, v: Any) -> Any:
        if isinstance(v, SEnum):
            m = v.cls.find_method("__str__")
            return self.invoke(m, None, [v], {}) if m is not None else str.__str__(v)
        if isinstance(v, IEnum):
            return str(int(v))
        if isinstance(v, (bool, int, float, str, type(None))):
            return str(v)
        if isinstance(v, Inst):
            m = v.cls.find_method("__str__") or v.cls.find_method("__repr__")
            if m is not None:
                return self.invoke(m, None, [v], {})
        if isinstance(v, OEnum):
            return f"{v.cls.name}.{v.name}"
        if isinstance(v, Foreign):
            return v.text(self)
        if isinstance(v, Sym) and v.typ == "str":
            return v
        if type(v) in (list, tuple, dict) and _plain(v):
            return str(v)
        return sym("str", v, typ="str")

    def nat(self, f: Callable) -> Any:
        try:
            return f()
        except _NATIVE_EXC as e:
            raise PyExc(Exc(f"builtins.{type(e).__name__}", e.args))

    def native(self, f: Native, args: list, kw: dict) -> Any:
        o, n = f.obj, f.name
        if isinstance(o, Foreign):
            return o.call(self, n, args, kw)
        if isinstance(o, (str, bytes)):
            if n == "join":
                xs = args[0] if isinstance(args[0], Sym) else self.items_of(args[0])
                if has_sym(xs):
                    return sym("join", o, xs if isinstance(xs, Sym) else tuple(xs), typ="str")
                return self.nat(lambda: o.join(xs))
            if has_sym(args) or has_sym(list(kw.values())):
                return sym("call", f, tuple(args), tuple(sorted(kw.items())), typ="bool" if n in ("startswith", "endswith") else "str" if n in ("replace", "format") else None)
            base = str.__str__(o) if isinstance(o, SEnum) else o
            return self.nat(lambda: getattr(base, n)(*args, **kw))
        if isinstance(o, (list, set, frozenset, dict, tuple)):
            if n in ("extend", "update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update",
                     "symmetric_difference", "symmetric_difference_update") and args:
                if any(isinstance(x, Sym) for x in args):
                    if n in ("extend", "update"):
                        raise Undec(f"{n} with an unknown collection")
                    op = {"union": "|", "intersection": "&", "difference": "-"}.get(n)
                    return sym("bin", op or n, o if not isinstance(o, set) else frozenset(o), args[0], typ="set")
                if not isinstance(args[0], dict):
                    args = [self.items_of(x) for x in args]
                if n not in ("extend", "update", "union") and isinstance(o, (set, frozenset)) and (self._soft(o) or any(self._soft(x) for x in args)):
                    return sym("bin", n, frozenset(o), *[frozenset(x) for x in args])
            if n == "sort":
                o[:] = self._sort(list(o), kw)
                return None
            if n in ("remove", "index", "count") and isinstance(o, (list, tuple)):
                return self._seq(o, n, args)
            if n in ("discard", "remove") and isinstance(o, set) and (self._soft(o) or has_sym(args)):
                if not any(x is args[0] for x in o):
                    raise Undec("removal of a symbolic element")
            if n in ("get", "pop", "setdefault") and isinstance(o, dict) and args and isinstance(args[0], Sym):
                k = self._find(o, args[0])
                if k is not _MISSING:
                    return self.nat(lambda: getattr(o, n)(k, *args[1:]))
                if n == "get":
                    return args[1] if len(args) > 1 else None
                if n == "pop":
                    if len(args) > 1:
                        return args[1]
                    raise PyExc(Exc("builtins.KeyError", (args[0],)))
            if isinstance(o, dict) and n in ("get", "pop", "setdefault") and args and self._soft(o.keys()):
                k = self._find(o, args[0])
                if k is not _MISSING:
                    return self.nat(lambda: getattr(o, n)(k, *args[1:]))
            if n in ("items", "keys", "values"):
                return list(getattr(o, n)())
            return self.nat(lambda: getattr(o, n)(*args, **kw))
        if isinstance(o, RE_TYPES):
            return self._regex(o, n, args, kw)
        raise Undec(f"method {n} of {show(o)}")

    # Regular expressions over known text are folded like other constants.
    def _regex(self, o: Any, n: str, args: list, kw: dict) -> Any:
        args = list(args)
        if isinstance(o, _re.Pattern) and n in ("sub", "subn") and args and isinstance(args[0], (Fn, Bound, FuncInfo, Native)):
            f = args[0]
            args[0] = lambda m: self._known_text(self.call(f, [m], {}))
        if has_sym(args) or has_sym(list(kw.values())):
            return sym("call", sym("attr", _PatRef(o), n), tuple(args), tuple(sorted(kw.items())), typ="str" if n in ("sub",) else "list" if n in ("findall", "split") else None)
        r = self.nat(lambda: getattr(o, n)(*args, **kw))
        return list(r) if n == "finditer" else r

    @staticmethod
    def _known_text(v: Any) -> str:
        if not isinstance(v, str):
            raise Undec(f"substitution by {show(v)}")
        return str.__str__(v)

    def x_re_compile(self, a, k):
        if has_sym(a) or not a:
            return NotImplemented
        if isinstance(a[0], _re.Pattern):
            return a[0]
        try:
            return _re.compile(*[self.flags(x) for x in a], **{n: self.flags(v) for n, v in k.items()})
        except (_re.error, TypeError, OverflowError) as e:
            raise PyExc(Exc("re.error", (str(e),)))

    @staticmethod
    def flags(v: Any) -> Any:
        if isinstance(v, ExtRef) and v.dotted.startswith("re."):
            return getattr(_re, v.dotted[3:])
        if isinstance(v, Sym) and v.op == "bin" and v.args[0] == "|":
            return PEval.flags(v.args[1]) | PEval.flags(v.args[2])
        return v

    def x_re_escape(self, a, k):
        return _re.escape(a[0]) if isinstance(a[0], str) else NotImplemented

    def _re_fn(n: str):  # noqa: N805
        def f(self, a, k):
            if not a or not isinstance(a[0], (str, _re.Pattern)):
                return NotImplemented
            pat = self.x_re_compile([a[0]] + ([k["flags"]] if "flags" in k else []), {})
            return self._regex(pat, n, list(a[1:]), {x: y for x, y in k.items() if x != "flags"})
        return f

    x_re_search = _re_fn("search")
    x_re_match = _re_fn("match")
    x_re_fullmatch = _re_fn("fullmatch")
    x_re_sub = _re_fn("sub")
    x_re_findall = _re_fn("findall")
    x_re_finditer = _re_fn("finditer")
    x_re_split = _re_fn("split")

    def x_ast_literal_eval(self, a, k):
        if not isinstance(a[0], str):
            return NotImplemented
        try:
            return ast.literal_eval(a[0])
        except SyntaxError as e:
            raise PyExc(Exc("builtins.SyntaxError", e.args))
        except _NATIVE_EXC as e:
            raise PyExc(Exc(f"builtins.{type(e).__name__}", e.args))

    def x_json_dumps(self, a, k):
        if has_sym(a) or has_sym(list(k.values())) or isinstance(a[0], (Inst,)):
            return NotImplemented
        return self.nat(lambda: _json.dumps(*a, **k))

    @staticmethod
    def _soft(xs: Any) -> bool:
        return any(isinstance(x, Sym) for x in xs)

    def _seq(self, o: Any, n: str, args: list) -> Any:
        hits = [i for i, x in enumerate(o) if self.truth(self.compare(ast.Eq, x, args[0]))] if n == "count" else None
        if hits is not None:
            return len(hits)
        for i, x in enumerate(o):
            if self.truth(self.compare(ast.Eq, x, args[0])):
                if n == "index":
                    return i
                del o[i]
                return None
        raise PyExc(Exc("builtins.ValueError"))

    def _find(self, d: Any, k: Any) -> Any:
        """The key of d equal to k, exploring unknown equalities."""
        for x in d:
            if x is k or (not has_sym(x) and not has_sym(k) and type(x) is type(k) and x == k):
                return x
        for x in d:
            if self.truth(self.compare(ast.Eq, x, k)):
                return x
        return _MISSING

    def isinst(self, v: Any, c: Any) -> Any:
        if isinstance(c, (tuple, list)):
            rs = []
            for x in c:
                r = self.isinst(v, x)
                if r is True:
                    return True
                rs.append(r)
            sy = [r for r in rs if isinstance(r, Sym)]
            if not sy:
                return False
            return any(self.truth(r) for r in sy)
        if isinstance(c, Sym) and c.op == "bin" and c.args[0] == "|":
            return self.isinst(v, (c.args[1], c.args[2]))
        if isinstance(v, Sym):
            if v.typ is None:
                return sym("isinst", v, c, typ="bool") if isinstance(c, (ClassInfo, ExtRef)) else sym("isinst", v, show(c), typ="bool")
            t = v.typ if isinstance(v.typ, ClassInfo) else ExtRef(f"builtins.{v.typ}") if isinstance(v.typ, str) and hasattr(_b, v.typ) else None
            if t is None:
                return sym("isinst", v, c, typ="bool")
            ck = c.qual if isinstance(c, ClassInfo) else c.dotted if isinstance(c, ExtRef) else None
            return ck in self._super_names(t) or ck == "builtins.object"
        ck = c.qual if isinstance(c, ClassInfo) else c.dotted if isinstance(c, ExtRef) else None
        if isinstance(v, Foreign) and ck is not None:
            return ck == "builtins.object" or ck in v.isa
        if ck is None:
            if c is None:
                return v is None
            raise Undec("isinstance with an unknown class")
        if ck == "builtins.object":
            return True
        if isinstance(v, (Inst, NT) + ENUMS):
            return ck in self._super_names(v.cls) or (isinstance(v, NT) and ck == "builtins.tuple")
        if isinstance(v, Exc):
            return ck in supers(v.name)
        if isinstance(c, ClassInfo):
            return False
        if ck in ("types.NoneType", "builtins.NoneType"):
            return v is None
        t = getattr(_b, ck[9:], None) if ck.startswith("builtins.") else None
        if isinstance(t, type):
            return isinstance(v, t)
        if ck.startswith(("collections.abc.", "typing.")):
            import collections.abc as cabc
            t = getattr(cabc, ck.rsplit(".", 1)[1], None)
            if t is not None:
                return isinstance(v, t)
        return False

    # ---- attributes -------------------------------------------------------------------------------------------------

    def getattr(self, o: Any, n: str) -> Any:
        r = self.h.attr(self, o, n)
        if r is not NotImplemented:
            return r
        if isinstance(o, Foreign):
            return o.attr(self, n)
        if isinstance(o, Sym):
            if isinstance(o.typ, ClassInfo):
                m = o.typ.find_method(n)
                if m is not None:
                    if m.kind == "property":
                        return sym("attr", o, n)
                    return m if m.kind == "static" else Bound(m, o.typ if m.kind == "classmethod" else o)
            return sym("attr", o, n)
        if isinstance(o, ModInfo):
            return self.entity(self.p.member(o, n))
        if isinstance(o, ExtRef):
            if (o.dotted, n) == ("sys", "maxsize"):
                return 2 ** 63 - 1
            return ExtRef(f"{o.dotted}.{n}")
        if isinstance(o, RE_TYPES):
            x = self.nat(lambda: getattr(o, n))
            return Native(o, n) if callable(x) else x
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            m = o.cls.find_method(n)
            if m is not None:
                if m.kind == "property":
                    return self.invoke(m, None, [o], {})
                return m if m.kind == "static" else Bound(m, o.cls if m.kind == "classmethod" else o)
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                return o.attrs
            r = self.class_attr(o.cls, n)
            if r is not _MISSING:
                return r
            raise PyExc(Exc("builtins.AttributeError", (n,)))
        if isinstance(o, NT):
            if n in o.names:
                return o[o.names.index(n)]
            m = o.cls.find_method(n)
            if m is not None:
                return self.invoke(m, None, [o], {}) if m.kind == "property" else Bound(m, o)
            if n == "_replace":
                return Native(o, n)
            if n == "_asdict":
                return Native(o, n)
        if isinstance(o, ENUMS):
            if n == "value":
                return self.enum_value(o)
            if n == "name":
                return o.name
            m = o.cls.find_method(n)
            if m is not None:
                return self.invoke(m, None, [o], {}) if m.kind == "property" else m if m.kind == "static" else Bound(m, o.cls if m.kind == "classmethod" else o)
            if n in self.enum_members(o.cls):
                return self.enum_members(o.cls)[n]
            if isinstance(o, OEnum):
                raise PyExc(Exc("builtins.AttributeError", (n,)))
        if isinstance(o, ClassInfo):
            if o.is_enum():
                ms = self.enum_members(o)
                if n in ms:
                    return ms[n]
                if n == "__members__":
                    return dict(ms)
            if n in o.inner:
                return o.inner[n]
            m = o.find_method(n)
            if m is not None:
                return Bound(m, o) if m.kind == "classmethod" else m
            if n == "__name__":
                return o.name
            r = self.class_attr(o, n)
            if r is not _MISSING:
                return r
            raise PyExc(Exc("builtins.AttributeError", (n,)))
        if isinstance(o, Super):
            seen = False
            inst = o.self_
            for k in (inst.cls if isinstance(inst, (Inst, NT)) else inst if isinstance(inst, ClassInfo) else o.cls).mro():
                if seen and isinstance(k, ClassInfo) and n in k.methods:
                    return Bound(k.methods[n], inst)
                seen = seen or k is o.cls
            if n == "__new__" and isinstance(inst, ClassInfo) and not inst.ext_bases():
                return NewOf()
            return sym("super", n)
        if isinstance(o, Exc):
            if n == "args":
                return o.args
            return sym("attr", sym("exc", o.name), n)
        if isinstance(o, (str, bytes, list, tuple, set, frozenset, dict, int, float)):
            if hasattr(o, n):
                v = getattr(o, n)
                if not callable(v):
                    return v
                return Native(o, n)
            raise PyExc(Exc("builtins.AttributeError", (n,)))
        if o is None:
            raise PyExc(Exc("builtins.AttributeError", (n,)))
        raise Undec(f"attribute {n} of {show(o)}")

    def class_attr(self, c: ClassInfo, n: str) -> Any:
        hit = c.find_attr(n)
        if hit is None or hit[1] is None:
            return _MISSING
        key = (hit[0], n)
        if key not in self.clsattrs:
            env = Env(None, hit[0].mod, cls=hit[0])
            env.parent = None
            for k in hit[0].attrs:  # names of the class body are visible to later class-level expressions
                if k == n:
                    break
                if any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(hit[1])):
                    env.vars[k] = self.class_attr(hit[0], k)
            self.clsattrs[key] = self.ev(hit[1], env)
        return self.clsattrs[key]

    def setattr(self, o: Any, n: str, v: Any) -> None:
        if isinstance(o, Inst):
            m = o.cls.find_method(n)
            o.attrs[n] = v
            return
        if isinstance(o, ClassInfo):
            self.clsattrs[(o, n)] = v
            o_attr = o.find_attr(n)
            if o_attr is None:
                raise Undec("new class attribute")
            self.clsattrs[(o_attr[0], n)] = v
            return
        if isinstance(o, Sym):
            self.emit("setattr", o, n, v)
            return
        if isinstance(o, Foreign):
            o.set(self, n, v)
            return
        raise Undec(f"store to attribute {n} of {show(o)}")

    # ---- statements -------------------------------------------------------------------------------------------------

    def block(self, body: list, env: Env) -> None:
        for s in body:
            self.stmt(s, env)

    def tick(self) -> None:
        self.steps += 1
        if self.steps > self.h.max_steps:
            raise Undec("step budget")

    def stmt(self, s: ast.stmt, env: Env) -> None:
        self.tick()
        getattr(self, "s_" + type(s).__name__, self.s_other)(s, env)

    def s_other(self, s, env):
        raise Undec(f"statement {type(s).__name__}")

    def s_Expr(self, s, env):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            env.vars[nm] = self.p.mods.get(full) or ExtRef(full)

    def s_ImportFrom(self, s, env):
        for a in s.names:
            x = self.p.resolve_dotted(s.module or "", a.name)
            env.vars[a.asname or a.name] = self.entity(x)

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, env):
        env.vars[s.name] = Fn(self.p.node_fn.get(id(s)), s, env)

    def s_ClassDef(self, s, env):
        c = self.p.node_fn.get(id(s))
        if not isinstance(c, ClassInfo):
            raise Undec("local class")
        env.vars[s.name] = c

    def s_Return(self, s, env):
        raise _Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc(Exc("builtins.AssertionError"), s)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.index(t.slice, env)
                if isinstance(o, Sym):
                    self.emit("delitem", o, k)
                    continue
                if isinstance(o, dict):
                    k2 = self._find(o, k)
                    if k2 is _MISSING:
                        raise PyExc(Exc("builtins.KeyError", (k,)))
                    del o[k2]
                elif has_sym(k):
                    raise Undec("deletion at an unknown index")
                else:
                    self.nat(lambda: o.__delitem__(k))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    o.attrs.pop(t.attr, None)
                else:
                    raise Undec("attribute deletion")

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
        else:
            o, k = self.ev(t.value, env), self.index(t.slice, env)
            cur = self.subscript(o, k)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur += self.items_of(v)
            r = cur
        elif isinstance(cur, set) and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(v, (set, frozenset)) and not self._soft(cur) and not self._soft(v):
            if isinstance(s.op, ast.BitOr):
                cur |= v
            elif isinstance(s.op, ast.Sub):
                cur -= v
            else:
                cur &= v
            r = cur
        elif isinstance(cur, set) and isinstance(s.op, ast.BitOr) and isinstance(v, (set, frozenset)):
            cur |= v
            r = cur
        elif isinstance(cur, dict) and isinstance(s.op, ast.BitOr) and isinstance(v, dict):
            cur.update(v)
            r = cur
        else:
            r = self.binop(type(s.op), cur, v)
        if isinstance(t, ast.Name):
            self.assign(t, r, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r)
        else:
            self.setitem(o, k, r)

    def s_Raise(self, s, env):
        if s.exc is None:
            e = env
            while e is not None:
                if "$exc" in e.vars and e.vars["$exc"] is not None:
                    raise PyExc(e.vars["$exc"], s)
                e = e.parent
            raise Undec("bare raise")
        v = self.ev(s.exc, env)
        if isinstance(v, ClassInfo):
            v = self.construct(v, [], {})
        elif isinstance(v, ExtRef):
            v = Exc(canon(v.dotted))
        raise PyExc(v, s)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            self.tick()
            n += 1
            if n > 200:
                raise Undec("loop bound")
            try:
                self.block(s.body, env)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        for x in self.iter_lazy(it):
            self.tick()
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Brk:
                return
            except _Cont:
                continue
        self.block(s.orelse, env)

    def iter_lazy(self, v: Any):
        if isinstance(v, Foreign):
            yield from v.items(self)
            return
        if isinstance(v, Sym):
            for i in range(self.h.max_iter):
                if not self.decide(sym("more", v, i, typ="bool")):
                    return
                r = self.h.attr(self, v, f"[{i}]")
                yield r if r is not NotImplemented else sym("elem", v, i)
            return
        if isinstance(v, list):
            i = 0
            while i < len(v):
                yield v[i]
                i += 1
            return
        yield from self.items_of(v)

    def s_With(self, s, env):
        stack = []
        for it in s.items:
            c = self.ev(it.context_expr, env)
            if isinstance(c, Inst) and c.cls.find_method("__enter__"):
                x = self.call(Bound(c.cls.find_method("__enter__"), c), [], {})
            elif isinstance(c, Sym):
                x = self.h.model(self, ".__enter__", c, [], {})
                x = sym("enter", c, typ=c.typ) if x is NotImplemented else x
            elif isinstance(c, Foreign):
                x = c.enter(self)
            else:
                raise Undec("with")
            stack.append(c)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, env)
        try:
            self.block(s.body, env)
        except (_Ret, _Brk, _Cont):
            for c in reversed(stack):
                if isinstance(c, Foreign):
                    c.exit(self)
                elif isinstance(c, Inst) and c.cls.find_method("__exit__"):
                    self.call(Bound(c.cls.find_method("__exit__"), c), [None, None, None], {})
            raise
        except PyExc as e:
            for c in reversed(stack):
                if isinstance(c, Foreign):
                    c.exit(self)
                if isinstance(c, Inst) and c.cls.find_method("__exit__"):
                    if self.truth(self.call(Bound(c.cls.find_method("__exit__"), c), [sym("type", "exc"), e.val, None], {})):
                        return
                elif isinstance(c, Sym) and c.op == "call" and isinstance(c.args[0], ExtRef) and c.args[0].dotted == "contextlib.suppress":
                    if self.matches(e.val, tuple(c.args[1])):
                        return
            raise
        finally_ok = True
        for c in reversed(stack):
            if isinstance(c, Foreign):
                c.exit(self)
            if isinstance(c, Inst) and c.cls.find_method("__exit__"):
                self.call(Bound(c.cls.find_method("__exit__"), c), [None, None, None], {})
        assert finally_ok

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    c = self.ev(h.type, env) if h.type is not None else None
                    if c is None or self.matches(e.val, c):
                        if h.name:
                            env.vars[h.name] = e.val
                        old = env.vars.get("$exc")
                        env.vars["$exc"] = e.val
                        try:
                            self.block(h.body, env)
                        finally:
                            env.vars["$exc"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def matches(self, v: Any, c: Any) -> bool:
        if isinstance(c, (tuple, list)):
            return any(self.matches(v, x) for x in c)
        ck = c.qual if isinstance(c, ClassInfo) else canon(c.dotted) if isinstance(c, ExtRef) else None
        if ck is None:
            raise Undec("except with an unknown class")
        if isinstance(v, Exc):
            return ck in supers(v.name)
        if isinstance(v, Inst):
            out: set = set()
            for k in v.cls.mro():
                out |= {k.qual} if isinstance(k, ClassInfo) else supers(k)
            return ck in out
        if isinstance(v, Sym) and isinstance(v.typ, ClassInfo):
            return self.matches(Inst(v.typ, self), c)
        raise Undec("exception of an unknown class")

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env) -> bool:
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq, v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is, v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name is not None:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.truth(self.isinst(v, c)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, ExtRef) and c.dotted in ("builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.list", "builtins.dict"):
                    if not self.pattern(p.patterns[0], v, env):
                        return False
                else:
                    raise Undec("positional class pattern")
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pattern(q, self.getattr(v, n), env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, bytes, dict, set)) or v is None or isinstance(v, ENUMS):
                return False
            if isinstance(v, (list, tuple)):
                star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
                if star is None:
                    return len(v) == len(p.patterns) and all(self.pattern(q, x, env) for q, x in zip(p.patterns, v))
                k = len(p.patterns) - 1
                if len(v) < k:
                    return False
                tail = k - star
                if p.patterns[star].name:
                    env.vars[p.patterns[star].name] = list(v[star: len(v) - tail])
                return all(self.pattern(q, x, env) for q, x in zip(p.patterns[:star], v[:star])) and \
                    all(self.pattern(q, x, env) for q, x in zip(p.patterns[star + 1:], v[len(v) - tail:]))
        raise Undec(f"pattern {type(p).__name__}")

    def assign(self, t, v, env) -> None:
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.module_env(env.mod).vars[t.id] = v
                return
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym):
                xs = [self.subscript(v, i) for i in range(len(t.elts))]
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Undec("starred unpacking")
            else:
                xs = self.items_of(v)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                if len(xs) != len(t.elts):
                    raise PyExc(Exc("builtins.ValueError"))
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, env)
            else:
                tail = len(t.elts) - 1 - star
                if len(xs) < len(t.elts) - 1:
                    raise PyExc(Exc("builtins.ValueError"))
                for e, x in zip(t.elts[:star], xs):
                    self.assign(e, x, env)
                self.assign(t.elts[star].value, xs[star: len(xs) - tail], env)
                for e, x in zip(t.elts[star + 1:], xs[len(xs) - tail:]):
                    self.assign(e, x, env)
        else:
            raise Undec("assignment target")

    def setitem(self, o: Any, k: Any, v: Any) -> None:
        if isinstance(o, Sym):
            self.emit("setitem", o, k, v)
            return
        if isinstance(o, dict):
            k2 = self._find(o, k) if has_sym(k) or self._soft(o) else k
            o[k if k2 is _MISSING else k2] = v
            return
        if isinstance(o, list):
            if has_sym(k):
                raise Undec("store at an unknown index")
            self.nat(lambda: o.__setitem__(k, v))
            return
        if isinstance(o, Inst) and o.cls.find_method("__setitem__"):
            self.call(Bound(o.cls.find_method("__setitem__"), o), [k, v], {})
            return
        raise Undec("item store")

    # ---- expressions ------------------------------------------------------------------------------------------------

    def ev(self, e: ast.expr, env: Env) -> Any:
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undec(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def _elts(self, elts, env) -> list:
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.items_of(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return self._elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self._elts(e.elts, env))

    def e_Dict(self, e, env):
        d: dict = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, Sym):
                    raise Undec("merge of an unknown dictionary")
                d.update(x)
            else:
                kk = self.ev(k, env)
                d[kk] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, env)
                    v = self.nat(lambda: format(v, spec)) if isinstance(v, (int, float, str)) and isinstance(spec, str) else sym("format", v, spec, typ="str")
                elif x.conversion == 114:
                    v = self.x_repr([v], {})
                else:
                    v = self.to_str(v)
                parts.append(v)
        if any(isinstance(x, Sym) for x in parts):
            out: list = []
            for x in parts:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "" or isinstance(x, Sym):
                    out.append(x)
            return sym("fmt", *out, typ="str")
        return "".join(parts)

    def e_FormattedValue(self, e, env):
        return self.to_str(self.ev(e.value, env))

    def e_BoolOp(self, e, env):
        v: Any = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not (isinstance(v, Sym) and v.typ == "bool") else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, Sym) and v.typ == "bool") else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            return sym("neg" if isinstance(e.op, ast.USub) else type(e.op).__name__, v)
        if not isinstance(v, (int, float, complex)):
            raise Undec(f"unary operator on {show(v)}")
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        return self.binop(type(e.op), a, self.ev(e.right, env))

    def binop(self, op: type, a: Any, b: Any) -> Any:
        nm, f = _BIN.get(op, (op.__name__, None))
        if isinstance(a, Inst) or isinstance(b, Inst):
            dn = {"+": "add", "-": "sub", "&": "and", "|": "or", "/": "truediv", "*": "mul"}.get(nm)
            m = a.cls.find_method(f"__{dn}__") if isinstance(a, Inst) and dn else None
            if m is not None:
                return self.call(Bound(m, a), [b], {})
            raise Undec(f"operator {nm}")
        if isinstance(a, Foreign):
            return a.binop(self, nm, b, False)
        if isinstance(b, Foreign):
            return b.binop(self, nm, a, True)
        if isinstance(a, Sym) or isinstance(b, Sym) or f is None:
            a2 = frozenset(a) if isinstance(a, set) else tuple(a) if isinstance(a, list) else a
            b2 = frozenset(b) if isinstance(b, set) else tuple(b) if isinstance(b, list) else b
            t = None
            if nm in ("|", "&", "-") and (isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)) or getattr(a, "typ", None) == "set" or getattr(b, "typ", None) == "set"):
                t = "set"
            elif nm == "+" and (isinstance(a, str) or isinstance(b, str) or getattr(a, "typ", None) == "str"):
                t = "str"
            elif nm == "/" and isinstance(a, Sym):
                t = None
            return sym("bin", nm, a2, b2, typ=t)
        if isinstance(a, (ClassInfo, ExtRef)) or isinstance(b, (ClassInfo, ExtRef)):
            return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,))
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and nm != "|" and (self._soft(a) or self._soft(b)):
            return sym("bin", nm, frozenset(a), frozenset(b), typ="set")
        if nm == "%" and isinstance(a, str) and has_sym(b):
            return sym("bin", nm, a, b, typ="str")
        if nm == "*" and isinstance(b, int) and isinstance(a, (str, list)) and abs(b) > 10000:
            raise Undec("size")
        return self.nat(lambda: f(a, b))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]), left, self.ev(e.comparators[0], env))
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, env)
            if not self.truth(self.compare(type(op), left, r)):
                return False
            left = r
        return True

    def neg(self, v: Any) -> Any:
        return sym("not", v, typ="bool") if isinstance(v, Sym) else not v

    def compare(self, op: type, a: Any, b: Any) -> Any:
        nm = _CMP[op]
        if nm in ("!=", "is not", "not in"):
            return self.neg(self.compare({"!=": ast.Eq, "is not": ast.Is, "not in": ast.In}[nm], a, b))
        if nm == "is":
            if a is None or b is None:
                x = b if a is None else a
                if isinstance(x, Sym):
                    if x.typ is not None:
                        return False
                    return sym("isnone", x, typ="bool")
                return x is None
            if isinstance(a, Sym) or isinstance(b, Sym):
                return True if a is b else sym("cmp", "is", a, b, typ="bool")
            return a is b or (isinstance(a, (ClassInfo, ExtRef)) and same(a, b)) or (isinstance(a, (bool, int, str)) and not isinstance(a, ENUMS) and same(a, b))
        if nm == "==":
            if a is b:
                return True
            if isinstance(a, Inst) or isinstance(b, Inst):
                if isinstance(a, Inst) and a.cls.find_method("__eq__"):
                    return self.call(Bound(a.cls.find_method("__eq__"), a), [b], {})
                if isinstance(a, Sym) or isinstance(b, Sym):
                    return sym("cmp", "==", *((a, b) if isinstance(a, Sym) else (b, a)), typ="bool")
                return a == b
            if isinstance(a, Sym) or isinstance(b, Sym):
                if not isinstance(a, Sym) or (isinstance(b, Sym) and b.uid < a.uid):
                    a, b = b, a
                if b is None:
                    return False if a.typ is not None else sym("isnone", a, typ="bool")
                if isinstance(a.typ, str) and not isinstance(b, Sym) and hasattr(_b, a.typ) and isinstance(b, (str, int, float, list, dict, set, tuple)) \
                        and not isinstance(b, getattr(_b, a.typ)) and not (a.typ in ("int", "float", "bool") and isinstance(b, (int, float))):
                    return False
                return sym("cmp", "==", a, b, typ="bool")
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b)):
                if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
                    return False
                return all(self.truth(self.compare(ast.Eq, x, y)) for x, y in zip(a, b))
            if (has_sym(a) or has_sym(b)) and not same(a, b):
                return sym("cmp", "==", *[frozenset(x) if isinstance(x, set) else x for x in (a, b)], typ="bool")
            return a == b
        if nm == "in":
            if isinstance(b, ClassInfo) and b.is_enum():
                b = self.items_of(b)
            if isinstance(b, Inst):
                m = b.cls.find_method("__contains__")
                if m is not None:
                    return self.call(Bound(m, b), [a], {})
                b = self.items_of(b)
            if isinstance(b, Sym) or (isinstance(b, str) and isinstance(a, Sym)):
                if isinstance(b, Sym) and isinstance(b.typ, ClassInfo) and b.typ.find_method("__contains__"):
                    return self.call(Bound(b.typ.find_method("__contains__"), b), [a], {})
                return sym("contains", b, a, typ="bool")
            if isinstance(b, str):
                return self.nat(lambda: a in b)
            xs = list(b) if not isinstance(b, (set, frozenset)) else self.items_of(b)
            if not isinstance(a, (Sym, Inst)) and not self._soft(xs) and not any(isinstance(x, (Inst, tuple)) for x in xs):
                try:
                    return a in b
                except TypeError:
                    pass
            if any(x is a for x in xs):
                return True
            if isinstance(a, Sym) and xs and not self._soft(xs) and len(xs) > 3:
                return sym("contains", frozenset(xs) if all(isinstance(x, (str, int)) for x in xs) else tuple(xs), a, typ="bool")
            return any(self.truth(self.compare(ast.Eq, x, a)) for x in xs)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if nm in (">", ">="):
                return self._ord("<" if nm == ">" else "<=", b, a)
            return self._ord(nm, a, b)
        if isinstance(a, (set, frozenset)) and (self._soft(a) or self._soft(b)):
            return sym("cmp", nm, frozenset(a), frozenset(b), typ="bool")
        return self.nat(lambda: a < b if nm == "<" else a <= b if nm == "<=" else a > b if nm == ">" else a >= b)

    def _ord(self, nm: str, a: Any, b: Any) -> Any:
        if nm == "<=":
            return self.neg(self._ord("<", b, a))
        if isinstance(b, Sym) and b.op == "len" and a == 0:
            return sym("truth", b.args[0], typ="bool")
        return sym("cmp", "<", a, b, typ="bool")

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return Fn(self.p.node_fn.get(id(e)), e, env)

    def e_Starred(self, e, env):
        raise Undec("starred")

    def e_Yield(self, e, env):
        self._yield_env(env).append(self.ev(e.value, env) if e.value is not None else None)

    def e_YieldFrom(self, e, env):
        ys = self._yield_env(env)
        ys += self.items_of(self.ev(e.value, env))

    def _yield_env(self, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Undec("yield")
        return e.yields

    def _comp(self, gens, env, emit) -> None:
        def go(i: int, en: Env) -> None:
            if i == len(gens):
                emit(en)
                return
            g = gens[i]
            for x in self.items_of(self.ev(g.iter, en if i else env)):
                self.tick()
                self.assign(g.target, x, en)
                if all(self.truth(self.ev(c, en)) for c in g.ifs):
                    go(i + 1, en)

        en = Env(env, env.mod, env.fi, env.cls)
        go(0, en)

    def e_ListComp(self, e, env):
        out: list = []
        self._comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out: dict = {}

        def add(en):
            k = self.ev(e.key, en)
            out[k] = self.ev(e.value, en)

        self._comp(e.generators, env, add)
        return out

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def index(self, s, env) -> Any:
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Subscript(self, e, env):
        return self.subscript(self.ev(e.value, env), self.index(e.slice, env))

    def subscript(self, o: Any, k: Any) -> Any:
        if isinstance(o, (ClassInfo, ExtRef)):
            if isinstance(o, ClassInfo) and o.is_enum():
                ms = self.enum_members(o)
                if k in ms:
                    return ms[k]
                raise PyExc(Exc("builtins.KeyError", (k,)))
            return o
        if isinstance(o, Inst):
            m = o.cls.find_method("__getitem__")
            if m is not None:
                return self.call(Bound(m, o), [k], {})
            raise Undec("subscript")
        if isinstance(k, slice):
            if isinstance(o, Sym) or has_sym([k.start, k.stop, k.step]):
                return sym("slice", o if not isinstance(o, list) else tuple(o), k.start, k.stop, k.step, typ=o.typ if isinstance(o, Sym) else type(o).__name__)
            return self.nat(lambda: o[k])
        if isinstance(o, Sym):
            r = self.h.model(self, "[]", o, [k], {})
            return sym("item", o, k) if r is NotImplemented else r
        if isinstance(o, dict):
            if has_sym(k) or self._soft(o):
                k2 = self._find(o, k)
                if k2 is _MISSING:
                    raise PyExc(Exc("builtins.KeyError", (k,)))
                return o[k2]
            return self.nat(lambda: o[k])
        if has_sym(k):
            return sym("item", tuple(o) if isinstance(o, list) else o, k)
        if isinstance(o, (list, tuple, str, bytes)):
            return self.nat(lambda: o[k])
        raise Undec(f"subscript of {show(o)}")

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            en: Optional[Env] = env
            while en is not None and (en.fi is None or en.fi.cls is None):
                en = en.parent
            if en is None:
                raise Undec("super()")
            first = (en.fi.node.args.posonlyargs + en.fi.node.args.args)[0].arg
            return Super(en.fi.cls, en.vars[first])
        f = self.ev(e.func, env)
        args = self._elts(e.args, env)
        kw: dict = {}
        for k in e.keywords:
            if k.arg is None:
                x = self.ev(k.value, env)
                if isinstance(x, Sym):
                    raise Undec("unknown keyword arguments")
                kw.update(x)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, Partial):
            args, kw, f = f.args + args, {**f.kw, **kw}, f.f
        return self.call(f, args, kw, e)


class NewOf:
    """object.__new__"""


class Partial:
    def __init__(self, f: Any, args: list, kw: dict) -> None:
        self.f, self.args, self.kw = f, args, kw
