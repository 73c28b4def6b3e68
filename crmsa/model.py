"""
Program model: every module of the package is parsed (never imported); names are resolved through imports, re-exports
and class hierarchies to either a repository entity or a dotted external reference.
"""

from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field
from typing import Iterator, Optional

PKG = "conda_recipe_manager"


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished: reported as an error of the check, never as a pass."""


@dataclass(eq=False)
class FuncInfo:
    qual: str  # module.Class.name / module.name / module.f.<locals>.g
    name: str
    node: ast.FunctionDef | ast.AsyncFunctionDef | ast.Lambda
    mod: "ModInfo"
    cls: Optional["ClassInfo"] = None
    parent: Optional["FuncInfo"] = None
    kind: str = "func"  # func | method | static | classmethod | property

    def __hash__(self) -> int:
        return hash(self.qual)

    def __repr__(self) -> str:
        return f"<fn {self.qual}>"

    @property
    def short(self) -> str:
        return self.qual.replace(PKG + ".", "", 1)

    def loc(self) -> str:
        return f"{self.mod.rel}:{self.node.lineno}"

    def is_generator(self) -> bool:
        r = getattr(self, "_gen", None)
        if r is None:
            r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))
            self._gen = r
        return r

    def is_abstract(self) -> bool:
        return any("abstractmethod" in ast.unparse(d) for d in getattr(self.node, "decorator_list", []))


@dataclass(eq=False)
class ClassInfo:
    qual: str
    name: str
    node: ast.ClassDef
    mod: "ModInfo"
    base_refs: list = field(default_factory=list)  # list of ClassInfo | str (external dotted)
    methods: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # class-level name -> value expr or None
    annots: dict = field(default_factory=dict)  # class-level annotations in order
    inner: dict = field(default_factory=dict)

    def __hash__(self) -> int:
        return hash(self.qual)

    def __repr__(self) -> str:
        return f"<class {self.qual}>"

    def mro(self) -> list:
        """C3 is not needed for this code base's shapes: left-to-right depth-first, duplicates keep the last."""
        out: list = []

        def lin(c) -> list:
            if isinstance(c, str):
                return [c]
            seqs = [lin(b) for b in c.base_refs] + [list(c.base_refs)]
            res = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                cand = None
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        cand = h
                        break
                if cand is None:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            return res

        for x in lin(self):
            if x not in out:
                out.append(x)
        return out

    def ext_bases(self) -> list:
        return [c for c in self.mro() if isinstance(c, str)]

    def find_method(self, name: str) -> Optional[FuncInfo]:
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name: str):
        """(owner class, value expr) of a class-level attribute."""
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_enum(self) -> bool:
        return any(
            b in ("enum.Enum", "enum.StrEnum", "enum.IntEnum", "enum.Flag", "enum.IntFlag", "StrEnum", "Enum", "IntEnum")
            for b in self.ext_bases()
        )

    def is_namedtuple(self) -> bool:
        return any(b.endswith("NamedTuple") for b in self.ext_bases())

    def is_dataclass(self) -> bool:
        return any("dataclass" in ast.unparse(d) for d in self.node.decorator_list)

    def is_exception(self) -> bool:
        from .exctypes import is_exc_name

        return any(is_exc_name(b) for b in self.ext_bases())

    def enum_members(self) -> list:
        return [
            n
            for n, v in self.attrs.items()
            if v is not None and not n.startswith("_") and not isinstance(v, (ast.Lambda,))
        ]

    def issub(self, other) -> bool:
        return any(c is other or c == other for c in self.mro())


@dataclass(eq=False)
class ModInfo:
    name: str
    path: str
    rel: str
    tree: ast.Module
    src: str
    binds: dict = field(default_factory=dict)  # name -> entity

    def __hash__(self) -> int:
        return hash(self.name)

    def __repr__(self) -> str:
        return f"<module {self.name}>"


@dataclass(frozen=True)
class GlobalVar:
    """A module-level variable bound by assignment."""

    mod: str
    name: str

    @property
    def qual(self) -> str:
        return f"{self.mod}.{self.name}"


@dataclass(frozen=True)
class ExtRef:
    dotted: str


def own_nodes(fn: ast.AST) -> Iterator[ast.AST]:
    """Nodes of a function body, without descending into nested functions, classes and lambdas."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program:
    def __init__(self, repo: str) -> None:
        self.repo = os.path.abspath(repo)
        self.mods: dict[str, ModInfo] = {}
        self.funcs: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.node_fn: dict[int, FuncInfo] = {}
        self.globals_: dict[str, list] = {}
        self.digest = ""
        self._load()

    # ---- loading -------------------------------------------------------------------------------------------------

    def _load(self) -> None:
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} not found")
        h = hashlib.sha256()
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode())
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}") from e
                self.mods[name] = ModInfo(name, p, rel, tree, src)
        self.digest = h.hexdigest()
        for m in self.mods.values():
            self._bind_module(m)
        for c in self.classes.values():
            c.base_refs = []
            for b in c.node.bases:
                bb = b.value if isinstance(b, ast.Subscript) else b
                r = self.resolve_expr(c.mod, bb)
                if isinstance(r, ClassInfo):
                    c.base_refs.append(r)
                elif isinstance(r, ExtRef):
                    c.base_refs.append(r.dotted)
                else:
                    c.base_refs.append(ast.unparse(bb))
        self._subs: dict[ClassInfo, list] = {}
        for c in self.classes.values():
            for b in c.mro():
                if isinstance(b, ClassInfo):
                    self._subs.setdefault(b, []).append(c)

    def _bind_module(self, m: ModInfo) -> None:
        self._bind_block(m, m.tree.body, m.binds, prefix=m.name)

    def _bind_block(self, m: ModInfo, body: list, binds: dict, prefix: str) -> None:
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        binds[a.asname] = ("mod", a.name)
                    else:
                        top = a.name.split(".")[0]
                        binds[top] = ("mod", top)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    is_pkg = m.path.endswith("__init__.py")
                    up = s.level - (1 if is_pkg else 0)
                    parts = parts[: len(parts) - up] if up else parts
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    binds[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                binds[s.name] = self._add_func(m, s, None, None, f"{prefix}.{s.name}")
            elif isinstance(s, ast.ClassDef):
                binds[s.name] = self._add_class(m, s, f"{prefix}.{s.name}")
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tgts:
                    names = [t] if isinstance(t, ast.Name) else [n for n in ast.walk(t) if isinstance(n, ast.Name)]
                    for n in names:
                        if isinstance(t, ast.Name) and s.value is None:
                            continue
                        binds[n.id] = GlobalVar(m.name, n.id)
                        self.globals_.setdefault(f"{m.name}.{n.id}", []).append(
                            (s, s.value if isinstance(t, ast.Name) and not isinstance(s, ast.AugAssign) else None)
                        )
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ("body", "orelse", "finalbody"):
                    self._bind_block(m, getattr(s, fld, []) or [], binds, prefix)
                for h in getattr(s, "handlers", []) or []:
                    self._bind_block(m, h.body, binds, prefix)

    def _add_func(self, m, node, cls, parent, qual) -> FuncInfo:
        kind = "method" if cls else "func"
        for d in getattr(node, "decorator_list", []):
            u = ast.unparse(d)
            if u == "staticmethod":
                kind = "static"
            elif u == "classmethod":
                kind = "classmethod"
            elif u in ("property", "functools.cached_property", "cached_property"):
                kind = "property"
        fi = FuncInfo(qual, getattr(node, "name", "<lambda>"), node, m, cls, parent, kind)
        self.funcs[qual] = fi
        self.node_fn[id(node)] = fi
        for n in own_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, n, None, fi, f"{qual}.<locals>.{n.name}")
            elif isinstance(n, ast.Lambda):
                self._add_func(m, n, None, fi, f"{qual}.<locals>.<lambda@{n.lineno}:{n.col_offset}>")
            elif isinstance(n, ast.ClassDef):
                self._add_class(m, n, f"{qual}.<locals>.{n.name}")
        return fi

    def _add_class(self, m, node, qual) -> ClassInfo:
        c = ClassInfo(qual, node.name, node, m)
        self.classes[qual] = c
        self.node_fn[id(node)] = c  # type: ignore[assignment]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = self._add_func(m, s, c, None, f"{qual}.{s.name}")
            elif isinstance(s, ast.ClassDef):
                c.inner[s.name] = self._add_class(m, s, f"{qual}.{s.name}")
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annots[s.target.id] = s.annotation
                c.attrs[s.target.id] = s.value
        for s in ast.walk(node):  # lambdas in class-level expressions
            if isinstance(s, ast.Lambda) and id(s) not in self.node_fn:
                self._add_func(m, s, None, None, f"{qual}.<lambda@{s.lineno}:{s.col_offset}>")
        return c

    # ---- resolution ----------------------------------------------------------------------------------------------

    def resolve_name(self, m: ModInfo, name: str, _depth: int = 0):
        """Entity bound to a module-level name: FuncInfo, ClassInfo, ModInfo, GlobalVar, ExtRef or None."""
        b = m.binds.get(name)
        if b is None:
            import builtins

            if hasattr(builtins, name):
                return ExtRef(f"builtins.{name}")
            return None
        if isinstance(b, tuple):
            if b[0] == "mod":
                return self.mods.get(b[1]) or ExtRef(b[1])
            return self.resolve_dotted(b[1], b[2], _depth + 1)
        return b

    def resolve_dotted(self, mod: str, name: str, _depth: int = 0):
        if _depth > 20:
            return None
        sub = self.mods.get(f"{mod}.{name}")
        mi = self.mods.get(mod)
        if mi is not None and name in mi.binds:
            return self.resolve_name(mi, name, _depth)
        if sub is not None:
            return sub
        if mi is not None:
            return None
        return ExtRef(f"{mod}.{name}")

    def resolve_expr(self, m: ModInfo, e: ast.AST):
        """Resolves a Name/Attribute chain at module scope."""
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            return self.member(b, e.attr)
        return None

    def member(self, b, attr: str):
        if isinstance(b, ModInfo):
            return self.resolve_dotted(b.name, attr)
        if isinstance(b, ExtRef):
            return ExtRef(f"{b.dotted}.{attr}")
        if isinstance(b, ClassInfo):
            if attr in b.inner:
                return b.inner[attr]
            return b.find_method(attr)
        return None

    # ---- helpers -------------------------------------------------------------------------------------------------

    def cls(self, qual: str) -> ClassInfo:
        c = self.classes.get(f"{PKG}.{qual}") or self.classes.get(qual)
        if c is None:
            raise AnalysisBroken(f"anchor class {qual} not found")
        return c

    def fn(self, qual: str) -> FuncInfo:
        f = self.funcs.get(f"{PKG}.{qual}") or self.funcs.get(qual)
        if f is None:
            # Follow re-exports and class inheritance.
            mod, _, name = qual.rpartition(".")
            for base in (f"{PKG}.{mod}", mod):
                if base in self.mods:
                    r = self.resolve_name(self.mods[base], name)
                    if isinstance(r, FuncInfo):
                        return r
                if base in self.classes:
                    r = self.classes[base].find_method(name)
                    if r:
                        return r
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def mod(self, name: str) -> ModInfo:
        m = self.mods.get(f"{PKG}.{name}") or self.mods.get(name)
        if m is None:
            raise AnalysisBroken(f"anchor module {name} not found")
        return m

    def subclasses(self, c: ClassInfo) -> list:
        return self._subs.get(c, [])

    def all_functions(self) -> list:
        return [f for _, f in sorted(self.funcs.items())]
