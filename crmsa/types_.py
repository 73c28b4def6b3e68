"""Annotation-derived types."""

from __future__ import annotations

import ast
from typing import Any, Optional

from .model import ClassInfo, ExtRef, FuncInfo, GlobalVar, ModInfo, Program, own_nodes
from .values import T_BOOL, T_DICT, T_INT, T_LIST, T_NONE, T_PATH, T_SET, T_STR, T_TUPLE, ct, xt

_ALIAS = {
    "typing.List": "builtins.list", "typing.Dict": "builtins.dict", "typing.Set": "builtins.set",
    "typing.Tuple": "builtins.tuple", "typing.FrozenSet": "builtins.frozenset", "pathlib.PurePath": "pathlib.Path",
    "collections.abc.Mapping": "builtins.dict", "typing.Mapping": "builtins.dict", "typing.MutableMapping": "builtins.dict",
    "git.repo.Repo": "git.Repo", "git.repo.base.Repo": "git.Repo",
}


class TypeResolver:
    def __init__(self, p: Program) -> None:
        self.p = p
        self._attr: dict = {}

    def ann(self, m: ModInfo, e: Optional[ast.AST], depth: int = 0) -> Any:
        if e is None or depth > 8:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return T_NONE
            if isinstance(e.value, str):
                try:
                    return self.ann(m, ast.parse(e.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self._union([self.ann(m, e.left, depth + 1), self.ann(m, e.right, depth + 1)])
        if isinstance(e, ast.Subscript):
            r = self.p.resolve_expr(m, e.value)
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            d = r.dotted if isinstance(r, ExtRef) else None
            if d in ("typing.Optional",):
                return self._union([self.ann(m, args[0], depth + 1), T_NONE])
            if d in ("typing.Union",):
                return self._union([self.ann(m, a, depth + 1) for a in args])
            if d in ("typing.Final", "typing.ClassVar", "typing.Annotated", "typing.Required"):
                return self.ann(m, args[0], depth + 1)
            if d in ("typing.Callable", "collections.abc.Callable", "typing.Literal", "typing.Type", "builtins.type"):
                return None
            if isinstance(r, ClassInfo):
                return ct(r)
            if d:
                return xt(_ALIAS.get(d, d), *[self.ann(m, a, depth + 1) for a in args
                                               if not (isinstance(a, ast.Constant) and a.value is Ellipsis)])
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(m, e)
            if isinstance(r, ClassInfo):
                return ct(r)
            if isinstance(r, ExtRef):
                if r.dotted in ("typing.Any", "typing.Final", "builtins.object", "typing.Self"):
                    return None
                return xt(_ALIAS.get(r.dotted, r.dotted))
            if isinstance(r, GlobalVar):
                defs = self.p.globals_.get(r.qual, [])
                if len(defs) == 1 and defs[0][1] is not None:
                    return self.ann(self.p.mods[r.mod], defs[0][1], depth + 1)
        return None

    def _union(self, ts: list) -> Any:
        out: list = []
        for t in ts:
            if t is None:
                return None if all(x is None or x == T_NONE for x in ts) else _partial(ts)
            for q in t[1] if t[0] == "u" else (t,):
                if q not in out:
                    out.append(q)
        return out[0] if len(out) == 1 else ("u", tuple(out))

    def ret(self, fi: FuncInfo) -> Any:
        return self.ann(fi.mod, getattr(fi.node, "returns", None))

    def attr(self, c: ClassInfo, name: str) -> Any:
        """Type of an instance attribute, from class-level annotations or assignments to self."""
        key = (c, name)
        if key in self._attr:
            return self._attr[key]
        self._attr[key] = None
        t = None
        for k in c.mro():
            if not isinstance(k, ClassInfo):
                continue
            if name in k.annots:
                t = self.ann(k.mod, k.annots[name])
                break
            for f in k.methods.values():
                t = self._attr_in(f, name)
                if t is not None:
                    break
            if t is not None:
                break
        self._attr[key] = t
        return t

    def _attr_in(self, f: FuncInfo, name: str) -> Any:
        params = f.node.args.posonlyargs + f.node.args.args
        if not params or f.kind == "static":
            return None
        me = params[0].arg
        for n in own_nodes(f.node):
            if isinstance(n, ast.AnnAssign) and _is_self(n.target, me, name):
                t = self.ann(f.mod, n.annotation)
                if t is not None:
                    return t
                if n.value is not None:
                    return self._val(f, n.value, params)
            if isinstance(n, ast.Assign) and any(_is_self(t, me, name) for t in n.targets):
                t = self._val(f, n.value, params)
                if t is not None:
                    return t
        return None

    def _val(self, f: FuncInfo, v: ast.AST, params: list) -> Any:
        if isinstance(v, ast.Name):
            for p in params + f.node.args.kwonlyargs:
                if p.arg == v.id:
                    return self.ann(f.mod, p.annotation)
        if isinstance(v, ast.Call):
            r = self.p.resolve_expr(f.mod, v.func)
            if isinstance(r, ClassInfo):
                return ct(r)
            if isinstance(r, FuncInfo):
                return self.ret(r)
            if isinstance(r, ExtRef):
                if r.dotted in ("builtins.str", "builtins.list", "builtins.dict", "builtins.set", "pathlib.Path", "builtins.int"):
                    return xt(r.dotted)
        if isinstance(v, ast.Attribute):
            r = self.p.resolve_expr(f.mod, v.value)
            if isinstance(r, ClassInfo) and r.is_enum():
                return ct(r)
        if isinstance(v, (ast.List, ast.ListComp)):
            return T_LIST
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return T_DICT
        if isinstance(v, (ast.Set, ast.SetComp)):
            return T_SET
        if isinstance(v, ast.Constant):
            return {bool: T_BOOL, int: T_INT, str: T_STR}.get(type(v.value))
        if isinstance(v, (ast.Compare,)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
            return T_BOOL
        return None

    def item(self, t: Any) -> Any:
        """Element type of a container type (value type for mappings)."""
        if t is None:
            return None
        if t[0] == "u":
            ms = [m for m in t[1] if m != T_NONE]
            return self.item(ms[0]) if len(ms) == 1 else None
        if t[0] == "x":
            a = t[2]
            if t[1] in ("builtins.dict",) and len(a) == 2:
                return a[1]
            if t[1] in ("builtins.list", "builtins.set", "builtins.frozenset", "collections.abc.Iterable", "typing.Iterable",
                        "typing.Sequence", "typing.Iterator") and len(a) == 1:
                return a[0]
            if t[1] == "builtins.tuple" and a and all(x == a[0] for x in a):
                return a[0]
            if t[1] == "builtins.str":
                return T_STR
        return None

    def elem(self, t: Any) -> Any:
        """Type of what iterating a value of this type yields."""
        if t is not None and t[0] == "x" and t[1] == "builtins.dict":
            return t[2][0] if len(t[2]) == 2 else None
        return self.item(t)


def _partial(ts: list) -> Any:
    return None


def _is_self(t: ast.AST, me: str, name: str) -> bool:
    return isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == me
