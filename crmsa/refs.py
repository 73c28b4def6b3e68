"""Scope-aware resolution of names and expressions to repository entities or dotted library references (flow-insensitive)."""

from __future__ import annotations

import ast
from typing import Any, Iterator, Optional

from .model import ClassInfo, ExtRef, FuncInfo, GlobalVar, ModInfo, Program, own_nodes


class Scope:
    """What a function binds locally: name -> list of binding descriptions."""

    def __init__(self, p: Program, fi: FuncInfo) -> None:
        self.binds: dict[str, list] = {}
        b = self.binds
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            b.setdefault(x.arg, []).append(("param", x.arg))
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Import):
                for al in n.names:
                    top = al.asname or al.name.split(".")[0]
                    b.setdefault(top, []).append(("mod", al.name if al.asname else top))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = fi.mod.name.split(".")
                    up = n.level - (1 if fi.mod.path.endswith("__init__.py") else 0)
                    parts = parts[: len(parts) - up] if up else parts
                    base = ".".join(parts + ([n.module] if n.module else []))
                for al in n.names:
                    b.setdefault(al.asname or al.name, []).append(("from", base, al.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._target(t, n.value)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    self._target(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self._target(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self._target(n.target, None)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self._target(n.target, None, ("iter", n.iter))
            elif isinstance(n, ast.comprehension):
                self._target(n.target, None, ("iter", n.iter))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if it.optional_vars is not None:
                        self._target(it.optional_vars, None, ("with", it.context_expr))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                b.setdefault(n.name, []).append(("other",))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                b.setdefault(n.name, []).append(("def", p.node_fn.get(id(n))))
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                b.setdefault(n.name, []).append(("other",))
            elif isinstance(n, ast.MatchMapping) and n.rest:
                b.setdefault(n.rest, []).append(("other",))

    def _target(self, t: ast.AST, v: Optional[ast.AST], desc: Any = None) -> None:
        if isinstance(t, ast.Name):
            self.binds.setdefault(t.id, []).append(desc or (("val", v) if v is not None else ("other",)))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self._target(x, y)
            else:
                for x in t.elts:
                    self._target(x, None)
        elif isinstance(t, ast.Starred):
            self._target(t.value, None)


class Refs:
    def __init__(self, p: Program) -> None:
        self.p = p
        self._sc: dict = {}
        self._calls: Optional[dict] = None

    def scope(self, fi: FuncInfo) -> Scope:
        s = self._sc.get(fi)
        if s is None:
            s = self._sc[fi] = Scope(self.p, fi)
        return s

    def name(self, n: str, m: ModInfo, fi: Optional[FuncInfo], depth: int = 0) -> Any:
        """Entity of a name in scope; None when it is a run-time value."""
        f = fi
        while f is not None:
            bs = self.scope(f).binds.get(n)
            if bs is not None and not any(isinstance(x, (ast.Global,)) and n in x.names for x in own_nodes(f.node)):
                ents = set()
                for b in bs:
                    e = None
                    if b[0] == "mod":
                        e = self.p.mods.get(b[1]) or ExtRef(b[1])
                    elif b[0] == "from":
                        e = self.p.resolve_dotted(b[1], b[2])
                    elif b[0] == "def":
                        e = b[1]
                    elif b[0] == "val" and depth < 6 and isinstance(b[1], (ast.Name, ast.Attribute)) and not (
                            isinstance(b[1], ast.Name) and b[1].id == n):
                        e = self.expr(b[1], m, f, depth + 1)
                    if e is None:
                        return None
                    ents.add(e)
                return next(iter(ents)) if len(ents) == 1 else None
            f = f.parent
        r = self.p.resolve_name(m, n)
        if isinstance(r, GlobalVar) and depth < 6:
            defs = self.p.globals_.get(r.qual, [])
            if len(defs) == 1 and isinstance(defs[0][1], (ast.Name, ast.Attribute)):
                rr = self.expr(defs[0][1], self.p.mods[r.mod], None, depth + 1)
                if isinstance(rr, (ExtRef, ClassInfo, FuncInfo)):
                    return rr
        return r

    def expr(self, e: ast.AST, m: ModInfo, fi: Optional[FuncInfo], depth: int = 0) -> Any:
        if isinstance(e, ast.Name):
            return self.name(e.id, m, fi, depth)
        if isinstance(e, ast.Attribute):
            b = self.expr(e.value, m, fi, depth)
            return self.p.member(b, e.attr)
        if isinstance(e, ast.Call) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) \
                and isinstance(e.args[1].value, str):
            f = self.expr(e.func, m, fi, depth)
            if isinstance(f, ExtRef) and f.dotted == "builtins.getattr":
                return self.p.member(self.expr(e.args[0], m, fi, depth), e.args[1].value)
        if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            f = self.expr(e.func, m, fi, depth)
            if isinstance(f, ExtRef) and f.dotted in ("importlib.import_module", "builtins.__import__"):
                return self.p.mods.get(e.args[0].value) or ExtRef(e.args[0].value)
        return None

    def walk(self) -> Iterator[tuple]:
        """(module, enclosing function or None, node) for every node, with the right scope for lambdas and nested defs."""
        for m in self.p.mods.values():
            yield from self._walk(m.tree, m, None)

    def _walk(self, node: ast.AST, m: ModInfo, fi: Optional[FuncInfo]) -> Iterator[tuple]:
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                inner = self.p.node_fn.get(id(c))
                yield m, fi, c
                for d in list(getattr(c, "decorator_list", [])) + list(c.args.defaults) + [x for x in c.args.kw_defaults if x]:
                    yield m, fi, d
                    yield from self._walk(d, m, fi)
                body = c.body if isinstance(c.body, list) else [c.body]
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        yield from self._walk(_wrap(s), m, inner if isinstance(inner, FuncInfo) else fi)
                    else:
                        yield m, inner if isinstance(inner, FuncInfo) else fi, s
                        yield from self._walk(s, m, inner if isinstance(inner, FuncInfo) else fi)
            else:
                yield m, fi, c
                yield from self._walk(c, m, fi)

    def calls(self) -> dict:
        """resolved callee (FuncInfo) -> [(caller module, caller function, call node)], by direct name resolution."""
        if self._calls is None:
            self._calls = {}
            for m, fi, n in self.walk():
                if isinstance(n, ast.Call):
                    t = self.callee(n, m, fi)
                    if isinstance(t, ClassInfo):
                        t = t.find_method("__init__")
                    if isinstance(t, FuncInfo):
                        self._calls.setdefault(t, []).append((m, fi, n))
        return self._calls

    def callee(self, n: ast.Call, m: ModInfo, fi: Optional[FuncInfo]) -> Any:
        t = self.expr(n.func, m, fi)
        if t is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and fi is not None:
            f: Optional[FuncInfo] = fi
            while f is not None:
                if f.cls is not None and f.kind in ("method", "property", "classmethod"):
                    ps = f.node.args.posonlyargs + f.node.args.args
                    if ps and ps[0].arg == n.func.value.id:
                        return f.cls.find_method(n.func.attr)
                f = f.parent
        return t

    # ---- possible values of an expression -------------------------------------------------------------------------

    def values(self, e: ast.AST, m: ModInfo, fi: Optional[FuncInfo], depth: int = 0) -> list:
        """Possible values: ('k', const) | entity | '?' (unknown)."""
        if depth > 6:
            return ["?"]
        if isinstance(e, ast.Constant):
            return [("k", e.value)]
        if isinstance(e, ast.IfExp):
            return self.values(e.body, m, fi, depth + 1) + self.values(e.orelse, m, fi, depth + 1)
        if isinstance(e, ast.BoolOp):
            return [v for x in e.values for v in self.values(x, m, fi, depth + 1)]
        if isinstance(e, ast.NamedExpr):
            return self.values(e.value, m, fi, depth + 1)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            vs = self.values(e.operand, m, fi, depth + 1)
            return [("k", not v[1]) if isinstance(v, tuple) else "?" for v in vs]
        if isinstance(e, ast.Call):
            f = self.expr(e.func, m, fi)
            if isinstance(f, ExtRef) and f.dotted in ("typing.cast",) and len(e.args) == 2:
                return self.values(e.args[1], m, fi, depth + 1)
            g = self.expr(e, m, fi)
            if g is not None:
                return [g]
            return ["?"]
        if isinstance(e, ast.Attribute):
            r = self.expr(e, m, fi)
            if r is not None and not isinstance(r, GlobalVar):
                return [r]
            if isinstance(r, GlobalVar):
                return self._global(r, depth)
            return self._self_attr(e, fi, depth)
        if isinstance(e, ast.Name):
            f = fi
            while f is not None:
                bs = self.scope(f).binds.get(e.id)
                if bs is not None:
                    out: list = []
                    for b in bs:
                        if b[0] == "val":
                            out += self.values(b[1], m, f, depth + 1)
                        elif b[0] == "param":
                            out += self._param(f, e.id, depth)
                        elif b[0] in ("mod", "from", "def"):
                            r = self.name(e.id, m, f)
                            out.append(r if r is not None else "?")
                        elif b[0] == "iter" and isinstance(b[1], (ast.Tuple, ast.List, ast.Set)):
                            for x in b[1].elts:
                                out += self.values(x, m, f, depth + 1)
                        else:
                            out.append("?")
                    return out
                f = f.parent
            r = self.p.resolve_name(m, e.id)
            if isinstance(r, GlobalVar):
                return self._global(r, depth)
            return [r] if r is not None else ["?"]
        return ["?"]

    def _global(self, r: GlobalVar, depth: int) -> list:
        out: list = []
        for _, v in self.p.globals_.get(r.qual, []):
            out += self.values(v, self.p.mods[r.mod], None, depth + 1) if v is not None else ["?"]
        return out or ["?"]

    def _self_attr(self, e: ast.Attribute, fi: Optional[FuncInfo], depth: int) -> list:
        c = None
        f = fi
        while f is not None and c is None:
            c = f.cls
            f = f.parent
        if c is None or not isinstance(e.value, ast.Name) or e.value.id not in ("self", "cls"):
            return ["?"]
        out: list = []
        a = c.find_attr(e.attr)
        if a is not None and a[1] is not None:
            out += self.values(a[1], a[0].mod, None, depth + 1)
        for k in [x for x in c.mro() if isinstance(x, ClassInfo)] + self.p.subclasses(c):
            for g in k.methods.values():
                for n in own_nodes(g.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                    for t in ts:
                        if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                            v = getattr(n, "value", None)
                            out += self.values(v, g.mod, g, depth + 1) if v is not None and not isinstance(n, ast.AugAssign) else ["?"]
        return out or ["?"]

    def _param(self, f: FuncInfo, name: str, depth: int) -> list:
        out: list = []
        a = f.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if name in dflt:
            out += self.values(dflt[name], f.mod, f.parent, depth + 1)
        idx = next((i for i, x in enumerate(pos) if x.arg == name), None)
        for m, fi, n in self.calls().get(f, []):
            off = 1 if f.kind in ("method", "classmethod") else 0
            kw = next((k.value for k in n.keywords if k.arg == name), None)
            if kw is not None:
                out += self.values(kw, m, fi, depth + 1)
            elif idx is not None and idx - off < len(n.args) and idx - off >= 0 and not any(isinstance(x, ast.Starred) for x in n.args):
                out += self.values(n.args[idx - off], m, fi, depth + 1)
        return out + ["?"]


def _wrap(s: ast.AST) -> ast.AST:
    return ast.Module(body=[s], type_ignores=[])


def where(fi: Optional[FuncInfo], m: ModInfo) -> str:
    return fi.short if fi is not None else m.name.replace("conda_recipe_manager.", "", 1) + " (module level)"
