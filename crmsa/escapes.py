"""Which exceptions each function lets out: explicit `raise` statements and (optionally) modelled library failures, through calls."""

from __future__ import annotations

import ast
from typing import Any, Optional

from .effects import Effects
from .exctypes import canon, supers
from .model import ClassInfo, ExtRef, FuncInfo


def exc_supers(k: Any) -> set:
    """Names / classes k is an instance of."""
    if isinstance(k, ClassInfo):
        out: set = set()
        for c in k.mro():
            out.add(c)
            if isinstance(c, ExtRef):
                out |= set(supers(canon(c.dotted)))
        for d in k.ext_bases():
            out |= set(supers(canon(d if isinstance(d, str) else d.dotted)))
        return out
    return set(supers(canon(k))) | {canon(k)}


class Escapes:
    def __init__(self, e: Effects, raises: Optional[dict] = None) -> None:
        self.e, self.p = e, e.p
        self.raises = raises or {}
        self.esc: dict[FuncInfo, dict] = {}
        fns = list(self.p.all_functions())
        for f in fns:
            self.esc[f] = {}
        for _ in range(12):
            changed = False
            for f in fns:
                n = self._fn(f)
                if n.keys() != self.esc[f].keys():
                    changed = True
                self.esc[f] = n
            if not changed:
                break

    def of(self, f: FuncInfo) -> list:
        return list(self.esc.get(f, {}))

    def _fn(self, f: FuncInfo) -> dict:
        if isinstance(f.node, ast.Lambda):
            return self._expr(f.node.body, f)
        return self._block(f.node.body, f, {})

    def _block(self, body: list, f: FuncInfo, cur: dict) -> dict:
        out: dict = {}
        for s in body:
            out.update(self._stmt(s, f, cur))
        return out

    def _stmt(self, s: ast.stmt, f: FuncInfo, cur: dict) -> dict:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return {}
        if isinstance(s, ast.Try):
            return self._try(s, f, cur)
        if isinstance(s, ast.Raise):
            out: dict = {}
            if s.exc is None:
                return dict(cur)
            k = self._cls(s.exc, f)
            if k is None and isinstance(s.exc, ast.Name):
                out.update(cur)
            elif k is not None:
                out[k] = (f, s.lineno)
            out.update(self._expr(s.exc, f))
            return out
        out = {}
        for name, val in ast.iter_fields(s):
            for c in val if isinstance(val, list) else [val]:
                if isinstance(c, ast.stmt):
                    out.update(self._stmt(c, f, cur))
                elif isinstance(c, ast.expr):
                    out.update(self._expr(c, f))
                elif isinstance(c, ast.match_case):
                    if c.guard is not None:
                        out.update(self._expr(c.guard, f))
                    out.update(self._block(c.body, f, cur))
                elif isinstance(c, ast.withitem):
                    out.update(self._expr(c.context_expr, f))
        return out

    def _expr(self, e: ast.expr, f: FuncInfo) -> dict:
        out: dict = {}
        work: list = [e]
        while work:
            n = work.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Call, ast.Attribute)):
                for g in self.e.callees.get(id(n), ()):
                    out.update(self.esc.get(g, {}))
                d = self.e.extcalls.get(id(n))
                for k in self.raises.get(d, ()) if d else ():
                    out[canon(k)] = (f, n.lineno)
            work.extend(ast.iter_child_nodes(n))
        return out

    def _cls(self, x: ast.expr, f: FuncInfo) -> Any:
        if isinstance(x, ast.Call):
            x = x.func
        r = self.e.refs.expr(x, f.mod, f)
        if isinstance(r, ClassInfo):
            return r
        if isinstance(r, ExtRef):
            return canon(r.dotted)
        return None

    def _try(self, s: ast.Try, f: FuncInfo, cur: dict) -> dict:
        body = self._block(s.body, f, cur)
        out: dict = {}
        left = dict(body)
        for h in s.handlers:
            kinds: list = []
            if h.type is not None:
                for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                    kinds.append(self._cls(t, f))
            caught = {k: v for k, v in left.items() if h.type is None or any(t is not None and t in exc_supers(k) for t in kinds)}
            for k in caught:
                left.pop(k, None)
            out.update(self._block(h.body, f, caught))
        out.update(left)
        out.update(self._block(s.orelse, f, cur))
        out.update(self._block(s.finalbody, f, cur))
        return out
