"""Recipe trees for the partial evaluator: built from documents, read back into documents, with YAML reading and writing modelled by miniyaml."""

from __future__ import annotations

import ast
from typing import Any, Optional

from . import miniyaml, minidump
from .miniyaml import T
from .model import ClassInfo, ExtRef
from .peval import ENUMS, Hooks, Inst, PEval, PyExc, Exc, Sym, Undec, has_sym, sym


class Malformed(Exception):
    """The tree of nodes is not one a recipe could have."""


class Lab:
    def __init__(self, ctx: Any) -> None:
        p = ctx.p
        self.p = p
        self._fields: dict = {}
        self.reading = 0  # inside a reading of a text that is to be evaluated, not modelled
        self.node, self.reader, self.parser = _find(p, "Node"), p.cls("parser.recipe_reader.RecipeReader"), p.cls("parser.recipe_parser.RecipeParser")
        self.deps = p.cls("parser.recipe_parser_deps.RecipeParserDeps")
        self.sv, self.mv = _find(p, "SchemaVersion"), _find(p, "MultilineVariant")
        for x, w in ((self.node, "class Node"), (self.reader, "class RecipeReader"), (self.parser, "class RecipeParser"), (self.sv, "SchemaVersion"), (self.mv, "MultilineVariant")):
            ctx.need(x is not None, w)
        init = self.node.find_method("__init__")
        names = {a.arg for a in init.node.args.args} if init else set()
        ctx.need({"value", "comment", "children", "list_member_flag", "multiline_variant", "key_flag"} <= names, "constructor of Node")

    # ---- documents to nodes

    def build(self, ev: PEval, t: T) -> Inst:
        kids = [self._node(ev, k) for k in t.kids]
        root = self._root_value(ev)
        return ev.construct(self.node, [], {"value": root, "children": kids})

    def _root_value(self, ev: PEval) -> Any:
        return "/"

    def _node(self, ev: PEval, t: T) -> Inst:
        c = lambda **k: ev.construct(self.node, [], k)  # noqa: E731
        if t.kind == "comment":
            return c(comment=t.comment)
        if t.kind == "scalar":
            if t.multi:
                return c(value=list(t.raw) if t.raw is not None else t.value.split("\n"), multiline_variant=self.variant(ev, t.multi))
            return c(value=t.value, comment=t.comment)
        if t.kind == "item":
            if t.multi:
                return c(value=list(t.raw) if t.raw is not None else t.value.split("\n"), multiline_variant=self.variant(ev, t.multi), list_member_flag=True)
            return c(value=t.value, comment=t.comment, list_member_flag=True)
        kids = [self._node(ev, k) for k in t.kids]
        if t.kind == "coll":
            first = next((k for k in t.kids if k.kind == "key"), None)
            return c(comment=first.comment if first is not None else t.comment, children=kids, list_member_flag=True)
        return c(value=t.key, comment=t.comment, children=kids, key_flag=True)

    def variant(self, ev: PEval, s: str) -> Any:
        for m in ev.enum_members(self.mv).values():
            if ev.enum_value(m) == s:
                return m
        raise Undec(f"no multiline variant {s}")

    # ---- nodes to documents

    def read(self, ev: PEval, n: Any) -> T:
        t = T("root")
        t.kids = self._kids(ev, n)
        return t

    def _kids(self, ev: PEval, n: Any) -> list:
        ks = n.attrs["children"]
        if not isinstance(ks, list):
            raise Undec("unknown children")
        return [self._read(ev, k, n) for k in ks]

    def _read(self, ev: PEval, n: Any, parent: Any) -> T:
        if not isinstance(n, Inst) or n.cls is not self.node:
            raise Malformed(f"{n!r} is a child of a node")
        a = n.attrs
        v, com, lst, key = a["value"], a["comment"], a["list_member_flag"], a["key_flag"]
        if any(isinstance(x, Sym) for x in (v, com, lst, key)):
            raise Undec("symbolic node")
        unset = isinstance(v, Inst)
        multi = self._multi(ev, a["multiline_variant"])
        ks = self._kids(ev, n)
        real = [k for k in ks if k.kind != "comment"]
        kinds = {"coll" if k.kind == "coll" else k.kind for k in real}
        if unset and com and not ks:
            return T("comment", comment=com)
        if kinds & {"item", "coll"} and kinds - {"item", "coll"} or "scalar" in kinds and len(real) > 1:
            raise Malformed(f"the children of {v!r} mix list members, keys and values")
        if key:
            return T("key", key=v, comment=com, kids=ks)
        if unset:
            if not lst or not ks:
                raise Malformed("a node without value")
            if kinds - {"key", "item", "coll"}:
                raise Malformed("a list entry with keys holds a plain value")
            return T("coll", comment=com, kids=ks)
        if ks:
            raise Malformed(f"the value {v!r} has children")
        if multi:
            if not isinstance(v, list):
                raise Malformed("multi-line value without lines")
            try:
                return T("item" if lst else "scalar", value=list(v), comment=com, multi=multi)
            except miniyaml.Unsupported as e:
                raise Undec(f"multi-line text {str(e)[:40]}")
        return T("item" if lst else "scalar", value=v, comment=com, multi=multi)

    @staticmethod
    def _multi(ev: PEval, m: Any) -> str:
        v = ev.enum_value(m) if isinstance(m, ENUMS) else m
        if not isinstance(v, str):
            raise Undec("unknown multiline variant")
        return v

    # ---- recipes

    FIELDS = {"_root", "_schema_version", "_vars_tbl", "_selector_tbl", "_is_modified", "_init_content"}

    def recipe(self, ev: PEval, doc: T, version: str = "V0", variables: Optional[dict] = None, cls: Optional[ClassInfo] = None, text: Optional[str] = None) -> Inst:
        """A recipe with this document: put together if recipes consist of the fields known here, else read from the text."""
        c = cls or self.parser
        if text is None or self.fields(c) == self.FIELDS:
            r = Inst(c, ev)
            r.attrs.update(_root=self.build(ev, doc), _schema_version=ev.enum_members(self.sv)[version], _vars_tbl=dict(variables or {}), _selector_tbl={},
                           _is_modified=False, _init_content="")
            return r
        self.reading += 1
        try:
            return ev.construct(c, [text], {})
        finally:
            self.reading -= 1

    def fields(self, c: ClassInfo) -> set:
        if c in self._fields:
            return self._fields[c]
        out: set = set()
        for k in c.mro():
            for m in k.methods.values():
                out |= {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"}
        self._fields[c] = out
        return out

    def root(self, r: Inst) -> Any:
        n = r.attrs.get("_root")
        if n is None:
            ns = [v for v in r.attrs.values() if isinstance(v, Inst) and v.cls is self.node]
            if len(ns) != 1:
                raise Undec("no single tree of nodes in a recipe")
            n = ns[0]
        return n

    def doc(self, ev: PEval, r: Inst) -> T:
        return self.read(ev, self.root(r))


def _sorted(v: Any) -> Any:
    return {k: _sorted(v[k]) for k in sorted(v)} if isinstance(v, dict) else [_sorted(x) for x in v] if isinstance(v, list) else v


def _find(p: Any, name: str) -> Optional[ClassInfo]:
    return next((c for c in p.classes.values() if c.name == name and ".parser." in c.qual), None)


class TreeHooks(Hooks):
    max_steps = 400_000
    max_depth = 120

    def __init__(self, lab: Lab) -> None:
        self.lab = lab

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name in ("yaml.load", "yaml.safe_load", "yaml.full_load") and args:
            if isinstance(args[0], Sym) and args[0].op == "yamltext":
                return args[0].args[0]
            if not isinstance(args[0], str):
                return NotImplemented
            try:
                return miniyaml.load(args[0])
            except miniyaml.Invalid as e:
                raise PyExc(Exc("yaml.parser.ParserError", (str(e),)))
            except miniyaml.Unsupported as e:
                raise Undec(f"YAML text {str(e)[:60]!r}")
        if name in ("yaml.dump", "yaml.safe_dump") and args:
            return self.dump(ev, args, kw)
        if name in ("jsonschema.validate", "jsonschema.validators.validate"):
            return None
        if name == "parser.recipe_reader.RecipeReader" and args and not self.lab.reading:
            s = args[0]
            if isinstance(s, Sym) and s.op == "yamltext":
                t = T("root", kids=miniyaml.from_data(s.args[0]))
            else:
                return NotImplemented  # the source reads it
            return self.lab.recipe(ev, t, cls=self.lab.reader)
        return NotImplemented

    def dump(self, ev: PEval, args: list, kw: dict) -> Any:
        """The text PyYAML writes, as far as minidump knows it."""
        d = kw.get("Dumper", args[2] if len(args) > 2 else None)
        if has_sym(args[0]) or set(kw) - {"Dumper", "sort_keys", "width", "indent", "default_flow_style"} or kw.get("indent", 2) != 2 or kw.get("default_flow_style") or len(args) > 1 and args[1] is not None:
            return sym("yamltext", args[0], typ="str")
        own = d.methods if isinstance(d, ClassInfo) else {}
        inc = own.get("increase_indent")
        less = True
        if inc is not None:
            less = not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "increase_indent" and
                           any(isinstance(a, ast.Constant) and a.value is False for a in c.args[1:] + [k.value for k in c.keywords if k.arg == "indentless"]) for c in ast.walk(inc.node))
        lit = any(m in own for m in ("represent_scalar", "represent_str"))
        v = args[0]
        if kw.get("sort_keys", True) is not False:
            v = _sorted(v)
        w = kw.get("width", 80)
        try:
            t = minidump.dump(v, less, lit)
        except minidump.Open:
            return sym("yamltext", args[0], typ="str")
        if isinstance(w, int) and any(len(l) > w for l in t.split("\n")):
            raise Undec("lines that yaml.dump folds")
        return t

    def decide(self, ev: PEval, cond: Sym) -> Optional[bool]:
        if cond.op == "cmp" and cond.args[0] == "==":
            for a, b in (cond.args[1:3], cond.args[2:0:-1]):
                # the text of an object without __str__ is <module.Class object at ...>
                if isinstance(a, Sym) and a.op == "str" and isinstance(a.args[0], Inst) and isinstance(b, str) and not b.startswith("<"):
                    return False
        return None
