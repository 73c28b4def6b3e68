"""P02-P05, P13: the editing methods of a recipe as a typestate over its tree, variable table, selector table and modified flag."""

from __future__ import annotations

import ast
from typing import Any, Optional

from ..effects import Effects
from ..escapes import Escapes
from ..facts import known
from ..interp import Event, Interp
from ..model import ClassInfo, FuncInfo
from ..report import Ctx, check
from ..values import EMPTY, K, NONE, Rec, State, T_STR, Term, is_k, kv, members, mk, show, xt
from ._common import finish, is_sub, mentions
from ._tree import EDITORS, TMon, TreeHooks, fields, self_reads, tree_events, truths

PARSERS = ("parser.recipe_parser_deps.RecipeParserDeps", "parser.recipe_parser.RecipeParser")
OPS = {"add": ("value",), "remove": (), "replace": ("value",), "move": ("from",), "copy": ("from",), "test": ("value",)}
VOID = ("set_variable", "del_variable", "add_selector", "remove_selector", "add_comment")
DEPS = ("add_dependency", "remove_dependency", "search_and_patch")


class Run:
    def __init__(self, name: str, op: Optional[str], h: TreeHooks, I: Interp, res: list, fi: FuncInfo, params: dict) -> None:
        self.name, self.op, self.h, self.I, self.fi, self.params = name, op, h, I, fi, params
        self.exits: list = []  # (kind, outcome, state, value)
        for k, s, v in res:
            if k == "exc":
                self.exits.append(("exc", None, s, v))
            elif v is NONE or (is_k(v) and kv(v) is None) or name in VOID:
                self.exits.append(("ret", None, s, v))
            else:
                for b, s2 in truths(v, s):
                    self.exits.append(("ret", b, s2, v))

    @property
    def what(self) -> str:
        return f"{self.name}{f' ({self.op})' if self.op else ''}"

    @property
    def loc(self) -> str:
        return f"{self.fi.mod.rel}:{self.fi.node.lineno}"


class PatchHooks(TreeHooks):
    """Also notes reads of payload members that are not there, and whether the payload was validated before a change."""

    payload_obj: Optional[Term] = None
    payload_keys: frozenset = frozenset()

    def __init__(self, *a: Any, **kw: Any) -> None:
        super().__init__(*a, **kw)
        self.missing: list = []
        self.schemas: list = []
        self.unvalidated: list = []

    def ext_raises(self, name: str, ev: Event) -> list:
        if name == "subscript":
            if self.payload_obj is not None and ev.recv is self.payload_obj and ev.args and is_k(ev.args[0]) and isinstance(kv(ev.args[0]), str) \
                    and kv(ev.args[0]) not in self.payload_keys:
                self.missing.append((kv(ev.args[0]), ev.loc(), ev.fi))
                return ["builtins.KeyError"]
            return []
        return super().ext_raises(name, ev)

    def event(self, st: State, ev: Event, I: Interp) -> None:
        if ev.kind == "call" and ev.name in ("jsonschema.validate", "jsonschema.validators.validate") and self.payload_obj is not None:
            inst = ev.kwargs.get("instance", ev.args[0] if ev.args else None)
            sch = ev.kwargs.get("schema", ev.args[1] if len(ev.args) > 1 else None)
            if sch is not None:
                self.schemas.append((inst is self.payload_obj, py_of(sch, st), ev.loc()))
        super().event(st, ev, I)


def py_of(t: Term, st: State, d: int = 0) -> Any:
    """The Python value of a constant term (`...` where unknown)."""
    if d > 12:
        return ...
    if is_k(t):
        return kv(t)
    if t.op == "tup":
        return [py_of(x, st, d + 1) for x in t.args[0]]
    r = st.heap.get(t)
    if r is not None and r.kind == "dict" and r.summ is None:
        return {(kv(k) if is_k(k) else ...): py_of(v, st, d + 1) for k, v in r.fields.d.items()}
    if r is not None and r.kind in ("list", "set") and r.elems is not None:
        return [py_of(x, st, d + 1) for x in r.elems]
    return ...


class World:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.p = ctx, ctx.p
        self.e = Effects(ctx.p)
        self.x = Escapes(self.e, {"yaml.load": ["yaml.YAMLError"]})
        self.cls = next((c for c in (self.p.cls_opt(n) for n in PARSERS) if c is not None), None) if hasattr(self.p, "cls_opt") else self.p.cls(PARSERS[0])
        ctx.need(self.cls is not None, "the recipe parser class")
        self.f = fields(self.p, self.cls, self.e)
        for k, v in self.f._asdict().items():
            ctx.need(bool(v), f"the {k} field of a recipe, from its public accessors")
        ctx.sample({"recipe state": self.f._asdict()})

    def run(self, name: str, op: Optional[str] = None, keys: Optional[tuple] = None, version: Optional[str] = None,
            atomic: Optional[bool] = None) -> Run:
        fi = self.cls.find_method(name)
        h = PatchHooks(self.p, self.e, self.x, self.cls, atomic_patch=(name != "patch") if atomic is None else atomic)
        I = Interp(self.p, h)
        st = State()
        st.mon = TMon()
        params = I.entry_args(fi)
        if op is not None:
            o = mk("obj", ("patch",), typ=xt("builtins.dict"))
            f = EMPTY.set(K("op"), K(op)).set(K("path"), mk("param", "path", typ=T_STR))
            for k in keys if keys is not None else OPS.get(op, ()):
                f = f.set(K(k), mk("param", k, typ=T_STR if k != "value" else None))
            st.heap = st.heap.set(o, Rec("dict", None, f))
            params[next(iter(params))] = o
            h.payload_obj = o
            h.payload_keys = frozenset(kv(k) for k in f.d)
        if version is not None:
            sv = self.p.cls("parser.enums.SchemaVersion")
            if version in sv.enum_members():
                st.heap = st.heap.set(("sym", h.selfv, self.f.version), mk("enum", sv, version, typ=("c", sv, ())))
        r = Run(name, op, h, I, I.run(fi, params, st, h.selfv), fi, params)
        finish(self.ctx, I, r.what)
        self.ctx.count("exits", len(r.exits))
        return r

    def runs(self) -> list:
        """One abstract run per operation of `patch` and per other editing method."""
        out = []
        for op in OPS:
            out.append(self.ctx.guard(f"patch ({op})", lambda op=op: self.run("patch", op)))
        for n in VOID + DEPS:
            if self.cls.find_method(n) is not None:
                out.append(self.ctx.guard(n, lambda n=n: self.run(n)))
        got = [r for r in out if r is not None]
        self.ctx.need(len(got) >= 8, "most editing methods of the recipe parser can be interpreted")
        return got


def _say(r: Run, s: State, kind: str) -> str:
    return {"exc": "raises", "ret": "returns"}[kind]


@check("P02")
def p02(ctx: Ctx) -> str:
    ctx.rule("P02.set", "every path that leaves the recipe's content changed sets the modified flag")
    ctx.rule("P02.kept", "no editing method resets the modified flag")
    ctx.rule("P02.quiet", "a path that changes nothing (a test, a failed or refused edit) leaves the flag alone")
    ctx.rule("P02.read", "is_modified only reports the flag")
    w = World(ctx)
    for r in w.runs():
        for kind, out, s, v in r.exits:
            m: TMon = s.mon
            chg = w_changed(r.h, s)
            if chg is None:
                ctx.undec(f"{r.what}: content not known at an exit")
            if m.flag == "reset":
                ctx.report("P02.kept", f"{r.what}", r.loc, "the modified flag is cleared although earlier changes are still in the recipe", tree_events(r.h, s))
            elif chg and m.flag != "set" and kind == "ret":
                ctx.report("P02.set", f"{r.what} {_say(r, s, kind)} {out}", r.loc, "the recipe was changed but is_modified() stays false", tree_events(r.h, s))
            elif chg is False and m.flag == "set" and (kind == "exc" or out is False or r.op == "test") and not m.done:
                ctx.report("P02.quiet", f"{r.what} {_say(r, s, kind)} {out}", r.loc, "nothing was changed but is_modified() becomes true", tree_events(r.h, s))
    # the accessor
    r = ctx.guard("is_modified", lambda: w.run("is_modified"))
    if r is not None:
        for kind, out, s, v in r.exits:
            if is_k(v):
                ctx.report("P02.read", "is_modified", r.loc, f"is_modified() can return the constant {kv(v)!r}")
    d = w.cls.find_method("diff")
    if d is not None and w.f.flag not in self_reads(w.p, w.cls, "diff"):
        ctx.undec("diff does not consult the flag")
    return "Every path of every editing method, with the patch operations run one at a time."


def w_changed(h: TreeHooks, s: State) -> Optional[bool]:
    c = h.changed(s)
    return True if s.mon.vars else c


@check("P03")
def p03(ctx: Ctx) -> str:
    ctx.rule("P03.fresh", "on every path, after the last change of a node the selector table is written anew")
    ctx.rule("P03.whole", "the selector table is rebuilt from an empty table over the whole tree")
    w = World(ctx)
    for r in w.runs():
        for kind, out, s, v in r.exits:
            if s.mon.stale and w_changed(r.h, s) is not False:
                ctx.report("P03.fresh", f"{r.what} {_say(r, s, kind)}", r.loc,
                           "nodes are changed after the selector table was last rebuilt (or it is not rebuilt at all)", tree_events(r.h, s))
            written = False
            for e in s.events():
                written = written or (e.kind == "store" and e.name == w.f.sel)
                if e.kind != "walk" or not written:
                    continue
                ctx.count("tree_walks")
                roots = [b for b in e.args if r.h._is_node(b) and b is not r.h.current(s) and b is not r.h.root and r.h.tree_origin(b)]
                if roots:
                    ctx.report("P03.whole", e.fi.qual if e.fi else e.name, e.loc(),
                               "the selector table is filled from a part of the tree, not from its root: paths lose their beginning", tree_events(r.h, s))
    _rebuilders(ctx, w)
    return "Every path of every editing method; the functions that assign the selector table."


def _rebuilders(ctx: Ctx, w: World) -> None:
    """Functions that assign the selector table assign an empty one and then walk the tree from its root."""
    n = 0
    for k in [c for c in w.cls.mro() if isinstance(c, ClassInfo)]:
        for fi in k.methods.values():
            for x in ast.walk(fi.node):
                tgt = x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else x.target if isinstance(x, ast.AnnAssign) else None
                if not (isinstance(tgt, ast.Attribute) and tgt.attr == w.f.sel and isinstance(tgt.value, ast.Name)):
                    continue
                n += 1
                ctx.functions.add(fi.qual)
                if isinstance(x.value, ast.Dict) and x.value.keys:
                    ctx.report("P03.whole", fi.qual, f"{fi.mod.rel}:{x.lineno}", "the selector table starts out with fixed entries")
    ctx.count("selector_table_assignments", n)
    ctx.need(n > 0, "an assignment of the selector table")


@check("P04")
def p04(ctx: Ctx) -> str:
    ctx.rule("P04.failed", "on every path that returns False or raises, the tree is the original one, unchanged, and no variable was changed")
    ctx.rule("P04.test", "a test operation changes nothing")
    ctx.rule("P04.sum", "search_and_patch returns True only when no patch was refused")
    w = World(ctx)
    for r in w.runs():
        for kind, out, s, v in r.exits:
            if r.name == "search_and_patch" and kind == "ret" and out is True and s.mon.fail:
                ctx.report("P04.sum", r.what, r.loc, "True is returned although a patch was refused", tree_events(r.h, s))
            if r.name in DEPS:
                continue
            chg = w_changed(r.h, s)
            if chg and r.op == "test":
                ctx.report("P04.test", r.what, r.loc, "a test operation changes the recipe", tree_events(r.h, s))
            elif chg and (kind == "exc" or out is False) and r.name not in ("remove_selector",) or (chg and kind == "exc"):
                ctx.report("P04.failed", f"{r.what} {_say(r, s, kind)} {'' if kind == 'exc' else out}".strip(), r.loc,
                           "the edit is reported as failed but the recipe has changed", tree_events(r.h, s))
    return "Every path of every editing method; pure helper functions are taken to raise whatever they let out."


@check("P05")
def p05(ctx: Ctx) -> str:
    ctx.rule("P05.validated", "patch validates the payload against the schema before anything is changed")
    ctx.rule("P05.exception", "a payload that does not conform ends in JsonPatchValidationException")
    ctx.rule("P05.schema", "the schema knows exactly the six operations and requires op, path and what the operation needs; nothing else is allowed")
    ctx.rule("P05.members", "with exactly the members the schema requires, an operation reads no other member")
    ctx.rule("P05.ops", "every operation can succeed, changes the tree when it does (test: never), and copy and add never take nodes out")
    w = World(ctx)
    exc = w.p.cls("parser.exceptions.JsonPatchValidationException")
    base = ctx.guard("patch (add)", lambda: w.run("patch", "add"))
    ctx.need(base is not None, "patch can be interpreted")
    val = [x for x in base.h.schemas if x[0]]
    loc = base.loc
    if not val:
        if not base.h.schemas and not any(is_sub(base.I, v, exc) for k, _, _, v in base.exits if k == "exc"):
            ctx.report("P05.validated", "patch", loc, "the payload is never validated against a schema")
        else:
            ctx.undec("the payload is validated in a way that is not recognised")
    for kind, out, s, v in base.exits:
        if kind == "exc" and v.op == "exc" and str(v.args[0]).startswith("jsonschema"):
            ctx.report("P05.exception", "patch", loc, f"{v.args[0]} of the schema validation gets out of patch", tree_events(base.h, s))
    schema = val[0][1] if val else None
    required = _schema(ctx, schema, val[0][2] if val else loc) if isinstance(schema, dict) else dict(OPS)
    for op in OPS:
        r = ctx.guard(f"patch ({op})", lambda op=op: w.run("patch", op, required.get(op, OPS[op])))
        if r is None:
            continue
        for key, mloc, fi in r.h.missing:
            ctx.report("P05.members", f"{op}: {key}", mloc, f"the {op} operation reads {key!r}, which its payload need not have")
        ok = [(s, v) for kind, out, s, v in r.exits if kind == "ret" and out is True]
        if not ok:
            ctx.report("P05.ops", f"{op} never succeeds", r.loc, f"no path of the {op} operation returns True")
        elif op != "test" and not any(w_changed(r.h, s) is not False for s, _ in ok):
            ctx.report("P05.ops", f"{op} changes nothing", r.loc, f"every successful path of the {op} operation leaves the tree unchanged")
        for kind, out, s, v in r.exits:
            _order(ctx, r, s)
            took = sorted({e.loc() for e in s.events() if e.kind == "mut" and e.name in ("pop", "remove", "clear", "__delitem__")
                           and _tree_list(r.h, e)})
            put = any((e.kind == "store" and _node_store(r.h, e)) or (e.kind == "mut" and e.name in ("append", "extend", "insert", "__setitem__")
                                                                    and _tree_list(r.h, e)) for e in s.events())
            if op in ("copy", "add") and took and out is True:
                ctx.report("P05.ops", f"{op} removes", took[0], f"the {op} operation takes nodes out of the tree", tree_events(r.h, s))
            if op == "remove" and out is True and kind == "ret" and not took and not put and w_changed(r.h, s) is False:
                ctx.report("P05.ops", "remove keeps", r.loc, "a successful remove takes nothing out of the tree", tree_events(r.h, s))
            if op == "move" and out is True and kind == "ret" and w_changed(r.h, s) and took and not put:
                ctx.report("P05.ops", "move loses", r.loc, "a successful move takes the value away without putting it anywhere", tree_events(r.h, s))
            if op == "move" and out is True and kind == "ret" and w_changed(r.h, s) and put and not took:
                ctx.report("P05.ops", "move duplicates", r.loc, "a successful move leaves the value at its old place", tree_events(r.h, s))
    return "The patch method once per operation, on payloads with exactly the members the schema asks for; the schema as a constant."


def _tree_list(h: TreeHooks, e: Event) -> bool:
    return any(b.op == "attr" and isinstance(b.args[0], Term) and h._is_node(b.args[0]) and h.tree_origin(b.args[0]) for b in members(e.recv))


def _node_store(h: TreeHooks, e: Event) -> bool:
    return any(h._is_node(b) and h.tree_origin(b) for b in members(e.recv))


def _order(ctx: Ctx, r: Run, s: State) -> None:
    seen = False
    for e in s.events():
        if e.kind == "call" and e.name.endswith("jsonschema.validate"):
            seen = True
        elif not seen and ((e.kind == "mut" and _tree_list(r.h, e)) or (e.kind == "store" and _node_store(r.h, e))):
            if r.h.schemas:
                ctx.report("P05.validated", f"{r.what} order", e.loc(), "the tree is changed before the payload has been validated", tree_events(r.h, s))
            return


def _schema(ctx: Ctx, sch: dict, loc: str) -> dict:
    props = sch.get("properties")
    req = sch.get("required")
    if not isinstance(props, dict) or not isinstance(req, list):
        ctx.report("P05.schema", "shape", loc, "the patch schema does not say what members a patch has and which it must have")
        return dict(OPS)
    ops = props.get("op", {}).get("enum") if isinstance(props.get("op"), dict) else None
    if isinstance(ops, list) and ... not in ops and set(ops) != set(OPS):
        ctx.report("P05.schema", "ops", loc, f"the schema allows the operations {sorted(map(str, ops))}")
    for k in ("op", "path"):
        if k not in req and ... not in req:
            ctx.report("P05.schema", f"required {k}", loc, f"a patch without {k!r} passes validation")
    if sch.get("additionalProperties", True) is not False and sch.get("additionalProperties") is not ... and sch.get("unevaluatedProperties") is not False:
        ctx.report("P05.schema", "additional", loc, "members the patch format does not know pass validation")
    for k in ("path", "from"):
        d = props.get(k)
        if isinstance(d, dict) and ... not in d.values() and d.get("type") != "string":
            ctx.report("P05.schema", f"type {k}", loc, f"{k!r} may be something other than a string")
    out: dict = {}
    rules = sch.get("allOf", [])
    if not isinstance(rules, list) or ... in rules:
        return dict(OPS)
    for op in OPS:
        need: set = set(req) - {"op", "path"}
        for rule in rules:
            if not isinstance(rule, dict):
                continue
            c = rule.get("if", {})
            k = c.get("properties", {}).get("op", {}) if isinstance(c, dict) else {}
            match = k.get("const") == op or (isinstance(k.get("enum"), list) and op in k["enum"])
            then = rule.get("then" if match else "else", {})
            if isinstance(then, dict) and isinstance(then.get("required"), list):
                need |= set(then["required"])
        out[op] = tuple(sorted(map(str, need)))
        lost = set(OPS[op]) - need
        for q in sorted(lost):
            ctx.report("P05.schema", f"{op} {q}", loc, f"a {op!r} patch without {q!r} passes validation")
    return out


@check("P13")
def p13(ctx: Ctx) -> str:
    ctx.rule("P13.table", "set_variable stores the value under the variable's name, del_variable removes that entry, in the table the variable queries read")
    ctx.rule("P13.context", "for a recipe in the new format both also edit /context, from which such recipes are rendered")
    ctx.rule("P13.queries", "the variable queries and the rendering of old-format recipes read that same table")
    w = World(ctx)
    p, c, f = w.p, w.cls, w.f
    for q in ("contains_variable", "get_variable", "list_variables", "render"):
        ctx.need(c.find_method(q) is not None, q)
        if f.vars not in self_reads(p, c, q):
            ctx.report("P13.queries", q, f"{c.find_method(q).mod.rel}:{c.find_method(q).node.lineno}", f"{q} does not read the variable table")
    sv = p.cls("parser.enums.SchemaVersion")
    vers = sv.enum_members()
    ctx.need("V1" in vers and "V0" in vers, "SchemaVersion.V0 and V1")
    for name in ("set_variable", "del_variable"):
        for ver in vers:
            r = ctx.guard(f"{name} {ver}", lambda name=name, ver=ver: w.run(name, version=ver))
            if r is None:
                continue
            ps = list(r.params.values())
            for kind, out, s, v in r.exits:
                if kind != "ret":
                    continue
                muts = [e for e in s.events() if e.kind == "mut" and any(b.op == "attr" and b.args[0] is r.h.selfv and b.args[1] == f.vars for b in members(e.recv))]
                absent = known(s, ("in", ps[0], mk("attr", r.h.selfv, f.vars, typ=w.e.types.attr(c, f.vars)))) is False
                if not s.mon.vars:
                    if not (name == "del_variable" and (absent or known_absent(s, ps[0], r.h, f))):
                        ctx.report("P13.table", f"{name}", r.loc, f"{name} can return without having changed the variable table", tree_events(r.h, s))
                    continue
                for e in muts:
                    if e.name == "__setitem__" and name == "set_variable":
                        if e.args[0] is not ps[0]:
                            ctx.report("P13.table", f"{name} key", e.loc(), "the value is stored under something other than the given name")
                        if e.args[1] is not ps[1] and (not mentions(e.args[1], lambda t: t is ps[1]) or mentions(e.args[1], lambda t: t is r.h.selfv)):
                            ctx.report("P13.table", f"{name} value", e.loc(), "something other than the given value is stored")
                    if e.name in ("__delitem__", "pop") and e.args and e.args[0] is not ps[0]:
                        ctx.report("P13.table", f"{name} key", e.loc(), "an entry other than the given variable is removed")
                pats = [e for e in s.events() if e.kind == "patch"]
                if ver == "V1" and not pats:
                    ctx.report("P13.context", f"{name}", r.loc, "a recipe in the new format keeps its old /context", tree_events(r.h, s))
                for e in pats:
                    _context_patch(ctx, name, e, ps, s)
    from .p_read import variables_eval
    variables_eval(ctx)
    return "set_variable and del_variable on every path, once per recipe format; sequences of edits evaluated on recipes of both formats."


def known_absent(s: State, var: Term, h: TreeHooks, f: Any) -> bool:
    """The path is one on which the variable is known not to be there."""
    for a, val in s.facts.items():
        if a[0] == "in" and a[1] is var and val is False:
            return True
        if isinstance(a[1], Term) and mentions(a[1], lambda t: t is var) and mentions(a[1], lambda t: t.op == "attr" and t.args[0] is h.selfv and t.args[1] == f.vars):
            return True
        if a[0] == "t" and isinstance(a[1], Term) and a[1].op == "call" and mentions(a[1], lambda t: t is var):
            return True
    return False


def _context_patch(ctx: Ctx, name: str, e: Event, ps: list, s: State) -> None:
    f = e.extra
    if not f:
        return
    path = f.get("path")
    txt = show(path) if path is not None else ""
    lit = [kv(q) for q in (path.args[0] if path is not None and path.op == "fmt" else [path] if path is not None else []) if is_k(q)]
    if lit and not str(lit[0]).startswith("/context"):
        ctx.report("P13.context", f"{name} path", e.loc(), f"the edit goes to {txt} instead of /context")
    op = f.get("op")
    if op is not None and is_k(op):
        want = ("add", "replace") if name == "set_variable" else ("remove",)
        if kv(op) not in want:
            ctx.report("P13.context", f"{name} op", e.loc(), f"{name} applies a {kv(op)!r} patch")
    v = f.get("value")
    if name == "set_variable" and v is not None and v is not ps[1]:
        r = s.heap.get(v)
        if r is not None and r.kind == "dict" and any(x is ps[1] for x in r.fields.d.values()):
            if ps[0] not in r.fields.d and not any(k is ps[0] for k in r.fields.d):
                ctx.report("P13.context", f"{name} key", e.loc(), "the variable is added to /context under another name")
        elif is_k(v) or v.op == "param":
            ctx.report("P13.context", f"{name} value", e.loc(), "something other than the given value goes to /context")
