"""P01, P09, P11: what queries, the conversion and the rest of the library change, from the interprocedural effect analysis."""

from __future__ import annotations

import ast
from typing import Any, Optional

from ..effects import Effects, Summary, is_weak, show_loc
from ..interp import Interp
from ..model import ClassInfo, FuncInfo, Program
from ..report import Ctx, check
from ..values import K, NONE, State, ct, is_k, kv, mk
from ._common import CRMHooks, finish, trace_lines
from ._tree import EDITORS, Fields, fields

RECIPES = ("parser.recipe_parser_convert.RecipeParserConvert", "parser.recipe_parser_deps.RecipeParserDeps", "parser.recipe_parser.RecipeParser",
           "parser.recipe_reader_deps.RecipeReaderDeps", "parser.recipe_reader.RecipeReader", "parser.cbc_parser.CbcParser")
LIFE = ("__init__", "__new__", "__setstate__", "__getstate__", "__del__", "__init_subclass__", "__enter__", "__exit__", "__set_name__")
CONVERT = "render_to_v1_recipe_format"


def classes(ctx: Ctx) -> list:
    out = []
    for n in RECIPES:
        try:
            out.append(ctx.p.cls(n))
        except Exception:  # pylint: disable=broad-exception-caught
            continue
    ctx.need(len(out) >= 3, "the recipe classes")
    return out


def public_methods(c: ClassInfo) -> dict:
    """Public methods of a class (special methods included), each with the function that implements it."""
    out: dict = {}
    for k in reversed([x for x in c.mro() if isinstance(x, ClassInfo)]):
        for n, m in k.methods.items():
            if not n.startswith("_") or (n.startswith("__") and n.endswith("__") and n not in LIFE):
                out[n] = m
    return out


def first(loc: tuple) -> str:
    return loc[1][0][1:] if loc[1] and loc[1][0].startswith(".") else ""


def self_name(fi: FuncInfo) -> Optional[str]:
    a = fi.node.args.posonlyargs + fi.node.args.args
    return a[0].arg if a and not _static(fi) else None


def _static(fi: FuncInfo) -> bool:
    return fi.cls is None or any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fi.node.decorator_list)


@check("P01")
def p01(ctx: Ctx) -> str:
    ctx.rule("P01.pure", "no query changes the tree, the variables, the selector table, the schema version or the modified flag of a recipe")
    ctx.rule("P01.other", "a query changes no other recipe either (the operand of a comparison, say)")
    p, e = ctx.p, Effects(ctx.p)
    done: set = set()
    n = 0
    for c in classes(ctx):
        f = _state(ctx, p, c, e)
        for name, fi in sorted(public_methods(c).items()):
            if name in EDITORS or (fi, tuple(sorted(f))) in done:
                continue
            done.add((fi, tuple(sorted(f))))
            s = e.sums.get(fi)
            if s is None:
                continue
            n += 1
            ctx.functions.add(fi.qual)
            sn = self_name(fi)
            for m in s.muts.values():
                if is_weak(m.loc) or m.loc[0][0] != "p":
                    continue
                if m.loc[0][1] == sn and first(m.loc) in f and name != CONVERT:
                    ctx.report("P01.pure", f"{name} changes {first(m.loc)}", m.where, f"the query {name} changes {show_loc(m.loc)} ({m.how})", _via(m))
                elif m.loc[0][1] != sn and first(m.loc) in f:
                    ctx.report("P01.other", f"{name} changes {m.loc[0][1]}", m.where, f"{name} changes {show_loc(m.loc)} ({m.how})", _via(m))
    ctx.count("queries", n)
    ctx.need(n >= 25, "the queries of a recipe")
    ctx.sample({"queries": sorted({fi.name for fi, _ in done})[:60]})
    return "Every public method of the recipe classes that is not an edit; effects of everything they may call."


def _state(ctx: Ctx, p: Program, c: ClassInfo, e: Effects) -> set:
    f: Fields = fields(p, c, e)
    out = {x for x in f if x}
    ctx.need(len(out) >= 4, f"the state of {c.name} from its public accessors")
    return out


def _via(m: Any) -> list:
    return [f"through {' -> '.join(m.via)}"] if m.via else []


@check("P09")
def p09(ctx: Ctx) -> str:
    ctx.rule("P09.orig", "the conversion changes none of the recipe's own state")
    ctx.rule("P09.copy", "the working copy the conversion edits shares no tree, variable or selector table with the recipe")
    ctx.rule("P09.args", "the conversion changes no module-level table or other shared state")
    ctx.rule("P09.logged", "a patch refused during the conversion leaves a message")
    p, e = ctx.p, Effects(ctx.p)
    c = p.cls(RECIPES[0])
    fi = c.find_method(CONVERT)
    ctx.need(fi is not None, CONVERT)
    f = _state(ctx, p, c, e)
    s = e.sums[fi]
    sn = self_name(fi)
    work: set = set()
    for m in s.muts.values():
        if is_weak(m.loc):
            continue
        if m.loc[0][0] == "p" and m.loc[0][1] == sn:
            if first(m.loc) in f:
                ctx.report("P09.orig", f"{first(m.loc)}", m.where, f"the conversion changes {show_loc(m.loc)} of the recipe itself ({m.how})", _via(m))
            else:
                work.add(first(m.loc))
        elif m.loc[0][0] == "g":
            ctx.report("P09.args", show_loc(m.loc), m.where, f"the conversion changes the shared {show_loc(m.loc)} ({m.how})", _via(m))
    ctx.count("mutations", len(s.muts))
    ctx.sample({"working state": sorted(work)})
    init = c.find_method("__init__")
    for fn in (init, fi):
        if fn is None:
            continue
        fl = fields(p, c, e)
        _shares(ctx, e.sums[fn], fn, work, {fl.tree, fl.vars, fl.sel})
    _logged(ctx, p, e, c, fi)
    return "The conversion and everything it calls; the constructor that sets up its working copy."


def _shares(ctx: Ctx, s: Summary, fn: FuncInfo, work: set, f: set) -> None:
    sn = self_name(fn)

    def reach(locs: frozenset, seen: set, d: int = 0) -> Optional[tuple]:
        for l in locs:
            if is_weak(l):
                continue
            if l[0][0] == "p" and l[0][1] == sn and (not l[1] or (len(l[1]) == 1 and first(l) in f)):
                return l
            if l[0][0] == "a" and l[0] not in seen and d < 6:
                seen.add(l[0])
                for fld, v in s.heap.get(l[0], {}).items():
                    if fld[:1] == "." and fld[1:] not in f:
                        continue
                    got = reach(v, seen, d + 1)
                    if got:
                        return got
        return None

    for tgt, (locs, sfi, line) in list(s.stores.items()):
        if is_weak(tgt) or tgt[0][0] != "p" or tgt[0][1] != sn or first(tgt) not in work:
            continue
        ctx.count("working_copy_stores")
        if len(tgt[1]) > 1 and not (len(tgt[1]) == 2 and tgt[1][1][1:] in f):
            continue
        got = reach(locs, set())
        if got is not None:
            ctx.report("P09.copy", f"{fn.name} {show_loc(tgt)}", f"{sfi.mod.rel}:{line}",
                       f"the working copy {show_loc(tgt)} is {'the recipe itself' if not got[1] else 'the same object as ' + show_loc(got)}")


def _logged(ctx: Ctx, p: Program, e: Effects, c: ClassInfo, conv: FuncInfo) -> None:
    """No call of patch in the conversion drops its result, unless a helper of the conversion logged the failure already."""
    patch = c.find_method("patch")
    msg = p.cls("types.MessageTable").find_method("add_message")
    ctx.need(patch is not None and msg is not None, "patch and MessageTable.add_message")
    todo, seen = [conv], {conv}
    sites: list = []
    while todo:
        fn = todo.pop()
        for x in ast.walk(fn.node):
            if not isinstance(x, ast.Call):
                continue
            for g in e.callees.get(id(x), ()):
                if g is patch or (isinstance(g, FuncInfo) and g.name == "patch" and g.cls is not None):
                    sites.append((fn, x))
                elif g not in seen and isinstance(g, FuncInfo) and g.mod is conv.mod:
                    seen.add(g)
                    todo.append(g)
    ctx.count("patch_calls", len(sites))
    ctx.need(bool(sites), "a call of patch in the conversion")
    for fn in sorted({f for f, _ in sites}, key=lambda f: f.qual):
        ctx.functions.add(fn.qual)
        top = _top(fn)
        pats = {g for f, x in sites if f is fn for g in e.callees.get(id(x), ()) if g.name == "patch"}
        ctx.guard(fn.name, lambda top=top, pats=pats: _path_log(ctx, p, top, pats, msg, _ignored(e, top)))


def _ignored(e: Effects, fn: FuncInfo) -> bool:
    """Some caller in the module does not look at the function's result."""
    return any(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and fn in e.callees.get(id(x.value), ())
               for g in e.sums if g.mod is fn.mod for x in ast.walk(g.node))


class LogHooks(CRMHooks):
    """The patches of the working copy either apply or are refused; everything outside the module is not entered."""

    def __init__(self, conv: FuncInfo, patch: set, msg: FuncInfo) -> None:
        super().__init__()
        self.mod, self.patch, self.msg = conv.mod, {x.qual for x in patch}, msg.qual

    def opaque(self, fi: FuncInfo, interp: Interp, args: tuple) -> bool:
        return fi.mod is not self.mod

    def opaque_class(self, c: ClassInfo) -> bool:
        return c.mod is not self.mod

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        if name in self.patch:
            bad = st.fork()
            bad.mon = (bad.mon or frozenset()) | {f"{fr.fi.mod.rel}:{getattr(node, 'lineno', 0)}"}
            return [(st.fork(), K(True)), (bad, K(False))]
        if name == self.msg:
            s = st.fork()
            s.mon = frozenset()
            return [(s, NONE)]
        return None


def _path_log(ctx: Ctx, p: Program, fn: FuncInfo, patch: set, msg: FuncInfo, ignored: bool) -> None:
    """A path through a helper on which a patch was refused has left a message, or tells its caller."""
    h = LogHooks(fn, patch, msg)
    I = Interp(p, h)
    st = State()
    st.mon = frozenset()
    sv = mk("param", "self", typ=ct(fn.cls)) if fn.cls is not None and not _static(fn) else None
    for kind, s, v in I.run(fn, I.entry_args(fn), st, sv):
        if kind == "ret" and s.mon and not (is_k(v) and kv(v) is False and not ignored):
            for w in sorted(s.mon):
                ctx.report("P09.logged", fn.qual, w, "a patch that is refused here leaves no message", trace_lines(s))
    finish(ctx, I, fn.name)


# ---------------------------------------------------------------------------------------------------------------- P11

MUT_DEFAULT = {"list", "dict", "set", "bytearray", "defaultdict", "deque", "OrderedDict", "Counter"}


def public_module(name: str) -> bool:
    return not any(x.startswith("_") for x in name.split("."))


@check("P11")
def p11(ctx: Ctx) -> str:
    ctx.rule("P11.args", "no public function or method of the library (parser, fetcher, scanner, grapher, licenses, utils) changes an argument it was given")
    ctx.rule("P11.shared", "nothing changes module-level or class-level state, so objects do not influence one another")
    ctx.rule("P11.default", "no function changes, keeps or returns a mutable default value")
    ctx.rule("P11.fresh", "a query that returns a list, set or dictionary returns one of its own, not one the recipe keeps using")
    p, e = ctx.p, Effects(ctx.p)
    nf = 0
    for fi, s in e.sums.items():
        qual = fi.qual
        nf += 1
        _defaults(ctx, p, fi, s)
        for m in s.muts.values():
            if is_weak(m.loc):
                continue
            root = m.loc[0]
            if root[0] == "g":
                if fi is _top(m.fi):
                    ctx.report("P11.shared", f"{show_loc(m.loc)} in {qual}", m.where, f"{show_loc(m.loc)} is shared by all callers and is changed here ({m.how})")
                continue
            if root[0] != "p" or ".commands." in qual or not _api(fi) or not public_module(fi.mod.name):
                continue
            if root[1] == self_name(fi) or root[1] in ("self", "cls"):
                continue
            ctx.report("P11.args", f"{qual} {root[1]}", m.where, f"{fi.name} changes its argument {show_loc(m.loc)} ({m.how})", _via(m))
    ctx.count("functions", nf)
    nq = 0
    seen: set = set()
    for c in classes(ctx):
        inst = e.inst_attrs(c)
        for name, fi in public_methods(c).items():
            if fi in seen or fi.node.returns is None:
                continue
            seen.add(fi)
            if not _container(ast.unparse(fi.node.returns)):
                continue
            nq += 1
            ctx.functions.add(fi.qual)
            for l in e.sums[fi].ret:
                if not is_weak(l) and l[0][0] == "p" and l[0][1] == self_name(fi) and first(l) in inst:
                    ctx.report("P11.fresh", f"{name} {show_loc(l)}", f"{fi.mod.rel}:{fi.node.lineno}",
                               f"{name} hands out {show_loc(l)} itself: changing the result changes the recipe")
    ctx.count("container_queries", nq)
    ctx.need(nq >= 6, "queries that return containers")
    ctx.need(nf >= 200, "the functions of the repository")
    return "The effect summary of every function; returned values of the queries annotated as containers."


def _top(fi: FuncInfo) -> FuncInfo:
    while fi.parent is not None:
        fi = fi.parent
    return fi


def _container(ann: str) -> bool:
    a = ann.replace("Optional[", "").strip("'\"")
    return a.split("[")[0].split(".")[-1] in ("list", "dict", "set", "List", "Dict", "Set", "DependencyMap")


def _api(fi: FuncInfo) -> bool:
    if fi.name.startswith("_") and not (fi.name.startswith("__") and fi.name.endswith("__")):
        return False
    if fi.cls is not None and fi.cls.name.startswith("_"):
        return False
    return True


def _defaults(ctx: Ctx, p: Program, fi: FuncInfo, s: Summary) -> None:
    a = fi.node.args
    ps = a.posonlyargs + a.args
    pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for arg, d in pairs:
        mut = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
            isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in MUT_DEFAULT)
        if not mut:
            continue
        ctx.count("mutable_defaults")
        for m in s.muts.values():
            if m.loc[0][0] == "p" and m.loc[0][1] == arg.arg and not is_weak(m.loc):
                ctx.report("P11.default", f"{fi.qual} {arg.arg}", m.where, f"the default value of {arg.arg} is shared by all calls and is changed ({m.how})")
        for l in s.ret:
            if l[0] == ("p", arg.arg) and not l[1]:
                ctx.report("P11.default", f"{fi.qual} {arg.arg}", f"{fi.mod.rel}:{fi.node.lineno}", f"the shared default value of {arg.arg} is returned")
        for tgt, (locs, sfi, line) in s.stores.items():
            if any(l[0] == ("p", arg.arg) and not l[1] for l in locs) and tgt[0][0] == "p":
                ctx.report("P11.default", f"{fi.qual} {arg.arg}", f"{sfi.mod.rel}:{line}", f"the shared default value of {arg.arg} is kept in {show_loc(tgt)}")
