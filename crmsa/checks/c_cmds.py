"""C06: patch; C07: exit statuses; C08: standard output; C10: isolation of parallel workers."""

from __future__ import annotations

import ast
from typing import Any, Optional

from ..facts import enum_value
from ..interp import Event, Interp, kpath
from ..model import ClassInfo, ExtRef, FuncInfo, own_nodes
from ..report import Ctx, check
from ..values import K, NONE, Rec, State, T_BOOL, T_PATH, T_STR, Term, ct, is_k, kv, members, mk, show, xt
from ._cmd import CmdHooks, Mon, exit_codes, has_render, is_render, mon, outcomes, put, sym
from ._common import finish, mentions, strip_path, trace_lines


class PatchHooks(CmdHooks):
    """The patch file holds a single blob or a list of `nblobs` blobs."""

    def __init__(self, p: Any, nblobs: Optional[int], **kw: Any) -> None:
        super().__init__(p, patch_raises=True, **kw)
        self.nblobs = nblobs

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        if name in ("json.loads", "json.load"):
            s = st.fork()
            exc = I.mk_exc("json.JSONDecodeError", node, fr)
            put(s, failed=mon(s).failed + (("the patch file is not JSON", f"{fr.mod.rel}:{node.lineno}"),))
            X.append((s, exc))
            blobs = [mk("pure", "blob", (K(i),), typ=xt("builtins.dict", T_STR)) for i in range(self.nblobs or 1)]
            if self.nblobs is None:
                return [(st, blobs[0])]
            return [(st, I.fresh(st, node, fr, "list", tuple(blobs), tag=":blobs"))]
        return super().model(I, st, name, recv, args, kwargs, node, fr, X)


def blob_of(e: tuple) -> Any:
    return e[4]


@check("C06")
def c06(ctx: Ctx) -> str:
    ctx.rule("all-or-nothing", "the recipe file is only written when every patch of the patch file was applied")
    ctx.rule("status", "a patch that is rejected or malformed, an unreadable or non-JSON patch file and an unreadable recipe end with a nonzero status")
    ctx.rule("applied", "a successful run has applied every patch of the file, in order and once")
    ctx.rule("saved", "a successful run writes the rendered recipe, with all patches in it, to the recipe file and nowhere else")
    p = ctx.p
    n = 0
    for nb in (None, 0, 1, 2, 3):
        what = "a single patch" if nb is None else f"a list of {nb} patches"

        def body() -> None:
            nonlocal n
            applied: list = []

            class H(PatchHooks):
                def _recipe(self, I, st, name, last, recv, args, kwargs, node, fr, X):
                    r = super()._recipe(I, st, name, last, recv, args, kwargs, node, fr, X)
                    if last == "patch" and r:
                        a = list(args) + list(kwargs.values())
                        put(r[0][0], flags=mon(r[0][0]).flags + (("blob", a[0] if a else None),))
                    return r

            h = H(p, nb, keep=("failed", "nedit", "writes", "wfail", "flags", "out"))
            h.loop_rounds = 6
            I = Interp(p, h)
            fi = p.fn("commands.patch.patch")
            st = State()
            a = I.entry_args(fi)
            ctx.need({"json_patch_file_path", "recipe_file_path"} <= set(a), "patch's parameters changed")
            path = a["recipe_file_path"] = sym(st, "recipe_file_path")
            jpath = a["json_patch_file_path"] = sym(st, "json_patch_file_path")
            want = [mk("pure", "blob", (K(i),), typ=xt("builtins.dict", T_STR)) for i in range(1 if nb is None else nb)]
            ok = 0
            for o in outcomes(I.run(fi, a, st), I):
                n += 1
                m, s = o.m, o.st
                if m.wfail:
                    if o.codes == [0]:
                        ctx.report("status", f"patch, {what}: write", fi.loc(), "ends with status 0 although the recipe could not be written",
                                   trace_lines(s))
                    continue
                if m.failed:
                    if m.writes:
                        ctx.report("all-or-nothing", f"patch, {what}: {m.failed[0][0]}", m.failed[0][1],
                                   "the recipe file is written although this failed", trace_lines(s))
                    if 0 in o.codes:
                        ctx.report("status", f"patch, {what}: {m.failed[0][0]}", m.failed[0][1], "the run ends with status 0 although this failed",
                                   trace_lines(s))
                    continue
                if o.codes != [0]:
                    if None not in o.codes and m.writes:
                        ctx.report("all-or-nothing", f"patch, {what}: {o.how}", fi.loc(), f"the recipe file is written but the run {o.how} "
                                   f"with status {o.codes}", trace_lines(s))
                    continue
                ok += 1
                got = [f[1] for f in m.flags if f[0] == "blob"]
                if all(g in want for g in got) and got != want:
                    ctx.report("applied", f"patch, {what}", fi.loc(), f"a successful run applies {len(got)} of {len(want)} patches"
                               if len(got) != len(want) else "a successful run applies the patches in another order", trace_lines(s))
                mine = [w for w in m.writes if strip_path(w[0]) is path]
                for t, c in m.writes:
                    if strip_path(t) is jpath:
                        ctx.report("saved", f"patch, {what}: patch file", fi.loc(), "the patch file is written", trace_lines(s))
                if not mine and not m.writes and nb != 0:
                    ctx.report("saved", f"patch, {what}: not written", fi.loc(), "a successful run does not write the recipe", trace_lines(s))
                if mine and mine[-1][1] is not None:
                    for x in members(mine[-1][1]):
                        if x.op == "opened":
                            ctx.report("saved", f"patch, {what}: truncated", fi.loc(), "the recipe file is opened but not written", trace_lines(s))
                        elif is_render(x) and kv(x.args[1][1]) != m.nedit:
                            ctx.report("saved", f"patch, {what}: stale", fi.loc(), "the recipe is rendered before all patches were applied",
                                       trace_lines(s))
                        elif not has_render(x) and x.op in ("K", "param", "call", "pure"):
                            ctx.report("saved", f"patch, {what}: content", fi.loc(), f"writes `{show(x)[:50]}` instead of the rendered recipe",
                                       trace_lines(s))
            ctx.need(ok > 0 or bool(I.cuts), f"patch cannot succeed with {what}")
            finish(ctx, I, what)

        ctx.guard(what, body)
    ctx.count("outcomes", n)
    return ("The patch command is interpreted abstractly for a single patch and lists of up to three patches, each of which may be applied, rejected or "
            "malformed, and with every read and write allowed to fail.")


# ---------------------------------------------------------------------------------------------------------------- C07

BUMP_CODES = {"read": {"IO_ERROR"}, "parse": {"PARSE_EXCEPTION"}, "patch": {"PATCH_ERROR"}, "fetch": {"HTTP_ERROR"}}
PATCH_CODES = {"json": {"JSON_ERROR"}, "read": {"IO_ERROR"}, "parse": {"PARSE_EXCEPTION"}, "patch": {"ILLEGAL_OPERATION"}, "schema": {"JSON_ERROR"}}


def _kind(what: str) -> str:
    if "not JSON" in what:
        return "json"
    if what.startswith("patch raised"):
        return "schema"
    if what.startswith("patch "):
        return "patch"
    if "RecipeReader raised" in what or "RecipeParser" in what or what.endswith("Reader raised"):
        return "parse"
    if "read_text" in what or "open" in what or "io.IO.read" in what or "read_bytes" in what:
        return "read"
    return "?"


def _member(v: Term, codes: ClassInfo) -> Optional[str]:
    if v.op == "enum":
        return v.args[1]
    if is_k(v) and isinstance(kv(v), int):
        for m in codes.enum_members():
            if enum_value(mk("enum", codes, m, typ=ct(codes))) == kv(v):
                return m
    return None


@check("C07")
def c07(ctx: Ctx) -> str:
    ctx.rule("codes", "exit codes are distinct, fit an exit status, and only SUCCESS is zero")
    ctx.rule("click", "the codes used by click keep click's values")
    ctx.rule("cause", "bump-recipe and patch end with the code that names the failure")
    ctx.rule("graph", "graph fails on a directory without usable recipes and ends with status 0 when the user quits")
    ctx.rule("registered", "every command is available in the command line interface")
    p = ctx.p
    codes = p.cls("commands.utils.types.ExitCode")
    loc = f"{codes.mod.rel}:{codes.node.lineno}"
    ctx.need(codes.is_enum() and bool(codes.enum_members()), "ExitCode is no longer an enumeration")
    seen: dict = {}
    for m in codes.enum_members():
        v = enum_value(mk("enum", codes, m, typ=ct(codes)))
        ctx.count("exit_codes")
        if not isinstance(v, int):
            continue
        if v in seen:
            ctx.report("codes", f"{m} = {v}", loc, f"{m} has the same value as {seen[v]}")
        seen[v] = m
        if (v % 256 == 0) != (m == "SUCCESS"):
            ctx.report("codes", f"{m} = {v}: status", loc, f"{m} ends the process with status {v % 256}")
        elif not 0 <= v <= 255:
            ctx.report("codes", f"{m} = {v}: range", loc, f"{m} does not fit an exit status")
    for m, v in (("CLICK_ERROR", 1), ("CLICK_USAGE", 2)):
        if m in seen.values() and seen.get(v) != m:
            ctx.report("click", m, loc, f"{m} is not {v}")
    by_status: dict = {}
    for v, m in seen.items():
        if v % 256 in by_status and not (v % 256 == 0):
            ctx.report("codes", f"{m} = {v}: modulo", loc, f"{m} and {by_status[v % 256]} end with the same status")
        by_status[v % 256] = m

    def cause(o: Any, fi: FuncInfo, kind: Optional[str], table: dict) -> None:
        if kind in ("read", "json", "parse", "patch") and kind in table and o.how.startswith("raises"):
            ctx.count("failure_exits")
            ctx.report("cause", f"{fi.name}: {kind} {o.how}", fi.loc(), f"a failing {kind} ({o.m.failed[-1][0]}) ends with a traceback, not with {'/'.join(sorted(table[kind]))}", trace_lines(o.st))
        if kind not in table or o.how != "exit" or not o.value.args[1:]:
            return
        for x in members(o.value.args[1]):
            nm = _member(x, codes)
            ctx.count("failure_exits")
            undec = "UnicodeDecodeError" in o.m.failed[-1][0] and "json" in table if o.m.failed else False  # a patch file that is no text is not JSON
            if nm is not None and nm not in table[kind] | (table["json"] if undec else set()):
                ctx.report("cause", f"{fi.name}: {kind} -> {nm}", fi.loc(), f"a failing {kind} ends with {nm}, not {'/'.join(sorted(table[kind]))}",
                           trace_lines(o.st))

    def bump() -> None:
        from .c_bump import Bump, _tables
        for dry in (False, True):
            b = Bump(ctx, "bump-recipe", _tables(ctx)["one http source"], True, dry_run=dry, keep=("failed", "tried", "tries", "fetched", "wfail"))
            for o in b.res:
                if o.m.wfail:
                    continue
                pending = bool(o.m.tries) and o.m.tries[-1] not in o.m.fetched
                kind = "fetch" if pending else _kind(o.m.failed[-1][0]) if o.m.failed else None
                if pending and o.m.failed:
                    kind = None
                cause(o, b.fi, kind, BUMP_CODES)

    def patch() -> None:
        h = PatchHooks(p, 2, keep=("failed", "wfail"))
        I = Interp(p, h)
        fi = p.fn("commands.patch.patch")
        st = State()
        a = I.entry_args(fi)
        a["recipe_file_path"], jp = sym(st, "recipe_file_path"), sym(st, "json_patch_file_path")
        a["json_patch_file_path"] = jp
        for o in outcomes(I.run(fi, a, st), I):
            if not o.m.wfail and o.m.failed:
                cause(o, fi, _kind(o.m.failed[-1][0]), PATCH_CODES)
        finish(ctx, I, "patch")

    def graph() -> None:
        gcls = p.cls("grapher.recipe_graph_from_disk.RecipeGraphFromDisk")
        fi = p.fn("commands.graph.graph")
        for some in (True, False):
            quit_seen = False

            class H(CmdHooks):
                def model(self, I, st, name, recv, args, kwargs, node, fr, X):
                    last = name.rsplit(".", 1)[-1]
                    if name == gcls.qual:
                        v = mk("call", name, (), typ=ct(gcls), site=("graph",))
                        st.facts = st.facts.set(("t", v), some)
                        return [(st, v)]
                    if last == "__bool__" and recv is not None and recv.op == "call" and recv.args[0] == gcls.qual:
                        return [(st, K(some))]
                    if name == "builtins.input":
                        return [(st, K("quit"))]
                    return super().model(I, st, name, recv, args, kwargs, node, fr, X)

            h = H(p, keep=("flags",))
            I = Interp(p, h)
            for o in outcomes(I.run(fi, I.entry_args(fi), State()), I):
                ctx.count("graph_outcomes")
                if not some and o.codes == [0]:
                    ctx.report("graph", "empty", fi.loc(), "ends with status 0 although there is no recipe", trace_lines(o.st))
                if some and o.how == "exit" and o.codes != [0] and None not in o.codes:
                    ctx.report("graph", "quit", fi.loc(), f"`quit` ends with status {o.codes}", trace_lines(o.st))
            finish(ctx, I, "graph")

    ctx.guard("bump-recipe", bump)
    ctx.guard("patch", patch)
    ctx.guard("graph", graph)
    _registered(ctx)
    return "The exit code table is evaluated; bump-recipe, patch and graph are interpreted with every failure and their exit codes compared with the cause."


def _registered(ctx: Ctx) -> None:
    p = ctx.p
    groups: list = []
    cmds: dict = {}
    added: set = set()
    whole = False
    for fi in p.funcs.values():
        if ".commands." not in fi.qual or fi.cls is not None:
            continue
        for d in fi.node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            r = p.resolve_expr(fi.mod, f)
            q = r.dotted if isinstance(r, ExtRef) else ""
            if q == "click.group":
                groups.append(fi)
            elif q == "click.command":
                cmds[fi.qual] = fi
            elif isinstance(f, ast.Attribute) and f.attr == "command":
                added.add(fi.qual)
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_command" and n.args:
                r = p.resolve_expr(m, n.args[0])
                if isinstance(r, FuncInfo):
                    added.add(r.qual)
                else:
                    whole = True
    ctx.need(bool(groups) and bool(cmds), "no click group or commands found")
    for q, fi in cmds.items():
        ctx.count("commands")
        if q not in added and not whole:
            ctx.report("registered", fi.name, fi.loc(), f"the command {fi.name} is not added to the command group")


# ---------------------------------------------------------------------------------------------------------------- C08


def _json_doc(v: Term) -> bool:
    return all(x.op == "call" and x.args[0] == "json.dumps" for x in members(v))


@check("C08")
def c08(ctx: Ctx) -> str:
    ctx.rule("payload", "the commands print nothing but their result to standard output: the rendered recipe (bump-recipe --dry-run), the converted recipe "
             "(convert), one JSON document (bulk convert, rattler-bulk-build), nothing (patch, bump-recipe)")
    ctx.rule("once", "the result is printed exactly once")
    ctx.rule("logging", "no log handler writes to standard output")
    p = ctx.p
    from .c_bump import Bump, _tables
    from .c_convert import FILES, Bulk, ConvHooks, RattlerHooks

    def judge(fi: FuncInfo, what: str, o: Any, ok: Any, want: Optional[bool], desc: str) -> None:
        ctx.count("outcomes")
        lines = [pr for pr in o.m.out]
        for pr in lines:
            ctx.count("prints")
            if not pr:
                ctx.report("payload", f"{what}: blank line", fi.loc(), "prints an extra blank line to standard output", trace_lines(o.st))
            for x in pr:
                if x.op != "top" and not ok(x):
                    ctx.report("payload", f"{what}: {show(x)[:60]}", fi.loc(), f"prints `{show(x)[:70]}` to standard output", trace_lines(o.st))
        n = sum(1 for pr in lines for x in pr if ok(x))
        if want is True and n != 1 and not any(x.op == "top" for pr in lines for x in pr):
            ctx.report("once", what, fi.loc(), f"{desc} is printed {n} times", trace_lines(o.st))
        if want is False and n:
            ctx.report("payload", f"{what}: result", fi.loc(), f"{desc} is printed although it should not be", trace_lines(o.st))

    def bump() -> None:
        tabs = _tables(ctx)
        for dry in (True, False):
            for target, tn in ((True, "two http sources"), (True, "http and git sources"), (False, "no source")):
                b = Bump(ctx, "bump-recipe", tabs[tn], target, dry_run=dry, keep=("out", "nedit", "tried", "failed"))
                for o in b.res:
                    judge(b.fi, f"bump-recipe{' --dry-run' if dry else ''}", o, has_render if dry else lambda x: False,
                          True if dry and o.codes == [0] else False, "the recipe")

    def patch() -> None:
        h = PatchHooks(p, 2, keep=("out", "failed", "wfail"))
        I = Interp(p, h)
        fi = p.fn("commands.patch.patch")
        a = I.entry_args(fi)
        st = State()
        a["recipe_file_path"], a["json_patch_file_path"] = sym(st, "recipe_file_path"), sym(st, "json_patch_file_path")
        for o in outcomes(I.run(fi, a, st), I):
            judge(fi, "patch", o, lambda x: False, None, "")
        finish(ctx, I, "patch")

    def bulk() -> None:
        conv, ratt = p.fn("commands.convert.convert"), p.fn("commands.rattler_bulk_build.rattler_bulk_build")
        for outs in ([(0, 0)] * 3, ["read", (1, 0), (0, 1)], ["schema", "convert", "parse"], ["pre-process", (0, 0), (1, 1)]):
            plan = {K(f): w for f, w in zip(FILES, outs)}
            for trunc in (True, False):
                for debug in (True, False):
                    for out in (NONE, K("recipe.yaml")):
                        h = ConvHooks(p, plan=plan, files=FILES, isdir=True, keep=("flags", "out"))
                        b = Bulk(ctx, conv, h, 0.5, {"output": out, "truncate": K(trunc), "debug": K(debug)})
                        for o in b.res:
                            judge(conv, "convert, bulk", o, _json_doc, True, "the JSON document")
        for outs in ([0, 1, "timeout"], ["oserror", 255, -9], [0, 0, "noise"]):
            for trunc in (True, False):
                for log in (NONE, K("/log/debug.json")):
                    h = RattlerHooks(p, dict(zip(FILES, outs)), keep=("flags", "out"))
                    lg = log if log is NONE else kpath(kv(log))
                    b = Bulk(ctx, ratt, h, 0.5, {"truncate": K(trunc), "debug_log": lg})
                    for o in b.res:
                        judge(ratt, "rattler-bulk-build", o, _json_doc, True, "the JSON document")

    def single() -> None:
        from .c_convert import _Read, _stage, _text
        for has_out in (True, False):
            h = ConvHooks(p, isdir=False, counts=(0, 1), keep=("out", "writes", "wfail", "flags"))
            h.user_on = _Read(h)
            I = Interp(p, h)
            fi = p.fn("commands.convert.convert")
            st = State()
            a = I.entry_args(fi)
            a["path"], a["output"] = sym(st, "path", T_PATH), sym(st, "output") if has_out else NONE
            for o in outcomes(I.run(fi, a, st), I):
                failed = _stage(o.m, None) is not None
                judge(fi, "convert", o, _text, False if has_out or failed else True, "the converted recipe")
            finish(ctx, I, "convert")

    ctx.guard("bump-recipe", bump)
    ctx.guard("patch", patch)
    ctx.guard("convert", single)
    ctx.guard("bulk commands", bulk)
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            r = p.resolve_expr(m, n.func)
            q = r.dotted if isinstance(r, ExtRef) else ""
            if q in ("logging.StreamHandler", "logging.basicConfig"):
                ctx.count("log_setups")
                for x in list(n.args) + [k.value for k in n.keywords]:
                    r2 = p.resolve_expr(m, x) if isinstance(x, (ast.Name, ast.Attribute)) else None
                    if isinstance(r2, ExtRef) and r2.dotted in ("sys.stdout", "sys.__stdout__"):
                        ctx.report("logging", f"{m.rel}: {q}", f"{m.rel}:{n.lineno}", "log messages go to standard output")
    ctx.need(ctx.counts.get("prints", 0) > 0 or bool(ctx.errors), "no print of a result found")
    return ("Every command except the interactive graph is interpreted for its option combinations and outcomes; everything that reaches standard output is "
            "compared with the result the command is to print.")
