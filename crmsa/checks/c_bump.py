"""C01-C04: bump-recipe."""

from __future__ import annotations

from typing import Any, Optional

from ..interp import Interp
from ..model import FuncInfo
from ..report import Ctx, check
from ..values import FALSE, K, NONE, State, TRUE, Term, contains, is_k, kv, members, mk, show, T_BOOL, T_STR, xt
from ._cmd import CAP, CmdHooks, Outcome, exit_codes, has_render, is_render, mon, outcomes, sym
from ._common import finish, mentions, strip_path, trace_lines

CMD = "commands.bump_recipe.bump_recipe"
HTTP, GIT = "fetcher.http_artifact_fetcher.HttpArtifactFetcher", "fetcher.git_artifact_fetcher.GitArtifactFetcher"
OPTS = ("recipe_file_path", "build_num", "dry_run", "target_version", "retry_interval")


class Bump:
    def __init__(self, ctx: Ctx, what: str, table: Optional[list] = None, target: bool = True, on: Any = None, fetch_fails: bool = True,
                 parse_raises: bool = True, keep: Any = (), rounds: int = 5, **flags: bool) -> None:
        p = ctx.p
        self.fi: FuncInfo = p.fn(CMD)
        ps = [a.arg for a in self.fi.node.args.args]
        ctx.need(set(OPTS) <= set(ps), f"bump-recipe's options changed: {ps}")
        self.h = CmdHooks(p, table, fetch_fails=fetch_fails, parse_raises=parse_raises, on=on, keep=keep)
        self.h.loop_rounds = rounds
        self.I = Interp(p, self.h)
        st = State()
        args = self.I.entry_args(self.fi)
        self.path = args["recipe_file_path"] = sym(st, "recipe_file_path")
        self.target = sym(st, "target_version") if target else NONE
        args["target_version"] = self.target
        args["retry_interval"] = sym(st, "retry_interval", xt("builtins.float"))
        for k in ("build_num", "dry_run"):
            args[k] = K(flags[k]) if k in flags else mk("param", k, typ=T_BOOL)
        self.what = what
        self.res = outcomes(self.I.run(self.fi, args, st), self.I)
        ctx.need(bool(self.res), "bump-recipe has no outcome in the model")
        finish(ctx, self.I, what)
        ctx.count("outcomes", len(self.res))

    def ok(self) -> list:
        return [o for o in self.res if o.codes == [0]]


def _tables(ctx: Ctx) -> dict:
    h, g = ctx.p.cls(HTTP), ctx.p.cls(GIT)
    return {
        "no source": [],
        "one http source": [("/source", h)],
        "one git source": [("/source", g)],
        "a list of one http source": [("/source/0", h)],
        "two http sources": [("/source/0", h), ("/source/1", h)],
        "http and git sources": [("/source/0", g), ("/source/1", h)],
    }


@check("C01")
def c01(ctx: Ctx) -> str:
    ctx.rule("dry-run", "with --dry-run no file is created, changed or removed; the rendered recipe is printed")
    ctx.rule("failure-writes", "a run that ends with a failure has not written any file")
    ctx.rule("failure-status", "a failed read, parse, patch or fetch never ends with status 0")
    ctx.rule("saved", "a successful run writes the rendered recipe, with every edit in it, to the given file")
    tabs = _tables(ctx)
    nok = 0
    for dry in (True, False):
        for target in (True, False):
            for tn in (tabs if target else ["no source"]):
                cfg = f"{'dry run, ' if dry else ''}{'target version' if target else 'build number only'}, {tn}"

                def body() -> None:
                    nonlocal nok
                    b = Bump(ctx, cfg, tabs[tn], target, dry_run=dry, keep=("failed", "nedit", "writes", "wfail", "out"))
                    ctx.count("configurations")
                    for o in b.res:
                        _c01(ctx, b, o, dry)
                    nok += len(b.ok())

                ctx.guard(cfg, body)
    ctx.need(nok > 0 or bool(ctx.errors or ctx.truncated), "no successful run of bump-recipe in the model")
    return ("bump-recipe is interpreted abstractly for every combination of dry run, version bump and source kinds, with every patch, fetch, "
            "read and parse allowed to fail; writes, output and exit status of each outcome are compared.")


def _temp(t: Term) -> bool:
    return mentions(t, lambda x: x.op == "call" and str(x.args[0]).startswith("tempfile."))


def _c01(ctx: Ctx, b: Bump, o: Outcome, dry: bool) -> None:
    writes = [w for w in o.m.writes if not _temp(w[0])]
    fn = b.fi.name
    if dry and writes:
        ctx.report("dry-run", f"{fn}: writes {show(strip_path(writes[0][0]))[:40]}", b.fi.loc(), "a dry run writes a file", trace_lines(o.st))
    if o.codes == [0]:
        if o.m.failed:
            ctx.report("failure-status", f"{fn}: {o.m.failed[0][0]}", o.m.failed[0][1], "the run ends with status 0 although this failed",
                       trace_lines(o.st))
        if dry:
            if not any(has_render(a) for pr in o.m.out for a in pr):
                ctx.report("dry-run", f"{fn}: nothing printed", b.fi.loc(), "a successful dry run does not print the rendered recipe",
                           trace_lines(o.st))
            for pr in o.m.out:
                for a in pr:
                    if is_render(a) and kv(a.args[1][1]) != o.m.nedit:
                        ctx.report("dry-run", f"{fn}: stale output", b.fi.loc(), "prints the recipe before all edits were made",
                                   trace_lines(o.st))
            return
        mine = [w for w in writes if strip_path(w[0]) is b.path]
        if not mine:
            if not any(not _known_other(w[0], b.path) for w in writes):
                ctx.report("saved", f"{fn}: not written", b.fi.loc(), "the run succeeds without writing the recipe file", trace_lines(o.st))
            return
        c = mine[-1][1]
        if c is None:
            return
        for x in members(c):
            if x.op == "opened":
                ctx.report("saved", f"{fn}: truncated", b.fi.loc(), "the recipe file is opened for writing but nothing is written to it",
                           trace_lines(o.st))
            elif is_render(x):
                if kv(x.args[1][1]) != o.m.nedit:
                    ctx.report("saved", f"{fn}: stale content", b.fi.loc(), "the recipe is rendered before all edits were made",
                               trace_lines(o.st))
            elif not has_render(x) and x.op in ("K", "call", "param", "pure"):
                ctx.report("saved", f"{fn}: content", b.fi.loc(), f"writes `{show(x)[:60]}` instead of the rendered recipe", trace_lines(o.st))
        return
    if all(c not in (0, None) for c in o.codes) and writes and not o.m.wfail and not dry:
        ctx.report("failure-writes", f"{fn}: writes {show(strip_path(writes[0][0]))[:40]}", b.fi.loc(),
                   f"a run that {o.how} with a failure{' (' + o.m.failed[0][0] + ')' if o.m.failed else ''} has written the file",
                   trace_lines(o.st))


def _known_other(t: Term, path: Term) -> bool:
    """The path is certainly not the recipe path."""
    t = strip_path(t)
    return is_k(t) or (t.op == "param" and t is not path)


# ---------------------------------------------------------------------------------------------------------------- C02

BN = "/build/number"


@check("C02")
def c02(ctx: Ctx) -> str:
    ctx.rule("increment", "--build-num alone raises an integer build number by exactly one (0 when there is none)")
    ctx.rule("reset", "a version bump sets the build number to 0, also together with --build-num")
    ctx.rule("once", "the build number is set exactly once, and by an edit of the recipe that was accepted")
    ctx.rule("not-an-integer", "--build-num with a non-integer build number fails")
    ctx.rule("usage", "neither --build-num nor --target-version given: the command fails without touching anything")
    for bn in (True, False):
        for target in (True, False):
            cfg = f"{'--build-num ' if bn else ''}{'--target-version' if target else ''}".strip() or "no option"

            def body() -> None:
                b = Bump(ctx, cfg, [], target, build_num=bn, dry_run=False, keep=("nedit", "edits", "writes"))
                ctx.count("configurations")
                if not bn and not target:
                    for o in b.res:
                        if 0 in o.codes or o.m.edits or o.m.writes:
                            ctx.report("usage", b.fi.name, b.fi.loc(), f"without options the command {o.how} with status {o.codes}",
                                       trace_lines(o.st))
                    return
                ctx.need(bool(b.ok()), f"bump-recipe cannot succeed with {cfg}")
                for o in b.ok():
                    _c02(ctx, b, o, bn and not target, cfg)

            ctx.guard(cfg, body)
    return "Every option combination; on every successful path the edits of `/build/number` are compared with the documented value."


def _bn_value(v: Optional[Term]) -> bool:
    return v is not None and v.op == "pure" and v.args[0] == "recipe.value" and is_k(v.args[1][1]) and kv(v.args[1][1]) == BN


def _c02(ctx: Ctx, b: Bump, o: Outcome, inc: bool, cfg: str) -> None:
    ed = [e for e in o.m.edits if e[0] == "patch" and e[1] is not None and is_k(e[1]) and kv(e[1]) == BN]
    unk = [e for e in o.m.edits if e[0] == "patch" and (e[1] is None or not is_k(e[1]))]
    if not ed:
        if not unk:
            ctx.report("once", f"{cfg}", b.fi.loc(), "a successful run does not set the build number", trace_lines(o.st))
        return
    if len(ed) > 1 and len({e[3] for e in ed}) > 1:
        ctx.report("once", f"{cfg}: twice", b.fi.loc(), "sets the build number more than once, to different values", trace_lines(o.st))
    _, _, op, v, ctd, isint = ed[-1]
    ctx.count("build_number_edits")
    if op is not None and is_k(op) and kv(op) not in ("add", "replace"):
        ctx.report("once", f"{cfg}: {kv(op)}", b.fi.loc(), f"edits the build number with `{kv(op)}`", trace_lines(o.st))
    if v is None:
        return
    for x in members(v):
        if not inc:
            if x is not K(0) and (is_k(x) or mentions(x, _bn_value)):
                ctx.report("reset", cfg, b.fi.loc(), f"a version bump sets the build number to `{show(x)}`", trace_lines(o.st))
            continue
        plus1 = x.op == "bin" and x.args[0] == "Add" and any(_bn_value(q) for q in x.args[1:]) and K(1) in x.args[1:]
        if ctd is True and not plus1 and (is_k(x) or _bn_value(x) or (x.op == "bin" and any(_bn_value(q) for q in x.args[1:]))):
            ctx.report("increment", cfg, b.fi.loc(), f"the build number becomes `{show(x)}`", trace_lines(o.st))
        if ctd is False and is_k(x) and kv(x) != 0:
            ctx.report("increment", f"{cfg}: no build number", b.fi.loc(), f"a missing build number becomes `{show(x)}`", trace_lines(o.st))
        if plus1:
            if isint is False or isint == "unchecked":
                ctx.report("not-an-integer", cfg, b.fi.loc(), "a build number that is not an integer is incremented", trace_lines(o.st))


# ---------------------------------------------------------------------------------------------------------------- C03

VER = "/package/version"


def _sha_of(v: Term) -> Optional[Term]:
    return v.args[1][0] if v.op == "pure" and v.args[0] == "fetcher.sha256" else None


@check("C03")
def c03(ctx: Ctx) -> str:
    ctx.rule("paired", "the hash written for a source is the hash of the artifact fetched for that same source")
    ctx.rule("fetched", "a hash is only taken from a fetcher whose fetch succeeded")
    ctx.rule("all-sources", "after a successful version bump every archive source has its new hash")
    ctx.rule("archives-only", "no hash is written for a source that is not an archive")
    ctx.rule("version-first", "the sources are read from the recipe only after the new version was set")
    ctx.rule("version", "a successful version bump sets the version, to the requested one")
    ctx.rule("only-on-bump", "without a target version nothing is fetched and neither version nor hashes change")
    tabs = _tables(ctx)
    http = ctx.p.cls(HTTP)
    for tn, tab in tabs.items():
        def body(tn: str = tn, tab: list = tab) -> None:
            b = Bump(ctx, tn, tab, True, dry_run=False, parse_raises=False,
                     keep=("edits", "fetched", "table", "flags", "tried"))
            ctx.count("source_tables")
            ctx.need(bool(b.ok()), f"bump-recipe cannot succeed with {tn}")
            src = {path: mk("obj", ("fetcher", path, c.name)) for path, c in tab}
            for o in b.ok():
                _c03(ctx, b, o, tn, tab, src, http)

        ctx.guard(tn, body)

    def none() -> None:
        b = Bump(ctx, "no target version", tabs["one http source"], False, dry_run=False, build_num=True)
        for o in b.res:
            bad = [e for e in o.m.edits if e[1] is not None and is_k(e[1]) and (
                kv(e[1]) in ("version", VER) or str(kv(e[1])).endswith("sha256"))]
            if bad or o.m.tried:
                ctx.report("only-on-bump", "no target version", b.fi.loc(),
                           f"{'edits ' + str(kv(bad[0][1])) if bad else 'fetches a source'} although no target version was given", trace_lines(o.st))

    ctx.guard("no target version", none)
    return ("Version bump over six source tables with distinct symbolic fetchers, variables and hashes; every successful path's edits are "
            "matched against the table.")


def _c03(ctx: Ctx, b: Bump, o: Outcome, tn: str, tab: list, src: dict, http: Any) -> None:
    got: dict = {}
    unknown = False
    for kind, path, op, v, ctd, _ in o.m.edits:
        if v is None or path is None:
            unknown = True
            continue
        for x in members(v):
            f = _sha_of(x)
            if f is None:
                if kind == "patch" and is_k(path) and str(kv(path)).endswith("/sha256") and is_k(x):
                    ctx.report("paired", f"{tn}: {kv(path)}", b.fi.loc(), f"the hash becomes `{show(x)}`", trace_lines(o.st))
                elif mentions(x, lambda t: _sha_of(t) is not None) or x.op == "top":
                    unknown = True
                continue
            where = next((k for k, t in src.items() if t is f), None)
            if kind == "set_variable":
                if len(tab) != 1:
                    ctx.report("paired", f"{tn}: variable", b.fi.loc(), "one hash variable is set although there are several sources",
                               trace_lines(o.st))
                got[where] = f
                continue
            if not is_k(path):
                if path.op == "top" or path.op == "fmt":
                    unknown = True
                continue
            ctx.count("hash_edits")
            base = str(kv(path)).removesuffix("/sha256")
            if not str(kv(path)).endswith("/sha256"):
                ctx.report("paired", f"{tn}: {kv(path)}", b.fi.loc(), f"the hash of {where} is written to {kv(path)}", trace_lines(o.st))
            elif base != where:
                ctx.report("paired", f"{tn}: {kv(path)}", b.fi.loc(), f"{kv(path)} gets the hash of the artifact of {where}", trace_lines(o.st))
            else:
                got[where] = f
            if base in dict(tab) and dict(tab)[base] is not http:
                ctx.report("archives-only", f"{tn}: {base}", b.fi.loc(), f"a hash is written for {base}, which is not an archive",
                           trace_lines(o.st))
    for fl in o.m.flags:
        if fl[0] == "unfetched":
            ctx.report("fetched", tn, fl[1], "takes the hash of a fetcher whose fetch did not succeed", trace_lines(o.st))
    for path, c in tab:
        if c is http and path not in got and not unknown:
            ctx.report("all-sources", f"{tn}: {path}", b.fi.loc(), f"the run succeeds without a new hash for {path}", trace_lines(o.st))

    def is_ver(e: tuple) -> bool:
        return e[1] is not None and is_k(e[1]) and ((e[0] == "set_variable" and kv(e[1]) == "version") or (
            e[0] == "patch" and kv(e[1]) == VER))

    vs = [e for e in o.m.edits if is_ver(e)]
    if not vs:
        if not unknown:
            ctx.report("version", tn, b.fi.loc(), "the run succeeds without setting the version", trace_lines(o.st))
    else:
        for x in members(vs[-1][3]) if vs[-1][3] is not None else []:
            ctx.count("version_edits")
            if x is not b.target and (is_k(x) or x.op == "param" or not mentions(x, lambda t: t is b.target)) and x.op not in ("top",):
                ctx.report("version", f"{tn}: value", b.fi.loc(), f"the version becomes `{show(x)[:60]}`", trace_lines(o.st))
        for snap in o.m.table:
            if not any(is_ver(e) for e in snap) and o.m.tried:
                ctx.report("version-first", tn, b.fi.loc(), "the sources are read before the version is updated: the old artifact is hashed",
                           trace_lines(o.st))


# ---------------------------------------------------------------------------------------------------------------- C04


@check("C04")
def c04(ctx: Ctx) -> str:
    ctx.rule("bounded", "a source that cannot be fetched is tried a fixed, small number of times (at most ten), then the run ends with a failure")
    ctx.rule("retried", "a failing fetch is tried again before giving up")
    ctx.rule("recovers", "a fetch that succeeds on a later attempt is used")
    ctx.rule("backoff", "every retry waits, by a time that depends on the retry interval and grows with the attempt")
    ctx.rule("positive-interval", "a retry interval that is not positive is rejected")
    tabs = _tables(ctx)
    for tn in ("one http source", "two http sources"):
        def body(tn: str = tn) -> None:
            b = Bump(ctx, tn, tabs[tn], True, dry_run=False, parse_raises=False, build_num=False,
                     rounds=14, keep=("tries", "sleeps", "fetched"))
            fs = [mk("obj", ("fetcher", path, c.name)) for path, c in tabs[tn]]
            best, late = 0, False
            for o in b.res:
                for f in fs:
                    n = sum(1 for t in o.m.tries if t is f)
                    ctx.count("retry_paths")
                    if n >= 10 or len(o.m.tries) >= CAP and len(tabs[tn]) == 1:
                        ctx.report("bounded", tn, b.fi.loc(), f"one source is fetched at least {n} times", trace_lines(o.st))
                    if n and f not in o.m.fetched:
                        best = max(best, n)
                        if 0 in o.codes:
                            ctx.report("bounded", f"{tn}: status", b.fi.loc(), "the run ends with status 0 although a source was never fetched",
                                       trace_lines(o.st))
                    elif n > 1 and 0 in o.codes:
                        late = True
                if len(tabs[tn]) == 1 and len(o.m.tries) > 1:
                    need = len(o.m.tries) - 1
                    if len(o.m.sleeps) < need and len(o.m.sleeps) < CAP:
                        ctx.report("backoff", f"{tn}: no wait", b.fi.loc(), "tries again without waiting", trace_lines(o.st))
                    sl = [x for x in o.m.sleeps[:need] if x is not None]
                    for x in sl:
                        if is_k(x) or not mentions(x, lambda t: t.op == "param" and t.args[0] == "retry_interval"):
                            if x.op != "top":
                                ctx.report("backoff", f"{tn}: interval", b.fi.loc(), f"waits `{show(x)}`, not the retry interval", trace_lines(o.st))
                    if need >= 2 and len(sl) >= 2 and len(set(sl)) == 1 and sl[0].op == "param":
                        ctx.report("backoff", f"{tn}: constant", b.fi.loc(), "the wait does not grow with the number of failed attempts",
                                   trace_lines(o.st))
            if best == 1 and len(tabs[tn]) == 1:
                ctx.report("retried", tn, b.fi.loc(), "gives up after a single attempt")
            if not late and best and not b.I.cuts:
                ctx.report("recovers", tn, b.fi.loc(), "no run succeeds when a fetch fails first and then succeeds")

        ctx.guard(tn, body)
    return "Version bump with every fetch allowed to fail at each attempt; attempts, waits and exit status of every path are compared."
