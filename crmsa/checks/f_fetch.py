"""F01-F06: the artifact fetchers."""

from __future__ import annotations

import ast
from typing import Any, Optional

from ..interp import Interp
from ..model import AnalysisBroken, ClassInfo, FuncInfo
from ..report import Ctx, check
from ..values import K, NONE, Rec, State, T_STR, Term, EMPTY, ct, is_k, kv, members, mk, show
from .f_scen import scenarios
from ._common import (CRMHooks, RAISES, arg, exc_cls, finish, is_sub, mentions, open_mode, strip_path, trace_lines,
                      write_target, WRITE_OPENERS)

BASE = "fetcher.base_artifact_fetcher.BaseArtifactFetcher"


def concrete(ctx: Ctx) -> list:
    base = ctx.p.cls(BASE)
    out = []
    for c in ctx.p.subclasses(base):
        f = c.find_method("fetch")
        if f is not None and not f.is_abstract():
            out.append(c)
    ctx.need(len(out) >= 2, "fewer than two concrete fetcher classes")
    return out


class Run:
    """A fetcher constructed on symbolic arguments, then fetched."""

    def __init__(self, ctx: Ctx, c: ClassInfo, args: Optional[dict] = None, facts: Any = None, on: Any = None) -> None:
        self.c = c
        self.events: list = []  # (event, state before it) on every path

        def collect(st: State, ev: Any, I: Interp) -> None:
            self.events.append((ev, st.fork()))
            if on is not None:
                on(st, ev, I)

        self.h = CRMHooks(on=collect)
        self.I = Interp(ctx.p, self.h)
        self.fetch = c.find_method("fetch")
        init = c.find_method("__init__")
        st = State()
        self.self = self.I.new_inst(c, st, ("self",))
        a = self.I.entry_args(init)
        if args:
            a.update(args)
        if facts:
            facts(st)
        self.args = a
        self.inits = self.I.run(init, a, st, self.self)
        self.made = [s for k, s, v in self.inits if k == "ret"]
        self.fetched: list = []
        self.failed: list = []
        for s in self.made:
            for k, s2, v in self.I.run(self.fetch, {}, s.fork(), self.self):
                (self.fetched if k == "ret" else self.failed).append((s2, v))


def accessors(c: ClassInfo, base: ClassInfo) -> list:
    """Public methods that hand out something of the fetched artifact."""
    out = {}
    for k in c.mro():
        if not isinstance(k, ClassInfo):
            continue
        for n, f in k.methods.items():
            if n.startswith("_") or n == "fetch" or f.kind not in ("method", "property"):
                continue
            r = getattr(f.node, "returns", None)
            if r is not None and not (isinstance(r, ast.Constant) and r.value is None) and n not in out:
                out[n] = c.find_method(n)
    return [f for f in out.values() if f is not None and not f.is_abstract()]


@check("F02")
def f02(ctx: Ctx) -> str:
    p = ctx.p
    base = p.cls(BASE)
    need = p.cls("fetcher.exceptions.FetchRequiredError")
    ctx.rule("guarded", "every accessor of fetched content raises FetchRequiredError on every path of a fetcher whose fetch never succeeded")
    ctx.rule("failed-fetch", "a fetch that raised leaves the accessors raising FetchRequiredError")
    ctx.rule("usable", "after a fetch that returned, no accessor raises FetchRequiredError")
    for c in concrete(ctx):
        r = Run(ctx, c)
        acc = accessors(c, base)
        ctx.need(any(f.name == "get_path_to_source_code" for f in acc), f"{c.name} has no get_path_to_source_code")
        for f in acc:
            ctx.functions.add(f.qual)
            for s in r.made:
                _expect_raise(ctx, r, f, s, need, "guarded", "on a fetcher that was never fetched")
            for s, v in r.failed:
                _expect_raise(ctx, r, f, s, need, "failed-fetch", f"after fetch() failed with {r.I.exc_name(members(v)[0])}")
            for s, _ in r.fetched:
                res = r.I.run(f, {}, s.fork(), r.self)
                ctx.count("accessor_runs")
                bad = [x for x in res if x[0] == "exc" and any(is_sub(r.I, m, need) for m in members(x[2]))]
                if bad and len(bad) == len(res):
                    ctx.report("usable", f"{c.name}.{f.name}", f.loc(), "raises FetchRequiredError although fetch() returned",
                               trace_lines(bad[0][1]))
        ctx.need(bool(r.fetched), f"{c.name}.fetch has no successful path")
        finish(ctx, r.I, c.name)
    scenarios(ctx, "F02")
    return ("Typestate over every concrete fetcher class: constructor, then fetch (success and every modelled failure of every "
            "library call), then every public accessor, on symbolic arguments.")


def _expect_raise(ctx, r, f, s, need, rule, when) -> None:
    res = r.I.run(f, {}, s.fork(), r.self)
    ctx.count("accessor_runs")
    for k, s2, v in res:
        if k == "ret":
            ctx.report(rule, f"{r.c.name}.{f.name}", f.loc(), f"returns `{show(v)}` {when}", trace_lines(s2))
        else:
            for m in members(v):
                if is_sub(r.I, m, need) is False:
                    ctx.report(rule, f"{r.c.name}.{f.name}", f.loc(), f"raises {r.I.exc_name(m)} {when}", trace_lines(s2))


@check("F03")
def f03(ctx: Ctx) -> str:
    p = ctx.p
    fe = p.cls("fetcher.exceptions.FetchError")
    ctx.rule("only-fetch-error", "no exception other than FetchError leaves fetch()")
    ctx.rule("no-swallow", "a library failure during fetch() never ends in a normal return")
    for c in concrete(ctx):
        def on(st: State, e: Any, I: Interp) -> None:
            if e.kind == "exc" and e.name in ESSENTIAL:
                st.mon = (e.name, e.loc())
            elif e.kind == "ret" and st.mon and st.mon[0] == e.name:
                st.mon = None  # the same call succeeded later

        r = Run(ctx, c, on=on)
        ctx.need(bool(r.failed), f"{c.name}.fetch has no failing path in the model")
        for s, v in r.failed:
            for m in members(v):
                ctx.count("failure_outcomes")
                ok = is_sub(r.I, m, fe)
                if ok is False:
                    src = [e for e in s.events() if e.kind == "exc"]
                    at = src[-1] if src else None
                    ctx.report("only-fetch-error", f"{c.name}.fetch: {at.name if at else '?'} raising {r.I.exc_name(m)}",
                               at.loc() if at else r.fetch.loc(), f"{r.I.exc_name(m)} escapes fetch()", trace_lines(s))
        for s, v in r.fetched:
            ctx.count("success_outcomes")
            if s.mon:
                ctx.report("no-swallow", f"{c.name}.fetch: {s.mon[0]}", s.mon[1],
                           f"fetch() returns normally although {s.mon[0]} failed", trace_lines(s))
        finish(ctx, r.I, c.name)
    _retry_independent(ctx)
    scenarios(ctx, "F03")
    return ("Every library call reachable from fetch() of every concrete fetcher may raise each exception of the model table; "
            "what leaves fetch() is compared with the documented error class.")


ESSENTIAL = {"requests.get", "requests.Response.iter_content", "tarfile.open", "tarfile.TarFile.extractall", "zipfile.ZipFile",
             "zipfile.ZipFile.extractall", "git.Repo.clone_from", "git.Repo.git.checkout", "shutil.copytree", "builtins.open",
             "pathlib.Path.write_bytes", "io.IO.write", "git.Repo", "shutil.unpack_archive"}


def _retry_independent(ctx: Ctx) -> None:
    fe = ctx.p.cls("fetcher.exceptions.FetchError")
    top = ctx.p.cls("fetcher.exceptions.FetcherException")
    ctx.rule("error-family", "every error of this module derives from the documented base, and FetchError is distinct from FetchRequiredError and FetchUnsupportedError")
    for n in ("FetchRequiredError", "FetchUnsupportedError", "FetchError"):
        c = ctx.p.cls(f"fetcher.exceptions.{n}")
        ctx.count("error_classes")
        if not c.issub(top):
            ctx.report("error-family", n, f"{c.mod.rel}:{c.node.lineno}", f"{n} does not derive from {top.name}")
        if c is not fe and c.issub(fe):
            ctx.report("error-family", n, f"{c.mod.rel}:{c.node.lineno}", f"{n} derives from FetchError")


# ---------------------------------------------------------------------------------------------------------------- F01


def temp_root(t: Term) -> bool:
    """tempfile.TemporaryDirectory(...).name / mkdtemp(...) """
    t = strip_path(t)
    if t.op == "attr" and t.args[1] == "name" and isinstance(t.args[0], Term):
        t = t.args[0]
        return t.op == "call" and t.args[0] == "tempfile.TemporaryDirectory"
    return t.op == "call" and t.args[0] == "tempfile.mkdtemp"


DECODERS = {"urllib.parse.unquote", "urllib.parse.unquote_plus", "urllib.parse.unquote_to_bytes", "html.unescape",
            "requests.utils.unquote", "codecs.decode"}


def comp_safe(t: Term) -> Optional[bool]:
    """Whether a path component cannot climb out of its directory. None: unknown."""
    if is_k(t):
        s = str(kv(t))
        return not s.startswith("/") and ".." not in s.split("/") and ".." not in s.split("\\")
    if t.op == "phi":
        rs = [comp_safe(m) for m in members(t)]
        return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
    if t.op == "attr" and t.args[1] in ("name", "stem", "suffix"):
        return True
    if t.op == "pure":
        f = t.args[0]
        if f in ("os.path.basename", "posixpath.basename", "ntpath.basename", ".hex", "uuid.uuid4"):
            return True
        if f == "builtins.str" and t.args[1]:
            a = t.args[1][0]
            if a.typ is not None and a.typ[:2] == ("x", "builtins.int"):
                return True
            return comp_safe(a)
        if f in (".lower", ".upper", ".strip", ".rstrip", ".lstrip", ".removeprefix", ".removesuffix"):
            return comp_safe(t.args[1][0])
        if f == ".replace" and len(t.args[1]) == 3:
            _, a, b = t.args[1]
            if is_k(a) and kv(a) == "/" and is_k(b) and "/" not in str(kv(b)):
                return True
            return comp_safe(t.args[1][0])
        if f in ("pathlib.Path", "pathlib.PurePath"):
            return comp_safe(t.args[1][0]) if len(t.args[1]) == 1 else None
        if f in DECODERS and t.args[1] and not is_k(t.args[1][0]):
            return False  # decoding can produce a separator out of a name that had none
        return None
    if t.op == "call" and str(t.args[0]) in DECODERS:
        return False
    if t.op == "fmt":
        rs = [True if is_k(x) and "/" not in str(kv(x)) else comp_safe(x) for x in t.args[0]]
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if t.op in ("param", "item", "elem"):
        return False  # raw caller / archive / recipe text
    if t.op == "attr" and t.args[1] in ("path", "filename", "netloc", "query"):
        return False  # whole URL path / archive member name
    if t.op == "call" and str(t.args[0]).startswith(("requests.", "zipfile.", "tarfile.")):
        return False
    return None


def confined(t: Term) -> Optional[bool]:
    """True: inside the fetcher's temporary directory; False: definitely not confined; None: unknown."""
    t = strip_path(t)
    if t.op == "phi":
        rs = [confined(m) for m in members(t)]
        return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
    if temp_root(t):
        return True
    if t.op == "path" or (t.op == "pure" and t.args[0] in (".joinpath", "os.path.join", "posixpath.join")) or (
            t.op == "pure" and t.args[0] in ("pathlib.Path",) and len(t.args[1]) > 1):
        parts = list(t.args) if t.op == "path" else list(t.args[1])
        if parts and isinstance(parts[0], tuple):
            parts = list(parts[0]) + parts[1:]
        r = confined(parts[0])
        if r is not True:
            return r
        rs = [comp_safe(x) for x in parts[1:]]
        return False if any(x is False for x in rs) else None if any(x is None for x in rs) else True
    if t.op == "pure" and t.args[0] in (".with_name", ".with_suffix", ".with_stem"):
        r = confined(t.args[1][0])
        return r if r is not True else comp_safe(t.args[1][1])
    if t.op == "attr" and t.args[1] == "parent":
        r = confined(t.args[0])
        return None if r else r
    if t.op == "fmt":
        return confined(mk("path", *t.args[0])) if len(t.args[0]) > 1 and temp_root(t.args[0][0]) else None
    if t.op in ("K", "param"):
        return False
    if t.op == "pure" and t.args[0] in ("os.path.basename", "pathlib.Path"):
        a = [x for x in t.args[1]]
        return False if a and not any(mentions(x, temp_root) for x in a) else None
    if t.op == "attr" and not mentions(t, temp_root):
        return False
    if t.op == "call" and t.args[0] in ("os.getcwd", "pathlib.Path.cwd", "pathlib.Path.home", "tempfile.gettempdir"):
        return False
    return None


def data_filter(t: Optional[Term]) -> Optional[bool]:
    if t is None:
        return False
    if t.op == "phi":
        rs = [data_filter(m) for m in members(t)]
        return False if False in rs else None if None in rs else True
    if is_k(t):
        return kv(t) == "data"
    if t.op == "ext":
        return t.args[0] == "tarfile.data_filter"
    return None


@check("F01")
def f01(ctx: Ctx) -> str:
    ctx.rule("confined", "every file a fetcher creates, downloads or extracts has a path built from its own fresh temporary directory "
                         "and single file-name components")
    ctx.rule("tar-filter", "every tar extraction passes the `data` filter")
    ctx.rule("helper", "a fetcher starts no external extraction tool")
    for c in concrete(ctx):
        r = Run(ctx, c)
        seen: set = set()
        nw = 0
        for e, s in r.events:
            if True:
                if e.kind != "call":
                    continue
                key = (e.loc(), e.name, e.args, tuple(e.kwargs.items()))
                if key in seen:
                    continue
                seen.add(key)
                where = e.fi.short if e.fi else "?"
                tgt = write_target(e)
                if e.name in ("git.Repo.clone_from", "git.Repo.clone"):
                    tgt = arg(e, 1 if e.name.endswith("from") else 0, "to_path")
                elif e.name in ("tarfile.TarFile.extractall", "zipfile.ZipFile.extractall"):
                    tgt = arg(e, 0, "path") or K(".")
                elif e.name in ("tarfile.TarFile.extract", "zipfile.ZipFile.extract"):
                    tgt = arg(e, 1, "path") or K(".")
                elif e.name == "urllib.request.urlretrieve":
                    tgt = arg(e, 1, "filename")
                if e.name in ("tarfile.TarFile.extractall", "tarfile.TarFile.extract"):
                    i = 3 if e.name.endswith("all") else 4
                    f = e.kwargs.get("filter")
                    if f is None:
                        fs = [x.args[0] for x in s.events() if x.kind == "store" and x.name == "extraction_filter"]
                        f = fs[-1] if fs else None
                    d = data_filter(f)
                    ctx.count("tar_extractions")
                    if d is False:
                        ctx.report("tar-filter", f"{where}: {e.name}", e.loc(),
                                   "extracts a tar archive without the `data` filter: members can escape the directory", trace_lines(s))
                    elif d is None:
                        ctx.undec(f"{e.loc()} tar filter not resolved")
                if e.name == "shutil.unpack_archive":
                    d = data_filter(e.kwargs.get("filter"))
                    if d is False:
                        ctx.report("tar-filter", f"{where}: {e.name}", e.loc(), "unpacks an archive without the `data` filter",
                                   trace_lines(s))
                if e.name.startswith("subprocess.") or e.name in ("os.system", "os.popen"):
                    ctx.report("helper", f"{where}: {e.name}", e.loc(), "runs an external program on fetched content", trace_lines(s))
                if tgt is None:
                    continue
                nw += 1
                ctx.sites.add(e.loc())
                ok = confined(tgt)
                if ok is False:
                    ctx.report("confined", f"{where}: {e.name}", e.loc(),
                               f"writes to `{show(tgt)}`, which is not confined to the fetcher's temporary directory", trace_lines(s))
                elif ok is None:
                    ctx.undec(f"{e.loc()} {e.name} target {show(tgt)[:80]}")
        ctx.count("write_sites", nw)
        ctx.need(nw >= 1, f"{c.name}: no write found")
        ctx.need(bool(r.fetched), f"{c.name}.fetch has no successful path")
        # what is handed out lies in the same directory
        acc = r.c.find_method("get_path_to_source_code")
        for s, _ in r.fetched:
            for k, s2, v in r.I.run(acc, {}, s.fork(), r.self):
                if k == "ret":
                    ok = confined(v)
                    ctx.count("returned_paths")
                    if ok is False:
                        ctx.report("confined", f"{c.name}.{acc.name}", acc.loc(), f"hands out `{show(v)}`, outside the temporary directory")
                    _same_dir(ctx, c, s, v, acc)
        finish(ctx, r.I, c.name)
    scenarios(ctx, "F01")
    return ("Every write, download, clone and extraction call on every path of every concrete fetcher: the provenance term of its target "
            "is checked to be the instance's temporary directory joined with single-component names; tar extraction must name the data filter.")


def _same_dir(ctx: Ctx, c: ClassInfo, s: State, v: Term, acc: FuncInfo) -> None:
    """The directory handed out is the one the sources were put into."""
    ctx.rule("same-dir", "the source directory handed out is the one the sources were extracted or cloned into")
    dst = []
    for e in s.events():
        if e.kind != "call":
            continue
        if e.name in ("tarfile.TarFile.extractall", "zipfile.ZipFile.extractall"):
            dst.append(arg(e, 0, "path"))
        elif e.name in ("git.Repo.clone_from", "shutil.copytree"):
            dst.append(arg(e, 1, "to_path" if e.name.startswith("git") else "dst"))
    dst = [strip_path(d) for d in dst if d is not None]
    if not dst or v.op in ("top", "phi") or any(d.op in ("top", "phi") for d in dst):
        return
    if strip_path(v) not in dst and confined(v) is True and all(confined(d) is True for d in dst):
        ctx.report("same-dir", f"{c.name}.{acc.name}", acc.loc(), f"hands out `{show(v)}` but the sources are in `{show(dst[-1])}`",
                   trace_lines(s))


# ---------------------------------------------------------------------------------------------------------------- F04


@check("F04")
def f04(ctx: Ctx) -> str:
    p = ctx.p
    c = p.cls("fetcher.git_artifact_fetcher.GitArtifactFetcher")
    ctx.rule("target", "after a successful fetch the work tree was checked out at the tag, else the revision, else the branch that was given")
    ctx.rule("no-target", "without tag, revision and branch the clone is left at the remote's default")
    ctx.rule("url", "what is cloned is the given URL")
    order = ("tag", "rev", "branch")
    init = c.find_method("__init__")
    names = [a.arg for a in init.node.args.args + init.node.args.kwonlyargs]
    ctx.need(all(n in names for n in order + ("url",)), "constructor parameters of the git fetcher changed")
    for bits in range(8):
        given = [n for i, n in enumerate(order) if bits >> i & 1]
        vals = {n: (mk("param", n, typ=T_STR) if n in given else NONE) for n in order}

        def facts(st: State, vals=vals, given=given) -> None:
            for n in given:
                v = vals[n]
                st.facts = st.facts.set(("none", v), False).set(("t", v), True).set(("eq", v, K("")), False)

        symbols = set(vals.values()) - {NONE}

        def on(st: State, e: Any, I: Interp, symbols=symbols) -> None:
            if e.kind != "call" or not e.name.startswith("git."):
                return
            applied, cloned = st.mon or ((), None)
            if e.name == "git.Repo.clone_from":
                cloned = arg(e, 0, "url")
                b = e.kwargs.get("branch")
                applied = (b,) if b is not None and b is not NONE else ()
            elif e.name in ("git.Repo.git.checkout", "git.Repo.git.switch", "git.Repo.git.reset"):
                applied = tuple(a for a in e.args if not (is_k(a) and str(kv(a)).startswith("-")))[:1]
            elif any(mentions(a, lambda t: t in symbols) for a in e.args):
                applied = tuple(e.args)
            st.mon = (applied, cloned)

        r = Run(ctx, c, vals, facts, on)
        ctx.need(bool(r.fetched), "git fetch has no successful path")
        want = vals[given[0]] if given else None
        cfg = "+".join(given) or "none"
        for s, _ in r.fetched:
            ctx.count("configurations_paths")
            applied, cloned = s.mon or ((), None)
            if want is None:
                if applied and all(a is NONE or a.op == "param" for a in applied):
                    ctx.report("no-target", "checkout", r.fetch.loc(), f"checks out `{show(applied[0])}` although nothing was given",
                               trace_lines(s))
            elif not applied:
                ctx.report("target", f"given {cfg}", r.fetch.loc(), f"nothing is checked out although {cfg} was given", trace_lines(s))
            elif all(a in (list(vals.values())) for a in applied) and want not in applied:
                ctx.report("target", f"given {cfg}", r.fetch.loc(),
                           f"checks out `{show(applied[0])}` although `{given[0]}` takes precedence", trace_lines(s))
            if cloned is not None and strip_path(cloned) in list(vals.values()):
                ctx.report("url", "clone", r.fetch.loc(), f"clones `{show(cloned)}`", trace_lines(s))
            if cloned is not None and strip_path(cloned).op == "param" and strip_path(cloned).args[0] != "url":
                ctx.report("url", "clone", r.fetch.loc(), f"clones `{show(cloned)}`", trace_lines(s))
        finish(ctx, r.I, cfg)
    ctx.rule("copy-into-existing", "a local repository is copied so that the existing temporary directory does not make the copy fail")
    r = Run(ctx, c)
    for e, s in r.events:
        if True:
            if e.kind == "call" and e.name == "shutil.copytree":
                ctx.count("copytree_sites")
                d = arg(e, 1, "dst")
                ok = e.kwargs.get("dirs_exist_ok")
                if d is not None and temp_root(d) and (ok is None or (is_k(ok) and not kv(ok))):
                    ctx.report("copy-into-existing", f"{e.fi.short}: {e.name}", e.loc(),
                               "copies a tree onto the temporary directory, which already exists: every local fetch fails", trace_lines(s))
    scenarios(ctx, "F04")
    return "All eight presence combinations of tag, revision and branch; on every successful path the last checkout target is compared with the precedence."


# ---------------------------------------------------------------------------------------------------------------- F05


@check("F05")
def f05(ctx: Ctx) -> str:
    p = ctx.p
    fn = p.fn("fetcher.artifact_fetcher.from_recipe")
    http = p.cls("fetcher.http_artifact_fetcher.HttpArtifactFetcher")
    git = p.cls("fetcher.git_artifact_fetcher.GitArtifactFetcher")
    unsup = p.cls("fetcher.exceptions.FetchUnsupportedError")
    sv = p.cls("parser.enums.SchemaVersion")
    ctx.rule("one-per-source", "the table has exactly one fetcher per supported source, under that source's recipe path")
    ctx.rule("right-kind", "a source with a URL gets an HTTP fetcher for it, one with a git URL a git fetcher with its tag, revision and branch")
    ctx.rule("unsupported", "an unsupported source raises FetchUnsupportedError, or is skipped when the caller asked for that")
    ctx.rule("substituted", "the source section is read with recipe variables substituted")
    keys = {"V0": ("git_url", "git_branch", "git_tag", "git_rev"), "V1": ("git", "branch", "tag", "rev")}
    ctx.need(set(sv.enum_members()) == {"V0", "V1"}, "schema versions changed")
    params = [a.arg for a in fn.node.args.args]
    ctx.need(len(params) == 2, "from_recipe's signature changed")
    n = 0
    for ver in ("V0", "V1"):
        for shape in ("one", "two", "three"):
            kinds = {"one": [("http",), ("git",), ("none",)],
                     "two": [("http", "git"), ("git", "http"), ("http", "none"), ("none", "git"), ("http", "http")],
                     "three": [("http", "none", "git"), ("list1",)]}[shape]
            for ks in kinds:
                for ign in (True, False):
                    n += 1
                    _f05_case(ctx, fn, params, ver, shape, ks, ign, keys[ver], http, git, unsup, sv)
    ctx.count("source_section_shapes", n)
    return ("Both schema versions x single/list source sections x source kinds x the ignore flag, with symbolic field values; the table "
            "returned on every path is compared with the sources.")


def _f05_case(ctx, fn, params, ver, shape, ks, ign, kn, http, git, unsup, sv) -> None:
    p = ctx.p
    st = State()
    srcs = []
    if ks == ("list1",):
        ks = ("http",)
        as_list = True
    else:
        as_list = shape != "one"
    for i, k in enumerate(ks):
        o = mk("obj", ("src", i), typ=("x", "builtins.dict", ()))
        f = EMPTY
        if k == "http":
            f = f.set(K("url"), _sym(st, f"url{i}")).set(K("sha256"), _sym(st, f"sha{i}"))
        elif k == "git":
            for nme in kn:
                f = f.set(K(nme), _sym(st, f"{nme}{i}"))
        else:
            f = f.set(K("path"), _sym(st, f"path{i}"))
        st.heap = st.heap.set(o, Rec("dict", None, f))
        srcs.append(o)
    if as_list:
        val = mk("obj", ("srclist",), typ=("x", "builtins.list", ()))
        st.heap = st.heap.set(val, Rec("list", None, elems=tuple(srcs)))
    else:
        val = srcs[0]
    calls: list = []

    class H(CRMHooks):
        def model(self, I, s, name, recv, args, kwargs, node, fr, X):
            last = name.rsplit(".", 1)[-1]
            if "RecipeReader" in name or name.startswith("?."):
                if last == "get_schema_version":
                    return [(s, mk("enum", sv, ver, typ=ct(sv)))]
                if last == "get_value":
                    a = dict(zip(("path", "default", "sub_vars"), args))
                    a.update(kwargs)
                    pv = a.get("path")
                    if pv is not None and is_k(pv) and kv(pv) == "/source":
                        calls.append((a, node))
                        return [(s, val)]
                    if pv is not None and is_k(pv) and str(kv(pv)).startswith("/source"):
                        calls.append((a, node))
                        return None
            return None

    h = H(opaque_mods=("parser.", "fetcher.http", "fetcher.git", "fetcher.base"), inline=("parser.enums",))
    I = Interp(p, h)
    recipe = mk("param", params[0], typ=ct(p.cls("parser.recipe_reader.RecipeReader")))
    res = I.run(fn, {params[0]: recipe, params[1]: K(ign)}, st)
    what = f"{ver} {'list of ' if as_list else ''}{'+'.join(ks)}{' (ignore unsupported)' if ign else ''}"
    want = {}
    for i, k in enumerate(ks):
        if k != "none":
            want[f"/source/{i}" if as_list else "/source"] = (k, i)
    bad = "none" in ks and not ign
    finish(ctx, I, what)
    for a, node in calls:
        sub = a.get("sub_vars")
        if sub is None or (is_k(sub) and not kv(sub)):
            ctx.report("substituted", "from_recipe", f"{fn.mod.rel}:{node.lineno}", "reads `/source` without substituting recipe variables")
    if not calls:
        ctx.undec(f"{what}: the source section is not read through get_value('/source')")
        return
    for kind, s, v in res:
        ctx.count("outcomes")
        if kind == "exc":
            if bad and all(is_sub(I, m, unsup) for m in members(v)):
                continue
            if any(is_sub(I, m, unsup) for m in members(v)) and not bad:
                ctx.report("unsupported", what, fn.loc(), "raises FetchUnsupportedError for sources that are supported or to be ignored",
                           trace_lines(s))
            elif bad:
                ctx.report("unsupported", what, fn.loc(), f"raises {I.exc_name(members(v)[0])} instead of FetchUnsupportedError", trace_lines(s))
            continue
        if bad:
            ctx.report("unsupported", what, fn.loc(), "returns a table although a source is unsupported", trace_lines(s))
            continue
        rec = s.heap.get(v) if v.op == "obj" else None
        if rec is None or rec.kind != "dict" or rec.summ is not None or not all(is_k(k) for k in rec.fields.d):
            ctx.undec(f"{what}: returned table not resolved: {show(v)}")
            continue
        got = {kv(k): x for k, x in rec.fields.items()}
        if set(got) != set(want):
            ctx.report("one-per-source", what, fn.loc(), f"table has paths {sorted(got)} for sources at {sorted(want)}", trace_lines(s))
            continue
        for path, (k, i) in want.items():
            f = got[path]
            exp = http if k == "http" else git
            c = f.args[0] if f.op == "call" else None
            if c is None:
                ctx.undec(f"{what}: fetcher at {path} is {show(f)}")
                continue
            if c != exp.qual:
                ctx.report("right-kind", what, fn.loc(), f"{path} gets `{c.rsplit('.', 1)[-1]}`", trace_lines(s))
                continue
            init = exp.find_method("__init__")
            pn = [a.arg for a in init.node.args.args][1:]
            vals = dict(zip(pn, f.args[1]))
            exp_vals = {"archive_url": f"url{i}"} if k == "http" else {
                "url": f"{kn[0]}{i}", "branch": f"{kn[1]}{i}", "tag": f"{kn[2]}{i}", "rev": f"{kn[3]}{i}"}
            for a, sym in exp_vals.items():
                if a not in vals:
                    ctx.undec(f"{exp.name} has no parameter {a}")
                    continue
                x = strip_path(vals[a])
                if x is NONE or (x.op == "param" and x.args[0] != sym):
                    ctx.report("right-kind", what, fn.loc(), f"{path}: fetcher's {a} is `{show(x)}`, not the source's own value",
                               trace_lines(s))


def _sym(st: State, name: str) -> Term:
    v = mk("param", name, typ=T_STR)
    st.facts = st.facts.set(("none", v), False).set(("t", v), True)
    return v


# ---------------------------------------------------------------------------------------------------------------- F06


@check("F06")
def f06(ctx: Ctx) -> str:
    ctx.rule("owned", "each fetcher keeps its own TemporaryDirectory object alive in its state from construction on")
    ctx.rule("removed", "the directory is one that disappears with the fetcher (a TemporaryDirectory with deletion on)")
    ctx.rule("not-early", "neither construction nor a successful fetch removes or replaces the directory")
    for c in concrete(ctx):
        def on(st: State, e: Any, I: Interp) -> None:
            if e.kind == "call" and e.name in ("tempfile.TemporaryDirectory.cleanup", "shutil.rmtree"):
                tgt = e.recv if e.name.endswith("cleanup") else (e.args[0] if e.args else None)
                if tgt is not None and (e.name.endswith("cleanup") or temp_root(tgt)):
                    st.mon = (e.loc(), e.name)
            elif e.kind == "with_exit" and e.recv is not None and e.recv.op == "call" and \
                    e.recv.args[0] == "tempfile.TemporaryDirectory" and any(
                        mentions(v, lambda t: t is e.recv) for rec in st.heap.d.values() if isinstance(rec, Rec) and rec.kind == "inst"
                        for v in rec.fields.d.values()):
                st.mon = (e.loc(), "with")
            elif st.mon and e.kind == "call" and (
                    e.name in ("pathlib.Path.mkdir", "os.makedirs", "os.mkdir") or (st.mon[1] == "shutil.rmtree" and e.name in (
                        "git.Repo.clone_from", "shutil.copytree"))):
                st.mon = None

        r = Run(ctx, c, on=on)
        ctx.need(bool(r.made), f"{c.name} cannot be constructed in the model")

        def held(s: State) -> list:
            rec = s.heap.get(r.self)
            return [v for v in (rec.fields.d.values() if rec else []) if v.op == "call" and v.args[0] == "tempfile.TemporaryDirectory"]

        for s in r.made:
            ctx.count("constructed_states")
            mks = [e for e in s.events() if e.kind == "call" and e.name in ("tempfile.TemporaryDirectory", "tempfile.mkdtemp")]
            for e in mks:
                d = e.kwargs.get("delete")
                if e.name == "tempfile.mkdtemp" or (d is not None and is_k(d) and not kv(d)):
                    fin = any(x.kind == "call" and x.name in ("atexit.register", "weakref.finalize") for x in s.events())
                    if not fin and c.find_method("__del__") is None:
                        ctx.report("removed", f"{c.name}", e.loc(), "the temporary directory is never removed", trace_lines(s))
            if mks and mks[-1].name == "tempfile.TemporaryDirectory" and not held(s):
                ctx.report("owned", f"{c.name}.__init__", mks[-1].loc(),
                           "the TemporaryDirectory object is not kept by the fetcher, so the directory is removed at once", trace_lines(s))
        for s, _ in r.fetched:
            ctx.count("fetched_states")
            if r.made and held(r.made[0]) and not held(s):
                ctx.report("owned", f"{c.name}.fetch", r.fetch.loc(), "a successful fetch drops the TemporaryDirectory object", trace_lines(s))
            new = held(s)
            old = held(r.made[0])
            if old and new and not set(old) & set(new):
                acc = [v for k, s2, v in r.I.run(c.find_method("get_path_to_source_code"), {}, s.fork(), r.self) if k == "ret"]
                for v in acc:
                    if any(mentions(v, lambda t, o=o: t is o) for o in old):
                        ctx.report("not-early", f"{c.name}.fetch", r.fetch.loc(),
                                   "fetch() replaces the temporary directory but hands out a path in the old one", trace_lines(s))
            if s.mon:
                ctx.report("not-early", f"{c.name}.fetch", s.mon[0], "the temporary directory is removed before fetch() returns", trace_lines(s))
        finish(ctx, r.I, c.name)
    # no other method removes it
    for c in concrete(ctx):
        for k in c.mro():
            if not isinstance(k, ClassInfo):
                continue
            for n, f in k.methods.items():
                if n in ("__del__", "__exit__", "close", "cleanup", "__init__", "fetch") or f.is_abstract():
                    continue
                ctx.functions.add(f.qual)
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cleanup" and \
                            isinstance(x.func.value, ast.Attribute) and not n.startswith("_"):
                        ctx.report("not-early", f"{k.name}.{n}", f"{k.mod.rel}:{x.lineno}", "removes the temporary directory")
    scenarios(ctx, "F06")
    return "Ownership of the temporary directory object through constructor and fetch of every concrete fetcher."
