"""Scenarios for F01-F04 and F06: the fetchers' source evaluated path by path against the modelled world of fslab.py.

Each scenario fixes the URL, the kind and content of the archive or repository, the requested target and (at most) one failing
library call; the source decides the rest. Every path is followed to its end and the end state is compared with the property.
"""

from __future__ import annotations

import itertools
import posixpath
from typing import Any, Callable, Optional

from ..fslab import FsHooks, GitState, PathObj, TmpDir, World, reachable, text_of
from ..model import ClassInfo
from ..peval import Bound, Exc, Inst, PEval, PyExc, Undec
from ..report import Ctx

HTTP = "fetcher.http_artifact_fetcher.HttpArtifactFetcher"
GIT = "fetcher.git_artifact_fetcher.GitArtifactFetcher"
NICE = ["pkg-1.0/setup.py", "pkg-1.0/src/a.py", "pkg-1.0/README"]
EVIL = ["pkg-1.0/setup.py", "../evil.py", "/etc/evil.py", "pkg-1.0/../../../home/u/evil.py"]
DATA = b"0123456789abcdefghijklmnopqrstuvwxyz"
URL = "https://example.org/dl/pkg-1.0.tar.gz"
URLS = [URL, "https://example.org/dl/pkg-1.0.zip?x=1&y=/a/b#frag", "https://example.org/dl/..%2F..%2Fhome%2Fu%2Fpkg.tgz",
        "https://example.org/dl/%2Fetc%2Fpkg.tgz", "https://example.org/dl/pkg-1.0.tar.gz/", "https://example.org/dl/a;v=1/b.tgz",
        "https://example.org/dl/p%20k.tgz", "https://example.org/x?file=/../../etc/pkg.tgz", "https://example.org/dl/pkg",
        "https://example.org/dl/.hidden.tgz"]
ODD_URLS = ["https://example.org/dl/..", "https://example.org/dl/.", "https://example.org/", "https://example.org", "https://example.org/a/..#../../etc",
            "https://example.org/dl/%2E%2E", "https://example.org/dl//"]
OS = ["builtins.PermissionError", "builtins.OSError"]
REQ = ["requests.exceptions.ConnectionError", "requests.exceptions.Timeout", "requests.exceptions.InvalidURL", "requests.exceptions.MissingSchema",
       "requests.exceptions.RequestException"]
READ = ["builtins.OSError", "builtins.EOFError", "zlib.error", "lzma.LZMAError"]
FAULTS: dict = {
    "requests.get": REQ,
    "requests.Response.iter_content": ["requests.exceptions.ChunkedEncodingError", "requests.exceptions.ConnectionError", "requests.exceptions.ContentDecodingError"],
    "builtins.open": OS, "io.IO.write": ["builtins.OSError"], "pathlib.Path.mkdir": OS, "os.rename": OS,
    "tarfile.is_tarfile": READ, "tarfile.open": ["tarfile.ReadError", "tarfile.CompressionError", "tarfile.HeaderError"] + READ,
    "tarfile.TarFile.extractall": ["tarfile.ReadError", "tarfile.OutsideDestinationError", "builtins.ValueError"] + READ,
    "tarfile.TarFile.extract": ["tarfile.ReadError", "tarfile.OutsideDestinationError", "builtins.ValueError"] + READ,
    "tarfile.TarFile.getmembers": ["tarfile.ReadError"] + READ,
    "zipfile.ZipFile": ["zipfile.BadZipFile", "builtins.OSError"],
    "zipfile.ZipFile.extractall": ["zipfile.BadZipFile", "builtins.RuntimeError", "builtins.NotImplementedError"] + READ,
    "zipfile.ZipFile.extract": ["zipfile.BadZipFile", "builtins.RuntimeError", "builtins.NotImplementedError"] + READ,
    "shutil.unpack_archive": ["shutil.ReadError", "builtins.ValueError", "builtins.OSError"],
    "git.Repo.clone_from": ["git.exc.GitCommandError", "git.exc.GitCommandNotFound", "builtins.OSError"],
    "git.Repo": ["git.exc.InvalidGitRepositoryError", "git.exc.NoSuchPathError", "builtins.OSError"],
    "git.Repo.git.checkout": ["git.exc.GitCommandError", "git.exc.GitCommandNotFound"],
    "git.Repo.git.fetch": ["git.exc.GitCommandError"], "git.Repo.git.reset": ["git.exc.GitCommandError"],
    "shutil.copytree": ["builtins.PermissionError", "shutil.Error"],
}
REMOTE, LOCAL = "https://example.org/r.git", "/home/u/repo"
TAG, REV, BRANCH = "v1.0", "0123456789abcdef0123456789abcdef01234567", "dev"


def repo_state(origin: str, local: bool, dirty: bool = False) -> GitState:
    heads = {"main": "c-main", BRANCH: "c-branch", "other": "c-other"}
    s = GitState(origin, "c-main", heads, {}, {TAG: "c-tag", "v0.9": "c-old"}, {REV: "c-rev", REV[:8]: "c-rev"}, dirty)
    if local:  # the user works on a branch of their own and has only seen dev on the server
        s.heads = {"main": "c-main", "work": "c-work", "other": "c-other"}
        s.remotes = {"main": "c-main", BRANCH: "c-branch"}
        s.commit = "c-work"
    s.default = "work" if local else "main"
    s.behind = {"main": {"c-tag", "c-old", "c-rev"}}
    return s


def world(fault: Optional[tuple] = None, kind: Optional[str] = "tar", names: Optional[list] = None, urls: Any = (URL,), dirty: bool = False,
          status: int = 200) -> World:
    w = World({u: DATA for u in urls}, {DATA: (kind, list(names if names is not None else NICE))} if kind else {}, {REMOTE: repo_state(REMOTE, False)}, fault, status)
    for d in (LOCAL, LOCAL + "/.git", LOCAL + "/src"):
        w.nodes[d] = type(w.nodes["/"])()
    w.nodes[LOCAL + "/.git"].git = repo_state(LOCAL, True, dirty)
    for f in ("f.py", "src/g.py", ".gitattributes"):
        w.nodes[f"{LOCAL}/{f}"] = type(w.nodes["/"])(b"code")
    w.nodes["/work/repo"] = type(w.nodes["/"])()
    return w


class Scen:
    """One evaluated scenario and what its end state shows."""

    def __init__(self, ctx: Ctx, out: Callable, cls: ClassInfo) -> None:
        self.ctx, self.p, self.out, self.cls = ctx, ctx.p, out, cls
        self.fe = ctx.p.cls("fetcher.exceptions.FetchError")
        self.req = ctx.p.cls("fetcher.exceptions.FetchRequiredError")
        self.loc = cls.find_method("fetch").loc()
        self.steps: list = []

    def isa(self, ev: PEval, v: Any, c: ClassInfo) -> bool:
        return isinstance(v, Inst) and c in [k for k in v.cls.mro() if isinstance(k, ClassInfo)]

    def run(self, label: str, mk: Callable, args: tuple, kw: dict, want: Callable, second: bool = False) -> None:
        """Construct, ask, fetch, ask. `want(ev, w, inst, answers)` judges a normal return."""
        ctx, h = self.ctx, FsHooks()
        h.max_paths = 24
        E = PEval(ctx.p, h)
        res: dict = {}

        def rep(prop: str, rule: str, msg: str) -> None:
            res.setdefault("rep", []).append((prop, rule, msg))

        def ask(ev: PEval, o: Inst, n: str) -> tuple:
            try:
                return "ret", ev.call(ev.getattr(o, n), [], {})
            except PyExc as e:
                return "exc", e.val

        def asks(ev: PEval, o: Inst) -> dict:
            return {n: ask(ev, o, n) for n in self.names}

        def closed(ev: PEval, o: Inst, when: str) -> None:
            for n, (k, v) in asks(ev, o).items():
                if k == "ret":
                    rep("F02", "scenario", f"{n}() answers {when}")
                elif not self.isa(ev, v, self.req):
                    rep("F02", "scenario", f"{n}() raises {name_of(v)} {when}, not FetchRequiredError")

        def body(ev: PEval) -> Any:
            res.clear()
            h.w = w = mk()
            o = ev.construct(self.cls, ["pkg", *args], dict(kw))
            tmp0 = self.drop(ev, w, o, [])
            if second:
                o2 = ev.construct(self.cls, ["pkg", *args], dict(kw))
                self.drop(ev, w, o, [o2])
            mine = [t for t in tmp0 if not any(t == x for x in [])]
            if not mine:
                rep("F06", "scenario", "a new fetcher owns no temporary directory")
            closed(ev, o, "before fetch() was called")
            w.armed = True
            try:
                ev.call(Bound(self.cls.find_method("fetch"), o), [], {})
                kind, val = "ret", None
            except PyExc as e:
                kind, val = "exc", e.val
            w.armed = False
            self.steps = list(w.steps)
            keep = [o2] if second else []
            self.drop(ev, w, o, keep)
            hit = w.hit
            what = f" after {w.steps[w.fault[0]]} raised {w.fault[1]}" if hit else ""
            for op, p in w.log:
                if not any(p == t or p.startswith(t + "/") for t in mine) and not (second and self._under(ev, p, o2, w)):
                    if not (op == "mkdir" and any(p == t.path for t in w.tmpdirs) or p in w.made):
                        rep("F01", "scenario", f"{op} {p}, outside the fetcher's temporary directory")
                    else:
                        rep("F06", "scenario", "the fetch works in a temporary directory the fetcher does not own from construction on")
            for t in mine:
                if w.nodes.get(t) is None:
                    rep("F06", "scenario", f"the temporary directory is gone once fetch() {'returned' if kind == 'ret' else 'failed'}{what}")
            if kind == "exc":
                if not self.isa(ev, val, self.fe):
                    rep("F03", "scenario", f"fetch() raises {name_of(val)}{what}")
                closed(ev, o, f"although fetch() failed{what}")
                if not hit:
                    want(ev, w, o, None, rep, mine)
            else:
                ans = asks(ev, o)
                for n, (k, v) in ans.items():
                    if k == "exc":
                        rep("F02", "scenario", f"{n}() raises {name_of(v)} after a successful fetch(){what}")
                want(ev, w, o, {n: v for n, (k, v) in ans.items() if k == "ret"}, rep, mine)
                if second:
                    closed(ev, o2, "before its own fetch(), after another fetcher's")
                    try:
                        ev.call(Bound(self.cls.find_method("fetch"), o2), [], {})
                        a2 = asks(ev, o2)
                    except PyExc:
                        a2 = {}
                    p1, p2 = (ans.get("get_path_to_source_code", (0, 0))[1], a2.get("get_path_to_source_code", (0, 1))[1])
                    if isinstance(p1, PathObj) and isinstance(p2, PathObj) and (p1 == p2 or p1.p in p2.p.parents or p2.p in p1.p.parents):
                        rep("F06", "scenario", f"two fetchers hand out {p1}")
            self.life(ev, w, o, keep, mine, rep)
            return list(res.get("rep", []))

        for r in E.explore(body):
            if r.kind == "undec" or r.asm:
                ctx.undec(f"{label}: {r.value if r.kind == 'undec' else '; '.join(r.why())[:120]}")
                continue
            ctx.count("scenario_paths")
            if r.kind == "exc":
                continue  # the constructor refuses the arguments
            for prop, rule, msg in r.value:
                self.out(prop, f"{self.cls.name}: {label}: {msg}", self.loc, msg)
        ctx.functions |= E.functions
        if E.truncated:
            ctx.undec(f"{label}: too many paths")

    def _under(self, ev: PEval, p: str, o2: Inst, w: World) -> bool:
        ids = reachable([o2])
        return any(p == t.path or p.startswith(t.path + "/") for t in w.tmpdirs if id(t) in ids)

    def roots(self, ev: PEval) -> list:
        return [e.vars for e in ev.modenv.values()] + list(ev.clsattrs.values())

    def drop(self, ev: PEval, w: World, o: Inst, more: list) -> list:
        """Temporary directories nothing refers to any more disappear; the fetcher's own are returned."""
        alive = reachable([o, *more, *self.roots(ev), w.finalizers, w.atexit])
        own = reachable([o])
        out = []
        for t in w.tmpdirs:
            if id(t) in own:
                out.append(t.path)
            elif id(t) not in alive and not t.cleaned:
                t.cleanup()
                w.log = [x for x in w.log if x[1] != t.path]
        return out + list(w.made)

    def life(self, ev: PEval, w: World, o: Inst, keep: list, mine: list, rep: Callable) -> None:
        """The fetcher goes away."""
        g = reachable(self.roots(ev) + [w.atexit] + [[f[1:]] for f in w.finalizers])
        if id(o) in g:
            rep("F06", "scenario", "the fetcher is kept alive by a global, so its directory is never removed")
            return
        m = o.cls.find_method("__del__")
        if m is not None:
            ev.call(Bound(m, o), [], {})
        for ob, f, a, k in w.finalizers:
            if ob is o:
                ev.call(f, a, k)
        other = reachable(keep)
        for t in w.tmpdirs:
            if id(t) in other or t.cleaned:
                continue
            if id(t) in g:
                if t.path in mine:
                    rep("F06", "scenario", "the temporary directory is kept by a global and outlives the fetcher")
            elif t.delete:
                t.cleanup()
        for p in mine:
            if w.nodes.get(p) is not None and not any(t.path == p and (id(t) in other or id(t) in g) for t in w.tmpdirs):
                rep("F06", "scenario", "the temporary directory is not removed with the fetcher")


def name_of(v: Any) -> str:
    return v.cls.name if isinstance(v, Inst) else v.name.rsplit(".", 1)[-1] if isinstance(v, Exc) else repr(v)


def below(w: World, p: Any, mine: list) -> Optional[str]:
    try:
        s = w.norm(p)
    except Undec:
        return None
    return s if any(s == t or s.startswith(t + "/") for t in mine) else None


def http(ctx: Ctx, out: Callable) -> None:
    c = ctx.p.cls(HTTP)
    s = Scen(ctx, out, c)
    s.names = ["get_path_to_source_code", "get_archive_sha256", "get_archive_type"]
    for n in s.names:
        ctx.need(c.find_method(n) is not None, f"{n} is gone")

    def judge(kind: Optional[str], names: list, must: bool) -> Callable:
        def want(ev: PEval, w: World, o: Inst, ans: Optional[dict], rep: Callable, mine: list) -> None:
            if ans is None:
                if must:
                    rep("F03", "scenario", "fetch() fails although nothing goes wrong")
                return
            if kind is None:
                rep("F03", "scenario", "fetch() returns normally for a download that is no known archive")
                return
            p = ans.get("get_path_to_source_code")
            if p is not None:
                q = below(w, p, mine)
                if q is None:
                    rep("F01", "scenario", f"the source path {p!r} is not below the fetcher's temporary directory")
                elif w.nodes.get(q) is None or not w.nodes[q].is_dir:
                    rep("F01", "scenario", "the source path handed out is not a directory that exists")
                else:
                    have = [k for k, x in w.nodes.items() if k.startswith(q + "/") and not x.is_dir]
                    for n in names:
                        if not any(k.endswith("/" + n.split("/", 1)[1]) for k in have):
                            rep("F03" if w.hit else "F01", "scenario", f"fetch() returned but {n} of the archive is not below the source path handed out")
                            break
            d = ans.get("get_archive_sha256")
            if isinstance(d, str) and d != f"sha256:{DATA.hex()}":
                rep("F03" if w.hit else "F01", "scenario", "fetch() returned but the hash is not the one of the downloaded archive")
        return want

    for u in URLS:
        for kind in ("tar", "zip"):
            s.run(f"{kind} from {u}", lambda u=u, kind=kind: world(None, kind, NICE, [u]), (u,), {}, judge(kind, NICE, True))
        s.run(f"tar with escaping members from {u}", lambda u=u: world(None, "tar", EVIL, [u]), (u,), {}, judge("tar", [], False))
        s.run(f"zip with escaping members from {u}", lambda u=u: world(None, "zip", EVIL, [u]), (u,), {}, judge("zip", [], False))
        s.run(f"no archive from {u}", lambda u=u: world(None, None, [], [u]), (u,), {}, judge(None, [], False))
    for u in ODD_URLS:
        for kind in ("tar", "zip"):
            s.run(f"{kind} from {u}", lambda u=u, kind=kind: world(None, kind, EVIL, [u]), (u,), {}, judge(kind, [], False))
    s.run("not found", lambda: world(None, "tar", NICE, []), (URL,), {}, judge(None, [], False))
    for kind in ("tar", "zip"):
        s.run(f"{kind}, one of two fetchers", lambda kind=kind: world(None, kind), (URL,), {}, judge(kind, NICE, True), second=True)
        s.run(f"{kind}", lambda kind=kind: world(None, kind), (URL,), {}, judge(kind, NICE, True))
        for i, op in enumerate(list(s.steps)):
            for exc in FAULTS.get(op, ["builtins.OSError"]):
                s.run(f"{kind}: {op} raises {exc}", lambda i=i, exc=exc, kind=kind: world((i, exc), kind), (URL,), {}, judge(kind, NICE, False))
    s.run("no archive", lambda: world(None, None), (URL,), {}, judge(None, [], False))
    for i, op in enumerate(list(s.steps)):
        for exc in FAULTS.get(op, ["builtins.OSError"]):
            s.run(f"no archive: {op} raises {exc}", lambda i=i, exc=exc: world((i, exc), None), (URL,), {}, judge(None, [], False))


def git(ctx: Ctx, out: Callable) -> None:
    c = ctx.p.cls(GIT)
    s = Scen(ctx, out, c)
    s.names = ["get_path_to_source_code"]

    def judge(url: str, commit: Optional[str], must: bool) -> Callable:
        def want(ev: PEval, w: World, o: Inst, ans: Optional[dict], rep: Callable, mine: list) -> None:
            if ans is None:
                if must:
                    rep("F04", "scenario", "fetch() fails although the repository has the requested target")
                return
            p = ans.get("get_path_to_source_code")
            if p is None:
                return
            q = below(w, p, mine)
            if q is None:
                rep("F01", "scenario", f"the source path {p!r} is not below the fetcher's temporary directory")
                return
            x = w.nodes.get(q + "/.git")
            if w.nodes.get(q) is None or x is None or x.git is None:
                rep("F03" if w.hit else "F04", "scenario", "fetch() returned but the path handed out is no work tree of the repository")
            elif x.git.origin.rstrip("/") != url:
                rep("F04", "scenario", f"the work tree is of {x.git.origin}")
            elif commit is None:
                rep("F03", "scenario", "fetch() returns normally although the requested target does not exist")
            elif x.git.commit != commit:
                rep("F03" if w.hit else "F04", "scenario", f"the work tree shows {x.git.commit}, not {commit}")
            elif not w.hit and (w.nodes.get(q + "/f.py") is None):
                rep("F04", "scenario", "the work tree is empty")
        return want

    def expect(kw: dict, local: bool) -> str:
        if kw.get("tag"):
            return "c-tag"
        if kw.get("rev"):
            return "c-rev"
        if kw.get("branch"):
            return "c-branch"
        return "c-work" if local else "c-main"

    allkw = {"tag": TAG, "rev": REV, "branch": BRANCH}
    for sel in itertools.product((0, 1), repeat=3):
        kw = {k: v for (k, v), b in zip(allkw.items(), sel) if b}
        lab = "+".join(kw) or "no target"
        for url, local in ((REMOTE, False), (LOCAL, True)):
            exp = expect(kw, local)
            s.run(f"{lab} of {url}", world, (url,), kw, judge(url, exp, True))
            for i, op in enumerate(list(s.steps)):
                for exc in FAULTS.get(op, ["builtins.OSError"]):
                    s.run(f"{lab} of {url}: {op} raises {exc}", lambda i=i, exc=exc: world((i, exc)), (url,), kw, judge(url, exp, False))
        if kw:
            s.run(f"{lab} of {LOCAL} with local changes", lambda: world(dirty=True), (LOCAL,), kw, judge(LOCAL, expect(kw, True), True))
            s.run(f"short and missing {lab}", world, (REMOTE,), {k: "nowhere" for k in kw}, judge(REMOTE, None, False))
            s.run(f"missing {lab} of {LOCAL}", world, (LOCAL,), {k: "nowhere" for k in kw}, judge(LOCAL, None, False))
    for u in (REMOTE, LOCAL):
        s.run(f"{u}, one of two fetchers", world, (u,), {"tag": TAG}, judge(u, "c-tag", True), second=True)
        s.run(f"older tag of {u}", world, (u,), {"tag": "v0.9"}, judge(u, "c-old", True))
        s.run(f"other branch of {u}", world, (u,), {"branch": "other"}, judge(u, "c-other", True))
        s.run(f"abbreviated revision of {u}", world, (u,), {"rev": REV[:8]}, judge(u, "c-rev", True))
    s.run(f"{LOCAL}/ with a slash", world, (LOCAL + "/",), {"tag": TAG}, judge(LOCAL, "c-tag", True))
    for u in ("https://example.org/missing.git", "/home/u/missing", "/work/repo", "git@example.org:r.git"):
        s.run(f"{u}, which is no repository", world, (u,), {"tag": TAG}, judge(u, None, False))


def scenarios(ctx: Ctx, prop: str) -> None:
    ctx.rule("scenario", "evaluated on every scenario, the fetchers end in a state the property allows")

    def out(pr: str, key: str, loc: Any, msg: str) -> None:
        if pr == prop:
            ctx.report("scenario", key, loc, msg)

    ctx.guard("http scenarios", lambda: http(ctx, out))
    ctx.guard("git scenarios", lambda: git(ctx, out))
