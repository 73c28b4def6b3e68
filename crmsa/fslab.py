"""A modelled outside world for the partial evaluator: a file system, temporary directories, downloads, archives and git.

Nothing here touches the real system. Every library call the fetchers (or helpers they may grow) make is answered from the tables
below; a call that is not in a table makes the path undecided.
"""

from __future__ import annotations

import copy
import fnmatch
import posixpath
import urllib.parse
from pathlib import PurePosixPath
from typing import Any, Optional

from .exctypes import canon
from .model import ClassInfo, ExtRef
from .peval import Bound, Env, Exc, Fn, Foreign, Hooks, Inst, NT, Native, Partial, PEval, PyExc, Sym, Undec, sym

CWD = "/work"


def boom(name: str, *args: Any) -> PyExc:
    return PyExc(Exc(name, args))


class Node:
    def __init__(self, data: Optional[bytes] = None, git: Any = None) -> None:
        self.data, self.git = data, git  # data None: a directory

    @property
    def is_dir(self) -> bool:
        return self.data is None


class GitState:
    """A repository: the commits its names stand for and what the work tree shows."""

    def __init__(self, origin: str, head: str, heads: dict, remotes: dict, tags: dict, revs: dict, dirty: bool = False) -> None:
        self.origin, self.commit, self.heads, self.remotes, self.tags, self.revs = origin, head, heads, remotes, tags, revs
        self.dirty = dirty

    def resolve(self, name: str, dwim: bool) -> Optional[str]:
        n = name
        for pre, tab in (("refs/tags/", self.tags), ("tags/", self.tags), ("refs/heads/", self.heads), ("heads/", self.heads),
                         ("refs/remotes/origin/", self.remotes), ("remotes/origin/", self.remotes), ("origin/", self.remotes)):
            if n.startswith(pre):
                return tab.get(n[len(pre):])
        if n in ("HEAD", "@"):
            return self.commit
        for tab in (self.tags, self.heads, self.revs):
            if n in tab:
                return tab[n]
        if dwim and n in self.remotes:
            return self.remotes[n]
        return None


class World:
    def __init__(self, downloads: Optional[dict] = None, archives: Optional[dict] = None, repos: Optional[dict] = None,
                 fault: Optional[tuple] = None, status: int = 200) -> None:
        self.nodes: dict = {}
        for d in ("/", "/tmp", CWD, "/home", "/home/u", "/etc"):
            self.nodes[d] = Node()
        self.downloads, self.archives, self.repos = downloads or {}, archives or {}, repos or {}
        self.fault, self.status = fault, status
        self.log: list = []  # (operation, path) of everything created, changed or removed
        self.steps: list = []
        self.armed = False
        self.hit = False
        self.tmpdirs: list = []
        self.made: list = []  # directories from mkdtemp
        self.finalizers: list = []
        self.atexit: list = []
        self.n = 0

    # ---- faults

    def step(self, op: str) -> None:
        if not self.armed:
            return
        self.steps.append(op)
        if self.fault and len(self.steps) - 1 == self.fault[0]:
            self.hit = True
            raise boom(self.fault[1])

    # ---- file system

    def norm(self, p: Any) -> str:
        s = text_of(p)
        if "\0" in s:
            raise boom("builtins.ValueError", "embedded null byte")
        return posixpath.normpath(posixpath.join(CWD, s)) if not s.startswith("//") else posixpath.normpath("/" + s.lstrip("/"))

    def get(self, p: Any) -> Optional[Node]:
        return self.nodes.get(self.norm(p))

    def children(self, p: str) -> list:
        pre = p.rstrip("/") + "/"
        return sorted(k for k in self.nodes if k.startswith(pre) and "/" not in k[len(pre):] and k != "/")

    def touch(self, op: str, p: str) -> None:
        self.log.append((op, p))

    def mkdir(self, p: Any, parents: bool = False, exist_ok: bool = False) -> None:
        p = self.norm(p)
        x = self.nodes.get(p)
        if x is not None:
            if exist_ok and x.is_dir:
                return
            raise boom("builtins.FileExistsError")
        up = posixpath.dirname(p)
        if up not in self.nodes:
            if not parents:
                raise boom("builtins.FileNotFoundError")
            self.mkdir(up, True, True)
        if not self.nodes[up].is_dir:
            raise boom("builtins.NotADirectoryError")
        self.touch("mkdir", p)
        self.nodes[p] = Node()

    def put(self, p: Any, data: bytes, op: str = "write") -> str:
        p = self.norm(p)
        x = self.nodes.get(p)
        if x is not None and x.is_dir:
            raise boom("builtins.IsADirectoryError")
        up = self.nodes.get(posixpath.dirname(p))
        if up is None:
            raise boom("builtins.FileNotFoundError")
        if not up.is_dir:
            raise boom("builtins.NotADirectoryError")
        self.touch(op, p)
        self.nodes[p] = Node(data)
        return p

    def read(self, p: Any) -> bytes:
        x = self.get(p)
        if x is None:
            raise boom("builtins.FileNotFoundError")
        if x.is_dir:
            raise boom("builtins.IsADirectoryError")
        return x.data

    def remove(self, p: Any, tree: bool = False) -> None:
        p = self.norm(p)
        if p not in self.nodes:
            raise boom("builtins.FileNotFoundError")
        if not tree and self.nodes[p].is_dir and self.children(p):
            raise boom("builtins.OSError")
        self.touch("remove", p)
        for k in [k for k in self.nodes if k == p or k.startswith(p.rstrip("/") + "/")]:
            del self.nodes[k]

    def move(self, a: Any, b: Any) -> None:
        a, b = self.norm(a), self.norm(b)
        if a not in self.nodes or posixpath.dirname(b) not in self.nodes:
            raise boom("builtins.FileNotFoundError")
        self.touch("remove", a)
        self.touch("write", b)
        for k in sorted(k for k in self.nodes if k == a or k.startswith(a + "/")):
            self.nodes[b + k[len(a):]] = self.nodes.pop(k)

    def copytree(self, ev: PEval, src: Any, dst: Any, exist_ok: bool, ignore: Any) -> None:
        src, dst = self.norm(src), self.norm(dst)
        x = self.nodes.get(src)
        if x is None:
            raise boom("builtins.FileNotFoundError")
        if not x.is_dir:
            raise boom("builtins.NotADirectoryError")
        names = [posixpath.basename(c) for c in self.children(src)]
        skip: set = set()
        if ignore is not None:
            if isinstance(ignore, IgnorePatterns):
                skip = {n for n in names if any(fnmatch.fnmatch(n, q) for q in ignore.pats)}
            else:
                skip = set(ev.items_of(ev.call(ignore, [src, list(names)], {})))
        self.mkdir(dst, True, exist_ok)
        if dst not in self.nodes or not exist_ok and self.children(dst):
            raise boom("builtins.FileExistsError")
        for i, n in enumerate(names):
            if n in skip:
                continue
            if i == 1:
                self.step("shutil.copytree")
            a, b = f"{src}/{n}", f"{dst}/{n}"
            y = self.nodes[a]
            if y.is_dir:
                self.copytree(ev, a, b, exist_ok, ignore)
                self.nodes[b].git = copy.deepcopy(y.git)
            else:
                self.put(b, y.data)

    # ---- temporary directories

    def newdir(self, prefix: Any, suffix: Any, base: Any) -> str:
        self.n += 1
        pre = "tmp" if prefix is None else prefix
        if not isinstance(pre, str) or not isinstance(suffix or "", str):
            raise Undec("name of a temporary directory")
        p = posixpath.join(text_of(base) if base is not None else "/tmp", f"{pre}{self.n:08d}{suffix or ''}")
        self.mkdir(p)
        return self.norm(p)


def text_of(p: Any) -> str:
    if isinstance(p, PathObj):
        return str(p.p)
    if isinstance(p, str):
        return str.__str__(p)
    raise Undec("an unknown path")


def _no(v: Any) -> Any:
    if isinstance(v, Sym):
        raise Undec("an unknown argument")
    return v


class Lib(Foreign):
    def __init__(self, w: World) -> None:
        self.w = w


class PathObj(Foreign):
    isa = ("pathlib.Path", "pathlib.PosixPath", "pathlib.PurePath", "pathlib.PurePosixPath", "os.PathLike")

    def __init__(self, w: World, p: Any) -> None:
        self.w, self.p = w, PurePosixPath(p)

    def __eq__(self, o: object) -> bool:
        return isinstance(o, PathObj) and o.p == self.p

    def __hash__(self) -> int:
        return hash(self.p)

    def __repr__(self) -> str:
        return str(self.p)

    def mk(self, p: Any) -> "PathObj":
        return PathObj(self.w, p)

    def wrap(self, v: Any) -> Any:
        if isinstance(v, PurePosixPath):
            return self.mk(v)
        if isinstance(v, (tuple, list)) or type(v).__name__ == "_PathParents":
            return [self.wrap(x) for x in v]
        return v

    def attr(self, ev: PEval, n: str) -> Any:
        if n in ("name", "stem", "suffix", "suffixes", "parent", "parents", "parts", "anchor", "root", "drive"):
            r = self.wrap(getattr(self.p, n))
            return tuple(r) if n == "parts" else r
        return Native(self, n)

    def text(self, ev: PEval) -> Any:
        return str(self.p)

    def binop(self, ev: PEval, op: str, other: Any, right: bool) -> Any:
        if op != "/":
            raise boom("builtins.TypeError")
        if isinstance(other, Sym) or not isinstance(other, (str, PathObj)):
            raise Undec("path operand")
        a, b = text_of(self), text_of(other)
        return self.mk(PurePosixPath(b) / a if right else PurePosixPath(a) / b)

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        w, s = self.w, str(self.p)
        for v in list(args) + list(kw.values()):
            _no(v)
        if n in ("joinpath", "with_name", "with_suffix", "with_stem", "relative_to", "is_relative_to", "is_absolute", "as_posix", "match", "as_uri", "__truediv__", "__str__", "__fspath__"):
            a = [x.p if isinstance(x, PathObj) else x for x in args]
            return self.wrap(ev.nat(lambda: getattr(self.p, n)(*a, **kw)))
        if n in ("exists", "is_file", "is_dir", "is_symlink", "lexists"):
            try:
                x = w.get(s)
            except PyExc:
                return False
            return False if n == "is_symlink" or x is None else True if n in ("exists", "lexists") else x.is_dir == (n == "is_dir")
        if n in ("resolve", "absolute", "expanduser"):
            return self.mk(w.norm(s)) if n != "expanduser" else self
        if n == "mkdir":
            w.step("pathlib.Path.mkdir")
            return w.mkdir(s, bool(kw.get("parents", args[1] if len(args) > 1 else False)), bool(kw.get("exist_ok", args[2] if len(args) > 2 else False)))
        if n == "open":
            return open_(ev, w, s, *args, **kw)
        if n in ("write_bytes", "write_text"):
            w.step("builtins.open")
            d = args[0] if args else kw.get("data")
            w.put(s, b"")
            w.step("io.IO.write")
            w.put(s, d if isinstance(d, bytes) else encoded(d, kw.get("encoding", args[1] if len(args) > 1 else None)))
            return len(d)
        if n in ("read_bytes", "read_text"):
            d = w.read(s)
            return d if n == "read_bytes" else decoded(d, args[0] if args else kw.get("encoding"), args[1] if len(args) > 1 else kw.get("errors"))
        if n in ("unlink", "rmdir"):
            if n == "unlink" and w.get(s) is None and kw.get("missing_ok", args[0] if args else False):
                return None
            return w.remove(s)
        if n in ("rename", "replace"):
            w.step("os.rename")
            w.move(s, args[0])
            return self.mk(text_of(args[0]))
        if n == "touch":
            if w.get(s) is None:
                w.put(s, b"")
            return None
        if n == "iterdir":
            if w.get(s) is None:
                raise boom("builtins.FileNotFoundError")
            return [self.mk(c) for c in w.children(w.norm(s))]
        if n in ("glob", "rglob"):
            b = w.norm(s)
            ks = w.children(b) if n == "glob" and "**" not in args[0] else sorted(k for k in w.nodes if k.startswith(b.rstrip("/") + "/"))
            return [self.mk(c) for c in ks if PurePosixPath(c).match(args[0].replace("**/", ""))]
        if n == "stat":
            if w.get(s) is None:
                raise boom("builtins.FileNotFoundError")
            return sym("stat", s)
        raise Undec(f"method {n} of a path")


def decoded(d: bytes, enc: Any, errors: Any = None) -> str:
    try:
        return d.decode(enc if isinstance(enc, str) else "utf-8", errors if isinstance(errors, str) else "strict").replace("\r\n", "\n")
    except UnicodeDecodeError:
        raise boom("builtins.UnicodeDecodeError")
    except LookupError:
        raise boom("builtins.LookupError")


def encoded(d: Any, enc: Any) -> bytes:
    if not isinstance(d, str):
        raise boom("builtins.TypeError")
    try:
        return str.__str__(d).encode(enc if isinstance(enc, str) else "utf-8")
    except UnicodeEncodeError:
        raise boom("builtins.UnicodeEncodeError")
    except LookupError:
        raise boom("builtins.LookupError")


class FileObj(Lib):
    text: Any = None  # the encoding, for text files
    isa = ("io.IOBase", "io.BufferedWriter", "io.BufferedReader", "typing.IO")

    def __init__(self, w: World, path: Optional[str], data: bytes, writable: bool) -> None:
        self.w, self.path, self.buf, self.pos, self.writable, self.closed = w, path, data, 0, writable, False

    def enter(self, ev: PEval) -> Any:
        return self

    def exit(self, ev: PEval) -> None:
        self.closed = True

    def attr(self, ev: PEval, n: str) -> Any:
        if n == "name":
            return self.path
        if n == "closed":
            return self.closed
        return Native(self, n)

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n in ("close", "flush"):
            self.closed = self.closed or n == "close"
            return None
        if self.closed:
            raise boom("builtins.ValueError", "closed file")
        if n in ("write", "writelines"):
            if not self.writable:
                raise boom("io.UnsupportedOperation")
            for d in (args if n == "write" else ev.items_of(args[0])):
                if isinstance(d, Sym):
                    raise Undec("writes unknown data")
                d = encoded(d, self.text) if self.text else d
                self.w.step("io.IO.write")
                self.buf = self.buf[: self.pos] + d + self.buf[self.pos + len(d):]
                self.pos += len(d)
            if self.path is not None:
                self.w.put(self.path, self.buf)
            return len(args[0])
        if n in ("read", "read1", "getvalue", "getbuffer"):
            if n.startswith("get"):
                return self.buf
            k = args[0] if args and args[0] is not None else -1
            r = self.buf[self.pos:] if k < 0 else self.buf[self.pos:self.pos + k]
            self.pos += len(r)
            return decoded(r, self.text) if self.text else r
        if n in ("readlines", "readline") and self.text:
            r, self.pos = self.buf[self.pos:], len(self.buf)
            if n == "readline":
                raise Undec("readline")
            return decoded(r, self.text).splitlines(True)
        if n == "seek":
            self.pos = args[0]
            return self.pos
        if n == "tell":
            return self.pos
        raise Undec(f"method {n} of a file")


def open_(ev: PEval, w: World, file: Any, mode: Any = "r", *a: Any, **k: Any) -> FileObj:
    if isinstance(file, Sym) or isinstance(mode, Sym):
        raise Undec("opens an unknown file")
    w.step("builtins.open")
    if any(c in mode for c in "wax+"):
        p = w.norm(file)
        old = w.nodes.get(p)
        if "x" in mode and old is not None:
            raise boom("builtins.FileExistsError")
        keep = old.data if old is not None and not old.is_dir and ("a" in mode or "+" in mode and "w" not in mode) else b""
        w.put(p, keep)
        f = FileObj(w, p, keep, True)
        f.pos = len(keep) if "a" in mode else 0
    else:
        f = FileObj(w, w.norm(file), w.read(file), False)
    if "b" not in mode:
        enc = k.get("encoding", a[1] if len(a) > 1 else None)
        f.text = enc if isinstance(enc, str) else "utf-8"
    return f


class TmpDir(Lib):
    isa = ("tempfile.TemporaryDirectory",)

    def __init__(self, w: World, path: str, delete: bool) -> None:
        self.w, self.path, self.delete, self.cleaned = w, path, delete, False
        w.tmpdirs.append(self)

    def attr(self, ev: PEval, n: str) -> Any:
        return self.path if n == "name" else Native(self, n)

    def enter(self, ev: PEval) -> Any:
        return self.path

    def exit(self, ev: PEval) -> None:
        if self.delete:
            self.cleanup()

    def cleanup(self) -> None:
        self.cleaned = True
        if self.w.get(self.path) is not None:
            self.w.remove(self.path, True)

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "cleanup":
            return self.cleanup()
        raise Undec(f"method {n} of a temporary directory")


class Response(Lib):
    def __init__(self, w: World, data: bytes, status: int) -> None:
        self.w, self.data, self.status = w, data, status

    def attr(self, ev: PEval, n: str) -> Any:
        if n == "status_code":
            return self.status
        if n == "ok":
            return self.status < 400
        if n == "content":
            self.w.step("requests.Response.iter_content")
            return self.data
        if n == "headers":
            return {"Content-Length": str(len(self.data)), "content-length": str(len(self.data))}
        if n == "raw":
            return Raw(self.w, self.data)
        if n in ("history",):
            return []
        return Native(self, n)

    def enter(self, ev: PEval) -> Any:
        return self

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "iter_content":
            return Chunks(self.w, self.data)
        if n == "raise_for_status":
            if self.status >= 400:
                raise boom("requests.exceptions.HTTPError")
            return None
        if n == "close":
            return None
        raise Undec(f"method {n} of a response")


class Raw(FileObj):
    def __init__(self, w: World, data: bytes) -> None:
        FileObj.__init__(self, w, None, data, False)

    def set(self, ev: PEval, n: str, v: Any) -> None:
        return None

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "read":
            self.w.step("requests.Response.iter_content")
        return FileObj.call(self, ev, n, args, {})


class Chunks(Lib):
    def __init__(self, w: World, data: bytes) -> None:
        self.w, self.data = w, data

    def items(self, ev: PEval) -> Any:
        n = max(1, len(self.data) // 3)
        for i in range(0, len(self.data), n):
            self.w.step("requests.Response.iter_content")
            yield self.data[i:i + n]


class Member(Foreign):
    def __init__(self, name: str) -> None:
        self.name = name

    def attr(self, ev: PEval, n: str) -> Any:
        if n in ("name", "filename", "path"):
            return self.name
        if n in ("size", "file_size"):
            return 4
        return Native(self, n)

    def set(self, ev: PEval, n: str, v: Any) -> None:
        if n in ("name", "filename") and isinstance(v, str):
            self.name = v
            return
        raise Undec("changes a member")

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n in ("isfile", "isreg"):
            return True
        if n in ("isdir", "is_dir", "issym", "islnk", "isdev", "ischr", "isblk", "isfifo"):
            return False
        raise Undec(f"method {n} of an archive member")


class Archive(Lib):
    """An open tar or zip file."""

    def __init__(self, w: World, kind: str, names: list) -> None:
        self.w, self.kind, self.names = w, kind, names
        self.ms = [Member(n) for n in names]
        self.q = "tarfile.TarFile" if kind == "tar" else "zipfile.ZipFile"
        self.isa = (self.q,)

    def enter(self, ev: PEval) -> Any:
        return self

    def items(self, ev: PEval) -> Any:
        return list(self.ms)

    def attr(self, ev: PEval, n: str) -> Any:
        if n == "extraction_filter":
            return None
        return Native(self, n)

    def set(self, ev: PEval, n: str, v: Any) -> None:
        raise Undec(f"sets {n} of an archive")

    def target(self, ev: PEval, m: Member, dest: str, filt: Any) -> Optional[str]:
        n = m.name
        if self.kind == "zip":
            parts = [x for x in n.split("/") if x not in ("", ".", "..")]
            return posixpath.join(dest, *parts)
        f = filt.dotted.rsplit(".", 1)[-1].replace("_filter", "") if isinstance(filt, ExtRef) else filt
        if f in ("data", "tar"):
            t = self.w.norm(posixpath.join(dest, n.lstrip("/")))
            d = self.w.norm(dest)
            if t != d and not t.startswith(d.rstrip("/") + "/"):
                raise boom("tarfile.OutsideDestinationError")
            return t
        if f in (None, "fully_trusted"):
            return posixpath.join(dest, n)
        raise Undec("an own extraction filter")

    def one(self, ev: PEval, m: Member, dest: str, filt: Any) -> str:
        t = self.w.norm(self.target(ev, m, dest, filt))
        self.w.mkdir(posixpath.dirname(t), True, True)
        if self.w.nodes.get(t) is not None and self.w.nodes[t].is_dir:
            raise boom("builtins.IsADirectoryError")
        self.w.put(t, b"DATA:" + posixpath.basename(m.name).encode())
        return t

    def find(self, m: Any) -> Member:
        if isinstance(m, Member):
            return m
        for x in self.ms:
            if x.name == m:
                return x
        raise boom("builtins.KeyError")

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        w = self.w
        if n == "extractall":
            dest = kw.get("path", args[0] if args else ".")
            ms = kw.get("members", args[1] if len(args) > 1 else None)
            w.step(self.q + ".extractall")
            dest = w.norm("." if dest is None else dest)
            if w.get(dest) is None:
                w.mkdir(dest, True, True)
            for i, m in enumerate(self.ms if ms is None else [self.find(x) for x in ev.items_of(ms)]):
                if i == 1:
                    w.step(self.q + ".extractall")
                self.one(ev, m, dest, kw.get("filter"))
            return None
        if n == "extract":
            w.step(self.q + ".extract")
            dest = w.norm(kw.get("path", args[1] if len(args) > 1 else "."))
            return self.one(ev, self.find(args[0]), dest, kw.get("filter"))
        if n in ("getmembers", "infolist"):
            w.step(self.q + ".getmembers") if n == "getmembers" else None
            return list(self.ms)
        if n in ("getnames", "namelist"):
            return [m.name for m in self.ms]
        if n in ("getmember", "getinfo"):
            return self.find(args[0])
        if n in ("read", "extractfile", "open"):
            d = b"DATA:" + posixpath.basename(self.find(args[0]).name).encode()
            return d if n == "read" else FileObj(w, None, d, False)
        if n == "testzip":
            return None
        if n == "close":
            return None
        raise Undec(f"method {n} of an archive")


class Repo(Lib):
    isa = ("git.Repo", "git.repo.base.Repo", "git.repo.Repo")

    def __init__(self, w: World, path: str) -> None:
        self.w, self.path = w, path

    @property
    def st(self) -> GitState:
        x = self.w.nodes.get(self.path + "/.git")
        if x is None or x.git is None:
            raise boom("git.exc.GitCommandError")
        return x.git

    def attr(self, ev: PEval, n: str) -> Any:
        if n == "git":
            return GitCmd(self)
        if n == "head":
            return GitHead(self)
        if n in ("working_dir", "working_tree_dir"):
            return self.path
        if n == "git_dir":
            return self.path + "/.git"
        return Native(self, n)

    def enter(self, ev: PEval) -> Any:
        return self

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n in ("close", "submodule_update"):
            return None
        if n == "is_dirty":
            return self.st.dirty
        raise Undec(f"method {n} of a repository")

    def switch(self, commit: Optional[str], force: bool) -> None:
        s = self.st
        if commit is None:
            raise boom("git.exc.GitCommandError")
        if s.dirty and not force and commit != s.commit:
            raise boom("git.exc.GitCommandError")
        self.w.touch("write", self.path + "/f.py")
        s.commit = commit
        if force:
            s.dirty = False


class GitHead(Lib):
    def __init__(self, r: Repo) -> None:
        self.r = r

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "reset":
            c = kw.get("commit", args[0] if args else "HEAD")
            self.r.w.step("git.Repo.git.reset")
            if not kw.get("working_tree", args[2] if len(args) > 2 else False):
                raise Undec("reset of the index only")
            self.r.switch(self.r.st.resolve(_no(c), False), True)
            return None
        raise Undec(f"method {n} of HEAD")


class GitCmd(Lib):
    def __init__(self, r: Repo) -> None:
        self.r = r

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        r = self.r
        args = [x for a in args for x in (ev.items_of(a) if isinstance(a, (list, tuple)) else [a])]
        if n == "execute":
            if args[:1] != ["git"] or len(args) < 2:
                raise Undec("git command")
            n, args = args[1], args[2:]
        a = [_no(x) if isinstance(x, str) else text_of(x) for x in args]
        for k, v in kw.items():
            if v is True:
                a.insert(0, ("-" if len(k) == 1 else "--") + k.replace("_", "-"))
            elif v not in (False, None):
                if len(k) == 1:
                    a[0:0] = ["-" + k, _no(v)]
                else:
                    a.insert(0, f"--{k.replace('_', '-')}={_no(v)}")
        if n == "fetch":
            r.w.step("git.Repo.git.fetch")
            if [x for x in a if x not in ("--all", "--tags", "origin", "--unshallow", "-t", "--force", "--prune")]:
                raise Undec("git fetch")
            return ""
        if n in ("checkout", "switch"):
            r.w.step("git.Repo.git.checkout")
            force, new, pos, i = False, False, [], 0
            while i < len(a):
                x = a[i]
                if x in ("-f", "--force", "--discard-changes"):
                    force = True
                elif x in ("-b", "-B", "-c", "-C"):
                    new = True
                    i += 1
                elif x in ("-q", "--quiet", "--detach", "-d", "--no-guess", "--guess", "--no-progress", "--progress", "--recurse-submodules"):
                    pass
                elif x == "--":
                    if a[i + 1:]:
                        raise boom("git.exc.GitCommandError")  # a path of that name is not there
                elif x.startswith("-") or x == "":
                    raise Undec("git checkout")
                else:
                    pos.append(x)
                i += 1
            if new:
                r.switch(r.st.resolve(pos[0], False) if pos else r.st.commit, force)
            elif not pos:
                if force:
                    r.st.dirty = False
            else:
                r.switch(r.st.resolve(pos[0], "--no-guess" not in a and "--detach" not in a), force)
            return ""
        if n == "reset":
            r.w.step("git.Repo.git.reset")
            if "--hard" not in a:
                raise Undec("git reset")
            pos = [x for x in a if not x.startswith("-")]
            r.switch(r.st.resolve(pos[0], False) if pos else r.st.commit, True)
            return ""
        if n in ("clean", "submodule", "config", "gc", "stash"):
            raise Undec("git " + n)
        raise Undec(f"git {n}")


class IgnorePatterns(Foreign):
    def __init__(self, pats: list) -> None:
        self.pats = pats


class Digest(Foreign):
    def __init__(self, alg: str, data: bytes) -> None:
        self.alg, self.data = alg, data

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "update":
            if isinstance(args[0], Sym):
                raise Undec("hash of unknown data")
            self.data += bytes(args[0])
            return None
        if n == "hexdigest":
            return f"{self.alg}:{self.data.hex()}"
        raise Undec(f"method {n} of a hash")


class Url(Foreign):
    def __init__(self, r: Any) -> None:
        self.r = r

    def attr(self, ev: PEval, n: str) -> Any:
        v = ev.nat(lambda: getattr(self.r, n))
        return Native(self, n) if callable(v) else v

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "geturl":
            return self.r.geturl()
        raise Undec(f"method {n} of an URL")

    def items(self, ev: PEval) -> Any:
        return list(self.r)


class FsHooks(Hooks):
    """Answers the library calls out of `self.w`."""

    def __init__(self) -> None:
        self.w: World = World()

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if recv is not None or name.startswith("."):
            return NotImplemented
        f = getattr(self, "m_" + canon(name).replace("builtins.", "").replace(".", "_"), None)
        if f is None:
            return NotImplemented
        return f(ev, args, kw)

    # paths
    def m_pathlib_Path(self, ev, a, k):
        for x in a:
            _no(x)
        return PathObj(self.w, PurePosixPath(*[text_of(x) for x in a]))

    m_pathlib_PurePath = m_pathlib_PurePosixPath = m_pathlib_PosixPath = m_pathlib_Path

    def m_pathlib_Path_cwd(self, ev, a, k):
        return PathObj(self.w, CWD)

    def m_os_getcwd(self, ev, a, k):
        return CWD

    def m_os_fspath(self, ev, a, k):
        return text_of(_no(a[0]))

    def m_os_path_join(self, ev, a, k):
        return posixpath.join(*[text_of(_no(x)) for x in a])

    def _pp(n):  # noqa: N805
        def f(self, ev, a, k):
            return getattr(posixpath, n)(text_of(_no(a[0])))
        return f

    m_os_path_basename, m_os_path_dirname, m_os_path_normpath, m_os_path_split, m_os_path_splitext, m_os_path_isabs = map(
        _pp, ("basename", "dirname", "normpath", "split", "splitext", "isabs"))
    m_posixpath_basename = m_os_path_basename

    def m_os_path_abspath(self, ev, a, k):
        return self.w.norm(_no(a[0]))

    m_os_path_realpath = m_os_path_abspath

    def m_os_path_exists(self, ev, a, k):
        return self.w.get(_no(a[0])) is not None

    m_os_path_lexists = m_os_path_exists

    def m_os_path_isdir(self, ev, a, k):
        x = self.w.get(_no(a[0]))
        return x is not None and x.is_dir

    def m_os_path_isfile(self, ev, a, k):
        x = self.w.get(_no(a[0]))
        return x is not None and not x.is_dir

    def m_os_listdir(self, ev, a, k):
        p = self.w.norm(a[0] if a else ".")
        if p not in self.w.nodes:
            raise boom("builtins.FileNotFoundError")
        return [posixpath.basename(c) for c in self.w.children(p)]

    def m_os_mkdir(self, ev, a, k):
        self.w.step("pathlib.Path.mkdir")
        return self.w.mkdir(a[0])

    def m_os_makedirs(self, ev, a, k):
        self.w.step("pathlib.Path.mkdir")
        return self.w.mkdir(a[0], True, bool(k.get("exist_ok", a[2] if len(a) > 2 else False)))

    def m_os_remove(self, ev, a, k):
        return self.w.remove(a[0])

    m_os_unlink = m_os_rmdir = m_os_remove

    def m_os_rename(self, ev, a, k):
        self.w.step("os.rename")
        return self.w.move(a[0], a[1])

    m_os_replace = m_os_rename

    def m_open(self, ev, a, k):
        return open_(ev, self.w, *a, **k)

    m_io_open = m_open

    def m_io_BytesIO(self, ev, a, k):
        return FileObj(self.w, None, a[0] if a else b"", True)

    # shutil
    def m_shutil_copytree(self, ev, a, k):
        self.w.step("shutil.copytree")
        src, dst = (a + [k.get("src"), k.get("dst")])[:2] if len(a) < 2 and "src" in k else (a[0], a[1] if len(a) > 1 else k.get("dst"))
        self.w.copytree(ev, _no(src), _no(dst), bool(k.get("dirs_exist_ok", a[5] if len(a) > 5 else False)), k.get("ignore", a[3] if len(a) > 3 else None))
        return dst

    def m_shutil_ignore_patterns(self, ev, a, k):
        return IgnorePatterns(list(a))

    def m_shutil_rmtree(self, ev, a, k):
        if k.get("ignore_errors", a[1] if len(a) > 1 else False) and self.w.get(a[0]) is None:
            return None
        return self.w.remove(a[0], True)

    def m_shutil_copyfileobj(self, ev, a, k):
        while True:
            b = ev.call(ev.getattr(a[0], "read"), [4], {})
            if not b:
                return None
            ev.call(ev.getattr(a[1], "write"), [b], {})

    def m_shutil_copy(self, ev, a, k):
        d = self.w.read(a[0])
        t = text_of(a[1])
        x = self.w.get(t)
        if x is not None and x.is_dir:
            t = posixpath.join(t, posixpath.basename(text_of(a[0])))
        self.w.put(t, d)
        return a[1]

    m_shutil_copy2 = m_shutil_copyfile = m_shutil_copy

    def m_shutil_move(self, ev, a, k):
        self.w.step("os.rename")
        t = text_of(a[1])
        x = self.w.get(t)
        if x is not None and x.is_dir:
            t = posixpath.join(t, posixpath.basename(text_of(a[0])))
        self.w.move(a[0], t)
        return a[1]

    # temporary files
    def m_tempfile_TemporaryDirectory(self, ev, a, k):
        g = dict(zip(("suffix", "prefix", "dir", "ignore_cleanup_errors"), a)) | k
        return TmpDir(self.w, self.w.newdir(g.get("prefix"), g.get("suffix"), g.get("dir")), g.get("delete", True) is not False)

    def m_tempfile_mkdtemp(self, ev, a, k):
        g = dict(zip(("suffix", "prefix", "dir"), a)) | k
        p = self.w.newdir(g.get("prefix"), g.get("suffix"), g.get("dir"))
        self.w.made.append(p)
        return p

    def m_tempfile_gettempdir(self, ev, a, k):
        return "/tmp"

    # URLs (pure functions of constant text)
    def _url(n):  # noqa: N805
        def f(self, ev, a, k):
            if any(isinstance(x, Sym) for x in a) or k:
                raise Undec("unknown URL")
            r = ev.nat(lambda: getattr(urllib.parse, n)(*a))
            return r if isinstance(r, (str, list, dict, bytes)) else Url(r)
        return f

    m_urllib_parse_urlparse, m_urllib_parse_urlsplit, m_urllib_parse_unquote, m_urllib_parse_unquote_plus, m_urllib_parse_quote, m_urllib_parse_urljoin = map(
        _url, ("urlparse", "urlsplit", "unquote", "unquote_plus", "quote", "urljoin"))

    # downloads
    def m_requests_get(self, ev, a, k):
        url = _no(a[0] if a else k.get("url"))
        self.w.step("requests.get")
        if url not in self.w.downloads:
            return Response(self.w, b"<html>not found</html>", 404)
        return Response(self.w, self.w.downloads[url], self.w.status)

    def m_requests_request(self, ev, a, k):
        return self.m_requests_get(ev, a[1:], k)

    # archives
    def _kind(self, f: Any) -> tuple:
        if isinstance(f, FileObj):
            d = f.buf
        else:
            d = self.w.read(_no(f))
        return self.w.archives.get(d, (None, []))

    def m_tarfile_is_tarfile(self, ev, a, k):
        self.w.step("tarfile.is_tarfile")
        return self._kind(a[0])[0] == "tar"

    def m_zipfile_is_zipfile(self, ev, a, k):
        try:
            return self._kind(a[0])[0] == "zip"
        except PyExc:
            return False

    def m_tarfile_open(self, ev, a, k):
        f = k.get("fileobj", a[2] if len(a) > 2 else None)
        f = f if f is not None else k.get("name", a[0] if a else None)
        mode = k.get("mode", a[1] if len(a) > 1 else "r")
        if not isinstance(mode, str) or not mode.startswith("r"):
            raise Undec("writes an archive")
        self.w.step("tarfile.open")
        kind, names = self._kind(f)
        if kind != "tar":
            raise boom("tarfile.ReadError")
        return Archive(self.w, "tar", names)

    m_tarfile_TarFile_open = m_tarfile_open

    def m_zipfile_ZipFile(self, ev, a, k):
        mode = k.get("mode", a[1] if len(a) > 1 else "r")
        if mode != "r":
            raise Undec("writes an archive")
        self.w.step("zipfile.ZipFile")
        kind, names = self._kind(k.get("file", a[0] if a else None))
        if kind != "zip":
            raise boom("zipfile.BadZipFile")
        return Archive(self.w, "zip", names)

    def m_shutil_unpack_archive(self, ev, a, k):
        self.w.step("shutil.unpack_archive")
        kind, names = self._kind(a[0])
        if kind is None:
            raise boom("shutil.ReadError")
        dest = k.get("extract_dir", a[1] if len(a) > 1 else ".")
        Archive(self.w, kind, names).call(ev, "extractall", [dest], {"filter": k.get("filter", a[3] if len(a) > 3 else None)})
        return None

    # hashes
    def m_hashlib_file_digest(self, ev, a, k):
        alg = k.get("digest", a[1] if len(a) > 1 else None)
        alg = alg.dotted.rsplit(".", 1)[1] if isinstance(alg, ExtRef) else alg
        if not isinstance(alg, str) or not isinstance(a[0], FileObj):
            raise Undec("digest")
        return Digest(alg, a[0].buf[a[0].pos:])

    def m_hashlib_new(self, ev, a, k):
        return Digest(_no(a[0]), a[1] if len(a) > 1 else b"")

    def _hash(n):  # noqa: N805
        def f(self, ev, a, k):
            return Digest(n, a[0] if a else b"")
        return f

    m_hashlib_sha256, m_hashlib_md5, m_hashlib_sha1, m_hashlib_sha512 = map(_hash, ("sha256", "md5", "sha1", "sha512"))

    # git
    def _clone(self, ev, a, k):
        w = self.w
        url = text_of(_no(a[0] if a else k.get("url")))
        to = _no(a[1] if len(a) > 1 else k.get("to_path"))
        if to is None:
            raise Undec("clone without a target")
        w.step("git.Repo.clone_from")
        dest = w.norm(to)
        src = w.repos.get(url)
        if src is None:
            x = w.nodes.get(w.norm(url) + "/.git") if "://" not in url or url.startswith("file://") else None
            x = x or (w.nodes.get(w.norm(url[7:]) + "/.git") if url.startswith("file://") else None)
            src = x.git if x is not None else None
        if src is None or (dest in w.nodes and w.children(dest)):
            raise boom("git.exc.GitCommandError")
        opts = {q: v for q, v in k.items() if q not in ("url", "to_path")}
        extra = list(ev.items_of(opts.pop("multi_options", None) or []))
        for o in extra:
            for x in str(o).split():
                if not x.startswith("--"):
                    raise Undec("clone options")
                n, _, v = x[2:].partition("=")
                opts[n.replace("-", "_")] = v or True
        unknown = set(opts) - {"branch", "depth", "single_branch", "no_checkout", "recurse_submodules", "recursive", "no_single_branch", "no_tags", "progress",
                               "env", "b", "quiet", "q", "filter"}
        if unknown:
            raise Undec(f"clone option {sorted(unknown)[0]}")
        st = GitState(url, src.commit, {src.default: src.commit}, {**src.remotes, **src.heads}, dict(src.tags), dict(src.revs))
        st.default = src.default
        want = opts.get("branch") or opts.get("b")
        cur = src.default
        if want:
            if want in src.heads:
                st.commit, cur = src.heads[want], want
                st.heads = {want: st.commit}
            elif want in src.tags:
                st.commit, cur = src.tags[want], None
                st.heads = {}
            else:
                raise boom("git.exc.GitCommandError")
        single = opts.get("single_branch") or (opts.get("depth") and not opts.get("no_single_branch"))
        if single:
            st.remotes = {cur: st.commit} if cur else {}
            keep = {st.commit}
            if opts.get("depth") is None or opts.get("depth") is False:
                keep |= src.behind.get(cur or "", set())
            st.tags = {n: c for n, c in st.tags.items() if c in keep or n == want}
            st.revs = {n: c for n, c in st.revs.items() if c in keep}
        elif opts.get("depth"):
            tips = set(src.heads.values())
            st.tags = {n: c for n, c in st.tags.items() if c in tips or n == want}
            st.revs = {n: c for n, c in st.revs.items() if c in tips}
        if opts.get("no_tags"):
            st.tags = {}
        if opts.get("no_checkout"):
            st.commit = ""
        w.mkdir(dest, True, True)
        w.mkdir(dest + "/.git", True, True)
        w.step("git.Repo.clone_from")
        w.nodes[dest + "/.git"].git = st
        w.put(dest + "/f.py", b"code")
        return Repo(w, dest)

    m_git_Repo_clone_from = m_git_repo_Repo_clone_from = _clone

    def m_git_Repo(self, ev, a, k):
        p = self.w.norm(_no(a[0] if a else k.get("path", ".")))
        self.w.step("git.Repo")
        if p not in self.w.nodes:
            raise boom("git.exc.NoSuchPathError")
        x = self.w.nodes.get(p + "/.git")
        if x is None or x.git is None:
            raise boom("git.exc.InvalidGitRepositoryError")
        return Repo(self.w, p)

    m_git_repo_Repo = m_git_Repo

    # life time
    def m_weakref_finalize(self, ev, a, k):
        self.w.finalizers.append((a[0], a[1], list(a[2:]), dict(k)))
        return sym("finalizer", len(self.w.finalizers))

    def m_atexit_register(self, ev, a, k):
        self.w.atexit.append((a, k))
        return a[0]


def reachable(roots: list) -> set:
    """ids of everything the given objects keep alive."""
    seen: set = set()
    todo = list(roots)
    keep: list = []
    while todo:
        v = todo.pop()
        if id(v) in seen or isinstance(v, (str, bytes, int, float, type(None), ClassInfo, ExtRef)):
            continue
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, Inst):
            todo += list(v.attrs.values())
        elif isinstance(v, dict):
            todo += list(v.keys()) + list(v.values())
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += list(v)
        elif isinstance(v, Foreign):
            todo += v.refs()
        elif isinstance(v, Bound):
            todo += [v.f, v.self_]
        elif isinstance(v, Fn):
            todo += [v.env]
        elif isinstance(v, Env):
            todo += list(v.vars.values()) + ([v.parent] if v.parent is not None else [])
        elif isinstance(v, Native):
            todo += [v.obj]
        elif isinstance(v, Partial):
            todo += [v.f, v.args, v.kw]
        elif isinstance(v, Sym):
            todo += list(v.args)
    return seen
