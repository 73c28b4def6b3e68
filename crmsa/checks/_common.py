"""Shared models for the path-sensitive checks: what library calls raise, what writes files, where a path comes from."""

from __future__ import annotations

from typing import Any, Callable, Iterable, Optional

from ..exctypes import canon
from ..facts import is_lit, known
from ..interp import Event, Hooks, Interp
from ..model import ClassInfo, FuncInfo, Program
from ..values import K, State, Term, contains, is_k, kv, members, mk, show, ty_name, ty_strip_none

OS, UNI, VAL = "builtins.OSError", "builtins.UnicodeDecodeError", "builtins.ValueError"
_ARCH_READ = [OS, "builtins.EOFError", "zlib.error", "lzma.LZMAError"]

# What a library call can raise because of the outside world (not because of a programming error).
RAISES: dict[str, list[str]] = {
    "builtins.open": [OS], "io.open": [OS], "os.open": [OS], "pathlib.Path.open": [OS],
    "pathlib.Path.write_text": [OS], "pathlib.Path.write_bytes": [OS], "pathlib.Path.read_bytes": [OS],
    "pathlib.Path.read_text": [OS, UNI], "io.IO.read": [OS, UNI], "io.IO.readlines": [OS, UNI], "io.IO.write": [OS],
    "pathlib.Path.mkdir": [OS], "pathlib.Path.unlink": [OS], "pathlib.Path.rename": [OS], "pathlib.Path.replace": [OS],
    "os.replace": [OS], "os.rename": [OS], "os.remove": [OS], "os.unlink": [OS], "os.makedirs": [OS], "os.mkdir": [OS],
    "shutil.copytree": [OS, "shutil.Error"], "shutil.copy": [OS], "shutil.copy2": [OS], "shutil.copyfile": [OS],
    "shutil.move": [OS], "shutil.rmtree": [OS], "shutil.unpack_archive": [OS, VAL, "shutil.ReadError"],
    "shutil.copyfileobj": [OS],
    "requests.get": ["requests.exceptions.RequestException"], "requests.request": ["requests.exceptions.RequestException"],
    "requests.Session.get": ["requests.exceptions.RequestException"],
    "requests.Session.request": ["requests.exceptions.RequestException"],
    "requests.Response.iter_content": ["requests.exceptions.RequestException"],
    "requests.Response.raise_for_status": ["requests.exceptions.RequestException"],
    "requests.Response.content": ["requests.exceptions.RequestException"],
    "urllib.request.urlopen": [OS], "urllib.request.urlretrieve": [OS],
    "tarfile.is_tarfile": [OS, "builtins.EOFError", "zlib.error", "lzma.LZMAError"], "zipfile.is_zipfile": [],
    "tarfile.open": ["tarfile.TarError"] + _ARCH_READ, "tarfile.TarFile.open": ["tarfile.TarError"] + _ARCH_READ,
    "tarfile.TarFile": ["tarfile.TarError"] + _ARCH_READ,
    "tarfile.TarFile.extractall": ["tarfile.TarError", VAL] + _ARCH_READ,
    "tarfile.TarFile.extract": ["tarfile.TarError", VAL] + _ARCH_READ,
    "tarfile.TarFile.getmembers": ["tarfile.TarError"] + _ARCH_READ,
    "zipfile.ZipFile": ["zipfile.BadZipFile", OS],
    "zipfile.ZipFile.extractall": ["zipfile.BadZipFile", OS, "builtins.RuntimeError", "builtins.NotImplementedError",
                                   "zlib.error", "builtins.EOFError", "lzma.LZMAError"],
    "zipfile.ZipFile.extract": ["zipfile.BadZipFile", OS, "builtins.RuntimeError", "builtins.NotImplementedError",
                                "zlib.error", "builtins.EOFError"],
    "git.Repo.clone_from": ["git.exc.GitError", OS], "git.Repo": ["git.exc.GitError", OS], "git.Repo.init": ["git.exc.GitError"],
    "git.Repo.git.checkout": ["git.exc.GitError"], "git.Repo.git.fetch": ["git.exc.GitError"],
    "git.Repo.git.reset": ["git.exc.GitError"], "git.Repo.git.switch": ["git.exc.GitError"],
    "json.loads": ["json.JSONDecodeError"], "json.load": ["json.JSONDecodeError"],
    "yaml.load": ["yaml.YAMLError"], "yaml.safe_load": ["yaml.YAMLError"],
    "tomllib.loads": ["tomllib.TOMLDecodeError"], "tomllib.load": ["tomllib.TOMLDecodeError", UNI],
    "jsonschema.validate": ["jsonschema.ValidationError", "jsonschema.SchemaError"],
    "ast.parse": ["builtins.SyntaxError", VAL],
    "subprocess.run": [OS, "subprocess.TimeoutExpired"], "subprocess.Popen": [OS],
    "subprocess.check_output": [OS, "subprocess.TimeoutExpired", "subprocess.CalledProcessError"],
}

# Library calls that change the file system. Value: index of the argument naming the written path ("recv": the receiver).
WRITERS: dict[str, Any] = {
    "pathlib.Path.write_text": "recv", "pathlib.Path.write_bytes": "recv", "pathlib.Path.unlink": "recv",
    "pathlib.Path.rename": "recv", "pathlib.Path.replace": "recv", "pathlib.Path.touch": "recv", "pathlib.Path.mkdir": "recv",
    "pathlib.Path.rmdir": "recv", "pathlib.Path.symlink_to": "recv", "pathlib.Path.hardlink_to": "recv",
    "pathlib.Path.chmod": "recv",
    "os.remove": 0, "os.unlink": 0, "os.rename": 1, "os.replace": 1, "os.makedirs": 0, "os.mkdir": 0, "os.rmdir": 0,
    "os.truncate": 0, "os.symlink": 1, "os.link": 1, "os.removedirs": 0, "os.renames": 1, "os.chmod": 0,
    "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "shutil.move": 1, "shutil.rmtree": 0,
    "shutil.unpack_archive": 1,
}
WRITE_OPENERS = {"builtins.open": 0, "io.open": 0, "pathlib.Path.open": "recv", "codecs.open": 0, "gzip.open": 0, "os.fdopen": 0}


def arg(ev: Event, i: int, name: str) -> Optional[Term]:
    if name in ev.kwargs:
        return ev.kwargs[name]
    if i < len(ev.args) and not any(a.op == "star" for a in ev.args[: i + 1]):
        return ev.args[i]
    return None


def open_mode(ev: Event) -> Any:
    """'r', 'w' or None (unknown) for an opening call."""
    i = 0 if WRITE_OPENERS.get(ev.name) == "recv" else 1
    m = arg(ev, i, "mode")
    if m is None:
        return "r"
    out = set()
    for x in members(m):
        if not is_k(x) or not isinstance(kv(x), str):
            return None
        out.add("w" if any(c in kv(x) for c in "wax+") else "r")
    return out.pop() if len(out) == 1 else None


def write_target(ev: Event) -> Optional[Term]:
    """The path a library call creates, replaces, changes or deletes (None when it does none of that)."""
    if ev.kind != "call":
        return None
    w = WRITERS.get(ev.name)
    if w is None:
        if ev.name in WRITE_OPENERS and open_mode(ev) == "w":
            w = WRITE_OPENERS[ev.name]
        elif ev.name.endswith((".write_text", ".write_bytes")) and ev.name.startswith("?"):
            w = "recv"
        else:
            return None
    if w == "recv":
        return ev.recv
    if w < len(ev.args):
        return ev.args[w]
    for k in ("path", "dst", "file", "extract_dir", "name"):
        if k in ev.kwargs:
            return ev.kwargs[k]
    return mk("top")


def strip_path(v: Term) -> Term:
    """Path(x), str(x), cast(x), os.fspath(x) -> x."""
    while True:
        if v.op == "pure" and v.args[0] in ("pathlib.Path", "pathlib.PurePath", "builtins.str", "os.fspath", "os.path.abspath",
                                            ".absolute", "os.path.realpath") \
                and len(v.args[1]) == 1:
            v = v.args[1][0]
        elif v.op == "call" and v.args[0] in ("pathlib.Path.resolve", "pathlib.Path.expanduser") and v.args[1]:
            v = v.args[1][0]
        elif v.op == "pure" and v.args[0] in (".resolve", ".expanduser", ".as_posix"):
            v = v.args[1][0]
        elif v.op == "fmt" and len(v.args[0]) == 1:
            v = v.args[0][0]
        else:
            return v


def mentions(v: Term, pred: Callable[[Term], bool]) -> bool:
    return contains(v, pred)


def param(name: str) -> Callable[[Term], bool]:
    return lambda t: t.op == "param" and t.args[0] == name


class CRMHooks(Hooks):
    """Opaque packages / classes by prefix, the library exception model, and an event callback."""

    def __init__(self, opaque_mods: Iterable[str] = (), inline: Iterable[str] = (), raises: Optional[dict] = None,
                 opaque_exc: Optional[dict] = None, on: Optional[Callable] = None) -> None:
        self.opaque_mods = tuple(f"conda_recipe_manager.{m}" for m in opaque_mods)
        self.inline = tuple(f"conda_recipe_manager.{m}" for m in inline)
        self.raises = raises if raises is not None else RAISES
        self.oexc = opaque_exc or {}
        self.on = on
        self.seen: set = set()

    def _op(self, qual: str) -> bool:
        return qual.startswith(self.opaque_mods) and not (self.inline and qual.startswith(self.inline)) \
            if self.opaque_mods else False

    def opaque(self, fi: FuncInfo, interp: Interp, args: tuple) -> bool:
        return self._op(fi.qual)

    def opaque_class(self, c: ClassInfo) -> bool:
        return self._op(c.qual)

    def opaque_raises(self, fi: FuncInfo) -> list:
        r = self.oexc.get(fi.name)
        return list(r) if r else []

    def ext_raises(self, name: str, ev: Event) -> list:
        return self.raises.get(name, [])

    def event(self, st: State, ev: Event, interp: Interp) -> None:
        if ev.fi is not None:
            self.seen.add(ev.fi.qual)
        if self.on is not None:
            self.on(st, ev, interp)


def trace_lines(st: State, kinds=("call", "exc", "opaque", "opaque_exc", "raise", "exit", "store", "enter"), n: int = 25) -> list:
    out = []
    for e in st.events():
        if e.kind in kinds and not e.name.startswith("?") and not e.name.startswith("builtins.") and "logging" not in e.name:
            out.append(f"{e.loc()} {e.kind} {e.name}")
    return out[-n:]


def exc_cls(I: Interp, v: Term) -> Any:
    return I.exc_class(v)


def is_sub(I: Interp, v: Term, c: Any) -> Optional[bool]:
    """Whether an exception value is an instance of c (ClassInfo or canonical name)."""
    k = I.exc_class(v)
    if k is None:
        return None
    return any(s is c or s == c for s in I.exc_supers(k))


def finish(ctx: Any, I: Interp, what: str) -> None:
    """Adds an interpreter run's coverage to the evidence."""
    ctx.functions |= set(I.inlined)
    ctx.count("abstract_steps", I.steps)
    ctx.count("abstract_runs")
    if I.cuts:
        ctx.undec(f"{what}: recursion bound reached in " + ", ".join(sorted(I.cuts))[:200])
