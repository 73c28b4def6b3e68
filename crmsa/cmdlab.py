"""Commands evaluated from source on known files: the modelled file system and network of fslab.py, the readers of treelab.py, and the parts of the
standard library a command uses (threads, standard streams, the exit)."""

from __future__ import annotations

import difflib
from typing import Any, Optional

from .model import ExtRef
from .fslab import FsHooks, World, boom
from .peval import Foreign, PEval, PyExc, Undec, has_sym
from .treelab import Lab, TreeHooks


class Quiet(Foreign):
    """A logger: takes messages."""

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        return Quiet() if n in ("getChild",) else False if n in ("isEnabledFor", "hasHandlers") else None


class Future(Foreign):
    def __init__(self, job: Any) -> None:
        self.job, self.res = job, None

    def run(self, ev: PEval) -> None:
        if self.res is None:
            f, a, k = self.job
            try:
                self.res = ("ret", ev.call(f, list(a), dict(k)))
            except PyExc as e:
                self.res = ("exc", e.val)

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n in ("result", "exception"):
            self.run(ev)
            kind, v = self.res
            if n == "exception":
                return v if kind == "exc" else None
            if kind == "exc":
                raise PyExc(v)
            return v
        if n == "done":
            return self.res is not None
        if n in ("cancel", "cancelled", "running"):
            return False
        raise Undec(f"method {n} of a future")


class Pool(Foreign):
    def __init__(self, h: "CmdHooks") -> None:
        self.h, self.jobs = h, []

    def enter(self, ev: PEval) -> Any:
        return self

    def exit(self, ev: PEval) -> None:
        for j in self.jobs[:: -1 if self.h.order == "late" else 1]:
            j.run(ev)

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "submit":
            f = Future((args[0], args[1:], kw))
            self.jobs.append(f)
            if self.h.order == "early":
                f.run(ev)
            return f
        if n == "map":
            return [ev.call(args[0], list(a), {}) for a in zip(*[ev.items_of(x) for x in args[1:]])]
        if n == "starmap":
            return [ev.call(args[0], list(ev.items_of(a)), {}) for a in ev.items_of(args[1])]
        if n in ("imap", "imap_unordered"):
            return [ev.call(args[0], [a], {}) for a in ev.items_of(args[1])]
        if n in ("shutdown", "close", "join", "terminate"):
            return self.exit(ev) if n in ("shutdown", "join") else None
        raise Undec(f"method {n} of a pool")


class Stream(Foreign):
    def __init__(self, h: "CmdHooks", name: str) -> None:
        self.h, self.name = h, name

    def call(self, ev: PEval, n: str, args: list, kw: dict) -> Any:
        if n == "write":
            self.h.put(ev, self.name, args[0])
            return len(args[0])
        if n in ("flush", "reconfigure"):
            return None
        if n == "isatty":
            return False
        raise Undec(f"method {n} of a stream")


class CmdHooks(FsHooks):
    max_steps = 6_000_000
    max_depth = 150

    def __init__(self, lab: Lab) -> None:
        super().__init__()
        self.tree = TreeHooks(lab)
        self.order = "early"
        self.reset()

    def reset(self, w: Optional[World] = None) -> None:
        self.w = w or World()
        self.out: dict = {"stdout": "", "stderr": ""}
        self.slept: list = []

    def put(self, ev: PEval, stream: str, text: Any) -> None:
        if not isinstance(text, str) or has_sym(text):
            raise Undec("prints unknown text")
        self.out[stream] += str.__str__(text)

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if recv is None:
            if name in ("sys.exit", "builtins.exit", "builtins.quit", "exit", "quit"):
                raise boom("builtins.SystemExit", *args[:1])
            if name == "time.sleep":
                self.slept.append(args[0] if args else None)
                return None
            if name in ("logging.getLogger", "logging.Logger"):
                return Quiet()
            if name in ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor",
                        "multiprocessing.Pool", "multiprocessing.pool.ThreadPool", "multiprocessing.pool.Pool"):
                return Pool(self)
            if name in ("concurrent.futures.as_completed", "concurrent.futures.wait"):
                fs = list(ev.items_of(args[0]))
                for f in fs:
                    if not isinstance(f, Future):
                        raise Undec("waits for something unknown")
                    f.run(ev)
                fs = fs[::-1] if self.order == "late" else fs
                return fs if name.endswith("as_completed") else (fs, [])
            if name in ("difflib.unified_diff", "difflib.context_diff", "difflib.ndiff"):
                if has_sym(list(args)) or has_sym(list(kw.values())):
                    raise Undec("difference of unknown texts")
                return list(getattr(difflib, name.split(".")[1])(*args, **kw))
            if name in ("builtins.print", "print"):
                if has_sym(args) or has_sym(list(kw.values())):
                    raise Undec("prints unknown text")
                f = kw.get("file")
                sep, end = kw.get("sep"), kw.get("end")
                text = (" " if sep is None else sep).join(ev.to_str(a) for a in args) + ("\n" if end is None else end)
                self.put(ev, f.name if isinstance(f, Stream) else f.dotted[4:] if isinstance(f, ExtRef) and f.dotted in ("sys.stdout", "sys.stderr") else "stdout" if f is None else "?", text)
                return None
            if name in ("click.echo", "click.secho"):
                text = ev.to_str(args[0]) if args else ""
                self.put(ev, "stderr" if kw.get("err") is True else "stdout", text + ("\n" if kw.get("nl", True) else ""))
                return None
        r = self.tree.model(ev, name, recv, args, kw) if name != "parser.recipe_reader.RecipeReader" else NotImplemented
        return r if r is not NotImplemented else super().model(ev, name, recv, args, kw)

    def attr(self, ev: PEval, obj: Any, name: str) -> Any:
        if isinstance(obj, ExtRef) and obj.dotted == "sys" and name in ("stdout", "stderr"):
            return Stream(self, name)
        return super().attr(ev, obj, name)
