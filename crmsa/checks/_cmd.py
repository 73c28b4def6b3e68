"""Command models: the recipe object and the fetchers as typestate automata, exits, standard output, written files."""

from __future__ import annotations

from typing import Any, NamedTuple, Optional

from ..facts import enum_value, known
from ..interp import Event, Interp
from ..model import ClassInfo, FuncInfo, Program
from ..report import Ctx
from ..values import EMPTY, K, NONE, Rec, State, T_BOOL, T_STR, Term, ct, find, is_k, kv, members, mk, show, ty_strip_none
from ._common import CRMHooks, WRITE_OPENERS, arg, mentions, open_mode, strip_path, write_target

CAP = 14
EDITORS = {"patch", "set_variable", "del_variable", "add_selector", "remove_selector", "add_comment", "search_and_patch",
           "search_and_patch_replace", "add_dependency", "remove_dependency", "set_value", "add_value"}


class Mon(NamedTuple):
    failed: tuple = ()  # failures that happened: (what, location)
    edits: tuple = ()  # accepted edits, in order: (kind, path or name, op, value, contained, is_int)
    writes: tuple = ()  # completed writes: (target, content or None)
    wfail: bool = False  # a file operation itself failed
    out: tuple = ()  # values printed to standard output
    fetched: tuple = ()  # fetchers whose last fetch succeeded
    tries: tuple = ()  # fetch attempts, in order
    sleeps: tuple = ()  # values slept
    table: tuple = ()  # edits made when the sources were read
    flags: tuple = ()
    nedit: int = 0  # number of accepted edits
    tried: bool = False  # some fetch was attempted


def mon(st: State) -> Mon:
    return st.mon if isinstance(st.mon, Mon) else Mon()


KEEP: set = set()  # monitor fields the running check needs (empty: all)


def put(st: State, **kw: Any) -> None:
    m = mon(st)
    if KEEP:
        kw = {k: v for k, v in kw.items() if k in KEEP}
    for k, v in kw.items():
        if isinstance(v, tuple) and len(v) > CAP:
            kw[k] = v[:CAP]
    st.mon = m._replace(**kw)


def blob_fields(blob: Term, st: State) -> Optional[dict]:
    """Keys of a patch given as a dictionary built on the path. None: not resolved."""
    if blob.op == "obj":
        r = st.heap.get(blob)
        if r is not None and r.kind == "dict" and r.summ is None and all(is_k(k) for k in r.fields.d):
            return {kv(k): v for k, v in r.fields.items()}
    return None


class CmdHooks(CRMHooks):
    def __init__(self, p: Program, table: Optional[list] = None, patch_raises: bool = False, fetch_fails: bool = True,
                 parse_raises: bool = True, on: Any = None, keep: Any = (), **kw: Any) -> None:
        KEEP.clear()
        KEEP.update(keep)
        super().__init__(opaque_mods=("parser.", "fetcher.", "scanner.", "grapher.", "licenses."),
                         inline=("parser.enums", "parser.types", "parser.exceptions", "fetcher.exceptions"), on=self._ev, **kw)
        self.p = p
        self.reader = p.cls("parser.recipe_reader.RecipeReader")
        self.fbase = p.cls("fetcher.base_artifact_fetcher.BaseArtifactFetcher")
        self.table = table
        self.patch_raises = patch_raises
        self.fetch_fails = fetch_fails
        self.user_on = on
        self.printed: list = []
        self.from_recipe = p.fn("fetcher.artifact_fetcher.from_recipe")
        self.parse_raises = parse_raises

    def opaque(self, fi: FuncInfo, interp: Interp, args: tuple) -> bool:
        # path arithmetic is interpreted; everything else of the library is abstracted
        return super().opaque(fi, interp, args) and not (fi.kind in ("static", "staticmethod") and fi.name.startswith("append"))

    def opaque_raises(self, fi: FuncInfo) -> list:
        if fi.name == "__init__":
            return ["builtins.ValueError", "builtins.KeyError"] if self.parse_raises and fi.cls is not None and \
                fi.cls.issub(self.reader) else []
        return super().opaque_raises(fi)

    # ---- the recipe and the fetchers

    def _is(self, v: Any, c: ClassInfo) -> bool:
        if not isinstance(v, Term):
            return False
        t = ty_strip_none(v.typ)
        return t is not None and t[0] == "c" and t[1].issub(c)

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        last = name.rsplit(".", 1)[-1]
        if self._is(recv, self.reader):
            return self._recipe(I, st, name, last, recv, args, kwargs, node, fr, X)
        if self._is(recv, self.fbase):
            return self._fetcher(I, st, name, last, recv, args, kwargs, node, fr, X)
        if name == self.from_recipe.qual:
            return self._sources(I, st, name, args, kwargs, node, fr)
        if name in ("builtins.print", "click.echo", "click.secho"):
            self._print(st, name, args, kwargs, node, fr)
            return None
        if name == "io.IO.write" or name.endswith(".stdout.write"):
            if name.endswith(".stdout.write") or (recv is not None and recv.op in ("ext", "attr") and "stdout" in show(recv)):
                self._print(st, name, args, kwargs, node, fr)
        return None

    def _bind(self, I: Interp, name: str, recv: Term, args: tuple, kwargs: dict) -> dict:
        fi = self.p.funcs.get(name)
        if fi is None:
            return dict(kwargs)
        ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args][1:] if fi.kind not in ("static", "staticmethod") else \
            [a.arg for a in fi.node.args.args]
        out = dict(zip(ps, args))
        out.update(kwargs)
        return out

    def _note(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any) -> None:
        I.emit(st, Event("opaque", name, recv, args, kwargs, node, fr.fi, fr.ctx))

    def _recipe(self, I, st, name, last, recv, args, kwargs, node, fr, X) -> Optional[list]:
        a = self._bind(I, name, recv, args, kwargs)
        vals = list(args) + list(kwargs.values())
        loc = f"{fr.mod.rel}:{getattr(node, 'lineno', '?')}" if fr.mod else "?"
        m = mon(st)
        n = K(m.nedit)
        if last == "patch":
            self._note(I, st, name, recv, args, kwargs, node, fr)
            blob = vals[0] if vals else mk("top")
            f = blob_fields(blob, st) or {}
            path = f.get("path")
            ctd = known(st, ("t", mk("pure", "recipe.contains", (recv, path)))) if path is not None else None
            val = f.get("value")
            isint = None
            for q in {q for x in (members(val) if val is not None else []) for q in find(x, lambda t: t.op == "pure" and t.args[0] == "recipe.value")}:
                isint = known(st, ("inst", q, "builtins.int"))
                if isint is None and not any(mentions(f, lambda t, q=q: t is q) for f in st.facts.d):
                    isint = "unchecked"
            e = ("patch", path, f.get("op"), val, ctd, isint)
            ok, no = st.fork(), st.fork()
            put(ok, nedit=min(m.nedit + 1, 40), edits=m.edits + (e,))
            put(no, failed=m.failed + ((f"patch {show(path) if path is not None else '?'}", loc),))
            if self.patch_raises:
                bad = st.fork()
                put(bad, failed=m.failed + (("patch raised", loc),))
                exc = I.mk_exc(self.p.cls("parser.exceptions.JsonPatchValidationException"), node, fr)
                I.emit(bad, Event("opaque_exc", name, recv, args, kwargs, node, fr.fi, fr.ctx, exc))
                X.append((bad, exc))
            return [(ok, K(True)), (no, K(False))]
        if last in EDITORS:
            self._note(I, st, name, recv, args, kwargs, node, fr)
            v = vals[1] if len(vals) > 1 else None
            put(st, nedit=min(m.nedit + 1, 40), edits=m.edits + ((last, vals[0] if vals else None, None, v, None, None),))
            if last.startswith("search_and"):
                return [(st, mk("pure", "recipe.edited", (recv, n), typ=T_BOOL))]
            return [(st, NONE)]
        if last in ("render", "render_to_v1_recipe_format", "render_to_object"):
            self._note(I, st, name, recv, args, kwargs, node, fr)
            if last == "render":
                return [(st, mk("pure", "recipe.render", (recv, n), typ=T_STR))]
            return None
        if last == "contains_value":
            return [(st, mk("pure", "recipe.contains", (recv, vals[0] if vals else mk("top")), typ=T_BOOL))]
        if last == "get_value":
            path = a.get("path", vals[0] if vals else mk("top"))
            if "default" not in a and known(st, ("t", mk("pure", "recipe.contains", (recv, path)))) is not True:
                s2 = st.fork()
                X.append((s2, I.mk_exc("builtins.KeyError", node, fr)))
            return [(st, mk("pure", "recipe.value", (recv, path, n)))]
        if last == "get_variable":
            return [(st, mk("pure", "recipe.variable", (recv, vals[0] if vals else mk("top"), n)))]
        return None

    def _fetcher(self, I, st, name, last, recv, args, kwargs, node, fr, X) -> Optional[list]:
        m = mon(st)
        loc = f"{fr.mod.rel}:{getattr(node, 'lineno', '?')}" if fr.mod else "?"
        if last == "fetch":
            self._note(I, st, name, recv, args, kwargs, node, fr)
            tr = m.tries + (recv,)
            if self.fetch_fails:
                bad = st.fork()
                put(bad, tried=True, tries=tr, fetched=tuple(x for x in m.fetched if x is not recv))
                exc = I.mk_exc(self.p.cls("fetcher.exceptions.FetchError"), node, fr)
                I.emit(bad, Event("opaque_exc", name, recv, args, kwargs, node, fr.fi, fr.ctx, exc))
                X.append((bad, exc))
            put(st, tried=True, tries=tr, fetched=m.fetched + ((recv,) if recv not in m.fetched else ()))
            return [(st, NONE)]
        if last == "get_archive_sha256":
            self._note(I, st, name, recv, args, kwargs, node, fr)
            if recv not in m.fetched:
                put(st, flags=m.flags + (("unfetched", loc),))
            return [(st, mk("pure", "fetcher.sha256", (recv,), typ=T_STR))]
        if last in ("__str__", "__repr__"):
            return [(st, mk("pure", "fetcher.str", (recv,), typ=T_STR))]
        return None

    def _sources(self, I, st, name, args, kwargs, node, fr) -> Optional[list]:
        self._note(I, st, name, None, args, kwargs, node, fr)
        m = mon(st)
        put(st, table=m.table + (m.edits,))
        if self.table is None:
            return None
        f = EMPTY
        for path, c in self.table:
            f = f.set(K(path), self.fetcher(I, st, path, c))
        o = mk("obj", ("fetchers",), typ=("x", "builtins.dict", ()))
        st.heap = st.heap.set(o, Rec("dict", None, f))
        return [(st, o)]

    def fetcher(self, I: Interp, st: State, path: str, c: ClassInfo) -> Term:
        o = mk("obj", ("fetcher", path, c.name), typ=ct(c))
        if st.heap.get(o) is None:
            st.heap = st.heap.set(o, Rec("inst", c))
        return o

    # ---- output, files

    def _print(self, st: State, name: str, args: tuple, kwargs: dict, node: Any, fr: Any) -> None:
        f = kwargs.get("file")
        err = kwargs.get("err")
        if err is not None and not (is_k(err) and not kv(err)):
            return
        if f is not None and f is not NONE and "stdout" not in show(f):
            return
        m = mon(st)
        put(st, out=m.out + (tuple(args),))
        self.printed.append((fr.fi, node, tuple(args), name))

    def _ev(self, st: State, ev: Event, I: Interp) -> None:
        m = mon(st)
        if ev.kind == "ret":
            call = Event("call", ev.name, ev.recv, ev.args, ev.kwargs, ev.node, ev.fi, ev.ctx)
            t = write_target(call)
            if t is not None:
                content = None
                if ev.name.endswith((".write_text", ".write_bytes")):
                    content = arg(call, 0, "data")
                elif ev.name in ("os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2"):
                    src = arg(call, 0, "src")
                    content = next((c for q, c in reversed(m.writes) if src is not None and strip_path(q) is strip_path(src)), None)
                elif ev.name in ("pathlib.Path.replace", "pathlib.Path.rename"):
                    content = next((c for q, c in reversed(m.writes) if strip_path(q) is strip_path(ev.recv)), None)
                    t = arg(call, 0, "target") or t
                if ev.name in WRITE_OPENERS:
                    content = mk("opened", ev.value) if ev.value is not None else None
                put(st, writes=m.writes + ((t, content),))
            elif ev.name == "io.IO.write" or ev.name.endswith(".write"):
                ws = list(m.writes)
                for i in range(len(ws) - 1, -1, -1):
                    c = ws[i][1]
                    if c is not None and c.op == "opened" and (c.args[0] is ev.recv or ev.recv is None or ev.recv.op == "call"):
                        ws[i] = (ws[i][0], arg(call, 0, "s") or mk("top"))
                        put(st, writes=tuple(ws))
                        break
        elif ev.kind == "exc":
            call = Event("call", ev.name, ev.recv, ev.args, ev.kwargs, ev.node, ev.fi, ev.ctx)
            if write_target(call) is not None or ev.name == "io.IO.write":
                put(st, wfail=True)
            elif not ev.name.startswith("builtins."):
                put(st, failed=m.failed + ((f"{ev.name} raised {I.exc_name(ev.value) if ev.value is not None else '?'}", ev.loc()),))
            elif ev.name == "builtins.open":
                put(st, failed=m.failed + ((f"open raised {I.exc_name(ev.value)}", ev.loc()),))
        elif ev.kind == "opaque_exc":
            if ev.name.endswith(".__init__") or ".pre_process" in ev.name or "render" in ev.name:
                put(st, failed=m.failed + ((f"{ev.name.rsplit('.', 2)[-2]} raised", ev.loc()),))
        elif ev.kind == "call" and ev.name == "time.sleep":
            put(st, sleeps=m.sleeps + (ev.args[0] if ev.args else None,))
        if self.user_on is not None:
            self.user_on(st, ev, I)


# ---- outcomes


def exit_codes(v: Term) -> list:
    """Possible process exit statuses of a SystemExit argument: int | None (unknown)."""
    out: list = []
    for m in members(v):
        if m is NONE:
            out.append(0)
        elif is_k(m):
            k = kv(m)
            out.append(k % 256 if isinstance(k, int) else 1)
        elif m.op == "enum":
            e = enum_value(m)
            out.append(e % 256 if isinstance(e, int) else None)
        else:
            out.append(None)
    return out


class Outcome(NamedTuple):
    codes: list  # exit statuses (None unknown)
    st: State
    m: Mon
    how: str
    value: Any = None


def outcomes(res: list, I: Interp) -> list:
    out = []
    for kind, s, v in res:
        if kind == "ret":
            out.append(Outcome([0], s, mon(s), "returns", v))
            continue
        for e in members(v):
            if e.op == "exc" and e.args[0] == "builtins.SystemExit":
                out.append(Outcome(exit_codes(e.args[1]) if len(e.args) > 1 else [0], s, mon(s), "exit", e))
            else:
                out.append(Outcome([1], s, mon(s), f"raises {I.exc_name(e)}", e))
    return out


def sym(st: State, name: str, typ: Any = T_STR, truthy: bool = True) -> Term:
    v = mk("param", name, typ=typ)
    st.facts = st.facts.set(("none", v), False)
    if truthy:
        st.facts = st.facts.set(("t", v), True)
    return v


def is_render(v: Optional[Term]) -> bool:
    return v is not None and v.op == "pure" and v.args[0] == "recipe.render"


def has_render(v: Term) -> bool:
    from ..values import contains
    return contains(v, is_render)
