"""
Abstract interpreter with trace partitioning over the repository's syntax trees.

Values are provenance terms, containers and instances created on the path are abstract heap records, branch conditions
become path facts, loops are iterated to a fixpoint of abstract states (values are joined, then widened to "top"), calls
to repository functions are inlined up to a recursion bound, and calls to libraries become events. A check supplies a
monitor (a typestate automaton over the events) and a model of which library calls may raise what.
"""

from __future__ import annotations

import ast
import posixpath
from pathlib import PurePosixPath
from typing import Any, Callable, Optional

from .exctypes import canon, is_exc_name, supers
from .facts import (assume, inst_static, is_key, is_lit, kill, known, length_of, lit_eq, literal_elems, split, truth, enum_value)
from .model import ClassInfo, ExtRef, FuncInfo, GlobalVar, ModInfo, Program, own_nodes
from .values import (deps_of, EMPTY, FALSE, K, NONE, TOP, TRUE, PMap, Rec, State, T_BOOL, T_DICT, T_INT, T_LIST, T_PATH, T_SET,
                     T_STR, T_TUPLE, Term, ct, is_k, kv, members, mk, phi, show, tup, ty_members, ty_name, ty_strip_none,
                     xt)
from .types_ import TypeResolver


def path_const(v: Term) -> Any:
    """A constant path value."""
    if v.op == "pure" and v.args[0] == "pathlib.Path" and len(v.args[1]) == 1 and is_k(v.args[1][0]) and isinstance(kv(v.args[1][0]), str):
        return PurePosixPath(kv(v.args[1][0]))
    return None


def path_arg(v: Term) -> Optional[str]:
    p = path_const(v)
    return str(p) if p is not None else kv(v) if is_k(v) and isinstance(kv(v), str) else None


def kpath(p: Any) -> Term:
    return mk("pure", "pathlib.Path", (K(str(p)),), typ=T_PATH)


_PATH_FOLD = {"relative_to", "with_name", "with_suffix", "with_stem", "joinpath", "as_posix", "absolute", "resolve", "expanduser",
              "is_relative_to", "is_absolute"}


class Budget(Exception):
    pass


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kwargs", "node", "fi", "ctx", "value", "extra")

    def __init__(self, kind, name, recv=None, args=(), kwargs=None, node=None, fi=None, ctx=0, value=None, extra=None):
        self.kind = kind  # call | ret | raise | opaque | store | mut | delattr | cut | enter | leave
        self.name = name
        self.recv = recv
        self.args = args
        self.kwargs = kwargs or {}
        self.node = node
        self.fi = fi
        self.ctx = ctx
        self.value = value
        self.extra = extra

    def loc(self) -> str:
        return f"{self.fi.mod.rel}:{getattr(self.node, 'lineno', '?')}" if self.fi else "?"

    def __repr__(self) -> str:
        r = f"{self.loc()} {self.kind} {self.name}"
        if self.args:
            r += "(" + ", ".join(show(a) for a in self.args) + ")"
        return r


class Out:
    __slots__ = ("normal", "brk", "cont", "ret", "exc")

    def __init__(self):
        self.normal, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []


class Frame:
    __slots__ = ("fi", "fid", "ctx", "mod", "chain", "stack", "globals_", "nonlocals", "cls")

    def __init__(self, fi, fid, ctx, mod, chain, stack, cls=None):
        self.fi = fi
        self.fid = fid
        self.ctx = ctx
        self.mod = mod
        self.chain = chain  # enclosing frame ids, innermost first
        self.stack = stack  # tuple of FuncInfo being inlined
        self.cls = cls
        self.globals_, self.nonlocals = set(), set()
        if fi is not None:
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Global):
                    self.globals_ |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.nonlocals |= set(n.names)


class Hooks:
    """What a check plugs into the interpreter. Defaults are inert."""

    max_depth = 30
    rec_limit = 2
    max_states = 16
    max_rets = 6
    max_steps = 400_000
    loop_rounds = 5

    def opaque(self, fi: FuncInfo, interp: "Interp", args: tuple) -> bool:
        return False

    def opaque_raises(self, fi: FuncInfo) -> list:
        return []

    def opaque_class(self, c: ClassInfo) -> bool:
        return False

    def ext_raises(self, name: str, ev: Event) -> list:
        return []

    def event(self, st: State, ev: Event, interp: "Interp") -> None:
        pass

    def model(self, interp: "Interp", st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: ast.AST,
              fr: Frame, X: list) -> Optional[list]:
        return None

    def partition(self, st: State) -> Any:
        return st.mon


MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault",
    "popitem", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__",
    "appendleft", "popleft", "move_to_end", "subtract",
}
PURE_STR = {
    "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "replace", "split", "rsplit",
    "splitlines", "partition", "rpartition", "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "join",
    "format", "format_map", "encode", "decode", "isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isidentifier",
    "isupper", "islower", "zfill", "ljust", "rjust", "center", "expandtabs", "removeprefix", "removesuffix", "swapcase",
    "translate", "hex", "isdecimal", "as_posix", "with_suffix", "with_name", "joinpath", "relative_to", "keys", "items",
    "values", "get", "copy", "union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference",
    "isdisjoint", "groups", "group", "span", "start", "end", "absolute",
}
STR_RET_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "replace", "join", "format",
               "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "swapcase", "translate", "decode",
               "expandtabs", "as_posix", "hex", "group"}
STR_RET_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isidentifier", "isupper",
                "islower", "isdecimal", "issubset", "issuperset", "isdisjoint"}
STR_RET_LIST = {"split", "rsplit", "splitlines"}
PATH_RET_PATH = {"with_suffix", "with_name", "joinpath", "relative_to", "absolute", "resolve", "expanduser", "with_stem"}
PURE_EXT = {
    "pathlib.Path", "pathlib.PurePath", "os.path.join", "os.path.basename", "os.path.dirname", "os.path.abspath",
    "os.fspath", "urllib.parse.urlparse", "urllib.parse.urlsplit", "re.compile", "re.escape",
    "re.match", "re.search", "re.fullmatch", "re.sub", "re.findall", "re.split", "os.path.normpath", "os.path.splitext",
    "posixpath.basename", "posixpath.join", "ntpath.basename", "urllib.parse.unquote", "urllib.parse.urljoin",
    "builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.len", "builtins.repr", "builtins.abs",
    "builtins.round", "builtins.min", "builtins.max", "builtins.sum", "builtins.format", "builtins.any", "builtins.all",
    "builtins.type", "builtins.ord", "builtins.chr", "builtins.hash", "builtins.id", "builtins.callable", "builtins.divmod",
    "builtins.pow", "builtins.bytes", "builtins.hasattr", "builtins.issubclass", "math.floor", "math.ceil", "os.path.realpath",
}
EXT_RET = {
    "pathlib.Path": T_PATH, "builtins.str": T_STR, "builtins.int": T_INT, "builtins.float": xt("builtins.float"),
    "builtins.len": T_INT, "builtins.repr": T_STR, "builtins.bool": T_BOOL, "builtins.any": T_BOOL, "builtins.all": T_BOOL,
    "builtins.hasattr": T_BOOL, "builtins.callable": T_BOOL, "builtins.issubclass": T_BOOL, "os.path.join": T_STR,
    "os.path.basename": T_STR, "builtins.open": xt("io.IO"), "pathlib.Path.open": xt("io.IO"),
    "requests.get": xt("requests.Response"), "git.Repo.clone_from": xt("git.Repo"), "git.Repo": xt("git.Repo"),
    "git.repo.Repo": xt("git.Repo"), "git.Repo.init": xt("git.Repo"),
    "tarfile.open": xt("tarfile.TarFile"), "tarfile.TarFile.open": xt("tarfile.TarFile"),
    "re.compile": xt("re.Pattern"), "re.escape": T_STR, "re.sub": T_STR, "pathlib.Path.read_text": T_STR,
    "pathlib.Path.exists": T_BOOL, "pathlib.Path.is_dir": T_BOOL, "pathlib.Path.is_file": T_BOOL,
    "pathlib.Path.resolve": T_PATH, "tempfile.mkdtemp": T_STR, "shutil.which": T_STR,
    "requests.Session.get": xt("requests.Response"), "requests.session": xt("requests.Session"),
    "requests.request": xt("requests.Response"), "requests.Session.request": xt("requests.Response"),
}


class Interp:
    def __init__(self, prog: Program, hooks: Hooks) -> None:
        self.p = prog
        self.h = hooks
        self.types = TypeResolver(prog)
        self.steps = 0
        self.ctxs: dict = {}
        self.cuts: dict = {}
        self.unknown: dict = {}
        self.inlined: dict = {}
        self.sites = 0
        self.call_sites: set = set()
        self._globals_active: set = set()
        self.exact: set = set()
        self._ea: dict = {}
        self._ad: dict = {}

    # ================================================================ contexts and frames

    def ctx(self, parent: int, node: ast.AST, fi: Optional[FuncInfo]) -> int:
        key = (parent, fi.mod.name if fi else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
               getattr(node, "end_col_offset", 0), type(node).__name__)
        if key not in self.ctxs:
            self.ctxs[key] = len(self.ctxs) + 1
        return self.ctxs[key]

    def site(self, node: ast.AST, fr: Frame, tag: str = "") -> tuple:
        return (self.ctx(fr.ctx, node, fr.fi), tag)

    def iter_ctx(self, base: int, i: int) -> int:
        """Context of one iteration of an exactly unrolled loop: objects made in different iterations stay apart."""
        key = (base, "iter", i)
        if key not in self.ctxs:
            self.ctxs[key] = len(self.ctxs) + 1
        return self.ctxs[key]

    def emit(self, st: State, ev: Event) -> None:
        st.trace = (ev, st.trace)
        self.h.event(st, ev, self)

    def tick(self) -> None:
        self.steps += 1
        if self.steps > self.h.max_steps:
            raise Budget()

    # ================================================================ running a function

    def run(self, fi: FuncInfo, args: dict, st: Optional[State] = None, self_val: Optional[Term] = None,
            chain: tuple = ()) -> list:
        """Interprets a function from an abstract entry. Returns [(kind, state, value)], kind in ret/exc."""
        st = st or State()
        a = dict(args)
        if self_val is not None and fi.kind in ("method", "property", "classmethod"):
            params = fi.node.args.posonlyargs + fi.node.args.args
            a[params[0].arg] = self_val
        fr = Frame(None, ("root",), 0, fi.mod, (), ())
        X: list = []
        res = self._invoke(fi, a, st, fr, fi.node, X, chain)
        return [("ret", s, v) for s, v in res] + [("exc", s, v) for s, v in X]

    def entry_args(self, fi: FuncInfo, skip_self: bool = True) -> dict:
        """Symbolic parameters typed by their annotations."""
        out = {}
        aa = fi.node.args
        ps = aa.posonlyargs + aa.args + aa.kwonlyargs
        for i, p in enumerate(ps):
            if skip_self and i == 0 and fi.kind in ("method", "property", "classmethod"):
                continue
            out[p.arg] = mk("param", p.arg, typ=self.types.ann(fi.mod, p.annotation))
        for p in (aa.vararg, aa.kwarg):
            if p:
                out[p.arg] = mk("param", p.arg)
        return out

    def new_inst(self, c: ClassInfo, st: State, oid: Any) -> Term:
        o = mk("obj", oid, typ=ct(c))
        old = st.heap.get(o)
        st.heap = st.heap.set(o, Rec("inst", c, weak=old is not None))
        return o

    def _invoke(self, fi: FuncInfo, bound: dict, st: State, caller: Frame, node: ast.AST, X: list, chain: tuple) -> list:
        """Inlines a call with parameters already bound. Returns [(state, value)]."""
        self.tick()
        depth = len(caller.stack)
        if depth >= self.h.max_depth or caller.stack.count(fi) >= self.h.rec_limit:
            return self._cut(fi, bound, st, caller, node)
        self.inlined[fi.qual] = self.inlined.get(fi.qual, 0) + 1
        cx = self.ctx(caller.ctx, node, caller.fi)
        fid = ("F", fi.qual, cx)
        fr = Frame(fi, fid, cx, fi.mod, chain, caller.stack + (fi,), fi.cls or (caller.cls if fi.parent else None))
        if fi.parent is not None and fi.cls is None:
            fr.cls = self._encl_cls(fi)
        vars_ = EMPTY
        for k, v in bound.items():
            vars_ = vars_.set(k, v)
        st.frames = st.frames.set(fid, vars_)
        gen = fi.is_generator()
        if gen:
            self.set_var(st, fr, "$yield", mk("yieldacc"))
        if isinstance(fi.node, ast.Lambda):
            X2: list = []
            res = self.ev(fi.node.body, st, fr, X2)
            X.extend((self._leave(s, fr), v) for s, v in X2)
            return [(self._leave(s, fr), v) for s, v in res]
        out = self.block(fi.node.body, [st], fr)
        results = []
        for s in out.normal:
            out.ret.append((s, NONE))
        for s, v in out.ret:
            if gen:
                v = self._gen_result(s, fr, node)
            results.append((self.gc(self._leave(s, fr), v), v))
        X.extend((self.gc(self._leave(s, fr), v), v) for s, v in out.exc)
        return self.merge_vals(results)

    def _encl_cls(self, fi: FuncInfo):
        f = fi
        while f is not None:
            if f.cls:
                return f.cls
            f = f.parent
        return None

    def _leave(self, st: State, fr: Frame) -> State:
        if fr.fi is not None and not self._has_inner(fr.fi):
            st.frames = st.frames.delete(fr.fid)
        return st

    def _has_inner(self, fi: FuncInfo) -> bool:
        r = getattr(fi, "_inner", None)
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in own_nodes(fi.node))
            fi._inner = r
        return r

    def _gen_result(self, st: State, fr: Frame, node: ast.AST) -> Term:
        acc = st.frames.get(fr.fid).get("$yield")
        o = mk("obj", ("gen", self.site(node, fr)), typ=T_LIST)
        ms = acc.args if acc.op == "yieldacc" else ()
        st.heap = st.heap.set(o, Rec("list", None, summ=phi(ms) if ms else None, elems=() if not ms else None))
        return o

    def _cut(self, fi: FuncInfo, bound: dict, st: State, caller: Frame, node: ast.AST) -> list:
        self.cuts[fi.qual] = self.cuts.get(fi.qual, 0) + 1
        vals = tuple(bound.values())
        typ = self.types.ret(fi)
        v = mk("rcall", fi, vals, typ=typ, site=self.site(node, caller, "rc"))
        ev = Event("cut", fi.qual, None, vals, dict(bound), node, caller.fi, caller.ctx, v)
        self.emit(st, ev)
        return [(st, v)]

    # ================================================================ variables

    def set_var(self, st: State, fr: Frame, name: str, v: Term) -> None:
        if name in fr.globals_:
            st.frames = st.frames.set(("G", fr.mod.name, name), EMPTY.set("v", v))
            self.emit(st, Event("store", "global", None, (K(f"{fr.mod.name}.{name}"), v), None, None, fr.fi, fr.ctx, v))
            return
        if name in fr.nonlocals:
            for fid in fr.chain:
                f = st.frames.get(fid)
                if f is not None and name in f:
                    st.frames = st.frames.set(fid, f.set(name, v))
                    return
        f = st.frames.get(fr.fid) or EMPTY
        st.frames = st.frames.set(fr.fid, f.set(name, v))

    def get_var(self, st: State, fr: Frame, name: str, node: ast.AST, X: list) -> Term:
        if name not in fr.globals_:
            for fid in (fr.fid,) + fr.chain:
                f = st.frames.get(fid)
                if f is not None:
                    v = f.get(name)
                    if v is not None:
                        return v
        g = st.frames.get(("G", fr.mod.name, name))
        if g is not None:
            return g.get("v")
        return self.entity(self.p.resolve_name(fr.mod, name), st, fr)

    def entity(self, e: Any, st: State, fr: Optional[Frame]) -> Term:
        if isinstance(e, FuncInfo):
            return mk("fn", e, None, ())
        if isinstance(e, ClassInfo):
            return mk("cls", e)
        if isinstance(e, ModInfo):
            return mk("mod", e)
        if isinstance(e, ExtRef):
            d = e.dotted
            return mk("ext", _EXT_CANON.get(d, d))
        if isinstance(e, GlobalVar):
            return self.global_value(e, st)
        return TOP

    def global_value(self, g: GlobalVar, st: State) -> Term:
        cur = st.frames.get(("G", g.mod, g.name))
        if cur is not None:
            return cur.get("v")
        defs = self.p.globals_.get(g.qual, [])
        m = self.p.mods[g.mod]
        ann = next((s.annotation for s, _ in defs if isinstance(s, ast.AnnAssign)), None)
        typ = self.types.ann(m, ann) if ann is not None else None
        sym = mk("global", g.qual, typ=typ)
        if len(defs) != 1 or defs[0][1] is None or g.qual in self._globals_active:
            return sym
        self._globals_active.add(g.qual)
        try:
            v = self.const_eval(defs[0][1], m, st, ("global", g.qual))
        finally:
            self._globals_active.discard(g.qual)
        if v is None:
            return sym
        return v

    def const_eval(self, e: ast.AST, m: ModInfo, st: State, oid: tuple) -> Optional[Term]:
        """Value of a module- or class-level initialiser; containers become heap objects identified by their name."""
        if isinstance(e, (ast.List, ast.Set, ast.Dict)) or (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "dict", "frozenset")
        ):
            o = mk("obj", oid, typ=None)
            if st.heap.get(o) is not None:
                return o
        fr = Frame(None, ("modinit", m.name), self.ctx(0, e, None), m, (), ())
        X: list = []
        st.frames = st.frames.set(fr.fid, EMPTY)
        save = st.trace, st.mon
        s2 = st.fork()
        res = self.ev(e, s2, fr, X)
        if len(res) != 1:
            return None
        s, v = res[0]
        if v.op == "obj":
            o = mk("obj", oid, typ=v.typ)
            if o.typ is None:
                o.typ = v.typ
            rec = s.heap.get(v)
            if rec is None:
                return None
            st.heap = s.heap.delete(v).set(o, rec.but(weak=False))
            return o
        st.heap = s.heap
        return v

    # ================================================================ merging

    def join_states(self, ss: list) -> State:
        base = ss[0]
        if len(ss) == 1:
            return base
        out = base.fork()
        fids: dict = {}
        for s in ss:
            for k in s.frames.d:
                fids[k] = 1
        frames: dict = {}
        fr = EMPTY
        for fid in fids:
            fs = [s.frames.get(fid) for s in ss]
            present = [f for f in fs if f is not None]
            if all(f == present[0] for f in present[1:]) and len(present) == len(fs):
                fr = fr.set(fid, present[0])
                continue
            names: dict = {}
            for f in present:
                for n in f.d:
                    names[n] = 1
            m = EMPTY
            for n in names:
                vs = [f.get(n) for f in present]
                vs2 = [v for v in vs if v is not None]
                if any(v.op == "yieldacc" for v in vs2):
                    acc: dict = {}
                    for v in vs2:
                        for x in v.args:
                            acc[x] = 1
                    m = m.set(n, mk("yieldacc", *list(acc)[:6]))
                else:
                    m = m.set(n, phi(vs2))
            fr = fr.set(fid, m)
        out.frames = fr
        facts = EMPTY
        for a, v in base.facts.items():
            if all(s.facts.get(a) == v for s in ss[1:]):
                facts = facts.set(a, v)
        out.facts = facts
        objs: dict = {}
        for s in ss:
            for k in s.heap.d:
                objs[k] = 1
        heap = EMPTY
        for o in objs:
            rs = [s.heap.get(o) for s in ss]
            pres = [r for r in rs if r is not None]
            if isinstance(pres[0], Term):  # overlay of a symbolic attribute
                if len(pres) == len(rs):
                    heap = heap.set(o, phi(pres))
                else:
                    base_v = self._overlay_default(o)
                    heap = heap.set(o, phi(pres + [base_v]))
                continue
            if all(r == pres[0] for r in pres[1:]):
                heap = heap.set(o, pres[0])
                continue
            heap = heap.set(o, self.join_recs(pres))
        out.heap = heap
        return out

    def _overlay_default(self, key: Any) -> Term:
        _, base, name = key
        if isinstance(name, Term):
            return mk("item", base, name)
        return mk("attr", base, name)

    def join_recs(self, rs: list) -> Rec:
        r0 = rs[0]
        names: dict = {}
        for r in rs:
            for n in r.fields.d:
                names[n] = 1
        fields = EMPTY
        summ = [r.summ for r in rs if r.summ is not None]
        for n in names:
            vs = [r.fields.get(n) for r in rs]
            if r0.kind == "dict" and any(v is None for v in vs):
                summ += [v for v in vs if v is not None]
                continue
            fields = fields.set(n, phi([v for v in vs if v is not None]))
        elems = r0.elems
        if any(r.elems != elems for r in rs):
            elems = None
            for r in rs:
                if r.elems is not None:
                    summ += list(r.elems)
        return Rec(r0.kind, r0.cls, fields, elems, phi(summ) if summ else None, any(r.weak for r in rs))

    def _pure_facts(self, s: State) -> Any:
        """Facts about the entry's own parameters and constants: kept apart when states must be joined."""
        return frozenset((a, v) for a, v in s.facts.items() if a[0] not in ("eqk", "instk") and self._entry_atom(a))

    def _entry_atom(self, a: tuple) -> bool:
        r = self._ea.get(a)
        if r is None:
            r = all(not isinstance(x, Term) or (not x.deps and x.depth <= 4 and x.op != "obj") for x in a[1:])
            self._ea[a] = r
        return r

    def _merge_groups(self, items: list, limit: int) -> list:
        """items: [(state, extra key, value)] -> groups."""
        groups: dict = {}
        for it in items:
            groups.setdefault((self.h.partition(it[0]), it[1], self._pure_facts(it[0])), []).append(it)
        if len(groups) > limit:
            groups = {}
            for it in items:
                groups.setdefault((self.h.partition(it[0]), it[1]), []).append(it)
        if len(groups) > 4 * limit:
            groups = {}
            for it in items:
                groups.setdefault(self.h.partition(it[0]), []).append(it)
        return list(groups.values())

    def merge(self, ss: list, force: bool = False) -> list:
        if len(ss) <= 1:
            return ss
        seen: dict = {}
        for s in ss:
            if len(ss) > 3:
                self.gc(s)
            seen.setdefault(s.sig(), s)
        ss = list(seen.values())
        if len(ss) <= self.h.max_states and not force:
            return ss
        return [self.join_states([i[0] for i in g]) for g in self._merge_groups([(s, None, None) for s in ss], self.h.max_states)]

    def merge_vals(self, res: list) -> list:
        """Merges (state, value) results of a call."""
        if len(res) <= 1:
            return res
        seen: dict = {}
        for s, v in res:
            seen.setdefault(s.sig(), (s, []))[1].append(v)
        res = [(s, phi(vs) if len(vs) > 1 else vs[0]) for s, vs in seen.values()]
        if len(res) <= self.h.max_rets:
            return res
        out = []
        for g in self._merge_groups([(s, self._vkey(v), v) for s, v in res], self.h.max_rets):
            st = self.join_states([i[0] for i in g])
            out.append((st, phi([i[2] for i in g])))
        return out

    def merge_exc(self, res: list) -> list:
        """Merges (state, exception) results: different exception classes stay apart."""
        if len(res) <= 1:
            return res
        seen: dict = {}
        for s, v in res:
            for m in members(v):
                c = self.exc_class(m)
                k = c.qual if isinstance(c, ClassInfo) else c
                if m.op == "exc" and len(m.args) > 1 and isinstance(m.args[-1], Term) and is_k(m.args[-1]):
                    k = (k, m.args[-1])
                elif m.op == "exc" and len(m.args) > 1:
                    k = (k, m.args[1:])
                seen.setdefault((s.sig(), k), (s, k, []))[2].append(m)
        flat = [(s if i == 0 else s, k, phi(vs)) for i, (s, k, vs) in enumerate(seen.values())]
        if len(flat) <= self.h.max_rets:
            return [(s, v) for s, k, v in flat]
        groups: dict = {}
        for s, k, v in flat:
            groups.setdefault((self.h.partition(s), k), []).append((s, v))
        out = []
        for g in groups.values():
            out.append((self.join_states([x for x, _ in g]), phi([v for _, v in g])))
        return out

    def gc(self, st: State, *vals: Any) -> State:
        """Forgets facts about values nothing refers to any more."""
        if not len(st.facts):
            return st
        live: set = set(deps_of(st.mon)) if isinstance(st.mon, tuple) else set()
        live |= st.frames.deps()
        live |= st.heap.deps()
        for v in vals:
            live |= deps_of(v)
        d = None
        for a, v in st.facts.d.items():
            dp = self._atom_deps(a)
            if dp and not dp <= live:
                if d is None:
                    d = []
                d.append(a)
        if d:
            f = dict(st.facts.d)
            h = st.facts.h
            for a in d:
                h ^= hash((a, f.pop(a)))
            st.facts = PMap(f, h)
        return st

    def _atom_deps(self, a: tuple) -> frozenset:
        r = self._ad.get(a)
        if r is None:
            r = deps_of(a)
            self._ad[a] = r
        return r

    def merge_tups(self, res: list) -> list:
        """Merges (state, tuple of values) partial results."""
        if len(res) <= self.h.max_rets:
            return res
        seen: dict = {}
        for s, vs in res:
            seen.setdefault((s.sig(), vs), (s, vs))
        res = list(seen.values())
        if len(res) <= self.h.max_rets:
            return res
        out = []
        for g in self._merge_groups([(s, None, vs) for s, vs in res], self.h.max_rets):
            st = self.join_states([i[0] for i in g])
            out.append((st, tuple(phi([i[2][j] for i in g]) for j in range(len(g[0][2])))))
        return out

    def _vkey(self, v: Term) -> Any:
        if is_lit(v):
            return v
        if v.op == "exc":
            return v
        if v.op == "tup":
            return ("tup",) + tuple(self._vkey(x) for x in v.args[0])
        return "val"

    # ================================================================ statements

    def block(self, stmts: list, sts: list, fr: Frame) -> Out:
        out = Out()
        cur = sts
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.stmt(s, st, fr)
                nxt += o.normal
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
                out.exc += o.exc
            cur = self.merge(nxt)
        out.normal = cur
        out.brk = self.merge(out.brk)
        out.cont = self.merge(out.cont)
        out.ret = self.merge_vals(out.ret)
        out.exc = self.merge_exc(out.exc)
        return out

    def stmt(self, s: ast.stmt, st: State, fr: Frame) -> Out:
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            o = Out()
            o.normal.append(st)
            return o
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        o = Out()
        o.normal = [x for x, _ in self.ev(s.value, st, fr, o.exc)]
        return o

    def s_Pass(self, s, st, fr):
        o = Out()
        o.normal.append(st)
        return o

    s_Import = s_ImportFrom_ = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):  # type: ignore[no-redef]
        o = Out()
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            target = a.name if a.asname else a.name.split(".")[0]
            self.set_var(st, fr, nm, self.entity(self.p.mods.get(target) or ExtRef(target), st, fr))
        o.normal.append(st)
        return o

    def s_ImportFrom(self, s, st, fr):
        o = Out()
        for a in s.names:
            e = self.p.resolve_dotted(s.module or "", a.name)
            self.set_var(st, fr, a.asname or a.name, self.entity(e, st, fr))
        o.normal.append(st)
        return o

    def s_FunctionDef(self, s, st, fr):
        o = Out()
        fi = self.p.node_fn.get(id(s))
        v = mk("fn", fi, None, (fr.fid,) + fr.chain) if fi else TOP
        self.set_var(st, fr, s.name, v)
        o.normal.append(st)
        return o

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        o = Out()
        c = self.p.node_fn.get(id(s))
        self.set_var(st, fr, s.name, mk("cls", c) if c else TOP)
        o.normal.append(st)
        return o

    def s_Return(self, s, st, fr):
        o = Out()
        if s.value is None:
            o.ret.append((st, NONE))
        else:
            o.ret = self.ev(s.value, st, fr, o.exc)
        return o

    def s_Break(self, s, st, fr):
        o = Out()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st, fr):
        o = Out()
        o.cont.append(st)
        return o

    def s_Assert(self, s, st, fr):
        o = Out()
        t, f = self.cond(s.test, st, fr, o.exc)
        o.normal = t
        for x in f:
            o.exc.append((x, self.mk_exc("builtins.AssertionError", s, fr)))
        return o

    def s_Delete(self, s, st, fr):
        o = Out()
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, x, fr, o.exc):
                        for s2, k in self.ev_index(t.slice, s1, fr, o.exc):
                            self.mutate(s2, b, "__delitem__", (k,), t, fr)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, x, fr, o.exc):
                        self.emit(s1, Event("store", t.attr, b, (NONE,), None, t, fr.fi, fr.ctx, NONE, extra="del"))
                        nxt.append(s1)
                elif isinstance(t, ast.Name):
                    f = x.frames.get(fr.fid)
                    if f is not None:
                        x.frames = x.frames.set(fr.fid, f.delete(t.id))
                    nxt.append(x)
                else:
                    nxt.append(x)
            cur = nxt
        o.normal = cur
        return o

    def s_Assign(self, s, st, fr):
        o = Out()
        for x, v in self.ev(s.value, st, fr, o.exc):
            sts = [x]
            for t in s.targets:
                sts = [y for z in sts for y in self.assign(t, v, z, fr, o.exc)]
            o.normal += sts
        return o

    def s_AnnAssign(self, s, st, fr):
        o = Out()
        if s.value is None:
            o.normal.append(st)
            return o
        for x, v in self.ev(s.value, st, fr, o.exc):
            if v.typ is None and v.op in ("call", "item", "elem", "attr", "rcall", "global", "param"):
                t = self.types.ann(fr.mod, s.annotation)
                if t is not None:
                    v.typ = v.typ or t
            o.normal += self.assign(s.target, v, x, fr, o.exc)
        return o

    def s_AugAssign(self, s, st, fr):
        o = Out()
        load = _as_load(s.target)
        for s1, a in self.ev(load, st, fr, o.exc):
            for s2, b in self.ev(s.value, s1, fr, o.exc):
                ty = ty_name(a.typ)
                if isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)) and (
                    ty in ("builtins.list", "builtins.set", "builtins.dict")
                ):
                    meth = {"Add": "extend", "BitOr": "update", "BitAnd": "intersection_update",
                            "Sub": "difference_update"}[type(s.op).__name__]
                    self.mutate(s2, a, meth, (b,), s, fr)
                    o.normal.append(s2)
                    continue
                v = self.binop(s.op, a, b, s2, s, fr)
                o.normal += self.assign(s.target, v, s2, fr, o.exc, aug=True)
        return o

    def s_Raise(self, s, st, fr):
        o = Out()
        if s.exc is None:
            cur = (st.frames.get(fr.fid) or EMPTY).get("$exc")
            o.exc.append((st, cur if cur is not None else self.mk_exc("builtins.Exception", s, fr)))
            return o
        for x, v in self.ev(s.exc, st, fr, o.exc):
            if v.op == "cls":
                for y, inst in self.call(v, (), {}, x, s, fr, o.exc):
                    self.emit(y, Event("raise", self.exc_name(inst), None, (inst,), None, s, fr.fi, fr.ctx, inst))
                    o.exc.append((y, inst))
                continue
            if v.op == "ext":
                v = self.mk_exc(v.args[0], s, fr)
            self.emit(x, Event("raise", self.exc_name(v), None, (v,), None, s, fr.fi, fr.ctx, v))
            o.exc.append((x, v))
        return o

    def s_If(self, s, st, fr):
        o = Out()
        t, f = self.cond(s.test, st, fr, o.exc)
        for branch, states in ((s.body, t), (s.orelse, f)):
            if states:
                self._absorb(o, self.block(branch, states, fr))
        return o

    def _absorb(self, o: Out, b: Out) -> None:
        o.normal += b.normal
        o.brk += b.brk
        o.cont += b.cont
        o.ret += b.ret
        o.exc += b.exc

    def s_While(self, s, st, fr):
        o = Out()
        exits: list = []
        seen: dict = {}
        work = [st]
        rnd = 0
        while work:
            rnd += 1
            t_all = []
            for x in work:
                t, f = self.cond(s.test, x, fr, o.exc)
                t_all += t
                exits += f
            b = self.block(s.body, self.merge(t_all), fr)
            exits_b = b.brk
            o.normal += exits_b
            o.ret += b.ret
            o.exc += b.exc
            work = self._loop_next(b.normal + b.cont, seen, rnd)
        exits = self.merge(exits)
        if s.orelse and exits:
            self._absorb(o, self.block(s.orelse, exits, fr))
        else:
            o.normal += exits
        o.normal = self.merge(o.normal)
        return o

    def _loop_next(self, ss: list, seen: dict, rnd: int) -> list:
        """States not yet explored at the loop head; joined with what was seen once precision has had its rounds."""
        ss = self.merge(ss)
        fresh = []
        if rnd >= 3:
            groups: dict = {}
            for s in ss:
                groups.setdefault(self.h.partition(s), []).append(s)
            for k, g in groups.items():
                prev = seen.get(("j", k))
                j = self.join_states(([prev] if prev is not None else []) + g)
                if rnd >= 3 + self.h.loop_rounds:
                    continue
                if rnd >= 4 and prev is not None:
                    j = self._widen(prev, j)
                if prev is None or prev.sig() != j.sig():
                    seen[("j", k)] = j
                    fresh.append(j.fork())
            return fresh
        for s in ss:
            if s.sig() not in seen:
                seen[s.sig()] = s
                fresh.append(s.fork())
        return fresh

    def _widen(self, old: State, new: State) -> State:
        """Variables still changing after joins lose their value."""
        fr = new.frames
        for fid, f in list(new.frames.items()):
            of = old.frames.get(fid)
            if of is None or of == f:
                continue
            g = f
            for n, v in list(f.items()):
                if of.get(n) is not None and of.get(n) is not v and v.op != "yieldacc":
                    g = g.set(n, mk("top", ("w",), typ=v.typ) if v.typ is not None else TOP)
            fr = fr.set(fid, g)
        new.frames = fr
        heap = new.heap
        for o_, r in list(new.heap.items()):
            orr = old.heap.get(o_)
            if orr is not None and orr != r and isinstance(r, Rec) and r.elems is None and orr.elems is None:
                if r.summ is not orr.summ:
                    heap = heap.set(o_, r.but(summ=TOP))
        new.heap = heap
        return new

    def s_For(self, s, st, fr):
        o = Out()
        exits: list = []
        for x, it in self.ev(s.iter, st, fr, o.exc):
            for y, itm in [(x, m) for m in members(it)] if it.op == "phi" and len(members(it)) <= 4 else [(x, it)]:
                if it.op == "phi":
                    y = y.fork()
                elems = self.iter_elems(itm, y)
                if elems is not None and len(elems) <= 12:
                    exits += self._for_exact(s, elems, y, fr, o)
                else:
                    exits += self._for_sym(s, itm, y, fr, o)
        exits = self.merge(exits)
        if s.orelse and exits:
            self._absorb(o, self.block(s.orelse, exits, fr))
        else:
            o.normal += exits
        o.normal = self.merge(o.normal)
        return o

    def _for_exact(self, s, elems, st, fr, o):
        cur = [st]
        base = fr.ctx
        for i, e in enumerate(elems):
            nxt = []
            for x in cur:
                nxt += self.assign(s.target, e, x, fr, o.exc)
            fr.ctx = self.iter_ctx(base, i) if i else base
            b = self.block(s.body, self.merge(nxt), fr)
            fr.ctx = base
            o.normal += b.brk
            o.ret += b.ret
            o.exc += b.exc
            cur = self.merge(b.normal + b.cont)
            if not cur:
                break
        return cur

    def _for_sym(self, s, it, st, fr, o):
        site = self.site(s, fr, "for")
        seen: dict = {}
        ln = length_of(it, st)
        exits = []
        k_nonempty = known(st, ("t", it))
        if not (ln and ln[0] > 0) and k_nonempty is not True:
            e0 = st.fork()
            if k_nonempty is None and it.op not in ("obj", "top", "tup"):
                z = assume(e0, ("t", it), False)
                e0 = z if z is not None else e0
            exits.append(e0)
        work = [st]
        if k_nonempty is False or (ln and ln[1] == 0):
            work = []
        rnd = 0
        while work:
            rnd += 1
            body_in = []
            for x in work:
                kill(x, site)
                for ev_, val in self.elem_of(it, x, site):
                    body_in += self.assign(s.target, val, ev_, fr, o.exc)
            b = self.block(s.body, self.merge(body_in), fr)
            o.normal += b.brk
            o.ret += b.ret
            o.exc += b.exc
            nxt = b.normal + b.cont
            exits += [z.fork() for z in nxt]
            exits = self.merge(exits)
            work = self._loop_next(nxt, seen, rnd)
        return exits

    s_AsyncFor = s_For

    def s_With(self, s, st, fr):
        o = Out()
        self._with(s.items, s.body, st, fr, o, s)
        return o

    s_AsyncWith = s_With

    def _with(self, items, body, st, fr, o, s):
        if not items:
            self._absorb(o, self.block(body, [st], fr))
            return
        it = items[0]
        for x, cm in self.ev(it.context_expr, st, fr, o.exc):
            supp = None
            bound = cm
            if cm.op == "call" and cm.args[0] == "contextlib.suppress":
                supp = [self.class_ref(a) for a in cm.args[1]]
            entered = [(x, cm)]
            m = self.lookup_method(cm, "__enter__", x)
            if m is not None:
                entered = self.call(m, (), {}, x, it.context_expr, fr, o.exc)
            elif cm.op == "call" and cm.args[0] == "tempfile.TemporaryDirectory":
                entered = [(x, mk("attr", cm, "name", typ=T_STR))]
            for y, bound in entered:
                ys = [y]
                if it.optional_vars is not None:
                    ys = self.assign(it.optional_vars, bound, y, fr, o.exc)
                for z in ys:
                    inner = Out()
                    self._with(items[1:], body, z, fr, inner, s)

                    def leave(s_: State, cm=cm, it=it) -> State:
                        self.emit(s_, Event("with_exit", "with", cm, (cm,), None, it.context_expr, fr.fi, fr.ctx))
                        return s_

                    o.normal += [leave(q) for q in inner.normal]
                    o.brk += [leave(q) for q in inner.brk]
                    o.cont += [leave(q) for q in inner.cont]
                    o.ret += [(leave(q), v) for q, v in inner.ret]
                    for q, v in inner.exc:
                        leave(q)
                        if supp is not None:
                            d = self.exc_match(v, supp)
                            if d in ("yes", "maybe"):
                                o.normal.append(q.fork())
                            if d == "yes":
                                continue
                        o.exc.append((q, v))

    def s_Try(self, s, st, fr):
        o = Out()
        b = self.block(s.body, [st], fr)
        normal = b.normal
        inner = Out()
        inner.brk += b.brk
        inner.cont += b.cont
        inner.ret += b.ret
        if normal and s.orelse:
            ob = self.block(s.orelse, normal, fr)
            self._absorb(inner, ob)
        else:
            inner.normal += normal
        for x, exc in b.exc:
            pending = [x]
            for h in s.handlers:
                if not pending:
                    break
                x0 = pending[0]
                if h.type is None:
                    refs: list = [None]
                else:
                    refs = []
                    for _, tv in self.ev(h.type, x0.fork(), fr, []):
                        for t1 in (tv.args[0] if tv.op == "tup" else members(tv)):
                            refs.append(self.class_ref(t1))
                d = self.exc_match(exc, refs)
                if d == "no":
                    continue
                y = x0.fork()
                if h.name:
                    self.set_var(y, fr, h.name, exc)
                old = (y.frames.get(fr.fid) or EMPTY).get("$exc")
                self.set_var(y, fr, "$exc", exc)
                hb = self.block(h.body, [y], fr)
                for q in hb.normal + hb.brk + hb.cont:
                    self._restore_exc(q, fr, old)
                self._absorb(inner, hb)
                if d == "yes":
                    pending = []
            for x0 in pending:
                inner.exc.append((x0, exc))
        if s.finalbody:
            for kind in ("normal", "brk", "cont"):
                for x in self.merge(getattr(inner, kind)):
                    fb = self.block(s.finalbody, [x], fr)
                    getattr(o, kind).extend(fb.normal)
                    self._abrupt(o, fb)
            for kind in ("ret", "exc"):
                for x, v in (self.merge_exc if kind == "exc" else self.merge_vals)(getattr(inner, kind)):
                    fb = self.block(s.finalbody, [x], fr)
                    getattr(o, kind).extend((q, v) for q in fb.normal)
                    self._abrupt(o, fb)
        else:
            self._absorb(o, inner)
        return o

    s_TryStar = s_Try

    def _restore_exc(self, st, fr, old):
        f = st.frames.get(fr.fid)
        if f is None:
            return
        st.frames = st.frames.set(fr.fid, f.delete("$exc") if old is None else f.set("$exc", old))

    def _abrupt(self, o, fb):
        o.brk += fb.brk
        o.cont += fb.cont
        o.ret += fb.ret
        o.exc += fb.exc

    def s_Match(self, s, st, fr):
        o = Out()
        for x, subj in self.ev(s.subject, st, fr, o.exc):
            pend = []
            if subj.op == "phi" and len(members(subj)) <= 6:
                for m in members(subj):
                    pend.append((x.fork(), m))
            else:
                pend.append((x, subj))
            for x1, sv in pend:
                remaining = [x1]
                for case in s.cases:
                    if not remaining:
                        break
                    nxt_remaining = []
                    taken = []
                    for r in remaining:
                        yes, no = self.pattern(case.pattern, sv, r, fr, o.exc)
                        nxt_remaining += no
                        for y in yes:
                            if case.guard is not None:
                                t, f = self.cond(case.guard, y, fr, o.exc)
                                taken += t
                                nxt_remaining += f
                            else:
                                taken.append(y)
                    remaining = self.merge(nxt_remaining)
                    if taken:
                        self._absorb(o, self.block(case.body, self.merge(taken), fr))
                for r in remaining:
                    self.emit(r, Event("nomatch", "match", None, (sv,), None, s, fr.fi, fr.ctx))
                o.normal += remaining
        o.normal = self.merge(o.normal)
        return o

    def pattern(self, p, v, st, fr, X) -> tuple[list, list]:
        """(states where the pattern matches, with captures bound; states where it does not)."""
        if isinstance(p, ast.MatchValue):
            yes, no = [], []
            for s1, pv in self.ev(p.value, st, fr, X):
                t, f = self.cmp_eq(v, pv, s1)
                yes += t
                no += f
            return yes, no
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return self.split_atom(("none", v), st)
            return self.cmp_eq(v, K(p.value), st)
        if isinstance(p, ast.MatchAs):
            yes, no = [st], []
            if p.pattern is not None:
                yes, no = self.pattern(p.pattern, v, st, fr, X)
            if p.name:
                for y in yes:
                    self.set_var(y, fr, p.name, v)
            return yes, no
        if isinstance(p, ast.MatchOr):
            yes, rem = [], [st]
            for q in p.patterns:
                nrem = []
                for r in rem:
                    y, n = self.pattern(q, v, r, fr, X)
                    yes += y
                    nrem += n
                rem = nrem
            return yes, rem
        if isinstance(p, ast.MatchClass):
            yes, no = [], []
            for s1, cv in self.ev(p.cls, st, fr, X):
                t, f = self.split_atom(("inst", v, self.class_ref(cv)), s1)
                sub = list(zip(p.kwd_attrs, p.kwd_patterns))
                pos = list(p.patterns)
                for y in t:
                    cur = [y]
                    if len(pos) == 1 and ty_name(cv.typ) is None and cv.op == "ext":
                        nxt = []
                        for z in cur:
                            a, b = self.pattern(pos[0], v, z, fr, X)
                            nxt += a
                            no += b
                        cur = nxt
                    for nm, q in sub:
                        nxt = []
                        for z in cur:
                            for z2, av in self.getattr(v, nm, z, p, fr, X):
                                a, b = self.pattern(q, av, z2, fr, X)
                                nxt += a
                                no += b
                        cur = nxt
                    yes += cur
                no += f
            return yes, no
        if isinstance(p, ast.MatchSequence):
            elems = None
            if v.op == "tup" or v.op == "obj":
                elems = literal_elems(v, st)
            if elems is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(elems) != len(p.patterns):
                    return [], [st]
                cur, no = [st], []
                for q, e in zip(p.patterns, elems):
                    nxt = []
                    for z in cur:
                        a, b = self.pattern(q, e, z, fr, X)
                        nxt += a
                        no += b
                    cur = nxt
                return cur, no
        # unmodelled pattern: either way
        y = st.fork()
        for n in ast.walk(p):
            nm = getattr(n, "name", None)
            if isinstance(nm, str):
                self.set_var(y, fr, nm, TOP)
        return [y], [st]

    # ================================================================ assignment

    def assign(self, t, v, st, fr, X, aug=False) -> list:
        if isinstance(t, ast.Name):
            self.set_var(st, fr, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), st, t)
            cur = [st]
            for e, pv in zip(t.elts, parts):
                tgt = e.value if isinstance(e, ast.Starred) else e
                cur = [y for x in cur for y in self.assign(tgt, pv if not isinstance(e, ast.Starred) else TOP, x, fr, X)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s1, b in self.ev(t.value, st, fr, X):
                self.store_attr(s1, b, t.attr, v, t, fr)
                out.append(s1)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s1, b in self.ev(t.value, st, fr, X):
                for s2, k in self.ev_index(t.slice, s1, fr, X):
                    self.mutate(s2, b, "__setitem__", (k, v), t, fr)
                    out.append(s2)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, TOP, st, fr, X)
        return [st]

    def unpack(self, v: Term, n: int, st: State, node) -> list:
        if v.op == "tup" and len(v.args[0]) == n:
            return list(v.args[0])
        if v.op == "obj":
            e = literal_elems(v, st)
            if e is not None and len(e) == n and st.heap.get(v).kind == "list":
                return e
            r = st.heap.get(v)
            if r is not None and r.kind == "inst" and isinstance(r.cls, ClassInfo) and r.cls.is_namedtuple():
                fs = [a for a in r.cls.annots]
                return [r.fields.get(f) or mk("attr", v, f) for f in fs][:n] + [TOP] * max(0, n - len(fs))
        if v.op == "phi":
            cols = [self.unpack(m, n, st, node) for m in members(v)]
            return [phi([c[i] for c in cols]) for i in range(n)]
        if v.op == "top":
            return [TOP] * n
        ts = [None] * n
        t = ty_strip_none(v.typ)
        if t is not None and t[0] == "x" and t[1] == "builtins.tuple" and len(t[2]) == n:
            ts = list(t[2])
        if t is not None and t[0] == "c" and t[1].is_namedtuple():
            fs = list(t[1].annots)
            if len(fs) == n:
                return [mk("attr", v, f, typ=self.types.ann(t[1].mod, t[1].annots[f])) for f in fs]
        return [mk("item", v, K(i), typ=ts[i]) for i in range(n)]

    def store_attr(self, st: State, b: Term, name: str, v: Term, node, fr: Frame) -> None:
        self.emit(st, Event("store", name, b, (v,), None, node, fr.fi, fr.ctx, v))
        for m in members(b):
            strong = b.op != "phi"
            if m.op == "obj":
                r = st.heap.get(m)
                if r is None:
                    continue
                old = r.fields.get(name)
                nv = v if strong and not r.weak else (phi([old, v]) if old is not None else v)
                st.heap = st.heap.set(m, r.but(fields=r.fields.set(name, nv)))
            elif m.op not in ("top", "K"):
                key = ("sym", m, name)
                old = st.heap.get(key)
                nv = v if strong else phi([old if old is not None else mk("attr", m, name), v])
                st.heap = st.heap.set(key, nv)
                if m.op == "cls":
                    pass

    def mutate(self, st: State, b: Term, meth: str, args: tuple, node, fr: Frame, kwargs=None) -> Term:
        """A container mutation on b: emits the event, updates the heap, returns the method's result."""
        self.emit(st, Event("mut", meth, b, args, kwargs or {}, node, fr.fi, fr.ctx))
        res: list = []
        for m in members(b):
            res.append(self._mutate_one(st, m, meth, args, node, fr, strong=b.op != "phi"))
        return phi([r for r in res if r is not None] or [NONE])

    def _mutate_one(self, st, m, meth, args, node, fr, strong) -> Term:
        if m.op == "obj":
            r = st.heap.get(m)
            if r is None:
                return TOP
            strong = strong and not r.weak
            if r.kind in ("list", "set"):
                r2, res = self._mut_list(r, meth, args, st, strong, m, node)
            elif r.kind == "dict":
                r2, res = self._mut_dict(r, meth, args, st, strong, m, node)
            else:
                return TOP
            st.heap = st.heap.set(m, r2)
            return res
        if m.op == "top":
            return TOP
        # symbolic container: forget what was read from it, remember constant-key stores
        if meth == "__setitem__" and is_lit(args[0]):
            st.heap = st.heap.set(("sym", m, args[0]), args[1])
        elif meth in ("clear", "update", "__setitem__", "__delitem__", "pop", "sort", "reverse", "insert", "remove"):
            for k in [k for k in st.heap.d if isinstance(k, tuple) and k[0] == "sym" and k[1] is m
                      and isinstance(k[2], Term)]:
                st.heap = st.heap.delete(k)
        self._forget_content(st, m)
        if meth in ("pop", "popitem", "setdefault", "popleft"):
            return mk("item", m, args[0] if args else K(-1), typ=self.item_type(m.typ))
        return NONE

    def _forget_content(self, st, m) -> None:
        for a in list(st.facts.d):
            if (a[0] in ("t",) and a[1] is m) or (a[0] == "in" and a[2] is m) or (
                a[0] == "lt" and any(isinstance(q, Term) and q.op == "pure" and q.args[0] == "builtins.len" and q.args[1][0] is m
                                     for q in a[1:])
            ):
                st.facts = st.facts.delete(a)

    def _mut_list(self, r: Rec, meth, args, st, strong, m, node):
        e = r.elems
        summ = r.summ
        loose = lambda *vs: r.but(elems=None, summ=phi([x for x in ((list(e) if e else []) + ([summ] if summ is not None else [])
                                                                      + list(vs))] or [TOP]) if (e or summ is not None or vs) else None)
        if r.kind == "set" and meth == "add":
            if e is not None and strong and len(e) < 8:
                if args[0] in e:
                    return r, NONE
                return r.but(elems=e + (args[0],)), NONE
            return loose(args[0]), NONE
        if meth in ("append", "appendleft"):
            if e is not None and strong and len(e) < 12:
                return r.but(elems=e + (args[0],) if meth == "append" else (args[0],) + e), NONE
            return loose(args[0]), NONE
        if meth in ("extend", "update"):
            add = literal_elems(args[0], st) if args else []
            if e is not None and strong and add is not None and len(e) + len(add) <= 12:
                if r.kind == "set":
                    add = [x for x in add if x not in e]
                return r.but(elems=e + tuple(add)), NONE
            vals = [v for _, v in self.elem_of(args[0], st, ("ext",))] if args else []
            return loose(*vals), NONE
        if meth == "insert":
            if e is not None and strong and args and is_k(args[0]) and isinstance(kv(args[0]), int) and len(e) < 12:
                le = list(e)
                le.insert(kv(args[0]), args[1])
                return r.but(elems=tuple(le)), NONE
            return loose(*args[1:2]), NONE
        if meth == "pop":
            if e and strong and r.kind == "list":
                i = kv(args[0]) if args and is_k(args[0]) else (-1 if not args else None)
                if isinstance(i, int) and -len(e) <= i < len(e):
                    le = list(e)
                    v = le.pop(i)
                    return r.but(elems=tuple(le)), v
            vs = r.values()
            return loose(), phi(vs) if vs else TOP
        if meth == "clear" and strong:
            return r.but(elems=(), summ=None), NONE
        if meth == "__setitem__":
            k, v = args
            if e is not None and strong and is_k(k) and isinstance(kv(k), int) and -len(e) <= kv(k) < len(e):
                le = list(e)
                le[kv(k)] = v
                return r.but(elems=tuple(le)), NONE
            return loose(v), NONE
        if meth == "reverse" and e is not None and strong:
            return r.but(elems=tuple(reversed(e))), NONE
        if meth in ("discard", "remove") and e is not None and strong and args and args[0] in e and all(is_lit(x) for x in e):
            le = list(e)
            le.remove(args[0])
            return r.but(elems=tuple(le)), NONE
        if meth == "sort":
            return (r if e is not None and len(e) <= 1 else loose()), NONE
        return loose(*[a for a in args if isinstance(a, Term)][:1] if meth == "setdefault" else []), NONE

    def _mut_dict(self, r: Rec, meth, args, st, strong, m, node):
        if meth == "__setitem__":
            k, v = args
            if is_key(k):
                old = r.fields.get(k)
                nv = v if strong else (phi([old, v]) if old is not None else v)
                return r.but(fields=r.fields.set(k, nv)), NONE
            # unknown key: remembered by its own term, and it may overwrite any other entry
            f = r.fields.set(k, v)
            summ = phi([x for x in (r.summ, v) if x is not None])
            return r.but(fields=f, summ=summ), NONE
        if meth == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            old = r.fields.get(k)
            if old is not None:
                return r, old
            if is_key(k) and r.summ is None:
                return r.but(fields=r.fields.set(k, d)), d
            return r.but(fields=r.fields.set(k, phi([x for x in (r.summ, d) if x is not None]))), phi(
                [x for x in (r.summ, d) if x is not None])
        if meth == "pop" or meth == "__delitem__":
            k = args[0] if args else TOP
            old = r.fields.get(k)
            dflt = [args[1]] if len(args) > 1 else []
            if old is not None and strong:
                return r.but(fields=r.fields.delete(k)), old
            vs = ([r.summ] if r.summ is not None else []) + dflt
            return r, phi(vs) if vs else TOP
        if meth == "clear" and strong:
            return r.but(fields=EMPTY, summ=None), NONE
        if meth == "update":
            o = args[0] if args else None
            if o is not None and o.op == "obj":
                ro = st.heap.get(o)
                if ro is not None and ro.kind == "dict":
                    f = r.fields
                    for k, v in ro.fields.items():
                        f = f.set(k, v)
                    summ = [x for x in (r.summ, ro.summ) if x is not None]
                    return r.but(fields=f, summ=phi(summ) if summ else None), NONE
            return r.but(summ=TOP), NONE
        return r.but(summ=TOP), TOP

    # ================================================================ iteration

    def item_type(self, t: Any) -> Any:
        return self.types.item(t)

    def iter_elems(self, v: Term, st: State) -> Optional[list]:
        """Exactly known elements an iteration over v yields, in order."""
        if v.op == "tup":
            return list(v.args[0])
        if v.op == "K" and isinstance(kv(v), (str,)) and len(kv(v)) <= 8:
            return [K(c) for c in kv(v)]
        if v.op == "obj":
            r = st.heap.get(v)
            if r is None or r.weak or r.summ is not None:
                return None
            if r.kind in ("list", "set"):
                return list(r.elems) if r.elems is not None else None
            if r.kind == "dict" and all(is_key(k) for k in r.fields.d):
                return list(r.fields.d)
            return None
        if v.op == "view":
            base, kind = v.args
            r = st.heap.get(base) if base.op == "obj" else None
            if r is not None and r.kind == "dict" and not r.weak and r.summ is None and all(is_key(k) for k in r.fields.d):
                if kind == "items":
                    return [tup((k, w)) for k, w in r.fields.d.items()]
                if kind == "keys":
                    return list(r.fields.d)
                if kind == "values":
                    return list(r.fields.d.values())
            return None
        if v.op == "seq":
            kind = v.args[0]
            srcs = [self.iter_elems(a, st) if isinstance(a, Term) else None for a in v.args[1]]
            if kind == "range":
                ks = v.args[1]
                if all(is_k(k) and isinstance(kv(k), int) for k in ks):
                    rg = range(*[kv(k) for k in ks])
                    if len(rg) <= 12:
                        return [K(i) for i in rg]
                return None
            if any(s is None for s in srcs[: (1 if kind == "enumerate" else None)]):
                return None
            if kind == "enumerate":
                st0 = v.args[1][1] if len(v.args[1]) > 1 else K(0)
                if not is_k(st0):
                    return None
                return [tup((K(i + kv(st0)), e)) for i, e in enumerate(srcs[0])]
            if kind == "zip":
                return [tup(t) for t in zip(*srcs)]
            if kind == "reversed":
                return list(reversed(srcs[0]))
            if kind == "chain":
                return [e for s in srcs for e in s]
            if kind == "iter":
                return srcs[0]
        if v.op == "cls" and v.args[0].is_enum():
            c = v.args[0]
            ms = c.enum_members()
            if len(ms) <= 12:
                return [mk("enum", c, m, typ=ct(c)) for m in ms]
        return None

    def elem_of(self, v: Term, st: State, site: Any) -> list:
        """[(state, abstract element)] for one iteration over v (an arbitrary element)."""
        return [(st, self._elem(v, st, site))]

    def _elem(self, v: Term, st: State, site: Any) -> Term:
        if v.op == "phi":
            return phi([self._elem(m, st, site) for m in members(v)])
        if v.op == "tup":
            return phi(v.args[0]) if v.args[0] else TOP
        if v.op == "obj":
            r = st.heap.get(v)
            if r is None:
                return TOP
            if r.kind == "dict":
                ks = list(r.fields.d)
                return phi(ks) if ks and r.summ is None else mk("key", v, site=site)
            vs = r.values()
            return phi(vs) if vs else TOP
        if v.op == "view":
            base, kind = v.args
            if base.op == "obj":
                r = st.heap.get(base)
                if r is not None and r.kind == "dict":
                    if kind == "keys":
                        return self._elem(base, st, site)
                    vals = r.values()
                    val = phi(vals) if vals else TOP
                    if kind == "values":
                        return val
                    keys = [k for k in r.fields.d]
                    if keys and r.summ is None and len(keys) <= 6:
                        return phi([tup((k, r.fields.get(k))) for k in keys])
                    return tup((self._elem(base, st, site), val))
            bt = ty_strip_none(base.typ)
            kt = bt[2][0] if bt is not None and bt[0] == "x" and len(bt[2]) == 2 else None
            key = mk("key", base, typ=kt, site=site)
            val = mk("item", base, key, typ=self.item_type(base.typ))
            return {"keys": key, "values": val, "items": tup((key, val))}[kind]
        if v.op == "seq":
            kind, a = v.args
            if kind == "range":
                return mk("int", v, typ=T_INT, site=site)
            if kind == "enumerate":
                return tup((mk("int", a[0], typ=T_INT, site=site), self._elem(a[0], st, site)))
            if kind == "zip":
                return tup([self._elem(x, st, site) for x in a])
            if kind == "chain":
                return phi([self._elem(x, st, site) for x in a]) if a else TOP
            return self._elem(a[0], st, site)
        if v.op == "top":
            return TOP
        if v.op == "cls" and v.args[0].is_enum():
            return mk("elem", v, typ=ct(v.args[0]), site=site)
        return mk("elem", v, typ=self.types.elem(v.typ), site=site)

    # ================================================================ conditions

    def split_atom(self, atom: tuple, st: State) -> tuple[list, list]:
        k = known(st, atom)
        if k is True:
            return [st.fork()], []
        if k is False:
            return [], [st.fork()]
        t = assume(st, atom, True)
        f = assume(st, atom, False)
        return ([t] if t else []), ([f] if f else [])

    def cmp_eq(self, a: Term, b: Term, st: State) -> tuple[list, list]:
        if b.op == "phi" and a.op != "phi":
            a, b = b, a
        if a.op == "phi":
            ts, fs = [], []
            for m in members(a):
                t, f = self.cmp_eq(m, b, st)
                ts += t
                fs += f
            return self.merge(ts), self.merge(fs)
        if a.op == "tup" and b.op == "tup":
            if len(a.args[0]) != len(b.args[0]):
                return [], [st]
        return self.split_atom(("eq", a, b), st)

    def expand(self, e: ast.AST, st: State, fr: Frame) -> list:
        """Case-splits variables of a condition that hold a join of values."""
        names: list = []
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in names:
                names.append(n.id)
        out = [st]
        for nm in names[:3]:
            nxt = []
            for s in out:
                f = s.frames.get(fr.fid)
                v = f.get(nm) if f is not None else None
                if v is not None and v.op == "phi" and len(v.args[0]) <= 6:
                    for m in v.args[0]:
                        c = s.fork()
                        c.frames = c.frames.set(fr.fid, f.set(nm, m))
                        nxt.append(c)
                else:
                    nxt.append(s)
            out = nxt
            if len(out) > 12:
                break
        return out

    def cond(self, e: ast.AST, st: State, fr: Frame, X: list) -> tuple[list, list]:
        """(states where e is true, states where e is false)."""
        if isinstance(e, ast.BoolOp):
            ts, fs = [], []
            cur = [st]
            is_and = isinstance(e.op, ast.And)
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(v, s, fr, X)
                    if is_and:
                        fs += f
                        nxt += t
                    else:
                        ts += t
                        nxt += f
                cur = self.merge(nxt)
                if not cur:
                    break
            if is_and:
                ts = cur
            else:
                fs = cur
            return self.merge(ts), self.merge(fs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr, X)
            return f, t
        if isinstance(e, ast.NamedExpr):
            ts, fs = [], []
            for s, v in self.ev(e.value, st, fr, X):
                for m in members(v):
                    s2 = s.fork()
                    self.set_var(s2, fr, e.target.id, m)
                    t, f = split(m, s2)
                    ts += t
                    fs += f
            return ts, fs
        ts, fs = [], []
        for s0 in self.expand(e, st, fr):
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                for s1, a in self.ev(e.left, s0, fr, X):
                    for s2, b in self.ev(e.comparators[0], s1, fr, X):
                        t, f = self.compare(e.ops[0], a, b, s2)
                        ts += t
                        fs += f
                continue
            if isinstance(e, ast.Compare):
                parts = []
                left = e.left
                for op, c in zip(e.ops, e.comparators):
                    parts.append(ast.copy_location(ast.Compare(left, [op], [c]), e))
                    left = c
                t, f = self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), s0, fr, X)
                ts += t
                fs += f
                continue
            for s1, v in self.ev(e, s0, fr, X):
                t, f = split(v, s1)
                ts += t
                fs += f
        return self.merge(ts), self.merge(fs)

    def compare(self, op: ast.cmpop, a: Term, b: Term, st: State) -> tuple[list, list]:
        n = type(op).__name__
        if n in ("NotEq", "IsNot", "NotIn"):
            t, f = self.compare({"NotEq": ast.Eq(), "IsNot": ast.Is(), "NotIn": ast.In()}[n], a, b, st)
            return f, t
        if n in ("Is", "Eq"):
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    if x.op == "phi":
                        return self.cmp_eq(x, y, st)
                    return self.split_atom(("none", x), st)
            if n == "Eq":
                r = self._len_cmp("eq", a, b, st)
                if r is not None:
                    return r
                m = None
                if a.op == "obj" and a.typ and a.typ[0] == "c":
                    m = a.typ[1].find_method("__eq__")
                if m is not None:
                    return self.split_atom(("p", "==", a, b), st)
            if n == "Is" and a.op == "obj" and b.op == "obj" and a is not b:
                return [], [st]
            return self.cmp_eq(a, b, st)
        if n == "In":
            if a.op == "phi":
                ts, fs = [], []
                for m in members(a):
                    t, f = self.compare(op, m, b, st)
                    ts += t
                    fs += f
                return self.merge(ts), self.merge(fs)
            el = literal_elems(b, st)
            if el is None and b.op == "cls" and b.args[0].is_enum():
                el = self.iter_elems(b, st)
            if el is not None and len(el) <= 6 and known(st, ("in", a, b)) is None and not is_k(a):
                ts, cur = [], [st]
                for x in el:
                    nxt = []
                    for s in cur:
                        t, f = self.cmp_eq(a, x, s)
                        ts += t
                        nxt += f
                    cur = nxt
                return ts, cur
            if b.op == "view" and b.args[1] == "keys":
                b = b.args[0]
            if b.op == "pure" and b.args[0] in ("builtins.list", "builtins.set", "builtins.sorted") and b.args[1]:
                b = b.args[1][0]
            return self.split_atom(("in", a, b), st)
        if n in ("Gt", "GtE"):
            return self.compare(ast.Lt() if n == "Gt" else ast.LtE(), b, a, st)
        if n == "LtE":
            t, f = self.compare(ast.Lt(), b, a, st)
            return f, t
        if n == "Lt":
            r = self._len_cmp("lt", a, b, st)
            if r is not None:
                return r
            if a.op == "phi" or b.op == "phi":
                ts, fs = [], []
                for x in members(a):
                    for y in members(b):
                        t, f = self.split_atom(("lt", x, y), st)
                        ts += t
                        fs += f
                return self.merge(ts), self.merge(fs)
            return self.split_atom(("lt", a, b), st)
        return [st.fork()], [st.fork()]

    def _len_cmp(self, kind: str, a: Term, b: Term, st: State):
        """len(x) == 0, len(x) < 1 and 0 < len(x) are emptiness tests."""

        def ln(t):
            return t.args[1][0] if t.op == "pure" and t.args[0] == "builtins.len" else None

        x, y = ln(a), ln(b)
        if x is not None and is_k(b) and isinstance(kv(b), int):
            n = length_of(x, st)
            if n is not None and n[0] == n[1]:
                r = n[0] == kv(b) if kind == "eq" else n[0] < kv(b)
                return ([st], []) if r else ([], [st])
            if kv(b) == 0 and kind == "eq" or kv(b) == 1 and kind == "lt":
                t, f = split(x, st)
                return f, t
        if y is not None and is_k(a) and isinstance(kv(a), int):
            n = length_of(y, st)
            if n is not None and n[0] == n[1]:
                r = n[0] == kv(a) if kind == "eq" else kv(a) < n[0]
                return ([st], []) if r else ([], [st])
            if kv(a) == 0 and kind == "eq":
                t, f = split(y, st)
                return f, t
            if kv(a) == 0 and kind == "lt":
                return split(y, st)
        return None

    # ================================================================ expressions

    def ev(self, e: ast.AST, st: State, fr: Frame, X: list) -> list:
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, TOP)]
        return m(e, st, fr, X)

    def evs(self, es: list, st: State, fr: Frame, X: list) -> list:
        out = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s, fr, X):
                    nxt.append((s2, vs + (v,)))
            out = self.merge_tups(nxt)
        return out

    def e_Constant(self, e, st, fr, X):
        if e.value is Ellipsis:
            return [(st, TOP)]
        return [(st, K(e.value))]

    def e_Name(self, e, st, fr, X):
        return [(st, self.get_var(st, fr, e.id, e, X))]

    def e_NamedExpr(self, e, st, fr, X):
        out = []
        for s, v in self.ev(e.value, st, fr, X):
            self.set_var(s, fr, e.target.id, v)
            out.append((s, v))
        return out

    def e_Tuple(self, e, st, fr, X):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._list_lit(e, st, fr, X)
        return [(s, tup(vs)) for s, vs in self.evs(e.elts, st, fr, X)]

    def fresh(self, st: State, node, fr: Frame, kind: str, elems=None, summ=None, fields=EMPTY, tag="") -> Term:
        o = mk("obj", self.site(node, fr, kind + tag), typ={"list": T_LIST, "dict": T_DICT, "set": T_SET}[kind])
        old = st.heap.get(o)
        rec = Rec(kind, None, fields, elems, summ)
        if old is not None and self._still_live(o, st, fr):
            rec = self.join_recs([old, rec]).but(weak=True)
        st.heap = st.heap.set(o, rec)
        return o

    def _still_live(self, o: Term, st: State, fr: Frame) -> bool:
        """An earlier object of this allocation site may still be referenced from another object."""
        for k, r in st.heap.d.items():
            if k is o:
                continue
            if isinstance(r, Rec):
                if any(contains_obj(v, o) for v in r.values()) or any(contains_obj(v, o) for v in r.fields.d.values()):
                    return True
            elif isinstance(r, Term) and contains_obj(r, o):
                return True
        return False

    def _list_lit(self, e, st, fr, X):
        kind = "set" if isinstance(e, ast.Set) else "list"
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr, X):
                elems: Optional[list] = []
                summ = []
                for x, v in zip(e.elts, vs):
                    if isinstance(x, ast.Starred):
                        le = self.iter_elems(v, s)
                        if le is not None and elems is not None:
                            elems += le
                        else:
                            elems = None
                            summ.append(self._elem(v, s, ("star",)))
                    else:
                        if elems is not None:
                            elems.append(v)
                        summ.append(v)
                if elems is not None:
                    out.append((s, self.fresh(s, e, fr, kind, tuple(elems))))
                else:
                    out.append((s, self.fresh(s, e, fr, kind, None, phi(summ) if summ else TOP)))
            return out
        out = []
        for s, vs in self.evs(e.elts, st, fr, X):
            if kind == "set":
                d: dict = {}
                for v in vs:
                    d[v] = 1
                vs = tuple(d)
            out.append((s, self.fresh(s, e, fr, kind, tuple(vs))))
        return out

    e_List = e_Set = _list_lit

    def e_Dict(self, e, st, fr, X):
        out = []
        ks = [k for k in e.keys if k is not None]
        for s, kvs in self.evs(ks, st, fr, X):
            for s2, vs in self.evs(e.values, s, fr, X):
                it = iter(kvs)
                f = EMPTY
                summ = None
                for k, v in zip(e.keys, vs):
                    if k is None:
                        r = s2.heap.get(v) if v.op == "obj" else None
                        if r is not None and r.kind == "dict":
                            for a, b in r.fields.items():
                                f = f.set(a, b)
                            if r.summ is not None:
                                summ = phi([x for x in (summ, r.summ) if x is not None])
                        else:
                            summ = TOP
                        continue
                    kk = next(it)
                    f = f.set(kk, v)
                out.append((s2, self.fresh(s2, e, fr, "dict", fields=f, summ=summ)))
        return out

    def e_JoinedStr(self, e, st, fr, X):
        out = [(st, ())]
        for p in e.values:
            nxt = []
            for s, ps in out:
                if isinstance(p, ast.Constant):
                    nxt.append((s, ps + (K(p.value),)))
                else:
                    for s2, v in self.ev(p.value, s, fr, X):
                        if p.conversion not in (-1, 115) or p.format_spec is not None:
                            v = mk("pure", "fmtspec", (v,), ast.unparse(p), typ=T_STR)
                        elif v.op == "enum":
                            v = self.str_of(v, s2)
                        nxt.append((s2, ps + (v,)))
            out = nxt
        return [(s, self.concat(ps)) for s, ps in out]

    def concat(self, parts) -> Term:
        flat: list = []
        for p in parts:
            sub = p.args[0] if p.op == "fmt" else (p,)
            for q in sub:
                pc = path_const(q)
                if pc is not None:
                    q = K(str(pc))
                if is_k(q):
                    q = K(str(kv(q)))
                    if kv(q) == "":
                        continue
                    if flat and is_k(flat[-1]):
                        flat[-1] = K(kv(flat[-1]) + kv(q))
                        continue
                flat.append(q)
        if not flat:
            return K("")
        if len(flat) == 1 and is_k(flat[0]):
            return flat[0]
        return mk("fmt", tuple(flat), typ=T_STR)

    def str_of(self, v: Term, st: State) -> Term:
        if is_k(v):
            return K(str(kv(v)))
        if v.op == "enum":
            from .facts import k_of_enum
            ev = k_of_enum(v)
            if ev is not None:
                return K(str(ev))
        if v.op == "fmt" or (v.typ == T_STR and v.op in ("pure",)):
            return v
        pc = path_const(v)
        if pc is not None:
            return K(str(pc))
        return mk("fmt", (v,), typ=T_STR)

    def e_FormattedValue(self, e, st, fr, X):
        return self.ev(e.value, st, fr, X)

    def e_BoolOp(self, e, st, fr, X):
        out = []
        cur = [st]
        is_and = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                if not last and isinstance(v, (ast.Compare, ast.BoolOp)) or (
                        not last and isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                    t, f = self.cond(v, s, fr, X)
                    if is_and:
                        out += [(x, FALSE) for x in f]
                        nxt += t
                    else:
                        out += [(x, TRUE) for x in t]
                        nxt += f
                    continue
                for s1, val in self.ev(v, s, fr, X):
                    if last:
                        out.append((s1, val))
                        continue
                    for m in members(val):
                        t, f = split(m, s1)
                        if is_and:
                            out += [(x, m) for x in f]
                            nxt += t
                        else:
                            out += [(x, m) for x in t]
                            nxt += f
            cur = self.merge(nxt)
        return self.merge_vals(out)

    def e_UnaryOp(self, e, st, fr, X):
        if isinstance(e.op, ast.Not):
            out = []
            if isinstance(e.operand, (ast.BoolOp, ast.NamedExpr)) or (isinstance(e.operand, ast.Compare) and len(e.operand.ops) > 1):
                t, f = self.cond(e.operand, st, fr, X)
                return [(x, FALSE) for x in t] + [(x, TRUE) for x in f]
            for s, v in self.ev(e.operand, st, fr, X):
                for m in members(v):
                    r = truth(m, s)
                    out.append((s if v.op != "phi" else s.fork(), K(not r) if isinstance(r, bool) else mk("not", m, typ=T_BOOL)))
            return self.merge_vals(out)
        out = []
        for s, v in self.ev(e.operand, st, fr, X):
            if is_k(v) and isinstance(kv(v), (int, float)):
                try:
                    r = {"USub": lambda a: -a, "UAdd": lambda a: +a, "Invert": lambda a: ~a}[type(e.op).__name__](kv(v))
                    out.append((s, K(r)))
                    continue
                except TypeError:
                    pass
            out.append((s, mk("bin", type(e.op).__name__, v, typ=v.typ)))
        return out

    def e_BinOp(self, e, st, fr, X):
        out = []
        for s, a in self.ev(e.left, st, fr, X):
            for s2, b in self.ev(e.right, s, fr, X):
                out.append((s2, self.binop(e.op, a, b, s2, e, fr)))
        return out

    def binop(self, op, a, b, st, node, fr) -> Term:
        n = type(op).__name__
        if a.op == "phi" or b.op == "phi":
            if len(members(a)) * len(members(b)) <= 8:
                return phi([self.binop(op, x, y, st, node, fr) for x in members(a) for y in members(b)])
            return TOP
        ka = a if is_k(a) else None
        kb = b if is_k(b) else None
        if ka is not None and kb is not None:
            try:
                x, y = kv(a), kv(b)
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y,
                     "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y,
                     "Pow": lambda: x ** y if abs(y) < 64 else None}.get(n, lambda: None)()
                if r is not None and isinstance(r, (int, float, str, bool)) and (not isinstance(r, str) or len(r) < 2000):
                    return K(r)
            except Exception:
                pass
        ta, tb = ty_name(a.typ), ty_name(b.typ)
        if n == "Add":
            if "builtins.str" in (ta, tb) or a.op == "fmt" or b.op == "fmt":
                return self.concat((a, b))
            if ta == "builtins.list" or tb == "builtins.list":
                ea, eb = literal_elems(a, st), literal_elems(b, st)
                if ea is not None and eb is not None:
                    return self.fresh(st, node, fr, "list", tuple(ea + eb))
                return self.fresh(st, node, fr, "list", None, phi([self._elem(a, st, ("add",)), self._elem(b, st, ("add",))]))
            if a.op == "tup" and b.op == "tup":
                return tup(a.args[0] + b.args[0])
        if n == "Div" and (path_const(a) is not None or path_const(b) is not None):
            qa, qb = path_arg(a), path_arg(b)
            if qa is not None and qb is not None:
                return kpath(PurePosixPath(qa) / qb)
        if n == "Div" and (ta == "pathlib.Path" or tb == "pathlib.Path"):
            return mk("path", a, b, typ=T_PATH)
        if n in ("BitOr", "BitAnd", "Sub", "BitXor") and ("builtins.set" in (ta, tb) or "builtins.dict" in (ta, tb)):
            kind = "dict" if ta == "builtins.dict" else "set"
            ea, eb = literal_elems(a, st), literal_elems(b, st)
            if kind == "dict":
                ra, rb = st.heap.get(a), st.heap.get(b)
                if isinstance(ra, Rec) and isinstance(rb, Rec) and ra.summ is None and rb.summ is None:
                    f = ra.fields
                    for k, v in rb.fields.items():
                        f = f.set(k, v)
                    return self.fresh(st, node, fr, "dict", fields=f)
                return mk("bin", n, a, b, typ=a.typ or b.typ)
            if ea is not None and eb is not None and all(is_lit(x) for x in ea + eb):
                r = {"BitOr": ea + [x for x in eb if x not in ea], "BitAnd": [x for x in ea if x in eb],
                     "Sub": [x for x in ea if x not in eb],
                     "BitXor": [x for x in ea if x not in eb] + [x for x in eb if x not in ea]}[n]
                return self.fresh(st, node, fr, "set", tuple(r))
            return mk("bin", n, a, b, typ=a.typ or b.typ)
        if n == "Mod" and ta == "builtins.str":
            return mk("fmt", (mk("pure", "%", (a, b)),), typ=T_STR)
        if n in ("Add", "Mult"):
            typ = a.typ if ta == tb else None
        elif n == "Div":
            typ = xt("builtins.float")
        else:
            typ = a.typ if ta == tb else None
        if a.op == "top" and b.op == "top":
            return mk("top", ("b",), typ=typ) if typ else TOP
        return mk("bin", n, a, b, typ=typ)

    def e_Compare(self, e, st, fr, X):
        t, f = self.cond(e, st, fr, X)
        if len(t) == 1 and len(f) == 1 and isinstance(e, ast.Compare) and len(e.ops) == 1:
            # keep one state and a symbolic truth value when the comparison decides one atom
            d = [a for a in t[0].facts.d if t[0].facts.get(a) is True and f[0].facts.get(a) is False and a[0] not in ("eqk", "instk")]
            d2 = [a for a in t[0].facts.d if t[0].facts.get(a) is False and f[0].facts.get(a) is True]
            if len(d) + len(d2) == 1 and t[0].frames == f[0].frames and t[0].heap == f[0].heap:
                s = t[0].fork()
                s.facts = st.facts
                a = (d or d2)[0]
                return [(s, mk("atom", a, bool(d), typ=T_BOOL))]
        return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]

    def e_IfExp(self, e, st, fr, X):
        t, f = self.cond(e.test, st, fr, X)
        out = []
        for s in t:
            out += self.ev(e.body, s, fr, X)
        for s in f:
            out += self.ev(e.orelse, s, fr, X)
        return self.merge_vals(out)

    def e_Lambda(self, e, st, fr, X):
        fi = self.p.node_fn.get(id(e))
        return [(st, mk("fn", fi, None, (fr.fid,) + fr.chain) if fi else TOP)]

    def e_Starred(self, e, st, fr, X):
        return self.ev(e.value, st, fr, X)

    def e_Await(self, e, st, fr, X):
        return self.ev(e.value, st, fr, X)

    def e_Yield(self, e, st, fr, X):
        out = []
        for s, v in self.ev(e.value, st, fr, X) if e.value is not None else [(st, NONE)]:
            f = s.frames.get(fr.fid) or EMPTY
            acc = f.get("$yield")
            if acc is not None and acc.op == "yieldacc" and v not in acc.args and len(acc.args) < 6:
                s.frames = s.frames.set(fr.fid, f.set("$yield", mk("yieldacc", *(acc.args + (v,)))))
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, e, st, fr, X):
        out = []
        for s, v in self.ev(e.value, st, fr, X):
            f = s.frames.get(fr.fid) or EMPTY
            acc = f.get("$yield")
            x = self._elem(v, s, self.site(e, fr, "yf"))
            if acc is not None and acc.op == "yieldacc" and x not in acc.args and len(acc.args) < 6:
                s.frames = s.frames.set(fr.fid, f.set("$yield", mk("yieldacc", *(acc.args + (x,)))))
            out.append((s, TOP))
        return out

    # ---- comprehensions

    def e_ListComp(self, e, st, fr, X):
        return self._comp(e, [e.elt], "list", st, fr, X)

    def e_SetComp(self, e, st, fr, X):
        return self._comp(e, [e.elt], "set", st, fr, X)

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, fr, X):
        return self._comp(e, [e.key, e.value], "dict", st, fr, X)

    def _comp(self, e, elts, kind, st, fr, X):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        f0 = st.frames.get(fr.fid) or EMPTY
        saved = {n: f0.get(n) for n in names}

        def restore(s: State) -> State:
            f = s.frames.get(fr.fid) or EMPTY
            for n, v in saved.items():
                f = f.delete(n) if v is None else f.set(n, v)
            s.frames = s.frames.set(fr.fid, f)
            return s

        X2: list = []
        # exact unrolling of a single generator over known elements
        g0 = e.generators[0]
        results = []
        for s, it in self.ev(g0.iter, st, fr, X2):
            elems = self.iter_elems(it, s)
            if elems is not None and len(elems) <= 12 and len(e.generators) == 1:
                cur: list = [(s.fork(), ())]
                nxt: Optional[list] = []
                base = fr.ctx
                for i, el in enumerate(elems):
                    fr.ctx = self.iter_ctx(base, i) if i else base
                    nxt = []
                    for c, acc in cur:
                        for c1 in self.assign(g0.target, el, c, fr, X2):
                            keep, drop = [c1], []
                            for cnd in g0.ifs:
                                k2 = []
                                for z in keep:
                                    t, f = self.cond(cnd, z, fr, X2)
                                    k2 += t
                                    drop += f
                                keep = k2
                            nxt += [(d, acc) for d in drop]
                            for z in keep:
                                for z2, vs in self.evs(elts, z, fr, X2):
                                    nxt.append((z2, acc + (vs,)))
                    if len(nxt) > 24:
                        ded: dict = {}
                        for c, acc in nxt:
                            ded.setdefault((c.sig(), acc), (c, acc))
                        nxt = list(ded.values())
                    if len(nxt) > 40:
                        nxt = None
                        break
                    cur = nxt
                fr.ctx = base
                if nxt is not None:
                    for c, acc in cur:
                        restore(c)
                        if kind == "dict":
                            f = EMPTY
                            for k, v in acc:
                                f = f.set(k, v)
                            results.append((c, self.fresh(c, e, fr, "dict", fields=f)))
                        else:
                            vals = [a[0] for a in acc]
                            if kind == "set":
                                vals = list(dict.fromkeys(vals))
                            results.append((c, self.fresh(c, e, fr, kind, tuple(vals))))
                    continue
            # abstract: empty, or an arbitrary element through every generator
            empties = [s.fork()]
            cur_states = [s]
            for gi, g in enumerate(e.generators):
                nxt = []
                for c in cur_states:
                    its = [(c, it)] if gi == 0 else self.ev(g.iter, c, fr, X2)
                    for c1, itv in its:
                        site = self.site(g.iter, fr, f"comp{gi}")
                        kill(c1, site)
                        for c2, val in self.elem_of(itv, c1, site):
                            ks = self.assign(g.target, val, c2, fr, X2)
                            for cnd in g.ifs:
                                k2 = []
                                for z in ks:
                                    t, f = self.cond(cnd, z, fr, X2)
                                    k2 += t
                                ks = k2
                            nxt += ks
                cur_states = self.merge(nxt)
            vals: list = []
            finals = []
            for c in cur_states:
                for c2, vs in self.evs(elts, c, fr, X2):
                    vals.append(vs)
                    finals.append(c2)
            fin = self.merge([restore(c) for c in finals] + empties)
            # facts about a single arbitrary element do not outlive the comprehension
            for c in fin:
                for gi, g in enumerate(e.generators):
                    kill(c, self.site(g.iter, fr, f"comp{gi}"))
            groups: dict = {}
            for c in fin:
                groups.setdefault((self.h.partition(c), c.facts), []).append(c)
            for gl in groups.values():
                c = self.join_states(gl)
                if kind == "dict":
                    f = EMPTY
                    summ = phi([v[1] for v in vals]) if vals else None
                    o = self.fresh(c, e, fr, "dict", summ=summ)
                    kk = phi([v[0] for v in vals]) if vals else TOP
                    o.meta = kk
                    results.append((c, o))
                else:
                    summ = phi([v[0] for v in vals]) if vals else None
                    results.append((c, self.fresh(c, e, fr, kind, None if summ is not None else (), summ)))
        X.extend((restore(s), v) for s, v in X2)
        return results

    # ---- attributes and subscripts

    def e_Attribute(self, e, st, fr, X):
        out = []
        for s, b in self.ev(e.value, st, fr, X):
            out += self.getattr(b, e.attr, s, e, fr, X)
        return out

    def getattr(self, b: Term, name: str, st: State, node, fr: Frame, X: list) -> list:
        if b.op == "phi":
            simple = []
            for m in members(b):
                r = self.getattr(m, name, st.fork(), node, fr, [])
                if len(r) != 1 or r[0][0].sig() != st.sig():
                    simple = None
                    break
                simple.append(r[0][1])
            if simple is not None:
                return [(st, phi(simple))]
            out = []
            for m in members(b):
                out += self.getattr(m, name, st.fork(), node, fr, X)
            return out
        if b.op == "mod":
            e = self.p.resolve_dotted(b.args[0].name, name)
            g = st.frames.get(("G", b.args[0].name, name))
            if g is not None:
                return [(st, g.get("v"))]
            return [(st, self.entity(e, st, fr) if e is not None else TOP)]
        if b.op == "ext":
            d = f"{b.args[0]}.{name}"
            return [(st, mk("ext", _EXT_CANON.get(d, d)))]
        if b.op == "cls":
            return [(st, self.class_attr(b.args[0], name, st, b))]
        if b.op == "super":
            selfv, cls = b.args
            t = b.typ
            mro = t[1].mro() if t else cls.mro()
            after = mro[mro.index(cls) + 1:] if cls in mro else cls.mro()[1:]
            for c in after:
                if isinstance(c, ClassInfo):
                    if name in c.methods:
                        f = c.methods[name]
                        return [(st, mk("fn", f, selfv if f.kind != "static" else None, ()))]
                else:
                    return [(st, mk("bm", mk("superext", selfv, c, typ=xt(c)), name))]
            return [(st, mk("bm", mk("superext", selfv, "builtins.object", typ=xt("builtins.object")), name))]
        if b.op == "enum":
            from .facts import enum_value as evf
            c = b.args[0]
            if name == "value":
                v = evf(b)
                ev = c.attrs.get(b.args[1])
                if v is not None:
                    return [(st, K(v))]
                return [(st, mk("attr", b, "value"))]
            if name == "name":
                return [(st, K(b.args[1]))]
        if b.op == "obj":
            r: Rec = st.heap.get(b)
            if r is not None and r.kind == "inst":
                v = r.fields.get(name)
                if v is not None:
                    return [(st, v)]
                if isinstance(r.cls, ClassInfo):
                    return self.inst_attr(b, r.cls, name, st, node, fr, X)
            return [(st, mk("bm", b, name))]
        key = ("sym", b, name)
        ov = st.heap.get(key)
        if ov is not None:
            return [(st, ov)]
        t = ty_strip_none(b.typ)
        if t is not None and t[0] == "c":
            return self.inst_attr(b, t[1], name, st, node, fr, X)
        return [(st, self.ext_attr(b, t, name))]

    def ext_attr(self, b: Term, t: Any, name: str) -> Term:
        """Attribute of a value of library or unknown type: a data attribute and a bound method at once."""
        ty = None
        pc = path_const(b)
        if pc is not None and name in ("name", "stem", "suffix", "parent", "parts", "anchor"):
            v = getattr(pc, name)
            return kpath(v) if name == "parent" else tup(tuple(K(x) for x in v)) if name == "parts" else K(v)
        if t is not None and t[0] == "x":
            if t[1] == "pathlib.Path":
                if name == "parent":
                    ty = T_PATH
                elif name in ("name", "stem", "suffix"):
                    ty = T_STR
            elif t[1] not in _SCALAR_OR_CONT:
                ty = xt(f"{t[1]}.{name}")
        return mk("attr", b, name, typ=ty)

    def inst_attr(self, b: Term, c: ClassInfo, name: str, st: State, node, fr, X) -> list:
        m = c.find_method(name)
        if m is not None:
            if m.kind == "property":
                return self.call_fn(m, b, (), {}, st, node, fr, X, ())
            return [(st, mk("fn", m, b if m.kind != "static" else None, ()))]
        ca = c.find_attr(name)
        if ca is not None and ca[1] is not None and not (c.is_namedtuple() or c.is_dataclass()):
            return [(st, self.class_attr(c, name, st, mk("cls", c)))]
        if b.op == "obj":
            # an attribute __init__ has not set (yet): unknown, not symbolic
            ext = c.ext_bases()
            if c.is_exception() and name == "args":
                return [(st, mk("attr", b, name))]
        return [(st, mk("attr", b, name, typ=self.types.attr(c, name)))]

    def class_attr(self, c: ClassInfo, name: str, st: State, b: Term) -> Term:
        if name in c.inner:
            return mk("cls", c.inner[name])
        if c.is_enum() and name in c.enum_members():
            return mk("enum", c, name, typ=ct(c))
        ov = st.heap.get(("sym", b, name))
        if ov is not None:
            return ov
        m = c.find_method(name)
        if m is not None:
            return mk("fn", m, b if m.kind == "classmethod" else None, ())
        a = c.find_attr(name)
        if a is not None and a[1] is not None:
            key = f"{a[0].qual}.{name}"
            if key not in self._globals_active:
                self._globals_active.add(key)
                try:
                    v = self.class_const(a[0], a[1], st, ("global", key))
                finally:
                    self._globals_active.discard(key)
                if v is not None:
                    return v
            return mk("global", key)
        if name in ("__name__", "__qualname__"):
            return K(c.name)
        return mk("attr", b, name)

    def class_const(self, c: ClassInfo, e: ast.AST, st: State, oid) -> Optional[Term]:
        # class bodies may refer to earlier class-level names
        names = [n.id for n in ast.walk(e) if isinstance(n, ast.Name)]
        fid = ("modinit", c.mod.name)
        v = None
        env = EMPTY
        for n in names:
            if n in c.attrs and c.attrs[n] is not None and n not in c.mod.binds:
                env = env.set(n, self.class_attr(c, n, st, mk("cls", c)))
        save = self.const_eval
        if len(env) == 0:
            return self.const_eval(e, c.mod, st, oid)
        fr = Frame(None, ("clsinit", c.qual), self.ctx(0, e, None), c.mod, (), ())
        s2 = st.fork()
        s2.frames = s2.frames.set(fr.fid, env)
        res = self.ev(e, s2, fr, [])
        return res[0][1] if len(res) == 1 and res[0][1].op != "obj" else None

    def ev_index(self, sl, st, fr, X):
        if isinstance(sl, ast.Slice):
            out = []
            parts = [p for p in (sl.lower, sl.upper, sl.step)]
            for s, vs in self.evs([p if p is not None else ast.Constant(None) for p in parts], st, fr, X):
                out.append((s, mk("slice", *vs)))
            return out
        return self.ev(sl, st, fr, X)

    def e_Subscript(self, e, st, fr, X):
        out = []
        for s, b in self.ev(e.value, st, fr, X):
            for s2, k in self.ev_index(e.slice, s, fr, X):
                if b.op in ("ext", "cls"):
                    if b.op == "cls" and b.args[0].is_enum() and is_k(k) and kv(k) in b.args[0].enum_members():
                        out.append((s2, mk("enum", b.args[0], kv(k), typ=ct(b.args[0]))))
                    else:
                        out.append((s2, b))
                    continue
                self.h_subscript(b, k, s2, e, fr, X)
                out.append((s2, self.item(b, k, s2, e, fr)))
        return out

    def h_subscript(self, b, k, st, e, fr, X):
        """Reading a subscript may raise; the check's model decides whether that is of interest."""
        exc = self.h.ext_raises("subscript", Event("subscript", "subscript", b, (k,), None, e, fr.fi, fr.ctx))
        for c in exc:
            X.append((st.fork(), self.mk_exc(c, e, fr)))

    def item(self, b: Term, k: Term, st: State, node, fr) -> Term:
        if b.op == "phi":
            return phi([self.item(m, k, st, node, fr) for m in members(b)])
        if k.op == "phi" and len(members(k)) <= 6:
            return phi([self.item(b, m, st, node, fr) for m in members(k)])
        if k.op == "slice":
            if b.op == "tup" and all(is_k(x) for x in k.args):
                return tup(b.args[0][slice(*[kv(x) for x in k.args])])
            if is_k(b) and isinstance(kv(b), str) and all(is_k(x) for x in k.args):
                return K(kv(b)[slice(*[kv(x) for x in k.args])])
            if b.op == "obj":
                r = st.heap.get(b)
                if r is not None and r.kind == "list":
                    if r.elems is not None and all(is_k(x) for x in k.args):
                        return self.fresh(st, node, fr, "list", r.elems[slice(*[kv(x) for x in k.args])])
                    return self.fresh(st, node, fr, "list", None, phi(r.values()) if r.values() else None)
            t = ty_name(b.typ)
            if t == "builtins.list":
                o = self.fresh(st, node, fr, "list", None, mk("elem", b, typ=self.types.elem(b.typ), site=("slice",)))
                o.meta = ("slice", b, k)
                return o
            return mk("pure", "slice", (b, k), typ=b.typ if t == "builtins.str" else None)
        if b.op == "tup":
            if is_k(k) and isinstance(kv(k), int) and -len(b.args[0]) <= kv(k) < len(b.args[0]):
                return b.args[0][kv(k)]
            return phi(b.args[0]) if b.args[0] else TOP
        if is_k(b) and isinstance(kv(b), str):
            if is_k(k) and isinstance(kv(k), int) and -len(kv(b)) <= kv(k) < len(kv(b)):
                return K(kv(b)[kv(k)])
            return mk("item", b, k, typ=T_STR)
        if b.op == "obj":
            r = st.heap.get(b)
            if r is None:
                return TOP
            if r.kind == "dict":
                v = r.fields.get(k)
                if v is not None:
                    # an entry stored under an unknown key might have overwritten it, but it reads as stored
                    return v
                if is_lit(k) or r.summ is not None:
                    vs = r.values() if not is_lit(k) else [x for x in [r.summ] if x is not None] + [
                        v2 for k2, v2 in r.fields.d.items() if not is_lit(k2)]
                    return phi(vs) if vs else TOP
                vs = r.values()
                return phi(vs) if vs else TOP
            if r.kind == "list":
                if r.elems is not None and is_k(k) and isinstance(kv(k), int) and -len(r.elems) <= kv(k) < len(r.elems):
                    return r.elems[kv(k)]
                vs = r.values()
                return phi(vs) if vs else TOP
            if r.kind == "inst" and isinstance(r.cls, ClassInfo) and r.cls.is_namedtuple() and is_k(k) and isinstance(kv(k), int):
                fs = list(r.cls.annots)
                if -len(fs) <= kv(k) < len(fs):
                    return r.fields.get(fs[kv(k)]) or TOP
            return TOP
        if b.op == "top":
            return TOP
        if k.op in ("K", "enum"):
            ov = st.heap.get(("sym", b, k))
            if ov is not None:
                return ov
        if b.op == "global":
            pass
        ty = self.item_type(b.typ)
        t = ty_strip_none(b.typ)
        if t is not None and t[0] == "x" and t[1] == "builtins.tuple" and is_k(k) and isinstance(kv(k), int) and len(t[2]) > abs(kv(k)):
            ty = t[2][kv(k)]
        return mk("item", b, k, typ=ty)

    # ================================================================ calls

    def e_Call(self, e, st, fr, X):
        self.call_sites.add((fr.mod.rel if fr.mod else "", e.lineno, e.col_offset))
        out = []
        for s, f in self.ev(e.func, st, fr, X):
            for s2, args, kwargs in self.eval_args(e, s, fr, X):
                out += self.call(f, args, kwargs, s2, e, fr, X)
        return self.merge_vals(out)

    def eval_args(self, e, st, fr, X):
        """[(state, positional values, keyword values)]; a starred argument of unknown length is a 'star' value."""
        out: list = [(st, ())]
        shape: list = []  # per value: None for positional, keyword name otherwise
        for a in list(e.args) + list(e.keywords):
            nxt = []
            expr = a.value if isinstance(a, (ast.Starred, ast.keyword)) else a
            for s, vs in out:
                for s2, v in self.ev(expr, s, fr, X):
                    nxt.append((s2, vs + (v,)))
            out = self.merge_tups(nxt)
            shape.append("*" if isinstance(a, ast.Starred) else ("=", a.arg) if isinstance(a, ast.keyword) else None)
        res = []
        for s, vs in out:
            pos: list = []
            kw: dict = {}
            for sh, v in zip(shape, vs):
                if sh is None:
                    pos.append(v)
                elif sh == "*":
                    el = self.iter_elems(v, s)
                    pos += el if el is not None else [mk("star", v)]
                elif sh[1] is None:
                    r = s.heap.get(v) if v.op == "obj" else None
                    if isinstance(r, Rec) and r.kind == "dict" and r.summ is None and all(is_k(x) for x in r.fields.d):
                        kw.update({kv(x): y for x, y in r.fields.d.items()})
                    else:
                        kw["**"] = v
                else:
                    kw[sh[1]] = v
            res.append((s, tuple(pos), kw))
        return res

    def call(self, f: Term, args: tuple, kwargs: dict, st: State, node, fr: Frame, X: list) -> list:
        self.tick()
        if f.op == "phi":
            out = []
            for m in members(f):
                out += self.call(m, args, kwargs, st.fork(), node, fr, X)
            return self.merge_vals(out)
        if f.op == "fn":
            fi, selfv, chain = f.args
            return self.call_fn(fi, selfv, args, kwargs, st, node, fr, X, chain)
        if f.op == "cls":
            return self.construct(f.args[0], args, kwargs, st, node, fr, X)
        if f.op == "ext":
            return self.call_ext(f.args[0], None, args, kwargs, st, node, fr, X)
        if f.op == "partial":
            fn, a0, k0 = f.args
            kw = dict(k0)
            kw.update(kwargs)
            return self.call(fn, a0 + args, kw, st, node, fr, X)
        if f.op == "bm":
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node, fr, X)
        if f.op == "attr":
            b, name = f.args[0], f.args[1]
            return self.call_method(b, name, args, kwargs, st, node, fr, X)
        # calling an unknown value
        m = self.lookup_method(f, "__call__", st)
        if m is not None:
            return self.call(m, args, kwargs, st, node, fr, X)
        return self.unknown_call("?", f, args, kwargs, st, node, fr, X)

    def lookup_method(self, v: Term, name: str, st: State) -> Optional[Term]:
        t = ty_strip_none(v.typ)
        if v.op == "obj":
            r = st.heap.get(v)
            if r is not None and r.kind == "inst" and isinstance(r.cls, ClassInfo):
                t = ct(r.cls)
        if t is not None and t[0] == "c":
            m = t[1].find_method(name)
            if m is not None:
                return mk("fn", m, v, ())
        return None

    def bind(self, fi: FuncInfo, selfv: Optional[Term], args: tuple, kwargs: dict, st: State, fr: Frame, node) -> dict:
        a = fi.node.args
        pos = a.posonlyargs + a.args
        bound: dict = {}
        vals = list(args)
        if selfv is not None and fi.kind in ("method", "property", "classmethod"):
            vals = [selfv] + vals
        star = next((i for i, v in enumerate(vals) if v.op == "star"), None)
        extra: list = []
        for i, v in enumerate(vals):
            if v.op == "star":
                src = v.args[0]
                for j in range(i, len(pos)):
                    if pos[j].arg not in kwargs:
                        bound[pos[j].arg] = self._elem(src, st, ("star", j))
                break
            if i < len(pos):
                bound[pos[i].arg] = v
            else:
                extra.append(v)
        kwx = EMPTY
        names = {p.arg for p in pos + a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                bound[k] = v
            elif k == "**":
                for p in pos + a.kwonlyargs:
                    bound.setdefault(p.arg, self.item(v, K(p.arg), st, node, fr))
            else:
                kwx = kwx.set(K(k), v)
        defaults = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + a.kwonlyargs:
            if p.arg not in bound:
                d = defaults.get(p.arg)
                if d is not None:
                    dfr = Frame(None, ("default", fi.qual), self.ctx(0, d, None), fi.mod, (), ())
                    if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call):
                        v = self.const_eval(d, fi.mod, st, ("global", f"{fi.qual}.<default {p.arg}>"))
                        bound[p.arg] = v if v is not None else TOP
                    else:
                        r = self.ev(d, st, dfr, [])
                        bound[p.arg] = r[0][1] if r else TOP
                else:
                    bound[p.arg] = mk("param", p.arg, typ=self.types.ann(fi.mod, p.annotation))
        for p in pos + a.kwonlyargs:
            v = bound[p.arg]
            if v.typ is None and p.annotation is not None and v.op in ("call", "item", "elem", "attr", "rcall", "param", "pure"):
                v.typ = self.types.ann(fi.mod, p.annotation)
        if a.vararg:
            bound[a.vararg.arg] = tup(extra) if star is None else TOP
        if a.kwarg:
            o = mk("obj", ("kwargs", self.site(node, fr)), typ=T_DICT)
            st.heap = st.heap.set(o, Rec("dict", None, kwx))
            bound[a.kwarg.arg] = o
        return bound

    def call_fn(self, fi: FuncInfo, selfv, args, kwargs, st, node, fr, X, chain) -> list:
        # dynamic dispatch on symbolic receivers
        if selfv is not None and fi.cls is not None and selfv.op not in ("obj", "cls", "super") and selfv not in self.exact \
                and not fi.name.startswith("__"):
            t = ty_strip_none(selfv.typ)
            if t is not None and t[0] == "c":
                impls = []
                for c in [t[1]] + self.p.subclasses(t[1]):
                    m = c.find_method(fi.name)
                    if m is not None and m not in impls and not m.is_abstract():
                        if not self._excluded(st, selfv, c):
                            impls.append(m)
                if len(impls) > 1 or (impls and impls[0] is not fi):
                    out = []
                    for m in impls:
                        out += self._call_one(m, selfv, args, kwargs, st.fork(), node, fr, X, chain)
                    return self.merge_vals(out)
        return self._call_one(fi, selfv, args, kwargs, st, node, fr, X, chain)

    def _excluded(self, st: State, v: Term, c: ClassInfo) -> bool:
        return known(st, ("inst", v, c)) is False

    def _call_one(self, fi, selfv, args, kwargs, st, node, fr, X, chain) -> list:
        mm = self.h.model(self, st, fi.qual, selfv, args, kwargs, node, fr, X)
        if mm is not None:
            return mm
        bound = self.bind(fi, selfv, args, kwargs, st, fr, node)
        if self.h.opaque(fi, self, args) and not self._from_within(fi, fr):
            return self.opaque_call(fi, selfv, bound, st, node, fr, X)
        ev = Event("enter", fi.qual, selfv, args, kwargs, node, fr.fi, fr.ctx, extra=bound)
        self.emit(st, ev)
        n0 = len(X)
        res = self._invoke(fi, bound, st, fr, node, X, chain)
        for s, v in res:
            self.emit(s, Event("leave", fi.qual, selfv, args, kwargs, node, fr.fi, fr.ctx, v, extra=bound))
        for s, v in X[n0:]:
            self.emit(s, Event("leave_exc", fi.qual, selfv, args, kwargs, node, fr.fi, fr.ctx, v, extra=bound))
        return res

    def _from_within(self, fi: FuncInfo, fr: Frame) -> bool:
        """A helper of an otherwise opaque module, called from a function of that module that is being interpreted."""
        mods = getattr(self.h, "opaque_mods", ())
        return bool(mods) and fr.fi is not None and fr.fi.mod is fi.mod and fi.kind != "method" and fi.mod.name.startswith(mods)

    def opaque_call(self, fi, selfv, bound, st, node, fr, X) -> list:
        site = self.site(node, fr, "oc")
        kill(st, site)
        vals = tuple(bound.values())
        typ = self.types.ret(fi)
        ev = Event("opaque", fi.qual, selfv, vals, dict(bound), node, fr.fi, fr.ctx)
        self.emit(st, ev)
        for c in self.h.opaque_raises(fi):
            s = st.fork()
            exc = self.mk_exc(c, node, fr)
            self.emit(s, Event("opaque_exc", fi.qual, selfv, vals, dict(bound), node, fr.fi, fr.ctx, exc))
            X.append((s, exc))
        v = mk("call", fi.qual, vals, typ=typ, site=site)
        self.emit(st, Event("opaque_ret", fi.qual, selfv, vals, dict(bound), node, fr.fi, fr.ctx, v))
        return [(st, v)]

    def construct(self, c: ClassInfo, args, kwargs, st, node, fr, X) -> list:
        if c.is_enum():
            if args and is_k(args[0]):
                for m in c.enum_members():
                    t = mk("enum", c, m, typ=ct(c))
                    from .facts import enum_value as evf
                    if evf(t) == kv(args[0]) and evf(t) is not None:
                        return [(st, t)]
            ev = Event("call", c.qual, None, args, kwargs, node, fr.fi, fr.ctx)
            self.emit(st, ev)
            for ex in self.h.ext_raises(c.qual, ev):
                X.append((st.fork(), self.mk_exc(ex, node, fr)))
            if args and args[0].op == "enum":
                return [(st, args[0])]
            return [(st, mk("pure", c.qual, args, typ=ct(c)))]
        mm = self.h.model(self, st, c.qual, None, args, kwargs, node, fr, X)
        if mm is not None:
            return mm
        if self.h.opaque_class(c):
            init = c.find_method("__init__")
            site = self.site(node, fr, "new")
            kill(st, site)
            kw = dict(kwargs)
            if init is not None:
                b = self.bind(init, NONE, args, kwargs, st, fr, node)
                kw = {k: v for k, v in list(b.items())[1:]}
            ev = Event("new", c.qual, None, args, kw, node, fr.fi, fr.ctx)
            self.emit(st, ev)
            for ex in self.h.opaque_raises(init) if init is not None else []:
                s = st.fork()
                exc = self.mk_exc(ex, node, fr)
                self.emit(s, Event("opaque_exc", init.qual, None, args, kw, node, fr.fi, fr.ctx, exc))
                X.append((s, exc))
            v = mk("call", c.qual, tuple(kw.values()), typ=ct(c), site=site)
            self.exact.add(v)
            self.emit(st, Event("new_ret", c.qual, None, args, kw, node, fr.fi, fr.ctx, v))
            return [(st, v)]
        oid = self.site(node, fr, "inst:" + c.name)
        o = mk("obj", oid, typ=ct(c))
        old = st.heap.get(o)
        live = old is not None and self._still_live(o, st, fr)
        st.heap = st.heap.set(o, Rec("inst", c, old.fields if live else EMPTY, weak=live))
        init = c.find_method("__init__")
        if init is not None:
            res = self._call_one(init, o, args, kwargs, st, node, fr, X, ())
            return [(s, o) for s, _ in res]
        if c.is_namedtuple() or c.is_dataclass():
            names = []
            for k in reversed([k for k in c.mro() if isinstance(k, ClassInfo)]):
                names += [n for n in k.annots if n not in names]
            r = st.heap.get(o)
            f = r.fields
            vals = dict(zip(names, args))
            vals.update({k: v for k, v in kwargs.items() if k in names})
            for n in names:
                if n in vals:
                    v = vals[n]
                    if v.typ is None and v.op in ("call", "item", "elem", "attr", "rcall", "param", "pure"):
                        owner = next(k for k in c.mro() if isinstance(k, ClassInfo) and n in k.annots)
                        v.typ = self.types.ann(owner.mod, owner.annots[n])
                else:
                    d = c.find_attr(n)
                    v = TOP
                    if d is not None and d[1] is not None:
                        v = self._field_default(d[1], d[0], st, node, fr, n)
                old_v = f.get(n)
                f = f.set(n, phi([old_v, v]) if live and old_v is not None else v)
            st.heap = st.heap.set(o, r.but(fields=f))
            post = c.find_method("__post_init__")
            if post is not None:
                return [(s, o) for s, _ in self._call_one(post, o, (), {}, st, node, fr, X, ())]
            return [(st, o)]
        # library base class constructor
        r = st.heap.get(o)
        if c.is_exception():
            st.heap = st.heap.set(o, r.but(fields=r.fields.set("args", tup(args))))
        return [(st, o)]

    def _field_default(self, e, c, st, node, fr, name) -> Term:
        if isinstance(e, ast.Call) and ast.unparse(e.func).endswith("field"):
            for k in e.keywords:
                if k.arg == "default_factory":
                    t = ast.unparse(k.value)
                    if t in ("list", "dict", "set"):
                        return self.fresh(st, node, fr, t, () if t != "dict" else None, tag=":" + name)
                    if isinstance(k.value, ast.Lambda):
                        dfr = Frame(None, ("default", c.qual), self.ctx(fr.ctx, node, fr.fi), c.mod, (), fr.stack)
                        r = self.ev(k.value.body, st, dfr, [])
                        return r[0][1] if r else TOP
                if k.arg == "default":
                    e = k.value
                    break
            else:
                return TOP
        v = self.const_eval(e, c.mod, st, ("global", f"{c.qual}.{name}"))
        return v if v is not None else TOP

    # ---- exceptions

    def mk_exc(self, cls: Any, node, fr: Frame) -> Term:
        if isinstance(cls, ClassInfo):
            return mk("exc", cls, typ=ct(cls))
        return mk("exc", canon(cls), typ=xt(canon(cls)))

    def class_ref(self, t: Term) -> Any:
        if t.op == "cls":
            return t.args[0]
        if t.op == "ext":
            return canon(t.args[0]) if is_exc_name(t.args[0]) else t.args[0]
        return "?"

    def exc_class(self, v: Term) -> Any:
        if v.op == "exc":
            return v.args[0]
        t = ty_strip_none(v.typ)
        if t is not None:
            return t[1]
        return None

    def exc_name(self, v: Term) -> str:
        c = self.exc_class(v)
        return c.qual if isinstance(c, ClassInfo) else str(c)

    def exc_supers(self, c: Any) -> list:
        if isinstance(c, ClassInfo):
            out: list = []
            for b in c.mro():
                if isinstance(b, ClassInfo):
                    out.append(b)
                else:
                    out += sorted(supers(b))
            return out
        if c is None:
            return []
        return sorted(supers(c))

    def exc_match(self, v: Term, refs: list) -> str:
        """yes / no / maybe: does a handler for one of refs catch v."""
        if v.op == "phi":
            ds = [self.exc_match(m, refs) for m in members(v)]
            return "yes" if all(d == "yes" for d in ds) else "no" if all(d == "no" for d in ds) else "maybe"
        c = self.exc_class(v)
        if None in refs:
            return "yes"
        sup = self.exc_supers(c)
        res = "no"
        for r in refs:
            if r == "?":
                res = "maybe"
                continue
            if any(s is r or s == r for s in sup):
                return "yes"
            if c is None:
                if r in ("builtins.Exception", "builtins.BaseException"):
                    return "yes"
                res = "maybe"
            else:
                # the raised class is broader than the handler's: may be an instance of it
                if any(s is c or s == c for s in self.exc_supers(r)):
                    res = "maybe"
        return res

    # ---- library calls

    def recv_name(self, b: Term, st: State) -> str:
        t = ty_strip_none(b.typ)
        if t is not None and t[0] == "x":
            return t[1]
        if t is not None and t[0] == "c":
            return t[1].qual
        return "?"

    def call_method(self, b: Term, name: str, args, kwargs, st, node, fr, X) -> list:
        if b.op == "phi":
            out = []
            for m in members(b):
                out += self.call_method(m, name, args, kwargs, st.fork(), node, fr, X)
            return self.merge_vals(out)
        m = self.lookup_method(b, name, st)
        if m is not None:
            return self.call(m, args, kwargs, st, node, fr, X)
        rt = self.recv_name(b, st)
        full = f"{rt}.{name}"
        mm = self.h.model(self, st, full, b, args, kwargs, node, fr, X)
        if mm is not None:
            return mm
        lib = _METHODS.get(full)
        if lib is not None:
            r = lib(self, b, args, kwargs, st, node, fr, X)
            if r is not None:
                return r
        # attribute holding a callable
        ev = Event("call", full, b, args, kwargs, node, fr.fi, fr.ctx)
        is_container = rt in ("builtins.list", "builtins.dict", "builtins.set") or b.op in ("obj",)
        if b.op == "superext" or rt.startswith("builtins.object"):
            self.emit(st, ev)
            return [(st, NONE)]
        if name in MUTATORS and rt not in _SCALARS and not (
                name in ("update", "pop", "add", "insert", "remove", "clear") and rt not in ("?",) and not is_container
                and rt not in ("collections.OrderedDict", "collections.defaultdict", "collections.deque", "collections.Counter")):
            for ex in self.h.ext_raises(full, ev):
                X.append((st.fork(), self.mk_exc(ex, node, fr)))
            if name == "sort" and "key" in kwargs:
                self.call_cb(kwargs["key"], (self._elem(b, st, ("sortkey",)),), st, node, fr, X)
            return [(st, self.mutate(st, b, name, args, node, fr, kwargs))]
        self.emit(st, ev)
        self._raise_ext(full, ev, st, node, fr, X)
        r = self.method_result(b, rt, name, args, kwargs, st, node, fr, X)
        if r is None:
            self.unknown[full] = self.unknown.get(full, 0) + 1
            site = self.site(node, fr, "m")
            kill(st, site)
            r = [(st, mk("call", full, (b,) + args + tuple(v for _, v in sorted(kwargs.items())),
                         typ=EXT_RET.get(full) or self._pseudo(full), site=site))]
        for s, v in r:
            self.emit(s, Event("ret", full, b, args, kwargs, node, fr.fi, fr.ctx, v))
        return r

    def _pseudo(self, full: str) -> Any:
        if full.startswith("?") or full.startswith("builtins."):
            return None
        return xt(f"{full}()")

    def _raise_ext(self, full, ev, st, node, fr, X):
        for ex in self.h.ext_raises(full, ev):
            s = st.fork()
            exc = self.mk_exc(ex, node, fr)
            self.emit(s, Event("exc", full, ev.recv, ev.args, ev.kwargs, node, fr.fi, fr.ctx, exc))
            X.append((s, exc))

    def call_cb(self, f: Term, args: tuple, st, node, fr, X) -> list:
        """A callback a library may invoke: explored for its effects."""
        if f.op in ("fn", "partial", "cls", "phi"):
            return self.call(f, args, {}, st, node, fr, X)
        return [(st, TOP)]

    def method_result(self, b, rt, name, args, kwargs, st, node, fr, X) -> Optional[list]:
        """Result of a side-effect free method; None when unmodelled."""
        r = st.heap.get(b) if b.op == "obj" else None
        if name in ("items", "keys", "values") and not args:
            return [(st, mk("view", b, name))]
        if name == "get" and (rt in ("builtins.dict", "?") or (r is not None and r.kind == "dict")) and args:
            d = args[1] if len(args) > 1 else NONE
            if r is not None and r.kind == "dict":
                v = r.fields.get(args[0])
                if v is not None and not r.weak:
                    return [(st, v)]
                if r.summ is None and is_key(args[0]) and all(is_key(k) for k in r.fields.d):
                    return [(st, d)]
                vs = r.values()
                return [(st, phi(vs + [d]))]
            v = self.item(b, args[0], st, node, fr)
            yes, no = self.split_atom(("in", args[0], b), st)
            return [(s, v) for s in yes] + [(s, d) for s in no]
        if name == "copy" and not args:
            return [(st, self.shallow_copy(b, st, node, fr))]
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            op = {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub(),
                  "symmetric_difference": ast.BitXor()}[name]
            v = b
            for a in args:
                v = self.binop(op, v, a, st, node, fr)
            return [(st, v)]
        if is_k(b) and isinstance(kv(b), str) and name in PURE_STR and all(is_k(a) for a in args) and not kwargs:
            try:
                res = getattr(kv(b), name)(*[kv(a) for a in args])
            except Exception:
                res = None
            if isinstance(res, (str, bool, int)):
                return [(st, K(res))]
            if isinstance(res, list):
                return [(st, self.fresh(st, node, fr, "list", tuple(K(x) for x in res)))]
        pc = path_const(b)
        if pc is not None and name in _PATH_FOLD and not kwargs and all(path_arg(a) is not None for a in args):
            if name in ("absolute", "resolve", "expanduser"):
                return [(st, b)] if pc.is_absolute() else None
            try:
                res = getattr(pc, name)(*[path_arg(a) for a in args])
            except Exception:
                res = None
            if res is not None:
                return [(st, kpath(res) if isinstance(res, PurePosixPath) else K(res))]
        if name == "join" and len(args) == 1 and is_k(b):
            el = self.iter_elems(args[0], st)
            if el is not None:
                parts: list = []
                for i, x in enumerate(el):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return [(st, self.concat(parts))]
        if name in PURE_STR or name in PATH_RET_PATH:
            kw = tuple(sorted(kwargs.items()))
            ty = None
            if rt == "pathlib.Path" and name in PATH_RET_PATH:
                ty = T_PATH
            elif rt in ("builtins.str", "?", "re.Match") and name in STR_RET_STR:
                ty = T_STR
            elif name in STR_RET_BOOL:
                ty = T_BOOL
            elif name in STR_RET_LIST:
                ty = xt("builtins.list", T_STR)
            elif name in ("find", "rfind", "index", "count", "rindex"):
                ty = T_INT
            v = mk("pure", "." + name, (b,) + args, kw, typ=ty) if kw else mk("pure", "." + name, (b,) + args, typ=ty)
            if name in STR_RET_LIST:
                return [(st, v)]
            return [(st, v)]
        return None

    def shallow_copy(self, b: Term, st: State, node, fr) -> Term:
        if b.op == "phi":
            return phi([self.shallow_copy(m, st, node, fr) for m in members(b)])
        if b.op == "obj":
            r = st.heap.get(b)
            if r is not None:
                o = mk("obj", self.site(node, fr, "copy"), typ=b.typ)
                st.heap = st.heap.set(o, r.but(weak=False))
                return o
        t = ty_name(ty_strip_none(b.typ))
        if t in ("builtins.list", "builtins.set"):
            return self.fresh(st, node, fr, t.split(".")[1], None, self._elem(b, st, ("copy",)))
        if t == "builtins.dict":
            return self.fresh(st, node, fr, "dict", summ=mk("item", b, mk("key", b), typ=self.item_type(b.typ)))
        if b.op in ("K", "tup", "top", "fmt"):
            return b
        o = mk("scopy", b, typ=b.typ, site=self.site(node, fr, "copy"))
        return o

    def deep_copy(self, b: Term, st: State, node, fr) -> Term:
        if b.op in ("K", "fmt", "enum", "top", "pure"):
            return b
        return mk("deepcopy", b, typ=b.typ, site=self.site(node, fr, "dcopy"))

    def unknown_call(self, name, f, args, kwargs, st, node, fr, X) -> list:
        self.unknown[name] = self.unknown.get(name, 0) + 1
        site = self.site(node, fr, "u")
        kill(st, site)
        ev = Event("call", name, f, args, kwargs, node, fr.fi, fr.ctx)
        self.emit(st, ev)
        return [(st, mk("call", name, (f,) + args, site=site))]

    def call_ext(self, d: str, recv, args, kwargs, st, node, fr, X) -> list:
        mm = self.h.model(self, st, d, recv, args, kwargs, node, fr, X)
        if mm is not None:
            return mm
        fn = _BUILTINS.get(d)
        if fn is not None:
            r = fn(self, args, kwargs, st, node, fr, X)
            if r is not None:
                return r
        ev = Event("call", d, recv, args, kwargs, node, fr.fi, fr.ctx)
        self.emit(st, ev)
        self._raise_ext(d, ev, st, node, fr, X)
        # callbacks handed to libraries run (possibly) during the call
        for a in list(args) + list(kwargs.values()):
            if a.op in ("fn", "partial") and d not in ("functools.partial", "atexit.register"):
                pass
        if d in PURE_EXT:
            kw = tuple(sorted(kwargs.items()))
            v = mk("pure", d, args, kw, typ=EXT_RET.get(d)) if kw else mk("pure", d, args, typ=EXT_RET.get(d))
        elif is_exc_name(d):
            v = mk("exc", canon(d), args, typ=xt(canon(d)))
        else:
            site = self.site(node, fr, "x")
            kill(st, site)
            last = d.rsplit(".", 1)[-1]
            typ = EXT_RET.get(d) or (xt(d) if last[:1].isupper() else (None if d.startswith("builtins.") else xt(f"{d}()")))
            v = mk("call", d, args + tuple(x for _, x in sorted(kwargs.items())), typ=typ, site=site)
        self.emit(st, Event("ret", d, recv, args, kwargs, node, fr.fi, fr.ctx, v))
        return [(st, v)]


def contains_obj(v: Any, o: Term, depth: int = 0) -> bool:
    if v is o:
        return True
    if depth > 8 or not isinstance(v, Term) or v.op in ("K", "enum", "top", "ext"):
        return False
    for a in v.args:
        if isinstance(a, Term):
            if contains_obj(a, o, depth + 1):
                return True
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term) and contains_obj(b, o, depth + 1):
                    return True
    return False


def _as_load(t: ast.AST) -> ast.AST:
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


_SCALARS = {"builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.bytes"}
_SCALAR_OR_CONT = _SCALARS | {"builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.NoneType",
                              "builtins.frozenset", "builtins.object"}

_EXT_CANON = {
    "git.repo.Repo": "git.Repo", "git.repo.base.Repo": "git.Repo", "pathlib.PurePath": "pathlib.Path",
    "pathlib.PosixPath": "pathlib.Path", "io.open": "builtins.open", "typing_extensions.cast": "typing.cast",
}

# ---- builtins ---------------------------------------------------------------------------------------------------------

_BUILTINS: dict[str, Callable] = {}


def _bi(*names):
    def deco(f):
        for n in names:
            _BUILTINS[n] = f
        return f

    return deco


@_bi("typing.cast")
def _b_cast(I, args, kw, st, node, fr, X):
    if len(args) != 2:
        return None
    v = args[1]
    if v.typ is None and v.op in ("call", "item", "elem", "attr", "rcall", "global", "param", "pure") and isinstance(node, ast.Call):
        t = I.types.ann(fr.mod, node.args[0])
        if t is not None and t[0] != "u":
            v.typ = t
    return [(st, v)]


@_bi("builtins.isinstance")
def _b_isinstance(I, args, kw, st, node, fr, X):
    if len(args) != 2:
        return None
    v, c = args
    cs = []
    stack = [c]
    while stack:
        x = stack.pop(0)
        if x.op == "tup":
            stack = list(x.args[0]) + stack
        elif x.op == "bin" and x.args[0] == "BitOr":
            stack = [x.args[1], x.args[2]] + stack
        else:
            cs.append(I.class_ref(x))
    out = []
    for m in members(v):
        cur = [st.fork()]
        for k in cs:
            nxt = []
            for s in cur:
                t, f = I.split_atom(("inst", m, k), s)
                out += [(y, TRUE) for y in t]
                nxt += f
            cur = nxt
        out += [(y, FALSE) for y in cur]
    return I.merge_vals(out)


@_bi("builtins.len")
def _b_len(I, args, kw, st, node, fr, X):
    n = length_of(args[0], st)
    if n is not None and n[0] == n[1]:
        return [(st, K(n[0]))]
    m = I.lookup_method(args[0], "__len__", st)
    if m is not None:
        return I.call(m, (), {}, st, node, fr, X)
    return [(st, mk("pure", "builtins.len", args, typ=T_INT))]


@_bi("builtins.str")
def _b_str(I, args, kw, st, node, fr, X):
    if not args:
        return [(st, K(""))]
    v = args[0]
    if len(args) == 1 and v.op == "obj":
        m = I.lookup_method(v, "__str__", st)
        if m is not None:
            return I.call(m, (), {}, st, node, fr, X)
    return [(st, phi([I.str_of(m, st) for m in members(v)]))]


@_bi("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath")
def _b_path(I, args, kw, st, node, fr, X):
    if len(args) == 1 and not kw and args[0].typ == T_PATH:
        return [(st, args[0])]
    if args and not kw and all(path_arg(a) is not None for a in args):
        return [(st, kpath(PurePosixPath(*[path_arg(a) for a in args])))]
    return None


def _b_ospath(name):
    def run(I, args, kw, st, node, fr, X):
        if args and not kw and all(path_arg(a) is not None for a in args):
            if name in ("abspath", "realpath"):
                return [(st, K(posixpath.normpath(path_arg(args[0]))))] if path_arg(args[0]).startswith("/") else None
            if name == "relpath" and not all(path_arg(a).startswith("/") for a in args):
                return None
            if name == "relpath" and len(args) < 2:
                return None
            return [(st, K(getattr(posixpath, name)(*[path_arg(a) for a in args])))]
        return None
    return run


for _n in ("basename", "dirname", "join", "normpath", "relpath", "abspath", "realpath"):
    _bi(f"os.path.{_n}", f"posixpath.{_n}")(_b_ospath(_n))


@_bi("os.fspath")
def _b_fspath(I, args, kw, st, node, fr, X):
    return [(st, K(path_arg(args[0])))] if len(args) == 1 and path_arg(args[0]) is not None else None


@_bi("builtins.bool")
def _b_bool(I, args, kw, st, node, fr, X):
    if not args:
        return [(st, FALSE)]
    out = []
    for m in members(args[0]):
        t, f = split(m, st)
        out += [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
    return I.merge_vals(out)


def _b_num(nm):
    import builtins as B
    fn = getattr(B, nm)

    def run(I, args, kw, st, node, fr, X):
        if not args or (kw and nm not in ("sum", "min", "max", "round")):
            return None
        vals: list = []
        for i, a in enumerate(args):
            if is_k(a):
                vals.append(kv(a))
                continue
            el = I.iter_elems(a, st) if nm in ("sum", "min", "max") and i == 0 else None
            if el is None:
                return None
            if nm == "sum" and not all(is_k(x) for x in el) and len(el) <= 24 and not kw:
                acc = args[1] if len(args) > 1 else K(0)
                for x in el:
                    acc = I.binop(ast.Add(), acc, x, st, node, fr)
                return [(st, acc)]
            if not all(is_k(x) for x in el):
                return None
            vals.append([kv(x) for x in el])
        if not all(is_k(v) for v in kw.values()):
            return None
        try:
            r = fn(*vals, **{k: kv(v) for k, v in kw.items()})
        except Exception:
            return None
        return [(st, K(r))] if isinstance(r, (int, float, str)) else None

    return run


for _n in ("int", "float", "abs", "round", "min", "max", "sum"):
    _bi(f"builtins.{_n}")(_b_num(_n))


def _mk_container(kind):
    def b(I, args, kw, st, node, fr, X):
        if not args:
            if kind == "dict" and kw:
                f = EMPTY
                for k, v in kw.items():
                    if k == "**":
                        return [(st, I.fresh(st, node, fr, "dict", summ=TOP))]
                    f = f.set(K(k), v)
                return [(st, I.fresh(st, node, fr, "dict", fields=f))]
            return [(st, I.fresh(st, node, fr, kind, () if kind != "dict" else None))]
        v = args[0]
        if kind == "dict":
            if v.op == "obj" and st.heap.get(v) is not None and st.heap.get(v).kind == "dict":
                r = st.heap.get(v)
                return [(st, I.fresh(st, node, fr, "dict", fields=r.fields, summ=r.summ))]
            el = I.iter_elems(v, st)
            pairs = [I.iter_elems(x, st) for x in el] if el is not None else [None]
            if len(pairs) <= 24 and all(q is not None and len(q) == 2 for q in pairs):
                f = EMPTY
                for k, x in [*pairs, *[(K(k), x) for k, x in kw.items()]]:
                    f = f.set(k, x)
                unk = [x for k, x in pairs if not is_key(k)]
                return [(st, I.fresh(st, node, fr, "dict", fields=f, summ=phi(unk) if unk else None))]
            return [(st, I.shallow_copy(v, st, node, fr) if ty_name(v.typ) == "builtins.dict" else
                     I.fresh(st, node, fr, "dict", summ=I.item(v, mk("key", v), st, node, fr) if v.op != "seq" else TOP))]
        el = I.iter_elems(v, st)
        if el is not None and len(el) <= 24:
            if kind == "set":
                el = list(dict.fromkeys(el))
            return [(st, I.fresh(st, node, fr, kind, tuple(el)))]
        o = I.fresh(st, node, fr, kind, None, I._elem(v, st, I.site(node, fr, "cpy")))
        return [(st, o)]

    return b


_BUILTINS["builtins.list"] = _mk_container("list")
_BUILTINS["builtins.set"] = _mk_container("set")
_BUILTINS["builtins.frozenset"] = _mk_container("set")
_BUILTINS["builtins.dict"] = _mk_container("dict")
_BUILTINS["collections.OrderedDict"] = _mk_container("dict")


@_bi("builtins.tuple")
def _b_tuple(I, args, kw, st, node, fr, X):
    if not args:
        return [(st, tup(()))]
    el = I.iter_elems(args[0], st)
    if el is not None:
        return [(st, tup(el))]
    return [(st, I.fresh(st, node, fr, "list", None, I._elem(args[0], st, I.site(node, fr, "cpy"))))]


@_bi("builtins.sorted")
def _b_sorted(I, args, kw, st, node, fr, X):
    if "key" in kw:
        I.call_cb(kw["key"], (I._elem(args[0], st, I.site(node, fr, "sk")),), st, node, fr, X)
    el = I.iter_elems(args[0], st)
    ev = Event("call", "builtins.sorted", None, args, kw, node, fr.fi, fr.ctx)
    I.emit(st, ev)
    if el is not None and all(is_k(x) for x in el) and not kw:
        try:
            return [(st, I.fresh(st, node, fr, "list", tuple(K(x) for x in sorted(kv(y) for y in el))))]
        except TypeError:
            pass
    o = I.fresh(st, node, fr, "list", None, I._elem(args[0], st, I.site(node, fr, "cpy")) if el != [] else None)
    o.meta = ("sorted", args[0])
    return [(st, o)]


def _mk_seq(kind):
    def b(I, args, kw, st, node, fr, X):
        a = args
        if kind == "enumerate" and "start" in kw:
            a = args + (kw["start"],)
        return [(st, mk("seq", kind, a))]

    return b


for _k in ("range", "enumerate", "zip", "reversed", "iter"):
    _BUILTINS[f"builtins.{_k}"] = _mk_seq(_k)
_BUILTINS["itertools.chain"] = _mk_seq("chain")


@_bi("builtins.map", "builtins.filter")
def _b_map(I, args, kw, st, node, fr, X):
    if len(args) < 2:
        return None
    el = I._elem(args[1], st, I.site(node, fr, "map"))
    res = I.call(args[0], (el,), {}, st, node, fr, X) if args[0] is not NONE else [(st, el)]
    is_map = isinstance(node.func, ast.Name) and node.func.id == "map"
    out = []
    for s, v in res:
        out.append((s, I.fresh(s, node, fr, "list", None, v if is_map else el)))
    return out


@_bi("builtins.next")
def _b_next(I, args, kw, st, node, fr, X):
    v = args[0]
    el = I.iter_elems(v, st)
    if el:
        return [(st, el[0])]
    if el == [] and len(args) > 1:
        return [(st, args[1])]
    r = I._elem(v, st, I.site(node, fr, "next"))
    if len(args) > 1:
        return [(st.fork(), r), (st, args[1])]
    return [(st, r)]


@_bi("builtins.any", "builtins.all")
def _b_anyall(I, args, kw, st, node, fr, X):
    is_any = isinstance(node.func, ast.Name) and node.func.id == "any"
    el = I.iter_elems(args[0], st)
    if el is not None and len(el) <= 8:
        cur = [st]
        out = []
        for e in el:
            nxt = []
            for s in cur:
                for m in members(e):
                    t, f = split(m, s)
                    if is_any:
                        out += [(x, TRUE) for x in t]
                        nxt += f
                    else:
                        out += [(x, FALSE) for x in f]
                        nxt += t
            cur = nxt
        out += [(x, FALSE if is_any else TRUE) for x in cur]
        return I.merge_vals(out)
    site = I.site(node, fr, "aa")
    kill(st, site)
    return [(st, mk("call", "builtins.any" if is_any else "builtins.all", args, typ=T_BOOL, site=site))]


@_bi("builtins.super")
def _b_super(I, args, kw, st, node, fr, X):
    cls = fr.cls
    selfv = None
    f = fr.fi
    if f is not None and f.node.args.args:
        nm = f.node.args.args[0].arg
        selfv = I.get_var(st, fr, nm, node, X)
    if args and args[0].op == "cls":
        cls = args[0].args[0]
        selfv = args[1] if len(args) > 1 else selfv
    if cls is None or selfv is None:
        return [(st, TOP)]
    t = None
    if selfv.op == "obj":
        r = st.heap.get(selfv)
        if r is not None and isinstance(r.cls, ClassInfo):
            t = ct(r.cls)
    elif selfv.typ is not None and selfv.typ[0] == "c":
        t = selfv.typ
    return [(st, mk("super", selfv, cls, typ=t))]


# ---- executors and pools: the work runs when it is handed over; its result or exception is kept in the future

_METHODS: dict[str, Callable] = {}


def _meth(*names):
    def deco(f):
        for n in names:
            _METHODS[n] = f
        return f

    return deco


_EXECUTORS = ["concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.Executor",
              "concurrent.futures.thread.ThreadPoolExecutor", "concurrent.futures.process.ProcessPoolExecutor"]
_POOLS = ["multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool", "multiprocessing.dummy.Pool",
          "multiprocessing.Pool()", "multiprocessing.get_context().Pool"]
_T_FUTURE = xt("concurrent.futures.Future")


def _handed(I, full, b, args, kwargs, node, fr, st):
    I.emit(st, Event("call", full, b, args, kwargs, node, fr.fi, fr.ctx))


@_meth(*[e + ".submit" for e in _EXECUTORS])
def _m_submit(I, b, args, kwargs, st, node, fr, X):
    if not args:
        return None
    _handed(I, "concurrent.futures.Executor.submit", b, args, kwargs, node, fr, st)
    E: list = []
    out = []
    for s, v in I.call(args[0], args[1:], kwargs, st, node, fr, E):
        out.append((s, mk("future", "ok", v, args[1:], typ=_T_FUTURE)))
    for s, v in E:
        out.append((s, mk("future", "exc", v, args[1:], typ=_T_FUTURE)))
    return out


@_meth("concurrent.futures.Future.result")
def _m_result(I, b, args, kwargs, st, node, fr, X):
    if b.op != "future":
        return None
    if b.args[0] == "ok":
        return [(st, b.args[1])]
    X.append((st, b.args[1]))
    return []


@_meth("concurrent.futures.Future.exception")
def _m_exception(I, b, args, kwargs, st, node, fr, X):
    if b.op != "future":
        return None
    return [(st, NONE if b.args[0] == "ok" else b.args[1])]


def _pool_map(star):
    def run(I, b, args, kwargs, st, node, fr, X):
        if len(args) < 2:
            return None
        _handed(I, "pool.map", b, args, kwargs, node, fr, st)
        seqs = args[1:] if not star and len(args) > 2 and all(a.op in ("obj", "tup", "view", "seq") for a in args[2:]) else args[1:2]
        els = [I.iter_elems(a, st) for a in seqs]
        exact = all(e is not None for e in els)
        if not exact:
            els = [[I._elem(a, st, I.site(node, fr, "pool"))] for a in seqs]
        cur = [(st, ())]
        for i, row in enumerate(zip(*els)):
            if star:
                inner = I.iter_elems(row[0], st)
                if inner is None:
                    inner = [mk("top")]
                row = tuple(inner)
            nxt = []
            base = fr.ctx
            fr.ctx = I.iter_ctx(base, i)
            for s, acc in cur:
                for s2, v in I.call(args[0], tuple(row), {}, s, node, fr, X):
                    nxt.append((s2, acc + (v,)))
            fr.ctx = base
            cur = nxt
        out = []
        for s, acc in cur:
            if exact:
                out.append((s, I.fresh(s, node, fr, "list", acc, tag=":pool")))
            else:
                out.append((s, I.fresh(s, node, fr, "list", None, acc[0] if acc else TOP, tag=":pool")))
        return I.merge_vals(out)

    return run


for _n in ("starmap", "starmap_async"):
    _meth(*[f"{q}.{_n}" for q in _POOLS])(_pool_map(True))
for _n in ("map", "imap", "imap_unordered"):
    _meth(*[f"{q}.{_n}" for q in _POOLS])(_pool_map(False))
_meth(*[f"{q}.map" for q in _EXECUTORS])(_pool_map(False))


@_bi("concurrent.futures.as_completed", "concurrent.futures._base.as_completed")
def _b_as_completed(I, args, kw, st, node, fr, X):
    return [(st, args[0])] if args else None


@_bi("builtins.getattr")
def _b_getattr(I, args, kw, st, node, fr, X):
    if len(args) >= 2 and is_k(args[1]):
        return I.getattr(args[0], kv(args[1]), st, node, fr, X)
    I.emit(st, Event("call", "builtins.getattr", None, args, kw, node, fr.fi, fr.ctx))
    return [(st, TOP)]


@_bi("builtins.setattr", "object.__setattr__", "builtins.object.__setattr__")
def _b_setattr(I, args, kw, st, node, fr, X):
    if len(args) == 3 and is_k(args[1]):
        I.store_attr(st, args[0], kv(args[1]), args[2], node, fr)
        return [(st, NONE)]
    return None


@_bi("copy.deepcopy")
def _b_deepcopy(I, args, kw, st, node, fr, X):
    I.emit(st, Event("call", "copy.deepcopy", None, args, kw, node, fr.fi, fr.ctx))
    return [(st, phi([I.deep_copy(m, st, node, fr) for m in members(args[0])]))]


@_bi("copy.copy")
def _b_copy(I, args, kw, st, node, fr, X):
    return [(st, I.shallow_copy(args[0], st, node, fr))]


@_bi("functools.partial")
def _b_partial(I, args, kw, st, node, fr, X):
    return [(st, mk("partial", args[0], args[1:], tuple(kw.items())))]


@_bi("builtins.type")
def _b_type(I, args, kw, st, node, fr, X):
    v = args[0]
    if v.op == "obj" and v.typ and v.typ[0] == "c":
        return [(st, mk("cls", v.typ[1]))]
    return None


@_bi("sys.exit", "builtins.exit", "builtins.quit", "os._exit")
def _b_exit(I, args, kw, st, node, fr, X):
    code = args[0] if args else K(0)
    I.emit(st, Event("exit", "sys.exit", None, (code,), kw, node, fr.fi, fr.ctx, code))
    X.append((st, mk("exc", "builtins.SystemExit", code, typ=xt("builtins.SystemExit"))))
    return []


@_bi("builtins.dict.fromkeys")
def _b_fromkeys(I, args, kw, st, node, fr, X):
    return [(st, I.fresh(st, node, fr, "dict", summ=args[1] if len(args) > 1 else NONE))]
