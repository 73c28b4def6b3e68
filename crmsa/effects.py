"""Interprocedural effect and alias analysis: which reachable state each function mutates, returns, stores and calls.

A location is (root, path): a parameter, a module/class-level variable, or an allocation site, followed by attributes
('.name') and elements ('[]', '#i' for tuple positions). The analysis is flow-sensitive for local variables (strong updates,
joins at merges), flow-insensitive for heap contents, and uses one summary per function; nested functions and lambdas are
analysed inline where they are called, so that callbacks handed to a traversal act on what the traversal gives them.
"""

from __future__ import annotations

import ast
from dataclasses import dataclass, field
from typing import Any, Optional

from .refs import Refs
from .interp import MUTATORS
from .model import ClassInfo, ExtRef, FuncInfo, GlobalVar, Program, own_nodes
from .types_ import TypeResolver
from .values import T_LIST, T_NONE, ct

MAXPATH = 5
EMPTYV: frozenset = frozenset()
COPIES = {"builtins.list", "builtins.tuple", "builtins.set", "builtins.dict", "builtins.sorted", "builtins.reversed",
          "builtins.frozenset", "copy.copy", "builtins.filter", "collections.deque", "collections.OrderedDict",
          "itertools.chain", "collections.defaultdict"}
SAME = {"typing.cast": 1, "builtins.iter": 0, "typing.assert_type": 0, "contextlib.closing": 0}
ITERATES = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.iter", "builtins.next", "builtins.zip", "builtins.map", "builtins.filter",
            "collections.deque", "builtins.dict.fromkeys", "itertools.chain"}
ELEM = {"builtins.next", "builtins.min", "builtins.max"}
SCALARS = {"builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.NoneType", "builtins.bytes", "pathlib.Path",
           "re.Pattern", "re.Match"}


@dataclass(frozen=True)
class Mut:
    loc: tuple  # (root, path) of what was changed, in terms of the function's own roots
    how: str
    fi: FuncInfo  # function that contains the statement
    line: int
    via: tuple = ()  # call chain (function names) from the summarised function

    @property
    def where(self) -> str:
        return f"{self.fi.mod.rel}:{self.line}"


@dataclass
class Summary:
    muts: dict = field(default_factory=dict)  # (loc, fi, line) -> Mut
    ret: frozenset = EMPTYV
    heap: dict = field(default_factory=dict)  # allocation root -> field -> locs
    calls: dict = field(default_factory=dict)  # (param loc, args) of callbacks
    stores: dict = field(default_factory=dict)  # (target loc) -> (locs, fi, line)
    globals_read: set = field(default_factory=set)
    ext_calls: set = field(default_factory=set)

    def size(self) -> tuple:
        return (len(self.muts), self.ret, sum(len(v) for f in self.heap.values() for v in f.values()), len(self.calls),
                sum(len(v[0]) for v in self.stores.values()))


def ext(loc: tuple, step: str) -> tuple:
    root, path = loc
    return loc if len(path) >= MAXPATH else (root, path + (step,))


def show_loc(loc: tuple) -> str:
    root, path = loc
    base = root[1] if root[0] in ("p", "g") else "new object"
    if root[0] == "g":
        base = base.replace("conda_recipe_manager.", "")
    return str(base) + "".join(p if p.startswith(".") else "[...]" for p in path)


def weaken(got: frozenset) -> frozenset:
    """What a field of a new object may hold: when it holds both new objects and others, the others are only possible."""
    if any(q[0][0] == "a" for q in got) and any(q[0][0] in ("p", "g") for q in got):
        return frozenset(weak(q) for q in got)
    return got


def weak(loc: tuple) -> tuple:
    return ((loc[0][0], loc[0][1], "w"), loc[1]) if loc[0][0] in ("p", "g") else loc


def is_weak(loc: tuple) -> bool:
    return loc[0][0] in ("p", "g") and len(loc[0]) > 2


def is_set(t: Any) -> bool:
    return t is not None and t[0] == "x" and t[1] in ("builtins.set", "builtins.frozenset", "typing.Set", "typing.AbstractSet")


class Effects:
    def __init__(self, p: Program) -> None:
        self.p = p
        self.refs = Refs(p)
        self.types = TypeResolver(p)
        self.sums: dict[FuncInfo, Summary] = {}
        self._by_name: dict[str, list] = {}
        self._inst: dict = {}
        self._scalar: dict = {}
        self.callees: dict = {}  # id(call node) -> repository functions it may call
        self.itypes: dict = {}  # id(expression that is iterated over) -> its type
        self.extcalls: dict = {}  # id(call node) -> library function
        for c in p.classes.values():
            for n, m in c.methods.items():
                self._by_name.setdefault(n, []).append(m)
        self.rounds = 0
        self.run()

    def run(self) -> None:
        # nested functions are analysed where they are called
        fns = [f for f in self.p.all_functions() if f.parent is None]
        for f in fns:
            self.sums[f] = Summary()
        for r in range(14):
            changed = False
            self.rounds = r + 1
            for f in fns:
                a = _Fn(self, f)
                s = a.analyse()
                if s.size() != self.sums[f].size():
                    changed = True
                self.sums[f] = s
            if not changed:
                break

    def inst_attrs(self, c: ClassInfo) -> set:
        """Attributes some method of the class (or a base or subclass) assigns on the instance."""
        r = self._inst.get(c)
        if r is None:
            r = set()
            fam = [k for k in c.mro() if isinstance(k, ClassInfo)] + list(self.p.subclasses(c))
            for k in fam:
                for f in k.methods.values():
                    ps = f.node.args.posonlyargs + f.node.args.args
                    if not ps or f.kind in ("static", "classmethod"):
                        continue
                    for n in own_nodes(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                                and n.value.id == ps[0].arg:
                            r.add(n.attr)
                if k.is_dataclass() or k.is_namedtuple():
                    r |= set(k.annots)
            self._inst[c] = r
        return r

    def scalar_global(self, r: GlobalVar) -> bool:
        """A module-level or class-level constant that has no state to change (string, number, pattern)."""
        k = r.qual
        if k not in self._scalar:
            v = getattr(r, "value", None)
            m = self.p.mods.get(r.mod)
            t = None
            if m is not None:
                for n in m.tree.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == r.name:
                        t, v = self.types.ann(m, n.annotation), n.value
                    elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == r.name for x in n.targets):
                        v = n.value
            self._scalar[k] = isinstance(v, (ast.Constant, ast.JoinedStr)) or (t is not None and t[0] == "x" and t[1] in SCALARS)
        return self._scalar[k]

    def class_var(self, c: ClassInfo, attr: str) -> Optional[str]:
        """Qualified name when `attr` is a class-level variable that no method rebinds on the instance."""
        a = c.find_attr(attr)
        if a is None or c.is_dataclass() or c.is_namedtuple() or attr in self.inst_attrs(c):
            return None
        return f"{a[0].qual}.{attr}"


class _Env:
    __slots__ = ("v", "t")

    def __init__(self, v: dict, t: dict) -> None:
        self.v, self.t = v, t

    def fork(self) -> "_Env":
        return _Env(dict(self.v), dict(self.t))


def join(envs: list) -> Optional[_Env]:
    envs = [e for e in envs if e is not None]
    if not envs:
        return None
    out = envs[0].fork()
    for e in envs[1:]:
        for k, s in e.v.items():
            o = out.v.get(k)
            out.v[k] = s if o is None else o | s
        for k, t in e.t.items():
            if out.t.get(k) != t:
                out.t[k] = out.t.get(k) or t
    return out


class _Fn:
    """Analysis of one function body (and of the nested functions it calls)."""

    def __init__(self, e: Effects, fi: FuncInfo) -> None:
        self.e, self.p, self.fi = e, e.p, fi
        self.sum = Summary()
        self.heap = self.sum.heap
        self.frames: list = []
        self.depth = 0
        self.rets: list = []
        self.cur = fi
        self.loops: list = []
        self.envs: list = []

    # ---- driver

    def analyse(self) -> Summary:
        env = _Env({}, {})
        a = self.fi.node.args
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]):
            env.v[x.arg] = frozenset([(("p", x.arg), ())])
            env.t[x.arg] = self.e.types.ann(self.fi.mod, x.annotation)
            if i == 0 and self.fi.cls is not None and self.fi.kind in ("method", "property"):
                env.t[x.arg] = ct(self.fi.cls)
            elif i == 0 and self.fi.cls is not None and self.fi.kind == "classmethod":
                env.v[x.arg] = EMPTYV
                env.t[x.arg] = ("cls", self.fi.cls)
        self.rets = [set()]
        self.envs = [env]
        if isinstance(self.fi.node, ast.Lambda):
            self.rets[-1] |= self.val(self.fi.node.body, env)
        else:
            self.block(self.fi.node.body, env)
        self.sum.ret = frozenset(self.rets[0])
        self._prune()
        return self.sum

    def _prune(self) -> None:
        keep: set = set()
        work = [r for r, _ in self.sum.ret if r[0] == "a"]
        for ls, _, _ in self.sum.stores.values():
            work += [r for r, _ in ls if r[0] == "a"]
        for (_, args) in self.sum.calls:
            for s in args:
                work += [r for r, _ in s if r[0] == "a"]
        while work:
            r = work.pop()
            if r in keep:
                continue
            keep.add(r)
            for ls in self.heap.get(r, {}).values():
                work += [q for q, _ in ls if q[0] == "a"]
        self.sum.heap = {r: f for r, f in self.heap.items() if r in keep}

    # ---- heap

    def alloc(self, node: ast.AST, tag: str = "") -> tuple:
        return (("a", self.fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag), ())

    def put(self, loc: tuple, step: str, vals: frozenset) -> None:
        if loc[0][0] == "a" and not loc[1]:
            d = self.heap.setdefault(loc[0], {})
            d[step] = d.get(step, EMPTYV) | frozenset(v for v in vals if v != loc)

    def load(self, vals: frozenset, step: str) -> frozenset:
        out: set = set()
        for loc in vals:
            if loc[0][0] == "fn":
                continue
            if loc[0][0] == "a":
                d = self.heap.get(loc[0], {})
                got: frozenset = EMPTYV
                if step == "[]":
                    for k, s in d.items():
                        if not k.startswith("."):
                            got |= s
                elif step.startswith("#"):
                    got = d.get(step, EMPTYV) | (d.get("[]", EMPTYV))
                else:
                    got = d.get(step, EMPTYV)
                out |= weaken(got)
            else:
                out.add(ext(loc, "[]" if step.startswith("#") else step))
        return frozenset(out)

    def copy_of(self, node: ast.AST, vals: frozenset, tag: str = "copy") -> frozenset:
        a = self.alloc(node, tag)
        for loc in vals:
            if loc[0][0] == "a":
                for k, s in list(self.heap.get(loc[0], {}).items()):
                    self.put(a, k, s)
            elif loc[0][0] != "fn":
                self.put(a, "[]", frozenset([ext(loc, "[]")]))
        return frozenset([a])

    def mutate(self, vals: frozenset, step: str, how: str, node: ast.AST, stored: frozenset = EMPTYV) -> None:
        for loc in vals:
            if loc[0][0] == "fn":
                continue
            if loc[0][0] == "a":
                self.put(loc, step, stored)
                continue
            tgt = ext(loc, step)
            k = (tgt, self.cur, node.lineno)
            if k not in self.sum.muts:
                self.sum.muts[k] = Mut(tgt, how, self.cur, node.lineno)
            self._store(tgt, stored, self.cur, node.lineno)

    def _store(self, tgt: tuple, stored: frozenset, fi: FuncInfo, line: int) -> None:
        if stored:
            o = self.sum.stores.get(tgt)
            self.sum.stores[tgt] = ((o[0] if o else EMPTYV) | stored, o[1] if o else fi, o[2] if o else line)

    # ---- statements

    def block(self, body: list, env: Optional[_Env]) -> Optional[_Env]:
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s: ast.stmt, env: _Env) -> Optional[_Env]:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, env)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.val(c, env)
        return env

    def s_Return(self, s, env):
        if s.value is not None:
            self.rets[-1] |= self.val(s.value, env)
        return None

    def s_Raise(self, s, env):
        for c in (s.exc, s.cause):
            if c is not None:
                self.val(c, env)
        return None

    def s_Break(self, s, env):
        if self.loops:
            self.loops[-1].append(env)
        return None

    s_Continue = s_Break

    def s_FunctionDef(self, s, env):
        fi = self.p.node_fn.get(id(s))
        env.v[s.name] = frozenset([(("fn", fi, None, len(self.envs) - 1), ())]) if isinstance(fi, FuncInfo) else EMPTYV
        env.t[s.name] = None
        return env

    def s_ClassDef(self, s, env):
        return env

    def s_Assign(self, s, env):
        v = self.val(s.value, env)
        t = self.typ(s.value, env)
        for tg in s.targets:
            self.assign(tg, v, t, env, s.value)
        return env

    def s_AnnAssign(self, s, env):
        t = self.e.types.ann(self.cur.mod, s.annotation)
        if s.value is None:
            if isinstance(s.target, ast.Name):
                env.t[s.target.id] = t
            return env
        v = self.val(s.value, env)
        self.assign(s.target, v, t or self.typ(s.value, env), env, s.value)
        return env

    def s_AugAssign(self, s, env):
        v = self.val(s.value, env)
        if isinstance(s.target, ast.Name):
            t = env.t.get(s.target.id)
            cur = env.v.get(s.target.id, EMPTYV)
            if t is not None and t[0] == "x" and t[1] in ("builtins.list", "builtins.set", "builtins.dict") and isinstance(
                    s.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd)):
                self.mutate(cur, "[]", "augmented assignment", s, self.load(v, "[]"))
            else:
                g = self._global(s.target.id)
                if g is not None and s.target.id not in env.v:
                    self.mutate(frozenset([(("g", g), ())]), "[]", "augmented assignment", s)
        else:
            self.assign(s.target, v, None, env, s.value)
        return env

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.val(t.slice, env)
                self.mutate(self.val(t.value, env), "[]", "del", t)
            elif isinstance(t, ast.Attribute):
                self.mutate(self.val(t.value, env), "." + t.attr, "del", t)
            elif isinstance(t, ast.Name):
                env.v.pop(t.id, None)
        return env

    def s_Global(self, s, env):
        return env

    def s_If(self, s, env):
        self.val(s.test, env)
        a, b = env.fork(), env
        self.narrow(s.test, a, True)
        self.narrow(s.test, b, False)
        return join([self.block(s.body, a), self.block(s.orelse, b)])

    def narrow(self, t: ast.expr, env: _Env, pos: bool) -> None:
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            self.narrow(t.operand, env, not pos)
        elif isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And) == pos):
            for v in t.values:
                self.narrow(v, env, pos)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and pos and len(t.args) == 2 \
                and isinstance(t.args[0], ast.Name):
            ty = self.e.types.ann(self.cur.mod, t.args[1])
            if ty is not None and t.args[0].id in env.v:
                env.t[t.args[0].id] = ty
                if ty[0] == "x" and ty[1] in SCALARS:
                    env.v[t.args[0].id] = EMPTYV

    def _loop(self, body, orelse, env, bind) -> Optional[_Env]:
        self.loops.append([])
        cur = env
        for _ in range(2):
            e = cur.fork()
            bind(e)
            out = self.block(body, e)
            cur = join([cur, out] + self.loops[-1])
        self.loops.pop()
        return self.block(orelse, cur) if orelse else cur

    def s_While(self, s, env):
        return self._loop(s.body, s.orelse, env, lambda e: self.val(s.test, e))

    def s_For(self, s, env):
        it = self.val(s.iter, env)
        self.note_iter(s.iter, env)
        t = self.iter_type(s.iter, env)
        return self._loop(s.body, s.orelse, env, lambda e: self.bind_elem(s.target, it, t, e, s.iter))

    s_AsyncFor = s_For

    def bind_elem(self, target, it: frozenset, t: Any, env: _Env, node) -> None:
        self.assign(target, self.load(it, "[]"), t, env, None)

    def s_With(self, s, env):
        for i in s.items:
            v = self.val(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, self.typ(i.context_expr, env), env, None)
        return self.block(s.body, env)

    s_AsyncWith = s_With

    def s_Try(self, s, env):
        entry = env.fork()
        body = self.block(s.body, env)
        mid = join([entry] + ([body] if body else []))
        outs = [self.block(s.orelse, body) if body is not None and s.orelse else body]
        for h in s.handlers:
            e = mid.fork()
            if h.name:
                e.v[h.name] = EMPTYV
                e.t[h.name] = None
            outs.append(self.block(h.body, e))
        r = join(outs)
        if s.finalbody:
            f = self.block(s.finalbody, r if r is not None else mid)
            return f if r is not None else None
        return r

    s_TryStar = s_Try

    def s_Match(self, s, env):
        v = self.val(s.subject, env)
        outs = []
        for c in s.cases:
            e = env.fork()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    e.v[n.name] = v | self.load(v, "[]")
                    e.t[n.name] = None
            if c.guard is not None:
                self.val(c.guard, e)
            outs.append(self.block(c.body, e))
        last = s.cases[-1].pattern
        if not (isinstance(last, ast.MatchAs) and last.pattern is None and s.cases[-1].guard is None):
            outs.append(env)
        return join(outs)

    # ---- assignment

    def assign(self, t: ast.expr, v: frozenset, ty: Any, env: _Env, src: Optional[ast.expr]) -> None:
        if isinstance(t, ast.Name):
            if self._is_global_decl(t.id):
                g = self._global(t.id)
                if g is not None:
                    self.mutate(frozenset([(("g", g), ())]), "=", "rebinding", t, v)
                return
            e = self._nonlocal_env(t.id, env)
            e.v[t.id] = v
            e.t[t.id] = ty
        elif isinstance(t, ast.Attribute):
            b = self.val(t.value, env)
            self.mutate(b, "." + t.attr, "assignment", t, v)
            bt = self.typ(t.value, env)
            if bt is not None and bt[0] == "cls":
                self.mutate(frozenset([(("g", f"{bt[1].qual}.{t.attr}"), ())]), "=", "class attribute assignment", t, v)
        elif isinstance(t, ast.Subscript):
            self.val(t.slice, env)
            sv = self.load(v, "[]") if isinstance(t.slice, ast.Slice) else v
            self.mutate(self.val(t.value, env), "[]", "item assignment", t, sv)
        elif isinstance(t, (ast.Tuple, ast.List)):
            ts = ty[2] if ty is not None and ty[0] == "x" and ty[1] == "builtins.tuple" and len(ty[2]) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.copy_of(t, v, f"star{i}"), T_LIST, env, None)
                else:
                    self.assign(x, self.load(v, f"#{i}"), ts[i] if ts else None, env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, ty, env, src)

    def _is_global_decl(self, n: str) -> bool:
        return any(isinstance(x, ast.Global) and n in x.names for x in own_nodes(self.cur.node))

    def _nonlocal_env(self, n: str, env: _Env) -> _Env:
        if len(self.envs) > 1 and any(isinstance(x, ast.Nonlocal) and n in x.names for x in own_nodes(self.cur.node)):
            for e in reversed(self.envs[:-1]):
                if n in e.v:
                    return e
        return env

    def _global(self, n: str) -> Optional[str]:
        r = self.p.resolve_name(self.cur.mod, n)
        return r.qual if isinstance(r, GlobalVar) else None

    # ---- expressions: what a value may be

    def val(self, e: ast.expr, env: _Env) -> frozenset:
        m = getattr(self, "v_" + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.val(c, env)
        return EMPTYV

    def v_Constant(self, e, env):
        return EMPTYV

    def v_Name(self, e, env):
        if e.id in env.v:
            return env.v[e.id]
        for o in reversed(self.envs[:-1]):
            if e.id in o.v:
                return o.v[e.id]
        r = self.e.refs.name(e.id, self.cur.mod, self.cur)
        if isinstance(r, FuncInfo):
            return frozenset([(("fn", r, None, -1), ())])
        if isinstance(r, GlobalVar):
            self.sum.globals_read.add(r.qual)
            return EMPTYV if self.e.scalar_global(r) else frozenset([(("g", r.qual), ())])
        return EMPTYV

    def v_NamedExpr(self, e, env):
        v = self.val(e.value, env)
        self.assign(e.target, v, self.typ(e.value, env), env, e.value)
        return v

    def v_Attribute(self, e, env):
        r = self.e.refs.expr(e, self.cur.mod, self.cur) if not self._local_base(e, env) else None
        if isinstance(r, FuncInfo):
            return frozenset([(("fn", r, None, -1), ())])
        if isinstance(r, GlobalVar):
            self.sum.globals_read.add(r.qual)
            return EMPTYV if self.e.scalar_global(r) else frozenset([(("g", r.qual), ())])
        bt = self.typ(e.value, env)
        b = self.val(e.value, env)
        c = self._cls(bt)
        if c is None and bt is not None and bt[0] == "cls":
            a = bt[1].find_attr(e.attr)
            if a is not None:
                return frozenset([(("g", f"{a[0].qual}.{e.attr}"), ())])
            mm = bt[1].find_method(e.attr)
            return frozenset([(("fn", mm, None, -1), ())]) if mm is not None else EMPTYV
        if isinstance(r, ClassInfo) or (c is None and isinstance(self.e.refs.expr(e.value, self.cur.mod, self.cur), ClassInfo)):
            k = self.e.refs.expr(e.value, self.cur.mod, self.cur)
            if isinstance(k, ClassInfo):
                a = k.find_attr(e.attr)
                if a is not None and not k.is_enum():
                    return frozenset([(("g", f"{a[0].qual}.{e.attr}"), ())])
                mm = k.find_method(e.attr)
                if mm is not None:
                    return frozenset([(("fn", mm, None, -1), ())])
            return EMPTYV
        if c is not None:
            mm = c.find_method(e.attr)
            if mm is not None:
                if mm.kind == "property":
                    return self.apply(mm, [b], {}, e, env, b)
                return frozenset([(("fn", mm, b if mm.kind != "static" else None, -1), ())])
            cv = self.e.class_var(c, e.attr)
            if cv is not None:
                return frozenset([(("g", cv), ())])
        return self.load(b, "." + e.attr)

    def _local_base(self, e: ast.expr, env: _Env) -> bool:
        while isinstance(e, ast.Attribute):
            e = e.value
        return not isinstance(e, ast.Name) or e.id in env.v or any(e.id in o.v for o in self.envs)

    def v_Subscript(self, e, env):
        b = self.val(e.value, env)
        self.val(e.slice, env)
        if isinstance(e.slice, ast.Slice):
            return self.copy_of(e, b, "slice")
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
            return self.load(b, f"#{e.slice.value}")
        return self.load(b, "[]")

    def v_Tuple(self, e, env):
        a = self.alloc(e)
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.put(a, "[]", self.load(self.val(x.value, env), "[]"))
            else:
                self.put(a, f"#{i}", self.val(x, env))
        return frozenset([a])

    def v_List(self, e, env):
        a = self.alloc(e)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.put(a, "[]", self.load(self.val(x.value, env), "[]"))
            else:
                self.put(a, "[]", self.val(x, env))
        return frozenset([a])

    v_Set = v_List

    def v_Dict(self, e, env):
        a = self.alloc(e)
        for k, x in zip(e.keys, e.values):
            v = self.val(x, env)
            if k is None:
                self.put(a, "[]", self.load(v, "[]"))
            else:
                self.val(k, env)
                self.put(a, "[]", v)
        return frozenset([a])

    def _comp(self, e, env, elts):
        env = env.fork()
        self.envs.append(env)
        for g in e.generators:
            it = self.val(g.iter, env)
            self.note_iter(g.iter, env)
            self.bind_elem(g.target, it, self.iter_type(g.iter, env), env, g.iter)
            for c in g.ifs:
                self.val(c, env)
                self.narrow(c, env, True)
        a = self.alloc(e)
        for x in elts:
            self.put(a, "[]", self.val(x, env))
        self.envs.pop()
        return frozenset([a])

    def v_ListComp(self, e, env):
        return self._comp(e, env, [e.elt])

    v_SetComp = v_GeneratorExp = v_ListComp

    def v_DictComp(self, e, env):
        return self._comp(e, env, [e.key, e.value])

    def v_IfExp(self, e, env):
        self.val(e.test, env)
        return self.val(e.body, env) | self.val(e.orelse, env)

    def v_BoolOp(self, e, env):
        out = EMPTYV
        for x in e.values:
            out |= self.val(x, env)
        return out

    def v_BinOp(self, e, env):
        a, b = self.val(e.left, env), self.val(e.right, env)
        if isinstance(e.op, (ast.Add, ast.BitOr)) and (a or b):
            return self.copy_of(e, a | b, "op")
        if isinstance(e.op, ast.Mult) and (a or b):
            return self.copy_of(e, a | b, "op")
        return EMPTYV

    def v_Lambda(self, e, env):
        fi = self.p.node_fn.get(id(e))
        return frozenset([(("fn", fi, None, len(self.envs) - 1), ())]) if isinstance(fi, FuncInfo) else EMPTYV

    def v_Starred(self, e, env):
        return self.val(e.value, env)

    def v_Await(self, e, env):
        return self.val(e.value, env)

    def v_Yield(self, e, env):
        if e.value is not None:
            a = (("a", self.fi.qual, 0, 0, "gen"), ())
            self.put(a, "[]", self.val(e.value, env))
            self.rets[-1].add(a)
        return EMPTYV

    def v_YieldFrom(self, e, env):
        self.rets[-1] |= self.val(e.value, env)
        return EMPTYV

    # ---- calls

    def v_Call(self, e, env):
        f = e.func
        pos: list = []
        for a in e.args:
            pos.append(self.load(self.val(a.value, env), "[]") if isinstance(a, ast.Starred) else self.val(a, env))
        kw = {k.arg: self.val(k.value, env) for k in e.keywords}
        star = any(isinstance(a, ast.Starred) for a in e.args)
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self._super(f.attr, pos, kw, e, env)
        ref = self.e.refs.expr(f, self.cur.mod, self.cur) if not (self._local_base(f, env) and isinstance(f, (ast.Name, ast.Attribute))) else None
        if isinstance(ref, ExtRef):
            return self.ext_call(ref.dotted, e, pos, kw, env)
        if isinstance(ref, ClassInfo):
            return self.construct(ref, pos, kw, e, env)
        if isinstance(ref, FuncInfo):
            if ref.kind == "classmethod":
                return self.apply(ref, [EMPTYV] + pos, kw, e, env, None, star)
            return self.apply(ref, pos, kw, e, env, None, star)
        if isinstance(f, ast.Attribute):
            bt = self.typ(f.value, env)
            recv = self.val(f.value, env)
            return self.method(recv, bt, f.attr, pos, kw, e, env, star)
        fv = self.val(f, env)
        out = EMPTYV
        ft = self.typ(f, env)
        if ft is not None and ft[0] == "cls":
            return self.construct(ft[1], pos, kw, e, env)
        for loc in fv:
            out |= self.call_value(loc, pos, kw, e, env, star)
        return out

    def call_value(self, loc: tuple, pos, kw, node, env, star=False) -> frozenset:
        root, path = loc
        if root[0] == "fn":
            _, fi, selfv, _lvl = root
            if fi is None:
                return EMPTYV
            args = ([selfv] if selfv is not None else []) + pos
            if fi.parent is not None or isinstance(fi.node, ast.Lambda):
                return self.inline(fi, args, kw, node, root[3])
            return self.apply(fi, args, kw, node, env, None, star)
        if root[0] in ("p", "g") and root[0] == "p":
            self.sum.calls[(loc, tuple(pos))] = (node.lineno,)
        return EMPTYV

    def inline(self, fi: FuncInfo, pos, kw, node, level: int) -> frozenset:
        self.e.callees.setdefault(id(node), set()).add(fi)
        if self.depth >= 4 or fi in self.frames:
            return EMPTYV
        self.frames.append(fi)
        self.depth += 1
        old, oenvs, oloops = self.cur, self.envs, self.loops
        self.cur, self.loops = fi, []
        env = _Env({}, {})
        a = fi.node.args
        ps = a.posonlyargs + a.args
        for i, x in enumerate(ps):
            env.v[x.arg] = pos[i] if i < len(pos) else kw.get(x.arg, EMPTYV)
            env.t[x.arg] = self.e.types.ann(fi.mod, x.annotation)
        for x in a.kwonlyargs:
            env.v[x.arg] = kw.get(x.arg, EMPTYV)
            env.t[x.arg] = self.e.types.ann(fi.mod, x.annotation)
        if a.vararg:
            env.v[a.vararg.arg] = frozenset().union(*pos[len(ps):]) if len(pos) > len(ps) else EMPTYV
        self.envs = oenvs[: level + 1] + [env] if level >= 0 else [env]
        self.rets.append(set())
        if isinstance(fi.node, ast.Lambda):
            self.rets[-1] |= self.val(fi.node.body, env)
        else:
            self.block(fi.node.body, env)
        r = frozenset(self.rets.pop())
        self.cur, self.envs, self.loops = old, oenvs, oloops
        self.depth -= 1
        self.frames.pop()
        return r

    def _super(self, name, pos, kw, e, env) -> frozenset:
        c = self.cur.cls
        f = self.cur
        while c is None and f.parent is not None:
            f = f.parent
            c = f.cls
        if c is None:
            return EMPTYV
        ps = f.node.args.posonlyargs + f.node.args.args
        selfv = env.v.get(ps[0].arg, EMPTYV) if ps else EMPTYV
        for k in c.mro()[1:]:
            if isinstance(k, ClassInfo) and name in k.methods:
                return self.apply(k.methods[name], [selfv] + pos, kw, e, env, selfv)
        return EMPTYV

    def construct(self, c: ClassInfo, pos, kw, e, env) -> frozenset:
        a = self.alloc(e, c.name)
        init = c.find_method("__init__")
        if init is not None:
            self.apply(init, [frozenset([a])] + pos, kw, e, env, None)
        elif c.is_dataclass() or c.is_namedtuple():
            names = list(c.annots)
            for i, v in enumerate(pos):
                if i < len(names):
                    self.put(a, "." + names[i], v)
                    self.put(a, f"#{i}", v)
            for k, v in kw.items():
                if k:
                    self.put(a, "." + k, v)
        return frozenset([a])

    def _cls(self, t: Any) -> Optional[ClassInfo]:
        if t is None:
            return None
        if t[0] == "c":
            return t[1]
        if t[0] == "u":
            cs = [x for x in t[1] if x != T_NONE]
            if len(cs) == 1:
                return self._cls(cs[0])
        return None

    def method(self, recv: frozenset, bt: Any, name: str, pos, kw, e, env, star) -> frozenset:
        if name in ("join", "extend", "writelines") and e.args:
            self.note_iter(e.args[0], env)
        c = self._cls(bt)
        if c is None and bt is not None and bt[0] == "cls":
            m = bt[1].find_method(name)
            if m is not None:
                return self.apply(m, ([EMPTYV] if m.kind == "classmethod" else []) + pos, kw, e, env, None, star)
            return EMPTYV
        if c is not None:
            m = c.find_method(name)
            if m is not None:
                cands = [m]
                for k in self.p.subclasses(c):
                    if k is not c and name in k.methods and k.methods[name] not in cands and (m.is_abstract() or self._is_self(e, env)):
                        cands.append(k.methods[name])
                out = EMPTYV
                for q in cands:
                    if q.is_abstract() and len(cands) > 1:
                        continue
                    out |= self.apply(q, ([] if q.kind == "static" else [recv]) + pos, kw, e, env, recv, star)
                return out
            out = EMPTYV
            for loc in self.load(recv, "." + name):
                out |= self.call_value(loc, pos, kw, e, env, star)
            return out
        scal = bt is not None and bt[0] == "x" and bt[1] in SCALARS
        if not scal:
            if name in MUTATORS and not (bt is not None and bt[0] == "x" and bt[1] not in _CONTAINERS):
                stored = EMPTYV
                if name in ("append", "add", "appendleft"):
                    stored = pos[0] if pos else EMPTYV
                elif name in ("insert", "setdefault", "__setitem__"):
                    stored = pos[1] if len(pos) > 1 else EMPTYV
                elif name in ("extend", "update"):
                    stored = self.load(frozenset().union(*pos), "[]") if pos else EMPTYV
                    for v in kw.values():
                        stored |= v
                if name == "sort" and kw.get("key"):
                    for loc in kw["key"]:
                        self.call_value(loc, [self.load(recv, "[]")], {}, e, env)
                self.mutate(recv, "[]", f".{name}()", e, stored)
                if name in ("pop", "popitem", "setdefault", "popleft"):
                    return self.load(recv, "[]") | (pos[1] if len(pos) > 1 else EMPTYV)
                return EMPTYV
            if name == "get" and (bt is None or bt[1] == "builtins.dict" if bt is None or bt[0] == "x" else True):
                return self.load(recv, "[]") | (pos[1] if len(pos) > 1 else EMPTYV)
            if name == "copy":
                return self.copy_of(e, recv)
            if name in ("values",):
                return self.copy_of(e, recv)
            if name == "items":
                a, t = self.alloc(e, "items"), self.alloc(e, "pair")
                self.put(t, "#1", self.load(recv, "[]"))
                self.put(a, "[]", frozenset([t]))
                return frozenset([a])
            if name in ("union", "difference", "intersection", "symmetric_difference"):
                return self.copy_of(e, recv | (frozenset().union(*pos) if pos else EMPTYV))
        if name in ("submit", "apply", "apply_async", "map", "starmap", "imap", "imap_unordered"):
            fns = [l for l in (pos[0] if pos else EMPTYV) if l[0][0] == "fn"]
            out = EMPTYV
            for loc in fns:
                args = pos[1:] if name == "submit" else [self.load(v, "[]") for v in pos[1:]]
                if name == "starmap":
                    args = [self.load(args[0], f"#{i}") for i in range(6)] if args else []
                out |= self.call_value(loc, list(args), {}, e, env)
            a = self.alloc(e, "fut")
            self.put(a, "[]", out)
            return frozenset([a]) if fns else EMPTYV
        if bt is None and name in self.e._by_name and name not in _COMMON:
            ms = self.e._by_name[name]
            tops = {m.cls.mro()[-1] if False else m.qual for m in ms if m.cls is not None}
            if len(tops) == 1 or len(ms) == 1:
                m = ms[0]
                return self.apply(m, ([] if m.kind == "static" else [recv]) + pos, kw, e, env, recv, star)
        return EMPTYV

    def _is_self(self, e: ast.Call, env: _Env) -> bool:
        f = e.func
        return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and env.v.get(f.value.id) == frozenset([(("p", f.value.id), ())]) \
            and self.fi.cls is not None and False

    def ext_call(self, d: str, e: ast.Call, pos, kw, env) -> frozenset:
        self.sum.ext_calls.add(d)
        self.e.extcalls[id(e)] = d
        if d in ITERATES and e.args:
            self.note_iter(e.args[0], env)
        allv = frozenset().union(*pos, *kw.values()) if pos or kw else EMPTYV
        if d in SAME:
            i = SAME[d]
            return pos[i] if i < len(pos) else EMPTYV
        if d in COPIES:
            for k in ("key",):
                for loc in kw.get(k, EMPTYV):
                    self.call_value(loc, [self.load(pos[0], "[]")] if pos else [], {}, e, env)
            src = pos[1] if d == "builtins.filter" and len(pos) > 1 else allv
            c = self._cls(self.typ(e.args[0], env)) if d == "copy.copy" and e.args else None
            if c is not None:  # a shallow copy shares every attribute
                a = self.alloc(e, "copy")
                for n in self.e.inst_attrs(c):
                    self.put(a, "." + n, self.load(src, "." + n))
                return frozenset([a])
            return self.copy_of(e, frozenset(l for l in src if l[0][0] != "fn"))
        if d == "builtins.map" and pos:
            out = EMPTYV
            for loc in pos[0]:
                out |= self.call_value(loc, [self.load(v, "[]") for v in pos[1:]], {}, e, env)
            a = self.alloc(e)
            self.put(a, "[]", out)
            return frozenset([a])
        if d == "builtins.enumerate" and pos:
            a, t = self.alloc(e), self.alloc(e, "pair")
            self.put(t, "#1", self.load(pos[0], "[]"))
            self.put(a, "[]", frozenset([t]))
            return frozenset([a])
        if d == "builtins.zip":
            a, t = self.alloc(e), self.alloc(e, "pair")
            for i, v in enumerate(pos):
                self.put(t, f"#{i}", self.load(v, "[]"))
            self.put(a, "[]", frozenset([t]))
            return frozenset([a])
        if d in ELEM and pos:
            return self.load(pos[0], "[]") | (frozenset().union(*pos[1:]) if len(pos) > 1 else EMPTYV)
        if d == "builtins.getattr" and len(e.args) >= 2:
            n = e.args[1]
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                return self.load(pos[0], "." + n.value)
            return EMPTYV
        if d in ("builtins.setattr", "builtins.object.__setattr__") and len(e.args) >= 3:
            n = e.args[1]
            step = "." + n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else ".?"
            self.mutate(pos[0], step, "setattr", e, pos[2])
            return EMPTYV
        if d == "functools.partial" and pos:
            return pos[0]
        if d in ("random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort") and pos:
            self.mutate(pos[0], "[]", d, e)
            return self.load(pos[0], "[]")
        if d.startswith(("builtins.list.", "builtins.dict.", "builtins.set.")) and pos:
            return self.method(pos[0], None, d.rsplit(".", 1)[-1], pos[1:], kw, e, env, False)
        return EMPTYV

    def apply(self, fi: FuncInfo, pos: list, kw: dict, node: ast.AST, env: _Env, recv: Optional[frozenset], star: bool = False) -> frozenset:
        """Applies the summary of a repository function at a call."""
        self.e.callees.setdefault(id(node), set()).add(fi)
        if fi.parent is not None:
            return self.inline(fi, pos, kw, node, len(self.envs) - 1)
        s = self.e.sums.get(fi)
        if s is None:
            return EMPTYV
        a = fi.node.args
        ps = a.posonlyargs + a.args
        bound: dict = {}
        if star:
            allv = frozenset().union(*pos) if pos else EMPTYV
            for x in ps:
                bound[x.arg] = allv
            if ps and fi.cls is not None and fi.kind in ("method", "property") and recv is not None:
                bound[ps[0].arg] = recv
        else:
            for i, x in enumerate(ps):
                if i < len(pos):
                    bound[x.arg] = pos[i]
            if a.vararg and len(pos) > len(ps):
                v = self.alloc(node, "varargs")
                for q in pos[len(ps):]:
                    self.put(v, "[]", q)
                bound[a.vararg.arg] = frozenset([v])
        for k, v in kw.items():
            if k is None:
                continue
            if any(x.arg == k for x in ps + a.kwonlyargs):
                bound[k] = v
            elif a.kwarg:
                bound[a.kwarg.arg] = bound.get(a.kwarg.arg, EMPTYV) | v
        idx: dict = {}

        def sub(loc: tuple) -> frozenset:
            root, path = loc
            if root[0] == "p":
                cur = bound.get(root[1], EMPTYV)
                for st in path:
                    cur = self.load(cur, st)
                return frozenset(weak(q) for q in cur) if is_weak(loc) else cur
            if root[0] == "a":
                n = idx.setdefault(root, len(idx))
                new = ("a", self.fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), f"{fi.name}:{min(n, 6)}")
                return frozenset([(new, path)])
            return frozenset([loc])

        def subs(ls: frozenset) -> frozenset:
            out: set = set()
            for l in ls:
                out |= sub(l)
            return frozenset(out)

        for r, fields in s.heap.items():
            tgt = next(iter(sub((r, ()))))
            for k, ls in fields.items():
                self.put(tgt, k, subs(ls))
        for m in list(s.muts.values()):
            root, path = m.loc
            if root[0] == "g":
                self._rec(m.loc, m, fi)
                continue
            base = bound.get(root[1], EMPTYV)
            for st in path[:-1]:
                base = self.load(base, st)
            for loc in base:
                if loc[0][0] in ("p", "g"):
                    t = ext(loc, path[-1])
                    self._rec(weak(t) if is_weak(m.loc) else t, m, fi)
        for tgt, (ls, sfi, line) in list(s.stores.items()):
            root, path = tgt
            vals = subs(ls)
            if root[0] == "g":
                self._store(tgt, vals, sfi, line)
                continue
            base = bound.get(root[1], EMPTYV)
            for st in path[:-1]:
                base = self.load(base, st)
            for loc in base:
                if loc[0][0] == "a":
                    self.put(loc, path[-1], vals)
                elif loc[0][0] in ("p", "g"):
                    self._store(ext(loc, path[-1]), vals, sfi, line)
        for (ploc, args), _ in list(s.calls.items()):
            for loc in sub(ploc):
                self.call_value(loc, [subs(v) for v in args], {}, node, env)
        self.sum.globals_read |= s.globals_read
        return subs(s.ret)

    def _rec(self, tgt: tuple, m: Mut, fi: FuncInfo) -> None:
        k = (tgt, m.fi, m.line)
        if k not in self.sum.muts:
            self.sum.muts[k] = Mut(tgt, m.how, m.fi, m.line, ((fi.name,) + m.via)[:6])

    # ---- types

    def note_iter(self, e: ast.expr, env: _Env) -> None:
        t = self.typ(e, env)
        if t is not None:
            self.e.itypes[id(e)] = t

    def iter_type(self, e: ast.expr, env: _Env) -> Any:
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and not e.args:
                bt = self.typ(e.func.value, env)
                it = self.e.types.item(bt)
                if e.func.attr == "items" and bt is not None:
                    k = self.e.types.elem(bt)
                    return ("x", "builtins.tuple", (k, it))
                if e.func.attr == "values":
                    return it
                if e.func.attr == "keys":
                    return self.e.types.elem(bt)
            if isinstance(e.func, ast.Name) and e.args:
                if e.func.id == "enumerate":
                    return ("x", "builtins.tuple", (("x", "builtins.int", ()), self.iter_type(e.args[0], env)))
                if e.func.id in ("sorted", "list", "reversed", "set", "tuple"):
                    return self.iter_type(e.args[0], env)
                if e.func.id == "zip":
                    return ("x", "builtins.tuple", tuple(self.iter_type(a, env) for a in e.args))
                if e.func.id == "range":
                    return ("x", "builtins.int", ())
        return self.e.types.elem(self.typ(e, env))

    def typ(self, e: ast.expr, env: _Env, d: int = 0) -> Any:
        if d > 8:
            return None
        T = self.e.types
        if isinstance(e, ast.Name):
            if e.id in env.t or e.id in env.v:
                return env.t.get(e.id)
            for o in reversed(self.envs[:-1]):
                if e.id in o.v:
                    return o.t.get(e.id)
            r = self.e.refs.name(e.id, self.cur.mod, self.cur)
            if isinstance(r, ClassInfo):
                return ("cls", r)
            if isinstance(r, GlobalVar):
                return self._gtype(r)
            return None
        if isinstance(e, ast.Constant):
            return {str: ("x", "builtins.str", ()), int: ("x", "builtins.int", ()), bool: ("x", "builtins.bool", ())}.get(type(e.value))
        if isinstance(e, ast.JoinedStr):
            return ("x", "builtins.str", ())
        if isinstance(e, ast.Attribute):
            c = self._cls(self.typ(e.value, env, d + 1))
            if c is not None:
                m = c.find_method(e.attr)
                if m is not None:
                    return T.ret(m) if m.kind == "property" else None
                return T.attr(c, e.attr)
            if not self._local_base(e, env):
                r = self.e.refs.expr(e, self.cur.mod, self.cur)
                if isinstance(r, ClassInfo):
                    return ("cls", r)
                if isinstance(r, GlobalVar):
                    return self._gtype(r)
            return None
        if isinstance(e, ast.Subscript):
            b = self.typ(e.value, env, d + 1)
            if isinstance(e.slice, ast.Slice):
                return b
            if b is not None and b[0] == "x" and b[1] == "builtins.tuple" and isinstance(e.slice, ast.Constant) and isinstance(
                    e.slice.value, int) and 0 <= e.slice.value < len(b[2]):
                return b[2][e.slice.value]
            return T.item(b)
        if isinstance(e, ast.Call):
            if not (isinstance(e.func, (ast.Name, ast.Attribute)) and self._local_base(e.func, env)):
                r = self.e.refs.expr(e.func, self.cur.mod, self.cur)
                if isinstance(r, ClassInfo):
                    return ct(r)
                if isinstance(r, FuncInfo):
                    return T.ret(r)
                if isinstance(r, ExtRef):
                    if r.dotted == "typing.cast" and len(e.args) == 2:
                        return T.ann(self.cur.mod, e.args[0]) or self.typ(e.args[1], env, d + 1)
                    if r.dotted in ("copy.deepcopy", "copy.copy", "builtins.iter") and e.args:
                        return self.typ(e.args[0], env, d + 1)
                    if r.dotted == "builtins.sorted" and e.args:
                        it = self.iter_type(e.args[0], env)
                        return ("x", "builtins.list", (it,)) if it is not None else T_LIST
                    if r.dotted == "builtins.frozenset":
                        return ("x", "builtins.set", ())
                    if r.dotted in ("builtins.next", "builtins.min", "builtins.max") and e.args:
                        return self.iter_type(e.args[0], env)
                    if r.dotted in ("builtins.list", "builtins.set", "builtins.dict", "builtins.tuple", "builtins.str", "builtins.int", "builtins.bool"):
                        if e.args:
                            it = self.iter_type(e.args[0], env)
                            return ("x", r.dotted, (it,)) if it is not None and r.dotted in ("builtins.list", "builtins.set") else ("x", r.dotted, ())
                        return ("x", r.dotted, ())
                    if r.dotted.startswith("builtins."):
                        return None
                    return ("x", r.dotted + "()", ())
            if isinstance(e.func, ast.Attribute):
                if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                    return None
                bt = self.typ(e.func.value, env, d + 1)
                c = self._cls(bt) or (bt[1] if bt is not None and bt[0] == "cls" else None)
                if c is not None:
                    m = c.find_method(e.func.attr)
                    return T.ret(m) if m is not None else None
                if e.func.attr in ("get", "pop", "setdefault"):
                    return T.item(bt)
                if e.func.attr == "copy":
                    return bt
                if e.func.attr in ("union", "intersection", "difference", "symmetric_difference") and is_set(bt):
                    return bt
            if isinstance(e.func, ast.Name):
                ft = self.typ(e.func, env, d + 1)
                if ft is not None and ft[0] == "cls":
                    return ct(ft[1])
                for loc in self.val(e.func, env):
                    if loc[0][0] == "fn" and loc[0][1] is not None:
                        return T.ret(loc[0][1])
            return None
        if isinstance(e, (ast.BoolOp,)):
            for x in e.values:
                t = self.typ(x, env, d + 1)
                if t is not None and t != T_NONE:
                    return t
            return None
        if isinstance(e, ast.IfExp):
            return self.typ(e.body, env, d + 1) or self.typ(e.orelse, env, d + 1)
        if isinstance(e, (ast.List, ast.ListComp)):
            return T_LIST
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("x", "builtins.dict", ())
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ("x", "builtins.set", ())
        if isinstance(e, ast.NamedExpr):
            return self.typ(e.value, env, d + 1)
        if isinstance(e, (ast.Compare,)):
            return ("x", "builtins.bool", ())
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            for x in (e.left, e.right):
                t = self.typ(x, env, d + 1)
                if is_set(t):
                    return t
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args:
                    return ("x", "builtins.set", ())
        return None

    def _gtype(self, r: GlobalVar) -> Any:
        m = self.p.mods[r.mod]
        for n in m.tree.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == r.name:
                return self.e.types.ann(m, n.annotation)
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.name for t in n.targets):
                v = n.value
                if isinstance(v, (ast.List, ast.ListComp)):
                    return T_LIST
                if isinstance(v, (ast.Dict, ast.DictComp)):
                    return ("x", "builtins.dict", ())
                if isinstance(v, (ast.Set, ast.SetComp)):
                    return ("x", "builtins.set", ())
        return None


_CONTAINERS = {"builtins.list", "builtins.dict", "builtins.set", "collections.deque", "collections.OrderedDict", "collections.defaultdict"}
_COMMON = {"get", "copy", "items", "keys", "values", "pop", "add", "update", "append", "extend", "remove", "clear", "sort", "index", "count",
           "join", "split", "strip", "replace", "format", "lower", "upper", "read", "write", "close", "open", "search", "match", "find", "render",
           "encode", "decode", "plot", "info", "error", "warning", "debug", "group", "run", "call", "fetch", "scan", "patch", "sub", "findall"}
