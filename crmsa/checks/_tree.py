"""Typestate of a recipe object while one of its editing methods runs: tree, variable table, selector table, modified flag.

The abstract interpreter walks every path of the method. Functions that change nothing but scratch path stacks (decided by the
effect analysis) are not entered: their result is a term whose origin is known, so a node they return is still recognised as a
part of the recipe's tree.
"""

from __future__ import annotations

import ast
from typing import Any, NamedTuple, Optional

from ..effects import Effects, is_weak
from ..escapes import Escapes
from ..facts import split
from ..interp import Event, Interp
from ..model import ClassInfo, FuncInfo, Program, own_nodes
from ..values import K, NONE, State, T_BOOL, T_STR, Term, ct, is_k, kv, members, mk, phi, show, ty_strip_none
from ._common import CRMHooks, RAISES

EDITORS = ("patch", "search_and_patch", "set_variable", "del_variable", "add_selector", "remove_selector", "add_comment",
           "add_dependency", "remove_dependency")


class Fields(NamedTuple):
    tree: str
    flag: str
    vars: str
    sel: str
    version: str


class TMon(NamedTuple):
    hit: frozenset = frozenset()  # origins whose nodes were changed in place
    copies: frozenset = frozenset()  # deep copies of the untouched tree
    vars: bool = False
    flag: str = ""  # "", "set", "reset"
    stale: bool = False  # nodes changed since the selector table was last written
    done: int = 0  # successful inner patches
    fail: int = 0


def self_reads(p: Program, c: ClassInfo, name: str, seen: Optional[set] = None) -> list:
    """Data attributes of self that a method reads, through the methods of self it calls, in order of appearance."""
    seen = seen if seen is not None else set()
    m = c.find_method(name)
    if m is None or m in seen:
        return []
    seen.add(m)
    ps = m.node.args.posonlyargs + m.node.args.args
    if not ps:
        return []
    out: list = []
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0].arg:
            if c.find_method(n.attr) is not None:
                out += self_reads(p, c, n.attr, seen)
            elif n.attr not in out:
                out.append(n.attr)
    return out


def fields(p: Program, c: ClassInfo, e: Effects) -> Fields:
    """The state of a recipe object, found from the public accessors that read it."""
    inst = e.inst_attrs(c)

    def pick(method: str, typ: Any = None) -> str:
        got = [a for a in self_reads(p, c, method) if a in inst and (typ is None or typ(e.types.attr(c, a)))]
        return got[0] if got else ""

    def node_t(t: Any) -> bool:
        t = ty_strip_none(t)
        return t is not None and t[0] == "c" and any(isinstance(k, ClassInfo) and k.name == "Node" for k in t[1].mro())

    def dict_t(t: Any) -> bool:
        t = ty_strip_none(t)
        return t is not None and t[0] == "x" and t[1] == "builtins.dict"

    return Fields(pick("render", node_t) or pick("render_to_object"), pick("is_modified"), pick("list_variables", dict_t) or pick("contains_variable"),
                  pick("list_selectors", dict_t) or pick("contains_selector"), pick("get_schema_version"))


class TreeHooks(CRMHooks):
    max_steps = 1_500_000

    def __init__(self, p: Program, e: Effects, x: Escapes, cls: ClassInfo, atomic_patch: bool = False) -> None:
        super().__init__()
        self.p, self.e, self.x, self.cls = p, e, x, cls
        self.f = fields(p, cls, e)
        self.node_c = p.cls("parser._node.Node")
        self.atomic = atomic_patch
        self.patch_fi = cls.find_method("patch")
        self.orig: dict[Term, tuple] = {}
        self.selfv = mk("param", "self", typ=ct(cls))
        self.root = mk("attr", self.selfv, self.f.tree, typ=e.types.attr(cls, self.f.tree))
        self.writes: list = []
        self._pure: dict = {}
        self.schema_exc = p.cls("parser.exceptions.JsonPatchValidationException")

    # ---- which functions are not entered

    def pure(self, fi: FuncInfo) -> bool:
        r = self._pure.get(fi)
        if r is None:
            s = self.e.sums.get(fi)
            r = s is not None and not s.calls and not fi.is_generator() and all(self._scratch(fi, m) for m in s.muts.values()) \
                and fi.name != "__init__"
            self._pure[fi] = r
        return r

    def _scratch(self, fi: FuncInfo, m: Any) -> bool:
        """A change to a list of strings handed in (a path stack): not recipe state."""
        if is_weak(m.loc):
            return True
        root, path = m.loc
        if root[0] != "p" or path not in (("[]",), ("[]", "[]")):
            return False
        a = fi.node.args
        for q in a.posonlyargs + a.args + a.kwonlyargs:
            if q.arg == root[1]:
                t = ty_strip_none(self.e.types.ann(fi.mod, q.annotation))
                return t is not None and t[0] == "x" and t[1] in ("builtins.list", "builtins.dict", "builtins.set") and not self._has_node(t)
        return False

    def _has_node(self, t: Any) -> bool:
        if isinstance(t, tuple):
            return any(self._has_node(q) for q in t)
        return isinstance(t, ClassInfo) and t is self.node_c

    def opaque(self, fi: FuncInfo, interp: Interp, args: tuple) -> bool:
        return self.pure(fi)

    def opaque_raises(self, fi: FuncInfo) -> list:
        return self.x.of(fi)

    # ---- origins

    def origins(self, t: Term, d: int = 0) -> frozenset:
        if d > 25:
            return frozenset()
        if t is self.root or t.op in ("deepcopy", "param"):
            return frozenset([t])
        if t.op == "phi":
            return frozenset().union(*[self.origins(x, d + 1) for x in members(t)])
        if t in self.orig:
            return frozenset().union(*[self.origins(x, d + 1) for x in self.orig[t]]) if self.orig[t] else frozenset()
        if t.op in ("attr", "item", "elem", "scopy", "sub") and t.args and isinstance(t.args[0], Term):
            if t.op == "attr" and t.args[0] is self.selfv:
                return frozenset([t])
            return self.origins(t.args[0], d + 1)
        return frozenset()

    def tree_origin(self, t: Term) -> frozenset:
        """Trees of this recipe (its own, or a copy made of it) that a node belongs to."""
        out = set()
        for o in self.origins(t):
            if o is self.selfv or (o.op == "attr" and o.args[0] is self.selfv):
                out.add(self.root)
            elif o.op == "deepcopy":
                out.add(o)
        return frozenset(out)

    # ---- calls

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        fi = self.p.funcs.get(name)
        if fi is None:
            return None
        if self.atomic and fi is self.patch_fi and recv is self.selfv:
            return self._atomic(I, st, args, kwargs, node, fr, X)
        s = self.e.sums.get(fi)
        if s is not None and s.calls and not s.muts and not fi.is_generator() and fi.cls is None:
            return self._callback(I, st, fi, s, recv, args, kwargs, node, fr, X)
        return None

    def _callback(self, I: Interp, st: State, fi: FuncInfo, s: Any, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        bound = I.bind(fi, recv, args, kwargs, st, fr, node)
        I.emit(st, Event("walk", fi.qual, recv, tuple(bound.values()), dict(bound), node, fr.fi, fr.ctx))
        out = [(st.fork(), NONE)]
        for n, ((root, path), cargs) in enumerate(s.calls):
            f = bound.get(root[1]) if root[0] == "p" and not path else None
            if f is None or f.op != "fn":
                return None
            cb = f.args[0]
            ps = cb.node.args.posonlyargs + cb.node.args.args
            ps = ps[1:] if f.args[1] is not None else ps
            vals = []
            for i, ls in enumerate(cargs):
                srcs = tuple(bound[r[1]] for r, _ in sorted(ls, key=str) if r[0] == "p" and r[1] in bound)
                t = self.e.types.ann(cb.mod, ps[i].annotation) if i < len(ps) else None
                v = mk("call", fi.qual + f":arg{i}", srcs, typ=t, site=I.site(node, fr, "cb"))
                self.orig[v] = srcs
                vals.append(v)
            for s1, _ in I.call(f, tuple(vals), {}, st.fork(), node, fr, X):
                out.append((s1, NONE))
            if n >= 1:
                break
        return out

    def payload(self, v: Term, st: State) -> Optional[dict]:
        for m in members(v):
            r = st.heap.get(m)
            if r is None or r.kind != "dict":
                return None
            return {kv(k): x for k, x in r.fields.d.items() if isinstance(k, Term) and is_k(k)}
        return None

    def _atomic(self, I: Interp, st: State, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> list:
        """A call of the (separately checked) patch method: it changes everything consistently, changes nothing, or raises."""
        m = st.mon or TMon()
        f = self.payload(args[0] if args else kwargs.get("patch", mk("top")), st)
        I.emit(st, Event("patch", self.patch_fi.qual, self.selfv, args, kwargs, node, fr.fi, fr.ctx, extra=f))
        ok, no = st.fork(), st.fork()
        cur = self.current(st)
        ok.mon = m._replace(hit=m.hit | {cur}, flag="set", stale=False, done=min(m.done + 1, 3))
        no.mon = m._replace(fail=min(m.fail + 1, 2))
        out = [(ok, K(True)), (no, K(False))]
        risky = f is None or "value" in f
        for k in ("path", "from"):
            q = (f or {}).get(k)
            if q is not None and not (q.op == "fmt" or (is_k(q) and isinstance(kv(q), str)) or q.typ == T_STR):
                risky = True
        if risky:
            bad = st.fork()
            X.append((bad, I.mk_exc(self.schema_exc, node, fr)))
        return out

    def current(self, st: State) -> Term:
        v = st.heap.get(("sym", self.selfv, self.f.tree))
        return v if v is not None else self.root

    # ---- events

    def event(self, st: State, ev: Event, I: Interp) -> None:
        super().event(st, ev, I)
        if st.mon is None:
            st.mon = TMon()
        m: TMon = st.mon
        if ev.kind == "opaque":
            fi = self.p.funcs.get(ev.name)
            s = self.e.sums.get(fi) if fi is not None else None
            for mu in s.muts.values() if s is not None else ():
                v = ev.kwargs.get(mu.loc[0][1])
                for q in members(v) if v is not None else ():
                    r = st.heap.get(q)
                    if r is not None and r.kind in ("list", "set") and r.elems is not None:
                        st.heap = st.heap.set(q, r.but(elems=None, summ=phi(list(r.elems)) if r.elems else r.summ))
                    I._forget_content(st, q)
        elif ev.kind == "opaque_ret":
            fi = self.p.funcs.get(ev.name)
            s = self.e.sums.get(fi) if fi is not None else None
            if s is not None and ev.value is not None:
                srcs = []
                for (root, path) in sorted(self._ret_locs(s), key=str):
                    if root[0] == "p" and root[1] in ev.kwargs:
                        b = ev.kwargs[root[1]]
                        if b is self.selfv and path and path[0].startswith("."):
                            b = self.root if path[0] == "." + self.f.tree else mk("attr", b, path[0][1:])
                            if path[0] == "." + self.f.tree:
                                b = self.current(st)
                        srcs.append(b)
                self.orig[ev.value] = tuple(srcs)
        elif ev.kind == "call" and ev.name == "copy.deepcopy" and ev.args:
            a = ev.args[0]
            if a is self.root and self.root not in m.hit:
                st.mon = m._replace(copies=m.copies | {(ev.node.lineno, ev.node.col_offset)})
        elif ev.kind == "store":
            self._store(st, ev, m)
        elif ev.kind == "mut":
            self._mut(st, ev, m)

    def _ret_locs(self, s: Any) -> set:
        """Locations a summary's result may be or contain."""
        out, work, seen = set(), list(s.ret), set()
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            if l[0][0] == "a":
                for ls in s.heap.get(l[0], {}).values():
                    work += list(ls)
            else:
                out.add(l)
        return out

    def _is_node(self, t: Term) -> bool:
        ty = ty_strip_none(t.typ)
        return ty is not None and ty[0] == "c" and ty[1] is self.node_c

    def _touch(self, st: State, m: TMon, o: frozenset, ev: Event) -> None:
        if o:
            self.writes.append((ev.fi.qual if ev.fi else "?", ev.loc()))
            st.mon = m._replace(hit=m.hit | o, stale=True)

    def _store(self, st: State, ev: Event, m: TMon) -> None:
        for b in members(ev.recv):
            if b is self.selfv:
                if ev.name == self.f.flag:
                    v = ev.value
                    st.mon = m = m._replace(flag="set" if is_k(v) and kv(v) is True else ("reset" if is_k(v) else m.flag))
                elif ev.name == self.f.sel:
                    st.mon = m = m._replace(stale=False)
                elif ev.name == self.f.vars:
                    st.mon = m = m._replace(vars=True)
                elif ev.name == self.f.tree:
                    self.writes.append((ev.fi.qual if ev.fi else "?", ev.loc()))
                    st.mon = m = m._replace(stale=not (ev.value is self.root and self.root not in m.hit))
            elif self._is_node(b):
                self._touch(st, m, self.tree_origin(b), ev)
                m = st.mon

    def _mut(self, st: State, ev: Event, m: TMon) -> None:
        for b in members(ev.recv):
            if b.op == "attr" and b.args[0] is self.selfv:
                if b.args[1] == self.f.vars:
                    st.mon = m = m._replace(vars=True)
                elif b.args[1] == self.f.sel and ev.name in ("clear", "update"):
                    st.mon = m = m._replace(stale=False)
            elif b.op == "attr" and isinstance(b.args[0], Term) and self._is_node(b.args[0]):
                self._touch(st, m, self.tree_origin(b.args[0]), ev)
                m = st.mon

    # ---- verdicts

    def changed(self, st: State) -> Optional[bool]:
        """Whether the recipe's tree differs from the one the method found (None: not known)."""
        m: TMon = st.mon or TMon()
        out = []
        for cur in members(self.current(st)):
            if cur is self.root:
                out.append(self.root in m.hit)
            elif cur.op == "deepcopy":
                out.append(cur in m.hit or cur.args[0] is not self.root or not m.copies)
            else:
                out.append(None)
        if all(o is True for o in out):
            return True
        if all(o is False for o in out):
            return False
        return None


def tree_events(h: TreeHooks, st: State) -> list:
    """The statements of a path that changed the recipe, for the report."""
    out = []
    for e in st.events():
        if e.kind in ("store", "mut") and e.recv is not None:
            for b in members(e.recv):
                if b is h.selfv or h.tree_origin(b if h._is_node(b) else (b.args[0] if b.op == "attr" and isinstance(b.args[0], Term) else b)):
                    out.append(f"{e.loc()} {e.kind} {show(e.recv)[:60]}.{e.name}")
                    break
        elif e.kind in ("patch", "opaque_exc", "raise", "exc"):
            out.append(f"{e.loc()} {e.kind} {str(e.name).rsplit('.', 1)[-1]}")
    return out[-20:]


def truths(v: Term, st: State) -> list:
    """The (outcome, state) pairs of a returned value: True, False or None for `no value`."""
    if v is NONE:
        return [(None, st)]
    t, f = split(v, st)
    return [(True, s) for s in t] + [(False, s) for s in f]
