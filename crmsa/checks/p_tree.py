"""P16-P19: paths, patches, rendering and comments, by partial evaluation over given recipe trees.

A family of tree shapes (scalars, lists, lists of mappings, nested lists, empty keys, comment lines between entries) is built as nodes; the
repository's methods are evaluated on them from their source and the resulting tree, text or answer is compared with what the document says.
"""

from __future__ import annotations

import itertools
from typing import Any, Callable, Optional

from .. import miniyaml
from ..miniyaml import T, data, eq, find, flat, norm, parse, paths
from ..peval import Inst, NT, PEval, Path, Sym, has_sym, show, sym
from .. import miniyaml
from ..report import Ctx, check
from ..treelab import Lab, Malformed, TreeHooks
from .p_deps import sole
from .p_select import enum_of, spot

SHAPES = {
    "quotes": """
context:
  version: "1.10"
  flag: 'no'
extra:
  one:
    - "007"
  list:
    - "k: v"
    - ""  # note
    - 5
  number: 5
""",
    "sections": """
package:
  name: v1  # note
  version: 3
# between
build:
  number: 0  # [win]
  skip: true  # [osx] why
  noarch:
about:
  home: v2
""",
    "lists": """
requirements:
  host:
    # first
    - a1  # [win]
    - a2
    # middle
    - a3  # note
    # last
  run:
    - b1
  empty:
extra:
  keys: c1
""",
    "mappings in lists": """
package:
  name: v1
outputs:
  - name: o1  # n1
    version: 1
    requirements:
      run:
        - r1
        # inner
        - r2  # [linux]
  # comment between
  - name: o2
    # inside
    test:
      commands:
        - t1
  - name: o3
source:
  - url: u1
    patches:
      - p1
      - p2
  - path: u2  # [unix]
""",
    "one entry": """
top: x1  # [win]
""",
    "single item list": """
a:
  b:
    - only  # why
c:
  - name: z1
""",
}
# documents that are only read
READ_SHAPES = {
    "texts": """
about:
  summary: |
    line1
    line2
  description: >-
    w1
    w2
  license: MIT  # note
test:
  commands:
    - c1
""",
}


def split(p: str) -> list:
    return [x for x in p.split("/") if x]


def listy(t: Optional[T]) -> bool:
    ks = t.real() if t is not None else []
    return bool(ks) and ks[0].kind in ("item", "coll")


def mappy(t: Optional[T]) -> bool:
    return t is not None and (t.kind == "root" or bool(t.real()) and t.real()[0].kind == "key")


def index(t: T, k: T) -> int:
    return next(i for i, x in enumerate(t.kids) if x is k)


def fresh(v: Any) -> list:
    ks = miniyaml.from_data(v)
    for k in ks:
        k.new = True
    return ks


def as_item(v: Any) -> T:
    if isinstance(v, (dict, list)) and v:
        k = T("coll", kids=miniyaml.from_data(v))
    else:
        k = T("item", value=v)
    k.new = True
    return k


class Refused(Exception):
    pass


class Open(Exception):
    """Not specified."""


def r_add(t: T, path: str, v: Any) -> None:
    parts = split(path)
    if not parts:
        raise Open
    par = find(t, parts[:-1])
    last = parts[-1]
    if par is None:
        raise Refused
    if par.kind in ("item", "scalar"):
        raise Refused
    ks = par.real()
    if listy(par):
        if isinstance(v, list):
            raise Open  # recipes have no lists of lists
        if last == "-":
            par.kids.append(as_item(v))
        elif last.isdigit():
            if int(last) > len(ks):
                raise Refused
            if int(last) == len(ks):
                raise Open  # the repository refuses, RFC 6902 appends
            par.kids.insert(index(par, ks[int(last)]), as_item(v))
        else:
            raise Open if not isinstance(v, (str, int)) else Refused
        return
    if ks and ks[0].kind == "scalar":
        raise Refused if last != "-" and not last.isdigit() else Open
    if last == "-" or last.isdigit():
        raise Open if not ks else Refused
    if not ks:
        raise Open  # an empty key is neither mapping nor list yet
    old = next((k for k in ks if k.kind == "key" and str(k.key) == last), None)
    if old is not None:
        old.kids = fresh(v)
        old.new = True
    else:
        k = T("key", key=last, kids=fresh(v))
        k.new = True
        par.kids.append(k)


def r_remove(t: T, path: str) -> Any:
    parts = split(path)
    if not parts:
        raise Open
    par, me = find(t, parts[:-1]), find(t, parts)
    if me is None or par is None:
        raise Refused
    v = data(me)
    if par.kind == "coll" and len(par.real()) == 1:
        raise Open  # a list entry left without keys
    par.kids.pop(index(par, me))
    return v


def r_replace(t: T, path: str, v: Any) -> None:
    parts = split(path)
    if not parts:
        raise Open
    par, me = find(t, parts[:-1]), find(t, parts)
    if me is None or par is None:
        raise Refused
    if me.kind == "key":
        me.kids = fresh(v)
        me.new = True
    elif isinstance(v, list):
        raise Open
    else:
        par.kids[index(par, me)] = as_item(v)


def reference(doc: T, patch: dict) -> tuple:
    """(accepted, resulting document)"""
    t = doc.copy()
    op, path = patch["op"], patch["path"]
    try:
        if op == "add":
            r_add(t, path, patch["value"])
        elif op == "remove":
            r_remove(t, path)
        elif op == "replace":
            r_replace(t, path, patch["value"])
        elif op in ("move", "copy"):
            src = find(t, split(patch["from"]))
            if src is None:
                raise Refused
            if op == "move" and (path + "/").startswith(patch["from"] + "/"):
                if path == patch["from"]:
                    return True, doc
                raise Refused
            v = data(src)
            if v is None:
                raise Open
            if op == "move":
                r_remove(t, patch["from"])
            r_add(t, path, v)
        elif op == "test":
            m = find(t, split(path))
            if m is None:
                return False, doc
            if data(m) is None:
                raise Open
            return eq(data(m), patch["value"]), doc
    except Refused:
        return False, doc
    return True, t


def lines(t: T) -> list:
    """What must survive: comments with where they are, ignoring what the patch itself put there."""
    return [("#", x[1]) if x[0] == "#" else (x[0], x[3]) for x in flat(t) if x[0] == "#" or not x[4] and x[3]]


def news(t: T) -> set:
    return {x[0] for x in flat(t) if x[0] != "#" and x[4]}


def runs(ctx: Ctx, pe: PEval, what: str, body: Callable) -> list:
    out = []
    for r in sole(ctx, what, pe.explore(body)):
        if r.asm:
            ctx.undec(f"{what}: depends on {'; '.join(r.why())[:150]}")
            continue
        out.append(r)
    ctx.functions |= pe.functions
    return out


VALUES = ["w1", "1.10", "yes", "", "k: v", "x # y", 7, True, ["p1", "p2"], {"k1": "w2"}, {"k1": {"k2": "w3"}, "k3": ["w4"]}, ["only1"]]


def patches(doc: T, thorough: bool) -> list:
    ps = paths(doc)
    out: list = []
    vals = VALUES if thorough else VALUES
    tgt = ps + ["/nope", "/nope/x", f"{ps[0]}/nope/x", "/0", "/-"]
    for p in ps:
        n = find(doc, split(p))
        if listy(n):
            tgt += [f"{p}/-", f"{p}/{len(n.real())}", f"{p}/{len(n.real()) + 3}", f"{p}/nope"]
        elif mappy(n):
            tgt += [f"{p}/new", f"{p}/0", f"{p}/-"]
        elif n.kind != "key" or n.real():
            tgt += [f"{p}/new"]
    for p in tgt:
        out.append({"op": "remove", "path": p})
        for v in vals:
            out.append({"op": "add", "path": p, "value": v})
            out.append({"op": "replace", "path": p, "value": v})
        for f in ps + ["/nope"]:
            out.append({"op": "move", "path": p, "from": f})
            out.append({"op": "copy", "path": p, "from": f})
        n = find(doc, split(p))
        for v in ([data(n), str(data(n))] if n is not None else []) + ["w1", 0, ["a1"]]:
            out.append({"op": "test", "path": p, "value": v})
    return out


@check("P16")
def p16(ctx: Ctx) -> str:
    lab = Lab(ctx)
    patch = lab.parser.find_method("patch")
    ctx.need(patch is not None, "RecipeParser.patch")
    ctx.rule("P16.doc", "the recipe after an accepted patch has exactly the data RFC 6902 gives; a refused patch leaves it alone")
    ctx.rule("P16.accept", "a patch is accepted exactly when its paths name what the operation needs")
    ctx.rule("P16.rest", "every comment and selector of the other entries, and every comment line, stays with its entry")
    ctx.rule("P16.text", "the text rendered after an accepted patch reads as the patched document")
    ctx.rule("P16.tree", "the tree remains one a recipe can have")
    loc = spot(patch)
    todo = [(name, pt) for name, text in SHAPES.items() for pt in patches(parse(text.strip("\n")), ctx.tier == "thorough")]
    docs = {name: parse(text.strip("\n")) for name, text in SHAPES.items()}

    def one(it: tuple) -> None:
        name, pt = it
        doc = docs[name]
        try:
            ok, want = reference(doc, pt)
        except Open:
            return
        label = f"{pt['op']} {pt['path']}" + (f" from {pt['from']}" if "from" in pt else "") + (f" value {show(pt['value'])[:40]}" if "value" in pt else "")
        ctx.count("patches")
        hit: dict = {}

        def body(ev: PEval) -> Any:
            r = lab.recipe(ev, doc, text=SHAPES[name].lstrip())
            x = ev.truth(ev.call(ev.getattr(r, "patch"), [{k: _copy(v) for k, v in pt.items()}], {}))
            try:
                d = lab.doc(ev, r)
            except Malformed as e:
                return x, str(e), ""
            return x, d, ev.call(ev.getattr(r, "render"), [], {}) if x is True and ok else None

        pe = PEval(ctx.p, TreeHooks(lab))
        for r in runs(ctx, pe, label, body):
            cid = f"patch {pt['op']}: {name}"
            if r.kind == "exc":
                ctx.report("P16.accept", cid, loc, f"{label}: raises {show(r.value)}")
                continue
            got_ok, got, text = r.value
            if isinstance(got, str):
                ctx.report("P16.tree", cid, loc, f"{label}: {got}")
                continue
            if got_ok is not ok:
                ctx.report("P16.accept", cid, loc, f"{label}: is {'accepted' if got_ok else 'refused'} although the paths {'exist' if ok else 'do not allow it'}")
                continue
            if not eq(norm(data(got)), norm(data(want))):
                ctx.report("P16.doc", cid, loc, f"{label}: gives {show(data(got))[:200]} instead of {show(data(want))[:200]}")
                continue
            nw = news(want)
            g = [x for x in lines(got) if x[0] not in nw]
            if g != lines(want):
                ctx.report("P16.rest", cid, loc, f"{label}: comments are {show([x for x in g if x not in lines(want)])[:150]}, not {show([x for x in lines(want) if x not in g])[:150]}")
            if text is None:
                continue
            if not isinstance(text, str):
                ctx.undec(f"text after {label}")
                continue
            try:
                back = data(miniyaml.recipe(text))
            except miniyaml.Invalid as e:
                ctx.report("P16.text", cid, loc, f"{label}: the recipe is then rendered as text that is not YAML: {str(e)[:100]}")
                continue
            except miniyaml.Unsupported as e:
                ctx.undec(f"text after {label}: {e}")
                continue
            ctx.count("texts")
            if not eq(norm(back), norm(data(want))):
                ctx.report("P16.text", cid, loc, f"{label}: the recipe is then rendered as text that reads {show(back)[:200]} instead of {show(data(want))[:200]}")
        ctx.sample({"shape": name, "patch": label, "accepted": ok})

    ctx.spread(todo, one)
    return "Evaluation of patch on every path of the tree shapes, existing and not, for all operations and kinds of values, against JSON Patch on the document."


def _copy(v: Any) -> Any:
    return {k: _copy(x) for k, x in v.items()} if isinstance(v, dict) else [_copy(x) for x in v] if isinstance(v, list) else v
