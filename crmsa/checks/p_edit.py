"""P25: what the queries say about an edited recipe, against what they say about a recipe read from its text, by evaluation of the source."""

from __future__ import annotations

import random
from typing import Any, Callable

from .. import miniyaml
from ..miniyaml import find, norm, paths
from ..peval import PEval, PyExc, has_sym, show
from ..report import Ctx, check
from ..treelab import Lab
from .p_read import ReadHooks, _strip, ask, colls, entries, method, texts
from .p_select import spot
from .p_tree import runs, split

QUERIES = ("list_value_paths", "get_value", "list_selectors", "get_selector_paths", "contains_selector_at_path", "get_comments_table", "list_variables",
           "get_variable", "get_variable_references")


def edits(doc: Any, ver: str, vs: dict) -> list:
    """Edits of single lines: (method, arguments)."""
    out: list = []
    ps = [p for p in paths(doc) if p != "/schema_version" and not p.startswith("/schema_version/")]
    cs = colls(doc)
    leaf = [x[0] for x in entries(doc) if x[1] and x[0] in ps and x[0] != "/context"]
    for p in ps:
        if p not in cs:
            out += [("add_selector", [p, "[zz]"]), ("remove_selector", [p]), ("add_comment", [p, "hello"])]
    for i, p in enumerate(leaf):
        par = find(doc, split(p.rsplit("/", 1)[0]))
        out.append(("patch", [{"op": "replace", "path": p, "value": (7, "n w", True)[i % 3]}]))
        if par is not None and len([k for k in par.kids if k.kind != "comment"]) > 1:
            out.append(("patch", [{"op": "remove", "path": p}]))
        up = p.rsplit("/", 1)[0]
        out.append(("patch", [{"op": "add", "path": f"{up}/-" if par is not None and any(k.kind == "item" for k in par.kids) else f"{up}/zz", "value": "x"}]))
        out.append(("patch", [{"op": "copy", "from": p, "path": leaf[(i + 1) % len(leaf)]}]))
    for p in ps:
        t = find(doc, split(p))
        if t is not None and t.kind == "key" and any(k.kind == "key" for k in t.kids):
            out.append(("patch", [{"op": "add", "path": f"{p}/zz", "value": {"a": ["b", 1], "c": {"d": True}}}]))
    for v in list(vs)[:3]:
        out += [("set_variable", [v, "n w"]), ("del_variable", [v])]
    out.append(("set_variable", ["nn", "a b"]))
    return out


def answers(ev: PEval, r: Any) -> dict:
    q = lambda n, *a: ev.call(ev.getattr(r, n), list(a), {})  # noqa: E731
    ps, sels, names = q("list_value_paths"), q("list_selectors"), q("list_variables")
    few = ps[:: max(1, len(ps) // 5)]
    return {
        "list_value_paths": ps,
        "get_value": {p: ask(ev, lambda p=p: q("get_value", p)) for p in few},
        "list_selectors": sels,
        "get_selector_paths": {s: q("get_selector_paths", s) for s in sels},
        "contains_selector_at_path": {p: q("contains_selector_at_path", p) for p in few},
        "get_comments_table": q("get_comments_table"),
        "list_variables": names,
        "get_variable": {n: q("get_variable", n) for n in names},
        "get_variable_references": {n: q("get_variable_references", n) for n in names[:2]},
    }


def plain(v: Any) -> Any:
    """Answers up to the kind of the scalars: the layout decides whether 9 or "9" is read back (see P18)."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return str(_strip(norm(v)))


@check("P25")
def p25(ctx: Ctx) -> str:
    lab = Lab(ctx)
    ms = {n: method(ctx, lab, n) for n in QUERIES + ("patch", "add_selector", "remove_selector", "add_comment", "set_variable", "del_variable", "render")}
    ctx.rule("P25.same", "after every sequence of edits each query gives what it gives for the recipe read from the rendered text")

    def sequences(doc: Any, ver: str, vs: dict) -> list:
        es = edits(doc, ver, vs)
        rnd = random.Random(1)
        n = 400 if ctx.tier == "thorough" else 16
        seqs = [[e] for e in es] + ([[rnd.choice(es), rnd.choice(es), rnd.choice(es)][: 2 + i % 2] for i in range(n)] if es else [])
        # two removals can empty a section, of which the text and the tree say different things
        return [s for s in seqs if sum(m == "patch" and a[0]["op"] == "remove" for m, a in s) < 2]

    def pair(ev: PEval, text: str, seq: list) -> Any:
        r = ev.construct(lab.parser, [text], {})
        for m, a in seq:
            try:
                ev.call(ev.getattr(r, m), [dict(x) if isinstance(x, dict) else x for x in a], {})
            except PyExc:
                pass  # the path is gone since the previous edit: P04, P16 and P19 judge that
        out = ev.call(ev.getattr(r, "render"), [], {})
        if not isinstance(out, str):
            return None, None, out
        return answers(ev, r), answers(ev, ev.construct(lab.parser, [out], {})), out

    def one(it: tuple) -> None:
        name, ver, text, vs, seq = it
        what = ", ".join(f"{m}({', '.join(show(x) for x in a)})" for m, a in seq)
        ctx.count("sequences")
        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"{what} of {name}", lambda ev: pair(ev, text, seq)):
            ctx.count("paths")
            if r.kind == "exc":
                ctx.undec(f"{what} of {name}: raises {show(r.value)}")
                continue
            a, b, out = r.value
            if has_sym(a) or has_sym(b) or a is None:
                ctx.undec(f"{what} of {name}")
                continue
            for q in QUERIES:
                ctx.count("answers")
                x, y = plain(a[q]), plain(b[q])
                if x != y:
                    m = seq[-1][0]
                    d = {k: v for k, v in x.items() if y.get(k) != v} if isinstance(x, dict) and isinstance(y, dict) else x
                    e = {k: v for k, v in y.items() if x.get(k) != v} if isinstance(x, dict) and isinstance(y, dict) else y
                    ctx.report("P25.same", f"{m}, {q}: {name}", spot(ms[m]), f"after {what} on the recipe {name!r} {q} gives {show(d)[:150]}; on the rendered text it gives {show(e)[:150]}")
                    break
        ctx.sample({"recipe": name, "edits": what})

    todo = []
    for name, ver, text, vs in texts():
        doc = miniyaml.recipe(text)
        same = False
        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"reading {name}", lambda ev: pair(ev, text, [])):
            same = r.kind != "exc" and r.value[0] is not None and not has_sym(r.value[0]) and not has_sym(r.value[1]) and plain(r.value[0]) == plain(r.value[1])
        if not same:
            continue  # the text does not survive rendering unedited: P18 judges that
        ctx.count("recipes")
        todo += [(name, ver, text, vs, s) for s in sequences(doc, ver, vs)]
    ctx.spread(todo, one)
    return "Evaluation of sequences of edits on recipes of every shape, of the rendering, of reading that text, and of the queries on both."
