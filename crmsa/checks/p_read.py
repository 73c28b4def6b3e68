"""P17-P20: reading recipes, querying them, editing their selectors and comments, and rendering them, by evaluation of the source over the recipe
texts of texts.py. The oracle is miniyaml, a reader of block YAML that shares nothing with the repository."""

from __future__ import annotations

import re
from typing import Any, Callable, Optional

from .. import miniyaml
from ..miniyaml import T, data, eq, find, flat, norm, paths
from ..peval import Exc, Inst, PEval, PyExc, Undec, has_sym, show
from ..report import Ctx, check
from ..texts import TEXTS
from ..treelab import Lab, Malformed, TreeHooks
from .p_select import spot
from .p_tree import mappy, runs, split


class ReadHooks(TreeHooks):
    max_steps = 2_000_000

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name == "parser.recipe_reader.RecipeReader":
            return NotImplemented
        return super().model(ev, name, recv, args, kw)


def texts() -> list:
    return [(n, v, t.lstrip("\n"), vs) for n, (v, t, vs) in TEXTS.items()]


def ask(ev: PEval, f: Callable) -> tuple:
    try:
        return "is", f()
    except PyExc as e:
        return "raises", e.val.name.rsplit(".", 1)[-1] if isinstance(e.val, Exc) else getattr(getattr(e.val, "cls", None), "name", "?")


def method(ctx: Ctx, lab: Lab, name: str) -> Any:
    m = lab.parser.find_method(name)
    ctx.need(m is not None, f"RecipeParser.{name}")
    return m


# ---- what a document says ------------------------------------------------------------------------------------------


def sel_of(comment: str) -> str:
    m = re.search(r"\[.*\]", comment)
    return m.group(0) if m else ""


def note_of(comment: str) -> str:
    """A comment without its selector and its # marks."""
    return re.sub(r"\[.*\]", "", comment).replace("#", "").strip()


def entries(doc: T) -> list:
    """(path, leaf?, value, comment) of every addressable line, in order, with list entries that are mappings left out."""
    return [x[:4] for x in flat(doc) if x[0] != "#"]


def colls(doc: T) -> set:
    return {p for p in paths(doc) if find(doc, split(p)).kind == "coll"}


def is_multi(doc: T, p: str) -> bool:
    n = find(doc, split(p))
    return n is not None and (bool(n.multi) or any(k.multi for k in n.kids))


def text_of(v: Any) -> str:
    return "true" if v is True else "false" if v is False else "null" if v is None else str(v)


def wrong_paths(doc: T) -> list:
    out = ["/nope", "/nope/x", "/0", "/-"]
    for p in paths(doc):
        n = find(doc, split(p))
        ks = n.real()
        out += [f"{p}/nope", f"{p}/-"]
        if ks and ks[0].kind in ("item", "coll"):
            out += [f"{p}/{len(ks)}", f"{p}/{len(ks) + 2}"]
        if ks and ks[0].kind == "scalar" and isinstance(ks[0].value, str) and ks[0].value and "/" not in ks[0].value and not is_multi(doc, p):
            out.append(f"{p}/{ks[0].value}")
        if n.kind == "item" and isinstance(n.value, str) and "/" not in n.value:
            out.append(f"{p}/{n.value}")
    return [p for p in out if find(doc, split(p)) is None]


# ---- P20 reading ---------------------------------------------------------------------------------------------------


@check("P20")
def p20(ctx: Ctx) -> str:
    lab = Lab(ctx)
    init = lab.parser.find_method("__init__")
    ctx.need(init is not None, "constructor of RecipeParser")
    ctx.rule("P20.doc", "the tree read from a text holds its entries, values and comments, in order and under the right keys")
    ctx.rule("P20.raise", "a recipe in the canonical layout is read without an exception")
    ctx.rule("P20.vars", "the variable table holds what the text sets")
    ctx.rule("P20.schema", "a recipe is in the new format exactly if schema_version is 1")
    loc = spot(init)

    def one(it: tuple) -> None:
        name, ver, text, vs = it
        want = miniyaml.recipe(text)
        ctx.count("texts")

        def body(ev: PEval) -> Any:
            r = ev.construct(lab.parser, [text], {})
            v = ev.call(ev.getattr(r, "get_schema_version"), [], {})
            ns = ev.call(ev.getattr(r, "list_variables"), [], {})
            tb = {n: ev.call(ev.getattr(r, "get_variable"), [n], {}) for n in ns}
            try:
                d: Any = lab.doc(ev, r)
            except Malformed as e:
                d = str(e)
            return d, v is ev.enum_members(lab.sv)[ver], tb

        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"reading {name}", body):
            ctx.count("paths")
            if r.kind == "exc":
                ctx.report("P20.raise", name, loc, f"reading the text {name!r} raises {show(r.value)}")
                continue
            d, same_ver, tb = r.value
            if isinstance(d, str):
                ctx.report("P20.doc", name, loc, f"the text {name!r}: {d}")
            else:
                ctx.count("entries", len(flat(d)))
                a, b = flat(d), flat(want)
                if a != b:
                    ctx.report("P20.doc", name, loc, f"the text {name!r} is read as {show([x[:4] for x in a if x not in b])[:200]} instead of {show([x[:4] for x in b if x not in a])[:200]}")
            if not same_ver:
                ctx.report("P20.schema", name, loc, f"the text {name!r} is not taken for a {ver} recipe")
            if not (list(tb) == list(vs) and eq(tb, vs)):
                ctx.report("P20.vars", name, loc, f"the text {name!r} sets {show(vs)[:150]}; the variables are {show(tb)[:150]}")
        ctx.sample({"text": name, "entries": len(flat(want))})

    ctx.spread(texts(), one)
    return "Evaluation of the constructor on recipe texts with every combination of sections, lists, nested mappings, comments, multi-line texts and Jinja lines, against an independent reader."


# ---- P18 rendering -------------------------------------------------------------------------------------------------


@check("P18")
def p18(ctx: Ctx) -> str:
    lab = Lab(ctx)
    rm, om = method(ctx, lab, "render"), method(ctx, lab, "render_to_object")
    ctx.rule("P18.text", "the rendered text holds every entry, value and comment of the recipe, in order, and nothing else")
    ctx.rule("P18.vars", "an old-format recipe renders its variables first, in order, one statement each; a new-format recipe renders none")
    ctx.rule("P18.expr", "variables set to an expression are rendered as that expression, not as a text")
    ctx.rule("P18.object", "render_to_object gives the data of the recipe")
    ctx.rule("P18.pure", "rendering raises nothing, changes nothing and gives the same text again")

    def one(it: tuple) -> None:
        name, ver, text, vs = it
        doc = miniyaml.recipe(text)
        ctx.count("recipes")

        def body(ev: PEval) -> Any:
            r = lab.recipe(ev, doc, ver, dict(vs), text=text)
            t = ev.call(ev.getattr(r, "render"), [], {})
            o = ev.call(ev.getattr(r, "render_to_object"), [], {})
            t2 = ev.call(ev.getattr(r, "render"), [], {})
            return t, o, t2, lab.doc(ev, r)

        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"rendering {name}", body):
            ctx.count("paths")
            if r.kind == "exc":
                ctx.report("P18.pure", name, spot(rm), f"rendering the recipe {name!r} raises {show(r.value)}")
                continue
            t, o, t2, after = r.value
            if t2 != t or flat(after) != flat(doc):
                ctx.report("P18.pure", name, spot(rm), f"rendering the recipe {name!r} changes it")
            if not eq(norm(o), norm(data(doc))):
                ctx.report("P18.object", name, spot(om), f"the recipe {name!r} becomes the object {show(o)[:200]}, not {show(data(doc))[:200]}")
            if has_sym(t) or not isinstance(t, str):
                ctx.undec(f"text of {name}")
                continue
            ls = t.split("\n")
            got = [l for l in ls if re.match(r"\s*\{%", l)]
            want = [f'{{% set {k} = {_lit(v)} %}}' for k, v in vs.items()] if ver == "V0" else []
            for i, w in enumerate(want):
                v = list(vs.values())[i]
                if v in EXPRESSIONS and i < len(got) and re.sub(r"\s+", " ", got[i].strip()) == w.replace(v, f'"{v}"'):
                    ctx.report("P18.expr", f"{name}: {v}", spot(rm), f"the recipe {name!r} renders the expression {v} as the text {got[i]}")
                    got[i] = w
            if [re.sub(r"\s+", " ", g.strip()) for g in got] != want or any(re.match(r"\s*[^{\s#]", l) for l in ls[: len(got)]):
                ctx.report("P18.vars", name, spot(rm), f"the recipe {name!r} renders the variable lines {got} instead of {want}")
            try:
                back = miniyaml.recipe(t)
            except miniyaml.Invalid as e:
                ctx.report("P18.text", name, spot(rm), f"the recipe {name!r} renders as text that is not YAML: {str(e)[:80]}")
                continue
            except miniyaml.Unsupported as e:
                ctx.undec(f"rendered text of {name}: {e}")
                continue
            a, b = flat(back), flat(doc)
            ctx.count("entries", len(b))
            if a != b:
                ctx.report("P18.text", name, spot(rm), f"the recipe {name!r} renders as {show([x[:4] for x in a if x not in b])[:200]} instead of {show([x[:4] for x in b if x not in a])[:200]}")
            if sum(1 for l in ls if l.strip()) != sum(1 for l in text.split("\n") if l.strip() and not re.match(r"\{[%#]", l)) + len(want):
                ctx.report("P18.text", name, spot(rm), f"the recipe {name!r} renders with a different number of lines")
        ctx.sample({"recipe": name})

    ctx.spread(texts(), one)
    return "Evaluation of render and render_to_object on recipe trees of every shape; the text is read back by an independent reader."


EXPRESSIONS = ('name + "x"', "name|lower")  # values of variables in the texts that are not texts


def _lit(v: Any) -> str:
    return v if v in EXPRESSIONS else f'"{v}"' if isinstance(v, str) else str(v)


# ---- P17 queries ---------------------------------------------------------------------------------------------------


@check("P17")
def p17(ctx: Ctx) -> str:
    lab = Lab(ctx)
    ms = {n: method(ctx, lab, n) for n in ("contains_value", "get_value", "find_value", "list_value_paths", "search", "get_variable_references", "get_comments_table")}
    ctx.rule("P17.contains", "contains_value tells whether the path names an entry of the document")
    ctx.rule("P17.get", "get_value gives the data at a path; for a path that names nothing it gives the default or raises KeyError")
    ctx.rule("P17.find", "find_value lists exactly the paths with that value and type, in order, and refuses collections with ValueError")
    ctx.rule("P17.leaves", "list_value_paths lists exactly the paths of the single values, in order")
    ctx.rule("P17.search", "search lists exactly the values whose text, with the comment if asked for, matches the pattern")
    ctx.rule("P17.refs", "get_variable_references lists exactly the values with a substitution that names a set variable")
    ctx.rule("P17.comments", "get_comments_table holds exactly the comments of addressable lines, without selectors")
    ctx.rule("P17.pure", "a query changes nothing")

    def one(it: tuple) -> None:
        name, ver, text, vs, kind = it
        doc = miniyaml.recipe(text)
        es = entries(doc)
        cs = colls(doc)
        ps = [p for p in paths(doc)]
        empty = {p for p in ps if find(doc, split(p)).kind == "key" and not find(doc, split(p)).real()}
        multi = {p for p in ps if is_multi(doc, p)}
        leaves = [x for x in es if x[1] and x[0] not in multi]
        todo: list = []  # (query, args, expected, ignored paths)
        if kind == "contains":
            todo = [("contains_value", [p], ("is", True)) for p in ps] + [("contains_value", [p], ("is", False)) for p in wrong_paths(doc)]
        elif kind == "get":
            for p in ps:
                if data(find(doc, split(p))) is not None:
                    todo.append(("get_value", [p], ("data", data(find(doc, split(p))))))
                    todo.append(("get_value", [p, "zz"], ("data", data(find(doc, split(p))))))
            for p in wrong_paths(doc):
                todo += [("get_value", [p], ("raises", "KeyError")), ("get_value", [p, "zz"], ("data", "zz")), ("get_value", [p, None], ("data", None))]
        elif kind == "find":
            vals = []
            for x in leaves:
                if not any(type(v) is type(x[2]) and v == x[2] for v in vals) and x[0] not in empty:
                    vals.append(x[2])
            for v in vals + ["zz", 1, 0, True, False, 1.0, "1", "true", None]:
                want = [x[0] for x in leaves if (x[0] in empty and v is None) or (x[0] not in empty and type(v) is type(x[2]) and v == x[2])]
                todo.append(("find_value", [v], ("is", want)))
            todo += [("find_value", [["zz"]], ("raises", "ValueError")), ("find_value", [{"k": 1}], ("raises", "ValueError"))]
        elif kind == "leaves":
            todo.append(("list_value_paths", [], ("is", [x[0] for x in es if x[1]])))
        elif kind == "search":
            for pat in ("v1", "^[a-z]1$", "true|false", r"\d", "note", "win", "x", "^#", "zz"):
                for com in (False, True):
                    want = [x[0] for x in leaves if x[0] not in empty and re.search(pat, text_of(x[2]) + ("  " + x[3] if com and x[3] else ""))]
                    todo.append(("search", [pat, com], ("but", want)))
        elif kind == "refs":
            for v in list(vs) + ["zz", "nam", "foo", "no", "nu"]:
                used = lambda t: isinstance(t, str) and any(re.search(r"(?<!\w)" + v + r"(?!\w)", m) for m in re.findall((r"\$" if ver == "V1" else "") + r"\{\{(.*?)\}\}", t))  # noqa: E731, B023
                want = [x[0] for x in es if v in vs and x[0] not in multi and (x[1] and used(x[2]) or used(x[0].rsplit("/", 1)[-1]))]
                todo.append(("get_variable_references", [v], ("is", want)))
        elif kind == "comments":
            todo.append(("get_comments_table", [], ("table", {x[0]: note_of(x[3]) for x in es if note_of(x[3])})))

        def body(ev: PEval) -> Any:
            r = lab.recipe(ev, doc, ver, dict(vs), text=text)
            if kind == "search":
                ev.call(ev.getattr(r, "_rebuild_selectors"), [], {}) if "_rebuild_selectors" in lab.parser.methods else None
            out = [ask(ev, lambda q=q, a=a: ev.call(ev.getattr(r, q), list(a), {})) for q, a, _ in todo]
            return out, lab.doc(ev, r)

        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"{kind} of {name}", body):
            ctx.count("paths")
            if r.kind == "exc":
                continue
            got, after = r.value
            if flat(after) != flat(doc):
                ctx.report("P17.pure", f"{kind}: {name}", spot(ms["get_value"]), f"a query of the recipe {name!r} changes it")
            for (q, a, (how, want)), (gk, gv) in zip(todo, got):
                ctx.count("queries")
                if how == "table" and isinstance(gv, dict) and any(has_sym(k) for k in gv):
                    ctx.report("P17.comments", f"{q}: {name}", spot(ms[q]), f"{q} on the recipe {name!r} lists a path that names nothing: {show([k for k in gv if has_sym(k)])[:100]}")
                    continue
                if has_sym(gv):
                    ctx.undec(f"{q}({a}) of {name}")
                    continue
                if how == "raises":
                    ok = (gk, gv) == (how, want)
                elif gk == "raises":
                    ok = False
                elif how == "data":
                    ok = eq(_strip(norm(gv)), _strip(norm(want)))
                elif how == "but":
                    ok = isinstance(gv, list) and [p for p in gv if p not in empty and p not in multi] == want
                elif how == "table":
                    ok = isinstance(gv, dict) and {p: note_of(c) for p, c in gv.items() if p not in cs} == want and all(sel_of(c) == "" and c.startswith("#") for c in gv.values())
                elif isinstance(want, list):
                    ok = isinstance(gv, list) and ([p for p in gv if p not in multi] if q != "list_value_paths" else gv) == want
                else:
                    ok = gv is want
                if not ok:
                    ctx.report(f"P17.{kind}", f"{q}: {name}", spot(ms[q]), f"{q}({', '.join(show(x) for x in a)}) on the recipe {name!r} {'raises ' + str(gv) if gk == 'raises' else 'gives ' + show(gv)[:150]}; "
                               f"the document says {want if how == 'raises' else show(want)[:150]}")
        ctx.sample({"recipe": name, "queries": kind, "number": len(todo)})

    kinds = ("contains", "get", "find", "leaves", "search", "refs", "comments")
    ctx.spread([x + (k,) for x in texts() for k in kinds], one)
    return "Evaluation of the queries on recipe trees of every shape, for every path of the document and paths that name nothing, against the document."


def _strip(v: Any) -> Any:
    return v.rstrip("\n") if isinstance(v, str) else {k: _strip(x) for k, x in v.items()} if isinstance(v, dict) else [_strip(x) for x in v] if isinstance(v, list) else v


# ---- P19 selectors and comments ------------------------------------------------------------------------------------


@check("P19")
def p19(ctx: Ctx) -> str:
    lab = Lab(ctx)
    ms = {n: method(ctx, lab, n) for n in ("add_selector", "remove_selector", "add_comment", "list_selectors", "contains_selector", "get_selector_paths", "contains_selector_at_path", "get_selector_at_path")}
    modes = lab.p.cls("parser.enums.SelectorConflictMode")
    ctx.need(modes is not None, "SelectorConflictMode")
    ctx.rule("P19.query", "the selector queries tell exactly which lines carry which selector; lines that are only a comment count for nothing")
    ctx.rule("P19.add", "add_selector gives the line the selector, merged with the one it had as the mode says, and keeps a comment it had")
    ctx.rule("P19.remove", "remove_selector takes the selector off the line, gives it back, and keeps the comment")
    ctx.rule("P19.comment", "add_comment replaces the comment of the line and keeps its selector")
    ctx.rule("P19.rest", "nothing but the comment of that line changes; the selector queries follow")
    ctx.rule("P19.refuse", "a path that names nothing raises KeyError and an invalid selector or comment ValueError, leaving the recipe alone")

    def ref(op: str, a: list, old: str) -> Optional[tuple]:
        """(selector, note) of the line afterwards; None: not specified."""
        s, n = sel_of(old), note_of(old)
        if op == "remove_selector":
            return "", n
        if op == "add_comment":
            return s, note_of(a[0])
        sel, mode = a
        if mode == "REPLACE" or not s:
            return (sel, n) if not (s and n) else None
        if n:
            return None  # whether a comment next to the merged selectors survives
        return f"[{s[1:-1]} {mode.lower()} {sel[1:-1]}]", ""

    def one(it: tuple) -> None:
        name, ver, text, vs, op = it
        doc = miniyaml.recipe(text)
        es, cs = entries(doc), colls(doc)
        ones = {p for p in paths(doc) if len(find(doc, split(p)).kids) == 1 and find(doc, split(p)).kids[0].kind == "item"}
        if op == "query":
            _queries(ctx, lab, ms, name, ver, doc, vs, text)
            return
        todo: list = []
        lines_ = {x[0]: x[3] for x in es}
        for p, c in lines_.items():
            if p in ones or is_multi(doc, p):
                continue  # the tests fix that a comment on such a section also lands on its only entry
            if op == "add_selector":
                todo += [(p, ["[new]", m], ref(op, ["[new]", m], c)) for m in ("REPLACE", "AND", "OR")]
                todo.append((p, ["new", "REPLACE"], "ValueError"))
            elif op == "remove_selector":
                todo.append((p, [], ref(op, [], c)))
            else:
                todo += [(p, [t], ref(op, [t], c)) for t in ("fresh", "# fresh", "  fresh words ")]
                todo += [(p, [t], "ValueError") for t in ("", "  ", "[win]")]
        args0 = {"add_selector": ["[new]", "REPLACE"], "remove_selector": [], "add_comment": ["fresh"]}[op]
        todo += [(p, args0, "KeyError") for p in wrong_paths(doc)[:6]]

        for p, a, want in todo:
            if want is None:
                continue
            ctx.count("edits")

            def body(ev: PEval) -> Any:
                r = lab.recipe(ev, doc, ver, dict(vs), text=text)
                b = [ev.enum_members(modes)[x] if x in ("REPLACE", "AND", "OR") else x for x in a]
                x = ask(ev, lambda: ev.call(ev.getattr(r, op), [p] + b, {}))
                d = lab.doc(ev, r)
                q = ask(ev, lambda: ev.call(ev.getattr(r, "list_selectors"), [], {})) if x[0] == "is" else None
                return x, d, q

            label = f"{op} {p} {' '.join(map(repr, a))} on the recipe {name!r}"
            rule = {"add_selector": "P19.add", "remove_selector": "P19.remove", "add_comment": "P19.comment"}[op]
            cid = f"{op}: {name}"
            for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), label, body):
                ctx.count("paths")
                if r.kind == "exc":
                    continue
                (gk, gv), d, q = r.value
                now = {x[0]: x[3] for x in entries(d)}
                if isinstance(want, str):
                    if (gk, gv) != ("raises", want):
                        ctx.report("P19.refuse", cid, spot(ms[op]), f"{label} {'raises ' + str(gv) if gk == 'raises' else 'is accepted'} instead of raising {want}")
                    elif flat(d) != flat(doc):
                        ctx.report("P19.refuse", cid, spot(ms[op]), f"{label} raises {want} and changes the recipe")
                    continue
                if gk == "raises":
                    ctx.report(rule, cid, spot(ms[op]), f"{label} raises {gv}")
                    continue
                c = now.get(p)
                if c is None or (sel_of(c), note_of(c)) != want or c and not c.startswith("#") or op == "add_comment" and c.count("#") != 1:
                    ctx.report(rule, cid, spot(ms[op]), f"{label} turns the comment {lines_[p]!r} into {c!r}; expected the selector {want[0]!r} and the text {want[1]!r}")
                    continue
                if op == "remove_selector" and gv != (sel_of(lines_[p]) or None):
                    ctx.report(rule, cid, spot(ms[op]), f"{label} returns {show(gv)} instead of {sel_of(lines_[p]) or None!r}")
                if [x if x[0] != p else x[:3] for x in flat(d)] != [x if x[0] != p else x[:3] for x in flat(doc)]:
                    ctx.report("P19.rest", cid, spot(ms[op]), f"{label} also changes {show([x[:4] for x in flat(d) if x[0] != p and x not in flat(doc)])[:200]}")
                sels = list(dict.fromkeys(sel_of(x) for x in now.values() if sel_of(x)))
                if (op != "remove_selector" or gv is not None) and q is not None and q[0] == "is" and isinstance(q[1], list) and (op != "add_comment" or sels) and sorted(q[1]) != sorted(sels) and not cs:
                    ctx.report("P19.rest", cid, spot(ms[op]), f"after {label} the selectors are listed as {show(q[1])[:100]}, not {sels}")
        ctx.sample({"recipe": name, "edit": op, "number": len(todo)})

    ctx.spread([x + (o,) for x in texts() if x[1] == "V0" for o in ("query", "add_selector", "remove_selector", "add_comment")], one)
    return "Evaluation of the selector and comment methods on every line of recipe trees of every shape, with every kind of comment a line can have."


def _queries(ctx: Ctx, lab: Lab, ms: dict, name: str, ver: str, doc: T, vs: dict, text: str) -> None:
    es, cs = entries(doc), colls(doc)
    with_sel = [x for x in es if sel_of(x[3])]
    sels = list(dict.fromkeys(sel_of(x[3]) for x in with_sel))
    at = {x[0]: sel_of(x[3]) for x in es}
    miss = wrong_paths(doc)[:6]

    def body(ev: PEval) -> Any:
        r = lab.recipe(ev, doc, ver, dict(vs), text=text)
        ev.call(ev.getattr(r, "add_comment"), [next(iter(at)), "zz"], {})  # builds the selector table
        lst = ev.call(ev.getattr(r, "list_selectors"), [], {})
        has = {s: ev.call(ev.getattr(r, "contains_selector"), [s], {}) for s in sels + ["[zz]", "win", ""]}
        pth = {s: ev.call(ev.getattr(r, "get_selector_paths"), [s], {}) for s in sels + ["[zz]"]}
        hat = {p: ask(ev, lambda p=p: ev.call(ev.getattr(r, "contains_selector_at_path"), [p], {})) for p in list(at) + miss}
        gat = {p: [ask(ev, lambda p=p, d=d: ev.call(ev.getattr(r, "get_selector_at_path"), [p] + d, {})) for d in ([], ["[dd]"], ["dd"])] for p in list(at) + miss}
        return lst, has, pth, hat, gat

    for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"selector queries of {name}", body):
        ctx.count("paths")
        if r.kind == "exc":
            ctx.report("P19.query", f"queries: {name}", spot(ms["list_selectors"]), f"the selector queries of the recipe {name!r} raise {show(r.value)}")
            continue
        lst, has, pth, hat, gat = r.value
        rep = lambda m, msg: ctx.report("P19.query", f"{m}: {name}", spot(ms[m]), f"on the recipe {name!r} {msg}")  # noqa: E731
        ctx.count("queries", 1 + len(has) + len(pth) + len(hat) + 3 * len(gat))
        if lst != sels:
            rep("list_selectors", f"the selectors are listed as {show(lst)[:120]} instead of {sels}")
        for s, v in has.items():
            if v is not (s in sels):
                rep("contains_selector", f"contains_selector({s!r}) gives {show(v)}")
        for s, v in pth.items():
            want = [x[0] for x in with_sel if sel_of(x[3]) == s]
            if [p for p in v if p not in cs] != want:
                rep("get_selector_paths", f"get_selector_paths({s!r}) gives {show(v)[:150]} instead of {want}")
        for p, v in hat.items():
            if v != ("is", bool(at.get(p))):
                rep("contains_selector_at_path", f"contains_selector_at_path({p!r}) {v[0]} {show(v[1])}")
        for p, (a, b, c) in gat.items():
            s = at.get(p)
            want = [("raises", "KeyError")] * 3 if s is None else [("is", s)] * 3 if s else [("raises", "KeyError"), ("is", "[dd]"), ("raises", "ValueError")]
            if [a, b, c] != want:
                rep("get_selector_at_path", f"get_selector_at_path({p!r}) without, with a good and with a bad default: {show([a, b, c])[:150]} instead of {want}")


# ---- P22 substitution ----------------------------------------------------------------------------------------------


class Unknown(Exception):
    """A text with an expression whose value the oracle leaves open."""


def _expr(x: str, vs: dict) -> Any:
    """Value of the expression in a substitution, None if it is not made of known variables; a concatenation gives a one-element tuple."""
    x = x.strip()
    m = re.fullmatch(r"(\w+)((?:\s*\|\s*(?:lower|upper))*)", x)
    if m:
        if m.group(1) not in vs:
            return None
        v = str(vs[m.group(1)])
        for f in re.findall(r"lower|upper", m.group(2)):
            v = v.lower() if f == "lower" else v.upper()
        return v
    m = re.fullmatch(r"(\w+)\[(\d+)\](?:\s*\|\s*(lower|upper))?", x)
    if m:
        if m.group(1) not in vs:
            return None
        v, i = str(vs[m.group(1)]), int(m.group(2))
        v = v[i] if i < len(v) else v
        return v.lower() if m.group(3) == "lower" else v.upper() if m.group(3) else v
    m = re.fullmatch(r"(\w+|\"[^\"]*\")\s*\+\s*(\w+|\"[^\"]*\")", x)
    if m:
        vals = []
        for t in m.groups():
            if t in vs:
                vals.append(vs[t])
            elif t[0] == '"':
                vals.append(t[1:-1])
            elif t.isdigit():
                vals.append(int(t))
            else:
                raise Unknown(x)
        if all(type(v) in (int, float) for v in vals):
            return str(vals[0] + vals[1])
        return (str(vals[0]) + str(vals[1]),)
    if re.match(r"\w+\(", x):
        return None
    raise Unknown(x)


def _subst(t: Any, ver: str, vs: dict) -> Any:
    if isinstance(t, dict):
        return {k: _subst(v, ver, vs) for k, v in t.items()}
    if isinstance(t, list):
        return [_subst(v, ver, vs) for v in t]
    if not isinstance(t, str):
        return t
    rx = r"\$\{\{([^{}]*)\}\}" if ver == "V1" else r"\{\{([^{}]*)\}\}"
    if not re.search(rx, t):
        return t
    whole = re.fullmatch(rx, t)
    if whole and isinstance(_expr(whole.group(1), vs), tuple):
        return _expr(whole.group(1), vs)[0]
    if whole and isinstance(vs.get(whole.group(1).strip()), (list, bool)):
        return vs[whole.group(1).strip()]
    out, at = "", 0
    for m in re.finditer(rx, t):
        v = _expr(m.group(1), vs)
        if isinstance(v, tuple):
            v = f'"{v[0]}"'  # fixed by the tests: a concatenation that is part of a text keeps its quotes
        out += t[at:m.start()]
        out += (("$" if ver == "V0" and m.start() == 0 else "") + m.group(0)) if v is None else v
        at = m.end()
    out += t[at:]
    if "\n" in out or ": " in out or " #" in out or out[:1] in set("*&!%@`|>"):
        return out
    try:
        return miniyaml.scalar(out)
    except (miniyaml.Invalid, miniyaml.Unsupported):
        raise Unknown(t)


@check("P22")
def p22(ctx: Ctx) -> str:
    lab = Lab(ctx)
    gm, om = method(ctx, lab, "get_value"), method(ctx, lab, "render_to_object")
    sm = method(ctx, lab, "set_variable")
    ctx.rule("P22.get", "get_value with sub_vars gives the data at the path with its substitutions replaced")
    ctx.rule("P22.object", "render_to_object with replace_variables gives the data of the recipe with its substitutions replaced")
    ctx.rule("P22.later", "after set_variable the substitutions have the new value")
    ctx.rule("P22.pure", "substituting changes neither the recipe nor its variables")

    def one(it: tuple) -> None:
        name, ver, text, vs = it
        doc = miniyaml.recipe(text)
        new = dict(vs)
        first = next((k for k, v in vs.items() if isinstance(v, str) and re.fullmatch(r"\w+", v)), None)
        if first:
            new[first] = "Zz9"
        ps, later, open_ = [], [], 0
        for p in paths(doc):
            d = data(find(doc, split(p)))
            if d is None:
                continue
            try:
                ps.append((p, _subst(d, ver, vs)))
                if first and not p.startswith("/context") and _subst(d, ver, new) != _subst(d, ver, vs):
                    later.append((p, _subst(d, ver, new)))
            except Unknown:
                open_ += 1
        try:
            whole: Any = _subst(data(doc), ver, vs)
        except Unknown:
            whole = None
        ctx.count("values", len(ps))
        ctx.count("values left open", open_)

        def body(ev: PEval) -> Any:
            r = lab.recipe(ev, doc, ver, dict(vs), text=text)
            call = lambda p, *a, **k: ask(ev, lambda: ev.call(ev.getattr(r, "get_value"), [p, *a], {"sub_vars": True, **k}))  # noqa: E731
            got = [call(p) for p, _ in ps]
            wrong = [(call(p), call(p, default="zz {{ name }}")) for p in wrong_paths(doc)[:4]]
            obj = ask(ev, lambda: ev.call(ev.getattr(r, "render_to_object"), [True], {}))
            after = lab.doc(ev, r)
            tb = {n: ev.call(ev.getattr(r, "get_variable"), [n], {}) for n in vs}
            got2 = []
            if first and later:
                ev.call(ev.getattr(r, sm.name), [first, new[first]], {})
                got2 = [call(p) for p, _ in later]
            return got, wrong, obj, after, tb, got2

        def cmp(rule: str, what: str, at: Any, got: tuple, want: Any) -> None:
            k, v = got
            if has_sym(v):
                ctx.undec(f"{what} of {name}")
            elif k == "raises" or not eq(_strip(norm(v)), _strip(norm(want))):
                ctx.report(rule, f"{what}: {name}", spot(at), f"{what} on the recipe {name!r} {'raises ' + str(v) if k == 'raises' else 'gives ' + show(v)[:150]}; replacing the variables gives {show(want)[:150]}")

        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"substituting {name}", body):
            ctx.count("paths")
            if r.kind == "exc":
                ctx.report("P22.get", name, spot(gm), f"substituting variables of {name!r} raises {show(r.value)}")
                continue
            got, wrong, obj, after, tb, got2 = r.value
            for (p, want), g in zip(ps, got):
                cmp("P22.get", f"get_value({p}, sub_vars=True)", gm, g, want)
            for p, (a, b) in zip(wrong_paths(doc), wrong):
                if a != ("raises", "KeyError") or b != ("is", "zz {{ name }}"):
                    ctx.report("P22.get", f"{name}: {p}", spot(gm), f"get_value({p}, sub_vars=True) on the recipe {name!r}, where it names nothing, {a[0]} {show(a[1])}, with a default {b[0]} {show(b[1])}")
            if whole is not None:
                cmp("P22.object", "render_to_object(True)", om, obj, whole)
            for (p, want), g in zip(later, got2):
                cmp("P22.later", f"get_value({p}, sub_vars=True) after set_variable({first})", gm, g, want)
            if flat(after) != flat(doc) or not eq(tb, vs):
                ctx.report("P22.pure", name, spot(gm), f"substituting the variables of {name!r} changes the recipe")
        ctx.sample({"recipe": name, "paths": len(ps)})

    ctx.spread(texts(), one)
    return "Evaluation of get_value with sub_vars and render_to_object with replace_variables for every path of every recipe text, against an independent substitution."


# ---- P13 variables (called from p_state) ---------------------------------------------------------------------------

VAR_TEXTS = ("sections", "variables", "context", "empty context", "first key nested", "template lines", "quoted context", "substitutions in the new format", "substitutions")
HISTORIES = (
    (("set", 0, "9.9.1"),), (("set", 0, 5),), (("set", 0, True),), (("set", 0, "x y"),), (("set", 0, ["a", 1]),), (("set", -1, "9.9.1"),), (("set", "zz", "9.9.1"),), (("set", "zz", 5),),
    (("del", 0),), (("del", -1),), (("del", "zz"),), (("set", "zz", "1.10"), ("del", "zz")), (("del", 0), ("set", 0, "again")), (("set", "zz", "a"), ("set", "yy", "b"), ("set", "zz", "c")),
    (("set", "zz", "a"), ("set", "yy", "b"), ("del", "zz")), (("set", 0, "a"), ("set", 0, "b"), ("del", 0), ("del", 0)), (("del", "name_x"), ("set", "name_x", "q"), ("del", "name")),
)


def variables_eval(ctx: Ctx) -> None:
    lab = Lab(ctx)
    ms = {n: method(ctx, lab, n) for n in ("set_variable", "del_variable", "get_variable", "contains_variable", "list_variables", "render")}
    ctx.rule("P13.sequence", "after every sequence of edits the queries, the tree and the rendered text hold the variables that the sequence leaves, and nothing else has changed")

    def one(it: tuple) -> None:
        name, ver, text, vs, hist = it
        doc = miniyaml.recipe(text)
        names = list(vs)
        want, ops = dict(vs), []
        for op in hist:
            if isinstance(op[1], int) and not names:
                return
            k = names[op[1]] if isinstance(op[1], int) else op[1]
            ops.append((op[0], k, *op[2:]))
            if op[0] == "set":
                want[k] = op[2]
            else:
                want.pop(k, None)
        obj = dict(data(doc) or {})
        if ver == "V1":
            if want != vs or "context" in obj:
                obj["context"] = dict(want)
        ask_for = sorted(set(vs) | set(want) | {o[1] for o in ops} | {"nope"})
        what = ", ".join(f"{o[0]}_variable({', '.join(show(x) for x in o[1:])})" for o in ops)
        ctx.count("sequences")

        def body(ev: PEval) -> Any:
            r = lab.recipe(ev, doc, ver, dict(vs), text=text)
            for o in ops:
                ev.call(ev.getattr(r, f"{o[0]}_variable"), list(o[1:]), {})
            q = {k: (ask(ev, lambda k=k: ev.call(ev.getattr(r, "get_variable"), [k], {})), ev.call(ev.getattr(r, "get_variable"), [k, "dflt"], {}),
                     ev.call(ev.getattr(r, "contains_variable"), [k], {})) for k in ask_for}
            return q, ev.call(ev.getattr(r, "list_variables"), [], {}), ev.call(ev.getattr(r, "render"), [], {}), lab.doc(ev, r)

        for r in runs(ctx, PEval(ctx.p, ReadHooks(lab)), f"{what} of {name}", body):
            ctx.count("paths")
            bad = lambda m: ctx.report("P13.sequence", f"{name}: {what}", spot(ms["set_variable" if ops[-1][0] == "set" else "del_variable"]), f"{what} on the recipe {name!r}: {m}")  # noqa: E731
            if r.kind == "exc":
                bad(f"raises {show(r.value)}")
                continue
            q, ls, t, after = r.value
            for k in ask_for:
                (gk, gv), d, c = q[k]
                if has_sym(gv) or has_sym(d) or has_sym(c):
                    ctx.undec(f"variable {k} of {name}")
                elif k in want and not (gk == "is" and eq(gv, want[k]) and eq(d, want[k]) and c is True):
                    bad(f"the variable {k} is {show(gv)[:60]} for the queries, not {show(want[k])[:60]}")
                elif k not in want and not ((gk, gv) == ("raises", "KeyError") and d == "dflt" and c is False):
                    bad(f"the variable {k}, which is not set, is {show(gv)[:60]} for the queries")
            if not has_sym(ls) and (not isinstance(ls, list) or sorted(ls) != sorted(want)):
                bad(f"list_variables gives {show(ls)[:100]}, not {show(list(want))[:100]}")
            rest = lambda d: [x for x in flat(d) if not str(x[0]).startswith("/context")]  # noqa: E731
            if rest(after) != rest(doc):
                bad("something other than the variables has changed")
            if has_sym(t) or not isinstance(t, str):
                ctx.undec(f"text of {name}")
                continue
            got = [re.sub(r"\s+", " ", l.strip()) for l in t.split("\n") if re.match(r"\s*\{%\s*set", l)]
            exp = [f"{{% set {k} = {_lit(v)} %}}" for k, v in want.items()] if ver == "V0" else []
            if sorted(_unq(g) for g in got) != sorted(_unq(x) for x in exp):
                bad(f"the recipe renders the variables {show(got)[:150]} instead of {show(exp)[:150]}")
            try:
                back = miniyaml.recipe(t)
            except (miniyaml.Invalid, miniyaml.Unsupported) as e:
                ctx.undec(f"rendered text of {name}: {e}")
                continue
            if ver == "V1":
                c0, c1 = (data(back) or {}).get("context"), obj.get("context")
                if not (eq(norm(c0 or {}), norm(c1 or {}))):
                    bad(f"the recipe renders the context {show(c0)[:120]} instead of {show(c1)[:120]}")

    ctx.spread([x + (h,) for x in texts() if x[0] in VAR_TEXTS for h in HISTORIES], one)


def _unq(s: str) -> str:
    """A set line with an expression is compared without its quotes (see P18.expr)."""
    return s.replace('"', "") if any(e.replace('"', "") in s.replace('"', "") for e in EXPRESSIONS) else s


# ---- P23 derived answers -------------------------------------------------------------------------------------------


class DerivedHooks(ReadHooks):
    """Hashes and text comparison on top of reading."""

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        import difflib

        from ..fslab import Digest
        if recv is None and name.startswith("hashlib.") and name.split(".")[1] in ("sha256", "sha1", "md5", "sha512", "new"):
            a = list(args)
            alg = a.pop(0) if name == "hashlib.new" else name.split(".")[1]
            d = a[0] if a else kw.get("string", kw.get("data", b""))
            if isinstance(d, (bytes, bytearray)) and isinstance(alg, str):
                return Digest(alg, bytes(d))
            raise Undec("hash of unknown data")
        if recv is None and name in ("difflib.unified_diff", "difflib.context_diff", "difflib.ndiff"):
            if any(has_sym(a) for a in args) or has_sym(list(kw.values())):
                raise Undec("difference of unknown texts")
            return list(getattr(difflib, name.split(".")[1])(*args, **kw))
        return super().model(ev, name, recv, args, kw)


NAMED: dict = {  # text -> name, outputs
    "old, one package": ("V0", '{% set name = "Foo" %}\n\npackage:\n  name: {{ name|lower }}\n  version: 1.2.3\n', "foo", None),
    "old, outputs": ("V0", "package:\n  name: top\noutputs:\n  # c\n  - name: o1\n  - name: o2\n    # d\n    version: 1\n  - script: x\n", "top", 3),
    "old, recipe section": ("V0", "recipe:\n  name: other\noutputs:\n  - name: o1\npackage:\n  name: top\n", "top", 1),
    "old, no name": ("V0", "package:\n  version: 1.2.3\nbuild:\n  number: 0\n", None, None),
    "old, no package": ("V0", "about:\n  home: x\n", None, None),
    "old, number as name": ("V0", "package:\n  name: 7\n", "7", None),
    "old, empty outputs": ("V0", "package:\n  name: top\noutputs:\n", "top", 0),
    "old, undefined name": ("V0", "package:\n  name: {{ nope }}\n", "${{ nope }}", None),
    "new, one package": ("V1", 'schema_version: 1\ncontext:\n  name: Foo\npackage:\n  name: ${{ name|lower }}\nrecipe:\n  name: other\n', "foo", None),
    "new, outputs": ("V1", "schema_version: 1\nrecipe:\n  name: top\noutputs:\n  - package:\n      name: o1\n  - package:\n      name: o2\n    build:\n      number: 0\n", "top", 2),
    "new, outputs and package": ("V1", "schema_version: 1\npackage:\n  name: other\nrecipe:\n  name: top\noutputs:\n  - package:\n      name: o1\n", "top", 1),
    "new, no recipe": ("V1", "schema_version: 1\npackage:\n  name: other\noutputs:\n  - package:\n      name: o1\n", None, 1),
    "new, staging outputs": ("V1", "schema_version: 1\nrecipe:\n  name: ${{ x }}\noutputs:\n  - staging:\n      name: s1\n  # c\n  - package:\n      name: o1\n", "${{ x }}", 2),
}
JOINS = [("/", "/a"), ("/", "a"), ("/outputs/0", "/a/b"), ("/outputs/0", "a/b"), ("/outputs/0/", "/a"), ("/outputs/0/", "a"), ("", "/a"), ("", "a"), ("/x", ""), ("/x/", "/"), ("/", "")]


@check("P23")
def p23(ctx: Ctx) -> str:
    lab = Lab(ctx)
    ms = {n: method(ctx, lab, n) for n in ("get_recipe_name", "is_multi_output", "get_package_paths", "append_to_path", "calc_sha256", "__eq__", "diff", "is_modified")}
    ctx.rule("P23.name", "get_recipe_name gives the name the format defines, with variables replaced, or None")
    ctx.rule("P23.outputs", "is_multi_output and get_package_paths tell the outputs the recipe has")
    ctx.rule("P23.join", "append_to_path joins two paths with exactly one slash")
    ctx.rule("P23.hash", "calc_sha256 is the SHA-256 of the UTF-8 text the recipe renders")
    ctx.rule("P23.equal", "recipes are equal exactly if their format and their rendered text are; other objects are refused with TypeError")
    ctx.rule("P23.diff", "diff is empty for an unmodified recipe; else it turns the text that was read into the rendered text")
    ctx.rule("P23.later", "the answers follow the edits of the recipe")

    def name_of(doc: T, ver: str, vs: dict) -> Any:
        d = data(doc) or {}
        s = d.get("recipe" if ver == "V1" and "outputs" in d else "package") or {}
        v = s.get("name") if isinstance(s, dict) else None
        return None if v is None else str(_subst(v, ver, vs))

    def paths_of(doc: T) -> list:
        n = next((k for k in doc.kids if k.kind == "key" and k.key == "outputs"), None)
        return ["/"] + [f"/outputs/{i}" for i in range(len(n.real()) if n is not None else 0)]

    def named(it: tuple) -> None:
        label, (ver, text, name, _) = it
        doc0 = miniyaml.recipe(text)
        vs = {"name": "Foo"} if "Foo" in text else {}
        out_value = {"name": "nw"} if ver == "V0" else {"package": {"name": "nw"}}
        edits: list = [None, [{"op": "add", "path": "/package", "value": {"name": "zed"}}], [{"op": "add", "path": "/outputs", "value": [out_value, {"script": "x"}]}],
                       [{"op": "remove", "path": "/package"}], [{"op": "remove", "path": "/outputs"}], [{"op": "remove", "path": "/outputs/0"}], [{"op": "add", "path": "/recipe", "value": {"name": "rcp"}}],
                       [{"op": "replace", "path": "/package/name", "value": "q1"}, {"op": "add", "path": "/outputs/-", "value": out_value}]]
        for eds in edits:
            def body(ev: PEval) -> Any:
                r = ev.construct(lab.parser, [text], {})
                q = lambda n: ask(ev, lambda: ev.call(ev.getattr(r, n), [], {}))  # noqa: E731
                first = [q(n) for n in ("get_recipe_name", "is_multi_output", "get_package_paths", "calc_sha256")]
                ok = [ev.call(ev.getattr(r, "patch"), [dict(e)], {}) for e in eds or []]
                d = lab.doc(ev, r)
                second = [q(n) for n in ("get_recipe_name", "is_multi_output", "get_package_paths", "calc_sha256")]
                return first, ok, d, second, ev.call(ev.getattr(r, "render"), [], {})

            for r in runs(ctx, PEval(ctx.p, DerivedHooks(lab)), f"derived answers of {label}", body):
                ctx.count("paths")
                if r.kind == "exc":
                    ctx.report("P23.name", label, spot(ms["get_recipe_name"]), f"{label}: raises {show(r.value)}")
                    continue
                first, ok, d, second, t = r.value
                for when, got, dd in (("as read", first, doc0), (f"after {show(eds)[:90]}", second, d)) if eds else (("as read", first, doc0),):
                    later = when != "as read"
                    want = [("is", name_of(dd, ver, vs)), ("is", "outputs" in (data(dd) or {})), ("is", paths_of(dd))]
                    if not later and want[0][1] != name:
                        raise AssertionError(label)
                    for n, g, w, rule in zip(("get_recipe_name", "is_multi_output", "get_package_paths"), got, want, ("name", "outputs", "outputs")):
                        ctx.count("answers")
                        if has_sym(g[1]):
                            ctx.undec(f"{n} of {label}")
                        elif not (g[0] == w[0] and eq(g[1], w[1]) and type(g[1]) is type(w[1])):
                            ctx.report("P23.later" if later else f"P23.{rule}", f"{n}: {label}", spot(ms[n]), f"{n} of the recipe {label!r} {when} {'raises ' if g[0] == 'raises' else 'is '}{show(g[1])[:80]} instead of {show(w[1])[:80]}")
                if isinstance(t, str) and not has_sym(second[3][1]) and second[3] != ("is", "sha256:" + t.encode("utf-8").hex()):
                    ctx.report("P23.hash", label, spot(ms["calc_sha256"]), f"calc_sha256 of the recipe {label!r} is not the SHA-256 of its UTF-8 text: {_digest(second[3])}")
        ctx.sample({"recipe": label})

    def whole(it: tuple) -> None:
        name, ver, text, vs = it
        text = text + ("about2: ü\n" if name == "values" else "")
        doc = miniyaml.recipe(text)
        leaf = [x[0] for x in entries(doc) if x[1] and not is_multi(doc, x[0]) and isinstance(x[2], str) and x[2]]
        if not leaf:
            return
        a, b = leaf[0], leaf[-1]
        var = next(iter(vs), None)
        edits = [("patch", [{"op": "replace", "path": a, "value": "nw1"}]), ("patch", [{"op": "replace", "path": b, "value": "nw2"}]), ("patch", [{"op": "remove", "path": b}]),
                 ("add_comment", [b, "# nw3"])] + ([("add_selector", [a, "[nw4]"])] if ver == "V0" else []) + ([("set_variable", [var, "nw5"])] if var and ver == "V0" else [])
        for i, (m, args) in enumerate(edits):
            def body(ev: PEval) -> Any:
                r, s = ev.construct(lab.parser, [text], {}), ev.construct(lab.parser, [text], {})
                do = lambda x: ask(ev, lambda: ev.call(ev.getattr(x, m), [dict(y) if isinstance(y, dict) else y for y in args], {}))  # noqa: E731
                same = lambda: (ev.call(ev.getattr(r, "__eq__"), [s], {}), ev.call(ev.getattr(s, "__eq__"), [r], {}))  # noqa: E731
                q = lambda n: ev.call(ev.getattr(r, n), [], {})  # noqa: E731
                out = [same(), q("diff"), q("is_modified"), q("calc_sha256"), q("render")]
                res = do(r)
                t1, t2 = q("render"), ev.call(ev.getattr(s, "render"), [], {})
                out += [res, same(), q("diff"), q("is_modified"), q("calc_sha256"), t1, t2]
                do(s)
                out += [same(), ev.call(ev.getattr(s, "render"), [], {}), ask(ev, lambda: ev.call(ev.getattr(r, "__eq__"), [t1], {}))]
                return out

            what = f"{m}({', '.join(show(x)[:60] for x in args)})"
            for r in runs(ctx, PEval(ctx.p, DerivedHooks(lab)), f"{what} of {name}", body):
                ctx.count("paths")
                if r.kind == "exc":
                    ctx.report("P23.diff", name, spot(ms["diff"]), f"comparing the recipe {name!r} before and after {what} raises {show(r.value)}")
                    continue
                if has_sym(r.value):
                    ctx.undec(f"{what} of {name}")
                    continue
                e0, d0, m0, h0, t0, res, e1, d1, m1, h1, t1, t2, e2, t3, ne = r.value
                ctx.count("answers", 9)
                for when, e, w in (("read from the same text", e0, True), (f"of which one had {what}", e1, t1 == t2), (f"that both had {what}", e2, t1 == t3)):
                    if e != (w, w):
                        ctx.report("P23.equal", name, spot(ms["__eq__"]), f"two recipes {name!r} {when} are {'equal' if e[0] is True else 'not equal'}, their texts are{'' if w else ' not'}")
                if ne != ("raises", "TypeError"):
                    ctx.report("P23.equal", f"{name}: other", spot(ms["__eq__"]), f"comparing a recipe with a text {'raises ' if ne[0] == 'raises' else 'gives '}{show(ne[1])} instead of TypeError")
                for when, h, t in (("as read", h0, t0), (f"after {what}", h1, t1)):
                    if h != "sha256:" + t.encode("utf-8").hex():
                        ctx.report("P23.hash", name, spot(ms["calc_sha256"]), f"calc_sha256 of the recipe {name!r} {when} is not the SHA-256 of its UTF-8 text: {_digest(('is', h))}")
                if m0 is not False or d0 != "":
                    ctx.report("P23.diff", f"{name}: as read", spot(ms["diff"]), f"the recipe {name!r} differs as read: {show(d0)[:80]}")
                if m1 is True and _apply(d1, text) != t1.splitlines():
                    ctx.report("P23.diff", name, spot(ms["diff"]), f"diff of the recipe {name!r} after {what} does not lead from the text that was read to the rendered text: {show(d1)[:150]}")
                elif m1 is False and d1 != "":
                    ctx.report("P23.diff", name, spot(ms["diff"]), f"diff of the recipe {name!r} is not empty although it is not modified")

    def join() -> None:
        for a, b in JOINS:
            def body(ev: PEval) -> Any:
                return ev.call(ev.getattr(lab.recipe(ev, miniyaml.recipe("a: 1\n"), "V0", {}, text="a: 1\n"), "append_to_path"), [a, b], {})

            want = (a.rstrip("/") or "") + "/" + b.lstrip("/")
            for r in runs(ctx, PEval(ctx.p, DerivedHooks(lab)), "append_to_path", body):
                ctx.count("answers")
                if r.kind == "exc" or not has_sym(r.value) and r.value != want:
                    ctx.report("P23.join", f"{a!r}, {b!r}", spot(ms["append_to_path"]), f"append_to_path({a!r}, {b!r}) {'raises ' if r.kind == 'exc' else 'is '}{show(r.value)} instead of {want!r}")

    def formats() -> None:
        a, b = "package:\n  name: a\n", "schema_version: 1\n\npackage:\n  name: a\n"

        def body(ev: PEval) -> Any:
            r, s = ev.construct(lab.parser, [a], {}), ev.construct(lab.parser, [b], {})
            ev.call(ev.getattr(s, "patch"), [{"op": "remove", "path": "/schema_version"}], {})
            q = lambda x, n: ev.call(ev.getattr(x, n), [], {})  # noqa: E731
            return q(r, "render").strip(), q(s, "render").strip(), q(r, "render") == q(s, "render"), ev.call(ev.getattr(r, "__eq__"), [s], {}), ev.call(ev.getattr(s, "__eq__"), [r], {})

        for r in runs(ctx, PEval(ctx.p, DerivedHooks(lab)), "recipes of two formats", body):
            ctx.count("answers", 2)
            if r.kind == "exc" or has_sym(r.value):
                ctx.undec("recipes of two formats")
            elif True in r.value[3:]:
                ctx.report("P23.equal", "two formats", spot(ms["__eq__"]), f"a recipe of the old and one of the new format are equal (both are rendered as {show(r.value[0])})")

    ctx.guard("append_to_path", join)
    ctx.guard("recipes of two formats", formats)
    around = ("blank lines around", "V0", "\n\npackage:\n  name: a\nbuild:\n  number: 0\n\n\n", {})
    ctx.spread([("named", x) for x in NAMED.items()] + [("whole", x) for x in [*texts(), around]], lambda it: (named if it[0] == "named" else whole)(it[1]))
    return "Evaluation of the convenience queries, the hash, the comparison and the difference on recipes of both formats, before and after edits."


def _digest(h: tuple) -> str:
    k, v = h
    if k == "is" and isinstance(v, str) and ":" in v:
        alg, x = v.split(":", 1)
        try:
            return f"{alg} of {bytes.fromhex(x)[:60]!r}"
        except ValueError:
            return v[:60]
    return show(v)[:60]


def _apply(diff: Any, text: str) -> Optional[list]:
    """The lines a unified difference makes of a text, None if it does not fit."""
    if not isinstance(diff, str):
        return None
    src, out, at = text.splitlines(), [], 0
    ls = [l for l in diff.split("\n")]
    i = 0
    while i < len(ls) and not ls[i].startswith("@@"):
        i += 1
    for l in ls[i:]:
        h = re.match(r"@@ -(\d+)(?:,(\d+))? \+\d+(?:,\d+)? @@", l)
        if h:
            start = int(h.group(1)) - (0 if h.group(2) == "0" else 1)
            out += src[at:start]
            at = start
        elif l.startswith("+"):
            out.append(l[1:])
        elif l.startswith("-") or l.startswith(" "):
            if at >= len(src) or src[at] != l[1:]:
                return None
            if l[0] == " ":
                out.append(src[at])
            at += 1
        elif l:
            return None
    return out + src[at:]
