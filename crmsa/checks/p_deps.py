"""P06-P08, P15, S05: dependencies and build configuration variables, by partial evaluation over given documents.

The recipe's content is a given document; reading a value, a selector or a package path is modelled on it, and everything the dependency code does
with these answers is evaluated from its source.
"""

from __future__ import annotations

import ast
import itertools
from typing import Any, Callable, Optional

from ..model import ClassInfo, ExtRef
from ..peval import Exc, Hooks, Inst, NT, PEval, PyExc, Sym, Undec, has_sym, show, sym
from ..report import Ctx, check
from .p_select import enum_of, spot
from .s_scan import boom, mentions

_ABSENT = object()


def walk(doc: Any, path: str) -> Any:
    cur = doc
    for k in [x for x in path.split("/") if x]:
        if isinstance(cur, dict) and k in cur:
            cur = cur[k]
        elif isinstance(cur, list) and k.isdigit() and int(k) < len(cur):
            cur = cur[int(k)]
        else:
            return _ABSENT
    return cur


def copyof(v: Any) -> Any:
    if isinstance(v, dict):
        return {k: copyof(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copyof(x) for x in v]
    return v


def own_state(ev: PEval, obj: Any, name: str, version: Any) -> Any:
    """The schema version kept in a recipe; its other state is not modelled."""
    if not isinstance(obj, Inst) or name in obj.attrs or not name.startswith("_") or name.startswith("__") or obj.cls.find_method("get_schema_version") is None:
        return NotImplemented
    if obj.cls.find_method(name) is not None or obj.cls.find_attr(name) is not None:
        return NotImplemented
    get = obj.cls.find_method("get_schema_version")
    if name == "_schema_version" or any(isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr == name for n in ast.walk(get.node)):
        return version
    raise Undec(f"attribute {name} of a recipe")


class DocHooks(Hooks):
    """Queries of a recipe answered from a document."""

    max_steps = 120_000

    def __init__(self, doc: Any, sels: dict, version: str, sv: ClassInfo, patch_ok: Optional[bool] = None) -> None:
        self.doc, self.sels, self.version, self.sv, self.patch_ok = doc, sels, version, sv, patch_ok
        self.data_cls: Optional[ClassInfo] = None
        self.docs: dict = {}

    def cur(self, ev: PEval) -> Any:
        if ev.counter.get("doc") is None:
            ev.counter["doc"] = copyof(self.doc)
        return ev.counter["doc"]

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        last = name.rsplit(".", 1)[-1]
        if isinstance(recv, Inst) and name.startswith("parser.recipe_"):
            def a(i: int, n: str, d: Any = _ABSENT) -> Any:
                return args[i] if len(args) > i else kw.get(n, d)
            if last == "get_value":
                p = a(0, "path")
                if not isinstance(p, str):
                    return NotImplemented
                v = walk(self.cur(ev), p)
                if v is _ABSENT:
                    d = a(1, "default")
                    if d is _ABSENT or isinstance(d, Inst) or isinstance(d, Sym):
                        boom("builtins.KeyError", p)
                    return d
                ev.emit("read", p, a(2, "sub_vars", False))
                return copyof(v)
            if last == "contains_value":
                p = a(0, "path")
                return walk(self.cur(ev), p) is not _ABSENT if isinstance(p, str) else NotImplemented
            if last == "get_selector_at_path":
                p = a(0, "path")
                if isinstance(p, str) and p in self.sels:
                    return self.sels[p]
                d = a(1, "default")
                if d is _ABSENT or isinstance(d, (Inst, Sym)):
                    boom("builtins.KeyError", p)
                return d
            if last == "contains_selector_at_path":
                return a(0, "path") in self.sels
            if last == "get_schema_version":
                return ev.enum_members(self.sv)[self.version]
            if last == "patch":
                pl = a(0, "json_patch", a(0, "patch"))
                ev.emit("patch", dict(pl) if isinstance(pl, dict) else pl)
                ok = self.patch_ok if self.patch_ok is not None else ev.decide(sym("patched", typ="bool"))
                if ok and isinstance(pl, dict) and isinstance(pl.get("path"), str):
                    self.apply(ev, pl)
                return ok
            if last == "add_selector":
                ev.emit("selector", a(0, "path"), a(1, "selector"), a(2, "mode", None))
                return None
            if last == "remove_selector":
                ev.emit("unselect", a(0, "path"))
                return None
        if last == "dependency_data_from_str" and args:
            return self.data(args[0])
        if last == "dependency_data_render_as_str" and args:
            d = args[0]
            return d.args[0] if isinstance(d, Sym) and d.op == "data" else NotImplemented
        if name == "parser.selector_parser.SelectorParser":
            return sym("selector", args[0] if args else kw.get("content"), typ=ev.p.cls("parser.selector_parser.SelectorParser"))
        if name == "parser.selector_parser.SelectorParser.does_selector_apply" and isinstance(recv, Sym):
            ev.emit("query", args[0] if args else kw.get("query"))
            return sym("applies", recv.args[0], typ="bool")
        if name == "parser.recipe_reader.RecipeReader.__init__":
            return None
        return NotImplemented

    @staticmethod
    def data(s: Any) -> Any:
        return sym("data", s)

    def decide(self, ev: PEval, cond: Sym) -> Optional[bool]:
        # dependencies of different texts are different
        if cond.op == "cmp" and cond.args[0] == "==" and all(isinstance(x, Sym) and x.op == "data" and isinstance(x.args[0], str) for x in cond.args[1:]):
            return cond.args[1].args[0] == cond.args[2].args[0]
        return None

    def apply(self, ev: PEval, pl: dict) -> None:
        doc = self.cur(ev)
        p = pl["path"]
        base, _, k = p.rpartition("/")
        tgt = walk(doc, base)
        if isinstance(tgt, list):
            if k == "-":
                tgt.append(pl.get("value"))
            elif k.isdigit():
                if pl["op"] == "replace" and int(k) < len(tgt):
                    tgt[int(k)] = pl.get("value")
                elif pl["op"] == "add":
                    tgt.insert(int(k), pl.get("value"))
        elif isinstance(tgt, dict):
            tgt[k] = pl.get("value")

    def attr(self, ev: PEval, obj: Any, name: str) -> Any:
        v = own_state(ev, obj, name, ev.enum_members(self.sv)[self.version])
        if v is not NotImplemented:
            return v
        if isinstance(obj, Sym) and obj.op == "data" and name == "name":
            return str(obj.args[0]).split(" ")[0]
        if isinstance(obj, Sym) and obj.op == "data" and name == "original_spec_str":
            return obj.args[0]
        return NotImplemented


def sole(ctx: Ctx, what: str, rs: list) -> list:
    """The decided paths of an evaluation; the others are noted."""
    out = []
    for r in rs:
        ctx.count("paths")
        if r.kind == "undec":
            ctx.undec(f"{what}: {r.value}")
        else:
            out.append(r)
    return out


# ---- P07: section names ----------------------------------------------------------------------------------------------

SECTION_NAMES = {"V0": {"BUILD": "build", "HOST": "host", "RUN": "run", "RUN_CONSTRAINTS": "run_constrained", "RUN_EXPORTS": "run_exports", "TESTS": "requires"},
                 "V1": {"BUILD": "build", "HOST": "host", "RUN": "run", "RUN_CONSTRAINTS": "run_constraints", "RUN_EXPORTS": "run_exports"}}


@check("P07")
def p07(ctx: Ctx) -> str:
    p = ctx.p
    ds, sv = p.cls("parser.dependency.DependencySection"), p.cls("parser.enums.SchemaVersion")
    to, fro = p.fn("parser.dependency.dependency_section_to_str"), p.fn("parser.dependency.str_to_dependency_section")
    for x, w in ((ds, "DependencySection"), (sv, "SchemaVersion"), (to, "dependency_section_to_str"), (fro, "str_to_dependency_section")):
        ctx.need(x is not None, w)
    ctx.rule("P07.name", "each dependency section has the name its recipe format gives it")
    ctx.rule("P07.inverse", "the name of a section, in either format, ignoring case and surrounding blanks, is recognised as that section; different sections have different names")
    ctx.rule("P07.unknown", "any other name is no section")
    pe = PEval(p)
    secs, vers = list(enum_of(pe, ds)), list(enum_of(pe, sv))
    for v in vers:
        seen: dict = {}
        for s in secs:
            for r in sole(ctx, f"{s}/{v}", pe.explore(lambda ev: ev.call(to, [ev.enum_members(ds)[s], ev.enum_members(sv)[v]], {}))):
                ctx.count("section names")
                if r.kind == "exc" or not isinstance(r.value, str):
                    if r.kind == "exc" or r.value is None:
                        ctx.report("P07.name", f"dependency_section_to_str({s}, {v})", spot(to), f"gives {show(r.value)}, not a name")
                    continue
                w = SECTION_NAMES.get(v, {}).get(s)
                if w is not None and r.value != w:
                    ctx.report("P07.name", f"dependency_section_to_str({s}, {v})", spot(to), f"section {s} is called '{r.value}' in {v} recipes, not '{w}'")
                if r.value in seen and seen[r.value] != s:
                    ctx.report("P07.inverse", f"dependency_section_to_str({s}, {v})", spot(to), f"sections {s} and {seen[r.value]} have the same name '{r.value}'")
                seen[r.value] = s
                for t in (r.value, r.value.upper(), f" {r.value}\t", r.value.capitalize()):
                    for b in sole(ctx, t, pe.explore(lambda ev: ev.call(fro, [t], {}))):
                        ctx.count("recognised names")
                        got = getattr(b.value, "name", None) if b.kind == "ret" else show(b.value)
                        if not isinstance(b.value, Sym) and got != s:
                            ctx.report("P07.inverse", f"str_to_dependency_section({t!r})", spot(fro), f"'{t}', the {v} name of section {s}, is read as {got}")
                        ctx.sample({"section": s, "format": v, "text": t, "read as": got})
    known = {n for t in SECTION_NAMES.values() for n in t.values()}
    for t in ("", "run_constraint", "runs", "requirements", "test", "tests", "noarch", "build/host", "depends", "run-exports", "constrains", "run_ constrained"):
        for b in sole(ctx, t, pe.explore(lambda ev: ev.call(fro, [t], {}))):
            ctx.count("unknown names")
            if t not in known and (b.kind == "exc" or getattr(b.value, "name", None) in secs):
                ctx.report("P07.unknown", f"str_to_dependency_section({t!r})", spot(fro), f"'{t}' is read as {show(b.value)}")
    ctx.functions |= pe.functions
    return f"Constant evaluation of both conversions on every section ({len(secs)}) and format ({len(vers)}), every spelling of the resulting names, and names that are no section."


# ---- P08: dependency text --------------------------------------------------------------------------------------------


class TextHooks(Hooks):
    def __init__(self, exc: Optional[str]) -> None:
        self.exc = exc

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name.endswith("MatchSpec") and name.startswith("conda."):
            ev.emit("matchspec", args[0] if args else None)
            if self.exc:
                boom(self.exc)
            return sym("matchspec", args[0], typ=None)
        if name == "builtins.isinstance" and isinstance(args[0], Sym) and args[0].op == "matchspec":
            cs = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
            if all(isinstance(c, (ExtRef, ClassInfo)) for c in cs):
                return any(isinstance(c, ExtRef) and c.dotted.endswith("MatchSpec") for c in cs)
        return NotImplemented

    def decide(self, ev: PEval, cond: Sym) -> Optional[bool]:
        if cond.op == "isinst" and isinstance(cond.args[0], Sym) and cond.args[0].op == "matchspec":
            c = cond.args[1]
            return isinstance(c, ExtRef) and c.dotted.endswith("MatchSpec")
        if cond.op == "isnone" and isinstance(cond.args[0], Sym) and cond.args[0].op == "matchspec":
            return False
        return None


@check("P08")
def p08(ctx: Ctx) -> str:
    p = ctx.p
    mk, rn = p.fn("parser.dependency.dependency_data_from_str"), p.fn("parser.dependency.dependency_data_render_as_str")
    dv = p.cls("parser.dependency.DependencyVariable")
    for x, w in ((mk, "dependency_data_from_str"), (rn, "dependency_data_render_as_str"), (dv, "DependencyVariable")):
        ctx.need(x is not None, w)
    ctx.rule("P08.jinja", "a dependency with a JINJA expression is kept as a variable and never given to MatchSpec; the text is kept as it is")
    ctx.rule("P08.fault", "a dependency MatchSpec rejects, with InvalidMatchSpec or ValueError, is kept as a variable with its text; nothing is raised")
    ctx.rule("P08.spec", "any other dependency becomes the MatchSpec of its whole text")
    ctx.rule("P08.render", "rendering a dependency gives back the text it was made from")
    ctx.rule("P08.eq", "dependency variables are equal exactly when their texts are, and then have the same hash")

    def is_var(v: Any) -> bool:
        return isinstance(v, Inst) and dv in v.cls.mro()

    jin = ["{{ compiler('c') }}", "foo {{ bar }}", "{{foo}}", "foo {{ bar }} {{ baz }}", "{{ pin_subpackage('x', exact=True) }}", "python {{ python }}", "${{ compiler('c') }}", "foo ${{ bar }}",
           "${{ stdlib('c') }}", "foo >={{ v }},<{{ w }}", "{{ a }}-dev"]
    plain = ["foo", "foo >=1.0", "foo 1.2.3 py_0", "foo-bar=1.0", "conda-forge::foo", "foo {bar}", "foo }}", "foo [version='>1']"]
    n = 0
    for s, exc in [(t, None) for t in jin + plain] + [(t, e) for t in plain for e in ("conda.models.match_spec.InvalidMatchSpec", "builtins.ValueError")]:
        h = TextHooks(exc)
        pe = PEval(p, h)
        is_j = s in jin

        def body(ev: PEval) -> Any:
            d = ev.call(mk, [s], {})
            ev.emit("made", d)
            return d

        rs = sole(ctx, s, pe.explore(body))
        ctx.functions |= pe.functions
        n += 1
        if any(r.asm for r in rs):
            ctx.undec(f"'{s}' depends on {'; '.join(rs[0].why())[:150]}")
            continue
        for r in rs:
            specs = [e for e in r.events if e[0] == "matchspec"]
            if r.kind == "exc":
                ctx.report("P08.fault", f"dependency_data_from_str: {'jinja' if is_j else exc or 'text'}", spot(mk), f"'{s}' raises {show(r.value)}" + (f" when MatchSpec raises {exc}" if exc else ""))
                continue
            v = r.value
            if is_j:
                if specs:
                    ctx.report("P08.jinja", "dependency_data_from_str: jinja", spot(mk), f"'{s}' is given to MatchSpec although it contains an expression")
                elif not is_var(v):
                    ctx.report("P08.jinja", "dependency_data_from_str: jinja", spot(mk), f"'{s}' becomes {show(v)[:60]}, not a variable")
            elif exc:
                if not is_var(v):
                    ctx.report("P08.fault", f"dependency_data_from_str: {exc}", spot(mk), f"'{s}' becomes {show(v)[:60]} when MatchSpec raises {exc}")
            elif is_var(v):
                ctx.report("P08.spec", "dependency_data_from_str: text", spot(mk), f"'{s}' has no expression but becomes a variable")
            elif isinstance(v, Sym) and v.op == "matchspec" and v.args[0] != s:
                ctx.report("P08.spec", "dependency_data_from_str: text", spot(mk), f"'{s}' becomes the MatchSpec of {show(v.args[0])}")
            ctx.sample({"text": s, "MatchSpec": exc or ("not asked" if is_j else "accepts"), "becomes": show(v)[:60]})
        if is_j or exc:
            for r in sole(ctx, s, pe.explore(lambda ev: ev.call(rn, [ev.call(mk, [s], {})], {}))):
                if r.kind == "exc" or isinstance(r.value, str) and r.value != s:
                    ctx.report("P08.render", "dependency_data_render_as_str", spot(rn), f"the variable '{s}' renders as {show(r.value)}")
        else:
            for r in sole(ctx, s, pe.explore(lambda ev: ev.call(rn, [ev.call(mk, [s], {})], {}))):
                v = r.value
                if r.kind == "exc" or v is None or isinstance(v, Sym) and (v.op == "attr" and v.args[1] != "original_spec_str" or v.op in ("str", "repr")) or isinstance(v, str) and v != s:
                    ctx.report("P08.render", "dependency_data_render_as_str", spot(rn), f"the MatchSpec of '{s}' renders as {show(v)[:80]}, which is not its original text")
    ctx.count("dependency texts", n)
    # equality of variables
    base = PEval(p)
    for a, b in (("{{ x }}", "{{ x }}"), ("{{ x }}", "{{ y }}"), ("{{ x }}", "{{ X }}"), ("{{ x }}", "{{x}}")):
        def two(ev: PEval) -> Any:
            x, y = ev.construct(dv, [a], {}), ev.construct(dv, [b], {})
            eq = ev.call(ev.getattr(x, "__eq__"), [y], {}) if dv.find_method("__eq__") else x is y
            hs = [ev.call(ev.getattr(z, "__hash__"), [], {}) if dv.find_method("__hash__") else id(z) for z in (x, y)]
            return ev.truth(eq), hs
        for r in sole(ctx, "equality", base.explore(two)):
            ctx.count("comparisons")
            if r.kind != "ret" or r.asm:
                continue
            if r.value[0] is not (a == b):
                ctx.report("P08.eq", "DependencyVariable.__eq__", spot(dv), f"variables '{a}' and '{b}' are {'equal' if r.value[0] else 'different'}")
            if a == b and r.value[1][0] is not r.value[1][1] and r.value[1][0] != r.value[1][1]:
                ctx.report("P08.eq", "DependencyVariable.__hash__", spot(dv), "equal variables have different hashes")
    ctx.functions |= base.functions
    return (f"Partial evaluation of dependency_data_from_str and dependency_data_render_as_str on {len(jin)} texts with and {len(plain)} without expressions, MatchSpec being unknown, "
            "or raising each of the exceptions it documents; and of DependencyVariable's equality and hash.")


# ---- P06: reading dependencies ---------------------------------------------------------------------------------------

ROOT_REQ = {"build": ["gcc"], "host": ["python", "pip  "], "run": ["python >=3.8", None, "", "  ", "numpy"]}
DOCS: list = [
    ("a simple recipe", "V0", {"package": {"name": "a"}, "requirements": ROOT_REQ}, {"/requirements/host/1": "[win]", "/requirements/run/4": "[not win]"}),
    ("all sections", "V0", {"package": {"name": "a"}, "requirements": {"build": ["b"], "host": ["h"], "run": ["r"], "run_constrained": ["c"]}}, {}),
    ("all sections (V1)", "V1", {"package": {"name": "a"}, "requirements": {"build": ["b"], "host": ["h"], "run": ["r"], "run_constraints": ["c"]}}, {}),
    ("no requirements", "V0", {"package": {"name": "a"}}, {}),
    ("empty and unknown sections", "V0", {"package": {"name": "a"}, "requirements": {"build": None, "host": [], "junk": ["x"], "run": ["y"]}}, {}),
    ("two outputs", "V0", {"package": {"name": "top"}, "requirements": {"host": ["h1", "h2"]},
                           "outputs": [{"name": "o1", "requirements": {"host": ["x"], "run": ["y"]}}, {"name": "o2"}]},
     {"/requirements/host/1": "[osx]", "/outputs/0/requirements/run/0": "[linux]"}),
    ("two outputs (V1)", "V1", {"recipe": {"name": "top"}, "requirements": {"build": ["h1"]},
                                "outputs": [{"package": {"name": "o1"}, "requirements": {"run": ["y"]}}, {"package": {"name": "o2"}, "requirements": {"run_constraints": ["z"]}}]}, {}),
    ("outputs without top-level dependencies", "V0", {"package": {"name": "top"}, "outputs": [{"name": "o1", "requirements": {"run": ["y"]}}, {"name": "o2", "requirements": {"run": ["o1"]}}]}, {}),
]


def expect(version: str, doc: dict, sels: dict) -> Optional[dict]:
    multi = "outputs" in doc
    pk: dict = {}
    for i in [None] + list(range(len(doc.get("outputs") or []))):
        base = "" if i is None else f"/outputs/{i}"
        nm = (walk(doc, "/recipe/name" if multi and version == "V1" else "/package/name") if i is None
              else walk(doc, base + ("/package/name" if version == "V1" else "/name")))
        pk[nm] = base
    inv = {n: s for t in SECTION_NAMES.values() for s, n in t.items()}
    out: dict = {}
    for n, base in pk.items():
        out[n] = []
        reqs = walk(doc, base + "/requirements")
        for sec, ds in (reqs if isinstance(reqs, dict) else {}).items():
            if sec in inv and isinstance(ds, list):
                for i, d in enumerate(ds):
                    if d is not None and d.strip():
                        path = f"{base}/requirements/{sec}/{i}"
                        out[n].append((n, path, inv[sec], d.strip(), sels.get(path)))
    root = next((n for n, b in pk.items() if b == ""), None)
    if len(out) > 1 and root in out:
        for n in out:
            if n != root:
                out[n] = out[n] + [(n,) + d[1:] for d in out[root]]
    return out


@check("P06")
def p06(ctx: Ctx) -> str:
    p = ctx.p
    rd, sv = p.cls("parser.recipe_reader_deps.RecipeReaderDeps"), p.cls("parser.enums.SchemaVersion")
    for x, w in ((rd, "RecipeReaderDeps"), (sv, "SchemaVersion")):
        ctx.need(x is not None, w)
    for m in ("get_all_dependencies", "get_package_names_to_path", "get_dependency_paths"):
        ctx.need(rd.find_method(m) is not None, m)
    ctx.rule("P06.all", "every dependency of a recognised section appears once, with its package, path, section, stripped text and selector; empty entries and unknown sections are skipped")
    ctx.rule("P06.root", "the top-level dependencies of a recipe with outputs also belong to every output")
    ctx.rule("P06.names", "every package is listed under its name with its path; a missing name raises KeyError and a repeated one ValueError")
    ctx.rule("P06.paths", "get_dependency_paths lists the path of every entry of the build, host, run and run-constraint sections, at top level and of every output")

    def run(label: str, ver: str, doc: dict, sels: dict, meth: str) -> list:
        pe = PEval(p, DocHooks(doc, sels, ver, sv))
        rs = sole(ctx, f"{meth} of {label}", pe.explore(lambda ev: ev.call(ev.getattr(Inst(rd, ev), meth), [], {})))
        ctx.functions |= pe.functions
        ctx.count("documents")
        if any(r.asm for r in rs):
            ctx.undec(f"{meth} of {label} depends on {'; '.join(rs[0].why())[:150]}")
            return []
        return rs

    def deps(label: str, ver: str, doc: dict, sels: dict) -> None:
        want = expect(ver, doc, sels)
        fi = rd.find_method("get_all_dependencies")
        for r in run(label, ver, doc, sels, "get_all_dependencies"):
            if r.kind == "exc":
                ctx.report("P06.all", f"get_all_dependencies: {label}", spot(fi), f"reading the dependencies of {label} raises {show(r.value)}")
                continue
            if not isinstance(r.value, dict):
                ctx.undec(f"{label}: {show(r.value)[:80]}")
                continue
            got: dict = {}
            for k, v in r.value.items():
                got[k] = []
                for d in v:
                    if not isinstance(d, NT):
                        ctx.undec(f"{label}: {show(d)[:60]}")
                        return
                    f = dict(zip(d.names, d))
                    da, se = f.get("data"), f.get("selector")
                    got[k].append((f.get("required_by"), f.get("path"), getattr(f.get("type"), "name", f.get("type")), da.args[0] if isinstance(da, Sym) and da.op == "data" else show(da),
                                   se.args[0] if isinstance(se, Sym) and se.op == "selector" else se))
            if set(got) != set(want):
                ctx.report("P06.names", "get_all_dependencies: packages", spot(fi), f"{label}: packages {sorted(map(show, got))} instead of {sorted(want)}")
            for k in want:
                a, b = got.get(k, []), want[k]
                if a != b and sorted(map(repr, a)) != sorted(map(repr, b)):
                    miss = [x for x in b if x not in a]
                    extra = [x for x in a if x not in b] or [x for x in a if a.count(x) > b.count(x)]
                    rule = "P06.root" if any(not x[1].startswith("/outputs") for x in miss + extra if isinstance(x[1], str)) and k.startswith("o") else "P06.all"
                    ctx.report(rule, "get_all_dependencies: dependencies", spot(fi), f"{label}, package {k}: misses {miss[:2]} and adds {extra[:2]}")
            ctx.sample({"document": label, "dependencies": {k: len(v) for k, v in want.items()}})

    def names(label: str, ver: str, doc: dict, want: Any) -> None:
        fi = rd.find_method("get_package_names_to_path")
        for r in run(label, ver, doc, {}, "get_package_names_to_path"):
            if isinstance(want, str):
                if r.kind != "exc" or getattr(r.value, "name", "") != want:
                    ctx.report("P06.names", f"get_package_names_to_path: {label}", spot(fi), f"{label}: gives {show(r.value)[:80]} instead of raising {want}")
            elif r.kind == "exc" or r.value != want:
                ctx.report("P06.names", f"get_package_names_to_path: {label}", spot(fi), f"{label}: {show(r.value)[:120]} instead of {want}")

    def paths(label: str, ver: str, doc: dict) -> None:
        fi = rd.find_method("get_dependency_paths")
        secs = [SECTION_NAMES[ver][s] for s in ("BUILD", "HOST", "RUN", "RUN_CONSTRAINTS")]
        want = []
        for base in [""] + [f"/outputs/{i}" for i in range(len(doc.get("outputs") or []))]:
            for s in secs:
                ds = walk(doc, f"{base}/requirements/{s}")
                if isinstance(ds, list):
                    want += [f"{base}/requirements/{s}/{i}" for i in range(len(ds))]
        for r in run(label, ver, doc, {}, "get_dependency_paths"):
            if r.kind == "exc":
                ctx.report("P06.paths", f"get_dependency_paths: {label}", spot(fi), f"{label} raises {show(r.value)}")
            elif isinstance(r.value, list) and not has_sym(r.value) and sorted(r.value) != sorted(want):
                ctx.report("P06.paths", f"get_dependency_paths: {label}", spot(fi),
                           f"{label}: misses {[x for x in want if x not in r.value][:3]} and adds {[x for x in r.value if x not in want][:3]}")

    for label, ver, doc, sels in DOCS:
        ctx.guard(label, lambda: deps(label, ver, doc, sels))
        ctx.guard(label, lambda: paths(label, ver, doc))
    for label, ver, doc, want in [
        ("one package", "V0", {"package": {"name": "a"}}, {"a": "/"}), ("one package (V1)", "V1", {"package": {"name": "a"}}, {"a": "/"}),
        ("two outputs", "V0", DOCS[5][2], {"top": "/", "o1": "/outputs/0", "o2": "/outputs/1"}), ("two outputs (V1)", "V1", DOCS[6][2], {"top": "/", "o1": "/outputs/0", "o2": "/outputs/1"}),
        ("a nameless recipe", "V0", {"about": {}}, "builtins.KeyError"), ("a nameless output", "V0", {"package": {"name": "a"}, "outputs": [{"name": "o"}, {"x": 1}]}, "builtins.KeyError"),
        ("a nameless output (V1)", "V1", {"recipe": {"name": "a"}, "outputs": [{"name": "o"}]}, "builtins.KeyError"),
        ("outputs of the same name", "V0", {"package": {"name": "a"}, "outputs": [{"name": "o"}, {"name": "o"}]}, "builtins.ValueError"),
        ("an output named like the recipe", "V0", {"package": {"name": "a"}, "outputs": [{"name": "a"}]}, "builtins.ValueError"),
        ("an empty outputs section", "V0", {"package": {"name": "a"}, "outputs": []}, {"a": "/"}),
    ]:
        ctx.guard(label, lambda: names(label, ver, doc, want))
    for label, ver, doc in (("empty sections", "V0", {"requirements": {"build": None, "host": [], "run": ["a", "b"]}}), ("no outputs", "V0", {"requirements": {"run": ["a"]}, "outputs": []})):
        ctx.guard(label, lambda: paths(label, ver, doc))
    return ("Partial evaluation of get_all_dependencies, get_package_names_to_path and get_dependency_paths on documents of both formats (single and multiple outputs, all sections, empty "
            "and unknown ones, blank entries, selectors), with reading a value or selector answered from the document.")


# ---- P15: adding a dependency ----------------------------------------------------------------------------------------


@check("P15")
def p15(ctx: Ctx) -> str:
    p = ctx.p
    rp, sv = p.cls("parser.recipe_parser_deps.RecipeParserDeps"), p.cls("parser.enums.SchemaVersion")
    dc, ds, dm, sm = (p.cls(f"parser.{x}") for x in ("dependency.Dependency", "dependency.DependencySection", "dependency.DependencyConflictMode", "enums.SelectorConflictMode"))
    for x, w in ((rp, "RecipeParserDeps"), (sv, "SchemaVersion"), (dc, "Dependency"), (ds, "DependencySection"), (dm, "DependencyConflictMode"), (sm, "SelectorConflictMode")):
        ctx.need(x is not None, w)
    fi = rp.find_method("add_dependency")
    ctx.need(fi is not None, "add_dependency")
    ctx.need(rp.find_method("remove_dependency") is not None, "remove_dependency")
    ctx.rule("P15.mode", "REPLACE replaces the first dependency of the same name or appends; IGNORE leaves a recipe that has one alone or appends; USE_BOTH appends; EXACT_POSITION replaces what is "
             "at the given position")
    ctx.rule("P15.section", "a missing section is created with the dependency as its only entry if its parent exists; nothing else is created")
    ctx.rule("P15.path", "a path that names no dependency position changes nothing and gives False")
    ctx.rule("P15.result", "the result is that of the patch")
    ctx.rule("P15.selector", "the selector is put on the dependency just added, with the given mode, only if the patch succeeded; a replaced dependency's selector is kept unless the mode is REPLACE")
    ctx.rule("P15.remove", "remove_dependency removes exactly the path of the dependency and returns the result")
    doc1 = {"package": {"name": "a"}, "requirements": {"host": ["python", "pip"], "run": ["python >=3", None, "numpy  ", "flask 1", "numpy 2"]}}
    doc2 = {"package": {"name": "t"}, "outputs": [{"name": "o", "requirements": {"run": ["x", "y"]}}, {"name": "e"}]}
    modes = list(enum_of(PEval(p), dm))
    smodes = list(enum_of(PEval(p), sm))

    def run(label: str, doc: dict, sels: dict, path: str, text: str, sel: Optional[str], mode: Optional[str], smode: Optional[str], want: Any) -> None:
        """want: None (nothing happens, False) or (op, path, value, selector paths)"""
        h = DocHooks(doc, sels, "V0", sv)
        h.max_iter = 2
        pe = PEval(p, h)

        def body(ev: PEval) -> Any:
            r = Inst(rp, ev)
            s = None if sel is None else sym("selector", sel, typ=p.cls("parser.selector_parser.SelectorParser"))
            d = ev.construct(dc, ["a", path, ev.enum_members(ds)["RUN"], sym("data", text), s], {})
            kw = {}
            if mode:
                kw["dep_mode"] = ev.enum_members(dm)[mode]
            if smode:
                kw["sel_mode"] = ev.enum_members(sm)[smode]
            x = ev.call(ev.getattr(r, "add_dependency"), [d], kw)
            return x if isinstance(x, bool) else ev.truth(x)

        ctx.count("additions")
        loc = spot(fi)
        for r in sole(ctx, label, pe.explore(body)):
            ctx.functions |= pe.functions
            if any(k.op != "patched" for k, _ in r.asm):
                ctx.undec(f"{label}: depends on {'; '.join(r.why())[:150]}")
                continue
            ok = next((b for k, b in r.asm if k.op == "patched"), None)
            if r.kind == "exc":
                ctx.report("P15.path", f"add_dependency: {label}", loc, f"{label}: raises {show(r.value)}")
                continue
            ps = [e[1] for e in r.events if e[0] == "patch"]
            ss = [e[1:] for e in r.events if e[0] == "selector"]
            if want is None:
                if ps or ss:
                    ctx.report("P15.mode" if mode == "IGNORE" else "P15.path", f"add_dependency: {label}", loc, f"{label}: changes the recipe with {show(ps or ss)[:120]}, although it should be left alone")
                elif r.value is not False:
                    ctx.report("P15.result", f"add_dependency: {label}", loc, f"{label}: gives {show(r.value)} although nothing changed")
                continue
            op, wp, wv, wsel = want
            if len(ps) != 1 or not isinstance(ps[0], dict):
                ctx.report("P15.mode", f"add_dependency: {label}", loc, f"{label}: applies {len(ps)} patches instead of one")
                continue
            if (ps[0].get("op"), ps[0].get("path"), ps[0].get("value")) != (op, wp, wv):
                ctx.report("P15.section" if isinstance(wv, list) else "P15.mode", f"add_dependency: {label}", loc, f"{label}: applies {show(ps[0])[:150]} instead of {op} {wv!r} at {wp}")
                continue
            if r.value is not ok:
                ctx.report("P15.result", f"add_dependency: {label}", loc, f"{label}: gives {r.value} when the patch {'succeeds' if ok else 'is refused'}")
            own = [x for x in ss if isinstance(x[1], Sym) and x[1].op == "selector"]
            old = [x for x in ss if isinstance(x[1], str)]
            if ok and sel is not None:
                if not own:
                    ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector [{sel}] is not added")
                for x in own:
                    if x[0] not in wsel:
                        ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector goes to {x[0]} instead of {wsel[0]}")
                    if getattr(x[2], "name", None) != (smode or "REPLACE") and not (x[2] is None and (smode or "REPLACE") == "REPLACE"):
                        ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector is added in mode {show(x[2])} instead of {smode or 'REPLACE'}")
            if own and (sel is None or not ok):
                ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: a selector is added although {'there is none' if sel is None else 'the patch was refused'}")
            prev = sels.get(wp)
            if ok and op == "replace" and prev is not None:
                if smode in ("AND", "OR") and (wp, prev) not in [x[:2] for x in old]:
                    ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector {prev} of the replaced dependency is lost in mode {smode}")
                if smode in ("REPLACE", None) and old:
                    ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector {prev} of the replaced dependency is kept in mode REPLACE")
                if smode in ("AND", "OR") and own and old and r.events.index(("selector",) + tuple(own[0])) < r.events.index(("selector",) + tuple(old[0])):
                    ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the old selector overwrites the new one")
            for x in old:
                if prev is None or x[0] != wp:
                    ctx.report("P15.selector", f"add_dependency: {label}", loc, f"{label}: the selector {x[1]} is put on {x[0]}")
            ctx.sample({"case": label, "patch": f"{op} {wp}"})

    R, H = "/requirements/run", "/requirements/host"
    sels = {f"{R}/2": "[osx]", f"{R}/3": "[linux]"}
    cases: list = []
    for m in modes + [None]:
        for sel, smode in [(None, None)] + [("win", s) for s in smodes + [None]] + [(None, s) for s in smodes]:
            t = f"{m or 'default'}, selector {sel}, {smode or 'default'}: "
            mm = m or "REPLACE"
            app = lambda b, n, v: ("add", f"{b}/-", v, (f"{b}/{n}",))  # noqa: E731
            dup = {"REPLACE": ("replace", f"{R}/2", "numpy 3", (f"{R}/2",)), "IGNORE": None, "USE_BOTH": app(R, 5, "numpy 3"), "EXACT_POSITION": ("replace", f"{R}/0", "numpy 3", (f"{R}/0",))}
            new = {"REPLACE": app(R, 5, "new"), "IGNORE": app(R, 5, "new"), "USE_BOTH": app(R, 5, "new"), "EXACT_POSITION": ("replace", f"{R}/3", "new", (f"{R}/3",))}
            sec = {k: ("add", "/requirements/build", ["gcc"], ("/requirements/build", "/requirements/build/0")) for k in ("REPLACE", "IGNORE", "USE_BOTH")}
            if mm in dup:
                cases.append((t + "a dependency that exists", doc1, sels, f"{R}/0", "numpy 3", sel, m, smode, dup[mm]))
                cases.append((t + "a new dependency", doc1, sels, f"{R}/3", "new", sel, m, smode, new[mm]))
            if mm in sec:
                cases.append((t + "a new section", doc1, {}, "/requirements/build/0", "gcc", sel, m, smode, sec[mm]))
            if sel is None and smode is None and mm in dup:
                cases.append((t + "the same name in another section", doc1, {}, f"{H}/0", "numpy", sel, m, smode,
                              ("replace", f"{H}/0", "numpy", ()) if mm == "EXACT_POSITION" else ("add", f"{H}/-", "numpy", ())))
                cases.append((t + "an output's dependency", doc2, {}, "/outputs/0/requirements/run/1", "z", sel, m, smode,
                              ("replace", "/outputs/0/requirements/run/1", "z", ()) if mm == "EXACT_POSITION" else ("add", "/outputs/0/requirements/run/-", "z", ())))
                if mm != "EXACT_POSITION":
                    cases.append((t + "an output without requirements", doc2, {}, "/outputs/1/requirements/run/0", "z", sel, m, smode, None))
                    cases.append((t + "a recipe without requirements", doc2, {}, "/requirements/run/0", "z", sel, m, smode, None))
    for bad in ("", "/", "/requirements/run", "/requirements/run/x", "requirements/run/0", "/requirements/junk/0", "/outputs/x/requirements/run/0", "/outputs/0/run/0", "/about/run/0",
                "/outputs/0/requirements/run", "/outputs/0/requirements/junk/0", "/requirements/run/0/0", "/outputs/0/requirements/run/x", "/build/requirements/run/0"):
        for m in ("REPLACE", "EXACT_POSITION", "USE_BOTH"):
            if m in modes:
                cases.append((f"{m}: the path '{bad}'", doc1 if "outputs" not in bad else doc2, {}, bad, "z", "win", m, None, None))
    for c in cases:
        ctx.guard(c[0], lambda: run(*c))

    rm = rp.find_method("remove_dependency")
    pe = PEval(p, DocHooks(doc1, {}, "V0", sv))

    def rem(ev: PEval) -> Any:
        d = ev.construct(dc, ["a", f"{R}/3", ev.enum_members(ds)["RUN"], sym("data", "flask 1"), None], {})
        x = ev.call(ev.getattr(Inst(rp, ev), "remove_dependency"), [d], {})
        return x if isinstance(x, bool) else ev.truth(x)

    for r in sole(ctx, "remove", pe.explore(rem)):
        ctx.count("removals")
        ps = [e[1] for e in r.events if e[0] == "patch"]
        ok = next((b for k, b in r.asm if k.op == "patched"), None)
        if r.kind == "exc" or len(ps) != 1 or not isinstance(ps[0], dict) or (ps[0].get("op"), ps[0].get("path")) != ("remove", f"{R}/3"):
            ctx.report("P15.remove", "remove_dependency", spot(rm), f"removing {R}/3 applies {show(ps)[:120]}")
        elif r.value is not ok:
            ctx.report("P15.remove", "remove_dependency: result", spot(rm), f"gives {r.value} when the patch {'succeeds' if ok else 'is refused'}")
    return (f"Partial evaluation of add_dependency on {len(cases)} cases (every conflict mode and selector mode, existing, new and repeated names, existing and missing sections and outputs, and "
            "malformed paths), the patch succeeding or refused; and of remove_dependency.")


# ---- S05: build configuration ----------------------------------------------------------------------------------------


class CbcHooks(DocHooks):
    def attr(self, ev: PEval, obj: Any, name: str) -> Any:
        return own_state(ev, obj, name, ev.enum_members(self.sv)["V0"])


@check("S05")
def s05(ctx: Ctx) -> str:
    p = ctx.p
    cb, sv, sc = p.cls("parser.cbc_parser.CbcParser"), p.cls("parser.enums.SchemaVersion"), p.cls("parser.selector_parser.SelectorParser")
    for x, w in ((cb, "CbcParser"), (sv, "SchemaVersion"), (sc, "SelectorParser")):
        ctx.need(x is not None, w)
    for m in ("get_cbc_variable_value", "list_cbc_variables", "__contains__"):
        ctx.need(cb.find_method(m) is not None, f"CbcParser.{m}")
    ctx.rule("S05.first", "a variable's value is the first entry without selector or whose selector applies to the query")
    ctx.rule("S05.none", "if no entry applies the default is given, or ValueError raised; if the variable is not defined the default, or KeyError")
    ctx.rule("S05.list", "the variables are the keys with a list of values, except zip_keys")
    gv = cb.find_method("get_cbc_variable_value")
    loc = spot(gv)
    dflt = sym("param", "default_value", typ="str")
    qry = sym("param", "query", typ=p.cls("parser.selector_query.SelectorQuery"))

    def vals(name: str, n: int) -> list:
        return [sym("value", name, i) for i in range(n)]

    for n in range(1, 4 if ctx.tier != "thorough" else 5):
        for pat in itertools.product((False, True), repeat=n):
            doc = {"zip_keys": [["x", "y"]], "other": vals("other", 1), "v": vals("v", n), "pin_run_as_build": {"python": {"min_pin": "x"}}, "last": vals("last", 2), "text": "abc"}
            sels = {f"/v/{i}": f"sel{i}" for i in range(n) if pat[i]}
            sels["/other/0"] = "selother"
            for has_d in (True, False):
                pe = PEval(p, CbcHooks(doc, sels, "V0", sv))

                def body(ev: PEval) -> Any:
                    c = ev.construct(cb, [sym("param", "content", typ="str")], {})
                    return ev.call(ev.getattr(c, "get_cbc_variable_value"), ["v", qry] + ([dflt] if has_d else []), {})

                label = f"entries with selectors {[i for i in range(n) if pat[i]]} of {n}"
                ctx.count("value lists")
                for r in sole(ctx, label, pe.explore(body)):
                    ctx.functions |= pe.functions
                    app = {k.args[0]: b for k, b in r.asm if k.op == "applies"}
                    odd = [k for k, _ in r.asm if k.op != "applies" and not any(mentions(k, v) for v in doc["v"])]
                    if odd:
                        ctx.undec(f"{label}: depends on {'; '.join(r.why())[:150]}")
                        continue
                    why = f"{label}, {', '.join(f'{k} ' + ('applies' if b else 'does not apply') for k, b in sorted(app.items())) or 'no selector asked'}"
                    # the first entry that must be taken, as far as the path knows
                    want: Any = None
                    for i in range(n):
                        if not pat[i]:
                            want = i
                            break
                        b = app.get(f"sel{i}")
                        if b is None:
                            want = "?"
                            break
                        if b:
                            want = i
                            break
                    got = doc["v"].index(r.value) if r.kind == "ret" and any(r.value is x for x in doc["v"]) else None
                    for e in r.events:
                        if e[0] == "query" and e[1] is not qry:
                            ctx.report("S05.first", "get_cbc_variable_value: query", loc, "a selector is asked about another query")
                    if want == "?":
                        if got is not None or r.kind == "exc" or r.value is dflt:
                            ctx.report("S05.first", "get_cbc_variable_value: order", loc,
                                       f"{why}: {'entry ' + str(got) if got is not None else 'no entry'} is chosen although an earlier selector was not asked")
                    elif want is None:
                        if has_d and r.value is not dflt:
                            ctx.report("S05.none", "get_cbc_variable_value: default", loc, f"{why}: gives {show(r.value)[:60]} instead of the default")
                        elif not has_d and (r.kind != "exc" or getattr(r.value, "name", "") != "builtins.ValueError"):
                            ctx.report("S05.none", "get_cbc_variable_value: error", loc, f"{why}: gives {show(r.value)[:60]} instead of raising ValueError")
                    elif got != want:
                        ctx.report("S05.first", "get_cbc_variable_value: choice", loc, f"{why}: gives {'entry ' + str(got) if got is not None else show(r.value)[:60]} instead of entry {want}")
                    ctx.sample({"case": why, "value": f"entry {want}" if want is not None else "none"})
    doc = {"zip_keys": [["x", "y"]], "a": vals("a", 1), "pin_run_as_build": {"python": {"min_pin": "x"}}, "b": vals("b", 2), "e": [], "t": "abc"}
    for key, has_d in itertools.product(("missing", "zip_keys", "pin_run_as_build", "t"), (True, False)):
        pe = PEval(p, CbcHooks(doc, {}, "V0", sv))
        rs = sole(ctx, key, pe.explore(lambda ev: ev.call(ev.getattr(ev.construct(cb, ["x"], {}), "get_cbc_variable_value"), [key, qry] + ([dflt] if has_d else []), {})))
        for r in rs:
            ctx.count("unknown variables")
            if r.asm:
                continue
            if has_d and r.value is not dflt:
                ctx.report("S05.none", "get_cbc_variable_value: unknown variable", loc, f"'{key}' with a default gives {show(r.value)[:60]}")
            if not has_d and (r.kind != "exc" or getattr(r.value, "name", "") != "builtins.KeyError"):
                ctx.report("S05.none", "get_cbc_variable_value: unknown variable", loc, f"'{key}' gives {show(r.value)[:60]} instead of raising KeyError")
    pe = PEval(p, CbcHooks(doc, {}, "V0", sv))

    def listing(ev: PEval) -> Any:
        c = ev.construct(cb, ["x"], {})
        return ev.call(ev.getattr(c, "list_cbc_variables"), [], {}), {k: ev.truth(ev.call(ev.getattr(c, "__contains__"), [k], {})) for k in list(doc) + ["missing"] if k != "e"}

    for r in sole(ctx, "listing", pe.explore(listing)):
        ctx.count("listings")
        if r.kind == "exc":
            ctx.report("S05.list", "list_cbc_variables", spot(cb), f"raises {show(r.value)}")
        elif not r.asm and not has_sym(r.value[0]):
            if set(r.value[0]) - {"e"} != {"a", "b"}:
                ctx.report("S05.list", "list_cbc_variables", spot(cb.find_method("list_cbc_variables")), f"of the keys {list(doc)} it lists {r.value[0]}")
            wrong = [k for k, b in r.value[1].items() if b != (k in ("a", "b"))]
            if wrong:
                ctx.report("S05.list", "CbcParser.__contains__", spot(cb.find_method("__contains__")), f"wrong for {wrong}")
    ctx.functions |= pe.functions
    return ("Partial evaluation of CbcParser on variables of up to three entries with every combination of selectors, each selector applying or not, with and without default; on undefined "
            "variables; and of the listing.")
