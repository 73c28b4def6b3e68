"""S01, S02, S03: licences, dependency scanners and dependency graphs, by partial evaluation over a modelled outside world.

Library calls (reading, parsing, listing) are given symbolic or fixed results; every path the source can take over them is enumerated.
"""

from __future__ import annotations

import ast
import json
import os
from typing import Any, Callable, Optional

from ..model import ClassInfo, ExtRef
from ..peval import Exc, Hooks, Inst, NT, PEval, PyExc, Sym, has_sym, show, sym
from ..report import Ctx, check
from .p_select import spot


def boom(name: str, *args: Any) -> None:
    raise PyExc(Exc(name, args))


def mentions(v: Any, t: Sym, d: int = 0) -> bool:
    if v is t:
        return True
    if d > 12:
        return True
    if isinstance(v, Sym):
        return any(mentions(x, t, d + 1) for x in v.args)
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(mentions(x, t, d + 1) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, t, d + 1) for kv in v.items() for x in kv)
    for a in ("obj", "self_", "f"):
        if hasattr(v, a) and not isinstance(v, ClassInfo) and getattr(v, a) is not v:
            if mentions(getattr(v, a), t, d + 1):
                return True
    return False


# ---- S01: licences ---------------------------------------------------------------------------------------------------

DB = [("MIT", "MIT License"), ("BSD-2-Clause", 'BSD 2-Clause "Simplified" License'), ("HPND-OR-SELL", "Historical Permission Notice"), ("GPL-2.0-only", "GNU General Public License v2.0 only")]


class SpdxHooks(Hooks):
    def __init__(self, ctx: Ctx, db: Any, first: Optional[str], field: Any) -> None:
        self.ctx, self.db, self.first, self.field = ctx, db, first, field
        self.bad_call: list = []

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name in ("json.loads", "json.load"):
            return json.loads(json.dumps(self.db))
        if name == "difflib.get_close_matches":
            keys = args[1] if len(args) > 1 else kw.get("possibilities")
            word = args[0] if args else kw.get("word")
            ks = ev.items_of(keys)
            ev.emit("match", word, list(ks))
            if self.first is not None:
                return [self.first] if self.first in ks else []
            if has_sym(ks):
                return NotImplemented
            for k in ks:
                if ev.decide(sym("closest", k, typ="bool")):
                    return [k]
            return []
        return NotImplemented


@check("S01")
def s01(ctx: Ctx) -> str:
    p = ctx.p
    c = p.cls("licenses.spdx_utils.SpdxUtils")
    ctx.need(c is not None, "SpdxUtils")
    f = c.find_method("find_closest_license_match")
    ctx.need(f is not None, "SpdxUtils.find_closest_license_match")
    ctx.rule("S01.id", "every result is None, an identifier of the SPDX data, or NOASSERTION")
    ctx.rule("S01.exact", "an exact identifier is returned as it is")
    ctx.rule("S01.compound", "an expression of several licences (AND, OR, WITH, comma; any case) that is not itself an identifier is never simplified")
    ctx.rule("S01.match", "the closest match, by identifier or by name, gives the identifier of that very licence; no match gives None")
    ctx.rule("S01.patch", "a correction applies ignoring case and surrounding blanks and names an identifier or NOASSERTION")
    jf = os.path.join(p.repo, "conda_recipe_manager", "licenses", "spdx_licenses.json")
    real = None
    if os.path.exists(jf):
        with open(jf, encoding="utf-8") as fh:
            real = {x["licenseId"] for x in json.load(fh)["licenses"]}
    ctx.need(bool(real), "spdx_licenses.json")
    db = {"licenses": [{"licenseId": i, "name": n} for i, n in DB]}
    ids = {i for i, _ in DB}
    owner: dict = {}
    for i, n in DB:
        owner.setdefault(i, set()).add(i)
        owner.setdefault(n, set()).add(i)

    def run(field: Any, first: Optional[str] = None) -> tuple:
        h = SpdxHooks(ctx, db, first, field)
        h.max_steps = 100_000
        pe = PEval(p, h)
        out = pe.explore(lambda ev: ev.call(ev.getattr(ev.construct(c, [], {}), "find_closest_license_match"), [field], {}))
        ctx.functions |= pe.functions
        ctx.count("paths", len(out))
        return out, pe

    loc = spot(f)
    # An unknown field.
    fld = sym("param", "license_field", typ="str")
    paths, _ = run(fld)
    for r in paths:
        if r.kind == "undec":
            ctx.undec(f"unknown field: {r.value}")
            continue
        why = "; ".join(r.why())[:300]
        if r.kind == "exc":
            ctx.report("S01.id", "find_closest_license_match: exception", loc, f"raises {show(r.value)} when {why}")
            continue
        v = r.value
        closest = [k.args[0] for k, b in r.asm if b and k.op == "closest"]
        for e in r.events:
            if e[0] == "match":
                ctx.count("close-match calls")
                if not mentions(e[1], fld):
                    ctx.report("S01.match", "find_closest_license_match: matched text", loc, "the text matched against the licence list is not the licence field")
                elif not has_sym(e[2]) and not set(owner) <= set(e[2]):
                    ctx.report("S01.match", "find_closest_license_match: candidates", loc,
                               f"{sorted(set(owner) - set(e[2]))[:2]} cannot be matched: the candidates are not all identifiers and names")
        if v is None:
            if closest:
                ctx.report("S01.match", "find_closest_license_match: result", loc, f"gives None although '{closest[0]}' is the closest match")
            continue
        if v is fld:
            if not any(b and mentions(k, fld) and k.op in ("cmp", "contains") for k, b in r.asm):
                ctx.report("S01.id", "find_closest_license_match: result", loc, f"returns the field as it is without it being an identifier ({why or 'always'})")
            continue
        if isinstance(v, Sym) or has_sym(v):
            if mentions(v, fld):
                ctx.undec(f"result {show(v)[:80]}")
            continue
        if not isinstance(v, str):
            ctx.report("S01.id", "find_closest_license_match: result", loc, f"returns {show(v)[:60]}")
            continue
        if closest:
            if v not in owner.get(closest[0], set()):
                ctx.report("S01.match", "find_closest_license_match: result", loc, f"'{closest[0]}' is the closest match but the result is '{v}', another licence")
            continue
        if v in ids:
            continue
        ctx.count("corrections")
        if v not in real and v != "NOASSERTION":
            ctx.report("S01.patch", f"find_closest_license_match: correction to {v}", loc, f"a correction gives '{v}', which is not an SPDX identifier ({why})")
    # Known fields.
    for field, first, want, rule, what in (
        [(i, DB[0][1], i, "S01.exact", "an exact identifier") for i in ids]
        + [(t, DB[0][1], None, "S01.compound", "an expression") for t in
           ("MIT AND Zlib", "MIT OR Zlib", "mit and zlib", "MIT or Zlib", "Mit Or Zlib", "GPL-2.0-only WITH Classpath-exception-2.0", "gpl-2.0-only with x", "MIT, Zlib", "MIT,Zlib",
            " MIT AND Zlib ", "(MIT OR Zlib)", "mit, zlib", "MIT AND (BSD-2-Clause OR Zlib)", "BSD-2-Clause, and MIT", ",MIT", "MIT,", "MIT AND", "OR MIT", "MIT AND/OR Zlib",
            "MIT\u00a0AND\u00a0Zlib")
           + tuple(f"{a}{l}{o}{r}{b}" for o in ("AND", "OR", "WITH", "and", "Or", "wITH") for a, b in (("MIT", "Zlib"), ("GPL-2.0-only", "Classpath-exception-2.0"))
                   for l, r in ((" ", " "), ("\t", "\t"), ("\n", " "), ("  ", "  "), (") ", " ("), (")", "("), (" (", ") "), ("/", "/"), (" ", "\n"), (", ", " ")))]
        + [(t, None, "BSD-2-Clause", "S01.patch", "a known mistake") for t in ('BSD 2-Clause "Simplified"', 'bsd 2-clause "simplified"', '  BSD 2-CLAUSE "SIMPLIFIED"\n')]
        + [(t, None, "NOASSERTION", "S01.patch", "a known mistake") for t in ("Unlimited", "UNLIMITED", " unlimited ")]
        + [(k, k, next(iter(o)), "S01.match", "a licence") for k, o in owner.items()]
    ):
        rs, _ = run(field, first)
        ctx.count("known fields")
        for r in rs:
            if r.kind == "undec":
                ctx.undec(f"{field}: {r.value}")
            elif r.kind == "exc":
                ctx.report(rule, f"find_closest_license_match({field!r})", loc, f"{what}, '{field}', raises {show(r.value)}")
            elif not has_sym(r.value) and r.value != want and not (rule == "S01.match" and r.value is None and any(x in field.upper() for x in ("AND", "OR", "WITH", ","))):
                if rule in ("S01.patch",) and [k for k, b in r.asm if b]:
                    continue
                ctx.report(rule, f"find_closest_license_match({field!r})", loc, f"{what}, '{field}', gives {r.value!r}, not {want!r}")
            else:
                ctx.sample({"field": field, "result": show(r.value)})
    return ("Partial evaluation of SpdxUtils on a licence field that is unknown (all paths, the closest match being any key or none), on exact identifiers, compound "
            f"expressions and the known corrections; correction values against the {len(real)} identifiers of spdx_licenses.json.")


# ---- S02: scanners ---------------------------------------------------------------------------------------------------

STD = {"os", "sys", "json", "collections", "importlib"}
FIX = {"git": "gitpython", "yaml": "pyyaml", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv2": "py-opencv", "OpenGL": "pyopengl"}


class ScanHooks(Hooks):
    """A source tree given as {file name: imports or an exception}, or a project file."""

    max_iter = 3

    def __init__(self, files: dict, project: tuple = (), toml: Any = None, fail_at: str = "") -> None:
        self.files, self.project, self.toml, self.fail_at = files, project, toml, fail_at

    def node(self, f: str, i: int) -> tuple:
        return self.files[f][i]

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name.endswith("dependency.dependency_data_from_str") or name.endswith(".dependency_data_from_str"):
            return "data:" + args[0] if isinstance(args[0], str) else sym("data", args[0])
        if name in (".rglob", "pathlib.Path.rglob", ".glob", "pathlib.Path.glob"):
            pat = args[-1] if args else "*"
            return [sym("file", f) for f in self.files if isinstance(pat, str) and "py" in pat]
        if name == "pathlib.Path" and len(args) == 1 and isinstance(args[0], Sym):
            return args[0]
        if name in (".read_bytes", ".read_text", "pathlib.Path.read_bytes", "pathlib.Path.read_text") and isinstance(recv if recv is not None else args[0], Sym):
            f = recv if recv is not None else args[0]
            if f.op == "file" and isinstance(self.files[f.args[0]], str) and self.files[f.args[0]].endswith(("OSError", "UnicodeDecodeError")):
                boom(self.files[f.args[0]])
            return sym("text", f)
        if name in ("builtins.open", ".open", "pathlib.Path.open"):
            f = recv if recv is not None else args[0] if args else kw.get("file")
            if self.toml is not None:
                if self.toml == "builtins.FileNotFoundError":
                    boom(self.toml)
                return sym("handle", "toml")
            return sym("handle", f)
        if name == ".read" and isinstance(recv, Sym) and recv.op in ("handle", "enter"):
            h = recv.args[0] if recv.op == "enter" else recv
            if isinstance(h, Sym) and h.op == "handle" and isinstance(h.args[0], Sym) and h.args[0].op == "file":
                return sym("text", h.args[0])
            return sym("text", h)
        if name in ("tomllib.load", "tomllib.loads"):
            if isinstance(self.toml, str):
                boom(self.toml)
            return json.loads(json.dumps(self.toml))
        if name == "ast.parse":
            t = args[0]
            f = t
            while isinstance(f, Sym) and f.op != "file":
                f = next((x for x in f.args if isinstance(x, Sym)), None)
            if f is None:
                return NotImplemented
            if isinstance(self.files[f.args[0]], str):
                boom(self.files[f.args[0]])
            return sym("root", f.args[0])
        if name == "ast.walk" and isinstance(args[0], Sym) and args[0].op == "root":
            return [sym("node", args[0].args[0], i) for i in range(len(self.files[args[0].args[0]]))]
        if name == "builtins.isinstance" and isinstance(args[0], Sym) and args[0].op == "node":
            kind = self.node(*args[0].args)[0]
            cs = args[1] if isinstance(args[1], (tuple, list)) else (args[1],)
            if isinstance(args[1], Sym) and args[1].op == "bin":
                cs = args[1].args[1:]
            if all(isinstance(x, ExtRef) for x in cs):
                return any(x.dotted in (f"ast.{kind}", "ast.stmt", "ast.AST") for x in cs)
        if name == "pkgutil.iter_modules":
            return [sym("modinfo", m) for m in self.project]
        if name == "[]" and isinstance(recv, Sym) and recv.op == "modinfo":
            return {1: recv.args[0], -2: recv.args[0], 2: False, -1: False}.get(args[0], NotImplemented)
        if name in ("pathlib.Path", "pathlib.PurePath") and len(args) == 1 and isinstance(args[0], str):
            return sym("file", args[0])
        return NotImplemented

    def attr(self, ev: PEval, obj: Any, name: str) -> Any:
        if isinstance(obj, Sym) and obj.op == "file":
            n = obj.args[0]
            if name == "name":
                return n.rsplit("/", 1)[-1]
            if name == "stem":
                return n.rsplit("/", 1)[-1].rsplit(".", 1)[0]
            if name == "suffix":
                return "." + n.rsplit(".", 1)[-1]
            if name == "parts":
                return tuple(n.split("/"))
        if isinstance(obj, Sym) and obj.op == "node":
            nd = self.node(*obj.args)
            if name == "names":
                return [sym("alias", x) for x in nd[1]] if nd[0] != "Expr" else NotImplemented
            if name == "module" and nd[0] == "ImportFrom":
                return nd[2]
            if name == "level" and nd[0] == "ImportFrom":
                return nd[3]
        if isinstance(obj, Sym) and obj.op in ("alias", "modinfo") and name == "name":
            return obj.args[0]
        if isinstance(obj, ExtRef) and obj.dotted == "sys" and name == "stdlib_module_names":
            return set(STD)
        return NotImplemented


def imp(*names: str) -> tuple:
    return ("Import", list(names))


def frm(module: Optional[str], level: int = 0, *names: str) -> tuple:
    return ("ImportFrom", list(names or ("x",)), module, level)


@check("S02")
def s02(ctx: Ctx) -> str:
    p = ctx.p
    py = p.cls("scanner.dependency.py_dep_scanner.PythonDependencyScanner")
    tm = p.cls("scanner.dependency.pyproject_dep_scanner.PyProjectDependencyScanner")
    ds = p.cls("parser.dependency.DependencySection")
    for x, w in ((py, "PythonDependencyScanner"), (tm, "PyProjectDependencyScanner"), (ds, "DependencySection")):
        ctx.need(x is not None, w)
    ctx.rule("S02.import", "every absolute import of a module that is neither in the standard library nor part of the project is a dependency, under its package name; nothing else is")
    ctx.rule("S02.section", "imports of test files (test_*.py, *_test.py) are test dependencies unless also run dependencies; other imports are run dependencies; python is a host and run dependency")
    ctx.rule("S02.fault", "a file that cannot be read or parsed is reported by a message and does not affect the others; scanning does not raise")
    ctx.rule("S02.toml", "dependencies are run dependencies and every optional dependency is a run constraint; nothing else is reported")
    ctx.rule("S02.tomlfault", "a missing, undecodable, malformed or project-less project file gives a message and no dependencies")

    def run(cls: ClassInfo, h: ScanHooks) -> list:
        h.max_steps = 100_000
        pe = PEval(p, h)

        def body(ev: PEval) -> Any:
            s = ev.construct(cls, [sym("param", "src_dir", typ=None)], {})
            deps = ev.call(ev.getattr(s, "scan"), [], {})
            t = ev.call(ev.getattr(s, "get_message_table"), [], {})
            cats = ev.enum_members(p.cls("types.MessageCategory"))
            n = [ev.call(ev.getattr(t, "get_message_count"), [c], {}) for c in cats.values()]
            return deps, sum(n)

        out = pe.explore(body)
        ctx.functions |= pe.functions
        ctx.count("paths", len(out))
        return out

    def names(deps: Any) -> Optional[set]:
        out = set()
        try:
            for d in deps:
                if not isinstance(d, NT):
                    return None
                data, typ = d[list(d.names).index("data")], d[list(d.names).index("type")]
                if has_sym(data) or not isinstance(data, str) or not hasattr(typ, "name"):
                    return None
                out.add((data[5:], typ.name))
        except Exception:  # pylint: disable=broad-except
            return None
        return out

    PYT = {("python", "HOST"), ("python", "RUN")}

    def judge(label: str, cls: ClassInfo, h: ScanHooks, want: set, rule: str, msgs: Optional[bool]) -> None:
        loc = spot(cls.find_method("scan"))
        ctx.count("scenarios")
        rs = run(cls, h)
        right = [r for r in rs if r.kind == "ret" and isinstance(r.value[0], (set, frozenset)) and names(r.value[0]) == want]
        if right and any(r.asm for r in rs):
            ctx.undec(f"{label}: depends on {'; '.join(right[0].why())[:120]}")
            return
        for r in rs:
            if r.kind == "undec":
                ctx.undec(f"{label}: {r.value}")
                continue
            frule = "S02.fault" if cls is py else "S02.tomlfault"
            if r.kind == "exc":
                ctx.report(frule, f"{cls.name}.scan: {label}", loc, f"scan raises {show(r.value)} for {label}")
                continue
            got = names(r.value[0]) if isinstance(r.value[0], (set, frozenset)) else None
            if got is None:
                ctx.undec(f"{label}: result {show(r.value[0])[:100]}")
                continue
            why = f" when {'; '.join(r.why())[:200]}" if r.asm else ""
            if got != want:
                ctx.report(rule, f"{cls.name}.scan: {label}", loc, f"{label}: misses {sorted(want - got)} and adds {sorted(got - want)}{why}")
            else:
                ctx.sample({"scenario": label, "dependencies": sorted(map(list, got))})
            if isinstance(r.value[1], int) and msgs is True and r.value[1] == 0:
                ctx.report(frule, f"{cls.name}.scan: {label}: message", loc, f"{label}: no message is added to the message table")
            if isinstance(r.value[1], int) and msgs is False and r.value[1]:
                ctx.report(frule, f"{cls.name}.scan: {label}: message", loc, f"{label}: a message is added although nothing failed")

    S = ScanHooks
    one = lambda *nodes: {"pkg/a.py": list(nodes)}  # noqa: E731
    for label, files, want, rule in [
        ("no files", {}, set(), "S02.section"),
        ("a file without imports", one(("Expr",)), set(), "S02.import"),
        ("a plain import", one(imp("numpy")), {("numpy", "RUN")}, "S02.import"),
        ("a dotted import", one(imp("scipy.linalg.blas")), {("scipy", "RUN")}, "S02.import"),
        ("several imports on one line", one(imp("numpy", "os", "requests.adapters", "pandas")), {("numpy", "RUN"), ("requests", "RUN"), ("pandas", "RUN")}, "S02.import"),
        ("an import from a module", one(frm("click.testing")), {("click", "RUN")}, "S02.import"),
        ("an import from a module after other statements", one(("Expr",), imp("os"), ("Expr",), frm("click")), {("click", "RUN")}, "S02.import"),
        ("standard library imports", one(imp("os.path"), frm("collections.abc"), imp("json", "sys")), set(), "S02.import"),
        ("imports of the project's modules", one(imp("mypkg"), frm("mypkg.sub"), imp("mypkg.sub.x")), set(), "S02.import"),
        ("relative imports", one(frm(None, 1), frm("rel", 1), frm("a.b", 2)), set(), "S02.import"),
        ("a relative import of a module named like a package", one(frm("requests", 1)), set(), "S02.import"),
    ] + [(f"the import name {k}", one(imp(k)), {(v, "RUN")}, "S02.import") for k, v in FIX.items()] + [
        (f"an import from {k}.x", one(frm(k + ".x")), {(v, "RUN")}, "S02.import") for k, v in list(FIX.items())[:3]] + [
        ("test_x.py", {"t/test_x.py": [imp("pytest")]}, {("pytest", "TESTS")}, "S02.section"),
        ("x_test.py", {"t/x_test.py": [imp("pytest")]}, {("pytest", "TESTS")}, "S02.section"),
        ("Test_X.py", {"t/Test_X.py": [imp("pytest")]}, {("pytest", "TESTS")}, "S02.section"),
        ("contest.py", {"t/contest.py": [imp("flask")]}, {("flask", "RUN")}, "S02.section"),
        ("latest_x.py", {"t/latest_x.py": [imp("flask")]}, {("flask", "RUN")}, "S02.section"),
        ("the same import in code and test", {"a.py": [imp("numpy")], "test_a.py": [imp("numpy", "pytest")]}, {("numpy", "RUN"), ("pytest", "TESTS")}, "S02.section"),
        ("the same import in test and code", {"test_a.py": [imp("numpy")], "z.py": [imp("numpy")], "z_test.py": [imp("hypothesis")]},
         {("numpy", "RUN"), ("hypothesis", "TESTS")}, "S02.section"),
        ("python imported by name", one(imp("python")), set(), "S02.section"),
        ("python imported by a test", {"test_p.py": [imp("python", "pytest")]}, {("pytest", "TESTS")}, None),
    ]:
        if rule is None:
            continue
        ctx.guard(label, lambda: judge(label, py, S(files, ("mypkg", "helpers")), want | PYT, rule, False))
    for e in ("builtins.SyntaxError", "builtins.ValueError", "builtins.OSError", "builtins.UnicodeDecodeError", "builtins.RecursionError"):
        for order in (("a.py", "bad.py", "z.py"), ("bad.py", "a.py", "z.py"), ("a.py", "z.py", "bad.py")):
            files = {f: (e if f == "bad.py" else [imp("numpy" if f == "a.py" else "flask")]) for f in order}
            ctx.guard(e, lambda: judge(f"{e.split('.')[-1]} in file {order.index('bad.py') + 1} of 3", py, S(files), {("numpy", "RUN"), ("flask", "RUN")} | PYT, "S02.fault", True))

    for label, doc, want, msgs in [
        ("an empty file", {}, set(), True),
        ("a file without project", {"tool": {"x": {}}, "build-system": {"requires": ["setuptools"]}}, set(), True),
        ("an empty project", {"project": {}}, set(), False),
        ("a project without dependencies", {"project": {"name": "x"}, "build-system": {"requires": ["setuptools"]}}, set(), False),
        ("dependencies", {"project": {"dependencies": ["numpy", "click >=8"]}}, {("numpy", "RUN"), ("click >=8", "RUN")}, False),
        ("empty dependencies", {"project": {"dependencies": [], "optional-dependencies": {}}}, set(), False),
        ("optional dependencies", {"project": {"optional-dependencies": {"dev": ["pytest", "mypy"], "doc": ["sphinx"], "none": []}}},
         {("pytest", "RUN_CONSTRAINTS"), ("mypy", "RUN_CONSTRAINTS"), ("sphinx", "RUN_CONSTRAINTS")}, False),
        ("both", {"project": {"dependencies": ["numpy"], "optional-dependencies": {"dev": ["numpy", "pytest"]}}},
         {("numpy", "RUN"), ("numpy", "RUN_CONSTRAINTS"), ("pytest", "RUN_CONSTRAINTS")}, False),
    ]:
        ctx.guard(label, lambda: judge(label, tm, S({}, toml=doc), want, "S02.toml" if msgs is False else "S02.tomlfault", msgs))
    for e, label in (("builtins.FileNotFoundError", "a missing file"), ("tomllib.TOMLDecodeError", "a malformed file"), ("builtins.UnicodeDecodeError", "an undecodable file")):
        ctx.guard(label, lambda: judge(label, tm, S({}, toml=e), set(), "S02.tomlfault", True))
    return ("Partial evaluation of both scanners' scan() over modelled source trees (imports of every kind, test files, project and standard library modules, unreadable and "
            "malformed files at every position) and project files; the resulting dependency set and message count on every path.")
