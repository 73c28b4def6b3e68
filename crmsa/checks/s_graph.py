"""S03: dependency graphs of recipes, by partial evaluation over given recipes and a recorded graph library."""

from __future__ import annotations

from typing import Any, Optional

from ..model import ClassInfo, ExtRef, FuncInfo
from ..peval import ENUMS, Bound, Exc, Fn, Hooks, Inst, PEval, PyExc, Sym, has_sym, show, sym
from ..report import Ctx, check
from .p_select import spot
from .s_scan import boom

# One dependency: (section, name)
R_PLAIN = {"alpha": [("BUILD", "gcc"), ("HOST", "python"), ("RUN", "numpy"), ("TESTS", "pytest"), ("RUN_CONSTRAINTS", "old")], "beta": []}
R_DUP = {"alpha": [("HOST", "other"), ("RUN", "other2")], "gamma": [("RUN", "alpha"), ("HOST", "beta")]}
R_TESTS = {"delta": [("TESTS", "pytest")], "epsilon": [("BUILD", "make")]}


class GraphHooks(Hooks):
    max_steps = 100_000

    def __init__(self, recipes: dict, dep: ClassInfo, sec: ClassInfo) -> None:
        self.recipes, self.sec = recipes, sec
        self.failing: dict = {}
        self.pool: Optional[list] = None
        self.found: list = []

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        last = name.rsplit(".", 1)[-1]
        if isinstance(recv, Sym) and recv.op == "recipe":
            r = self.recipes[recv.args[0]]
            if last in ("get_all_dependencies",):
                if isinstance(r, tuple):
                    boom(r[0])
                return {pk: [sym("dep", recv.args[0], pk, i) for i in range(len(ds))] for pk, ds in r.items()}
            if last == "get_package_names_to_path":
                if isinstance(r, tuple):
                    if r[1] is None:
                        boom("builtins.KeyError")
                    return {n: f"/outputs/{i}" for i, n in enumerate(r[1])}
                return {pk: "/" for pk in r}
            if last == "calc_sha256":
                return "sha-" + recv.args[0]
        if name in ("networkx.DiGraph", "networkx.MultiDiGraph", "networkx.Graph"):
            n = ev.counter["graph"] = ev.counter.get("graph", 0) + 1
            ev.emit("graph", n, name)
            return sym("graph", n)
        if isinstance(recv, Sym) and recv.op == "graph" and last in ("add_node", "add_edge", "add_nodes_from", "add_edges_from"):
            g = recv.args[0]
            if last == "add_node":
                ev.emit("node", g, args[0])
            elif last == "add_edge":
                ev.emit("edge", g, args[0], args[1])
            else:
                for x in ev.items_of(args[0]):
                    if last == "add_nodes_from":
                        ev.emit("node", g, x)
                    else:
                        ev.emit("edge", g, x[0], x[1])
            return None
        if name == "networkx.bfs_tree":
            ev.emit("bfs", args[0], args[1] if len(args) > 1 else kw.get("source"), kw.get("reverse", args[2] if len(args) > 2 else False))
            return sym("tree", args[0])
        if name == "networkx.draw":
            ev.emit("draw", args[0])
            return None
        if isinstance(recv, Sym) and recv.op == "dir" and last in ("rglob", "glob"):
            return list(self.found)
        if name == "pathlib.Path" and len(args) == 1 and isinstance(args[0], Sym):
            return args[0]
        if self.pool is not None and last in ("map", "imap", "starmap", "imap_unordered") and name != "builtins.map" and len(args) >= 2:
            ev.emit("pool", args[0], list(ev.items_of(args[1])))
            return list(self.pool)
        if name in ("multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool", "concurrent.futures.ProcessPoolExecutor",
                    "concurrent.futures.ThreadPoolExecutor") or last == "Pool":
            return sym("pool")
        if name == ".__enter__" and isinstance(recv, Sym) and recv.op == "pool":
            return recv
        if name in ("multiprocessing.cpu_count", "os.cpu_count"):
            return 4
        return NotImplemented

    def attr(self, ev: PEval, obj: Any, name: str) -> Any:
        if isinstance(obj, Sym) and obj.op == "dep":
            s, n = self.recipes[obj.args[0]][obj.args[1]][obj.args[2]]
            if name == "type":
                return ev.enum_members(self.sec)[s]
            if name == "data":
                return sym("depdata", n)
        if isinstance(obj, Sym) and obj.op == "depdata" and name == "name":
            return obj.args[0]
        if isinstance(obj, Sym) and obj.op == "yaml" and name == "name":
            return obj.args[0].rsplit("/", 1)[-1]
        if isinstance(obj, Sym) and obj.op == "yaml" and name == "stem":
            return obj.args[0].rsplit("/", 1)[-1].rsplit(".", 1)[0]
        return NotImplemented


class LoadHooks(Hooks):
    """Loading one recipe: each step may fail."""

    def __init__(self, fail: str, exc: str) -> None:
        self.fail, self.exc = fail, exc

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        last = name.rsplit(".", 1)[-1]
        if last in ("read_text", "read_bytes", "open") and (recv is not None or args):
            if self.fail == "read":
                boom(self.exc)
            return sym("text", recv if recv is not None else args[0], typ="str")
        if name in ("parser.recipe_reader_deps.RecipeReaderDeps", "parser.recipe_reader.RecipeReader"):
            if self.fail == "parse":
                boom(self.exc)
            return sym("recipe", args[0], typ=ev.p.cls("parser.recipe_reader_deps.RecipeReaderDeps"))
        if last == "calc_sha256":
            if self.fail == "hash":
                boom(self.exc)
            return "sha"
        if last in ("as_posix", "__str__", "resolve", "absolute"):
            return "the/path"
        if name == "builtins.str" and isinstance(args[0], Sym) and args[0].op == "yaml":
            return "the/path"
        return NotImplemented


@check("S03")
def s03(ctx: Ctx) -> str:
    p = ctx.p
    rg, fd = p.cls("grapher.recipe_graph.RecipeGraph"), p.cls("grapher.recipe_graph_from_disk.RecipeGraphFromDisk")
    gt, gd = p.cls("grapher.types.GraphType"), p.cls("grapher.types.GraphDirection")
    sec, dep, rd = p.cls("parser.dependency.DependencySection"), p.cls("parser.dependency.Dependency"), p.cls("parser.recipe_reader_deps.RecipeReaderDeps")
    for x, w in ((rg, "RecipeGraph"), (fd, "RecipeGraphFromDisk"), (gt, "GraphType"), (gd, "GraphDirection"), (sec, "DependencySection"), (dep, "Dependency"), (rd, "RecipeReaderDeps")):
        ctx.need(x is not None, w)
    for m in ("get_package_stats", "contains_package_name", "plot"):
        ctx.need(rg.find_method(m) is not None, f"RecipeGraph.{m}")
    ctx.rule("S03.nodes", "every package of a recipe whose dependencies could be read is a node of both graphs")
    ctx.rule("S03.edges", "build and host dependencies are edges, from the package, of the build graph; run and test dependencies of the test graph")
    ctx.rule("S03.dup", "of two recipes with a package of the same name the first counts and the name is recorded as duplicate")
    ctx.rule("S03.fault", "a recipe whose dependencies cannot be read is recorded with its package names (or as Unknown) and the others are still processed")
    ctx.rule("S03.stats", "totals count the recipes parsed, the recipes found and the distinct packages")
    ctx.rule("S03.plot", "plot draws the graph of the kind asked for, forwards for what a package depends on and backwards for what needs it")
    ctx.rule("S03.disk", "from disk every meta.yaml and recipe.yaml is loaded; one that cannot be read or parsed is recorded under its path; the others are kept")
    loc = spot(rg.find_method("__init__"))

    def expected(recipes: dict) -> dict:
        nodes: dict = {}
        b, t, dup, failed = set(), set(), set(), {}
        for k, r in recipes.items():
            if isinstance(r, tuple):
                failed["sha-" + k] = list(r[1]) if r[1] is not None else ["Unknown"]
                continue
            for pk, ds in r.items():
                if pk in nodes:
                    dup.add(pk)
                    continue
                nodes[pk] = k
                b |= {(pk, n) for s, n in ds if s in ("BUILD", "HOST")}
                t |= {(pk, n) for s, n in ds if s in ("RUN", "TESTS")}
        return {"nodes": set(nodes), "build": b, "test": t, "dup": dup, "failed": failed}

    def graphs_of(r: Any) -> dict:
        """graph number -> (nodes, edges)"""
        out: dict = {}
        for e in r.events:
            if e[0] == "graph":
                out[e[1]] = (set(), set())
            elif e[0] == "node":
                out[e[1]][0].add(e[2])
            elif e[0] == "edge":
                out[e[1]][1].add((e[2], e[3]))
                out[e[1]][0].update((e[2], e[3]))
        return out

    def stat(ev: PEval, st: Any) -> dict:
        return {n: ev.getattr(st, n) for n in ("package_name_duplicates", "recipes_failed_to_parse", "recipes_failed_to_parse_dependencies", "total_parsed_recipes", "total_recipes",
                                               "total_packages")}

    def scenario(label: str, recipes: dict, failed: set) -> None:
        h = GraphHooks(recipes, dep, sec)
        pe = PEval(p, h)
        want = expected(recipes)

        def body(ev: PEval) -> Any:
            g = ev.construct(rg, [{"sha-" + k: sym("recipe", k, typ=rd) for k in recipes}, set(failed)], {})
            drawn = {}
            for n, m in ev.enum_members(gt).items():
                ev.call(ev.getattr(g, "plot"), [m], {})
                ev.emit("after", n)
            known = {n: ev.truth(ev.call(ev.getattr(g, "contains_package_name"), [n], {})) for n in list(want["nodes"]) + ["nowhere", "numpy", "p-bad"]}
            return stat(ev, ev.call(ev.getattr(g, "get_package_stats"), [], {})), known, drawn

        rs = pe.explore(body)
        ctx.functions |= pe.functions
        ctx.count("recipe sets")
        ctx.count("paths", len(rs))
        for r in rs:
            if r.kind == "undec" or r.asm:
                ctx.undec(f"{label}: {r.value if r.kind == 'undec' else '; '.join(r.why())[:200]}")
                continue
            if r.kind == "exc":
                ctx.report("S03.fault", f"RecipeGraph: {label}", loc, f"building the graph of {label} raises {show(r.value)}")
                continue
            st, known, _ = r.value
            gs = graphs_of(r)
            which, cur = {}, None
            for e in r.events:
                if e[0] == "draw" and isinstance(e[1], Sym) and e[1].op == "graph":
                    cur = e[1].args[0]
                elif e[0] == "after":
                    which[e[1]] = cur
                    cur = None
            for kind, key in (("BUILD", "build"), ("TEST", "test")):
                n = which.get(kind)
                if n is None:
                    ctx.undec(f"{label}: the {key} graph that plot draws")
                    continue
                nodes, edges = gs[n]
                if not want["nodes"] <= nodes:
                    ctx.report("S03.nodes", f"RecipeGraph: {key} graph", loc, f"{label}: {sorted(want['nodes'] - nodes)} are not nodes of the {key} graph")
                if edges != want[key]:
                    rule = "S03.dup" if any(a in want["dup"] for a, _ in edges ^ want[key]) else "S03.edges"
                    ctx.report(rule, f"RecipeGraph: {key} graph", loc,
                               f"{label}: the {key} graph misses {sorted(want[key] - edges)[:4]} and adds {sorted(map(show, edges - want[key]))[:4]}")
                extra = nodes - want["nodes"] - {x for e in want[key] for x in e}
                if extra:
                    ctx.report("S03.nodes", f"RecipeGraph: {key} graph extra", loc, f"{label}: {sorted(map(show, extra))[:4]} are nodes of the {key} graph")
            for n, b in known.items():
                if b != (n in want["nodes"]):
                    ctx.report("S03.nodes", "RecipeGraph.contains_package_name", loc, f"{label}: contains_package_name('{n}') is {b}")
            if set(st["package_name_duplicates"]) != want["dup"]:
                ctx.report("S03.dup", "PackageStats.package_name_duplicates", loc, f"{label}: duplicates are {show(st['package_name_duplicates'])}, not {sorted(want['dup'])}")
            if set(st["recipes_failed_to_parse"]) != failed:
                ctx.report("S03.stats", "PackageStats.recipes_failed_to_parse", loc, f"{label}: {show(st['recipes_failed_to_parse'])} instead of {sorted(failed)}")
            fails = st["recipes_failed_to_parse_dependencies"]
            if isinstance(fails, dict) and not has_sym(list(fails.values())):
                got = {k: sorted(v) for k, v in fails.items()}
                if got != {k: sorted(v) for k, v in want["failed"].items()}:
                    ctx.report("S03.fault", "PackageStats.recipes_failed_to_parse_dependencies", loc, f"{label}: {got} instead of {want['failed']}")
            else:
                ctx.undec(f"{label}: {show(fails)[:80]}")
            for f, w in (("total_parsed_recipes", len(recipes)), ("total_recipes", len(recipes) + len(failed)), ("total_packages", len(want["nodes"]))):
                if isinstance(st[f], int) and st[f] != w:
                    ctx.report("S03.stats", f"PackageStats.{f}", loc, f"{label}: {f} is {st[f]}, not {w}")
            ctx.sample({"recipes": label, "build": sorted(want["build"]), "test": sorted(want["test"])})

    bad, worse = ("builtins.ValueError", ["p-bad", "p-bad2"]), ("builtins.KeyError", None)
    for label, recipes, failed in [
        ("no recipes", {}, set()), ("only unparsable recipes", {}, {"x/meta.yaml", "y/meta.yaml"}), ("one recipe", {"r1": R_PLAIN}, set()),
        ("a package without dependencies", {"r1": {"beta": []}}, set()), ("two recipes", {"r1": R_PLAIN, "r3": R_TESTS}, {"x"}),
        ("a duplicate package", {"r1": R_PLAIN, "r2": R_DUP}, set()), ("a duplicate package, other order", {"r2": R_DUP, "r1": R_PLAIN, "r3": R_TESTS}, set()),
        ("an unreadable recipe first", {"bad": bad, "r1": R_PLAIN}, set()), ("an unreadable recipe between", {"r1": R_PLAIN, "bad": bad, "r3": R_TESTS}, {"x"}),
        ("a recipe without readable names", {"worse": worse, "r1": R_PLAIN, "bad": ("builtins.Exception", ["p-bad"])}, set()),
        ("a recipe that depends on itself", {"r": {"a": [("HOST", "a"), ("RUN", "b")], "b": [("RUN", "a")]}}, set()),
    ]:
        ctx.guard(label, lambda: scenario(label, recipes, failed))

    # plot of one package
    def plots(direction: Optional[str], kind: str) -> None:
        pe = PEval(p, GraphHooks({"r1": R_PLAIN}, dep, sec))

        def body(ev: PEval) -> Any:
            g = ev.construct(rg, [{"sha-r1": sym("recipe", "r1", typ=rd)}, set()], {})
            ev.call(ev.getattr(g, "plot"), [ev.enum_members(gt)[kind]], {} | ({"direction": ev.enum_members(gd)[direction]} if direction else {}) | {"package": "alpha"})
            return None

        for r in pe.explore(body):
            ctx.count("plots")
            bfs = [e for e in r.events if e[0] == "bfs"]
            if r.kind == "exc":
                ctx.report("S03.plot", f"RecipeGraph.plot ({kind}, {direction})", loc, f"plotting the {kind} graph of a package raises {show(r.value)}")
            if r.kind != "ret" or len(bfs) != 1 or r.asm:
                ctx.undec(f"plot {kind} {direction}: {r.value}")
                continue
            rev = bfs[0][3]
            if isinstance(rev, bool) and rev is not (direction == "NEEDED_BY"):
                ctx.report("S03.plot", f"RecipeGraph.plot ({direction})", spot(rg.find_method("plot")),
                           f"the graph {'of what needs a package' if direction == 'NEEDED_BY' else 'of what a package depends on'} is searched {'backwards' if rev else 'forwards'}")
            if bfs[0][2] != "alpha":
                ctx.report("S03.plot", "RecipeGraph.plot: package", spot(rg.find_method("plot")), "the search does not start from the package asked for")
            g = bfs[0][1]
            if isinstance(g, Sym) and g.op == "graph":
                want = {("alpha", n) for s, n in R_PLAIN["alpha"] if s in (("BUILD", "HOST") if kind == "BUILD" else ("RUN", "TESTS"))}
                if graphs_of(r)[g.args[0]][1] != want:
                    ctx.report("S03.plot", f"RecipeGraph.plot ({kind})", spot(rg.find_method("plot")), f"plot of the {kind} graph draws another graph")

    for d in ("DEPENDS_ON", "NEEDED_BY", None):
        for k in ("BUILD", "TEST"):
            ctx.guard("plot", lambda: plots(d, k))

    # from disk
    files = ["a/meta.yaml", "b/recipe.yaml", "c/conda_build_config.yaml", "d/recipe/meta.yaml", "e/xmeta.yaml"]

    def disk() -> None:
        h = GraphHooks({"r1": R_PLAIN, "r3": R_TESTS}, dep, sec)
        h.found = [sym("yaml", f) for f in files]
        h.pool = [("sha-r1", sym("recipe", "r1", typ=rd)), ("x/meta.yaml", None), ("sha-r3", sym("recipe", "r3", typ=rd))]
        pe = PEval(p, h)

        def body(ev: PEval) -> Any:
            g = ev.construct(fd, [sym("dir", 0)], {})
            return stat(ev, ev.call(ev.getattr(g, "get_package_stats"), [], {})), {n: ev.truth(ev.call(ev.getattr(g, "contains_package_name"), [n], {})) for n in ("alpha", "delta")}

        for r in pe.explore(body):
            ctx.count("loads from disk")
            dloc = spot(fd.find_method("__init__"))
            if r.kind == "exc":
                ctx.report("S03.disk", "RecipeGraphFromDisk", dloc, f"loading raises {show(r.value)}")
                continue
            pool = [e for e in r.events if e[0] == "pool"]
            if r.kind != "ret" or r.asm or len(pool) != 1:
                ctx.undec(f"disk: {r.value} {'; '.join(r.why())[:200]}")
                continue
            got = [x.args[0] for x in pool[0][2] if isinstance(x, Sym) and x.op == "yaml"]
            want = [f for f in files if f.rsplit("/", 1)[-1] in ("meta.yaml", "recipe.yaml")]
            if len(got) == len(pool[0][2]) and sorted(got) != sorted(want):
                ctx.report("S03.disk", "RecipeGraphFromDisk: files", dloc, f"of {files} it loads {got}")
            st, known = r.value
            if set(st["recipes_failed_to_parse"]) != {"x/meta.yaml"}:
                ctx.report("S03.disk", "RecipeGraphFromDisk: failures", dloc, f"the recipe that could not be parsed is recorded as {show(st['recipes_failed_to_parse'])}")
            if st["total_parsed_recipes"] != 2 or st["total_recipes"] != 3 or not all(known.values()):
                ctx.report("S03.disk", "RecipeGraphFromDisk: recipes", dloc, f"of two recipes parsed and one failed it keeps {st['total_parsed_recipes']} of {st['total_recipes']}")
            cb = pool[0][1]
            for fail, exc in (("", ""), ("read", "builtins.OSError"), ("read", "builtins.UnicodeDecodeError"), ("parse", "builtins.Exception"), ("parse", "builtins.ValueError"),
                              ("parse", "yaml.YAMLError"), ("parse", "builtins.KeyError"), ("parse", "builtins.IndexError"), ("parse", "builtins.RecursionError"), ("hash", "builtins.ValueError")):
                lp = PEval(p, LoadHooks(fail, exc))
                f = cb.fi if isinstance(cb, Fn) else cb.f if isinstance(cb, Bound) else cb
                if not isinstance(f, FuncInfo):
                    ctx.undec("callback of the pool")
                    break
                for x in lp.explore(lambda ev: ev.call(f, [sym("yaml", "a/meta.yaml")], {})):
                    ctx.count("recipe loads")
                    ctx.functions |= lp.functions
                    if x.kind == "exc":
                        ctx.report("S03.disk", f"RecipeGraphFromDisk: loading ({fail})", spot(f), f"{exc} while the recipe is {fail or 'load'} escapes the worker: {show(x.value)}")
                    elif x.kind != "ret" or not isinstance(x.value, tuple) or len(x.value) != 2:
                        ctx.undec(f"worker: {show(x.value)[:80]}")
                    elif fail and (x.value[1] is not None or x.value[0] != "the/path"):
                        if not has_sym(x.value[1]) and not has_sym(x.value[0]) or isinstance(x.value[1], Sym) and x.value[1].op == "recipe":
                            ctx.report("S03.disk", f"RecipeGraphFromDisk: loading ({fail})", spot(f), f"after {exc} the worker returns {show(x.value)[:80]}, not the path and None")
                    elif not fail and isinstance(x.value[0], str) and (x.value[0] != "sha" or x.value[1] is None):
                        ctx.report("S03.disk", "RecipeGraphFromDisk: loading", spot(f), f"for a good recipe the worker returns {show(x.value)[:80]}")
        ctx.functions |= pe.functions

    ctx.guard("disk", disk)
    return ("Partial evaluation of RecipeGraph on recipe sets with every dependency section, packages without dependencies, duplicates and unreadable recipes in several orders, the "
            "graph library recorded; of plot for both kinds and directions; of RecipeGraphFromDisk and of its worker with every step failing.")
