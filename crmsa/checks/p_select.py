"""P12, P14: platform tables and selector expressions, by partial evaluation of the source.

A platform's meaning is in its name, which gives the oracle for the tables.  A selector's operators are checked on every expression shape up to a
bound, with the sets its operands stand for replaced by sets in general position, so that two different set expressions never agree by accident.
"""

from __future__ import annotations

import itertools
from typing import Any, Callable, Optional

from ..model import ClassInfo, FuncInfo
from ..peval import Hooks, Inst, NT, PEval, Sym, has_sym, show
from ..report import Ctx, check

PT = "parser.platform_types"
SUBDIRS = {"linux-32", "linux-64", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le", "linux-riscv64", "linux-s390x", "osx-64",
           "osx-arm64", "win-32", "win-64", "win-arm64", "emscripten-wasm32", "wasi-wasm32", "freebsd-64", "zos-z", "linux-riscv32", "linux-loongarch64",
           "linux-sparc64", "osx-32", "osx-ppc64"}
OS_OF = {"linux": ("linux-",), "osx": ("osx-",), "unix": ("linux-", "osx-"), "win": ("win-",)}
ARCH_OF = {"s390x": ("s390x",), "x86": ("32", "64"), "x86_64": ("64",), "arm64": ("arm64",), "armv6l": ("armv6l",), "armv7l": ("armv7l",), "ppc64": ("ppc64",),
           "ppc64le": ("ppc64le",)}


def names(v: Any) -> Optional[set]:
    if isinstance(v, Sym) or has_sym(v) or not isinstance(v, (set, frozenset, list, tuple)):
        return None
    return {str(x) for x in v}


def table_value(pe: PEval, body: Callable) -> tuple:
    """('set', names) / ('exc', what) / (None, why): the single outcome of an evaluation without unknowns."""
    ps = pe.explore(body)
    if any(p.kind == "undec" for p in ps) or not ps:
        return None, "; ".join(str(p.value) for p in ps if p.kind == "undec")[:200]
    if any(p.kind == "exc" for p in ps):
        return "exc", show(next(p.value for p in ps if p.kind == "exc"))
    vals = [names(p.value) for p in ps]
    if any(v is None for v in vals) or any(v != vals[0] for v in vals):
        return None, show(ps[0].value)
    return "set", vals[0]


def spot(fi: Any) -> str:
    return f"{fi.mod.rel}:{fi.node.lineno}"


@check("P14")
def p14(ctx: Ctx) -> str:
    p = ctx.p
    oc, ac, pc = p.cls(f"{PT}.OperatingSystem"), p.cls(f"{PT}.Arch"), p.cls(f"{PT}.Platform")
    by_os, by_arch = p.fn(f"{PT}.get_platforms_by_os"), p.fn(f"{PT}.get_platforms_by_arch")
    for x, w in ((oc, "OperatingSystem"), (ac, "Arch"), (pc, "Platform"), (by_os, "get_platforms_by_os"), (by_arch, "get_platforms_by_arch")):
        ctx.need(x is not None, f"{PT}.{w}")
    ctx.rule("P14.table", "an operating system, architecture or Unix stands for exactly the platforms whose names say so")
    ctx.rule("P14.name", "every platform is a conda subdirectory name, and every operating system and architecture is known to the oracle")
    ctx.rule("P14.form", "an operating system or architecture given as text stands for the same platforms, ignoring case and surrounding blanks; other text for none")
    ctx.rule("P14.all", "the ALL_* tables contain every member of their enumeration")
    pe = PEval(p)
    vals = {c: {n: str(m) for n, m in enum_of(pe, c).items()} for c in (oc, ac, pc)}
    plats = set(vals[pc].values())
    ctx.need(len(plats) >= 5, "platforms")
    for n, v in vals[pc].items():
        ctx.count("platform names")
        if v not in SUBDIRS:
            ctx.report("P14.name", f"Platform.{n}", spot(pc), f"'{v}' is not the name of a conda platform")
    for c, known, fn, pick in ((oc, OS_OF, by_os, lambda k: {x for x in plats if x.startswith(OS_OF[k])}),
                               (ac, ARCH_OF, by_arch, lambda k: {x for x in plats if x.split("-", 1)[-1] in ARCH_OF[k]})):
        for n, v in vals[c].items():
            if v not in known:
                ctx.undec(f"{c.name}.{n}={v}: not in the oracle")
                continue
            want = pick(v)
            forms: list = [(f"{c.name}.{n}", lambda ev, c=c, n=n: ev.enum_members(c)[n], "P14.table")]
            forms += [(repr(t), lambda ev, t=t: t, "P14.form") for t in (v, v.upper(), f"  {v}\t", v.capitalize())]
            for label, mk_arg, rule in forms:
                k, got = table_value(pe, lambda ev: ev.call(fn, [mk_arg(ev)], {}))
                ctx.count("table entries")
                if k is None:
                    ctx.undec(f"{fn.name}({label}): {got}")
                elif k == "exc":
                    ctx.report(rule, f"{fn.name}({label})", spot(fn), f"{fn.name}({label}) raises {got}")
                elif got != want:
                    ctx.report(rule, f"{fn.name}({label})", spot(fn), f"{fn.name}({label}) gives {sorted(got)}; the names say {sorted(want)}")
                else:
                    ctx.sample({"call": f"{fn.name}({label})", "platforms": sorted(got)})
        for t in ("", "no such thing", "64", "linux-64", "noarch", "not", "[osx]", "x86 osx"):
            k, got = table_value(pe, lambda ev: ev.call(fn, [t], {}))
            ctx.count("unknown names")
            if k == "exc":
                ctx.report("P14.form", f"{fn.name}({t!r})", spot(fn), f"{fn.name}({t!r}) raises {got} instead of giving no platforms")
            elif k == "set" and got:
                ctx.report("P14.form", f"{fn.name}({t!r})", spot(fn), f"{fn.name}({t!r}) gives {sorted(got)} for a name that is neither")
            elif k is None:
                ctx.undec(f"{fn.name}({t!r}): {got}")
    for c, gname in ((pc, "ALL_PLATFORMS"), (oc, "ALL_OPERATING_SYSTEMS"), (ac, "ALL_ARCHITECTURES")):
        m = p.mods.get(f"conda_recipe_manager.{PT}")
        ctx.need(m is not None, PT)
        k, got = table_value(pe, lambda ev: ev.lookup(gname, ev.module_env(m)))
        ctx.count("enumeration tables")
        if k == "set" and got != set(vals[c].values()):
            ctx.report("P14.all", gname, m.rel, f"{gname} lacks {sorted(set(vals[c].values()) - got)} and adds {sorted(got - set(vals[c].values()))}")
        elif k != "set":
            ctx.undec(f"{gname}: {got}")
    # Histories: no call, and no change a caller makes to the set it got, changes what later calls give.
    ctx.rule("P14.history", "the answers do not depend on earlier calls, nor on what a caller does with the set it was given")
    calls = [(fn, c, n) for c, fn in ((oc, by_os), (ac, by_arch)) for n in vals[c]]

    def history(ev: Any, spoil: bool) -> list:
        out = []
        for rnd in range(2):
            for fn, c, n in calls:
                v = ev.call(fn, [ev.enum_members(c)[n]], {})
                out.append((fn, n, rnd, names(v)))
                if spoil and isinstance(v, set):
                    v.clear()
        return out

    for spoil in (False, True):
        for r in pe.explore(lambda ev: history(ev, spoil)):
            if r.kind == "undec":
                ctx.undec(f"history of calls: {r.value}")
                continue
            if r.kind == "exc":
                if not r.asm:
                    ctx.report("P14.history", "history of calls", spot(by_os), f"a history of calls raises {show(r.value)}")
                continue
            bad: set = set()
            for fn, n, rnd, got in r.value:
                ctx.count("calls in histories")
                c = oc if fn is by_os else ac
                pref = vals[c][n]
                known = OS_OF if c is oc else ARCH_OF
                if pref not in known or got is None or (fn, n) in bad:
                    continue
                want = {x for x in plats if x.startswith(OS_OF[pref])} if c is oc else {x for x in plats if x.split("-", 1)[-1] in ARCH_OF[pref]}
                if got != want:
                    bad.add((fn, n))
                    ctx.report("P14.history", f"{fn.name}({c.name}.{n}) after other calls", spot(fn),
                               f"{fn.name}({c.name}.{n}) gives {sorted(got)} after the other members were asked for" + (" and their sets emptied by the caller" if spoil else ""))
    # Every platform lies in exactly one of linux, osx, win (unix being their union is part of the table rule).
    ctx.functions |= pe.functions
    return (f"Constant evaluation of get_platforms_by_os and get_platforms_by_arch on every member ({len(vals[oc])} operating systems, {len(vals[ac])} architectures, "
            f"{len(plats)} platforms), on its text in four spellings, on names that are neither and in two histories of calls (the second with a caller that empties the sets it gets), against the platform names; and of the ALL_* tables.")


def enum_of(pe: PEval, c: ClassInfo) -> dict:
    out: dict = {}
    for r in pe.explore(lambda ev: ev.enum_members(c)):
        if r.kind == "ret":
            out = dict(r.value)
    return out


# ---- P12 -------------------------------------------------------------------------------------------------------------


class SelHooks(Hooks):
    """The sets that operating systems and architectures stand for are replaced by given ones."""

    max_steps = 40_000

    def __init__(self, os_short: str, arch_short: str, sets: dict) -> None:
        self.fns = (os_short, arch_short)
        self.sets = sets
        self.plat: Optional[ClassInfo] = None
        self.hits: set = set()

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if self.sets and name in self.fns:
            a = args[0] if args else next(iter(kw.values()), None)
            if isinstance(a, str) and str(a).strip().lower() in self.sets:
                k = str(a).strip().lower()
                self.hits.add(k)
                ms = ev.enum_members(self.plat)
                return {ms[n] for n in self.sets[k]}
        return NotImplemented


Expr = Any  # ("a", i) | ("not", e) | ("and", l, r) | ("or", l, r)


def shapes(k: int, nots: int):
    """(tokens, expression) for k operands: operands are indices, prefixes of `not`, and/or between; the expression is what the precedence rules say."""
    for ns in itertools.product(range(nots + 1), repeat=k):
        for ops in itertools.product(("and", "or"), repeat=k - 1):
            toks: list = []
            leaves: list = []
            for i in range(k):
                e: Expr = ("a", i)
                toks += ["not"] * ns[i] + [i]
                for _ in range(ns[i]):
                    e = ("not", e)
                leaves.append(e)
                if i < k - 1:
                    toks.append(ops[i])
            terms = [leaves[0]]
            for i, o in enumerate(ops):
                if o == "and":
                    terms[-1] = ("and", terms[-1], leaves[i + 1])
                else:
                    terms.append(leaves[i + 1])
            e = terms[0]
            for t in terms[1:]:
                e = ("or", e, t)
            yield toks, e


def value(e: Expr, sets: list, allp: set) -> set:
    if e[0] == "a":
        return sets[e[1]]
    if e[0] == "not":
        return allp - value(e[1], sets, allp)
    a, b = value(e[1], sets, allp), value(e[2], sets, allp)
    return a & b if e[0] == "and" else a | b


def words(e: Expr, ws: list) -> str:
    if e[0] == "a":
        return ws[e[1]]
    if e[0] == "not":
        return f"not {words(e[1], ws)}"
    return f"({words(e[1], ws)} {e[0]} {words(e[2], ws)})"


@check("P12")
def p12(ctx: Ctx) -> str:
    p = ctx.p
    sp = p.cls("parser.selector_parser.SelectorParser")
    sv, pc = p.cls("parser.enums.SchemaVersion"), p.cls(f"{PT}.Platform")
    oc, ac = p.cls(f"{PT}.OperatingSystem"), p.cls(f"{PT}.Arch")
    qc = p.cls("parser.selector_query.SelectorQuery")
    by_os, by_arch = p.fn(f"{PT}.get_platforms_by_os"), p.fn(f"{PT}.get_platforms_by_arch")
    for x, w in ((sp, "SelectorParser"), (sv, "SchemaVersion"), (pc, "Platform"), (qc, "SelectorQuery"), (by_os, "get_platforms_by_os"), (oc, "OperatingSystem"),
                 (ac, "Arch"), (by_arch, "get_platforms_by_arch")):
        ctx.need(x is not None, w)
    for m in ("get_selected_platforms", "does_selector_apply", "render"):
        ctx.need(sp.find_method(m) is not None, f"SelectorParser.{m}")
    ctx.rule("P12.expr", "not binds tighter than and, and tighter than or; they are complement, intersection and union of platform sets")
    ctx.rule("P12.leaf", "an operating system, architecture or platform stands for its platforms, ignoring case; any other word for none")
    ctx.rule("P12.total", "no sequence of words makes parsing, evaluating or rendering a selector raise")
    ctx.rule("P12.text", "a V0 selector may be bracketed, means the same either way and renders bracketed; a V1 selector renders verbatim")
    ctx.rule("P12.apply", "a selector applies to a query without platform, and to a platform exactly when it selects it")

    gsp = sp.find_method("get_selected_platforms")
    base = PEval(p)
    mem = {c: {n: str(m) for n, m in enum_of(base, c).items()} for c in (oc, ac, pc)}
    order = sorted(mem[pc])
    allp = set(mem[pc].values())
    ctx.need(len(order) >= 8, "platforms")

    def build(text: str, ver: str, then: Callable) -> Callable:
        def b(ev: PEval) -> Any:
            s = ev.construct(sp, [text, ev.enum_members(sv)[ver]], {})
            return then(ev, s)
        return b

    def plats(ev: PEval, s: Any) -> Any:
        return ev.call(ev.getattr(s, "get_selected_platforms"), [], {})

    def judge(rule: str, pe: PEval, label: str, text: str, ver: str, want: set, why: str) -> None:
        k, got = table_value(pe, build(text, ver, plats))
        if k is None:
            ctx.undec(f"{label}: {got}")
        elif k == "exc":
            ctx.report("P12.total", f"SelectorParser({label})", spot(gsp), f"evaluating the selector '{text}' raises {got}")
        elif got != want:
            ctx.report(rule, f"SelectorParser({label})", spot(gsp), f"the selector '{text}' means {why}, but the parser's result is that of a different expression: "
                       f"it lacks {sorted(want - got)[:4]} and adds {sorted(got - want)[:4]}")
        else:
            ctx.sample({"selector": text, "means": why})

    # 1. Operators: operands in general position.
    import random

    rnd = random.Random(12)
    atoms = [v for v in list(mem[oc].values()) + list(mem[ac].values())]
    max_k = 5 if ctx.tier == "thorough" else 4
    ctx.need(len(atoms) >= max_k, "qualifiers")
    n = 0
    looked: list = []
    for k in range(1, max_k + 1):
        ws_all = [atoms[i % len(atoms)] for i in range(k)] if k > 1 else None
        # cells of the Venn diagram of k sets, spread over the platforms; several rounds cover all cells
        cells = list(range(2 ** k))
        rounds = [cells[i:i + len(order)] for i in range(0, len(cells), len(order))] if len(cells) > len(order) else [cells]
        for mix in range(2 if k > 1 else len(atoms)):
            ws = [atoms[mix]] if k == 1 else (ws_all if mix == 0 else [atoms[-1 - (i % len(atoms))] for i in range(k)])
            for cs in rounds:
                cs = (cs + cells * len(order))[: len(order)]
                rnd.shuffle(cs)
                sets_n = {w: {order[j] for j, c in enumerate(cs) if c >> i & 1} for i, w in enumerate(ws)}
                h = SelHooks(by_os.short, by_arch.short, sets_n)
                h.plat = pc
                pe = PEval(p, h)
                sets = [{mem[pc][x] for x in sets_n[w]} for w in ws]
                if k == 1:
                    table_value(pe, build(ws[0], "V0", plats))
                    if ws[0] not in h.hits:
                        ctx.undec(f"operand {ws[0]} is not looked up through get_platforms_by_os or get_platforms_by_arch")
                        continue
                    looked.append(ws[0])
                elif any(w not in looked for w in ws):
                    continue
                for toks, e in shapes(k, 2 if k <= 3 else 1):
                    text = " ".join(ws[t] if isinstance(t, int) else t for t in toks)
                    n += 1
                    ctx.guard(text, lambda: judge("P12.expr", pe, " ".join(f"<{t}>" if isinstance(t, int) else t for t in toks), f"[{text}]", "V0",
                                                  value(e, sets, allp), words(e, ws)))
                ctx.functions |= pe.functions
    ctx.count("operator expressions", n)

    # 2. Leaves, with the real tables.
    def real(w: str) -> set:
        lw = w.lower()
        if lw in mem[pc].values():
            return {lw}
        fn = by_os if lw in mem[oc].values() else by_arch if lw in mem[ac].values() else None
        if fn is None:
            return set()
        k, got = table_value(base, lambda ev: ev.call(fn, [lw], {}))
        return got if k == "set" else {"?"}

    leaves = list(mem[oc].values()) + list(mem[ac].values()) + list(mem[pc].values())
    for w in leaves + [x.upper() for x in leaves] + ["foo", "py>=38", "py3k", "linux-", "linux64", "(osx", "osx,win", "android", "true", "True", "1"]:
        for ver, text in (("V0", f"[{w}]"), ("V0", w), ("V1", w)):
            ctx.count("single qualifiers")
            want = real(w)
            if "?" in want:
                continue
            ctx.guard(w, lambda: judge("P12.leaf", base, text, text, ver, want, f"the platforms of {w}" if want else "no platforms"))
    for a, b in (("OSX and ARM64", "osx and arm64"), ("osx AND arm64", "osx and arm64"), ("Not Win", "not win"), ("osx Or win", "osx or win"), ("linux-64 or win", None),
                 ("not linux-64", None), ("foo or osx", None), ("foo and osx", None), ("not foo", None), ("linux and x86_64 and not linux-64", None),
                 ("not foo and linux-64 or win", None)):
        toks = (b or a).split()
        ws = [t for t in toks if t not in ("and", "or", "not")]
        flat = [len(ws[: sum(1 for u in toks[:i] if u not in ("and", "or", "not"))]) if t not in ("and", "or", "not") else t for i, t in enumerate(toks)]
        e = next((e for ts, e in shapes(len(ws), 1) if ts == flat), None)
        if e is None or any("?" in real(w) for w in ws):
            continue
        ctx.count("mixed expressions")
        ctx.guard(a, lambda: judge("P12.leaf" if b else "P12.expr", base, a, f"[{a}]", "V0", value(e, [real(w) for w in ws], allp), words(e, ws)))

    # 3. Totality.
    vocab = ["not", "and", "or", "osx", "foo"]
    seqs = [t for k in range(0, 5 if ctx.tier == "thorough" else 4) for t in itertools.product(vocab, repeat=k)]
    seqs += [tuple(x.split()) for x in ("( osx", "osx )", "[ osx", "] [", "[", "]", "[]", "[[osx]]", "not not not not osx", "and and or or not not", "osx win linux unix")]
    for t in seqs:
        text = " ".join(t)
        for ver, txt in (("V0", f"[{text}]"), ("V1", text)):
            ctx.count("word sequences")
            for what, then in (("evaluating", plats), ("rendering", lambda ev, s: ev.call(ev.getattr(s, "render"), [], {}))):
                if what == "rendering" and len(t) > 2:
                    continue
                for r in base.explore(build(txt, ver, then)):
                    if r.kind == "exc":
                        ctx.report("P12.total", f"SelectorParser: {what}", spot(sp), f"{what} the {ver} selector '{txt}' raises {show(r.value)}")
                    elif r.kind == "undec":
                        ctx.undec(f"{what} '{txt}': {r.value}")

    # 4. Text.
    for ver, text, want in (("V0", "[osx and arm64]", "[osx and arm64]"), ("V0", "osx and arm64", "[osx and arm64]"), ("V0", "[osx]", "[osx]"),
                            ("V0", "[not win]", "[not win]"), ("V0", "[py>=38]", "[py>=38]"),
                            ("V1", "osx and arm64", "osx and arm64"), ("V1", "not win", "not win"), ("V1", "py>=38", "py>=38")):
        ctx.count("rendered selectors")
        for r in base.explore(build(text, ver, lambda ev, s: ev.call(ev.getattr(s, "render"), [], {}))):
            if r.kind == "ret" and isinstance(r.value, str) and r.value != want:
                ctx.report("P12.text", f"SelectorParser.render ({ver})", spot(sp.find_method("render")), f"the {ver} selector '{text}' renders as '{r.value}', not '{want}'")
            elif r.kind == "undec":
                ctx.undec(f"render {text}: {r.value}")

    # 5. does_selector_apply.
    dsa = sp.find_method("does_selector_apply")
    for text in ("osx", "not win", "linux and not arm64", "foo", "linux-64", "x86"):
        k, sel = table_value(base, build(f"[{text}]", "V0", plats))
        if k != "set":
            continue
        for pn in [None] + order:
            def ask(ev: PEval, s: Any, pn=pn) -> Any:
                q = ev.construct(qc, [] if pn is None else [], {} if pn is None else {"platform": ev.enum_members(pc)[pn]})
                return ev.truth(ev.call(ev.getattr(s, "does_selector_apply"), [q], {}))
            want_b = True if pn is None else mem[pc][pn] in sel
            ctx.count("selector queries")
            for r in base.explore(build(f"[{text}]", "V0", ask)):
                if r.kind == "exc":
                    ctx.report("P12.apply", "does_selector_apply", spot(dsa), f"asking whether '[{text}]' applies to {pn or 'an empty query'} raises {show(r.value)}")
                elif r.kind == "ret" and r.value is not want_b:
                    ctx.report("P12.apply", "does_selector_apply", spot(dsa), f"'[{text}]' {'does not apply' if want_b else 'applies'} to "
                               f"{'a query without platform' if pn is None else mem[pc][pn]}, although it {'does' if want_b else 'does not'}")
                elif r.kind == "undec":
                    ctx.undec(f"{text} on {pn}: {r.value}")
    # 6. Histories: evaluating a selector again, or after others, or after the caller emptied the set it got, gives the same.
    ctx.rule("P12.history", "what a selector means does not depend on the selectors evaluated before it, nor on what a caller does with the set it was given")
    texts = ["osx", "unix", "not foo", "win or linux", "not win", "osx and arm64", "unix or win", "not not osx", "x86_64", "x86", "linux-64", "not linux and not win"]
    alone: dict = {}
    for t in texts:
        k, got = table_value(base, build(f"[{t}]", "V0", plats))
        if k == "set":
            alone[t] = got

    def series(ev: PEval, spoil: bool) -> list:
        out = []
        objs = [(t, ev.construct(sp, [f"[{t}]", ev.enum_members(sv)["V0"]], {})) for t in texts]
        for _ in range(2):
            for t, o in objs:
                v = plats(ev, o)
                out.append((t, names(v)))
                ev.call(ev.getattr(o, "render"), [], {})
                if spoil and isinstance(v, set):
                    v.clear()
        return out

    for spoil in (False, True):
        for r in base.explore(lambda ev: series(ev, spoil)):
            if r.kind != "ret":
                ctx.undec(f"history: {show(r.value)}")
                continue
            told: set = set()
            for t, got in r.value:
                ctx.count("evaluations in histories")
                if t in alone and got is not None and got != alone[t] and t not in told:
                    told.add(t)
                    ctx.report("P12.history", f"SelectorParser({t}) after other selectors", spot(gsp),
                               f"'[{t}]' selects {sorted(alone[t])} alone, but {sorted(got)} after other selectors were evaluated" + (" and their sets emptied by the caller" if spoil else ""))
    ctx.functions |= base.functions
    return (f"Partial evaluation of SelectorParser on every expression of up to {max_k} operands with up to two `not` each, the operands' platform sets replaced by sets in "
            "general position (so the result identifies the set expression), on every qualifier alone with the real tables, and on every word sequence up to the bound "
            "for totality; the queries on every platform.")
