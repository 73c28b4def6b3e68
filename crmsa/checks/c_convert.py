"""C05: convert; C09: success threshold and accounting of the bulk commands."""

from __future__ import annotations

from typing import Any, Optional

from ..facts import enum_value
from ..interp import Event, kpath
from ..model import FuncInfo
from ..report import Ctx, check
from ..values import EMPTY, K, NONE, Rec, State, T_BOOL, T_INT, T_PATH, T_STR, Term, ct, is_k, kv, members, mk, show, tup, xt
from ._cmd import CmdHooks, Mon, Outcome, exit_codes, mon, outcomes, put, sym
from ._common import finish, mentions, strip_path, trace_lines
from ..interp import Interp

CONVERTER = "parser.recipe_parser_convert.RecipeParserConvert"
STAGES = {"read": "READ_EXCEPTION", "pre-process": "PRE_PROCESS_EXCEPTION", "parse": "PARSE_EXCEPTION", "schema": "ILLEGAL_OPERATION",
          "convert": "RENDER_EXCEPTION"}
ANY = ["builtins.ValueError", "builtins.KeyError", "builtins.IndexError", "builtins.TypeError", "builtins.AttributeError",
       "builtins.NotImplementedError", "builtins.AssertionError", "yaml.YAMLError", "builtins.Exception"]


class ConvHooks(CmdHooks):
    """
    The conversion library as an automaton. `plan` maps an input file to what happens to it: a stage that fails, or a pair
    (number of errors, number of warnings). Without a plan everything is possible.
    """

    def __init__(self, p: Any, plan: Optional[dict] = None, files: Optional[list] = None, isdir: Optional[bool] = None,
                 counts: tuple = (0, 1, 2), **kw: Any) -> None:
        super().__init__(p, **kw)
        self.plan, self.files, self.isdir, self.counts = plan, files, isdir, counts
        self.msgs = p.cls("types.MessageTable")
        self.cat = p.cls("types.MessageCategory")
        self.schema = p.cls("parser.enums.SchemaVersion")
        self.converter = p.cls(CONVERTER)

    # -- which input the run is at
    def cur(self, st: State) -> Any:
        for f in reversed(mon(st).flags):
            if f[0] == "file":
                return f[1]
        return None

    def flag(self, st: State, *f: Any) -> None:
        m = mon(st)
        if f not in m.flags:
            st.mon = m._replace(flags=m.flags + (f,))

    def stage_fails(self, st: State, stage: str) -> Optional[bool]:
        """True: certainly; False: certainly not; None: may."""
        if self.plan is None:
            return None
        return self.plan.get(self.cur(st)) == stage

    def opaque_raises(self, fi: FuncInfo) -> list:
        return []

    def ext_raises(self, name: str, ev: Event) -> list:
        if self.plan is not None:
            return []
        return super().ext_raises(name, ev)

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        last = name.rsplit(".", 1)[-1]
        if name in ("pathlib.Path.read_text", "pathlib.Path.read_bytes", "builtins.open", "io.open", "pathlib.Path.open") and \
                not (name.endswith("open") and _writes(args, kwargs, name)):
            f = recv if recv is not None and name.startswith("pathlib") else args[0] if args else None
            if f is not None:
                f = strip_path(f)
                self.flag(st, "file", f)
                if self.plan is not None:
                    fl = self.stage_fails(st, "read")
                    if fl:
                        return self._fail(I, st, "read", ["builtins.OSError"], node, fr, X)
                    if not name.endswith("open"):
                        return [(st, mk("pure", "text", (f,), typ=T_STR))]
            return None
        if name in ("pathlib.Path.is_dir", "pathlib.Path.is_file", "os.path.isdir", "os.path.isfile") and self.isdir is not None:
            return [(st, K(self.isdir == last.replace("_", "").endswith("dir")))]
        if name in ("pathlib.Path.rglob", "pathlib.Path.glob") and self.files is not None:
            return [(st, I.fresh(st, node, fr, "list", tuple(kpath(f) for f in self.files)))]
        fi = self.p.funcs.get(name)
        if fi is not None and fi.cls is not None and self.converter.issub(fi.cls):
            if last == "pre_process_recipe_text":
                return self._may(I, st, "pre-process", node, fr, X, mk("pure", "pre_processed", args, typ=T_STR))
            if last == "get_schema_version":
                return self._schema(I, st)
            if last == "render_to_v1_recipe_format":
                self.flag(st, "converted", self.cur(st))
                c = self.cur(st) or K("?")
                return self._may(I, st, "convert", node, fr, X, tup((
                    mk("pure", "convert.text", (c,), typ=T_STR), mk("pure", "convert.msgs", (c,), typ=ct(self.msgs)),
                    mk("pure", "convert.debug", (c,), typ=ct(self.p.cls("parser.recipe_parser.RecipeParser"))))))
        if fi is None and name in self.p.classes and self.p.classes[name].issub(self.reader):
            return self._may(I, st, "parse", node, fr, X, mk("call", name, args, typ=ct(self.p.classes[name])))
        if recv is not None and recv.op == "pure" and recv.args[0] == "convert.msgs":
            return self._messages(I, st, last, recv, args, kwargs, node, fr)
        return super().model(I, st, name, recv, args, kwargs, node, fr, X)

    def _fail(self, I, st, stage, excs, node, fr, X) -> list:
        self.flag(st, "fail", stage, self.cur(st))
        for c in excs:
            s = st.fork()
            exc = I.mk_exc(c, node, fr)
            I.emit(s, Event("raise", f"{stage} fails", None, (), {}, node, fr.fi, fr.ctx, exc))
            X.append((s, exc))
        return []

    def _may(self, I, st, stage, node, fr, X, v) -> list:
        f = self.stage_fails(st, stage)
        if f is not False:
            s = st.fork()
            self._fail(I, s, stage, ANY, node, fr, X)
            if f:
                return []
        return [(st, v)]

    def _schema(self, I, st) -> list:
        out = []
        f = self.stage_fails(st, "schema")
        for m in ("V0", "V1"):
            if f is not None and f != (m == "V1"):
                continue
            s = st.fork()
            if m == "V1":
                self.flag(s, "fail", "schema", self.cur(s))
            out.append((s, mk("enum", self.schema, m, typ=ct(self.schema))))
        return out

    def _messages(self, I, st, last, recv, args, kwargs, node, fr) -> Optional[list]:
        a = list(args) + list(kwargs.values())
        if last == "get_totals_message":
            return [(st, mk("pure", "totals", (recv,), typ=T_STR))]
        if last not in ("get_message_count", "get_messages") or not a or a[0].op != "enum":
            return None
        cat = a[0].args[1]
        have = next((f for f in mon(st).flags if f[0] == "msgs" and f[1] == cat and f[2] is recv), None)
        if have is not None:
            ns = [have[3]]
        elif self.plan is not None:
            w = self.plan.get(recv.args[1][0])
            ns = [w[0] if cat == "ERROR" else w[1] if cat == "WARNING" else 0] if isinstance(w, tuple) else [0]
        elif cat == "EXCEPTION":
            ns = [0]
        else:
            ns = list(self.counts)
        out = []
        for n in ns:
            s = st.fork()
            if have is None:
                self.flag(s, "msgs", cat, recv, n)
            if last == "get_message_count":
                out.append((s, K(n)))
            else:
                els = tuple(K(f"{cat}{i}") for i in range(n))
                out.append((s, I.fresh(s, node, fr, "list", els, tag=f":{cat}{n}")))
        return out


def _writes(args: tuple, kwargs: dict, name: str) -> bool:
    i = 0 if name.startswith("pathlib") else 1
    m = kwargs.get("mode") or (args[i] if len(args) > i else None)
    return m is not None and not (is_k(m) and isinstance(kv(m), str) and not any(c in kv(m) for c in "wax+"))


# ---------------------------------------------------------------------------------------------------------------- C05


def _stage(m: Mon, evs: Any) -> Optional[str]:
    for f in m.flags:
        if f[0] == "fail":
            return f[1]
    return None


def _count(m: Mon, cat: str) -> Optional[int]:
    return next((f[3] for f in m.flags if f[0] == "msgs" and f[1] == cat), None)


def _names(v: Term) -> list:
    """ExitCode members a value may be (None: unknown)."""
    return [x.args[1] if x.op == "enum" else None for x in members(v)]


class _Read:
    """Marks a failing read of the input as a failed stage."""

    def __init__(self, h: ConvHooks) -> None:
        self.h = h

    def __call__(self, st: State, ev: Event, I: Interp) -> None:
        if ev.kind == "exc" and ev.name in ("pathlib.Path.read_text", "pathlib.Path.read_bytes", "io.IO.read", "builtins.open",
                                            "pathlib.Path.open") and not mon(st).wfail:
            if not any(f[0] in ("converted", "fail") for f in mon(st).flags):
                self.h.flag(st, "fail", "read", self.h.cur(st))


@check("C05")
def c05(ctx: Ctx) -> str:
    ctx.rule("failure-code", "a failing read, pre-processing, parse or conversion, and an input that is not in the V0 format, is reported with the "
             "code of that stage and never escapes")
    ctx.rule("failure-output", "after such a failure nothing is written or printed to standard output")
    ctx.rule("severity", "errors outrank warnings, warnings outrank success")
    ctx.rule("input-untouched", "the input recipe is never written; only the requested output file is")
    ctx.rule("content", "what is written or printed is the converted recipe")
    ctx.rule("destination", "the result goes to the output file when one is given, and is printed otherwise")
    ctx.rule("exit", "in single-file mode the process ends with the code of the result")
    ctx.rule("bulk-destination", "in bulk mode the result is written next to its input file")
    p = ctx.p
    codes = p.cls("commands.utils.types.ExitCode")
    ctx.need(all(m in codes.enum_members() for m in list(STAGES.values()) + ["SUCCESS", "RENDER_WARNINGS", "RENDER_ERRORS"]),
             "ExitCode members changed")
    n = 0
    for has_out in (True, False):
        for pr in (True, False):
            def body() -> None:
                nonlocal n
                h = ConvHooks(p, keep=("out", "writes", "wfail", "flags"))
                h.user_on = _Read(h)
                I = Interp(p, h)
                fi = p.fn("commands.convert.convert_file")
                st = State()
                a = I.entry_args(fi)
                ctx.need({"file_path", "output", "print_output"} <= set(a), "convert_file's parameters changed")
                inp = a["file_path"] = sym(st, "file_path", T_PATH)
                out = a["output"] = sym(st, "output", T_PATH) if has_out else NONE
                a["print_output"] = K(pr)
                res = I.run(fi, a, st)
                what = f"convert_file, {'output file' if has_out else 'no output file'}, {'printing' if pr else 'silent'}"
                for kind, s, v in res:
                    n += 1
                    m = mon(s)
                    if kind == "exc":
                        if not m.wfail:
                            ctx.report("failure-code", f"convert_file: {_stage(m, None)} fails", fi.loc(),
                                       f"a failing {_stage(m, None) or 'step'} escapes as {I.exc_name(v)}", trace_lines(s))
                        continue
                    for o in members(v):
                        r = s.heap.get(o) if o.op == "obj" else None
                        code = r.fields.get("code") if r is not None and r.kind == "inst" else None
                        for nm in _names(code) if code is not None else [None]:
                            _c05(ctx, fi, s, m, nm, inp, out, pr, "convert_file")
                        if _stage(m, None) is None and r is not None:
                            c = r.fields.get("content")
                            if c is not None and all(x.op == "K" for x in members(c)):
                                ctx.report("content", "convert_file: result", fi.loc(), "the result of a successful conversion has no content",
                                           trace_lines(s))
                finish(ctx, I, what)

            ctx.guard(f"convert_file {has_out} {pr}", body)

    def single() -> None:
        nonlocal n
        for has_out in (True, False):
            h = ConvHooks(p, isdir=False, keep=("out", "writes", "wfail", "flags"))
            h.user_on = _Read(h)
            I = Interp(p, h)
            fi = p.fn("commands.convert.convert")
            st = State()
            a = I.entry_args(fi)
            ctx.need({"path", "output"} <= set(a), "convert's parameters changed")
            inp = a["path"] = sym(st, "path", T_PATH)
            out = a["output"] = sym(st, "output") if has_out else NONE
            for kind, s, v in I.run(fi, a, st):
                n += 1
                m = mon(s)
                names: list = []
                if kind == "ret":
                    names = ["SUCCESS"]
                else:
                    for e in members(v):
                        if e.op == "exc" and e.args[0] == "builtins.SystemExit" and len(e.args) > 1:
                            names += [codes_of(x, codes) for x in members(e.args[1])]
                        elif not m.wfail:
                            ctx.report("exit", f"convert: {_stage(m, None)}", fi.loc(),
                                       f"a failing {_stage(m, None) or 'step'} escapes as {I.exc_name(e)}", trace_lines(s))
                for nm in names:
                    _c05(ctx, fi, s, m, nm, inp, out, True, "convert")
            finish(ctx, I, "convert, single file")

    ctx.guard("convert, single file", single)

    def bulk() -> None:
        nonlocal n
        files = ["/in/a/x/meta.yaml", "/in/b/y/meta.yaml"]
        for out in (K("recipe.yaml"), NONE):
            ok = {kpath_key(f): (0, 0) for f in files}
            h = ConvHooks(p, plan=ok, files=files, isdir=True, keep=("out", "writes", "wfail", "flags"))
            I = Interp(p, h)
            fi = p.fn("commands.convert.convert")
            st = State()
            a = I.entry_args(fi)
            a["path"], a["output"] = kpath("/in"), out
            for o in outcomes(I.run(fi, a, st), I):
                n += 1
                if out is NONE:
                    if o.m.writes:
                        ctx.report("bulk-destination", "convert: no output", fi.loc(), "bulk mode without an output name writes a file",
                                   trace_lines(o.st))
                    continue
                for t, c in o.m.writes:
                    t = strip_path(t)
                    ctx.count("bulk_writes")
                    if is_k(t) and c is not None and c.op == "pure" and c.args[0] == "convert.text":
                        src = kv(c.args[1][0])
                        want = src.rsplit("/", 1)[0] + "/recipe.yaml"
                        if kv(t) != want:
                            ctx.report("bulk-destination", f"convert: {src}", fi.loc(), f"the conversion of {src} is written to {kv(t)}",
                                       trace_lines(o.st))
                    if is_k(t) and kv(t) in files:
                        ctx.report("input-untouched", f"convert: {kv(t)}", fi.loc(), "bulk mode overwrites an input file", trace_lines(o.st))
                if len(o.m.writes) < len(files) and o.codes != [1]:
                    ctx.report("bulk-destination", "convert: missing", fi.loc(), "a converted recipe is not written", trace_lines(o.st))
            finish(ctx, I, "convert, bulk")

    ctx.guard("convert, bulk", bulk)
    ctx.need(n > 0 or bool(ctx.errors or ctx.truncated), "no outcome of convert in the model")
    ctx.count("outcomes", n)
    return ("convert_file is interpreted abstractly for every output mode with every stage allowed to fail with any exception and every number of errors and "
            "warnings (0, 1, many); the whole command is interpreted in single-file and bulk mode.")


def kpath_key(f: str) -> Term:
    return K(f)


def codes_of(x: Term, codes: Any) -> Optional[str]:
    if x.op == "enum":
        return x.args[1]
    if x is NONE:
        return "SUCCESS"
    if is_k(x):
        for m in codes.enum_members():
            if enum_value(mk("enum", codes, m, typ=ct(codes))) == kv(x):
                return m
    return None


def _c05(ctx: Ctx, fi: FuncInfo, s: State, m: Mon, code: Optional[str], inp: Term, out: Term, pr: bool, fn: str) -> None:
    stage = _stage(m, None)
    has_out = out is not NONE
    if stage is not None:
        if code is not None and code != STAGES[stage]:
            ctx.report("failure-code", f"{fn}: {stage} -> {code}", fi.loc(), f"a failing {stage} stage is reported as {code}, not "
                       f"{STAGES[stage]}", trace_lines(s))
        if m.writes:
            ctx.report("failure-output", f"{fn}: {stage}: file", fi.loc(), f"writes a file although the {stage} stage failed", trace_lines(s))
        if m.out:
            ctx.report("failure-output", f"{fn}: {stage}: stdout", fi.loc(), f"prints to standard output although the {stage} stage failed",
                       trace_lines(s))
        return
    e, w = _count(m, "ERROR"), _count(m, "WARNING")
    want = None
    if e:
        want = "RENDER_ERRORS"
    elif e == 0 and w:
        want = "RENDER_WARNINGS"
    elif e == 0 and w == 0:
        want = "SUCCESS"
    if want is not None and code is not None and code != want and not m.wfail:
        ctx.report("severity", f"{fn}: {want}", fi.loc(), f"with {e} errors and {w} warnings the code is {code}", trace_lines(s))
    if code == "SUCCESS" and (e is None or w is None) and not m.wfail and any(f[0] == "converted" for f in m.flags):
        other = [f for f in m.flags if f[0] == "msgs"]
        ctx.report("severity", f"{fn}: unchecked", fi.loc(), f"ends with SUCCESS without looking at the {'errors' if e is None else 'warnings'} "
                   "of the conversion" + (f" ({len(other)} queries)" if other else ""), trace_lines(s))
    for t, c in m.writes:
        t = strip_path(t)
        if t is inp:
            ctx.report("input-untouched", f"{fn}: input", fi.loc(), "the input recipe is written", trace_lines(s))
        elif t is not out and (is_k(t) or t.op == "param"):
            ctx.report("input-untouched", f"{fn}: {show(t)}", fi.loc(), f"writes {show(t)} instead of the output file", trace_lines(s))
        if c is not None and not m.wfail:
            if c.op == "opened":
                ctx.report("content", f"{fn}: truncated", fi.loc(), "the output file is opened but nothing is written", trace_lines(s))
            elif not _text(c) and (is_k(c) or not mentions(c, lambda q: q.op in ("top",))):
                ctx.report("content", f"{fn}: file", fi.loc(), f"writes `{show(c)[:60]}` instead of the converted recipe", trace_lines(s))
    if m.wfail:
        return
    if has_out and not any(strip_path(t) is out for t, _ in m.writes):
        if not m.writes:
            ctx.report("destination", f"{fn}: not written", fi.loc(), "a successful conversion does not write the requested output file",
                       trace_lines(s))
    printed = [x for pr_ in m.out for x in pr_]
    if not has_out and pr and not any(_text(x) for x in printed):
        ctx.report("destination", f"{fn}: not printed", fi.loc(), "a successful conversion without an output file is not printed", trace_lines(s))
    if (has_out or not pr) and any(_text(x) for x in printed):
        ctx.report("destination", f"{fn}: printed", fi.loc(), "the conversion is printed although it "
                   + ("goes to a file" if has_out else "runs silently"), trace_lines(s))
    for x in printed:
        if not _text(x) and not (x.op == "top"):
            ctx.report("content", f"{fn}: stdout", fi.loc(), f"prints `{show(x)[:60]}` to standard output", trace_lines(s))


def _text(c: Term) -> bool:
    return mentions(c, lambda q: q.op == "pure" and q.args[0] == "convert.text")


# ---------------------------------------------------------------------------------------------------------------- C09

FILES = ["/in/a/x/meta.yaml", "/in/a/y/meta.yaml", "/in/b/y/meta.yaml"]


def conc(v: Any, st: State, d: int = 0) -> Any:
    """Concrete value of a term; unresolved parts stay terms."""
    if d > 8 or not isinstance(v, Term):
        return v
    if is_k(v):
        return kv(v)
    if v.op == "tup":
        return [conc(x, st, d + 1) for x in v.args[0]]
    if v.op == "enum":
        e = enum_value(v)
        return e if e is not None else v
    if v.op == "obj":
        r = st.heap.get(v)
        if r is not None and r.summ is None and not r.weak:
            if r.kind == "dict":
                out = {}
                for k, x in r.fields.items():
                    kk = conc(k, st, d + 1)
                    out[kk] = conc(x, st, d + 1)
                return out
            if r.kind in ("list", "set") and r.elems is not None:
                return [conc(x, st, d + 1) for x in r.elems]
    return v


class Bulk:
    """One run of a bulk command over FILES."""

    def __init__(self, ctx: Ctx, fi: FuncInfo, h: ConvHooks, rate: float, extra: dict) -> None:
        self.docs: list = []
        h.user_on = self._on
        h.max_steps = 200_000
        I = Interp(ctx.p, h)
        st = State()
        a = I.entry_args(fi)
        ctx.need({"path", "min_success_rate"} <= set(a), f"{fi.name}'s parameters changed")
        a["path"], a["min_success_rate"] = kpath("/in"), K(rate)
        for k, v in extra.items():
            if k in a:
                a[k] = v
        if "ctx" in a:
            lst, cx = mk("obj", ("ctx.args",), typ=xt("builtins.list", T_STR)), mk("obj", ("ctx",), typ=xt("click.Context"))
            st.heap = st.heap.set(lst, Rec("list", None, EMPTY, (K("--test"),)))
            st.heap = st.heap.set(cx, Rec("inst", None, EMPTY.set("args", lst)))
            a["ctx"] = cx
        self.res = outcomes(I.run(fi, a, st), I)
        finish(ctx, I, fi.name)

    def _on(self, st: State, ev: Event, I: Interp) -> None:
        if ev.kind == "call" and ev.name in ("json.dumps", "json.dump") and ev.args:
            self.docs.append(conc(ev.args[0], st))


def _flat(d: Any) -> dict:
    out: dict = {}
    if isinstance(d, dict):
        for k, v in d.items():
            out[k] = v
            if isinstance(v, dict):
                for k2, v2 in _flat(v).items():
                    out.setdefault(k2, v2)
    return out


def _num(v: Any) -> bool:
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def _bulk_rules(ctx: Ctx, fi: FuncInfo, b: Bulk, good: int, rate: float, desc: str, want: dict) -> None:
    n = len(FILES)
    ctx.need(bool(b.res), f"{fi.name} has no outcome in the model")
    for o in b.res:
        ctx.count("outcomes")
        if len(b.res) == 1 and None not in o.codes:
            passed = o.codes == [0]
            if passed != (good / n >= rate):
                ctx.report("threshold", f"{fi.name}: {desc}: {good} of {n}, rate {rate}", fi.loc(),
                           f"{good} of {n} succeed with a minimum rate of {rate}: the run {o.how} with status {o.codes}", trace_lines(o.st))
        else:
            ctx.undec(f"{fi.name}: not resolved to a single path for {desc}")
    for d in b.docs if len(b.docs) == 1 else []:
        f = _flat(d)
        for k, w in want.items():
            v = f.get(k)
            if isinstance(w, (int, float)) and _num(v):
                ctx.count("statistics_checked")
                if v != w:
                    ctx.report("accounting", f"{fi.name}: {k}", fi.loc(), f"{desc}: `{k}` is {v}, not {w}")
            elif isinstance(w, list) and isinstance(v, list) and all(isinstance(x, str) for x in v):
                ctx.count("statistics_checked")
                if sorted(v) != sorted(w):
                    ctx.report("accounting", f"{fi.name}: {k}", fi.loc(), f"{desc}: `{k}` is {sorted(v)}, not {sorted(w)}")
            elif isinstance(w, dict) and isinstance(v, dict) and all(isinstance(x, str) and _num(y) for x, y in v.items()):
                ctx.count("statistics_checked")
                if v != w:
                    ctx.report("accounting", f"{fi.name}: {k}", fi.loc(), f"{desc}: `{k}` is {v}, not {w}")


def _rates(good: int, n: int) -> list:
    x = good / n
    return sorted({0.0, x, min(1.0, round(x + 0.003, 3)), max(0.0, round(x - 0.007, 3)), 0.8, 1.0})


@check("C09")
def c09(ctx: Ctx) -> str:
    ctx.rule("threshold", "the bulk commands end with status 0 if and only if the share of successful recipes among all recipe files found reaches the "
             "requested rate, without rounding")
    ctx.rule("accounting", "the reported statistics count every recipe file found exactly once, under the right outcome")
    ctx.rule("none-found", "a directory without recipe files is an error")
    p = ctx.p
    import itertools

    outs: dict = {"reads badly": "read", "pre-processing fails": "pre-process", "parse error": "parse", "V1 recipe": "schema",
                  "conversion fails": "convert", "clean": (0, 0), "warning": (0, 1), "error": (1, 0), "error and warning": (1, 1)}
    combos = [(a, "clean", "clean") for a in outs] + [(a, a, a) for a in outs if a != "clean"] + \
        [("clean", a, b) for a, b in itertools.combinations(outs, 2) if "clean" not in (a, b)][::3]
    conv = p.fn("commands.convert.convert")
    for i, combo in enumerate(combos):
        desc = ", ".join(combo)
        plan = {K(f): outs[o] for f, o in zip(FILES, combo)}
        vals = [outs[o] for o in combo]
        good = sum(1 for v in vals if isinstance(v, tuple) and v[0] == 0)
        rel = [f.removeprefix("/in/") for f in FILES]
        exc = [r for r, v in zip(rel, vals) if isinstance(v, str)]
        err = [r for r, v in zip(rel, vals) if isinstance(v, tuple) and v[0]]
        wrn = [r for r, v in zip(rel, vals) if isinstance(v, tuple) and v[1]]
        want = {"total_recipe_files": 3, "total_recipes_processed": 3, "num_recipe_success": good, "num_recipe_exceptions": len(exc),
                "num_recipe_errors": len(err), "num_recipe_warnings": len(wrn), "num_theoretical_recipe_success": good,
                "total_errors": len(err), "total_warnings": len(wrn), "recipes_with_exceptions": exc, "recipes_with_errors": err,
                "recipes_with_warnings": wrn, "percent_recipe_success": round(good / 3, 2), "percent_recipe_errors": round(len(err) / 3, 2),
                "percent_recipe_warnings": round(len(wrn) / 3, 2), "percent_recipe_exceptions": round(len(exc) / 3, 2),
                "error_histogram": {"ERROR0": len(err)} if err else {}, "warnings_histogram": {"WARNING0": len(wrn)} if wrn else {}}

        def body() -> None:
            for rate in _rates(good, 3) if i < len(outs) else [good / 3, 0.8]:
                ctx.count("configurations")
                h = ConvHooks(p, plan=plan, files=FILES, isdir=True, keep=("flags",))
                b = Bulk(ctx, conv, h, rate, {"output": NONE, "truncate": K(False), "debug": K(False)})
                _bulk_rules(ctx, conv, b, good, rate, desc, want)

        ctx.guard(f"convert: {desc}", body)

    ratt = p.fn("commands.rattler_bulk_build.rattler_bulk_build")
    routs = {"builds": 0, "fails": 1, "fails without a message": 255, "killed": -9, "builds with a message": "noise", "times out": "timeout", "cannot start": "oserror"}
    for i, combo in enumerate([(a, "builds", "builds") for a in routs] + [(a, a, a) for a in routs if a != "builds"] + [
            ("builds", "fails", "times out"), ("builds", "fails without a message", "killed"), ("builds with a message", "fails", "builds")]):
        desc = ", ".join(combo)
        rplan = {f: routs[o] for f, o in zip(FILES, combo)}
        good = sum(1 for v in rplan.values() if v in (0, "noise"))
        bad = [f.removeprefix("/in/") for f, v in rplan.items() if v not in (0, "noise")]
        want = {"total_recipe_files": 3, "total_recipes_processed": 3, "total_errors": 3 - good, "percent_success": round(good / 3, 2),
                "percent_errors": round((3 - good) / 3, 2), "recipes_with_build_error_code": bad}

        def body() -> None:
            for rate in _rates(good, 3) if i < len(routs) else [good / 3, 0.8]:
                ctx.count("configurations")
                h = RattlerHooks(p, rplan, keep=("flags",))
                b = Bulk(ctx, ratt, h, rate, {"truncate": K(False), "debug_log": NONE})
                _bulk_rules(ctx, ratt, b, good, rate, desc, want)

        ctx.guard(f"rattler-bulk-build: {desc}", body)

    def empty() -> None:
        for fi, h in ((conv, ConvHooks(p, plan={}, files=[], isdir=True, keep=("flags",))), (ratt, RattlerHooks(p, {}, keep=("flags",)))):
            b = Bulk(ctx, fi, h, 0.0, {"truncate": K(False)})
            for o in b.res:
                if 0 in o.codes:
                    ctx.report("none-found", fi.name, fi.loc(), "ends with status 0 although no recipe file was found", trace_lines(o.st))

    ctx.guard("no recipe files", empty)
    ctx.need(ctx.counts.get("statistics_checked", 0) > 0 or bool(ctx.errors), "the statistics of the bulk commands could not be read")
    return ("Both bulk commands are interpreted with constant propagation over three recipe files in a directory layout in which file names, directory names and "
            "top-level names collide, for every outcome of a file, alone, everywhere and in pairs, with minimum rates at, just below and just above the "
            "exact share.")


class RattlerHooks(ConvHooks):
    def __init__(self, p: Any, rplan: dict, **kw: Any) -> None:
        super().__init__(p, plan={}, files=list(rplan), isdir=True, **kw)
        self.rplan = rplan

    def model(self, I: Interp, st: State, name: str, recv: Any, args: tuple, kwargs: dict, node: Any, fr: Any, X: list) -> Optional[list]:
        if name in ("subprocess.run", "subprocess.check_output", "subprocess.Popen", "subprocess.check_call", "subprocess.call"):
            cmd = conc(args[0] if args else kwargs.get("args"), st)
            f = next((c for c in cmd if c in self.rplan), None) if isinstance(cmd, list) else None
            if f is None:
                return None
            w = self.rplan[f]
            if w in ("timeout", "oserror"):
                exc = I.mk_exc("subprocess.TimeoutExpired" if w == "timeout" else "builtins.FileNotFoundError", node, fr)
                X.append((st, exc))
                return []
            if name != "subprocess.run":
                return None
            err = {0: "", "noise": "Error: seen\n", 255: "died\n", -9: ""}.get(w, "Error: E1\nError: E2\n")
            w = 0 if w == "noise" else w
            o = mk("obj", ("done", f), typ=xt("subprocess.CompletedProcess"))
            st.heap = st.heap.set(o, Rec("inst", None, EMPTY.set("returncode", K(w)).set("stderr", K(err)).set(
                "stdout", K(""))))
            chk = kwargs.get("check")
            if w and chk is not None and is_k(chk) and kv(chk):
                X.append((st, I.mk_exc("subprocess.CalledProcessError", node, fr)))
                return []
            return [(st, o)]
        if name.endswith(".findall") and args and is_k(args[-1]):
            els = tuple(K(x.strip()) for x in str(kv(args[-1])).splitlines() if x.startswith("Error"))
            return [(st, I.fresh(st, node, fr, "list", els, tag=":re"))]
        return super().model(I, st, name, recv, args, kwargs, node, fr, X)
