"""X02, X03, X05: text encoding, silence of the library, determinism - whole-program queries with name and type resolution."""

from __future__ import annotations

import ast
from typing import Any, Optional

from ..effects import Effects, is_set, is_weak
from ..model import ExtRef, FuncInfo, ModInfo, Program
from ..refs import Refs, where
from ..report import Ctx, check

UTF8 = {"utf-8", "utf8", "utf_8", "u8", "utf-8-sig", "utf_8_sig"}
# callee -> (position of the mode or None, position of the encoding)
TEXT_IO = {
    "builtins.open": (1, 3), "io.open": (1, 3), "os.fdopen": (1, 3), "pathlib.Path.open": (0, 2), "pathlib.Path.read_text": (None, 0),
    "pathlib.Path.write_text": (None, 1), "importlib.resources.read_text": (None, 2), "tempfile.NamedTemporaryFile": (0, 2),
    "tempfile.TemporaryFile": (0, 2), "gzip.open": (1, 3), "bz2.open": (1, 3), "lzma.open": (1, 5), "io.TextIOWrapper": (None, 1), "fileinput.input": (None, 9),
    "codecs.open": (1, 2),
}
BINARY_DEFAULT = {"gzip.open", "bz2.open", "lzma.open", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "codecs.open"}
BY_NAME = {"read_text": (None, 0), "write_text": (None, 1)}
SUBPROC = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
PLATFORM_ENC = {"locale.getpreferredencoding", "locale.getencoding", "sys.getfilesystemencoding", "locale.getdefaultlocale", "io.text_encoding"}
LOSSY = {"ignore", "replace", "backslashreplace", "xmlcharrefreplace", "namereplace"}


def consts(r: Refs, e: ast.AST, m: ModInfo, fi: Optional[FuncInfo]) -> Optional[list]:
    """Every constant an expression can be, or None when something else is possible."""
    vs = r.values(e, m, fi)
    if not vs or any(not (isinstance(v, tuple) and v[0] == "k") for v in vs):
        return None
    return [v[1] for v in vs]


def norm(x: Any) -> str:
    return str(x).lower().replace(" ", "-")


def get(n: ast.Call, i: Optional[int], kw: str) -> Optional[ast.AST]:
    for k in n.keywords:
        if k.arg == kw:
            return k.value
    if i is not None and i < len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args[: i + 1]):
        return n.args[i]
    return None


def _is_path(r: Refs, x: ast.AST, m: Any, fi: Any) -> bool:
    """A name whose annotation or only assignment makes it a pathlib path, or a path put together on the spot."""
    if isinstance(x, ast.Call):
        f = r.expr(x.func, m, fi)
        return isinstance(f, ExtRef) and f.dotted in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div):
        return _is_path(r, x.left, m, fi)
    if not isinstance(x, ast.Name) or fi is None:
        return False
    a = fi.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == x.id:
            f = r.expr(p.annotation, m, fi) if p.annotation is not None else None
            return isinstance(f, ExtRef) and f.dotted == "pathlib.Path"
    vals = []
    for s in ast.walk(fi.node):
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets):
            vals.append(s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == x.id and s.value is not None:
            vals.append(s.value)
        elif isinstance(s, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(s.target)):
            return False
    return len(vals) == 1 and not isinstance(vals[0], ast.Name) and _is_path(r, vals[0], m, fi)


@check("X02")
def x02(ctx: Ctx) -> str:
    ctx.rule("X02.explicit", "every text file is read and written with an explicit encoding, which is UTF-8, not the platform's default")
    ctx.rule("X02.lossless", "no reader or writer drops or replaces characters it cannot represent")
    ctx.rule("X02.process", "the text output of other programs is decoded as UTF-8 too")
    ctx.rule("X02.codec", "text is encoded and bytes are decoded as UTF-8")
    p = ctx.p
    r, e = Refs(p), Effects(p)
    n_io = n_codec = 0
    for m, fi, n in r.walk():
        if not isinstance(n, ast.Call):
            continue
        f = r.expr(n.func, m, fi)
        d = f.dotted if isinstance(f, ExtRef) else e.extcalls.get(id(n))
        at, site = where(fi, m), f"{m.rel}:{n.lineno}"
        attr = n.func.attr if isinstance(n.func, ast.Attribute) else None
        if fi is not None:
            ctx.functions.add(fi.qual)
        spec = TEXT_IO.get(d or "")
        if spec is None and attr in BY_NAME and not isinstance(f, FuncInfo) and not e.callees.get(id(n)):
            spec, d = BY_NAME[attr], f"?.{attr}"
        if spec is None and attr == "open" and d is None and _is_path(r, n.func.value, m, fi):
            d = "pathlib.Path.open"
            spec = TEXT_IO[d]
        if spec is None and attr == "open" and d is None and not isinstance(f, FuncInfo) and not e.callees.get(id(n)):
            mo = get(n, 0, "mode")
            c = consts(r, mo, m, fi) if mo is not None else None
            if c and all(isinstance(x, str) and set(x) <= set("rwaxt+") for x in c):
                spec, d = (0, 2), "?.open"
        if spec is not None:
            if any(k.arg is None for k in n.keywords):
                ctx.undec(f"{site}: arguments of {d} not known")
                continue
            mode = get(n, spec[0], "mode") if spec[0] is not None else None
            if mode is not None:
                c = consts(r, mode, m, fi)
                if c is None:
                    ctx.undec(f"{site}: mode of {d} not known")
                    continue
                if all("b" in str(x) for x in c):
                    continue
                if d in BINARY_DEFAULT and d != "codecs.open" and all("t" not in str(x) and d.startswith(("gzip", "bz2", "lzma")) for x in c):
                    continue
            elif d in BINARY_DEFAULT:
                continue
            n_io += 1
            ctx.sites.add(site)
            _encoding(ctx, r, n, spec[1], d, at, site, m, fi, "X02.explicit")
        elif d in SUBPROC:
            txt = [k for k in n.keywords if k.arg in ("text", "universal_newlines") and consts(r, k.value, m, fi) == [True]]
            if txt or get(n, None, "encoding") is not None:
                n_io += 1
                ctx.sites.add(site)
                _encoding(ctx, r, n, None, d, at, site, m, fi, "X02.process")
        elif attr in ("encode", "decode") and not isinstance(f, FuncInfo) and not e.callees.get(id(n)) or d in ("codecs.encode", "codecs.decode"):
            enc = get(n, 0, "encoding")
            n_codec += 1
            if enc is not None:
                c = consts(r, enc, m, fi)
                if c is not None and any(isinstance(x, str) and norm(x) not in UTF8 for x in c):
                    ctx.report("X02.codec", f"{at}: {attr}", site, f"text is converted with the encoding {c[0]!r}")
            _errors(ctx, r, n, 1, at, site, m, fi)
    for m, fi, n in r.walk():
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            ps = a.posonlyargs + a.args
            for x, dv in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]:
                if x.arg == "encoding":
                    c = consts(r, dv, m, None)
                    n_codec += 1
                    if c and isinstance(c[0], str) and norm(c[0]) not in UTF8:
                        ctx.report("X02.codec", f"{n.name}: default encoding", f"{m.rel}:{n.lineno}", f"the default encoding is {c[0]!r}")
    ctx.count("text_io_sites", n_io)
    ctx.count("codec_sites", n_codec)
    ctx.need(n_io >= 4, "the places that read and write text files")
    return "Every call in the package that opens, reads or writes text, runs a program in text mode, or converts text and bytes."


def _encoding(ctx: Ctx, r: Refs, n: ast.Call, i: Optional[int], d: str, at: str, site: str, m: ModInfo, fi: Optional[FuncInfo], rule: str) -> None:
    enc = get(n, i, "encoding")
    if enc is None:
        ctx.report(rule, f"{at}: {d}", site, f"{d.lstrip('?.')} uses the platform's default encoding: other platforms read or write different text")
    else:
        c = consts(r, enc, m, fi)
        src = r.expr(enc.func, m, fi) if isinstance(enc, ast.Call) else None
        if isinstance(src, ExtRef) and src.dotted in PLATFORM_ENC:
            ctx.report(rule, f"{at}: {d}", site, f"{d.lstrip('?.')} uses the platform's default encoding: other platforms read or write different text")
            return
        if c is None:
            vs = [v[1] for v in r.values(enc, m, fi) if isinstance(v, tuple) and v[0] == "k"]
            if any(v is None or (isinstance(v, str) and norm(v) not in UTF8) for v in vs):
                c = vs
            else:
                ctx.undec(f"{site}: encoding of {d} not known")
        if c is not None and any(x is None or norm(x) not in UTF8 for x in c):
            bad = next(x for x in c if x is None or norm(x) not in UTF8)
            ctx.report(rule, f"{at}: {d}", site, f"{d.lstrip('?.')} uses {'the platform default encoding' if bad is None else repr(bad)} instead of UTF-8")
    _errors(ctx, r, n, None, at, site, m, fi)


def _errors(ctx: Ctx, r: Refs, n: ast.Call, i: Optional[int], at: str, site: str, m: ModInfo, fi: Optional[FuncInfo]) -> None:
    er = get(n, i, "errors")
    c = consts(r, er, m, fi) if er is not None else None
    if c and any(x in LOSSY for x in c):
        ctx.report("X02.lossless", f"{at}: errors", site, f"characters that cannot be converted are silently lost (errors={c[0]!r})")


# ---------------------------------------------------------------------------------------------------------------- X03

SPEAK = {
    "builtins.print": "prints", "builtins.input": "waits for keyboard input", "builtins.exit": "ends the process", "builtins.quit": "ends the process",
    "sys.exit": "ends the process", "os._exit": "ends the process", "os.abort": "ends the process", "os.kill": "signals a process",
    "builtins.SystemExit": "ends the process", "builtins.breakpoint": "starts a debugger", "pdb.set_trace": "starts a debugger",
    "sys.stdout": "writes to standard output", "sys.stderr": "writes to standard error", "sys.stdin": "reads standard input", "sys.__stdout__": "writes to standard output",
    "sys.__stderr__": "writes to standard error",
    "getpass.getpass": "waits for keyboard input", "click.echo": "prints", "click.secho": "prints", "click.prompt": "waits for keyboard input",
    "click.confirm": "waits for keyboard input", "pprint.pprint": "prints", "pprint.pp": "prints", "traceback.print_exc": "prints",
    "traceback.print_stack": "prints", "traceback.print_exception": "prints", "warnings.warn": "prints a warning",
}
GLOBALSET = {
    "os.chdir", "os.fchdir", "os.chroot", "os.putenv", "os.unsetenv", "os.umask", "os.setuid", "os.setgid", "os.nice", "os.setpriority", "os.environ.update",
    "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "signal.signal", "signal.alarm", "signal.setitimer", "locale.setlocale", "random.seed",
    "logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.config.dictConfig", "logging.config.fileConfig",
    "socket.setdefaulttimeout", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.path.append", "sys.path.insert", "sys.path.extend",
    "warnings.filterwarnings", "warnings.simplefilter", "multiprocessing.set_start_method", "threading.setprofile", "faulthandler.enable",
    "gc.disable", "resource.setrlimit", "atexit.register", "time.tzset", "decimal.setcontext", "tempfile.tempdir", "builtins.setattr:builtins",
    "ssl._create_default_https_context", "yaml.add_constructor", "yaml.add_representer", "yaml.add_implicit_resolver",
}
GLOBAL_ASSIGN = ("os.environ", "sys.path", "sys.modules", "sys.stdout", "sys.stderr", "sys.argv", "tempfile.tempdir", "socket.", "ssl.", "yaml.", "logging.", "os.", "sys.", "json.", "requests.",
                 "builtins.")


def library(m: ModInfo) -> bool:
    return ".commands" not in m.name


@check("X03")
def x03(ctx: Ctx) -> str:
    ctx.rule("X03.silent", "no library module (everything but commands/) prints, prompts, writes to a standard stream, starts a debugger or ends the process")
    ctx.rule("X03.global", "no library module changes process-wide settings: working directory, environment, signal handlers, locale, logging setup, "
                           "import path, recursion limit, or attributes of other packages")
    ctx.rule("X03.import", "library modules do not import the command line")
    p = ctx.p
    r = Refs(p)
    refs = mods = 0
    for m in p.mods.values():
        mods += library(m)
    for m, fi, n in r.walk():
        if not library(m):
            continue
        at, site = where(fi, m), f"{m.rel}:{getattr(n, 'lineno', 0)}"
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            ent = r.expr(n, m, fi)
            if isinstance(ent, ExtRef):
                refs += 1
                if fi is not None:
                    ctx.functions.add(fi.qual)
                if ent.dotted in SPEAK:
                    ctx.report("X03.silent", f"{at}: {ent.dotted}", site, f"library code {SPEAK[ent.dotted]} (`{ent.dotted}`)")
                elif ent.dotted in GLOBALSET:
                    ctx.report("X03.global", f"{at}: {ent.dotted}", site, f"library code changes a process-wide setting (`{ent.dotted}`)")
        tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in tg:
            base = t.value if isinstance(t, (ast.Attribute, ast.Subscript)) else None
            if base is not None:
                ent = r.expr(base, m, fi)
                full = r.expr(t, m, fi) if isinstance(t, ast.Attribute) else ent
                if isinstance(ent, ExtRef) and isinstance(full, ExtRef) and (ent.dotted in ("os.environ", "sys.path", "sys.modules", "sys.argv")
                                                                            or (isinstance(t, ast.Attribute) and _module_ref(p, m, fi, base, r))):
                    ctx.report("X03.global", f"{at}: {full.dotted} =", site, f"library code assigns to `{full.dotted}`, which belongs to the whole process")
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [f"{n.module or ''}.{a.name}" for a in n.names]
            for x in names:
                if x.startswith("conda_recipe_manager.commands"):
                    ctx.report("X03.import", f"{m.name}: {x}", site, "a library module imports the command line")
                if x.split(".")[0] in ("click",):
                    ctx.report("X03.import", f"{m.name}: {x}", site, "a library module imports the command-line toolkit")
    assert "builtins.print" in SPEAK and "os.chdir" in GLOBALSET
    ctx.count("library_references_resolved", refs)
    ctx.count("library_modules", mods)
    ctx.need(mods >= 20 and refs >= 200, "the library modules")
    return "Every reference of every library module, resolved through imports, aliases and scopes."


def _module_ref(p: Program, m: ModInfo, fi: Optional[FuncInfo], e: ast.AST, r: Refs) -> bool:
    """The expression names an imported module itself."""
    if not isinstance(e, ast.Name):
        return False
    f = fi
    while f is not None:
        bs = r.scope(f).binds.get(e.id)
        if bs is not None:
            return all(b[0] == "mod" for b in bs)
        f = f.parent
    for n in m.tree.body:
        if isinstance(n, ast.Import) and any((a.asname or a.name.split(".")[0]) == e.id for a in n.names):
            return True
    return False


# ---------------------------------------------------------------------------------------------------------------- X05

CHANCE = ("random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getrandom", "numpy.random.", "time.time", "time.time_ns", "time.monotonic",
          "time.perf_counter", "time.localtime", "time.gmtime", "time.strftime", "time.ctime", "datetime.datetime.now", "datetime.datetime.utcnow",
          "datetime.datetime.today", "datetime.date.today", "os.getpid", "os.getppid", "os.environ", "os.getenv", "os.getlogin", "getpass.getuser",
          "socket.gethostname", "platform.", "os.uname", "builtins.id", "sys.platform", "os.name", "os.getcwd", "pathlib.Path.cwd", "pathlib.Path.home",
          "os.cpu_count", "multiprocessing.cpu_count", "locale.")
PURE_PKGS = (".parser", ".licenses", ".types", ".utils")
UNORDERED_OK = {"builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.len", "builtins.sum", "builtins.any", "builtins.all", "builtins.min",
                "builtins.max", "builtins.bool", "collections.Counter"}


@check("X05")
def x05(ctx: Ctx) -> str:
    ctx.rule("X05.source", "parsing, querying, editing, rendering and conversion never consult clock, random numbers, environment, host, process or object identity")
    ctx.rule("X05.order", "no result depends on the iteration order of a set, which differs between runs: lists, texts, edits and messages made while "
                          "walking one, or an element picked from one")
    p = ctx.p
    r, e = Refs(p), Effects(p)
    refs = sets = 0
    pure = [m for m in p.mods.values() if m.name.replace("conda_recipe_manager", "", 1).startswith(PURE_PKGS)]
    ctx.need(len(pure) >= 12, "the parser, licence and utility modules")
    for m, fi, n in r.walk():
        if m not in pure:
            continue
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            ent = r.expr(n, m, fi)
            if isinstance(ent, ExtRef):
                refs += 1
                hit = next((c for c in CHANCE if ent.dotted == c or (c.endswith(".") and ent.dotted.startswith(c))), None)
                if ent.dotted == "builtins.hash" and fi is not None and fi.name != "__hash__":
                    hit = "builtins.hash"
                if hit:
                    ctx.report("X05.source", f"{where(fi, m)}: {ent.dotted}", f"{m.rel}:{n.lineno}", f"the result depends on `{ent.dotted}`, which differs between runs")
    for fi in p.all_functions():
        if fi.mod not in pure:
            continue
        ctx.functions.add(fi.qual)
        par = {id(c): q for q in ast.walk(fi.node) for c in ast.iter_child_nodes(q)}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.expr) and is_set(e.itypes.get(id(n))) and not _int_elems(e.itypes[id(n)]):
                sets += 1
                _set_use(ctx, r, e, fi, n, par)
    assert is_set(("x", "builtins.set", ()))
    ctx.count("library_references_resolved", refs)
    ctx.count("set_iterations", sets)
    return "Every reference and every iteration over a set-typed expression in the parser, licence and utility modules."


def _int_elems(t: Any) -> bool:
    return bool(len(t) > 2 and t[2] and t[2][0] is not None and t[2][0][:2] in (("x", "builtins.int"), ("x", "builtins.bool")))


def _set_use(ctx: Ctx, r: Refs, e: Effects, fi: FuncInfo, n: ast.expr, par: dict) -> None:
    site, txt = f"{fi.mod.rel}:{n.lineno}", ast.unparse(n)[:60]
    q = par.get(id(n))
    bad = None
    if isinstance(q, ast.For) and q.iter is n:
        bad = _loop_order(e, fi, q)
    elif isinstance(q, ast.comprehension) and q.iter is n:
        comp = par.get(id(q))
        if isinstance(comp, (ast.ListComp, ast.GeneratorExp)):
            up = par.get(id(comp))
            f = r.expr(up.func, fi.mod, fi) if isinstance(up, ast.Call) else None
            if isinstance(f, ExtRef) and f.dotted in UNORDERED_OK:
                return
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr in ("update", "union", "difference", "intersection", "issubset", "issuperset"):
                return
            if isinstance(comp, ast.ListComp) or (isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr == "join"):
                if not _sorted_later(fi, comp, par):
                    bad = "a list is made in the order of the set"
    elif isinstance(q, ast.Call):
        f = r.expr(q.func, fi.mod, fi)
        d = f.dotted if isinstance(f, ExtRef) else None
        if isinstance(q.func, ast.Attribute) and q.func.attr in ("join", "extend", "writelines"):
            bad = "a text or list is made in the order of the set"
        elif d in ("builtins.list", "builtins.tuple", "builtins.enumerate"):
            up = par.get(id(q))
            g = r.expr(up.func, fi.mod, fi) if isinstance(up, ast.Call) else None
            if not (isinstance(g, ExtRef) and g.dotted in UNORDERED_OK) and not _sorted_later(fi, q, par):
                bad = "a list is made in the order of the set"
        elif d in ("builtins.iter", "builtins.next"):
            if f"len({txt}) == 1" not in ast.unparse(fi.node):
                ctx.undec(f"{site}: an element is picked from a set")
            return
    if bad:
        ctx.report("X05.order", f"{fi.short}: {txt}", site, f"{bad} `{txt}`, which differs between runs")


def _sorted_later(fi: FuncInfo, e: ast.AST, par: dict) -> bool:
    q = par.get(id(e))
    t = q.targets[0] if isinstance(q, ast.Assign) and len(q.targets) == 1 else q.target if isinstance(q, ast.AnnAssign) else None
    if not isinstance(t, ast.Name):
        return False
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name) and x.func.value.id == t.id:
                return True
            if isinstance(x.func, ast.Name) and x.func.id in ("sorted", "set", "len", "frozenset") and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == t.id:
                return True
    return False


def _loop_order(e: Effects, fi: FuncInfo, loop: ast.For) -> Optional[str]:
    names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return "values are yielded in the order of the set"
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "appendleft"):
                if not _name_sorted(fi, x.func.value):
                    return "a list is filled in the order of the set"
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.value, (ast.JoinedStr, ast.List)):
                return "a text or list is built in the order of the set"
            if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant) and any(
                    isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.value)):
                return "the first match in the order of the set is returned:"
            if isinstance(x, ast.Call):
                for g in e.callees.get(id(x), ()):
                    for m in e.sums[g].muts.values() if g in e.sums else ():
                        if not is_weak(m.loc) and m.loc[0][0] == "p" and m.how in (".append()", ".insert()", ".extend()") and not m.loc[0][1].startswith("a"):
                            return f"{g.name}() is called (it adds to a list) in the order of the set"
    return None


def _name_sorted(fi: FuncInfo, v: ast.AST) -> bool:
    n = ast.unparse(v)
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and ast.unparse(x.func.value) == n:
                return True
            if isinstance(x.func, ast.Name) and x.func.id in ("sorted", "set", "frozenset") and x.args and ast.unparse(x.args[0]) == n:
                return True
    return False
