"""X01: text from outside is data: nothing evaluates it as code, unpickles it, builds objects from it or hands it to a shell."""

from __future__ import annotations

import ast

from ..model import ClassInfo, ExtRef
from ..report import Ctx, check
from ..refs import Refs, where

EXACT = {
    "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "builtins.execfile",
    "pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.loads", "_pickle.load", "cPickle.loads", "cPickle.load",
    "marshal.load", "marshal.loads", "shelve.open", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads",
    "joblib.load", "jsonpickle.decode",
    "os.system", "os.popen", "os.startfile", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput",
    "runpy.run_path", "runpy.run_module", "importlib.import_module", "importlib.__import__", "imp.load_source",
    "importlib.util.spec_from_file_location", "importlib.machinery.SourceFileLoader", "code.interact",
    "code.InteractiveInterpreter", "code.InteractiveConsole", "timeit.timeit",
    "yaml.unsafe_load", "yaml.unsafe_load_all", "yaml.full_load", "yaml.full_load_all", "yaml.load_all_unsafe",
    "jinja2.Template", "jinja2.Environment", "jinja2.environment.Template", "jinja2.environment.Environment",
    "asyncio.create_subprocess_shell", "ctypes.pythonapi", "types.FunctionType", "types.CodeType", "pty.spawn",
    "conda_build.metadata.MetaData", "conda_build.api.render",
}
PREFIX = ("os.exec", "os.spawn", "os.posix_spawn")
SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
SUBPROC = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
YAML_LOAD = {"yaml.load", "yaml.load_all"}
YAML_SAFE = {"yaml.safe_load", "yaml.safe_load_all", "yaml.scan", "yaml.compose", "yaml.parse"}


def forbidden(d: str) -> bool:
    return d in EXACT or d.startswith(PREFIX)


def loader_ok(v) -> object:
    """True safe / False unsafe / None unknown."""
    if isinstance(v, ExtRef):
        if v.dotted.startswith("yaml."):
            return v.dotted.rsplit(".", 1)[-1] in SAFE_LOADERS
        return None
    if isinstance(v, ClassInfo):
        rs = [loader_ok(ExtRef(b)) for b in v.ext_bases() if b.startswith("yaml.")]
        if any(r is False for r in rs):
            return False
        return True if rs else None
    if isinstance(v, tuple) and v[0] == "k":
        return None
    return None


@check("X01")
def x01(ctx: Ctx) -> str:
    p = ctx.p
    ctx.rule("code-exec", "no reference to a function that evaluates text as code, unpickles, imports by computed name or runs a shell")
    ctx.rule("yaml-loader", "yaml.load/load_all only with a loader that builds plain data (Safe/CSafe/Base loaders)")
    ctx.rule("shell", "no process is started through a shell")
    r = Refs(p)
    inner: set = set()
    yaml_calls = sub_calls = refs = 0
    for m, fi, n in r.walk():
        if fi is not None:
            ctx.functions.add(fi.qual)
        if isinstance(n, ast.Attribute):
            inner.add(id(n.value))
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
            e = r.expr(n, m, fi)
            if isinstance(e, ExtRef):
                refs += 1
                if forbidden(e.dotted) and not _harmless(e.dotted, m, n, r):
                    ctx.report("code-exec", f"{where(fi, m)}: {e.dotted}", f"{m.rel}:{n.lineno}",
                               f"references `{e.dotted}`, through which text read at run time can be executed")
        if isinstance(n, ast.Call):
            f = r.expr(n.func, m, fi)
            if not isinstance(f, ExtRef):
                if isinstance(n.func, ast.Call):
                    e = r.expr(n.func, m, fi)
                    if isinstance(e, ExtRef) and forbidden(e.dotted):
                        ctx.report("code-exec", f"{where(fi, m)}: {e.dotted}", f"{m.rel}:{n.lineno}", f"calls `{e.dotted}`")
                continue
            if f.dotted == "builtins.getattr" or f.dotted == "importlib.import_module":
                e = r.expr(n, m, fi)
                if isinstance(e, ExtRef) and forbidden(e.dotted):
                    ctx.report("code-exec", f"{where(fi, m)}: {e.dotted}", f"{m.rel}:{n.lineno}", f"obtains `{e.dotted}`")
            if f.dotted in YAML_SAFE:
                yaml_calls += 1
                ctx.sites.add(f"{m.rel}:{n.lineno}")
            if f.dotted in YAML_LOAD:
                yaml_calls += 1
                ctx.sites.add(f"{m.rel}:{n.lineno}")
                arg = next((k.value for k in n.keywords if k.arg == "Loader"), n.args[1] if len(n.args) > 1 else None)
                if arg is None:
                    if not any(k.arg is None for k in n.keywords):
                        ctx.report("yaml-loader", f"{where(fi, m)}: {f.dotted}", f"{m.rel}:{n.lineno}",
                                   "YAML is loaded without naming a safe loader")
                    continue
                vs = r.values(arg, m, fi)
                oks = [loader_ok(v) for v in vs]
                if any(o is False for o in oks):
                    ctx.report("yaml-loader", f"{where(fi, m)}: {f.dotted}", f"{m.rel}:{n.lineno}",
                               f"YAML is loaded with `{ast.unparse(arg)}`, which can build arbitrary objects")
                elif not any(o is True for o in oks):
                    ctx.undec(f"{m.rel}:{n.lineno} loader of {f.dotted} not resolved")
            if f.dotted in SUBPROC:
                sub_calls += 1
                ctx.sites.add(f"{m.rel}:{n.lineno}")
                sh = next((k.value for k in n.keywords if k.arg == "shell"), None)
                if sh is not None:
                    vs = r.values(sh, m, fi)
                    if any(isinstance(v, tuple) and v[1] for v in vs):
                        ctx.report("shell", f"{where(fi, m)}: {f.dotted}", f"{m.rel}:{n.lineno}",
                                   "a command line is interpreted by a shell (shell=True)")
                    elif any(v == "?" for v in vs):
                        ctx.undec(f"{m.rel}:{n.lineno} shell argument not resolved")
                a0 = n.args[0] if n.args else None
                if isinstance(a0, (ast.List, ast.Tuple)) and len(a0.elts) >= 2 and all(
                        isinstance(x, ast.Constant) for x in a0.elts[:2]):
                    sh0 = str(a0.elts[0].value).rsplit("/", 1)[-1]
                    if sh0 in ("sh", "bash", "zsh", "dash", "cmd", "cmd.exe", "powershell") and str(a0.elts[1].value) in ("-c", "/c", "-lc"):
                        ctx.report("shell", f"{where(fi, m)}: {f.dotted}", f"{m.rel}:{n.lineno}", "a command line is interpreted by a shell")
    _positive()
    ctx.count("library_references_resolved", refs)
    ctx.count("yaml_load_sites", yaml_calls)
    ctx.count("process_start_sites", sub_calls)
    ctx.need(refs > 300, "fewer library references resolved than confirmed by hand")
    ctx.need(yaml_calls >= 1, "no YAML load site found")
    return ("Every name and attribute chain of every module is resolved through imports, aliases and local scopes; references to "
            "code-executing functions, unsafe YAML loaders and shell-interpreted process starts are reported.")


def _harmless(d: str, m, n, r) -> bool:
    return False


def _positive() -> None:
    """The rule must recognise its targets: checked on built-in examples on every run."""
    assert forbidden("builtins.eval") and forbidden("os.execv") and not forbidden("pickle.dumps")
    assert loader_ok(ExtRef("yaml.UnsafeLoader")) is False and loader_ok(ExtRef("yaml.SafeLoader")) is True
