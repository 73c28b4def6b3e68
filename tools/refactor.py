#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet.  Usage: refactor.py KIND OUTDIR"""
import ast, os, re, shutil, sys

KIND, OUT = sys.argv[1:3]
SRC = os.environ.get("SRC", "/repo")
shutil.copytree(SRC, OUT, ignore=shutil.ignore_patterns(".git", "__pycache__"), dirs_exist_ok=True)
PKG = os.path.join(OUT, "conda_recipe_manager")
FILES = [os.path.join(d, f) for d, _, fs in os.walk(PKG) for f in fs if f.endswith(".py")]


def gen(fn):
    for n in walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk(fn):
    """The nodes of a function without those of inner functions."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += list(ast.iter_child_nodes(n))


def doc(body):
    return bool(body) and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class ElseAfterReturn(ast.NodeTransformer):
    """if c: return; rest  ->  if c: return else: rest"""

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and not isinstance(n, (ast.Module, ast.ClassDef)):
                for i, s in enumerate(b[:-1]):
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        s.orelse = b[i + 1:]
                        setattr(n, f, self.fold(b[: i + 1]))
                        break
        return n

    def fold(self, b):
        s = b[-1]
        class W:  # nested chains
            pass
        inner = s.orelse
        for i, t in enumerate(inner[:-1]):
            if isinstance(t, ast.If) and not t.orelse and isinstance(t.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                t.orelse = inner[i + 1:]
                s.orelse = self.fold(inner[: i + 1])
                break
        return b


class Temps(ast.NodeTransformer):
    """return e -> r = e; return r;  if e -> c = e; if c"""

    def __init__(self):
        self.n = 0

    def stmts(self, b):
        out = []
        for s in b:
            self.visit(s)
            self.n += 1
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out.append(ast.Assign([ast.Name(f"result_{self.n}", ast.Store())], s.value))
                s.value = ast.Name(f"result_{self.n}", ast.Load())
            elif isinstance(s, ast.If) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)) and not (isinstance(s.test, ast.Name)) and "TYPE_CHECKING" not in ast.unparse(s.test):
                out.append(ast.Assign([ast.Name(f"holds_{self.n}", ast.Store())], s.test))
                s.test = ast.Name(f"holds_{self.n}", ast.Load())
            elif isinstance(s, ast.For) and isinstance(s.iter, ast.Call):
                out.append(ast.Assign([ast.Name(f"items_{self.n}", ast.Store())], s.iter))
                s.iter = ast.Name(f"items_{self.n}", ast.Load())
            out.append(s)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                if isinstance(n, (ast.Module, ast.ClassDef)) or (isinstance(n, ast.If) and f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If)):
                    for s in b:
                        self.visit(s)
                else:
                    setattr(n, f, self.stmts(b))
        for h in getattr(n, "handlers", []):
            h.body = self.stmts(h.body)
        for c in getattr(n, "cases", []):
            c.body = self.stmts(c.body)
        return n


class Extract(ast.NodeTransformer):
    """def f(..): body  ->  def f(..): return f_impl(..) with the body in the helper"""

    def members(self, n, cls):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.ClassDef):
                self.members(s, s)
            elif isinstance(s, ast.FunctionDef) and not (s.name.startswith("__") and s.name.endswith("__")) and not gen(s) and not any("super" in ast.unparse(x) for x in s.body) \
                    and all(ast.unparse(d) in ("staticmethod", "classmethod") for d in s.decorator_list):
                a = s.args
                if a.vararg or a.kwarg or any(isinstance(x, ast.Raise) and False for x in s.body):
                    continue
                st = [ast.unparse(d) for d in s.decorator_list]
                body = s.body[1:] if doc(s.body) else s.body
                if len(body) < 2:
                    continue
                names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                h = ast.FunctionDef(name=f"{s.name if s.name.startswith('_') else '_' + s.name}_impl", args=ast.arguments(posonlyargs=[], args=[ast.arg(x.arg, x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs],
                                    kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=list(s.decorator_list), returns=s.returns, type_params=[])
                if cls and "staticmethod" not in st:
                    fn, args = ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), names[1:]
                elif cls:
                    fn, args = ast.Attribute(ast.Name(cls.name, ast.Load()), h.name, ast.Load()), names
                else:
                    fn, args = ast.Name(h.name, ast.Load()), names
                s.body = (s.body[:1] if doc(s.body) else []) + [ast.Return(ast.Call(fn, [ast.Name(x, ast.Load()) for x in args], []))]
                out.insert(len(out) - 1, h)
        n.body = out

    def visit_Module(self, n):
        self.members(n, None)
        return n


class Strings(ast.NodeTransformer):
    """f"..{x}.." -> "..{}..".format(x) where there is no format or conversion"""

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values):
            return n
        args = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        t = "".join("{}" if isinstance(v, ast.FormattedValue) else v.value.replace("{", "{{").replace("}", "}}") for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])


class Loops(ast.NodeTransformer):
    """for x in xs: .. -> with an index-free while over an iterator is too odd; comprehensions become loops instead"""

    def __init__(self):
        self.n = 0

    def stmts(self, b):
        out = []
        for s in b:
            self.generic_visit(s)
            v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and not any(isinstance(x, ast.Lambda) for x in ast.walk(v)):
                self.n += 1
                nm = f"acc_{self.n}"
                init = {ast.ListComp: "[]", ast.SetComp: "set()", ast.DictComp: "{}"}[type(v)]
                out += ast.parse(f"{nm} = {init}").body
                if isinstance(v, ast.DictComp):
                    inner = ast.parse(f"{nm}[{ast.unparse(v.key)}] = {ast.unparse(v.value)}").body[0]
                else:
                    inner = ast.parse(f"{nm}.{'append' if isinstance(v, ast.ListComp) else 'add'}({ast.unparse(v.elt)})").body[0]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        inner = ast.If(c, [inner], [])
                    inner = ast.For(g.target, g.iter, [inner], [])
                out.append(inner)
                s.value = ast.Name(nm, ast.Load())
            out.append(s)
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                if isinstance(n, (ast.Module, ast.ClassDef)):
                    for s in b:
                        self.generic_visit(s)
                else:
                    setattr(n, f, self.stmts(b))
        for h in getattr(n, "handlers", []):
            h.body = self.stmts(h.body)
        for c in getattr(n, "cases", []):
            c.body = self.stmts(c.body)
        return n


class Member(ast.NodeTransformer):
    """x in {a, b} <-> comparisons; a == b -> b == a; not x in y"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators = n.comparators[0], [n.left]
        elif len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


class IfExp(ast.NodeTransformer):
    """x = a if c else b -> if statement; a and b conditions of ifs are nested"""

    def stmts(self, b):
        out = []
        for s in b:
            self.generic_visit(s)
            v = getattr(s, "value", None)
            if isinstance(s, ast.Return) and isinstance(v, ast.IfExp):
                out.append(ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)]))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, ast.IfExp):
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)]))
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                inner = s.body
                for c in reversed(s.test.values):
                    inner = [ast.If(c, inner, [])]
                out += inner
            else:
                out.append(s)
        return out

    generic_visit = Loops.generic_visit


def locals_(t):
    """Renames the local variables of functions."""
    for fn in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
        pass
    for top in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
        # only functions that are not inside other functions
        if getattr(top, "inner", False):
            continue
        for x in ast.walk(top):
            if x is not top and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                x.inner = True
        params = {a.arg for f in ast.walk(top) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
        glob = {n for x in ast.walk(top) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(top) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        store = {x.id for x in ast.walk(top) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        exc = {x.name for x in ast.walk(top) if isinstance(x, ast.ExceptHandler) and x.name}
        inner = {x.name for x in ast.walk(top) if isinstance(x, ast.FunctionDef) and x is not top}
        ren = (store | exc | inner) - params - glob - imp
        for x in ast.walk(top):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id += "_local"
            elif isinstance(x, ast.ExceptHandler) and x.name in ren:
                x.name += "_local"
            elif isinstance(x, ast.FunctionDef) and x is not top and x.name in ren:
                x.name += "_local"
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name in ren:
                x.name += "_local"
    return t


if KIND == "private":
    defs = set()
    for f in FILES:
        t = ast.parse(open(f).read())
        for x in ast.walk(t):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                defs.add(x.name)
            elif isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                defs.add(x.id if isinstance(x, ast.Name) else x.attr)
            elif isinstance(x, ast.arg):
                pass
    defs = {d for d in defs if re.fullmatch(r"_[a-zA-Z]\w*", d)}
    for f in FILES:
        s = open(f).read()
        s = re.sub(r"(?<![\w])(_[a-zA-Z]\w*)\b", lambda m: m[1] + "_renamed" if m[1] in defs else m[1], s)
        s = re.sub(r"\bfrom (\S+) import", lambda m: m[0].replace("_renamed", ""), s)
        open(f, "w").write(s)
else:
    for f in FILES:
        t = ast.parse(open(f).read())
        T = {"invert": Invert, "else": ElseAfterReturn, "temps": Temps, "extract": Extract, "strings": Strings, "loops": Loops, "member": Member, "ifexp": IfExp}
        t = locals_(t) if KIND == "locals" else T[KIND]().visit(t)
        open(f, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
for f in FILES:
    compile(open(f).read(), f, "exec")
