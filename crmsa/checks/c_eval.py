"""C10: what bump-recipe makes of whole recipe files, by evaluation of the command's source against the modelled file system and network."""

from __future__ import annotations

import difflib
import re
from itertools import product
from typing import Any, Optional

from ..cmdlab import CmdHooks
from ..fslab import Node, World
from ..peval import IEnum, PEval, PyExc, has_sym, show
from ..report import Ctx, check
from ..treelab import Lab
from .p_tree import runs

FILE = "/work/meta.yaml"
GIT = "https://example.org/r.git"
U1, U2 = "https://example.org/p-{v}.tar.gz", "https://example.org/q/{v}/q.tgz"

# §V the version, §N the build number, §H{url} the hash of what the URL gives, §+ a line that only the result has, §- a line that only the source has
RECIPES: dict = {
    "variables": ("§N=3", '''{% set name = "p" %}
{% set version = "§V" %}

package:
  name: {{ name|lower }}
  version: {{ version }}

source:
  url: https://example.org/{{ name }}-{{ version }}.tar.gz
  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N  # [win]
  script: make  # keep

requirements:
  host:
    - python
    # last comment
  run:
    - python >=3.8,<4  # [unix]

about:
  summary: "a: b"
'''),
    "plain version": ("§N=0", '''package:
  name: p
  version: §V  # see the changelog

source:
  url: https://example.org/static.tar.gz
  sha256: §H{https://example.org/static.tar.gz}

build:
  number: §N
  skip: true
'''),
    "hash variable": ("§N=12", '''{% set version = "§V" %}
{% set sha256 = "§H{https://example.org/p-@.tar.gz}" %}

package:
  name: p
  version: {{ version }}

source:
  fn: p-{{ version }}.tar.gz
  url: https://example.org/p-{{ version }}.tar.gz
  sha256: {{ sha256 }}

build:
  number: §N
'''),
    "unused hash variable": ("§N=1", '''{% set version = "§V" %}
{% set hash = "abc" %}

package:
  name: p
  version: {{ version }}

source:
  url: https://example.org/p-{{ version }}.tar.gz
  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N
'''),
    "several sources": ("§N=7", '''{% set version = "§V" %}

package:
  name: p
  version: {{ version }}

source:
  # first
  - url: https://example.org/p-{{ version }}.tar.gz
    sha256: §H{https://example.org/p-@.tar.gz}
  - git_url: https://example.org/r.git
    git_tag: v1.0
  - url: https://example.org/q/{{ version }}/q.tgz  # [win]
    sha256: §H{https://example.org/q/@/q.tgz}  # [win] note
    folder: q
  - url: https://example.org/static.tar.gz
    sha256: §H{https://example.org/static.tar.gz}

build:
  number: §N
'''),
    "two sources and a hash variable": ("§N=7", '''{% set version = "§V" %}
{% set sha256 = "old" %}

package:
  name: p
  version: {{ version }}

source:
  - url: https://example.org/p-{{ version }}.tar.gz
    sha256: §H{https://example.org/p-@.tar.gz}
  - url: https://example.org/q/{{ version }}/q.tgz
    sha256: §H{https://example.org/q/@/q.tgz}

build:
  number: §N
'''),
    "one archive on two systems": ("§N=2", '''{% set version = "§V" %}

package:
  name: p
  version: {{ version }}

source:
  - url: https://example.org/p-{{ version }}.tar.gz  # [win]
    sha256: §H{https://example.org/p-@.tar.gz}
    folder: a
  - url: https://example.org/p-{{ version }}.tar.gz  # [unix]
    sha256: §H{https://example.org/p-@.tar.gz}
    folder: b

build:
  number: §N
'''),
    "no hash": ("§N=2", '''{% set version = "§V" %}

package:
  name: p
  version: {{ version }}

source:
  url: https://example.org/p-{{ version }}.tar.gz
  folder: x
§+  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N
'''),
    "no build number": ("", '''{% set version = "§V" %}

package:
  name: p
  version: {{ version }}

build:
  skip: true
§+  number: 0
'''),
    "no sources": ("§N=5", '''{% set version = "§V" %}

package:
  name: p
  version: {{ version }}

build:
  number: §N

outputs:
  - name: a
    version: {{ version }}
  - name: b
    build:
      number: 9
'''),
    "hash type variable": ("§N=5", '''{% set version = "§V" %}
§-{% set hash_type = "sha256" %}

package:
  name: p
  version: {{ version }}

source:
  url: https://example.org/p-{{ version }}.tar.gz
§-  {{ hash_type }}: 0ldhash
§+  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N
'''),
    "version variable elsewhere": ("§N=5", '''{% set version = "§V" %}

package:
  name: p
  version: §W

source:
  url: https://example.org/p-{{ version }}.tar.gz
  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N
'''),
    "new format": ("§N=4", '''schema_version: 1

context:
  name: p
  version: §V

package:
  name: ${{ name }}
  version: ${{ version }}

source:
  url: https://example.org/${{ name }}-${{ version }}.tar.gz
  sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N
  script: x
'''),
    "new format, sources": ("§N=4", '''schema_version: 1

context:
  version: §V  # bumped by the bot

package:
  name: p
  version: ${{ version }}

source:
  - url: https://example.org/q/${{ version }}/q.tgz
    sha256: §H{https://example.org/q/@/q.tgz}
    target_directory: q
  - git: https://example.org/r.git
    tag: v1.0
  - url: https://example.org/p-${{ version }}.tar.gz
    sha256: §H{https://example.org/p-@.tar.gz}

build:
  number: §N

tests:
  - script:
      - p --version
'''),
}
NOT_INTEGERS = ["true", "1.5", '"3"', "x", "{{ build }}"]
OLD, NEW = "1.2.3", "1.10.0"


def digest(url: str) -> str:
    return "sha256:" + content(url).hex()


def content(url: str) -> bytes:
    return f"archive of {url}".encode()


def instance(text: str, number: Any, ver: str, new: bool) -> str:
    """The recipe before (new=False) and after the bump."""
    out = []
    for l in text.splitlines():
        if l.startswith("§+"):
            if not new:
                continue
            l = l[2:]
        if l.startswith("§-"):
            if new:
                continue
            l = l[2:]
        l = l.replace("§V", ver).replace("§W", OLD).replace("§N", str(number))
        out.append(re.sub(r"§H\{(.*?)\}", lambda m: digest(m.group(1).replace("@", ver)) if new else "0ldhash", l))
    return "\n".join(out) + "\n"


def urls(text: str) -> list:
    return [u for u in re.findall(r"§H\{(.*?)\}", text)]


def differ(got: str, want: str) -> str:
    return "; ".join(l for l in difflib.unified_diff(want.splitlines(), got.splitlines(), "expected", "written", lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))[:200]


class Result:
    def __init__(self, code: Any, files: dict, out: str, log: list, how: str = "") -> None:
        self.code, self.files, self.out, self.log, self.how = code, files, out, log, how


def run_cmd(ctx: Ctx, lab: Lab, fi: Any, kw: dict, what: str, world: Any, order: str = "early") -> list:
    h = CmdHooks(lab)
    h.order = order

    def body(ev: PEval) -> Any:
        h.reset(world())
        h.w.log.clear()
        how = ""
        try:
            ev.call(fi, [], dict(kw))
            code: Any = 0
        except PyExc as e:
            v = e.val
            if getattr(v, "name", "") == "builtins.SystemExit":
                code = v.args[0] if v.args else 0
                code = 0 if code is None else int(code) if isinstance(code, (IEnum, int)) else 1
            else:
                code, how = None, show(v)
        return code, {p: n.data for p, n in h.w.nodes.items() if n.data is not None}, h.out["stdout"], list(h.w.log), how

    out = []
    for r in runs(ctx, PEval(ctx.p, h), what, body):
        ctx.count("runs")
        if r.kind == "exc" or has_sym(r.value):
            ctx.undec(what)
        else:
            out.append(Result(*r.value))
    return out


@check("C10")
def c10(ctx: Ctx) -> str:
    lab = Lab(ctx)
    fi = ctx.p.fn("commands.bump_recipe.bump_recipe")
    codes = ctx.p.cls("commands.utils.types.ExitCode")
    ctx.need(fi is not None and codes is not None, "bump_recipe, ExitCode")
    names = {a.arg for a in fi.node.args.args}
    ctx.need({"recipe_file_path", "build_num", "dry_run", "target_version"} <= names, "the parameters of bump_recipe")
    ctx.rule("C10.version", "a version bump writes the recipe with the new version, the hash of every archive that belongs to it and build number 0, and changes nothing else")
    ctx.rule("C10.number", "--build-num writes the recipe with the build number raised by one, and changes nothing else")
    ctx.rule("C10.dry", "a dry run prints that recipe and writes nothing")
    ctx.rule("C10.fail", "a run that fails leaves the file as it was and prints nothing")
    ctx.rule("C10.end", "the run ends with status 0, or with another one if a build number is no integer or an archive cannot be fetched")

    def options(**kw: Any) -> dict:
        d = {"recipe_file_path": FILE, "build_num": False, "dry_run": False, "target_version": None}
        if "retry_interval" in names:
            d["retry_interval"] = 0.5
        d.update(kw)
        return d

    def world(text: str, reach: list) -> Any:
        def mk() -> World:
            w = World({u: content(u) for u in reach}, {content(u): ("tar", ["d/a"]) for u in reach}, {})
            w.nodes["/work"] = Node()
            w.nodes[FILE] = Node(text.encode())
            return w
        return mk

    def judge(label: str, r: Result, src: str, want: Optional[str], dry: bool, rule: str) -> None:
        ctx.count("results")
        got = r.files.get(FILE)
        others = [p for op, p in r.log if p != FILE and not p.startswith("/tmp")]
        if others:
            ctx.report("C10.fail" if want is None else rule, f"{label}: {others[0]}", fi.loc(), f"{label}: touches {others[0]}")
        if r.how:
            ctx.report("C10.end", label, fi.loc(), f"{label}: ends with {r.how}")
            return
        if want is None:
            if r.code == 0:
                ctx.report("C10.end", label, fi.loc(), f"{label}: ends with status 0")
            if got != src.encode():
                ctx.report("C10.fail", label, fi.loc(), f"{label}: the failing run changes the file: {differ((got or b'').decode(errors='replace'), src)}")
            if r.out:
                ctx.report("C10.fail", label, fi.loc(), f"{label}: the failing run prints {r.out[:60]!r}")
            return
        if r.code != 0:
            ctx.report("C10.end", label, fi.loc(), f"{label}: ends with status {r.code}")
            return
        text = (got or b"").decode(errors="replace")
        if dry:
            if text != src:
                ctx.report("C10.dry", label, fi.loc(), f"{label}: the dry run changes the file")
            text = r.out
            if text.rstrip("\n") != want.rstrip("\n"):
                ctx.report("C10.dry", label, fi.loc(), f"{label}: the dry run prints another recipe: {differ(text, want)}")
        else:
            if text != want:
                ctx.report(rule, label, fi.loc(), f"{label}: the file differs from the recipe with what is to be changed: {differ(text, want)}")
            if r.out:
                ctx.report("C10.dry", f"{label}: prints", fi.loc(), f"{label}: prints {r.out[:60]!r}")

    def one(it: tuple) -> None:
        name, (num, text) = it
        n = int(num[3:]) if num else None
        us = urls(text)
        old, new = [u.replace("@", OLD) for u in us], [u.replace("@", NEW) for u in us]
        src, want = instance(text, n, OLD, False), instance(text, 0, NEW, True)
        for both, dry, order in product((False, True), (False, True), ("early", "late")):
            if order == "late" and (both or dry or len(us) < 2):
                continue
            label = f"{name}: --target-version{' --build-num' if both else ''}{' --dry-run' if dry else ''}"
            for r in run_cmd(ctx, lab, fi, options(target_version=NEW, build_num=both, dry_run=dry), label, world(src, old + new), order):
                judge(label, r, src, want, dry, "C10.version")
        for i, u in enumerate(new):
            label = f"{name}: --target-version, {u} cannot be fetched"
            for r in run_cmd(ctx, lab, fi, options(target_version=NEW), label, world(src, [x for x in old + new if x != u]), "early" if i else "late"):
                judge(label, r, src, None, False, "C10.version")
        plain = "".join(l.replace("§+", "") + "\n" for l in instance(text, n, OLD, False).splitlines())
        raised = "".join(l + "\n" for l in instance(text, n + 1 if n is not None else 0, OLD, False).splitlines())
        if name == "hash type variable":
            raised = raised.replace('{% set hash_type = "sha256" %}\n', "").replace("{{ hash_type }}", "sha256")
        if name == "no build number":
            raised = raised.rstrip("\n") + "\n  number: 0\n"
        for dry in (False, True):
            label = f"{name}: --build-num{' --dry-run' if dry else ''}"
            for r in run_cmd(ctx, lab, fi, options(build_num=True, dry_run=dry), label, world(plain, [])):
                judge(label, r, plain, raised, dry, "C10.number")
        ctx.sample({"recipe": name})

    def numbers(x: str) -> None:
        src = f'{{% set build = 3 %}}\n\npackage:\n  name: p\n  version: {OLD}\n\nbuild:\n  number: {x}\n  skip: true\n'
        label = f"build number {x}: --build-num"
        for r in run_cmd(ctx, lab, fi, options(build_num=True), label, world(src, [])):
            judge(label, r, src, None, False, "C10.number")
        label = f"build number {x}: --target-version"
        for r in run_cmd(ctx, lab, fi, options(target_version=NEW), label, world(src, [])):
            judge(label, r, src, src.replace(f"number: {x}", "number: 0").replace(OLD, NEW), False, "C10.version")

    def others(it: tuple) -> None:
        label, data, kw = it
        for r in run_cmd(ctx, lab, fi, options(**kw), label, lambda: _with(world("", [])(), data)):
            ctx.count("results")
            if r.how or r.code == 0:
                ctx.report("C10.end", label, fi.loc(), f"{label}: ends with {r.how or 'status 0'}")
            if r.files.get(FILE) != data or r.out:
                ctx.report("C10.fail", label, fi.loc(), f"{label}: {'prints ' + r.out[:40] if r.out else 'changes the file'}")

    good = instance(RECIPES["variables"][1], 3, OLD, False).encode()
    ctx.spread([("one", x) for x in RECIPES.items()] + [("numbers", x) for x in NOT_INTEGERS]
               + [("others", x) for x in (("no option", good, {}), ("dry run only", good, {"dry_run": True}), ("not UTF-8", b"package:\n  name: \xff\n", {"build_num": True}),
                                          ("no build section", b"package:\n  name: p\n", {"build_num": True}),
                                          ("no package section", b"build:\n  number: 1\n", {"target_version": NEW}))],
               lambda it: {"one": one, "numbers": numbers, "others": others}[it[0]](it[1]))
    return "Evaluation of bump-recipe on whole recipe files: every option combination, both orders of completion, each archive missing once."


def _with(w: World, data: bytes) -> World:
    w.nodes[FILE] = Node(data)
    return w
