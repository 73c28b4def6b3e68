"""P21: what the conversion to the new recipe format makes of every field, by evaluation of the source over recipe texts built from the fields, against
a table of where each field goes."""

from __future__ import annotations

import re
from typing import Any, Optional

from .. import miniyaml
from ..miniyaml import T, data, eq, flat, norm
from ..peval import Exc, Inst, PEval, has_sym, show
from ..report import Ctx, check
from ..treelab import Lab
from .p_read import ReadHooks, note_of, sel_of
from .p_select import spot
from .p_tree import runs


class ConvHooks(ReadHooks):
    max_steps = 6_000_000
    max_depth = 150

    def model(self, ev: PEval, name: str, recv: Any, args: list, kw: dict) -> Any:
        if name.startswith("licenses.") and name.endswith("SpdxUtils"):
            c = ev.p.cls(name)
            return Inst(c, ev) if c is not None else NotImplemented
        if name.endswith("find_closest_license_match") and args:
            return LICENCES.get(args[-1], None) if isinstance(args[-1], str) else NotImplemented
        return super().model(ev, name, recv, args, kw)


LICENCES = {"MIT": "MIT", "Apache 2.0": "Apache-2.0"}

# ---- the texts -------------------------------------------------------------------------------------------------------

# section -> field -> lines
FIELDS: dict = {
    "source": {
        "fn": "fn: f1", "folder": "folder: d1", "git_url": "git_url: g1", "git_branch": "git_branch: b1", "git_tag": "git_tag: t1", "git_rev": "git_rev: r1",
        "git_depth": "git_depth: 3", "url": "url: https://e.org/x.tgz", "sha256": "sha256: abc", "md5": "md5: def", "path": "path: ../x", "patches": "patches:\n  - p1\n  - p2",
        "svn_url": "svn_url: s1", "hg_url": "hg_url: h1",
    },
    "build": {
        "number": "number: 0", "string": "string: s1", "noarch": "noarch: python", "script": "script: make", "scripts": "script:\n  - make\n  - make install",
        "skip": "skip: true", "skips": "skips: true", "skipt": "skipt: true", "Skip": "Skip: true", "merge_build_host": "merge_build_host: true",
        "no_link": "no_link:\n  - n1\n  - n2", "always_include_files": "always_include_files:\n  - a1", "entry_points": "entry_points:\n  - e1 = m:f\n  - e2 = m:g",
        "ignore_prefix_files": "ignore_prefix_files:\n  - i1\n  - i2", "ignore_prefix": "ignore_prefix_files: true", "rpaths": "rpaths:\n  - r1\n  - r2",
        "binary_relocation": "binary_relocation: false", "missing_dso_whitelist": "missing_dso_whitelist:\n  - m1\n  - m2", "runpath_whitelist": "runpath_whitelist:\n  - rp1\n  - rp2",
        "run_exports": "run_exports:\n  - x1\n  - x2", "run_exports_strong": "run_exports:\n  strong:\n    - x1\n  weak:\n    - x2", "ignore_run_exports": "ignore_run_exports:\n  - g1\n  - g2",
        "script_env": "script_env:\n  - A=v1\n  - B\n  - C = v3\n  - D", "script_env_set": "script_env:\n  - A=v1", "script_env_unset": "script_env:\n  - B",
        "track_features": "track_features:\n  - tf",
        "features": "features:\n  - f1\n  - f2", "noarch_python": "noarch_python: true", "msvc_compiler": "msvc_compiler: 14", "requires_features": "requires_features: rf",
        "provides_features": "provides_features: pf", "preferred_env": "preferred_env: pe", "preferred_env_executable_paths": "preferred_env_executable_paths: pp",
        "disable_pip": "disable_pip: true", "pin_depends": "pin_depends: strict", "overlinking_ignore_patterns": "overlinking_ignore_patterns:\n  - o1",
        "rpaths_patcher": "rpaths_patcher: lief", "pre-link": "pre-link: pl.sh", "post-link": "post-link: ql.sh", "pre-unlink": "pre-unlink: rl.sh",
    },
    "requirements": {
        "build": "build:\n  - {{ compiler('c') }}\n  - make", "host": "host:\n  - h1\n  - h2 >=1.0", "run": "run:\n  - q1\n  - q2", "run_constrained": "run_constrained:\n  - c1\n  - c2 <2",
        "host_python": "host:\n  - python\n  - pip",
    },
    "test": {
        "imports": "imports:\n  - i1\n  - i2", "commands": "commands:\n  - c1\n  - c2", "requires": "requires:\n  - r1\n  - r2", "files": "files:\n  - f1\n  - f2",
        "source_files": "source_files:\n  - s1\n  - s2", "downstreams": "downstreams:\n  - d1\n  - d2", "pip": "commands:\n  - pip check", "pips": "commands:\n  - c1\n  - python -m pip check\n  - c2",
        "requires_pip": "requires:\n  - pip",
    },
    "about": {
        "home": "home: h1", "dev_url": "dev_url: u1", "doc_url": "doc_url: u2", "license": "license: MIT", "license_other": "license: Apache 2.0", "license_odd": "license: odd", "summary": "summary: text",
        "description": "description: |\n  line one\n  line two", "license_file": "license_file:\n  - LICENSE", "license_family": "license_family: MIT", "prelink_message": "prelink_message: pm",
        "identifiers": "identifiers:\n  - id1", "tags": "tags:\n  - tg", "keywords": "keywords:\n  - kw", "doc_source_url": "doc_source_url: u3",
    },
}
SAME = [{"script", "scripts"}, {"skip", "skips", "skipt", "Skip"}, {"ignore_prefix_files", "ignore_prefix"}, {"run_exports", "run_exports_strong"}, {"script_env", "script_env_set", "script_env_unset"},
        {"host", "host_python"}, {"commands", "pip", "pips"}, {"requires", "requires_pip"}, {"license", "license_other", "license_odd"}]
DEPRECATED = {
    "build": {"features", "noarch_python", "msvc_compiler", "requires_features", "provides_features", "preferred_env", "preferred_env_executable_paths", "disable_pip", "pin_depends",
              "overlinking_ignore_patterns", "rpaths_patcher", "pre-link", "post-link", "pre-unlink"},
    "about": {"license_family", "prelink_message", "identifiers", "tags", "keywords", "doc_source_url"},
}


def indent(s: str, n: int) -> str:
    return "\n".join(" " * n + l if l.strip() else l for l in s.split("\n"))


def section(name: str, fields: list, first: str = "") -> str:
    return f"{name}:\n" + "\n".join(indent(FIELDS[name][f], 2) for f in fields)


def top(*sections: str) -> str:
    return "package:\n  name: foo\n  version: 1.2.3\n" + "\n".join(sections) + "\n"


def output(*sections: str) -> str:
    return "package:\n  name: foo\n  version: 1.2.3\noutputs:\n  - name: o1\n    version: 4.5.6\n" + "\n".join(indent(s, 4) for s in sections) + "\n  - name: o2\n    requirements:\n      - q9\nabout:\n  home: h9\n  license: MIT\n"


def clash(a: str, b: str) -> bool:
    return any(a in s and b in s for s in SAME)


def most(name: str, skip: int = 0) -> list:
    """As many fields of a section as go together."""
    out: list = []
    for f in (list(FIELDS[name])[skip:] + list(FIELDS[name])[:skip]):
        if not any(clash(f, g) for g in out):
            out.append(f)
    return out


def texts(thorough: bool) -> list:
    out: list = []
    for s, fs in FIELDS.items():
        for f in fs:
            out.append((f"{s}/{f}", top(section(s, [f]))))
            out.append((f"outputs: {s}/{f}", output(section(s, [f]))))
        names = list(fs)
        for i in range(0, len(names), 1 if thorough else 3):
            out.append((f"{s} from {names[i]}", top(section(s, most(s, i)))))
            if i % 2 == 0 or thorough:
                out.append((f"{s} backwards from {names[i]}", top(section(s, most(s, i)[::-1]))))
        out.append((f"outputs: {s} all", output(section(s, most(s)))))
    for i in range(0, 15, 1 if thorough else 3):
        secs = [section(s, most(s, i)) for s in FIELDS]
        out.append((f"all from {i}", top(*secs)))
        out.append((f"outputs: all from {i}", output(*secs[::-1])))
    for n, t in SPECIAL.items():
        out.append((n, t.strip("\n") + "\n"))
    return out


SPECIAL = {
    "variables": """
{% set name = "foo" %}
{% set version = "1.10" %}
{% set build = 3 %}
{% set flag = true %}
{% set other = name + 1 %}
{% set nope = false %}
package:
  name: {{ name|lower }}
  version: {{ version }}
source:
  url: https://e.org/{{ name }}/{{ name }}-{{ version }}.tgz
build:
  number: {{ build }}
  noarch_python: {{ flag }}
  script: {{ PYTHON }} -m pip install .
requirements:
  host:
    - {{ compiler('c') }}
    - x {{ version }}
""",
    "selectors": """
package:
  name: foo
source:
  url: a
  patches:
    - p1  # [win]
    - p2
    - p3  # [not osx]
build:
  number: 0
  skip: true  # [py<36]
  merge_build_host: true  # [win]
  binary_relocation: false  # [osx]
  disable_pip: true  # [unix]
requirements:
  host:
    - python  # [unix]
    - q  # [win and py>=310]
    - r  # [py27]
    - s  # [py2k or py3k]
    - t
    - u  # [ py != 38 ]
    - 5  # [linux]
  run_constrained:
    - c1  # [win]
test:
  commands:
    - c1  # [win]
    - c2
  requires:
    - r1  # [not win]
""",
    "no skip": """
package:
  name: foo
build:
  skip: false  # [win]
outputs:
  - name: o1
    build:
      skip: true  # [osx]
      merge_build_host: false  # [win]
""",
    "sources": """
package:
  name: foo
source:
  - url: u1
    fn: f1
    folder: d1
  - git_url: g1
    git_rev: r1
    git_branch: b1
  - path: p1
    folder: d2
    patches:
      - x1
      - x2  # [win]
""",
    "one source": """
package:
  name: foo
source:
  - fn: f1
    url: u1
""",
    "source in outputs": """
package:
  name: foo
outputs:
  - name: o1
    source:
      - fn: f1
        git_url: g1
      - folder: d1
        git_tag: t1
  - source:
      git_depth: 1
      folder: d2
    name: o2
""",
    "conditional secrets": """
package:
  name: foo
build:
  script_env:
    - A=one
    - B  # [win]
    - C
""",
    "pip check second": """
package:
  name: foo
requirements:
  host:
    - python
test:
  commands:
    - c1
    - pip check
    - c2
  requires:
    - pip
""",
    "pip check with selector": """
package:
  name: foo
requirements:
  host:
    - python
test:
  commands:
    - pip check  # [win]
    - c2
  requires:
    - pip
""",
    "output without name": """
package:
  name: foo
outputs:
  - version: 1.2.3
    build:
      number: 1
  - build:
      number: 2
""",
    "list of summary lines": """
package:
  name: foo
about:
  summary:
    - one two
    - three
outputs:
  - name: o1
    about:
      license: MIT
      summary:
        - four
""",
    "empty sections": """
package:
  name: foo
build:
requirements:
about:
extra:
outputs:
  - name: o1
    build:
    test:
      commands:
        - c1
""",
    "variable without value": """
{% set name = "foo" %}
{% set other = none %}
package:
  name: {{ name }}
""",
    "extras": """
package:
  name: foo
extras:
  recipe-maintainers:
    - a
    - b
""",
    "python outputs": """
package:
  name: foo
requirements:
  host:
    - h1
test:
  commands:
    - pip check
outputs:
  - name: o1
    requirements:
      host:
        - python
        - pip
    test:
      imports:
        - i1
      commands:
        - pip check
      requires:
        - pip
  - name: o2
    requirements:
      host:
        - python
    test:
      commands:
        - python3 -m pip check
        - c1
      requires:
        - pip
        - r1
""",
    "python tests": """
package:
  name: foo
requirements:
  host:
    - python
test:
  imports:
    - i1
  source_files:
    - s1
  files:
    - f1
  commands:
    - pip check
    - pip check
  downstreams:
    - d1
""",
    "script and environment": """
package:
  name: foo
build:
  script:
    - a
    - b
  script_env:
    - A=one
    - B
outputs:
  - name: o1
    build:
      script: c
      script_env:
        - C
        - D = x
""",
    "long script and environment": """
package:
  name: foo
build:
  script: |
    a b
    c d
  script_env:
    - A=x
    - B
""",
    "values": """
package:
  name: foo
  version: "1.10"
build:
  string: "007"
  script:
    - echo "a: b"
    - "x # y"
    - 'k: v'
  entry_points:
    - "yes"
    - "* x"
test:
  commands:
    - "1.10"
    - "[ a ]"
  files:
    - "no"
    - "a: b"
about:
  summary: "a: b"
  home: "https://e.org/#x"
  doc_url: ""
""",
    "comments": """
# top
package:
  name: foo  # name note
source:
  # above url
  url: u1  # url note
  fn: f1  # file note
  patches:
    - p1  # patch note
    - p2  # [win] selector note
build:  # section note
  number: 0  # [win] number note
  # above entry points
  entry_points:  # entries note
    - e1 = m:f  # entry note
    # between entries
    - e2 = m:g
  missing_dso_whitelist:
    - m1  # library note
  script_env:
    - A=b  # variable note
    - C  # secret note
  features:
    - f1  # feature note
  run_exports:
    - x1  # export note
requirements:
  host:
    - python  # python note
  run_constrained:
    # above constraint
    - c1  # constraint note
test:
  commands:  # commands note
    - pip check  # pip note
    - c1  # command note
  requires:
    - pip  # requires note
  imports:
    # above import
    - i1  # import note
  files:
    - f1  # test file note
  source_files:
    - s1  # source file note
  downstreams:
    - d1  # downstream note
about:
  home: h1  # home note
  license: Apache 2.0  # license note
  license_family: MIT  # family note
  doc_url: u1  # doc note
extras:
  k: v  # extra note
# bottom
""",
    "comments in outputs": """
package:
  name: foo  # top name note
outputs:
  # above output
  - name: o1  # output note
    version: 1.2.3  # version note
    build:
      no_link:
        - n1  # link note
    test:
      requires:
        - r1  # requires note
      commands:
        - c1
        # above command
        - c2
  - name: o2
    # in output
    requirements:
      run:
        - q1  # run note
""",
    "run exports with requirements": """
package:
  name: foo
build:
  run_exports:
    - {{ pin_subpackage('foo') }}
  ignore_run_exports:
    - x
requirements:
  host:
    - h1
outputs:
  - name: o1
    build:
      run_exports:
        strong:
          - y
    requirements:
      run:
        - r1
""",
}

# ---- where everything goes -------------------------------------------------------------------------------------------


class Out:
    def __init__(self) -> None:
        self.warn: list = []  # words that must appear together in one warning


def expr(sel: str) -> str:
    e = sel[1:-1]
    e = re.sub(r"py\s*(<=|>=|==|!=|<|>)\s*([23])(\d+)", lambda m: f'match(python, "{m[1]}{m[2]}.{m[3]}")', e)
    e = re.sub(r"py([23])(\d+)", lambda m: f'match(python, "=={m[1]}.{m[2]}")', e)
    return e.replace("py2k", 'match(python, ">=2,<3")').replace("py3k", 'match(python, ">=3,<4")')


def canon(v: Any) -> Any:
    """Spellings that mean the same."""
    if isinstance(v, str):
        v = re.sub(r"[ \t]+", " ", v).strip()
        return re.sub(r'not match\(python, "==', 'match(python, "!=', v)
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return [canon(x) for x in v] if isinstance(v, list) else v


def values(n: T, path: str, o: Out) -> Any:
    """The data below a node with the selectors turned into conditions."""
    ks = n.real()
    if n.kind in ("item", "scalar"):
        v: Any = n.value
        if isinstance(v, str):
            v = re.sub(r"(?<!\$)\{\{", "${{", v)
        s = sel_of(n.comment)
        if n.kind == "item" and s:
            return {"if": expr(s), "then": v} if not isinstance(v, bool) else f"${{{{ {text(v)} if {expr(s)} }}}}"
        return v
    if not ks:
        return None
    if ks[0].kind == "scalar":
        s, v = sel_of(n.comment), values(ks[0], path, o)
        if s and isinstance(v, bool):
            if path.endswith("/build/skip"):
                return expr(s) if v else False
            return f"${{{{ {text(v)} if {expr(s)} }}}}"
        if s:
            o.warn.append([path])
        return v
    if ks[0].kind == "key":
        return {k.key: values(k, f"{path}/{k.key}", o) for k in ks}
    return [values(k, f"{path}/{i}", o) for i, k in enumerate(ks)]


def text(v: bool) -> str:
    return "true" if v else "false"


def ren(d: dict, table: dict) -> None:
    for a, b in table.items():
        if a in d:
            put(d, b, d.pop(a))


def put(d: dict, path: str, v: Any) -> None:
    *ps, last = path.split("/")
    for p in ps:
        d = d.setdefault(p, {})
    d[last] = v


def convert(doc: T, variables: dict, o: Out) -> dict:
    r: dict = values(doc, "", o)
    bases = [("", r)] + [(f"/outputs/{i}", x) for i, x in enumerate(r.get("outputs") or [])]
    for at, d in bases:
        build = d.get("build") or {}
        ren(build, {"skipt": "skip", "skips": "skip", "Skip": "skip"})
        ren(d, {"extras": "extra"})
        src = d.get("source")
        for s in src if isinstance(src, list) else [src] if src else []:
            ren(s, {"fn": "file_name", "folder": "target_directory", "git_url": "git", "git_branch": "branch", "git_tag": "tag", "git_rev": "rev", "git_depth": "depth"})
            for k, w in (("svn_url", "SVN"), ("hg_url", "HG")):
                if k in s:
                    o.warn.append([w])
        for k in ("run_exports", "ignore_run_exports"):
            if k in build:
                d.setdefault("requirements", {})[k] = build.pop(k)
        ren(build, {"merge_build_host": "merge_build_and_host_envs", "no_link": "always_copy_files", "entry_points": "python/entry_points", "ignore_prefix_files": "prefix_detection/ignore",
                    "rpaths": "dynamic_linking/rpaths", "binary_relocation": "dynamic_linking/binary_relocation", "missing_dso_whitelist": "dynamic_linking/missing_dso_allowlist",
                    "runpath_whitelist": "dynamic_linking/rpath_allowlist"})
        if "script_env" in build:
            env, new = build.pop("script_env"), {}
            for e in env:
                if isinstance(e, dict):
                    new.setdefault("secrets", []).append(e)
                    continue
                k, eq_, v = e.partition("=")
                if eq_:
                    new.setdefault("env", {})[k.strip()] = v.strip()
                else:
                    new.setdefault("secrets", []).append(k.strip())
            if "script" in build:
                new["content"] = build["script"]
            build["script"] = new
        for sec in ("build", "about"):
            for k in list(d.get(sec) or {}):
                if k in DEPRECATED[sec]:
                    del d[sec][k]
                    o.warn.append([f"{at}/{sec}/{k}"])
        if isinstance(d.get("requirements"), dict):
            ren(d["requirements"], {"run_constrained": "run_constraints"})
        about = d.get("about")
        if about:
            if isinstance(about.get("summary"), list):
                about["summary"] = "\n".join(about["summary"])
            ren(about, {"home": "homepage", "dev_url": "repository", "doc_url": "documentation"})
            lic = about.get("license")
            if lic is None:
                o.warn.append(["license", f"{at}/about"])
            elif LICENCES.get(lic) is None:
                o.warn.append([lic])
            elif LICENCES[lic] != lic:
                about["license"] = LICENCES[lic]
                o.warn.append([lic, LICENCES[lic]])
        test = d.pop("test", None)
        if test:
            ren(test, {"requires": "requirements/run", "downstreams": "downstream"})
            fs, ss = test.pop("files", None), test.pop("source_files", None)
            if fs is not None:
                put(test, "files/recipe", fs)
            if ss is not None:
                put(test, "files/source", ss)
            req = d.get("requirements")
            py = isinstance(req, dict) and "python" in (req.get("host") or [])
            cmds = test.get("commands")
            if py:
                pip = [i for i, c in enumerate(cmds or []) if c in ("pip check", "python -m pip check", "python3 -m pip check")]
                if pip:
                    del cmds[pip[0]]
                    if not cmds:
                        del test["commands"]
                        test.pop("requirements", None)
                put(test, "python/pip_check", bool(pip))
            ren(test, {"commands": "script", "imports": "python/imports"})
            new = [{k: test.pop(k)} for k in ("python", "downstream") if k in test]
            d["tests"] = new + ([test] if test else [])
    if "outputs" in r:
        ren(r, {"package": "recipe"})
        for _, d in bases[1:]:
            ren(d, {"name": "package/name", "version": "package/version"})
    head: dict = {"schema_version": 1}
    o.warn += [[f"`{k}`"] for k, v in variables.items() if v is None]
    variables = {k: v for k, v in variables.items() if v is not None}
    if variables:
        head["context"] = {k: ("${{" + v + "}}" if isinstance(v, str) and re.search(r"\|\s*(lower|upper|replace)|\[\d+\]|\+", v) else v) for k, v in variables.items()}
    return head | r


def variables(t: str) -> dict:
    out: dict = {}
    for k, v in re.findall(r"\{%\s*set\s+(\w+)\s*=\s*(.*?)\s*%\}", t):
        try:
            out[k] = miniyaml.scalar({"True": "true", "False": "false", "none": "null", "None": "null"}.get(v, v)) if v[0] not in "'\"" or v[-1] == v[0] else v
        except (miniyaml.Invalid, miniyaml.Unsupported):
            out[k] = v
    return out


def differ(a: Any, b: Any, at: str = "") -> Optional[str]:
    """Where two documents differ; the order of keys does not count."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return f"{at}/{k} is missing; it should be {show(b[k])[:100]}"
        for k in a:
            if k not in b:
                return f"{at}/{k} is {show(a[k])[:100]} and should not be there"
        return next((x for x in (differ(a[k], b[k], f"{at}/{k}") for k in b) if x), None)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((x for x in (differ(x, y, f"{at}/{i}") for i, (x, y) in enumerate(zip(a, b))) if x), None)
    return None if eq(a, b) else f"{at or '/'} is {show(a)[:120]} instead of {show(b)[:120]}"


@check("P21")
def p21(ctx: Ctx) -> str:
    lab = Lab(ctx)
    conv = lab.p.cls("parser.recipe_parser_convert.RecipeParserConvert")
    ctx.need(conv is not None, "class RecipeParserConvert")
    m = conv.find_method("render_to_v1_recipe_format")
    cats = lab.p.cls("types.MessageCategory")
    ctx.need(m is not None and cats is not None, "RecipeParserConvert.render_to_v1_recipe_format, MessageCategory")
    ctx.rule("P21.fields", "every field of the old format is found under its place in the new format with the same value, and nothing else is there")
    ctx.rule("P21.raise", "the conversion raises nothing and adds no error for fields that have a place in the new format")
    ctx.rule("P21.warn", "what cannot be kept is named in a warning")
    ctx.rule("P21.head", "the text starts with schema_version 1, then the variables as context")
    ctx.rule("P21.comment", "a comment behind a value is kept or named in a warning")
    loc = spot(m)

    def one(it: tuple) -> None:
        name, t = it
        vs = variables(t)
        doc = miniyaml.recipe(t)
        o = Out()
        want = convert(doc, vs, o)
        comments = [x[3] for x in flat(doc) if x[0] != "#"]
        notes = [note_of(c) for c in comments if c and note_of(c)]
        ctx.count("texts")

        def body(ev: PEval) -> Any:
            r = ev.construct(conv, [t], {})
            x = ev.call(ev.getattr(r, m.name), [], {})
            ms = {k: ev.call(ev.getattr(x[1], "get_messages"), [v], {}) for k, v in ev.enum_members(cats).items()}
            return x[0], ms

        for r in runs(ctx, PEval(ctx.p, ConvHooks(lab)), f"converting {name}", body):
            ctx.count("paths")
            if r.kind == "exc":
                ctx.report("P21.raise", name, loc, f"converting the recipe {name!r} raises {show(r.value)}")
                continue
            got, ms = r.value
            if not isinstance(got, str) or has_sym(got):
                ctx.undec(f"text of {name}")
                continue
            bad = [x for k, l in ms.items() if k != "WARNING" for x in l]
            if bad:
                ctx.report("P21.raise", name, loc, f"converting the recipe {name!r} adds the error {show(bad[0])[:200]}")
            warns = [x for x in ms.get("WARNING", [])]
            for ws in o.warn:
                if not any(isinstance(x, str) and all(w in x for w in ws) for x in warns):
                    ctx.report("P21.warn", name, loc, f"converting the recipe {name!r}: no warning names {' and '.join(ws)}")
            for n in notes:
                if n not in got and not any(isinstance(x, str) and n in x for x in warns):
                    ctx.report("P21.comment", f"{name}: {n}", loc, f"converting the recipe {name!r} drops the comment {n!r} without a warning")
            try:
                back = data(miniyaml.recipe(got))
            except miniyaml.Invalid as e:
                ctx.report("P21.fields", name, loc, f"the recipe {name!r} is converted to text that is not YAML: {str(e)[:100]}")
                continue
            except miniyaml.Unsupported as e:
                ctx.undec(f"converted text of {name}: {e}")
                continue
            ctx.count("fields", len(flat(doc)))
            if "{%" in got:
                ctx.report("P21.head", name, loc, f"the converted recipe {name!r} has a statement of the old format")
            d = differ(canon(norm(back)), canon(norm(want)))
            if d:
                ctx.report("P21.fields", name, loc, f"in the converted recipe {name!r} {d}")
            elif list(back)[: 2 if vs else 1] != ["schema_version", "context"][: 2 if vs else 1] or vs and list(back["context"]) != [k for k, v in vs.items() if v is not None]:
                ctx.report("P21.head", name, loc, f"the converted recipe {name!r} starts with {list(back)[:3]}")
        ctx.sample({"text": name})

    ctx.spread(texts(ctx.tier == "thorough"), one)
    return "Evaluation of the conversion on recipe texts built from every field of the old format, alone, together, at top level and in outputs, against a table of where fields go."
