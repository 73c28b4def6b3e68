"""P24: the changes made to the text of a recipe before it is parsed, by evaluation of the source over texts composed of lines with a known outcome."""

from __future__ import annotations

from itertools import product
from typing import Any

from ..peval import PEval, has_sym, show
from ..report import Ctx, check
from ..treelab import Lab
from .p_read import ReadHooks
from .p_select import spot
from .p_tree import runs

KEEP: list = [  # lines of recipes that no documented pattern covers
    '{% set name = "foo" %}', '{% set version = "1.2.3" %}', "{% set version = '1.2.3' %}", '{% set build = 3 %}', '{% set low = name | lower %}',
    '{% set mine = version | replace(".", "_") %}', '{% set mine = "1.2.3" | replace(".", "_") %}', '{% set mine = "1.2.3" ~ name | upper %}', '{%- set x = "a.b" -%}',
    '{% set x = "1.2" %} # see a.b(c) %}', '{% set digest = "abc" %}', '{% set hash_types = "sha256" %}', '{% if x %}', "{% endif %}",
    "", "# a comment", "# a.b(c), {{ x }} and environ", "package:", "  name: {{ name }}", "  name: {{ name|lower }}", "  version: {{ version }}",
    "  url: https://e.org/{{ name }}-{{ version }}.tar.gz", "  url: https://e.org/{{ name }}.v1(2).{{ version }}.tar.gz", "  - {{ name }}.so({{ version }})", "  sha256: abc", "  sha256: {{ hash }}", "  md5: {{ digest }}", "  sha1: '{{ x }}'",
    "  sha256: abc  # {{ x }}", "  number: 0", "  script: make install  # [unix]", "  - python >=3.8,<4", "  - {{ compiler('c') }}", "  - {{ compiler(\"c\") }}  # [win]", "  - {{ pin_compatible('numpy') }}",
    "  - {{ pin_subpackage(name, exact=True) }}", "  - {{ stdlib('c') }}", "  home: https://a.b/c(d).e(f)", "  summary: 'a: b.c(d)'", '  summary: "quoted, text"', "  - ls lower() | wc", "  - test $(basename a.b) = a",
    "  - python -c 'import os; os.environ[\"A\"]'", "  min_pin: x.x", "  description: |", "    text of max_pin", "      indented ü", "  key: 'sha256:'", "  - echo a\\\\b", '  prefix: "C:\\\\\\\\new"', "  - \"{{ x }}\"", "\tx", "  key: crlf\r", "  key: a\x0cb",
]
CHANGE: list = [  # lines and what becomes of them
    ('{% set mm = version.replace(".", "_") %}', '{% set mm = version | replace(".", "_") %}'), ("{% set low = name.lower() %}", "{% set low = name | lower %}"), ("{% set up = name.upper() %}", "{% set up = name | upper %}"),
    ('{%set s = version.split(".") %}', '{%set s = version | split(".") %}'), ('{% set mm = "1.2.3".replace(".", "_") %}', '{% set mm = "1.2.3" | replace(".", "_") %}'),
    ("  name: {{ name.lower() }}", "  name: {{ name | lower }}"), ("  name: {{ name | lower() }}", "  name: {{ name | lower }}"), ("  - {{name.upper() }} x", "  - {{name | upper }} x"),
    ('  url: https://e.org/{{ name }}/{{ version.replace(".", "") }}.tgz', '  url: https://e.org/{{ name }}/{{ version | replace(".", "") }}.tgz'),
    ("  url: https://e.org/{{ name.lower() }}/{{ name.upper() }}.tgz", "  url: https://e.org/{{ name | lower }}/{{ name | upper }}.tgz"),
    ("  - {{ pin_compatible('numpy', max_pin='x.x') }}", "  - {{ pin_compatible('numpy', upper_bound='x.x') }}"),
    ("  - {{ pin_compatible('numpy', min_pin='x', max_pin='x.x') }}  # [unix]", "  - {{ pin_compatible('numpy', lower_bound='x', upper_bound='x.x') }}  # [unix]"),
    ("  - {{ pin_subpackage(name, max_pin=None, min_pin=\"x\") }}", "  - {{ pin_subpackage(name, upper_bound=None, lower_bound=\"x\") }}"),
    ('  license_file: {{ environ["A_B"] }}/x', '  license_file: {{ env.get("A_B") }}/x'), ("  license_file: '{{ environ[\"A\"] }}/x'", "  license_file: '{{ env.get(\"A\") }}/x'"),
    ("  license_file: \"{{ environ['A'] }}/x\"", "  license_file: \"{{ env.get('A') }}/x\""), ('  - {{ environ["A"] }}/{{ environ["B"] }}', '  - {{ env.get("A") }}/{{ env.get("B") }}'),
    ("{% set a = environ['A'] %}", "{% set a = env.get('A') %}"), ('  - {{ os.environ["A"] }} {{ environ["A"] }}', '  - {{ os.environ["A"] }} {{ env.get("A") }}'),
    ('  script: "a\\nb"', "  script: |\n    a\n    b"), ('  license_file: "x y\\nz"', "  license_file: |\n    x y\n    z"),
]


def hashes() -> list:
    out = []
    for var, alg, q, sp in product(("hash_type", "hashtype", "hash"), ("sha256", "md5", None), ("", "'"), ("", "two")):
        key = "{{ " + var + " }}"
        head = [] if alg is None else ['{% set ' + var + f' = "{alg}" %}}']
        body = ["package:", "  name: x", "source:", "  url: u", f"  {q}{key}{q}: abc", "  patches: []"] + ([f"  {q}{key}{q}: {{{{ digest }}}}  # c"] if sp else [])
        want = [l.replace(f"{q}{key}{q}:", f"{alg or 'sha256'}:") for l in body]
        out.append((var, alg, "\n".join(head + body) + "\n", "\n".join(want) + "\n", head))
    return out


@check("P24")
def p24(ctx: Ctx) -> str:
    lab = Lab(ctx)
    p = ctx.p
    conv, par = p.cls("parser.recipe_parser_convert.RecipeParserConvert"), p.cls("parser.recipe_parser.RecipeParser")
    ctx.need(conv is not None and par is not None, "RecipeParser and RecipeParserConvert")
    m1, m2 = conv.find_method("pre_process_recipe_text"), par.find_method("pre_process_remove_hash_type")
    ctx.need(m1 is not None and m2 is not None, "pre_process_recipe_text, pre_process_remove_hash_type")
    ctx.rule("P24.keep", "lines that no documented pattern covers stay as they are, next to any other line")
    ctx.rule("P24.change", "every documented pattern is rewritten to the new spelling, every time it occurs")
    ctx.rule("P24.hash", "a key that is a variable for the hash algorithm becomes the algorithm the variable names; its definition goes only if nothing uses it")
    ctx.rule("P24.raise", "no text raises")

    def run(m: Any, cls: Any, text: str) -> list:
        out = []
        for r in runs(ctx, PEval(p, ReadHooks(lab)), f"{m.name} of {text[:80]!r}", lambda ev: ev.call(ev.getattr(cls, m.name), [text], {})):
            ctx.count("texts")
            if r.kind == "exc":
                ctx.report("P24.raise", m.name, spot(m), f"{m.name}({text!r}) raises {show(r.value)}")
            elif has_sym(r.value) or not isinstance(r.value, str):
                ctx.undec(f"{m.name} of {text[:60]!r}")
            else:
                out.append(r.value)
        return out

    def judge(m: Any, cls: Any, text: str, want: str, rule: str, key: str) -> None:
        for got in run(m, cls, text):
            if got != want:
                g, w = got.split("\n"), want.split("\n")
                i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
                ctx.report(rule, key, spot(m), f"{m.name} of {text!r} gives {chr(10).join(g[i:i + 2])!r} instead of {chr(10).join(w[i:i + 2])!r}")

    KEEPS, CHANGES = [(k, k) for k in KEEP], CHANGE
    lines = KEEPS + CHANGES

    def pairs(it: tuple) -> None:
        a, wa = it
        rule = lambda *xs: "P24.keep" if all(x == y for x, y in xs) else "P24.change"  # noqa: E731
        for tail in ("\n", ""):
            judge(m1, conv, "top: 1\n" + a + tail, "top: 1\n" + wa + tail, rule(it), f"line {a!r}")
            judge(m2, par, "top: 1\n" + a + tail, "top: 1\n" + a + tail, "P24.keep", f"line {a!r}")
        for it2 in (lines if a == wa and KEEP.index(a) % 5 == 0 or a != wa else CHANGES):
            b, wb = it2
            t = "top: 1\n" + a + "\n" + b + "\nend: 1\n"
            judge(m1, conv, t, "top: 1\n" + wa + "\n" + wb + "\nend: 1\n", rule(it, it2), f"line {a!r}")
        for it2 in CHANGES[:6]:
            t = a + "\n# between\n\n" + it2[0] + "\nend: 1\n" + a + "\n"
            if not t.startswith((" ", "\n")):
                judge(m1, conv, t, wa + "\n# between\n\n" + it2[1] + "\nend: 1\n" + wa + "\n", rule(it, it2), f"line {a!r}")
        ctx.sample({"line": a})

    def hash_types(it: tuple) -> None:
        var, alg, t, want, head = it
        label = f"{var} = {alg}"
        for m, cls in ((m1, conv), (m2, par)):
            for got in run(m, cls, t):
                # a definition that is not needed any more may stay
                if got not in (want, "\n".join(head) + "\n" + want):
                    ctx.report("P24.hash", label, spot(m2), f"{m.name} of {t!r} gives {got!r} instead of {want!r}")
            if head:
                used = "about:\n  summary: {{ " + var + " }}\n"
                for got in run(m, cls, t + used):
                    if got != "\n".join(head) + "\n" + want + used:
                        ctx.report("P24.hash", f"{label}, used", spot(m2), f"{m.name} of {(t + used)!r} gives {got!r}: the definition of {var} is {'kept' if head[0] in got else 'lost although it is used'}")

    ctx.spread([("pairs", x) for x in lines] + [("hash", x) for x in hashes()], lambda it: (pairs if it[0] == "pairs" else hash_types)(it[1]))
    return "Evaluation of the pre-processing on lines with a known outcome, alone, in pairs and repeated."
