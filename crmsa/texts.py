"""The recipe texts over which reading and rendering are evaluated: (schema, text, variables set by the text)."""

TEXTS: dict = {
    "sections": ("V0", """
package:
  name: v1  # note
  version: 3
# between
build:
  number: 0  # [win]
  skip: true  # [osx] why
  noarch:
about:
  home: v2
""", {}),
    "dependency lists": ("V0", """
requirements:
  host:
    # first
    - a1  # [win]
    - a2 >=1.2
    # middle
    - a3  # note
    # last
  run:
    - b1
  empty:
extra:
  keys: c1
""", {}),
    "outputs": ("V0", """
package:
  name: v1
outputs:
  # before o1
  - name: o1  # n1
    # inside o1
    version: 1
    requirements:
      run:
        - r1
        # inner
        - r2  # [linux]
  # comment between
  - name: o2
    test:
      commands:
        - t1
  - name: o3
source:
  - url: u1
    patches:
      - p1
      - p2
  - path: u2  # [unix]
""", {}),
    "single entries": ("V0", """
a:
  b:
    - only  # why
c:
  - name: z1
d:
  - e:
      - x1
  - f: v
  - g:  # why g
      - x2
  - h:  # why h
      - x3  # why x3
    i:  # why i
      - x4
  - j:  # why j
      - x5
      - x6
k:  # why k
  - x7  # why x7
l:  # why l
  m:  # why m
    - x8
""", {}),
    "first key nested": ("V1", """
schema_version: 1
tests:
  - script:
      - s1
      - s2  # c
    files:
      - f1
  - python:
      imports:
        - i1
      pip_check: true
""", {}),
    "conditions": ("V1", """
schema_version: 1
requirements:
  host:
    - if: win
      then: a1
    - if: unix
      then:
        - a2
        - a3
      else: a4
    - a5
""", {}),
    "deep": ("V0", """
a:
  b:
    c:
      d:
        - e:
            f: 1
          g:
            - h
            - i: 1
              j: 2
        - k
l: m
""", {}),
    "empty keys": ("V0", """
a:
b:
  c:
  d:
e:
  - f:
    g: 1
  - h: 2
    i:
j:
  k:
""", {}),
    "comments on sections": ("V0", """
# header
# header2
build:  # [unix]
  # before script
  script:  # [win]
    - a
    - b
  # end of build
# before req
req:  # note
  - c
  - d
source:  # [osx]
  url: u
  # end
""", {}),
    "misaligned comments": ("V0", """
requirements:
  host:
  # at key level
    - a
# col0
    - b
      # deeper
  run:
    - c
     # odd
    - d
   # between levels
  other: x
about:
  home: x
    # deeper
  license: MIT
""", {}),
    "comments in list entries": ("V0", """
t:
  - a: 1
    # c1
    b: 2
  # c2
  - a: 3
    # c3
# c4
u:
  - name: x
  # list level
    version: 1
      # deeper
    req:
      - y
#  col0
  - name: z
""", {}),
    "commented-out lines": ("V0", """
package:
  name: x
  # version: 2  # [win]
build:
  # [osx]
  number: 1  # [linux]
requirements:
  run:
    - a  # [linux]
    # - b  # [win]
    - c
  # host:  # [unix]
  #   - d
test:
  commands:
    # - e  # [unix]
    - f  # [linux] both
    - g
""", {}),
    "blank lines": ("V0", """
package:
  name: v1

  version: 3

build:

  number: 0
  script:

    - a

    - b
""", {}),
    "multi-line texts": ("V0", """
about:
  summary: |
    line1
    line2
  description: >-
    w1
    w2
  license: MIT  # note
test:
  - script: |
      foo
      bar
    last: 1
  - notes: >
      t1 # no comment
      t2
  - end: x
""", {}),
    "indented lines in texts": ("V0", """
build:
  script: |
    if x:
      foo

        bar
    done
  number: 0
test:
  - commands: |
      for i:
        # not a comment
        run
    last: 1
""", {}),
    "texts that need quote marks": ("V0", """
build:
  a: "`b` c"
  b: ">3"
  c: "|"
  d: "{a}"
  e: "# x"
  f: " lead"
  g: "trail "
  j: "}"
  k: "🎉: x"
  l: "\u00e9 y"
test:
  commands:
    - "> out"
    - "`date`"
    - " x"
    - "#!/bin/sh"
""", {}),
    "escaped characters": ("V0", """
build:
  a: "x\\ty"
  b: "x\\ny"
test:
  commands:
    - "a\\tb"
""", {}),
    "blank lines in texts": ("V0", """
about:
  description: |
    w1

    w2
  home: x
outputs:
  - name: y
    about:
      summary: >
        w3

        w4
      license: z
""", {}),
    "multi-line text last": ("V0", """
about:
  license: MIT
  # before
  description: |-
    w1
    key: w2
    - w3
""", {}),
    "values": ("V0", """
a: 1
b: 1.5
c: true
d: False
e: x
f: x y
g: a#b
h: https://e.org/x.tar.gz
i: foo >=1.2,<2
j: 1.2.3
k: null
l: -1
m: a - b
n: "q1"
o: 'q2'
""", {}),
    "variables": ("V0", """
{% set name = "foo" %}
{% set version = "1.2.3" %}
{% set build = 3 %}
{% set other = name + "x" %}
{% set ver = "0" %}
{% set link = "https://e.org?a=b" %}
{% set list = ["a", 1] %}

package:
  name: {{ name|lower }}
  version: {{ version }}
source:
  url: https://e.org/{{ name }}-{{ version }}.tar.gz  # {{ no }}
build:
  number: {{ build }}  # [win]
requirements:
  host:
    - {{ compiler('c') }}
    - python {{ version }}
    - {{ ver }}-ver-{{ name_ver }}
    - x-{{ link[0] }}-{{ver}}
    # - {{ name }}
""", {"name": "foo", "version": "1.2.3", "build": 3, "other": 'name + "x"', "ver": "0", "link": "https://e.org?a=b", "list": ["a", 1]}),
    "template lines": ("V0", """
{# remark #}
{% set number = 7 %}
{% if true %}
package:
  name: x
{% endif %}
{% set flag = True %}
build:
  number: {{ number }}
""", {"number": 7, "flag": True}),
    "context": ("V1", """
schema_version: 1
context:
  name: foo
  version: 1.2.3
  num: 4
package:
  name: ${{ name }}
  version: ${{ version }}
source:
  url: https://e.org/${{ name }}-${{ version }}.tar.gz
build:
  number: ${{ num }}
""", {"name": "foo", "version": "1.2.3", "num": 4}),
    "empty context": ("V1", """
schema_version: 1
context:
package:
  name: x
""", {}),
    "other schema": ("V0", """
schema_version: 2
context:
  name: x
package:
  name: y
""", {}),
    "quoted texts": ("V0", """
{% set version = "1.10" %}
package:
  name: 'yes'
  version: "1.10"  # note
build:
  string: "007"  # [win]
  number: "null"
  flag: "true"
  none: ""
  hex: "0x10"
  plus: "+1"
about:
  summary: "a: b"
  home: "a # b"  # it's a "note"
  end: 'a:'
  list:
    - "1.10"  # [unix]
    - "off"
    - 'it''s'
    - ""
    - "k: v"
    - "x # y"
    - "~"
    - 1.5
    - "[x]"
    - "* y"
    - x#y # z
  one:
    - 5  # five
  yes_:
    - true
  quoted:
    - "[z]"
  sub:
    - "[z]"
    - {{ version }}
""", {"version": "1.10"}),
    "quoted context": ("V1", """
schema_version: 1
context:
  version: "1.10"
  flag: "no"
  num: 1.5
package:
  version: ${{ version }}
  name: ${{ flag }}
""", {"version": "1.10", "flag": "no", "num": 1.5}),
    "substitutions": ("V0", """
{% set name = "Foo" %}
{% set version = "1.10" %}
{% set major = 3 %}
{% set part = 1.5 %}
{% set flag = True %}
{% set list = ["a", 1] %}
{% set Text = "x y" %}
{% set zero = 0 %}
{% set off = False %}
{% set pad = " p q " %}
{% set one = "1" %}

package:
  name: {{ name|lower }}
  version: {{ version }}
build:
  number: {{ major }}  # [win]
  next: {{ major + 100 }}
  sum: {{ major + part }}
  rel: {{ version + ".1" }}
  both: {{ name + version }}
  digits: {{ one + "0" }}
  mid: v{{ one + ".0" }}-{{ major + 1 }}.x
  skip: {{ flag }}
  no_skip: {{ off }}
  nil: {{ zero }}
  nil_x: x{{ zero }}{{ off }}
  padded: "a{{ pad }}b"
  keys: {{ list }}
source:
  url: https://e.org/{{ name[0] }}/{{ name }}/{{ name | upper }}-{{ version }}.tar.gz  # {{ no }}
  far: x-{{ name[9] }}
  last: {{ name[2] }}{{ name[1] }}
  past: {{ name[3] }}
  first: {{ name[0] | lower }}{{ name[2]|upper }}
  fn: {{ name }}-{{version}}.tar.gz
about:
  home: {{ nope }}
  doc: see {{ nope }} and {{ name }}
  dev: {{ nope }}-{{ name }}
  low: {{ nope|lower }}
  summary: "{{ Text }}: z"
  note: "{{ name }} # z"  # note
  glob: "**/{{ name }}.so"
  plain: "1.10"
  yes_: "yes"
  text: |
    see {{ name }}
    and {{ major }}
requirements:
  host:
    - {{ compiler('c') }}
    - {{ pin_compatible('numpy', max_pin='x.x') }}
    - {{ name|lower }} >={{ version }},<{{ major }}  # [unix]
    - "*.{{ name }}"
    - {{ name_ver }}-x
  one:
    - {{ version }}
  run:
    - n: {{ name }}
      v: {{ major }}
    - n: "{{ Text }}: {{ part }}"
extra:
  {{ name }}: 1  # {{ no }}
  {{ version }}_x: {{ name }}
  # {{ name }}
  k_{{ name }}: v-{{ version }}
  l_{{ nope }}:
    - {{ major }}
""", {"name": "Foo", "version": "1.10", "major": 3, "part": 1.5, "flag": True, "list": ["a", 1], "Text": "x y", "zero": 0, "off": False, "pad": " p q ", "one": "1"}),
    "substitutions in long texts": ("V0", """
{% set name = "Foo" %}
{% set Text = "x y" %}
about:
  text: |
    see {{ name }}
    and {{ Text }}
  lines: |
    no substitutions
    here
  folded: >
    {{ name }} and
    {{ Text }}
extra:
  steps:
    - {{ name }}
    - one: |
        see {{ name }}

        there
""", {"name": "Foo", "Text": "x y"}),
    "substitutions in commands": ("V0", """
{% set name = "Foo" %}
test:
  one: |
    for: {{ nope }} # {{ name }}
    done
""", {"name": "Foo"}),
    "substitutions in the new format": ("V1", """
schema_version: 1
context:
  name: Foo
  version: "1.10"
  major: 3
  flag: true
package:
  name: ${{ name|lower }}
  version: ${{ version }}
build:
  number: ${{ major }}
  next: ${{ major + 1 }}
  rel: ${{ version + ".1" }}
  skip: ${{ flag }}
  string: h${{ hash }}_${{ major }}
source:
  url: https://e.org/${{ name[0] }}/${{ name }}-${{ version }}.tar.gz
about:
  home: ${{ nope }}
  doc: see ${{ nope }} of ${{ name }}
  summary: "${{ name }}: z"
  plain: "1.10"
tests:
  - script:
      - ${{ name }} --version
      - "*/${{ name }}"
    files:
      - if: win
        then: ${{ name }}.bat
        else:
          - ${{ name | upper }}.sh
requirements:
  run:
    - ${{ compiler("c") }}
    - ${{ name }} >=${{ version }}
""", {"name": "Foo", "version": "1.10", "major": 3, "flag": True}),
}
