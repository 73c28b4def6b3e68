"""What yaml.dump makes of plain data in block style: the part of the emitter a line-oriented reader can meet."""

from __future__ import annotations

import json
import re
from typing import Any

from .miniyaml import Invalid, Unsupported, scalar


class Open(Exception):
    """Data outside the modelled part."""


def dump(v: Any, indentless: bool = True, literal: bool = False) -> str:
    """indentless: lists start in the column of their key (the default of PyYAML); literal: texts of several lines are written as | blocks."""
    if isinstance(v, (dict, list)) and v:
        return "\n".join(_block(v, 0, indentless, literal)) + "\n"
    s = _scalar(v, literal, 2)
    return s + ("\n" if s[0] in "\"'[{|" else "\n...\n")


def _block(v: Any, ind: int, indentless: bool, literal: bool) -> list:
    pad, out = " " * ind, []
    if isinstance(v, dict):
        for k, x in v.items():
            key = _scalar(k, False, ind)
            if isinstance(x, (dict, list)) and x:
                out.append(f"{pad}{key}:")
                out += _block(x, ind if isinstance(x, list) and indentless else ind + 2, indentless, literal)
            else:
                out += f"{pad}{key}: {_scalar(x, literal, ind + 2)}".split("\n")
        return out
    for x in v:
        if isinstance(x, (dict, list)) and x:
            sub = _block(x, ind + 2, indentless, literal)
            out += [f"{pad}- {sub[0][ind + 2:]}"] + sub[1:]
        else:
            out += f"{pad}- {_scalar(x, literal, ind + 2)}".split("\n")
    return out


def _scalar(v: Any, literal: bool, ind: int) -> str:
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if type(v) in (int, float):
        return repr(v)
    if isinstance(v, (dict, list)):
        return "{}" if isinstance(v, dict) else "[]"
    if type(v) is not str:
        raise Open(repr(v))
    if not v:
        return "''"
    if re.search(r"[^\n\x20-\x7e]", v):
        raise Open(v)
    if "\n" in v:
        if literal:
            if re.search(r" \n| $", v) or v[0] in " \n":
                raise Open(v)
            chomp = "" if re.search(r"[^\n]\n$", v) else "-" if not v.endswith("\n") else "+"
            return f"|{chomp}\n" + "\n".join(" " * ind + l if l else "" for l in v.rstrip("\n").split("\n"))
        if re.search(r" \n|\n ", v) or v[0] in " \n" or v[-1] in " \n":
            raise Open(v)
        return "'" + v.replace("'", "''").replace("\n", "\n\n" + " " * ind) + "'"
    if v[0] == " " or v[-1] == " " or v[0] in "#,[]{}&*!|>'\"%@`" or re.match(r"[?:-]( |$)", v) or v[:3] in ("---", "...") or ": " in v or " #" in v or v[-1] == ":" or v in ("=", "<<"):
        return "'" + v.replace("'", "''") + "'"
    try:
        if not isinstance(scalar(v), str) or re.match(r"[-+]?\.[0-9][0-9_]*$|[-+]?\.(inf|nan)$", v, re.I):
            return f"'{v}'"
    except (Unsupported, Invalid):
        if re.match(r"[-+]?([0-9.:_eE+-]+|\.inf|\.nan)$", v, re.I):
            return f"'{v}'"
    return v


