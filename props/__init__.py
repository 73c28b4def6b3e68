"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""
from . import c, f, p, s, x  # noqa: F401
from ._base import NOT_APPLICABLE, PROPS  # noqa: F401
