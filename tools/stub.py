import os, sys, types, tempfile, shutil, io, json, re
from pathlib import Path
sys.path.insert(0, os.getcwd())


class InvalidMatchSpec(ValueError):
    pass


class MatchSpec:
    """Stand-in for conda's MatchSpec, which is not installed here."""

    def __init__(self, s):
        s = str(s)
        m = re.match(r"^([A-Za-z0-9_.\-*]+)\s*(.*)$", s)
        if "{{" in s or not m:
            raise InvalidMatchSpec(s)
        self.original_spec_str = s
        self.name = m.group(1)
        self.version = m.group(2) or None

    def __str__(self):
        return self.original_spec_str

    def __eq__(self, o):
        return isinstance(o, MatchSpec) and str(self) == str(o)

    def __hash__(self):
        return hash(self.original_spec_str)


for _n in ("conda", "conda.models", "conda.models.match_spec"):
    sys.modules[_n] = types.ModuleType(_n)
sys.modules["conda.models.match_spec"].MatchSpec = MatchSpec
sys.modules["conda.models.match_spec"].InvalidMatchSpec = InvalidMatchSpec
