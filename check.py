#!/usr/bin/env python3
"""Usage: python3 check.py <property id>|all   -- decides one property from /repo's current source."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from crmsa.report import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
