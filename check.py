#!/usr/bin/env python3
"""Decide one property of diwire from the current source tree of /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.framework import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:], HERE))
