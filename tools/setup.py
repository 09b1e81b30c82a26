#!/usr/bin/env python3
"""Builds the harness once, so that a broken toolchain shows here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import build
exe, log = build("all,serde_facets")
if exe is None:
    print(log[-4000:])
    sys.exit(1)
print("ready:", exe)
