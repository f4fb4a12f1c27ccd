#!/usr/bin/env python3
"""Builds the executor and the harness once, so that a broken toolchain shows up early. Checks rebuild what they need."""
import sys
import check
from props import PROPS
try:
    import os
    os.makedirs(check.BUILD, exist_ok=True)
    check.build_symex()
    for b in sorted(set(e["bin"] for p in PROPS.values() for e in p["entries"])):
        check.build_ir(b)
except check.Inconclusive as e:
    print(e)
    sys.exit(1)
