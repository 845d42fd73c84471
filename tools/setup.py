#!/usr/bin/env python3
"""Checks that the tools the framework drives are present."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "clang", "gcc", "cvc5") if not shutil.which(t)]
if missing: print("missing:", missing); sys.exit(1)
print("ok")
