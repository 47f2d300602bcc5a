#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import sys, importlib
import vlib
table = {}
for m in ("checks_vfs", "checks_lookup", "checks_conc", "checks_paths", "checks_syntax",
          "checks_cst", "checks_lic"):
    try:
        table.update(importlib.import_module(m).TABLE)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
sys.exit(vlib.main(table))
