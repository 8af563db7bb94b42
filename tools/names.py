#!/usr/bin/env python3
"""Writes engine/names.json: fields of the records of the analysed code the checks refer to (see Program.aliases)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
sys.dont_write_bytecode = True
import driver  # noqa: E402

ctx = driver.Context("C00", "quick")
p = ctx.prog("solving", "tableau", "parsing", "problem", "clingo-lpx", "app", "main")
out = {k: [[f["name"], f["t"]] for f in r["fields"]] for k, r in sorted(p.records.items())
       if r["fields"] and not k.startswith(("Clingo::", "std::", "fmp", "clingo_")) and "lambda" not in k}
json.dump(out, open(os.path.join(V, "engine", "names.json"), "w"), indent=0)
print(len(out))
