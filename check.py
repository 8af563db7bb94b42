#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by static analysis of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import driver  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid == "--setup":
        driver.build_extractor()
        print("extractor built")
        sys.exit(0)
    mod = importlib.import_module("props." + pid.lower())
    sys.exit(driver.main(pid, mod.run, tier))
