#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core
CHECKS = {}
for name in ("algebra", "reduction", "homology", "complexes", "maps", "quiver", "zigzag", "topology", "products", "serial", "perms", "extend", "functors", "poly", "csc", "dense", "strided", "misc"):
    try:
        m = __import__("vf." + name, fromlist=["CHECKS"])
    except ModuleNotFoundError as e:
        if e.name != "vf." + name: raise
        continue
    CHECKS.update(m.CHECKS)
if __name__ == "__main__":
    sys.exit(core.main(CHECKS))
