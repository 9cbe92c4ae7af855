#!/usr/bin/env python3
"""setup_cmd: compiles every harness package once, so that the checks find a warm Go build cache."""
import os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

def main():
    need = sorted({(p["pkg"], p.get("race", False)) for s in check.PROPS.values() for p in s["parts"]})
    for pkg, race in need:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        b, err = check.build(pkg, race, tmp, check.goenv())
        shutil.rmtree(tmp, ignore_errors=True)
        print(pkg, "race" if race else "", "built" if b else "FAILED\n" + err)
        if not b:
            return 1
    for race in sorted({p.get("race", False) for s in check.PROPS.values() for p in s["parts"] if p.get("bin")}):
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        b, err = check.build_kache(race, tmp, check.goenv())
        shutil.rmtree(tmp, ignore_errors=True)
        print("kache", "race" if race else "", "built" if b else "FAILED\n" + err)
        if not b:
            return 1
    return 0

sys.exit(main())
