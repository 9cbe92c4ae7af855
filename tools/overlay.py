#!/usr/bin/env python3
"""Writes the overlay that places the harness packages into kache's module, outside its tree."""
import json, os, sys

def write(path, repo="/repo", verif=None):
    verif = verif or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    root = os.path.join(verif, "harness")
    m = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                m[os.path.join(repo, "verifharness", os.path.relpath(p, root))] = p
    with open(path, "w") as fh:
        json.dump({"Replace": m}, fh)
    return path

if __name__ == "__main__":
    print(write(sys.argv[1], *sys.argv[2:3]))
