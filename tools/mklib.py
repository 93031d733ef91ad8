"""Writes spec/lib.json (the libraries) and spec/libtrees.json (their trees, parsed by the specification)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import tlc

LIB, TREES = os.path.join(ROOT, "spec", "lib.json"), os.path.join(ROOT, "spec", "libtrees.json")


def main():
    d = "/repo/lib"
    fs = [[os.path.join(r, x), open(os.path.join(r, x)).read()] for r, _, q in sorted(os.walk(d)) for x in sorted(q) if x.endswith(".yu")]
    json.dump({"dir": d, "files": fs}, open(LIB, "w"), indent=0)
    print(tlc.run("MC_Lib", {"LIB": LIB, "TREES": TREES, "LIBTREES": LIB})[0])


main()
