"""Child process that holds the C++ reference libraries (they may crash or hang on some inputs): one JSON request
per line on stdin, one JSON list per line on stdout."""
import json
import os
import sys

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
lib = {}


def bin_(r):
    if "b" not in lib:
        import VBBinaryLensing
        v = VBBinaryLensing.VBBinaryLensing()
        v.Tol, v.RelTol = 1e-5, 2e-5
        lib["b"] = v
    v = lib["b"]
    v.a1 = r["u1"]
    if r["rho"] == 0:
        return [v.BinaryMag0(r["s"], r["q"], x, y) for x, y in r["w"]]
    return [v.BinaryMag2(r["s"], r["q"], x, y, r["rho"]) for x, y in r["w"]]


def multi(r):
    if "m" not in lib:
        import VBMicrolensing
        v = VBMicrolensing.VBMicrolensing()
        v.RelTol = v.Tol = 1e-4
        lib["m"] = v
    v = lib["m"]
    v.SetLensGeometry(r["par"])
    v.a1 = r["u1"]
    if r["rho"] == 0:
        return [v.MultiMag0(x, y) for x, y in r["w"]]
    return [v.MultiMag2(x, y, r["rho"]) for x, y in r["w"]]


for line in sys.stdin:
    r = json.loads(line)
    print(json.dumps({"binary": bin_, "multi": multi}[r["kind"]](r)), file=out, flush=True)
