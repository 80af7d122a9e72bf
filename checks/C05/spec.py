import os
import z3
from vf import extract, inv
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
F = "algorithm/sealpir/seal_pir.cc"


def gen(d):
    t, n = extract.extract(R + F, ["ElementsPerPtxt", "PlaintextsPerDb", "CoefficientsPerElement", "GetDimensions", "ComputeIndices",
                                   "SealPirClient::GetPtIndex", "SealPirClient::GetPtOffset"])
    open(d + "/gen.h", "w").write(t)
    return [ "psi/" + F + ":" + x for x in n]


H = {}
for dd in (1, 2, 3, 4):
    H["dims%d" % dd] = {}
    H["indices%d" % dd] = {}
H["layout"] = {}
H["locate"] = {}
UNITS = {"addressing": {"gen": gen, "harness": "addressing.cc", "harnesses": H, "defaults": {"unroll": 5}}}
NATIVE_SECS = 5
ASSUMPTIONS = ["pow(n, 1/d) of libm: its floor r satisfies r^d <= n + n/2 and (r+1)^d >= n (checked natively on every sampled input)"]
