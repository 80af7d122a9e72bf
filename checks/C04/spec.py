import os
import z3
from vf import extract, inv
R = os.environ.get("VF_REPO", "/repo") + "/psi/"


def gen(d):
    t, n = extract.extract(R + "utils/bucket.cc", ["NegotiateBucketNum"], exclude=["AllGatherItemsSize"])
    open(d + "/bucket_gen.h", "w").write(t)
    return ["psi/utils/bucket.cc:" + x for x in n]


def sz(v, k):
    return inv.elem(v, "sizes", k, 64)


def cdiv(v, k):
    bs = v.named["bucket_size"]
    return (sz(v, k) + bs - 1) / bs


MIN = inv.prefix2("min<=size", lambda v, k, m: m <= sz(v, k), ["sizes"])
MAX = inv.prefix2("max>=ceil(size/bucket)", lambda v, k, m: m >= cdiv(v, k), ["sizes"])
MINPOS = inv.each("positive", lambda v, m: m >= 1)
LEAST = inv.each("<=bound", lambda v, m: m <= v.named["bound"], ["bound"])
UNITS = {
    "negotiate": {"gen": gen, "harness": "negotiate.cc",
                  "harnesses": {"upper": {"inv": [MAX, MINPOS]}, "least": {"inv": [LEAST]}, "empty": {"inv": [MIN]}}},
}
NATIVE_SECS = 5
