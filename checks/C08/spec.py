import os
from vf import extract
R = os.environ.get("VF_REPO", "/repo") + "/psi/algorithm/rr22/okvs/galois128."
P = "psi/algorithm/rr22/okvs/galois128"


def gen_mul(d):
    t, n = extract.extract(R + "cc", ["mm_gf128Mul", "mm_gf128Reduce", "cc_gf128Mul", "Galois128::Galois128", "Galois128::Mul"])
    h, nh = extract.extract(R + "h", ["Galois128", "Galois128Type", "cc_gf128Mul"])
    open(d + "/gen.h", "w").write(h + t)
    return [P + ".cc:" + x for x in n] + [P + ".h:" + x for x in nh]


def gen_pow(d):
    t, n = extract.extract(R + "cc", ["Galois128::Pow", "Galois128::Inv"], methods_closure=False)
    open(d + "/gen.h", "w").write(t)
    return [P + ".cc:" + x for x in n]


UNITS = {
    "mul": {"gen": gen_mul, "harness": "mul.cc", "harnesses": {"portable": {}, "clmul": {}, "api_portable": {}, "api_clmul": {}},
            "flags": ["-mpclmul", "-msse4.1"], "defaults": {"theory": "bv", "anf": True}},
    "pow": {"gen": gen_pow, "harness": "pow.cc", "harnesses": {"pow": {"theory": "bv", "unroll": 65}, "powzero": {"theory": "bv"}, "inv": {"unroll": 130}}},
}
ASSUMPTIONS = ["the multiplicative group of GF(2^128) has order 2^128-1 (the base polynomial is irreducible)"]
NATIVE_SECS = 5
