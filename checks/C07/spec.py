import os
from vf import extract
R = os.environ.get("VF_REPO", "/repo") + "/psi/algorithm/spiral/"
H = {}
for n in ("q0", "q1", "q"):
    for k in ("crs", "bar64", "bar128"):
        H[k + "_" + n] = {"unroll": 12}


def gen_arith(d):
    return ["psi/algorithm/spiral/arith/arith.h:" + x for x in ("GetBarrettCrs", "GetBarrett", "BarrettRawU64", "BarrettRawU128")]


def gen_reduce(d):
    t, n = extract.extract(R + "arith/arith.h", ["Log2", "Log2Ceil", "BarrettReductionU128Raw", "Recenter", "RecenertMod", "Rescale", "MultiplyUintMod", "UintNum"],
                           exclude=["BarrettRawU128"])
    n0, _ = extract.extract(R + "arith/number_theory.h", ["InvertUintMod"])
    p, n2 = extract.extract(R + "params.h", ["Params"])
    c, n3 = extract.extract(R + "params.cc", ["Params::Params", "Params::CrtCompose2", "Params::CrtCompose"], exclude=["ComputeId", "ToString"])
    r, _ = extract.extract(R + "arith/arith.h", ["BarrettRawU128"])
    stub = """
namespace psi::spiral::arith {
struct NttTables { std::vector<std::vector<uint64_t>> d; const std::vector<std::vector<uint64_t>>& operator[](size_t i) const { static std::vector<std::vector<uint64_t>> e; return e; } };
inline NttTables BuildNttTables(size_t, const std::vector<seal::Modulus>&) { return NttTables(); }
}
"""
    open(d + "/gen.h", "w").write("#ifndef VF_SYMBOLIC\n" + r + "#endif\n" + t + n0)
    open(d + "/gen_params.h", "w").write(stub + p + "namespace psi::spiral { void Params::ComputeId() {} }\n" + c)
    return ["psi/algorithm/spiral/arith/arith.h:" + x for x in n] + ["psi/algorithm/spiral/params.h:" + x for x in n2] + ["psi/algorithm/spiral/params.cc:" + x for x in n3]


H2 = {h: {} for h in ("red_q", "red_q0", "red_q1", "mulm_q", "mulm_q0", "recenter", "recenter2", "recentermod", "rescale", "rescale2", "uintnum")}
H2["crt"] = {"unroll": 70}
UNITS = {"arith": {"gen": gen_arith, "harness": "arith.cc", "harnesses": H}, "reduce": {"gen": gen_reduce, "harness": "reduce.cc", "harnesses": H2}}
NATIVE_SECS = 6
