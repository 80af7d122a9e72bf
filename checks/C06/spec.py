import os
from vf import extract, bitcodec
R = os.environ.get("VF_REPO", "/repo") + "/psi/algorithm/spiral/"


def gen_codec(d):
    a, n1 = extract.extract(R + "arith/arith.h", ["UintNum"])
    t, n2 = extract.extract(R + "util.cc", ["ConvertCoeffsToBytes", "ConvertBytesToCoeffs", "ConvertBytesToU8Coeffs"])
    open(d + "/gen.h", "w").write(a + t)
    return ["psi/algorithm/spiral/arith/arith.h:" + x for x in n1] + ["psi/algorithm/spiral/util.cc:" + x for x in n2]


QUICK = (6, 8, 12, 16)
H = {}
for L in range(1, 17):
    tier = "quick" if L in QUICK else "thorough"
    H["enc%d" % L] = {"inv": [bitcodec.enc(L, off="offset")], "tier": tier, "unroll_inner": 2 + (8 + L - 1) // L}
    if L <= 8:
        H["encu%d" % L] = {"inv": [bitcodec.enc(L, off="offset", w=8)], "tier": tier, "unroll_inner": 2 + (8 + L - 1) // L}
    H["decv%d" % L] = {"inv": [bitcodec.dec(L)], "tier": tier, "unroll_inner": 3 + L // 8}
    H["decs%d" % L] = {"inv": [bitcodec.dec(L)], "tier": tier, "unroll_inner": 3 + L // 8}
UNITS = {"codec": {"gen": gen_codec, "harness": "codec.cc", "harnesses": H, "defaults": {"theory": "bv", "user_timeout": 60000}}}
NATIVE_SECS = 5
