"""compile harnesses: to LLVM IR (symbolic) and natively"""
import os, subprocess, hashlib, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PASSES = "always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,simplifycfg,adce,loop-simplify,lcssa),globaldce"


class BuildError(Exception):
    def __init__(self, stage, out):
        Exception.__init__(self, stage + ": " + out[-3000:])
        self.stage, self.out = stage, out


def run(cmd, timeout=300):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def symbolic(src, out, flags=(), passes=None, inline=True, noinline=()):
    raw = out + ".raw.ll"
    cmd = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-DVF_SYMBOLIC",
           "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-w", "-fno-access-control", "-fno-threadsafe-statics",
           "-fno-stack-protector"] + [f[1:] for f in flags if f.startswith("^")] + ["-isystem", V + "/model/std", "-I", V + "/vf/include", "-I", V + "/shim", "-I", REPO] + [f for f in flags if not f.startswith("^")] + \
          ["-o", raw, src]
    rc, o = run(cmd)
    if rc:
        raise BuildError("clang", o)
    if noinline:
        # callees that enter through a contract stay calls
        import re
        from .engine import demangle_many, demangle
        ls = open(raw).read().split("\n")
        nm = {i: re.search(r"@([\w.$]+)\(", l).group(1) for i, l in enumerate(ls) if l.startswith("define ") and re.search(r"@([\w.$]+)\(", l)}
        demangle_many(list(nm.values()))
        for i, n in nm.items():
            if any(re.search(p, demangle(n)) for p in noinline):
                ls[i] = re.sub(r" #(\d+)", r" noinline #\1", ls[i], count=1)
        open(raw, "w").write("\n".join(ls))
    ps = passes or PASSES
    rc, o = run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=" + ps, "-inline-threshold=%d" % (100000 if inline else 0),
                 "-o", out, raw])
    if rc:
        raise BuildError("opt", o)
    return out


def native(src, out, flags=(), san=True):
    cmd = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS"] + [f[1:] for f in flags if f.startswith("^")] + ["-I", V + "/vf/include",
           "-I", V + "/shim", "-I", REPO] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                                            "-fno-sanitize=vptr"] if san else []) + [f for f in flags if not f.startswith("^")] + \
          ["-o", out, src, V + "/vf/include/vf_main.cc"] + ["-lpthread"]
    rc, o = run(cmd)
    if rc:
        raise BuildError("g++", o)
    return out
