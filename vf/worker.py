"""one proof task in its own process: python -m vf.worker <pid> <unit> <harness> <ll> <deadline> <verbose> <out.json>"""
import sys, json, resource, os
if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    from .driver import prove_worker
    pid, unit, h, ll, dl, vb, outp = sys.argv[1:8]
    r = prove_worker(pid, unit, h, ll, float(dl), int(vb))
    with open(outp + ".tmp", "w") as f:
        json.dump(r, f, default=str)
    os.rename(outp + ".tmp", outp)
