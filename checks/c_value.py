"""P01, P02, P04..P07: entry points against the reference model over enumerated input points."""
from vlib import *

FUNCS = {"P01": ["t1ha2_atonce"], "P02": ["t1ha2_atonce128"], "P04": ["stream64", "stream128"],
         "P05": ["t1ha1_le", "t1ha1_be"], "P06": ["t1ha0_32le", "t1ha0_32be"],
         "P07": ["t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]}


def run(c):
    cfgs = core_configs(c.thorough)
    libs = c.build_libs(cfgs)
    mf, nm = c.mined([libs[n] for n in ("gcc64", "gcc32", "clang64", "gcc64-U0", "gcc32-U1-exact-O1")])
    jobs = []
    def build(cfg):
        return cfg, c.harness(cfg, "value.c", libs[cfg.name])
    for cfg, exe in c.map(build, [x for x in cfgs if libs[x.name]]):
        for f in FUNCS[c.pid]:
            jobs.append((cfg, exe, f))
    def go(j):
        cfg, exe, f = j
        cmd = [exe, f, c.tier, mf]
        p = c.run(cmd, timeout=3000)
        return cfg, c.absorb(p, cfg.name, " ".join(["value", f, c.tier]))
    top = 30 if c.thorough else 28
    def long_ones(j):
        cfg, big, f = j
        ls = c.longer(mf, top if not cfg.m32 else min(top, 29))
        if cfg.name not in ("gcc64", "gcc32"):
            ls = ls if c.thorough else ls[1::3]
        return cfg, c.absorb(c.run([big, f, "1"] + [str(x) for x in ls], timeout=3000), cfg.name, " ".join(["huge", f]))
    bigs = c.map(lambda cfg: (cfg, c.huge(cfg, libs[cfg.name])), [x for x in cfgs if libs[x.name]])
    golden = 0
    if c.pid == "P04":  # every update history as well
        import c_p03
        c_p03.explore(c, cfgs, libs, mf, "ref")
        golden += c.cov["traces_validated_against_impl"]
    for cfg, st in c.map(go, jobs):
        c.add(st, 0)
        golden += st.get("golden", 0)
    for cfg, st in c.map(long_ones, [(cfg, big, f) for cfg, big in bigs for f in FUNCS[c.pid]]):
        c.add(st, 0)
    c.cov["traces_validated_against_impl"] = golden
    c.assumptions += ["the reference model (ref/ref.c) is the published algorithm; it reproduces all 810 published vectors",
                      "data values outside the enumerated alphabets behave like those inside (shapes - length, alignment, placement - are exhaustive up to the stated bounds)"]
    return c.finish(configurations=[x.name for x in cfgs if libs[x.name]], mined_constants=nm,
                    bounds="lengths 0..%d exhaustively x 6 tapes x seeds x placements; around 2^k up to 2^%d densely, to 2^%d sparsely; every bit of messages up to %d bytes; "
                    "all seed bits and pairs; all 1..%d-byte messages; multiplier operands on arithmetic edges; constants mined from the object code"
                    % ((4400, 22, 30, 400, 3) if c.thorough else (1100, 20, 28, 160, 2)))
