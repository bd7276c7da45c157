"""P19: all single-bit and lengthening neighbours of enumerated base points."""
from vlib import *


def run(c):
    cfgs = core_configs(c.thorough)
    libs = c.build_libs(cfgs)
    exes = c.map(lambda cfg: (cfg, c.harness(cfg, "sens.c", libs[cfg.name])), [x for x in cfgs if libs[x.name]])
    def go(j):
        cfg, exe, n = j
        return c.absorb(c.run([exe, c.tier, str(n)], timeout=3000), cfg.name, "sens %s %d" % (c.tier, n))
    for st in c.map(go, [(cfg, exe, n) for n in range(13) for cfg, exe in exes]):
        c.add(st)
    c.assumptions += ["base points: 4 data patterns x 3 seed pairs; other base points behave like these"]
    return c.finish(configurations=[x.name for x in cfgs if libs[x.name]],
                    bounds="every bit of messages of 0..%d bytes and of chosen lengths up to 65538, every seed bit, every appended byte, 1..64 appended zero bytes; all lengths up to %d of repeated bytes are pairwise different" % ((600, 60000) if c.thorough else (230, 12000)))
