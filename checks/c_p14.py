"""P14: exhaustive life-cycle search over two contexts."""
from vlib import *


def run(c):
    cfgs = [x for x in core_configs(c.thorough) if c.thorough or x.name in ("gcc64", "gcc32", "clang64", "clang32", "gcc32-U0", "gcc64-U1", "gcc64-U0-exact", "gcc32-exact")]
    libs = c.build_libs(cfgs)
    def go(cfg):
        exe = c.harness(cfg, "ctx.c", libs[cfg.name])
        return c.absorb(c.run([exe, c.tier], timeout=3000), cfg.name, "ctx " + c.tier)
    for st in c.map(go, [x for x in cfgs if libs[x.name]]):
        c.add(st)
    c.assumptions += ["worlds are merged by a 64-bit fingerprint of the memory of both contexts and both models (hash compaction)",
                      "a finalised context may only be re-initialised or overwritten by a copy"]
    return c.finish(configurations=[x.name for x in cfgs if libs[x.name]],
                    bounds="all operation sequences of length %s over 2 contexts, 8 chunk sizes, 1..3 seed pairs; every placement of a context in a page; 256 initial fills" % ("10/6/6/5" if c.thorough else "8/5/5/4"))
