"""P26: what a call takes besides its arguments: stack, heap, kernel."""
from vlib import *


def run(c):
    cfgs = core_configs(c.thorough) + [Cfg("gcc64-noif", flags=[NOIF]), Cfg("gcc32-O0", m32=True, opt="-O0", ndebug=False), Cfg("clang64-O0", cc="clang", opt="-O0", ndebug=False),
                                       Cfg("clang32-O0-U1-exact", cc="clang", m32=True, opt="-O0", flags=[U(1), O0]), Cfg("gcc32-U2-exact", m32=True, flags=[U(2), O0])]
    libs = c.build_libs(cfgs)
    deepest = {}

    def go(cfg):
        limit = 8192 if cfg.opt == "-O0" else 4096
        exe = c.harness(cfg, "frugal.c", libs[cfg.name], link=["-Wl,-z,now"])
        st = c.absorb(c.run([exe, c.tier, str(limit)], timeout=3000), cfg.name, "frugal %s %d" % (c.tier, limit))
        deepest[cfg.name] = st.get("deepest")
        return st
    for st in c.map(go, [x for x in cfgs if libs[x.name]]):
        c.add(st)
    c.assumptions += ["'small' stack: 4 KiB, 8 KiB in builds without optimisation (measured from the caller's frame)"]
    return c.finish(configurations=[x.name for x in cfgs], deepest_stack=deepest,
                    bounds="every length 0..%d x 16 placements, lengths up to 1 MiB x 8 alignments, every pair of stream pieces up to 64+%d bytes" % ((1100, 260) if c.thorough else (400, 130)))
