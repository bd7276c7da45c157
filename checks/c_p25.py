"""P25: a hashing signal handler at every instruction of every call."""
from vlib import *


def run(c):
    cfgs = [Cfg("gcc64"), Cfg("gcc32", m32=True), Cfg("clang64-U0-exact", cc="clang", opt="-O2", flags=[U(0), O0]), Cfg("clang32", cc="clang", opt="-O2", m32=True), Cfg("gcc32-noif-U1-exact", m32=True, flags=[NOIF, U(1), O0])]
    if c.thorough:
        cfgs += [Cfg("gcc64-noif", flags=[NOIF]), Cfg("clang64", cc="clang", opt="-O2"), Cfg("gcc64-U1-exact", flags=[U(1), O0]),
                 Cfg("gcc64-O1", opt="-O1", ndebug=False), Cfg("gcc32-Os", opt="-Os", m32=True)]
    libs = c.build_libs(cfgs)
    exes = c.map(lambda x: (x, c.harness(x, "intr.c", libs[x.name], extra=["-fno-pie"], link=["-no-pie"])), [x for x in cfgs if libs[x.name]])
    N = 8
    def go(j):
        cfg, exe, p = j
        return c.absorb(c.run([exe, c.tier, str(p), str(N)], timeout=3000), cfg.name, "intr %s %d %d" % (c.tier, p, N))
    for st in c.map(go, [(cfg, exe, p) for cfg, exe in exes for p in range(N)]):
        c.add(st)
    c.assumptions += ["interruptions happen between instructions of the outer call (the processor's single-step trap); the handler is not interrupted in turn"]
    return c.finish(configurations=[x.name for x in cfgs],
                    bounds="every pair of (13 entry points x 9 shapes + stream operations) x inner calls, one interruption at every instruction, and interruptions at all instructions at once")
