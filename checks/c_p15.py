"""P15: fault injection into the functions under the built self-checks, on modelled machines."""
from vlib import *
import cpuenv


def run(c):
    NI = ["-fno-inline"]
    cfgs = [Cfg("gcc64", flags=NI), Cfg("gcc32", m32=True, flags=NI), Cfg("clang64", cc="clang", opt="-O2", flags=NI), Cfg("clang32", cc="clang", m32=True, opt="-O2", flags=NI),
            Cfg("gcc64-not1ha1", flags=NI + ["-DT1HA1_DISABLED"]), Cfg("gcc64-not1ha2", flags=NI + ["-DT1HA2_DISABLED"]), Cfg("gcc64-not1ha0", flags=NI + ["-DT1HA0_DISABLED"]),
            Cfg("gcc64-noaes", flags=NI + ["-DT1HA0_AESNI_AVAILABLE=0"])]
    if c.thorough:
        cfgs += [Cfg("gcc32-not1ha1", m32=True, flags=NI + ["-DT1HA1_DISABLED"]), Cfg("gcc32-noaes", m32=True, flags=NI + ["-DT1HA0_AESNI_AVAILABLE=0"]),
                 Cfg("gcc64-norts", flags=NI + ["-DT1HA0_RUNTIME_SELECT=0"]), Cfg("gcc64-only2", flags=NI + ["-DT1HA0_DISABLED", "-DT1HA1_DISABLED"]), Cfg("gcc64-noif-O1", opt="-O1", flags=NI + [NOIF]),
                 Cfg("gcc64-U0", flags=NI + [U(0), O0])]
    def go(cfg):
        so = c.build_so(cfg)
        env, table, n = cpuenv.patch(c, so, cpuenv.disassemble(c, so))
        exe = c.harness(cfg, "selfchk.c", [], link=["-ldl"])
        return c.absorb(c.run([exe, env, table, c.tier], timeout=3000), cfg.name, "selfchk " + c.tier)
    for st in c.map(go, cfgs):
        c.add(st)
    c.assumptions += ["self-checks reach the hash functions by calls (built with -fno-inline)", "the high halves of the 128-bit functions have no published vectors"]
    return c.finish(configurations=[x.name for x in cfgs],
                    bounds="every function x 81 vectors x 64 bits and 3 other faults; all pairs of vectors x %d bits; all sets of faulty functions; 9 machines" % (64 if c.thorough else 4))
