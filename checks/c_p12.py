"""P12: histories of calls on the shared library; its whole writable memory is the state."""
from vlib import *


def run(c):
    cfgs = [Cfg("gcc64"), Cfg("gcc64-noif", flags=[NOIF]), Cfg("gcc32", m32=True), Cfg("gcc32-noif", m32=True, flags=[NOIF]),
            Cfg("clang64", cc="clang", opt="-O2"), Cfg("clang32-noif", cc="clang", m32=True, flags=[NOIF]),
            Cfg("gcc64-U0-exact", flags=[U(0), O0]), Cfg("gcc32-U1-exact", m32=True, flags=[U(1), O0])]
    if c.thorough:
        cfgs += [Cfg("gcc64-O1", opt="-O1", ndebug=False), Cfg("clang64-U0-noif", cc="clang", flags=[U(0), NOIF]), Cfg("gcc32-Os", m32=True, opt="-Os")]
    def go(cfg):
        so = c.build_so(cfg)
        noif = "1" if NOIF in cfg.flags else "0"
        exe = c.harness(cfg, "hist.c", [], link=["-ldl"], ref=False)
        return c.absorb(c.run([exe, so, noif, c.tier], timeout=3000), cfg.name, "hist %s %s" % (noif, c.tier))
    n = 0
    for st in c.map(go, cfgs):
        c.add(st)
        n = max(n, st.get("library_states", 0))
    c.assumptions += ["library memory = writable segments and thread-local storage of the shared object; memory obtained elsewhere (heap) is covered by the unrestored walks only"]
    return c.finish(configurations=[x.name for x in cfgs], max_library_states=n,
                    bounds="fixpoint (or %d states) of library memory under ~3900 calls; all triples of ~%d calls; each call repeated up to %d times (2^25 to 2^32 times if no fixpoint is found); 84 machine states" % ((20000, 700, 100000000) if c.thorough else (3000, 140, 1500000)))
