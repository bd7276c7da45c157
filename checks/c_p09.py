"""P09, P11: all placements of a message."""
from vlib import *

MODE = {"P09": "guard", "P11": "around"}


def run(c):
    cfgs = core_configs(c.thorough)
    libs = c.build_libs(cfgs)
    def go(cfg):
        exe = c.harness(cfg, "place.c", libs[cfg.name])
        cmd = [exe, MODE[c.pid], c.tier]
        return cfg, c.absorb(c.run(cmd, timeout=3000), cfg.name, " ".join(["place"] + cmd[1:]))
    nb = 0
    for cfg, st in c.map(go, [x for x in cfgs if libs[x.name]]):
        c.add(st)
        nb = max(nb, st.get("bases", 0))
    if c.pid == "P09":
        import foreign
        F = foreign.FCfg
        tg = [t for g in (foreign.BE64, foreign.BE32, foreign.LE64, foreign.LE32) for t in (g if c.thorough else g[:2])]
        fc = [F(t, u, False, "-O1") for t in tg for u in ((0, 1, 2) if c.thorough or t in (foreign.BE64[0], foreign.BE32[0], foreign.LE32[0]) else (1,))]
        foreign.explore(c, fc, "p")
        c.assumptions += ["pages are 4096 bytes, as the library assumes by default"]
        b = "all lengths 0..%d ending and starting at an inaccessible page; all offsets of messages up to %d bytes in a lone page and across a border; length 0 at 78 inaccessible addresses; stream chunks after 0..33 waiting bytes" % ((12288, 300) if c.thorough else (4396, 140))
    else:
        b = "lengths 0..%d x page offsets near borders and all residues x 6 fills x every single neighbouring bit within 16 bytes; %d regions of the address space" % (300 if c.thorough else 145, nb)
    return c.finish(configurations=[x.name for x in cfgs if libs[x.name]], bounds=b)
