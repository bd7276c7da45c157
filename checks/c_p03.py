"""P03 (and the history half of P04): explicit-state search over update histories."""
from vlib import *


def explore(c, cfgs, libs, mf, oracle):
    def go(cfg):
        exe = c.harness(cfg, "stream.c", libs[cfg.name])
        p = c.run([exe, oracle, c.tier, mf], timeout=3000)
        return cfg, c.absorb(p, cfg.name, "stream %s %s" % (oracle, c.tier))
    tot = {}
    for cfg, st in c.map(go, [x for x in cfgs if libs[x.name]]):
        c.add(st)
        for k, v in st.items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
    return tot


def run(c):
    cfgs = core_configs(c.thorough)
    libs = c.build_libs(cfgs)
    mf, nm = c.mined([libs["gcc64"], libs["gcc32"], libs["gcc64-U0"]])
    tot = explore(c, cfgs, libs, mf, "self")
    def long_ones(cfg):
        ls = c.longer(mf, 30 if c.thorough and not cfg.m32 else 28)
        if cfg.name not in ("gcc64", "gcc32"):
            ls = ls if c.thorough else ls[1::3]
        return c.absorb(c.run([c.huge(cfg, libs[cfg.name]), "selfsplit", "1"] + [str(x) for x in ls], timeout=3000), cfg.name, "huge selfsplit")
    for st in c.map(long_ones, [x for x in cfgs if libs[x.name]]):
        c.add(st)
    c.assumptions += ["bytes of the message do not steer the splitting logic except through the tapes explored"]
    return c.finish(configurations=[x.name for x in cfgs if libs[x.name]], capped_layers=tot.get("capped_layers", 0),
                    max_states_per_position=tot.get("max_states_per_position", 0),
                    exhaustive=not tot.get("capped_layers", 0),
                    bounds="all compositions of messages up to %d bytes (empty updates included; 3 initial memory fills), up to %d bytes with all 8 chunk alignments; all sequences of up to %d chunks out of 21 sizes reaching 150000 bytes; every chunk size 1..257 repeated; single chunks around 2^k up to 2^28 after a partial block" % ((1300, 300, 4) if c.thorough else (420, 140, 3)))
