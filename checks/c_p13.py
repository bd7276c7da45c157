"""P13: all interleavings of pairs of calls up to a preemption bound, on the instrumented library."""
from vlib import *


def run(c):
    cfgs = [Cfg("clang64", cc="clang", opt="-O1", flags=[NOIF]), Cfg("clang64-U0-exact", cc="clang", opt="-O1", flags=[NOIF, U(0), O0]),
            Cfg("clang32", cc="clang", m32=True, opt="-O1", flags=[NOIF])]
    if c.thorough:
        cfgs += [Cfg("clang64-U1", cc="clang", opt="-O2", flags=[NOIF, U(1)]), Cfg("clang64-O0", cc="clang", opt="-O0", flags=[NOIF], ndebug=False),
                 Cfg("clang32-U0", cc="clang", m32=True, opt="-O1", flags=[NOIF, U(0)])]
    jobs = []
    for cfg in cfgs:
        cfg.lib = True
        tsan = not cfg.m32
        extra = ["-fsanitize=thread"] if tsan else ["-fsanitize-coverage=bb,trace-loads,trace-stores"]
        objs = c.build_lib(cfg, extra=extra + ["-fno-builtin"])
        for o in objs:
            c.run(["objcopy"] + sum([["--redefine-sym", "%s=sched_%s" % (f, f)] for f in ("memcpy", "memmove", "memset")], []) + [o], check=True)
        so = os.path.join(c.tmp, "libt1ha-%s.so" % cfg.name)
        mine = os.path.join(c.tmp, "sched_lib-%s.o" % cfg.name)
        c.cc([cfg.cc, "-std=gnu11", "-O1", "-fPIC", "-w", "-I", REPO] + cfg.arch() + cfg.defs() + extra + ["-c", os.path.join(HARN, "sched_lib.c"), "-o", mine])
        c.cc([cfg.cc] + cfg.arch() + ["-shared", "-o", so, mine] + objs)
        # the same before its constructors have run
        early = []
        for o in objs:
            e = o[:-2] + "-early.o"
            secs = set(w for l in c.run(["readelf", "-SW", o], check=True).out.splitlines() for w in l.replace("[", " ").replace("]", " ").split()
                       if w.startswith((".init_array", ".ctors")))
            c.run(["objcopy"] + sum([["--rename-section", x + "=verif_ctors_sec,alloc,load,data"] for x in sorted(secs)], []) + [o, e], check=True)
            early.append(e)
        so2 = os.path.join(c.tmp, "libt1ha-%s-early.so" % cfg.name)
        c.cc([cfg.cc] + cfg.arch() + ["-shared", "-o", so2, mine] + early)
        exe = c.harness(cfg, "sched.c", [], link=["-rdynamic", "-ldl", "-lpthread"], ref=False)
        jobs += [(cfg, exe, so, tsan, i, []) for i in range(8)] + [(cfg, exe, so2, tsan, i, ["early"]) for i in range(8)]
    def go(j):
        cfg, exe, so, tsan, i, early = j
        return c.absorb(c.run([exe, so, c.tier, "1" if tsan else "0", str(i), "8"] + early, timeout=3000), cfg.name + "".join(early), "sched part %d" % i)
    pairs = 0
    for st in c.map(go, jobs):
        c.add(st)
        pairs += st.get("pairs", 0)
    c.assumptions += ["steps are the memory accesses compiled from C (clang instrumentation), memory is sequentially consistent between them",
                      "dispatch by function pointer is explored; with ifunc there is no run-time state"]
    return c.finish(configurations=[x.name for x in cfgs], pairs_of_calls=pairs,
                    bounds="2 threads, one API call each (3 for streams), preemption bound %d" % (3 if c.thorough else 2))
