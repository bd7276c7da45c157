"""P08: every machine environment x the real dispatch code of the built shared library."""
from vlib import *
import cpuenv


def run(c):
    cfgs = [Cfg("gcc64"), Cfg("gcc64-noif", flags=[NOIF]), Cfg("gcc32", m32=True), Cfg("gcc32-noif", m32=True, flags=[NOIF]),
            Cfg("clang64", cc="clang", opt="-O2"), Cfg("clang32-noif", cc="clang", m32=True, flags=[NOIF])]
    if c.thorough:
        cfgs += [Cfg("gcc64-O0", opt="-O0", ndebug=False), Cfg("gcc64-Os-noif", opt="-Os", flags=[NOIF]), Cfg("clang64-noif", cc="clang", opt="-O3", flags=[NOIF]),
                 Cfg("gcc32-O1", m32=True, opt="-O1", ndebug=False)]
    insns = [0]
    def go(cfg):
        noif = NOIF in cfg.flags
        # on i386 the default is dispatch by pointer unless the compiler provides ifunc: ask the header
        p = c.run([cfg.cc] + cfg.arch() + cfg.defs() + ["-I", REPO, "-E", "-P", "-x", "c", "-"],
                  input=b'#include "t1ha.h"\nT1HA_RT T1HA0_RUNTIME_SELECT T1HA_USE_INDIRECT_FUNCTIONS\n', check=True)
        w = re.search(r"T1HA_RT (.*)", p.out).group(1).split()
        noif = w[1] == "0"
        so = c.build_so(cfg)
        ins = cpuenv.disassemble(c, so)
        env, table, n = cpuenv.patch(c, so, ins)
        exe = c.harness(cfg, "dispatch.c", [], link=["-ldl"])
        if not n:
            c.violation(cfg.name, "the library contains no CPU query at all: t1ha0() cannot depend on the machine", "objdump")
            return {}
        p = c.run([exe, env, table, "1" if noif else "0", c.tier], timeout=3000)
        st = c.absorb(p, cfg.name, "dispatch " + c.tier)
        # instructions executed per choice, classified
        p = c.run([exe, env, table, "1" if noif else "0", "trace"], timeout=3000)
        st2 = c.absorb(p, cfg.name, "dispatch trace")
        allowed = [{"sse", "mmx"} if not cfg.m32 else set()] + [{"sse", "mmx", "aes", "sse3+"} | x for x in (set(), {"avx"}, {"avx", "avx2"})]
        done = {}
        for line in p.out.splitlines():
            w = line.split()
            if w[:1] != ["TRACE"]:
                continue
            what, var = w[1].split("@")
            off = int(w[2], 16)
            if off not in ins:
                continue
            a = allowed[int(var)] if what == "t1ha0" else allowed[0]
            need = cpuenv.isa(ins[off][1])
            done.setdefault(w[1], 0)
            done[w[1]] += 1
            if not need <= a:
                c.violation(cfg.name, "%s on a machine of class %s executes '%s' (needs %s)" % (what, ("no AES", "AES without AVX", "AES and AVX", "AES and AVX2")[int(var)],
                                                                                             ins[off][1], ",".join(sorted(need - a))), "dispatch trace")
        if not c.viol and not any(k.startswith("t1ha0@") for k in done):
            raise RuntimeError("nothing traced")
        with c.lock:
            insns[0] += sum(done.values())
        for k in ("transitions",):
            st[k] = st.get(k, 0) + st2.get(k, 0)
        return st
    for st in c.map(go, cfgs):
        c.add(st)
    c.assumptions += ["a machine is what cpuid leaves 0, 1, 7 and XCR0 answer; a CPU without the cpuid instruction is not modelled",
                      "AES-NI implies SSE4.2 on every real machine"]
    return c.finish(configurations=[x.name for x in cfgs], distinct_instructions_classified=insns[0],
                    bounds="12 maximal leaves x AES,XSAVE,OSXSAVE,AVX,AVX2 x 16 XCR0 values x 4 kinds of undefined leaves x 3 fillings of all other bits; every single bit%s of all answers flipped around 4 machines; max leaf 0..63" % (" and pair of bits" if c.thorough else ""))
