"""P20: t1ha0() at every moment of a process's life."""
from vlib import *

ALL = (1 << 14) - 1
LIBM = 1 << 1 | 1 << 13
PLUG = 1 << 8 | 1 << 9


def run(c):
    NOATTR = ["-U__has_attribute", "-D__has_attribute(x)=0"]  # indirect functions by an assembler directive
    RS0 = "-DT1HA0_RUNTIME_SELECT=0"
    drv = os.path.join(c.tmp, "lifedrv")
    c.cc(["gcc", "-O2", "-w", "-I", REPO, os.path.join(HARN, "lifedrv.c"), "-o", drv])
    todo = []  # configuration, kind of linking, link flags
    for cc in ("gcc", "clang"):
        for m32 in (False, True):
            b = "%s%d" % (cc, 32 if m32 else 64)
            opt = "-O3" if cc == "gcc" else "-O2"
            d = Cfg(b, cc=cc, m32=m32, opt=opt)
            n = Cfg(b + "-noif", cc=cc, m32=m32, opt=opt, flags=[NOIF])
            todo += [(d, "shared", ["-Wl,-z,now"]), (n, "shared", ["-Wl,-z,lazy"]), (d, "static", []), (n, "static", [])]
            if cc == "gcc":
                todo += [(d, "shared", ["-Wl,-z,lazy"]), (d, "full", ["-static"]), (n, "full", ["-static"]), (n, "static", ["-no-pie"])]
            if cc == "gcc" and not m32:
                todo += [(d, "static", ["-no-pie"]), (d, "full", ["-static-pie"]), (n, "shared", ["-Wl,-z,now"])]
    todo += [(Cfg("gcc64-norts", flags=[RS0]), "shared", []), (Cfg("gcc64-noaes", flags=["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1"]), "shared", []),
             (Cfg("gcc64-noaes-noif", flags=["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1", NOIF]), "static", []),
             (Cfg("gcc64-oldif", flags=NOATTR), "shared", []), (Cfg("gcc64-oldif", flags=NOATTR), "static", []),
             (Cfg("gcc64-noif-O0", opt="-O0", flags=[NOIF]), "static", [])]
    if c.thorough:
        todo += [(Cfg("gcc64-cet", flags=["-fcf-protection=full"]), "shared", []), (Cfg("gcc64-v3", flags=["-march=x86-64-v3"]), "static", []),
                 (Cfg("gcc64-if1", flags=["-DT1HA_USE_INDIRECT_FUNCTIONS=1"]), "static", [])]

    def build(t):
        cfg, kind, link = t
        name = "%s-%s%s" % (cfg.name, kind, "".join(link).replace("-Wl,-z,", "-").replace("-", "_"))
        d = os.path.join(c.tmp, name)
        os.makedirs(d)
        cc = [cfg.cc, "-std=gnu11", "-O1", "-w", "-I", REPO, "-I", HARN, "-pthread"] + cfg.arch() + cfg.defs()
        lib = Cfg(cfg.name, cc=cfg.cc, m32=cfg.m32, opt=cfg.opt, flags=list(cfg.flags))
        src = os.path.join(HARN, "life.c")
        ref = os.path.join(d, "ref.o")
        c.cc(["gcc", "-O1", "-w", "-fPIC", "-c", os.path.join(REF, "ref.c"), "-o", ref] + cfg.arch())
        exe = os.path.join(d, "program")
        if kind == "shared":
            # the consumer's side of a shared library
            cc += ["-Dt1ha_IMPORTS"]
            so = c.build_so(lib, tag="-" + name, link=["-Wl,-soname,libt1ha.so"] + link)
            os.rename(so, os.path.join(d, "libt1ha.so"))
            use = ["-L" + d, "-lt1ha", "-Wl,-rpath," + d]
            own = []
        else:
            objs = c.build_lib(lib, extra=["-fPIC", "-fvisibility=hidden"], tag="-" + name)
            use, own = objs, objs
        libs, can, arg = [], ALL, []
        if kind != "full":
            c.cc(cc + ["-fPIC", "-shared", "-DLIFE_LIB", src, ref] + own + ["-o", os.path.join(d, "liblife.so")] + (use if not own else []) +
                 [x for x in link if x != "-no-pie"])
            c.cc(cc + ["-fPIC", "-shared", "-DLIFE_PLUGIN", src, ref] + own + ["-o", os.path.join(d, "plugin.so")] + (use if not own else []) +
                 [x for x in link if x != "-no-pie"])
            libs = ["-Wl,--no-as-needed", "-L" + d, "-llife", "-Wl,-rpath," + d]
            arg = [os.path.join(d, "plugin.so")]
        else:
            can &= ~(LIBM | PLUG)
        c.cc(cc + (["-fPIE"] if "-no-pie" not in link and link != ["-static"] else []) + ["-DLIFE_PROGRAM", src, ref] + libs + use + ["-o", exe] + link)
        return name, [exe] + arg, can

    built = []
    for t, r in zip(todo, c.map(lambda t: build(t), todo)):
        built.append(r)
    jobs = []
    full = ("gcc64-shared-now", "gcc64-noif-static", "gcc32-static")
    for name, cmd, can in built:
        lim = "14" if c.thorough or name in full else "3"
        for part in range(4):
            jobs.append((name, [drv, str(can), "3" if c.thorough else "1", str(part), "4", lim] + cmd))
    jobs = sorted(jobs, key=lambda j: j[1][3])

    def go(j):
        return c.absorb(c.run(j[1], timeout=3000), j[0], " ".join(os.path.basename(x) for x in j[1]))
    for st in c.map(go, jobs):
        c.add(st)
    c.assumptions += ["a library that uses libt1ha.so names it as a dependency", "not built with -fsanitize=thread, nor statically with -fstack-protector-all and indirect functions"]
    return c.finish(linkings=[b[0] for b in built])
