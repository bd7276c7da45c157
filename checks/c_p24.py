"""P24: no execution is undefined or depends on uninitialised memory.  The enumerations of the other checks, with the
library instrumented so that each undefined operation (UBSan) or use of uninitialised memory (MSan) stops the run."""
from vlib import *


def ubsan(c):
    cfgs = []
    for cc in ("gcc", "clang"):
        for m32 in (False, True):
            for u in (0, 1, 2):
                for o, opt in (((u & 1), "-O1"),) if not c.thorough else ((0, "-O0"), (1, "-O2"), (0, "-O3"), (1, "-O1")):
                    san = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
                    if u:  # such a build asks for unaligned access as the processor defines it
                        san.append("-fno-sanitize=alignment")
                    cfgs.append(Cfg("%s%d-ubsan-U%d-o%d%s" % (cc, 32 if m32 else 64, u, o, opt), cc=cc, m32=m32, opt=opt, ndebug=False,
                                    flags=[U(u), "-DT1HA_USE_FAST_ONESHOT_READ=%d" % o] + san))
    return cfgs


def msan(c):
    cfgs = []
    for u in (0, 1, 2):
        for o in (None, 0, 1):
            for opt in ("-O0", "-O2") if c.thorough else (("-O0",) if o == 1 else ("-O2",)):
                if o is not None and u == 1 and not c.thorough:
                    continue
                cfgs.append(Cfg("clang64-msan-U%d-o%s%s" % (u, "d" if o is None else o, opt), cc="clang", opt=opt, ndebug=False,
                                flags=[U(u), NOIF, "-fsanitize=memory", "-fno-sanitize-recover=all", "-g"] + ([] if o is None else ["-DT1HA_USE_FAST_ONESHOT_READ=%d" % o])))
    return cfgs


def run(c):
    ub, ms = ubsan(c), msan(c)
    plain = Cfg("gcc64")
    libs = c.build_libs([plain] + ub + ms)
    mf, nm = c.mined([libs["gcc64"]])
    jobs = []
    tier = c.tier
    for cfg in ub:
        if not libs[cfg.name]:
            continue
        for src, args in (("place.c", ["guard", tier]), ("stream.c", ["self", tier, mf]), ("ctx.c", [tier]), ("lattice.c", ["600" if c.thorough else "250"])):
            jobs.append((cfg, src, args, dict(link=["-fsanitize=undefined"])))
    for cfg in ms:
        if libs[cfg.name]:
            jobs.append((cfg, "msan.c", [tier], {}))

    def go(j):
        cfg, src, args, kw = j
        if src == "msan.c":
            exe = os.path.join(c.tmp, "msan-" + cfg.name)
            c.cc(["clang", "-std=gnu11", "-O1", "-g", "-w", "-fsanitize=memory", "-fno-sanitize-recover=all", "-I", REPO, "-I", HARN] + cfg.defs() +
                 [os.path.join(HARN, src), os.path.join(REF, "ref.c")] + libs[cfg.name] + ["-o", exe])
        else:
            exe = c.harness(cfg, src, libs[cfg.name], **kw)
        p = c.run([exe] + args, timeout=3000, env={"UBSAN_OPTIONS": "print_stacktrace=0", "MSAN_OPTIONS": "handle_segv=0"})
        m = re.search(r"^.*(runtime error:|WARNING: MemorySanitizer:|ERROR: UndefinedBehav).*$", p.err, re.M)
        if m and not p.out.count("\nFAIL") and not p.out.startswith("FAIL"):
            where = re.search(r"^\s+#0 .*$", p.err, re.M)
            c.violation(cfg.name, (m.group(0) + " " + (where.group(0).strip() if where else ""))[:600] + " in the exploration %s %s" % (src, " ".join(args)),
                        "%s %s" % (src, " ".join(args)))
            return {}
        return c.absorb(p, cfg.name + " " + src, "%s %s" % (src, " ".join(args)))
    for st in c.map(go, jobs):
        c.add(st)
    c.assumptions += ["undefined operations are those UBSan of gcc 13 and clang 18 knows; misaligned access counts only in builds configured without unaligned access",
                      "MemorySanitizer exists for 64-bit clang only"]
    return c.finish(configurations=[x.name for x in ub + ms],
                    bounds="the placements of P09, the update histories of P03, the life-cycle histories of P14, the lattice inputs of P16 under UBSan; "
                           "every length 0..300 x 32 placements and update triples up to 40 bytes with everything else uninitialised under MSan")
