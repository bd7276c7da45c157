"""Foreign targets: clang compiles the library for them to LLVM IR, ir2c turns that into C which runs on the
simulated machine of harness/vm.h."""
import os
import ir2c, vlib
from vlib import REPO, VERIF, HARN, U, O0

# name, triple, extra flags
BE64 = [("ppc64", "powerpc64-linux-gnu", []), ("s390x", "s390x-linux-gnu", []), ("sparc64", "sparc64-linux-gnu", []),
        ("mips64", "mips64-linux-gnuabi64", []), ("aarch64_be", "aarch64_be-linux-gnu", [])]
BE32 = [("ppc32", "powerpc-linux-gnu", []), ("mips", "mips-linux-gnu", []), ("sparc", "sparc-linux-gnu", []),
        ("armeb", "armebv7-linux-gnueabi", []), ("mips64n32", "mips64-linux-gnuabin32", []), ("m68k", "m68k-linux-gnu", [])]
LE64 = [("aarch64", "aarch64-linux-gnu", []), ("riscv64", "riscv64-linux-gnu", []), ("ppc64le", "powerpc64le-linux-gnu", []),
        ("mips64el", "mips64el-linux-gnuabi64", []), ("win64", "x86_64-pc-windows-gnu", ["-DT1HA0_AESNI_AVAILABLE=0"]),
        ("winarm64", "aarch64-pc-windows-gnu", []), ("loongarch64", "loongarch64-linux-gnu", [])]
LE32 = [("armv7", "armv7-linux-gnueabi", []), ("armv5", "armv5-linux-gnueabi", []), ("armv6m", "armv6m-none-eabi", []),
        ("mipsel", "mipsel-linux-gnu", []), ("riscv32", "riscv32-linux-gnu", []), ("wasm32", "wasm32", []),
        ("x32", "x86_64-linux-gnux32", ["-DT1HA0_AESNI_AVAILABLE=0"]), ("win32", "i686-pc-windows-gnu", ["-DT1HA0_AESNI_AVAILABLE=0"])]

SRC = ["t1ha0.c", "t1ha1.c", "t1ha2.c", "t1ha0_selfcheck.c", "t1ha1_selfcheck.c", "t1ha2_selfcheck.c", "t1ha_selfcheck.c",
       "t1ha_selfcheck_all.c"]


class FCfg:
    """unaligned: 0/1/2 or None (whatever the target's own detection says); exact: one-shot reads off"""
    def __init__(self, tgt, unaligned=None, exact=False, opt="-O2", flags=(), ndebug=True, tag="", only=None):
        self.name = "%s%s%s%s%s%s" % (tgt[0], "" if unaligned is None else "-U%d" % unaligned, "-exact" if exact else "", opt,
                                      "" if ndebug else "-assert", tag)
        self.ia32 = tgt[1].startswith(("x86_64", "i686", "i386"))
        self.only = only
        self.tgt, self.unaligned, self.exact, self.opt = tgt, unaligned, exact, opt
        self.flags = ["--target=" + tgt[1], "-std=c11", "-nostdlibinc", "-isystem", os.path.join(VERIF, "include"),
                      "-I", REPO, opt, "-fno-vectorize", "-fno-slp-vectorize", "-w", "-S", "-emit-llvm", "-o", "-", "-fno-stack-protector"]
        self.flags += tgt[2] + list(flags)
        if unaligned is not None:
            self.flags.append(U(unaligned))
        if exact:
            self.flags.append(O0)
        if ndebug:
            self.flags.append("-DNDEBUG")


def build(c, cfg):
    """-> explorer binary, or (None, why); falls back to less optimised code if that cannot be translated"""
    last = None
    for opt in (cfg.opt, "-O1", "-O0"):
        try:
            return build1(c, cfg, opt)
        except ir2c.Unsupported as e:
            last = e
    raise last


def build1(c, cfg, opt):
    srcs = c.sources()
    texts = []
    for s in srcs + [os.path.join(HARN, "vmwrap.c")]:
        if "ia32aes" in os.path.basename(s):
            continue
        p = c.run(["clang"] + cfg.flags + [opt, s])
        if p.returncode:
            return None, "%s does not compile for %s: %s" % (os.path.basename(s), cfg.name, p.err[-600:])
        texts.append(p.out)
    gen = ir2c.translate(texts)
    g = os.path.join(c.tmp, "gen-%s.c" % cfg.name)
    with open(g, "w") as h:
        h.write(gen)
    out = os.path.join(c.tmp, "foreign-" + cfg.name)
    p = c.run(["gcc", "-O1", "-w", "-fno-strict-aliasing", "-std=gnu11", "-I", HARN, '-DGEN="%s"' % g, os.path.join(HARN, "foreign.c"),
          c.ref_obj(), "-o", out])
    if p.returncode:
        raise ir2c.Unsupported("translation not accepted: " + p.err[:500])
    return out, None


def explore(c, todo, aspects):
    """aspects: v(alue) a(lignment) p(age) e(xact reads); alignment is no issue on x86"""
    c.ref_obj()

    def one(f):
        try:
            exe, why = build(c, f)
        except ir2c.Unsupported as e:
            return f, None, None, str(e)
        if not exe:
            return f, None, why, None
        a = aspects.replace("a", "") if f.ia32 else aspects
        if f.only:
            a = "".join(x for x in a if x in f.only)
        if not f.exact:
            a = a.replace("e", "")
        p = c.run([exe, f.name, "700" if c.thorough else "330", a, str(c.seed), "16" if c.thorough else "4"])
        return f, p, None, None

    unsup, done = [], 0
    for f, p, why, un in c.map(one, todo):
        if un:
            unsup.append("%s: %s" % (f.name, un))
        elif why:
            if "v" in aspects:
                c.violation(f.name, why)
            else:
                c.notes.append(why)
        else:
            c.add(c.absorb(p, f.name, "foreign " + f.name))
            done += 1
    c.notes += ["not translated: " + u for u in unsup]
    if len(unsup) * 4 > len(todo):
        raise RuntimeError("too many targets cannot be translated: %s" % unsup[:3])
    c.assumptions += ["foreign targets: clang's front end and optimiser for the target stand for the target's compilers; their LLVM IR is executed by ir2c/vm.h",
                      "machine code generation of foreign back ends is not covered"]
    return done
