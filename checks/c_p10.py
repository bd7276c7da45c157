"""P10, P23: every load and store of the code, reported by compiler instrumentation."""
import subprocess
from vlib import *

COV = ["-fsanitize-coverage=bb,trace-loads,trace-stores", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin"]


def traced(c, cfg):
    objs = c.build_lib(cfg, extra=COV)
    for o in objs:
        c.run(["objcopy", "--redefine-sym", "memcpy=trace_memcpy", "--redefine-sym", "memmove=trace_memmove",
               "--redefine-sym", "memset=trace_memset", o], check=True)
    return objs


def run(c):
    exact = c.pid == "P10"
    opts = ("-O1", "-O2", "-O0") if c.thorough else ("-O1",)
    cfgs = []
    for m32 in (False, True):
        for u in ((0, 1, 2) if exact else (0,)):
            for o in opts:
                cfgs.append(Cfg("clang%d-U%d-exact%s" % (32 if m32 else 64, u, o), cc="clang", m32=m32, opt=o, flags=[U(u), O0, NOIF], ndebug=o != "-O2"))
                if not exact:
                    cfgs.append(Cfg("clang%d-U%d-oneshot%s" % (32 if m32 else 64, u, o), cc="clang", m32=m32, opt=o, flags=[U(u), NOIF], ndebug=o != "-O2"))
            if exact:
                cfgs.append(Cfg("clang%d-U%d-asan" % (32 if m32 else 64, u), cc="clang", m32=m32, opt="-O1", flags=[U(u), NOIF, "-fsanitize=address"]))
                cfgs.append(Cfg("gcc%d-U%d-asan" % (32 if m32 else 64, u), m32=m32, opt="-O2", flags=[U(u), NOIF, "-fsanitize=address"]))
    def go(cfg):
        asan = "-fsanitize=address" in cfg.flags
        env = {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:handle_abort=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=0"}
        link = ["-fsanitize=address"] if asan else []
        if asan:  # is the sanitizer runtime there for this bitness?
            t = os.path.join(c.tmp, "t-" + cfg.name)
            p = c.run([cfg.cc] + cfg.arch() + ["-fsanitize=address", "-x", "c", "-", "-o", t], input=b"int main(void){return 0;}")
            if p.returncode or c.run([t]).returncode:
                c.notes.append(cfg.name + ": no AddressSanitizer runtime here")
                return {}
        if cfg.cc == "gcc":
            objs = c.build_lib(cfg)
            exe = c.harness(cfg, "asanheap.c", objs, link=link)
            p = c.run([exe, c.tier], env=env, timeout=3000)
            if p.returncode == 77 or "ERROR: AddressSanitizer" in p.err:
                c.violation(cfg.name, "AddressSanitizer: " + p.err[:1500], "asanheap")
                return {}
            return c.absorb(p, cfg.name, "asanheap " + c.tier)
        objs = traced(c, cfg)
        exe = c.harness(cfg, "trace.c", objs, link=link)
        p = c.run([exe, "exact" if exact else "aligned", c.tier], env=env, timeout=3000)
        if "ERROR: AddressSanitizer" in p.err:
            c.violation(cfg.name, "AddressSanitizer: " + p.err[:1500], "trace")
            return {}
        return c.absorb(p, cfg.name, "trace %s %s" % ("exact" if exact else "aligned", c.tier))
    for st in c.map(go, cfgs):
        c.add(st)
    import foreign
    F = foreign.FCfg
    if exact:
        tg = [t for g in (foreign.BE64, foreign.BE32, foreign.LE64, foreign.LE32) for t in (g if c.thorough else g[:2])]
        fc = [F(t, u, True, "-O1") for t in tg for u in ((0, 1, 2) if c.thorough or t in (foreign.BE64[0], foreign.BE32[0]) else (None,))]
    else:
        fc = [F(t, u, o, "-O2") for g in (foreign.BE64, foreign.BE32, foreign.LE64, foreign.LE32) for i, t in enumerate(g)
              for u, o in (((0, True), (0, False), (None, False)) if c.thorough else ((0, i % 2 == 1),))]
    foreign.explore(c, fc, "e" if exact else "a")
    c.assumptions += ["clang's load/store instrumentation reports every access (memcpy, memmove and memset are redirected); 16-byte vector intrinsics carry their own alignment"]
    return c.finish(configurations=[x.name for x in cfgs],
                    bounds="lengths 0..%d x 32 alignments x all entry points; stream chunks up to %d bytes after 0..32 waiting bytes x 9 alignments" % ((700, 200) if c.thorough else (300, 100)))
