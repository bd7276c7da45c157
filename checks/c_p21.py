"""P21: callers optimised together with the library."""
from vlib import *

ENT = {"t1ha2_atonce": ["t1ha2.c"], "t1ha2_atonce128": ["t1ha2.c"], "stream64": ["t1ha2.c"], "stream128": ["t1ha2.c"],
       "t1ha1_le": ["t1ha1.c"], "t1ha1_be": ["t1ha1.c"], "t1ha0_32le": ["t1ha0.c", "t1ha1.c", "t1ha2.c"], "t1ha0_32be": ["t1ha0.c", "t1ha1.c", "t1ha2.c"],
       "t1ha0": ["t1ha0.c", "t1ha1.c", "t1ha2.c"],
       "t1ha0_ia32aes_noavx": ["t1ha0_ia32aes_noavx.c"], "t1ha0_ia32aes_avx": ["t1ha0_ia32aes_avx.c"], "t1ha0_ia32aes_avx2": ["t1ha0_ia32aes_avx2.c"]}
SIMD = {"t1ha0_ia32aes_noavx": ["-maes"], "t1ha0_ia32aes_avx": ["-mavx", "-maes"], "t1ha0_ia32aes_avx2": ["-mavx2", "-maes"]}
LLVM = "/usr/lib/llvm-18/bin/"


def run(c):
    src = os.path.join(HARN, "lto.c")
    c.ref_obj(), c.ref_obj(True)
    jobs = []
    T = c.thorough
    for e in ENT:
        for m32 in (False, True):
            b = 32 if m32 else 64
            for cc in ("gcc", "clang"):
                for kind in ("unity-flat", "lto", "lto-flat", "unity"):
                    for opt in ("-O1", "-O2", "-O3", "-Os"):
                        for u in (None, 0, 1):
                            for o in (None, 0):
                                for nd in (True, False):
                                    odd = (u is not None) + (o is not None) + (not nd)
                                    if not T:
                                        # the default build most thoroughly, one deviation from it elsewhere
                                        if odd > 1 or (odd == 1 and (kind, opt) != (("unity-flat", "-O2") if u is not None or o is not None else ("lto", "-O3"))):
                                            continue
                                        if odd == 1 and (cc == "clang" or m32):
                                            continue
                                        if odd == 0 and (kind, opt) not in (("unity-flat", "-O2"), ("unity-flat", "-O3"), ("lto", "-O2"), ("lto", "-O3"),
                                                                            ("lto-flat", "-O3"), ("unity", "-O1"), ("unity", "-Os")):
                                            continue
                                        if odd == 0 and m32 and (kind, opt) not in (("unity-flat", "-O2"), ("lto", "-O3")):
                                            continue
                                        if odd == 0 and cc == "clang" and (kind, opt) not in (("unity-flat", "-O2"), ("lto", "-O3"), ("unity", "-Os")):
                                            continue
                                    elif odd > 1 and opt != "-O2":
                                        continue
                                    jobs.append((e, m32, cc, kind, opt, u, o, nd))

    def one(j):
        e, m32, cc, kind, opt, u, o, nd = j
        name = "%s-%s%d-%s%s%s%s%s" % (e, cc, 32 if m32 else 64, kind, opt, "" if u is None else "-U%d" % u, "" if o is None else "-exact", "" if nd else "-assert")
        d = os.path.join(c.tmp, name)
        os.makedirs(d)
        base = [cc, "-std=gnu11", opt, "-w", "-fno-stack-protector", "-I", REPO, "-I", os.path.join(REPO, "src")] + (["-m32"] if m32 else [])
        base += ([U(u)] if u is not None else []) + ([O0] if o is not None else []) + (["-DNDEBUG"] if nd else [])
        mine = ["-DENTRY=" + e] + (["-DFLAT"] if "flat" in kind else []) + (["-DBIGSET"] if T else []) + (["-DSMALLSET"] if not T and (m32 or kind == "lto-flat") else [])
        if cc == "clang" and "flat" in kind:
            mine += ["-mllvm", "-inline-threshold=100000"]
        simd = SIMD.get(e, [])
        exe = os.path.join(d, "x")
        ref = c.ref_obj(m32)
        if kind.startswith("unity"):
            if not e.startswith("t1ha0_ia32"):
                base.append("-DT1HA0_AESNI_AVAILABLE=0")
            if e == "t1ha0":
                base.append("-DT1HA0_RUNTIME_SELECT=0")
            units = ["-DUNITY%s=\"%s\"" % ("" if i == 0 else str(i + 1), os.path.join(REPO, "src", f)) for i, f in enumerate(ENT[e])]
            c.run(base + mine + units + simd + [src, ref, "-o", exe], check=True, timeout=800)
        elif cc == "gcc":
            objs = []
            for s in c.sources():
                if "selfcheck" in os.path.basename(s):
                    continue
                x = os.path.join(d, os.path.basename(s)[:-2] + ".o")
                c.run(base + [f for f in Cfg("x").cflags(s) if f.startswith(("-mno-", "-mav", "-maes"))] + ["-flto", "-c", s, "-o", x], check=True)
                objs.append(x)
            x = os.path.join(d, "caller.o")
            c.run(base + mine + simd + ["-flto", "-c", src, "-o", x], check=True, timeout=800)
            c.run(base + ["-flto=1", x] + objs + [ref, "-o", exe], check=True, timeout=800)
        else:
            bcs = []
            for s in c.sources() + [src]:
                if "selfcheck" in os.path.basename(s):
                    continue
                x = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
                f = [f for f in Cfg("x").cflags(s) if f.startswith(("-mno-", "-mav", "-maes"))]
                c.run(base + (mine + simd if s == src else f) + ["-flto", "-c", s, "-o", x], check=True)
                bcs.append(x)
            all_bc = os.path.join(d, "all.bc")
            c.run([LLVM + "llvm-link"] + bcs + ["-o", all_bc], check=True)
            # what the link step does: everything is internal but main
            c.run([LLVM + "opt", "-passes=internalize,globaldce,default<%s>" % opt[1:].replace("O3", "O3"), "--internalize-public-api-list=main",
                   "-inline-threshold=%d" % (100000 if "flat" in kind else 500), all_bc, "-o", all_bc + "2"], check=True, timeout=800)
            os.rename(all_bc + "2", all_bc)
            c.run(["clang", opt, "-w", "-c", all_bc, "-o", os.path.join(d, "all.o")] + (["-m32"] if m32 else []), check=True, timeout=800)
            c.run(["clang", os.path.join(d, "all.o"), ref, "-o", exe] + (["-m32"] if m32 else []), check=True)
        st = c.absorb(c.run([exe], timeout=300), name, "lto " + name)
        shutil.rmtree(d, True)
        return st

    built, broken = 0, []
    def safe(j):
        try:
            return one(j)
        except BuildError as x:
            return x
    for j, st in zip(jobs, c.map(safe, jobs)):
        if isinstance(st, BuildError):
            broken.append("%s: %s" % (j, str(st)[-300:]))
        else:
            c.add(st)
            built += 1
    c.notes += broken[:10]
    if len(broken) * 4 > len(jobs):
        raise RuntimeError("too many programs do not build: " + broken[0])
    c.cov["samples"] += ["%s" % (j,) for j in jobs[::max(1, len(jobs) // 20)]]
    c.assumptions += ["gcc 13 and clang 18; object types, sizes and use patterns of harness/lto.c"]
    return c.finish(programs=built)
