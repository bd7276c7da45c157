"""P22: users of the public header, and what the shared library exports."""
from vlib import *

CSTD = ["gnu89", "c99", "gnu99", "c11", "gnu11", "c17", "c2x"]
XSTD = ["c++98", "gnu++98", "c++03", "c++11", "c++14", "c++17", "gnu++17", "c++20", "c++23"]


def exports(cfg):
    """what the header declares as API in a configuration"""
    has = lambda s: any(s in x for x in cfg.flags)
    aes, rs = not has("AESNI_AVAILABLE=0"), not has("RUNTIME_SELECT=0")
    if not aes and not has("RUNTIME_SELECT=1"):
        rs = False
    ind = not cfg.m32 and not has("INDIRECT_FUNCTIONS=0")
    e = {"t1ha_selfcheck__all_enabled"}
    if not has("T1HA2_DISABLED"):
        e |= {"t1ha2_atonce", "t1ha2_atonce128", "t1ha2_init", "t1ha2_update", "t1ha2_final", "t1ha_selfcheck__t1ha2_atonce",
              "t1ha_selfcheck__t1ha2_atonce128", "t1ha_selfcheck__t1ha2_stream", "t1ha_selfcheck__t1ha2"}
    if not has("T1HA1_DISABLED"):
        e |= {"t1ha1_le", "t1ha1_be", "t1ha_selfcheck__t1ha1_le", "t1ha_selfcheck__t1ha1_be", "t1ha_selfcheck__t1ha1"}
    if not has("T1HA0_DISABLED"):
        e |= {"t1ha0_32le", "t1ha0_32be", "t1ha_selfcheck__t1ha0_32le", "t1ha_selfcheck__t1ha0_32be", "t1ha_selfcheck__t1ha0"}
        if aes:
            e |= {"t1ha_selfcheck__t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0_ia32aes_avx", "t1ha_selfcheck__t1ha0_ia32aes_avx2"}
        if rs:
            e |= {"t1ha0_resolve", "t1ha0" if ind else "t1ha0_funcptr"}
    return e


def run(c):
    B = lambda n, *f: [(n, list(f), m32, cc) for m32 in (False, True) for cc in ("gcc", "clang")]
    kinds = B("default") + B("noif", NOIF) + B("rs0", "-DT1HA0_RUNTIME_SELECT=0") + B("rs0def", "-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1") + \
        B("aes0", "-DT1HA0_AESNI_AVAILABLE=0") + B("aes0rs1", "-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1") + \
        B("no0", "-DT1HA0_DISABLED=1") + B("no1", "-DT1HA1_DISABLED=1") + B("no2", "-DT1HA2_DISABLED=1") + \
        B("no12rs0", "-DT1HA1_DISABLED=1", "-DT1HA2_DISABLED=1", "-DT1HA0_RUNTIME_SELECT=0") + B("no1rs0", "-DT1HA1_DISABLED=1", "-DT1HA0_RUNTIME_SELECT=0")
    if not c.thorough:
        kinds = [k for k in kinds if k[3] == "gcc" or k[0] in ("default", "noif")]
    c.ref_obj(), c.ref_obj(True)
    src = os.path.join(HARN, "usage.c")

    def lib(k):
        n, f, m32, cc = k
        cfg = Cfg("%s%d-%s" % (cc, 32 if m32 else 64, n), cc=cc, m32=m32, flags=f, opt="-O3" if cc == "gcc" else "-O2")
        d = os.path.join(c.tmp, cfg.name)
        os.makedirs(d)
        out = {}
        cfg.lib = True  # the Makefile makes both libraries of the same objects
        o = c.build_lib(cfg, tag="-o")
        a = os.path.join(d, "libt1ha-st.a")
        c.cc(["ar", "rcs", a] + o)
        so = c.build_so(cfg, objs=o, link=["-Wl,-soname,libt1ha.so"])
        os.rename(so, os.path.join(d, "libt1ha.so"))
        got = set()
        for line in c.run(["nm", "-D", "--defined-only", os.path.join(d, "libt1ha.so")], check=True).out.splitlines():
            w = line.split()
            got.add(w[-1].split("@")[0])
        got -= {"_init", "_fini", "_edata", "_end", "__bss_start", "__odr_asan_gen"}
        want = exports(cfg)
        if got != want:
            c.violation(cfg.name + " shared library", "exports by accident: %s; does not export: %s" % (sorted(got - want) or "nothing", sorted(want - got) or "nothing"),
                        "nm -D --defined-only libt1ha.so")
        c.add({"states": 1, "transitions": len(want), "traces": 1})
        return cfg, d

    def lib_or_error(k):
        try:
            return lib(k)
        except BuildError as e:
            c.violation(k[0], "does not build: " + str(e)[-600:], None)

    libs = [x for x in c.map(lib_or_error, kinds) if x]
    jobs = []
    for cfg, d in libs:
        main = cfg.name.endswith(("default", "noif"))
        for kind in ("static", "shared"):
            for cc in ("gcc", "clang"):
                stds = CSTD + XSTD
                if not c.thorough and not main:
                    stds = ["c99", "c++98", "c++17"] if cc == "gcc" else ["gnu89", "c2x", "c++11"]
                for i, s in enumerate(stds):
                    if not c.thorough and main and cc != cfg.cc and i % 3:
                        continue
                    for v in ([], ["-DUSAGE_BEFORE"], ["-DUSAGE_TWICE"]) if c.thorough else ([[], ["-DUSAGE_BEFORE"], ["-DUSAGE_TWICE"]][i % 3],):
                        jobs.append((cfg, d, kind, cc, s, v))
    # what users may ask of their compiler (must not matter)
    UO = ["-O0", "-O3", "-Os", "-march=native", "-mavx2", "-msse4.2", "-mno-avx", "-maes", "-fno-pie", "-fPIC", "-fvisibility=hidden", "-fshort-enums", "-funsigned-char",
          "-fno-builtin", "-ffast-math", "-fno-plt", "-D_FORTIFY_SOURCE=2", "-D_GNU_SOURCE", "-DNDEBUG", "-fsanitize=undefined", "-fsanitize=address", "-flto", "-static",
          "-fstack-protector-all", "-fno-strict-aliasing", "-fms-extensions", "-fcf-protection=full", "-pthread", "-fno-inline", "-ffunction-sections", "-finstrument-functions"]
    for cfg, d in libs:
        if cfg.name.endswith(("default", "noif")):
            for i, o in enumerate(UO):
                for kind in ("static", "shared"):
                    for cc in ("gcc", "clang"):
                        if o == "-static" and kind == "shared":
                            continue
                        if not c.thorough and (cc != cfg.cc or (kind == "shared") != bool((i + cfg.m32 + len(cfg.name)) % 2)) and o not in ("-fno-pie", "-static"):
                            continue
                        jobs.append((cfg, d, kind, cc, "gnu11" if i % 2 else "c++17", ["-DUSAGE_OPT", o]))
    seen = {}

    def one(j):
        cfg, d, kind, cc, std, v = j
        user = []
        if v[:1] == ["-DUSAGE_OPT"]:
            user, v = v[1:], []
        name = "%s-%s-%s-%s%s" % (cfg.name, kind, cc, std, "".join(v + user))
        cpp = "++" in std
        defs = cfg.defs() + (["-Dt1ha_IMPORTS"] if kind == "shared" else []) + v
        def obj(std, extra, tag):
            cpp = "++" in std
            comp = {"gcc": "g++", "clang": "clang++"}[cc] if cpp else cc
            o = os.path.join(d, name + tag + ".o")
            c.run([comp, "-std=" + std, "-O1", "-w", "-I", REPO] + cfg.arch() + defs + user + extra + (["-x", "c++"] if cpp else []) + ["-c", src, "-o", o], check=True)
            return o
        exe = os.path.join(d, name)
        try:
            a = obj(std, [], "a")
            b = obj("c11" if cpp else "c++14", ["-DUSAGE_SECOND"] + ([] if user else ["-fPIE"]), "b") # the other language
            link = [{"gcc": "g++", "clang": "clang++"}[cc]] + cfg.arch() + (["-no-pie" if x == "-fno-pie" else x for x in user] if user != ["-fno-builtin"] else []) + [a, b, c.ref_obj(cfg.m32)]
            if kind == "static":
                link += [os.path.join(d, "libt1ha-st.a")]
            else:
                link += ["-L" + d, "-lt1ha", "-Wl,-rpath," + d, "-Wl,--no-undefined"]
            c.run(link + ["-o", exe], check=True)
        except BuildError as e:
            c.violation(name, "a user's program does not build: " + str(e)[-700:].replace("\n", " / "), " ".join(defs))
            return
        r = c.run([exe], timeout=120)
        c.add(c.absorb(r, name, "usage " + name))
        for f in (a, b, exe):
            os.unlink(f)
    c.map(one, jobs)
    c.cov["samples"] += ["%s %s %s %s %s" % (j[0].name, j[2], j[3], j[4], j[5]) for j in jobs[::max(1, len(jobs) // 20)]]
    c.assumptions += ["users of the shared library define t1ha_IMPORTS, and the same T1HA options the library was built with", "standard libraries and compilers installed here"]
    return c.finish(programs=len(jobs), libraries=[x[0].name for x in libs])
