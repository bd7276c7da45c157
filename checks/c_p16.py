"""P16: the lattice of build configurations."""
import hashlib, itertools
from vlib import *

OPTS = ["-O0", "-O1", "-O2", "-O3", "-Os"]


class Point:
    def __init__(self, name, cc, m32, opt, ndebug, defs, codegen=(), simd=True, std="-std=c11", lib=False):
        self.name, self.cc, self.m32, self.opt, self.ndebug = name, cc, m32, opt, ndebug
        self.defs, self.codegen, self.simd, self.std, self.lib = list(defs), list(codegen), simd, std, lib
        self.msvc = self.imitated = None

    def flags(self, src):
        b = os.path.basename(src)
        f = [self.cc, self.std, self.opt, "-w", "-D_DEFAULT_SOURCE"] + (["-m32"] if self.m32 else []) + self.codegen
        if not any("stack-protector" in x for x in f):
            f.append("-fno-stack-protector")
        if self.lib:
            f += LIB_FLAGS
        if self.simd:
            if "_noavx" in b:
                f += ["-mno-avx2", "-mno-avx", "-maes"]
            elif "_avx2" in b:
                f += ["-mavx2", "-mavx", "-maes"]
            elif "_avx" in b:
                f += ["-mno-avx2", "-mavx", "-maes"]
        return f, self.defs + (["-DNDEBUG"] if self.ndebug else [])


def codegen_lattice(c):
    """compiler x bitness x unaligned model x one-shot reads x optimisation x assertions"""
    for cc, m32, u, o, opt, nd in itertools.product(("gcc", "clang"), (0, 1), (None, 0, 1, 2), (None, 0, 1), OPTS, (1, 0)):
        if (u is None) != (o is None):
            continue
        if not c.thorough and (opt, nd) not in (("-O0", 0), ("-O1", 1), ("-O2", 0), ("-O3", 1), ("-Os", 0)):
            continue
        d = ([U(u)] if u is not None else []) + (["-DT1HA_USE_FAST_ONESHOT_READ=%d" % o] if o is not None else [])
        yield Point("%s%d-U%s-o%s%s%s" % (cc, 32 if m32 else 64, "d" if u is None else u, "d" if o is None else o, opt, "" if nd else "-assert"),
                    cc, m32, opt, nd, d)


def dispatch_lattice(c):
    """which families x AES-NI x runtime selection x indirect functions x macro t1ha0"""
    for cc, m32, dis in itertools.product(("gcc", "clang"), (0, 1), range(8)):
        D = ["-DT1HA%d_DISABLED=1" % i for i in range(3) if dis >> i & 1]
        if cc == "clang" and not c.thorough and dis not in (0, 6):
            continue
        tag = "%s%d-fam%s" % (cc, 32 if m32 else 64, "".join(str(i) for i in range(3) if not dis >> i & 1) or "none")
        opt = "-O2" if c.thorough else "-O1"
        yield Point(tag, cc, m32, opt, 1, D)
        for aes, rs, ind, df in itertools.product((None, 0, 1), (None, 0, 1), (None, 0, 1), (None, 0, 1)):
            if ind == 1 and m32:
                continue  # indirect functions are for 64-bit ELF
            if not c.thorough:  # a default is one of the explicit values; take the two alone, and a default with the rest explicit once
                if [aes, rs, ind].count(None) not in ((2, 3) if dis & 1 else (0, 2, 3)):
                    continue
                if df == 0 or (df and dis & 1):
                    continue
            if df is not None and not (rs == 0 or (rs is None and aes == 0)):
                continue
            d = list(D)
            n = tag
            for nm, k, v in (("aes", "T1HA0_AESNI_AVAILABLE", aes), ("rs", "T1HA0_RUNTIME_SELECT", rs), ("if", "T1HA_USE_INDIRECT_FUNCTIONS", ind),
                             ("def", "T1HA0_USE_DEFINE", df)):
                if v is not None:
                    d.append("-D%s=%d" % (k, v))
                    n += "-%s%d" % (nm, v)
            # without AES-NI the sources have to build without the special compiler options
            yield Point(n, cc, m32, opt, 1, d, simd=aes != 0)


def flavours(c):
    """compiler options a build system may add"""
    for cc, m32 in itertools.product(("gcc", "clang"), (0, 1)):
        t = "%s%d-" % (cc, 32 if m32 else 64)
        for std in ("c99", "gnu99", "gnu11", "c17", "gnu17", "c2x"):
            yield Point(t + std, cc, m32, "-O2", 1, [], std="-std=" + std)
        for n, f in (("v2", ["-march=x86-64-v2"]), ("v3", ["-march=x86-64-v3"]), ("native", ["-march=native"]), ("pic", ["-fPIC"]), ("pie", ["-fPIE"]),
                     ("uchar", ["-funsigned-char"]), ("noinline", ["-fno-inline"]), ("wrapv", ["-fwrapv"]), ("trapv", ["-ftrapv"]),
                     ("alias", ["-fno-strict-aliasing"]), ("nobuiltin", ["-fno-builtin"]), ("freestanding", ["-ffreestanding"]),
                     ("fp", ["-fno-omit-frame-pointer"]), ("sections", ["-ffunction-sections", "-fdata-sections"]), ("fast", ["-ffast-math"]),
                     ("novec", ["-fno-tree-vectorize"]), ("cet", ["-fcf-protection=full"]), ("ssp", ["-fstack-protector-strong"]),
                     ("asan", ["-fsanitize=address"]), ("short", ["-fshort-enums"]), ("debug", ["-g3"])):
            if n in ("v2", "v3") and m32:
                continue
            if not c.thorough and (cc == "gcc") == bool(m32) and n not in ("asan", "pic", "native"):
                continue
            for opt in (("-O2",) if not c.thorough else ("-O1", "-O2", "-O3")):
                yield Point(t + n + opt, cc, m32, opt, 1, [], codegen=f)
        if m32:
            for a in ("i386", "i486", "i586", "i686", "pentium4", "core2") if c.thorough else ("i386", "i686", "core2"):
                yield Point(t + a, cc, 1, "-O2", 1, [], codegen=["-march=" + a])
        # older compilers: no way to ask for builtins or attributes
        nb, na = ["-U__has_builtin", "-D__has_builtin(x)=0"], ["-U__has_attribute", "-D__has_attribute(x)=0"]
        yield Point(t + "nobuiltins", cc, m32, "-O2", 1, [], codegen=nb)
        yield Point(t + "noattrs", cc, m32, "-O2", 1, [], codegen=na)
        yield Point(t + "old-U0", cc, m32, "-O3", 1, [U(0)], codegen=na + nb)
        yield Point(t + "old-U1-exact", cc, m32, "-O1", 0, [U(1), O0], codegen=na + nb)
        yield Point(t + "lib", cc, m32, "-O3", 1, ["-Dt1ha_EXPORTS"], lib=True)
        yield Point(t + "cfg-unaligned", cc, m32, "-O2", 1, ["-DCONFIG_HAVE_EFFICIENT_UNALIGNED_ACCESS=1"])


def imitations(c):
    """compilers that are not here: clang as Microsoft's, gcc as Elbrus' LCC.  What the imitation cannot build is noted, not judged."""
    for m32, v, u, o in itertools.product((0, 1), ("18.00.40629", "19.00.24234", "19.15.26730"), (None, 0, 1), (0, 1)):
        if not c.thorough and (u == 0) == bool(o) and u is not None:
            continue
        d = ([U(u)] if u is not None else []) + ["-DT1HA_USE_FAST_ONESHOT_READ=%d" % o]
        p = Point("msvc%s-x%d-U%s-o%d" % (v[:5], 86 if m32 else 64, "d" if u is None else u, o), "gcc", m32, "-O2", o, d)
        p.msvc, p.imitated = v, True
        yield p
    e = os.path.join(VERIF, "include")
    for iset, lcc, u, o in itertools.product((2, 3, 5), (121, 124, 125), (None, 0, 1, 2), (None, 0, 1)):
        if not c.thorough and ((u is None) != (o is None) or (o is not None and (iset + lcc + u + o) % 3)):
            continue
        d = ([U(u)] if u is not None else []) + (["-DT1HA_USE_FAST_ONESHOT_READ=%d" % o] if o is not None else [])
        p = Point("lcc%d-e2kv%d-U%s-o%s" % (lcc, iset, "d" if u is None else u, "d" if o is None else o), "gcc", 0, "-O2", 1, d,
                  codegen=(["-U__SIZEOF_INT128__"] if lcc == 121 else []) + ["-isystem", os.path.join(e, "e2k"), "-include", os.path.join(e, "e2k.h"), "-D__iset__=%d" % iset, "-D__LCC__=%d" % lcc])
        p.imitated = True
        yield p


def run(c):
    objs, locks, done, same = {}, {}, {}, []
    od = os.path.join(c.tmp, "obj")
    os.makedirs(od)
    harness = os.path.join(HARN, "lattice.c")
    c.ref_obj(), c.ref_obj(True)

    def once(key, make):
        with c.lock:
            ev = locks.get(key)
            if ev is None:
                locks[key] = threading.Event()
        if ev is None:
            try:
                objs[key] = make()
            except BuildError as e:
                objs[key] = e
            locks[key].set()
        else:
            ev.wait()
        if isinstance(objs[key], BuildError):
            raise objs[key]
        return objs[key]

    # most of the time would go into parsing the intrinsics' header over and over: precompile it per set of options
    pch, uses, total = {}, {}, {}

    def pch_keys(p):
        return [tuple(p.flags(s)[0]) for s in c.sources()]

    def precompiled(f):
        k = tuple(f)
        if total[k] < 4:
            return []
        with c.lock:
            ev = pch.get(k)
            if ev is None:
                pch[k] = [threading.Event(), None]
        if ev is None:
            h = os.path.join(od, hashlib.sha1(" ".join(f).encode()).hexdigest() + ".h")
            with open(h, "w") as o:
                o.write("#include <x86intrin.h>\n")
            clang = f[0].startswith("clang")
            r = c.run(f + ["-x", "c-header", h, "-o", h[:-2] + ".pch" if clang else h + ".gch"])
            if r.returncode == 0:
                pch[k][1] = ["-include-pch", h[:-2] + ".pch"] if clang else ["-include", h]
            pch[k][0].set()
        else:
            ev[0].wait()
        return pch[k][1] or []

    def dispose(p):
        for k in pch_keys(p):
            with c.lock:
                uses[k] -= 1
                gone = uses[k] == 0 and pch.get(k)
            if gone and gone[1]:
                for x in (gone[1][1], gone[1][1] + ".gch"):
                    if os.path.exists(x):
                        os.unlink(x)

    def obj(p, src):
        f, d = p.flags(src)
        if src == harness:
            f = [p.cc, "-std=gnu11", "-O1", "-w", "-I", REPO, "-I", HARN] + (["-m32"] if p.m32 else [])
            f += p.codegen if p.imitated else [x for x in p.codegen if "sanitize" in x or "__has_" in x]
            d = [x for x in d if x not in ("-DNDEBUG", "-Dt1ha_EXPORTS")]
        elif not c.thorough and "selfcheck" in os.path.basename(src):
            d = [x for x in d if "UNALIGNED" not in x and "ONESHOT" not in x]  # of no use to them
        stub = [] if src == harness or p.imitated else ["-isystem", os.path.join(VERIF, "include", "stub")]
        txt = c.run(f + stub + d + ["-E", "-P", src])
        if txt.returncode:
            raise BuildError("%s: %s" % (os.path.basename(src), txt.err[-800:]))
        key = hashlib.sha1((" ".join(f) + "\0" + os.path.basename(src) + "\0" + txt.out).encode()).hexdigest()

        def make():
            o = os.path.join(od, key + ".o")
            # only where the source includes that header itself (so that nothing is supplied that it lacks)
            pre = precompiled(f) if src != harness and not p.imitated and "verif_x86intrin_is_included" in txt.out else []
            if pre and c.run(f + d + pre + ["-c", src, "-o", o]).returncode == 0:
                return o
            c.run(f + d + ["-c", src, "-o", o], check=True)
            return o
        return key, once(key, make)

    def windows(p):
        o, why = c.windows(p.name, msvc=p.msvc, m32=p.m32, opt=p.opt, defs=p.defs, ndebug=p.ndebug)
        if not o:
            raise BuildError(why)
        stub = os.path.join(c.tmp, "stub-%s.c" % p.name)
        with open(stub, "w") as h:
            h.write("void vm_assert_fail(void) { __builtin_trap(); }\n")
        exe = os.path.join(od, p.name)
        d = [NOIF] + (["-DT1HA0_AESNI_AVAILABLE=0"] if p.m32 and p.msvc < "19" else [])
        c.run(["gcc", "-std=gnu11", "-O1", "-w", "-I", REPO, "-I", HARN] + (["-m32"] if p.m32 else []) + d + [harness, stub] + o + [c.ref_obj(p.m32), "-o", exe], check=True)
        return exe

    def one(p):
        try:
            return point(p)
        finally:
            dispose(p)

    def point(p):
        try:
            if p.msvc:
                return judge(p, windows(p))
            ks = [obj(p, s) for s in c.sources() + [harness]]
            k = " ".join(sorted(x[0] for x in ks)) + " ".join(p.codegen)

            def make():
                exe = os.path.join(od, hashlib.sha1(k.encode()).hexdigest())
                c.run([p.cc] + (["-m32"] if p.m32 else []) + p.codegen + [x[1] for x in ks] + [c.ref_obj(p.m32), "-o", exe], check=True)
                return exe
            with c.lock:
                dup = k in done
                done[k] = p
            if dup:
                return "same"
            exe = make()
        except BuildError as e:
            if p.imitated:
                c.notes.append("%s: the imitation does not build: %s" % (p.name, str(e)[-300:]))
                return "none"
            c.violation(p.name, "does not build: " + str(e)[-700:].replace("\n", " / "), None)
            return "fail"
        return judge(p, exe)

    def judge(p, exe):
        r = c.run([exe, "600" if c.thorough else "200"], timeout=600, env={"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0"})
        st = c.absorb(r, p.name, "lattice " + p.name + " " + " ".join(p.flags("x.c")[0] + p.flags("x.c")[1]))
        c.add(st)
        os.unlink(exe)
        return "run"

    pts = list(dispatch_lattice(c)) + sorted(codegen_lattice(c), key=lambda p: (p.cc, p.m32, p.opt)) + list(flavours(c)) + list(imitations(c))
    if c.thorough:  # the product of families and access models
        for d in list(dispatch_lattice(c)):
            for u, o in itertools.product((0, 1, 2), (0, 1)):
                pts.append(Point(d.name + "-U%d-o%d" % (u, o), d.cc, d.m32, d.opt, 0, d.defs + [U(u), "-DT1HA_USE_FAST_ONESHOT_READ=%d" % o], simd=d.simd))
    seen, uniq = set(), []
    for p in pts:
        if p.name not in seen:
            seen.add(p.name)
            uniq.append(p)
    for p in uniq:
        for k in pch_keys(p):
            uses[k] = uses.get(k, 0) + 1
    total.update(uses)
    res = c.map(one, uniq)
    c.cov["samples"] += [p.name for p in uniq[::max(1, len(uniq) // 20)]][:20]
    c.assumptions += ["two configurations whose preprocessed sources and compiler options are identical are one configuration",
                      "compilers: gcc 13 and clang 18 for x86, and their imitation of Microsoft's compiler and of LCC (the branches of the sources written for those, compiled here); other targets are P17's"]
    return c.finish(configurations=len(uniq), distinct_builds=res.count("run"), imitations=len([p for p in uniq if p.imitated]), imitations_not_built=res.count("none"), objects_compiled=len(objs))
