"""Shared machinery of the checks: building the code under check from /repo's
working tree in many configurations, running explorers in parallel, reporting."""
import atexit, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

REPO = os.environ.get("T1HA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
REF = os.path.join(VERIF, "ref")
NCPU = os.cpu_count() or 4

MAKE_FLAGS = ["-std=c11", "-O3", "-DNDEBUG", "-D_DEFAULT_SOURCE", "-fno-stack-protector", "-mtune=native"]
LIB_FLAGS = ["-ffunction-sections", "-fPIC", "-fvisibility=hidden", "-Dt1ha_EXPORTS"]


class Cfg:
    """One build configuration of the library."""

    def __init__(self, name, cc="gcc", flags=(), m32=False, base=None, ndebug=True, opt="-O3", aes=True, lib=False):
        self.name, self.cc, self.m32, self.lib = name, cc, m32, lib
        self.flags = list(flags)
        self.opt, self.ndebug, self.aes = opt, ndebug, aes

    def cflags(self, src=""):
        f = ["-std=c11", self.opt, "-D_DEFAULT_SOURCE", "-fno-stack-protector", "-mtune=native", "-w"]
        if self.ndebug:
            f.append("-DNDEBUG")
        if self.m32:
            f.append("-m32")
        if self.lib:
            f += LIB_FLAGS
        f += self.flags
        b = os.path.basename(src)
        if "_noavx" in b:
            f += ["-mno-avx2", "-mno-avx", "-maes"]
        elif "_avx2" in b:
            f += ["-mavx2", "-mavx", "-maes"]
        elif "_avx" in b:
            f += ["-mno-avx2", "-mavx", "-maes"]
        return f

    def arch(self):
        return ["-m32"] if self.m32 else []

    def defs(self):
        return [x for x in self.flags if x.startswith("-D")]


def D(**kw):
    return ["-D%s=%s" % kv for kv in kw.items()]


def U(n):
    return "-DT1HA_SYS_UNALIGNED_ACCESS=%d" % n


O0 = "-DT1HA_USE_FAST_ONESHOT_READ=0"
NOIF = "-DT1HA_USE_INDIRECT_FUNCTIONS=0"


def core_configs(thorough=False):
    c = [
        Cfg("gcc64"),
        Cfg("gcc32", m32=True),
        Cfg("clang64", cc="clang", opt="-O2"),
        Cfg("clang32", cc="clang", opt="-O2", m32=True),
        Cfg("gcc64-U0", flags=[U(0)]),
        Cfg("gcc64-U1", flags=[U(1)]),
        Cfg("gcc32-U0", flags=[U(0)], m32=True),
        Cfg("gcc32-U1", flags=[U(1)], m32=True),
        Cfg("gcc64-exact", flags=[O0], ndebug=False),
        Cfg("gcc32-exact", flags=[O0], m32=True, opt="-O2", ndebug=False),
        Cfg("gcc64-U0-exact", flags=[U(0), O0], opt="-O2"),
        Cfg("gcc32-U1-exact-O1", flags=[U(1), O0], m32=True, opt="-O1", ndebug=False),
        Cfg("gcc64-O0-assert", opt="-O0", ndebug=False),
        Cfg("gcc32-Os-assert", opt="-Os", m32=True, ndebug=False),
        Cfg("clang64-U0-assert", cc="clang", flags=[U(0)], ndebug=False),
        Cfg("clang64-U1-exact", cc="clang", flags=[U(1), O0], opt="-O2"),
        Cfg("clang32-U0-exact", cc="clang", flags=[U(0), O0], m32=True, opt="-O2", ndebug=False),
        Cfg("gcc64-lib", lib=True),
    ]
    if thorough:
        for cc in ("gcc", "clang"):
            for m32 in (False, True):
                for u in (0, 1, 2):
                    for o in (0, 1):
                        for opt in ("-O1", "-O3") if u != 2 else ("-O1", "-Os", "-O3"):
                            c.append(Cfg("%s%d-U%d-o%d%s" % (cc, 32 if m32 else 64, u, o, opt), cc=cc, m32=m32, opt=opt,
                                         flags=[U(u), "-DT1HA_USE_FAST_ONESHOT_READ=%d" % o], ndebug=opt != "-O1"))
        c.append(Cfg("gcc64-v3", flags=["-march=x86-64-v3"]))
        c.append(Cfg("clang64-v3", cc="clang", flags=["-march=x86-64-v3"]))
        c.append(Cfg("gcc64-native", flags=["-march=native"]))
    return c


class BuildError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.tmp, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes, self.assumptions, self.viol = [], [], []
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(NCPU)

    # ---------------------------------------------------------------- running
    def run(self, cmd, timeout=700, env=None, cwd=None, input=None, check=False):
        e = dict(os.environ)
        e.update({"LC_ALL": "C"})
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                               cwd=cwd or self.tmp, input=input)
        except subprocess.TimeoutExpired as x:
            class P: pass
            p = P()
            p.returncode, p.stdout, p.stderr = 124, x.stdout or b"", x.stderr or b""
        p.out = p.stdout.decode("utf8", "replace")
        p.err = p.stderr.decode("utf8", "replace")
        if check and p.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), p.err[-3000:]))
        return p

    def map(self, fn, items):
        """Parallel map; exceptions propagate."""
        futs = [self.pool.submit(fn, x) for x in items]
        return [f.result() for f in futs]

    # --------------------------------------------------------------- building
    def sources(self):
        s = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        if not s:
            raise BuildError("no sources in %s/src" % REPO)
        return s

    def build_lib(self, cfg, extra=(), only=None, tag=""):
        """Objects of all library sources under cfg."""
        d = os.path.join(self.tmp, "lib-" + cfg.name + tag)
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in self.sources():
            if only and os.path.basename(s) not in only:
                continue
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            self.run([cfg.cc] + cfg.cflags(s) + list(extra) + ["-c", s, "-o", o], check=True)
            objs.append(o)
        return objs

    def build_so(self, cfg, extra=(), link=(), tag="", objs=None):
        """The shared library, as the Makefile links it."""
        cfg.lib = True
        objs = objs or self.build_lib(cfg, extra=extra, tag="-so" + tag)
        so = os.path.join(self.tmp, "libt1ha-%s%s.so" % (cfg.name, tag))
        self.cc([cfg.cc] + cfg.cflags() + list(extra) + ["-shared"] + objs + ["-o", so] + list(link))
        return so

    def build_libs(self, cfgs, **kw):
        """name -> objects, in parallel; a configuration that fails to build maps to None and is noted,
        the first one (default) must build."""
        def one(c):
            try:
                return self.build_lib(c, **kw)
            except BuildError as e:
                return e
        res = {}
        for c, r in zip(cfgs, self.map(one, cfgs)):
            if isinstance(r, BuildError):
                if c is cfgs[0]:
                    raise r
                self.notes.append("configuration %s does not build (left to P16): %s" % (c.name, str(r)[-300:]))
                r = None
            res[c.name] = r
        return res

    def cc(self, cmd):
        self.run(cmd, check=True)

    def ref_obj(self, m32=False, cc="gcc"):
        o = os.path.join(self.tmp, "ref%d.o" % (32 if m32 else 64))
        with self.lock:
            if not os.path.exists(o):
                self.cc([cc, "-O2", "-w", "-c", os.path.join(REF, "ref.c"), "-o", o] + (["-m32"] if m32 else []))
        return o

    def harness(self, cfg, src, objs, name=None, extra=(), link=(), ref=True):
        out = os.path.join(self.tmp, "%s-%s" % (name or os.path.splitext(src)[0], cfg.name))
        self.cc([cfg.cc, "-std=gnu11", "-O2", "-w", "-I", REPO, "-I", HARN] + cfg.arch() + cfg.defs() + list(extra) +
                [os.path.join(HARN, src)] + ([self.ref_obj(cfg.m32)] if ref else []) + list(objs) + ["-o", out] + list(link))
        return out

    def windows(self, name, msvc=None, m32=False, opt="-O2", defs=(), ndebug=True):
        """The sources as compiled for Windows, carried over (as LLVM IR) to the ELF ABI of this machine.
        msvc=None: MinGW (only 32-bit long is foreign); msvc="19.15.26730": clang imitates that version of Microsoft's
        compiler so far that the sources take the branches written for it.  Returns (objects, why not)."""
        d = os.path.join(self.tmp, "win-" + name)
        os.makedirs(d, exist_ok=True)
        objs, inc = [], os.path.join(VERIF, "include")
        for s in self.sources():
            f = Cfg("x", cc="clang").cflags(s)
            f = [x for x in f if x.startswith("-m") and x != "-mtune=native"]
            ll = os.path.join(d, os.path.basename(s)[:-2] + ".ll")
            cmd = ["clang", "--target=%s-pc-windows-%s" % ("i686" if m32 else "x86_64", "msvc" if msvc else "gnu"), "-std=c11", "-nostdlibinc"]
            if msvc:
                cmd += ["-fms-extensions", "-fms-compatibility-version=" + msvc, "-isystem", os.path.join(inc, "msvc"), "-U__clang__", "-U__GNUC__", "-U__SIZEOF_INT128__"]
                for h in ("attribute", "builtin", "feature", "extension", "warning"):
                    cmd += ["-U__has_" + h, "-D__has_%s(x)=0" % h]
            cmd += ["-isystem", inc, opt, "-w", "-S", "-emit-llvm", "-fno-stack-protector", NOIF] + (["-DNDEBUG"] if ndebug else [])
            p = self.run(cmd + f + list(defs) + [s, "-o", ll])
            if p.returncode:
                return None, p.err[-500:]
            t = open(ll).read()
            t = re.sub(r'target triple = ".*"', 'target triple = "%s-pc-linux-gnu"' % ("i386" if m32 else "x86_64"), t)
            t = re.sub(r'target datalayout = "e-m:[wx]', 'target datalayout = "e-m:e', t)
            t = t.replace("dso_local ", "").replace("x86_64_win64cc ", "").replace("win64cc ", "")
            t = re.sub(r'^\$\S+ = comdat.*$', "", t, flags=re.M)
            t = re.sub(r',? comdat(\(\$[^)]*\))?', "", t)
            open(ll, "w").write(t)
            o = ll[:-3] + ".o"
            p = self.run(["clang", opt, "-w", "-c", ll, "-o", o] + (["-m32"] if m32 else []) + f)
            if p.returncode:
                return None, p.err[-500:]
            objs.append(o)
        return objs, None

    def mined(self, libs):
        """Constants occurring in the machine code under check; explorers add them to their alphabets."""
        vals = set()
        jobs = [o for objs in libs if objs for o in objs if "selfcheck" not in os.path.basename(o)]
        def dis(o):
            s = set()
            p = self.run(["objdump", "-d", "--no-show-raw-insn", o])
            for m in re.finditer(r"\$(-?)0x([0-9a-f]+)", p.out):
                v = int(m.group(2), 16)
                s.add((-v if m.group(1) else v) & (2**64 - 1))
            for m in re.finditer(r"\b(?:lea|cmp|test)\S*\s+.*?(-?)0x([0-9a-f]+)\(", p.out):
                v = int(m.group(2), 16)
                s.add((-v if m.group(1) else v) & (2**64 - 1))
            for sec in (".rodata", ".rodata.cst4", ".rodata.cst8", ".rodata.cst16"):
                p = self.run(["objcopy", "-O", "binary", "--only-section=" + sec, o, o + ".ro"])
                if os.path.exists(o + ".ro"):
                    b = open(o + ".ro", "rb").read()
                    os.unlink(o + ".ro")
                    if len(b) <= 256:
                        for i in range(0, len(b) - 7, 8):
                            s.add(int.from_bytes(b[i:i + 8], "little"))
                        for i in range(0, len(b) - 3, 4):
                            s.add(int.from_bytes(b[i:i + 4], "little"))
            return s
        for s in self.map(dis, jobs):
            vals |= s
        for v in list(vals):  # 32-bit negative immediates
            if v >> 32 == 0xffffffff:
                vals.add(v & 0xffffffff)
            elif v >> 31 == 1:
                vals.add(v | 0xffffffff00000000)
        f = os.path.join(self.tmp, "mined.txt")
        with open(f, "w") as h:
            for v in sorted(vals):
                h.write("%x\n" % v)
        return f, len(vals)

    def huge_ref(self, m32=False):
        """the reference model, optimised: for long messages"""
        o = os.path.join(self.tmp, "ref-huge%d.o" % (32 if m32 else 64))
        with self.lock:
            if not os.path.exists(o):
                self.cc(["gcc", "-O3", "-w", "-maes", "-DREF_AESNI", "-c", os.path.join(REF, "ref.c"), "-o", o] + (["-m32", "-msse2"] if m32 else []))
        return o

    def huge(self, cfg, objs):
        """harness/huge.c linked with a library"""
        h = os.path.join(self.tmp, "huge-" + cfg.name)
        self.cc([cfg.cc, "-std=gnu11", "-O2", "-w", "-I", REPO, "-I", HARN] + cfg.arch() + cfg.defs() + [os.path.join(HARN, "huge.c"), self.huge_ref(cfg.m32)] + objs + ["-o", h])
        return h

    def longer(self, mf, limit):
        """lengths between those of value.c and those of P18: around powers of two, and constants of the code"""
        ls = [(1 << k) + d for k in range(21, limit + 1) for d in (-1, 0, 8 * (k % 5) + k % 3)]
        ls += [int(x, 16) for x in open(mf).read().split() if (1 << 22) <= int(x, 16) < 1 << limit]
        return sorted(set(ls))

    # -------------------------------------------------------------- reporting
    def absorb(self, p, label, cmd=None):
        """Take over the result of an explorer run: STAT, SAMPLE, NOTE, FAIL lines."""
        st = {}
        fails = []
        for line in p.out.splitlines():
            w = line.split(" ", 2)
            if w[0] == "STAT" and len(w) == 3:
                st[w[1]] = st.get(w[1], 0) + int(w[2])
            elif w[0] == "SAMPLE":
                with self.lock:
                    if len(self.cov["samples"]) < 40:
                        self.cov["samples"].append(label + ": " + line[7:])
            elif w[0] == "NOTE":
                self.notes.append(label + ": " + line[5:])
            elif w[0] == "FAIL":
                fails.append(line[5:])
        for f in fails:
            self.violation(label, f, cmd)
        if not fails:
            if p.returncode == 124:
                raise RuntimeError("%s: timed out (%s)" % (label, cmd))
            if p.returncode < 0:
                self.violation(label, "explorer died of signal %d: %s" % (-p.returncode, p.err[-500:]), cmd)
            elif p.returncode or "DONE" not in p.out:
                raise RuntimeError("%s: explorer error rc=%d\n%s\n%s" % (label, p.returncode, p.out[-1500:], p.err[-1500:]))
        return st

    def add(self, st, traces=None):
        with self.lock:
            self.cov["states"] += st.get("states", 0)
            self.cov["transitions"] += st.get("transitions", 0)
            self.cov["traces_validated_against_impl"] += st.get("traces", 0) if traces is None else traces

    def violation(self, label, text, cmd=None):
        with self.lock:
            self.viol.append((label, text, cmd))

    def known(self):
        out = []
        f = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
                if m and m.group(1) == self.pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
        return out

    def finish(self, **extra):
        known, fresh, hit = self.known(), [], []
        for v in self.viol:
            for rx, txt in known:
                if rx.search(v[0] + ": " + v[1]):
                    hit.append(txt)
                    break
            else:
                fresh.append(v)
        for t in sorted(set(hit)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        self.cov.update(extra)
        if self.notes:
            self.cov["notes"] = self.notes[:60]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
        rc = 0
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % self.pid)
            with open(path, "w") as h:
                json.dump({"property": self.pid, "rerun": "cd /verif && VERIF_TIER=%s python3 checks/run.py %s" % (self.tier, self.pid),
                           "violations": [{"where": a, "what": b, "command": c} for a, b, c in fresh[:20]]}, h, indent=1)
            for a, b, c in fresh[:5]:
                print("  %s: %s" % (a, b[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        else:
            print("%s %s: held; states=%d transitions=%d %.1fs" % (self.pid, self.tier, self.cov["states"],
                                                                 self.cov["transitions"], time.time() - self.t0))
        sys.stdout.flush()
        return rc
