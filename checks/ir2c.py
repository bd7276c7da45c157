"""Translates LLVM IR (text, as clang prints it for some foreign target) to C that executes it on a
simulated machine: explicit memory with the target's byte order and pointer width, every access going
through vm_ld/vm_st of harness/vm.h, which judge it.  Integer subset; anything else raises Unsupported."""
import re, threading

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s+|;[^\n]*|(c?"(?:[^"\\]|\\.)*")|([%@!$#](?:"[^"]*"|[-\w.$]+|(?=[{(])))|(-?\d+(?![\w.]))|(\.\.\.)|([A-Za-z_][\w.$]*|s?u?0x[0-9A-Fa-f]+|-?\d+\.\S+)|(.)''')

def toks(s):
    return [m.group(0) for m in TOK.finditer(s) if m.lastindex]

# ----------------------------------------------------------------- types
class T:
    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e   # int/ptr/void/arr/struct/named/fn
    def __repr__(self):
        return {"int": "i%d" % self.n, "ptr": "p", "void": "v"}.get(self.k) or "%s%s_%s" % (self.k, self.n, "_".join(map(repr, self.e or [])))

class P:
    """Token cursor"""
    def __init__(self, t, mod):
        self.t, self.i, self.mod = t, 0, mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""
    def next(self):
        self.i += 1
        return self.t[self.i - 1]
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise Unsupported("expected %s at %s" % (x, " ".join(self.t[max(0, self.i - 5):self.i + 8])))
    def type(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x):
            r = T("int", int(x[1:]))
        elif x == "ptr":
            r = T("ptr")
            if self.eat("addrspace"):
                self.skip_paren()
        elif x == "void":
            r = T("void")
        elif x == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            r = T("arr", n, [e])
        elif x == "{" or (x == "<" and self.peek() == "{"):
            pk = x == "<"
            if pk:
                self.next()
            e = []
            while not self.eat("}"):
                e.append(self.type())
                self.eat(",")
            if pk:
                self.need(">")
            r = T("pstruct" if pk else "struct", len(e), e)
        elif x[0] == "%":
            r = T("named", 0, [])
            r.name = x
            if x not in self.mod.types:
                raise Unsupported("type " + x)
            r = self.mod.types[x]
        elif x == "metadata":
            r = T("meta")
        else:
            raise Unsupported("type " + x)
        return r
    def skip_paren(self):
        self.need("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

ATTRS = {"noundef", "zeroext", "signext", "inreg", "nocapture", "readonly", "readnone", "writeonly", "noalias", "nonnull",
         "returned", "align", "dereferenceable", "dereferenceable_or_null", "range", "immarg", "nofree", "captures",
         "dead_on_unwind", "writable", "initializes", "nest", "swiftself", "allocptr", "noext", "dead_on_return"}
CC = {"fastcc", "ccc", "coldcc", "tailcc", "hidden", "internal", "private", "dso_local", "local_unnamed_addr", "unnamed_addr",
      "linkonce_odr", "weak", "weak_odr", "available_externally", "external", "protected", "default", "linkonce", "common",
      "dllexport", "dllimport", "extern_weak", "arm_aapcscc", "arm_apcscc", "arm_aapcs_vfpcc", "x86_stdcallcc", "win64cc",
      "x86_64_sysvcc", "spir_func", "dso_preemptable", "intel_ocl_bicc", "cc", "msp430_intrcc", "thread_local", "constant", "global",
      "externally_initialized"}

def skip_attrs(p):
    while p.peek() in ATTRS:
        a = p.next()
        if a == "align" and p.peek() != "(":
            p.next()
        elif p.peek() == "(":
            p.skip_paren()
    return

def mask(n):
    return (1 << n) - 1

def cty(t):
    if t.k == "void":
        return "void"
    if t.k == "ptr":
        return "u64"
    if t.k == "int":
        for b in (8, 16, 32, 64, 128):
            if t.n <= b:
                return "u%d" % b
        raise Unsupported("i%d" % t.n)
    return aggname(t)

AGG = {}
def aggname(t):
    k = "A_" + re.sub(r"\W", "_", repr(t))
    if k not in AGG:
        AGG[k] = None
        es = t.e if t.k != "arr" else t.e * t.n
        body = " ".join("%s f%d;" % (cty(e), i) for i, e in enumerate(es))
        AGG.pop(k)
        AGG[k] = "typedef struct { %s } %s;" % (body, k)
    return k

def lit(v, t, mod):
    n = mod.pbits if t.k == "ptr" else t.n
    v &= mask(n)
    if n > 64:
        return "((u128)0x%xull<<64|0x%xull)" % (v >> 64, v & mask(64))
    return "(%s)0x%xull" % (cty(t), v)

class Module:
    def __init__(self, name, text, prog):
        self.name, self.prog = name, prog
        self.types, self.globals, self.funcs, self.decls = {}, {}, [], set()
        m = re.search(r'^target datalayout = "([^"]*)"', text, re.M)
        dl = m.group(1).split("-")
        self.big = "E" in dl
        self.pbits, self.palign = 64, 64
        self.ialign = {1: 8, 8: 8, 16: 16, 32: 32, 64: 32, 128: 64}
        for s in dl:
            m = re.match(r"p(?:0)?:(\d+):(\d+)", s)
            if m:
                self.pbits, self.palign = int(m.group(1)), int(m.group(2))
            m = re.match(r"i(\d+):(\d+)", s)
            if m:
                self.ialign[int(m.group(1))] = int(m.group(2))
        self.parse(text)

    # layout, bytes
    def align(self, t):
        if t.k == "int":
            for b in sorted(self.ialign):
                if t.n <= b:
                    return max(1, self.ialign[b] // 8)
            return 8
        if t.k == "ptr":
            return self.palign // 8
        if t.k == "arr":
            return self.align(t.e[0])
        if t.k == "pstruct":
            return 1
        return max([self.align(e) for e in t.e] or [1])
    def size(self, t):
        if t.k == "int":
            b = (t.n + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == "ptr":
            return self.pbits // 8
        if t.k == "arr":
            return t.n * self.size(t.e[0])
        o = 0
        for e in t.e:
            a = 1 if t.k == "pstruct" else self.align(e)
            o = (o + a - 1) // a * a + self.size(e)
        a = self.align(t)
        return (o + a - 1) // a * a
    def offs(self, t, i):
        if t.k == "arr":
            return i * self.size(t.e[0]), t.e[0]
        o = 0
        for k, e in enumerate(t.e):
            a = 1 if t.k == "pstruct" else self.align(e)
            o = (o + a - 1) // a * a
            if k == i:
                return o, e
            o += self.size(e)

    def parse(self, text):
        lines = text.split("\n")
        pend = []
        for l in lines:
            m = re.match(r'(%\S+|%"[^"]*") = type (.*)', l)
            if m:
                pend.append((m.group(1), m.group(2)))
        for _ in range(len(pend) + 1):
            rest = []
            for n, b in pend:
                if n in self.types:
                    continue
                try:
                    self.types[n] = P(toks(b), self).type()
                except (Unsupported, IndexError):
                    rest.append((n, b))
            pend = rest
            if not pend:
                break
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@llvm."):
                pass
            elif l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self.funcs.append(self.header(l) + (lines[i + 1:j],))
                i = j
            elif l.startswith("declare"):
                m = re.search(r"(@\S+?)\(", l)
                if m:
                    self.decls.add(m.group(1)[1:].strip('"'))
            elif l.startswith("module asm"):
                raise Unsupported("module asm")
            i += 1

    def parse_global(self, l):
        m = re.match(r"(@[-\w.$]+|@\"[^\"]*\") = (.*)", l)
        n, t = m.group(1), toks(m.group(2))
        if "alias" in t[:8] or "ifunc" in t[:8]:
            raise Unsupported("alias")
        p = P(t, self)
        internal = ext = False
        while p.peek() in CC or p.peek() == "section":
            x = p.next()
            internal |= x in ("internal", "private")
            ext |= x in ("external", "extern_weak")
            if p.peek() == "(":
                p.skip_paren()
        if p.eat("addrspace"):
            p.skip_paren()
        while p.peek() in CC:
            p.next()
        ty = p.type()
        al = 16
        self.globals[n[1:].strip('"')] = (ty, None if ext else p, internal, ext)

    def header(self, l):
        p = P(toks(l), self)
        p.need("define")
        internal = False
        while True:
            if p.peek() in CC:
                internal |= p.next() in ("internal", "private")
            elif p.peek() in ATTRS:
                skip_attrs(p)
            else:
                break
        rt = p.type()
        n = p.next()[1:].strip('"')
        p.need("(")
        args = []
        k = 0
        while not p.eat(")"):
            if p.eat("..."):
                raise Unsupported("vararg define")
            ty = p.type()
            skip_attrs(p)
            if p.peek() in ("byval", "sret", "inalloca", "preallocated", "byref"):
                raise Unsupported(p.peek())
            if p.peek().startswith("%"):
                an = p.next()
            else:
                an = "%" + str(k)
            if re.fullmatch(r"%\d+", an):
                k += 1
            args.append((ty, an))
            p.eat(",")
        return n, rt, args, internal, k

class Program:
    """All modules of one build for one target; emits one C file."""
    def __init__(self, texts):
        self.mods = [Module("m%d" % i, t, self) for i, t in enumerate(texts)]
        self.big, self.pbits = self.mods[0].big, self.mods[0].pbits
        self.fn, self.gl = {}, {}
        for m in self.mods:
            for f in m.funcs:
                self.fn[(m.name if f[3] else None, f[0])] = f
            for g, d in m.globals.items():
                if not d[3]:
                    self.gl[(m.name if d[2] else None, g)] = d
        self.sigs = {}
        self.faddr = {}
        self.out = []

    def fref(self, m, n):
        for k in ((m.name, n), (None, n)):
            if k in self.fn:
                return k
        return None
    def cname(self, k):
        return "F_%s%s" % (k[0] + "_" if k[0] else "", re.sub(r"\W", "_", k[1]))
    def gname(self, k):
        return "G_%s%s" % (k[0] + "_" if k[0] else "", re.sub(r"\W", "_", k[1]))
    def addr(self, m, n):
        k = self.fref(m, n)
        if k:
            if k not in self.faddr:
                self.faddr[k] = 0x10000 + 16 * len(self.faddr)
            return "(u64)0x%x" % self.faddr[k]
        for k in ((m.name, n), (None, n)):
            if k in self.gl:
                return self.gname(k)
        raise Unsupported("symbol " + n)

    def emit(self):
        body = []
        for m in self.mods:
            for f in m.funcs:
                body.append(Fn(self, m, f).emit())
        ginit = []
        for k, d in self.gl.items():
            m = next(x for x in self.mods if x.globals.get(k[1]) is d)
            ginit.append("  %s = vm_galloc(%d, 16);" % (self.gname(k), m.size(d[0])))
        for k, d in self.gl.items():
            m = next(x for x in self.mods if x.globals.get(k[1]) is d)
            d[1].i0 = d[1].i
            ginit += self.ginit(m, d[0], d[1], self.gname(k), 0)
            d[1].i = d[1].i0
        o = ["#define VM_BIG %d" % self.big, "#define VM_PBITS %d" % self.pbits, '#include "vm.h"']
        o += [x for x in AGG.values() if x]
        o += ["static u64 %s;" % self.gname(k) for k in self.gl]
        for k, f in self.fn.items():
            o.append("static %s %s(%s);" % (cty(f[1]), self.cname(k), ", ".join(cty(a[0]) for a in f[2]) or "void"))
        for sig, (n, rt, ats) in self.sigs.items():
            o.append("static %s %s(u64 fp%s);" % (cty(rt), n, "".join(", " + cty(a) for a in ats)))
        o += body
        for sig, (n, rt, ats) in self.sigs.items():
            o.append("static %s %s(u64 fp%s) {\n  switch (fp) {" % (cty(rt), n, "".join(", %s a%d" % (cty(a), i) for i, a in enumerate(ats))))
            for k, a in self.faddr.items():
                f = self.fn[k]
                if cty(f[1]) == cty(rt) and [cty(x[0]) for x in f[2]] == [cty(x) for x in ats]:
                    o.append("  case 0x%x: %s%s(%s);%s" % (a, "return " if rt.k != "void" else "", self.cname(k), ", ".join("a%d" % i for i in range(len(ats))), " return;" if rt.k == "void" else ""))
            o.append('  }\n  vm_fail("call through a wrong pointer 0x%%llx", (unsigned long long)fp);%s\n}' % (" return 0;" if rt.k in ("int", "ptr") else ""))
        o.append("static void vm_init_globals(void) {")
        o += ginit
        o.append("}")
        for k, f in self.fn.items():
            if not k[0]:
                o.append("#define HAVE_%s 1" % k[1])
        return "\n".join(o) + "\n"

    def ginit(self, m, t, p, g, off):
        x = p.peek()
        r = []
        if x in ("zeroinitializer", "undef", "poison"):
            p.next()
        elif x.startswith('c"'):
            p.next()
            s, i, b = x[2:-1], 0, bytearray()
            while i < len(s):
                if s[i] == "\\":
                    if s[i + 1] == "\\":
                        b.append(92)
                        i += 2
                        continue
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            r += ["  vm_poke(%s + %d, (const u8 *)\"%s\", %d);" % (g, off, "".join("\\%03o" % c for c in b), len(b))]
        elif t.k == "arr":
            p.need("[")
            for i in range(t.n):
                p.type()
                r += self.ginit(m, t.e[0], p, g, off + i * m.size(t.e[0]))
                p.eat(",")
            p.need("]")
        elif t.k in ("struct", "pstruct"):
            pk = p.eat("<")
            p.need("{")
            for i in range(len(t.e)):
                p.type()
                o, e = m.offs(t, i)
                r += self.ginit(m, e, p, g, off + o)
                p.eat(",")
            p.need("}")
            if pk:
                p.need(">")
        else:
            f = Fn(self, m, None)
            f.p = p
            v = f.value(t)
            r.append("  vm_poke%d(%s + %d, %s);" % (8 * m.size(t), g, off, v))
        return r

class Fn:
    def __init__(self, prog, m, f):
        self.prog, self.m, self.f = prog, m, f

    def local(self, n):
        return "v" + re.sub(r"\W", "_", n[1:].strip('"'))
    def lab(self, n):
        return "L" + re.sub(r"\W", "_", n.strip('"'))

    def value(self, t):
        p, m = self.p, self.m
        x = p.next()
        if x[0] == "%":
            return self.local(x)
        if x[0] == "@":
            return "PM(%s)" % self.prog.addr(m, x[1:].strip('"'))
        if x in ("zeroinitializer", "undef", "poison", "null"):
            if t.k not in ("int", "ptr"):
                return "(%s){0}" % cty(t)
            return lit(0, t, m)
        if x in ("true", "false"):
            return lit(x == "true", t, m)
        if re.fullmatch(r"-?\d+", x):
            return lit(int(x), t, m)
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
            p.need("(")
            ft = p.type()
            v = self.value(ft)
            p.need("to")
            tt = p.type()
            p.need(")")
            return self.cast(x, ft, v, tt)
        if x == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                p.next()
                if p.peek() == "(" and p.t[p.i - 1] == "inrange":
                    p.skip_paren()
            p.need("(")
            r = self.gep()
            p.need(")")
            return r
        if x in ("add", "sub", "mul", "shl", "xor", "and", "or", "lshr"):
            while p.peek() in ("nuw", "nsw", "disjoint"):
                p.next()
            p.need("(")
            t1 = p.type()
            a = self.value(t1)
            p.need(",")
            t2 = p.type()
            b = self.value(t2)
            p.need(")")
            return self.binop(x, t1, a, b)
        if x == "freeze":
            return self.value(t)
        if x in ("{", "["):
            vals = []
            while p.peek() not in ("}", "]"):
                et = p.type()
                vals.append(self.value(et))
                p.eat(",")
            p.next()
            return "(%s){%s}" % (cty(t), ", ".join(vals))
        raise Unsupported("value " + x)

    def tv(self):
        t = self.p.type()
        skip_attrs(self.p)
        return t, self.value(t)

    def fit(self, t, e):
        """truncate an expression to the width of t"""
        n = self.m.pbits if t.k == "ptr" else t.n
        c = cty(t)
        if n in (8, 16, 32, 64, 128) and c == "u%d" % n:
            return "(%s)(%s)" % (c, e)
        return "(%s)((%s) & %s)" % (c, e, lit(mask(n), T("int", 128 if n > 64 else 64), self.m))
    def wide(self, t):
        return "u128" if t.k == "int" and t.n > 64 else "u64"
    def width(self, t):
        return self.m.pbits if t.k == "ptr" else t.n
    def sx(self, t, v):
        return "SX%d(%s, %d)" % (128 if self.width(t) > 64 else 64, v, self.width(t))

    def cast(self, op, ft, v, tt):
        if op == "sext":
            return self.fit(tt, "(%s)%s" % (self.wide(tt), "SX128((u128)%s, %d)" % (v, self.width(ft)) if self.width(tt) > 64 else self.sx(ft, v)))
        return self.fit(tt, "(%s)%s" % ("u128" if self.width(tt) > 64 else self.wide(ft), v))

    def binop(self, op, t, a, b):
        w, n = self.wide(t), self.width(t)
        s = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}
        if op in s:
            return self.fit(t, "(%s)%s %s (%s)%s" % (w, a, s[op], w, b))
        if op == "shl":
            return self.fit(t, "(%s)%s << SH(%s, %d)" % (w, a, b, n))
        if op == "lshr":
            return self.fit(t, "(%s)%s >> SH(%s, %d)" % (w, a, b, n))
        if op == "ashr":
            return self.fit(t, "(%s)(%s >> SH(%s, %d))" % (w, self.sx(t, a), b, n))
        if op in ("udiv", "urem"):
            return self.fit(t, "(%s)%s %s NZ%s(%s)" % (w, a, "/" if op == "udiv" else "%", w[1:], b))
        if op in ("sdiv", "srem"):
            return self.fit(t, "(%s)(%s %s NZS(%s))" % (w, self.sx(t, a), "/" if op == "sdiv" else "%", self.sx(t, b)))
        raise Unsupported(op)

    def gep(self):
        p, m = self.p, self.m
        t = p.type()
        p.need(",")
        pt, base = self.tv()
        e = "(u64)" + base
        const = 0
        first = True
        while p.peek() == "," and not p.peek(1).startswith("!"):
            p.next()
            it = p.type()
            mark = p.peek()
            v = self.value(it)
            num = int(mark) if re.fullmatch(r"-?\d+", mark) else None
            if first:
                sz, first = m.size(t), False
                if num is not None:
                    const += num * sz
                else:
                    e += " + (u64)%s * %d" % (self.sx(it, v), sz)
            elif t.k == "arr":
                t = t.e[0]
                if num is not None:
                    const += num * m.size(t)
                else:
                    e += " + (u64)%s * %d" % (self.sx(it, v), m.size(t))
            else:
                o, t = m.offs(t, num)
                const += o
        return "PM(%s + %s)" % (e, "0x%xull" % (const & mask(64)))

    def ldst(self, t, addr, align, store=None, target=None):
        """statements loading a (possibly aggregate) value"""
        m = self.m
        if t.k in ("int", "ptr"):
            n = (self.width(t) + 7) // 8
            if n not in (1, 2, 4, 8, 16):
                raise Unsupported("access of %d bytes" % n)
            if store is not None:
                return "vm_st%d(%s, %d, %s);" % (n * 8, addr, align, store)
            return "%s = %s;" % (target, self.fit(t, "vm_ld%d(%s, %d)" % (n * 8, addr, align)))
        r = []
        cnt = t.n if t.k == "arr" else len(t.e)
        for i in range(cnt):
            o, e = m.offs(t, i)
            al = align
            while al > 1 and o % al:
                al //= 2
            a = "PM(%s + %d)" % (addr, o)
            r.append(self.ldst(e, a, al, store="(%s).f%d" % (store, i) if store is not None else None,
                               target="%s.f%d" % (target, i) if target else None))
        return " ".join(r)

    def emit(self):
        n, rt, args, internal, nun, lines = self.f
        k = (self.m.name if internal else None, n)
        m = self.m
        # blocks
        blocks, cur = [], None
        text = []
        for l in lines:          # join continued lines (switch tables)
            if text and text[-1].count("[") > text[-1].count("]") and re.match(r"\s*switch|\s*(%\S+ = )?.*\binvoke", text[-1]):
                text[-1] += " " + l.strip()
            else:
                text.append(l)
        for l in text:
            mm = re.match(r'([-\w.$]+|"[^"]*"):', l)
            if mm:
                cur = (mm.group(1), [])
                blocks.append(cur)
            elif l.strip() and not l.strip().startswith(";"):
                if cur is None:
                    cur = (str(nun), [])
                    blocks.append(cur)
                cur[1].append(l)
        self.decl, self.phis, code = {}, {}, []
        for t, a in args:
            pass
        # phis first
        for b, ins in blocks:
            ph = []
            for l in ins:
                mm = re.match(r"\s*(%\S+) = phi (.*)", l)
                if not mm:
                    continue
                self.p = P(toks(mm.group(2)), m)
                t = self.p.type()
                self.decl[self.local(mm.group(1))] = t
                inc = {}
                while self.p.eat("["):
                    v = self.value(t)
                    self.p.need(",")
                    inc[self.p.next()[1:].strip('"')] = v
                    self.p.need("]")
                    self.p.eat(",")
                ph.append((self.local(mm.group(1)), t, inc))
            self.phis[b] = ph
        for b, ins in blocks:
            code.append("%s:;" % self.lab(b))
            for l in ins:
                if re.match(r"\s*(%\S+) = phi ", l):
                    continue
                s = self.inst(l, b)
                if s:
                    code.append("  " + s)
        anames = {self.local(a) for t, a in args}
        o = ["static %s %s(%s) {" % (cty(rt), self.prog.cname(k), ", ".join("%s %s" % (cty(t), self.local(a)) for t, a in args) or "void"),
             "  const u64 sp0 = vm_sp; (void)sp0;"]
        for v, t in self.decl.items():
            if v not in anames:
                o.append("  %s %s;" % (cty(t), v))
        if blocks:
            o.append("  goto %s;" % self.lab(blocks[0][0]))
        return "\n".join(o + code + ["}"])

    def goto(self, frm, to):
        ph = self.phis.get(to, [])
        s = ""
        if ph:
            s = " ".join("const %s t%d = %s;" % (cty(t), i, inc[frm]) for i, (v, t, inc) in enumerate(ph))
            s += " " + " ".join("%s = t%d;" % (v, i) for i, (v, t, inc) in enumerate(ph)) + " "
        return "{ %sgoto %s; }" % (s, self.lab(to))

    def label(self):
        self.p.need("label")
        return self.p.next()[1:].strip('"')

    def inst(self, l, blk):
        p = self.p = P(toks(l), self.m)
        m = self.m
        dst = None
        if p.peek().startswith("%") and p.peek(1) == "=":
            dst = self.local(p.next())
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        def setv(t, e):
            self.decl[dst] = t
            return "%s = %s;" % (dst, e)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                p.next()
            t = p.type()
            a = self.value(t)
            p.need(",")
            return setv(t, self.binop(op, t, a, self.value(t)))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            v = self.value(t)
            p.need("to")
            tt = p.type()
            return setv(tt, self.cast(op, t, v, tt))
        if op == "freeze":
            t = p.type()
            return setv(t, self.value(t))
        if op == "icmp":
            while p.peek() == "samesign":
                p.next()
            c = p.next()
            t = p.type()
            a = self.value(t)
            p.need(",")
            b = self.value(t)
            if c[0] == "s":
                a, b = self.sx(t, a), self.sx(t, b)
            o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[c if c in ("eq", "ne") else c[1:]]
            return setv(T("int", 1), "%s %s %s" % (a, o, b))
        if op == "select":
            t = p.type()
            c = self.value(t)
            p.need(",")
            t, a = self.tv()
            p.need(",")
            t, b = self.tv()
            return setv(t, "%s ? %s : %s" % (c, a, b))
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            return setv(T("ptr"), self.gep())
        if op == "alloca":
            p.eat("inalloca")
            t = p.type()
            cnt = "1"
            al = m.align(t)
            while p.eat(","):
                if p.eat("align"):
                    al = int(p.next())
                elif p.peek() == "addrspace":
                    p.next()
                    p.skip_paren()
                elif p.peek().startswith("!"):
                    break
                else:
                    ct = p.type()
                    cnt = self.value(ct)
            return setv(T("ptr"), "vm_alloca((u64)%s * %d, %d)" % (cnt, m.size(t), al))
        if op in ("load", "store"):
            while p.peek() in ("volatile", "atomic"):
                p.next()
            if op == "load":
                t = p.type()
            else:
                t, v = self.tv()
            p.need(",")
            pt, a = self.tv()
            al = m.align(t)
            while p.peek():
                if p.next() == "align" and p.peek().isdigit():
                    al = int(p.next())
                    break
            if op == "load":
                self.decl[dst] = t
                return self.ldst(t, a, al, target=dst)
            return self.ldst(t, a, al, store=v)
        if op == "br":
            if p.peek() == "label":
                return self.goto(blk, self.label())
            t = p.type()
            c = self.value(t)
            p.need(",")
            x = self.label()
            p.need(",")
            y = self.label()
            return "if (%s) %s else %s" % (c, self.goto(blk, x), self.goto(blk, y))
        if op == "switch":
            t = p.type()
            v = self.value(t)
            p.need(",")
            d = self.label()
            p.need("[")
            s = "switch (%s) {" % v
            while not p.eat("]"):
                ct = p.type()
                cv = self.value(ct)
                p.need(",")
                s += " case %s: %s" % (cv, self.goto(blk, self.label()))
            return s + " default: %s }" % self.goto(blk, d)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return "vm_sp = sp0; return;"
            return "{ const %s rv = %s; vm_sp = sp0; return rv; }" % (cty(t), self.value(t))
        if op == "unreachable":
            return 'vm_fail("control reached a point that the code promised never to reach"); __builtin_unreachable();'
        if op == "extractvalue":
            t, v = self.tv()
            for_t = t
            e = v
            while p.peek() == "," and p.peek(1).isdigit():
                p.next()
                i = int(p.next())
                e += ".f%d" % i
                for_t = for_t.e[0] if for_t.k == "arr" else for_t.e[i]
            return setv(for_t, e)
        if op == "insertvalue":
            t, v = self.tv()
            p.need(",")
            t2, x = self.tv()
            path = ""
            while p.peek() == "," and p.peek(1).isdigit():
                p.next()
                path += ".f" + p.next()
            self.decl[dst] = t
            return "%s = %s; %s%s = %s;" % (dst, v, dst, path, x)
        if op == "fence":
            return ""
        if op == "call":
            return self.call(dst)
        raise Unsupported("instruction " + op)

    def call(self, dst):
        p, m = self.p, self.m
        while p.peek() in CC or p.peek() in ATTRS:
            if p.peek() in ATTRS:
                skip_attrs(p)
            else:
                p.next()
                if p.t[p.i - 1] == "cc":
                    p.next()
        rt = p.type()
        if p.peek() == "(":
            p.skip_paren()
        x = p.next()
        if x == "asm":
            return self.asm(dst, rt)
        p.need("(")
        args, ats = [], []
        if x.startswith("@llvm.") and re.match(r"@llvm\.(experimental\.noalias|dbg|donothing|lifetime|prefetch|sideeffect|invariant|annotation|var\.annotation|pseudoprobe)", x):
            return ""
        while not p.eat(")"):
            t = p.type()
            if t.k == "meta":
                raise Unsupported("metadata argument of " + x)
            skip_attrs(p)
            if p.peek() in ("byval", "sret", "elementtype"):
                raise Unsupported(p.peek())
            args.append(self.value(t))
            ats.append(t)
            p.eat(",")
        def ret(e):
            if dst:
                self.decl[dst] = rt
                return "%s = %s;" % (dst, e)
            return "(void)(%s);" % e if rt.k != "void" else e + ";"
        if x[0] == "%":
            sig = repr(rt) + "|" + ",".join(map(repr, ats))
            s = self.prog.sigs.setdefault(sig, ("icall%d" % len(self.prog.sigs), rt, ats))
            return ret("%s(%s)" % (s[0], ", ".join([self.local(x)] + args)))
        n = x[1:].strip('"')
        if n.startswith("llvm."):
            return self.intrin(n, rt, args, ats, ret)
        k = self.prog.fref(m, n)
        if k:
            return ret("%s(%s)" % (self.prog.cname(k), ", ".join(args)))
        b = n.lstrip("_")
        if b in ("memcpy", "memmove"):
            return ret("vm_memcpy(%s, %s, %s, %d)" % (args[0], args[1], args[2], b == "memmove"))
        if b in ("aeabi_memcpy", "aeabi_memcpy4", "aeabi_memcpy8"):
            return ret("vm_memcpy(%s, %s, %s, 0)" % tuple(args[:3]))
        if b == "memset":
            return ret("vm_memset(%s, %s, %s)" % (args[0], args[1], args[2]))
        if b in ("memcmp", "bcmp"):
            return ret(self.fit(rt, "vm_memcmp(%s, %s, %s)" % tuple(args)))
        if b in ("vm_assert_fail", "abort", "assert_fail", "wassert"):
            return 'vm_fail("assertion failed");'
        raise Unsupported("call of " + n)

    def asm(self, dst, rt):
        """an empty statement that only holds the optimiser back: its result is its tied input"""
        p, strs = self.p, []
        while p.peek() != "(":
            x = p.next()
            if x[0] == '"':
                strs.append(x)
        p.need("(")
        args = []
        while not p.eat(")"):
            t = p.type()
            skip_attrs(p)
            if p.peek() == "elementtype":
                p.next(), p.skip_paren()
            args.append(self.value(t))
            p.eat(",")
        if strs[0].strip('" \\t\\n'):
            raise Unsupported("asm " + strs[0])
        cons = [x for x in strs[1].strip('"').split(",") if x and x[0] not in "~"]
        outs = [x for x in cons if x[0] == "=" and not x.startswith("=*")]
        ins = cons[len(outs):]
        if not outs:
            return ""
        if len(outs) != 1 or ins.count("0") != 1 or len(ins) != len(args):
            raise Unsupported("asm " + strs[1])
        if not dst:
            return ""
        self.decl[dst] = rt
        return "%s = %s;" % (dst, args[ins.index("0")])

    def intrin(self, n, rt, a, ats, ret):
        b = n.split(".")
        op = b[1]
        w = self.width(rt) if rt.k in ("int", "ptr") else 0
        if op == "bswap":
            return ret(self.fit(rt, "vm_bswap(%s, %d)" % (a[0], w)))
        if op in ("fshl", "fshr"):
            return ret(self.fit(rt, "vm_%s(%s, %s, %s, %d)" % (op, a[0], a[1], a[2], w)))
        if op in ("umin", "umax"):
            return ret("%s %s %s ? %s : %s" % (a[0], "<" if op == "umin" else ">", a[1], a[0], a[1]))
        if op in ("smin", "smax"):
            return ret("%s %s %s ? %s : %s" % (self.sx(rt, a[0]), "<" if op == "smin" else ">", self.sx(rt, a[1]), a[0], a[1]))
        if op == "abs":
            return ret(self.fit(rt, "%s < 0 ? 0 - (u64)%s : %s" % (self.sx(rt, a[0]), a[0], a[0])))
        if op in ("uadd", "usub", "umul") and b[2] == "with":
            t = rt.e[0]
            c = cty(rt)
            o = {"uadd": "+", "usub": "-", "umul": "*"}[op]
            f = self.fit(t, "%s %s %s" % ("(%s)%s" % (self.wide(t), a[0]), o, "(%s)%s" % (self.wide(t), a[1])))
            if self.width(t) > 64:
                raise Unsupported(n)
            ov = {"uadd": "(((u128)%s + %s) >> %d) != 0", "umul": "(((u128)%s * %s) >> %d) != 0", "usub": "%s < %s && %d"}[op] % (a[0], a[1], self.width(t))
            return ret("(%s){%s, %s}" % (c, f, ov))
        if op == "usub" and b[2] == "sat":
            return ret("%s > %s ? %s : %s" % (a[0], a[1], self.binop("sub", rt, a[0], a[1]), lit(0, rt, self.m)))
        if op == "uadd" and b[2] == "sat":
            s = self.binop("add", rt, a[0], a[1])
            return ret("%s < %s ? %s : %s" % (s, a[0], lit(-1, rt, self.m), s))
        if op in ("ctpop", "ctlz", "cttz", "bitreverse"):
            return ret(self.fit(rt, "vm_%s(%s, %d)" % (op, a[0], w)))
        if op in ("memcpy", "memmove"):
            return "vm_memcpy(%s, %s, %s, %d);" % (a[0], a[1], a[2], op == "memmove")
        if op == "memset":
            return "vm_memset(%s, %s, %s);" % (a[0], a[1], a[2])
        if op == "assume":
            return 'if (!(%s)) vm_fail("the code promised the compiler something that is false");' % a[0]
        if op in ("expect", "bpf", "launder", "strip", "ssa", "ptr"):
            return ret(a[0])
        if op == "is" and b[2] == "constant":
            return ret("0")
        if op == "objectsize":
            return ret(lit(-1, rt, self.m))
        if op in ("trap", "debugtrap", "ubsantrap"):
            return 'vm_fail("trap"); __builtin_unreachable();'
        if op == "stacksave":
            return ret("vm_sp")
        if op == "stackrestore":
            return "vm_sp = %s;" % a[0]
        raise Unsupported(n)

LOCK = threading.Lock()

def translate(texts):
    with LOCK:
        AGG.clear()
        try:
            return Program(texts).emit()
        except (IndexError, KeyError, AttributeError, ValueError, TypeError, StopIteration) as e:
            raise Unsupported("IR not understood: %r" % e)
