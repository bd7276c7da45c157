"""Replacing cpuid/xgetbv in a built library; classifying executed instructions."""
import re
from vlib import *


def disassemble(c, so):
    """offset -> (bytes, text)"""
    ins = {}
    for line in c.run(["objdump", "-d", "-w", so], check=True).out.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t?(.*)", line)
        if m:
            ins[int(m.group(1), 16)] = (bytes.fromhex(m.group(2)), m.group(3).strip())
    return ins


def patch(c, so, ins):
    """A copy of the library whose CPU queries trap; returns (path, table)."""
    out = so[:-3] + "-env.so"
    data = bytearray(open(so, "rb").read())
    # file offset of a virtual address
    loads = []
    for line in c.run(["readelf", "-lW", so], check=True).out.splitlines():
        m = re.match(r"\s*LOAD\s+0x(\S+)\s+0x(\S+)\s+0x\S+\s+0x(\S+)\s+0x(\S+)", line)
        if m:
            loads.append(tuple(int(x, 16) for x in m.groups()))
    def fo(v):
        for off, va, fsz, msz in loads:
            if va <= v < va + fsz:
                return off + v - va
        raise RuntimeError("address %x not in file" % v)
    table, n = [], 0
    for a, (b, t) in sorted(ins.items()):
        if re.match(r"(rep |repz |data16 )*cpuid", t):
            o = fo(a) + len(b) - 2
            assert data[o:o + 2] == b"\x0f\xa2"
            data[o:o + 2] = b"\x0f\x0b"
            table.append("c %x cpuid" % (a + len(b) - 2)); n += 1
        elif t.startswith("xgetbv"):
            o = fo(a)
            assert data[o:o + 3] == b"\x0f\x01\xd0"
            data[o:o + 3] = b"\xf0\x90\x90"
            table.append("x %x xgetbv" % a); n += 1
    for line in c.run(["nm", so], check=True).out.splitlines():
        w = line.split()
        if len(w) == 3 and w[1] in "tTiWw":
            table.append("f %s %s" % (w[0], w[2]))
    open(out, "wb").write(data)
    tf = out + ".table"
    open(tf, "w").write("\n".join(table) + "\n")
    return out, tf, n


BMI = re.compile(r"^(andn|bextr|blsi|blsr|blsmsk|bzhi|mulx|pdep|pext|rorx|sarx|shlx|shrx|lzcnt|tzcnt|popcnt|movbe|adcx|adox|crc32|rdrand|rdseed)")
SSE3PLUS = re.compile(r"^(addsub|hadd|hsub|lddqu|movddup|movshdup|movsldup|pabs|palignr|phadd|phsub|pmaddubsw|pmulhrsw|pshufb|psign|blend|dpp|extractps|insertps|"
                      r"movntdqa|mpsadbw|packusdw|pblend|pcmpeqq|pextr[bdq]|phminposuw|pinsr[bdq]|pmaxs[bd]|pmaxu[wd]|pmins[bd]|pminu[wd]|pmov[sz]x|pmuldq|pmulld|ptest|round|pcmp[ei]str|pcmpgtq)")
AVXFP256 = re.compile(r"^v(mov|add|sub|mul|div|sqrt|max|min|and|or|xor|blend|shuf|unpck|perm(2f128|il)|broadcast(ss|sd|f128)|extractf128|insertf128|lddqu|ptest|test|zero|cmp|cvt|dp|h(add|sub)|round|rcp|rsqrt|maskmov)")


def isa(text):
    """Instruction-set extensions an instruction needs beyond the base line (SSE2 on x86-64, none on i686)."""
    t = re.sub(r"^((rep|repz|repnz|lock|bnd|notrack|data16|cs|ds|es|ss|fs|gs)\s+)+", "", text)
    m = t.split()[0] if t.split() else ""
    s = set()
    if m.startswith("aes") or m.startswith("vaes"):
        s.add("aes")
    if "pclmul" in m:
        s.add("pclmul")
    if m.startswith("v") and m not in ("verr", "verw", "vmcall"):
        if re.search(r"%zmm|%[xy]mm(1[6-9]|2\d|3[01])|%k[0-7]", t):
            s.add("avx512")
        elif "%ymm" in t and not AVXFP256.match(m):
            s.add("avx2")
        elif re.match(r"vp(broadcast|gather|sllv|srlv|srav|maskmov|erm(q|d|ps|pd)\b|blendd)|vbroadcasti128|vinserti128|vextracti128|vperm2i128", m) and "%ymm" not in t:
            s.add("avx2")
        if m.startswith("vaes") and "%ymm" in t:
            s.add("vaes")
        s.add("avx")
        if m.startswith("vfm") or m.startswith("vfnm"):
            s.add("fma")
    elif BMI.match(m):
        s.add("bmi:" + m)
    elif SSE3PLUS.match(m):
        s.add("sse3+")
    elif re.search(r"%xmm", t):
        s.add("sse")
    elif re.search(r"%mm\d", t) or m == "emms":
        s.add("mmx")
    return s
