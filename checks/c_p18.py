"""P18: huge messages."""
from vlib import *
import foreign

ENT = ["t1ha2_atonce", "t1ha2_atonce128", "stream64", "stream128", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be",
       "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]
G = 1 << 30


def run(c):
    l64 = [2 * G - 1, 2 * G, 2 * G + 1, 4 * G - 1, 4 * G, 4 * G + 1, 4 * G + 77, 4 * G + 128]
    big = [4 * G + 33, 6 * G + 19, 8 * G + 5]
    # no object is larger than PTRDIFF_MAX: compilers and C libraries rule them out, pointer differences would overflow
    l32 = [G + 1, 3 * G // 2 + 13, 2 * G - 64, 2 * G - 1]
    if c.thorough:
        l64 += [2 * G + i for i in (16, 31, 32, 33, 63, 64, 127)] + [4 * G + i for i in range(-40, 41, 3)]
        big += [16 * G + 3, 32 * G + 99, 34 * G]
        l32 += [2 * G - i for i in (2, 7, 15, 16, 17, 31, 32, 33, 63, 65, 127, 128, 129)]
    cfgs = [Cfg("gcc64"), Cfg("gcc32", m32=True), Cfg("clang64-U1-exact", cc="clang", flags=[U(1), O0], opt="-O2", ndebug=False),
            Cfg("clang32-U0", cc="clang", flags=[U(0)], m32=True, opt="-O2")]
    libs = c.build_libs(cfgs)
    ll, why = c.windows("llp64")
    win = Cfg("llp64", cc="clang", flags=[NOIF])
    if ll:
        libs[win.name] = ll
        cfgs.append(win)
    else:
        c.notes.append("LLP64 rendition not built: " + why)
    jobs = []
    for cfg in cfgs:
        if not libs[cfg.name]:
            continue
        h = c.huge(cfg, libs[cfg.name])
        first = cfg is cfgs[0]
        for e in ENT:
            ls = l32 if cfg.m32 else l64
            if not first and not c.thorough:
                ls = l32[2:] if cfg.m32 else [2 * G + 1, 4 * G + 77]
                if cfg.m32 and cfg is cfgs[1] :
                    ls = l32
            jobs.append((cfg, [h, e, str(c.seed)] + [str(x) for x in ls]))
            if first:
                jobs.append((cfg, [h, e, str(c.seed)] + [str(x) for x in big]))
        for ls in ([2 * G - 3, 2 * G + 31], [4 * G + 5], [4 * G, 4 * G + 16], [4 * G + 40]) if not cfg.m32 else ([2 * G - 3, 2 * G - 33],):
            if first or c.thorough or cfg.m32 or cfg is win:
                jobs.append((cfg, [h, "split", str(c.seed)] + [str(x) for x in (ls if not c.thorough or cfg.m32 else ls + [8 * G + 3, 4 * G + 32, 6 * G + 1])]))
        for border, chunk in ((4 * G, 1 * G - 5), (2 * G, 700000001), (8 * G, 1610612747)) if cfg.m32 else ((4 * G, 999999937), (8 * G, 4 * G + 3)):
            if first or cfg.m32 or c.thorough:
                jobs.append((cfg, [h, "stream", str(c.seed), str(border), str(chunk)]))
    jobs.sort(key=lambda j: -sum(int(x) for x in j[1][3:]))
    def go(j):
        return c.absorb(c.run(j[1], timeout=3000), j[0].name, " ".join(["huge"] + j[1][1:]))
    mb = 0
    for st in c.map(go, jobs):
        c.add(st)
        mb += st.get("megabytes", 0)
    c.assumptions += ["lengths above %d GiB are not run; the 64-bit Windows data model is rendered by clang's front end on this machine" % (34 if c.thorough else 8)]
    return c.finish(gigabytes_hashed=mb >> 10, configurations=[x.name for x in cfgs])
