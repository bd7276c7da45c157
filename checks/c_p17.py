"""P17: the portable variants on other architectures and byte orders."""
import foreign
from foreign import FCfg, BE64, BE32, LE64, LE32

NOBUILTIN = ["-U__has_builtin", "-D__has_builtin(x)=0"]
PLAIN = NOBUILTIN + ["-U__has_attribute", "-D__has_attribute(x)=0", "-U__GNUC__", "-U__clang__"]


def cfgs(thorough):
    r = []
    for g in (BE64, BE32, LE64, LE32):
        for i, t in enumerate(g):
            r.append(FCfg(t))
            if i == 0 or thorough:
                for u in (0, 1, 2):
                    r.append(FCfg(t, u, False, "-O1"))
                    r.append(FCfg(t, u, True, "-O2", ndebug=False))
            else:  # every target sees every model once over the list
                r.append(FCfg(t, i % 3, i % 2 == 0, "-O1", ndebug=i % 2 == 1))
            if thorough:
                r.append(FCfg(t, None, False, "-O0", ndebug=False))
                r.append(FCfg(t, None, True, "-Os"))
    for t in (BE64[0], BE32[0], LE64[0], LE32[0]):
        r.append(FCfg(t, tag="-no1", flags=["-DT1HA1_DISABLED"]))
        r.append(FCfg(t, tag="-no2", flags=["-DT1HA2_DISABLED", "-DT1HA0_USE_DEFINE=1"]))
        r.append(FCfg(t, tag="-no12", flags=["-DT1HA2_DISABLED", "-DT1HA1_DISABLED"]))
        r.append(FCfg(t, tag="-no1def", flags=["-DT1HA1_DISABLED", "-DT1HA0_USE_DEFINE=1"]))
        r.append(FCfg(t, tag="-rts", flags=["-DT1HA0_RUNTIME_SELECT=1", "-DT1HA_USE_INDIRECT_FUNCTIONS=0"]))
        r.append(FCfg(t, tag="-rts-no1", flags=["-DT1HA0_RUNTIME_SELECT=1", "-DT1HA_USE_INDIRECT_FUNCTIONS=0", "-DT1HA1_DISABLED"]))
        r.append(FCfg(t, tag="-noint128", flags=["-U__SIZEOF_INT128__"]))
        # what compilers without clang's builtins (gcc) see, and those without any extension
        r.append(FCfg(t, tag="-gcc", flags=NOBUILTIN))
        r.append(FCfg(t, tag="-gcc-noint128", flags=NOBUILTIN + ["-U__SIZEOF_INT128__"]))
        for u in (None, 0, 1) if thorough else (None, 0):
            r.append(FCfg(t, u, tag="-other", flags=PLAIN, only="v"))
    # the translation is bound to reality by a target that can also be run natively
    r.append(FCfg(("x86_64", "x86_64-linux-gnu", ["-DT1HA0_AESNI_AVAILABLE=0", "-mno-sse"])))
    r.append(FCfg(("i386", "i386-linux-gnu", ["-DT1HA0_AESNI_AVAILABLE=0"])))
    return r


def run(c):
    todo = cfgs(c.thorough)
    done = foreign.explore(c, todo, "va")
    return c.finish(targets=done, configurations=[f.name for f in todo])
