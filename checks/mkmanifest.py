#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept here so that it stays in step with checks/)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "exhaustive enumeration of a bounded space of calls on the real code"
T = {
 "P01": ("explicit enumeration of (length, alignment, content class, seed, build) on the real code against a reference model", "bounded: every length 0..1100, all 1-bit/byte classes, mined constants; model bound to the code by the same runs"),
 "P02": ("explicit enumeration of (length, alignment, content class, seed, build) on the real code against a reference model", "bounded as P01; destination surroundings checked on every call"),
 "P03": ("explicit-state exploration of all update sequences on the real code, state matching on the context", "bounded: all compositions of messages to 420 bytes (140 with all alignments), chunk triples to 150 KB; states merged only when the whole context is equal"),
 "P04": ("explicit enumeration of stream histories on the real code against a reference model", "bounded as P01, for all seed bits and pairs; every update history of P03 against the model as well"),
 "P05": ("explicit enumeration of (length, alignment, content class, seed, build) on the real code against a reference model", "bounded as P01"),
 "P06": ("explicit enumeration of (length, alignment, content class, seed, build) on the real code against a reference model", "bounded as P01"),
 "P07": ("explicit enumeration of (length, alignment, content class, seed, build) on the real code against a reference model", "bounded as P01"),
 "P08": ("exhaustive exploration of CPU/OS capability states, real dispatcher executed in each (cpuid/xgetbv emulated)", "complete over the capability bits the dispatcher can consult"),
 "P09": ("exhaustive enumeration of (length, placement against guard pages, entry point, build), real code", "bounded: every length to 4396 at both page borders, all offsets of messages to 140 bytes, 18 builds and foreign targets"),
 "P10": ("exhaustive enumeration of executions with every memory access monitored", "bounded: lengths to 300 x 32 alignments; every load and store of every execution observed"),
 "P11": ("exhaustive enumeration of placements and surroundings, differential on the real code", "bounded: lengths to 145 x offsets x every neighbouring bit within 16 bytes; 16 regions of the address space"),
 "P12": ("explicit exploration of call histories up to a depth on the real code", "fixpoint of library memory under ~3900 calls (unbounded histories over that alphabet); all triples of ~140 calls; 84 caller machine states"),
 "P13": ("stateless model checking: controlled scheduler over real threads, all interleavings up to a preemption bound, vector-clock race detection", "bounded: 2 threads, preemption bound 2 (3 thorough), 1386 pairs of calls; sequentially consistent, races detected by vector clocks"),
 "P14": ("explicit exploration of context life-cycle operation sequences up to a depth on the real code", "bounded: all sequences of 8/5/5/4 operations over two contexts (10/6/6/5 thorough)"),
 "P15": ("exhaustive fault enumeration: every wrong-vector position in every self-check, real code", "complete over single faults per vector and over capability states"),
 "P16": ("exhaustive enumeration of the lattice of build options; each point is built, linked and run against a reference model", "quick: dispatch lattice and code-generation lattice each complete over the stated axes; thorough: their product"),
 "P20": ("exhaustive enumeration of process histories: every set of life-cycle moments at which t1ha0() is called, real processes", "complete over 14 moments and ways of linking (sets of up to 3 or nearly all moments for secondary linkings in quick)"),
 "P21": ("exhaustive enumeration of caller programs (object type x size x use pattern x optimisation x compiler x way of combining), each run against a reference model", "bounded by the enumerated types, sizes and patterns"),
 "P22": ("exhaustive enumeration of user programs (language standard x compiler x linking x configuration), each built, linked and run; export list compared", "complete over the stated axes"),
 "P17": ("exhaustive enumeration of executions of foreign-target code (LLVM IR translated onto a simulated machine) against a reference model", "bounded by length and alignment; big/little endian, 32/64-bit targets; model of the machine validated by the same runs on the host targets"),
 "P18": ("explicit enumeration of lengths and update histories around 2^31 and 2^32 on the real code against a reference model", "bounded: lengths around 2^31, 2^32, to 8 GiB; one physical megabyte mapped repeatedly with private border pages"),
 "P19": ("exhaustive enumeration of single-bit and length changes on the real code", "bounded: every bit of messages to 230 bytes and chosen lengths to 65538, every seed bit, every appended byte"),
 "P24": ("exhaustive enumeration of placements, update histories and life-cycle histories on the real code instrumented by UBSan and MSan", "bounded as P03, P09, P14, P16; 12 UBSan builds and 8 MSan builds"),
 "P25": ("exhaustive enumeration of (interrupted call, interrupting call, instruction) on the real code, single-stepped", "bounded by the call alphabet (shapes of each entry point); complete over the instructions of each call, one interruption or all at once"),
 "P26": ("exhaustive enumeration of (entry point, length, placement, stream history, build) on the real code with stack, allocator and kernel watched", "bounded: every length 0..400, selected lengths to 1 MiB, every pair of stream pieces to 64+130 bytes"),
 "P23": ("exhaustive enumeration of executions with every memory access monitored", "bounded: lengths to 300 x 32 alignments, stream chunks to 100 bytes; 4 native builds and strict foreign targets on the simulated machine"),
}
sys.path.insert(0, os.path.join(V, "checks"))
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m py_compile checks/*.py && gcc -fsyntax-only -w -I/repo ref/ref.c",
     "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + i,
                 "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]} for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in T]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
