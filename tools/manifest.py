#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = {
 "P01": ("proof", "contracts on the real functions, enforced with goto-instrument --dfcc and discharged by cbmc (SAT)", "Both functions are loop free: every obligation is discharged for every input. Trusts cbmc, the allocator contract in vp/alloc.c."),
 "P10": ("proof", "contracts over ghost string lengths, verification conditions from clang's AST (vcg) discharged by z3/cvc5; bounded cbmc for failing inputs", "All three functions proved for strings of any length. Trusts vcg's memory model, tolower as in the C locale for ASCII."),
 "P03": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5; exhaustive enumeration for failing inputs and for the functions not yet proved (bounded)", "The memory collection's creation, header and getters are proved for every header and index; units/collection.c is bounded. Trusts vcg's memory model."),
 "P04": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5; exhaustive enumeration with failing calls for failing inputs and for the functions not yet proved (bounded)", "The file, partial and cached getters, loaders and releases are proved for every file; creation from a file is bounded (units/collection.c). Trusts the C library's file functions by contract."),
 "P06": ("other", "exhaustive enumeration of operation histories on the real functions against an executable contract, lock stubs checking shared state (bounded)", "Bounded: see the units in units/cache.c."),
 "P07": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5: ghost maps of the nodes, the bounds of their keys and the black heights; exhaustive enumeration of small trees for failing inputs and for what the proofs leave (bounded)", "Find, the initialisers, both rotations, Insert, insertRepair, successor and deleteRepair are proved for every tree: order, parents, colours, equal black heights; TreeDelete around its repair and iteration are bounded (units/tree.c). Termination is not proved."),
 "P08": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5, rely and guarantee for the interference of other threads; enumeration of histories with interference for failing inputs", "Get, Release, Init, Free and Reset are proved for every pool size and interleaving; assumes that fewer than 65536 steps of others fall between reading the head and the exchange (16 bit counter), and sequential consistency."),
 "P09": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5, rely and guarantee for the interference of other users; enumeration of histories with interference for failing inputs", "Init, IncUse, DecUse, Replace, ManagerFree and GetUse are proved for every history of whole operations; the windows between reading the active handle and using it, and after the last decrement, are outside the quantifier and assumed undisturbed"),
 "P12": ("proof", "contracts enforced with goto-instrument --dfcc on the real functions and discharged by cbmc for all 2^32 bit patterns", "libm's powf, frexp and fpclassify are trusted by contract."),
 "P05": ("proof", "contract with loop invariants found by Houdini, verification conditions from clang's AST (vcg) discharged by z3/cvc5; enumeration for failing inputs", "Proved for every collection, range and comparer that keeps its contract. Trusts vcg's memory model."),
 "P11": ("other", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5 (comparison of addresses); exhaustive enumeration of the real parser (bounded)", "Comparison is proved for all lengths; parsing is bounded (units/ip.c)."),
 "P14": ("other", "exhaustive enumeration of the real functions against an executable contract, with failing allocations (bounded)", "Bounded: see the units of this property in units/status.c."),
 "P15": ("other", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5; exhaustive enumeration for failing inputs and for the mapping of prefixes (bounded)", "Create, AddString, Free and Iterate are proved for every store and capacity; MapPrefix and PrefixString are bounded (units/evidence.c)."),
 "P16": ("other", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5 (lookup and Free); exhaustive enumeration of HeadersCreate, with failing allocations (bounded)", "GetHeaderIndex, GetHeaderFromUniqueId and Free are proved for every table; HeadersCreate is bounded (units/headers.c)."),
 "P17": ("other", "exhaustive enumeration of the real functions against an executable contract, with failing calls (bounded)", "Bounded: see the units of this property in units/pseudo.c."),
 "P24": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5; exhaustive enumeration for failing inputs", "Init, Reset, Add, Release and Free are proved for lists of any length; units/list.c is bounded. Trusts vcg's memory model."),
 "P25": ("proof", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5; exhaustive enumeration of histories for failing inputs and for Reset (bounded)", "Tracking malloc and free and the aligned forms are proved from any tracker state, on the contract of the tree (P07); Reset is bounded (units/memory.c)."),
 "P18": ("other", "exhaustive enumeration of the real functions against an executable contract, with failing calls (bounded)", "Bounded: see the units of this property in units/properties.c."),
 "P19": ("other", "contracts with loop invariants on the real functions, verification conditions from clang's AST (vcg) discharged by z3/cvc5 (lookup and adding of values); exhaustive enumeration for failing inputs and for the rest, with failing calls (bounded)", "GetFirst, HasValue, GetOverridingRequiredPropertyIndex and OverridesAdd are proved for every array; ValuesAdd, Reset, Free and extraction from evidence are bounded (units/overrides.c)."),
 "P20": ("other", "exhaustive enumeration of the real functions against an executable contract, with failing calls (bounded)", "Bounded: see the units of this property in units/entities.c."),
 "P21": ("other", "exhaustive enumeration of the real functions against an executable contract, with failing calls (bounded)", "Bounded: see the units of this property in units/dataset.c."),
 "P22": ("other", "exhaustive enumeration of the real functions against an executable contract, over a file system in memory with failing calls (bounded)", "Bounded: see the units of this property in units/file.c. Trusts the file system contract in vp/gfs.h."),
 "P23": ("other", "exhaustive enumeration of the real functions against an executable contract, over a file system in memory with failing calls (bounded)", "Bounded: see the units of this property in units/lines.c. Trusts the file system contract in vp/gfs.h."),
}
NA = {
 "P26": "No contract verifier for this C++ is at hand: CBMC's C++ front end does not take these sources (templates, STL, exceptions), and vcg is for C.",
 "P27": "Liveness and schedules of operating system primitives: contracts on one call say nothing about progress; the code is a wrapper around pthreads.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = [{"property": i, "quick_cmd": "python3 vp/run.py %s --tier quick" % i, "thorough_cmd": "python3 vp/run.py %s --tier thorough" % i,
               "evidence_file": "evidence/%s.json" % i, "technique": CLAIMS[i][1], "level": CLAIMS[i][0], "level_note": CLAIMS[i][2]} for i in ids if i in CLAIMS]
    na = [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in CLAIMS]
    m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "hooks": {"guard": "FIFTYONE_DEGREES_VERIF", "enable": "no hooks are needed: the checks compile /repo's sources as they are", "source_commits": []},
         "checks": checks, "not_applicable": na, "notes": "vp/run.py runs the units of one property: specs/*.py (vcg) and units/*.c (cbmc, native). DESIGN.md explains both."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
