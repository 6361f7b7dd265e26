#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of registered checks."""
import json

TECH = "symbolic execution of the real Go code (SSA) with SMT verdicts and native replay"
GEN = "For a corpus of schemas (hand-written, taken from the repository, and drawn from the seed) the real generator is run and the parsers it emits are executed symbolically from their SSA form on every input up to a bounded length with symbolic bytes and contexts, next to a reference interpreter of the schema. Structures pair every form of member with every other; long messages are run with fixed lengths and tags and a symbolic payload. Bounded by schema corpus and input length; the values are covered completely. "
NOTE = {
    "C01": GEN + "Asserted: every field and the remaining bytes equal the reference.",
    "C02": GEN + "Asserted: accepted exactly when the reference accepts.",
    "C03": GEN + "Every path must end, without panic, within step and allocation limits, and leave the input unchanged.",
    "C04": GEN + "Asserted: one-shot and method agree, reuse of a value equals a fresh one, no shared memory. Path limits may cut the exploration of reuse on the largest schemas; the evidence reports it.",
    "C05": "The real description parser is executed symbolically on descriptions with a literal of symbolic characters in each place a number may stand, and compared with a reference parser executed on the same text; the value computed from the digits is compared by the solver. Bounded by literal shapes and lengths and by the descriptions around them.",
    "C06": "The real description parser is executed symbolically on descriptions with a symbolic byte in each position and with symbolic names near the words of the language; whenever it accepts, its tree is compared with that of a reference parser on the same text. Bounded by the set of descriptions and the number of symbolic bytes.",
    "C07": "The real description parser is executed symbolically on descriptions whose gaps hold layouts with symbolic bytes; the tree has to be that of the plain text. Bounded by the set of descriptions, layout forms and number of symbolic bytes.",
    "C08": "The real description parser is executed symbolically on descriptions with symbolic bytes substituted or inserted in each position, cut off, or made up of symbolic bytes only; it has to accept exactly when a reference parser does. Lists of files are read on a model of the file system. Bounded by the set of descriptions and the number of symbolic bytes.",
    "C11": "Resolvers are built from symbolic descriptions (constant values and list ends symbolic; names, kinds and placement of declarations enumerated, map iteration order explored) and every lookup is compared with the declarations. Bounded by the number of declarations and list entries.",
    "C12": "Case lists with symbolic ends are looked up with a symbolic tag and compared with their lists; every union of the schema corpus is looked up with a symbolic tag; generated parsers are executed symbolically next to an interpreter that selects cases by that lookup. Bounded by number of cases, schema corpus and input length.",
    "C10": "Set construction, subtraction and drawing are executed with symbolic 64-bit end points and symbolic random numbers; reachability of members is a satisfiability goal per member. Bounded by number of intervals (3 quick, 4 thorough) and of redraws.",
    "C15": "Sequences of operations on constraint stores are executed with symbolic keys and values and compared to a plain table. Bounded by the number of operations and entries; the evidence reports path limits.",
    "C13": "For every structure of the schema corpus the real vector generator is executed symbolically with symbolic payload bytes, symbolic letters and a window of symbolic draws; each vector it returns is run through the generated parser on the same path and has to be accepted without rest. Bounded by schema corpus, window of draws and short random lengths.",
    "C14": "As C13, with the reference interpreter recording which union cases the vectors exercise; samples are executed with every permutation of the library source. Bounded by schema corpus, window of draws and number of candidates.",
    "C16": "For every description of the corpus parsers, tests, fuzz entries and vectors are generated twice on one symbolic path, the second time with maps iterated in other orders and after other generations, and compared; vectors are compared with symbolic draws and payload. Orders of map iteration are all explored for small descriptions (up to a path limit) and five fixed ones for the others.",
    "C17": "Package generation is executed on a model of the file system with an obstacle in any place, an arbitrary limit on file sizes at which writes are cut short, files already there, and on descriptions with missing parts; success has to mean complete artefacts. Bounded by the set of descriptions and kinds of obstacle; single faults only.",
    "C18": "Test, fuzz and corpus files are generated from corpora with symbolic bytes and read back; the solver compares them with the vectors. The generated fuzz entries are executed symbolically next to the parsers. Whole packages are generated for every description of the corpus with some symbolic payload. Bounded by corpus shapes, schema corpus and input length.",
    "C19": "The real description parser is executed symbolically on malformed descriptions with symbolic bytes; the places named in its errors are compared with the text and with how far a reference parser gets, and the text before the place is parsed again on the same path. Bounded by the set of descriptions and the number of symbolic bytes.",
    "C09": "Every path of the interval code is executed with symbolic 64-bit end points and probe values for all list sizes up to the stated bound; each assertion on each path is an SMT query (unsat = holds for all values). Bounded by list length; longer lists with fixed ends are run with a symbolic probe.",
}
NA = []

checks = []
for pid in sorted(NOTE):
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE[pid],
    })
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": checks,
    "not_applicable": NA,
    "notes": "See DESIGN.md. No hooks are needed in /repo: the harnesses are compiled against it from a scratch module under /verif/.build.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
