#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "property-based testing: generated inputs on every build configuration against a reference model, with shrinking"
META = "property-based testing: generated inputs on every build configuration, metamorphic relation within the same build, with shrinking"
DEF = "property-based testing: generated inputs on every build configuration against the definition, with shrinking"
T = {
    "C01": (MODEL, "Generated search. Absolute oracle (FIPS-197 model). Trusts the compilers and qemu."),
    "C02": (MODEL + " and round trips", "Generated search. Absolute oracle (FIPS-197 model) and round trips."),
    "C03": (META, "Generated search; wide call against single-block calls of the same object."),
    "C04": (META + "; stateful histories of switches and clones", "Generated histories; each object against a freshly built one."),
    "C05": (MODEL, "Generated search. Absolute oracle."),
    "C06": (MODEL, "Generated search. Absolute oracle."),
    "C07": (META, "Generated search; each lane against the single-block operation of the same build."),
    "C08": (META, "Generated search over list lengths 0 to 300; against repeated rounds of the same build."),
    "C09": (DEF, "Generated search against the bytewise definition, operands distinct or aliased."),
    "C10": (DEF, "Generated search over pairs built to be equal or to differ by cancelling changes."),
    "C11": (DEF, "Generated search against the bytes; constants come from const items compiled into the agents."),
    "C12": (DEF + "; guard pages", "Generated lengths, alignments and places; memory next to unmapped pages."),
    "C13": (DEF + "; guard pages", "Generated lengths, alignments and places; surrounding memory compared byte by byte."),
    "C14": (DEF, "Generated search against the bytes."),
    "C15": (DEF, "Generated search against the stated text, failing writers included."),
    "C16": ("differential testing: generated API programs on every build configuration, answers compared, with shrinking",
            "Generated search; the table-based build is the reference side of the comparison."),
    "C17": ("metamorphic testing: instruction and address traces (ptrace, qemu) of generated operations under pairs of generated secrets, with shrinking",
            "Generated pairs of secrets; executed instruction and data addresses of the compiled code, in 22 builds; equality of traces is the oracle."),
    "C19": ("generated build configurations: the API program is compiled, generated programs are run in each, failing configurations are shrunk",
            "Documented configurations always, others sampled; targets without an emulator are compiled to object code only."),
    "C21": ("generated build configurations: instruction traces of generated operations against the documented choice of implementation",
            "Documented configurations always, others sampled; AES instructions executed are counted by width, data addresses compared between secrets."),
    "C18": ("stateful property-based testing: generated sessions run in different orders, alone and on many threads, answers compared, with shrinking",
            "Generated histories and schedules; thread interleavings are sampled, not enumerated."),
    "C20": ("fuzzing of generated API programs with debug assertions, guard pages, AddressSanitizer and the Miri interpreter as oracles",
            "Generated search; undefined behaviour is judged by Miri on the configurations it can run and by sanitizers and guard pages elsewhere."),
}
COVER = "; coverage-guided fuzzing (edges, compared values, mutation of round keys and states) with the same oracle"
for i in [f"C{k:02}" for k in range(1, 17)] + ["C20"]:
    T[i] = (T[i][0] + COVER, T[i][1])
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check is still being built")})
m["notes"] = "No hooks in /repo are needed: everything goes through the public API. A failing case is replayed with: python3 check.py <id> --replay <file>."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
