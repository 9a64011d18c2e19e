"""Writes MANIFEST.json from the property modules (run by hand when a property is added)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TRUST = ("Trusts the simulator's seams (stated in the evidence file), CPython's own expat/zlib, and the oracle model in "
         "sim/model.py; no claim beyond the seeds explored.")
NOTE = {
    "C01": "Seeded search over generated logs, transfer sizes and stream kinds; each result compared with the generator's description.",
    "C02": "Seeded search over failing, full and dying simulated disks; every surviving image is parsed.",
    "C03": "Seeded search over truncations, read errors and damaged bytes with healthy parses in between.",
    "C04": "Seeded search over thread interleavings at line and bytecode granularity, results compared with those obtained alone.",
    "C05": "Seeded search over interleavings and interruptions of first requests.",
    "C06": "Seeded search over interleavings; histories checked for linearizability against a sequential manager.",
    "C07": "Seeded search over definitions, network and disk faults; exact definition or error.",
    "C08": "Seeded search over histories of caching, restarts, kills and clock jumps against a model of the durable cache.",
    "C09": "Seeded search over interleavings of parses with changes of the default factory; every object's maker checked.",
    "C10": "Seeded search over registry orders, failing extra parsers and read faults.",
    "C11": "Seeded search over delivery orders; compared with a stable-sort model after every insertion.",
    "C12": "Seeded search over interleaved edits of originals and clones; compared with value models after every edit.",
    "C13": "Seeded search over threads, forks, restarts, clocks and reseeding; global uniqueness of all ids seen.",
    "C14": "Seeded search over host zones, clock changes and instants; compared with the instant in integer milliseconds.",
    "C15": "Seeded search over logs, classifiers and interleavings; compared with an independent recount.",
    "C16": "Seeded search over points of interruption (source lines and bytecodes) of listed operations; retries compared with uninterrupted results.",
    "C17": "Seeded search over histories and interleavings of timers on a simulated clock.",
    "C18": "Seeded search over interleavings; histories checked for linearizability against a dictionary.",
    "C19": "Seeded search over MXML documents, read chunking and host zones; compared with the generator's description.",
    "C20": "Seeded search over interleavings and interruptions; histories checked for linearizability against a sequential registry.",
    "C21": "Seeded search over histories, interleavings and interruptions of accessor calls; every element compared with a table of what was assigned.",
    "C22": "Seeded search over XES documents as other programs write them, encodings, transfer sizes and interleavings; compared with the generator's description.",
    "C23": "Seeded search over chains of programs, serialisers, suffixes, failing writers and readers of files in the making; compared with the generator's description.",
    "C24": "Seeded search over histories of editing calls, asynchronous exceptions and interleavings of editing threads; compared by identity with a reference model.",
    "C25": "Seeded search over the cases of nine other properties with a standard output that fails in every way files do, and over interrupts while printing.",
    "C26": "Seeded search over logs, short writes, time zones, writer interleavings and failed earlier writes; the bytes written are read by a strict reader of the formats that shares nothing with the library.",
}
PURE = "pure function of its arguments: no schedule, clock, randomness, I/O, crash or interleaving can change its outcome, " \
       "so simulating those decides nothing about it"
NA = {
    "P01": "comparison of two attributes is a " + PURE,
    "P02": "class identity is a " + PURE + " (its concurrent and cached use is decided under C15)",
}

checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        continue
    try:
        importlib.import_module("sim.props." + p.lower())
    except ImportError:
        NA[p] = "its check is not built yet"
        continue
    checks.append({"property": p, "quick_cmd": "./check %s --quick" % p, "thorough_cmd": "./check %s --thorough" % p,
                   "technique": "deterministic simulation with seeded scheduling and fault injection",
                   "level": "exploration", "level_note": NOTE[p] + " " + TRUST})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
               "notes": "No hooks in /repo: every seam the simulator needs exists in the library's use of the standard library."},
              f, indent=1)
    f.write("\n")
