#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
from pathlib import Path
here = Path(__file__).resolve().parent.parent
TRUST = "Trusts the reference model (mc/src/refdec.rs, written from the specification, not from wadec), rustc and the harness."
ORACLE = ("Every explored byte sequence is decoded by the reference model and by the real decode_module; verdict and whole module are compared, "
          "so each model trace is replayed on the implementation. ")
C = {
 "C01": ("explicit-state exploration of a pushdown model of the binary grammar (all states x all bytes, pairs of bytes, deviation-bounded inputs), each trace replayed on the decoder", "model_checking", ORACLE),
 "C02": ("exhaustive enumeration of section sequences, sizes and header encodings against the model, replayed on the decoder", "model_checking", ORACLE),
 "C03": ("exhaustive enumeration of section counts and placements of data-index instructions against the model, replayed on the decoder", "model_checking", ORACLE),
 "C04": ("explicit-state exploration of all LEB128 encodings with bounded deviations at every integer site of the grammar, replayed on the decoder", "model_checking", ORACLE),
 "C05": ("explicit-state exploration of the type grammar (all states x bytes, types in every place), replayed on the decoder", "model_checking", ORACLE),
 "C06": ("exhaustive enumeration of opcodes, sub-opcodes, immediates, neighbours and expression positions against the model, replayed on the decoder", "model_checking", ORACLE),
 "C07": ("exhaustive enumeration of bracket structures up to a depth and length against a pushdown model, replayed on the decoder", "model_checking", ORACLE),
 "C08": ("explicit-state exploration of import, export, start and tag sections and sequences of entries, replayed on the decoder", "model_checking", ORACLE),
 "C09": ("explicit-state exploration of element, data, table and global sections and sequences of segments, replayed on the decoder", "model_checking", ORACLE),
 "C10": ("exhaustive enumeration of entry sizes, locals runs and totals around the limit against the model, replayed on the decoder", "model_checking", ORACLE),
 "C11": ("exhaustive enumeration of all truncation points of a state-covering set of modules against the model, replayed on the decoder", "model_checking", ORACLE),
 "C12": ("systematic fault injection: every read call of every decode fails in turn, on modules that cover every grammar state of the model", "fault_enumeration",
         "Each fault is executed on the real decoder. The kind of a source error is judged by its text in the cause chain. "),
 "C13": ("stateless model checking of delivery schedules: all schedules with at most 2 deviations at read calls, all chunkings of short modules", "model_checking",
         "Each schedule is executed on the real decoder and compared with the undisturbed decode. "),
 "C14": ("explicit-state exploration of inputs under crash, hang and allocation supervision; deep and long inputs in child processes on 8 MB stacks", "model_checking",
         "Built with overflow checks and debug assertions. Known findings: 100000-deep nesting overflows the stack. "),
 "C15": ("explicit-state exploration of inputs with hostile lengths at every length site of the grammar under an accounting allocator", "model_checking",
         "The constants of the linear bound are 1024 bytes an input byte plus 16 MiB. Known findings: expansion of run-length encoded locals. "),
 "C16": ("stateless model checking: all histories up to a depth, nesting at every read call, all two-thread schedules of read calls with at most 2 preemptions", "exploration",
         "Preemption is at read calls; every execution runs on the real decoder and is compared with a decode in isolation and in a fresh process. "),
 "C17": ("explicit-state exploration of rejections: the model's diagnosis (section, element path, reason, value) is compared with the error of the decoder on every trace", "model_checking",
         ORACLE + "Reasons and values are read from the error variants and from the texts of the cause chain. "),
 "C18": ("exhaustive enumeration of inputs x ways of passing them x verbosity on the real executable, against the library's verdict", "exploration",
         "The verdict of the library is the oracle here; C01-C11 judge it. "),
 "C19": ("exhaustive enumeration of placements of custom sections and of all subsets of sections, compared with the model and with each other, replayed on the decoder", "model_checking", ORACLE),
 "C20": ("exhaustive enumeration of bit patterns (all single, double and run patterns, every exponent, byte-wise exhaustive) in every expression position, replayed on the decoder", "model_checking", ORACLE),
 "C21": ("exhaustive enumeration of byte strings up to 3 bytes and of UTF-8 automaton paths in every name position, replayed on the decoder", "model_checking", ORACLE),
 "C22": ("exhaustive enumeration of list and byte-vector lengths and their encodings for every list of the grammar, replayed on the decoder", "model_checking", ORACLE),
}
checks = []
for p in map(json.loads, (here / "properties.jsonl").read_text().splitlines()):
    i = p["id"]
    t, level, note = C[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": "model checking: " + t, "level": level,
                   "level_note": note + "Exhaustive within the bounds listed in the evidence file and DESIGN.md. " + TRUST})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API, std::io::Read, the allocator, and the command line. Known findings and fixes: known_findings.txt."}
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
