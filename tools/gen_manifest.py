#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("property-based testing: random index protocol runs against the plain database", "whole runs over random shapes, contents and orders"),
 "P02": ("property-based testing: random keyword protocol runs against a plain map, plus metamorphic rebuilds", "whole runs over random pairs, key shapes and entry points"),
 "P03": ("stateful property-based testing: random histories against a per-object model", "histories of up to 150 operations over growing pools of objects"),
 "P04": ("property-based testing: exact decomposition of queries under chosen matrices, statistics over deterministic entropy, injected entropy faults", "secrets and errors are read off exactly; uniformity is judged by sums over the run with fixed seeds, so that it cannot flake"),
 "P05": ("property-based testing: synthetic responses with every kind of noise against the rounding model", "boundary noises in every coordinate; all plaintext values for the narrow widths"),
 "P06": ("property-based testing: differential against a wide-integer matrix product, concurrent askers", "raw queries of every kind, including concurrent ones (schedules are the operating system's)"),
 "P07": ("property-based testing: differential against an independent expansion of the seed and matrix product, metamorphic seed flips", "the product is recomputed; the expansion has to be deterministic and to depend on every seed bit"),
 "P08": ("property-based testing: round trip of elements through every loader, format and export against an independent chunking", "widths 1 to 32, any element size"),
 "P09": ("property-based testing: storage filters against a plain map, three ways of retrieval, two builds", "structured and adversarial key shapes, any modulus from 256 to 2^32"),
 "P10": ("property-based testing: builds under random and scripted entropy", "a failing first seed is forced by script, and met at random"),
 "P11": ("property-based testing: every key of random key sets, every filter kind and constructor, two builds", "structured key shapes up to a million keys"),
 "P12": ("property-based testing: measured false-positive rates and sizes against binomial bounds, deterministic", "rates over structured stored and probed keys; limits at six sigma with fixed seeds"),
 "P13": ("property-based testing: protocol runs with every artefact sent through random formats, compared with the original", "bincode and three JSON paths"),
 "P14": ("property-based testing: conversions against an independent bit model and their inverses", "every width with every short length, random long ones"),
 "P15": ("property-based testing: write and load round trips over prepared and unwritable targets", "real files in a scratch directory, /dev/full for failing writes"),
 "P16": ("property-based testing: one generated fault per case into every operation that receives it", "the fault-free twin has to be accepted, refusing objects are used afterwards"),
 "P17": ("property-based testing: generated flags and environments given to a helper process, against the given values", "every field, spelling and kind of unusable value"),
 "P18": ("property-based testing: runs for absent, structured and near-copy keys, positions checked on client, server and query", "every probed key goes through a whole run"),
 "P19": ("property-based testing: the script run under generated configurations, its output measured and loaded", "real runs in a scratch directory"),
 "P20": ("property-based testing: entries of generated filters and keyword matrices against the uniform distribution, pairs of builds against each other, deterministic entropy", "chi-square limits at 1e-13 and entry-by-entry comparison of two builds"),
 "P21": ("property-based testing: metamorphic comparison of encoded messages across targets, contents and keys, against exact sizes", "sizes and contents of encoded messages of both protocols"),
}
checks = []
for p, (tech, note) in T.items():
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} --quick",
        "thorough_cmd": f"./check.sh {p} --thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": f"Generated-input search with an explicit oracle: {note}. Nothing beyond the generated cases is established; entropy is deterministic and seeded.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is reached through the public interfaces. Entropy comes from a stand-in for the getrandom crate, patched into the harness crates only."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(file=open(os.path.join(root, "MANIFEST.json"), "a"))
