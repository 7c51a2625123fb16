#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (committed output; no check runs this)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/capabilities/"
E = "src/extended_capabilities/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


BYTES = "every byte string (any content, any length, truncated anywhere)"
NOTE33 = ("Holds for every input in the abstract domain: bytes and symbolic integers are unconstrained, slice lengths below 8192. "
          "Machines are represented by powerpc (32 bit, big-endian) and, thorough, i686 (32 bit, little-endian); a 64-bit big-endian machine differs from both in neither respect. "
          "Trusts rustc's lowering to LLVM IR (core is compiled from the toolchain's own sources), the (unverified) abstract interpreter and the reference tables in /verif/spec. "
          "Left out: the entry points that order links and lanes, those of the feature build, and three members of the extended lists.")
exec(open(os.path.join(ROOT, "tools", "meta_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["return values and public fields of the library's API"], "hook_needed": None},
        }) + "\n")

NOTE = ("Holds for every input in the abstract domain: bytes and symbolic integers are unconstrained, slice lengths below 8192. "
        "Trusts rustc's lowering to LLVM IR, the (unverified) abstract interpreter in /verif/analyzer, and the reference tables in /verif/spec, "
        "which were written from the PCI specifications and reviewed against the code.")
checks = [{
    "property": p["id"],
    "quick_cmd": "python3 run.py %s quick" % p["id"],
    "thorough_cmd": "python3 run.py %s thorough" % p["id"],
    "technique": (p["note"] or {}).get("technique", "bit-precise dataflow analysis (abstract interpretation with joins at merge points) over the compiler's LLVM IR"),
    "level": "proof",
    "level_note": (p["note"] or {}).get("level_note", NOTE),
} for p in P]
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo. Every check builds the analyzer and lowers /repo's working tree to IR in a scratch directory under /verif/build.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
