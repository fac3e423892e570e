#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a rule module is claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "abstract interpretation of the source (symbolic-index view domain, generic loop iteration, trace partitioning) with per-path obligations",
    "C01": "abstract interpretation with an effect trace of collectives; SPMD co-simulation of the root and a client role in the abstract domain",
    "C02": "abstract interpretation with an effect trace of messages; pairing of abstract sends and receives per boundary",
    "C07": "abstract interpretation over symbolic rank and layout; polynomial identities for tiling and extents",
    "C16": "typestate along every normal and exceptional exit, exceptions injected at every external call site",
    "C18": "effect analysis: every write event attributed to its buffer",
    "C22": "import-guard analysis: abstract import of every module under each configuration of optional packages",
    "C28": "effect ordering: no effect event before a rejecting exit, on every path",
    "C29": "table analysis of literal data evaluated from the syntax tree",
}
NOT_APPLICABLE = {
    "N01": "value preservation through netCDF encoding and decoding is decided inside xarray and the netCDF library at run time (fill values, packing, dtype "
           "casts); no source of this repository determines it, so a static argument over /repo's source cannot settle it",
    "N02": "what survives a crash depends on the store's and the file system's ordering of chunk writes, which are outside the analysed source",
    "N03": "how close the recorded seconds are to real elapsed time depends on the platform clock and scheduler, not on anything a static analysis of the source can bound",
    "N04": "the value of a datetime64 to datetime conversion over its whole range is decided by numpy's C implementation (unit and epoch arithmetic, overflow)",
    "N05": "equality of CPU and GPU results depends on device kernels of cupy; neither cupy nor a device, nor their source, is available to analyse",
}
PENDING = "no check yet: the rule for this property is still to be built"


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        elif os.path.exists(os.path.join(HERE, "sa", "rules", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {i}",
                           "technique": TECH.get(i, TECH["default"]), "level": "other",
                           "level_note": "static analysis; obligations are decided from the current source for all values of the symbolic quantities, "
                                         "over a stated finite family of dimension tuples and roles (see DESIGN.md); undecided obligations are reported as such in the evidence"})
        else:
            na.append({"property": i, "reason": PENDING})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, json'", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
