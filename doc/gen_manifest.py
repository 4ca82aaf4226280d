#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
T = {
    "C01": ("path-sensitive interprocedural extraction of message languages; automata equivalence of manager and dual worker",
            "decided for every command and every path of the current source; trip counts of data-dependent loops are abstracted to stars"),
    "C02": ("interprocedural typestate analysis of the status request", "all paths of all entry points of ProcessGroupManager, unknown entry state"),
    "C03": ("effect analysis of assertion conditions; differential extraction of both build modes",
            "interprocedural effect summaries; console output is not an effect"),
    "C17": ("path-sensitive typestate analysis over inlined call paths", "running events as state, correlated branch conditions"),
    "C19": ("type-width rules over the type-checked syntax tree", "folds, compound sums, widened products, byte counts, search limits"),
    "C20": ("interprocedural outcome-flow (must-examine) analysis", "assertion-free program; outcomes tracked through returns, out-parameters and members"),
    "C07": ('data-type agreement analysis of every communication call', 'buffer pointee, count expression and datatype handle resolved through helpers, templates and type tables; both ends of a tag compared'),
    "C09": ('member/base coverage analysis of serialization functions', 'all archived classes, archive kinds and exported names'),
    "C16": ('path-sensitive extraction of message sequences of systems and broker; exhaustive composition of the extracted sequences', 'messages by text, numbers, data by type; at most two data rounds per session (counts are abstracted)'),
    "C10": ('communicator/rank provenance analysis of every point-to-point and rooted collective call', 'every communication call of every instantiation; provenance through locals, members, parameters and calls, up to the accessors of MPISystem'),
    "C14": ("path exploration with the selector's value decided; table of required steps", '19 operations x 4 variants x 2 element types, all element datatypes, all norm selectors'),
    "C05": ('typestate analysis of request handles over all paths', 'every function that starts a nonblocking operation, callers and helpers followed, release and debug build'),
    "C08": ('typestate analysis of datatypes, groups, operators, infos and files; ownership rule for classes', 'every function that creates or releases MPI objects, release and debug build'),
    "C11": ('event-order analysis over all paths; symbolic comparison of file names', 'every function that handles exchange files or tokens, helpers inlined'),
    "C18": ("typestate analysis of the sparse grid's buffers; completeness rules for clear, swap and pointer tables", 'every function that writes subspace sizes, the allocated set or a buffer, and the callers that have to complete it'),
    "C12": ('dispatch tables by path exploration; kernel inversion by symbolic linear forms over the syntax tree', 'every basis class x boundary flag, both directions, all kernel instantiations, every call site in the workers'),
    "C13": ('event-order analysis over all paths of every command', 'every combination operation of the worker x variant, helpers inlined'),
    "C15": ('effect analysis of OpenMP regions: location provenance of every write, through calls', 'every parallel region and worksharing loop of every instantiation, release build'),
    "C06": ('uniformity (taint) analysis of conditions; comparison of the collective sequences of both outcomes', 'every function that may reach a collective, per communicator and argument context, release build'),
    "C04": ("effect analysis of unsequenced operands", "every call, constructor and operator expression of the repository"),
}
NA = json.load(open(os.path.join(HERE, "not_applicable.json")))
checks = []
for i, (tech, note) in sorted(T.items()):
    assert os.path.exists(os.path.join(V, "vf/checks/%s.py" % i.lower())), i
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + tech, "level": "other",
                   "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "not claimed yet: check under construction")} for p in props if p not in T]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
