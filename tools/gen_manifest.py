#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of decided properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state model checking of the real code: exhaustive breadth-first enumeration of operation sequences against a list model"
FAULT = "explicit-state model checking of the real code: exhaustive enumeration of operation sequences x every single fault point"
TRUST = " Trusted: the harness's reference model, element types and checking allocator, and the pinned compiler and standard library. Says nothing about histories, sizes or alignments beyond the bounds in DESIGN.md."
T = {
 "C01": (SEQ, "Every operation of the full alphabet from every state reachable within the depth bound, 21 element types, compared with a plain list after each step."),
 "C02": (SEQ, "The same exploration with the registry of live values as oracle: every construction, drop and forget is accounted for in every state and at the end, in order."),
 "C03": (SEQ, "The same exploration under a checking allocator (red zones, quarantined blocks, exact layouts, every block followed to its release)."),
 "C04": (SEQ, "Address, alignment, disjointness, byte-length and capacity invariants evaluated in every explored state against the allocator's record of the block."),
 "C05": (SEQ, "Every constructor configuration and reservation, then every way of adding or removing; allocator calls and moved elements counted."),
 "C06": (SEQ, "Every combination of lower bounds (relative to length, capacity, alignment) from every explored state."),
 "C07": ("explicit-state model checking of the real code: exhaustive enumeration of growth cycles with an allocator-call bound", "Every cycle of adding operations and kinds up to the bound, from every starting capacity, run to thousands of elements; allocator calls compared with a logarithmic bound."),
 "C08": (SEQ, "Every exact request from every explored state and constructor configuration; the resulting capacities are compared with the request."),
 "C09": (FAULT, "Every request including the boundaries of usize and isize from every explored state, with every single allocator call of each refused in turn."),
 "C10": ("explicit-state model checking of the real code: exhaustive enumeration of iterator call sequences against a double-ended list iterator", "Every sequence of iterator calls up to the bound, and every consuming method from every point, for every short vector."),
 "C11": (FAULT, "From every explored state, every operation with a panic at every call it makes into caller-supplied code, then further operations and a full audit."),
 "C12": (SEQ, "Every out-of-range request (index from just past the end to usize::MAX) and every in-range one from every explored state, with and without debug assertions."),
 "C13": ("explicit-state model checking of the real code: exhaustive enumeration of pairs of lists against slices", "Every pair of lists over small alphabets up to the bound, each vector also in several internal configurations."),
 "C14": (SEQ, "Every length, spare capacity and layout of the source and every size hint, followed by every operation."),
 "C15": ("explicit-state model checking of the real code: exhaustive enumeration of source x coercion x destination", "Every combination of source, coercion and destination within the length bound, delivered value compared with what was put in."),
 "C16": ("explicit-state model checking of the real code: exhaustive enumeration of source x coercion x way of consuming", "The same combinations plus drop and forget, audited by the registry of live values and the checking allocator."),
 "C17": (FAULT, "The same combinations with a panic at every call into caller-supplied code."),
 "C18": (FAULT, "From every explored state, every operation with every single allocator call of it refused in turn, then further operations and a full audit."),
}
done = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(T)
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [{
   "property": p,
   "quick_cmd": f"./run.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
   "technique": T[p][0],
   "level": "model_checking",
   "level_note": T[p][1] + TRUST,
 } for p in sorted(T) if p in done],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in done],
 "notes": "No hooks: everything is observed through the public interface, the global allocator and the element types. ./run.sh <property> builds the harness with and without debug assertions and explores; out/*.replay can be replayed with mc/target/debug/mc replay <file>.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
