"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; generated behaviours replayed into the code and recorded executions validated against the specification"
NOTE = {
 "U18": "A counting allocator in the harness records, for names of every kind, the bytes each call leaves allocated and its peak; the trace specification Memory decides them: the heap stays as it was, and the peak is within the allowance that the specification derives from the nodes, rendered names and output of that very name (names too expensive to decode are held against the ceiling that the limits imply). The factors leave a margin of about three; names are sampled.",
 "U01": "The pumped families of WbLimits (32 constructs nested or repeated up to 4000 times), mutated and random names run in an optimised build with overflow checks and in a debug build, on a 2 MiB stack with a time limit; TLC judges every outcome. Absence of panics is only as exhaustive as the names executed.",
 "U02": "Histories of calls on shared buffers, recorded with buffer content and capacity before and after each call, are validated step by step against the state machine Api; all short histories over its input classes are generated by TLC and replayed.",
 "U03": "Histories of calls, repeated, interleaved, and run concurrently on several threads, are validated against Api, whose outcome of a call depends on its arguments only. Interleavings are sampled by the real scheduler, not enumerated; the code has no shared state to schedule around.",
}
DEFAULT = "Exhaustive within the bounds of its workbenches (see DESIGN.md), sampled by simulation and grammar-directed fuzzing beyond; the specification is executable and decides the exact outcome and text of every name. Trusted: the specification's tables and rules, which the laws of Laws.tla cross-check by an independent encoder and renderer, and TLC."
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 tools/check.py {i}",
                      thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                      technique=TECH, level="model_checking", level_note=NOTE.get(i, DEFAULT)) for i in ids],
         not_applicable=[],
         notes="No hooks: everything is observed through the public functions demangle and demangle_into.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
