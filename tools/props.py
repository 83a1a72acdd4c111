#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run from anywhere)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, P, T, S = "internal/logument/logument.go", "internal/tsonpatch/tsonpatch.go", "internal/tson/tson.go", "internal/tson/serialization.go"
H, I, F, C, CR, PR = "histories", "inputs", "fault_sequences", "configurations", "crash_points", "schedules"
props = []


def prop(id, title, statement, over, text, tests, mech, note, extra_files=(), built=True):
    files = []
    for _, where in mech:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    props.append(dict(built=built, note=note, line={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
        "anchors": {"files": files + list(extra_files),
                    "mechanism": [{"name": n, "where": w} for n, w in mech]}}))


prop("C01", "A version's snapshot is the initial state plus all patches up to it",
     "For every history of stored and appended patches, the snapshot of a version equals the initial document with the patches of versions 1 to that version applied in order, values and timestamps included. "
     "Asking again, in any order and after any later activity, gives the same document, and a document returned earlier never changes.",
     [H, I, F], "every sequence of patch deliveries (lost, duplicated, reordered), version cuts and snapshot requests on documents of any shape",
     "The tests take a few snapshots of one short hand-written history; which snapshots are cached, shared or mutated depends on the order of requests and the path shapes, of which they try a handful.",
     [("Snapshot accumulates patches from the latest kept snapshot", L + ":Snapshot"), ("findLatest picks the snapshot to start from", L + ":findLatest"),
      ("copying application of operations", P + ":applyTraverse")],
     "whole histories of a simulated fleet against a reference model")
prop("C02", "Received patches become versions exactly once, in order, in isolation",
     "Every patch handed to a document is pending until the next cut, then belongs to exactly one version, in arrival order, and versions are numbered contiguously. "
     "This holds for every form a patch can be handed over in, also when a document is created with it, when two documents receive the same patch list and when the sender later reuses its buffer.",
     [H, I, F], "every interleaving of deliveries to several documents, direct sets, cuts and buffer reuse",
     "The tests append to one document from fresh literals, so shared or reused lists and empty cuts never occur.",
     [("Store takes over patches", L + ":Store"), ("Append cuts a version", L + ":Append"), ("Set and TestSet add pending patches", L + ":Set")],
     "two documents fed over one simulated network, buffers scribbled over after delivery, compared with the model after every event")
prop("C03", "Queries never change recorded history",
     "Taking snapshots, temporal snapshots, tracks, slices, histories, or asking for versions that do not exist leaves the versions, their patches, the pending patches' content and order, the current state and all earlier results as they were. "
     "A query that cuts the pending patches into a version loses, repeats and reorders none of them.",
     [H, I], "every sequence of queries with every argument at every point of every history",
     "The tests look at a query's result, not at the document afterwards, and issue each query once.",
     [("query methods share the document's maps and slices", L + ":TemporalSnapshot"), ("Track and TemporalTrack", L + ":Track"), ("History", L + ":History"), ("Slice and TemporalSlice", L + ":Slice")],
     "after every query of a random session the whole document and every earlier result are compared with the model")
prop("C04", "Tracked changes bring a replica to the requested version",
     "Applying the changes tracked between two versions, in version order, to a replica that is at the version before them makes its values equal to the document's at every version of the range, also when deliveries are lost, duplicated or reordered and the replica asks again. "
     "The tracked changes are a subsequence of the recorded patches that leaves out those that only repeat the value set before, and nothing else.",
     [H, F, I], "every history, every version range, and every loss, duplication and reordering between document and replica",
     "The tests print or count the tracked patches of one history and never apply them.",
     [("Track removes repeated values", L + ":Track"), ("value comparison per path", L + ":changes")],
     "replicas synchronising over a faulty simulated network; bounded convergence after the faults stop")
prop("C05", "A slice is a complete document of its own",
     "The slice between two versions answers for every version in its range exactly what the full document answers, its current state is the state of its last version, and it can be appended to, set, tracked and sliced again. "
     "Nothing done to a slice shows in the document it came from, or the reverse.",
     [H, I], "every history, every range, and every later interleaving of use of slice and source",
     "The tests slice one history once and only look at version numbers.",
     [("Slice", L + ":Slice"), ("Snapshot on a sliced document", L + ":Snapshot")],
     "slices of slices used side by side with their sources")
prop("C06", "A temporal snapshot reflects every change up to its time",
     "The snapshot at a timestamp is the initial document with all received changes whose timestamp is not later, applied in timestamp order and, for equal timestamps, in arrival order; pending changes count. "
     "This holds however late, skewed or out of order the changes arrived and however they were cut into versions.",
     [H, F, I], "every arrival order, clock skew and jump of every set of senders, and every timestamp asked for",
     "The tests use increasing timestamps from one sender.",
     [("TemporalSnapshot", L + ":TemporalSnapshot"), ("selection and ordering by timestamp", L + ":stateAt")],
     "vehicles with skewed, drifting and jumping clocks over a reordering network")
prop("C07", "A temporal track holds exactly the changes of its time range",
     "The changes tracked between two timestamps are exactly the changes of its versions with a timestamp in the closed range, grouped by version in arrival order, without those that only repeat the value set before within the range.",
     [H, F, I], "every arrival order and clock skew, and every pair of timestamps including the exact boundaries",
     "The tests use one range on increasing timestamps.",
     [("TemporalTrack", L + ":TemporalTrack"), ("value comparison per path", L + ":changes")],
     "skewed senders; ranges on, before and after real timestamps")
prop("C08", "A temporal slice is a complete document of its time range",
     "The temporal slice between two timestamps starts from the state just before the range, holds exactly the changes of the closed range in their versions, has contiguous versions, and its current state is the state at the end of the range. "
     "At every timestamp within the range it answers what the full document answers, and it can be used on its own without affecting the document.",
     [H, F, I], "every arrival order, clock skew and range, and every later use of the slice",
     "The tests slice once by time and look at the printed result.",
     [("TemporalSlice", L + ":TemporalSlice"), ("state before the range", L + ":stateAt")],
     "temporal slices of skewed histories, used further")
prop("C09", "Compaction removes only repetitions, only at its target",
     "Compacting a path removes only changes at or below it that repeat the value set before, and all of those; every version keeps the values it had, and changes elsewhere, pending changes and earlier results stay untouched. "
     "The document remains fully usable afterwards.",
     [H, I], "every history with repeated, removed and re-added values, every target path, and repeated compaction",
     "The tests compact one path of one history.",
     [("Compact", L + ":Compact"), ("compactPatches", L + ":compactPatches"), ("path prefix test", L + ":isWithin")],
     "compaction interleaved with deliveries, slices and snapshots; later versions checked by value")
prop("C10", "A path's history is complete, ordered by time and starts at the origin",
     "The history of a path lists, for every place at or below it that ever changed, the initial value if there was one and then every value change and removal with its timestamp, in timestamp order and arrival order for equal timestamps; changes that only repeat the value before are left out. "
     "Places outside the path are never listed.",
     [H, F, I], "every history, including late arrivals, removals and re-additions, and every path",
     "The tests look up one path of one short history.",
     [("History", L + ":History"), ("path prefix test", L + ":isWithin")],
     "histories of skewed senders queried for leaves, parents, prefixes and absent paths")
prop("C11", "Setting acts on the current state, and a test-set only on a difference",
     "Setting a value changes the current state at once and is recorded exactly once as a pending change with its timestamp. "
     "A test-set records and changes nothing if the current state, pending patches included, already has that value, and otherwise acts like a set; a refused set changes nothing.",
     [H, I], "every interleaving of sets, test-sets, deliveries and cuts with every value type",
     "The tests set values on a fresh document; pending deliveries before a test-set never occur.",
     [("Set", L + ":Set"), ("TestSet", L + ":TestSet"), ("current state kept by Store", L + ":Store")],
     "sets of present, pending, missing, mistyped and inapplicable values interleaved with deliveries")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        if p["built"]:
            assert len(p["line"]["title"]) <= 80, p["line"]["title"]
            f.write(json.dumps(p["line"]) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["line"]["id"],
        "quick_cmd": f"./check.sh {p['line']['id']} quick",
        "thorough_cmd": f"./check.sh {p['line']['id']} thorough",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
        "level": "exploration",
        "level_note": p["note"],
    } for p in props if p["built"]],
    "not_applicable": not_applicable,
    "notes": "The seams (map order, math/rand, clock, files, HTTP listener, exit) are put into patched copies of standard library files "
             "with the Go tool's -overlay, so /repo carries no hooks. replay.sh PROPERTY FILE re-executes a replay file.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
