#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, with bounds taken from the harnesses, costs from the last quick runs
(DESIGN_COSTS, refreshed with --costs) and the planted bugs from seeded/."""
import json, os, sys, importlib
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); os.chdir(H)
METHOD = {
 "C01": "symbolic histories of notepad operations over the shared-memory model, against a reference dictionary; after each history every handle (also a fresh one) is compared with it",
 "C02": "one inductive step from an arbitrary consistent index whose length is a symbolic 64 bit number and whose blocks come into being when they are looked at (lazy heap with the consistency invariant as axiom); plus histories from empty, plus tables of up to 600 keys at fixed sizes so that counterexamples can be replayed",
 "C03": "as C02, with values attached to any subset of the slots and of several encoded sizes",
 "C04": "event-order encoding: each process's sequence of shared-memory operations is extracted by symbolic execution (all local branches), every operation gets an integer time stamp, and the solver searches an order of all of them in which two processes are inside; satisfying orders are replayed on the real code by a scheduler that forces them",
 "C05": "symbolic histories of entries, exits, failures and timeouts of several lock objects from any counter content; every store mutation during index operations is asserted to happen with the lock held",
 "C06": "symbolic stick/read/pull histories against 'last thing stuck'",
 "C07": "symbolic array histories over models of ndarray (shape, dtype, order concrete; elements symbolic) and shared memory",
 "C08": "single calls and pairs of calls from an arbitrary store, against the specified effect on the whole store",
 "C09": "symbolic histories, then close: the store must hold none of the object's blocks; reserved keys are refused without any change",
 "C10": "symbolic histories, then a write that must fail at an arbitrary point; the store, all handles and further operations must be as without it",
 "C11": "a symbolic preemption point: one process's operation is interrupted before its k-th shared-memory operation (k symbolic) by another complete operation; the outcome must be that of one of the two orders",
 "C12": "as C11 for notepads and grid papers on different keys; outcome must be that of doing both",
 "C13": "symbolic strings, integers and nestings of them through the real encoders and decoders over a symbolic model of the literal and JSON notations; the round trip must be the identity",
 "C14": "symbolic notepad histories over the shared-memory model and a file model; the files after each dump are compared with the bytes stored and the names required",
 "C15": "symbolic histories over the shared-memory model and a model of the exit callbacks, which are then run; the store must lack what asked for cleanup and hold the rest unchanged",
 "C16": "symbolic histories of reports to the interpreter's tracker module, whose connection to the tracker process is a recorder, with deactivations in between; kinds, names and platform are symbolic strings, and what is recorded must be what was reported less shared memory",
 "C17": "the same symbolic history done by two sets of objects in one shared-memory model, one in debug mode; results, exceptions, waits, listings, values and the blocks left must agree pairwise",
 "S01": "symbolic nested mappings (all shapes) and an uninterpreted predicate, against a reference walk",
 "S02": "as S01, against a reference breadth-first search",
 "S03": "symbolic nested mappings, uninterpreted filter and setter, against a reference edit",
 "S04": "pairs of symbolic nested mappings, equality pattern of keys symbolic, against a recursive definition",
 "S05": "symbolic nested mappings; records and dotted names are turned back into the mapping",
 "S06": "symbolic assignment histories against a reference tree; conversion compared at all depths",
 "S07": "symbolic key chains through containers of every listed kind, against the definition of lookup",
 "S08": "symbolic mappings and sequences against the definition of each helper",
 "S09": "symbolic histories with an uninterpreted equivalence (hash) function",
 "P01": "symbolic batches over a pool stub that completes in any order; compared with the serial result",
 "P02": "an arbitrary subset of tasks finishes between any two observations; the counters must add up",
 "F01": "symbolic iterables against set algebra written as solver formulas",
 "F02": "uninterpreted functions and arbitrary arguments, against the definition of each adapter",
 "K01": "pipelines of uninterpreted steps and symbolic inserts, against the composition",
 "K02": "as K01 with partial objects",
 "K03": "sends with symbolic names, targets and pipes; deliveries logged and compared",
 "K04": "a symbolic failing step, send and execution; report, exception identity and state compared",
 "K05": "symbolic edit/execute histories, against a reference pipeline and tracker history",
 "K06": "two copies of a symbolic pipeline, one of them reindexed, must log the same calls, sends, captures and records",
 "D01": "call histories of functions built from source templates with symbolic arguments, defaults and failures",
 "D02": "symbolic sequences of lifecycle operations against a reference state machine",
 "T01": "symbolic operation sequences against a reference history",
 "T02": "symbolic dump sequences over a file model whose serialisations are uninterpreted; the file must parse to the list of dumps",
 "X01": "files as vectors of symbolic bytes with symbolic limits; endings found by a symbolic regex matcher",
 "X02": "symbolic texts; the real patterns are matched by a backtracking matcher over symbolic characters; literals by a model of literal_eval on a small grammar",
 "V01": "a two-faced array model: elements are 64 bit vectors, casts and comparisons exact; the bounds test over mathematical integers and IEEE doubles/halves/singles/x87",
 "V02": "elements are IEEE-754 bit-precise solver floats; casts, differences and divisions are the solver's",
 "V03": "the real pandas code runs on object columns of symbolic cells",
 "V04": "as V03",
 "V05": "as V03, with value_counts, melt, pivot_table and the like running for real on symbolic cells",
 "V06": "a table model over V01's and V02's arrays, index labels symbolic",
 "M01": "a model of pyarrow tables and row groups with symbolic rows; statistics tied to the rows by axioms",
 "M02": "as M01, over the whole sort; window edges symbolic",
 "M03": "a model of FileMetaData with symbolic fields",
 "M04": "the real pandas code runs on symbolic records; totals compared as terms",
}
import harness.lib
costs = json.load(open("design_costs.json")) if os.path.exists("design_costs.json") else {}
if "--costs" in sys.argv:
    for f in sorted(os.listdir("evidence")):
        if f.endswith(".json"):
            e = json.load(open("evidence/" + f))
            c = e["coverage"]
            costs[e["property"]] = {"wall_s": round(e.get("wall_s", c.get("wall_s", 0)) or 0), "paths": c["states"], "queries": c["solver_queries"]}
    json.dump(costs, open("design_costs.json", "w"), indent=0, sort_keys=True)
out = [open("design_prose.md").read().rstrip(), "", "## Per property", ""]
props = [json.loads(l) for l in open("properties.jsonl")]
for p in props:
    i = p["id"]
    if i not in METHOD: continue
    h = importlib.import_module("harness." + i)
    out += [f"### {i}: {p['title']}", "", f"- decided by: {METHOD[i]}", f"- bounds: {h.BOUNDS}", f"- outside: {h.OUTSIDE}"]
    a = getattr(h, "ASSUMPTIONS", None)
    if a: out.append("- assumed: " + "; ".join(a))
    if i in costs: out.append(f"- quick cost: about {costs[i]['wall_s']} s; {costs[i]['paths']} paths, {costs[i]['queries']} queries")
    out.append("")
na = json.load(open("MANIFEST.json"))["not_applicable"]
out += ["## Not applicable", ""] + [f"- {x['property']}: {x['reason']}" for x in na] + [""]
missed = json.load(open("seeded_notes.json")) if os.path.exists("seeded_notes.json") else {}
out += ["## Planted bugs and the checks that catch them", "",
        "Each was written from a property's text and the code, verified to build, to pass the tests and to fail its demonstration, and is caught by the check of its own property now. `at first` tells which one escaped when it was planted, and what was strengthened.", "",
        "| bug | breaks | needs | at first |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {missed.get(d, 'caught')} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
