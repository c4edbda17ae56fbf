#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the prose stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

IMP = "dustgoggles/codex/implements.py"; COD = "dustgoggles/codex/codecs.py"; MEM = "dustgoggles/codex/memutilz.py"
ST = "dustgoggles/structures.py"; FU = "dustgoggles/func.py"; CO = "dustgoggles/composition.py"
DY = "dustgoggles/dynamic.py"; TR = "dustgoggles/tracker.py"; SC = "dustgoggles/scrape.py"; PV = "dustgoggles/pivot.py"; MO = "dustgoggles/mosaic.py"

# ---------------------------------------------------------------- codex
p("C01", "A shared notepad behaves as one dictionary, whatever the history",
  "After any sequence of sets, overwrites, deletions, clears and reads issued through any handles opened on the same notepad, reading a live key yields exactly the value most recently set under it (None and other falsy values included), and a key that was never set or has been deleted raises KeyError on subscription or deletion and yields the caller's default from get. The key listing (and the key/value iterators built on it) contains exactly the live keys, each once. Overwriting works whatever the sizes of the old and new values.",
  ["histories", "inputs"], "all operation histories, key strings, values and encoded sizes, through two handles",
  "The tests set two keys once and read each once; no deletion, overwrite, missing key or second-handle history is executed.",
  [IMP, COD, MEM], [("Notepad get/set/del", IMP), ("memorize/remember", COD), ("open_block overwrite", MEM), ("TagIndex slot bookkeeping", IMP)],
  ["Notepad.__getitem__, get, set, __delitem__, keys, iterkeys, iteritems, itervalues, clear"])
p("C02", "Index add/remove preserves a consistent key table of any size",
  "From any consistent shared index holding any number of distinct keys, adding or removing any key leaves it consistent: the recorded length equals the number of keys, the occupied slots are exactly 0..length-1, every key is found at the slot that holds it, and every other key is still present exactly once. Adding a key that is already present changes nothing and reports its existing slot (or is refused when duplicates are not allowed), and removing an absent key is refused with KeyError and changes nothing.",
  ["inputs", "histories"], "every consistent pre-state (symbolic length, keys and positions), every key; by induction every history",
  "Tests never remove a key from an index, and hold at most two keys.",
  [IMP], [("TagIndex._add", IMP), ("TagIndex._delitem swap-with-last", IMP), ("TagIndex.check/update", IMP)],
  state=[("length block", "little-endian number of keys", IMP), ("key_i blocks", "key stored in slot i", IMP), ("name_hash blocks", "slot of a key", IMP)])
p("C03", "Metadata stays attached to its own key as other keys come and go",
  "In an index that stores a value with each key, after any history of additions (with or without a value), value replacements and removals, every live key that was given a value is listed with its most recent one and is never listed with another key's value, and removed keys' values are gone. Every removal terminates, without waiting on the caller's own lock.",
  ["histories", "inputs"], "all add/replace/remove histories over symbolic keys and values",
  "No test removes a key from a metadata index; slot reuse after removal is never executed.",
  [IMP], [("MetaTagIndex.__delitem__ value relocation", IMP), ("MetaTagIndex.add", IMP), ("items/values enumeration", IMP)])
p("C04", "The shared-memory lock admits one holder under every interleaving",
  "For any number of processes using the same lock name and any interleaving of their individual shared-memory operations, at most one of them is inside the locked section at any moment. This holds whatever value the shared acquisition counter starts from and however often each process re-acquires the lock.",
  ["schedules"], "all interleavings of the shared-memory operations of 2 processes (2 acquisitions each) or 3 processes within the stated spin bounds",
  "No test contends for a lock; an interleaving inside acquisition cannot be forced by a unit test.",
  [IMP, MEM], [("SlidingLock acquisition (ticket, lock block, exclusive creation)", IMP), ("atomic exclusive creation of a named block", MEM)])
p("C05", "Leaving a lock always frees it, and index changes happen only inside it",
  "Whether the locked section ends normally, by an exception of any kind, or the wait for the lock times out or is interrupted, the process leaves behind no block that would make a later acquirer wait, does not free a lock it does not hold, and an uncontended acquisition from any counter value succeeds without waiting. Every change that adding or removing a key makes to an index's shared blocks is made while its lock is held, unless locking was explicitly disabled.",
  ["histories", "fault_sequences", "inputs"], "all counter values, contending residues, exit paths (normal, exception, timeout, interrupt) and index operations",
  "Tests never raise inside, time out on, or re-acquire a lock.",
  [IMP], [("SlidingLock.__exit__/release", IMP), ("lock usage in TagIndex/MetaTagIndex add and delete", IMP)])
p("C06", "A sticky note always holds the last thing stuck at its address",
  "After any history of sticking, reading, re-reading and pulling through any handles at one address, a fresh or forced read returns the most recently stuck object, whatever the sizes of the earlier ones, and reads of an address where nothing was ever stuck, or from which the note was pulled, return None. A handle that has already read or stuck an object keeps returning that object until told to re-read. A note given no address gets one of its own.",
  ["histories", "inputs"], "all stick/read/pull histories over two handles, symbolic values and encoded sizes",
  "Tests stick once per address; re-sticking with another size is never executed.",
  [IMP, MEM], [("Sticky.stick/read/note/close", IMP), ("open_block", MEM)])
p("C07", "Grid paper returns arrays equal to those stored, whatever they replace",
  "An array stored under a key is read back, through any handle, with the same shape, dtype and elements, whatever its dimensionality (zero-dimensional and empty arrays included) and whatever array of another shape, dtype or size was stored there before. With overwriting disallowed, storing under a fresh key works and storing under an existing key raises KeyError and changes nothing; deleted keys disappear, other keys are unaffected, and copies that were handed out do not change when the key is later overwritten.",
  ["histories", "inputs"], "all store/overwrite/delete/read histories over symbolic contents and small symbolic shapes/dtypes",
  "Tests store two 3x3 arrays under distinct keys once.",
  [COD, IMP, MEM], [("memorize_array/remember_array", COD), ("GridPaper set/get/delete", IMP), ("MetaTagIndex metadata", IMP)])
p("C08", "Named-block primitives create, reuse, replace and delete exactly as asked",
  "Opening a block with creation allowed creates it with the requested size when absent, attaches to the existing one with contents intact when present and overwriting is off, and replaces it by one of the requested size when overwriting is on. Existence queries report exactly whether a block exists and change nothing, fetching returns exactly the block's bytes, and deletion removes exactly that block, raising FileNotFoundError for a missing one unless told that missing is acceptable.",
  ["inputs"], "every shared-memory state and every combination of name, size and flags",
  "None of the primitives is tested directly; missing/existing/overwrite combinations are not covered.",
  [MEM], [("open_block/fetch_block_bytes/exists_block/delete_block", MEM)])
p("C09", "Notepads clean up after themselves and protect their own index",
  "Closing a notepad, grid paper or index after any history leaves no shared block of theirs behind (when every key it lists is live), and deleting a key removes every block that existed for it. No user key can be used to write to or delete the blocks of the notepad's own index: keys in the reserved namespace are refused with KeyError on set and delete, and leave every block as it was. An object given no name gets one of its own.",
  ["histories", "inputs"], "all histories over symbolic key strings ending in close; all key strings for the reserved namespace",
  "Tests never call close and never use a reserved key.",
  [IMP], [("close/clear/__delitem__", IMP), ("reserved prefix check", IMP), ("address scheme", IMP)])
p("C10", "A rejected write leaves the shared store exactly as it was",
  "If setting a key fails because the key exists and overwriting is disallowed, because the value cannot be encoded, or because the key cannot be stored, then every key, value and key listing visible through any handle is the same as before the attempt, and later operations work as if the attempt had not been made.",
  ["fault_sequences", "histories", "inputs"], "every pre-state reached by symbolic histories, every failing write kind",
  "No test makes a write fail.",
  [IMP, COD], [("Notepad.__setitem__ ordering", IMP), ("memorize exists_ok check", COD), ("TagIndex._add ordering", IMP)])
p("C11", "Concurrent index changes take effect one after the other",
  "When two processes add to or remove from one index at the same time, then however their individual shared-memory operations interleave the index ends up, and each of them is answered, as if one had acted entirely before the other: no addition, removal or attached value is lost, duplicated or given to another key.",
  ["schedules", "histories", "inputs"], "every pair of additions and removals, every point at which one process is interrupted by the other, every pre-state within the bounds, every key and value",
  "No test lets two processes change an index at the same moment; the point of interruption cannot be forced by a unit test.",
  [IMP], [("TagIndex.add/_add, __delitem__/_delitem", IMP), ("MetaTagIndex.add, __delitem__", IMP)],
  ["index check, update, items after both returned"])
p("C12", "Concurrent notepad operations on different keys do not disturb one another",
  "When two processes store or delete different keys of one notepad or grid paper at the same time, or one reads a key of a notepad while the other stores or deletes a different one, then however their individual shared-memory operations interleave each operation does and returns what it would have done alone, and all keys and values afterwards are those of doing both.",
  ["schedules", "histories", "inputs"], "every pair of stores, refused stores, deletions and reads of different keys, every point of interruption, every key and value",
  "No test lets two processes use a notepad at the same moment; the point of interruption cannot be forced by a unit test.",
  [IMP, COD], [("Notepad/GridPaper __setitem__, __delitem__, __getitem__", IMP)],
  ["Notepad and GridPaper subscription, get, keys after both returned"])

p("C13", "Every codec restores the value it encodes",
  "Encoding a value with one of the shipped codecs (json, literal, pickle) and decoding the result returns an equal value of the same type, at every level of nesting, whatever quotes, escapes, line breaks or non-ASCII characters its strings contain; the encoding is a sequence of bytes and the value is not modified. The same holds when the codec is a notepad's and the value is read back through another handle.",
  ["inputs"], "all values of each codec's documented domain within the bounds, strings and integers symbolic",
  "Tests encode a handful of plain values with the pickle codec only.",
  [COD], [("json_codec_factory, literal_codec_factory, pickle_codec_factory", COD)],
  ["encode/decode, Notepad subscription"])
p("C14", "Dumping writes an entry's bytes to its file and nothing else",
  "Dumping an entry of a notepad or grid paper writes exactly its stored bytes to the named file, or else to one named after the notepad and the key (dots replaced by underscores), overwriting what was there; the notepad is unchanged, and a key that is not in it raises and touches no file. Closing with dumping writes every entry so before it removes anything and leaves nothing in shared memory; closing without dumping writes no file.",
  ["inputs", "histories"], "all histories of stores, replacements, deletions and dumps within the bounds, symbolic keys and values",
  "No test dumps or closes a notepad.",
  [IMP], [("Notepad.dump, GridPaper.dump, close, get_raw", IMP)],
  ["files written by dump and close(dump=True)"])
p("C15", "Cleanup on exit removes exactly the objects that asked for it",
  "When the interpreter exits, every notepad, grid paper, index and sticky note made with cleanup on exit is gone from shared memory, whatever was done with it before, also if it was closed or pulled and then used or made again; everything made without it is left exactly as it was, also at a name or address that an object already closed or pulled had used. None of this raises.",
  ["histories", "inputs", "configurations"], "all histories within the bounds, then the exit callbacks in the interpreter's order; symbolic keys and values",
  "No test lets an object clean up on exit.",
  [IMP], [("cleanup_on_exit, close, atexit registration", IMP), ("Sticky.close/pull/stick", IMP)],
  ["shared memory after exit"])
p("C16", "Deactivating the resource tracker exempts shared memory and nothing else",
  "Once the resource tracker is deactivated in a process, no shared memory block it makes, opens or deletes is reported to the tracker any more and shared memory is no longer among the kinds of resources cleaned up at exit, while resources of every other kind are registered and unregistered exactly as before, without error. Deactivating again changes nothing, and on Windows, which has no tracker, deactivating changes nothing at all.",
  ["inputs", "histories", "configurations"], "all histories of registrations and deactivations within the bounds, kinds, names and platform symbolic",
  "Tests never deactivate the tracker.",
  [MEM], [("deactivate_shared_memory_resource_tracker", MEM)],
  ["what is reported to the resource tracker"])
p("C17", "Debug mode adds log lines and changes nothing else",
  "A lock, index, notepad or grid paper in debug mode returns, raises, waits and leaves in shared memory exactly what one that is not in debug mode does, whatever is done with it, and appends whole lines to the log; one that is not in debug mode opens no log.",
  ["histories", "inputs", "configurations"], "all histories within the bounds, done by an object in debug mode and by one that is not; symbolic keys and values",
  "No test switches debug mode on.",
  [IMP], [("debug branches of SlidingLock, TagIndex, Notepad; log", IMP)],
  ["every public operation with debug=True and debug=False"])

# ---------------------------------------------------------------- structures
p("S01", "Deep search for all matches misses nothing and invents nothing",
  "Searching a nested mapping for all matching items returns every item at every depth, in every nested mapping of a searched type, whose key, value or key/value pair satisfies the criterion, each as often as it occurs, a level's own matches before those of mappings nested in it and nested mappings in order; values, keys and items views agree. It returns None exactly when nothing matches, and never modifies the input.",
  ["inputs"], "all nested mappings within the shape bound, all keys/values/criteria (symbolic)",
  "Tests check one JSON file with one key.",
  [ST], [("dig_for_all, _evaluate_diglevel", ST), ("constant_to_dig_predicate", ST)])
p("S02", "Deep search for one match is breadth-first and total",
  "Searching a nested mapping for one matching item returns a match whenever one exists anywhere and None otherwise; the match returned is the first in breadth-first order (shallowest first, then document order). The value, key and item forms report the same item, including when the matched key or value is None or otherwise falsy.",
  ["inputs"], "all nested mappings within the shape bound, all keys/values/criteria (symbolic)",
  "Tests check one key in one file whose matches are all at the same depth.",
  [ST], [("dig_for, dig_wrapper", ST)])
p("S03", "Deep edit changes exactly the matching items",
  "Editing a nested mapping in place replaces, at every depth, the value of exactly those items for which the filter holds by what the setter returns for that key and original value, leaves every other item, all keys and their order unchanged, descends into replacement mappings but never into replaced ones, and returns the very mapping it was given.",
  ["inputs"], "all nested mappings within the shape bound, arbitrary filter/setter behaviour (symbolic)",
  "Deep edit is not tested directly at all.",
  [ST], [("dig_and_edit", ST)])
p("S04", "Recursive merge loses nothing and lets the second mapping win",
  "Recursively merging two mappings yields a mapping with exactly the union of their keys in first-then-second order, at every level where both sides hold mappings of a mergeable type; where only one side has a key its value is kept, and where both have it but are not both mergeable the second's value wins. The chosen mergeable types apply at every depth and neither input is modified.",
  ["inputs"], "all pairs of nested mappings within the shape bound, all keys and values, default and custom mergeable types",
  "rmerge has no test.",
  [ST], [("rmerge", ST)])
p("S05", "Flattening nested mappings to records or dotted keys is lossless",
  "Converting a nested mapping to records yields one record per innermost mapping, in document order, each holding all of that mapping's fields plus the category at every level above it under the given (or numbered) level names; sibling branches get the same level names. Unnesting yields one entry per leaf whose key spells the full path from the root and whose value is the leaf's, for every nesting depth and leaf value.",
  ["inputs"], "all nested mappings within the shape bound, symbolic labels, fields and values",
  "Tests check two-level data with literal names; unnest is not tested.",
  [ST], [("to_records", ST), ("_unnest/unnest", ST)])
p("S06", "Self-nesting dictionaries create levels on demand and convert fully",
  "Assigning through any chain of keys in a self-nesting dictionary or reading through one creates exactly the missing levels and leaves existing data intact, whatever the order of assignments. Converting it yields plain dictionaries at every depth with the same keys, order and values.",
  ["histories", "inputs"], "all assignment histories with symbolic keys and depths",
  "Tests use it only to build random data.",
  [ST], [("NestingDict", ST), ("dig_and_edit", ST)])
p("S07", "Hierarchical lookup returns the item, or the default, never an error",
  "Looking up a list of keys through nested mappings, sequences, named tuples and objects returns the same object that successive indexing (or, where indexing does not apply, attribute access) reaches, including None and falsy items, and returns the supplied default when any step is missing, whatever the key's type. An item reachable by indexing takes precedence over an attribute of the same name.",
  ["inputs"], "all chains within the depth bound over mappings/lists/objects with symbolic keys, including missing ones",
  "One all-attributes success path is tested; no missing key is.",
  [ST], [("get_from, getitemattr", ST)])
p("S08", "Small mapping helpers keep every entry, in order",
  "Inserting a new key after an existing one yields the same entries in order with the new one directly behind its anchor, reindexing and enumerating number the entries 0..n-1 in order, partitioning by a predicate sends every element to exactly one side preserving order, gathering a key from many mappings yields one entry per mapping in order with the default where absent, and listifying yields the collection's elements or wraps a scalar or string. None of them changes its inputs.",
  ["inputs"], "all small mappings/sequences with symbolic keys, values, predicates",
  "Only enumerate_as_mapping is exercised, incidentally.",
  [ST], [("insert_after, reindex_mapping, enumerate_as_mapping, separate_by, get_from_all, listify", ST)])
p("S09", "Equivalence-deduplicated store returns an equivalent of what was stored",
  "After any history of assignments, reading a key of the deduplicating dictionary returns the first item ever stored that is equivalent to the item most recently assigned to that key; equivalent items share one stored object, inequivalent items never do, and unassigned keys raise KeyError.",
  ["histories", "inputs"], "all assignment histories with symbolic keys, items and an arbitrary equivalence",
  "HashDict has no test.",
  [ST], [("HashDict", ST)])
p("P01", "Pooled mapping gives the same results however work is scheduled",
  "Mapping a function over argument records returns, under each record's key (or its position when it has none), exactly what the function returns for that record's arguments or the exception it raised, regardless of whether work runs serially, one task per record, or in chunks, of the number of workers, of the completion order, and of earlier uses of the same pool. Exceptions are dropped when filtering is requested or re-raised when asked for, one failing record never affects another's result, and results come in the order of the records.",
  ["schedules", "inputs", "histories"], "all small batches with symbolic keys/arguments/failures, all modes, arbitrary completion order, repeated maps",
  "The pool has no test; failures and schedules are not explored.",
  [ST], [("MaybePool, MaybeResult, _chunkwrap, map_into_pool", ST)])
p("P02", "Pool progress accounting is consistent at every moment",
  "At every moment and under every completion order, the counts of ready and running results are never negative and add up to the number of results, the pool reports being ready exactly when none is running, and per-result readiness agrees with those counts. In serial mode everything is ready as soon as it has been submitted.",
  ["schedules", "histories"], "arbitrary monotone completion schedules over small pools",
  "The pool has no test.",
  [ST], [("MaybePool.n_ready/n_running/ready/results_ready", ST)])
# ---------------------------------------------------------------- func
p("F01", "Set helpers agree with set algebra and keep order",
  "The intersection helper returns exactly the elements common to all its iterables, the disjoint helper returns for each iterable, in order and with repetitions, exactly the elements not common to all of them, and the membership-predicate builder answers whether a container has all (or, with a different connective, any) of the items, and the type-predicate builder whether a value is of one of the types.",
  ["inputs"], "all small iterables with symbolic elements",
  "Tests use three literal sequences with one shared element.",
  [FU], [("intersection, disjoint, are_in, is_it", FU)])
p("F02", "Function adapters pass arguments and results through unchanged",
  "Adapters that wrap a function (splatting, truncating arguments, triggering, making optional, pass-through, greedy mapping, filtering, suppressing interaction, constants) call it exactly as often as promised with exactly the promised arguments in order, and return its result, or the documented substitute, unchanged even when falsy. Optional wrapping hands every ordinary exception to the callback and never swallows a keyboard interrupt.",
  ["inputs"], "all small argument lists with symbolic values, symbolic failures",
  "Tests call each with one literal or random sample; argstop, gmap, filtern, optionalize are untested.",
  [FU], [("splat, argstop, triggerize, optionalize, pass_parameters, catch_interaction, gmap, filtern, constant, zero, naturals", FU)])
# ---------------------------------------------------------------- composition
p("K01", "A pipeline is the ordered composition of its steps with its inserts",
  "Executing a pipeline calls every step exactly once, in order, each receiving the previous step's output in the first positional slot not occupied by an insert, with the inserts at their own slots and names, and returns the last output; iterating yields exactly the successive outputs. Executing it again with the same signal makes the same calls, and neither the inserts nor the steps are changed by execution.",
  ["inputs", "configurations"], "all pipelines within the size bound, symbolic insert positions/names/values, uninterpreted steps",
  "Two fixed pipelines are tested.",
  [CO], [("call_step, _flow_signal, itercall, execute", CO)])
p("K02", "Inserts override arguments baked into partial steps, and only those",
  "When a step is a partially applied function, its baked positional and keyword arguments are passed in their places, inserts replace or extend them by position and name, the signal fills the first free position, and the partial object itself is not modified, so the pipeline gives the same result as one with plain functions and equivalent inserts.",
  ["inputs", "configurations"], "all combinations of baked and inserted arguments within the arity bound",
  "One pipeline with two curried steps is tested.",
  [CO], [("_call_partial_step", CO)])
p("K03", "Sends deliver each step's output once, in order, to the right target",
  "After each step, every send registered on it delivers that step's output, through its pipe if it has one, exactly once and in registration order: appended to or placed in a list, placed in a mapping, written to a stream, or inserted as an argument of the named step; captures hold the last output of their step. Sends and inserts on nonexistent steps do nothing until such a step exists, and sends never alter the signal.",
  ["inputs", "configurations", "histories"], "all small pipelines and send configurations with symbolic targets, pointers and values",
  "One insert-send is tested; captures, stream and list targets are not.",
  [CO], [("_perform_sends, place_into, add_send, add_capture(s), add_insert", CO)])
p("K04", "Pipeline failures are reported faithfully or swallowed only on request",
  "If a step or a send raises, no later step is executed, and the exception reaches the caller unchanged, unless the pipeline is marked optional, in which case None is returned. With a tracker, the failing step is recorded once with the exception and its complete call chain, outermost first, after the records of the steps that completed before it.",
  ["fault_sequences", "configurations"], "failure at every step/send position in pipelines within the size bound, optional or not, tracked or not",
  "No test makes a step fail.",
  [CO, DY, TR], [("execute exception path", CO), ("exc_report", DY)])
p("K05", "Editing a pipeline takes effect on the next run, and tracking matches it",
  "Adding a step under a new name appends it, adding under an existing name replaces that step in place, and adding without a name uses the pipeline length plus one; the index lists the step names in execution order. On a tracked pipeline every execution records each executed step exactly once, in execution order, under its name and current function, whatever edits preceded it and whenever tracking was turned on.",
  ["histories"], "all edit/execute/track histories within the bound, symbolic names",
  "One tracked execution is tested; no editing is.",
  [CO, TR], [("add_step, _add_track_send(s), track", CO), ("Tracker.track", TR)])
p("K06", "Reindexing a pipeline renames its steps by position and changes nothing else",
  "After a pipeline is reindexed its steps are named 0, 1, 2 and so on in execution order, and every insert, send, send target, capture and tracking record still belongs to the step it belonged to before: every run gives the same result, calls and deliveries as it would have without. The mapping of steps the pipeline was made from keeps its names.",
  ["histories", "inputs", "configurations"], "all pipelines, sends and histories within the bounds; names symbolic",
  "No test reindexes a pipeline.",
  [CO], [("reindex, index, function_names", CO), ("_perform_sends, _bind_special_runtime_kwargs", CO)],
  ["Composition.reindex, then execution"])
# ---------------------------------------------------------------- dynamic
p("D01", "A dynamic function behaves as its source and reports failures on request",
  "Calling a dynamic function returns what a function defined normally from the same source returns for the same arguments, defaults and keyword arguments included. If it raises, the exception propagates unless the call or the object is marked optional, in which case None is returned, exactly one record of that exception is added and the failure flag is set; a per-call setting overrides the object's.",
  ["inputs", "histories", "fault_sequences"], "all call histories with symbolic arguments and failures over source templates",
  "One success and one failure of one function are tested.",
  [DY], [("Dynamic.__call__, define, compile_source, dontcare, exc_report", DY)])
p("D02", "Dynamic load/unload lifecycle is coherent under any call order",
  "Under any sequence of load, define, reload, unload and call operations, a loaded dynamic function refuses to be loaded or defined again unless reloading, an unloaded one either loads itself on call or refuses the call according to its setting, and unloading always succeeds, clears errors and failure flags, and can be followed by a reload that restores the same behaviour, for functions given as source and for those taken from an existing function. A source that defines nothing never yields a function, and its failure is recorded and flagged. The source is available in every state, also through partial applications.",
  ["histories", "configurations"], "all operation sequences within the bound, all flag combinations",
  "The lifecycle is untested beyond eager construction.",
  [DY], [("load, compile_source, define, unload, _maybe_load_on_call, from_function", DY)])
# ---------------------------------------------------------------- tracker
p("T01", "A tracker's history is complete, ordered and correctly labelled",
  "After any sequence of track, metadata, dump and clear operations, the history holds exactly the calls tracked since the last clear, in order, numbered from 1 without gaps, each with its target, the function and line it was tracked from, the metadata in force at that time and its own extra fields, the latter taking precedence; later metadata changes do not alter earlier records.",
  ["histories", "inputs"], "all operation histories within the bound with symbolic metadata values",
  "One five-record history is tested, two of its fields.",
  [TR], [("Tracker.track/clear/set_metadata", TR)])
p("T02", "A tracker's log file is always one well-formed list of its dumps",
  "After any sequence of dumps, the log file is exactly one JSON list containing one entry per unpaused dump since the file was last cleared, in order, each the log as it was when dumped, and preexisting entries are preserved; a paused dump does not touch the file and clearing removes it.",
  ["histories", "inputs"], "all dump/pause/clear histories within the bound over arbitrary serialised log contents",
  "Tests never dump.",
  [TR], [("Tracker.dump append-in-place", TR)])
# ---------------------------------------------------------------- scrape
p("X01", "Label readers return exactly the requested prefix of the file",
  "Reading a label returns exactly the first requested number of bytes of the file (all of it when shorter), decoded; the head reader does so from a path or an open stream, positions the result at its start and closes what it read from. Trimming returns the shortest prefix of that head that ends with a known label ending, the textual ending being preferred to the null one, and otherwise the whole head, or an error if asked to fail.",
  ["inputs"], "all file lengths and size limits (symbolic), all byte contents within a small bound for trimming",
  "scrape.py has no tests.",
  [SC], [("get_label_text, head_file, trim_label", SC)])
p("X02", "Scraping returns each field's first match, typed when it is a literal",
  "Scraping a text with a set of named patterns returns one entry per name: the first match's captured text, converted to the Python value it denotes when it is a literal and left as text otherwise, or None when the pattern does not occur. Values from a supplemental function are merged over these, and bulk scraping yields one record per file, in order.",
  ["inputs"], "all texts within the length bound for representative patterns; arbitrary supplemental results",
  "scrape.py has no tests.",
  [SC], [("make_scraper, scrape_patterns, bulk_scrape_metadata, scrape_subframe", SC)])
# ---------------------------------------------------------------- pivot
p("V01", "Integer downcasting preserves every value and is minimal",
  "Downcasting an integer array yields an array of the same values in the narrowest integer type that can hold its minimum and maximum, unsigned when nothing is negative, and reports zero error. The bounds test answers exactly whether both extremes are representable in the type's range, including at the limits of the widest types.",
  ["inputs"], "all minima/maxima of every 8..64 bit integer type; all doubles for the bounds test",
  "downcast has no tests; the boundary values are never tried.",
  [PV], [("_downcast_int_array, check_in_dtype_bounds", PV)])
p("V02", "Floating downcasting keeps every element within the stated tolerances",
  "Downcasting a float array either raises or returns a record whose recast array has the same length and in which every finite nonzero element differs from the original by at most the absolute and the relative tolerance, zeros stay zero and non-finite elements stay as they were; it never raises for an array of ordinary finite numbers of a supported type.",
  ["inputs"], "all IEEE values of arrays within the length bound, symbolic tolerances",
  "downcast has no tests.",
  [PV], [("downcast, check_in_dtype_bounds", PV)])
p("V03", "Constant extraction and splitting partition a table without loss",
  "Extracting constants reports exactly the columns (or, columnwise, rows) whose non-missing values are all equal, with that value, and, when dropping is requested, the remaining columns (rows) are exactly the others, unchanged and in order; with keeping missing values requested, a missing value counts as a different one. Splitting on a predicate sends every row to exactly one part, in order.",
  ["inputs"], "all tables within the size bound with symbolic cell values and missing-value patterns",
  "One CSV is tested with default options.",
  [PV], [("extract_constants, split_on", PV)])
p("V04", "Duplicate columns are dropped only when they really are duplicates",
  "Dropping duplicate columns keeps the first of each group of equally named columns, unchanged and in order, when all columns of the group hold equal values, and raises ValueError, rather than discarding data, when any of them differs.",
  ["inputs"], "all tables within the size bound with symbolic values and name patterns",
  "The function has no test.",
  [PV], [("check_and_drop_duplicate_columns", PV)])
p("V05", "Table reshaping helpers keep every row's data together",
  "Joining keys of two tables returns exactly the requested set combination of their key tuples; unpacking a column of lists spreads every row's elements over numbered columns on the same row and keeps the other columns; squeezing keeps the first value of each distinct label, missing or not, in the order of the labels (or combines its values as asked); smashing labels every value with its row's and column's names; unique records are exactly the distinct tuples of the chosen columns; duplicating a block repeats every row the given number of times in place.",
  ["inputs"], "all tables within the size bound with symbolic cell values",
  "None of these functions has a test.",
  [PV], [("junction, unpack, unpack_column, squeeze, unique_to_records, dupe_df_block, smash", PV)])
p("V06", "Downcasting a table keeps its shape, labels and other columns",
  "Downcasting a table returns its columns in order and under their names, with every row under its own label, whatever the row labels are: each numeric column is exactly what downcasting it alone with the same tolerances gives, every other column is unchanged, and the table passed in stays as it was. Columns can also be returned separately, and are then the same columns.",
  ["inputs", "configurations"], "all tables within the size bound, arbitrary row labels and elements, every option",
  "The function has no test.",
  [PV], [("downcast_df, downcast", PV)])
# ---------------------------------------------------------------- mosaic
p("M01", "Bounded reads return exactly the rows in range, whatever the row groups",
  "Reading between bounds from a partitioned file returns exactly the rows whose field value is at least the lower and less than the upper bound, in file order (of the row groups whose records are given), however the rows are distributed over row groups, and None only if no row group can contain such a row. A bound that is not given does not restrict.",
  ["inputs", "configurations"], "all row values, bounds and row-group partitions within the bound",
  "mosaic.py has no tests.",
  [MO], [("read_between", MO)])
p("M02", "Chunked sorting writes a sorted permutation of its input",
  "Sorting a file in chunks by a column of finite numbers writes exactly the rows of the input, each once with its other columns, ordered by the sort column in the requested direction across the whole output, for every number of chunks from two up, every partition into row groups and every distribution of values, duplicates and extremes included, and always closes the output.",
  ["inputs", "configurations"], "all row values, partitions, chunk counts within the bound; arbitrary monotone window edges; both directions",
  "mosaic.py has no tests.",
  [MO], [("sort_chunked, read_between", MO)])
p("M03", "Parquet metadata records cover every column of every row group once",
  "The metadata listing has exactly one record per column per row group, labelled with both, carrying that chunk's metadata with its statistics merged in when present and without failing when they are absent.",
  ["inputs", "configurations"], "all column/row-group counts within the bound, statistics present or absent per chunk",
  "mosaic.py has no tests.",
  [MO], [("parquet_metadata_records", MO)])
# ---------------------------------------------------------------- declared but not claimed
p("M04", "A file's metadata summary lists each column once with its totals",
  "Summarising a Parquet file's metadata, from its records or from the file, lists every column exactly once, in the order of the records, with the total number of values and the total compressed and uncompressed sizes over all row groups, and with every other field that is the same in all row groups (missing values aside) under its documented name; the brief form has exactly the documented fields in their documented order, and the extended form has distinct fields and summarises any file.",
  ["inputs"], "every number of columns and row groups within the bounds, every pattern of equal and different sizes, counts, statistics and encodings",
  "No test touches the Parquet metadata functions.",
  [MO], [("meta_record_df, _flatten_meta_df, meta_column_df", MO)])
p("N01", "The pickle codec restores every object that can be pickled",
  "The pickle codec decodes the bytes it encoded to an equal object, for every object that can be pickled.",
  ["inputs"], "all objects that can be pickled",
  "Tests pickle two small objects.",
  [COD], [("pickle_codec_factory", COD)])
p("N02", "With the tracker deactivated blocks outlive the processes that used them",
  "After deactivation in a process, no shared block it used is removed when that process ends, and explicit deletion still works.",
  ["schedules", "crash_points"], "all process lifetimes and terminations",
  "No test spawns independent processes that outlive each other.",
  [MEM], [("deactivate_shared_memory_resource_tracker", MEM)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
assert len({x["id"] for x in P}) == len(P)
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P), "properties")
