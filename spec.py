#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bounds.json: one source for what is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = "ordinal-map/src/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, bounds):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("ordinal-map-derive") else f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism]),
        bounds=bounds))


prop("P01", "Scalar types map one-to-one onto 0..ORDINAL_SIZE",
     "For bool, the integers up to 32 bits, char, Ordering and the NonZero integers, every value's ordinal is "
     "below ORDINAL_SIZE and from_ordinal of it returns that same value. For every usize n, from_ordinal(n) is a "
     "value with ordinal n when n < ORDINAL_SIZE, and None otherwise.",
     ["inputs"], "every value of the type and every usize",
     "The unit tests enumerate the 8- and 16-bit types and a few boundary values of the wider ones; beyond "
     "ORDINAL_SIZE they try only the first few numbers out of 2^64.",
     ["ordinal/impls/primitive.rs", "ordinal/impls/char.rs", "ordinal/impls/non_zero.rs", "ordinal/impls/ordering.rs"],
     [("range check and conversion in from_ordinal", "the Ordinal impls of each scalar")],
     "no bound on the values: all of them, and all 2^64 arguments of from_ordinal")
prop("P02", "Option, Result, Either, Box and Infallible map one-to-one onto 0..ORDINAL_SIZE",
     "For Option, Result, Either, Box and Infallible over any ordinal types (empty and very large ones included), "
     "ORDINAL_SIZE is the number of values, every value's ordinal is below it and leads back to that value, and "
     "from_ordinal answers exactly on 0..ORDINAL_SIZE, with a value of that ordinal.",
     ["inputs"], "every value, every usize, over representative component types including uninhabited ones",
     "Tests enumerate a handful of tiny compositions; offsets between alternatives matter for every component size.",
     ["ordinal/impls/std.rs", "ordinal/impls/either.rs", "ordinal/impls/boxed.rs"],
     [("offset of the second alternative", "std.rs, either.rs")],
     "component types: bool, u8, u32, char, NonZero, user keys of 1 to usize::MAX-1 values, Infallible, and two levels of nesting; "
     "all their values, all 2^64 arguments")
prop("P03", "Tuples and arrays map one-to-one onto 0..ORDINAL_SIZE",
     "For tuples of up to sixteen components and for arrays of any length, over any ordinal types (empty ones "
     "included), ORDINAL_SIZE is the number of values, every value's ordinal is below it and leads back to the "
     "equal value, and from_ordinal answers exactly on 0..ORDINAL_SIZE, with a value of that ordinal.",
     ["inputs"], "every value and every usize, for the arities 0 to 16 and array lengths tried",
     "Tests enumerate products of a few bools; mixed radices and arguments beyond the end are not tried.",
     ["ordinal/impls/tuple.rs", "ordinal/impls/array.rs", "array_builder.rs"],
     [("mixed-radix encoding", "tuple.rs (proc macro), array.rs")],
     "tuples of every arity 0..=16 over keys of 1-7 values and of arity 1-4 over wide and empty types, arrays of length 0-8, 13, 17, "
     "33 and more: all values; all 2^64 arguments of from_ordinal for arities 0-5 and the arrays (up to length 63), arguments below "
     "2^32 for arities 6-8 and below 2^16 for arities 9-16")
prop("P04", "derive(Ordinal) gives a one-to-one numbering of the type's values",
     "For a struct or enum with #[derive(Ordinal)] - unit, tuple and record shapes, generics, nested and "
     "uninhabited fields - ORDINAL_SIZE is the number of values, every value's ordinal is below it and leads back "
     "to the equal value, and from_ordinal answers exactly on 0..ORDINAL_SIZE, with a value of that ordinal.",
     ["inputs", "programs"], "every value and every usize, over some twenty declared shapes",
     "Tests derive a few small types and enumerate them; the generated arithmetic between variants and fields is "
     "exercised on few shapes and never with arguments far beyond the end.",
     ["ordinal-map-derive/src/ordinal.rs", "ordinal-map-derive/src/lib.rs"],
     [("generated ordinal/from_ordinal", "ordinal-map-derive/src/ordinal.rs")],
     "the derived types of harness/src/keys.rs; all their values, all 2^64 arguments")
prop("P05", "Ordinals compare as the values do",
     "For every provided type whose ordinals are documented to follow its order, and for derived types with derived "
     "Ord, a.ordinal() < b.ordinal() exactly when a < b: integers (signed and NonZero included), char, bool, "
     "Ordering, Option, Result, Either, Box, tuples, arrays, structs and enums.",
     ["inputs"], "every pair of values of each type",
     "Tests look at neighbouring values of small types; a sign or surrogate-gap mistake shows only for some pairs.",
     ["ordinal/impls/primitive.rs", "ordinal/impls/char.rs", "ordinal/impls/non_zero.rs", "ordinal/impls/tuple.rs",
      "ordinal/impls/array.rs", "ordinal/impls/std.rs", "ordinal-map-derive/src/ordinal.rs"],
     [("monotone numbering", "each Ordinal impl")],
     "the types named in harness/src/p05.rs; all pairs of values")
prop("P06", "all_values() is a double-ended iterator over every value in ordinal order",
     "all_values() yields each value of the type exactly once in ascending ordinal order, under any interleaving of "
     "next, next_back, nth and nth_back (with any argument, also beyond the end), and count, last and fold agree "
     "with that. After it is exhausted it stays exhausted, and it never fails, however large the type.",
     ["histories", "inputs"], "every history of calls and every argument",
     "Tests iterate a few small types to the end; they do not mix directions with skips or use huge skips.",
     ["values.rs"], [("range of remaining ordinals", "values.rs OrdinalValues")],
     "histories of up to N+2 calls for types of up to 5 values; 3 calls with arbitrary 64-bit skips for the types of up to 7 values, with skips up to 3 for u8 up to types of usize::MAX values, and (where the solver can unroll it) any skip over these")
prop("P07", "A set contains exactly what was inserted",
     "For each of the three set types over any ordinal type, contains(v) is true exactly for the values inserted or "
     "collected so far, insert answers true exactly when the value was absent, and a new or default set is empty.",
     ["histories", "inputs"], "every history of insertions and every question",
     "Tests compare with a hash set on random samples of two types; word boundaries are met by chance.",
     ["set/set.rs", "set/set64.rs", "set/array.rs", "set/set_ref.rs", "set/set_mut.rs"],
     [("bit of word ordinal/64 at ordinal%64", "set_ref.rs, set_mut.rs, set64.rs")],
     "any three insertions (two collected) and any question, for types of 1 to 300 values around every word boundary and derived types; one arbitrary insertion for 4000 values; fixed insertions around 2^16 and any question for 70000 values")
prop("P08", "Set iteration yields exactly the elements, ascending, from both ends",
     "Iterating a set yields each element exactly once in ascending ordinal order under any interleaving of next, "
     "next_back, nth and nth_back, and count, last and fold agree. OrdinalSet64::all() holds every value of the type, "
     "and two OrdinalSet64 are equal exactly when they have the same elements; sets of types without values iterate as empty.",
     ["histories", "inputs"], "every set content and every history of calls",
     "Tests collect iterators of random samples forwards and backwards; they do not mix directions, and no tested type has exactly 64 values.",
     ["set/iter.rs", "set/set64.rs", "set/set.rs", "set/array.rs"],
     [("filtering all_values / clearing lowest and highest bits", "set/iter.rs, set64.rs Iter64")],
     "any subset of a 3- to 5-value type with any history up to exhaustion; any three elements of types with up to 130 values; all() for sizes 0-64")
prop("P09", "A sparse map answers lookups by the last write",
     "In OrdinalMap and OrdinalArrayMap, get, get_mut, contains_key, len and is_empty always reflect exactly the "
     "insertions and removals made so far, key by key. insert and remove return the previous value of that key and "
     "touch no other key; all of this holds for a map that was never written, too.",
     ["histories", "inputs"], "every reachable map state, every operation, every question afterwards",
     "Random tests insert and get only; absent keys, removal and the never-allocated state are sampled thinly.",
     ["map/map.rs", "map/array_map.rs"], [("slot at the key's ordinal; storage made on first write", "map.rs, array_map.rs")],
     "one arbitrary operation (two in places) from an arbitrary state of a 1-3 key map, plus two arbitrary insertions into maps of 70 keys, and fixed insertions with any question into maps of 260 keys and into full ones; values of several types")
prop("P10", "Sparse-map iteration yields exactly the entries, ascending, from both ends",
     "iter, iter_mut, keys, values, values_mut, drain and into_iter of a sparse map yield each present entry exactly "
     "once, with its own key and value, in ascending key order, under any interleaving of next, next_back, nth and "
     "nth_back; count, last and fold agree. Writing through a yielded reference changes that entry and no other.",
     ["histories", "inputs"], "every map state and every history of calls",
     "Tests run single-direction iteration on fixed maps; the key bookkeeping when both ends move over gaps is not tried.",
     ["map/iter.rs", "map/enumerate.rs", "map/total/iter.rs", "map/map.rs", "map/array_map.rs"],
     [("slot index kept next to a double-ended slice iterator", "map/enumerate.rs")],
     "any state of a 3-key map, any history of up to 4 calls (through exhaustion), all 64-bit skip arguments; fixed places in a 260-key map, any values")
prop("P11", "The entry API looks at and changes exactly the named entry",
     "entry(k) is occupied exactly when k has a value; its key is k, get and get_mut reach that value, vacant insert "
     "stores it, and or_insert returns the existing value unchanged or stores the given one. No other entry changes.",
     ["histories", "inputs"], "every map state, key and value",
     "There are few unit tests of entries, each with one key.",
     ["map/entry.rs", "map/map.rs", "map/array_map.rs"], [("reference to the key's slot", "map/entry.rs")],
     "any state of a 2-3 key map, the never-written map, any key and value; maps of 260 keys, at keys above 255 too")
prop("P12", "drain, clear, retain and collect change a sparse map as documented",
     "A drain removes every entry even if it is dropped after any number of steps from either end; clear empties the "
     "map; retain asks once about every entry in key order, keeps changes the predicate makes and removes exactly what "
     "it rejects. Collecting pairs into a map is inserting them in order, so that the last value of a key wins; the map remains usable after each.",
     ["histories", "inputs"], "every map state, every predicate answer, every point at which iteration stops",
     "Tests use one or two fixed maps; partially consumed drains and mutating predicates are barely tried.",
     ["map/iter.rs", "map/map.rs", "map/array_map.rs"], [("Drain's destructor; take on each slot", "map/iter.rs")],
     "any state of a 2-3 key map, any predicate answers and writes, any two steps of a drain; any three collected pairs; three entries at fixed places in maps of 70 keys, clear in maps of 260; the never-written map")
prop("P13", "A total map holds for every key the value it was given",
     "OrdinalTotalMap and OrdinalTotalArrayMap ask the initialiser exactly once per key in ascending order and hold "
     "its answers; get, get_mut, indexing, insert (which returns the previous value) and into_values reach exactly that "
     "key's value. A failing initialiser is asked no further and its error is returned; default maps hold default values.",
     ["histories", "inputs"], "every initialiser, failure point, update and question",
     "Tests build maps with a formatted name per key and look at fixed keys.",
     ["map/total/map.rs", "map/total/array_map.rs", "array_builder.rs"],
     [("values in ordinal order", "map/total/map.rs, map/total/array_map.rs")],
     "maps of 0, 1 and 3 keys (70 and 260 for one update or question), any initialiser answers, any two updates, any question")
prop("P14", "Total array map transformations keep every value with its key",
     "from_array, values_array, values_array_mut and into_values use ordinal order; map and map_values pass each key "
     "exactly its own value, once and in order, and store the results under the same keys; zip pairs the values of the "
     "same key; as_ref and as_mut refer to the original's values, so that writes through as_mut reach the original.",
     ["inputs"], "every array of values, every mapping, every key",
     "Tests check one small map per operation with fixed values.",
     ["map/total/array_map.rs", "array_from_iter.rs", "array_as_mut.rs", "array_builder.rs"],
     [("array_from_iter / array_as_mut", "array_from_iter.rs, array_as_mut.rs")],
     "maps of 0, 1, 3 and 5 keys, all values; maps of 70 keys, any one value")
prop("P15", "Total-map iteration yields every entry once, in key order, from both ends",
     "iter, iter_mut, into_iter, keys, into_keys, values and values_mut of a total map yield every entry exactly once, "
     "each key with its own value, in ascending key order, under any interleaving of next, next_back, nth and "
     "nth_back; count, last and fold agree.",
     ["histories", "inputs"], "every history of calls and all values",
     "Tests iterate in one direction; keys computed while both ends move are not checked.",
     ["map/total/iter.rs", "map/enumerate.rs", "map/total/map.rs", "map/total/array_map.rs"],
     [("next index plus remaining length", "map/enumerate.rs")],
     "maps of 4 keys, any values, any history of up to 5 calls (through exhaustion), all 64-bit skip arguments; array maps of 2^40, 2^62 and usize::MAX sizeless values, 3 steps near the ends")
prop("P16", "A clone equals its original and is independent of it",
     "A clone of any map, set or iterator answers exactly as its original did at that moment; afterwards no operation "
     "on either is visible in the other.",
     ["histories", "inputs"], "every state cloned and every later operation on either copy",
     "No test changes a collection after cloning it.",
     ["map/map.rs", "map/array_map.rs", "map/total/map.rs", "map/total/array_map.rs", "set/set.rs", "set/set64.rs", "set/array.rs", "map/iter.rs", "map/total/iter.rs", "set/iter.rs", "values.rs"],
     [("hand-written Clone impls", "each type")],
     "any state of 2-3 key maps and of sets over up to 65 values, one arbitrary update of each copy, clone_from too; maps of 70 keys and sets of 200 values with a few entries; iterators of 3-4 entries cloned after one step")
prop("P17", "size_hint and len tell the truth at every position",
     "For every iterator of the crate, at every position of every interleaving of steps from both ends, size_hint's "
     "lower bound does not exceed and its upper bound is not below the number of remaining items; where the iterator is "
     "an ExactSizeIterator, len() and both bounds equal that number.",
     ["histories", "inputs"], "every content and every history of calls",
     "Tests check exactness forwards on a few iterators only.",
     ["map/iter.rs", "map/total/iter.rs", "map/enumerate.rs", "set/iter.rs", "set/set64.rs", "values.rs"],
     [("size_hint / ExactSizeIterator impls", "each iterator")],
     "3- to 4-entry collections, any content, any history through exhaustion; sets of 64 and 130 values and vast maps of sizeless values, a few steps near the ends")
prop("P18", "AtomicOrdinal is an atomic cell with the orderings asked for",
     "An AtomicOrdinal always holds a valid value of its type: load returns the last value stored, compare_exchange "
     "succeeds exactly when the current value is the expected one, and reports the value it saw. With other threads "
     "writing at any point each operation takes effect at one instant, loses no write and never fails spuriously, and gives at least the memory ordering asked for.",
     ["schedules", "histories", "inputs"], "every sequence of operations, every legal ordering, every point at which another thread writes",
     "There are no concurrent tests; weaker orderings and lost updates would pass single-threaded ones.",
     ["atomic.rs"], [("one AtomicUsize operation per call", "atomic.rs")],
     "sequences of three operations; one operation of this thread against up to two writes of others at any point; orderings by the accesses' recorded arguments")
prop("P19", "Every value is dropped exactly once, and never while it is held",
     "Values and keys moved into the crate's collections, transformations and iterators are dropped exactly once: "
     "when replaced, removed, cleared, rejected, or with their container, also after partial iteration from either end or "
     "an initialiser's error midway. No value is dropped while it can still be reached.",
     ["histories", "inputs", "fault_sequences"], "every map state, operation, stopping point and failure point",
     "Tests hold strings and numbers, whose double or missing drops go unnoticed; none counts drops.",
     ["array_builder.rs", "array_from_iter.rs", "map/iter.rs", "map/map.rs", "map/array_map.rs", "map/total/map.rs", "map/total/array_map.rs", "ordinal/impls/array.rs"],
     [("ArrayBuilder's destructor and finish", "array_builder.rs"), ("Drain's destructor", "map/iter.rs")],
     "2-3 key maps in any state, one or two operations, any stopping or failure point; drop counters on every value; array maps of 20, 70 and 260 keys, counted; panics excluded (P21)")
prop("P20", "Debug shows exactly the contents, in order",
     "The {:?} text of every map and set shows exactly its entries or elements, as a map or set, in ascending key "
     "order; of every iterator, a list of what it has left to yield. Formatting changes nothing and never fails, for empty and uninhabited contents too.",
     ["inputs", "histories"], "every content, and every position after a step from either end",
     "Tests format a few fixed collections; remaining-items views after steps from the back are hardly tried.",
     ["map/map.rs", "map/array_map.rs", "map/iter.rs", "map/total/iter.rs", "map/total/map.rs", "map/total/array_map.rs", "set/set.rs", "set/set64.rs", "set/set_ref.rs", "set/iter.rs", "values.rs", "atomic.rs"],
     [("Debug impls re-creating an iterator over what is left", "each iterator's iter() helper")],
     "2-4 entry collections, any content, after at most one step, and of 64-66 elements; which keys and values are shown and the outer brackets, not std's punctuation")
prop("P21", "A panic in the caller's code leaves no value dropped twice, leaked or lost",
     "When code the caller supplies panics inside an operation - an initialiser, mapping, predicate or iterator, a Clone or "
     "Default, a key's ordinal or from_ordinal - every value and key is still dropped exactly once, nothing dropped can be "
     "reached and no memory is leaked. An entry the operation had not yet removed or replaced stays as it was: for retain, every entry "
     "the predicate has not rejected. If a destructor panics, still nothing is dropped twice and nothing dropped can be reached.",
     ["fault_sequences", "inputs"], "every operation and map state, and every call of a callback that may be the one to panic",
     "No test panics inside a callback.",
     ["array_builder.rs", "array_from_iter.rs", "map/map.rs", "map/array_map.rs", "map/entry.rs", "map/iter.rs", "map/enumerate.rs",
      "map/total/map.rs", "map/total/array_map.rs", "map/total/iter.rs", "set/set.rs", "set/set64.rs", "ordinal/impls/array.rs"],
     [("ArrayBuilder's destructor", "array_builder.rs")],
     "maps of 3 keys in any state (thorough: 4), sets of 3, composite keys of up to 9 values; one operation, or two in a row, of which "
     "any one callback call panics; drop counters on every value and key; Debug and the atomic type excluded")
prop("P22", "Misuse of sizes is rejected at compile time",
     "Array maps and array sets whose size parameter differs from the key type's ORDINAL_SIZE, 64-element sets of "
     "larger types, and derives on types without an ordinal numbering do not compile.",
     ["programs"], "every program that misuses a size or a derive",
     "A test suite that compiles cannot contain what must not compile.",
     ["map/total/array_map.rs", "map/array_map.rs", "set/array.rs", "set/set64.rs", "ordinal-map-derive/src/ordinal.rs"],
     [("const assertions", "ASSERT constants")], None)
prop("P23", "A key type that lies about its numbering never makes the crate unsafe",
     "Implementing Ordinal is safe, so whatever a key type's ordinal and from_ordinal answer - a number out of range, another one "
     "each time, no key for a valid number, too few or too many keys - an operation gives some answer or panics: no "
     "memory outside the collection is read or written, no uninitialised or dropped value can be reached, and every value and "
     "key is dropped exactly once, with no memory leaked.",
     ["inputs", "histories"], "every operation and collection state, and every sequence of answers of the key type",
     "The key types of the tests number themselves correctly.",
     ["array_builder.rs", "array_from_iter.rs", "map/map.rs", "map/array_map.rs", "map/entry.rs", "map/iter.rs", "map/enumerate.rs",
      "map/total/map.rs", "map/total/array_map.rs", "map/total/iter.rs", "set/set.rs", "set/set64.rs", "set/array.rs", "set/iter.rs",
      "ordinal/impls/array.rs", "ordinal/impls/option.rs", "ordinal/impls/tuple.rs", "../../ordinal-map-derive/src/ordinal.rs"],
     [("every indexing by ordinal()", "map/map.rs"), ("ArrayBuilder::push's capacity check", "array_builder.rs")],
     "maps of 3 keys in any state, sets of 5-70 elements, composite keys of two or three such keys; one operation, or two in a row; every answer of "
     "ordinal (64 bits) and from_ordinal at every call; Debug and the atomic type excluded")

NA = {
    "P22": "A property of which programs the compiler accepts: there is no execution of the crate's code to encode, the "
           "deciding step would be rustc's verdict on sample programs and not a solver's.",
}
KANI = ("Loop bounds are checked (unwinding assertions); counterexamples are replayed natively before they are reported. "
        "Trusts Kani's translation, CBMC and the SAT solver, one instantiation per harness, and that allocation succeeds.")
TECH = {"P21": "symbolic execution of the compiled LLVM IR with unwinding edges (own executor, z3), panic point symbolic",
        "P23": "symbolic execution of the compiled LLVM IR with unwinding edges (own executor, z3), the key type's answers symbolic"}
NOTE = {"P21": "unwind/irexec.py executes the IR rustc emits for harnesses and /repo, landing pads included, on a checked "
               "memory; z3 decides branches, addresses and panic points. Counterexamples are confirmed by real panics natively, "
               "or under Miri; sampled paths are replayed natively too. Trusts rustc's IR, the executor's semantics and z3; one "
               "panic per run, and allocation succeeds.",
        "P23": "As P21: the IR of harnesses and /repo on a checked memory, the answers of ordinal and from_ordinal fresh "
               "symbolic values at every call, library panics unwinding. A panic while unwinding, which aborts, is allowed. Trusts rustc's "
               "IR, the executor's semantics and z3; allocation succeeds."}
EXTRA = {
    "P18": " The two-thread harnesses replace the methods of AtomicUsize by a model (Kani stubs) in which other threads "
           "may write before any access; memory ordering is judged by the ordering arguments, and counterexamples are "
           "confirmed by a threaded run natively or under Miri.",
    "P20": " The formatter is std's real code; keys and values note that they are shown instead of printing.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "bounds"}) + "\n")
    json.dump({p["id"]: p["bounds"] for p in P if p["bounds"]},
              open(os.path.join(HERE, "bounds.json"), "w"), indent=1)
    checks = []
    for p in P:
        if p["id"] in NA:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": TECH.get(p["id"], "bounded symbolic execution of the real code (Kani to CBMC to SAT) against a reference model"),
            "level": "model_checking",
            "level_note": "Holds for all inputs within: " + p["bounds"] + ". " + NOTE.get(p["id"], KANI) + EXTRA.get(p["id"], ""),
        })
    json.dump({
        "version": 1,
        "setup_cmd": "python3 check.py setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "Harness crate in harness/, driver check.py (P21, P23: unwind/), claims in spec.py. No hooks in /repo: the harnesses use the public API.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
