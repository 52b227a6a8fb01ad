#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
GEN = ["gen_*.go", "skipmap.tpl"]
def P(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    d["anchors"]["hook_needed"] = None
    return d
NODE = [("node flags (fullyLinked, marked)", "whether an entry is completely added / logically removed", "flag.go, gen_*.go node struct"),
        ("node next slots", "successor of an entry at each level", "oparray.go, gen_*.go"),
        ("node mu", "lock that protects a node's successors and its removal", "gen_*.go node struct")]
props = [
P("S01", "A completed write is visible to every later operation",
  "Once Store, LoadOrStore or LoadOrStoreLazy has returned, its key is present: every operation on that key that starts later (Load, LoadOrStore, LoadOrStoreLazy, Delete, LoadAndDelete, Range) treats the key as present until a removal of that key takes effect. This holds whether the call added the key itself or found it already there, whatever other goroutines are doing.",
  ["schedules", "histories"], "all interleavings of any operations on any keys, for every tower height",
  "The tests check read-your-writes sequentially; the windows (an entry half linked, a predecessor removed between the search and the lock) need one exact interleaving.",
  GEN + ["flag.go"], [("an entry is linked at all its levels and flagged before the inserting call returns", "gen_*.go Store/LoadOrStore/LoadOrStoreLazy"), ("predecessors are locked and re-validated (not removed, still adjacent) before linking", "gen_*.go validation loops"), ("a found entry is used only if it is completely linked and not removed", "gen_*.go, nodeFound.flags.MGet")], NODE, ["Load", "Range", "Delete", "LoadOrStore"]),
P("S02", "Lookups answer truthfully",
  "Load, and LoadOrStore or LoadOrStoreLazy reporting loaded=true, return a value only if it was the value of exactly that key at some moment during the call at which the key was present. A lookup reports absence (zero value and false) only if the key was absent at some moment during the call.",
  ["schedules", "histories", "inputs"], "all interleavings, keys and tower heights",
  "A wrong answer needs a half-added or half-removed entry, or a tall tower, at the moment of the lookup; tests do not control that.",
  GEN, [("search descends level by level to the bottom level before reporting absence", "gen_*.go Load, findNode"), ("presence test reads both flags in one atomic load", "gen_*.go Load, flag.go MGet")], NODE, ["Load", "LoadOrStore", "LoadOrStoreLazy"]),
P("S03", "At most one insertion of an absent key succeeds",
  "Of any number of concurrent Store, LoadOrStore and LoadOrStoreLazy calls for one absent key exactly one adds it, the map never holds two entries with equal keys, and a call reports loaded=false only if it added the entry itself, with the value it returns.",
  ["schedules", "histories"], "all interleavings of inserting and removing calls on one key and its neighbours",
  "The tests start 1000 goroutines on one key once; a duplicate needs a neighbour to change between the search and the lock.",
  GEN, [("link only between locked, unremoved, still adjacent neighbours on both sides of the key", "gen_*.go validation loops")], NODE, ["Range", "Len", "loaded results"]),
P("S04", "Each entry is removed by exactly one call",
  "Every added entry is removed at most once: exactly one Delete or LoadAndDelete call reports true for it, and after that call returned the key is absent until it is added again. Delete and LoadAndDelete report false, and change nothing, only if the key was absent at some moment during the call.",
  ["schedules", "histories"], "all interleavings of removals with other removals and insertions; every tower height",
  "One test counts successful LoadAndDelete calls for one key; removals racing with retries, with insertions next to the entry, or of tall towers are not controlled.",
  GEN + ["flag.go"], [("the entry is marked once, under its own lock, after re-checking that it is not marked", "gen_*.go Delete/LoadAndDelete"), ("physical removal from all levels with validated, locked predecessors", "gen_*.go Delete/LoadAndDelete")], NODE, ["Delete", "LoadAndDelete", "Load after Delete"]),
P("S05", "No stored value is lost: LoadAndDelete returns the last one",
  "LoadAndDelete returns the value most recently stored for the key at the moment the key was removed. A Store that overwrites a key concurrently with its removal either takes effect before the removal (so that LoadAndDelete returns its value or a later one) or leaves the key present with the new value; its value never vanishes.",
  ["schedules", "histories"], "all interleavings of overwriting Stores with LoadAndDelete and Delete of the same key",
  "The tests never run Store and LoadAndDelete of the same key concurrently.",
  GEN, [("the overwrite is a compare-and-swap on a value read before the entry was seen unremoved", "gen_*.go Store"), ("removal takes the value with an atomic read-modify-write after marking", "gen_*.go takeVal")], [("node value", "pointer to an immutable cell with the value", "gen_*.go node struct")], ["LoadAndDelete", "Store", "Load"]),
P("S06", "Changing one key never disturbs the other keys",
  "Adding, overwriting or removing one key never makes another key appear, disappear or change its value, also when neighbouring keys are being added and removed at the same time.",
  ["schedules", "histories"], "all interleavings of insertions and removals of neighbouring keys at every level",
  "Losing a neighbour needs two structural changes to overlap between validation and linking; the tests mostly insert distinct keys and check totals.",
  GEN, [("successor pointers of shared nodes change only under the node's lock, between validated neighbours, and a removal splices in exactly the removed entry's successor", "gen_*.go atomicStoreNext call sites")], NODE, ["Load", "Range"]),
P("S07", "Iteration follows the order the constructor promises",
  "Range visits keys in strictly ascending order for maps made by the New... constructors and strictly descending order for those made by New...Desc (for NewFunc, in the order of the given less function), for every key type and every set of keys.",
  ["inputs", "schedules", "configurations"], "all 21 constructors, all keys, all schedules",
  "The tests iterate in order over three int keys and some floats; most typed maps are never instantiated by a test.",
  GEN + ["skipmap.go", "gen.go"], [("search comparisons place a key after all smaller and before all larger keys", "gen_*.go findNode/findNodeDelete/Load"), ("constructor picks the map type of its direction", "skipmap.go")], None, ["Range"]),
P("S08", "Range visits every lasting entry exactly once, with its own value",
  "Range calls its function with each key that is present during the whole call exactly once, never twice with one key, never with a key that was absent during the whole call, and always with a value that key had. It stops as soon as the function returns false and otherwise only at the end of the map.",
  ["schedules", "inputs"], "all interleavings of Range with other operations; callbacks that stop at any point",
  "The tests range over a map without concurrent structural changes, and never stop early.",
  GEN, [("walk of the bottom level that skips only entries that are not (or no longer) present", "gen_*.go Range")], None, ["Range"]),
P("S09", "Len counts the entries and is never negative",
  "When no operation is in progress Len equals the number of keys that Range visits: each successful insertion adds exactly one and each successful removal subtracts exactly one, and nothing else changes it. At no moment, also while operations are in progress, is Len negative.",
  ["schedules", "histories"], "all interleavings, all retry counts",
  "The tests read Len in quiet moments after few operations; double counting on a retry path or counting late needs contention.",
  GEN, [("one increment per linked entry, before it can be removed; one decrement per removed entry", "gen_*.go atomic.AddInt64 call sites")], [("length", "number of entries", "gen_*.go map struct")], ["Len"]),
P("S10", "LoadOrStoreLazy calls its function at most once, only if needed",
  "LoadOrStoreLazy calls the function at most once per call, only if it goes on to add the key, and then stores and returns exactly the value the function returned. If the key is present it returns the present value without calling the function, and of concurrent calls for one absent key only one calls its function.",
  ["schedules", "inputs"], "all interleavings and retry counts",
  "The test runs 1000 callers on one key without neighbours changing, so the validation that fails after the search hardly ever happens.",
  GEN, [("f is called after validation succeeded, while the neighbours are locked", "gen_*.go LoadOrStoreLazy, lazy*")], None, ["calls of f", "returned values"]),
P("L01", "Every operation gives back every lock",
  "When an operation returns, or is unwound because a function passed to LoadOrStoreLazy or Range panicked or ended its goroutine, it holds no lock any more and it never releases a lock it does not hold: the map stays usable.",
  ["schedules", "inputs", "fault_sequences"], "all exits of all operations, including every failed validation and a panic in a callback",
  "A leaked lock needs a failed validation at a particular level, or a panicking callback; tests have neither under control.",
  GEN, [("unlock walks the same predecessors that were locked, once each", "gen_*.go unlock*"), ("deferred unlock around the callback", "gen_*.go lazy*")], NODE, ["termination of later operations"]),
P("L02", "Operations never deadlock each other",
  "Operations of the map never wait for each other in a cycle: every operation acquires locks of entries in one common order, never acquires a lock it already holds, and holds no lock that another operation may need in order to let it continue while it waits by retrying.",
  ["schedules"], "all interleavings of any operations on any keys at any tower heights",
  "A lock cycle needs two operations to interleave inside their locking loops.",
  GEN, [("predecessors are locked from the bottom level up, that is in descending position", "gen_*.go locking loops"), ("all predecessor locks are dropped before a new search", "gen_*.go !valid branches")], NODE, ["termination"]),
P("L03", "Range may call back into the same map",
  "No lock is held, and no internal state is left half changed, while Range runs the caller's function, so that function may call any operation of the same map and may block or panic without affecting other goroutines.",
  ["schedules", "programs"], "all callbacks, all states of the map",
  "One test stores and deletes from a callback in a quiet map; a lock held on some path only shows when a callback hits it.",
  GEN, [("Range takes no lock", "gen_*.go Range")], None, ["Range"]),
P("L04", "A call that is not disturbed finishes",
  "From the moment on at which no other call on the map is in progress, each call that is in progress finishes within a bounded number of rounds of its retry loops if its callback returns: an operation repeats a step only because another operation changed something meanwhile, and no operation that has ended, however it interleaved with others, left behind anything that makes another one wait or retry for ever.",
  ["schedules", "histories"], "all states of the map that concurrent calls can leave behind, all points at which a call can be when the others have ended",
  "A loop that retries on stale information, or waits for something that never comes, ends in every test whose schedule does not reach it.",
  GEN + ["flag.go"], [("each retry searches again and reads flags, values and the highest level again", "gen_*.go retry loops, randomlevel, flag.go SetTrue")], None, ["termination"]),
P("W01", "Load, Range and Len are wait-free",
  "Load, Range and Len never wait for other goroutines: they acquire no lock, never retry and modify nothing, and each of their steps moves forward in the map, so they finish in a bounded number of steps whatever other goroutines do, even if these are stopped in the middle of an operation.",
  ["schedules"], "all interleavings, including goroutines that stop forever at any point",
  "No test stops a goroutine in the middle of an operation, and a retry loop passes any test that eventually makes progress.",
  GEN + ["flag.go", "oparray.go"], [("only atomic loads; every loop advances the cursor or descends a level", "gen_*.go Load, Range, Len")], None, ["Load", "Range", "Len"]),
P("R01", "All operations are free of data races",
  "Any operations may run concurrently on one map without a data race in the Go memory model: everything shared that can change is accessed with atomic operations, or with plain ones only while excluded by the entry's lock or before the entry can be reached by others. So what a goroutine did before it stored a value is visible to every goroutine that observes the value.",
  ["schedules"], "all pairs of concurrent accesses",
  "The race detector only sees the schedules and key types that ran; most typed maps never run in a test.",
  GEN + ["flag.go", "oparray.go"], [("atomic accessors for published fields, plain ones under lock or before publication", "oparray.go, gen_*.go load/store accessors")], None, ["race detector"]),
P("M01", "No operation panics by itself",
  "No operation ever fails with a nil dereference, an index out of range or another run-time panic of its own, for any key and value, any sequence of operations and any internal random choice of tower height, however tall.",
  ["inputs", "histories", "schedules"], "every tower height 1..maximum and every value of the highest level, every reachable list shape",
  "Heights above 8 practically never occur in a test run (probability 4^-8 per insertion), and a height never seen before needs one more.",
  GEN + ["oparray.go", "util.go"], [("tall entries get the second slot array", "gen_*.go new*Node"), ("heights and the highest level stay within the slot count", "util.go randomLevel, gen_*.go randomlevel")], None, ["panics"]),
P("M02", "Keys and values come back exactly as they were stored",
  "A stored value lives in a private cell that is written once before it is published and never modified afterwards, and every internal pointer is read back as the type it was stored as: callers never see a partly written, mixed or reinterpreted key or value, for any key and value types.",
  ["schedules", "inputs", "programs"], "all value types, all interleavings of overwrites with reads",
  "Tests use one-word or interface values; tearing or aliasing shows only with larger values under concurrency.",
  GEN + ["oparray.go"], [("value cells are fresh copies swapped in by pointer", "gen_*.go storeVal/casVal/loadVal"), ("unsafe.Pointer conversions agree between writer and reader", "gen_*.go, oparray.go")], None, ["Load", "Range"]),
P("M03", "64-bit atomic fields are aligned on 32-bit platforms",
  "The map works on 32-bit platforms: every field that is accessed with 64-bit atomic operations is 64-bit aligned within its allocation on every supported architecture, so these operations cannot fault.",
  ["configurations"], "all GOARCH values with 4-byte words, all key and value types",
  "The tests run on a 64-bit machine, where alignment never fails.",
  GEN, [("64-bit counters come first in the map structs", "gen_*.go map structs")], [("length, highestLevel", "64-bit atomics", "gen_*.go map structs")], None),
P("K01", "Built-in orders are strict weak orders, also for NaN",
  "The order used by NewFloat32, NewFloat64, their Desc versions, and New and NewDesc with floating-point keys is a strict weak order on all floating-point keys that agrees with < (or >) on ordinary numbers and treats all NaNs as one key at one fixed end, so NaN keys can be stored, found and removed like any other and never hide other keys.",
  ["inputs"], "all pairs and triples of keys, including NaN, infinities and signed zeros",
  "The float test stores NaN in four maps; New[float64] is never tested.",
  ["skipmap.go", "util.go", "gen.go", "gen_ordered.go", "gen_ordereddesc.go"], [("NaN-aware comparators", "skipmap.go NewFloat*, util.go isNaN")], None, ["Load", "Range", "Len"]),
P("K02", "Every key value is an ordinary key",
  "Every value of the key type can be stored, found, iterated over and removed, including the zero value, the empty string and the smallest and largest values: no key collides with internal marker entries and no operation treats any key specially.",
  ["inputs"], "all key values of all key types",
  "Tests use positive ints and short strings; an internal head entry with a zero key would only collide for those keys.",
  GEN + ["skipmap.go"], [("the head entry's key is never compared", "gen_*.go searches start at the head's successors")], None, ["Load", "Range", "Delete"]),
P("K03", "The given order is the only one used, and is only asked about keys",
  "A map made by NewFunc decides which keys are equal and in which order they stand only by calling the given less function, so that keys which it does not distinguish are one key. It calls it only with keys that were passed to operations of that map: never with the key of an internal entry, the zero value of the key type or anything else it made up itself, which the function may not be able to compare (nil pointers, for example).",
  ["inputs", "histories"], "all key types, less functions, keys and maps that operations can leave behind",
  "The tests give NewFunc an order on ints, for which every value, also a made up one, can be compared.",
  ["gen_func.go", "skipmap.go"], [("searches compare with the entries behind the head, never with the head", "gen_func.go findNode, findNodeDelete, Load")], [("less", "the order given to the constructor", "gen_func.go map struct")], None),
P("H01", "Every entry stays reachable and removable at its height",
  "The level at which searches start only ever grows, stays within the capacity, and is at least the height of every entry when that entry is linked, so entries of any height can always be found, overwritten and removed, also when tall entries are added concurrently.",
  ["schedules", "inputs"], "all interleavings of insertions that raise the level; all heights",
  "Raising the level happens a handful of times per map, and two raises rarely overlap.",
  GEN + ["util.go"], [("compare-and-swap that only raises", "gen_*.go randomlevel"), ("height is drawn from 1..maximum", "util.go randomLevel")], [("highestLevel", "where searches start", "gen_*.go map struct")], ["Delete", "Load"]),
P("H02", "Removed entries leave no residue",
  "When Delete or LoadAndDelete reports success, the removed entry has been unlinked at every level it was linked at: it can no longer be reached from the map, so repeated insertion and removal does not accumulate garbage or slow down searches.",
  ["schedules", "histories"], "all heights, all retry counts",
  "A level left linked keeps all results right (the entry is flagged), so result checks cannot see it.",
  GEN, [("unlink loop over all levels of the removed entry", "gen_*.go Delete/LoadAndDelete")], None, ["heap"]),
P("A01", "All map types offer the same complete API on every platform",
  "Each of the 21 constructors exists on every platform with its documented type parameters and returns an empty map with all eight operations (Store, Load, LoadAndDelete, LoadOrStore, LoadOrStoreLazy, Delete, Range, Len) over exactly its key type.",
  ["configurations", "programs"], "all constructors, key types and GOOS/GOARCH combinations",
  "The tests instantiate 9 of the 21 constructors on one platform.",
  GEN + ["skipmap.go"], [("generated variants", "gen.go, gen_*.go"), ("constructors", "skipmap.go")], None, None),
P("A02", "Maps are independent of each other",
  "Operations on one map never influence another: every constructor call returns a map with its own state, and the package keeps no mutable state that maps share.",
  ["programs", "schedules"], "all numbers of maps and all interleavings between them",
  "The tests use one map at a time.",
  ["*.go"], [("no package-level variables", "all files"), ("a fresh head entry per map", "skipmap.go")], None, None),
P("G01", "Regenerating the sources keeps all guarantees",
  "Running the documented generator on the checked-in template succeeds and yields a package that builds, offers the complete API for all map types, and whose maps give all the guarantees above.",
  ["programs", "configurations"], "the package as regenerated from gen.go and skipmap.tpl",
  "The tests only compile the checked-in generated files; the template is never expanded by a test.",
  ["gen.go", "skipmap.tpl", "gen_*.go"], [("template and variant table", "gen.go, skipmap.tpl")], None, None),
P("C01", "Searches follow one descending path and skip entries",
  "Every operation on a key starts at the highest layer in use, walks at each layer only over entries before the key, from where the walk over the layer above ended, and so never walks over the entries that an upper layer lets it skip. The heights that make this logarithmic in expectation are drawn at random for each added entry: of the entries that reach a layer a fraction between 1/16 and 1/2 reaches the next one, up to the maximum height, which every adding operation can reach and declare. Entries are linked at every layer of their height. Len does not walk over entries.",
  ["inputs", "histories"], "all keys, all maps that operations can leave behind, the exact distribution of drawn heights",
  "No test measures cost: a search that walks too far, or heights from another distribution, return the same results.",
  GEN + ["util.go"], [("searches descend from the predecessor found one layer above", "gen_*.go findNode, findNodeDelete, Load"), ("height distribution", "util.go randomLevel"), ("the highest level is raised to the height drawn", "gen_*.go randomlevel")], None, None),
P("N01", "Operations take expected logarithmic time",
  "Tower heights are geometrically distributed with ratio 1/4 and independent of the keys, so that every operation takes expected logarithmic time in the number of entries and the documented performance relative to sync.Map is reached.",
  ["inputs", "schedules"], "all sequences of operations; in expectation over the random heights",
  "Tests measure no cost; benchmarks measure it on one machine.",
  ["util.go", "gen_*.go"], [("random heights", "util.go randomLevel")], None, None),
P("N02", "Every concurrent history is linearizable",
  "For every concurrent history of operations there is one sequential order of them that respects real time and explains every result (Range excepted, which is not a snapshot).",
  ["histories", "schedules"], "all concurrent histories",
  "Tests check a few totals after concurrent phases.",
  GEN, [("the whole algorithm", "gen_*.go")], None, None),
P("N03", "Writers always finish eventually",
  "Every Store, LoadOrStore, LoadOrStoreLazy, Delete and LoadAndDelete call eventually returns provided the goroutines that hold locks keep running and callbacks return.",
  ["schedules"], "all fair schedules",
  "Tests end under the schedules that happen to run.",
  GEN, [("retry loops", "gen_*.go")], None, None),
]
with open("/verif/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
