import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
DER=["fixed-map-derive/src/unit_variants.rs","fixed-map-derive/src/any_variants.rs"]
MST=["src/map/storage/boolean.rs","src/map/storage/option.rs","src/map/storage/singleton.rs","src/map/storage/hashbrown.rs"]
SST=["src/set/storage/boolean.rs","src/set/storage/option.rs","src/set/storage/singleton.rs","src/set/storage/hashbrown.rs"]
MAP=["src/map.rs"]; SET=["src/set.rs"]
p("C01","A map is a dictionary for every history of point operations",
 "For every supported key type (any derivable enum, bool, Option of a key, unit, integers, char, strings, byte slices, and any nesting of these) and every value type, each call of insert, get, get_mut, contains_key, remove, clear, len and is_empty in any history returns exactly what a mathematical dictionary subjected to the same history would return. In particular insert and remove return the previous value of exactly that key, and after every call the map holds exactly the dictionary's entries.",
 ["histories","inputs","programs"],"all histories of point operations, over all key enum shapes and value types",
 "The doc-tests fix one or two enums of two to seven variants and histories of two to six calls; the storage code is generated per enum shape, so arity, nesting and position of a variant matter and are never varied.",
 MAP+DER+MST,[("per-variant slot selection in generated match arms","fixed-map-derive/src/unit_variants.rs impl_map; any_variants.rs impl_map_storage"),("hand written storages for bool, Option, (), dynamic keys","src/map/storage/*.rs")],
 [dict(name="slots",meaning="one optional value per key",where="generated storage struct / src/map/storage/*.rs")],["Map public API return values"])
p("C02","A set is a mathematical set for every history of point operations",
 "For every supported key type, each call of insert, remove, contains, clear, len and is_empty in any history returns exactly what a mathematical set subjected to the same history would return: insert returns true exactly when the element was absent, remove returns true exactly when that element was present. After every call the set contains exactly the mathematical set's elements.",
 ["histories","inputs","programs"],"all histories of point operations, over all key shapes, array-backed, bitset and hash-backed",
 "Doc-tests insert into small enums from an empty set; return values of insert/remove with other elements present, and the Option/bool/() storages of sets, are not exercised.",
 SET+DER+SST,[("boolean array or bit mask per variant","unit_variants.rs impl_set, impl_bitset"),("hand written set storages","src/set/storage/*.rs")],
 [dict(name="membership flags",meaning="one flag per element",where="generated storage / src/set/storage/*.rs")],["Set public API return values"])
p("C03","Distinct keys never share or disturb a slot",
 "For every key type, any two different keys address independent entries: after inserting, overwriting, mutating or removing one key of a container, the presence and value of every other key of the type are unchanged. A container filled with every key of a finite key type has as many entries as the type has keys and returns each key's own value.",
 ["inputs","programs"],"all pairs of keys of all key types, including enums with hundreds of variants and deep nesting",
 "Existing tests touch two or three keys of tiny enums; nobody fills a whole universe, crosses the widths of the bit masks or nests composite keys.",
 DER+MST+SST,[("variant to slot mapping","generated match arms"),("bit mask constants","unit_variants.rs impl_bitset")],None,["get/contains over the complete key universe"])
p("C04","Every iterator yields exactly the contents, once each",
 "For every reachable map, iter, iter_mut, keys, values, values_mut and both borrowed and owned into_iter each yield every present entry exactly once and nothing else, they agree with one another and with get and len. For every reachable set, iter and into_iter yield every element exactly once and nothing else, in agreement with contains and len.",
 ["histories","inputs","programs"],"all reachable containers of all key shapes, including empty and full ones",
 "Doc-tests iterate over one map with one to three entries, never over an emptied map, a full map, or most nested component keys.",
 DER+MST+SST,[("generated iterator structs with start/end cursors","any_variants.rs IteratorNext/IteratorNextBack, map_storage_*"),("Flatten/FlatMap over arrays","unit_variants.rs"),("Chain of component iterators","src/map/storage/option.rs, boolean.rs")],None,["all iterator views of Map and Set"])
p("C05","Iteration follows declaration order and depends only on contents",
 "Iteration over any map or set visits keys in declaration order of the enum's variants, recursively inside composite variants (booleans: true before false; optional keys: present ones before none; dynamically hashed components: as one contiguous group in any order). The order never depends on the history of insertions and removals for key types without hashed components.",
 ["histories","programs"],"all histories leading to a content and all enum shapes (including explicit discriminants)",
 "Tests check the order for one insertion sequence of tiny enums; order independence from history needs many histories reaching the same content.",
 DER+MST+SST+["src/key.rs"],[("array index order","unit_variants.rs"),("cursor over variants","any_variants.rs IteratorNext")],None,["sequence of keys produced by each iterator"])
p("C06","Double-ended, cloned and exhausted iteration stays consistent",
 "For every iterator offered by maps and sets whose keys have no hashed component, any interleaving of taking from the front and from the back yields each item exactly once, front items in forward order and back items in reverse order, and the two ends meet without loss or duplication. Once an iterator has returned none it keeps returning none from both ends, and a clone taken at any point yields exactly the items its original had left, independently of it.",
 ["histories","inputs","programs"],"all interleavings of next/next_back/clone over all iterator kinds, contents and key shapes",
 "The tests only call rev() on whole iterators of two or three elements; mixed front/back consumption meeting inside a composite variant is never exercised.",
 DER+MST+SST,[("start/end cursors sharing one component iterator","any_variants.rs IteratorNext, IteratorNextBack"),("bit-consuming key iterator","src/map/storage/boolean.rs, src/set/storage/boolean.rs")],None,["next, next_back, clone, rev, nth on every iterator"])
p("C07","Size hints and exact lengths never lie",
 "At every point of consuming any iterator of a map, a set or an intersection, the lower size bound is at most, and the upper size bound (if any) at least, the number of items that iterator then actually yields. Where an iterator reports an exact length it equals that number, and len of the container equals the number of items iteration yields.",
 ["histories","inputs","programs"],"all iterators at all points of consumption",
 "No test looks at size_hint at all; collectors pre-allocate and unsafe consumers rely on it.",
 DER+MST+SST+["src/set/intersection.rs"],[("size_hint of the hand written iterators","src/map/storage/boolean.rs Keys, src/set/storage/boolean.rs Iter, src/set/intersection.rs")],None,["size_hint, ExactSizeIterator::len, count"])
p("C08","The entry API acts on exactly the addressed slot",
 "For every key and reachable map, entry reports occupied exactly when the key is present, its key is the key asked for, and get, get_mut, into_mut, insert, remove, or_insert, or_insert_with, or_insert_with_key, or_default and and_modify have the documented effect on that key's value and on nothing else. Supplied closures run exactly once when they are needed (with the right key or value) and never otherwise, and the returned reference designates the value now stored in the map.",
 ["histories","inputs","programs"],"all entry operations in all reachable maps of all key shapes",
 "Tests use entries of two-variant enums with Copy integers; composite, optional, boolean, unit and hashed entries are mostly untouched.",
 ["src/map/entry.rs","src/option_bucket.rs"]+DER+MST,[("occupied/vacant views holding the slot","src/option_bucket.rs SomeBucket, NoneBucket, OptionBucket"),("generated entry enums","any_variants.rs map_storage_entry")],None,["Entry, OccupiedEntry, VacantEntry"])
p("C09","Retain keeps exactly the entries its predicate accepts",
 "For every reachable map or set and every predicate, retain calls the predicate exactly once for each present entry, with that entry's key (and a mutable reference to its value), and never for an absent one. Afterwards exactly the accepted entries remain, with whatever values the predicate wrote into them.",
 ["histories","inputs","programs"],"all reachable containers and all (stateful) predicates",
 "Each retain test has one predicate and two entries; predicates that mutate, count, accept everything on an empty container, or depend on call order are not tried.",
 DER+MST+SST,[("per-slot retain","unit_variants.rs, any_variants.rs retain; storage/*.rs retain")],None,["the calls the predicate receives; contents afterwards"])
p("C10","Every stored value is owned and dropped exactly once",
 "Across any history of operations on maps (including overwrites, removals, retain, clear, entries, clones, collecting, partially consumed owned iterators and dropping the map), each value moved in is either still held, handed back to the caller, or has been dropped, and it is dropped exactly once overall. No value is lost, duplicated, or kept alive after the map gave it up.",
 ["histories","programs"],"all histories, with value types that observe their own drop",
 "Tests only store integers, string slices and a couple of Vecs and never count drops.",
 ["src/option_bucket.rs"]+MAP+DER+MST,[("raw write into a known empty slot without dropping","src/option_bucket.rs NoneBucket::insert"),("take/replace of known full slots","src/option_bucket.rs SomeBucket")],[dict(name="slot",meaning="owner of at most one value",where="storage")],["drop ledger of instrumented values"])
p("C11","Safe use of maps and sets never causes undefined behaviour",
 "No sequence of safe API calls on maps, sets, their iterators and entries, with any key and value types (zero sized, over-aligned, with niches, heap owning), performs undefined behaviour: no invalid or uninitialised value is produced, no freed or foreign memory is touched, no reference aliasing rule is broken, and no memory is leaked by the containers.",
 ["histories","inputs","programs"],"all safe histories and all value layouts",
 "Undefined behaviour is invisible to assertions; the entry API uses unchecked unwraps and raw writes that ordinary tests pass over silently.",
 ["src/option_bucket.rs","src/map/entry.rs"]+DER+MST,[("unwrap_unchecked and raw writes guarded by a checked discriminant","src/option_bucket.rs")],None,["Miri, AddressSanitizer, MemorySanitizer, LeakSanitizer on the real code"])
p("C12","A panic in user code leaves containers valid and loses nothing",
 "If a closure, iterator, clone, comparison or drop supplied by the user panics during any container operation, the panic reaches the caller, the container remains usable as a dictionary, and its contents are a subset of the old entries that includes every entry the operation had not yet been told to discard. No value is dropped twice or becomes inaccessible while still counted, and unless a drop itself panicked none is leaked.",
 ["fault_sequences","histories","programs"],"all panic points in all operations that call user code",
 "No test injects a panic; the effect depends on the position of the panic within the operation and on the storage kind.",
 MAP+SET+["src/map/entry.rs","src/option_bucket.rs"]+DER+MST+SST,[("value moved only after the closure returned","src/map/entry.rs or_insert_with_key"),("update applied slot by slot or after the pass","retain implementations")],None,["catch_unwind around operations; drop ledger; full contents afterwards"])
p("C13","Mutable access reaches the one stored value, without aliasing",
 "A value written through get_mut, iter_mut, values_mut, an entry, retain or a borrowed mutable loop is what every later access to that key returns, and no other key changes. All mutable references handed out by one iteration are live at once, pairwise disjoint, and paired with the right key; every access path designates the same stored value for a key.",
 ["histories","inputs","programs"],"all mutable access paths in all reachable maps",
 "Tests write through a path once and read back through another for a two-entry map; simultaneous live references and address identity are not checked.",
 MAP+DER+MST+["src/option_bucket.rs"],[("mutable views over the slots","unit_variants.rs iter_mut/values_mut; any_variants.rs map_storage_iter_mut/values_mut")],None,["addresses and contents through every path"])
p("C14","Equality means same contents, whatever the history",
 "Two maps compare equal exactly when they hold the same keys with values that compare equal, and two sets exactly when they hold the same elements, regardless of how each was built; inequality is the negation. Equality is symmetric and transitive, and reflexive whenever the value type's own equality is.",
 ["histories","programs"],"all pairs of containers of the same type, all key shapes",
 "Tests compare a container with a copy of itself and with one extra entry; containers that differ in one late variant, in one nested key, or only in history are not compared.",
 MAP+SET+DER+MST+SST,[("field-wise comparison","any_variants.rs PartialEq impls; unit_variants.rs")],None,["== and != over pairs"])
p("C15","Equal containers hash equally, by contents only",
 "Whenever a map or set supports hashing, equal containers feed identical data to any hasher no matter how they were built, so they collide as keys of hash tables. Containers whose contents differ feed different data.",
 ["histories","programs"],"all pairs of equal and of different containers of hashable key types",
 "One test inserts a single map into a HashSet; equality of hashes across histories is never compared.",
 MAP+SET+["fixed-map-derive/src/unit_variants.rs","src/set/storage/singleton.rs"],[("hash of the slots","unit_variants.rs Hash impls")],None,["byte stream fed to a recording hasher"])
p("C16","Ordering of maps matches ordered dictionaries",
 "Wherever maps are ordered, comparing two maps gives the same result as comparing their sequences of (key, value) pairs lexicographically with keys in declaration order, that is, as the standard ordered map would. All comparison operators, partial comparison (including incomparable values), max, min and clamp agree with that ordering, which is a total order whenever the value's is.",
 ["histories","inputs","programs"],"all pairs and triples of maps with orderable keys",
 "One doc-test compares three maps; lexicographic ties, prefixes, incomparable values, and min/max/clamp are untested.",
 MAP+["src/macro_support.rs","fixed-map-derive/src/unit_variants.rs"],[("index-tagged lexicographic comparison skipping absent slots","src/macro_support.rs __storage_iterator_cmp, __storage_iterator_partial_cmp")],None,["cmp, partial_cmp, <, <=, >, >=, max, min, clamp"])
p("C17","Ordering of sets matches ordered sets, for every storage",
 "Wherever sets are ordered, comparing two sets gives the same result as comparing their element sequences lexicographically with elements in declaration order, that is, as the standard ordered set would, whether or not the key asks for bitset storage. All comparison operators, max, min and clamp agree with that total order, and it is consistent with equality.",
 ["histories","inputs","programs","configurations"],"all pairs and triples of sets with orderable keys, in both storages",
 "One doc-test compares three array-backed sets; bitset ordering and the remaining operators are never tested.",
 SET+["src/macro_support.rs","fixed-map-derive/src/unit_variants.rs","src/set/storage/singleton.rs"],[("index-tagged lexicographic comparison","src/macro_support.rs __storage_iterator_cmp_bool"),("bitset comparison","unit_variants.rs impl_bitset Ord")],None,["cmp, partial_cmp, operators, max, min, clamp"])
p("C18","Intersection yields exactly the common elements",
 "For any two sets of the same key type, intersection yields each element contained in both exactly once, in iteration order, and nothing else, whichever set is the receiver. External iteration, internal iteration (fold and its consumers), clones taken midway and debug output all agree, and neither input changes.",
 ["inputs","histories","programs"],"all pairs of sets of all key shapes and storages",
 "One doc-test intersects a one-element with a two-element set.",
 ["src/set/intersection.rs"]+SET,[("iterate the smaller, probe the larger","src/set.rs intersection; src/set/intersection.rs next, fold")],None,["items of Intersection by next, fold, clone, Debug"])
p("C19","Clones and copies are equal and independent",
 "Cloning (or copying, where supported) a map, a set or one of their iterators yields an equal object with the same contents; each stored value is cloned exactly once. From then on any operation on either one leaves the other unchanged, and distinct containers never influence each other.",
 ["histories","programs"],"all reachable containers and all later operations on either side",
 "Tests clone a one-entry map and insert one more entry on one side.",
 MAP+SET+DER+MST+SST,[("field-wise clone","Clone impls in unit_variants.rs, any_variants.rs and storage/*.rs")],None,["contents of both sides after divergent histories; clone counts"])
p("C20","Serialization round-trips and reports true lengths",
 "Serializing any map or set emits exactly its entries once each in iteration order, announcing their exact number, as a map or a sequence respectively. Deserializing that output, in any self-describing or compact format, gives back an equal container.",
 ["inputs","histories","programs"],"all reachable containers with serializable keys and values, several formats",
 "The repository has no serde test at all.",
 MAP+SET,[("Serialize/Deserialize impls","src/map.rs, src/set.rs serde sections")],None,["serde data-model events; JSON and binary output"])
p("C21","Deserialization handles hostile input like repeated insertion",
 "Deserializing any stream of entries behaves as inserting them in order: duplicates keep the last value, a lying length hint changes nothing, and the wrong kind of input or an error at any point yields an error with no panic. On failure every value already read is dropped exactly once, and no size hint makes the container allocate out of proportion.",
 ["inputs","fault_sequences"],"all input streams, errors at every position, arbitrary length hints",
 "The repository has no serde test; faults in the middle of a stream are not reachable with ordinary formats.",
 MAP+SET,[("visitor loops","src/map.rs MapVisitor, src/set.rs SeqVisitor")],None,["result of deserialize with a fault-injecting deserializer; drop ledger"])
p("C22","Raw bitset values map one-to-one to set contents",
 "For every bitset key, the raw value of a set has exactly the bits of the declaration positions of its elements, in the smallest unsigned integer type with room for all variants, and converting it back gives an equal set; the empty set is zero. Building a set from any raw integer gives a valid set, holding exactly the variants whose bit is present, whose length, emptiness, equality and iteration agree.",
 ["inputs","histories","programs"],"all raw values and all bitset enums from 0 to 128 variants",
 "One doc-test round-trips a one-element set of two variants.",
 ["src/raw.rs","src/set.rs","fixed-map-derive/src/unit_variants.rs"],[("mask constants and width selection","unit_variants.rs impl_bitset, determine_bits")],None,["as_raw, from_raw and the set API"])
p("C23","Bitset storage is observably the same set",
 "Asking for bitset storage changes only the memory layout of sets: for enums identical but for that request, every history of set operations (point operations, retain, iteration in both directions, comparison, ordering, intersection, cloning, collecting, debug output) gives identical results. Maps keyed by such an enum are unaffected.",
 ["histories","programs","configurations"],"all histories on pairs of enums differing only in the storage attribute, 0 to 128 variants",
 "Bitset sets have four doc-test lines in all, none compared with the ordinary storage.",
 ["fixed-map-derive/src/unit_variants.rs"],[("impl_bitset vs impl_set","unit_variants.rs")],None,["paired executions"])
p("C24","Collecting equals inserting in sequence",
 "Collecting any iterator of pairs into a map, or of elements (or an array) into a set, gives the same container as inserting the items one after another: later duplicates win, all items up to the iterator's first end are taken and no more are requested after it. Displaced values are dropped, and the iterator's size hints do not affect the result.",
 ["inputs","programs"],"all source iterators, including infinite-hint, lying, non-fused and panicking ones",
 "One doc-test collects three pairs.",
 MAP+SET,[("FromIterator and From<[T; N]> loops","src/map.rs, src/set.rs")],None,["resulting contents, calls made on the source iterator, drop ledger"])
p("C25","Debug output lists exactly the contents",
 "Formatting a map or set for debugging, plainly, in alternate form or with format flags, gives exactly what the standard map or set formatting of its entries in iteration order would, and propagates failures of the underlying writer. Formatting never changes the container.",
 ["inputs","programs"],"all reachable containers, formats and writer failures",
 "One doc-test formats a one-entry map.",
 MAP+SET+["src/set/intersection.rs"],[("debug_map/debug_set over iter","src/map.rs, src/set.rs fmt")],None,["formatted strings; fmt::Error"])
p("C26","Fixed-key containers never allocate and have the promised size",
 "No operation on a map or set whose key type has no hashed component allocates heap memory, and creating any empty container never allocates. For an enum of N plain variants a map is exactly as large as an array of N optional values, a set is exactly N bytes, and a bitset set is exactly the smallest unsigned integer with at least N bits.",
 ["histories","programs"],"all operations, all fixed key shapes and value types",
 "Two size assertions for a three-variant enum; allocation is never observed.",
 DER+MST+SST+["src/lib.rs"],[("inline array storage","unit_variants.rs"),("inline nested storage","any_variants.rs")],None,["a counting global allocator; size_of"])
p("C27","Optional features never change the behaviour of containers",
 "For every combination of the crate's optional features that supports a key type, the same history of operations on it gives the same observable results, including in builds without the standard library and at every optimisation level. Enabling a feature only adds implementations.",
 ["configurations","histories"],"all feature combinations and build profiles",
 "Tests run only with all features on and unoptimised; the other combinations are only type-checked.",
 ["Cargo.toml","src/lib.rs","src/key.rs","src/map.rs","src/set.rs"],[("cfg(feature) gates","src/key.rs, src/map/storage.rs, src/set/storage.rs")],None,["trace digests of the same workload under each configuration"])
p("C28","The derive accepts every supported enum and rejects all else",
 "Deriving a key for any enum whose variants are plain or carry one key, and which has no generic parameters, compiles without warnings or unsafe code, whatever its size, variant names, discriminants, visibility, place of declaration, or types, traits and modules in scope (primitive types aside). Any other input (structs, unions, named or multiple fields, unknown or misspelled options, bitsets beyond 128 variants) is refused with a compile error naming the problem, never accepted with its request ignored and never by crashing the macro.",
 ["programs","inputs"],"all enum definitions and surrounding scopes",
 "The derive crate has no tests of its own; doc-tests only show a handful of accepted enums.",
 ["fixed-map-derive/src/lib.rs","fixed-map-derive/src/attrs.rs","fixed-map-derive/src/context.rs"]+DER,[("error collection","fixed-map-derive/src/context.rs Ctxt, lib.rs storage_derive"),("absolute paths in generated code","context.rs Toks")],None,["compiler diagnostics for generated programs; behaviour of the accepted ones"])
p("C29","Containers are safe to share and move between threads",
 "A map or set whose keys and values allow it can be moved between threads and read from many threads at once, without data races and with every reader observing exactly its contents. Containers used by different threads at the same time never influence one another.",
 ["schedules","histories"],"all interleavings of concurrent readers and of writers on separate containers",
 "No test uses threads.",
 MAP+SET+DER+MST+SST,[("no interior mutability, no shared state","all storages")],None,["ThreadSanitizer and Miri's race detector; per-thread model agreement"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
