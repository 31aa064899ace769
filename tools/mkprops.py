#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
C = "frozen-collections-core/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Hash collections answer every lookup exactly",
  "A frozen hash map or set built from any entries answers every lookup exactly as a reference map would: a key that was supplied is found with its own value and stored key, and a key that was not supplied is never found. This holds for every collection size, for any borrowed or equivalent form of the key, and for every lookup operation (value, mutable value, key/value pair, containment, indexing).",
  ["inputs"], "all entry lists (any size, any key distribution), all probe keys, present or absent, in owned, borrowed or equivalent form",
  "Whether two keys share a slot, and where a slot's run of entries begins and ends, depends on the whole key set and the hash values; tests sample a few fixed key sets of a dozen entries.",
  [C+"fz_maps/fz_hash_map.rs", C+"fz_sets/fz_hash_set.rs", C+"maps/hash_map.rs", C+"maps/scan_map.rs", C+"hash_tables/hash_table.rs", C+"hashers/bridge_hasher.rs"],
  ["slot table over entries grouped by hash", "unchecked slot and entry indexing", "equality confirmation inside the slot's range"],
  ["get", "get_mut", "get_key_value", "contains_key", "Index", "set get/contains"])
p("P02", "Ordered collections answer every lookup exactly",
  "A frozen ordered map or set built from any entries, in any input order, answers every lookup exactly as a reference ordered map would: every supplied key is found with its own value, and no other key is found. This holds for every collection size and for any borrowed or comparable form of the key.",
  ["inputs"], "all entry lists of any size and input order, all probe keys including below, between and above the stored keys",
  "The search layout depends on the exact element count (complete and incomplete tree levels) and on where the probe falls between keys; tests only use a few sizes.",
  [C+"fz_maps/fz_ordered_map.rs", C+"fz_sets/fz_ordered_set.rs", C+"maps/eytzinger_search_map.rs", C+"utils/eytzinger.rs", C+"utils/dedup.rs"],
  ["sort, dedup, breadth-first tree layout", "branch-free search with unchecked indexing"],
  ["get", "get_mut", "get_key_value", "contains_key", "Index", "set get/contains"])
p("P03", "Scalar collections answer every lookup exactly",
  "A frozen scalar map or set over any integer, non-zero integer or unit-enum keys answers every lookup exactly as a reference map would, whichever layout (contiguous, sparse or hashed) its keys lead to. In particular keys just outside the covered range, keys in gaps, and keys at the extremes of the type, including sets of keys spanning the whole range of the type, are all answered correctly.",
  ["inputs"], "all scalar key sets of every supported key type (dense, sparse, spread out, extreme) and all probe keys of the type",
  "The layout is chosen from the key range and count, and every boundary (range ends, gaps, thresholds, sign change, type limits) is a separate case; tests use small non-negative runs.",
  [C+"fz_maps/fz_scalar_map.rs", C+"fz_sets/fz_scalar_set.rs", C+"maps/dense_scalar_lookup_map.rs", C+"maps/sparse_scalar_lookup_map.rs", C+"analyzers/scalar_key_analyzer.rs", C+"traits/scalar.rs"],
  ["range analysis", "min/max range check then unchecked table lookup", "index used directly as hash"],
  ["get", "get_mut", "get_key_value", "contains_key", "Index", "set get/contains"])
p("P04", "String collections answer every lookup exactly",
  "A frozen string map or set built from any strings answers every lookup exactly as a reference map would, whatever part of the strings it decides to hash. Absent strings are never found even if they share the hashed part or the length of a stored key, are shorter than the hashed part, are empty, or contain arbitrary Unicode.",
  ["inputs"], "all lists of strings (any length, content, shared prefixes or suffixes) and all probe strings",
  "The hashed substring is derived from the whole key set, so lookups of unrelated or shorter strings exercise paths that depend on data the tests do not sample.",
  [C+"fz_maps/fz_string_map.rs", C+"fz_sets/fz_string_set.rs", C+"analyzers/slice_key_analyzer.rs", C+"hashers/left_range_hasher.rs", C+"hashers/right_range_hasher.rs", C+"hashers/bridge_hasher.rs"],
  ["substring uniqueness analysis", "left/right aligned range hashing with unchecked slicing", "fallback to whole-key hashing"],
  ["get", "get_mut", "get_key_value", "contains_key", "Index", "set get/contains"])
p("P05", "All construction routes agree and the last duplicate wins",
  "For every frozen map, when the same key is supplied several times the collection holds it once with the value supplied last, and the reported length is the number of distinct keys. Every construction route (vector, array, iterator, explicit hasher, set from map, default) yields the same contents for the same entries, and for distinct keys the order in which they are supplied does not matter.",
  ["inputs"], "all entry lists with arbitrary multiplicity and order of duplicates, and every public way of building each runtime collection",
  "The deduplication algorithm differs by collection and by size (pairwise, hash based, sort based); which duplicate survives depends on positions and counts that tests do not enumerate.",
  [C+"utils/dedup.rs", C+"fz_maps", C+"fz_sets"],
  ["keep-last deduplication by equality, by hash and by ordering", "constructors, From, FromIterator, Default"],
  ["len", "is_empty", "get", "iteration", "equality"])
p("P06", "Results never depend on hash quality",
  "Hash and string collections give the same, correct answers with any hasher that is consistent, however poor: constant, a few distinct values, values differing only in high or only in low bits, or any seed. Building such a collection always succeeds and terminates, and lookups, lengths and iteration are unaffected.",
  ["inputs"], "all consistent hash builders, all key sets and probes",
  "Collisions, full slots and table sizing only go wrong for particular hash value patterns; tests use the default random hasher.",
  [C+"hash_tables/hash_table.rs", C+"hash_tables/hash_table_slot.rs", C+"maps/hash_map.rs", C+"fz_maps/fz_hash_map.rs", C+"fz_maps/fz_string_map.rs", C+"utils/bitvec.rs"],
  ["slot count selection by collision counting", "entries sorted by slot with begin/end indices"],
  ["get", "contains", "len", "iteration of collections built with an explicit hasher"])
p("P07", "Iteration yields every entry exactly once",
  "Every iterator of a frozen collection (entries, keys, values, their mutable and consuming forms, and by-reference loops) yields every entry exactly once and nothing else, paired correctly. At every point of the iteration the remaining-size report is exact, counting, folding and cloning the rest agree with stepping through it, and an exhausted iterator stays exhausted, and formatting a borrowing iterator shows what it has left.",
  ["inputs", "histories"], "all collections (runtime-built and macro-built), all iterator kinds, all points at which an iterator is split, cloned, counted or folded",
  "Iterator adaptors use overridden methods (fold, count, size reports) that only matter mid-iteration; tests mostly collect whole iterators.",
  [C+"maps/iterators.rs", C+"sets/iterators.rs", C+"maps/decl_macros.rs", C+"sets/decl_macros.rs"],
  ["wrappers over slice iterators with overridden size_hint/len/count/fold"],
  ["iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values"])
p("P08", "Value updates touch exactly the addressed entry",
  "Under any sequence of value updates through any mutable access path, each update changes the value of exactly the addressed key and of no other; the set of keys, the length and all lookups otherwise stay the same. Clones taken at any point are equal when taken and independent of the original afterwards.",
  ["histories"], "all sequences of point updates, bulk updates, disjoint updates and clones, on all map types",
  "A misdirected write shows only as a later wrong read of some other key, so it needs histories with full read-back after every step rather than single updates.",
  [C+"maps/decl_macros.rs", C+"maps", C+"inline_maps", C+"fz_maps"],
  ["mutable lookup paths duplicated from the shared ones", "iter_mut/values_mut", "derived Clone"],
  ["get_mut", "iter_mut", "values_mut", "get_disjoint_mut", "clone", "get"])
p("P09", "Multi-key mutable access never aliases",
  "Asking a map for mutable references to several keys at once returns, position by position, the value of each requested key or nothing for absent keys, and the references returned are to distinct values. If two of the requested keys identify the same present entry, however they are written, the call panics and leaves the map unchanged rather than handing out two references to one value (values of zero size, which cannot alias, are exempt from the panic when the keys are merely equivalent).",
  ["inputs"], "all maps and all tuples of requested keys: present, absent, repeated, and distinct-but-equivalent",
  "It depends on the combination and positions of requested keys and on custom equivalence between query and key types, which tests do not vary.",
  [C+"maps/decl_macros.rs", C+"traits/map_extras.rs", C+"fz_maps", C+"utils/dedup.rs"],
  ["duplicate check before unsafe multi-borrow"],
  ["get_disjoint_mut", "get_disjoint_unchecked_mut"])
p("P10", "Set algebra matches mathematical sets",
  "Union, intersection, difference and symmetric difference of frozen sets, both as lazy iterators and as operators, yield exactly the mathematical result with no value repeated, and disjointness, subset and superset tests agree with it. This holds for every pair of sets, including different set types, empty, equal, nested and differently sized operands, and the size bounds the lazy iterators report are valid at every step.",
  ["inputs"], "all pairs of sets over all combinations of frozen and standard set types",
  "The algorithms branch on which operand is larger and on overlap; size bounds only go wrong mid-iteration. Tests use a handful of fixed pairs.",
  [C+"traits/set_ops.rs", C+"sets/iterators.rs", C+"sets/decl_macros.rs"],
  ["larger/smaller operand selection", "lazy filtering iterators", "BitOr/BitAnd/BitXor/Sub operators"],
  ["union", "intersection", "difference", "symmetric_difference", "is_disjoint", "is_subset", "is_superset", "| & ^ -"])
p("P11", "Equality and debug output reflect exactly the contents",
  "Two collections compare equal exactly when they hold the same keys with equal values, whatever order they were supplied in, whichever type implements them, and in both directions. Debug output lists every entry exactly once in the usual map or set notation.",
  ["inputs"], "all pairs of collections, including pairs that differ by one key, one value or one extra entry, and mixed frozen/standard types",
  "Near-equal pairs (same length, one different entry; subset relations in either direction) are where an asymmetric comparison goes wrong, and tests only compare equal collections or obviously different ones.",
  [C+"maps/decl_macros.rs", C+"sets/decl_macros.rs", C+"fz_maps", C+"fz_sets"],
  ["length check plus entry-wise lookup in the other collection", "Debug through debug_map/debug_set"],
  ["==", "!=", "{:?}"])
p("P12", "Serialization round-trips and interoperates with std collections",
  "Serializing any frozen collection and deserializing the result gives an equal collection, and the serialized form can be exchanged with the corresponding standard collection in either direction, in text and binary formats alike. This includes strings needing escapes, empty collections, nested values, and readers that cannot lend borrowed data. An output error anywhere during serialization is reported, never swallowed.",
  ["inputs"], "all collections of serializable keys and values, across self-describing and binary formats and streaming, in-memory and tree-shaped sources",
  "Whether a format can lend borrowed data, needs the length up front, or escapes a string depends on the data and format; tests round-trip a few simple values through one format.",
  [C+"fz_maps", C+"fz_sets", C+"maps/decl_macros.rs", C+"sets/decl_macros.rs"],
  ["serialize_map/serialize_seq with length", "visitors collecting entries then building"],
  ["Serialize", "Deserialize"])
p("P13", "Deserializing arbitrary input is safe and exact",
  "Deserializing a frozen collection from arbitrary, possibly hostile or truncated input either reports an error or yields a valid collection; it never panics, aborts or allocates in proportion to a claimed rather than actual size. It accepts exactly the inputs that the corresponding standard collection accepts and then has the same contents, with the last of duplicated keys winning.",
  ["inputs", "fault_sequences"], "all byte strings and token streams, including duplicates, wrong types, errors part-way and false size claims",
  "The space of malformed inputs cannot be enumerated by examples; tests never feed malformed input.",
  [C+"fz_maps", C+"fz_sets"],
  ["visitor size-hint preallocation", "entry collection loop", "error propagation"],
  ["Deserialize"])
p("P14", "Macros over literal keys build the collection that was written",
  "For any list of literal integer or string keys, each collection-building macro compiles to a collection that holds exactly the written entries (the last of duplicates winning), finds each of them with its value and finds nothing else. This holds for every number of entries, every literal spelling and integer suffix, and whichever implementation the build-time analysis selects.",
  ["inputs", "programs"], "all literal key lists, macro kinds, collection kinds, literal spellings and probe keys",
  "Build-time code generation bakes tables, ranges and hash seeds into source text; each key set yields a different program and tests compile only a few.",
  ["frozen-collections-macros/src/lib.rs", C+"macros/processor.rs", C+"emit/generator.rs", C+"emit/collection_emitter.rs", C+"inline_maps", C+"inline_sets", C+"hash_tables/inline_hash_table.rs", C+"hash_tables/inline_hash_table_no_collisions.rs", C+"hashers"],
  ["literal parsing and key classification", "baked lookup tables", "collision / no-collision table selection", "const-generic range hashers"],
  ["compiled macro output queried at run time"])
p("P15", "Macros over computed keys and all declaration forms agree",
  "For keys that are arbitrary expressions, or a mix of expressions and literals, each macro builds a collection holding exactly the evaluated entries, for any number of entries and with the last of equal keys winning. The short form and every long form (static, local, mutable local, with visibility) of the same data yield collections with the same contents.",
  ["inputs", "programs"], "all lists of key expressions of each kind, all entry counts, all declaration forms",
  "Which run-time collection is instantiated depends on macro kind, count and literal/expression mix; tests cover few combinations.",
  [C+"macros/processor.rs", C+"macros/macro_api.rs", C+"macros/parsing", C+"emit/collection_emitter.rs", C+"emit/generator.rs"],
  ["non-literal key paths", "long-form static/let emission, LazyLock for non-const data"],
  ["compiled macro output queried at run time"])
p("P16", "Build-script emitter output matches the entries given",
  "For any entries and any valid configuration (map or set; static, local or expression; alias; visibility; constness), the emitter produces code that compiles and whose collection holds exactly the given entries, the last of duplicate keys winning, for every key kind it offers. Invalid configurations are reported as errors.",
  ["inputs", "programs"], "all entry lists, key kinds, entry counts and emitter configurations",
  "Emitted code bakes lookup structures computed at build time that must match what the compiled program computes at run time; tests emit a few fixed collections.",
  [C+"emit/collection_emitter.rs", C+"emit/generator.rs", C+"emit/collection_entry.rs", C+"utils/eytzinger.rs", C+"hash_tables"],
  ["table baking, tree layout baking, range hasher selection", "preflight validation"],
  ["compiled emitter output queried at run time"])
p("P17", "Macro front end accepts valid input and rejects the rest cleanly",
  "Fed any token stream, the macro front ends either return syntactically valid Rust code or an error; they never panic. Well-formed invocations are accepted and clearly malformed ones (conflicting integer suffixes, strings given to scalar macros, integers given to string macros, out-of-range or badly suffixed literals, empty short forms, unsupported enum shapes) are rejected.",
  ["inputs"], "all token streams given to the collection macros and the enum derive",
  "The input space is all token streams; tests cover a dozen error messages.",
  [C+"macros", C+"macros/parsing", C+"macros/processor.rs"],
  ["syn parsers", "key classification", "error reporting"],
  ["fz_*_macro and derive entry points"])
p("P18", "Scalar indices are order-preserving and unique",
  "For every supported integer and non-zero integer type and every derived enum, the index of a value is unique to the value, follows the order of the values, and values that differ by one have indices that differ by one (for non-zero types the gap at zero is kept). Derived enums number their variants from zero in declaration order.",
  ["inputs"], "all values and pairs of values of each scalar type; all unit enums accepted by the derive",
  "The claim is over all pairs of values of every type, across sign change and type limits; tests check a few constants.",
  [C+"traits/scalar.rs", C+"macros/derive_scalar_macro.rs"],
  ["sign-bit flip and widening", "derive by discriminant cast"],
  ["Scalar::index", "derive(Scalar)"])
p("P19", "Trait views agree with the concrete collections",
  "Accessing any collection, frozen or standard, through the map and set traits, including as trait objects, gives the same lookups, lengths, iteration, key/value pairs and set operations as its concrete type gives. Generic code over the traits therefore behaves identically whichever implementation it is handed.",
  ["inputs"], "all collections implementing the traits (frozen, standard hash and tree, third-party hash) and all operations of the traits",
  "Each trait is implemented separately for a dozen types with forwarding code; only uniform generated traffic over all of them shows a wrong forward.",
  [C+"traits", C+"maps/decl_macros.rs", C+"sets/decl_macros.rs"],
  ["forwarding trait implementations"],
  ["Map", "MapQuery", "MapIteration", "MapExtras", "Set", "SetQuery", "SetIteration", "SetOps", "SetExtras", "Len"])
p("P20", "Every key and value is dropped exactly once",
  "Across construction with duplicates, cloning, consuming iteration abandoned at any point, and dropping, every key and value handed to a frozen collection is dropped exactly once: never twice, and never leaked in panic-free histories. If user code (comparison, hashing or cloning) panics part-way, nothing is dropped twice.",
  ["histories", "fault_sequences"], "all entry lists with duplicates, all abandonment points of consuming iterators, all points at which user code panics",
  "Ownership errors are invisible to value-level assertions and depend on duplicates, partial consumption and panic points that tests never inject.",
  [C+"utils/dedup.rs", C+"hash_tables/hash_table.rs", C+"maps/iterators.rs", C+"utils/eytzinger.rs", C+"fz_maps", C+"fz_sets"],
  ["entry reordering during layout", "deduplication", "consuming iterators"],
  ["Drop counts of instrumented keys and values"])
p("P21", "Misbehaving key types cannot break memory safety",
  "If a key type's equality, ordering, hashing or scalar index is inconsistent, results may be wrong or a panic may occur, but no safe operation on a frozen collection ever reads or writes outside its storage, returns a reference to something that is not one of its entries, or fabricates entries. Lookups with arbitrary query keys never go out of bounds.",
  ["inputs", "fault_sequences"], "all key types with inconsistent trait implementations, all entry lists and queries",
  "Out-of-bounds accesses hide behind unchecked indexing whose safety rests on invariants that well-behaved test keys never challenge.",
  [C+"maps/decl_macros.rs", C+"hash_tables", C+"utils/eytzinger.rs", C+"hashers", C+"utils/bitvec.rs", C+"utils/dedup.rs"],
  ["unchecked indexing guarded by stored min/max, slot ranges and masks"],
  ["references returned by safe operations lie within the entry storage; runtime precondition checks of unchecked operations"])
p("P22", "Size limits are enforced and boundary sizes work",
  "Collections work correctly at and around every internal size boundary, up to tens of thousands of entries. The fixed-capacity and contiguous-range building blocks either hold every distinct entry or report an error, and they report an error exactly when the distinct entries exceed the capacity or are not contiguous.",
  ["inputs"], "all entry counts around 255/256 and 65535/65536 (and the analysis thresholds), all three capacity classes",
  "Boundary counts are exactly where narrow index types overflow; tests stay far below them.",
  [C+"hash_tables/hash_table.rs", C+"maps/hash_map.rs", C+"maps/dense_scalar_lookup_map.rs", C+"maps/sparse_scalar_lookup_map.rs", C+"traits/collection_magnitude.rs"],
  ["narrow index types per capacity class", "capacity checks"],
  ["constructors' results, lookups and lengths at boundary sizes"])
p("P23", "Collections cross threads safely, exactly as their contents allow",
  "Every collection and every iterator over one can be sent to or shared between threads exactly when its contents (and hasher) can. Any number of threads that read one shared collection at once - looking up, iterating, comparing, formatting, serializing, cloning, set algebra - each get exactly the answers the contents call for, from the very first read on, and a collection handed to another thread is unchanged.",
  ["schedules", "inputs"], "all interleavings of readers, all collection types, all contents with any combination of Send and Sync",
  "Whether a type is Send or Sync is decided silently by its fields or an unsafe impl, and a read that caches or lazily prepares anything only misbehaves under particular interleavings; no existing test starts a thread.",
  [C+"fz_maps", C+"fz_sets", C+"maps", C+"sets/iterators.rs", C+"inline_maps", C+"inline_sets", C+"hash_tables", C+"hashers"],
  ["auto traits of the collections' fields", "reads that take &self and keep no state"],
  ["get, contains, iteration, ==, Debug, Serialize, Clone from several threads", "Send and Sync"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    for fn in x["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", fn)), fn
