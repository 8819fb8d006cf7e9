"""Per property: the parts of its check and how cases are made (for the evidence files)."""


def build(g):
    core = g["part_core"]
    typed = g["part_typed"]
    bridge = g["part_bridge"]
    P = {}

    def p(id, parts, rule, assume=()):
        P[id] = {"parts": parts, "rule": rule, "assume": list(assume)}

    p("C01", [core],
      "Byte strings (all of length <= 2, all or a sample of length 3, canonical encodings of generated trees, the same "
      "with exactly one fault injected, mutated and hostile strings, UTF-8 boundary strings, neighbouring map keys, "
      "items at the depth limit) are judged by an independent strict parser. Distinct counts distinct inputs (by hash).")
    p("C02", [core],
      "Values with map entries permuted at every depth, keys that contain maps, near-equal keys and planted duplicates, "
      "written into buffers that already hold data; compared with an independent canonical encoder. Distinct counts "
      "distinct values (structure and content).")
    p("C03", [core],
      "Values at every head width boundary, all small integers, random trees to the depth limit and large containers are "
      "written and read back, strictly and not. Distinct counts distinct values.")
    p("C04", [core],
      "Pairs (random, near-equal, lattices of boundary values), triples and sorted vectors of canonically held values; "
      "cmp, partial_cmp and eq are compared with the order of independently computed canonical encodings. Distinct counts "
      "distinct pairs or families.")
    p("C05", [core],
      "Chains of arrays, maps, map keys and tags around each limit, in first, middle and last position, for all limits "
      "0..127 and none, all entry points. Distinct counts distinct inputs and limits.")
    zoo = ("Types: every built-in, compositions of them, hand-written derived types for each attribute, and derived types "
           "generated at random (a fixed family and one from VERIF_SEED), each with a table from which an independent "
           "reference encodes and decodes. ")
    p("C06", [core, typed, bridge],
      "Hostile and mutated inputs for every entry point and several hundred types, with panics, aborts, stack overflows and "
      "CPU-time runaways observed. Distinct counts distinct inputs (per type).")
    p("C09", [typed],
      zoo + "Integers at all width boundaries, all 16-bit integers, all code points and every other kind of item, at top "
      "level and at every scalar position of valid encodings. Distinct counts distinct (type, item).")
    p("C10", [typed],
      zoo + "Valid encodings with containers resized, reordered, retyped, nulled, and encodings of other types. Distinct "
      "counts distinct (type, item).")
    p("C11", [typed],
      zoo + "Random and boundary values of built-in types, encoded in bytes, as values and in the optional form, compared "
      "with the reference, and decoded again. Distinct counts distinct (type, encoding).")
    p("C13", [typed],
      zoo + "Random values, encoded in every way and compared with the reference; types that claim to encode as maps are "
      "checked for it. Distinct counts distinct (type, encoding).")
    p("C14", [typed],
      zoo + "Random values, encoded, decoded and encoded again. Distinct counts distinct (type, encoding).")
    p("C15", [typed],
      zoo + "Valid encodings with entries added, renamed, repeated, swapped and reordered. Distinct counts distinct (type, "
      "item).")
    p("C16", [typed],
      zoo + "Valid encodings with fields dropped, nulled and made undefined, and nothing at all. Distinct counts distinct "
      "(type, item).")
    p("C17", [typed],
      zoo + "Encodings of enums with names, tags, discriminants and contents of other variants mixed in, and encodings of "
      "other types. Distinct counts distinct (type, item).")
    szoo = ("Types: a dynamic value of the whole serde data model with its own expectations, and types generated at random "
            "that derive both codecs. ")
    p("C18", [bridge],
      szoo + "Random values, serialized to bytes and values, compared with a reference, and deserialized again; all code "
      "points and 16-bit integers. Distinct counts distinct encodings (per type).")
    p("C19", [bridge],
      szoo + "Random values through both codecs; malformed, over-deep and trailing bytes through both decoders. Distinct "
      "counts distinct (type, bytes).")
    p("C20", [bridge],
      szoo + "Recording visitors that ask for fitting and unfitting hints, expectations of other shapes, and derived types "
      "fed with changed encodings. Distinct counts distinct (type, item).")
    p("C21", [g["part_ffi"], g["part_asan_ffi"], g["part_callers"]],
      "Inputs of every kind (all of length <= 2, mutated, lenient, truncated, overlong claims, depth 60..68, large) in "
      "read-only memory at the end, start and inside of a block between inaccessible pages, in exact heap blocks under "
      "AddressSanitizer and valgrind, and through the repository's Go caller; verdicts compared with an independent "
      "parser and the native call. Distinct counts distinct inputs (per caller).",
      ["The library is built from difffuzz/src/lib.rs with a manifest kept here, because the repository ignores its lock file",
       "a null pointer is not a pointer that denotes readable memory, so (NULL, 0) is not judged"])
    p("C22", [g["part_asan"], g["part_tsan"], g["part_msan"], g["part_miri"]],
      "Cases made natively (reads of faulted, lenient and hostile bytes, length claims beyond the word size, writes, "
      "comparisons, sizes at width boundaries, macros, generated types native and through serde) are run natively, under "
      "AddressSanitizer, on threads, under ThreadSanitizer with an instrumented standard library (thorough: MemorySanitizer "
      "as well), and by Miri on the host (aliasing, validity, leaks, data races), on i686 and on s390x; "
      "outcomes are compared case by case. Distinct counts cases per platform, and schedules.",
      ["Miri's big-endian and 32-bit targets interpret the same standard library as real ones"])
    p("C07", [core],
      "Hostile length claims, dense and deep inputs under a counting allocator, stack probe and CPU clock. Distinct "
      "counts distinct inputs.", ["CPU time per size is compared between sizes, best of several runs"])
    p("C08", [core],
      "As C01, with lenient encodings (long heads, shuffled and repeated keys, floats, unassigned simple values) and an "
      "independent lenient parser as judge. Distinct counts distinct inputs.")
    p("C12", [core, typed, bridge],
      "Batches of calls repeated in other orders, after other histories and on other threads, and in a second process, "
      "with held orders permuted; outputs compared. Distinct counts distinct inputs.")
    p("C23", [core, typed, bridge],
      "Encodings with exactly one injected fault of known kind at any position and depth; the error reported is compared "
      "with the kind. Distinct counts distinct inputs.")
    p("C24", [core],
      "Random arguments for every macro, random maps and sorted needles for destructuring; results compared with plain "
      "models. Distinct counts distinct arguments.")
    return P
