#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=None)))

V1 = "poppy/src/bloom/v1.rs"; V2 = "poppy/src/bloom/v2.rs"; BL = "poppy/src/bloom.rs"
BU = "poppy/src/bloom/utils.rs"; BA = "poppy/src/bitset/array.rs"; BV = "poppy/src/bitset/vec.rs"
HA = "poppy/src/hash.rs"; FN = "poppy/src/hash/fnv.rs"; WY = "poppy/src/hash/wyhash.rs"
UT = "poppy/src/utils.rs"; CLI = "poppy/src/bin/poppy.rs"; PY = "python/src/lib.rs"

prop("C01", "An accepted insertion is always found again (no false negatives)",
     "For both filter formats, once inserting a value has returned Ok, looking that value up in the same filter answers true. "
     "Insertion sets every bit position that a lookup of the same value tests (bucket, bit and, where the filter has one, index-cache position), "
     "on every path that returns Ok; a lookup answers false only because one of those positions is unset or the filter has capacity zero.",
     ["inputs", "configurations", "histories"],
     "every value, every capacity / false positive probability / optimisation level / format accepted by the constructors, every prior history",
     "tests insert a few thousand chosen values into a handful of configurations; agreement of the two address computations must hold for every value and configuration",
     [V1, V2, BL, BA, BV], [("insert_iter / contains_iter", V2), ("insert_bytes / contains_bytes", V1)],
     ["BloomFilter::insert_bytes", "BloomFilter::contains_bytes"])

prop("C02", "Only clearing or intersecting a filter can remove an entry",
     "No operation other than clear, intersection and explicitly unsetting a bit of a bare bitset ever turns a set bit of a filter off or swaps, shrinks or reallocates its bit storage: inserting, "
     "merging (union), looking up, comparing, counting, saving and reading metadata keep every entry present. Lookups and saves do not modify the filter at all.",
     ["histories", "schedules"], "every sequence of operations on a filter, including concurrent shared lookups",
     "tests check presence right after insertion, not after arbitrary later operations",
     [V1, V2, BL, BA, BV], [("bit storage written only through OR", V1), ("bit storage written only through OR", V2)])

prop("C03", "A full filter refuses new entries and a refused insertion changes nothing",
     "When the filter already holds at least as many entries as its capacity (or has no capacity or no bit storage at all), inserting a value that needs a bit not yet set returns the too-many-entries error; "
     "a value whose bits are all set is still accepted, and below capacity an insertion is never refused. An insertion that returns an error leaves every bit, the element count and the metadata exactly as they were.",
     ["inputs", "histories"], "every value, every fill history including filters whose count was re-estimated above capacity by a merge",
     "tests fill one filter by single insertions; counts beyond capacity (after merges or loads) and state after refusal are never examined",
     [V1, V2], [("capacity test before the first bit is changed", V1), ("reached_cap test", V2)], ["BloomFilter::insert_bytes"])

prop("C04", "Insertion result and element count agree",
     "insert returns true exactly when it turned on at least one bit of the filter's buckets, and the estimated element count then grows by exactly one; when it returns false (value already present) or an error the count is unchanged.",
     ["inputs", "histories"], "every value and every prior filter content",
     "tests check the count for a couple of small sets only",
     [V1, V2], [("new flag and count update", V1), ("new flag and count update", V2)])

prop("C05", "A saved filter loads back field for field",
     "For both formats, loading what save wrote yields a filter with the same version, capacity, false positive probability, hash-function count, element count, bit storage (buckets and index cache) and attached data: "
     "the reader consumes exactly the sequence of fields the writer emits, with the same widths and byte order, and puts each into the field it came from.",
     ["inputs", "histories"], "every filter content and configuration that can be saved",
     "tests round-trip two small filters per format and look at few fields",
     [V1, V2, BL, UT], [("write", V1), ("from_reader_with_flags", V1), ("write", V2), ("from_reader_with_flags", V2), ("Flags::to_bytes/from_bytes", BL)])

prop("C06", "The on-disk layout of both formats stays fixed",
     "A saved filter is, in order: an 8-byte flags block (version byte 1 or 2, optimisation level byte - always 0 for version 1 - six zero bytes), then for version 1 the little-endian u64/f64 fields capacity, fpp, hash count, bit size, element count, the bit array as little-endian u64 words and the attached data; "
     "for version 2 capacity, fpp, hash count, element count, index-cache bit length, index-cache bytes, bucket count, 4096-byte buckets and the attached data. This keeps files exchangeable with DCSO bloom and with earlier poppy releases.",
     ["inputs", "configurations"], "every saved filter",
     "one file produced by the Go tool is read in one test; nothing pins what is written nor the poppy format",
     [V1, V2, BL], [("write", V1), ("write", V2), ("Flags::to_bytes", BL)])

prop("C07", "Saving reports success only when everything reached the writer",
     "If any byte of the filter cannot be delivered to the destination (a write or the final flush fails), saving returns an error; it never returns Ok while bytes are still held in a private buffer or were dropped. This holds for the library, the command line tool and the Python binding.",
     ["fault_sequences"], "every failing write position, including the last buffered block",
     "tests only write to in-memory cursors which never fail",
     [V1, V2, BL, PY, CLI], [("buffered writer flushed with its result checked", V1), ("buffered writer flushed with its result checked", V2)])

prop("C08", "Malformed or truncated filter data is refused with an error",
     "Loading a whole filter returns an error, never a filter, when the data ends before every header field and every declared bit-storage byte has been read, when the version byte is not 1 or 2 (or not the one the format-specific loader handles), when the optimisation level byte is not 0..=3, or - for the poppy format - when the false positive probability is outside ]0;1] or not a number.",
     ["inputs"], "every byte string",
     "no test feeds truncated or corrupted data",
     [V1, V2, BL, UT], [("read_exact with the error propagated", UT), ("version match", BL), ("OptLevel::try_from", BL), ("fpp range check", V2)])

prop("C09", "Loading untrusted data never panics or allocates more than it reads",
     "No value found in the header of a file being loaded can make loading panic, divide by zero or allocate memory ahead of the data actually present; sizes declared in the header only decide how much is read. "
     "A filter that loads successfully can be queried and inserted into without dividing by zero on header-derived sizes.",
     ["inputs"], "every byte string", "no test loads hostile headers",
     [V1, V2, BL, BV], [("incremental reads instead of header-sized allocation", V1), ("incremental reads instead of header-sized allocation", V2)])

prop("C10", "Filters are only created for a false positive probability in ]0;1]",
     "Every way to create a filter (both formats, the common type, parameter structs, the CLI and the Python constructors) returns the wrong-fpp error, and no filter, for zero, negative, greater than one, infinite or NaN probabilities, and accepts every normal value in ]0;1]; an unsupported version is refused with the invalid-version error.",
     ["inputs", "configurations"], "every f64 and every version byte",
     "no test passes an invalid probability or version",
     [V1, V2, BL, PY, CLI], [("range check before anything else", V1), ("range check before anything else", V2), ("version match", BL)])

prop("C11", "Filters with different parameters are never combined or compared",
     "Union, intersection and common-entry estimation return the merge error, and change nothing, unless both filters have the same version, flags (optimisation level), capacity, false positive probability, hash-function count and storage sizes (bits, buckets, index cache); they never panic on a mismatch. Filters that agree on all of these are always accepted.",
     ["inputs", "configurations"], "every pair of filters",
     "one test merges one incompatible pair that differs in capacity",
     [V1, V2, BL], [("has_same_params checked first", V1), ("has_same_params checked first", V2), ("has_same_params", BL)])

prop("C12", "Union keeps every entry of both filters",
     "After a successful union the receiving filter's bit storage - every bucket or word and the whole index cache - is the bitwise OR of the two, the other filter is untouched, attached data and parameters of the receiver are unchanged, and the element count has been re-estimated from the merged bits.",
     ["inputs", "histories"], "every pair of compatible filters, at every position of the storage",
     "tests merge small filters without index cache and check a few entries",
     [V1, V2, BA, BV], [("union_merge", V1), ("union_merge", V2), ("union", BA), ("union", BV)])

prop("C13", "Intersection keeps exactly the common bits",
     "After a successful intersection the receiving filter's bit storage - every bucket and the whole index cache - is the bitwise AND of the two, so every entry inserted into both is still found; the other filter is untouched and the element count has been re-estimated from the resulting bits.",
     ["inputs", "histories"], "every pair of compatible filters, at every position of the storage",
     "one test intersects one pair without index cache",
     [V2, BA, BV], [("intersection_merge", V2), ("intersection", BA), ("intersection", BV)])

prop("C14", "Clearing returns a filter to its freshly created state",
     "After clear every bit of the filter's storage, including the index cache, is zero and the element count is zero, while capacity, probability, hash count, flags and attached data are unchanged: the filter behaves and serialises exactly like a new one with the same parameters.",
     ["histories", "configurations"], "every prior history and every optimisation level",
     "one v1 test; v2 filters with an index cache are never cleared in a test",
     [V1, V2, BL, BA, BV], [("clear", V1), ("clear", V2)])

prop("C15", "Bitset operations set, unset, read and count exactly the named bit",
     "For both bitset types and every in-range index: setting a bit turns on that bit and no other, unsetting turns off that bit and no other, both return the bit's previous value, reading returns it; counting ones and zeros covers every byte and sums to the length in bits; union, intersection and common-ones work byte-wise on the whole set; clear zeroes the whole set.",
     ["inputs", "histories"], "every index and every prior content",
     "one test sets and reads bits of the array bitset; unset and counts are untested",
     [BA, BV], [("set_value_nth_bit/get_nth_bit", BA), ("set_value_nth_bit/get_nth_bit", BV)])

prop("C16", "The common filter type behaves exactly like the format it wraps",
     "Every operation of the version-independent filter type forwards to the same operation of the wrapped format with the same arguments and returns its result; creating and loading choose the format named by the version (1: DCSO, 2: poppy; default poppy without optimisation), and the reported version is that of the wrapped format.",
     ["inputs", "configurations"], "every operation, format and argument",
     "tests exercise the common type for one format and a few operations",
     [BL], [("match on the variant in every method", BL)])

prop("C17", "Equal byte content is one entry whatever type carries it",
     "Byte slices, vectors, strings and string slices with the same bytes denote the same entry of a poppy filter: values of at most 8 bytes are used directly as a zero-padded little-endian integer, longer ones are hashed whole with the seeded wyhash; every byte of the value counts and nothing else does.",
     ["inputs"], "every value of every supported carrier type and every length",
     "tests compare a few values per type",
     [HA, WY, V2], [("PoppyHash impls", HA)])

prop("C18", "The poppy index derivation stays fixed",
     "The positions a value occupies in a poppy filter are a fixed function of the value hash h and the stored parameters: bucket = xorshift-star(h) modulo the bucket count, index-cache bit = xorshift-star(h) masked to the cache size, bits = the double-hashing sequence h, h+wyhash(big-endian h), ... modulo 32768, one per configured hash function. "
     "Filters saved by earlier releases therefore keep answering the same.",
     ["inputs", "configurations"], "every value hash, hash count and bucket count",
     "a hash test pins one digest; the index sequence and bucket choice are only tested against another copy of the same code",
     [V2, HA, WY], [("IndexIterator::next", V2), ("xorshift_star", V2), ("bucket choice", V2)])

prop("C19", "DCSO-format addressing follows the reference algorithm",
     "For the DCSO format the positions of a value are: h0 = FNV-1(64 bit) over all bytes of the value modulo M, then for each of the k hash functions h = (h*G mod 2^64) mod M and position h mod m, stored as bit (position mod 64) of 64-bit word (position div 64). "
     "The bit and hash counts of a new filter follow the reference formulas |ceil(n ln p / ln^2 2)| and ceil(ln 2 * m / n).",
     ["inputs", "configurations"], "every value length and content, every k and m",
     "tests pin two FNV digests and one fingerprint",
     [V1, FN, BU], [("Fingerprint", V1), ("Fnv1Hasher::write", FN), ("bit_size, k", BU)])

prop("C20", "Prepared index iterators act exactly like the value they were built from",
     "An index iterator depends only on the value, so it can be used with any number of filters; inserting or checking it is the same as inserting or checking the value, and handing in one that was never initialised or already advanced returns the uninitialised-iterator error before the filter is read or changed.",
     ["inputs", "histories"], "every value, filter and iterator state reachable through the API",
     "one test uses fresh iterators on one filter",
     [V2], [("is_init check first, set_count from the filter", V2)])

prop("C21", "Addresses computed by a filter always lie inside its storage",
     "On filters obtained from the constructors every bucket, word, bit and cache position computed by insertion and lookup is smaller than the corresponding storage size, for every value and every configuration; a filter created with a non-zero capacity is never without storage positions to test unless its bit size is zero, so these operations do not panic.",
     ["inputs", "configurations"], "every value and configuration",
     "tests use configurations where bucket counts are small",
     [V1, V2, BA, BV], [("modulo / power-of-two mask by the length of the same collection", V2), ("modulo bit_size with ceil(bit_size/64) words", V1)])

prop("C22", "Filters are deterministic values without hidden shared state",
     "Membership answers, saved bytes and counts depend only on the filter's parameters and the operations applied to it: the library's code uses no randomness, clock, environment, thread identity, address, global mutable state, interior mutability or unsafe code. Filters can be sent to and shared between threads, and lookups need only shared access.",
     ["schedules", "histories", "configurations"], "every run, thread interleaving and platform state",
     "tests run single threaded in one process",
     [V1, V2, BL, HA, FN, WY, BA, BV], [("no ambient input on any call path", BL), ("auto traits Send + Sync", BL)])

prop("C23", "The CLI replaces a filter file only after everything succeeded",
     "create and insert open the destination for writing only after every input has been read and inserted without error, so a failing run (unreadable input, full filter, invalid parameter) leaves an existing filter file untouched; create refuses to overwrite an existing file that does not load as a filter.",
     ["fault_sequences", "inputs"], "every failing input position and option combination",
     "the CLI has no tests",
     [CLI], [("File::create after parallel_insert", CLI), ("existing output validated first", CLI)])

prop("C24", "Parallel insertion inserts every line of every file exactly as one job would",
     "For every number of jobs and files, each input file is handed to exactly one job, each of its lines is inserted whole, each job starts from the given filter, and the results of all jobs are merged into the saved filter; any job's failure makes the command fail. Lines given on stdin are inserted as well when requested or when no file is named; the capacity limit applies to each job's own filter.",
     ["inputs", "schedules", "configurations"], "every number of jobs, files and lines, every thread schedule",
     "the CLI has no tests",
     [CLI], [("parallel_insert", CLI), ("process_file", CLI)])

prop("C25", "check prints exactly the entries it should",
     "For stdin and for files alike, check prints, one per line, exactly the input lines the filter contains; with --verify it prints instead exactly those it does not contain, marked NOK; with --silent it prints nothing to stdout. Every line of every input is examined and an input that cannot be read makes the command fail.",
     ["inputs", "configurations", "schedules"], "every input line, option combination and job count",
     "the CLI has no tests",
     [CLI], [("check command loops", CLI)])

prop("C26", "Any job count works, zero meaning automatic",
     "For every value of the jobs option, including 0 (documented as automatic) and values larger than the number of files, create, insert and check work: no division by zero and no empty chunk size.",
     ["configurations"], "every jobs value and number of files",
     "the CLI has no tests",
     [CLI], [("optimal_jobs before dividing", CLI)])

prop("C27", "The CLI never swallows an I/O or filter error",
     "Every error met while opening, reading or writing a file, reading a line, or creating, loading, merging, filling or saving a filter ends the command with a failure (non-zero) status; no input line that could not be read is skipped or counted as an entry, and reading an erroneous input never loops forever.",
     ["fault_sequences", "inputs"], "every failing operation",
     "the CLI has no tests",
     [CLI], [("? / expect on every result", CLI)])

prop("C28", "A new filter built from a dataset is sized for that dataset",
     "create with a dataset uses as capacity the total number of lines of all dataset files (each counted exactly once, whatever the number of jobs), otherwise the given capacity, and passes the requested probability, version and optimisation level on unchanged.",
     ["inputs", "configurations"], "every dataset, job count and option",
     "the CLI has no tests",
     [CLI], [("count_lines_parallel", CLI), ("Params construction in create", CLI)])

prop("C29", "The Python binding is a faithful wrapper",
     "Each Python method performs the library operation of the same meaning on the wrapped filter with the given arguments and returns its result; every library error surfaces as a Python exception (never a silent success or a panic); str and bytes arguments denote the same entry; dumps/save and loads/load use the library's own serialisation unaltered.",
     ["inputs"], "every method and argument",
     "the binding has no tests",
     [PY], [("pymethods delegating with map_err", PY)])

prop("C30", "Metadata-only loading reports what a full load would",
     "For both formats, reading only the metadata of a saved filter yields the same version, capacity, probability, hash count, element count, storage size and attached data as a full load, by skipping exactly the bytes the full load would read.",
     ["inputs"], "every saved filter",
     "one test per format for one filter without index cache",
     [V1, V2, BL], [("partial branches of from_reader_with_flags", V1), ("partial branches of from_reader_with_flags", V2)])

prop("C31", "Reported sizes are the real storage sizes",
     "size_in_bytes is the number of bytes of bit storage the filter has or, when only metadata was read, would have: 8 bytes per 64-bit word for version 1; 4096 per bucket plus the index-cache bytes for version 2.",
     ["configurations"], "every configuration, full or metadata-only",
     "no test looks at sizes",
     [V1, V2, BL], [("size_in_bytes", V1), ("size_in_bytes", V2)])

prop("C32", "Reported fullness matches what insertion does",
     "is_full answers true exactly when a value needing a new bit would be refused for lack of capacity, i.e. when the element count is at least the capacity - also after merges that push the estimate above the capacity and after loading.",
     ["histories"], "every history including merges and loads",
     "one test fills one filter by single insertions",
     [V1, V2, BL], [("is_full", V1), ("is_full", V2), ("capacity test in insertion", V2)])

prop("C33", "Poppy filters are sized by the documented formulas",
     "A new poppy filter gets ceil(capacity / bucket capacity) buckets and ceil(ln 2 * bucket bits / bucket capacity) hash functions for the requested probability; speed optimisation rounds the bucket count up to a power of two, speed and best add an index cache of at least capacity bits (a power of two) and derive the hash count from the cache's selectivity; none and space have no cache. Equal parameters always give mergeable filters.",
     ["inputs", "configurations"], "every capacity, probability and optimisation level",
     "tests measure false positive rates for a few configurations only",
     [V2, BU], [("make", V2), ("cap_from_bit_size, k, estimate_p", BU)])

prop("C34", "Common-entry estimation looks at all shared bits and nothing else",
     "The estimate of common entries is computed from the number of bits set in both filters over the whole storage (for version 2 per bucket, summed over all buckets) and the shared parameters, leaves both filters unchanged and does not depend on the order of the two filters; element re-estimation after a merge likewise counts every bit of the merged storage.",
     ["inputs"], "every pair of compatible filters",
     "tests compare a few pairs",
     [V1, V2, BA, BV], [("count_common_entries", V1), ("count_common_entries", V2), ("update_count", V2)])

prop("C35", "Bulk filling inserts every element or reports the failure",
     "fill inserts every element of the given collection, in order, and returns Ok only if each insertion succeeded; the first failing insertion's error is returned.",
     ["inputs"], "every collection", "no test fills beyond a benchmark",
     [BL], [("fill", BL)])

prop("C36", "The benchmark fails when the filter misbehaves",
     "bench returns a failure status when a given filter lacks one of the benchmark entries, or when the average measured false positive rate exceeds the filter's probability by more than the tolerance; it does not modify the filter file. A size limit of 0 means the whole input is used.",
     ["inputs"], "every dataset and filter", "the CLI has no tests",
     [CLI], [("bench command checks", CLI)])

prop("C37", "show reports the stored filter's own figures and changes nothing",
     "show prints the file's name and, each next to its label, the version, capacity, estimated number of elements, false positive probability, length of the attached data and size that loading the file gives. It fails when the file cannot be opened or loading it reports an error. It creates and writes no file.",
     ["inputs"], "every file", "the CLI has no tests",
     [CLI], [("show command", CLI), ("partial load", BL)])

prop("C38", "Sizes are shown in the fitting unit and compared by byte count",
     "A size is shown with one decimal in the largest unit among bytes, kilobytes, megabytes and gigabytes (powers of 1024) that does not exceed it; converting from bits, bytes or megabytes and back keeps the number of bytes, bits being rounded down to whole bytes. Two sizes are ordered, equal and hashed by their byte count whatever unit they are held in. Optimisation levels are shown as none, space, speed and best.",
     ["inputs"], "every number of bytes", "tests convert a few round sizes",
     [UT, BL], [("ByteSize display, comparison and conversion", UT), ("OptLevel display", BL)])

prop("C39", "Inspecting or copying a filter reports exactly what it holds",
     "Capacity, probability, element count, attached data and (version 1) number of hashes, number of bits, the bits themselves, counts of ones and zeros and the estimated probability are those of the filter asked, for a filter of either version reached directly or through the common type. A copy equals the original in every part. Neither changes the filter.",
     ["inputs"], "every filter state", "tests read a few accessors after simple histories",
     [V1, V2, BL, BV], [("accessors and clone", V1), ("accessors and clone", V2), ("accessors of the common type", BL)])

prop("C40", "The creation macro creates and inserts exactly what it is given",
     "The macro creates a filter of the default version with the given capacity and probability and inserts every listed value, none skipped and nothing else. It panics exactly when the creation or one of the insertions fails.",
     ["inputs"], "every capacity, probability and listed value", "a test lists a few words",
     [BL], [("bloom! macro", BL)])

prop("C41", "Integers and other hashable values keep their entry",
     "The position in a version 2 filter of an integer, or of any other value with a standard hash, depends only on the bytes that standard hash writes (the little-endian bytes of an integer, the fields of a structure in order), hashed with the fixed seed. Filters built on earlier versions of the code therefore answer the same for them.",
     ["inputs"], "every value of every integer type, options and structures", "tests only use strings and a few integers within one version of the code",
     [HA, WY, V2], [("default digest of hashable values", HA), ("hasher", WY)])

prop("C42", "Command line options keep their documented names, defaults and meaning",
     "Every documented option of poppy, create, insert, check, bench and show exists under its long and short name, and the value given for it is the value the command uses. Without it the documented default applies (2 jobs; create: version 2, capacity 10000, probability 0.01, optimisation 0; bench: 100 MB, 50 runs, tolerance 0.2, version 2, probability 0.001, optimisation 0), flags are off, and the filter file is required except by bench.",
     ["configurations"], "every combination of options", "the CLI has no tests",
     [CLI], [("option declarations", CLI)])

prop("C43", "A refusal names its cause and the refused value",
     "A file that cannot be loaded is refused with an error of the kind of its cause: an unknown version or optimisation level or a probability outside ]0;1] is reported as such together with the offending value, and a truncated or failing input as a read error, never the one for the other. A failing save reports the writer's own error. A version or optimisation number that does not exist is named in the error of the operation it was given to.",
     ["inputs", "fault_sequences"], "every file content and every point where the input ends or fails", "tests only check that one merge is refused",
     [BL, V1, V2], [("error type", BL), ("loading", V1), ("loading", V2)])

prop("N01", "The real false positive rate stays within the requested probability",
     "For any set of at most capacity distinct entries, the fraction of other values reported as contained is statistically at most the requested probability (poppy format).",
     ["inputs", "configurations"], "every dataset and configuration",
     "tests sample a few datasets",
     [V2, HA, WY], [("hash quality and sizing", V2)])

prop("N02", "The element count estimate is accurate",
     "After merges, the estimated number of elements is close to the true number of distinct entries.",
     ["inputs"], "every dataset", "tests check very small sets",
     [V1, V2], [("update_count", V2)])

prop("N03", "A crash while saving leaves the old or the new filter file",
     "If the process or machine stops at any point while a filter is being saved over an existing file, the file afterwards holds either the complete old or the complete new filter.",
     ["crash_points"], "every crash point", "tests do not crash",
     [CLI, PY], [("none: the file is truncated and rewritten in place", CLI)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
