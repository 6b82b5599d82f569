"""What each check runs and how its evidence is to be read."""

HIST = ("A case is a history: a container arrangement (fill and position in storage) followed by generated operations, "
        "compared with a reference after every one. Cases are distinct by their choice sequence. ")

CHECKS = {
    "C01": {
        "bin": "c01",
        "technique": "model-based random and exhaustive operation histories against a bounded sequence model",
        "rule": HIST + "Non-trivial: some operation ran on a chunk whose items do not start at the beginning of its storage, "
                       "inserted or removed in the middle, or moved items between two non-empty chunks, or the chunk had a capacity no memory could hold.",
        "require": ["capacity no memory could hold", "capacity past 8 bits", "capacity past 16 bits", "on a full container",
                    "contents not at the storage start", "insert/remove in the middle"],
    },
    "C02": {
        "bin": "c02",
        "technique": "model-based random and exhaustive operation histories against a bounded deque model",
        "rule": HIST + "Non-trivial: some operation ran on a buffer whose contents wrap around the end of its storage, "
                       "inserted or removed in the middle, or moved items between two non-empty buffers, or the buffer had a capacity no memory could hold.",
        "require": ["capacity no memory could hold", "capacity past 8 bits", "capacity past 16 bits", "on a full container",
                    "on wrapped contents", "insert/remove in the middle"],
    },
    "C03": {
        "bin": "c03",
        "technique": "model-based random and exhaustive operation histories against an ordered-map model",
        "rule": HIST + "Non-trivial: some operation inserted at, removed from or wrote to an inhabited index, or ran on a full chunk.",
        "require": ["index 64 or more", "on a full chunk", "inhabited index", "capacity above 128"],
    },
    "C04": {
        "bin": "c04",
        "technique": "model-based random and exhaustive operation histories against a bounded vector model",
        "rule": HIST + "Non-trivial: some operation inserted, removed or split before the end of the array.",
        "require": ["insert/remove/split before the end", "on a full array", "conversion that just fits", "zero capacity",
                    "capacity past 8 bits", "capacity past 16 bits"],
    },
    "C05": {
        "bin": "c05",
        "technique": "exhaustive enumeration of element/host type pairs against computed layout rules",
        "rule": "A case is one pairing of element type and host type (every pairing of the two lists), filled to its capacity and "
                "inspected, or one Option-wrapping probe. Non-trivial: the pairing has room for an element, is refused, or has no room "
                "because of its alignment.",
        "require": ["filled to capacity", "element alignment above a word", "refused type pair", "host with forbidden bit patterns"],
    },
    "C06": {
        "bin": "c06",
        "technique": "generated histories with a ledger of live items as the oracle",
        "rule": HIST + "Every item carries an identity in a ledger of live items; after each operation the ledger must equal what the "
                       "containers and the caller own. Non-trivial: as for the container's behaviour check (C01-C04).",
        "require": ["refused", "bulk move between non-empty containers", "copy on write", "pooled clone of a non-empty container"],
    },
    "C07": {
        "bin": "c07",
        "technique": "generated histories with injected panics, validity and ledger oracle",
        "rule": HIST + "At most one operation of a history has a fuse: the n-th call of user code inside it (clone, drop, comparison, hash, "
                       "iterator step, generator) panics. Non-trivial: as for C01-C04, or a fuse went off.",
        "require": ["user panic injected", "operation unwound", "bulk move between non-empty containers"],
    },
    "C08": {
        "bin": "c08",
        "technique": "generated histories with impossible arguments, refusal and unchanged-state oracle, debug and release builds",
        "rule": HIST + "A large share of the arguments is impossible (past the end, over capacity, up to the largest integer, inverted and "
                       "overflowing ranges). Non-trivial: as for C01-C04; for slice ranges: the request is impossible.",
        "require": ["refused", "on a full container", "bulk move between non-empty containers"],
    },
    "C09": {
        "bin": "c09",
        "technique": "exhaustive and random stepping patterns of every iterator against a double-ended queue model",
        "rule": "A case is a container arrangement, one of its iterators and a pattern of steps from either end, ended by dropping, collecting, "
                "counting, folding or taking the last. Non-trivial: at least two items, and the iterator was stepped from both ends "
                "(forward-only iterators: stepped at least once).",
        "require": ["stepped from both ends", "stepped past the end", "left part-way", "wrapped buffer", "index 64 or more"],
    },
    "C10": {
        "bin": "c10",
        "technique": "generated and exhaustive windows of rotated buffers against plain slices",
        "rule": "A case is a ring buffer (fill and rotation), a window and, recursively, windows and splits of it, read or written in every "
                "way the slice types offer, against the same ranges of a plain sequence. Non-trivial: the window lies strictly inside a "
                "buffer, or is a non-empty slice of a slice, or the range is impossible.",
        "require": ["wrapped buffer", "window strictly inside", "nested non-empty slice", "split in the middle", "refused"],
    },
    "C11": {
        "bin": "c11",
        "technique": "exhaustive and random pairs of containers in different arrangements against slice comparison and hashing",
        "rule": "A case is a pair of contents, often near each other, held by two containers arranged differently in storage (and by slices, "
                "vectors and windows), compared, ordered, hashed and printed. Non-trivial: the two contents are both non-empty and arranged "
                "differently, or differ.",
        "require": ["equal and not empty", "same length, different", "one a prefix of the other", "incomparable item",
                    "window inside a larger buffer", "not equal to itself", "same window twice", "overlapping windows"],
    },
    "C12": {
        "bin": "c12",
        "technique": "generated clone, pooled and in-place copies with a model of both copies and a ledger of live items",
        "rule": "A case is a container arrangement, a copy of it (clone, clone_from, pooled clone or default in fresh or used memory, copy of a "
                "window) and changes to either copy, both compared with their references; or a history in which such copies are frequent. "
                "Non-trivial: the original has at least one item and one of the two was changed afterwards, or the copy was made in used memory.",
        "require": ["full original", "cloned into used memory", "default in used memory", "remains of another container",
                    "window strictly inside", "copy on write", "pooled clone of a non-empty container"],
    },
    "C13": {
        "bin": "c13",
        "technique": "generated and exhaustive read and write histories against a bounded byte-queue model",
        "rule": "A case is a history of reads, writes and other operations on one byte container, or one write or read of every length at every "
                "fill and position. Non-trivial: at least two bytes were written and two read (exhaustive: the buffer is not empty).",
        "require": ["write cut short", "write into a full container", "read cut short", "read from an empty container",
                    "more bytes than the capacity passed through"],
    },
    "C14": {
        "bin": "c14",
        "technique": "generated histories of bulk moves, conservation oracle against a model",
        "rule": HIST + "Operations are bulk moves for the most part. Non-trivial: as for C01, C02 and C04.",
        "require": ["bulk move between non-empty containers", "split / take", "conversion that just fits", "refused"],
    },
    "C15": {
        "bin": "c15",
        "technique": "generated and exhaustive sorted contents and probes against sorted vectors",
        "rule": HIST + "Operations are sorted inserts and searches for the most part. Non-trivial: an operation on contents away from the "
                       "storage start or wrapped, a middle insert, or a non-empty slice searched.",
        "require": ["insert into sorted", "search found", "wrapped buffer", "equal items", "descending order"],
    },
    "C16": {
        "bin": "c16",
        "technique": "generated and exhaustive byte strings against plain vectors decoded from the same bytes",
        "rule": "A case is a byte string, a container type with an item generator, and an entry point (arbitrary, arbitrary_take_rest, several "
                "values in a row). Non-trivial: at least two items were generated, or the item generator failed or panicked part-way.",
        "require": ["filled to capacity", "gap in a sparse chunk", "generator failed", "generator panicked"],
    },
    "C17": {
        "bin": "c17",
        "technique": "generated and exhaustive dishonest iterators, validity and ledger oracle",
        "rule": HIST + "Most iterators lie about their length. Non-trivial: as for C01, C02 and C04; in the exhaustive suites every case "
                       "(one iterator, its claims and its contents).",
        "require": ["claims another length", "holds more than the room", "operation unwound"],
    },
    "C20": {
        "bin": "c20",
        "technique": "generated histories with an allocation counter, item addresses and relocation as the oracle",
        "rule": HIST + "Every call is metered for heap allocations; after it every item must lie inside its container, aligned and disjoint, and "
                       "reachable at the same place in every way; containers are moved through other memory, Options and enums. Non-trivial: an "
                       "operation ran on two or more items which have a size.",
        "require": ["moved in memory", "on a full container", "insert/remove in the middle", "bulk move between non-empty containers"],
    },
    "C21": {
        "bin": "c21",
        "technique": "generated histories with the addresses of all items before and after each call as the oracle",
        "rule": HIST + "The addresses of all items are recorded before and after every call. Non-trivial: an operation that must leave items in "
                       "place ran on two or more items.",
        "require": ["on a full container", "insert/remove in the middle", "bulk move between non-empty containers"],
    },
    "C18": {
        "bin": "c18",
        "technique": "generated histories of safe calls executed by an undefined-behaviour interpreter (Miri) and under AddressSanitizer",
        "configs": ["miri", "asan"],
        "scale": {"asan": 10000},
        "rule": "A case is a history of generated calls (also out of contract, with panicking user code and dishonest iterators) on two "
                "containers of one type, all items read after every call. Non-trivial: at least one call was made.",
        "require": ["refused", "argument out of contract", "dishonest iterator", "user panic injected", "8+ operations"],
        "known": [("padded-host", "known-padded-host", "miri")],
        "note": "The verdict is Miri's (every memory access checked; aliasing rules off) or AddressSanitizer's. ",
    },
    "C19": {
        "bin": "c19",
        "technique": "generated programs holding many mutable references at once, executed under Rust's aliasing model (Miri, Tree Borrows) and compared with a model natively",
        "configs": ["dbg", "rel", "miri-tree"],
        "rule": "A case is a container arrangement, one way of obtaining mutable references from it (an iterator, nested windows and splits, "
                "chunks) and a schedule of obtaining, holding, writing and reading them. Non-trivial: at least two references were held at "
                "the same time.",
        "require": ["wrapped buffer", "index 64 or more", "write before the iterator is done", "references outlive the iterator",
                    "write while several references are held"],
        "known": [("halves", "known-halves", "miri-tree")],
        "note": "Miri's verdict (Tree Borrows) and the values read back. ",
    },
    "C22": {
        "bin": "c22",
        "technique": "differential execution of the same generated histories in six builds of the crate",
        "configs": ["dbg", "rel", "rel-nostd", "dbg-nostd", "dbg-bare", "rel-bare"],
        "asan": False,
        "special": "builds",
        "rule": "A case is a history of generated calls (also out of contract, with panicking user code and dishonest iterators) whose every "
                "result goes into a digest; the same case runs in every build which has the container, and the digests must be equal. "
                "Non-trivial: at least one call was made (suites with a model: as in the property they are taken from).",
        "require": ["refused", "argument out of contract", "dishonest iterator", "user panic injected", "8+ operations"],
    },
    "C23": {
        "bin": "c23",
        "technique": "generated calls with metered items and iterators, counts against the documented cost",
        "rule": "A case is one container arrangement, one call and the counts of user code it ran (comparisons, clones, hashes, prints, drops, iterator "
                "steps). Non-trivial: the container holds at least two items.",
        "require": ["search", "endless iterator", "16 items or more", "differing late"],
    },
    "C24": {
        "bin": "c24",
        "technique": "generated programs, the compiler's verdict against an ownership model",
        "configs": [],
        "asan": False,
        "special": "borrow",
        "rule": "A case is a straight-line program that takes views (references, iterators, slices, drains) of a container and of each other, "
                "uses, keeps and drops them, and reads, changes or moves the container in between; or one fact about thread markers, variance, "
                "duplication, destructors or unsafety. Non-trivial: something is accessed of which a view has been taken, or a view is kept "
                "beyond the function; every fact.",
        "require": ["accepted programs", "refused programs", "view of a view", "kept beyond the function", "thread markers", "variance", "destructors", "unsafety", "duplication"],
        "note": "The compiler only decides acceptance; the model decides what is expected. ",
    },
}
