"""Which harnesses decide which property, in which build configurations."""
def _cfg(cxx, std, san, opt="-O1", extra=()):
    flags = [f"-std=c++{std}", opt, "-g1", "-fno-omit-frame-pointer", "-pthread", "-w"]
    if san == "asan":
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
        if cxx == "clang++": flags.append("-fno-sanitize=function") # poly_span calls through another function type on purpose
    elif san == "tsan":
        flags += ["-fsanitize=thread"]
    return dict(cxx=cxx, flags=flags + list(extra))
CONFIGS = {}
for std in (11, 14, 17, 20):
    CONFIGS[f"casan{std}"] = _cfg("clang++", std, "asan")
    CONFIGS[f"gasan{std}"] = _cfg("g++", std, "asan")
    CONFIGS[f"ctsan{std}"] = _cfg("clang++", std, "tsan")
    CONFIGS[f"gtsan{std}"] = _cfg("g++", std, "tsan")
    CONFIGS[f"c{std}"] = _cfg("clang++", std, "", "-O2")
    CONFIGS[f"g{std}"] = _cfg("g++", std, "", "-O2")

# harnesses made of more than one translation unit: further units, and shared libraries the executable loads
EXTRA = {"cross.cpp": dict(objs=["cross_b.cpp"], shared={"cross_lib": ("cross_lib.cpp", ["-O0"]), "cross_lib2": ("cross_lib.cpp", ["-O2"])})}

CHECKS = {}
def check(id, **kw):
    CHECKS[id] = kw
def parts(src, cfg, n, **kw):
    return [dict(src=src, cfg=cfg, defs=(f"PART={i}",), **kw) for i in range(1, n + 1)]

def huge(what):
    """More than 2^32 elements, without sanitizers."""
    return [dict(src="huge.cpp", cfg="g17", suites="huge." + what)]

check("C01", ignore="policy,lifetime,alloc,memory",
    technique="random operation histories against a std::vector model under ASan/UBSan",
    note="Generated histories only: exploration over the instantiations listed in harness/small_vector.cpp, compared in full after every operation.",
    jobs=parts("small_vector.cpp", "casan17", 4, scale=25) + parts("small_vector.cpp", "g17", 1, scale=25) + huge("sv"),
    rule="a case is a random history of ~30 operations over three small_vectors; non-trivial = ran to its end with every comparison made",
    require={"static to dynamic": 1000, "growth within static": 1000, "dynamic reverted to static": 300, "huge containers": 1, "huge moves": 1})
check("C02", ignore="value,lifetime,alloc,memory",
    technique="storage policy monitor over random operation histories (allocator calls, data pointer, capacity)",
    note="Exploration: every operation of every generated history is judged against the documented policy.",
    jobs=parts("small_vector.cpp", "casan17", 4, scale=25),
    rule="a case is a random history over three small_vectors with a counting allocator; non-trivial = ran to its end",
    require={"static to dynamic": 1000, "growth within static": 1000, "growth within dynamic": 1000, "dynamic reverted to static": 300, "dynamic to larger dynamic": 300})
check("C03", ignore="value,policy",
    technique="per-address life registry of elements, allocator ledger, per-case leak accounting, ASan/UBSan over random histories",
    note="Exploration over tracked element types (copyable, move-only, copy-only, throwing move) and stateful allocators.",
    jobs=parts("small_vector.cpp", "casan17", 4, scale=15) + parts("static_vector.cpp", "casan17", 3, scale=15) + parts("flat.cpp", "casan17", 5, scale=6),
    rule="a case is a random history; after each operation the number of live elements must equal the contents, at its end nothing may be left",
    require={"static to dynamic": 1000})
check("C04", ignore="lifetime,alloc,memory",
    technique="random operation histories against a bounded std::vector model under ASan/UBSan",
    note="Exploration; operations over the capacity must throw std::out_of_range.",
    jobs=parts("static_vector.cpp", "casan17", 3, scale=30) + huge("xv"),
    rule="a case is a random history over three static_vectors; non-trivial = ran to its end",
    require={"over capacity": 1000, "over capacity ctor": 100, "huge containers": 1, "huge moves": 1})
check("C05", ignore="policy,alloc,lifetime,memory",
    technique="random operation histories against a std::vector model under ASan/UBSan, every allocator kind",
    note="Exploration; allocators with realloc, in-place expand, plain, and element alignments below, at and above theirs.",
    jobs=parts("pod_vector.cpp", "casan17", 4, scale=20) + parts("pod_vector.cpp", "g17", 1, scale=20) + huge("pod"),
    rule="a case is a random history over several pod_vectors; non-trivial = ran to its end with every comparison made",
    require={"growth within capacity": 1000, "growth beyond capacity": 1000, "realloc moved": 100, "expanded in place": 100, "large histories": 100, "huge containers": 1, "huge moves": 1})
check("C06", ignore="value",
    technique="allocator ledger, address and validity-flag monitors over random histories with recasts, UBSan alignment, ASan",
    note="Exploration: every operation of every generated history is judged.",
    jobs=parts("pod_vector.cpp", "casan17", 4, scale=20),
    rule="a case is a random history over several pod_vectors of different element types with a monitoring allocator",
    require={"reported moved": 1000, "reported unmoved": 1000, "recast took the buffer": 100, "recast between alignments": 50, "expanded in place": 100})
FLAT = {"lvalues emplaced": 50, "lookup by a key of several elements": 100, "erased several": 50, "inserted": 1000, "insertion of an existing key": 300, "erased": 300, "erase of a missing key": 100, "lookup hit": 1000, "lookup miss": 1000, "lookup by another type": 100, "constructed with duplicates": 50, "large histories": 50}
check("C07", ignore="lifetime,alloc,memory",
    technique="random operation histories against std::map with the same comparator under ASan/UBSan; comparison counting",
    note="Exploration over comparators (coarse, stateful, transparent) and containers (std::vector, small_vector, static_vector, pod_vector).",
    jobs=[j for j in parts("flat.cpp", "casan17", 3, scale=12)],
    rule="a case is a random history over several flat_maps; non-trivial = ran to its end",
    require=dict(FLAT, **{"operator[] of a new key": 100, "operator[] of a present key": 100}))
check("C08", ignore="lifetime,alloc,memory",
    technique="random operation histories against std::set with the same comparator under ASan/UBSan; comparison counting",
    note="Exploration over comparators and containers.",
    jobs=[j for j in parts("flat.cpp", "casan17", 5, scale=15)[3:]],
    rule="a case is a random history over several flat_sets; non-trivial = ran to its end", require=FLAT)
check("C09",
    technique="random operation histories against a vector of booleans under ASan/UBSan; enumerated bit-range copies",
    note="Exploration, except that small (from, to, count) copies are enumerated for every word type.",
    jobs=[dict(src="bitset.cpp", cfg="casan17", scale=4)] + huge("bs"),
    rule="a case is a random history over bitsets of one word type, or a block of enumerated copies; non-trivial = ran to its end",
    require={"copied ranges": 1000, "enumerated copies": 1000, "grown": 500, "shrunk": 500, "all bits set": 50, "large histories": 50, "huge containers": 1})
check("C10",
    technique="life registry of payloads and state model over random transition histories under ASan/UBSan",
    note="Exploration over every specialisation; payload faults injected where the operation may throw.",
    jobs=parts("expected.cpp", "casan17", 2, scale=20) + parts("expected.cpp", "gasan17", 2, scale=4),
    rule="a case is a random history over three expecteds; after each operation state, contents and number of live payloads are compared",
    require={"value = value": 1000, "value = error": 1000, "error = value": 1000, "error = error": 1000, "payload exception": 100, "unexpected(lvalue)": 100})
check("C28", ignore="policy",
    technique="aliased calls compared with std::vector under ASan/UBSan, over positions and fill levels",
    note="Exploration, nearly exhaustive for small sizes.",
    jobs=parts("alias.cpp", "casan17", 2, scale=4),
    rule="a case is one aliased call at given positions, size and capacity",
    require={"aliased calls": 1000, "aliased among many": 100, "aliased with reallocation": 100, "aliased in place": 100})
check("C29", ignore="policy", level="fault_enumeration",
    technique="exhaustive fault points per operation (n-th element operation, n-th allocation), life registry, allocator ledger, ASan",
    note="For every generated operation each failure point is tried in turn; operations declared noexcept are excluded.",
    jobs=parts("faults.cpp", "casan17", 3, scale=4),
    rule="a case is an operation on generated vectors, repeated with the fault at each point in turn",
    require={"faults injected": 1000, "faults with throwing moves": 100, "allocation faults": 100, "strong guarantee checked": 100})
check("C11",
    technique="life registry of values, allocator ledger and type/value model over random histories of anys under ASan/UBSan",
    note="Exploration over value kinds (lvalues, move-only, large, non-copyable, throwing) and allocators.",
    jobs=parts("any.cpp", "casan17", 2, scale=8) + parts("any.cpp", "gasan20", 2, scale=2),
    rule="a case is a random history over several anys; after each operation contents, types, live objects and blocks are compared",
    require={"lvalue stored": 300, "self copy assignment": 100, "own value assigned": 100, "casts to another type": 300, "faults": 100, "large values": 100, "move assignment between allocators": 100})
check("C12",
    technique="life registry of callables and call model over random histories under ASan/UBSan; argument forwarding monitors",
    note="Exploration over callables: free functions, lambdas, functors, move-only, throwing, null function pointers.",
    jobs=[dict(src="ufunction.cpp", cfg="casan17", scale=40), dict(src="ufunction.cpp", cfg="gasan14", scale=10)],
    rule="a case is a random history over several ufunctions; non-trivial = ran to its end",
    require={"called": 1000, "large callables": 20, "callable threw": 100, "null function pointer": 100, "move-only callable stored": 100, "swapped": 100, "forwarding checks": 100})
CONFIGS["gnoelide11"] = _cfg("g++", 11, "asan", extra=("-fno-elide-constructors",))
check("C13",
    technique="event log of cleanups compared with the expected order over random scope exits, under ASan/UBSan",
    note="Exploration over nested scopes left by fall-through, return, break, continue, goto and exceptions; before C++17 also with moves forced.",
    jobs=[dict(src="sentry.cpp", cfg="casan17", scale=8), dict(src="sentry.cpp", cfg="casan11", scale=4), dict(src="sentry.cpp", cfg="gnoelide11", scale=4), dict(src="sentry.cpp", cfg="gasan20", scale=4)],
    rule="a case is a random program of nested scopes with sentries; the log of cleanups must be the expected one",
    require={"cleanup events compared": 1000, "left by an exception": 100, "left by a return": 100, "left by goto": 50, "sentry moved": 50})
check("C14",
    technique="address and bounds oracle over random slicing histories with extreme arguments, under ASan/UBSan (pointer overflow)",
    note="Exploration; every derived view is compared element by element with the range it must denote.",
    jobs=[dict(src="span.cpp", cfg="casan17", scale=40, suites="span."), dict(src="span.cpp", cfg="gasan14", scale=10, suites="span."), dict(src="span.cpp", cfg="casan20", scale=10, suites="span.")] + huge("span"),
    rule="a case is a range and a random sequence of sub-ranges of it",
    require={"extreme arguments": 1000, "offset beyond the end": 300, "written through": 300, "container sources": 300, "memory views": 300, "last beyond the size": 100, "huge views": 1})
check("C15",
    technique="address oracle over random strides, slices and iterator arithmetic under ASan/UBSan",
    note="Exploration over strides (also below the element size), lengths and slices; all iterator arithmetic against indices.",
    jobs=[dict(src="span.cpp", cfg="casan17", scale=40, suites="ss."), dict(src="span.cpp", cfg="gasan14", scale=10, suites="ss."), dict(src="span.cpp", cfg="casan20", scale=10, suites="ss.")] + huge("ss"),
    rule="a case is a strided or polymorphic view and a random sequence of sub-views of it",
    require={"backward iterator arithmetic": 1000, "strided slices": 1000, "polymorphic slices": 1000, "algorithms over strides": 300, "huge views": 1})
check("C26",
    technique="life registry and use-count model over random ownership histories under ASan/UBSan",
    note="Exploration over lvalues, rvalues, aliases, weak pointers and objects shared as bases, derived or members.",
    jobs=[dict(src="ptr.cpp", cfg="casan17", scale=60), dict(src="ptr.cpp", cfg="gasan11", scale=20)],
    rule="a case is a random history of owners; live objects and use counts are compared after each operation",
    require={"created": 1000, "shared from an object": 1000, "aliased": 300, "aliased without an owner": 50, "weak locked": 100, "copied object": 100})

check("C16",
    technique="life registry of frames and values and yield-sequence model over random bodies and consumption histories under ASan/UBSan",
    note="Exploration over yielded types (values, references, move-only), bodies with exceptions at any point, abandonment and moves at any point.",
    jobs=[dict(src="generator.cpp", cfg="casan20", scale=12), dict(src="generator.cpp", cfg="gasan20", scale=3)],
    rule="a case is random coroutine bodies consumed by a random history of next, iterations, moves and abandonment; non-trivial = ran to its end",
    require={"values delivered": 10000, "exceptions delivered": 300, "ends reached": 300, "pulled after the end": 300, "iteration of a finished generator": 100, "abandoned in the middle": 300, "abandoned before it began": 100, "moved": 300, "nested generators": 300, "long runs": 3, "large histories": 50})
check("C17",
    technique="random write/seek/take histories against a model stream under ASan/UBSan, compared with std::ostringstream",
    note="Exploration over containers, bounded ones included; blocks beyond 4 GB are written in a separate run without sanitizers.",
    jobs=[dict(src="stream.cpp", cfg="casan17", scale=5, suites="os."), dict(src="stream.cpp", cfg="gasan20", scale=1, suites="os."), dict(src="stream.cpp", cfg="g17", suites="huge.os")],
    rule="a case is a random history of writes, seeks and exchanges of the container; contents, positions and results compared after each",
    require={"over the bound": 300, "seeks": 1000, "seeks outside": 300, "containers taken": 300, "empty blocks": 100, "large blocks": 100, "formatted": 300, "beyond 4 GB": 1})
check("C18",
    technique="random read/seek histories against std::basic_istringstream over the same bytes under ASan/UBSan",
    note="Exploration; the buffer is an exact heap block, so that any read outside it is seen.",
    jobs=[dict(src="stream.cpp", cfg="casan17", scale=10, suites="is."), dict(src="stream.cpp", cfg="gasan20", scale=2, suites="is."), dict(src="stream.cpp", cfg="g17", suites="huge.is")],
    rule="a case is a random history of reads and seeks on both streams; results, positions and states compared after each",
    require={"input seeks": 1000, "input seeks outside": 300, "end of file": 300, "reads over the end": 300, "empty input": 50, "putback": 300, "lines": 300, "large inputs": 50, "states compared": 10000, "input beyond 4 GB": 1})
check("C19",
    technique="random redirections against an untouched twin stream under ASan/UBSan; faults from the stream buffer",
    note="Exploration over string, memory and file streams, narrow and wide; nested redirections, ends by exceptions.",
    jobs=[dict(src="rstream.cpp", cfg="casan17", scale=12), dict(src="rstream.cpp", cfg="gasan14", scale=3), dict(src="rstream.cpp", cfg="gasan20", scale=3)],
    rule="a case is a random history of reads from a stream and from nested redirections of it; the twin tells what each must give",
    require={"redirections ended": 1000, "nested redirections": 300, "over-reads": 300, "redirected at the end": 100, "left by an exception": 100, "reads which threw": 100, "files": 100, "large texts": 50, "far redirections": 1000, "redirected from beyond 4 GB": 300, "deep redirections": 50, "blocks which can't be read": 300})
for san, cxx in (("casan", "clang++"), ("ctsan", "clang++"), ("gtsan", "g++")):
    for std in (17, 20):
        CONFIGS[f"{san}{std}inj"] = _cfg(cxx, std, san[1:], extra=("-finstrument-functions", "-DVF_INSTRUMENTED"))
def mt(src, suites, a, b, first=17):
    """Concurrent harnesses: ThreadSanitizer with and without injected delays, other compilers and standards, plain speed."""
    return [dict(src=src, cfg="ctsan17inj", scale=a, suites=suites), dict(src=src, cfg="ctsan17", scale=b, suites=suites), dict(src=src, cfg="gtsan20inj", scale=a / 2, suites=suites),
            dict(src=src, cfg="gtsan17", scale=b / 2, suites=suites), dict(src=src, cfg="casan17", scale=b, suites=suites), dict(src=src, cfg="casan20inj", scale=a / 2, suites=suites), dict(src=src, cfg="c17", scale=b * 2, suites=suites)]
check("C20",
    technique="ThreadSanitizer and reader/writer occupancy monitors under stress with injected delays; lock ledger over random histories",
    note="Exploration of schedules; mutexes which throw or refuse are stand-ins which record every call.",
    jobs=mt("mutex.cpp", "dm.", 1, 2),
    rule="a case is a random history of lock objects, or a run of threads over one data_mutex; occupancy and ledger checked throughout",
    require={"acquisitions which threw": 300, "locks moved": 300, "refused": 100, "acquired": 1000, "shared accesses together": 10, "exclusive accesses": 1000, "threads run": 100, "delays injected": 1000})
check("C21",
    technique="ThreadSanitizer, occupancy monitor and real-time log check of try_lock answers under stress with injected delays",
    note="Exploration of schedules; each refusal must overlap the ownership of another thread.",
    jobs=mt("mutex.cpp", "rm.", 1, 2),
    rule="a case is a run of threads over one mutex with random lock, try_lock and unlock, recursion included; the log is checked",
    require={"recursive locks": 1000, "ownerships": 1000, "refusals explained": 100, "phases": 100, "handed over": 100, "threads run": 100, "delays injected": 1000})
check("C22",
    technique="linearizability checking of recorded histories (Wing and Gong), ThreadSanitizer and AddressSanitizer under stress with injected delays; ownership ledger",
    note="Exploration of schedules: short histories are decided completely; long ones by conservation of objects and use counts.",
    jobs=mt("asps.cpp", "as.", 1, 2) + [dict(src="asps.cpp", cfg="ctsan20", scale=1, suites="as."), dict(src="asps.cpp", cfg="gasan14", scale=1, suites="as.")],
    rule="a case is a set of threads with random loads, stores, exchanges and compare-exchanges; distinct = interleavings seen",
    require={"histories checked": 1000, "histories with overlapping calls": 300, "compare-exchanges which failed": 300, "compare-exchanges which succeeded": 300, "pointers put in and taken out": 1000, "objects accounted for": 1000, "delays injected": 1000, "expected objects released by a failed compare-exchange": 10})
check("C23",
    technique="linearizability checking of recorded histories, conservation of updates and ThreadSanitizer under stress with injected delays; values against the plain type under UBSan",
    note="Exploration of schedules and values; overflow of signed counters isn't asked for.",
    jobs=[j for j in mt("atomics.cpp", "at.", 2, 5)] + [dict(src="atomics.cpp", cfg="casan11", scale=2, suites="at.")],
    rule="a case is a history of one counter against a plain value, or threads with random operations; distinct = interleavings seen",
    require={"histories checked": 1000, "histories with overlapping calls": 300, "updates": 10000, "wrapped around": 100, "copied": 1000, "assigned": 1000, "delays injected": 1000})
check("C24",
    technique="civil-calendar and strftime oracles over random times, zones and formats under ASan/UBSan; ThreadSanitizer for concurrent conversions",
    note="Exploration over the whole range of representable years; time zones with and without daylight saving time.",
    jobs=[dict(src="time.cpp", cfg="casan17", scale=6), dict(src="time.cpp", cfg="gasan11", scale=2), dict(src="time.cpp", cfg="ctsan17inj", scale=1), dict(src="time.cpp", cfg="gtsan20", scale=1), dict(src="time.cpp", cfg="casan20", scale=3)],
    rule="a case is a time, or a format with a time, or threads which convert times; each result compared with the oracle",
    require={"broken down as UTC": 1000, "broken down as local time": 1000, "daylight saving time": 100, "before the epoch": 300, "beyond 32 bits": 300, "normalised": 300, "durations added": 300, "durations with fractions of seconds": 100, "times compared": 1000, "texts compared": 1000, "empty texts": 50, "long texts": 50, "around powers of two": 50, "concurrent conversions": 100})
check("C25",
    technique="block ledger of memory resources under random container histories with allocation faults, against plain containers, under ASan/UBSan",
    note="Exploration over standard containers with pmr_allocator; each block goes back to its resource with its size and alignment.",
    jobs=[dict(src="pmr.cpp", cfg="casan17", scale=8), dict(src="pmr.cpp", cfg="gasan20", scale=2), dict(src="pmr.cpp", cfg="gasan17", scale=2)],
    rule="a case is a random history of containers over several resources; contents, resources and ledgers compared",
    require={"container operations compared": 1000, "containers copied": 300, "containers moved": 300, "moved between resources": 100, "allocation faults": 100, "blocks": 1000, "blocks returned": 1000, "requests checked": 300, "overflowing requests": 100, "huge requests": 1000, "objects made": 300, "constructors which threw": 50, "objects which use allocators": 100})
check("C27",
    technique="random inputs against std algorithms, std::string arithmetic and bit copies under ASan/UBSan",
    note="Exploration over sequence and node containers, predicates of several kinds, and characters of several types.",
    jobs=[dict(src="utils.cpp", cfg="casan17", scale=8), dict(src="utils.cpp", cfg="gasan20", scale=3), dict(src="utils.cpp", cfg="casan11", scale=4)],
    rule="a case is one call with a random input; result and remaining input compared with the reference",
    require={"algorithm calls": 1000, "several erased": 300, "erased": 300, "large inputs": 100, "empty inputs": 300, "no matches": 300, "without a predicate": 300, "predicates of other kinds": 300, "string calls": 1000, "prefix found": 300, "suffix found": 300, "several prefixes removed": 100, "several suffixes removed": 100, "empty prefixes": 100, "empty strings": 100, "owners found": 300, "bit casts": 300, "forced moves": 100, "traits checked": 10, "conversions compared bit by bit": 300, "values of other types": 300, "several equal to a value of another type": 100, "predicates which count": 300})
check("C30",
    technique="random histories against std::unordered_map with a key-construction counter under ASan/UBSan",
    note="Exploration over string, view and owned keys (also colliding, empty, with zeros); the header is usable as of C++20 only.",
    jobs=[dict(src="umap.cpp", cfg="casan20", scale=8), dict(src="umap.cpp", cfg="gasan20", scale=3)],
    rule="a case is a random history of a map and its model; each result and the contents compared",
    require={"maps compared": 1000, "large histories": 20, "transparent try_emplace": 1000, "hinted try_emplace": 300, "transparent operator[]": 300, "transparent at": 300, "at of a missing key": 100, "transparent lookups": 1000, "view keys": 1000, "C string keys": 300, "owned keys": 300, "key operations": 300, "erased": 300, "copied": 100, "moved": 100, "views of own keys": 100, "values moved in": 100, "lvalue values": 100, "key forms with state": 100})
check("C31",
    technique="caught type, message and count against std::ostringstream over random streamed sequences under ASan/UBSan",
    note="Exploration over exception types, streamed values and manipulators, lengths and zeros; thrown also inside handlers.",
    jobs=[dict(src="throw_ex.cpp", cfg="casan17", scale=5), dict(src="throw_ex.cpp", cfg="casan11", scale=2), dict(src="throw_ex.cpp", cfg="gasan20", scale=2), dict(src="throw_ex.cpp", cfg="gasan14", scale=2)],
    rule="a case is an exception type and a random sequence of streamed values; type, message and live exceptions compared",
    require={"thrown": 1000, "thrown from a handler": 100, "single expressions": 100, "empty messages": 50, "long messages": 50, "large messages": 20, "messages with zeros": 50})
import os as _os
_own = "-I" + _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "own_assert")
CONFIGS["casan17own"] = _cfg("clang++", 17, "asan", extra=(_own,))
CONFIGS["gasan20own"] = _cfg("g++", 20, "asan", extra=(_own,))
check("C32",
    technique="intercepted assertions and exceptions, contents and life registry around random misuse and boundary histories, per error handling configuration, under ASan/UBSan",
    note="Exploration: each configuration macro is a separate build; calls in contract run with every report being a violation.",
    jobs=[dict(src="misuse.cpp", cfg="casan17own", scale=3, defs=d) for d in (("VF_EH=1",), ("VF_EH=2",), ("VF_EH=3",), ("VF_EH=3", "NDEBUG"), ("VF_EH=0", "VF_NOCHECK=1"), ("VF_EH=1", "VF_NOCHECK=1"), ("VF_EH=0", "NDEBUG"))]
       + [dict(src="misuse.cpp", cfg="gasan20own", scale=1, defs=d) for d in (("VF_EH=1",), ("VF_EH=3",), ("VF_EH=2", "VF_NOCHECK=1"))],
    rule="a case is a container with a random history of calls in contract and of misuse; report, contents and live elements checked",
    require={"out of range reports": 10000, "assertions reported": 10000, "calls in contract": 100000, "bounded containers exceeded": 1000, "missing keys": 1000, "bad casts": 10000, "filled to the capacity": 1000, "empty ranges in contract": 1000, "emptied": 300, "vectors compared after misuse": 10000})

check("C33",
    technique="ThreadSanitizer over concurrent readers, threads with own objects and hand-overs, with injected delays; nested histories within user callbacks against plain code under ASan/UBSan",
    note="Exploration: every component is read by several threads at once, used by several threads on own objects, and used within callbacks of the others.",
    jobs=[dict(src="shared.cpp", cfg="ctsan20inj", scale=1), dict(src="shared.cpp", cfg="ctsan17", scale=3), dict(src="shared.cpp", cfg="gtsan20", scale=2), dict(src="shared.cpp", cfg="casan20", scale=4, suites="sh.nested,sh.own,sh.relay"), dict(src="shared.cpp", cfg="gasan17", scale=2, suites="sh.nested,sh.own,sh.relay")],
    rule="a case is one object with several readers, several threads with histories of their own, or a history whose callbacks run others; every result compared",
    require={"concurrent reads": 10000, "histories in threads": 1000, "the same component in all threads": 100, "objects handed over": 300, "different elements written at once": 100, "histories within callbacks": 10000, "delays injected": 1000})
check("C34",
    technique="random histories over itlib objects nested to several levels against plain trees, with a life registry and an allocator ledger, under ASan/UBSan",
    note="Exploration: 42 compositions (containers, any, expected, functions, locked data, bitsets, maps with nested keys, pointers, generators) each changed at every level; every object is compared with its tree after each step.",
    jobs=parts("compose.cpp", "casan20", 5, scale=5) + parts("compose.cpp", "gasan17", 5, scale=1.5),
    rule="a case is three objects of one composition with a random history of changes at random depths; all contents compared after each step, live elements at the end",
    require={"objects compared": 100000, "three levels or more": 1000, "twenty nodes or more": 300, "nested: copied": 1000, "nested: moved out and back": 1000, "nested: swapped": 1000, "nested: compared": 300, "nested: through a std::vector": 1000, "nested: own element inserted": 300, "nested: rotated": 300, "nested: sorted": 100, "nested: erased by a predicate": 300, "nested: keys looked up": 300, "nested: value and error switched": 300, "nested: any within any": 300, "nested: an any becomes what it has within": 100, "nested: captured values changed by calls": 300, "nested: changed under a lock": 100, "nested: through spans": 300, "nested: yielded": 300})
check("C35", level="fault_enumeration",
    technique="allocation faults at every point of every pod_vector operation; histories with injected failures of allocations, comparisons, elements and bounded buffers against models; allocator ledger and life registry under ASan/UBSan",
    note="Fault enumeration for pod_vector (all kinds of allocators, over-aligned elements, recasts), random histories with faults for bitsets, output buffers and flat containers.",
    jobs=parts("refused.cpp", "casan17", 4, scale=6) + [dict(src="refused.cpp", cfg="gasan17", scale=1, defs=("PART=1",))],
    rule="a case is a pod_vector state with every operation failing at every allocation, or a history of operations some of which fail; contents compared after each",
    require={"pod allocation faults": 10000, "pod unchanged after a fault": 3000, "refused recasts": 300, "bitsets: refused": 3000, "bitsets: allocation faults": 1000, "streams: failed writes": 3000, "streams: allocation faults": 1000, "streams: written over the capacity": 1000, "flat: allocation faults": 1000, "flat: failing comparisons": 3000, "flat: failing elements": 1000, "flat: over the capacity": 500})
check("C36",
    technique="objects made, used and destroyed by random translation units and hidden-visibility shared libraries compared with a twin used by one unit alone, under ASan/UBSan",
    note="Exploration: 16 kinds of objects, 4 units (two of the executable with the headers in opposite orders, two shared libraries which share no symbols), 2 compilers; each header compiled and used on its own, and random sets in random orders, for every standard from its first to C++23.",
    jobs=[dict(src="cross.cpp", cfg="casan20", scale=12), dict(src="cross.cpp", cfg="gasan20", scale=8), dict(src="alone.cpp", cfg="g17", scale=1)],
    rule="a case is a random history over two objects of a kind, every operation by a unit picked at random; what each sees is compared with the same history in one unit",
    require={"headers alone": 200, "orders of headers": 30, "operations across units": 100000, "objects of another unit": 100000, "exceptions from another unit": 5000, "any": 500, "ufunction": 500, "generator": 500, "locks": 500, "pointers": 500, "utilities": 500})
check("C37",
    technique="the same random histories over a plain and over a hostile element type (overloaded operator& and comma, class-specific placement new, namespace functions found by argument-dependent lookup) compared, with every use of the overloads noticed, under ASan/UBSan",
    note="Exploration: all components which hold or refer to the user's objects; the hostile operator& returns another place, so that using it is noticed and goes wrong.",
    jobs=[dict(src="hostile.cpp", cfg="casan20", scale=8), dict(src="hostile.cpp", cfg="gasan20", scale=4), dict(src="hostile.cpp", cfg="gasan17", scale=3)],
    rule="a case is a history over one component run for both types; everything it reports is compared, the uses of the overloads are counted",
    require={"histories compared": 5000, "vector insert own": 300, "map index": 300, "set insert": 300, "expected arrow": 300, "expected both": 300, "any data": 300, "sentry": 300, "owner_from_member": 100, "pfind": 300, "data_mutex": 300, "generator of references": 100, "umap": 100, "stride_span": 100, "poly_span": 100, "bit_cast": 100, "class-specific operator new used and paired": 100})
check("C38",
    technique="the copies, moves, comparisons, constructions, callbacks and allocations of every operation counted by instrumented types, predicates and allocators at sizes up to tens of thousands, and compared with bounds a constant factor above what the standard counterparts need, under ASan/UBSan",
    note="Exploration: sizes up to 60000 elements, 200000 characters or bits; the bounds leave room for a constant factor, so that only copies where there must be none, and another order of growth, are reported.",
    jobs=[dict(src="costs.cpp", cfg="casan20", scale=80), dict(src="costs.cpp", cfg="gasan17", scale=40)],
    rule="a case drives one component at one size; every operation's counts are checked against its bounds",
    require={"operations measured": 10000, "bounds checked": 50000, "over a thousand elements": 50, "over twenty thousand elements": 10, "insertions within the capacity": 300, "insertions which grow": 30, "dynamic vectors moved": 50, "flat operations": 1000, "flat containers of ranges": 20, "throw_ex measured": 50, "present keys": 20, "several hits": 30, "expected measured": 50, "any measured": 50, "ufunction measured": 50, "sentry measured": 50, "data_mutex measured": 50, "pointers measured": 50, "views measured": 50, "generator measured": 50, "reading measured": 50, "streams measured": 50, "bitsets measured": 50, "bits copied": 20, "umap measured": 30})
# How much longer each check explores: about a quarter of a minute of running on eight cores.
for _id, _f in dict(C01=7, C02=7, C03=4, C04=4, C05=12, C06=12, C07=10, C08=15, C09=8, C10=12, C11=4, C12=10, C13=3, C14=12, C15=12, C16=10, C17=2.5, C18=5,
                    C19=4, C20=4, C21=2, C25=2.5, C26=15, C27=4, C28=10, C29=7, C30=2, C31=1.5, C33=2).items():
    for _j in CHECKS[_id]["jobs"]:
        if "scale" in _j:
            _j["scale"] *= _f
