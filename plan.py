"""Which client programs decide which property, what they have to reach, and what is assumed."""

EXPLAIN = (
    "Abstract interpretation of the monomorphised MIR of client programs (public API only) together with the crate's code they reach: "
    "interprocedural by inlining, trace partitioning, a relational domain of linear (in)equalities over source length, position, chunk size and "
    "counter values, loops solved by fixpoints with inferred invariants, segmented arrays, ownership typestate for elements and allocations. "
    "Loads of shared atomics yield any value other threads can have produced (rely), every step of the code is checked against the guarantee. "
    "An obligation is one check of a specification rule at one program point of one abstract path."
)

ASSUMPTIONS = [
    "rustc's MIR construction and the dumper are faithful; documented behaviour of the modelled std primitives (allocation, atomics, memcpy, Vec growth)",
    "wrapped iterators yield at most 2^63 elements; collections hold at most isize::MAX/8 elements and memory suffices for the elements which exist (2^50)",
    "number of pulls during the life of an iterator is less than 2^63 where the code uses a wrapping counter",
    "the composition of the per-operation obligations to the global property is argued in DESIGN.md",
]

KNOWN = ["vec", "array", "slice", "range", "cslice", "pslice"]
ITERS = ["iter", "citer"]
ALLK = KNOWN + ITERS
SINGLE = ["next", "next_id", "values", "ids_values"]
PULLS = SINGLE + ["chunk", "buffered"]
LOOPS = ["for_each", "for_each_ids", "fold"]
QUERIES = ["query", "more"]
EVERY = PULLS + LOOPS + QUERIES + ["skip"]
# exclusive use
REFS = ["vref", "aref"]
ZERO = ["zero_chunk", "zero_buffered", "zero_for_each", "zero_for_each_ids", "zero_fold"]
CLONES = ["clone_slice.clone", "clone_vref.clone", "clone_range.clone"]
RAWS = ["raw_%s.raw" % k for k in ALLK]
PAIRS = ["pair_vec.pair", "pair_array.pair", "pair_slice.pair", "pair_range.pair"]


def progs(kinds, ops, modes=("debug", "release"), panics=False, limit=240):
    return [(m, "%s.%s" % (k, o), panics, limit) for m in modes for k in kinds for o in ops]


def named(names, modes=("debug", "release"), panics=False, limit=240):
    return [(m, n, panics, limit) for m in modes for n in names]


def matches(name, pat):
    return name.replace("probes::", "").replace("::probe_", ".").split("::")[-1] == pat


# elements without destructor, elements the crate sees as zero sized
PODS = ["pvec", "parray"]
ZSTS = ["zvec", "zarray"]
# nth, count and internal iteration of chunks
MORE = ["nth", "count", "inner_fold"]
CTORS = ["%s.new" % c for c in ("new_vec", "from_vec", "new_array", "from_array", "new_slice", "from_slice", "new_range", "from_range",
                                "new_iter", "from_iter", "con_vec", "con_array", "empty_array", "one_array")]


def jobs(prop, tier):
    """(build mode, program, with panics of the environment, time limit) and whether compiler verdicts are used"""
    if prop == "C01":
        return progs(ALLK, EVERY) + progs(ZSTS + PODS, PULLS) + named(CTORS), False
    if prop in ("C04", "C05"):
        return progs(ALLK, EVERY) + named(CTORS), False
    if prop == "C02":
        return progs(ALLK, PULLS + LOOPS) + progs(ALLK, ["nth"]) + named(CTORS), False
    if prop == "C03":
        return progs(ALLK, ["chunk", "buffered", "for_each"] + MORE) + progs(ZSTS + PODS + ["zslice"], ["chunk", "buffered"]), False
    if prop == "C06":
        return progs(ALLK, EVERY) + progs(ZSTS + PODS + ["piter", "zslice"], ["skip"]), False
    if prop == "C11":
        return progs(ALLK, EVERY) + progs(ZSTS + PODS + ["piter", "zslice"], QUERIES) + named(CTORS), False
    if prop == "C12":
        return progs(ALLK + ZSTS + PODS + ["zslice"], LOOPS), False
    if prop == "C13":
        return progs(["cslice", "pslice", "citer"], EVERY + MORE + ["seq", "drop"]) + progs(["piter"], SINGLE + ["chunk", "buffered"] + QUERIES + ["skip", "seq", "drop"]), False
    if prop in ("C07", "C09"):
        return progs(ITERS, EVERY) + progs(KNOWN, EVERY), False
    if prop in ("C16", "C17"):
        return progs(ALLK, EVERY) + progs(ALLK + REFS, ["seq", "drop"] + ZERO) + progs(ZSTS, ["chunk", "buffered", "skip", "seq", "drop"]) + named(CTORS), False
    if prop == "C08":
        return progs(["vec", "array", "iter"], EVERY + MORE + ["seq", "drop"]) + progs(["slice", "cslice", "citer"] + REFS, ["seq", "drop"]) + \
            progs(ZSTS + ["ziter"], ["next", "chunk", "skip", "seq", "drop"]) + progs(ZSTS, ["buffered"]) + progs(PODS, ["chunk", "seq", "drop"]), False
    if prop == "C10":
        return progs(ALLK + REFS + ZSTS + PODS + ["piter", "ziter"], ["seq"]), False
    if prop == "C15":
        return progs(["vec", "array", "iter"], EVERY + MORE + ["seq", "drop"]) + progs(["citer"], PULLS + LOOPS + ["seq", "drop"]) + \
            progs(ZSTS + PODS, ["chunk", "buffered", "skip", "seq", "drop"]), False
    if prop == "C14":
        return named(RAWS) + progs(["vec", "array", "iter"], EVERY + ["seq"]), True
    if prop == "C18":
        return progs(["vec", "array", "cslice", "iter", "citer"], PULLS + LOOPS, panics=True) + \
            progs(["vec", "array", "iter", "cslice", "citer"], ["skip", "seq", "drop"], panics=True) + progs(ZSTS, LOOPS, panics=True), False
    if prop == "C19":
        return named(CLONES + PAIRS + [c for c in CTORS if c.startswith(("con_", "new_slice", "from_slice"))]) + \
            progs(["slice", "cslice", "pslice", "range"], EVERY) + progs(["slice"], MORE) + progs(["slice", "cslice", "pslice", "range"] + REFS, ["seq", "drop"]), False
    raise SystemExit("no check for " + prop)


def cost(job):
    p = job[1]
    return -(("iter::" in p) * 10 + (("for_each" in p) + ("fold" in p)) * 5 + ("chunk" in p) * 2 + ("buffered" in p) * 8)


EXPECT = {
    "next": ["got", "pull_none"], "next_id": ["got_at", "pull_none"], "values": ["got", "pull_none"], "ids_values": ["got_at", "pull_none"],
    "chunk": ["chunk", "chunk_item", "chunk_exhausted", "pull_none"], "buffered": ["chunk", "chunk_item", "chunk_exhausted", "pull_none"],
    "for_each": ["visit", "loop_returned"], "for_each_ids": ["visit_at", "loop_returned"], "fold": ["fold_op", "loop_returned"],
    "query": ["try_len"], "more": ["has_more"], "skip": ["skip"],
    "seq": ["unshare", "seq_converted", "seq_item", "seq_end", "all_dropped"], "drop": ["unshare", "all_dropped"],
    "zero_chunk": ["pull_none"], "zero_buffered": ["promised_panic"], "zero_for_each": ["promised_panic"],
    "zero_for_each_ids": ["promised_panic"], "zero_fold": ["promised_panic"],
    "nth": ["chunk_nth", "chunk_nth_none"], "count": ["chunk_count"], "inner_fold": ["chunk_item"], "new": ["pull_none", "try_len", "skip"],
    "clone": ["clone_end", "got_at", "try_len", "skip"], "raw": ["raw_begin", "raw_end"], "pair": ["pair_end", "got_at", "try_len", "skip"],
}


def vacuous(prop, r):
    """what the analysis of a client program must have reached, in order to count"""
    k, o = r["probe"].split("::")[-1].split(".")
    for e in EXPECT.get(o, []):
        if not r["events"].get(e):
            yield "no analysed path of the client program reaches the event '%s'" % e
    if r["panics"] and o in PULLS + LOOPS and k in ("iter", "citer") and not r["unwound"]:
        yield "no analysed path of the client program unwinds"
    if not r["finished"] and not o.startswith("zero_"):
        yield "no analysed path of the client program reaches its end"


RULES = {
    "C01": "Rule: what a pull delivers and what it drops is exactly the interval its single effective reservation took from the position counter, clamped to the source.",
    "C02": "Rule: a reported index equals the source position of the element delivered with it.",
    "C03": "Rule: a chunk is not empty, not longer than requested, announces the number of elements it yields and is short only at the end of the source.",
    "C04": "Rule: one linearisation point per pull; it lies between call and return, positions increase, elements are delivered in ascending order.",
    "C05": "Rule: 'none' only after the end was observed; effective position and completion never go back; the wrapped iterator is not advanced after its end.",
    "C06": "Rule: after skip_to_end the position is at the end (or the iteration is completed) on all paths; skipped elements are owned by exactly one party.",
    "C07": "Rule: the wrapped iterator is only touched between an acquire read which grants the turn and the release store which passes it on; shared memory is otherwise only accessed atomically or read.",
    "C09": "Rule: every loop on shared state waits for a turn, every turn is passed on or the iteration is completed, every other loop makes progress.",
    "C11": "Rule: the reported length equals the clamped distance of the position to the end, as an exact linear identity.",
    "C12": "Rule: every element of every reservation is passed to the function exactly once, the call returns only after the end was observed.",
    "C13": "Rule: adaptors fulfil the obligations of the underlying iterator with clones or copies of the source elements, which are never written.",
    "C14": "Rule: the compiler rejects every program of a family which would break thread-safety or lifetimes, for the expected class of error, and accepts its valid twin; "
           "for any position the safe low-level methods leave behind, no element gets a second owner.",
    "C17": "Rule: overflow checks, debug assertions and documented preconditions of std cannot fail, and the debug and the release build satisfy the same functional obligations.",
    "C08": "Rule: ownership typestate: every element is in exactly one of the states reserved by others, in flight, delivered, dropped; a drop or a delivery consumes the ownership; at the end nothing is left.",
    "C10": "Rule: from every state a history can leave, the iterator returned by into_seq_iter delivers exactly the positions from the clamped position (or the position of the wrapped iterator) to the end.",
    "C15": "Rule: every heap allocation reachable at construction or made by the crate is released exactly once, with its capacity, on all paths; no undelivered element is overwritten or forgotten.",
    "C18": "Rule: the obligations hold on the paths on which the wrapped iterator, a clone or a user closure unwinds: the turn is passed on or the iteration completed, in-flight elements and allocations are released while unwinding.",
    "C19": "Rule: no write to the source, delivered references point into it at the due position, a clone has its own position cell which starts at the observed position, and never touches the position of another iterator.",
    "C16": "Rule: no arithmetic of the crate can wrap or overflow for any range, chunk size or position, no panic is reachable, a chunk pull of size zero has no effect.",
}

CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]
TECHNIQUE = {
    "C14": "compile-fail witnesses with valid twins (type and borrow checker of rustc), and abstract interpretation of MIR for safe low-level call sequences",
}
NOT_APPLICABLE = {
}
