MODEL = "Assurance: no case of the enumerated bounded space deviates from the reference model, in the release build and in a build with debug assertions and overflow checks. Trusts mc/refmodel, rustc; values outside the stated alphabets are not covered."
T = "explicit-state exhaustive enumeration of the real code against a reference model: "
NOTES = {
    "C01": (T + "all lengths, boundary and limb-pattern byte strings, single-byte variants", MODEL),
    "C02": (T + "every 4-bit window digit at every position, power and boundary scalars", MODEL),
    "C03": (T + "all tags x lengths x coordinate classes, single-byte variants of valid keys", MODEL),
    "C04": (T + "keys x messages, scripted nonce answers (0..R rejected draws), every s boundary", MODEL),
    "C05": (T + "corner products, all small multiples, chosen R incl. x >= n, all bit flips, all recodings", MODEL),
    "C06": (T + "corner products over all ids, small multiples, chosen R incl. x >= n, all recodings", MODEL),
    "C11": (T + "all limb-boundary values around (n-1)/2 and n", MODEL),
    "C07": (T + "points x scalars x digests, every window digit, zero keys", MODEL),
    "C08": (T + "all lengths, all pairs of boundary halves, limb patterns", MODEL),
    "C09": (T + "all DER trees over a byte alphabet, all length forms, all truncations, extensions and single-byte edits of valid encodings", MODEL),
    "C10": (T + "all BER trees over a byte alphabet, long-form lengths, paddings, truncations, extensions, single-byte edits", MODEL),
    "C12": (T + "boundary pairs including sums near 0, n and 2^256; operation sequences", MODEL),
    "C13": (T + "keys x tweaks, all lists up to a length over an alphabet with repetition and cancellation; operation sequences", MODEL),
    "C14": (T + "operand tuples over limb-extreme alphabets, all near-boundary values, breadth-first operation sequences", MODEL),
    "C15": (T + "representations (limbs x magnitudes) of boundary values, breadth-first operation sequences over field registers", MODEL),
    "C16": (T + "all pairs of points x representations, complete small-order curve groups, breadth-first operation sequences over point registers", MODEL),
    "C17": (T + "all small base/scalar cubes, every window digit at every position, cancelling partners, recodings through the hook", MODEL),
    "C18": (T + "all 16384 + 1024 table entries of four context kinds, every operation with every context", MODEL),
    "C19": ("stateless exploration of the real process: fork tree of all call sequences, all preemption points at accesses to process-wide memory (partial-order reduced)", "Assurance: every call sequence up to the depth over the operation alphabet returns what a fresh process returns; every operation's accesses to process-wide writable memory are trapped, operations without any commute with everything, and for the others every single preemption (and two-preemption prefixes) of every explored pair is run. Memory reached only through heap pointers is not a preemption point."),
    "C20": (T + "all sequences of random blocks up to a depth over accepted and rejected blocks", MODEL),
    "C21": (T + "all payload kinds x encodings x deserialiser entry points; single-character edits", MODEL),
    "C22": (T + "all lengths, boundary values, all 256 ids", MODEL),
    "C24": ("explicit enumeration of all 10 feature combinations x build profiles x enumerated inputs, transcripts compared", "Assurance: no enumerated input gives a different transcript in any of the 20 builds. Reference is the default release build, itself checked by the other properties."),
    "C25": ("exhaustive comparison of complete instruction and data address traces of the compiled library (valgrind lackey) over an enumerated set of secret keys", "Assurance: for every enumerated key and operation the executed instruction addresses and accessed data addresses of the release build are, event by event, those of a base key. Keys outside the set, other compilers/targets and data-dependent instruction latencies are not covered."),
    "C26": (T + "all operation sequences up to a depth over all byte strings up to a length over a byte alphabet, all argument extremes", MODEL),
    "C27": ("fault injection over every allocator answer of the real code (every request of every operation fails, once and for good), guarded heap blocks, and enumerated executions under an interpreter that reports undefined behaviour",
            "Assurance: for the enumerated operations and inputs no allocation failure leads anywhere but to the error handler, no access leaves a heap block, nothing is leaked or freed wrongly, and Miri reports no undefined behaviour. If Miri does not run, that part is left out with a note."),
    "C28": (T + "all pairs of values that differ in one bit, limb or coordinate, through all routes and representations", MODEL),
    "C23": (T + "boundary and limb-pattern values; memory of dropped and cleared objects observed", MODEL),
}
NOT_APPLICABLE = {}
