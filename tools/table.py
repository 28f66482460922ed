NOTEST = "No existing test runs any multiplication algorithm's row kernel on a matrix; the test suite samples accumulators with a few keys only."
prop("C01", "Masked product rows are exact for every push algorithm",
     "For every non-complemented push-based algorithm (MSA-1A, MSA-2A, hash, MCA, heap with any inspection depth), computing a result row yields an entry at column c exactly when the mask row stores c and some k has both A(i,k) and B(k,c) stored. The entry's value combines every such product mul(A(i,k),B(k,c)) exactly once with the add operation and contains nothing else, and column ids and values stay aligned.",
     ["inputs"], "all sorted duplicate-free CSR inputs A, B, M (empty rows, disjoint or identical patterns, explicit zeros), any sequence of rows processed by one worker with the same scratch memory",
     NOTEST, KERNEL_FILES, [("accumulator state machine per column", KERNEL_FILES[1]), ("mask-ordered heap merge", KERNEL_FILES[7])],
     KA, "proof", KN)
prop("C02", "Complemented-mask product rows are exact",
     "For every algorithm that supports a complemented mask (MSA-1A, MSA-2A, hash, each sorted or unsorted, and heap), computing a result row yields an entry at column c exactly when the mask row does not store c and some k has both A(i,k) and B(k,c) stored. The entry's value combines every such product exactly once and contains nothing else.",
     ["inputs"], "all sorted duplicate-free CSR inputs, including empty mask rows and mask rows that cover every column; any sequence of rows on the same scratch memory",
     NOTEST, KERNEL_FILES, [("masked-out marking and touched-column list", KERNEL_FILES[0])], KA, "proof", KN)
prop("C03", "Dot-product (pull) rows are exact",
     "The inner-product algorithm, which takes B by columns, yields an entry at column c of row i exactly when the mask row stores c and A's row i and B's column c share an inner index. The entry's value combines every such product exactly once.",
     ["inputs"], "all sorted duplicate-free CSR A, M and CSC B", NOTEST, [SB + "inner/InnerAlgorithm.h"],
     [("two-pointer intersection per mask entry", SB + "inner/InnerAlgorithm.h")], KA, "proof", KN)
prop("C04", "The counting pass predicts the numeric pass exactly",
     "For every algorithm, masked or complemented, the number of entries the symbolic (counting) pass reports for a row equals the number of columns the mask admits for which a product exists, that is, the number of entries the numeric pass writes for that row. The count is always stored.",
     ["inputs"], "all sorted duplicate-free inputs and any sequence of rows on the same scratch memory",
     "The two-phase algorithms allocate the result from the counts and then write without bounds checks; no test compares the two passes.",
     KERNEL_FILES + [SB + "inner/InnerAlgorithm.h"], [("symbolic row functions", KERNEL_FILES[0])], KA, "proof", KN)
prop("C05", "Result rows are sorted and duplicate free where sortedness is promised",
     "Every non-complemented algorithm, and every complemented algorithm in its sorted configuration, emits the column ids of each result row in strictly increasing order.",
     ["inputs"], "all sorted duplicate-free inputs", NOTEST, KERNEL_FILES + [SB + "inner/InnerAlgorithm.h"],
     [("mask-order gathering, sorting of touched columns, heap order", KERNEL_FILES[0])], KA, "proof", KN)
prop("C06", "Row kernels stay inside the rows they are given",
     "While computing or counting a row, an algorithm reads A, B and M only inside the row (column) segments it is entitled to, never writes any of the three inputs, and writes only its own output cursor, its own row's count and its own scratch memory.",
     ["inputs"], "all valid inputs, in particular empty segments, segments at the end of the arrays and rows of every relative length",
     "Out-of-segment reads usually hit the next row's data or the heap, so a sampled test sees nothing.",
     KERNEL_FILES + [SB + "inner/InnerAlgorithm.h"], [("segment bounds taken from row pointers", KERNEL_FILES[7])], KA, "proof", KN)
prop("C07", "The hash table is an exact set and map under every collision pattern",
     "After any sequence of resets, insertions and erasures within the table's capacity, a lookup finds a key exactly when it was inserted and not erased since, insertions and erasures report whether they changed anything, and every key keeps the value stored with it. In particular erasing one key never hides, duplicates or loses another, whatever their collisions and wherever the probe sequence wraps around the end of the table.",
     ["inputs", "histories"], "all tables, keys, hash collisions, cluster shapes and operation sequences within capacity",
     "The existing test inserts a handful of keys that hardly collide; the wrap-around cases of the backward-shift deletion need a cluster across the table's end.",
     [SB + "hash/HashAccumulator.h"], [("linear probing and backward-shift deletion", SB + "hash/HashAccumulator.h")],
     "abstract interpretation of LLVM IR (cyclic order of slots around one arbitrary key), inductive invariant per operation", "proof",
     "Each operation is checked to preserve the reachability invariant of one arbitrary key, for an arbitrary table. Assumes at least one empty slot (decided for the resize function) and that std::vector meets its specification.")
DRV = [SB + "masked-spgemm.h", SB + "masked-spgemm-inner.h", SB + "masked-spgemm-poly.h", SB + "common.h", SB + "scan.h"]
DA = "abstract interpretation of LLVM IR of the drivers (one arbitrary row, linear sizes, thread phases); row algorithms by contract"
DN = ("Explored to a fixpoint for the listed thread counts (bounded: 1 and 2, some 3) and unbounded matrices. Assumes the row algorithms' contracts (C01-C06), "
      "at least one inner index, and that sizes fit the index type. Trusts clang, the OpenMP runtime's contract and the abstraction.")
prop("C08", "Drivers assemble every row into the result exactly once",
     "Whichever driver is used (one-phase, two-phase, pull-based, row-adaptive), the result matrix has the requested dimensions, its row pointers are the running sums of the row sizes, and every row's column ids and values lie exactly once at the place its row pointer names. Rows are computed with the matrices that were passed, with work bounds that hold and buffers that are large enough, for masked and complemented products.",
     ["inputs", "configurations"], "all matrices (including no rows, empty rows, empty results), one and two requested threads, 32- and 64-bit index types",
     "Tests never call a driver on matrices with unbalanced or empty row ranges per thread; misplacement needs particular row sizes at a thread's boundary.",
     DRV, [("row range partition, temporary buffers, prefix sums, final copy", DRV[0])], DA, "proof", DN)
prop("C09", "The product does not depend on the thread schedule",
     "No two threads touch the same location without synchronisation, all threads of a team pass the same barriers, and the product is complete and identical however the rows are divided, also when some threads get no rows or the runtime grants fewer threads than requested.",
     ["schedules", "configurations"], "all interleavings of two (some: three) requested threads, every division of rows, every smaller granted team",
     "A race on a boundary row pointer shows only when a thread has no rows and loses a timing race; tests run one schedule.",
     DRV, [("thread row ranges and barriers", DRV[0]), ("parallel prefix sums", SB + "scan.h")], DA + "; phase-wise access sets compared for races", "bounded", DN)
prop("C10", "Drivers release exactly their temporaries and give rows valid scratch memory",
     "A product leaves no temporary allocated, frees nothing twice and nothing it did not allocate, leaves all inputs unmodified and allocated, and never uses memory after releasing it. Each row is computed with scratch memory of the size and cleanliness its algorithm asked for.",
     ["inputs", "configurations"], "all inputs, every driver, one and two requested threads",
     "Leaks and stale scratch memory do not change a small test's result.", DRV + ["CSR.h"],
     [("per-thread buffers and accumulators", DRV[0])], DA + " with a heap typestate", "proof", DN)
prop("C11", "The result may overwrite one of the operands",
     "Calling a driver with the result matrix being also the first operand, the second operand or the mask gives the same product as with a separate result: every input is read completely before it is overwritten or freed, and the overwritten matrix's old arrays are freed exactly once.",
     ["inputs", "configurations"], "all inputs, every driver, every operand the types allow to coincide with the result, one and (some) two threads",
     "The tests never pass the result as an operand, while the applications do; use after free often still reads the old data.",
     DRV, [("result arrays replaced at the end of the product", DRV[0])], DA + " with a heap typestate", "proof", DN)
