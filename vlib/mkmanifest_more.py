CONC = ("TLA+ specifications (LinKey: per-key linearizability with internal effect steps; Backpressure: write stalls and background work), "
        "TLC trace validation of concurrent histories recorded from the real library under a controlled scheduler that preempts at every memory access, and under free and perturbed threads")
CONCN = ("Exact judgement of each recorded history; schedules are sampled (seeded controlled interleavings, one thread at a time, sequentially consistent memory; plus real parallel runs). Not exhaustive over schedules.")
MORE = {
 "P07": (CONC, "model_checking", CONCN),
 "P08": (CONC, "model_checking", CONCN),
 "P26": (CONC, "model_checking", CONCN),
 "P24": ("TLA+ model of the lock algorithm checked exhaustively by TLC (safety and progress), and TLC trace validation (RWLockTrace) of recorded uses of the real lock under a controlled scheduler",
         "model_checking", "The model is exhaustive for 3 threads at the granularity of shared accesses; the real lock is checked on sampled schedules with 2-6 threads and random thread ids and indexes; no weak memory."),
 "P12": ("TLA+ model of the cache protocol (ClockCache, PlusCal, exhaustive), TLA+ specification of the cache as seen by its users (PageCache), TLC trace validation of recorded random uses of the real cache under memory pressure, controlled and free schedules",
         "model_checking", "Model: 2 users, evictor, cleaner, 2 pages, 1-2 entries, one shared access per step. Real code: sampled operation sequences and schedules; the device is a tmpfs file; sequentially consistent memory in controlled runs."),
 "P13": ("TLA+ specification of page holds (PageCache), TLC trace validation of recorded contention on a few pages of the real cache under a controlled scheduler with delayed I/O, evictions and flushes",
         "model_checking", "Sampled schedules with 2-6 threads; exact judgement of every recorded hold, read and write."),
 "P10": ("TLA+ model of the allocator's scan (AllocScan, exhaustive), TLA+ specifications of reference-counted extents under concurrent calls (Alloc, linearization), of extent lists (Mini) and of all space (Space); TLC validation of everything the real library asked of its allocator, recorded through its operation tables",
         "model_checking", "Module runs: 1-4 threads on 3-60 extents, controlled and free schedules. Whole-system runs: every allocator request and page allocation of sampled programs is judged exactly."),
 "P11": ("TLA+ specifications of extent lists with key ranges (Mini) and of all space (Space); TLC validation of every allocator request of the real library through whole lives of databases, ending in their destruction",
         "model_checking", "Sampled histories of extent lists and programs; every request judged exactly, references compared with the structures after every operation, at every close and open and after destruction."),
 "P16": ("TLA+ specification of a log (Log): extents, the page each thread fills, complete pages, what reading back yields; TLC validation of recorded histories of the real log, written by many threads under a controlled scheduler while pages are written back, evicted and lost",
         "model_checking", "Sampled histories, schedules, entry sizes, generations and cache sizes; every entry read back is compared in full and in order."),
 "P14": ("TLA+ specification of filters (Filter): runs covered, keys of each; TLC validation of recorded chains and trees of real filters, asked synchronously and asynchronously while their pages are evicted",
         "model_checking", "Sampled sets of keys (1 to 20000 per run), 1-32 runs, seven hash functions from perfect to constant, nine geometries; each answer judged exactly. One known finding (hash functions that crowd one index page)."),
 "P18": ("TLA+ model of the task queue (TaskQueue, exhaustive with TLC), TLA+ specification of tasks as seen by their users (Tasks), TLC validation of recorded concurrent uses of the real task system under a controlled scheduler and free threads",
         "model_checking", "Model: bounded threads and tasks, one shared access per step. Real code: sampled schedules, 1-4 threads, 0-5 background threads."),
 "P19": ("TLA+ specification of thread ids and scratch space (ThreadIds); TLC validation of recorded registrations, deregistrations and thread lives of the real task system under a controlled scheduler and free threads",
         "model_checking", "Sampled schedules, up to 64 threads alive; every id and scratch judged exactly."),
 "P20": ("TLA+ specification of memory taken from a shared segment (Heap); TLC validation of recorded allocations, growths and frees of the real shared memory allocator under a controlled scheduler and free threads",
         "model_checking", "Sampled sizes and schedules, 1-8 threads; every piece compared with every other live piece, contents included."),
}
