# Per property: the runs (harness, mode, cases in the quick tier, cases in the thorough tier[, only this scenario]), how cases are made, and notes for the manifest.
SEQ = "runtime monitoring: model comparison of random operation sequences under AddressSanitizer and UndefinedBehaviorSanitizer"
BOTH = SEQ + "; recorded histories of concurrent runs under a deterministic scheduler with a race detector, ThreadSanitizer and free-running stress"
CHECKS = {
"C01": dict(
 technique="runtime monitoring: linearizability of recorded histories under a deterministic scheduler, ThreadSanitizer, model comparison under ASan/UBSan",
 note="every history decided exactly against the sequential counter; schedules are sampled (random walk and PCT), not enumerated",
 rule="A case is a random plan of counter operations run sequentially against an exact model, or by 2-4 threads under a seeded schedule whose history is decided for linearizability. Non-trivial: the operations changed the value, or the schedule switched threads inside the run; distinct by operations and schedule hash.",
 runs=[("c01", "asan", 80000, 800000), ("c01", "dsched", 160000, 1600000), ("c01", "tsan", 12000, 120000), ("c01", "stress", 12000, 120000)]),
"C02": dict(technique=SEQ, note="the whole content of the reservoir is compared at random prefixes of each sequence, for a set of capacities and element types; sequences are sampled",
 rule="A case records a random sequence into a reservoir of a random capacity and element type and compares snapshots at random prefixes with the last values recorded. Non-trivial: something was recorded; distinct by sequence.",
 runs=[("c02", "asan", 50000, 1000000), ("c02", "native", 0, 1, "four_billion")]),
"C03": dict(technique=SEQ + "; frequency tests over many reservoirs", note="content is checked exactly after each recording; uniformity of the displaced slot statistically, with a false alarm probability below 1e-9 per run",
 rule="A case records a random sequence into a uniform reservoir of a random capacity and compares its content before and after each recording, or accumulates which held sample was displaced over many recordings. Non-trivial: something was recorded; distinct by sequence.",
 runs=[("c03", "asan", 50000, 500000), ("c03", "native", 10000, 100000)]),
"C04": dict(technique=SEQ, note="clocks are the test clocks of the reservoir or an overridden steady clock, so every boundary can be hit exactly",
 rule="A case is a random sequence of recordings, clock steps and snapshots on a sliding window of random window and capacity. Non-trivial: something was recorded; distinct by sequence.",
 runs=[("c04", "asan", 120000, 1200000), ("c04", "native", 40000, 400000)]),
"C05": dict(technique=BOTH, note="schedules are sampled; under the scheduler, preemption can hit between any two instrumented memory accesses of the reservoirs",
 rule="A case runs 1-3 recording and 1-2 reading threads on one reservoir under one schedule; each snapshot and copy is checked against what had been recorded. Non-trivial: the schedule switched threads inside the run; distinct by inputs and schedule hash.",
 runs=[("c05", "dsched", 45000, 1000000), ("c05", "tsan", 9000, 90000), ("c05", "stress", 9000, 90000), ("c05", "casan", 6000, 60000)]),
"C06": dict(technique=SEQ, note="oracle computed in extended precision or integers from the recorded multiset",
 rule="A case makes a snapshot of a random multiset of one element type and checks all its statistics at random and boundary quantiles. Non-trivial: at least one value; distinct by multiset.",
 runs=[("c06", "asan", 100000, 1000000), ("c06", "native", 30000, 300000)]),
"C07": dict(technique=BOTH, note="schedules are sampled",
 rule="A case records into a histogram with a random reservoir, sequentially or from several threads with concurrent snapshots whose counts are bounded by what had started and completed. Non-trivial: something recorded, or threads switched; distinct by inputs and schedule.",
 runs=[("c07", "asan", 7500, 200000), ("c07", "dsched", 22500, 800000), ("c07", "tsan", 3000, 60000), ("c07", "stress", 3000, 60000), ("c07", "native", 1, 1, "four_billion")]),
"C08": dict(technique=SEQ, note="aggregates compared as multisets with the union of the individual snapshots, in several orders",
 rule="A case fills a random number of permutations of a histogram or timer and aggregates them in several ways. Non-trivial: at least two permutations hold values; distinct by contents.",
 runs=[("c08", "asan", 160000, 1600000), ("c08", "native", 40000, 400000)]),
"C09": dict(technique=SEQ, note="sums of integers and of small floating values exact, means within rounding",
 rule="A case registers a random number of permutations of one kind of metric with random values and compares the aggregate with the sum or mean. Non-trivial: at least two permutations; distinct by values.",
 runs=[("c09", "asan", 120000, 1200000), ("c09", "native", 40000, 400000)]),
"C10": dict(technique=SEQ, note="compared with an extended precision model of the recurrence at every read, relative tolerance 1e-9 (3e-5 for float, 1 for integers)",
 rule="A case is a random sequence of marks, reads, const reads, copies, and clock steps on a moving average of one window and interval. Non-trivial: something was marked; distinct by sequence.",
 runs=[("c10", "asan", 400000, 4000000), ("c10", "native", 150000, 1500000)]),
"C11": dict(technique=BOTH, note="a history is explained by some order of its operations and some clock value inside each; schedules are sampled",
 rule="A case runs 2-3 threads of marks, reads and copies and one that moves the clock under one schedule, and decides the history against the recurrence. Non-trivial: the schedule switched threads inside the run; distinct by inputs and schedule hash.",
 runs=[("c11", "dsched", 80000, 1000000), ("c11", "tsan", 12000, 120000), ("c11", "stress", 12000, 120000)]),
"C12": dict(technique=BOTH, note="window rates compared with an extended precision model, the mean and the totals exactly within rounding; schedules are sampled",
 rule="A case marks a meter of a random declaration sequentially along a random timeline, or from several threads under one schedule, and compares every window and the mean with the model. Non-trivial: something was marked, under the scheduler a switch of threads inside the run; distinct by sequence, or plan and schedule.",
 runs=[("c12", "asan", 40000, 400000), ("c12", "dsched", 60000, 600000), ("c12", "tsan", 10000, 100000), ("c12", "stress", 10000, 100000)]),
"C13": dict(technique=BOTH, note="clocks are overridden, so every expected duration is exact; schedules are sampled",
 rule="A case is a random sequence of updates, scopes, moves, clears, resets and callables on one timer, or several threads doing so, compared with a model of what is to be recorded. Non-trivial: something was recorded; distinct by sequence, or plan and schedule.",
 runs=[("c13", "asan", 30000, 300000), ("c13", "dsched", 60000, 600000), ("c13", "tsan", 10000, 100000), ("c13", "stress", 10000, 100000)]),
"C14": dict(technique=BOTH, note="29 kinds of metric differing in every part of their type; schedules are sampled",
 rule="A case is a random history of registrations and requests over a few paths, tag sets and kinds of metric, sequential or from several threads, compared with a map model. Non-trivial: more than one metric came of it, under the scheduler a switch of threads inside the run; distinct by history, or plan and schedule.",
 runs=[("c14", "asan", 18000, 200000), ("c14", "dsched", 36000, 600000), ("c14", "tsan", 6000, 60000), ("c14", "stress", 9000, 90000)]),
"C15": dict(technique=BOTH, note="every visit is compared with a list of what was registered; schedules are sampled",
 rule="A case registers a random number of metrics and permutations and visits, aggregates and throws out of handlers, sequentially or while other threads register. Non-trivial: more than one metric or permutation; distinct by contents (by schedule when concurrent).",
 runs=[("c15", "asan", 12000, 200000), ("c15", "dsched", 24000, 600000), ("c15", "tsan", 4000, 40000), ("c15", "stress", 6000, 60000)]),
"C16": dict(technique=SEQ, note="every option type is built in every constructor form and carried through copies, moves and replacements, then read back at the registry, the metric and the publisher",
 rule="A case is a random sequence of option settings at registry and metric level over a random set of metrics, compared with a model of precedence after each step. Non-trivial: options were set at both levels; distinct by sequence.",
 runs=[("c16", "asan", 36000, 400000), ("c16", "native", 9000, 90000)]),
"C17": dict(technique=SEQ, note="a strict parser of the exposition format decides every published text; names, tags and values are drawn from hostile bytes",
 rule="A case registers metrics with hostile names, tags and values, publishes them and parses the text under the exposition grammar, comparing unescaped labels with the tags. Non-trivial: at least one sample; distinct by published text.",
 runs=[("c17", "asan", 48000, 480000), ("c17", "native", 12000, 120000)]),
"C18": dict(technique=SEQ, note="the parsed text is compared with the list of samples computed from the metrics' readings and effective options",
 rule="A case registers metrics of many kinds with random values, tags and options, publishes, and compares every sample with the expected list. Non-trivial: several samples; distinct by published text.",
 runs=[("c18", "asan", 18000, 200000), ("c18", "native", 4500, 45000)]),
"C19": dict(technique=SEQ, note="oracle in 128-bit integers and long double; values drawn from boundaries of every type",
 rule="A case converts, compares, hashes and combines two or three values of random types and compares with the exact result. Non-trivial: every case; distinct by operands.",
 runs=[("c19", "asan", 1000000, 10000000), ("c19", "native", 300000, 3000000)]),
"C20": dict(technique=BOTH.replace("model comparison of random operation sequences under AddressSanitizer and UndefinedBehaviorSanitizer; recorded histories of", "sanitizers over mixed workloads in"), note="schedules and mixtures are sampled; races are decided by happens-before over all instrumented accesses, under the scheduler and under ThreadSanitizer",
 rule="A case runs 2-4 threads that register, update, read, copy, assign, visit, aggregate, publish and attach data through one registry (or on one set of metric objects) under one schedule; a quarter is repeated to compare the memory held. Non-trivial: the schedule switched threads inside the run; distinct by plan and schedule hash.",
 runs=[("c20", "dsched", 40000, 2000000), ("c20", "tsan", 5000, 100000), ("c20", "stress", 6000, 200000), ("c20", "casan", 5000, 100000)]),
"C21": dict(technique=BOTH, note="histories are decided for linearizability against a stack; schedules are sampled; freed memory is poisoned and quarantined",
 rule="A case runs a random sequence of pushes, pops and recyclings, sequentially against a model or from 2-4 threads under one schedule whose history is decided. Non-trivial: something was popped, or threads switched; distinct by plan and schedule hash.",
 runs=[("c21", "asan", 50000, 600000), ("c21", "dsched", 150000, 2000000), ("c21", "tsan", 7500, 75000), ("c21", "stress", 15000, 200000), ("c21", "casan", 7500, 75000)]),
"C22": dict(technique=BOTH, note="every kind of gauge and source, read through every interface; schedules are sampled",
 rule="A case sets and reads a set of gauges of random kinds in a random sequence, or from several threads under one schedule, and compares every reading with the source. Non-trivial: a value changed; distinct by sequence, or plan and schedule.",
 runs=[("c22", "asan", 30000, 300000), ("c22", "dsched", 75000, 800000), ("c22", "tsan", 6000, 60000), ("c22", "stress", 12000, 120000)]),
"C23": dict(technique=SEQ, note="each object is compared with one that lived through the same history at the same times without being copied; the sample of a uniform reservoir beyond its capacity is random and only compared at the moment of the copy",
 rule="A case takes 2-4 objects of one of 37 types through random updates, copies, assignments, self assignments, moves and clock steps. Non-trivial: something was copied; distinct by sequence.",
 runs=[("c23", "asan", 60000, 600000), ("c23", "native", 15000, 150000)]),
"C24": dict(technique=BOTH, note="every piece of data carries the arguments it was made from; constructions and destructions are counted; schedules are sampled",
 rule="A case is a random sequence of requests for 8 data types over several registries, metrics and publishers, sequential or from several threads under one schedule, compared with a map model. Non-trivial: data was created; distinct by sequence, or plan and schedule.",
 runs=[("c24", "asan", 24000, 300000), ("c24", "dsched", 90000, 900000), ("c24", "tsan", 6000, 60000), ("c24", "stress", 12000, 120000)]),
"C25": dict(technique=SEQ, note="paths and tag sets are built in every way the interface has, from hostile strings and values",
 rule="A case builds paths or tag sets in several ways from one list of parts and several near misses of it, and compares equality, hashes, joins and iteration. Non-trivial: more than one part; distinct by parts.",
 runs=[("c25", "asan", 240000, 2400000), ("c25", "native", 60000, 600000)]),
"C26": dict(technique=BOTH.replace("model comparison of random operation sequences", "allocation accounting over long random histories").replace("recorded histories of concurrent runs", "the same accounting over concurrent runs"), note="all memory from operator new is counted, to the byte; histories up to several hundred thousand updates",
 rule="A case fills a metric (or a registry), measures, and goes on updating, reading, looking up, visiting and publishing with measurements in between. Non-trivial: always; distinct by kind and history.",
 runs=[("c26", "asan", 4500, 60000), ("c26", "native", 9000, 200000), ("c26", "dsched", 9000, 200000), ("c26", "stress", 4500, 60000)]),
"C27": dict(technique=BOTH, note="objects count their constructions and destructions and carry a mark of life; schedules are sampled",
 rule="A case is a random sequence of handle operations on one or two pools compared with a model of references, or several threads allocating and releasing under one schedule. Non-trivial: something was allocated; distinct by sequence, or plan and schedule.",
 runs=[("c27", "asan", 60000, 600000), ("c27", "dsched", 120000, 1500000), ("c27", "tsan", 6000, 60000), ("c27", "stress", 18000, 180000), ("c27", "casan", 9000, 90000)]),
"C28": dict(technique=BOTH + "; injected failures of allocations, constructors, handlers and streams", note="the n-th allocation of an operation fails for random n; operations declared noexcept (snapshots, texts as tag values, options) aren't starved; schedules are sampled",
 rule="A case is a random history of registrations, data requests, visits and publishing in which many operations are made to fail, the whole registry being compared with a model after each failure; or 2-4 threads on one place whose constructors fail at random. Non-trivial: something failed, or threads switched; distinct by history, or inputs and schedule hash.",
 runs=[("c28", "asan", 8000, 100000), ("c28", "dsched", 30000, 400000), ("c28", "tsan", 4000, 40000), ("c28", "stress", 6000, 60000)]),
"C29": dict(technique=SEQ, note="lengths whose nanoseconds fit 64 bits; durations of integers from nanoseconds to hours and of double seconds",
 rule="A case is twenty random periods, each compared and combined with durations near a multiple of it, or thirty percentiles, or constants made at compile time. Every case is non-trivial.",
 runs=[("c29", "asan", 60000, 3000000), ("c29", "native", 200000, 20000000)]),
}
NOT_APPLICABLE = {}
