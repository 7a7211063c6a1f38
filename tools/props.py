# The single source of /verif/properties.jsonl (run tools/gen_meta.py to regenerate it and MANIFEST.json).
H = "cxxmetrics/"
P = "cxxmetrics_prometheus/"
PROPS = [
dict(id="C01", title="Counters are atomic and exact",
 statement="Every counter operation (increment, decrement, add, subtract, assign, read, snapshot, for every supported integer type) takes effect exactly once and atomically: under any interleaving of any number of threads the returned values are those of some sequential order of the operations that respects real time. No update is ever lost, applied twice or partially visible, and once all threads have finished the value and the snapshot equal the arithmetic result of all operations. Copying a counter copies its count; moving one hands the count over and leaves zero.",
 over=["schedules","histories"], q="all interleavings of concurrent counter operations, all operation sequences and integer widths",
 why="counter_test runs one thread and five calls; atomicity is a statement over schedules.",
 files=[H+"counter.hpp"], mech="std::atomic read-modify-write operations on one value; every operator delegates to one atomic add"),
dict(id="C02", title="A simple reservoir keeps exactly the most recent values",
 statement="After any sequence of recorded values, a snapshot of a simple reservoir of capacity N holds exactly the last min(N, number recorded) values, each as often as it was recorded and with its value unchanged. This holds for every capacity of two or more, every supported element type, and at every point of the sequence, including long after the buffer has wrapped.",
 over=["inputs","histories"], q="all value sequences, capacities and element types, at every prefix",
 why="Tests record eight doubles into one reservoir of five and look at min, max and mean once.",
 files=[H+"simple_reservoir.hpp",H+"ringbuf.hpp"], mech="ring buffer with monotonically increasing tail and per-slot validity"),
dict(id="C03", title="A uniform reservoir is a sound and unbiased sample",
 statement="A uniform reservoir of capacity N holds exactly the recorded values until N have been recorded; from then on every snapshot holds exactly N recorded values, no recording appears twice, and each new recording enters by displacing exactly one previously held one. Every one of the N held samples is equally likely to be the one displaced, and no update writes outside the reservoir's own storage.",
 over=["inputs","histories"], q="all value sequences and capacities; all random draws of the reservoir's generator",
 why="Tests check averages with a tolerance of 20 on one capacity; a slot that is never or doubly displaced, or an out-of-range index, is invisible to them.",
 files=[H+"uniform_reservoir.hpp"], mech="fill-then-replace sampling with a uniform slot index"),
dict(id="C04", title="A sliding window reservoir reports exactly the values in its window",
 statement="A snapshot of a sliding window reservoir at time T with window W and capacity N holds exactly those of the last N recorded values whose recording time, read from the reservoir's clock, is not earlier than T - W. Taking a snapshot never changes what later snapshots report.",
 over=["inputs","histories"], q="all sequences of updates, clock advances and snapshots; all windows and capacities, including full and wrapped buffers",
 why="One scripted timeline is tested.",
 files=[H+"sliding_window.hpp",H+"ringbuf.hpp"], mech="timestamped ring buffer filtered by clock at snapshot time"),
dict(id="C05", title="Reservoirs stay consistent under concurrent recording",
 statement="When any number of threads record into a reservoir (simple, uniform or sliding window) while others take snapshots or copies, every snapshot contains only values that were really recorded (never torn, uninitialised or invented), contains no recording twice, never exceeds the capacity, and a value whose recording completed can only be missing if it was displaced by others or fell out of the window. When all recordings have finished the reservoir holds min(capacity, number recorded) values.",
 over=["schedules"], q="all interleavings of recording and snapshotting threads",
 why="One test runs one writer against a reader that checks only the sample size; the failing schedules need a stalled writer.",
 files=[H+"ringbuf.hpp",H+"uniform_reservoir.hpp",H+"sliding_window.hpp",H+"simple_reservoir.hpp"], mech="slot claim by fetch_add followed by slot publication; reader skips unpublished slots; lock in the uniform reservoir"),
dict(id="C06", title="Snapshot statistics are those of the sampled values",
 statement="For every multiset of recorded numbers or durations (any width, sign or magnitude, and durations of any unit), a snapshot's size, minimum, maximum and mean are those of the multiset, and its value at quantile q is the linear interpolation between the two closest ranks at position q(n+1), clamped to the minimum and maximum. Quantiles are non-decreasing in q, and sampling visits the requested number of points (fewer only when the snapshot has too few values to put each between two of them) with increasing quantiles, each paired with the value at that quantile; an empty snapshot reports zero for quantiles and mean.",
 over=["inputs"], q="all value multisets, element types, quantiles and sample counts",
 why="Tests use a handful of small positive values of one type; large differences, mixed signs, extremes and non-nanosecond units never occur.",
 files=[H+"snapshots.hpp",H+"metric_value.hpp"], mech="sorted vector of variant values with interpolation"),
dict(id="C07", title="A histogram counts every recording",
 statement="A histogram's count equals the number of values ever recorded, however many are retained in the sample and however many threads record, and its snapshot combines that count with the sample of its reservoir. A snapshot taken while other threads record reports a count between the number of recordings completed before and started before its end, and never a count smaller than its sample.",
 over=["schedules","histories"], q="all interleavings and lengths of recording; all reservoir types",
 why="One single-threaded sequence of eight values is tested.",
 files=[H+"histogram.hpp",H+"counter.hpp"], mech="count incremented before the reservoir is updated; snapshot reads the reservoir before the count"),
dict(id="C08", title="Aggregating histograms and timers loses and invents nothing",
 statement="Aggregating the tagged permutations of a histogram or timer yields a snapshot whose sample is exactly the multiset union of the individual samples and whose count is the sum of their counts. The result does not depend on the order in which permutations are combined, and empty permutations contribute nothing.",
 over=["inputs","histories"], q="all numbers of permutations and all sample contents, including duplicates, disjoint ranges and empty samples",
 why="The aggregation test checks only that the aggregate median differs from the individual ones.",
 files=[H+"snapshots.hpp",H+"metrics_registry.hpp"], mech="merging of sorted samples across tag permutations"),
dict(id="C09", title="Aggregated counters, gauges, averages and meters are exact",
 statement="Aggregating tagged permutations yields the sum for counters and sum-aggregated gauges of every kind (value, reference, pointer, function), and the unweighted arithmetic mean over permutations for average-aggregated gauges, moving averages, meter means and each meter window. The result does not depend on how many permutations there are or on the order in which they are combined.",
 over=["inputs","histories"], q="all permutation counts, values and gauge kinds",
 why="Tests aggregate two counters and three averages with tolerance; reference, pointer and function gauges are never aggregated.",
 files=[H+"snapshots.hpp",H+"gauge.hpp",H+"metrics_registry.hpp"], mech="cumulative and running-average merge of value snapshots"),
dict(id="C10", title="Moving averages follow the exponentially weighted recurrence",
 statement="For every sequence of marks, reads and clock movements a moving average reports the exponentially weighted average of per-interval totals: the first fold after a completed interval initialises it with the total marked so far, each later fold moves it by alpha = 1 - exp(-interval/(2*window)) towards the total marked since the previous fold, and every further interval elapsed since that fold decays it by the same factor as an empty interval, however long the idle time. Marks made while the clock runs backwards are ignored, and reading through a const object or taking a const snapshot never changes any later result.",
 over=["inputs","histories"], q="all mark/read/advance sequences, windows and intervals, arbitrarily long idle gaps",
 why="Tests check rounded values on three timelines; long gaps, const reads and fractional intervals are not compared to any model.",
 files=[H+"ewma.hpp"], mech="pending total folded into a rate at interval boundaries"),
dict(id="C11", title="Moving averages count every concurrent mark exactly once",
 statement="When threads mark and read a moving average concurrently while time advances, every mark made under a non-decreasing clock contributes exactly once to the average: the reported rates are those of some sequential order of the marks and reads consistent with real time. No mark is lost, counted twice or decayed twice because a read or another mark happened at the same moment.",
 over=["schedules"], q="all interleavings of marks, reads and clock advances",
 why="The threaded test only requires a rate above a very low bound.",
 files=[H+"ewma.hpp"], mech="fold of the pending total must be atomic with respect to marks and other folds"),
dict(id="C12", title="Meters track every window and the lifetime mean",
 statement="A meter reports, for each distinct window it was declared with (whatever the order or repetition in the declaration), the moving average of everything marked over that window, and a lifetime mean equal to the total marked divided by the number of intervals since the first mark. Every mark reaches every window and the total exactly once, also when threads mark concurrently; snapshots carry exactly the declared windows.",
 over=["schedules","histories","configurations"], q="all mark sequences, window declarations and interleavings",
 why="Tests check one list of windows with rounded rates and a single thread.",
 files=[H+"meter.hpp",H+"meta.hpp",H+"ewma.hpp"], mech="one average per sorted unique window plus an atomic total and start time"),
dict(id="C13", title="Timers record each timed operation exactly once and correctly",
 statement="Each non-zero duration given to a timer, and each scope or callable timed with it, is recorded exactly once as the elapsed time of the timer's own clock, in both the duration statistics and the rate; the total count, sample and rate agree. A scope timer that was cleared or moved from records nothing, a reset one measures from the reset, a moved-to one measures from the original start; a timed callable's result or exception reaches the caller, and one that throws is recorded only when that was requested.",
 over=["inputs","histories","schedules"], q="all sequences of updates, scopes, moves, clears, resets, nested and throwing callables, with arbitrary clocks and clock units",
 why="Tests use real sleeps, one clock and never time a callable.",
 files=[H+"timer.hpp",H+"histogram.hpp",H+"meter.hpp",H+"metric.hpp"], mech="RAII scope object feeding a histogram and a meter"),
dict(id="C14", title="A path and tag set always name one and the same metric",
 statement="Requests for the same path and the same set of tags return the same metric object for as long as the registry lives, whatever the order in which the tags are written, the thread that asks or how many others register at the same time; different paths or tag sets never share an object unless it was registered explicitly under both. The first registration at a path fixes its type, a request for any other metric type at that path (any value type, window set, interval, reservoir, clock, gauge source or gauge aggregation; the order the windows are written in makes no other type) throws a type mismatch naming both types and leaves the registry unchanged, and registering an existing metric reports whether it was added. In a registry over a repository that adds tags, the same holds of the tags it makes of those given.",
 over=["inputs","histories","schedules"], q="all registration histories, tag orders and value types, and all interleavings of registering threads",
 why="Tests register at most two tags in one order from one thread and try three mismatches.",
 files=[H+"metrics_registry.hpp",H+"tag_collection.hpp",H+"metric_path.hpp",H+"metric.hpp"], mech="hash maps keyed by path and tag set under a lock; type-name comparison"),
dict(id="C15", title="Visiting reports every registered metric exactly once",
 statement="Visiting a registry calls the handler exactly once for every registered path, and visiting a metric calls its handler exactly once per tag permutation with exactly that permutation's tags and a snapshot of its current value, for any number of paths and permutations (using bounded stack). A handler that takes only some kinds of snapshots is called for exactly those it accepts, and a timer it doesn't accept is offered as a histogram and as a meter. A handler that throws leaves the registry usable, visits concurrent with registration see every metric registered before the visit began, and aggregation calls its handler exactly once.",
 over=["inputs","histories","schedules"], q="all registry contents from empty to very large, all metric types, throwing handlers, concurrent registration",
 why="Tests visit nine metrics with one or two permutations.",
 files=[H+"metrics_registry.hpp",H+"snapshots.hpp"], mech="iteration under lock with a visitor built per permutation"),
dict(id="C16", title="Publish options take effect exactly as given, with per-metric precedence",
 statement="The options in effect for a metric are the ones last set for that metric, else the ones last set for the registry, else the defaults, and every field of every kind of options (scale, mean, count, distribution, quantiles, rates) reads back as given after any construction, move, assignment or replacement. Setting options for a path that is not registered changes nothing.",
 over=["inputs","histories"], q="all constructor forms and field combinations, all sequences of registry-level and metric-level settings",
 why="Tests set each kind of option once and look at one field; timer options are never set.",
 files=[H+"publisher.hpp",H+"publisher_impl.hpp",H+"metrics_registry.hpp"], mech="option value types stored per registry and per metric"),
dict(id="C17", title="Prometheus output is always well formed",
 statement="For any paths, tag names, tag values and metric contents, the published text parses under the Prometheus text exposition grammar: valid metric and label names, escaped label values and help text, one numeric value (NaN for contents that are no number) per line, and the samples of every registered metric (whose written name no other metric shares) introduced by one TYPE line. Parsing a label value yields exactly the original tag value, whatever bytes it contains, as long as the tag names remain distinct as label names. This holds whatever locale the program has set.",
 over=["inputs"], q="all byte strings in paths, tag names and tag values, all metric types and values",
 why="Tests look for substrings of one sample per metric type.",
 files=[P+"snapshot_writer.hpp",P+"prometheus_publisher.hpp",P+"prometheus_counter.hpp",P+"prometheus_gauge.hpp",P+"prometheus_meter.hpp",P+"prometheus_histogram.hpp",P+"prometheus_timer.hpp"], mech="name sanitising and label escaping in the writers"),
dict(id="C18", title="Prometheus output reports every metric's values exactly once",
 statement="The published text contains, for every registered metric with a non-empty path and every tag permutation, exactly the samples its type and effective options call for (value; window rates and mean; count, mean and quantiles; for timers the same with durations in microseconds and, if enabled, rates), each with the metric's current value to six decimals times the scale factor if one is set, and nothing else. No two samples of a metric carry the same name and labels when the metric's tags are distinct, so distinct windows and quantiles remain distinguishable. The text depends neither on locales nor on the formatting set on the stream.",
 over=["inputs","configurations"], q="all metric types, windows, quantiles, option combinations, tags and values",
 why="Tests check substrings of default-option output.",
 files=[P+"prometheus_publisher.hpp",P+"snapshot_writer.hpp",P+"prometheus_counter.hpp",P+"prometheus_gauge.hpp",P+"prometheus_meter.hpp",P+"prometheus_histogram.hpp",P+"prometheus_timer.hpp"], mech="one writer per snapshot type driven by the effective options"),
dict(id="C19", title="Metric values behave like the values they hold",
 statement="Converting a number, string or duration into a metric value and back yields the original; values of the same kind compare exactly as the values they hold, mixed integer and floating-point values compare by numeric value, and equality, ordering and inequality are mutually consistent (for single-value snapshots too), with equal numbers, equal strings and equal durations hashing alike. Sums, differences, products and quotients of values of one numeric type, and of an integer and a floating-point value, are the mathematical result with the operands in the order written (division by zero yields zero), and durations, which are held to the nanosecond, keep their length through addition, scaling by integers (a quotient to the unit it is held in) and conversion to any unit; a text that is a number converts to that number. Texts don't depend on the program's locale. Values keep all this through copies, moves, exchanges and assignment, also to themselves.",
 over=["inputs"], q="all values of all integral, floating, string and duration types, over the whole range in which the result is representable",
 why="The value type has no test of its own.",
 files=[H+"metric_value.hpp",H+"snapshots.hpp"], mech="type-erased variant with per-type arithmetic and comparison"),
dict(id="C20", title="Concurrent use of metrics is free of data races and memory errors",
 statement="Any mixture of threads creating, updating, reading, copying, snapshotting, visiting, aggregating and publishing metrics of every type through a shared registry runs without data races, invalid memory accesses, leaks or undefined behaviour. No such mixture deadlocks or crashes.",
 over=["schedules","programs"], q="all interleavings of all public operations on shared metrics (options are set before publishing starts)",
 why="Only three tests use threads, without any sanitizer.",
 files=[H+"metrics_registry.hpp",H+"ewma.hpp",H+"meter.hpp",H+"uniform_reservoir.hpp",H+"ringbuf.hpp",H+"gauge.hpp",H+"timer.hpp",P+"prometheus_publisher.hpp"], mech="atomics and locks inside each metric and in the registry"),
dict(id="C21", title="The lock-free stack delivers every element exactly once",
 statement="Under any interleaving of pushes and pops each element pushed onto the lock-free stack is returned by exactly one pop or remains in the stack, never twice, and pops return nothing only when the stack was empty at some moment of the call; the history is that of a last-in-first-out stack. Elements are destroyed exactly once, no thread touches an element's memory after it was released, and recycling popped nodes back into the stack is safe.",
 over=["schedules","histories"], q="all interleavings of push, pop and recycle, with library-allocated and caller-defined nodes",
 why="The threaded tests only push concurrently; pops are single-threaded.",
 files=[H+"internal/atomic_lifo.hpp"], mech="tagged-pointer head updated by compare-and-swap"),
dict(id="C22", title="Gauges report the current value of their source",
 statement="A value gauge reports the last value set (by set, assignment or move), a reference or pointer gauge the current value of the variable it refers to, and a function gauge the result of calling its function at that moment, through get, snapshots, visits and publishing alike. While one thread sets a value gauge, readers see either the old or the new value, never a mixture.",
 over=["inputs","histories","schedules"], q="all gauge kinds, value types (including strings), and set/read sequences and interleavings",
 why="Tests set each gauge once on one thread.",
 files=[H+"gauge.hpp",H+"metrics_registry.hpp"], mech="gauge classes per source kind"),
dict(id="C23", title="Copies of metrics are equal and independent",
 statement="Copy-constructing or assigning any metric, reservoir or moving average yields an object that reports the same values, counts, samples and rates as the original did and behaves identically to it under identical later operations, including self-assignment and assignment over a used object. Afterwards the two are independent: updating one never changes the other.",
 over=["inputs","histories"], q="all metric and reservoir types in all reachable states",
 why="Tests copy three objects without looking at the copy's contents.",
 files=[H+"ringbuf.hpp",H+"simple_reservoir.hpp",H+"uniform_reservoir.hpp",H+"sliding_window.hpp",H+"ewma.hpp",H+"meter.hpp",H+"counter.hpp",H+"gauge.hpp"], mech="copy constructors and assignment operators"),
dict(id="C24", title="Publisher data is created once per owner and kept",
 statement="Data a publisher attaches to the registry or to a metric is created at most once per owner and data type, from the first request's arguments, even when publishers on several threads ask at once; every later request returns the same object until the registry goes away. Data of different types or owners never collide, queries for unregistered paths return nothing and create nothing, and has-data, has-metric and visit-one answers agree with what was registered.",
 over=["histories","schedules"], q="all request sequences over several data types, metrics and publishers, and their interleavings",
 why="Tests request one data type twice on one thread.",
 files=[H+"publisher_impl.hpp",H+"metrics_registry.hpp",H+"publisher.hpp"], mech="type-keyed maps under locks in the registry and in each metric"),
dict(id="C25", title="Paths and tag sets compare and hash by content",
 statement="Two metric paths are equal exactly when their non-empty components are equal in order, however they were composed (composition is associative with the empty path as identity), and joining yields the components separated by the delimiter. Two tag collections are equal exactly when they hold the same names with equal values (numbers compared with numbers, strings with strings, durations with durations) regardless of insertion order; equal paths and equal tag collections have equal hashes.",
 over=["inputs"], q="all component strings and compositions, all tag sets and insertion orders",
 why="Paths and tags are only exercised as registry keys with literals.",
 files=[H+"metric_path.hpp",H+"tag_collection.hpp"], mech="component vector; unordered map with combined hash"),
dict(id="C26", title="Recording never grows memory",
 statement="The memory held by a metric is bounded by its declared capacity: no number of updates, marks, increments or reads makes a counter, gauge, moving average, meter, histogram or timer hold more heap memory than it held when first filled, and snapshots release everything they held when destroyed. Repeated requests for existing metrics and repeated publishing leave the registry's memory unchanged.",
 over=["histories"], q="all lengths of update, read, lookup and publish histories",
 why="No test measures memory or runs long histories.",
 files=[H+"ringbuf.hpp",H+"uniform_reservoir.hpp",H+"metrics_registry.hpp",H+"snapshots.hpp"], mech="fixed-size storage in each metric; find-before-insert in the registry"),
dict(id="C27", title="Pooled objects live exactly as long as they are referenced",
 statement="While the pool exists, an object allocated from it stays alive and unshared with any other allocation as long as at least one handle refers to it, and is destroyed exactly once when its last handle is released or replaced, after which its storage may be reused. This holds for any sequence of copies, moves, assignments, exchanges and compare-exchanges of handles, and under any interleaving of threads allocating and releasing their own handles.",
 over=["histories","schedules"], q="all handle operation sequences and all interleavings of allocating and releasing threads",
 why="The pool test is excluded from the build, and is one single-threaded sequence.",
 files=[H+"pool.hpp"], mech="reference count packed in the link word; lock-free free list"),
dict(id="C28", title="A failed operation changes nothing",
 statement="When making a metric, copying its reservoir, or making a piece of publisher data throws, when memory runs out during a request for a metric or for publisher data, or when a visit's handler or the stream published to fails, the exception reaches the caller and everything registered before stays as it was: the same metrics with the same tags and readings, the same options and data, and the same published text. Nothing leaks, no lock stays held, other threads' operations succeed, and repeating what failed succeeds. (At most the path of a failed first request is known afterwards, without any metric.)",
 over=["histories","schedules","fault_sequences"], q="all sequences of registrations, data requests, visits and publishing with a failure at any constructor, allocation, handler call or byte written",
 why="No test makes an operation fail; a lock that isn't released or an entry half made shows only after an exception at the right point.",
 files=[H+"metrics_registry.hpp",H+"publisher_impl.hpp","cxxmetrics_prometheus/prometheus_publisher.hpp"], mech="locks held by guards, metrics and data built before they are entered"),
dict(id="C29", title="Periods and percentiles mean what they say",
 statement="A period written in any unit (by function or literal, at run time or as a template parameter) is exactly that long; comparing a duration of any unit with it, dividing by it, adding and subtracting it agree with exact arithmetic as long as the result is in range; multiplied and divided periods are the multiple and the whole part. A percentile reads back as it was written, and through a template parameter as itself to the resolution of 32 bits, in order.",
 over=["inputs"], q="all lengths in all units whose nanoseconds fit 64 bits, all durations near and far from their multiples, all percentiles from 0 to 100",
 why="Tests use a handful of periods, only as template parameters, and a handful of percentiles.",
 files=[H+"time.hpp",H+"snapshots.hpp"], mech="periods are counts of microseconds, converted to the clock's durations; percentiles are scaled to 32 bits"),
]
