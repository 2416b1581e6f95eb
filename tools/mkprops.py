#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

MOM = ["moment/core.go", "moment/mean.go", "moment/moment.go", "moment/std.go", "moment/skewness.go", "moment/kurtosis.go"]
p("C01", "Rolling and global moments equal the batch statistic of the window",
  "After any sequence of pushes and clears, Mean, Moment(k), Std, Skewness, Kurtosis and the univariate Core's count, mean and power sums equal (up to floating-point rounding) the textbook sample statistic of exactly the last w pushed values (all values since construction or the last clear when w=0). Wherever the statistic is mathematically defined the reported number is finite and Std is never negative or NaN.",
  ["inputs", "histories", "configurations"], "every finite input sequence, every window size w>=0, every tracked order k, every interleaving of pushes, reads and clears",
  "Tests push one or two fixed sequences of 5-10 numbers with window 3 or 0 and compare a final value; eviction order, wrap-around, duplicates, constant runs, other orders and mid-stream reads are unsampled.",
  MOM, [("incremental add/remove of centralized power sums", "moment/core.go:add/remove"), ("window queue eviction", "moment/core.go:UnsafePush")],
  [("window", "the last w values pushed", "moment/core.go:Core.queue"), ("count/mean/sums", "running statistics of the window", "moment/core.go:Core")],
  ["Push/Value/Clear of each metric", "Core.Count/Mean/Sum"])
p("C02", "Exponentially weighted moments equal the weighted definition",
  "After any sequence of pushes and clears, EWMA, EWMMoment(k), EWMStd and a univariate Core with decay d equal (up to rounding) the weighted mean and weighted central moments of all values since the last clear, where the newest value has weight d, each older value's weight is multiplied by (1-d) per later push, and the very first value carries the remaining weight.",
  ["inputs", "histories", "configurations"], "every finite input sequence, every decay in (0,1), every order k, pushes/reads/clears interleaved",
  "Tests check one decay (0.3), one order and 3-4 fixed inputs.",
  ["moment/core.go", "moment/ewma.go", "moment/ewmmoment.go", "moment/ewmstd.go"], [("exponentially weighted update of mean and power sums", "moment/core.go:addDecay")],
  [("mean/sums", "weighted mean and weighted central moments", "moment/core.go:Core")], ["Push/Value/Clear of EW metrics", "Core.Mean/Sum"])
p("C03", "Rolling and global joint statistics equal the batch statistic",
  "After any sequence of joint pushes and clears, Cov, Corr and the multivariate Core's count, per-variable means and every tracked joint centralized power sum (whatever set of exponent tuples is tracked together) equal, up to rounding, the textbook statistic of exactly the last w joint observations (all since the last clear when w=0).",
  ["inputs", "histories", "configurations"], "every finite input sequence, window, number of variables and set of tracked exponent tuples",
  "Tests use fixed 5-point inputs with window 3 and a single tuple {2,2}; multi-tuple windowed cores, 3+ variables and long rolling histories are never exercised.",
  ["joint/core.go", "joint/cov.go", "joint/corr.go", "joint/tuple.go"], [("incremental joint add/remove over all sub-tuples", "joint/core.go:add/remove"), ("tuple iteration", "joint/tuple.go:iter"), ("window queue", "joint/core.go:UnsafePush")],
  [("window", "the last w joint observations", "joint/core.go:Core.queue"), ("sums/newSums", "joint centralized power sums per exponent tuple", "joint/core.go:Core")],
  ["Push/Value/Clear", "Core.Count/Mean/Sum"])
p("C04", "Exponentially weighted joint statistics equal the weighted definition",
  "After any sequence of joint pushes and clears, EWMCov, EWMCorr and a multivariate Core with decay d equal, up to rounding, the exponentially weighted means, joint central moments and correlation of all observations since the last clear (newest observation weight d, older weights shrink by (1-d) per push, the first observation carries the remainder).",
  ["inputs", "histories", "configurations"], "every finite input sequence, every decay in (0,1), every set of exponent tuples",
  "Tests check decay 0.3 on 3-4 fixed points and a single tuple.",
  ["joint/core.go", "joint/ewmcov.go", "joint/ewmcorr.go", "joint/tuple.go"], [("exponentially weighted joint update", "joint/core.go:addDecay")],
  [("means/sums", "weighted means and joint central moments", "joint/core.go:Core")], ["Push/Value/Clear", "Core.Mean/Sum"])
p("C05", "Autocovariance and autocorrelation use exactly the lagged pairs",
  "Autocov and Autocorr with lag L and window w report, up to rounding, the covariance/correlation of exactly the last w pairs (x_t, x_{t-L}) formed since the last clear (all such pairs when w=0), and report an error until L+1 values have been pushed since construction or the last clear.",
  ["inputs", "histories", "configurations"], "every lag >= 0, window >= 0, input sequence, and clear position",
  "Tests use lag 1 / window 3 style fixtures; lag larger than the window, lag 0, clears while the lag buffer is partly filled are unsampled.",
  ["joint/autocorr.go", "joint/autocov.go", "joint/core.go"], [("lag queue feeding the joint core", "joint/autocorr.go:Push, joint/autocov.go:Push")],
  [("queue", "the last L values", "joint/autocorr.go:Autocorr.queue")], ["Push/Value/Clear"])
p("C06", "Min and Max are the exact extremes of the window",
  "After any sequence of pushes and clears, Min and Max return exactly the smallest/largest of the last w pushed values (all values since construction or the last clear when w=0).",
  ["inputs", "histories", "configurations"], "every finite input sequence incl. duplicates and negative values, every window, clears anywhere",
  "Tests use one fixed sequence with window 3; duplicates of the extreme leaving the window, monotone runs and wraps are a handful of cases.",
  ["minmax/min.go", "minmax/max.go"], [("monotonic deque plus window queue", "minmax/min.go:Push, minmax/max.go:Push")],
  [("queue/deque", "window contents and candidate extremes", "minmax/min.go:Min")], ["Push/Value/Clear"])
p("C07", "Quantile equals the interpolated order statistic of the window",
  "After any sequence of pushes and clears, Quantile.Value(q) equals, for every q in (0,1), every interpolation method and every implementation, the documented interpolation at index q*(n-1) of the sorted multiset of exactly the last w values (all since the last clear when w=0).",
  ["inputs", "histories", "configurations"], "every input sequence incl. duplicates, window, q, interpolation (Linear/Lower/Higher/Nearest/Midpoint) and implementation (AVL/RedBlack/SkipList)",
  "Tests evaluate a few q on one fixed 10-value stream; duplicate-heavy rolling windows and tree shapes reached only by long add/remove histories are unsampled.",
  ["quantile/quantile.go", "quantile/interpolation.go", "quantile/impl.go", "quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go"],
  [("window eviction into the order statistic", "quantile/quantile.go:Push"), ("index and interpolation arithmetic", "quantile/quantile.go:Value")],
  [("queue/statistic", "window contents in arrival and sorted order", "quantile/quantile.go:Quantile")], ["Push/Value/Clear"])
p("C08", "HeapMedian is the exact median of the window",
  "After any sequence of pushes and clears, HeapMedian returns the median (middle element, or the mean of the two middle elements) of exactly the last w pushed values (all values since construction or the last clear when w=0), for every w>=1, and no push or read crashes.",
  ["inputs", "histories", "configurations"], "every input sequence incl. duplicates, every window size including 1, clears anywhere",
  "Tests push one fixed pattern with window 10; which element is evicted depends on the whole history of rebalancing.",
  ["quantile/heap_median.go", "quantile/heap/heap.go"], [("two heaps with eviction and rebalancing", "quantile/heap_median.go:Push/rebalance")],
  [("lowHeap/highHeap/queue", "lower half, upper half, arrival order", "quantile/heap_median.go:HeapMedian")], ["Push/Value/Clear"])
p("C09", "Median and IQR equal the midpoint quartiles of the window",
  "After any sequence of pushes and clears, Median equals the 0.5-quantile and IQR equals the 0.75-quantile minus the 0.25-quantile, both with midpoint interpolation, of exactly the last w values (all since the last clear when w=0), whatever implementation is chosen and even if the caller passes another interpolation option.",
  ["inputs", "histories", "configurations"], "every input sequence, window and option list",
  "Tests check a single fixed stream per implementation.",
  ["quantile/median.go", "quantile/iqr.go", "quantile/quantile.go"], [("wrapping of Quantile with forced midpoint option", "quantile/median.go:NewMedian, quantile/iqr.go:NewIQR")],
  [], ["Push/Value/Clear"])
p("C10", "Order-statistic structures behave as a sorted multiset",
  "For the AVL tree, red-black tree and skip list, after any sequence of Add, Remove and Clear: Size is the number of values held, Select(k) returns the k-th smallest value (nil when k is out of range), Rank(x) returns the number of values strictly less than x, Remove deletes exactly one occurrence, and removing an absent value changes nothing.",
  ["histories", "inputs"], "every sequence of add/remove/clear with arbitrary duplicates and every resulting tree or list shape",
  "Tests check string renderings of a couple of 8-11 node trees; duplicates combined with rotations, deletion of inner nodes and skip-list width bookkeeping need specific long histories.",
  ["quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go", "quantile/ost/avl/tree.go", "quantile/ost/rb/tree.go"],
  [("size-augmented balanced trees", "quantile/ost/avl/node.go, quantile/ost/rb/node.go"), ("width-augmented skip list", "quantile/skiplist/skiplist.go:Add/Remove/Select")],
  [("root/head", "the stored multiset", "quantile/ost/*/tree.go, quantile/skiplist/skiplist.go")], ["order.Statistic methods"])
p("C11", "Order-statistic structures stay logarithmically shallow and print in order",
  "After any sequence of adds and removes of n remaining values, the rendered AVL tree is height-balanced (height at most 1.45*log2(n+2)) and agrees with Height(), the rendered red-black tree has height at most 2*log2(n+2), and a skip list's express lanes thin out geometrically with its configured probability up to its maximum level. The textual rendering of each structure lists exactly the stored values in sorted order.",
  ["histories", "inputs"], "every add/remove history, including sorted, reversed, duplicate-only and alternating ones",
  "Tests render a few small fixed trees; a skipped rebalance only shows in particular larger histories and never in returned statistics.",
  ["quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go", "complexity.md"],
  [("AVL rebalancing", "quantile/ost/avl/node.go:balance"), ("left-leaning red-black balancing", "quantile/ost/rb/node.go:addBalance/removeBalance"), ("level generation", "quantile/skiplist/skiplist.go:randLevel")],
  [], ["Tree.String()", "avl.Tree.Height()", "SkipList.String()"])
p("C12", "Clear makes every metric indistinguishable from a fresh one",
  "For every metric, core, order structure and aggregate, calling Clear after any history (including repeatedly, on an empty or on a full window) makes all later results identical to those of a newly constructed instance with the same parameters; configuration is kept.",
  ["histories", "configurations"], "every history before the clear, every position of the clear, every later history",
  "Tests clear once after one fixed history and look at internal fields, never at later behaviour after refilling and evicting.",
  ["moment/core.go", "joint/core.go", "joint/autocorr.go", "joint/autocov.go", "minmax/min.go", "minmax/max.go", "quantile/quantile.go", "quantile/heap_median.go", "quantile/skiplist/skiplist.go", "aggregate/simple_aggregate.go", "aggregate/simple_joint_aggregate.go"],
  [("Clear/UnsafeClear of each type", "*/Clear")], [], ["Clear followed by Push/Value"])
p("C13", "No answer without data, and rejected calls leave no trace",
  "Reading a metric that has seen no data since construction or the last clear, using a core-backed metric that was never initialised, asking for a quantile outside (0,1) (NaN included), or pushing the wrong number of values returns an error, never a number or a crash. Such a rejected call leaves all later results exactly as if it had not been made.",
  ["histories", "inputs", "configurations"], "every metric, every point of every history at which a rejected call can be inserted",
  "Tests check each error once on a fresh object and do not check that later results are unaffected.",
  ["moment/core.go", "joint/core.go", "joint/cov.go", "joint/corr.go", "joint/ewmcov.go", "joint/ewmcorr.go", "joint/autocorr.go", "joint/autocov.go", "minmax/min.go", "minmax/max.go", "quantile/quantile.go", "quantile/heap_median.go"],
  [("guards at the start of Push/Value", "*/Push, */Value")], [], ["error results", "subsequent values"])
p("C14", "Constructors accept exactly the valid configurations",
  "Metric constructors, moment/joint core construction and skip-list/quantile options succeed exactly for documented-valid parameters and return an error for all others: window >= 0 and set, lag >= 0, decay in (0,1) and only without a window, power sums positive, joint tuples of equal length >= 2 matching Vars (>= 2), no negative exponents and not all zero, known implementation/interpolation, max level in [1,64], probability in (0,1). An accepted configuration yields a usable metric.",
  ["configurations"], "every combination of configuration fields, including unset and NaN",
  "Tests check individual bad fields one at a time, not combinations or accept-side completeness.",
  ["moment/config.go", "joint/config.go", "quantile/option.go", "quantile/impl.go", "quantile/skiplist/option.go", "quantile/quantile.go", "minmax/min.go", "minmax/max.go", "joint/autocorr.go", "joint/autocov.go"],
  [("validateConfig / validateTuple", "moment/config.go, joint/config.go"), ("option validation", "quantile/option.go, quantile/skiplist/option.go")], [], ["constructor and Init errors"])
p("C15", "Merged configurations and shared cores serve every metric",
  "Merging configurations yields one that tracks every sum any of them asked for, with their common window, variable count and decay, and fails (never crashes or silently drops a sum) exactly when they conflict. Metrics attached to one core built from their merged configuration each report, after any pushes through any of them, the same value as if they stood alone and had received all those pushes.",
  ["configurations", "histories"], "every list of configurations and every set of metrics sharing a core (other than Autocov/Autocorr, which feed their core pairs of their own), any push order",
  "Tests merge two or three literal configs and compare structs; shared cores are never run.",
  ["moment/config.go", "joint/config.go", "moment/core.go", "joint/core.go"], [("MergeConfigs, simplifySums", "moment/config.go, joint/config.go"), ("SetCore", "moment/*.go, joint/*.go")], [], ["MergeConfigs result", "values of metrics sharing a core"])
p("C16", "Concurrent use of any metric is linearizable",
  "When goroutines call Push, Value and Clear (and Core's reads) on the same metric concurrently, every call behaves as if it took effect atomically at one instant between its start and return: the results are those of some sequential order of the calls, without torn reads, lost or doubled updates, data races or crashes.",
  ["schedules", "histories"], "every interleaving of concurrent calls on one metric (or on several metrics sharing a core)",
  "Tests are sequential (only lock tests start one goroutine); the race detector sees only the schedules and sharing that tests happen to produce.",
  ["moment/core.go", "joint/core.go", "joint/autocorr.go", "joint/autocov.go", "minmax/min.go", "minmax/max.go", "quantile/quantile.go", "quantile/iqr.go", "quantile/heap_median.go"],
  [("per-object mutex around each operation", "*/mux"), ("multi-read Value under one read lock", "moment/*.go:Value, joint/*.go:Value, quantile/iqr.go:Value")],
  [("mux", "guards all state of an object", "each type")], ["call results with invocation/response order"],
  "none in /repo: the check builds an instrumented copy (sync replaced by a scheduler-controlled shim)")
p("C17", "Concurrent calls never deadlock",
  "Whatever the interleaving, as long as no caller keeps a lock it took explicitly, every Push, Value, Values, Clear, Count, Mean and Sum call on any metric, core or aggregate returns: concurrent readers and writers cannot block each other forever.",
  ["schedules"], "every interleaving of readers and writers, including a writer arriving between two lock acquisitions of one reader",
  "A writer must arrive at one precise point inside a read; the suite's own lock tests hang now and then and are run with -cpu=1 for that reason.",
  ["moment/mean.go", "moment/moment.go", "moment/skewness.go", "moment/kurtosis.go", "moment/ewma.go", "joint/cov.go", "joint/corr.go", "joint/ewmcorr.go", "joint/autocorr.go", "joint/autocov.go", "quantile/iqr.go", "aggregate/simple_aggregate.go"],
  [("read/write lock protocol of each method", "moment/core.go, joint/core.go, quantile/quantile.go")], [("mux", "writer-preferring RW lock", "Core.mux, Quantile.mux")], ["calls returning"],
  "none in /repo: instrumented copy")
p("C18", "Aggregates deliver to and report every metric",
  "Pushing to an aggregate delivers the value exactly once to every member, even when another member rejects it, and returns an error exactly when some member did; Values returns each member's own current value keyed by that member's String() (whose text differs for metrics that report different statistics, i.e. of another kind, order, lag, window, decay or interpolation), or an error and no values if any member cannot answer; Clear clears every member.",
  ["histories", "configurations", "fault_sequences"], "every set of members (including failing and uninitialised ones) and every history",
  "Tests use two or three healthy members and one failing mock, one push.",
  ["aggregate/simple_aggregate.go", "aggregate/simple_joint_aggregate.go"], [("fan-out to members with error collection", "aggregate/*.go:Push/Values/Clear")], [], ["Push/Values/Clear", "member values"])
p("C19", "Aggregate operations are atomic snapshots under concurrency",
  "When goroutines concurrently push to, read and clear an aggregate, every Values result shows all members at the same point of one common push/clear order consistent with real time; no result mixes members that have and have not seen some push, and no push is lost or doubled by any member.",
  ["schedules"], "every interleaving of concurrent Push, Values and Clear calls and of the per-member work inside them",
  "Tests never call an aggregate from two goroutines.",
  ["aggregate/simple_aggregate.go", "aggregate/simple_joint_aggregate.go"], [("aggregate mutex held across the fan-out and wait", "aggregate/*.go")], [("mux", "serialises aggregate operations", "aggregate/*.go")], ["Values results with invocation/response order"], "none in /repo: instrumented copy")
p("C20", "A reservoir sample is a bounded sub-multiset of the stream",
  "After n pushes (from any number of goroutines) into a reservoir of size s, Sample returns exactly min(n, s) items, each of them a pushed item used at most once, with every item present while n <= s. A returned sample is the caller's own copy: changing it, or pushing more, does not affect the reservoir or earlier samples.",
  ["histories", "schedules", "inputs"], "every stream length, reservoir size (0 included), random choice and interleaving",
  "Tests run one seeded stream of 10 items with size 3.",
  ["sample/sample.go"], [("Algorithm R update under a mutex", "sample/sample.go:Push"), ("copy on read", "sample/sample.go:Sample")], [("sample/count", "current reservoir and stream length", "sample/sample.go:Reservoir")], ["Push/Sample"])
p("C21", "Reservoir sampling is uniform",
  "After n pushes into a reservoir of size s <= n, every subset of s of the n positions is equally likely to be the sample: each item is kept with probability s/n and each pair with probability s(s-1)/(n(n-1)), for items early and late in the stream alike.",
  ["inputs", "histories"], "every stream length n and size s, over the random source",
  "The one test pins the outcome of a single seed, which says nothing about the distribution.",
  ["sample/sample.go"], [("index draw and replacement", "sample/sample.go:Push")], [], ["Sample frequencies"])
p("C22", "Reading never changes a metric",
  "Calling Value, Values, String, Count, Mean, Sum, Size, Select, Rank or Sample any number of times at any point returns the same answer each time and leaves every later result exactly as it would have been without those calls.",
  ["histories"], "every point of every history, any number and kind of reads",
  "Tests read once at the end of a history.",
  ["moment/core.go", "joint/core.go", "joint/corr.go", "minmax/min.go", "minmax/max.go", "quantile/quantile.go", "quantile/heap_median.go", "quantile/skiplist/skiplist.go", "sample/sample.go", "moment/skewness.go", "moment/kurtosis.go"],
  [("read paths work on copies/locals", "*/Value")], [], ["repeated reads, paired instances with and without reads"])
p("C23", "Instances and caller-owned data are isolated",
  "What one metric, core, structure or aggregate reports depends only on its own construction parameters and calls: using other instances (also concurrently), reusing or changing a slice after passing it to Push, or changing a configuration object, tuple, decay variable or option slice after construction has no effect on it, and constructing or using a metric does not change caller-owned option slices or other instances' defaults.",
  ["histories", "inputs", "schedules"], "every mix of instances and every later mutation of caller-owned arguments",
  "Tests build one object at a time from literals and never reuse or mutate arguments.",
  ["moment/core.go", "moment/config.go", "joint/core.go", "joint/config.go", "util/math/math.go", "quantile/median.go", "quantile/iqr.go"],
  [("copying of arguments into the instance", "joint/core.go:UnsafePush/NewCore, moment/core.go:NewCore"), ("shared package-level state", "util/math/math.go, moment/config.go, joint/config.go")], [], ["values after mutating arguments / using other instances"])
p("C24", "Explicit core locks make batches atomic",
  "While a caller holds Core.Lock, no other call observes or changes the core, so a Lock/UnsafePush.../Unlock batch takes effect as one step; while a caller holds Core.RLock (or Quantile.RLock) no push or clear takes effect, so several unsafe reads in between see one common state, and other readers can still proceed.",
  ["schedules"], "every interleaving of locked batches with concurrent pushes, reads and clears",
  "The lock tests check one goroutine order with sleeps, and are flaky by construction.",
  ["moment/core.go", "joint/core.go", "quantile/quantile.go"], [("Lock/Unlock/RLock/RUnlock on the same mutex as the safe methods", "moment/core.go, joint/core.go, quantile/quantile.go")], [], ["results of batches and concurrent calls"], "none in /repo: instrumented copy")
p("C25", "The indexed heap always exposes the extreme and tracks its items",
  "After any sequence of pushes, pops, updates and removals of arbitrary items, the heap's Peek/Pop is the extreme (by its comparison) of exactly the items currently in it, Values is exactly that multiset, and Update/Remove affect exactly the given item wherever it has moved to.",
  ["histories", "inputs"], "every operation sequence incl. duplicates and removing the last or the top item",
  "Tests perform two or three operations on one small heap.",
  ["quantile/heap/heap.go"], [("index maintenance in Swap/Push/Pop", "quantile/heap/heap.go")], [("items", "heap array with back-indices", "quantile/heap/heap.go:Heap")], ["Peek/Values/Len"])
p("C26", "Moments stay accurate for offset data and long rolling histories",
  "Adding a large constant to all inputs or running a rolling window for very many pushes does not destroy accuracy: means, variances, higher moments, covariances and correlations keep an error proportional to machine precision times the data's magnitude and history length (numerically stable), never the catastrophic cancellation of raw power sums.",
  ["inputs", "histories"], "input sequences with offsets up to about 1e8 times their spread, and histories of thousands of evictions",
  "Tests use small integers and under ten pushes.",
  ["moment/core.go", "joint/core.go"], [("centralized (Pebay) updates", "moment/core.go:add/remove/addDecay, joint/core.go:add/remove/addDecay")], [], ["values versus exact rational arithmetic"])
p("C27", "Every supported order of moment is computed exactly as defined",
  "Moment(k), EWMMoment(k) and core power sums are correct for every order up to at least 60, and joint power sums of two variables for every pair of exponents below 31, on any stream (of fewer than 10^5 values for orders above 30): no order silently overflows, crashes or loses binomial terms.",
  ["configurations", "inputs"], "every order k (and joint exponent) in the stated range",
  "Tests use orders up to 4; binomial coefficients beyond factorial(10) are never exercised.",
  ["util/math/math.go", "moment/core.go", "joint/core.go", "joint/tuple.go"], [("binomial coefficients", "util/math/math.go:Binom"), ("multinomials and tuple hashing", "joint/tuple.go")], [], ["Value/Sum for high orders"])
p("C28", "Implementation and tuning choices never change quantile results",
  "Two Quantile, Median or IQR metrics fed the same history return identical values whichever implementation (AVL, red-black, skip list) they use and whatever maximum level, probability or random source the skip list is given.",
  ["configurations", "histories", "inputs"], "every pair of implementations/tunings, every history and query",
  "Tests run each implementation on one fixed stream without duplicates and with the default tuning.",
  ["quantile/impl.go", "quantile/skiplist/skiplist.go", "quantile/skiplist/option.go", "quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/quantile.go"],
  [("order.Statistic implementations", "quantile/impl.go:init")], [], ["values of paired instances"])
p("C29", "Cores answer exactly the sums and variables they track",
  "A core answers Sum for exactly the orders it tracks (1..max configured order; for a multivariate core every not-all-zero exponent tuple of the right length that is component-wise at most a configured tuple) and Mean for exactly its variables, and returns an error for anything else - wrong length, negative or too large exponents, unknown variable - never another quantity's value.",
  ["configurations", "inputs"], "every configuration and every queried order, tuple or index (exponents below 31)",
  "Tests query one untracked tuple; collisions in how tuples are identified are never tried.",
  ["moment/core.go", "joint/core.go", "joint/tuple.go"], [("lookup of tracked sums", "moment/core.go:UnsafeSum, joint/core.go:UnsafeSum, joint/tuple.go:hash")], [], ["Core.Sum/Mean"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
