#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json, os
S = "SmartCache/sim/cache/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Eviction queues always expose exact membership in policy order",
  "After any sequence of insertions, updates (a file touched after its statistics changed), removals of chosen files and removals of a prefix from the worst end, a replacement queue reports exactly the files inserted and not removed, and its worst-first listing is ordered by its policy: least recently used first for LRU, fewest requests first for LFU, smallest/biggest first for the two size policies and lowest weight first for the weighted policy, with ties in order of last insertion or update. The best-first listing is the exact reverse, and the victims listed for a requested amount are the shortest worst-first prefix whose total size reaches it (everything, if nothing does). An unordered queue reports the same membership without an order.",
  ["histories", "inputs"], "every queue kind; every history of insert/update/remove/remove-worst over any files, sizes, request counts and weights; every requested amount > 0",
  "The queue tests run a few fixed scenarios per queue (some already fail or panic); stale-index handling only shows after particular interleavings of updates and removals with tied keys.",
  [S+"queue/base.go", S+"queue/lru.go", S+"queue/lfu.go", S+"queue/genericF.go", S+"queue/none.go"],
  [("queue operations", S+"queue/base.go"), ("LRU order and lazily repaired indexes", S+"queue/lru.go"), ("frequency buckets", S+"queue/lfu.go"), ("size/weight buckets", S+"queue/genericF.go")])

p("C02", "Every cache follows its replacement policy",
  "Replaying any request trace on an LRU, LFU, SizeBig or SizeSmall cache hits, admits and evicts exactly the files a straightforward reference model of that policy does, request by request. On a miss that does not fit, the cache first evicts the shortest worst-first run of files whose total size reaches the requested size and then admits the file if it now fits; on a miss that fits nothing is evicted; a hit evicts nothing. Every other cache that keeps its files by recency (weighted, probabilistic, dataset, neural, and learning without an eviction agent) likewise always gives up the least recently used files first, and never more of them than the requested size needs.",
  ["histories", "configurations"], "every request trace with files of constant size (files larger than the cache included), every capacity, the four deterministic policies and every cache kept by recency",
  "Existing cache tests replay one tiny trace and compare a single rate; the order of victims depends on the whole history.",
  [S+"simpleCache.go", S+"base.go", S+"queue/base.go"],
  [("request pipeline", S+"base.go:GetFile"), ("admission and eviction", S+"simpleCache.go:UpdatePolicy"), ("victim removal", S+"simpleCache.go:Free")])

p("C03", "Occupancy equals the resident files and never exceeds the capacity",
  "For every cache type except the infinite one, after every request, explicit space release, statistics reset or file clearing, the reported occupied size equals the total size of the files the cache says it holds, is never negative and never exceeds the configured capacity, and the reported occupancy percentage is occupied size over capacity. An admitted file is held and a refused file is not.",
  ["histories", "configurations"], "every cache type, replacement policy, watermark/redirect setting, capacity and trace of constant-size files",
  "No test looks at the occupancy after each step; drifts need evictions, forced agent evictions or refused files to show.",
  [S+"simpleCache.go", S+"randomCache.go", S+"weightFun.go", S+"lruDatasetVerifier.go", S+"aiRL.go", S+"aiNN.go"],
  [("size bookkeeping", S+"simpleCache.go:UpdatePolicy/Free"), ("agent eviction bookkeeping", S+"aiRL.go:callEvictionAgent")])

p("C04", "Request, data-volume and free-space counters balance",
  "Within a statistics period the counters balance for every cache: requests processed = hits + misses, data read = data read on hit + data read on miss = total requested size, data written = total size of admitted files and equals the number-of-added accounting, data deleted = total size of evicted files, and occupied size changes by exactly written minus deleted. The hit rate is hits over processed requests in percent (0 when there are none), the weighted hit rate is it times data read on hit, and average and (sample) standard deviation of free space are those of the free space seen after each processed request. Resetting the statistics zeroes all of them and changes neither the files held nor future decisions of a non-learning cache.",
  ["histories", "configurations"], "every cache type, every trace with any placement of statistics resets",
  "Tests compare one or two of these figures for one short trace, never their relations or a reset in the middle.",
  [S+"simpleCache.go", S+"base.go"],
  [("counters", S+"simpleCache.go:AfterRequest"), ("reset", S+"simpleCache.go:ClearStats")])

p("C05", "CPU-efficiency figures follow the local/remote accounting",
  "Efficiencies of local requests (protocol 1) average to the upper bound and those of remote requests (protocol 0) to the lower bound, and requests with zero efficiency or another protocol contribute to neither. Each processed request counts towards the hit or miss average by whether it hit: a local one with its efficiency, a remote one with its efficiency raised by the region's bound difference, and a miss then lowered by that difference again, where the difference is 19 points for region it, 10 for us, none for any other named region, and without a region the currently observed upper minus lower bound when that is positive. The hit, miss and overall efficiencies divide these sums by the number of hits, misses and processed requests.",
  ["inputs", "histories", "configurations"], "every trace with any mix of protocols and efficiencies in [0,100], each region setting",
  "No existing test reads any CPU-efficiency figure.",
  [S+"simpleCache.go"], [("efficiency accounting", S+"simpleCache.go:AfterRequest"), ("bound difference", S+"simpleCache.go:CPUEffBoundDiff")])

p("C06", "Watermarks trigger and size the release of space exactly",
  "With watermarks enabled, when a request leaves the occupancy percentage at or above the high watermark the cache evicts the shortest worst-first run of files covering the occupancy in excess of the low watermark, so that afterwards occupancy is at most the low watermark; below the high watermark, or with watermarks disabled, no file is evicted by this mechanism; the check answers whether the level was below the high watermark. An explicit release of an amount or of a percentage of the capacity evicts the shortest worst-first run of files reaching it and returns the total size evicted. A configuration whose high watermark is below the low one is rejected.",
  ["histories", "configurations"], "every trace, capacity and watermark pair with low <= high; both release forms",
  "One test uses watermarks on one trace; the boundaries (exactly at the mark, one file short) need generated sizes.",
  [S+"simpleCache.go"], [("watermark check", S+"simpleCache.go:CheckWatermark"), ("release", S+"simpleCache.go:Free")])

p("C07", "Bandwidth saturation redirects exactly the misses beyond 95 percent",
  "With redirection enabled, a miss is redirected if and only if the data read on miss since the last statistics reset is at least 95 percent of the configured daily bandwidth (Gbit/s converted to MB per day); hits are never redirected and without redirection nothing is. A redirected request adds one to the redirected count and its size to the redirected volume and changes nothing else: not the files held, not the other counters, not the file's statistics. Reported bandwidth usage is data read on miss over bandwidth, in percent.",
  ["histories", "configurations"], "every trace, bandwidth and redirect setting, any placement of statistics resets, every cache type sharing the request pipeline",
  "No existing test enables redirection.",
  [S+"simpleCache.go", S+"base.go"], [("redirect decision", S+"simpleCache.go:CheckRedirect"), ("request pipeline", S+"base.go:GetFile")])

p("C08", "A dumped cache reloads into an equivalent cache",
  "Dumping a cache with its files and statistics, to memory or to a file, and loading the dump into a fresh cache of the same type and configuration yields a cache holding the same files with the same occupied size and the same per-file statistics. Until the statistics are next pruned, a reloaded cache without random choices (LRU, LFU, size, weighted, dataset verifier and neural network caches) then answers any further request trace exactly as the original does: same hits, admissions and evictions in the same order. A reloaded learning cache keeps its stored files, their statistics and its agents' learned values. Dumps taken without files and statistics carry none of them.",
  ["histories", "configurations", "crash_points"], "every cache type, any point of any trace at which the dump is taken, any continuation",
  "One test dumps a two-file LRU and only compares record counts.",
  [S+"simpleCache.go", S+"weightFun.go", S+"aiNN.go", S+"aiRL.go", S+"files/stats.go"],
  [("dump", S+"simpleCache.go:Dumps/Dump"), ("load", S+"simpleCache.go:Loads/Load"), ("learning caches", S+"aiRL.go:Dumps/Loads")])

p("C09", "Cold starts forget what they must and nothing else",
  "Clearing the files of a cache leaves it empty with zero occupied size and all counters and file statistics (request counts) kept, and it then serves any trace as an empty cache with that history; a learning cache forgets its file categories too but keeps what its agents learned. Clearing a cache completely makes a cache without random choices or learned state (LRU, LFU, size, weighted and dataset verifier caches) indistinguishable, on any further trace, from a freshly created cache with the same configuration; a learning cache cleared completely holds no files, statistics or categories and keeps what its agents learned.",
  ["histories", "configurations"], "every cache type with a replacement queue, any prefix trace before the clearing and any trace after it",
  "One test clears once and checks one size.",
  [S+"simpleCache.go", S+"files/stats.go"], [("clearing", S+"simpleCache.go:Clear/ClearFiles"), ("statistics manager reset", S+"files/stats.go:Init/Clear")])

p("C10", "Per-file request statistics are exact and pruned on schedule",
  "For each file the statistics hold the number of requests, the number of hits and of misses, the last size, first-seen time, last request time, number of requests since the file's previous one, and the times of the most recent 32 requests. Statistics of a file are dropped only when it is not held and was last requested at least the configured number of days before, at the first processed request at which the configured number of days has passed since the previous pruning (or first request); all such files are then dropped, and a dropped file requested again starts from scratch.",
  ["histories", "configurations"], "every trace with non-decreasing times and any gaps, every retention and period setting",
  "One test checks the creation of one record; pruning and the wrap-around of the 32 remembered times are untested.",
  [S+"files/stats.go", S+"simpleCache.go"], [("per-file statistics", S+"files/stats.go:GetOrCreate/UpdateStats"), ("pruning", S+"files/stats.go:Dirty/Purge")])

p("C11", "Weighted caches compute weights exactly and admit only low-weight files",
  "After each request a file's weight is the configured function (additive, additive-exponential or multiplicative) of its request count, its size and the mean age in minutes over its 32 slots of remembered requests (unused slots counting as age zero), with the configured alpha, beta and gamma. A weighted cache admits a missed file only if its weight is at most the mean weight of all files it has statistics for (pruned files no longer counting), and otherwise leaves its files untouched; admitted files follow LRU replacement.",
  ["histories", "inputs", "configurations"], "every trace, weight function and parameter triple for which all weights are finite",
  "Existing tests of this cache fail at this commit, and they check a rate after one trace.",
  [S+"weightFun.go", S+"functions/functions.go", S+"files/stats.go"], [("weight functions", S+"functions/functions.go"), ("mean weight", S+"files/stats.go:UpdateWeight/GetWeightMedian"), ("admission", S+"weightFun.go:UpdatePolicy")])

p("C12", "Misses after deletion are counted exactly once per report",
  "The reported number of misses after delete equals, since the previous report, the number of requests that missed for a file whose most recent removal happened in the latest space release at that moment (a new release stops the counting for files of earlier releases but keeps what they had accumulated). Reading the figure resets it to zero without losing which files are being watched.",
  ["histories"], "every trace, any placement of reports and of space releases",
  "No existing test reads this figure.",
  [S+"files/stats.go", S+"simpleCache.go"], [("miss-after-delete bookkeeping", S+"files/stats.go:AddDeletedFileMiss/ClearDeletedFileMiss/GetTotDeletedFileMiss"), ("hooks", S+"simpleCache.go:Check/Free")])

p("C13", "Equal configuration and seed reproduce a run exactly",
  "Two instances of the same cache type with the same configuration, including the random seed, given the same trace produce identical decisions and figures at every step, also when both are dumped and reloaded or cleared on the way; this covers the randomised-admission LRU cache and the learning caches with their exploration. A randomised cache admits a fraction of misses consistent with one half, each decided independently of the file, and different seeds give different decision sequences.",
  ["histories", "configurations"], "every cache type, seed and trace (feature maps with any number of features for the learning caches)",
  "Every existing test creates one instance and runs it once.",
  [S+"randomCache.go", S+"aiRL.go", S+"aiRLCatStateManager.go", S+"ai/featuremap/featuremap.go", S+"ai/qlearn/qlearn.go"],
  [("seeded admission", S+"randomCache.go"), ("seeded agents", S+"ai/qlearn/qlearn.go"), ("category iteration", S+"aiRLCatStateManager.go:GetStateFromCategories")])

p("C14", "The infinite cache never evicts, refuses or forgets a file",
  "An infinite cache admits every missed file, so that each distinct file misses exactly once in the whole run and hits ever after whatever the trace and the time between requests; it deletes nothing, and its occupied size is the total size of the distinct files requested. Its reported maximum size grows by the size of each admitted file and so never falls below the occupied size.",
  ["histories"], "every trace, capacity and statistics-retention setting",
  "No existing test uses the infinite cache.",
  [S+"infiniteCache.go"], [("admission", S+"infiniteCache.go:UpdatePolicy")])

p("C15", "The dataset verifier admits only the files of its dataset",
  "A dataset-verifier cache holds at every moment only files listed in its dataset file, never evicts anything for a file outside the dataset, and restricted to the listed files behaves exactly like an LRU cache of the same capacity. Requests for other files are processed as misses.",
  ["histories", "inputs"], "every dataset (empty and full included), trace and capacity",
  "No existing test creates this cache.",
  [S+"lruDatasetVerifier.go"], [("dataset loading", S+"lruDatasetVerifier.go:Init"), ("admission", S+"lruDatasetVerifier.go:UpdatePolicy")])

p("C16", "Feature maps discretise every value into its bucket",
  "Loading a feature map, from plain or gzipped JSON, yields every declared feature with its type, bucket limits, open-right and per-file flags. A number is mapped to the first bucket whose limit is not below it, an open-right feature has one extra last bucket for everything above its limits, strings and booleans map to their position, and a value outside a closed feature is reported as having no bucket; the number of buckets, the value and printed form of a bucket and the enumeration of buckets agree with that. The result depends on the file's content only.",
  ["inputs", "configurations"], "every well-formed feature map and every value of the feature's type (limits, neighbours of limits, extremes)",
  "The existing test reads one map and prints it.",
  [S+"ai/featuremap/featuremap.go"], [("parsing", S+"ai/featuremap/featuremap.go:Populate"), ("bucket lookup", S+"ai/featuremap/featuremap.go:Index")])

p("C17", "The Q-table enumerates states one-to-one and learns by the Bellman update",
  "For any feature map the table has exactly one state per combination of buckets, the index computed from a combination is the position of that combination, and all values start at zero. Updating a (state, action, reward, next state) changes only that entry, to q + 0.9*(reward + 0.5*max next - q), adds the reward to the running total, and the recommended action of a state is always one with the largest value. The printed table and the coverage percentages report exactly these values.",
  ["inputs", "histories"], "every feature map, both agent roles, every sequence of updates",
  "The existing test builds one table and prints it.",
  [S+"ai/qlearn/qlearn.go", S+"ai/featuremap/featuremap.go"], [("state enumeration and indexing", S+"ai/qlearn/qlearn.go:QTable.Init/FeatureIdxs2StateIdx"), ("learning", S+"ai/qlearn/qlearn.go:UpdateTable/getArgMax")])

p("C18", "Exploration decays within its bounds and agent memory keeps what it was told",
  "Starting from full exploration, each exploration update lowers epsilon towards its minimum along the configured exponential decay (a function of the number of updates), never below the minimum, and never raises it unless unleashing is allowed and requested; unleashing returns it to full exploration, or to at most the requested level, and restarts the schedule. Choices are remembered per key in order, bounded memories keep the latest 32, recalling a key returns its choices and forgets them, and resetting forgets everything.",
  ["histories", "configurations"], "every sequence of updates, unleashes, saves, recalls and resets, every positive decay",
  "No existing test updates epsilon or the memory.",
  [S+"ai/qlearn/qlearn.go"], [("epsilon schedule", S+"ai/qlearn/qlearn.go:UpdateEpsilon/UnleashEpsilon"), ("choice memory", S+"ai/qlearn/qlearn.go:SaveMemory/Remember")])

p("C19", "Learning caches keep exact books and act only when their configuration says so",
  "A learning cache counts one store or not-store action per processed miss when it has an addition agent, admits only on store, and keeps its occupied size, deleted and added counts exact through agent evictions. An eviction agent takes one action per file category when called, deleting all, half, a quarter (at least one), one (the least recently used) or none of that category's files, and is called only by its configured trigger: whenever its countdown of k processed requests has run out (once every k+1 requests), at the end of each day, or when a file does not fit (counted as forced for the first two). The per-day report of epsilon, rewards, calls, categories and action counts reflects exactly these events and is always available.",
  ["histories", "configurations"], "both learning types, with and without each agent, each trigger, generated feature maps and traces with day ends",
  "No existing test creates a learning cache.",
  [S+"aiRL.go", S+"aiRLCatStateManager.go"], [("admission", S+"aiRL.go:UpdatePolicy"), ("agent eviction", S+"aiRL.go:callEvictionAgent"), ("categories", S+"aiRLCatStateManager.go"), ("daily report", S+"aiRL.go:ExtraOutput")])

p("C20", "Trace files are read completely, in order and field by field",
  "Reading a trace yields one record per data row in row order with every field the simulator declares (identifiers, site, user, task and job numbers, protocol, exit code, success flag, sizes in bytes and in MB, times, day, types, region, campaign, process) equal to what the file says, whatever the column order of its header and whether it is plain or gzip-compressed. Reading a folder yields the records of its trace files, compressed or not, in file-name order, and ignores other files.",
  ["inputs", "configurations"], "every trace content, column permutation (with extra columns), compression and folder composition",
  "No existing test reads a trace file.",
  [S+"simulation.go"], [("record parsing", S+"simulation.go:recordGenerator"), ("header mapping", S+"simulation.go:getHeaderIndexes"), ("folders", S+"simulation.go:OpenSimFolder")])

p("C21", "Record filters select exactly the documented records",
  "The job-success filter accepts exactly successful jobs with exit code 0; the Italian data filter accepts exactly data types 0 and 1, the US one 0 and 3; the US MINIAOD filters accept file types 2 and 9 from sites below 9, from sites other than 9 and 16, and from sites other than 16 respectively. In a simulation a record refused by any active filter never reaches the cache and counts once as filtered.",
  ["inputs", "configurations"], "every record and every combination of active filters",
  "No existing test evaluates a filter.",
  [S+"simulation.go"], [("filters", S+"simulation.go:Check"), ("use in the simulation loop", S+"simulation.go:Simulate")])

p("C22", "A simulation reports exactly what its trace does to the cache, day by day",
  "For every day of the trace inside the configured window that a later record closes, the result file has one row in order, and its columns are the figures of that day for a cache that was fed exactly the accepted records of the window in order (each record once, with a new day starting when a record is at least 23 hours after the day's first one). Records before the window are skipped, the run stops at the window's end, records with an impossible CPU efficiency are dropped as invalid, and the run statistics count total, skipped, filtered, invalid and redirected records so that everything read is accounted for exactly once.",
  ["inputs", "configurations", "histories"], "every trace, window setting, filter, cache type and capacity",
  "No existing test runs a simulation.",
  [S+"simulation.go"], [("simulation loop", S+"simulation.go:Simulate")])

p("C23", "The simulation log replays to the cache's state",
  "With the simulation log enabled, the log file is complete when the run terminates and holds, in order, one hit or miss line per request, an add line per admission, a free line followed by one delete line per evicted file for each release, and a redirect line per redirected request, each carrying the request counter, the occupied size and percentage at that moment and the file and its size where they apply. Replaying the add and delete lines reproduces the files held at the end.",
  ["histories", "configurations"], "every trace on the caches with a standard replacement queue and the randomised caches, any watermark and redirect setting, any length relative to the writer's buffer",
  "No existing test enables the log; loss or reordering depends on buffering and on the shutdown handshake.",
  [S+"simpleCache.go", S+"randomCache.go", S+"simulation.go"], [("log writer", S+"simpleCache.go:Init/flushAndCloseLog"), ("log lines", S+"simpleCache.go:UpdatePolicy/Free/Check/CheckRedirect")])

p("C24", "The neural-network predictor computes the model it was given",
  "Loading a model from plain or gzipped JSON and predicting gives, for every input vector, the layer-by-layer composition of weights, biases and activations (sigmoid, hard sigmoid and a final softmax) within floating-point accuracy. A final softmax yields non-negative outputs summing to one, and the predicted class is the position of the largest output.",
  ["inputs", "configurations"], "every well-shaped model (any depth and widths) and input",
  "There is no test of the predictor.",
  [S+"ai/neuralnet/neuralnet.go"], [("model loading", S+"ai/neuralnet/neuralnet.go:LoadModel"), ("prediction", S+"ai/neuralnet/neuralnet.go:Predict")])

p("C25", "Identifier hashes are the documented function of the name in both languages",
  "The hexadecimal digest of any string is its 8-byte BLAKE2b digest, in the simulator and in the Python helper alike. The integer identifier is that digest as a 64-bit number reduced modulo ten to the tenth, and in the simulator truncated to 32 bits, so equal names always get equal identifiers.",
  ["inputs"], "every string (ASCII for the Python helper)",
  "One test pins the hash of one string.",
  [S+"utils.go", "SmartCache/utils/hash_tool.py"], [("Go hash", S+"utils.go:HashHexDigest/HashInt"), ("Python hash", "SmartCache/utils/hash_tool.py")])

p("C26", "The command line runs the simulation its configuration file describes",
  "Running the simulator on a YAML configuration performs the simulation of the configured cache (type, size and unit with factors of 1024, watermarks, bandwidth and redirection, region filters, window, seed and statistics settings, with the documented defaults for settings left out) on the configured data and writes its results, run statistics, learned tables and requested dump into the output folder named after the configuration. Relative paths are taken from the configuration's folder, finished results are not overwritten unless asked, and a run continued from a dump starts with the dumped files unless a cold start is asked for, and keeps the earlier results of the folder under numbered names.",
  ["configurations", "inputs"], "every combination of the listed settings over generated traces, sizes in M, G, T, P in either case",
  "No existing test runs the command.",
  ["SmartCache/sim/main.go", S+"simulation.go"], [("configuration", "SmartCache/sim/main.go:configureViper/simCommand"), ("size units", S+"simulation.go:GetCacheSize"), ("cache selection", S+"simulation.go:Create/InitInstance")])

p("C27", "Row converters emit every feature once, in name order",
  "Converting a record to CSV gives its values joined by commas in the order of the sorted feature names (in sequence order for plain sequences); converting it to libSVM gives the label followed by index:value pairs numbered from 1 over the sorted names of all other features. The result does not depend on the insertion order of the record and leaves the record unchanged.",
  ["inputs"], "every record of scalar features with any names, any label name",
  "Two tests convert one fixed record each.",
  ["DataManager/agent/converter/csv.py", "DataManager/agent/converter/libSVM.py"], [("CSV", "DataManager/agent/converter/csv.py:row"), ("libSVM", "DataManager/agent/converter/libSVM.py:labeled_row")])

p("C28", "JSON data files return exactly what was written, however they are accessed",
  "Records written to a JSON data file as objects, JSON strings or lists and generators of them, plain, gzip- or bzip2-compressed or into a given stream, in one session or appended in several, are read back equal and in order by iteration, by index (from the start or the end), by slice and from any starting position, in any order of accesses and with any valid position checkpoints. The length is the number of records, indexes outside the file raise an index error, and something that is not JSON is refused without writing it.",
  ["inputs", "histories"], "every sequence of records, write forms, compressions and reader operations",
  "The repository's own test of these files cannot run at this commit, and it compares two records of one file.",
  ["DataManager/collector/datafile/json.py", "DataManager/collector/datafile/utils.py"], [("writer", "DataManager/collector/datafile/json.py:JSONDataFileWriter"), ("reader", "DataManager/collector/datafile/json.py:JSONDataFileReader"), ("slices and streams", "DataManager/collector/datafile/utils.py")])

p("C29", "The Q-learning prototype's table and cache keep their contracts",
  "In the stand-alone Q-learning prototype a state built from feature values selects for each feature exactly one bucket (the first limit not below the value, the open bucket otherwise), updating an action of a state changes the value read back for that action only, to q + 0.9*(reward + 0.005*max - q), and the recommended action has the largest value. Its cache never exceeds its size, makes room by evicting its lowest-value files (size times request count) first and only as long as the new file does not fit, leaving files it already holds and files bigger than itself alone, and reports occupancy, points and lowest value consistent with its content.",
  ["inputs", "histories"], "every feature configuration and update sequence; every request sequence",
  "The prototype has no tests.",
  ["qLearning_smartCache/qtable/qtable.go", "qLearning_smartCache/cache/cache.go"], [("table", "qLearning_smartCache/qtable/qtable.go"), ("cache", "qLearning_smartCache/cache/cache.go")])

p("C30", "The Python LRU cache matches an LRU reference model",
  "For any request sequence the Python cache hits exactly when an LRU model of the same capacity does, evicts least recently used files only as far as needed to fit the new one, never exceeds its capacity, and its hit, miss, written, read and deleted totals and per-file counts match the model's. A file larger than the whole cache is not admitted.",
  ["histories"], "every request sequence with constant file sizes, any capacity",
  "The Python cache has no tests.",
  ["SmartCache/pySim/cache.py"], [("cache", "SmartCache/pySim/cache.py:LRU")])

p("C31", "Feature records keep their features, validity and identity through serialisation",
  "A popularity record extracts store type, campaign, process and file type from the logical file name, is valid exactly when it could and its filters accept them, and refuses no well-formed name; raw records are valid exactly when their filters accept them and then carry every listed feature. The identifier of a record depends only on its features and not on their insertion order, features are listed in name order, and dumping and reloading (or pickling) a record preserves features, class, identity, counters and validity; merging two score records adds their CPU time and request counts.",
  ["inputs"], "every well-formed or malformed file name, feature dictionary and filter set",
  "No existing test covers these classes.",
  ["DataManager/collector/datafeatures/extractor.py", "DataManager/collector/datafeatures/utils.py"], [("records", "DataManager/collector/datafeatures/extractor.py"), ("features and identity", "DataManager/collector/datafeatures/utils.py")])

p("C32", "Dataset stages and pipelines hand on exactly the records they should",
  "The raw stage turns every analysis record of its inputs into a raw feature record, the featured stage keeps exactly the records of data and Monte Carlo files with the features of their names, and the test-0 stage gives one record per combination of features with the summed CPU time and number of requests of its records, classed good when its mean CPU time is at least the average of all. No record is lost or given twice, whatever the sizes of the inputs, the number of worker processes or the use of Spark. A pipeline runs its stages on each other's output and its result, saved result, saved stage outputs and statistics hold that output; a window of days from the local disk yields each day's records in order, and the dates of a window are the days from its start (or from the window after it) in the given steps.",
  ["inputs", "schedules"], "every sequence of records and division of it into inputs, any number of workers, any window",
  "The repository's tests of the composer cannot run at this commit; a lost batch depends on the timing and number of workers.",
  ["DataManager/collector/dataset/stage.py", "DataManager/collector/dataset/generator.py", "DataManager/collector/dataset/resource.py", "DataManager/collector/dataset/utils.py"], [("stages", "DataManager/collector/dataset/stage.py"), ("pipeline", "DataManager/collector/dataset/generator.py:Pipeline"), ("local resources", "DataManager/collector/dataset/resource.py"), ("windows and settings", "DataManager/collector/dataset/utils.py")])

p("C33", "Avro data files return exactly what was written, and sources open by content",
  "Records of one shape (any nesting of scalars, lists, maps and records) written to an Avro data file, with a given or a deduced schema and codec, to a path, memory or a temporary file, in one session or appended, are read back equal and in order by iteration, index, slice, chunk and after pickling, in any order of accesses, also through the writer itself and from its raw content. The length is the number of records, a length asked for in the middle of an iteration does not disturb it, an index beyond the file is an index error, and data which are no records are refused. DataFile opens a source as JSON or Avro according to its name or content, whatever text the records contain, and refuses other files.",
  ["inputs", "histories"], "every record shape, sequence of records, write sessions and reader operations",
  "The repository's tests of these files cannot run at this commit, and they use one fixed record.",
  ["DataManager/collector/datafile/avro.py", "DataManager/collector/api.py", "DataManager/collector/datafile/utils.py"], [("writer", "DataManager/collector/datafile/avro.py:AvroDataFileWriter"), ("reader", "DataManager/collector/datafile/avro.py:AvroDataFileReader"), ("choice of a reader", "DataManager/collector/api.py:DataFile")])

p("C34", "Encoded training data decode to the dataset they were made from",
  "A support table numbers the values seen for each feature from 0 in one order that depends only on the set of values, for every sequence of insertions, regenerations, pickling and reloading, and gives a value the index of a key it begins with or the unknown one. A dataset reader encodes every record's features, normalised or one-hot, and its class so that they decode to that record's values; in k folds every fold holds every record once, in the training or the validation part, and validation parts follow each other. A converter map gives each value or bucket of a column a different number, and the one-hot table built from it has one row per record whose columns determine the category of each value; saving and reloading the table changes nothing.",
  ["inputs", "histories"], "every dataset of string features and every table of integer, float, string and boolean columns with any buckets and options",
  "No existing test covers these classes.",
  ["DataManager/collector/dataset/reader.py", "DataManager/collector/dataset/utils.py"], [("support table", "DataManager/collector/dataset/utils.py:SupportTable"), ("dataset reader", "DataManager/collector/dataset/reader.py:CMSDatasetTest0Reader"), ("simulator dataset reader", "DataManager/collector/dataset/reader.py:SimulatorDatasetReader")])

p("C35", "Remote storage clients do what they were asked and report refusals",
  "Against a WebHDFS server every operation of the client (create, open, list, delete, make folders) acts on exactly the path it was given, whatever characters it has, with the content, overwrite and recursion it was given; it returns what the server holds and raises an error if the server refused it, leaving the files as they were. Requests carry the configured users. Every document put into Elasticsearch, alone or in bulk, is stored unchanged under an identifier that depends only on its content. A window of days read from HTTPFS yields the records of all files of all days in order, and results saved there are read back equal.",
  ["inputs", "histories"], "every sequence of operations, paths and refused requests; every set of documents; every window",
  "Existing tests of the clients need a live server.",
  ["DataManager/agent/api.py", "DataManager/collector/dataset/resource.py"], [("HTTPFS", "DataManager/agent/api.py:HTTPFS"), ("Elasticsearch", "DataManager/agent/api.py:ElasticSearchHttp"), ("days of a window", "DataManager/collector/dataset/resource.py:CMSResourceManager")])

p("C36", "The AI evaluation compares what its caches and models really do",
  "The evaluator's simple, FIFO and LRU caches hold what a model of them holds after every request (FIFO and LRU evict the oldest or least recently used file only when a new file is stored in a full cache; a request answered from the cache or not stored evicts nothing), with the hit rates and sizes of all requests so far, also when they continue from a saved state. A comparison asks the model for every request once, stores in the AI cache exactly the files the model predicts to store, gives the histories of both caches with the CPU time saved on hits and marks the ends of days, and gives the same when it is continued in parts. Model generators classify by the largest output, export their weights unchanged, and fit every fold they are given with the settings they were given.",
  ["inputs", "histories"], "every request sequence, prediction and division into parts; every dense model and training set",
  "No existing test covers these classes.",
  ["SmartCache/ai/models/evaluator.py", "SmartCache/ai/models/generator.py"], [("caches", "SmartCache/ai/models/evaluator.py:LRUCache"), ("comparison", "SmartCache/ai/models/evaluator.py:Evaluator"), ("models", "SmartCache/ai/models/generator.py")])

p("C37", "The Probe's conversion, loading and counting of traces lose nothing",
  "Category numbers given by the Probe's converter are the numbers from 0 for each column, stay the same in later files and runs, and can be queried for every value; each converted file, plain, shuffled with a seed or put in a given order, decodes with them to exactly the records of its source that belong to the region, with the region, campaign and process columns of the record. Loading a file or folder gives the records of every file that pass the region, file type and month filters, in the order of the files, whether they are generated, listed or concatenated. The feature analysis counts each value of the good requests (sizes, requests per file and distances between requests of a file in each group of days) in the one bin it belongs to, and plots the percentages of these counts.",
  ["inputs", "histories"], "every table of requests, folder of files, filter, order, sequence of runs and bins",
  "The Probe has no tests.",
  ["Probe/probe/converter/utils.py", "Probe/probe/converter/__main__.py", "Probe/probe/converter/inspect.py", "Probe/probe/loaders.py", "Probe/probe/analyzer/features.py"], [("categories", "Probe/probe/converter/utils.py:CategoryContainer"), ("converter", "Probe/probe/converter/__main__.py:main"), ("loaders", "Probe/probe/loaders.py"), ("features", "Probe/probe/analyzer/features.py:Features")])

p("C38", "The Probe reports simulation results as they are",
  "Every result file under the given folders is found with its records, its log and the components its path names. The log of a simulation is evaluated for every removal event with the files and size it deleted and the number of misses of those files until the next event, and the frequencies of missed deleted files and of skipped files are those of the log; reports and plots hold these numbers, also when some simulations have no log. Measures are computed day by day by their formulas (zero when a column is missing); filters select exactly the results with all, or any, of the chosen components; tables rank the selected results by throughput, cost, read on hit and misses after deletion and show as many as asked for. The dashboard shows these results for the current selection, whatever was shown before, and its downloads hold the table it shows.",
  ["inputs", "histories"], "every log, tree of results, selection and session of the dashboard",
  "The Probe has no tests.",
  ["Probe/probe/results/utils.py", "Probe/probe/results/data.py", "Probe/probe/results/dashboard.py", "Probe/probe/results/plotters.py"], [("log", "Probe/probe/results/utils.py:parse_sim_log"), ("results", "Probe/probe/results/data.py"), ("dashboard", "Probe/probe/results/dashboard.py:create"), ("plots", "Probe/probe/results/plotters.py")])

p("C39", "The figures drawn of a dataset are those of its records",
  "From the requests of a dataset the Probe draws, and writes, exactly what they contain. The upper limits of each day are the hit rate, the read on hit percentage and the size of a cache that keeps everything, over the successful requests of data and mc files, with their averages; a day without such requests is left out. The daily statistics show for each file requested more than once its requests, users, sites, distances between requests and sizes at the numbers of its requests, files requested once apart, and start anew after each given number of days. The weekly statistics count users, sites, jobs, tasks, files, requests and requests per file of each whole week of seven days. The global statistics show the counts of each day under their names, the sizes below 10 GB by calendar month and type, and the shares of data and file types with their labels, whether the days come in one frame or one by one.",
  ["inputs"], "every set of days and records, also days without any successful request, gaps between days and files requested over several days",
  "The Probe has no tests.",
  ["Probe/probe/plotter/stats.py", "Probe/probe/analyzer/__main__.py", "Probe/probe/loaders.py", "datasets/add_hit_upper_bound.py"], [("upper limits", "Probe/probe/plotter/stats.py:plot_global_upper_limits"), ("global", "Probe/probe/plotter/stats.py:plot_global_stats"), ("daily", "Probe/probe/plotter/stats.py:plot_daily_stats"), ("weekly", "Probe/probe/plotter/stats.py:plot_week_stats"), ("printed bounds", "datasets/add_hit_upper_bound.py:main")])

p("C40", "An admission agent is rewarded exactly for what became of its choices",
  "Each processed miss makes the admission agent remember its choice for the file with the state it was made in; each reward is learnt once, in order, by the Bellman update of the chosen action, adds to the agent's total and lowers its exploration by a step, and nothing else changes what it knows. When a file is requested again a cache of the first kind (SCDL) rewards the choices remembered for it and forgets them: minus the size in GB if the file was refused while misses read less than half the bandwidth or less than a tenth of the data read was written, or stored while misses read over three quarters of it or over half of the data was written; minus the size again if over half of the data read was missed; and when no penalty applied, plus the size on a hit or minus it on a miss. A cache of the second kind (SCDL2) keeps them all and, once each request is decided, rewards every remembered choice of its file except the last two, towards the state of the choice after it: 1 on a hit, -1 on a miss, -2 on a miss if the file had been refused.",
  ["histories", "configurations"], "both learning types with an admission agent, generated feature maps, capacities, bandwidths and traces with resets",
  "No existing test creates a learning cache.",
  [S+"aiRL.go", S+"ai/qlearn/qlearn.go"], [("delayed reward", S+"aiRL.go:delayedRewardAdditionAgent"), ("choice", S+"aiRL.go:UpdatePolicy"), ("state", S+"aiRL.go:getState4AdditionAgent"), ("update", S+"ai/qlearn/qlearn.go:UpdateTable")])

p("C41", "An eviction agent is rewarded exactly for what became of its choices",
  "A call of the eviction agent decides in the state of each file category (its size, requests and recency limits, its share of the cache, the occupation and the hit rate) and remembers the choice for every file it deletes or deliberately keeps, in order. Each request rewards the remembered choices of its file except the last, towards the state of the next: on a hit 1 for a deleted file and 2 for a kept one, 3 if the occupation did not grow until the next choice; on a miss -1 for a kept and -2 for a deleted file, -3 if the occupation grew. A forced call first takes 1 from every choice to keep since the last one, towards each state of the last decision of the same size and recency and at least as many requests, and forgets them; after any call made to fit a file each state of the last decision earns 1, or loses 1 where nothing was to be deleted and the file still does not fit, and each reward is one Bellman update, added to the total, and one step of exploration.",
  ["histories", "configurations"], "learning caches with an eviction agent, with and without an admission agent, each trigger, generated feature maps with the three file features, and traces with resets",
  "No existing test creates a learning cache.",
  [S+"aiRL.go", S+"aiRLCatStateManager.go", S+"ai/qlearn/qlearn.go"], [("delayed reward", S+"aiRL.go:delayedRewardEvictionAgent"), ("punishment", S+"aiRL.go:punishEvictionAgentOnForcedCall"), ("reward of a call", S+"aiRL.go:rewardEvictionAfterForcedCall"), ("states", S+"aiRLCatStateManager.go:GetStateFromCategories")])

p("C42", "A learning cache explores again exactly when its rewards keep falling",
  "Whenever the time of the requests changes while an agent's exploration is within 0.01 of its minimum, the agent's total reward is compared with the one at the last such change (a total of zero counts as none). After eight falls in a row without a rise or a standstill, and not before, an agent that may be unleashed explores fully again with its schedule restarted if its total is negative, or is set to at most half the exploration if not; with a negative total it also forgets every remembered choice; the count then starts anew. The two agents of a cache are judged apart, and nothing else at the start of a request changes what they know.",
  ["histories", "configurations"], "learning caches with either or both agents, unleashing allowed or not, over many days of falling and rising rewards",
  "No existing test creates a learning cache, none runs for more than a few requests.",
  [S+"aiRL.go", S+"ai/qlearn/qlearn.go"], [("falls", S+"aiRL.go:BeforeRequest"), ("unleashing", S+"ai/qlearn/qlearn.go:UnleashEpsilon")])

p("C43", "The caches of the weight study replace as specified and report what they did",
  "In scripts/DataAnalysis the LRU cache throws out least recently used files until a missed file fits, and the weighted cache stores a missed file that does not fit only by throwing out files of greater weight, heaviest first and no more than needed, with the weight of a file the cost of its size, its requests and its group's age; both never exceed their size, keep what fits, and a file bigger than the cache changes nothing. Their hit rate, occupation, data written, data read on hits, their histories, copies and stored states are those of the requests made, also after the cache, its weights or its histories were cleared. The driver simulates every cache it was asked for with the requests of its region, window by window in the order of the days, clears what the options say in between, and draws or sends exactly those figures; results stored in parts load as the whole.",
  ["histories", "inputs", "configurations"], "LRU and weighted caches with six cost functions and clears, copies and restores in between; data folders of several days, missing values, regions, windows and options of the driver, drawn or sent to a plot server",
  "scripts/DataAnalysis/test_weight_function.py needs packages that are not there and measures only speed.",
  ["scripts/DataAnalysis/weight_function.py"], [("replacement", "scripts/DataAnalysis/weight_function.py:LRUCache.get, WeightedCache.get"), ("driver", "scripts/DataAnalysis/weight_function.py:main, simulate")])

p("C44", "The plot server shows the points it was sent, also after a restart",
  "The tables of scripts/DataAnalysis/plot_server.py hold for each cache and window the points it was sent in order, a point sent again replaces the earlier one, windows may have none, and nothing is lost over a restart; a deletion empties everything for good. A plot draws for each cache that matches all filters one line of its points with the windows marked, the ratios and differences are those of data read on hits and data written, comparisons are with the LRU cache of the same size (and the same options where there is one), and up to ten caches have different colours. The info plots of a window show its weights in falling order with the files held by each cache, and the shares of all its hits and misses by file size; the status counts what is there.",
  ["histories", "configurations"], "sessions of updates, single insertions, repeated points, infos, plots with filters, restarts and deletions over two to eight caches",
  "Nothing tests the plot server.",
  ["scripts/DataAnalysis/plot_server.py"], [("tables", "scripts/DataAnalysis/plot_server.py:insert_line_in_table, save_table, load_table"), ("plots", "scripts/DataAnalysis/plot_server.py:plot_line, plot_info_window")])

p("C45", "The trace statistics describe the requests of each day and window",
  "scripts/DataAnalysis/statistics.py extracts from the data file of each day one row per record, in order: the day, the names, the protocol, the success (exit code 0; none is a failure), the job's length in whole hours and minutes, the CPU time per core and the remaining time, and the size of the file in the database of data or mc files, none when unknown, however many records and datasets there are, and also when processes share the sizes in a Redis cache. Plotted windows are consecutive groups of the given number of days, the last possibly shorter. For each they count requests, files, users, sites, tasks, jobs and protocols, CPU and I/O times by protocol, requests per file also of files requested more than once, distinct files per job, task and user, jobs per task and user, tasks per user, and the sizes of all files and of those requested once, more than once or at least n times; the six figures show these numbers under their names.",
  ["inputs", "schedules", "configurations"], "days of up to 45000 records of 4500 datasets, with and without databases, shared cache partly filled by other processes, stored results in two formats, window sizes",
  "Nothing tests the statistics.",
  ["scripts/DataAnalysis/statistics.py"], [("extraction", "scripts/DataAnalysis/statistics.py:Statistics, make_stats"), ("windows", "scripts/DataAnalysis/statistics.py:make_dataframe_stats, plot_windows")])

p("C46", "Trace preparation scripts lose and invent nothing",
  "For every period of days the log filters store, for each day of the period and no other, one object that holds exactly the analysis records of that day's source object (of data and mc files only, for the second script), unchanged and in order, under the day's name in the derived bucket; moving from HDFS stores each day's file unchanged under its name. A refused or missing object is reported (a refused upload of the move is skipped) without touching the other days' objects or the source, a later run completes the work, and no temporary file is left by a complete run. Cleaning a folder writes for each table exactly its rows without missing values, without an index column, leaving the source as it was. The bounds on hit rate and read on hit of a table are those of an unlimited cache over its successful requests.",
  ["inputs", "fault_sequences"], "every period, set of records, table with missing values and refused object",
  "The scripts have no tests; they need an object store.",
  ["scripts/filter_analysis_logs.py", "scripts/filter_analysis_data-mc_logs.py", "scripts/move_data_hdfs2minio.py", "scripts/DataAnalysis/clean_csv.py", "datasets/add_hit_upper_bound.py"], [("filters", "scripts/filter_analysis_data-mc_logs.py:main"), ("move", "scripts/move_data_hdfs2minio.py:main"), ("cleaning", "scripts/DataAnalysis/clean_csv.py:main"), ("bounds", "datasets/add_hit_upper_bound.py:main")])

p("C47", "Study scripts write every configuration and compare the right results",
  "The generators of simulation configurations write one readable configuration for every combination of the parameters they vary and no other, with exactly the settings of its combination and the data and feature maps they were given, replacing those of an earlier study; results go to a folder that names region, window, watermarks and size, and different simulations never write to the same place. Composing parameters gives, for every base a condition admits and every value, one independent copy with that value, keeps the excluded bases as they are and changes no base. The difference scripts print, for each cache size and method that has all its variants (fast and slow exploration, or without the size feature), the difference of throughput, cost, read on hit ratio and bandwidth from the normal run as percentage of the mean of both, negative when the variant is lower, whatever the order of the rows, and the means of the printed differences.",
  ["inputs"], "every folder, feature map, set of parameters and table of results with positive figures",
  "The scripts have no tests.",
  ["scripts/tests/generator.py", "config/simulations/weight_function_italian_dataset/100T/make_configs.py", "scripts/resultAnalysis/epsilon_diff_calc.py", "scripts/resultAnalysis/noSize_diff_calc.py"], [("study", "scripts/tests/generator.py:generator"), ("composing", "scripts/tests/generator.py:compose"), ("weights", "config/simulations/weight_function_italian_dataset/100T/make_configs.py:main"), ("differences", "scripts/resultAnalysis/epsilon_diff_calc.py:calc_diff_perc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
