# What every check compares the explored executions with (DESIGN.md, section 5).
REF = "mc/refcache.go, recounted from the history after every operation"
ORACLE = {
"C01": "invariants over the listing of the contents (the sum of the sizes, the reported occupancy, the configured size) after every operation.",
"C02": REF + ": the contents summed up, and the counters against their changes since the last reset.",
"C03": REF + ": membership before and after every request, `Check`, and the value reported to the simulation loop.",
"C04": "the model's contents sorted by last request; compared with the listing in both directions and with the set of files every operation removed.",
"C05": "as C04, sorted by number of requests and then by last request.",
"C06": "as C04, sorted by size and then by last request.",
"C07": REF + ": admission by size, the evicted set as the shortest prefix of the policy's order that reaches the size.",
"C08": "a sorted Go slice with the queue's criterion; all listings, lookups and removals of every operation.",
"C09": REF + ": every figure of the statistics recomputed from the list of served requests.",
"C10": REF + ": the averages recomputed from the list of (outcome, protocol, efficiency).",
"C11": REF + ": the threshold recomputed from the misses since the last reset; everything else compared with the state before.",
"C12": REF + ": the shortest prefix of the policy's order that frees the distance of the marks.",
"C13": "a twin of the cache with the same history without resets: contents, order, files' statistics, later decisions.",
"C14": REF + ": the set of files deleted by the last admissions recomputed from the history.",
"C15": REF + ": per file counts, instants (last 32) and intervals recomputed from the list of its requests.",
"C16": REF + ": the purge recomputed from the instants of the last requests.",
"C17": "the weight formulas written out in the model, over recounted statistics; the mean over all tracked files.",
"C18": "the decisions of the canonical history of the seed: the k-th draw is the same whatever happens between.",
"C19": "membership in the dataset; the LRU model over its files.",
"C20": REF + " without any bound.",
"C21": "a twin that is not dumped: contents, order, files' statistics, every later decision and figure that the dump covers.",
"C22": "the original dump: loading a damaged one fails (an error or a controlled stop in a child process), or gives the state of the original.",
"C23": "a new cache that gets the second history alone.",
"C24": "a row-by-row model of the simulation loop (selection, day boundary, redirection) over the cache model, compared with the result csv, the statistics and the final contents.",
"C25": "the records grouped by calendar days in the model; every window's records, and the union of the windows.",
"C26": "the records written, field by field.",
"C27": "the operations of the history and the changes of the contents they caused, in order.",
"C28": "a twin kept in memory over the whole chain, to which only the start mode is applied: rows, contents, order and later decisions.",
"C29": "the bounds of the map: the first bucket whose upper bound is not exceeded, evaluated one by one.",
"C30": "the Cartesian product of the buckets; distinct combinations have distinct states, and all states are reached.",
"C31": "the Q-learning formula and the decay schedule evaluated over the list of updates.",
"C32": "the best action or the cell of the enumerated draw.",
"C33": "the categories recomputed from the features of the stored files (mc/rl.go) after every operation.",
"C34": "a list per key, cut to its last 32.",
"C35": "the model of the cache under the decisions actually taken (read from the actions of the agents).",
"C36": "the model of the decisions: due calls, the files each action names in their order, and what remains.",
"C37": "the state of the request computed in the model, and the action that a prepared table prescribes for it.",
"C38": "the rewards computed from the choices waiting at every request and daily figures; twins for the reproducibility.",
"C39": "the model's contents with the prototype's value formula; the shortest prefix of the least valuable ones.",
"C40": "the update formula over the list of updates; the bucket model of C30.",
"C41": "the Python list of records written.",
"C42": "the rows computed from the record's sorted names and the library's documentation of libsvm rows.",
"C43": "an ordered dictionary.",
"C44": "an independent implementation of the digests, and the other language's program on the same names.",
"C45": "the same simulation configured by hand through the library: result rows, dump records, names and logs.",
"C46": "the model of the archive server: the multiset of stored records and the report of failures.",
"C47": "the model of a name node and its file tree; a failing answer must become an exception and change nothing more.",
"C48": "the multiset of input records, and the stage functions applied one by one.",
"C49": "independent recomputation of sums, identifiers and tables.",
"C50": "the order of first appearance of the values.",
"C51": "the rows of the traces, selected, shuffled and numbered by order of first appearance; the traces themselves.",
"C52": "what the undamaged file gives, or a failing exit status.",
"C53": "the formulas of the layers evaluated with plain loops.",
"C54": "the reference model of C35-C37 writes its own log; categories of one consultation are compared as sets with running occupancies.",
"C55": "the rule of the rewards on the decisions the reference model took; the rate of learning is 1e-9, so the tables show rewards and following states without turning decisions.",
"C56": "the log is written together with what is to be known of it, one line after the other.",
"C57": "the figures of the simulations written, selected, ranked and averaged anew; for sequences of views, a new dashboard.",
"C58": "the position of every value looked up in the stored map by the rule of its kind, rows and folds composed anew from the values written.",
    "C59": "the figures counted anew from the requests written in the traces: those selected, by day, week, period and bin.",
    "C60": "a list of files in the order of their insertion or use and plain counts; curves and marks worked out from the trace.",
    "C61": "the first greatest score, the layers as they were made up, the parts of the training set handed out.",
    "C62": "nested lists changed by each request as the request says; curves, comparisons and shares worked out from them.",
    "C63": "one row worked out from each record and a table of sizes; processes under a scheduler that asks which goes on at every command of the cache and download, a process that would see again what it just saw waits.",
    "C64": "figures recomputed from the records with sets, and bars looked up by window and label.",
    "C65": "the records written to the log of the day, selected by their type and name.",
}
MISSED = {
    "decay-starts-over": "series of 70000 decays of epsilon with a slow decay",
    "file-sought-near-the-end-of-its-category": "hundreds of files in one category, which some leave",
    "quarter-of-a-byte": "hundreds of files in one category",
    "gain-in-whole-gigabytes": "files of more than a gigabyte in the rewards of SCDL",
    "state-pairs-of-16-bits": "a table of 196608 states",
    "requests-of-a-file-in-a-byte": "a file refused hundreds of times",
    "decisions-counted-in-a-byte": "hundreds of consultations in a day",
    "frequency-class-searched-in-part": "queues of 1500 and 40000 files added to C08",
    "terabytes-compared-whole": "the large sizes of the extremes now differ by less than one",
    "half-a-category-at-the-size-of-one": "a category of files of several sizes at the day's end (added before the change was tried)",
    "cleared-only-if-occupied": "extreme sizes, 0 among them, added to the single-cache properties",
    "dataset-names-as-numbers": "names that differ above 2^53 added",
    "dumps-of-short-lines": "dumps of large tables added",
    "purges-of-a-few-hundred": "purges of a thousand evicted files added",
    "runs-counted-up-to-ten": "up to a thousand earlier runs added",
    "seeds-of-32-bits": "pairs of seeds, equal in their low bits, added",
    "tiny-efficiencies-are-none": "extreme efficiencies added",
    "equal-sizes-are-one-file": "files of the same size added",
    "any-name-ending-like-the-region": "names of sites and files with the letters asked for elsewhere added",
    "six-is-twice": "requests at the bounds of the classes added",
    "dearest-first-on-ties": "runs equal in some of the measures they are ordered by added",
    "bounded-exponents": "great sums added",
    "first-member-only": "traces of several compressed parts added",
    "layers-of-a-name-share-weights": "layers of the same name added",
    "shuffles-of-other-seeds-count": "repeated conversions with different seeds added",
"fraction-of-a-megabyte-for-free": "sizes with fractions added",
"third-run-overwrites-the-first": "chains of three runs added",
"weights-of-two-levels": "tables of five features added",
"quarter-of-three-is-half": "categories of 1..14 files (bulk suites) added",
"state-before-the-request": "request mapped to its state by prepared tables",
"identifier-by-sorted-contents-in-bulk-only": "records with unsorted keys added",
"last-part-of-a-chunked-file-dropped": "parts that arrive short added",
"overwrite-lost-with-files": "both answers of the server to a creation",
"class-by-average-of-the-parts": "the record stage over scores (suite classes) added",
"processes-that-end-early-not-flushed": "scheduling at is_alive and empty (suite questions) added",
"sum-of-copies-counts-one": "sums of sums added",
"numbers-restart-after-loading": "four rows, loading between the files",
"campaign-from-the-name-s-end": "longer names added",
}
