R = "Every execution of the real code is compared with an independent reference model; assurance is that of the executions made (counts in the evidence), not a proof. Trusts the reference model in harness/."
NOTES = {
"C01": ("tiling oracle over generated and shipped dictionaries and hostile texts", R),
"C02": ("independent shortest-path oracle over recorded segmentations", R + " Divisions whose lengths differ by less than float32 noise are not distinguished."),
"C03": ("independent unit-splitting model compared with SplitTextToWords", R),
"C04": ("independent best-route oracle over accurate-mode output", R + " Where two routes are within rounding of each other either is accepted."),
"C05": ("route oracle plus HMM hand-over monitor", R + " The HMM's own cut is judged by C06."),
"C07": ("occurrence-list oracle over CutAll output", R),
"C08": ("sub-word oracle over CutSearch output", R),
"C18": ("set model compared after histories of stop-word operations", R),
"C19": ("rule oracle per filter, with the argument compared afterwards", R + " For the combinations the library's own cut is taken as given (judged by C01-C05)."),
"C20": ("span and occurrence oracle over Analyze and FindAllOccs", R + " Pieces with capital letters outside ASCII are the known finding C20-cased."),
"C23": ("TF-IDF reference over the recorded cut, repeated-call comparison", R + " The cut is judged by C05."),
"C24": ("independent PageRank over the recorded tagging, bit-for-bit comparison of repeated calls", R + " The tagging is judged by C22."),
"C25": ("panic, hang and memory watchdog over hostile operation histories", "Every execution is watched for panics, fatal errors, endless loops (processor-time watchdog) and memory growth; assurance is that of the executions made."),
"C21": ("suggest-and-add oracle over SuggestFreq", R),
"C06": ("HMM cut compared with an independent Viterbi over a golden copy of the model", R + " The golden tables were extracted from the shipped model once."),
"C09": ("sub-segment and output-form oracle over search mode", R),
"C10": ("map model compared after every dictionary edit", R),
"C11": ("differential monitor: edited segmenter against a freshly filled one", R),
"C12": ("line-rule model compared with every loading route", R),
"C13": ("I/O fault injection with error and content oracle", R + " Faults are injected through readers and real unreadable paths, not at the system-call level."),
"C14": ("first-wins model compared after every load, against a fresh segmenter", R),
"C15": ("Go race detector plus comparison of every concurrent result with the sequential one", R + " Interleavings are those the scheduler produced (varied by GOMAXPROCS, goroutine counts and start barriers); the race detector finds unordered accesses regardless of the order in which they happened."),
"C16": ("Go race detector plus result monitor while other objects are built, edited and emptied", R + " Interleavings are those the scheduler produced."),
"C17": ("race detector in the served process plus linearizability check of recorded request histories", R + " Interleavings are those that concurrent clients produced."),
"C22": ("route and tag-path oracle over recorded taggings", R + " Where the tagger's own route is not the most probable one (known finding C22-route) either route is accepted."),
"C26": ("differential monitor: objects that were read against ones that only had the edits; kept, overwritten and re-read results", R + " State kept at package level that treats all objects alike is seen only by the other properties."),
}
