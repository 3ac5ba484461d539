# id -> (specified, oracle and how it judges, workload and bounds, why beyond tests)
P = {
"C01": ("byte offsets and texts of every segment", "tiling monitor: first start 0, each start = previous end, last end = length, bytes equal (ASCII lower-cased); the argument compared afterwards",
  "dictionaries by five routes (one of them by edits with detours), all option sets, options changed after loading, 40 huge texts of up to a megabyte", "a wrong offset needs an odd unit width, a NUL, a long text"),
"C02": ("minimality of the division; frequency and tag of each segment", "independent shortest path over a plain map; locally optimal windows on long paths; each segment looked up in the model",
  "five frequency shapes incl. sums below 1, divisions that differ by 0.0002 bits, up to 180 nested words, 64–300 units per word, the shipped dictionary", "optimality is a statement about all divisions"),
"C03": ("SplitTextToWords", "reference splitter written from the rule", "every combination of AlphaNum, Alpha, Num, ToLower over all character classes and random bytes; runs of up to 16384 characters of one kind", "classes of Unicode are not sampled by tests"),
"C04": ("Cut(text,false), CutDAGNoHMM", "dynamic programme over all divisions, log probabilities compared with tolerance, joining rule checked item by item", "words up to 40 characters, ties, tiny totals, prefix-only characters, shipped dictionary on real text", "needs the best of exponentially many divisions"),
"C05": ("Cut(text,true), CutDAG with and without user expressions", "the unique best route; runs of single characters replayed through the HMM cut", "texts with near ties check losslessness only; runs of every length at both ends", "hand-over bugs need a run at a boundary"),
"C06": ("HMMCut, hmm.Cut, hmm.Viterbi, LoadModel", "cut turned back into states and scored under a golden copy of the model, compared with the best of an independent programme; token rules for non-Han text", "shipped model, random user maps (also incomplete), empty and anchored expressions, rare Han, runs of up to 16383 characters; processes whose first use of the HMM follows each way of loading a dictionary", "the golden tables also notice a changed model"),
"C07": ("CutAll", "brute-force list of all occurrences; the output explained item by item", "nested and repeated words, 40-character words", "multiplicity and order need overlapping words"),
"C08": ("CutSearch", "list derived from Cut and a plain map", "words with 2- and 3-character sub-words, prefixes that are no words", "as above"),
"C09": ("token trees, String/Slice/Pos/ModeSegment/CutSearch in search mode", "sub-segments against the shortest division into shorter words; eleven normal and seven search forms against the tree", "words of words, kana (which is left out), one-word texts", "forms agree only if each is compared with the tree"),
"C10": ("Find, Value, NumTokens, TotalFreq, MaxTokenLen after edits", "map model after every edit, asked through the segmenter, its dictionary and a tagger", "histories of 10–9000 edits over prefixes and extensions; 150000 histories per quick run", "state bugs need histories"),
"C11": ("all cuts after CalcToken", "differential: edited against freshly loaded in random order, ten forms incl. token trees", "re-additions that keep count and sum, removals, three recalculation points", "needs history then comparison"),
"C12": ("every loading route", "line-rule model; dictionaries compared word by word", "separators, CRLF, no final line end, readers with odd portions, malformed lines, LoadNoFreq, MinTokenFreq, TextFreq; sources of up to 275000 lines", "cross-route equality for every source"),
"C13": ("errors of loads", "fault-injecting readers (every byte position, with or after data, stuck), missing files, directories, unreadable system files, data directories in which one of the files that a name (or no name) stands for is missing; content must be the complete lines before the fault; repeat must succeed", "32000 faults per quick run", "I/O faults are not in any test"),
"C14": ("accumulation over loads, Empty, names", "first-wins list model, fresh segmenter for ten cuts; second build for embedded dictionaries and NewEmbed", "histories of up to 10 loads by every route, also by name in a data directory of the case", "order of loads matters only over histories"),
"C15": ("all reading operations at once", "race detector; every concurrent result against the same call alone and on a twin; arguments compared", "2–16 goroutines, same-first starts before anything was initialised, processes whose first calls are concurrent, the shipped dictionary", "schedules"),
"C16": ("two or more objects", "race detector; untouched objects must answer as before; set and map models per object; shared files, strings and maps", "all constructors and loaders, edits while others cut, model exchange", "aliasing shows only across objects"),
"C17": ("tools/server", "race detector inside the server process; recorded histories of each word checked for linearizability (register that keeps the first value); JSON and losslessness of each answer; process exits and panics", "3–12 clients, GET and POST, with and without -hmm; one text asked for by many while its words are added; hostile requests", "freshness is a property of histories"),
"C18": ("stop words", "set model after every operation; filters against it; zero, new and default extractor lists; second build for the embedded list", "24000 histories per quick run; files that are rewritten between loads", "state"),
"C19": ("every filter of trim.go and seg_utils.go", "rule per filter, character by character or item by item; argument and the array behind it compared afterwards", "all classes, markup, invalid UTF-8", "a filter is a statement about every character"),
"C20": ("Analyze, FindAllOccs", "span rules with counts of equal words; brute-force occurrence list", "cuts of every mode and made-up lists, self-overlapping searches, ToLower off", "overlaps"),
"C21": ("SuggestFreq", "suggest, add, recalculate, cut: the word must be whole; bounds for pairs", "words with strong parts; 48000 vocabularies per quick run", "numeric margins"),
"C22": ("pos.Segmenter.Cut and its filters", "expected items from an independent route and rules; tag paths scored under a golden copy of the model", "Han runs of every length (up to thousands of characters), edits between the cuts, letters and digits in runs, taggers that had another dictionary before, one-word dictionary, shipped dictionary", "the path is the best of exponentially many"),
"C23": ("ExtractTags, Idf", "TF-IDF reference with median; order and ties; repeated calls", "histories of IDF and stop-word loads; dictionaries of up to 460 words; second build with the embedded IDF list", "ties, medians, reloads"),
"C24": ("TextRank", "independent PageRank over the recorded tagging; order; bit-for-bit repeats", "texts up to 100 pieces, random tag sets", "map order shows only by repetition"),
"C25": ("everything", "panic, hang and memory watchdog", "histories of 10–49 operations on any state, hostile texts, runs of thousands, odd models", "the product of states and inputs"),
"C26": ("every reading operation, any order, edits in between", "differential: objects that were read before against a set for which only the edits were made, after every read; kept results compared later; results overwritten with their capacity and the call repeated; arguments compared, and overwritten while results are kept", "36000 reads in 1500 histories per quick run, 94 operations", "remembered or shared state shows only in sequences"),
}
