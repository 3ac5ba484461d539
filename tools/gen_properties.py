#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "Segments tile the text exactly",
     "For any byte string, dictionary and option setting, the segments returned by Segment/ModeSegment are contiguous and in order: the first starts at byte 0, each starts where the previous one ends, the last ends at the end of the text. "
     "The text of every segment is exactly the bytes of the input between its start and end (ASCII letters lower-cased when lower-casing is on). "
     "Token.Equals says yes to exactly that text. The caller's byte slice is never modified.",
     ["inputs", "configurations"], "all byte strings (valid or invalid UTF-8), all dictionaries, all combinations of the splitting options, options set before or after loading",
     "Existing tests check offsets of one 8-character sentence with one 16-word dictionary.",
     ["segmenter.go", "token.go", "seg_utils.go"],
     [("forward shortest path and two backward scans that build the result", "segmenter.go:segmentWords"), ("text splitting", "segmenter.go:SplitTextToWords")],
     [("jumpers", "best way to reach each unit of the text", "segmenter.go:segmentWords")],
     ["Segment.Start/End/Token().Text()"])

prop("C02", "Segment returns a shortest path of dictionary words",
     "With path length log2(total frequency / word frequency) for a dictionary word and 32 for a single unit of text that is not a dictionary word, the segments returned by Segment have the smallest total length of all ways to divide the text into dictionary words and single units. "
     "Every segment is a dictionary word, reported with exactly the frequency and part of speech it has in the dictionary, or a single unknown unit reported with frequency 1 and part of speech \"x\".",
     ["inputs", "configurations"], "all texts and all dictionaries (including one-word dictionaries), after the path lengths were calculated by a load",
     "Tests check one sentence; optimality over all divisions is a minimum over exponentially many candidates.",
     ["segmenter.go", "dictionary.go", "dict_util.go"],
     [("dynamic programming over units", "segmenter.go:segmentWords/updateJumper"), ("path lengths", "dict_util.go:CalcToken"), ("prefix lookup", "dictionary.go:LookupTokens")],
     [("token.distance", "log2(total/freq)", "token.go:Token")],
     ["Segment(...) tokens: Text, Freq, Pos"])

prop("C03", "Splitting text into units is lossless and follows the options",
     "Splitting a text into units loses nothing: the units concatenated are the text, with only A-Z changed to a-z when lower-casing is on. "
     "A maximal run of letters and numbers encoded in at most two bytes is one unit, every other character is a unit of its own; the AlphaNum option makes every such letter and number its own unit, Alpha does so for letters and Num for numbers. "
     "Nothing else changes how units are formed.",
     ["inputs", "configurations"], "all byte strings, all 8 combinations of AlphaNum/Alpha/Num, lower-casing on and off",
     "TestSplit has eight sentences with default options only.",
     ["segmenter.go"],
     [("run scanner", "segmenter.go:SplitTextToWords"), ("ASCII lower-casing", "segmenter.go:toLower")],
     None, ["SplitTextToWords, SplitWords"])

prop("C04", "Accurate mode without HMM picks the most probable division",
     "Cut(text, false) and CutDAGNoHMM divide the (lower-cased) text without losing, adding or reordering a character. "
     "The division has the largest product of word probabilities (frequency/total) among all divisions of the text into dictionary words and, where no dictionary word starts, single characters (of frequency 1). "
     "Consecutive single ASCII letters and digits of that division are returned joined, and nothing else is joined.",
     ["inputs", "configurations"], "all valid texts (invalid bytes appear as U+FFFD) and all dictionaries",
     "Tests check a handful of sentences, and all but one of those need a dictionary that is not shipped.",
     ["dag.go", "gse.go"],
     [("DAG construction", "dag.go:getDag"), ("backward dynamic programming", "dag.go:calc"), ("joining", "dag.go:cutDAGNoHMM")],
     None, ["Cut(text,false), CutDAGNoHMM(text)"])

prop("C05", "HMM accurate mode keeps dictionary words and sends the rest to the HMM",
     "Cut(text, true) and CutDAG divide the (lower-cased) text without losing, adding or reordering a character. "
     "Every word of two or more characters on the most probable dictionary route is returned whole; each maximal run of single characters on that route is returned as the HMM cuts it (as it is when it has one character, character by character when the whole run is itself a dictionary word).",
     ["inputs", "configurations"], "all texts, dictionaries and user regular expressions",
     "All existing tests of this mode need the missing dictionary and fail; none passes.",
     ["dag.go", "hmm/hmm_seg.go"],
     [("route walk with a buffer of single characters", "dag.go:cutDAG"), ("delegation of unknown runs", "dag.go:hmm")],
     None, ["Cut(text,true), CutDAG(text,re...)"])

prop("C06", "HMM cut is lossless and follows the most likely state path",
     "HMMCut and hmm.Cut divide any text without losing, adding or reordering a byte (with the default or user regular expressions), and finish for every regular expression. "
     "Each run of Han characters is cut along the most likely begin/middle/end/single state sequence under the loaded model, which is the shipped default or exactly the four maps the user loaded; hmm.Viterbi returns that sequence and its log-probability. "
     "Text between Han runs is cut at ASCII words and numbers (decimals kept whole).",
     ["inputs", "configurations"], "all texts, all user models and user regular expressions",
     "Tests check one 6-character sentence and one mixed sentence with the default model.",
     ["hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/prob_emit.go", "hmm/prob_trans.go", "gse.go"],
     [("block scanner", "hmm/hmm_seg.go:Cut/locJudge"), ("Viterbi", "hmm/viterbi.go:Viterbi/probs"), ("model loading", "hmm/hmm_seg.go:LoadModel")],
     [("probEmit", "global emission model", "hmm/prob_emit.go")],
     ["hmm.Viterbi, hmm.Cut, Segmenter.HMMCut/HMMCutMod/LoadModel"])

prop("C07", "Full mode lists every dictionary word that occurs",
     "CutAll returns every occurrence of every dictionary word of two or more characters in the (lower-cased) text exactly once, ordered by start and then by length. "
     "Everything else it returns is a single character of the text, returned only where no longer dictionary word starts, so that every character of the text is covered by some returned item.",
     ["inputs", "configurations"], "all texts and dictionaries",
     "No passing test of full mode has overlapping dictionary words.",
     ["dag.go", "dictionary.go"],
     [("DAG of all words from each position", "dag.go:getDag"), ("listing", "dag.go:cutAll"), ("prefix walk", "dictionary.go:Find")],
     None, ["CutAll(text)"])

prop("C08", "Search-engine cut adds exactly the 2- and 3-character dictionary words",
     "CutSearch(text, hmm) returns the words of Cut(text, hmm) in order, each one preceded by exactly those dictionary words that are its 2-character substrings (left to right) and then its 3-character substrings (left to right), a substring of the full length of the word not being repeated. "
     "Every word listed before its parent is a dictionary word with a positive frequency.",
     ["inputs", "configurations"], "all texts, dictionaries, both values of the hmm argument",
     "The only tests of this need the missing dictionary.",
     ["dag.go", "gse.go"],
     [("n-gram expansion", "dag.go:cutForSearch")], None, ["CutSearch(text,bool)"])

prop("C09", "Search mode only adds sub-words: no word is lost, all forms agree",
     "In search mode (CutSearch(text), Slice/String/Pos/ModeSegment with true) every segment of normal mode is still returned, in the same order, for every text including one-word texts; what is added are sub-words printed before the segment they belong to. "
     "The sub-segments of a dictionary word are the pieces of its shortest division into shorter words (none if no division has a word of at least two units): they lie inside the word, in order and without overlap, with byte offsets relative to it, and leave out nothing but single kana. "
     "The string, slice and part-of-speech forms of the same segments list the same words in the same order with the same tags.",
     ["inputs", "configurations"], "all texts and dictionaries, including dictionaries with nested words and kana words",
     "Tests that cover search mode need the missing dictionary; only digits and letters are covered.",
     ["segmenter.go", "seg_utils.go", "dict_util.go", "gse.go"],
     [("sub-segmentation at load", "dict_util.go:CalcToken"), ("recursive renderers", "seg_utils.go:tokenToString/tokenToSlice/tokenToPos")],
     [("token.segments", "sub-segments of a word", "token.go:Token")],
     ["ToString, ToSlice, ToPos, String, Slice, Pos, CutSearch(text), Token.Segments"])

prop("C10", "The dictionary behaves as a map under any history of edits",
     "After any sequence of AddToken, AddTokenForce, ReAddToken and RemoveToken, Find and Value report a word exactly when it was added and not removed since, with the frequency and part of speech of the add that took effect: adding a word that is present changes nothing, re-adding one replaces it, removing or re-adding an absent word is an error and changes nothing. "
     "A string that is only a proper prefix of present words is reported as found with frequency 0 and removing it is likewise an error; any other string is not found. "
     "The word count and the total frequency are those of the words present. A word with a NUL byte is refused with an error and never found.",
     ["histories"], "all sequences of dictionary edits and lookups over words that share prefixes",
     "One test performs five edits on one dictionary (and it cannot run here).",
     ["dictionary.go", "dict_util.go"],
     [("trie insert/delete", "dictionary.go:AddToken/RemoveToken"), ("lookup", "dictionary.go:Find/Value")],
     [("trie -> index -> Tokens", "word to token mapping", "dictionary.go:Dictionary"), ("totalFreq", "sum of frequencies", "dictionary.go:Dictionary")],
     ["AddToken, AddTokenForce, ReAddToken, RemoveToken, Find, Value, NumTokens, TotalFreq"])

prop("C11", "An edited segmenter equals a freshly loaded one",
     "After any history of loads, additions, re-additions and removals that ends with the recalculation of path lengths (a load, AddTokenForce or CalcToken), every cutting mode gives the same result as on a new segmenter loaded once with the words then present. "
     "In particular the result does not depend on the order in which distinct words were added.",
     ["histories", "inputs"], "all edit histories over a vocabulary, all texts",
     "No test compares an edited segmenter with a fresh one.",
     ["dictionary.go", "dict_util.go", "segmenter.go"],
     [("recalculation", "dict_util.go:CalcToken"), ("dictionary edits", "dictionary.go")],
     [("token.distance, token.segments", "derived data of every word", "token.go"), ("maxTokenLen", "longest word", "dictionary.go")],
     ["all cut modes"])

prop("C12", "All loading routes read the same dictionary the same documented way",
     "A dictionary text (one word per line: word, frequency, optional part of speech, separated by the configured separator) gives the same dictionary whether loaded from a file, a reader, a string or a list of maps, with LF or CRLF line ends and with or without a final line end. "
     "A line is used exactly when it has a non-empty word and a finite frequency of at least the minimum (or, with LoadNoFreq, a word alone, which gets the default frequency and no part of speech); one-character words get frequency 2; of several lines for a word the first used one counts. "
     "Blank, short and malformed lines are skipped and affect no other line.",
     ["inputs", "configurations"], "all dictionary texts, separators, minimum frequencies, LoadNoFreq on and off",
     "Tests load a few well-formed files; malformed and mixed lines, and agreement between routes, are not covered.",
     ["dict_util.go", "dict_1.16.go"],
     [("line reader", "dict_util.go:Reader/ReadN"), ("frequency rule", "dict_util.go:Size"), ("string loader", "dict_1.16.go:LoadDictStr"), ("map loader", "dict_util.go:LoadDictMap")],
     None, ["LoadDict, Read, Reader, LoadDictStr, LoadDictEmbed, LoadDictMap, then Dict.Tokens/Find/NumTokens/TotalFreq"])

prop("C13", "Faults while loading are reported and never hang or corrupt",
     "When a dictionary or stop-word source is missing, unreadable or fails part-way with an I/O error, the load ends and returns an error; it never loops and never reports success for a truncated source. "
     "Words read before the fault are complete and correct, no word is made of a partial line that the fault cut short, and loading the source again once it can be read gives the same dictionary as if the fault had not happened.",
     ["fault_sequences", "crash_points"], "a fault at every byte of the source, every kind of reader error, missing files and directories at every position of a file list, followed by retries",
     "No test injects a read error.",
     ["dict_util.go", "stop.go"],
     [("error handling of the line loop", "dict_util.go:Reader"), ("file opening", "dict_util.go:Read"), ("scanner loop", "stop.go:LoadStop")],
     None, ["errors returned by LoadDict, Read, Reader, LoadStop; dictionary contents afterwards"])

prop("C14", "Dictionaries accumulate, earlier ones win, and Empty starts over",
     "Loads add to the dictionary, by whichever route and in whichever order: after loading several sources (in one call separated by \",\" or \", \", or in several calls) every word of every source is present, and a word in several sources has the data of the source loaded first. "
     "The names zh, zh_s, zh_t and jp/ja stand for the files under the data directory; empty names are left out. "
     "New and NewEmbed give a segmenter with the words of their first argument, divided letter by letter (AlphaNum) when the second is \"alpha\". "
     "After Empty, or after resetting the load flag before LoadDict, the next load starts from an empty dictionary and works as on a new segmenter; an emptied or never loaded segmenter finds no words and does not crash.",
     ["histories", "configurations"], "all sequences of LoadDict/LoadDictStr/LoadDictEmbed/LoadDictMap/Empty/AddToken with overlapping sources",
     "Tests load in one fixed order; Empty is never followed by a load.",
     ["dict_util.go", "dict_1.16.go", "gse.go"],
     [("dictionary creation", "dict_util.go:LoadDict/LoadDictMap, dict_1.16.go:LoadDictStr"), ("name resolution", "dict_util.go:DictPaths"), ("first wins", "dictionary.go:AddToken")],
     [("seg.Load, seg.Dict", "load state", "segmenter.go:Segmenter")],
     ["Find, NumTokens, TotalFreq after each step"])

prop("C15", "A loaded segmenter can be shared by any number of goroutines",
     "Any number of goroutines may use one loaded segmenter (and the POS tagger, keyword extractor, text ranker and package functions) at the same time through all reading operations: cutting in every mode, lookups, analysis, rendering, trimming and stop-word tests. "
     "There is no data race, and every call returns exactly what it returns when called alone.",
     ["schedules", "inputs"], "all interleavings of reading operations, including the very first calls after loading",
     "No test uses more than one goroutine.",
     ["segmenter.go", "dag.go", "dictionary.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/pos/pos_seg.go", "hmm/idf/textrank.go", "trim.go", "stop.go"],
     [("reading operations write no shared state", "segmenter.go, dag.go, dictionary.go, hmm, hmm/pos, hmm/idf")],
     None, ["race detector reports; results per call"])

prop("C16", "Segmenters are independent of each other",
     "Creating, loading, editing or emptying one segmenter, tagger or keyword extractor never changes the results of another one with its own dictionary, and may be done while others are in use without a data race or crash. "
     "Loading a dictionary does not replace an HMM model the user has installed, and stop words added to or removed from one object do not appear in or vanish from another.",
     ["schedules", "histories"], "all interleavings of construction/loading/editing of one object with use of others",
     "No test has two segmenters in use at the same time.",
     ["hmm/hmm_seg.go", "hmm/prob_emit.go", "dict_util.go", "hmm/idf/stop_words.go", "stop.go"],
     [("model loading at segmenter initialisation", "dict_util.go:Init -> hmm.LoadModel"), ("default stop-word tables", "hmm/idf/stop_words.go:NewStopWord")],
     [("probEmit", "process-wide HMM model", "hmm/prob_emit.go"), ("StopWordMap", "default stop words", "hmm/idf/stop_words.go, stop.go")],
     ["race detector; results of the other object"])

prop("C17", "The segmentation service is safe and fresh under concurrent requests",
     "The HTTP service answers concurrent segmentation and add-word requests without data races or crashes, and every segmentation answer is valid JSON whose texts concatenate to the (lower-cased) requested text. "
     "Once an add-word request (with a word free of NUL bytes and a positive frequency) has been answered, every segmentation request sent later treats the added word as a word with the given part of speech, and once any answer has shown the new word no later request shows the old state.",
     ["schedules", "histories"], "all interleavings of /json and /add requests",
     "The service has no tests.",
     ["tools/server/server.go", "dict_util.go"],
     [("request handlers", "tools/server/server.go:JsonRpcServer/addToken")],
     [("seg", "one segmenter shared by all requests", "tools/server/server.go")],
     ["HTTP answers of the server binary built with the race detector"])

prop("C18", "Stop words form a set, and stop filtering removes exactly that set",
     "After any sequence of loading, adding, removing and emptying stop words, on any segmenter including a new or emptied one, a word is a stop word exactly when it was put in (by array, call, string or file line) and not taken out since, and StopWordMap says true for exactly those; the keyword extractor's stop words, which start with a default list, behave likewise. "
     "Stop and CutStop return exactly the words that are neither empty nor stop words, in order, and the filters that promise to drop stop words (Trim, TrimPos, TrimPosPunct) drop them unless NotStop is set.",
     ["histories", "inputs"], "all sequences of stop-word operations and all word lists",
     "Test covers one fixed sequence and cannot run to its end without the missing dictionary.",
     ["stop.go", "trim.go", "dict_1.16.go", "hmm/idf/stop_words.go"],
     [("stop-word map", "stop.go"), ("filters", "trim.go"), ("extractor stop words", "hmm/idf/stop_words.go")],
     [("StopWordMap", "stop words of a segmenter", "segmenter.go:Segmenter")],
     ["IsStop, Stop, CutStop, Trim*"])

prop("C19", "Text filters keep exactly the characters and items they promise",
     "Each filter decides item by item (or character by character), keeps order, never invents text and never changes its argument: FilterSymbol drops exactly symbols, spaces and punctuation; FilterEmoji exactly the characters of four bytes; FilterLang keeps exactly letters and characters of the named script (an unknown script having none); FilterHtml drops exactly the spans from < to the next > that have a word character, |, = or \" before the >; SplitNum cuts exactly between digits and non-digits; Range lists the characters. "
     "Trim, TrimSymbol, TrimPos, TrimPunct, TrimPosPunct and TrimWithPos keep exactly the items their rule keeps (TrimWithPos drops exactly the given tags, none if none is given), and the Cut*/PosTrim* combinations are the composition of the cut and the filters. "
     "Joining (CutStr, PosStr) separates all items by the separator.",
     ["inputs"], "all texts and item lists",
     "Tests apply each filter to one literal.",
     ["trim.go", "gse.go", "seg_utils.go", "hmm/pos/pos_seg.go"],
     [("filters", "trim.go"), ("joins", "gse.go:CutStr/PosStr")], None, ["results of the functions; arguments afterwards"])

prop("C20", "Analyze reports spans that really contain each word",
     "Without a text, the spans Analyze reports for a list of words are contiguous from 0, in bytes or (with the extra argument) in characters. "
     "With a text, the span of every word that occurs in the (lower-cased) text, as every piece of a cut of it does, contains exactly that word, equal words get different occurrences as long as there are enough, and every entry carries the position, text, frequency and part of speech of its word. "
     "FindAllOccs returns, for each search string, only true non-overlapping occurrences and misses none that does not overlap a returned one; both finish for every input, including empty words.",
     ["inputs"], "all texts and all word lists, including the result of every cut mode on the text, repeated and overlapping words",
     "The only test needs the missing dictionary.",
     ["dag.go"],
     [("occurrence search", "dag.go:FindAllOccs"), ("span assignment", "dag.go:Analyze")], None, ["Analyze, FindAllOccs"])

prop("C21", "A suggested frequency is high enough to keep the word whole",
     "When a word is added (or re-added) with the frequency SuggestFreq returned for it, accurate mode returns the word whole. "
     "The suggestion for one word is never below the word's present frequency, and the suggestion for a pair of parts is never above the present frequency of the joined word and low enough that it no longer outweighs the parts.",
     ["inputs", "configurations"], "all dictionaries of positive frequencies and all words over their characters",
     "The only test needs the missing dictionary.",
     ["dag.go"],
     [("product of part probabilities", "dag.go:SuggestFreq")], None, ["SuggestFreq, then Cut(word,false)"])

prop("C22", "POS tagging loses nothing and tags words as the dictionary and model say",
     "pos.Segmenter.Cut divides any text without losing, adding or reordering a character, with and without HMM. "
     "A word of two or more characters on the dictionary route (the most probable division, as in accurate mode) carries the part of speech it has in the dictionary, whatever its place in the dictionary; so does, without HMM, a single character other than an ASCII letter or digit (runs of those are joined and tagged eng), and with HMM a single character between two longer words. "
     "With HMM, runs of single characters on the route have their Han runs cut and tagged along the most likely state path of the shipped tag model, numbers are tagged m, the rest eng if it has ASCII letters or digits; characters outside dictionary and model get x. "
     "Filtering by tag (TrimWithPos, Trim, TrimPunct) removes exactly the promised items. "
     "util.RegexpSplit, which divides the texts, gives the pieces that regexp.Split gives, with the matches in between when the whole expression is a group, so that then no character is lost.",
     ["inputs", "configurations"], "all texts and dictionaries",
     "The only test of the package needs the missing dictionary and fails.",
     ["hmm/pos/pos_seg.go", "hmm/pos/viterbi.go", "hmm/pos/dict.go", "hmm/util/util.go", "hmm/pos/char_state_tab.go", "hmm/pos/prob_emit.go", "hmm/pos/prob_trans.go"],
     [("block split", "hmm/util/util.go:RegexpSplit"), ("route", "hmm/pos/pos_seg.go:calc/cutDAG"), ("tag Viterbi", "hmm/pos/viterbi.go"), ("tag lookup", "hmm/pos/dict.go:Pos")],
     None, ["pos.Segmenter.Cut"])

prop("C23", "Extracted tags are the top words by TF-IDF, deterministically",
     "ExtractTags considers exactly the words of the HMM cut of at least two characters (after trimming spaces) that are not stop words, and weighs each by its share of those occurrences times its IDF value, or times the median IDF value of the loaded IDF dictionary (the upper one of two middle values) when the word is not in it. "
     "It returns the min(topK, number of words) heaviest, sorted by descending weight and then descending text, each once, and the same list on every call. "
     "The IDF values and median reported are those loaded or added.",
     ["inputs", "configurations"], "all texts, dictionaries, IDF dictionaries, stop-word sets and topK >= 0",
     "The only test needs missing dictionaries and prints the result.",
     ["hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/idf/stop_words.go", "hmm/segment/segment.go"],
     [("TF-IDF", "hmm/idf/tag_extracker.go:ExtractTags"), ("IDF store", "hmm/idf/idf.go")],
     [("Idf.median", "weight of unknown words", "hmm/idf/idf.go")], ["ExtractTags, Idf.Freq"])

prop("C24", "TextRank is a deterministic, normalised ranking of the co-occurrence graph",
     "TextRank/TextRankWithPOS rank exactly the words with an allowed tag that co-occur with another allowed word within a window of five words, by ten rounds of weighted PageRank with damping 0.85 on the co-occurrence counts, in which words are visited in text order and see the ranks of the round so far. "
     "Weights are normalised from the extremes of the ranks so that the top word has weight 1 and all weights lie in (0,1]; the result is sorted by descending weight, cut to topK when topK > 0, and identical on every call.",
     ["inputs", "histories"], "all texts, dictionaries, tag lists and topK, every repetition of the call",
     "The only test prints the result, and needs the missing dictionary; results depended on map iteration order.",
     ["hmm/idf/textrank.go"],
     [("graph building", "hmm/idf/textrank.go:TextRankWithPOS/addEdge"), ("ranking and normalisation", "hmm/idf/textrank.go:rank")],
     None, ["TextRank, TextRankWithPOS"])

prop("C25", "No input or call order makes the library crash or hang",
     "On a segmenter with any dictionary (also none, empty, or with extreme frequencies) every text operation returns for every byte string - empty, invalid UTF-8, NUL bytes, very long runs, all scripts - under every setting of the options, also when options are changed between calls, without panicking, looping or exhausting memory. "
     "The same holds for the tagger, keyword extractor, ranker and all package-level functions, and for any order of load, edit, empty and cut calls.",
     ["inputs", "histories", "configurations"], "all byte strings, option settings and call sequences of the public API",
     "Tests use short well-formed texts in one order of calls.",
     ["segmenter.go", "dag.go", "dictionary.go", "dict_util.go", "trim.go", "stop.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/pos/pos_seg.go", "hmm/idf/textrank.go", "hmm/idf/tag_extracker.go"],
     [("boundary checks throughout", "segmenter.go:segmentWords, hmm/hmm_seg.go:Cut, dag.go:FindAllOccs")],
     None, ["panics, watchdog on CPU time and memory"])

prop("C26", "Reading leaves no trace; results and arguments belong to the caller",
     "What a reading operation (cutting in every mode, search, tagging, keywords, ranking, lookups, suggestions, analysis, rendering, trimming) returns depends only on its arguments, the options and the loads and edits made before: it is what a newly built set of objects returns for which the same loads and edits were made and nothing was ever read. "
     "So reads made before, of this or another text, in this or another mode, and options that were different during them, change nothing. "
     "Arguments are not modified. A slice, map or string that was returned keeps its contents whatever is read or edited later, and overwriting it, or its spare capacity, changes no later result; texts in it do not change when the caller reuses the buffer that was cut.",
     ["histories", "inputs"], "all sequences of reading operations with edits and option changes in between",
     "Tests call each operation once or twice on one text and do not keep results.",
     ["segmenter.go", "dag.go", "seg_utils.go", "token.go", "trim.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/pos/pos_seg.go", "hmm/idf/textrank.go", "hmm/idf/tag_extracker.go"],
     [("reading operations keep nothing between calls", "segmenter.go:segmentWords, dag.go:calc, hmm/pos/pos_seg.go:calc, hmm/idf/textrank.go:TextRankWithPOS"), ("results are built in new slices", "dag.go:cutDAG, seg_utils.go:ToSlice, trim.go")],
     None, ["results of every reading operation; arguments before and after"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
