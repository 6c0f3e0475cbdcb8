#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Shortest-path segmentation is lossless and leaves its input alone",
  "Segmenting any byte string, valid UTF-8 or not, in normal or search mode, gives non-empty segments whose byte ranges are contiguous, start at 0 and end at the length of the text, and whose token texts are exactly the bytes of their ranges, except that ASCII letters are lower-cased inside runs of letters and digits while lower-casing is on. The input bytes are not modified, and Slice, Cut without options and Segment agree on the texts. This holds for every dictionary, every setting of the AlphaNum, Alpha, Num and ToLower options, and after any history of adding, removing, re-adding and reloading words or changing those options.",
  ["inputs", "configurations", "histories"],
  "every byte string, every dictionary, every combination of the splitting options, every history of dictionary changes and option changes before the call",
  "The tests compare a dozen literal sentences over one dictionary; no invalid UTF-8, no one-word dictionary, no dictionary change followed by a cut, and never the offsets of a whole text.",
  ["segmenter.go", "dictionary.go", "gse.go", "seg_utils.go", "token.go"],
  [("shortest-path table and its two back-to-front scans", "segmenter.go segmentWords"), ("atom splitting", "segmenter.go SplitTextToWords"), ("prefix lookup", "dictionary.go LookupTokens")],
  [("Segment.start/end", "byte range of a segment", "token.go"), ("Dictionary.maxTokenLen", "how far a lookup reaches", "dictionary.go")],
  ["Segmenter.Segment", "Segmenter.ModeSegment", "Segmenter.Slice", "Segmenter.Cut"])

p("C02", "Segmentation takes a least-cost path over the dictionary",
  "Once the word weights are calculated (any loader, AddTokenForce or CalcToken), the segments of any text have the least total cost of all its segmentations, where a dictionary word costs log2(total frequency / its frequency), and a single atom (a character, or a run of Latin letters and digits) that is not itself a word costs 32. Each segment is a word of the dictionary, carrying that word's frequency and part of speech, or a single atom that is not a word, marked with part of speech \"x\" and frequency 1.",
  ["inputs", "configurations", "histories"],
  "every text, every dictionary of words with positive frequencies, including ties, one-word dictionaries and overlapping words, after any history of adds and removals",
  "The tests fix a handful of sentences and expected words; optimality over all splits of all texts and all weights is never compared with an independent optimum.",
  ["segmenter.go", "dict_util.go", "dictionary.go"],
  [("dynamic programming over forward jumps", "segmenter.go segmentWords, updateJumper"), ("word costs", "dict_util.go CalcToken")],
  [("Token.distance", "cost of a word", "token.go")], ["Segmenter.Segment", "Token.Freq", "Token.Pos", "Dictionary.TotalFreq"])

p("C03", "Text is split into atoms by character class",
  "Splitting a text into atoms loses nothing: each maximal run of letters and numbers that take one or two bytes in UTF-8 is one atom (one atom per character instead with AlphaNum), every other character or invalid byte is an atom of its own, and no atom is empty. With Alpha set letters, and with Num set numbers, no longer join such runs. ASCII letters are lower-cased exactly in the run atoms and exactly when lower-casing is on.",
  ["inputs", "configurations"], "every byte string and every combination of AlphaNum, Alpha, Num and ToLower",
  "Three literal strings are split in the tests, with two option settings.",
  ["segmenter.go"], [("run detection", "segmenter.go SplitTextToWords"), ("ASCII lower-casing", "segmenter.go toLow")],
  None, ["Segmenter.SplitTextToWords", "SplitWords"])

p("C04", "DAG and HMM cuts lose no text and always return",
  "Cut(s, false), Cut(s, true), CutDAG with zero, one or two regular expressions, CutDAGNoHMM and HMMCut with zero, one or two regular expressions return, for every string, pieces whose concatenation is the text (lower-cased when lower-casing is on for the dictionary cuts, and with invalid UTF-8 replaced by U+FFFD), whatever the regular expressions match, the empty string included. No piece is empty.",
  ["inputs", "configurations"], "every string, dictionary, pair of regular expressions (also ones that match the empty string) and lower-casing setting",
  "The tests cut about ten literal texts with two hand-written expressions; no expression that can match the empty string is tried.",
  ["dag.go", "gse.go", "hmm/hmm_seg.go"], [("route walk with a buffer of single characters", "dag.go cutDAG, cutDAGNoHMM"), ("block scanner", "hmm/hmm_seg.go Cut")],
  None, ["Segmenter.Cut", "Segmenter.CutDAG", "Segmenter.CutDAGNoHMM", "Segmenter.HMMCut"])

p("C05", "Cut without HMM takes a most probable path",
  "Cut(s, false) cuts the text along a path of greatest product of word probabilities (frequency / total frequency), where at each character the possible steps are the dictionary words that start there or, if no word starts there, the single character, counted as a word of frequency 1. Its pieces are the steps of that path in order, except that a maximal run of consecutive one-character steps on ASCII letters and digits comes out as one piece.",
  ["inputs", "configurations"], "every text and every dictionary of words with positive frequencies, including words that are prefixes of others and characters that only begin words",
  "The tests fix the result on a few sentences over the shipped dictionary, where the best path usually is the obvious one.",
  ["dag.go"], [("DAG of word ends", "dag.go getDag"), ("backward dynamic programming", "dag.go calc"), ("ASCII buffer", "dag.go cutDAGNoHMM")],
  [("route", "best continuation from a character", "dag.go")], ["Segmenter.Cut", "Segmenter.CutDAGNoHMM"])

p("C06", "Cut with HMM re-cuts only the single characters of the best path",
  "Cut(s, true) follows the same most probable path as Cut(s, false): the path's words of two or more characters appear unchanged and in order, and each maximal run of its one-character steps appears as that one character if it is alone, as separate characters if the whole run is a dictionary word of positive frequency, and otherwise as HMMCut of the run (with the given regular expressions).",
  ["inputs", "configurations"], "every text and dictionary, with the default or user regular expressions",
  "The tests check complete outputs of a few sentences; the hand-over between dictionary path and HMM is not isolated.",
  ["dag.go", "hmm/hmm_seg.go"], [("buffer of single characters handed to the HMM", "dag.go cutDAG, hmm")], None, ["Segmenter.Cut", "Segmenter.CutDAG"])

p("C07", "Full mode lists every dictionary word in the text",
  "CutAll goes through the characters of the lower-cased text in order and lists, for each one, every dictionary word of two or more characters that starts there, shortest first; where no such word starts it lists the single character, provided the item listed last ended before that character. Nothing else is listed.",
  ["inputs", "configurations"], "every text and every dictionary of words with positive frequencies",
  "Two literal sentences are tested; completeness over all occurrences of all words is not.",
  ["dag.go"], [("enumeration of the DAG", "dag.go cutAll, getDag")], None, ["Segmenter.CutAll"])

p("C08", "Search cut adds exactly the dictionary 2- and 3-grams",
  "CutSearch(s, hmm) returns the pieces of Cut(s, hmm) in order, each preceded by its two-character and then its three-character substrings that are dictionary words of positive frequency, in text order, counting only substrings shorter than the piece.",
  ["inputs", "configurations"], "every text, dictionary and HMM setting",
  "Two literal sentences are tested.", ["dag.go"], [("gram enumeration", "dag.go cutForSearch")], None, ["Segmenter.CutSearch"])

p("C09", "Search-mode sub-segments are a consistent tree",
  "After the weights are calculated, the sub-segments of every dictionary word of two or more atoms are a least-cost segmentation of the word into at least two parts (single kana atoms dropped), with byte ranges relative to the word, and a word of one atom has none. In search mode the slice, string and part-of-speech outputs list the same items in the same order: for each segment, its sub-segments from the first one that has more than one sub-segment itself or starts with kana, expanded the same way, and then the segment itself; in normal mode just the segments.",
  ["inputs", "configurations", "histories"], "every dictionary (nested words, kana, mixed scripts) and every text",
  "The tests print one or two search-mode outputs of the shipped dictionary; trees deeper than one level are not examined.",
  ["dict_util.go", "seg_utils.go", "segmenter.go"], [("sub-segmentation of each word", "dict_util.go CalcToken"), ("three parallel expansions", "seg_utils.go tokenToSlice, tokenToString, tokenToPos")],
  [("Token.segments", "sub-segments of a word", "token.go")], ["Token.Segments", "ToSlice", "ToString", "ToPos", "Segmenter.String", "Segmenter.Pos"])

p("C10", "The dictionary behaves like a map of words",
  "After any history of adding, removing, re-adding and looking up words, a lookup returns frequency, part of speech and true for exactly the words present (the empty string and strings with a zero byte cannot be words; a word added again keeps its first frequency and part of speech until it is removed; ReAdd replaces them), frequency 0 and true for a non-empty proper byte prefix of a present word, and false otherwise. Removing or re-adding a string that is not a word fails with an error and changes nothing; Value succeeds for exactly the words present; while nothing has been removed, the number of tokens and the total frequency are those of the words added, and the maximum token length is never less than the atoms of a present word.",
  ["histories", "inputs"], "every sequence of dictionary operations over words that are prefixes of each other, share bytes, mix scripts and cases, from one word to thousands, with removal of all of them",
  "The tests add and remove one or two words; prefixes, removal of absent words, mass removal and re-adding are not covered.",
  ["dictionary.go", "dict_util.go", "token.go", "dag.go"], [("double-array trie from word bytes to token index", "dictionary.go AddToken, RemoveToken, Find, Value"), ("re-adding", "dict_util.go ReAddToken")],
  [("Dictionary.Tokens", "tokens in the order of adding", "dictionary.go"), ("Dictionary.totalFreq", "sum of frequencies", "dictionary.go")],
  ["Segmenter.Find", "Segmenter.Value", "Segmenter.AddToken", "Segmenter.RemoveToken", "Segmenter.ReAddToken", "Dictionary.NumTokens", "Dictionary.TotalFreq"])

p("C11", "All dictionary loaders read a row the same way",
  "A row of text, frequency and optional part of speech loads the same word whether it comes from a file, a reader, a string or a list of maps, with blank-separated or comma-separated columns, with any blanks around the columns and with or without a final newline: the word is accepted if and only if its frequency is a finite number not below the minimum (2 by default), its frequency is the number given (2 if the text is a single character), and its part of speech is the column's value or empty if there is none, regardless of the rows before it; columns after the third mean nothing. Rows with only a text are skipped, or take the TextFreq frequency when LoadNoFreq is on; blank lines and rows with a malformed frequency add no word and do not disturb the other rows. The options of the loaders keep their values when the dictionary is emptied and loaded again.",
  ["inputs", "configurations"], "every list of rows, with missing, malformed, infinite, huge, tiny and fractional frequencies, repeated words, blank lines, and every setting of DictSep, LoadNoFreq, MinTokenFreq and TextFreq",
  "The tests load three well-formed files and one three-entry map.",
  ["dict_util.go", "dict_1.16.go"], [("row parsing", "dict_util.go Reader, ReadN, Size"), ("string rows", "dict_1.16.go LoadDictStr"), ("map rows", "dict_util.go LoadDictMap")],
  None, ["Segmenter.LoadDict", "Segmenter.Read", "Segmenter.Reader", "Segmenter.LoadDictStr", "Segmenter.LoadDictMap", "Segmenter.LoadDictEmbed"])

p("C12", "Several dictionaries load with first-come priority",
  "Loading a list of dictionaries (separated by \",\" or \", \", or by successive load calls of any kind) makes the union of their words available, and a word that occurs more than once keeps the frequency and part of speech of its first occurrence; \"en\" adds nothing and zh_s, zh_t, zh, ja and jp select the files of those languages under the configured data directory. A missing file is reported as an error that leaves the words already loaded in place, those of the files before it in the list included and with their weights calculated, and after Empty the next load starts from an empty dictionary.",
  ["inputs", "histories", "configurations"], "every list of dictionary files with overlapping words, both separators, every mix and order of load calls, missing files and Empty",
  "One test compares the path list for a few names, and the multi-file tests depend on data files that are not shipped.",
  ["dict_util.go", "dict_1.16.go"], [("path list", "dict_util.go DictPaths"), ("load sequence", "dict_util.go LoadDict")],
  [("Segmenter.Load", "whether a dictionary was created by a load", "segmenter.go")], ["Segmenter.LoadDict", "New", "DictPaths", "Segmenter.Empty"])

p("C13", "Stop words behave like a set",
  "After any history of loading stop words (from files, strings, arrays or the shipped list), adding, removing and emptying, on a fresh or an emptied segmenter, a string is a stop word exactly if the history put it in and did not take it out: each non-empty line of a stop file (without its line end, LF or CRLF), each trimmed non-empty line of a stop string, each array element and each added word goes in. Stop words of one segmenter never affect another, loading or emptying a dictionary leaves them alone, and a missing stop file is reported as an error.",
  ["histories", "inputs"], "every sequence of stop-word operations", "The tests add and remove one word after loading the shipped list.",
  ["stop.go", "dict_1.16.go"], [("stop-word map", "stop.go"), ("string loader", "dict_1.16.go LoadStopStr")], [("Segmenter.StopWordMap", "the set", "segmenter.go")],
  ["Segmenter.IsStop", "Segmenter.LoadStop", "Segmenter.AddStop", "Segmenter.RemoveStop", "Segmenter.EmptyStop", "Segmenter.LoadStopStr", "Segmenter.LoadStopArr"])

p("C14", "Trim and filter functions keep exactly the documented characters",
  "FilterSymbol removes exactly the symbols, punctuation and white space of a text, FilterEmoji exactly the characters of more than three bytes, FilterLang everything but letters and characters of the named script (an unknown name is no script), and FilterHtml exactly the tags (an opening bracket or its closing-tag form, a name, quoted attributes, and a closing bracket with or without a slash) of a text that otherwise has no angle brackets, self-closing tags and single-quoted attributes included. Trim, TrimSymbol, TrimPunct, TrimPos, TrimPosPunct, TrimWithPos and Stop keep a subsequence of the given items, in order and without changing the list passed in: those whose text is not empty after dropping symbols (Trim, TrimSymbol: the filtered text itself, TrimPos: the item), is not only white space and punctuation (TrimPunct), does not begin with it (TrimPosPunct), has none of the given parts of speech (TrimWithPos, all items if none is given), and is not a stop word (Trim, TrimPos, TrimPosPunct unless NotStop is set, and Stop).",
  ["inputs", "configurations"], "every text, item list, stop-word set, script name and list of parts of speech",
  "Each function is tested on one or two literal lists.",
  ["trim.go", "hmm/pos/pos_seg.go"], [("character-class filters", "trim.go FilterSymbol, FilterEmoji, FilterLang"), ("tag pattern", "trim.go FilterHtml"), ("list trims", "trim.go Trim*, hmm/pos/pos_seg.go Trim*")],
  None, ["FilterSymbol", "FilterEmoji", "FilterLang", "FilterHtml", "Segmenter.Trim", "Segmenter.TrimPunct", "Segmenter.TrimPos", "Segmenter.TrimPosPunct", "Segmenter.TrimWithPos", "Segmenter.Stop", "pos.Segmenter.Trim"])

p("C15", "Composite cut functions equal the composition of their steps",
  "CutStop, CutTrim, CutTrimHtml, CutTrimHtmls, CutUrl, CutUrls, PosTrim, PosTrimArr, PosTrimStr, Pos, String, CutStr, PosStr, SplitNum, SplitNums, Range and RangeText give exactly what applying their parts in turn gives: cut (in the mode asked for), then filter or trim, then join with the separator asked for (a blank by default; nothing after the last item, except that String and RangeText put a separator after every item). SplitNum cuts a text into maximal runs of digits and of other characters without losing any; Range lists the characters.",
  ["inputs", "configurations"], "every text, dictionary, stop-word set, mode, separator and list of parts of speech",
  "Each function is tested on one or two literal texts, several with data files that are not shipped.",
  ["gse.go", "trim.go"], [("composition", "trim.go Cut*, Pos*; gse.go CutStr, PosStr, Pos, String")], None,
  ["Segmenter.CutStop", "Segmenter.CutTrim", "Segmenter.CutTrimHtml", "Segmenter.CutUrl", "Segmenter.PosTrim", "Segmenter.PosStr", "SplitNum", "Range"])

p("C16", "Analyze and FindAllOccs report true positions",
  "FindAllOccs reports, for each distinct searched string, once each the positions of its non-overlapping occurrences counted from the end of the data, last first, and nothing for the empty string. Analyze without a text gives each piece contiguous offsets from 0 (in bytes, or in characters if asked for); with a text of which the pieces are a cut, it gives each piece the offsets of an occurrence of that piece in the lower-cased text, a repeated piece getting a different occurrence each time, the last occurrence first (the earliest again once those that do not overlap are used up); in both cases position, text and the dictionary's frequency and part of speech match the piece.",
  ["inputs", "configurations"], "every text and the pieces that any cut mode makes of it, every data and list of search strings (empty ones included)",
  "Two literal sentences are tested.", ["dag.go"], [("occurrence scan from the end", "dag.go FindAllOccs"), ("occurrence counter per piece", "dag.go Analyze")], None,
  ["Segmenter.Analyze", "FindAllOccs"])

p("C17", "HMM cut of Chinese text is a Viterbi optimum",
  "For a user model of B, E, M and S emission log-probabilities that covers the characters of a text of Han characters, HMMCut cuts it along a state sequence of greatest total score (start, transition and emission log-probabilities, ending in E or S): single S characters and B M* E words. With the default model the same holds with the shipped emission tables for characters they contain; loading the default model again undoes a user model.",
  ["inputs", "configurations", "histories"], "every Han text and every user model, and switches between user and default models",
  "The tests run the default model on a few sentences; optimality is never compared with an enumeration.",
  ["hmm/viterbi.go", "hmm/hmm_seg.go", "hmm/prob_trans.go", "gse.go"], [("Viterbi recursion", "hmm/viterbi.go Viterbi, probs"), ("decoding", "hmm/hmm_seg.go internalCut"), ("model tables", "hmm/prob_trans.go, hmm/prob_emit.go")],
  [("probEmit", "emission tables in force", "hmm/prob_emit.go")], ["Segmenter.HMMCut", "Segmenter.HMMCutMod", "Segmenter.LoadModel", "hmm.Viterbi"])

p("C18", "HMM cut works block by block along the regular expressions",
  "HMMCut scans the text from left to right: at each point a non-empty match of the block expression that starts there (Han characters by default, the second expression if given) is cut by the Viterbi model, a non-empty match of the skip expression that starts there (numbers and ASCII words by default, the first expression if given) is one piece as it stands, and text before the next such match is one piece as it stands. The default thus keeps every maximal run of Han characters apart from other text, and cutting a Han run does not depend on what surrounds it.",
  ["inputs", "configurations"], "every text mixing scripts, digits, decimals, punctuation and invalid bytes, with zero, one or two regular expressions",
  "A few literal sentences with two expressions are tested.", ["hmm/hmm_seg.go"], [("block scanner", "hmm/hmm_seg.go Cut, locJudge")], None, ["Segmenter.HMMCut", "hmm.Cut"])

p("C19", "Part-of-speech cut loses no text",
  "The part-of-speech segmenter's Cut, with or without HMM, gives for every text pieces whose texts concatenate to the text (with invalid UTF-8 replaced by U+FFFD), none of them empty, for every dictionary. With HMM on each piece has a tag, unless it is a dictionary word that has none.",
  ["inputs", "configurations"], "every valid UTF-8 text mixing Han, Latin, digits, white space and symbols, every dictionary, HMM on or off",
  "Its tests need data files that are not shipped, so nothing reliable runs today.",
  ["hmm/pos/pos_seg.go", "hmm/util/util.go"], [("block splitting", "hmm/pos/pos_seg.go Cut, cutDetail"), ("regular-expression split", "hmm/util/util.go RegexpSplit"), ("tag Viterbi", "hmm/pos/viterbi.go")], None, ["pos.Segmenter.Cut"])

p("C20", "Part-of-speech tags come from the dictionary",
  "In the part-of-speech segmenter's Cut a piece that was taken as a dictionary word carries that word's tag, whichever word was added first: without HMM every piece made of Han characters is a dictionary word with its dictionary tag or a single character that is not a word tagged \"x\", and a run of single ASCII letters and digits is one piece tagged \"eng\". With HMM on, every piece of two or more characters that Cut without HMM takes as a dictionary word is there too with the same tag, and so is every character of the runs of single characters between such words if the run is a single character or itself a dictionary word: each on its own with its dictionary tag or \"x\".",
  ["inputs", "configurations"], "every dictionary and every text of Han characters and Latin words", "Its tests need data files that are not shipped; the first word of a dictionary is never checked.",
  ["hmm/pos/dict.go", "hmm/pos/pos_seg.go"], [("tag lookup", "hmm/pos/dict.go Pos"), ("route walk", "hmm/pos/pos_seg.go cutDAG, cutDAGNoHMM, bufn")], None, ["pos.Segmenter.Cut"])

p("C21", "A suggested frequency keeps the word whole",
  "If a string of two or more characters without ASCII letters or digits is added, or re-added if it is a word already, with the frequency SuggestFreq suggests for it, then Cut(string, false) returns it as one piece; the suggestion is never below the word's present frequency nor below 1. For several parts, the suggestion to split the joined word is the lesser of the joined word's present frequency (0 if it is no word) and the whole part of the total frequency times the product of the parts' probabilities (frequency / total frequency, 1 for the frequency of an unknown part and for the total of an empty dictionary).",
  ["inputs", "configurations"], "every dictionary and every string", "Two literal words are tested over the shipped dictionary.",
  ["dag.go"], [("frequency estimate", "dag.go SuggestFreq")], None, ["Segmenter.SuggestFreq", "Segmenter.Cut"])

p("C22", "Keyword extraction ranks by TF-IDF",
  "ExtractTags returns exactly the top K (all, if fewer) of the distinct trimmed pieces of Cut(text, true) that have two or more characters and are not stop words, ordered by decreasing weight (ties by decreasing text), where a piece's weight is its share of all counted pieces times its (positive) weight in the IDF dictionary, or, if it is no word of that dictionary, times the median of the weights of all words of it (the upper one of the two middle ones; 0 if it is empty), however its words were loaded or added. The same call gives the same answer every time.",
  ["inputs", "configurations"], "every text, dictionary, IDF dictionary, stop-word list and K", "Its tests need data files that are not shipped.",
  ["hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/segment/segment.go"], [("term counting and ranking", "hmm/idf/tag_extracker.go ExtractTags"), ("order", "hmm/segment/segment.go Less")], None, ["idf.TagExtracter.ExtractTags"])

p("C23", "TextRank is deterministic and ranks by the word graph",
  "TextRank scores the words of the allowed parts of speech by ten rounds of weighted PageRank (damping 0.85, words in alphabetical order, each pair of allowed words less than five pieces apart linked once per occurrence) and returns the top K (all if K is not positive), ordered by decreasing weight scaled so that, with m the least and M the greatest score, a score w becomes (w - m/10)/(M - m/10). The same call gives the same words, order and weights every time.",
  ["inputs", "configurations", "schedules"], "every text, dictionary, list of allowed parts of speech and K, and every iteration order of the internal maps",
  "Its tests need data files that are not shipped; the map order differs from run to run, so one run settles nothing.",
  ["hmm/idf/textrank.go"], [("co-occurrence graph", "hmm/idf/textrank.go TextRankWithPOS, addEdge"), ("rank iteration and scaling", "hmm/idf/textrank.go rank")], None, ["idf.TextRanker.TextRank", "idf.TextRanker.TextRankWithPOS"])

p("C24", "Concurrent queries on one segmenter are safe and give the same results",
  "Any number of goroutines may query one loaded segmenter at once, in any mix of segmentation, cut, search, full mode, HMM, part-of-speech, trim, stop, analyze, find, frequency-suggestion, keyword and TextRank calls: there is no data race, no crash, and every result equals the one the same call gives alone.",
  ["schedules", "inputs"], "every mix of query calls and every interleaving of up to eight goroutines", "No test queries from more than one goroutine.",
  ["segmenter.go", "dag.go", "gse.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/pos/pos_seg.go", "hmm/idf/tag_extracker.go"], [("queries work on local state only", "segmenter.go segmentWords; dag.go calc; hmm/viterbi.go")], None,
  ["all query methods under the race detector"])

p("C25", "Segmenters are independent of each other",
  "Creating, loading, changing and emptying one segmenter (words, stop words, options) never changes what another segmenter returns, and may run at the same time as queries and loads on other segmenters that were created on their own, without a data race. Part-of-speech, keyword and TextRank values made from a segmenter keep their own stop words and options, and their words when the segmenter is emptied. (The HMM model and the lower-casing switch are shared by design and left alone here.)",
  ["schedules", "histories"], "every history of operations on two segmenters, sequential or concurrent", "No test uses two segmenters with different histories together or at the same time.",
  ["dict_util.go", "stop.go", "hmm/hmm_seg.go", "hmm/viterbi.go"], [("per-segmenter dictionary and stop map", "segmenter.go Segmenter"), ("shared HMM tables", "hmm/prob_emit.go, hmm/hmm_seg.go LoadModel")],
  [("probEmit", "HMM model shared by all segmenters", "hmm/prob_emit.go")], ["all methods of a second segmenter"])

p("C26", "The JSON server answers as the library does, also under load",
  "The JSON server's /json answers every text, by GET or POST, with the segments (texts and parts of speech) the library gives for the server's dictionary, or the words of the HMM cut when started with HMM on; a word sent to /add is in effect for every request that starts after the answer. Any mix of concurrent /json and /add requests leaves it running, free of data races, and every answer is one the library gives for some state of the dictionary at that time.",
  ["schedules", "histories", "inputs"], "every history and every concurrent mix of requests over loopback", "The server has no tests.",
  ["tools/server/server.go", "dict_util.go"], [("handlers around one shared segmenter", "tools/server/server.go JsonRpcServer, addToken"), ("forced add", "dict_util.go AddTokenForce")],
  [("seg", "the server's segmenter", "tools/server/server.go")], ["HTTP answers"])

p("C27", "RegexpSplit splits like re.split",
  "RegexpSplit with an expression without groups gives what the standard library's Split gives for every limit. With groups and no limit it lists, in order, the text before each match and the match itself, then the rest, so that the parts concatenate to the text; a limit of 0 gives nothing.",
  ["inputs"], "every text, expression and limit", "It has no tests of its own.", ["hmm/util/util.go"], [("match walk", "hmm/util/util.go RegexpSplit")], None, ["util.RegexpSplit"])

p("C28", "Every word of the shipped dictionary is usable",
  "After loading the shipped Traditional Chinese dictionary, every row whose frequency is at least the minimum is found with the frequency and part of speech of its first occurrence, and rows below it add nothing, whichever loader read them. Segmenting real text with it is lossless and of least cost, cutting without HMM takes a most probable path, and the HMM and part-of-speech cuts lose no text, like for any other dictionary.",
  ["inputs"], "every row of the shipped dictionary and every concatenation of its words and pieces of real text", "The tests look up three or four words and depend on a second dictionary file that is not shipped.",
  ["dict_util.go", "dictionary.go", "data/dict/zh/t_1.txt"], [("file loader", "dict_util.go Read, Reader"), ("double-array trie at full size", "dictionary.go")], None, ["Segmenter.LoadDict", "Segmenter.Find", "Segmenter.Segment", "Segmenter.Cut"])

p("C29", "Queries change nothing and results stay valid",
  "Query calls have no lasting effect: after any sequence of queries, every query gives the same answer as on a segmenter that was set up the same way and asked nothing else, and the arguments passed in are unchanged. Results already returned (pieces, and the offsets, texts, frequencies and parts of speech of segments and tokens) never change because of later queries or later dictionary changes.",
  ["histories", "inputs"], "every interleaving of queries and dictionary changes", "Tests ask one query at a time and never look at an old result again.",
  ["segmenter.go", "dag.go", "gse.go", "trim.go", "dictionary.go"], [("local working state per query", "segmenter.go segmentWords; dag.go"), ("token storage shared with results", "dictionary.go LookupTokens")], None, ["all query methods"])

p("C30", "Part-of-speech HMM tags are a Viterbi optimum of the shipped model",
  "In the part-of-speech cut with HMM on, a run of two or more Han characters on which no dictionary word starts is cut and tagged along a state sequence of greatest total score (start, transition and emission log-probabilities of the shipped model, ending in any state), where each character's states are those the model lists for it, restricted to states that can follow a state of the character before: B M* E or S sequences become words tagged with the tag of their state. The same run gives the same answer every time.",
  ["inputs", "schedules"], "every run of Han characters, known to the model or not, and every iteration order of the internal maps",
  "Its tests need data files that are not shipped; the tables and the recursion are never compared with an independent optimum.",
  ["hmm/pos/viterbi.go", "hmm/pos/pos_seg.go", "hmm/pos/prob_emit.go", "hmm/pos/prob_trans.go", "hmm/pos/char_state_tab.go"],
  [("tag Viterbi", "hmm/pos/viterbi.go"), ("decoding of states into tagged words", "hmm/pos/pos_seg.go cutDetailInternal")], None, ["pos.Segmenter.Cut"])

p("C31", "Inputs that cannot be read are reported, never endless or silently cut",
  "Reading a dictionary gives the same words however the reader delivers its bytes. If the reader fails with an error other than the end of file, after any number of bytes, loading returns that error after finitely many steps, with the rows that were delivered up to their newline loaded and nothing else. A directory given as a dictionary or stop-word file is reported as an error too and leaves what was loaded before it in place. Lines of a stop-word file and columns of a dictionary may have any length.",
  ["inputs", "faults"], "every dictionary text, every chunking and every point of failure", "No test injects a read error, a directory or a long line.",
  ["dict_util.go", "stop.go"], [("row loop", "dict_util.go Reader, ReadN"), ("stop file loop", "stop.go LoadStop")], None, ["Segmenter.Reader", "Segmenter.Read", "Segmenter.LoadDict", "Segmenter.LoadStop"])

p("C32", "The embedded dictionaries load like any other",
  "In a build with the embedded dictionaries, LoadDictEmbed() and LoadDictEmbed(\"zh\") give exactly the words of the embedded simplified dictionary and then of the traditional one (words already there win), \"zh_s\", \"zh_t\" and \"ja\" those of one of them; \"zh, TEXT, TEXT\" (or zh_s, zh_t) gives the words of the named one and then of each text in turn; NewEmbed does the same on a fresh segmenter, splitting letters and digits one by one if its second argument is \"alpha\" or \"en\". LoadStopEmbed() and \"zh, TEXT\" likewise add the embedded stop words. Loads accumulate; afterwards the segmenter behaves like one given the same words one by one. The embedded IDF text gives the IDF weights of its rows.",
  ["inputs", "configurations", "histories"], "every order of embedded loads, texts, options and emptying", "The stable tests are built without the embedded dictionaries.",
  ["dict_1.16.go", "dict_embed.go"], [("choice of dictionaries", "dict_1.16.go LoadDictEmbed, loadZh, loadZhST, LoadStopEmbed"), ("embedded texts", "dict_embed.go")], None, ["NewEmbed", "Segmenter.LoadDictEmbed", "Segmenter.LoadStopEmbed", "ZhIdf"])

p("C33", "The dictionaries behind keywords and parts of speech are maps",
  "An idf.Idf finds exactly the words that were added to it or loaded into it since it was made, each with the first weight and part of speech it got (any positive weight, also below two; a single character of a file counts as two), and NumTokens and TotalFreq agree with that. A dictionary file that is missing is reported, and the words of the files before it are loaded. A list of idf.NewStopWord holds the default stop words, plus the words added and loaded, minus the words removed since; a load that fails reports the error and adds nothing, then or later. A pos.Dict finds exactly the words added and loaded and not removed since, with their frequency, and Pos gives their part of speech. No such dictionary affects another, and the package's default stop words never change. segment.Segments sorts by weight, then text.",
  ["inputs", "histories"], "every history of additions, removals and (failing) loads on several dictionaries", "Tests load one dictionary each and never remove anything.",
  ["hmm/idf", "hmm/pos", "hmm/segment"], [("stop words of keywords", "hmm/idf/stop_words.go LoadDict, AddStop, RemoveStop"), ("IDF dictionary", "hmm/idf/idf.go AddToken, LoadDict, Freq, NumTokens, TotalFreq"), ("part-of-speech dictionary", "hmm/pos/dict.go"), ("sorting", "hmm/segment/segment.go Less")], None, ["idf.NewStopWord", "idf.StopWord.AddStop", "idf.StopWord.RemoveStop", "idf.StopWord.LoadDict", "idf.NewIdf", "idf.Idf.AddToken", "idf.Idf.LoadDict", "idf.Idf.Freq", "pos.Dict", "segment.Segments"])

p("C34", "The parts work by themselves",
  "A Dictionary of NewDict is a map of the tokens added and not removed since: Find and Value find exactly those (Find also tells of strings that begin words, with frequency 0), AddToken of a present token changes nothing, RemoveToken of an absent one is an error, and until something is removed NumTokens, TotalFreq and MaxTokenLen agree with the tokens. LookupTokens gives, shortest first, exactly the tokens that are the first k pieces of its list joined, for some k, whatever the pieces. Join concatenates; IsJp tells whether a text has a kana; Token.Equals compares the text. ReadN reads the columns of a row, trimmed, and leaves the rest of the reader alone, at the last row with io.EOF; Size gives the frequency such a row is loaded with, or 0. DictPaths gives the files a list of languages and files stands for, in order (zh: traditional, then simplified); DictPath moves the data directory.",
  ["inputs", "histories"], "every history of a dictionary, list of pieces, row and list of names", "Tests use these parts only through a segmenter.",
  ["dictionary.go", "dict_util.go", "seg_utils.go", "token.go"], [("dictionary", "dictionary.go AddToken, RemoveToken, LookupTokens, Find, Value"), ("rows", "dict_util.go ReadN, Size"), ("names", "dict_util.go DictPaths, GetIdfPath, IsJp"), ("joining", "seg_utils.go Join, token.go Equals")], None, ["NewDict", "Dictionary.LookupTokens", "Dictionary.AddToken", "Dictionary.RemoveToken", "Dictionary.Find", "Dictionary.Value", "Join", "IsJp", "DictPaths", "Segmenter.ReadN", "Segmenter.Size"])

p("C35", "The part-of-speech cut takes a best path over the dictionary",
  "Without HMM the pieces that the part-of-speech segmenter's Cut takes from a run of Han characters (between white space and punctuation) are dictionary words or single characters at which no word of the dictionary begins, and of all such ways to split the run it is one with the greatest product of frequencies (or, which would do as well, of shares of the total frequency), a character that is no word counting as 1.",
  ["inputs", "histories"], "every dictionary with positive frequencies, history of additions and removals, and text of Han characters, white space and punctuation",
  "Its tests need data files that are not shipped; the greatest product is a statement about all ways to split.",
  ["hmm/pos/pos_seg.go", "hmm/pos/dict.go"], [("words at each place", "hmm/pos/pos_seg.go getDag"), ("best path", "hmm/pos/pos_seg.go calc"), ("walk", "hmm/pos/pos_seg.go cutDAGNoHMM")], None, ["pos.Segmenter.Cut"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
