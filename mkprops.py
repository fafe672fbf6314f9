import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
I="inputs";H="histories";C="configurations"
p("C01","Default segmentation loses and invents nothing",
 "For every text and every loaded dictionary, the segments returned in default and in search mode lie back to back: the first starts at byte 0, each starts where the previous one ends, and the last ends at the length of the text (a non-empty text always yields segments). The token of each segment spells exactly the bytes of the text between the segment's start and end, with ASCII letters lowercased while lowercasing is switched on and letters are not split off individually. An empty text yields no segments.",
 [I,C],"every byte string without NUL bytes; every dictionary loaded under the same letter/number flags; both modes",
 "The tests segment about a dozen fixed sentences; the partition depends on every token window, back-pointer and byte length for the unbounded set of texts and dictionaries.",
 ["segmenter.go","dictionary.go","seg_utils.go"],
 [("forward pass over jumpers, backward scan, byte positions","segmenter.go segmentWords"),("word splitting","segmenter.go SplitTextToWords"),("prefix lookup","dictionary.go LookupTokens"),("byte length of a token","seg_utils.go textSliceByteLen")],
 [dict(name="jumpers",meaning="per position: cheapest token ending there",where="segmenter.go")],["Segment","ModeSegment","Segment.Start/End/Token"])
p("C02","Default segmentation is a cheapest path",
 "Default-mode segmentation returns a split of the text's words whose total cost is minimal among all splits into dictionary tokens and single unknown words, where a token costs log2(total frequency / its frequency) and a word that is not itself a token costs 32. This includes tokens of cost zero, such as the only token of a dictionary.",
 [I,C],"every text; every dictionary after its costs were computed",
 "Optimality quantifies over exponentially many alternative splits; the tests compare a few fixed outputs.",
 ["segmenter.go","dict_util.go"],
 [("relaxation of the shortest path","segmenter.go updateJumper"),("cost of a token","dict_util.go CalcToken")],
 None,["Segment","Slice","Cut"])
p("C03","Search mode keeps every full word",
 "In search mode the words returned for a text fall into consecutive groups, one per segment of the search-mode segmentation and in the same order: each group ends with the segment's full word, and everything before it in the group is a shorter contiguous piece of that word. Hence no part of the text is lost, also for a text that is a single word. The word list, the word/part-of-speech list and the string form agree word for word.",
 [I,C],"every text and dictionary, search mode on",
 "Sub-words come from recursive sub-segmentations computed at load time for every token; tests print one or two sentences.",
 ["seg_utils.go","dict_util.go","segmenter.go"],
 [("recursive expansion of sub-segments","seg_utils.go tokenToSlice/tokenToPos/tokenToString"),("sub-segments per token","dict_util.go CalcToken"),("whole-text token excluded while sub-segmenting","segmenter.go segmentWords")],None,["Slice","CutSearch","Pos","String"])
p("C04","DAG cutting reproduces the text",
 "Cutting in DAG mode, with or without the HMM for unknown words, returns words whose concatenation is the lowercased text (the text itself when lowercasing is switched off), with bytes that are not valid UTF-8 replaced by U+FFFD. This holds for every dictionary, model and text.",
 [I,C],"every string, every loaded dictionary, HMM on and off",
 "Words are flushed from a buffer on several paths (end of text, dictionary word, single letter runs); a lost flush shows only for particular interleavings of known and unknown characters.",
 ["dag.go","hmm/hmm_seg.go"],
 [("buffer of single characters flushed before words and at the end","dag.go cutDAG/cutDAGNoHMM"),("HMM fallback","dag.go hmm")],None,["CutDAG","CutDAGNoHMM","Cut(text,true)","Cut(text,false)"])
p("C05","DAG cutting follows a most probable route",
 "DAG cutting without HMM (apart from joining adjacent single ASCII letters and digits) splits the text into dictionary words and, where no dictionary word starts, single characters, so that the sum of log(frequency/total frequency) is maximal over all such splits, a character that is not a word counting as frequency 1. With the HMM, the dictionary words of two or more characters on such a route are kept whole.",
 [I,C],"every text and every dictionary with positive total frequency",
 "Maximality is over exponentially many splits and over all frequency assignments, including prefixes that are not words.",
 ["dag.go"],
 [("dynamic programming from right to left","dag.go calc"),("graph of dictionary words","dag.go getDag")],None,["CutDAGNoHMM","CutDAG"])
p("C06","Full mode lists every dictionary word",
 "Cutting in full mode returns contiguous pieces of the lowercased text, ordered by start position, that together cover every character. Every occurrence of a dictionary word of two or more characters and positive frequency is listed, and every listed piece of two or more characters is such a dictionary word.",
 [I,C],"every text and dictionary",
 "Completeness quantifies over all occurrences of all words; tests print one sentence.",
 ["dag.go"],[("graph of dictionary words","dag.go getDag"),("enumeration","dag.go cutAll")],None,["CutAll"])
p("C07","Search cutting adds exactly the dictionary 2- and 3-grams",
 "Search cutting with an explicit HMM choice returns, for each word of the plain cut in order, first its two-character pieces that are dictionary words, then its three-character pieces that are dictionary words (each left to right, only pieces shorter than the word), then the word itself. Nothing else is returned.",
 [I,C],"every text, dictionary and HMM choice",
 "The window arithmetic must be right for words of every length and every dictionary; tests print one sentence.",
 ["dag.go","gse.go"],[("gram windows","dag.go cutForSearch")],None,["CutSearch(text,hmm)"])
p("C08","HMM cutting reproduces the text",
 "Cutting a text with the hidden Markov model returns non-empty words whose concatenation is the text, for every valid UTF-8 text and every loaded emission model.",
 [I,C],"every valid UTF-8 string; every model",
 "The pieces come from alternating pattern matches and from decoded state paths, whose shapes depend on text and model; tests cut three sentences.",
 ["hmm/hmm_seg.go","hmm/viterbi.go"],[("alternation of Han runs, skip runs and remainders","hmm/hmm_seg.go Cut"),("words from B/M/E/S states","hmm/hmm_seg.go internalCut")],None,["hmm.Cut","HMMCut"])
p("C09","HMM decoding is well formed and optimal",
 "For every non-empty character sequence and emission model, decoding over the four states B, M, E, S returns one state per character, ending in E or S, in which every step is an allowed transition. The returned probability is the maximum over all such state sequences and is attained by the returned sequence.",
 [I,C],"every non-empty rune sequence; every emission model",
 "Maximality is over 4^n state sequences for every model; tests check one sentence.",
 ["hmm/viterbi.go","hmm/prob_trans.go"],[("dynamic programming with back pointers","hmm/viterbi.go Viterbi"),("candidate predecessors","hmm/viterbi.go probs")],None,["hmm.Viterbi"])
p("C10","Part-of-speech cutting reproduces the text",
 "Part-of-speech cutting, with or without the HMM, returns pairs whose texts concatenate to the given text, for every valid UTF-8 text and every loaded dictionary. A word taken from the dictionary carries the part of speech the dictionary records for it, whichever position it was loaded at.",
 [I,C],"every valid UTF-8 text and dictionary",
 "Pieces pass through nested regular-expression splits, a route, a buffer and a 256-state decoder; tests use one sentence.",
 ["hmm/pos/pos_seg.go","hmm/pos/dict.go","hmm/util/util.go","hmm/pos/viterbi.go"],[("nested splitting","hmm/pos/pos_seg.go Cut"),("buffer flushing","hmm/pos/pos_seg.go cutDAG/cutDAGNoHMM/bufn"),("tag lookup","hmm/pos/dict.go Pos")],None,["pos.Segmenter.Cut"])
p("C11","The dictionary behaves as a map",
 "After any sequence of adding, re-adding and removing words, looking a non-empty word up returns the frequency and part of speech of the addition in force: the first addition since the word was last removed, or the latest re-addition. Adding a word that is present, or the empty word, changes nothing, and removing a word affects no other word; removing or re-adding a word that is not present reports an error and changes nothing.",
 [H,I],"every finite history of additions, re-additions and removals over NUL-free words",
 "Histories and shared prefixes are unbounded; tests add and remove one or two words.",
 ["dictionary.go","dict_util.go"],[("trie value indexes the token list","dictionary.go AddToken/RemoveToken/Find"),("re-adding","dict_util.go ReAddToken")],[dict(name="trie, Tokens",meaning="word -> index, index -> token",where="dictionary.go")],["AddToken","ReAddToken","RemoveToken","Find","Value"])
p("C12","Dictionary totals follow the additions",
 "Each addition that takes effect increases the number of tokens by one, the total frequency by exactly the added frequency, and raises the maximum token length to the added word's length in words if that is larger. An addition of a word already present, a lookup, or a removal changes none of them.",
 [H,I],"every finite history over a dictionary",
 "The totals must match after every history; tests read them once after a fixed load.",
 ["dictionary.go"],[("bookkeeping in AddToken","dictionary.go AddToken")],None,["Dict.NumTokens","Dict.TotalFreq","Dict.MaxTokenLen"])
p("C13","Dictionary line admission rule",
 "The frequency given to a dictionary entry is zero (entry ignored) when the line is empty, has no frequency field while frequency-less entries are not enabled, has an unparsable frequency, or a frequency below the configured minimum. Otherwise it is the parsed frequency (the configured default when the field is missing and such entries are enabled), except that words of fewer than two characters always get frequency 2.",
 [I,C],"every field count, text, frequency text and configuration",
 "The rule has interacting options and boundary values that fixed dictionaries do not hit.",
 ["dict_util.go"],[("admission","dict_util.go Size")],None,["Segmenter.Size"])
p("C14","Loading text and map dictionaries is faithful",
 "After loading a dictionary given as text or as a list of maps into a fresh segmenter, a non-empty word is in the dictionary exactly if some admissible entry has it (after the same normalisation that texts get), with the frequency and part of speech of the first such entry. Entries are counted once per distinct word, and entries without a word are ignored.",
 [I,C],"every dictionary text with any separator, every list of maps",
 "All field layouts, repetitions and orders; tests load two or three fixed dictionaries.",
 ["dict_1.16.go","dict_util.go"],[("line parser","dict_1.16.go LoadDictStr"),("map loader","dict_util.go LoadDictMap")],None,["LoadDictStr","LoadDictMap","Find"])
p("C15","Stop words form a set",
 "Stop-word queries answer exactly according to the history of calls: a word is a stop word if and only if it was added or loaded (blank and surrounding-space handling aside) after it was last removed and after the set was last emptied. Adding works on a fresh segmenter and after emptying, and never disturbs other words.",
 [H,I],"every finite history of add, add-many, load-from-text, remove, empty",
 "Histories are unbounded, including the empty set; tests run one add/remove pair.",
 ["stop.go","dict_1.16.go"],[("set operations","stop.go AddStop/AddStopArr/LoadStopArr/RemoveStop/EmptyStop/IsStop"),("text loader","dict_1.16.go LoadStopStr")],None,["IsStop"])
p("C16","Trimming keeps exactly the wanted entries in order",
 "Each trimming function returns, in the original order and with duplicates kept, exactly the entries its rule keeps: removing stop words and empty strings; removing (or cleaning of) symbols, spaces and punctuation, honouring the stop-word switch; removing entries made only of (for word/part-of-speech lists: starting with) spaces and punctuation; removing the listed parts of speech (none listed removes nothing). The caller's slice is never modified.",
 [I,C],"every slice, stop set and configuration",
 "Tests trim one sentence; the claim is over all slices, including empty strings, repeated entries and empty lists of parts of speech.",
 ["trim.go","hmm/pos/pos_seg.go"],[("filters","trim.go Trim/TrimSymbol/TrimPunct/TrimPos/TrimPosPunct/TrimWithPos/Stop"),("same for pos","hmm/pos/pos_seg.go Trim/TrimPunct/TrimWithPos")],None,["Trim","TrimSymbol","TrimPunct","TrimPos","TrimPosPunct","TrimWithPos","Stop"])
p("C17","Character filters keep exactly their class",
 "The character filters return the text's characters in order with exactly the excluded classes removed: symbols, spaces and punctuation for the symbol filter; characters needing four UTF-8 bytes for the emoji filter; everything but letters and characters of the named script for the language filter. Listing a text's characters yields each one in order, and spacing it out puts one space after each.",
 [I],"every string",
 "Over all strings and all Unicode characters; tests use one line each.",
 ["trim.go"],[("filters","trim.go FilterSymbol/FilterEmoji/FilterLang/Range/RangeText")],None,["FilterSymbol","FilterEmoji","FilterLang","Range","RangeText"])
p("C18","Joining words puts the separator exactly between them",
 "Joining a word list yields the words in order with the separator (a space by default) between neighbours and nowhere else; joining word/part-of-speech pairs does the same with word/part-of-speech items, or with plain words when parts of speech are switched off. Empty lists give the empty string.",
 [I,C],"every list and separator",
 "Over all lists, including those with empty or repeated words.",
 ["gse.go"],[("joining","gse.go CutStr/PosStr")],None,["CutStr","PosStr"])
p("C19","Analysis reports one ordered entry per word",
 "Analysing a word list returns one entry per word, in order, with its position, text, dictionary frequency and part of speech. Without a reference text the offsets are the running totals of byte lengths (of character counts when that is asked for), starting at 0. With a reference text, an entry whose word occurs there spans exactly an occurrence of it in the (lowercased) text, the i-th repetition of a word pointing at its i-th reported occurrence.",
 [I,C],"every list of words cut from a text, every text",
 "Offsets accumulate over lists of any length; repeated words select among occurrences.",
 ["dag.go"],[("offset bookkeeping","dag.go Analyze")],None,["Analyze"])
p("C20","Occurrence search is sound and complete",
 "Searching a text for distinct strings returns, for each non-empty one, start offsets at which it really occurs, in strictly decreasing order and never overlapping, and leaves no room for a further occurrence between, before or after the reported ones. It terminates for every input, including empty search strings.",
 [I],"every text and list of distinct search strings",
 "Overlapping self-matches, repeated and empty search strings; tests do not call it directly.",
 ["dag.go"],[("repeated last-index search","dag.go FindAllOccs")],None,["FindAllOccs"])
p("C21","Token text and comparison agree",
 "A token equals a string if and only if its text is that string, whatever words it is made of; joining a list of words always yields the plain concatenation of their bytes, for every number of words including none and empty ones.",
 [I],"every token and string",
 "Tests compare a handful of strings; word boundaries and lengths vary without bound.",
 ["token.go","seg_utils.go"],[("byte-wise comparison","token.go Equals"),("join special cases and copying","seg_utils.go Join")],None,["Token.Equals","Token.Text","Join","ToSlice"])
p("C22","Splitting text into words loses nothing",
 "Splitting a text into words yields non-empty words whose concatenation is the text (ASCII letters inside letter/digit words lowercased while lowercasing is on). Every word is either one character, or a maximal run of letters and digits of at most two UTF-8 bytes each; with the per-letter option every word is one character.",
 [I,C],"every byte string (also invalid UTF-8), every option setting",
 "All byte strings, including runs at the very start and end and invalid encodings; tests split three strings.",
 ["segmenter.go"],[("run detection","segmenter.go SplitTextToWords"),("lowercasing","segmenter.go toLow/toLower")],None,["SplitTextToWords","SplitWords"])
p("C23","Segmentation is read-only",
 "Segmenting, cutting, tagging with the dictionary, looking up, filtering, trimming and joining change neither the dictionary, its tokens, its totals, the stop-word set, the segmenter's options, the model, nor the caller's arguments: every memory location they write is allocated during the call. Any number of such calls may therefore run concurrently on one loaded segmenter, and repeating a call gives the same result.",
 [I,H,"schedules"],"every call of the reading API in any interleaving",
 "Absence of shared writes over all inputs and interleavings cannot be sampled; tests are sequential.",
 ["segmenter.go","dag.go","dictionary.go","seg_utils.go","trim.go","gse.go","hmm/hmm_seg.go","hmm/viterbi.go"],[("only fresh memory written","segmenter.go segmentWords; dag.go calc; dictionary.go LookupTokens")],None,["Segment","Slice","Cut*","Find","Trim*"])
p("C24","Keyword extraction ranks by weighted frequency",
 "Extracting keywords returns at most the requested number of distinct words, each of at least two characters, not a stop word, and cut from the text; each weighs its share of the counted words times its inverse document frequency (the median one for unknown words). They are ordered by weight, then by text, descending, and no omitted word would have come before a returned one.",
 [I,C],"every text, dictionary, frequency table, stop set and non-negative limit",
 "All texts and tables; tests print the result of one.",
 ["hmm/idf/tag_extracker.go","hmm/segment/segment.go"],[("counting and weighting","hmm/idf/tag_extracker.go ExtractTags"),("order","hmm/segment/segment.go Less")],None,["ExtractTags"])
p("C25","TextRank ranking is normalised and ordered",
 "Text ranking returns distinct words that carry an allowed part of speech, ordered by weight (then text) descending, at most the requested number of them when that is positive. The highest weight is 1 and all weights are positive and at most 1.",
 [I,C],"every text, dictionary and limit",
 "Depends on graph shape and on map iteration order, which a test samples once.",
 ["hmm/idf/textrank.go"],[("rank normalisation","hmm/idf/textrank.go rank"),("graph","hmm/idf/textrank.go addEdge/TextRankWithPOS")],None,["TextRank","TextRankWithPOS"])
p("C26","The median of added frequencies is maintained",
 "After any sequence of additions to a frequency table, the weight used for unknown words is the upper median of all frequencies added so far.",
 [H],"every finite sequence of additions",
 "Order and number of additions are unbounded.",
 ["hmm/idf/idf.go"],[("sorted list of frequencies","hmm/idf/idf.go AddToken")],None,["Idf.AddToken","ExtractTags"])
p("C27","Suggested frequencies err on the right side",
 "The frequency suggested for keeping one word whole is at least 1, at least the word's current frequency when it is in the dictionary, and larger than the total frequency times the product of its parts' relative frequencies in the DAG cut without HMM. The frequency suggested for splitting a word into given parts never exceeds the joined word's current frequency (zero when absent) nor the total frequency times the product of the parts' relative frequencies, parts not in the dictionary counting as frequency 1.",
 [I,C],"every word and every list of two or more parts; every dictionary with positive total",
 "All words, parts and frequencies; tests use two.",
 ["dag.go"],[("frequency product","dag.go SuggestFreq")],None,["SuggestFreq"])
p("C28","Dictionary path lists name each source once and in order",
 "A comma-separated dictionary list expands, item by item in order, to the built-in files the item names (two for zh, one for zh_s, zh_t, ja or jp, none for en, ko or ti) or to the item itself when it is a path. Nothing is added twice or carried over from one item to the next.",
 [I],"every list of items",
 "All combinations and orders of items; tests cover three.",
 ["dict_util.go"],[("expansion","dict_util.go DictPaths")],None,["DictPaths"])
p("C29","Pattern splitting with groups keeps the separators",
 "Splitting a string by a pattern with a capturing group returns pieces whose concatenation is the whole string: the parts between matches and the matches themselves, alternating in order.",
 [I,C],"every string and every pattern with a group that matches no empty string",
 "All strings and match layouts (at the start, adjacent, at the end).",
 ["hmm/util/util.go"],[("splitting","hmm/util/util.go RegexpSplit")],None,["util.RegexpSplit"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
