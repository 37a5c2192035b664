#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "A double-array trie answers exact lookups like a map",
 "A trie built from any sorted set of distinct, non-empty, NUL-free byte strings, with or without a value per key, answers an exact lookup of a stored key with that key's value and its full length, and of any other byte string with 'not found'. The answer is the same whether the trie is used directly after building, loaded from its saved bytes, or opened from a file.",
 ["inputs"], "every sorted key set (any bytes but NUL, shared prefixes and suffixes, 0 to hundreds of thousands of keys) with every value assignment, and every probe",
 "The existing tests build one small fixed key set with one value assignment; block management, the shared-suffix automaton and large offsets only matter for other shapes and sizes.",
 ["dartsclone/da.go", "dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go", "dartsclone/bitvector.go"],
 [("exact match over units", "dartsclone/da.go ExactMatchSearch"), ("array arrangement", "dartsclone/dabuilder.go"), ("suffix-sharing automaton", "dartsclone/dawgbuilder.go"), ("rank over intersections", "dartsclone/bitvector.go")],
 ["DoubleArray.Build", "DoubleArray.ExactMatchSearch", "DoubleArray.Save/Open/SetBuffer"])
prop("C02", "Common-prefix search, its iterator and stepwise traversal match naive search",
 "For every key set, text, start offset and result limit, the common-prefix search returns exactly the stored keys that are prefixes of the text from that offset, shortest first, each with its value and end position, cut at the limit. The iterator yields the same sequence however its end test and its fetch are interleaved, and a traversal performed in several steps from the returned positions gives the result of a traversal performed at once.",
 ["inputs", "histories"], "every key set, text, offset, limit, and every interleaving of iterator calls or split of a traversal into steps",
 "The tests search a handful of texts in one key set; wrong resumption positions, lost short prefixes and off-by-one limits need other nestings of keys.",
 ["dartsclone/da.go"],
 [("prefix search", "dartsclone/da.go CommonPrefixSearch"), ("iterator", "dartsclone/da.go Iterator"), ("traversal", "dartsclone/da.go Traverse")],
 ["DoubleArray.CommonPrefixSearch", "DoubleArray.CommonPrefixSearchItr", "DoubleArray.Traverse"])
prop("C03", "Malformed key sets are refused, never turned into a wrong trie",
 "Building a trie from keys that are out of order, repeated with different values, contain a NUL byte, are empty, or are paired with a negative or missing value returns an error and does not panic or loop. Whenever building succeeds, the trie answers exactly according to the given keys and values.",
 ["inputs"], "every list of byte strings and values, well formed or not",
 "No existing test passes a malformed key list; each malformation has its own detection point, reached only for particular neighbouring keys.",
 ["dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go"],
 [("order, NUL and value checks", "dartsclone/dawgbuilder.go insert, dartsclone/dabuilder.go arrangeFromKeySet")],
 ["DoubleArray.Build"])
prop("C04", "A dictionary built from its source reads back as that source",
 "A system dictionary built from lexicon rows and a connection matrix and then read gives back, for every row, its connection ids, cost, surface, headword length, part of speech, normalized, dictionary and reading forms, split units and word structure, every connection cost of the matrix, and the stored version, time and description; unlisted connections cost 0 and the last line for a pair wins. Looking up any text at any position finds exactly the rows whose headword is a prefix there (rows marked as not indexed excluded), in headword-length and then row order, however the rows are spread over source files and line endings, with \\uXXXX and \\u{X} escapes decoded.",
 ["inputs", "configurations"], "every valid lexicon (homographs, escapes, empty readings, long strings, references by id or by description), matrix and division into files, in either string encoding",
 "Nothing in the existing tests builds or reads a dictionary.",
 ["dictionary/dicbuilder.go", "dictionary/binarydict.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dictionary/bytes.go", "dicbuilder/main.go", "internal/lnreader/lnreader.go"],
 [("source parsing and layout", "dictionary/dicbuilder.go"), ("readers", "dictionary/dalexicon.go, dictionary/grammar.go, dictionary/bytes.go")],
 ["DictionaryBuilder", "dicbuilder command", "ReadSystemDictionary", "DoubleArrayLexicon.Lookup/GetWordInfo", "Grammar.GetConnectCost"])
prop("C05", "UTF-8 and UTF-16 dictionaries are equivalent and convert losslessly",
 "The same sources built in the UTF-8 and in the UTF-16 string format give dictionaries with identical contents. Converting a dictionary to the other format gives exactly the file that building in that format gives, for system and user dictionaries, and converting back gives exactly the original file. A conversion whose result would exceed the limits of the target format is refused with an error. The conversion command writes to the file named, or else to out_utf8.dic or out_utf16.dic where it runs, and ends with a non-zero status whenever its input cannot be read or its output cannot be written.",
 ["inputs"], "every valid dictionary, system or user, with any Unicode content",
 "No existing test reads or converts a dictionary; length encoding differs between formats only for long or non-BMP strings.",
 ["dicconv/main.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dictionary/dicbuilder.go", "dictionary/bytes.go"],
 [("converter", "dicconv/main.go"), ("writers", "dictionary/dalexicon.go WriteWordInfos, dictionary/grammar.go WritePOSTableTo")],
 ["dicconv command", "dicbuilder -j", "userdicbuilder -j", "NewBinaryDictionary"])
prop("C06", "Malformed or over-limit dictionary sources are refused with an error",
 "A lexicon or matrix source that does not fit the format or its limits (column count, numbers, string and unit-count limits, homograph count, split information that is invalid or refers to no word, dictionary-form id naming no row, matrix header or entry out of range) makes the build end with an error and a non-zero exit, without a panic. A build that reports success has produced a dictionary that represents the source; nothing is silently truncated, wrapped or misread; a matrix line with fewer than three columns is reported and skipped.",
 ["inputs"], "every source text, each format rule violated at any row, exactly at and just beyond each limit",
 "No existing test builds a dictionary from any source; each limit fails only one step beyond its edge.",
 ["dictionary/dicbuilder.go", "dicbuilder/main.go", "userdicbuilder/main.go"],
 [("row validation", "dictionary/dicbuilder.go BuildLexicon"), ("matrix validation", "dictionary/dicbuilder.go WriteGrammar"), ("split validation", "dictionary/dicbuilder.go parseSplitInfo")],
 ["DictionaryBuilder", "dicbuilder and userdicbuilder exit status"])
prop("C07", "User dictionaries extend the system dictionary without disturbing it",
 "With any number of user dictionaries from 0 to 15 added, every system word and every user word is found with its own data: ids identify dictionary and row, parts of speech new in a user dictionary and those of the system both read back as written, and references from a user word to system words or to words of the same dictionary lead to those words whatever position the dictionary is loaded at. A sixteenth is refused with an error, and so is one that brings the parts of speech to more than there are ids (32768); a user dictionary of the first format version, which has no part-of-speech table of its own, is accepted.",
 ["inputs", "configurations"], "every system dictionary and every list of user dictionaries, in every order, with shared and new parts of speech and cross references",
 "No existing test loads a dictionary; id packing and part-of-speech offsets only differ from the identity with two or more user dictionaries.",
 ["dictionary.go", "dictionary/lexiconset.go", "dictionary/dicbuilder.go", "userdicbuilder/main.go"],
 [("id packing, split and part-of-speech conversion", "dictionary/lexiconset.go"), ("loading", "dictionary.go ReadUserDictionary"), ("user part-of-speech ids", "dictionary/dicbuilder.go PosTableUser")],
 ["JapaneseDictionary.ReadUserDictionary", "LexiconSet.Lookup/GetWordInfo", "Morpheme attributes"])
prop("C08", "Automatic user-word costs follow the cost of the existing analysis",
 "A user word whose cost is given as -32768 receives, when its dictionary is loaded, the internal cost of analysing its surface with the dictionaries loaded so far (the cost of the last resulting morpheme minus that of the first) minus 20 per resulting morpheme, limited to the 16-bit range and 0 if there is no morpheme; every other cost is kept as given. When the surface cannot be analysed, loading reports an error.",
 ["inputs", "configurations"], "every user dictionary mixing automatic and given costs, on every system dictionary and loading order",
 "No existing test loads a user dictionary; the result depends on the analysis of arbitrary surfaces.",
 ["dictionary.go", "dictionary/dalexicon.go", "morpheme.go"],
 [("cost calculation", "dictionary.go ReadUserDictionary, dictionary/dalexicon.go CalculateCost"), ("internal cost", "morpheme.go GetInternalCost")],
 ["JapaneseDictionary.ReadUserDictionary", "LexiconSet.GetCost"])
prop("C09", "Printing a dictionary lists every word faithfully",
 "Printing a dictionary gives one line per word, in id order, with exactly the word's surface, connection ids, cost, part of speech, reading, normalized form, dictionary-form id, unit type implied by its splits, and split lists (words of a user dictionary itself as U and their number). For indexed words without commas or escapes whose headword is their surface and that list A units if they list B units, rebuilding from the printed lines gives a dictionary with the same contents, and printing does not change the dictionaries involved.",
 ["inputs"], "every system dictionary and every user dictionary with its system dictionary, in either string format",
 "No existing test prints a dictionary.",
 ["dictionary/dicprinter.go", "printdic/main.go"],
 [("printer", "dictionary/dicprinter.go PrintDictionary")],
 ["printdic command", "PrintDictionary"])
prop("C10", "Tokenization partitions the input text in every mode",
 "When tokenization succeeds without path rewriting beyond the built-in plugins, the morphemes cover the given text exactly: begins at 0, each morpheme begins where the previous one ends, the last ends at the text's length in characters, and the concatenated surfaces equal the text (invalid UTF-8 reads as U+FFFD; the replacement for sound-mark runs, if that plugin is used, is not empty). This holds in modes A, B and C and for any combination of the built-in input-rewriting, unknown-word and path-rewriting plugins; an empty text gives no morphemes, and no text makes the tokenizer panic or hang.",
 ["inputs", "configurations"], "every text, dictionary with consistent split information, plugin combination and mode",
 "No existing test tokenizes anything.",
 ["tokenizer.go", "inputtext.go", "lattice.go", "morpheme.go", "plugin.go", "joinnumericplugin.go", "joinkatakanaoovplugin.go"],
 [("lattice and path", "tokenizer.go, lattice.go"), ("offset mapping", "inputtext.go"), ("node concatenation", "plugin.go ConcatenateNodes")],
 ["JapaneseTokenizer.Tokenize", "MorphemeList.Get Begin/End/Surface"])
prop("C11", "The chosen segmentation has minimal total cost",
 "Among all segmentations of the rewritten text into dictionary words and unknown-word candidates that join start to end without a prohibited connection, the tokenizer chooses one with the least sum of word costs and connection costs. It reports an error exactly when no such segmentation exists, or when some position reached by candidates is one at which no candidate begins.",
 ["inputs", "configurations"], "every text, lexicon, connection matrix (including prohibited pairs and negative costs) and unknown-word configuration",
 "No existing test tokenizes; optimality is a statement about all segmentations of all inputs.",
 ["lattice.go", "tokenizer.go", "dictionary/grammar.go"],
 [("dynamic programming", "lattice.go connectNode, GetBestPath"), ("candidates", "tokenizer.go buildLattice")],
 ["JapaneseTokenizer.Tokenize", "path seen by a path-rewriting plugin"])
prop("C12", "Unknown-word candidates follow their definition files",
 "At every position the unknown-word providers offer exactly the candidates their definitions prescribe: for each category of the character, grouped and length-limited candidates as INVOKE, GROUP and LENGTH say, one per listed part of speech with its connection ids and cost, marked as unknown and carrying the covered text, none longer than a headword can be (32767 bytes); the simple provider offers one character with its configured parameters when nothing else is offered. Definition files that are malformed, or that name unknown categories or parts of speech, are refused with an error.",
 ["inputs", "configurations"], "every text, category assignment, char.def/unk.def content and set of other words at the position",
 "No existing test calls a provider; behaviour depends on combinations of flags, lengths and overlapping categories.",
 ["mecaboovproviderplugin.go", "simpleoovproviderplugin.go", "plugin.go", "tokenizer.go"],
 [("candidate generation", "mecaboovproviderplugin.go ProvideOOV, simpleoovproviderplugin.go ProvideOOV"), ("definition parsing", "mecaboovproviderplugin.go readCharacterProperty, readOov")],
 ["ProvideOOV", "GetOOV", "plugin SetUp errors"])
prop("C13", "Modes A and B split exactly the mode-C morphemes that list units",
 "Tokenizing in mode A (or B) gives the mode-C result with every morpheme that lists two or more A (or B) units replaced in place by those units, each unit being the word it refers to at its consecutive position, and all other morphemes unchanged. Splitting a single morpheme of a mode-C result gives exactly that morpheme's part of the A (or B) result, and splitting in mode C gives the morpheme itself.",
 ["inputs", "configurations"], "every text and dictionary with consistent split information, including user dictionaries, rewritten input and joined morphemes",
 "No existing test tokenizes or splits.",
 ["tokenizer.go", "morpheme.go", "dictionary/lexiconset.go"],
 [("path splitting", "tokenizer.go splitPath"), ("morpheme splitting", "morpheme.go Split"), ("reference conversion", "dictionary/lexiconset.go convertSplit")],
 ["Tokenize in modes A, B, C", "Morpheme.Split"])
prop("C14", "A tokenizer's answer does not depend on what it did before",
 "The result or error of tokenizing a text with a given dictionary, configuration and mode is always the same: a tokenizer that has processed any sequence of other texts, including texts whose analysis failed, answers exactly like a fresh one, and results handed out earlier stay valid and unchanged. Turning diagnostic output on does not change results.",
 ["histories", "inputs"], "every sequence of tokenize calls on one tokenizer, in mixed modes and lengths, with failures at any point",
 "Needs histories of calls; no existing test tokenizes even once.",
 ["tokenizer.go", "lattice.go", "joinnumericplugin.go"],
 [("lattice reuse", "tokenizer.go Tokenize, lattice.go clear/resize")],
 ["JapaneseTokenizer.Tokenize repeatedly"], [("lattice", "reused between calls", "tokenizer.go")])
prop("C15", "Default input rewriting normalizes as its definition says and keeps offsets",
 "The default input rewriting replaces, at each position, the longest listed sequence by its replacement without further normalization, and otherwise lower-cases the character and applies NFKC to it unless its lower-case form is exempted. Every character of the rewritten text maps back to the original character or the start of the original sequence it came from, and malformed definition files are refused.",
 ["inputs", "configurations"], "every text and every rewrite definition, with expanding, shrinking and overlapping replacements",
 "No existing test applies a rewriting plugin; offsets go wrong only after several length-changing replacements.",
 ["definputtextplugin.go", "inputtext.go"],
 [("rewriting", "definputtextplugin.go Rewrite"), ("definition parsing", "definputtextplugin.go readRewriteLists"), ("offset map", "inputtext.go Replace")],
 ["DefaultInputTextPlugin.Rewrite", "InputText.GetText/GetOriginalIndex"])
prop("C16", "Runs of prolonged sound marks collapse to the replacement, nothing else changes",
 "Every maximal run of two or more configured prolonged sound marks becomes the configured replacement, single marks and all other text stay as they are, and every remaining character still maps to its original position. A mark is the first character of the string that configures it. Missing settings are refused with an error.",
 ["inputs", "configurations"], "every text, mark set and replacement string",
 "No existing test applies the plugin; several runs in one text and replacements of other lengths matter.",
 ["prolongedsoundmarkinputtextplugin.go", "inputtext.go"],
 [("run detection and offset tracking", "prolongedsoundmarkinputtextplugin.go Rewrite")],
 ["ProlongedSoundMarkInputTextPlugin.Rewrite", "InputText.GetText/GetOriginalIndex"])
prop("C17", "Edits to the input text keep an exact map to the original",
 "After any sequence of range replacements on a text under preparation, its content is what the same edits give on a plain character sequence, each kept character maps to where it maps before the edit, and each inserted character maps to the original position of the start of the range it replaced. Building the input then reports the same content and map for every byte, and the end maps to the original length.",
 ["inputs", "histories"], "every text and every sequence of replacements with any lengths, including empty ranges and empty replacements",
 "Needs histories of edits with growing and shrinking lengths; no existing test does one.",
 ["inputtext.go"],
 [("replacement", "inputtext.go InputTextBuilder.Replace"), ("byte-level tables", "inputtext.go Build")],
 ["InputTextBuilder.Replace/GetText/Build", "InputText accessors"])
prop("C18", "Character categories and input-text queries follow the category definition",
 "A character has exactly the categories of all definition ranges that contain it, or the default category if none does; definition lines that are malformed are refused with an error. Every query on a prepared text (categories at a position and common to a range, length of the run sharing a category (runs are the greedy division from the left into stretches whose characters all share one), substrings, code-point counts and distances, whether a word may begin) agrees with the same question asked of the plain character sequence.",
 ["inputs", "configurations"], "every category definition with overlapping ranges and every text and position",
 "No existing test reads a category definition or queries a text.",
 ["dictionary/charcategory.go", "inputtext.go"],
 [("definition parsing and lookup", "dictionary/charcategory.go"), ("tables", "inputtext.go Build")],
 ["CharacterCategory.GetCategoryTypes", "InputText accessors"])
prop("C19", "Numeric joining yields correct decimal values and touches only numbers",
 "The numeric joining plugin joins consecutive numeric morphemes that form a well-formed number (digits, kanji digits, unit characters, thousands commas, a decimal point) into one morpheme covering the same text whose normalized form is the number's decimal value in plain digits, or the concatenated forms when normalization is off; its surface, dictionary form and reading are those of its parts put together. Everything that is not part of such a number, and a numeral that alone is a number in its normalized form, is left as it was, separators that are not part of a number stay separate, and rewriting always terminates.",
 ["inputs", "configurations"], "every sequence of numeric and other morphemes, with every arrangement of units, commas and points",
 "No existing test calls the numeric parser; values depend on arbitrary combinations of units and separators.",
 ["joinnumericplugin.go", "numericparser.go", "plugin.go"],
 [("parser", "numericparser.go"), ("joining", "joinnumericplugin.go Rewrite")],
 ["JoinNumericPlugin.Rewrite", "Morpheme.NormalizedForm"])
prop("C20", "Katakana joining merges exactly the katakana runs that qualify",
 "The katakana joining plugin merges a maximal run of katakana morphemes, less leading ones that cannot begin a word, whenever it holds an unknown word or one shorter than the configured length and still has two or more members, and leaves every other morpheme alone. The merged morpheme covers the same text and is the cheapest candidate already known for that range or else an unknown word of the configured part of speech. That part of speech must be given and known to the system dictionary, and the length (1 unless given) not be negative, or else the plugin is refused with an error.",
 ["inputs", "configurations"], "every morpheme sequence mixing known and unknown katakana and other words, every minimum length",
 "No existing test runs the plugin; outcomes depend on neighbours on both sides.",
 ["joinkatakanaoovplugin.go", "plugin.go", "lattice.go"],
 [("run detection", "joinkatakanaoovplugin.go Rewrite"), ("merging", "plugin.go ConcatenateOov, lattice.go GetMinimumNode")],
 ["JoinKatakanaOovPlugin.Rewrite"])
prop("C21", "Settings are read, merged and resolved as documented",
 "Each setting present in a settings document takes effect and each absent one keeps the value from earlier documents (lists of plugins are replaced, user dictionaries are added); relative dictionary paths are resolved against the given resource path, or the document's own path setting, and absolute ones are kept. Each plugin entry creates the plugin its own name or class says, in order, with its own options, and entries that are unknown, unnamed or malformed are refused with an error.",
 ["inputs", "configurations", "histories"], "every sequence of settings documents, presence pattern, path form and plugin list",
 "The existing tests parse one fixed document and two fixed merges.",
 ["settingsjson.go", "plugin.go"],
 [("parsing and merging", "settingsjson.go ParseSettingsJSON"), ("plugin creation", "settingsjson.go Get*PluginArray, plugin.go DefMake*")],
 ["SettingsJSON.ParseSettingsJSON/GetBaseConfig/Get*PluginArray"])
prop("C22", "Connection inhibition changes exactly the listed pairs",
 "With the connection-inhibiting plugin configured, through settings or directly, every listed pair of ids becomes prohibited for the tokenizer and every other connection keeps its cost; the dictionary file itself and other open dictionaries are unaffected. A pair naming an id the matrix does not have is refused with an error, and an item with fewer than two ids has no effect. Setting a connection cost or a word cost in memory changes just that one.",
 ["inputs", "configurations"], "every matrix and every list of pairs, including repeated ones and the sentence boundaries",
 "No existing test opens a grammar.",
 ["inhibitconnectioncostplugin.go", "dictionary/grammar.go", "plugin.go", "dictionary/dalexicon.go"],
 [("edit", "inhibitconnectioncostplugin.go Edit"), ("copy on write", "dictionary/grammar.go SetConnectCost")],
 ["Grammar.GetConnectCost", "Tokenize"])
prop("C23", "The command-line tokenizer prints one well-formed block per input line",
 "For any input, given on standard input or as files, the command-line tokenizer analyses each line (ended by LF, CR LF or CR, however long, the last one with or without an ending) and prints, in order, one tab-separated line per morpheme with surface, part of speech and normalized form, plus dictionary form, reading, dictionary number and an unknown mark when all fields are requested, and then EOS. Splitting mode, output file, ignore-errors and resource options act as documented, and a failure without ignore-errors (to read or analyse a line, or to write the output) ends the run with a non-zero status after the blocks of the lines before it.",
 ["inputs", "configurations"], "every byte stream, line-ending mix, buffer boundary and option combination",
 "No existing test runs a command; line-ending handling fails only at buffer boundaries.",
 ["gosudachicli/main.go"],
 [("line reading", "gosudachicli/main.go normalizer, lineScanner"), ("output", "gosudachicli/main.go run")],
 ["gosudachicli standard output and exit status"])
prop("C24", "Dictionary headers round-trip and wrong files are refused",
 "A header written with any version, creation time and description of at most 256 bytes (without NUL), at any offset, reads back the same, and longer descriptions are refused. A file that is too short for a header, has an unknown version, or has the other dictionary type than the one asked for is refused with an error, and the header-printing command reports type, time and description of a valid file and fails on any other. No command crashes on a file that has no dictionary header.",
 ["inputs"], "every version, time, description up to and beyond the limit, and every file content",
 "No existing test touches a header.",
 ["dictionary/dicheader.go", "dictionary/binarydict.go", "dictionary/dicprinter.go", "printdicheader/main.go"],
 [("header coding", "dictionary/dicheader.go"), ("type checks", "dictionary/binarydict.go"), ("printing", "dictionary/dicprinter.go PrintHeader")],
 ["ParseDictionaryHeader", "ReadSystemDictionary", "ReadUserDictionary", "printdicheader command"])
prop("C25", "Morpheme attributes are those of the dictionary word or unknown word",
 "Each morpheme reports the part of speech, normalized form, dictionary form and reading of the source row of the word it stands for, together with that word's id and dictionary number; unknown words report the covered text (the rewritten text as normalized and dictionary form, no reading) and the part of speech of a definition that applies, are flagged as unknown and have dictionary number -1; a morpheme joined from numbers, which is no dictionary word, has dictionary number -1 as well. Asking again, in any order, gives the same answers.",
 ["inputs", "configurations"], "every text, system and user dictionaries, homographs and modes",
 "No existing test tokenizes.",
 ["morpheme.go", "lattice.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go"],
 [("attributes", "morpheme.go"), ("word data", "dictionary/lexiconset.go GetWordInfo")],
 ["Morpheme accessors"])
prop("C26", "Tokenizers sharing one dictionary can run concurrently",
 "Any number of tokenizers created from one dictionary can tokenize in parallel, each used by one goroutine, and give the results they give alone. No data race occurs.",
 ["schedules", "inputs"], "every set of concurrent tokenizers, texts and modes over one open dictionary",
 "No existing test runs anything concurrently.",
 ["dictionary.go", "tokenizer.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go", "joinnumericplugin.go", "mecaboovproviderplugin.go"],
 [("per-tokenizer lattice, read-only shared data", "tokenizer.go NewJapaneseTokenizer, dictionary.go Create")],
 ["JapaneseDictionary.Create, Tokenize in goroutines under the race detector"])

prop("C27", "Opening and closing dictionaries leaves nothing behind",
 "After a dictionary that was opened is closed, and after an opening that failed at any step (missing, short or wrong file, plugin that cannot be set up, faulty user dictionary, one user dictionary too many), no file descriptor and no memory mapping of its files remains. Closing again is harmless, other open dictionaries keep working, and opening the same files again gives the same results.",
 ["inputs", "histories", "faults"], "every sequence of openings and closings of dictionaries, with a fault at any step of opening",
 "No existing test opens a dictionary; leaks show only on the error path of each step.",
 ["dictionary.go", "dictionary/binarydict.go", "internal/mmap/mmap.go"],
 [("opening and releasing", "dictionary.go NewJapaneseDictionary, Close"), ("mapping", "dictionary/binarydict.go, internal/mmap")],
 ["NewJapaneseDictionary/Close", "/proc/self/fd, /proc/self/maps"])

prop("C28", "The diagnostic output shows the candidates and the chosen path",
 "With diagnostic output on, analysing a non-empty text writes the rewritten text, then one numbered line for each of exactly the candidates considered and for the beginning and the end of the text, with its byte range in the rewritten text, surface, word id, part of speech, connection ids and cost, followed (but for the beginning) by the costs of connecting it to each listed candidate that ends where it begins, in the order these are listed; then a path of least cost through them, and the path after rewriting and splitting, one numbered line per morpheme of the result. When the analysis fails, what comes before the failing step is written. What the tokenizer did before makes no difference.",
 ["inputs", "histories"], "every dictionary, configuration, mode and text, analysed in any order by one tokenizer",
 "No existing test turns diagnostic output on.",
 ["lattice.go", "tokenizer.go", "gosudachicli/main.go"],
 [("lattice output", "lattice.go Dump, LatticeNode.String"), ("sections and paths", "tokenizer.go Tokenize, dumpPath")],
 ["JapaneseTokenizer.DumpOutput", "gosudachicli -d"])

prop("C29", "A user's own plugins take part like the built-in ones",
 "Own plugins given beside the built-in ones are each set up once, before use, and run on every non-empty text in the given order: input-text plugins, each on the text those before it left, with positions in the results always those of the original; unknown-word providers wherever candidates reach and a word and an unknown word may begin, told whether there are candidates already (where nothing was found, the first provider is asked without that condition); exactly the candidates they return join the analysis, beginning there, with their own length, connection ids, cost and forms; then path plugins, on the chosen path. A path plugin can look up the candidates by range or end (the cheapest being the earliest of equals), add and remove candidates for this text only, and join adjacent morphemes into one covering them, with their forms concatenated or the given normalized form, or else into the cheapest candidate of the range or, without one, an unknown word; joining an empty range is refused. What the last plugin leaves is the result, split as the mode says (own candidates may list units too). An error of a plugin ends the analysis, or the opening, with that error.",
 ["inputs", "histories", "configurations"], "every combination and order of own and built-in plugins, every text and sequence of path steps",
 "No existing test uses a plugin in a tokenizer.",
 ["plugin.go", "lattice.go", "tokenizer.go", "dictionary.go"],
 [("order and arguments of plugins", "tokenizer.go Tokenize, buildLattice"), ("joining", "plugin.go ConcatenateNodes, ConcatenateOov"), ("candidates", "lattice.go Insert, Remove, GetNodes, GetMinimumNode")],
 ["InputTextPlugin, OovProviderPlugin, PathRewritePlugin, EditConnectionCostPlugin implemented by the caller"])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
