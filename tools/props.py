NOTES = "Checks build the tools from /repo's working tree into /verif/.build (git-ignored), keyed by a hash of the sources."
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


L = "lttoolbox/"
PROPS = [
 P("C01", "A compiled dictionary denotes exactly the pairs its entries describe",
   "Compiling a dictionary in either direction yields, section by section, exactly the string pairs (with their weights) that its "
   "entries describe: identities, pairs, groups, joins, regular expressions and paradigms composed in order, entries left out exactly "
   "when their direction, ignore, alt, v, vl or vr mark says so. Nothing else is accepted, no pair is lost and no weight changes, "
   "however entries share prefixes, suffixes or paradigms. A dictionary with an entry whose input side is empty or starts with a "
   "blank is rejected.",
   ["inputs", "configurations"], "all dictionaries within the format, both directions, all selections of alt and variants",
   "The relation of a dictionary comes from the interaction of prefix sharing, paradigm insertion and minimisation; the test suite "
   "compiles some dozens of fixed dictionaries and looks up a few words.",
   [L + "compiler.cc", L + "transducer.cc", L + "regexp_compiler.cc", L + "alphabet.cc", L + "entry_token.cc"],
   [("prefix sharing and paradigm insertion", "compiler.cc: insertEntryTokens, matchTransduction"),
    ("minimisation", "transducer.cc: minimize, determinize, reverse"),
    ("regular expressions", "regexp_compiler.cc"), ("entry filters", "compiler.cc: procEntry, filterEntry")],
   observe=["lt-comp exit status", "lt-print -H of the compiled file"]),
 P("C02", "lt-expand lists exactly the pairs of a dictionary, with their directions",
   "The lines lt-expand writes are exactly the pairs that the dictionary's entries describe, each marked as two-way, left-to-right "
   "only or right-to-left only according to every mark on the way, through any number of paradigms. Reserved characters of the text "
   "are escaped wherever they stand and entries excluded by the selected alt or variants do not appear.",
   ["inputs", "configurations"], "all dictionaries without regular expressions, all selections of alt, vl, vr and morpheme boundaries",
   "Direction marks combine over nested and repeated paradigms; tests expand a handful of dictionaries.",
   [L + "expander.cc", L + "lt_expand.cc"],
   [("expansion", "expander.cc: procEntry, append"), ("escaping", "expander.cc: readString")],
   observe=["lt-expand output"]),
 P("C05", "Analysis is left-to-right longest match with all readings of the dictionary",
   "For every text, the analyser splits it from left to right, each time taking the longest dictionary entry that may end there (a "
   "standard entry only before a non-letter, other section types anywhere), and reports exactly the readings the dictionary gives for "
   "that form, directly or by lower-casing it. Letters that start no entry form an unknown word up to the next non-letter, and "
   "everything else passes through. Entries of preblank and postblank sections get a blank before or after them.",
   ["inputs"], "all dictionaries and all well-formed texts, including multiwords, overlapping entries of different sections, non-BMP letters, text ending anywhere",
   "Backtracking from a failed longer match, interactions of section types and the end of the input depend on the combination of "
   "dictionary and text; tests use fixed pairs that nearly all end with a newline.",
   [L + "fst_processor.cc", L + "state.cc", L + "buffer.h", L + "trans_exe.cc"],
   [("longest match and backtracking", "fst_processor.cc: analysis, readAnalysis"), ("reading extraction", "state.cc: filterFinals"),
    ("alphabetic test", "fst_processor.cc: isAlphabetic, firstNotAlpha")],
   observe=["lt-proc -a output"]),
 P("C06", "Analysis neither loses nor alters text or formatting",
   "Reading the surface forms and the text between lexical units back from the analyser's output gives the input again, symbol by "
   "symbol and blank by blank, for text of any length and with any dictionary. Superblanks inside a multiword come right after it, in "
   "order; every letter is inside exactly one lexical unit, and every lexical unit has a surface form and at least one reading.",
   ["inputs"], "all well-formed texts (any length, any blanks and escapes, with or without a final newline) and all dictionaries",
   "Loss or duplication shows only for particular alignments of look-ahead, blanks and buffer boundaries; tests are short lines.",
   [L + "fst_processor.cc", L + "buffer.h", L + "input_file.cc"],
   [("blank queue", "fst_processor.cc: blankqueue, printChar, printWordPopBlank"), ("look-ahead buffer", "buffer.h"),
    ("reading", "input_file.cc: get, readBlock, finishWBlank")],
   observe=["lt-proc output"]),
 P("C07", "Readings carry their minimal weight, in order, and are limited as asked",
   "Every reading of an analysed word has the weight of its cheapest derivation from the dictionary, readings are listed without "
   "repetition by non-decreasing weight, and with weights shown the number printed is that weight. Asking for at most N readings or "
   "at most L weight classes keeps exactly the N best distinct readings or all readings of the L lowest distinct weights, and nothing "
   "else about the output changes.",
   ["inputs", "configurations"], "all weighted dictionaries, all texts, all values and combinations of the reading limit, the class limit and weight display",
   "Weights are combined over several derivations of the same reading, over paradigms and over several sections; the tests have a few words with two readings.",
   [L + "state.cc", L + "fst_processor.cc", L + "transducer.cc", L + "lt_proc.cc"],
   [("selection of readings", "state.cc: NFinals, filterFinals"), ("weights along a path", "state.cc: apply, epsilonClosure"),
    ("options", "lt_proc.cc, fst_processor.cc: setMaxAnalysesValue, setMaxWeightClassesValue")],
   observe=["lt-proc -W/-N/-L output"]),
 P("C03", "Binary transducer files store and give back exactly what was put in",
   "A transducer file that any tool writes denotes, section by section, the same string pairs, weights, letters and symbols as the "
   "transducers it was written from, and loading it again (as a whole, as text, or for processing) gives the same results. Files of "
   "the old format without headers or without weights remain readable, and a file with unknown features is refused.",
   ["inputs", "histories"], "all sets of transducers, with tables of any size and symbols of any value, through any chain of writing, loading, printing and recompiling",
   "The number encoding changes width with the value; tests store only small transducers and never read a file with a second implementation.",
   [L + "compression.cc", L + "alphabet.cc", L + "transducer.cc", L + "trans_exe.cc", L + "file_utils.cc", L + "lt_print.cc"],
   [("variable-length numbers and weights", "compression.cc: multibyte_read, multibyte_write, long_multibyte_read, long_multibyte_write"),
    ("symbol tables", "alphabet.cc: write, read"), ("states and arcs", "transducer.cc: write, read; trans_exe.cc: read"),
    ("headers", "file_utils.cc, compiler.cc: write, fst_processor.cc: load")],
   observe=["bytes of the file", "lt-print output", "lt-proc output"]),
 P("C04", "A compiled ATT transducer denotes exactly the relation of its text",
   "Compiling a transducer given as AT&T text, in either direction, gives exactly the pairs and weights of the paths in the text, "
   "whatever the numbering and order of states and lines; each path lands in the section for punctuation or for words that its input "
   "side calls for, in one of them and not both unless it can be read both ways. Malformed weights, unreachable ends and empty cycles "
   "at the start are refused, not compiled into something else.",
   ["inputs"], "all weighted AT&T texts with up to several transducers, multi-character symbols, empty symbols, cycles, disconnected states",
   "Arc types are propagated over the graph, so errors need particular shapes (cycles, shared suffixes) that sample files do not have.",
   [L + "att_compiler.cc", L + "lt_comp.cc", L + "transducer.cc"],
   [("splitting into sections", "att_compiler.cc: classify_single_transition, classify_forwards, extract_transducer"), ("symbols", "att_compiler.cc: update_alphabet, add_transition, convert_hfst"),
    ("weights", "att_compiler.cc: parse")],
   observe=["lt-comp exit status", "the compiled file"]),
 P("C15", "Inverting, appending and equivalent characters act on the relation as named",
   "Inverting a compiled file swaps the two sides of every pair and keeps weights; appending gives all sections of both files, one "
   "chosen file winning where names clash; applying equivalent characters adds exactly the pairs whose input has some characters "
   "replaced by equivalents. None of them depends on how the files number their symbols, and letters of the alphabet survive.",
   ["inputs", "configurations"], "all pairs of compiled files with differing symbol tables, all equivalence tables, weights, cycles",
   "Symbol renumbering between two files and arc sharing only go wrong for particular combinations of tables; tests use one or two files.",
   [L + "lt_invert.cc", L + "lt_append.cc", L + "lt_apply_acx.cc", L + "acx.cc", L + "alphabet.cc", L + "transducer.cc", L + "compiler.cc"],
   [("inversion", "transducer.cc: invert"), ("symbol renumbering", "transducer.cc: updateAlphabet; alphabet.cc: createLoopbackSymbols"),
    ("equivalent characters", "transducer.cc: applyACX; compiler.cc: matchTransduction")],
   observe=["files written by lt-invert, lt-append, lt-apply-acx, lt-comp"]),
 P("C16", "Restricting a universal dictionary equals compiling for that direction",
   "A dictionary compiled once for all directions and variants and then restricted to a direction and a selection of alt and variants "
   "denotes exactly the pairs and weights that the dictionary has under that selection, whether or not the result is minimised. No "
   "trace of the direction and variant marks remains in what is accepted.",
   ["inputs", "configurations"], "all dictionaries with any nesting of direction and variant marks, all selections",
   "Marks are encoded as symbols inside the transducer and have to survive paradigm sharing and minimisation; tests restrict three small dictionaries.",
   [L + "lt_restrict.cc", L + "compiler.cc", L + "transducer.cc", L + "alphabet.cc"],
   [("control symbols", "compiler.cc: insertEntryTokens; alphabet.cc: includeSymbol"), ("restriction", "lt_restrict.cc: main; transducer.cc: minimize")],
   observe=["files written by lt-restrict"]),
 P("C09", "Generation gives exactly the dictionary's forms, in the case of the lexical form",
   "For every lexical unit the generator writes exactly the surface forms the dictionary gives for it (directly or by lower-casing it, "
   "and then with the case of the lexical form put back), and for every other unit the lemma or the whole unit with the mark its mode "
   "prescribes. Marked unknown words, blanks, escapes and text between units pass through unchanged and in order. Each generation "
   "mode shows what its documentation says: surface, tagged surface, debugging marks, careful case, no marks.",
   ["inputs", "configurations"], "all dictionaries, all streams of lexical units, all generation modes with case, weight and limit options",
   "Case, escaping and marks interact with the position of tags, joins and non-BMP letters; tests generate a few plain words per mode.",
   [L + "fst_processor.cc", L + "state.cc", L + "input_file.cc", L + "lt_proc.cc"],
   [("generation", "fst_processor.cc: generation, filterFinals, writeEscaped"), ("careful case", "state.cc: step_careful"),
    ("reading lexical units", "stream_reader.cc, input_file.cc")],
   observe=["lt-proc -g/-d/-n/-l/-m/-C output"]),
 P("C14", "Composing two transducers gives the composition of their relations",
   "A composed file denotes, section by section, exactly the pairs that lead from an input of the first transducer through some "
   "middle string to an output of the second, with weights added. With matches allowed anywhere, any non-overlapping parts of the "
   "middle string may be rewritten by the second transducer and the rest stays as it is. This holds for composition on either side "
   "and for any number of parallel jobs.",
   ["inputs", "configurations", "schedules"], "all pairs of compiled files (differing symbol tables, weights, cycles, empty arcs), all composition options, all job counts",
   "The product construction has to follow empty arcs on both sides and renumber symbols; tests compose a handful of small dictionaries.",
   [L + "transducer.cc", L + "lt_compose.cc", L + "alphabet.cc"],
   [("composition", "transducer.cc: compose, composeLabel, updateAlphabet"), ("options and jobs", "lt_compose.cc")],
   observe=["the file lt-compose writes"]),
 P("C11", "Lexical transfer gives every unit exactly its translations and keeps the rest",
   "For every lexical unit, lexical transfer writes the unit followed by exactly the translations that the bilingual dictionary gives "
   "for its longest known prefix at a tag boundary, each followed by the tags that were left over and recased like the source, or the "
   "unit marked as not found. With surface forms, these stay in front; wildcard entries match any characters they stand for; marked "
   "unknown words, blanks, escapes and everything between units pass through unchanged and in order.",
   ["inputs", "configurations"], "all bilingual dictionaries, all streams of lexical units, all modes with and without surface forms, with case, weight and limit options",
   "Left-over tags, joined lemmas, marks, case and wildcards combine freely; tests translate a few dozen units.",
   [L + "fst_processor.cc", L + "state.cc", L + "stream_reader.cc"],
   [("lexical transfer", "fst_processor.cc: bilingual, biltransWithQueue, compose"), ("reading units", "stream_reader.cc: next"),
    ("recasing and matching", "state.cc: step_case, filterFinals")],
   observe=["lt-proc -b/-o/-O output"]),
 P("C12", "Post-generation and transliteration rewrite exactly the longest matches",
   "Post-generation and inter-generation rewrite the text at each wake-up mark, and transliteration at each position, by the output "
   "of the longest rule that matches there, in the case of the text, and drop the mark; all other text comes out unchanged. Blanks, "
   "superblanks, word-bound blanks and escapes within or around a rewritten stretch all come out again, once and in order.",
   ["inputs"], "all rule dictionaries and all texts, with formatting at any place, ending at any place",
   "Which blanks a match swallows depends on the alignment of rule, text and formatting; tests have fixed short lines.",
   [L + "fst_processor.cc", L + "state.cc", L + "input_file.cc"],
   [("post-generation", "fst_processor.cc: postgeneration, intergeneration"),
    ("transliteration", "fst_processor.cc: transliteration, readTransliterationWord, readTransliterationBlank")],
   observe=["lt-proc -p/-x/-t output"]),
 P("C13", "Trimming keeps exactly the analyses that the bilingual dictionary can translate",
   "A trimmed analyser denotes exactly those pairs of the original, with their weights, whose every joined part has a prefix, ending "
   "at a tag boundary, that is a source side of the bilingual dictionary; sections that have to match by name are trimmed only "
   "against their namesake. Nothing untranslatable is kept and nothing translatable is lost, wherever lemma queues, joins and compound "
   "tags stand.",
   ["inputs", "configurations"], "all pairs of an analyser and a bilingual dictionary, all selections of sections that have to match",
   "Trimming is a product of two transducers with joins, lemma queues moved and tags skipped; tests trim a handful of dictionaries.",
   [L + "lt_trim.cc", L + "transducer.cc", L + "alphabet.cc"],
   [("product", "transducer.cc: trim"), ("preparing the bilingual side", "transducer.cc: appendDotStar, moveLemqsLast, copyWithTagsFirst, joinFinals"),
    ("sections", "lt_trim.cc: trim")],
   observe=["the file lt-trim writes"]),
 P("C19", "A null-flushing process answers each segment at once and like a fresh process",
   "With null-flushing on, a tool that runs as a server answers every segment that ends in a null character before reading on, "
   "followed by exactly one null character, and the answer is byte for byte what a new process gives for that segment alone. No word, "
   "blank, case state, merge or partial match is carried over, wherever the segment before ended.",
   ["inputs", "histories"], "all dictionaries, all modes, all histories of segments",
   "State left over by one segment shows only in particular later ones; tests send one or two words to each process.",
   [L + "fst_processor.cc", L + "lt_proc.cc", L + "lt_merge.cc", L + "stream_reader.cc", L + "input_file.cc"],
   [("null handling", "fst_processor.cc: analysis_wrapper_null_flush, generation_wrapper_null_flush, maybeFlush"), ("merging", "fst_processor.cc: quoteMerge, quoteUnmerge")],
   observe=["lt-proc -z and lt-merge -z, answer by answer"]),
 P("C17", "Merging and unmerging quotations loses nothing",
   "Merging turns every stretch of lexical units from one marked as beginning to one marked as end (or to the end of the segment) into "
   "one merged unit that holds the surface forms and all formatting between them, and leaves everything else as it is. Unmerging "
   "such a unit gives back exactly this text with its escapes, superblanks and word-bound blanks, and again changes nothing else.",
   ["inputs"], "all streams of analysed units, with marks at any place, balanced or not, through files or pipes",
   "Two levels of escaping and formatting at any place inside a quotation; tests merge a few short quotations.",
   [L + "fst_processor.cc", L + "lt_merge.cc", L + "stream_reader.cc"],
   [("merging", "fst_processor.cc: quoteMerge, quoteUnmerge"), ("reading units", "stream_reader.cc: next")],
   observe=["lt-merge and lt-merge -u output"]),
 P("C18", "Compound analysis finds exactly the decompositions with the fewest parts",
   "With decompounding on, a word that the dictionary knows gets its ordinary readings, without those meant only for left parts of "
   "compounds. Any other word gets exactly the readings composed of left parts followed by one right part with as few parts as "
   "possible, joined in order, with their weights added, and stays unknown if there are none within the limit of parts. What a "
   "word is analysed as does not depend on the words before it.",
   ["inputs", "configurations"], "all dictionaries with marked parts, all texts, all limits of parts, case and weight options",
   "Decomposition explores all segmentations at once; tests have a few fixed compounds.",
   [L + "fst_processor.cc", L + "state.cc"],
   [("decomposition", "fst_processor.cc: compoundAnalysis, compoundAnalysisOrLowering, analysis"),
    ("restarting and pruning", "state.cc: restartFinals, pruneCompounds, pruneStatesWithForbiddenSymbol")],
   observe=["lt-proc -e output"]),
 P("C23", "No input crashes a tool, hangs it or makes it touch foreign memory",
   "Whatever text, dictionary source, transducer table or character table a tool is given, well-formed or not, it ends by itself, with "
   "success or with a refusal that has an error status. It never dies of a signal, never loops, and never reads or writes outside the "
   "objects it owns or computes an undefined value. This holds in every mode and with every option.",
   ["inputs", "configurations"], "all texts in all modes of the processors, all dictionary sources, tables and regular expressions, malformed ones above all",
   "Bad accesses need malformed input at particular places and are invisible without instrumentation; tests send well-formed input.",
   [L + "fst_processor.cc", L + "compiler.cc", L + "expander.cc", L + "regexp_compiler.cc", L + "att_compiler.cc", L + "stream_reader.cc"],
   [("stream reading", "fst_processor.cc: readAnalysis, readGeneration, readFullBlock, readEscaped, readWblank; stream_reader.cc: next"),
    ("dictionary sources", "compiler.cc: procNode, procEntry; expander.cc: procEntry"), ("regular expressions", "regexp_compiler.cc: compile"),
    ("tables", "att_compiler.cc: parse; acx.cc: readACX; fst_processor.cc: parseICX, parseRCX")],
   observe=["exit status, termination and sanitizer reports of every tool"]),
 P("C24", "A damaged or inconsistent source is refused as a whole",
   "A dictionary, character table or translation memory that is not well formed (cut short anywhere, a closing tag missing, text after "
   "the end, bytes outside the encoding), that is missing, that has elements the format does not have, or that refers to a paradigm or "
   "symbol it does not define, makes every tool that reads it end with an error status. No output file is left that could be mistaken for "
   "a complete one. The same source without the damage is accepted.",
   ["inputs", "fault_sequences"], "all sources, damaged at any place",
   "A missed error shows only for damage at particular places of a source; tests have a few broken dictionaries.",
   [L + "compiler.cc", L + "expander.cc", L + "xml_parse_util.cc", L + "acx.cc", L + "fst_processor.cc", L + "tmx_compiler.cc"],
   [("parse errors", "compiler.cc: parse, procNode, skip; expander.cc: parse; tmx_compiler.cc: parse; xml_walk_util.cc"),
    ("references", "compiler.cc: procTransduction, procPar, readString"), ("tables", "acx.cc: readACX; fst_processor.cc: parseICX, parseRCX")],
   observe=["exit status and output files of lt-comp, lt-expand, lt-apply-acx, lt-proc -i/-r, lt-tmxcomp"]),
 P("C25", "Compiled files are read and written whole or refused",
   "A tool that is given only a part of a compiled file, of the current or the old format and cut at any byte, ends with an error and without "
   "any bad access. A tool whose output does not fit on the disk, wherever the disk becomes full, ends with an error "
   "and never reports success for a partial file. Files that come or go through pipes are read and written byte for byte as named files are.",
   ["inputs", "crash_points", "fault_sequences"], "all compiled files, all points to cut them, all points at which writing fails, all tools that read or write them",
   "Every byte is a distinct point of failure; tests read and write whole files on healthy disks.",
   [L + "compression.cc", L + "file_utils.cc", L + "transducer.cc", L + "trans_exe.cc", L + "alphabet.cc", L + "lt_comp.cc"],
   [("reading numbers and text", "compression.cc: multibyte_read, string_read, long_multibyte_read"),
    ("headers", "file_utils.cc: readTransducerSet; transducer.cc: read; trans_exe.cc: read; fst_processor.cc: load"),
    ("writing", "file_utils.cc: writeTransducerSet, openOutBinFile, closeOutBinFile; compiler.cc: write")],
   observe=["exit status, sanitizer reports and output bytes of all tools that read or write compiled files"]),
 P("C26", "Ignored and restored characters change only how words are looked up",
   "Characters that a table declares ignored (and, unless switched off, the soft hyphen) are treated as if they were not in the text. A character for "
   "which a table lists restorations matches itself or any of them, in all combinations over a word; an upper-case one also "
   "what its lower-case form would match. Nothing else changes: the surface forms printed are those of the text, words without such "
   "characters get the readings they always get, and several tables add up.",
   ["inputs", "configurations"], "all dictionaries, all tables and combinations of them, all texts",
   "Effects depend on which words become reachable by which combination of restorations; tests have a single table and text.",
   [L + "fst_processor.cc", L + "state.cc", L + "lt_proc.cc"],
   [("tables", "fst_processor.cc: parseICX, parseRCX, procNodeICX, procNodeRCX"), ("ignoring", "fst_processor.cc: readAnalysis"),
    ("restoring", "fst_processor.cc: analysis; state.cc: step")],
   observe=["lt-proc -i/-r/-I output"]),
 P("C22", "A translation memory replaces exactly the text of its segments",
   "Text processed with a compiled translation memory comes out byte for byte and in order, to its end, except for stretches that are a source segment "
   "(up to case, other numbers and formatting at placeholders) and end at punctuation, the end of the text or, on request, white space. Each such stretch "
   "becomes, in brackets, the target segment of the chosen languages with the numbers and formatting of the text in their places. The longest segment at a place wins; "
   "search goes on behind a translated stretch, and behind the text that was read in vain.",
   ["inputs", "configurations"], "all translation memories, language codes and texts, ending anywhere, cut by null characters anywhere",
   "Segments share prefixes, and numbers and formatting have to survive failed attempts; tests have one memory and some lines.",
   [L + "tmx_compiler.cc", L + "fst_processor.cc", L + "state.cc", L + "lt_tmxcomp.cc", L + "lt_tmxproc.cc"],
   [("compiling", "tmx_compiler.cc: procTU, align, align_blanks, insertTU"), ("matching", "fst_processor.cc: tm_analysis, readTMAnalysis"),
    ("numbers and blanks", "state.cc: filterFinalsTM")],
   observe=["lt-tmxproc output"]),
 P("C21", "Pattern listings contain exactly the matching pairs",
   "For every pattern, a listing contains every pair of the compiled dictionary whose analysis side matches the pattern (letters and tags as they stand, wildcards for "
   "letters of the alphabet, for tags, for one or any number of some tags, and for all tags but some) and no pair that does not match; where a regular expression repeats without limit, the listing ends, has only matching pairs and is not empty if a pair matches. "
   "Tags excluded by option are not used for wildcards. Groups come in the order of the patterns, with the separator "
   "of the input, whatever patterns came before; sorted listings are in order and without repetitions.",
   ["inputs", "histories", "configurations"], "all dictionaries, in both directions, all sequences of patterns, all options",
   "Matching is an intersection of transducers per pattern; tests list about ten patterns of two dictionaries.",
   [L + "lt_paradigm.cc", L + "transducer.cc", L + "symbol_iter.cc"],
   [("patterns", "lt_paradigm.cc: process, split_tag; symbol_iter.cc"), ("intersection", "transducer.cc: trim"), ("listing", "lt_paradigm.cc: expand")],
   observe=["lt-paradigm output"]),
 P("C08", "Parallel compilation and section splitting do not change a dictionary",
   "Compiling with parallel jobs (-j or LT_JOBS) and with a limit on the entries of a section (LT_MAX_SECTION_ENTRIES) gives a "
   "dictionary that denotes, its split sections taken together, exactly the same pairs with the same weights as compiling without, and "
   "refuses the same dictionaries; an analyser reads every text with it as with the plain one. The same compilation always writes the same file, whatever the order in "
   "which threads run, and composing with -j gives the same relations as without; the threads share no data unguarded.",
   ["inputs", "configurations", "schedules"], "all dictionaries, all settings of jobs and section limits, all interleavings of the threads",
   "Splitting and threads are off by default and hardly used by the tests; races depend on timing and a split section only goes wrong "
   "where entries of one section interact.",
   [L + "compiler.cc", L + "lt_comp.cc", L + "lt_compose.cc", L + "transducer.cc"],
   [("splitting of sections", "compiler.cc: procNode"), ("parallel minimisation", "compiler.cc: parse"),
    ("parallel composition", "lt_compose.cc: compose"), ("settings", "lt_comp.cc: main")],
   observe=["lt-print -H of the compiled file", "bytes of the compiled file", "lt-proc -a output", "ThreadSanitizer reports"]),
 P("C20", "Library look-ups find exactly the dictionary's answers, call after call",
   "On a processor of the C++ library, biltrans, biltransWithQueue, biltransWithoutQueue and lookup give, for every word, exactly what "
   "the dictionary has for it: all translations of its longest known beginning, each followed by the unread rest (or none if something "
   "is unread, where that is asked for, or where the word has no tags), in the case of the word, with the =, * and @ marks, with or "
   "without delimiters, weights and limits as set. The length reported for the queue is that of the unread rest. The answer does not "
   "depend on earlier calls nor on the text around the word.",
   ["inputs", "histories", "configurations"], "all dictionaries, all words of well-formed stream text and all sequences of calls",
   "No test calls these functions; errors at the ends of words, in characters outside the BMP, in case handling or in left-over state "
   "depend on the word and on the calls before it.",
   [L + "fst_processor.cc", L + "symbol_iter.cc", L + "state.cc"],
   [("library look-up", "fst_processor.cc: step_biltrans, biltrans, biltransWithQueue, biltransWithoutQueue, lookup, compose"),
    ("splitting words into symbols", "symbol_iter.cc")],
   observe=["return values of the functions"]),
 P("C27", "Pattern matching classifies a word by its first matching pattern",
   "A pattern list built from patterns and sequences of patterns (with wildcards for parts of lemmas and for tags, each one or more "
   "symbols, and an optional queue after every pattern) classifies a sequence of symbols with the lowest number among the patterns that "
   "match it, and with none if no pattern does, whichever way patterns share beginnings. Copying or assigning a pattern list, an "
   "executable matcher or a match state, and storing and loading a pattern list, change no answer; a copy does not depend on the original.",
   ["inputs", "histories"], "all pattern lists, all histories of building, copying, storing and loading them, all sequences of symbols",
   "No test of this repository uses the pattern classes, on which structural transfer and the tagger rely; errors need particular "
   "combinations of shared beginnings, queues and wildcards or of copies.",
   [L + "pattern_list.cc", L + "match_exe.cc", L + "match_state.cc", L + "match_node.cc", L + "sorted_vector.cc", L + "alphabet.cc"],
   [("building", "pattern_list.cc: insert, insertOutOfSequence, endSequence, buildTransducer"), ("matching", "match_state.cc: step, classifyFinals"),
    ("copying", "match_exe.cc: copy; match_state.cc: copy"), ("storing", "pattern_list.cc: write, read, serialise, deserialise")],
   observe=["MatchState::classifyFinals"]),
 P("C28", "Serialised values read back as they were written",
   "Integers, characters, strings, floating-point numbers, vectors and (nested) maps written with the serialiser, and numbers and "
   "strings written in the compressed format, read back exactly as written (compressed weights with 30 significant bits), one after "
   "the other, each reading consuming exactly the bytes that were written for it. Reading serialised data that was cut short is "
   "reported and gives no value.",
   ["inputs", "fault_sequences"], "all sequences of values of the supported types, all points of truncation",
   "The encodings change length at certain values; no test of this repository calls the serialiser, on which the tagger's model files rely.",
   [L + "serialiser.h", L + "deserialiser.h", L + "compression.cc", L + "ustring.cc"],
   [("serialiser", "serialiser.h: int_serialise, compressedSize"), ("deserialiser", "deserialiser.h: int_deserialise"),
    ("compressed numbers", "compression.cc: multibyte_write, multibyte_read, long_multibyte_write, long_multibyte_read")],
   observe=["values read back", "stream position", "DeserialisationException"]),
 P("C10", "A separable dictionary denotes its entries, wildcards and word boundaries",
   "Compiling a separable or sequential dictionary in either direction yields, section by section, exactly the pairs that its entries "
   "describe, where a wildcard for tags or characters that stands on both sides, or on the input side opposite to nothing, means one or "
   "more of the wildcard symbol, the three kinds of word boundaries and the reading separator are symbols of their own, and "
   "every path may in addition end in a word boundary. Nothing else is accepted, however entries share beginnings, endings or paradigms.",
   ["inputs", "configurations"], "all separable and sequential dictionaries, both directions",
   "Loops and added endings interact with prefix sharing and minimisation; the tests compile two such dictionaries.",
   [L + "compiler.cc", L + "transducer.cc"],
   [("wildcard loops", "compiler.cc: matchTransduction"), ("endings", "compiler.cc: parse"), ("elements", "compiler.cc: readString")],
   observe=["lt-print -H of the compiled file"]),
 P("C29", "Streams read through the library come out unit by unit, whole",
   "A stream reader gives the blanks, word-bound blanks, readings (mark, text, symbols) and chunks of a stream exactly as they stand in it, one unit at a time, tells where a segment (null character) and the input end, and puts every character into exactly one of them, also when a unit, tag or blank breaks off at the end of a segment or of the input. Below it, any mixture of reading, looking ahead, putting back, reading blocks and blanks, rewinding and reopening an input gives the characters of its text in order, with nothing lost, repeated or left over from before.",
   ["inputs", "histories"], "all valid UTF-8 streams, well-formed or broken off, and all histories of operations on an input",
   "tests only see the tools' output on a few well-formed streams; ends of segments inside blanks, tags and escapes, and put-back characters, are not sampled",
   ["lttoolbox/input_file.cc", "lttoolbox/stream_reader.cc"],
   [("splitting a stream", "StreamReader::next in lttoolbox/stream_reader.cc"), ("characters, blocks and blanks", "InputFile in lttoolbox/input_file.cc")],
   observe=["results of StreamReader and InputFile in a program linked with the library"]),
 P("C30", "Text functions work on whole characters and change only what they name",
   "The library's text functions give what their names say for every text: trimming takes away all space characters at both ends and nothing else; splitting, joining and replacing lose and invent no text; numbers survive conversion; lower, upper and title case follow Unicode also where the result is longer than the text; the case of one word is detected and put on another in the three forms aa, Aa and AA; caseless comparison, prefixes and suffixes are exact; word-bound blanks are merged with both contents; conversions between UTF-8, UTF-16 and code points are inverses, also outside the BMP. No function reads outside its argument.",
   ["inputs"], "all texts over letters with simple and special case mappings, spaces, delimiters and characters outside the BMP",
   "tests call a handful of these functions on short ASCII texts; characters whose case mapping changes length, surrogate pairs, texts of only spaces and texts at the edge of a buffer are not sampled",
   ["lttoolbox/string_utils.cc", "lttoolbox/ustring.cc"],
   [("text functions", "StringUtils in lttoolbox/string_utils.cc"), ("conversions", "lttoolbox/ustring.cc, lttoolbox/ustring.h")],
   observe=["results of StringUtils and of the conversions in a program linked with the library"]),
]
