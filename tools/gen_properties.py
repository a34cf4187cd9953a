#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))
S = 'sudachipy/'
D = S + 'dictionarylib/'
PL = S + 'plugin/'

p('C01', 'Morphemes tile the original text in order',
  "For every non-empty text the morphemes returned by tokenization, in any split mode and with any shipped input-text rewriting configured, are ordered, start at 0, end at the length of the original text, and each begins where the previous one ends. The reported surface of each morpheme is exactly the original text between its begin and end, so concatenating surfaces gives back the original text, also when normalization lengthens or shortens the text or characters are astral.",
  ['inputs', 'configurations'], 'all input texts, all three modes, all combinations of shipped input-text plugins',
  'Tests tokenize about a dozen fixed strings; offsets go wrong only for particular combinations of multi-byte characters, length-changing rewrites and split modes.',
  [S+'tokenizer.pyx', S+'morphemelist.py', S+'utf8inputtext.py', S+'utf8inputtextbuilder.py', S+'lattice.pyx'],
  [('modified-to-original offset table', S+'utf8inputtextbuilder.py:replace/build'), ('begin/end of a morpheme', S+'morphemelist.py:get_begin/get_end')],
  ['Morpheme.begin/end/surface'])

p('C02', 'The segmentation returned is a minimum-cost path',
  "The sequence of morphemes chosen for a text (before optional joining rewrites) has the smallest total of word costs plus connection costs among all sequences that the dictionaries and the out-of-vocabulary rules allow for that text, where a connection marked inhibited is never used. If no allowed sequence connects the beginning to the end of the text, tokenization reports an error instead of returning a sequence.",
  ['inputs', 'configurations'], 'all texts over all lexicons, connection matrices (including inhibited and negative cells) and OOV settings',
  'The test lexicon has one 10x10 matrix and a few sentences, none of which distinguishes a slightly wrong search (dropped candidate, swapped ids, wrong tie to inhibited cells).',
  [S+'lattice.pyx', S+'latticenode.pyx', S+'tokenizer.pyx', D+'grammar.py'],
  [('Viterbi connection of nodes', S+'lattice.pyx:connect_node'), ('lattice construction', S+'tokenizer.pyx:build_lattice_c')],
  ['MorphemeList boundaries and word ids'])

p('C03', 'Dictionary lookup returns exactly the matching entries',
  "Looking a position of a text up in a dictionary, or in a system dictionary combined with user dictionaries, yields exactly the indexed entries whose headword is a prefix of the text at that position, each once and with the right end, including homographs, nested prefixes of any depth, and headwords of any UTF-8 width. Entries whose left connection id is -1 are never found by lookup but remain readable by id, and an entry can be located by its surface, part of speech and reading exactly when it exists.",
  ['inputs', 'configurations'], 'all sets of headwords and all texts and positions',
  'Tests look up three headwords of a fixed lexicon at two offsets.',
  [D+'doublearraylexicon.py', D+'wordidtable.py', D+'lexiconset.py', D+'dictionarybuilder.py'],
  [('common prefix search and id table', D+'doublearraylexicon.py:lookup'), ('merging of lexicons', D+'lexiconset.py:lookup')],
  ['lexicon lookup, get_word_id, size'])

p('C04', 'Results depend only on text, mode and configuration',
  "Tokenizing a text gives the same morphemes with the same attributes whatever was done before: earlier texts of other lengths or modes, earlier calls that failed, other tokenizers of the same dictionary, debug logging, more distinct words than any internal cache holds, re-reading or splitting earlier results, and other dictionaries being open in the process. Results already returned never change afterwards, and results do not depend on the hash seed of the process.",
  ['histories', 'inputs'], 'all sequences of API operations on tokenizers, result lists and dictionaries',
  'Each test uses a fresh fixture and one or two calls; stale state needs particular sequences (long after short, after a failure, after cache eviction).',
  [S+'tokenizer.pyx', S+'lattice.pyx', D+'lexiconset.py', S+'morphemelist.py', S+'config.py'],
  [('lattice reset between calls', S+'lattice.pyx:clear/resize'), ('word info cache', D+'lexiconset.py:get_word_info')],
  ['all Morpheme accessors'], state=[dict(name='lattice node lists', meaning='reused between calls', where=S+'lattice.pyx')])

p('C05', 'Split modes refine consistently',
  "Mode C returns the chosen long units; mode A (B) returns each of them replaced by the units its dictionary entry declares for A (B) when it declares at least two, and unchanged otherwise. Splitting a returned morpheme with a mode gives the same units, with the same offsets and attributes, as tokenizing in that mode, and mode-C splitting or a unit without a declared split returns just itself.",
  ['inputs', 'configurations'], 'all texts and all dictionary entries with split declarations, in system and user dictionaries, all modes',
  'One compound word is tested in three modes; a wrong unit, offset or mode mix-up on entries with asymmetric A/B declarations is not visible.',
  [S+'tokenizer.pyx', S+'morphemelist.py', S+'morpheme.py', D+'lexiconset.py'],
  [('splitting of the best path', S+'tokenizer.pyx:_split_path'), ('splitting of a morpheme', S+'morphemelist.py:split')],
  ['Tokenizer.tokenize with modes, Morpheme.split'])

p('C06', 'Each morpheme reports the attributes of its own entry',
  "A morpheme that is a dictionary word reports the part of speech, normalized form, dictionary form, reading, synonym group ids, word id and dictionary id of exactly the entry chosen in the segmentation, with the documented defaults (normalized form and reading fall back to the surface, dictionary form to the surface when not given). An out-of-vocabulary morpheme is flagged as such, has no dictionary, reports its text as normalized and dictionary form and has an empty reading, with the part of speech of the rule that produced it.",
  ['inputs', 'configurations'], 'all texts and all entries (homographs, references between entries, several dictionaries)',
  'Tests check attributes of a few words of one lexicon; homographs and cross-references are not varied.',
  [S+'morpheme.py', S+'morphemelist.py', S+'latticenode.pyx', D+'wordinfolist.py', D+'lexiconset.py'],
  [('word info decoding', D+'wordinfolist.py:get_word_info'), ('delegation', S+'morpheme.py')],
  ['Morpheme accessors'])

p('C07', 'A built dictionary contains exactly its source',
  "A dictionary built from valid source files, read back, contains every entry in order with exactly the connection ids, cost, headword, part of speech, forms, dictionary-form reference, A/B/word-structure units and synonym ids of its source row, for all lengths up to the documented limits, all Unicode characters, escapes, inline unit references and several source files. The build has the same result in the system and the user dictionary format and also when the source is read back by an independent implementation of the binary format.",
  ['programs', 'inputs'], 'all valid lexicon sources',
  'Tests build 3 small rows and compare a handful of bytes; encodings switch at 127/128, 255/256 and 32767 and at U+10000, and references are resolved by several rules.',
  [D+'dictionarybuilder.py', D+'userdictionarybuilder.py', D+'jtypedbytebuffer.py', D+'wordinfolist.py'],
  [('row parsing and encoding', D+'dictionarybuilder.py:parse_line/write_wordinfo')],
  ['BinaryDictionary lexicon and grammar, bytes of the file'])

p('C08', 'All five dictionary format versions are read correctly',
  "Every well-formed binary dictionary of each of the five published format versions (two system, three user) is read completely and correctly: header version, creation time and description, parts of speech, connection costs, entries and attributes. Parts that a version lacks (a user dictionary without parts of speech, no synonym ids) are absent or empty, and writing a header and reading it back returns the same header for every description that fits.",
  ['inputs', 'configurations'], 'all well-formed dictionaries of all versions',
  'Tests only read files produced by the builder of the same tree, so a symmetric mistake in writer and reader is invisible and three versions are never read.',
  [D+'binarydictionary.py', D+'dictionaryheader.py', D+'dictionaryversion.py', D+'grammar.py', D+'doublearraylexicon.py', D+'wordinfolist.py', D+'wordparameterlist.py', D+'wordidtable.py'],
  [('section walk', D+'binarydictionary.py:_read_dictionary')], ['BinaryDictionary'])

p('C09', 'Up to 15 user dictionaries compose',
  "Loading any number of user dictionaries up to 15 in a given order makes the words of every one available with their own parts of speech (including parts of speech each of them defines itself), split units, forms, and the dictionary id that is its position, without disturbing system words or the other user dictionaries. A sixteenth user dictionary is refused.",
  ['configurations', 'inputs'], 'all lists of up to 15 user dictionaries of the kinds with/without own parts of speech, cross references into system and own words',
  'Tests load at most two user dictionaries; id packing and part-of-speech offsets only go wrong with more or with particular orders.',
  [S+'dictionary.py', D+'lexiconset.py', D+'grammar.py', D+'userdictionarybuilder.py', S+'latticenode.pxd'],
  [('word id packing, POS offsets', D+'lexiconset.py'), ('loading loop', S+'dictionary.py:_read_user_dictionary')],
  ['Morpheme accessors', 'Dictionary constructor'])

p('C10', 'Automatic costs of user words follow the documented rule',
  "A user word registered with the automatic-cost marker (-32768) gets the cost of analysing its surface with the dictionaries loaded before it (cost of the last minus cost of the first morpheme, minus 20 per morpheme), clipped to the 16-bit range. All other words keep exactly the cost in their file, and the file itself is not modified.",
  ['configurations', 'inputs'], 'all user dictionaries with automatic costs and all system dictionaries',
  'One test checks that an automatic cost is not the marker.',
  [D+'doublearraylexicon.py', D+'wordparameterlist.py', S+'dictionary.py', S+'morphemelist.py'],
  [('calculate_cost', D+'doublearraylexicon.py'), ('internal cost', S+'morphemelist.py:get_internal_cost')],
  ['Dictionary.lexicon.get_cost', 'segmentation'])

p('C11', 'Input normalization follows the rewrite definition',
  "With the default input-text plugin the analysed text is the original text in which, scanning left to right, the longest matching replacement of the rewrite definition is applied and every other character is lower-cased and NFKC-normalized unless it is listed as exempt from normalization. With the prolonged-sound-mark plugin every maximal run of two or more configured marks is replaced by the replacement symbol and nothing else changes.",
  ['inputs'], 'every Unicode code point and every string over characters that interact with the rewrite rules',
  'Tests check four strings; rules have overlapping prefixes, some characters expand to up to 18 characters, and runs may touch the ends of the text.',
  [PL+'input_text/default_input_text_plugin.py', PL+'input_text/prolongedsoundmark.py', S+'resources/rewrite.def'],
  [('rewrite', PL+'input_text/default_input_text_plugin.py'), ('rewrite', PL+'input_text/prolongedsoundmark.py')],
  ['text of the built input'])

p('C12', 'Text edits keep a correct map to the original text',
  "After any sequence of replacements of text ranges the built input holds the edited text, its UTF-8 bytes, and for every byte position the right character and the position in the original text: unedited characters map to themselves, a replacement begins at the beginning of what it replaced and its remaining characters map to the end of what it replaced, and the end maps to the end. The map never decreases, and substrings, character lengths and word-start positions are consistent with it.",
  ['histories', 'inputs'], 'all sequences of replacements over all short texts of mixed UTF-8 widths',
  'Tests apply two or three fixed replacements to one text; index arithmetic depends on growing/shrinking edits, their order and adjacency.',
  [S+'utf8inputtextbuilder.py', S+'utf8inputtext.py'],
  [('replace', S+'utf8inputtextbuilder.py'), ('build', S+'utf8inputtextbuilder.py')],
  ['UTF8InputText getters'], state=[dict(name='modified_to_original', meaning='origin of each edited character', where=S+'utf8inputtextbuilder.py')])

p('C13', 'Character categories are those of the definition file',
  "For every character definition file, every code point has exactly the union of the categories of all ranges that contain it, and the default category when no range does, whatever the order, overlap, nesting or duplication of the ranges. A character starts a possible word unless it is an alphabetic character continuing a run of the same category, and category runs are the maximal stretches sharing a category.",
  ['inputs', 'configurations'], 'all sets of ranges and all code points',
  'Tests use one definition file and six hand-written range sets, checking a few code points each.',
  [D+'charactercategory.py', S+'utf8inputtextbuilder.py', S+'utf8inputtext.py'],
  [('range compilation and binary search', D+'charactercategory.py:_compile/get_category_types'), ('runs', S+'utf8inputtextbuilder.py')],
  ['CharacterCategory', 'UTF8InputText'])

p('C14', 'Unknown-word candidates follow the definitions',
  "For a position in a text the out-of-vocabulary plugins propose exactly the words the character-category and unknown-word definitions prescribe: for each category of the character that is always active or when no dictionary word was found, one word over the whole category run if grouping is set, and words of length 1 to n within the run, each once per definition line with its ids, cost and part of speech. The simple plugin proposes one word up to the next word start only when nothing else was proposed, and no candidate starts at a character marked as not starting unknown words unless nothing else is possible.",
  ['inputs', 'configurations'], 'all texts over the categories and all definition tables',
  'Tests cover six hand-made cases of the category-based plugin with one definition line each.',
  [PL+'oov/mecab_oov_plugin.py', PL+'oov/simple_oov_plugin.py', PL+'oov/oov_provider_plugin.py', S+'tokenizer.pyx'],
  [('provide_oov', PL+'oov/mecab_oov_plugin.py')], ['candidates visible through segmentation and get_oov'])

p('C15', 'Every text is analysed',
  "With a configuration that leaves a way through every text (a fallback out-of-vocabulary provider, no inhibited connections, the shipped character and unknown-word definitions or any others that propose words up to the possible word starts), tokenizing any Unicode text of any length, in any mode, terminates without an error and returns at least one morpheme for a non-empty text and none for an empty one. This includes control characters, NUL, combining and unassigned characters, digits and separators in any arrangement, and very long texts.",
  ['inputs'], 'every encodable Unicode string',
  'Tests tokenize ordinary Japanese text only.',
  [S+'tokenizer.pyx', S+'lattice.pyx', PL+'oov/simple_oov_plugin.py', PL+'path_rewrite/join_numeric_plugin.py', PL+'path_rewrite/join_katakana_oov_plugin.py'],
  [('fallback provider', S+'tokenizer.pyx:build_lattice_c'), ('loops of the joining plugins', PL+'path_rewrite')], ['Tokenizer.tokenize'])

p('C16', 'Numeral interpretation is numerically correct',
  "A numeral written with Arabic digits, Kanji digits, Kanji units, thousands separators and a decimal point is accepted exactly when it is well formed, and its normalized value is the exact decimal value it denotes, without losing digits, for any length. Ill-formed arrangements (units in the wrong order, misplaced separators or points) are rejected, and a reused parser behaves like a new one.",
  ['inputs', 'histories'], 'all strings over digits, units, comma and point',
  'About forty example numerals are tested; the value depends on carry of scale, point and separators over arbitrary mixtures.',
  [PL+'path_rewrite/numericparser.py'], [('append/done', PL+'path_rewrite/numericparser.py'), ('StringNumber', PL+'path_rewrite/numericparser.py')],
  ['NumericParser.append/done/get_normalized'])

p('C17', 'Numeric joining rewrites exactly the numerals in a text',
  "With the numeric plugin enabled, every maximal run of numeral words and separators that starts with a word tagged as a numeral and, trailing separators set aside, is well formed as a whole becomes a single morpheme covering its characters whose normalized form is its value (or the concatenated normalized forms when value normalization is off), and the trailing separators stay separate morphemes. In any other run a morpheme is changed only into the union of consecutive original words that spell a well-formed numeral, with its value. Everything else is left as segmented.",
  ['inputs', 'configurations'], 'all texts mixing numerals, separators, units and ordinary words',
  'Tests join a dozen numerals in isolation with one neighbour.',
  [PL+'path_rewrite/join_numeric_plugin.py', PL+'path_rewrite/path_rewrite_plugin.py'],
  [('rewrite', PL+'path_rewrite/join_numeric_plugin.py')], ['Tokenizer.tokenize'])

p('C18', 'Katakana joining affects only unknown or short Katakana',
  "With the Katakana plugin enabled, a stretch of neighbouring Katakana morphemes is joined into one morpheme exactly when the stretch contains an out-of-vocabulary or shorter-than-minimum morpheme, starting at the first position where an unknown word may start; the joined morpheme is the cheapest existing candidate over the same range when there is one and otherwise an out-of-vocabulary morpheme with the configured part of speech. All other morphemes are unchanged.",
  ['inputs', 'configurations'], 'all texts mixing Katakana and other characters, all lexicons and minimum lengths',
  'Tests cover four arrangements.',
  [PL+'path_rewrite/join_katakana_oov_plugin.py', PL+'path_rewrite/path_rewrite_plugin.py', S+'lattice.pyx'],
  [('rewrite', PL+'path_rewrite/join_katakana_oov_plugin.py'), ('concatenate_oov', PL+'path_rewrite/path_rewrite_plugin.py')], ['Tokenizer.tokenize'])

p('C19', 'Settings resolve to the documented resources',
  "Which setting file, resource directory, system dictionary, user dictionaries and character definition are used follows from the constructor arguments and the setting file alone: explicit arguments win over the file, relative paths are taken from the resource directory (by default the directory of the setting file), absolute paths are used as they are, and a dictionary type selects the installed dictionary package. Invalid combinations (unknown type, missing package, missing file, missing required keys) raise an error instead of loading something else, and a later construction is not affected by an earlier one.",
  ['configurations', 'histories'], 'all combinations of arguments, setting contents and earlier constructions',
  'Tests check about ten combinations one at a time.',
  [S+'config.py', S+'dictionary.py'], [('set_up', S+'config.py'), ('path resolution', S+'config.py:to_absolute_resource_path')],
  ['Dictionary constructor, config.settings path methods'])

p('C20', 'The command line prints what the API returns',
  "For every input the tokenize command prints, for each input line in order, one line per morpheme with surface, part of speech and normalized form (with -a also dictionary form, reading, dictionary id, synonym group ids and an OOV mark) as the API reports them in the selected mode, followed by EOS. This holds for standard input (lines end with \\n) and for any number of input files (lines end with \\n, \\r\\n or \\r), for output to a file or standard output, and for empty lines and a missing final newline; errors give a non-zero exit status.",
  ['inputs', 'configurations'], 'all input files, option combinations and line structures',
  'There is no test of the command line at all.',
  [S+'command_line.py', S+'__init__.py'], [('run', S+'command_line.py'), ('_command_tokenize', S+'command_line.py')], ['stdout, output file, exit status'])

p('C21', 'Invalid dictionary sources are rejected',
  "A source that cannot be represented faithfully (too few columns, empty headword, a headword with a NUL character, negative or oversized matrix dimensions, strings or unit lists over the limits, ids or costs that do not fit 16 bits, references to words that do not exist, a unit that is short but declares splits) makes the build fail with an error rather than produce a dictionary. A successfully built dictionary never contains a reference to a word that does not exist.",
  ['inputs', 'fault_sequences'], 'all invalid rows at all positions of a source and in all columns',
  'Tests check six invalid rows at the level of the row parser only.',
  [D+'dictionarybuilder.py', D+'userdictionarybuilder.py', S+'command_line.py'], [('parse_line checks', D+'dictionarybuilder.py'), ('check_wordid', D+'userdictionarybuilder.py')],
  ['build result or exception, exit status'])

p('C22', 'Loading and analysing never modifies files; wrong files are refused',
  "No sequence of loading, analysing, editing costs in memory and closing changes a byte of any dictionary or resource file. A file that is not a dictionary of the requested kind (unknown version, a user dictionary given as the system dictionary or the reverse, an empty file) is refused with an error.",
  ['histories', 'inputs'], 'all operation sequences over dictionaries, all versions in all roles, all corruptions of the version field',
  'Tests check one wrong-kind file each way and never look at the file afterwards.',
  [D+'binarydictionary.py', D+'dictionaryversion.py', D+'wordparameterlist.py', S+'dictionary.py'],
  [('mmap access modes', D+'binarydictionary.py:_read_dictionary'), ('kind checks', D+'binarydictionary.py')], ['file bytes, exceptions'])

p('C23', 'Connection costs survive building and reading',
  "For every connection matrix source, including non-square matrices, omitted cells, comments, blank lines and cells in any order, the cost read from the built dictionary for a right id of the left word and a left id of the right word is exactly the cost given for that pair, and 0 for omitted pairs; where a pair is given several times, the last cost counts. Editing a cell in memory changes that cell only.",
  ['inputs', 'configurations'], 'all matrices up to the explored dimensions with all subsets of cells',
  'The only test matrix is square, complete and sorted.',
  [D+'dictionarybuilder.py', D+'grammar.py', PL+'connect_cost/inhibitconnectioncost.py', S+'lattice.pyx'],
  [('convert_matrix', D+'dictionarybuilder.py'), ('matrix view', D+'grammar.py')], ['Grammar.get_connect_cost, segmentation'])

p('C24', 'Tokenizers in different threads do not interfere',
  "Several threads, each using its own tokenizer (and its own results) created from the same dictionary, obtain exactly the results they would obtain alone, for every interleaving of their execution.",
  ['schedules'], 'all thread interleavings (explored up to a preemption bound) of tokenizing and reading results',
  'All tests are single threaded.',
  [D+'wordinfolist.py', D+'lexiconset.py', S+'tokenizer.pyx', S+'morphemelist.py'],
  [('shared dictionary bytes', D+'wordinfolist.py:get_word_info'), ('shared word info cache', D+'lexiconset.py:get_word_info')],
  ['results per thread'], state=[dict(name='file position of the mapped dictionary', meaning='shared cursor', where=D+'wordinfolist.py')])

p('C25', 'A dictionary can be closed and reopened at any point',
  "Closing a dictionary succeeds after any use of it (fresh, after analysing, after reading results, with user dictionaries, after it has been closed) once its tokenizers and results are no longer in use, releases its files, and does not disturb other open dictionaries; while they are still in use it may be refused, but that does not prevent closing later. Opening it again gives a dictionary that behaves like the first.",
  ['histories'], 'all sequences of open, create, tokenize, read, drop and close over several dictionaries',
  'Tests only close unused dictionaries.',
  [S+'dictionary.py', D+'binarydictionary.py', D+'lexiconset.py', D+'doublearraylexicon.py'],
  [('close', S+'dictionary.py'), ('release of views', D+'wordparameterlist.py, '+D+'wordidtable.py')], ['close(), mapped files of the process'])

p('C26', 'A failed dictionary build leaves no usable wrong output',
  "When building a system or user dictionary from the command line fails for any reason (an invalid source, or a write error at any point), the command ends with a non-zero status, the source files are unchanged, and the output path is left as it was or holds nothing that can be loaded as a dictionary other than one with the complete source.",
  ['fault_sequences', 'crash_points'], 'every failing write of a build, every invalid row position, and every truncation of the output',
  'No test exercises a failing build end to end.',
  [S+'command_line.py', D+'dictionarybuilder.py', D+'userdictionarybuilder.py'],
  [('order of writes', D+'dictionarybuilder.py:write_lexicon/write_wordinfo'), ('output file handling', S+'command_line.py')], ['output file, exit status'])

p('C27', 'Configured plugins are applied in order, all and only they',
  "Analysis uses exactly the plugins that the setting file lists, in the order listed, also when one is listed several times with different parameters: each input-text plugin rewrites the text as the previous one left it; each provider of unknown words is asked at every position and is told whether the dictionaries or the providers before it proposed a word, and the last one is the fall-back where nothing was proposed; each joining plugin works on the path the previous one left. A tokenizer uses the plugins of the dictionary it was created from, whatever other dictionaries have been opened in the process. Optional parameters take their documented defaults. A listed class that does not exist or is of another kind, a missing required parameter, a definition file that is missing or malformed, a part of speech that the dictionary does not have, or an empty list of unknown-word providers makes opening the dictionary fail with an error.",
  ['configurations', 'inputs'], 'all lists of plugins (orders, repetitions, parameters) of each kind, all texts, every faulty entry at every position of a list',
  'The tests use one fixed list of each kind and call the plugins one at a time.',
  [S+'dictionary.py', S+'tokenizer.pyx', PL+'input_text/utils.py', PL+'oov/utils.py', PL+'path_rewrite/utils.py', PL+'oov/mecab_oov_plugin.py', PL+'oov/simple_oov_plugin.py'],
  [('creation and set-up of plugins', S+'dictionary.py:__init__'), ('order of application', S+'tokenizer.pyx:tokenize, build_lattice_c')],
  ['Dictionary constructor, Tokenizer.tokenize'])

p('C28', 'A result is a sequence of its morphemes',
  "The result of tokenizing (and the units of splitting a morpheme) behaves as a finite ordered sequence whatever has been read before: its length and size are the number of morphemes, iterating gives all of them in order each time, also backwards, nested, interrupted or interleaved with other reads, indexes from -n to n-1 give the morpheme at that place and every other index raises IndexError, its text is the concatenation of the surfaces, and the attributes of a morpheme have the same values in whatever order and however often they are read. An empty text gives an empty sequence.",
  ['histories', 'inputs'], 'all sequences of reading operations on results of all lengths',
  'Tests read a result once, from the front.',
  [S+'morphemelist.py', S+'morpheme.py'], [('indexing and iteration', S+'morphemelist.py:__getitem__/__iter__'), ('cached word info', S+'morpheme.py:get_word_info')],
  ['MorphemeList, Morpheme'])

p('C29', 'The debug output shows the lattice the analysis used',
  "With a logger (or -d on the command line) the analysis additionally shows the text as analysed after input rewriting, every candidate word of the lattice exactly once with its byte range, surface, word id, part of speech, connection ids, cost and its connection costs to all words ending where it begins, the end of the sentence likewise, the chosen path before rewriting, which is a path of the lattice of lowest total cost, and the path after rewriting and splitting, which is the result. The lattice is also shown when no path exists. The result is the same as without debug output.",
  ['inputs', 'configurations'], 'all texts over all lexicons, matrices and plugins',
  'No test looks at the debug output.',
  [S+'lattice.pyx', S+'latticenode.pyx', S+'tokenizer.pyx', S+'command_line.py'], [('dump of the lattice', S+'lattice.pyx:dump'), ('dump of the path', S+'tokenizer.pyx:_dump_path')],
  ['logger messages, standard output with -d'])

p('C30', 'A dictionary is a function of its sources',
  "Building from the same source files, in the same order (and, for a user dictionary, with the same system dictionary), gives the same dictionary, byte for byte except the creation time and the description in the header: whatever was built (also unsuccessfully), opened or analysed in the process before, whatever the hash seed, working directory, file names, locale and time zone, what the output path held, and whether the command or the library builds it. So the word ids and parts of speech of user dictionaries stay valid when the system dictionary is built again. The header holds the description given and the time of building.",
  ['histories', 'configurations'], 'all sequences of builds, failing builds and analyses in one process, all ways of calling the build commands, hash seeds',
  'Tests build one dictionary per process state and never twice.',
  [D+'dictionarybuilder.py', D+'userdictionarybuilder.py', D+'dictionaryheader.py', S+'command_line.py'],
  [('state of a builder', D+'dictionarybuilder.py:__init__'), ('order of parts of speech and ids', D+'dictionarybuilder.py'), ('header', S+'command_line.py:_command_build/_command_user_build')],
  ['output files of build and ubuild'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for o in P:
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
print(len(P))
