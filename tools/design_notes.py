"""Hand-written part of DESIGN.md per property: what is enumerated and how, the oracle, why tests cannot settle it, cost."""
NOTES = {
'C01': dict(
 how='stateless exploration of the real tokenizer: every text of a bounded alphabet chosen so that each character class interacts with a rewrite rule (grows, shrinks, astral, combining), under every combination of the shipped input plugins, in every mode, plus every code point of Unicode in fixed contexts.',
 oracle='the text itself: positions and surfaces are read back and compared with slices of the original text; units of split morphemes must tile their parent.',
 why='an offset goes wrong only where a length-changing edit, a byte width and a unit boundary coincide; the tests contain a dozen fixed sentences.',
 cost='about 25 s.'),
'C02': dict(
 how='explicit enumeration of configurations (all small matrices, ids, costs, dictionaries) and, for each, of all short texts; plus families of unbounded size (k predecessors at one position for k up to 300, sums that leave 32 bits, periodic texts of every length).',
 oracle='`ref.Model`: an independent shortest-path over the complete set of candidates (characters and strings instead of bytes and tries). The path the tokenizer returned is re-priced in the model: it must consist of allowed candidates and cost exactly the minimum; if the model has no path, the tokenizer must raise.',
 why='a pruned candidate, swapped id or wrong treatment of inhibited cells changes the result only for particular matrices; ties make expected outputs useless, so cost equality is compared instead.',
 cost='about 25 s.'),
'C03': dict(
 how='all sets of up to three (four) headwords over an alphabet with shared byte prefixes of all UTF-8 widths, looked up at every byte position of every text; every number of homographs; nesting to depth 700; every code point as a headword; distributions over several dictionaries.',
 oracle='prefix scan over the plain list of entries. The images are written by the independent encoder and, in separate sections, by the real builder.',
 why='the trie, the id table and the merge of several dictionaries fail at boundaries (counts, byte prefixes, unindexed entries) that three headwords never reach.',
 cost='about 25 s.'),
'C04': dict(
 how='all histories of 17 API operations up to depth 4 (5), including failing calls, other dictionaries, dropped and re-read results; all sequences of text sizes; cache capacities crossed in several access patterns; 16 (128) hash seeds in new processes.',
 oracle='differential: every result is compared with that of a fresh dictionary and tokenizer for the same text and mode; results obtained earlier are re-read at the end.',
 why='stale state needs a sequence; each test starts from a fresh fixture.',
 cost='about 60 s.'),
'C05': dict(
 how='all pairs of A/B declarations over compositions of a word of four characters, located in system or user dictionaries, all modes and every split of every result; every number of units 2..127.',
 oracle='units derived from the mode-C list and the plain entries; attributes of every unit compared field by field.',
 why='the tests split one word.',
 cost='about 25 s.'),
'C06': dict(
 how='the complete product of field values of an entry in three dictionaries; all dictionary-form graphs over four (five) entries including cycles; all cost orders of homographs; string lengths around encoding boundaries; 0..127 synonym groups; all short texts with unknown words.',
 oracle='the plain entry (defaults applied by the documented rule); for unknown words the candidate set of the reference model.',
 why='tests read a few words of one lexicon.',
 cost='about 15 s.'),
'C07': dict(
 how='all combinations of up to three (four) deviating columns of a source row; every code point raw and escaped in every text column; string lengths at every boundary; all pairs of unit references; all cuts into files.',
 oracle='two readers: `fmt.decode`, an independent decoder which must account for every byte, and the real loader; both must give the source rows.',
 why='encodings switch at 127/128, 255/256, 32767 and U+10000 and a symmetric error of writer and reader is invisible to a round trip.',
 cost='about 20 s.'),
'C08': dict(
 how='all images of the five versions with bounded shapes and all boundary values in every field, written by the independent encoder; all description lengths.',
 oracle='what was encoded.',
 why='the tests read only what the builder of the same tree wrote; three versions are never read.',
 cost='about 10 s.'),
'C09': dict(
 how='all vectors of kinds of up to four (five) user dictionaries, all positions of a differing one among 1..15, all orders of four (five), 14..21 dictionaries, many own parts of speech, more than 65 536 words.',
 oracle='plain entries with ids converted by position.',
 why='id packing and offsets depend on number and order.',
 cost='about 15 s.'),
'C10': dict(
 how='all cost assignments (or absence) of six system words x all user words in two dictionaries; both clipping ends; chains of 15 dictionaries; plugin combinations.',
 oracle='the rule evaluated over *all* minimum-cost paths of the model (ties allowed), then segmentation with these costs.',
 why='one test looks only whether the marker was replaced.',
 cost='about 15 s.'),
'C11': dict(
 how='every code point alone and in context; every pair of keys of the shipped definition; all texts over characters of every class; all small definitions over nested keys; mark sets and symbols; long runs; seven plugin orders of a tokenizer.',
 oracle='a plain left-to-right scan over the definition file, read independently; the map to the original is compared too.',
 why='tests check four strings.',
 cost='about 35 s.'),
'C12': dict(
 how='all sequences of up to two (three) replacements on 14 texts with six replacement strings and every query on the result; all subsets of replaced characters; every code point; all argument pairs.',
 oracle='one origin per character (`ref.OffsetText`).',
 why='the tests replace one or two fixed ranges.',
 cost='about 35 s.'),
'C13': dict(
 how='all sequences of range definitions over a small line in every order, all nesting patterns, definition layouts; every code point with the shipped file.',
 oracle='union over the plain list of ranges.',
 why='the interval merge works on sorted boundaries; errors need three overlapping ranges or a gap of one.',
 cost='about 20 s.'),
'C14': dict(
 how='all properties of categories x definitions x runs; the providers are called at every position of every text, alone and chained.',
 oracle='the MeCab rules written down in `ref.MecabOov` and `ref.SimpleOov`.',
 why='tests check one provider with one definition.',
 cost='about 20 s.'),
'C15': dict(
 how='every code point, every text over a nasty alphabet, all short numeral and Katakana texts, patterns up to 6000 (20 000) characters, all category assignments; full plugin chain. A text that does not finish within the watchdog is a violation.',
 oracle='termination, tiling, no exception (with the shipped kind of configuration: a fall-back word provider).',
 why='totality: a crash or loop needs one unusual text.',
 cost='about 70 s.'),
'C16': dict(
 how='all strings up to length 6 (7) over 12 characters, up to 3 (4) over all 28; all values below 10 000 (100 000) in written form; abandoned parses followed by another.',
 oracle='a grammar of numerals with exact decimal arithmetic on digit strings (`ref.numeral_value`).',
 why='acceptance is a language; tests sample about thirty strings.',
 cost='about 30 s.'),
'C17': dict(
 how='all texts up to 4 (5) over ten characters and up to 6 (7) over six (seven), in eight configurations (homographs, multi-character words, unknown digits, other parts of speech, odd normalized forms); sequences of pieces; numerals of every length.',
 oracle='differential against the same configuration without the plugin, the joined result derived from the words by the specification.',
 why='which words are joined depends on separators, part of speech and word boundaries together.',
 cost='about 40 s.'),
'C18': dict(
 how='all texts up to 5 (7) in twelve configurations; all 256 lexicons over eight words; stretches of every length; rewritten texts; with numeric joining in front.',
 oracle='as C17; the word chosen over a joined range comes from the reference lattice.',
 why='the tests cover four arrangements.',
 cost='about 25 s.'),
'C19': dict(
 how='every combination of arguments and setting contents that differs from the plain one in up to four (five) of eight respects, all sequences of constructions (2 of 17, 3 of 10), in processes with stand-in dictionary packages.',
 oracle='a table of the documented resolution; every resource is marked so that the loaded object shows which file it came from.',
 why='a global settings object makes later constructions depend on earlier ones.',
 cost='about 25 s.'),
'C20': dict(
 how='the real command in a process of its own for all small inputs, all option combinations, file sequences and line structures.',
 oracle='lines computed from the API in the checking process.',
 why='no test runs the command.',
 cost='about 40 s.'),
'C21': dict(
 how='every listed value of every column of every row position, all pairs of columns, matrices line by line, numbers of parts of speech, exit status of the commands.',
 oracle='a validity predicate per column; what is accepted is decoded independently and must hold the source.',
 why='tests check six rows at the row parser only.',
 cost='about 20 s.'),
'C22': dict(
 how='all sequences of up to four (five) of 11 operations on three configurations with the files compared after each; all one- and two-bit changes of the version, truncations and roles.',
 oracle='bytes, size, time, inode and directory listing; acceptance exactly by the published version numbers.',
 why='a stray write through a mapping shows up only after certain operations.',
 cost='about 25 s.'),
'C23': dict(
 how='all subsets of cells of all matrices up to 4x3, all line orders, layouts, all 16-bit values, shapes up to 32767x1 and 260x260, all edit sequences, all inhibited pairs, segmentation through the builder.',
 oracle='the source as a mapping; `fmt.decode`; `ref.Model` for segmentation.',
 why='the only matrix of the tests is square, complete and sorted.',
 cost='about 30 s.'),
'C24': dict(
 how='controlled scheduler (`mc/sched.py`): threads run one at a time, and every executed line (bytecodes in one section) of the Python modules is a point where the scheduler may switch. All schedules with at most one preemption for all pairs of programs, two for short programs, three for the shortest, and three threads are run on the real code. Schedules are cut only by the preemption bound.',
 oracle='what each program observes alone.',
 why='all tests are single-threaded; a race needs a switch between two particular lines.',
 cost='about 130 s.'),
'C25': dict(
 how='all enabled operation sequences (open, create, tokenize, read, drop, close) up to 7 operations on one slot, 5 on two, 4 on three, with garbage-collector cycles off, mappings read from /proc/self/maps.',
 oracle='lifecycle model: no mapping of a closed dictionary, other slots keep their results.',
 why='tests close unused dictionaries only.',
 cost='about 25 s.'),
'C26': dict(
 how='fault injection into the real command: a file-size limit at every byte, every file operation failing before, half-way or after, the process killed at every executed line, every class of invalid row at every position, every initial state of the output.',
 oracle='exit status 0 iff the complete dictionary is at the output; otherwise the output is as before or the loader refuses it; sources unchanged.',
 why='no test runs a failing build.',
 cost='about 40 s.'),
'C27': dict(
 how='all lists of up to three plugins of each kind with repetitions and parameter variants, on all short texts; every faulty entry (classes, kinds, parameters, files, parts of speech) at every position of a list.',
 oracle='composition of the reference models of the single plugins (`ref.OffsetText` edits, provider models in `ref.Model`); for joining plugins the derivation of C17 and C18, step by step.',
 why='order and repetition only matter when two plugins touch the same text; tests call each plugin alone.',
 cost='about 30 s.'),
'C28': dict(
 how='all sequences of up to three (four) of 19 reading operations on results and units; results of every length.',
 oracle='the plain list of attributes of a fresh analysis.',
 why='tests read results once from the front.',
 cost='about 8 s.'),
'C29': dict(
 how='all short texts in three configurations and all 3x3 matrices over three costs, analysed with a logger that keeps the messages; the -d option on the command line.',
 oracle='candidates, costs and the minimum of `ref.Model`; the path after rewriting is compared with the result.',
 why='no test looks at the output.',
 cost='about 10 s.'),
'C30': dict(
 how='all sequences of up to 3 (5) of 10 operations (five different builds, four failing ones, an analysis) in one process, each in a forked child of a clean one; 24 (256) hash seeds in new processes; the product of output paths, working directories, namings and descriptions of the command; user dictionaries built with a system dictionary built at another time and in use.',
 oracle='differential: the bytes built first thing in a new process (whose decoding is checked against the source by C07), except time and description; the header is decoded independently.',
 why='each test builds once, so state kept between builds and orders that depend on hashing are invisible.',
 cost='about 50 s.'),
}
