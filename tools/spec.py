"""The table from which properties.jsonl and MANIFEST.json are written:  python tools/spec.py"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
B = 'sudachipy/dictionarylib/'
P = 'sudachipy/plugin/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level='exploration', observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, level=level, observe=observe or []))


SMALL = 'The tests analyse about twenty fixed sentences with one small dictionary.'

prop('C01', 'Morphemes partition the input text',
     'For every text, dictionary, setting and split mode with which the analysis succeeds, the morphemes cover the text from its first to its last character'
     ' without gap or overlap, and the surface and str of each are exactly the part of the original text from its begin to its end; the empty text has no '
     'morphemes. The same holds for the units that split() returns, within the span of their morpheme (given units whose headwords concatenate to that of '
     'the word). The result, like a list of units, is a sequence: length, iteration, positive and negative indices agree, an index outside raises '
     'IndexError, and its str is the part of the text that it covers.',
     ['inputs', 'configurations'], 'every Unicode text without lone surrogates, every dictionary, plugin setting and mode',
     'The tests analyse about twenty fixed sentences with one small dictionary. The offsets pass through three coordinate systems (original characters, '
     'rewritten characters, bytes).',
     ['sudachipy/tokenizer.pyx',
      'sudachipy/morphemelist.py',
      'sudachipy/morpheme.py',
      'sudachipy/utf8inputtext.py',
      'sudachipy/utf8inputtextbuilder.py'],
     [('offset table from bytes to original characters', 'sudachipy/utf8inputtextbuilder.py'),
      ('lattice positions', 'sudachipy/tokenizer.pyx')],
     'runtime monitor over randomly generated dictionaries, settings and texts: partition checked online on every analysis',
     'Every result is judged in full by an oracle that needs no model. Assumes units of a word concatenate to its headword (generated so).')

prop('C02', 'The segmentation is a least-cost path',
     'Before path rewriting, the words of a result form a path whose total cost - word costs plus the connection costs from the right ID of each word to the'
     ' left ID of the next, with ID 0 for both ends of the text - is the least of all paths of candidate words, also for matrices that are not square and '
     'for sums beyond 32 bits. The candidates at a position where a word may begin are the dictionary words whose headword is the text there and that end '
     'where a word may begin, with the IDs and costs of their source, and the OOV words that the settings prescribe. If no path exists, the analysis raises '
     'an error.',
     ['inputs', 'configurations'], 'every lexicon, matrix, set of user dictionaries, OOV definition and text',
     'The tests analyse about twenty fixed sentences with one small dictionary. Optimality is a claim over exponentially many paths.',
     ['sudachipy/lattice.pyx',
      'sudachipy/tokenizer.pyx',
      B + 'grammar.py',
      B + 'lexiconset.py'],
     [('Viterbi step', 'sudachipy/lattice.pyx connect_node'),
      ('candidate generation', 'sudachipy/tokenizer.pyx build_lattice_c')],
     'recorder in front of the path rewrite plugins; offline oracle prices the recorded path from the sources and compares with an independent search',
     'The reference model (rt/model.py) is written from the documentation and file formats and reads only the sources.')

prop('C03', 'A built system dictionary contains exactly its sources',
     'Building a system dictionary from any valid CSV sources and matrix.def (several files, \\u literals, quoting, any Unicode text, strings up to the '
     'length limit, synonym groups, splits by ID, U-ID or inline reference, dictionary forms, non-indexed words, sparse and non-square matrices), through '
     'the API or the build command, and loading it gives back every field of every word, its left ID, right ID and cost, every part of speech, every '
     'connection cost, the description and the creation time. Looking up any text at any byte offset gives exactly the indexed words whose headword is a '
     'prefix there, shortest first. The file follows the documented binary format, so that an independent reader of it finds the same.',
     ['inputs'], 'every valid set of sources',
     'The tests build one dictionary of 39 words with a 10 x 10 matrix.',
     [B + 'dictionarybuilder.py',
      B + 'binarydictionary.py',
      B + 'doublearraylexicon.py',
      B + 'wordinfolist.py',
      B + 'wordidtable.py',
      B + 'wordparameterlist.py',
      B + 'grammar.py',
      B + 'dictionaryheader.py',
      'sudachipy/command_line.py'],
     [('writer', B + 'dictionarybuilder.py'),
      ('readers', B + 'wordinfolist.py')],
     'differential monitor: what is read back (through the API and by an independent parser of the file) against the parsed sources',
     'The parser of the binary format and the parser of the sources are independent of the code under test; the double array is parsed, too.')

prop('C04', 'User dictionaries layer onto the system dictionary',
     'With up to 15 user dictionaries, every word of each is found under its own dictionary ID (1 to 15 in the order of the settings) with the fields, '
     'parameters and splits its source says (references to system words stay system words, references to its own words stay its own), parts of speech that '
     'are new in a user dictionary are reported as written, words found at the same place are listed user dictionaries first, system dictionary last, and the word ID '
     'for a surface, part of speech and reading is that of the first dictionary that has them. A '
     'cost of -32768 is replaced by last cost - first cost - 20 per morpheme of the analysis of its surface with the dictionaries before it, clipped to 16 '
     'bits. A sixteenth user dictionary is refused.',
     ['configurations', 'inputs'], 'every number (0 to 16) and order of user dictionaries, every content',
     'The tests load two user dictionaries.',
     [B + 'lexiconset.py',
      B + 'userdictionarybuilder.py',
      B + 'doublearraylexicon.py',
      'sudachipy/dictionary.py'],
     [('word ID composition and offsets of parts of speech', B + 'lexiconset.py'),
      ('automatic cost', B + 'doublearraylexicon.py')],
     'differential monitor: words, lookups and automatic costs of loaded stacks of dictionaries against a reference computed from the sources',
     'Automatic costs are compared with the set of all values ties allow.')

prop('C05', 'Modes A and B refine mode C through the units of each word',
     'The result in mode A (B) is the result in mode C with every word that has two or more A (B) units replaced by exactly these units, in order, with '
     'their spans in the original text, dictionary IDs and attributes, and every other word kept as it is. split(A) and split(B) of each morpheme of mode C '
     'give the same units and split(C) gives the morpheme itself. The mode given to create() is used when tokenize() gets none, the mode given to tokenize()'
     ' otherwise.',
     ['inputs', 'configurations'], 'every dictionary with splits (by ID, U-ID, inline reference), every text',
     'The tests split five words of the test dictionary.',
     ['sudachipy/tokenizer.pyx',
      'sudachipy/morphemelist.py',
      B + 'dictionarybuilder.py',
      B + 'lexiconset.py'],
     [('_split_path', 'sudachipy/tokenizer.pyx'),
      ('split', 'sudachipy/morphemelist.py')],
     'differential monitor between modes, split() and the sources',
     'Needs units that concatenate to the headword, which the generator guarantees.')

prop('C06', 'Default normalization and its offset mapping',
     'With the default input text plugin, the text that is analysed is the input rewritten from left to right: the longest replacement of rewrite.def that '
     'begins at a character, else the character in lower case, followed by NFKC unless rewrite.def lists it as not to be normalized. Every character of the '
     'rewritten text is mapped to the original text: the first character of a replacement to the begin of what it replaces, the further ones to its end, '
     'unchanged ones to themselves, and the end to the end, so that positions never decrease. This holds for any valid rewrite definition and any text.',
     ['inputs', 'configurations'], 'every text and every valid rewrite definition',
     'The tests use four fixed strings.',
     [P + 'input_text/default_input_text_plugin.py',
      'sudachipy/utf8inputtextbuilder.py',
      'sudachipy/resources/rewrite.def'],
     [('rewrite', P + 'input_text/default_input_text_plugin.py'),
      ('replace', 'sudachipy/utf8inputtextbuilder.py')],
     'differential monitor against an independent reference of the rewriting and the offsets; every code point exhaustively (thorough)',
     "Python's own unicodedata is trusted for lower() and NFKC.")

prop('C07', 'Runs of prolonged sound marks collapse to one symbol',
     'With the prolonged sound mark plugin, every maximal run of two or more configured marks is replaced by the configured symbol (of any length from one '
     'character), a single mark and everything else stay as they are, and every position is mapped to the original text as for any replacement; this holds '
     'also when it is combined with the default plugin in either order.',
     ['inputs', 'configurations'], 'every text, set of marks and replacement symbol',
     'The tests use three fixed strings with a one-character symbol.',
     [P + 'input_text/prolongedsoundmark.py',
      'sudachipy/utf8inputtextbuilder.py'],
     [('rewrite', P + 'input_text/prolongedsoundmark.py')],
     'differential monitor against an independent reference; all texts up to a length over a small alphabet exhaustively',
     'As C06.')

prop('C08', 'The categories of a character are the union of all ranges that hold it',
     'For every character definition with at least one range and every code point from 0 to 0x10FFFF, the categories are the union of the categories of all '
     'ranges (and single code points) that contain it, whatever their order and overlap, and DEFAULT when no range contains it. Comments, blank lines and '
     'the lines that define category properties do not matter.',
     ['inputs', 'configurations'], 'every valid char.def, every code point from 0 to 0x10FFFF',
     'The tests ask about a dozen code points of three definitions.',
     [B + 'charactercategory.py',
      B + 'categorytype.py'],
     [('compiled ranges and bisection', B + 'charactercategory.py')],
     'differential monitor: every boundary, its neighbours and random code points of random definitions against a direct union',
     'All code points are compared for the shipped definition and a share of the random ones.')

prop('C09', 'OOV candidates are exactly what the definitions prescribe',
     'At every position where a word may begin and that an analysis reaches, the MeCab OOV provider gives for each category of the character that has '
     'properties and unk.def entries, unless there are words already and the category is not always invoked, per entry one word for the whole run of '
     'characters sharing a category when grouping is on, and one word for each length from 1 to the given number of characters that stays within the run (and is shorter than it, where grouping gave the whole '
     'run already), none twice; '
     'the simple provider gives one word to the next possible word begin when there are no other words. Each of these words has the left and right ID, cost,'
     ' part of speech and surface of its definition and is of no use (dropped) when it ends where no word may begin. Providers are asked in the order of the'
     ' settings, none where the character is NOOOVBOW, and the last of them once more when there is still no word.',
     ['inputs', 'configurations'], 'every character definition, unk.def, set of providers and text',
     'The tests ask one provider over a mock text.',
     [P + 'oov/mecab_oov_plugin.py',
      P + 'oov/simple_oov_plugin.py',
      P + 'oov/oov_provider_plugin.py',
      'sudachipy/tokenizer.pyx',
      'sudachipy/utf8inputtext.py'],
     [('provide_oov', P + 'oov/mecab_oov_plugin.py'),
      ('OOV part of build_lattice', 'sudachipy/tokenizer.pyx')],
     'spies over the provider interface record each call of an analysis; trace compared with a reference; each provider also asked at every position',
     'The existing quirk that each grouped word shortens the limit of the shorter words by one byte is part of the reference.')

prop('C10', 'Every text can be analysed when there is a fallback provider',
     'With a simple OOV provider last in the settings and no forbidden connections, tokenize() returns for every text in every mode, with every combination '
     'of plugins and also with a logger for dumps, without raising an error and without taking for ever, and the morphemes cover the text.',
     ['inputs', 'configurations'], 'every Unicode text without lone surrogates, up to tens of thousands of characters, every plugin combination',
     'The tests analyse about twenty fixed sentences with one small dictionary.',
     ['sudachipy/tokenizer.pyx',
      'sudachipy/lattice.pyx',
      P + 'path_rewrite/join_numeric_plugin.py',
      P + 'path_rewrite/join_katakana_oov_plugin.py'],
     [('fallback provider', 'sudachipy/tokenizer.pyx'),
      ('loop of the numeric plugin', P + 'path_rewrite/join_numeric_plugin.py')],
     'stress with hostile texts and definitions under a CPU-time watchdog',
     'Termination is judged by a CPU limit per case that is hundreds of times what a case takes.')

prop('C11', 'Numeric expressions are normalized to their value',
     'For every string of digits (0-9 and kanji), small (十百千) and large (万億兆) units, commas and points, the numeric parser either rejects it or accepts it, '
     'and what it accepts is normalized to a decimal numeral (digits, with a point and a fraction not ending in 0 when needed) of exactly the value of the '
     'expression, for any size of number. Arabic and kanji positional numbers with or without correct comma groups and fractions, and numbers with units '
     'whose parts do not overlap and descend, are accepted; numbers with parts that overlap or ascend, with leading, doubled or misplaced commas or several '
     'points, or that end in a comma or point are rejected. A parser that was cleared behaves like a new one.',
     ['inputs'], 'every string over the 28 numeric characters',
     'The tests parse about seventy strings.',
     [P + 'path_rewrite/numericparser.py'],
     [('NumericParser', P + 'path_rewrite/numericparser.py')],
     'online oracle with exact rational arithmetic; all strings up to a length exhaustively, longer ones from a grammar and at random',
     'The oracle is an independent evaluator; what is neither well formed nor accepted is only checked for staying rejected consistently.')

prop('C12', 'Numeric words are joined into one number',
     'The numeric plugin changes a path only by joining consecutive words that are numeric (with commas and points between them) and of which the first is a'
     ' numeral: a maximal run that is a well-formed number is joined as a whole, one comma or point after a number is left off, and where commas are '
     'misplaced (or points lead or are several) they separate numbers instead. A joined word has the span, surface and readings of its words and the numeral'
     ' part of speech and, with normalization enabled, the exact decimal value as its normalized form (otherwise the normalized forms of its words in '
     'sequence). All other words stay the same objects in the same order, and the joined path covers the text like the path before.',
     ['inputs', 'configurations'], 'every path over numeric and other words, with normalization on and off',
     'The tests join about ten fixed expressions.',
     [P + 'path_rewrite/join_numeric_plugin.py',
      P + 'path_rewrite/path_rewrite_plugin.py'],
     [('rewrite', P + 'path_rewrite/join_numeric_plugin.py'),
      ('concatenate', P + 'path_rewrite/path_rewrite_plugin.py')],
     'recorders before and after the plugin; the two paths are compared by a reference of the joining',
     '')

prop('C13', 'Katakana words are joined around OOV and short words',
     'The katakana plugin joins exactly the maximal runs of katakana words that contain an OOV word or a word with fewer characters than the minimum length,'
     ' without the words at their front that begin with a NOOOVBOW character, and leaves runs of one word as they are. The joined word is the one of lowest '
     'word cost among the words of the lattice with that span when there is one, else a new OOV word with the configured part of speech, the surfaces as '
     'surface, dictionary and normalized form and an empty reading. All other words stay the same objects in the same order.',
     ['inputs', 'configurations'], 'every path, minimum length and character definition',
     'The tests join six fixed expressions.',
     [P + 'path_rewrite/join_katakana_oov_plugin.py',
      P + 'path_rewrite/path_rewrite_plugin.py',
      'sudachipy/lattice.pyx'],
     [('rewrite', P + 'path_rewrite/join_katakana_oov_plugin.py'),
      ('concatenate_oov', P + 'path_rewrite/path_rewrite_plugin.py')],
     'recorders before and after the plugin; the two paths are compared by a reference of the joining',
     '')

prop('C14', 'An analysis does not depend on what was analysed before',
     'The result for a text in a mode is the same from a new tokenizer and from one that has analysed any sequence of other texts in any modes, longer and '
     'shorter, including analyses that failed and analyses with a logger for dumps. Results that were returned earlier, and the units obtained from them, '
     'keep reporting the same whatever is analysed afterwards, and reading results changes no later analysis.',
     ['histories'], 'every sequence of analyses (also failing ones) with one tokenizer and with several tokenizers of one dictionary',
     'Each test uses its tokenizer for one or two texts.',
     ['sudachipy/lattice.pyx',
      'sudachipy/tokenizer.pyx',
      B + 'lexiconset.py'],
     [('lattice reuse', 'sudachipy/lattice.pyx resize/clear')],
     'metamorphic monitor over random histories: fresh against used tokenizers, snapshots of old results re-read',
     '')

prop('C15', 'Tokenizers of one dictionary work in several threads',
     'Several threads, each with a tokenizer of its own made from one shared dictionary, get for every text, mode and attribute exactly what a single thread'
     ' gets, from the first access on and whatever the interleaving.',
     ['schedules'], 'every interleaving of up to 16 threads analysing texts and reading attributes, with cold and with warm caches',
     'The tests have one thread.',
     [B + 'wordinfolist.py',
      B + 'lexiconset.py',
      B + 'doublearraylexicon.py'],
     [('lock around the file position', B + 'wordinfolist.py'),
      ('per-tokenizer lattice', 'sudachipy/tokenizer.pyx')],
     'schedule stress: minimal switch interval and injected yields at line events in the dictionary code; results compared with a sequential run',
     'CPython with the GIL; construction of dictionaries itself is sequential.')

prop('C16', 'Results and built files do not vary between runs',
     'The same sources, settings and texts give the same morphemes with the same attributes in every process, whatever the hash seed. Building the same '
     'sources gives byte for byte the same dictionary file except for the creation time in its header.',
     ['configurations', 'histories'], 'hash seeds 0, random; separate processes; repeated builds',
     'Tests run in one process and compare with constants.',
     [P + 'oov/mecab_oov_plugin.py',
      B + 'dictionarybuilder.py',
      B + 'charactercategory.py'],
     [('sorted iteration over category sets', P + 'oov/mecab_oov_plugin.py'),
      ('sorted trie keys', B + 'dictionarybuilder.py')],
     'the same workload in processes with different hash seeds; digests of traces and files compared',
     '')

prop('C17', 'Dictionaries are isolated and files are not modified',
     'Several dictionaries with different settings, resources and contents that are open in one process give the same results as each does alone, in '
     'whatever order they are opened, used and closed. Opening and using dictionaries (also with automatic costs) never changes any file.',
     ['histories', 'configurations'], 'every interleaving of opening, using and closing of several dictionaries, also of the same files',
     'The tests switch between two dictionaries once.',
     ['sudachipy/dictionary.py',
      'sudachipy/config.py',
      B + 'lexiconset.py',
      B + 'binarydictionary.py'],
     [('private copies of user dictionaries', B + 'binarydictionary.py'),
      ('word information cache per dictionary', B + 'lexiconset.py')],
     'random histories over several dictionaries; results compared with isolated reference processes; file digests before and after',
     '')

prop('C18', 'An interrupted build leaves no file that loads',
     'When the build or ubuild command fails or is interrupted at any point (invalid source line, full disk or write error at any byte of the output, kill '
     'at any write), the output is missing or is refused when it is loaded, unless it is already the complete file byte for byte or still the untouched '
     'previous file of that name. The command reports failure by its exit status in all of these cases, and success only when the file is complete. The '
     'dictionary a user dictionary is built against is never changed.',
     ['crash_points', 'fault_sequences'], 'every file size limit, every write call, every source line',
     'The tests build without faults.',
     ['sudachipy/command_line.py',
      B + 'dictionarybuilder.py',
      B + 'binarydictionary.py',
      B + 'dictionaryheader.py'],
     [('header written last', 'sudachipy/command_line.py')],
     'fault enumeration: error or kill at each write of the output, file size limits, an invalid row at each line; the output is then loaded',
     'Reordering of page writes on power loss is not modelled.', level='fault_enumeration')

prop('C19', 'Malformed dictionary sources are refused',
     'Building refuses with an error, wherever the defect is: rows with fewer than 18 columns, an empty headword, IDs, costs, dictionary forms and synonym '
     'groups that are not integers or do not fit their field, A-mode words with units, references to words (by ID, U-ID or inline, from A, B or structure '
     'units and dictionary forms) that do not exist, empty or malformed units, more than 127 units or synonym groups, headwords or strings longer than 32767'
     ' bytes or UTF-16 units, parts of speech with a comma, and 256 indexed words of one headword. It also refuses a matrix with an empty, malformed, '
     'negative or too large size or with malformed lines, IDs outside its size or costs that do not fit 16 bits, and descriptions longer than 256 bytes. The'
     ' same sources without the defect, and with the value just inside each limit, are built.',
     ['inputs'], 'every defect of a catalogue at every position of otherwise valid sources',
     'The tests try about eight malformed rows on the parser alone.',
     [B + 'dictionarybuilder.py',
      B + 'userdictionarybuilder.py',
      B + 'dictionaryheader.py'],
     [('parse_line, parse_splitinfo, check_wordid, write_string', B + 'dictionarybuilder.py')],
     'mutation of valid sources with a catalogue of defects; limits also approached from the valid side',
     '')

prop('C20', 'Only dictionaries of known versions and the right kind are loaded',
     'A dictionary file is accepted as a system dictionary only with a system version and as a user dictionary only with a user version; any other version '
     'number and files shorter than the header are refused. System dictionaries of version 1 (no synonym groups) and user dictionaries of version 1 (no '
     'grammar) and version 2 (no synonym groups) are read correctly in their own layout. The header gives back its version, creation time and description '
     'for all values.',
     ['inputs', 'configurations'], 'all versions (known, neighbouring and random 64-bit), all three user and two system layouts',
     'The tests build the newest layouts only.',
     [B + 'dictionaryversion.py',
      B + 'binarydictionary.py',
      B + 'dictionaryheader.py',
      B + 'wordinfolist.py'],
     [('version tests', B + 'dictionaryversion.py'),
      ('layout switches', B + 'binarydictionary.py')],
     'files of every layout from an independent writer are loaded and compared with the sources',
     '')

prop('C21', 'The command line prints what the analysis gives',
     'The tokenize command (also without its name) prints, for each line of each input file or standard input in order, one line per morpheme with surface, '
     'comma-joined part of speech and normalized form, with -a also dictionary form, reading, dictionary ID, synonym groups and an OOV mark, then EOS, in '
     'the mode given with -m, to standard output or, with the same content, to the file given with -o; input and -o are UTF-8 in any locale. -d prints debug '
     'information in between; -v prints the version and -h the usage instead of analysing. Missing input files are reported with a failure status before anything is printed or an output file is touched. The build and ubuild commands without an existing '
     'source fail and write nothing.',
     ['inputs', 'configurations'], 'every combination of options, files and text lines',
     'No test runs the command.',
     ['sudachipy/command_line.py'],
     [('run', 'sudachipy/command_line.py')],
     'subprocess runs; output compared line by line with the API in this process',
     '')

prop('C22', 'Settings resolve to the documented files',
     "Relative paths of the system dictionary, user dictionaries, char.def, and the MeCab provider's definitions are taken from the resource directory (by "
     'default the directory of the setting file), absolute paths as they are, and each dictionary uses the setting file it was given (by default the one of '
     'the package), also after others were opened or the working directory changed. A dict_type of small, core or full takes precedence over the setting '
     '(with a warning when the setting names another dictionary), any other value is refused, and without a system dictionary in the settings the installed '
     'core dictionary package is used or its absence reported. The same holds for the command, whose ubuild uses the core dictionary when none is named, and'
     ' a missing file is refused.',
     ['configurations', 'histories'], 'every combination of config path, resource directory, dict_type, relative and absolute paths and installed packages',
     'The tests cover about eight combinations of the function, mostly the error side.',
     ['sudachipy/config.py',
      'sudachipy/dictionary.py'],
     [('_Settings.set_up', 'sudachipy/config.py')],
     'all combinations over a scratch tree with distinguishable dictionaries; which file was used is observed from the analysis',
     '')

prop('C23', 'The native code is memory safe',
     'No analysis, whatever its text, dictionary and history, reads or writes memory outside the objects it works on, overflows an integer or otherwise '
     'executes undefined behaviour in the native lattice and tokenizer; neither does a call of a lattice with any index or without a node. Nodes and results stay valid after their tokenizer and dictionary are gone, '
     'and the nodes of long texts are freed without exhausting the stack. '
     'Connection IDs of words that are outside the connection matrix (also negative ones beyond its size) raise an error instead of reading elsewhere.',
     ['inputs', 'histories'], 'every text, configuration and history, also connection IDs outside the matrix',
     'The tests run uninstrumented code.',
     ['sudachipy/lattice.pyx',
      'sudachipy/latticenode.pyx',
      'sudachipy/tokenizer.pyx'],
     [('memoryview indexing', 'sudachipy/lattice.pyx')],
     'AddressSanitizer and UndefinedBehaviorSanitizer build of the extensions under the random and hostile workloads of the other checks',
     'The interpreter and dartsclone are not instrumented, only intercepted.')

prop('C24', 'Resources are released',
     'When a dictionary, its tokenizers and the results made from it were dropped - after close(), before close(), or without any close() - its mappings, '
     'file descriptors, threads and objects are gone, and close() after dropping what was made from a dictionary unmaps its files at once. This holds for '
     'any number of dictionaries opened and closed in any order and for failing attempts to open them. A tokenizer that analyses any number of texts, '
     'growing or of varying lengths, does not accumulate objects, descriptors or memory, and neither do dictionaries built one after another in a process, '
     'whose messages are each written once.',
     ['histories'], 'repetitions of open, analyse, fail, close and build in all orders',
     'The tests open each dictionary once.',
     [B + 'binarydictionary.py',
      'sudachipy/dictionary.py',
      B + 'lexiconset.py',
      'sudachipy/lattice.pyx'],
     [('close', B + 'binarydictionary.py')],
     'resource counters (/proc/self/maps, fds, live objects, lattice size) sampled over long histories',
     '')

prop('C25', 'A morpheme reports what the source of its word says',
     'For every word of the system and user dictionaries that an analysis or split returns, part of speech, part of speech ID, dictionary form, normalized '
     'form, reading form, synonym groups, dictionary ID, word ID and units are those of its source, however often, in whatever order and how much later they'
     ' are read, with any number of words. OOV words are marked as such and have dictionary ID -1, a configured part of speech, the rewritten text as '
     'dictionary and normalized form, and no reading or synonym groups; words joined by path rewriting report what they were made as.',
     ['inputs', 'histories'], 'every dictionary (also larger than the caches) and every order of access',
     'The tests read the attributes of about ten words.',
     ['sudachipy/morpheme.py',
      'sudachipy/morphemelist.py',
      B + 'lexiconset.py',
      B + 'wordinfolist.py'],
     [('cached word information', B + 'lexiconset.py')],
     'differential monitor of every attribute against the sources under random access histories',
     '')

prop('C26', 'Inhibited connections are never used',
     'A connection with the reserved cost 0x7fff, from the matrix file or made by the inhibit-connection plugin, occurs in no path of an analysis (before '
     'path rewriting and splitting): the path is the cheapest one without it, and the analysis raises an error when there is none. The plugin inhibits '
     'exactly the configured pairs [right ID of the left word, left ID of the right word], skipping incomplete ones, and leaves all other costs, other '
     'grammars of the same dictionary and the file unchanged.',
     ['inputs', 'configurations'], 'every matrix with inhibited cells, every list of pairs, every text',
     'The tests check one matrix cell after the plugin ran.',
     ['sudachipy/lattice.pyx',
      P + 'connect_cost/inhibitconnectioncost.py',
      P + 'connect_cost/editconnectioncost.py',
      B + 'grammar.py'],
     [('test for the reserved cost', 'sudachipy/lattice.pyx connect_node')],
     'recorder of the path plus reference search over matrices with many inhibited cells',
     '')

prop('C27', 'Any sequence of edits keeps the offset mapping',
     'After any sequence of non-empty replacements on the input text builder (also over earlier ones, and with an end beyond the text, which means its end),'
     ' the text is the result of these edits and every character maps to the original text: unchanged characters to theirs, the first character of a '
     'replacement to the begin of the replaced part, the further ones to its end. The built text answers every query (bytes, substrings, code point counts '
     'and lengths, categories of characters and spans, lengths of runs of a shared category, possible word begins, candidate lengths, original indices) '
     'consistently with this at every byte position, also after further edits of its builder. Invalid ranges are refused and change nothing.',
     ['histories', 'inputs'], 'every sequence of non-empty replacements in any order of positions',
     'The tests apply two fixed replacements.',
     ['sudachipy/utf8inputtextbuilder.py',
      'sudachipy/utf8inputtext.py'],
     [('replace and build', 'sudachipy/utf8inputtextbuilder.py'),
      ('queries', 'sudachipy/utf8inputtext.py')],
     'random edit sequences; all queries at all positions compared with a reference',
     '')

prop('C28', 'Malformed settings and definitions are refused',
     'Opening a dictionary raises an error for: a setting file that is missing or not JSON, unknown plugin classes or classes of another kind, plugin '
     'entries without a class or their required keys, no OOV provider, an unknown part of speech for the katakana plugin, no char.def or one with a line of '
     'one column, an unknown category, a reversed range or a malformed number, short, unknown, repeated or malformed category properties, short or malformed'
     ' unk.def lines or ones whose category is unknown or has no properties, missing dictionary or definition files, dictionaries of the wrong kind, and '
     'more than 15 user dictionaries. The reader of rewrite definitions refuses repeated keys, entries of several characters and lines of three or more '
     'columns. After such failures dictionaries opened before and correct ones opened afterwards give the same results as ever, and comments, blank lines '
     'and further columns change nothing.',
     ['configurations'], 'every defect of a catalogue at every position of otherwise valid definitions',
     'The tests try about ten malformed definitions.',
     ['sudachipy/config.py',
      P + 'oov/utils.py',
      P + 'input_text/utils.py',
      P + 'path_rewrite/utils.py',
      P + 'oov/mecab_oov_plugin.py',
      B + 'charactercategory.py',
      P + 'input_text/default_input_text_plugin.py'],
     [('plugin loaders', P + 'oov/utils.py'),
      ('definition readers', B + 'charactercategory.py')],
     'mutation of valid settings and definitions with a catalogue of defects',
     '')


prop('C29', 'Plugins apply in the order and with the options of the settings',
     'The result of an analysis is the composition of the steps that the settings list, for lists of any length, order and repetition: every input text plugin '
     'rewrites what the one before left, every OOV provider adds its words (of its own definitions) to those before it, the path is the cheapest through all '
     'of these, every path rewrite plugin changes the path that the one before left, and modes A and B then replace words by units. Several plugins of one kind '
     'each keep their own options and definitions, options left out have their defaults (normalization of numbers on, a minimum length of 1, the symbol '
     'ー), and a list of input text or path rewrite plugins that is left out or empty means none.',
     ['configurations', 'inputs'], 'every combination of plugin lists, definitions, dictionaries, texts and modes',
     'The tests run one fixed list of plugins, each once.',
     ['sudachipy/tokenizer.pyx',
      'sudachipy/dictionary.py',
      P + 'input_text/utils.py',
      P + 'oov/utils.py',
      P + 'path_rewrite/utils.py',
      P + 'path_rewrite/join_numeric_plugin.py',
      P + 'path_rewrite/join_katakana_oov_plugin.py',
      P + 'input_text/prolongedsoundmark.py'],
     [('steps of an analysis', 'sudachipy/tokenizer.pyx tokenize'),
      ('plugins made from settings', P + 'path_rewrite/utils.py')],
     'recorders between all plugins of random settings; every step compared with a reference of that step with its own options, the morphemes in every mode with '
     'the composition of all',
     '')

prop('C30', 'The work of an analysis grows in proportion to its text',
     'The number of steps of an analysis (executed lines, calls and branches of Python code and basic blocks of native code) of a text that repeats a passage '
     'grows at most in proportion to the number of repetitions, for every passage, dictionary, setting and mode, also with a logger for dumps; so does reading '
     'and splitting all morphemes of a result with their number. It is the same on a new tokenizer and on one that has analysed other and longer texts. It does '
     'not grow with the number of other words in the system dictionary (words that begin nowhere in the text), nor does opening the dictionary, looking up '
     'a word or reading its information, nor does what a lookup copies of a text with the length of the text. Building a dictionary takes steps in proportion to its rows (inline references aside).',
     ['inputs', 'histories', 'configurations'], 'every passage, number of repetitions, dictionary and setting',
     'The tests analyse texts of a few words and measure nothing.',
     ['sudachipy/tokenizer.pyx',
      'sudachipy/lattice.pyx',
      'sudachipy/utf8inputtext.py',
      'sudachipy/utf8inputtextbuilder.py',
      P + 'path_rewrite/join_numeric_plugin.py',
      P + 'path_rewrite/join_katakana_oov_plugin.py',
      P + 'oov/mecab_oov_plugin.py',
      'sudachipy/morphemelist.py',
      B + 'lexiconset.py',
      B + 'dictionarybuilder.py'],
     [('loop over the positions of a text', 'sudachipy/tokenizer.pyx'),
      ('precomputed tables of a text', 'sudachipy/utf8inputtextbuilder.py')],
     'deterministic step counts (sys.monitoring events and compiler-inserted trace-pc callbacks) of the same work at two sizes, compared by ratio',
     'Counts steps, not time, so that the load of the machine plays no part; what a call of the interpreter does inside (copying a string) is one step.')

prop('C31', 'A dump shows the analysis',
     'With a logger (the -d of the command), an analysis dumps the text that is analysed (after the input text plugins), then, from the end of the text to its '
     'begin, numbered, every candidate word and both ends of the text exactly once with begin, end, surface, word ID, part of speech, left and right ID, cost '
     'and the connection costs from the words that end where it begins, in the order of the list, then the words of the best path before rewriting and those '
     'of the result. An analysis that finds no path has dumped its text (and, when words were found everywhere, all of them) before it raises. The result is '
     'the same as without a logger, a later analysis without a logger dumps nothing to it, and the command prints the dump of each line before the morphemes of the line.',
     ['inputs', 'configurations'], 'every text, dictionary, setting and mode',
     'No test of the suite looks at a dump.',
     ['sudachipy/lattice.pyx',
      'sudachipy/latticenode.pyx',
      'sudachipy/tokenizer.pyx',
      'sudachipy/command_line.py'],
     [('the nodes of the lattice', 'sudachipy/lattice.pyx dump'),
      ('the words of a path', 'sudachipy/tokenizer.pyx _dump_path')],
     'a logger that keeps its messages; nodes compared with the candidates of the reference and costs with the matrix, paths with those recorded around the '
     'path rewrite plugins',
     'Judged as text, with the words of the headings free.')


def main():
    with open(V / 'properties.jsonl', 'w', encoding='utf-8') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    checks, missing = [], []
    for p in PROPS:
        if (V / 'checks' / (p['id'].lower() + '.py')).exists():
            checks.append({'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                           'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'runtime monitoring: ' + p['technique'],
                           'level': p['level'], 'level_note': (p['note'] + ' ' if p['note'] else '') + 'Holds on everything explored; no claim beyond the executions observed.'})
        else:
            missing.append({'property': p['id'], 'reason': 'the check is not built yet'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python rt/build.py plain asan count', 'checks': checks, 'not_applicable': missing,
         'notes': 'No hooks in /repo: the monitors use public interfaces only. check.py builds a private copy of the working tree of /repo (cached by content in .cache).'}
    (V / 'MANIFEST.json').write_text(json.dumps(m, ensure_ascii=False, indent=1) + '\n', encoding='utf-8')


if __name__ == '__main__':
    main()
