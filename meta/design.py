# How each property is decided; gen.py puts this into DESIGN.md together with the fields of props_*.py.
HOW = {
"P01": "A `Vec<char>`-like reference answers every query on the plain text. Every text is given to the code as `&str`, `Arc<str>`, `SourceText`, `SourceBuffer`, rope and chunked source, cut at every subset of its character boundaries; ropes are also built by appending and through snapshots. Every query of `Source` is asked at every offset, also inside characters and behind the end.",
"P02": "The state of a cursor is its position and cached chunk. From every constructor the graph of states is closed under all moves; in each state all peeks and searches are asked and compared with a position in a plain string, so any history of moves is covered for the given text and cut.",
"P03": "Reference: splice the edits at their original places. All batches of disjoint edits (insert, delete, replace, same start) in every order of listing, on `SourceText` and on ropes cut in every way; then a second and third batch on the same rope. The reported first affected offset is bounded by the first difference.",
"P04": "Reference: a loop over bytes. A filler run of every length and alignment with every byte value at every place.",
"P05": "Reference recognisers written from the documentation of the configurations. Texts of fragments under every cut, called at every position; comments with all pairs of marks used in the languages, including marks of one character, of several bytes, with a repeated first byte, and texts of up to seven mark characters.",
"P08": "Two lexers of the harness (one looks a token ahead) run inside a session over all texts and edits; the tokens must equal those of a new session over the new text. Texts of many tokens with an edit at every place cover the relex margins.",
"P09": "Every operation sequence that keeps the nesting discipline drives `ParserState`; in lockstep a stack machine builds the expected tree. Leading trivia, empty nodes, restores over wraps and checkpoints taken before trivia are all in the language of sequences.",
"P10": "Five grammars of the harness (one notes where tokens come from) use `incremental_node` and friends as the shipped parsers do. Every text × every edit (and batches, and histories of two and three) is parsed with the session that parsed the text before, and the tree, the diagnostics and what the tokens note are compared with those of a new session. Memory of dropped trees is poisoned by the harness allocator.",
"P11": "Operations: parse one of several texts (also through borrowed sessions and in one pass), lex, prepare and commit by hand, forget. After each, freed memory is overwritten, then `last_root`, `old_tree`, tokens and generation are compared with a state model and the whole tree is read.",
"P12": "For each of 2016 operator tables, expressions are generated as trees, printed with the brackets that are needed, parsed, and the grouping compared; blanks are put at every place. All strings of symbols check termination, losslessness and absence of panics.",
"P13": "Reference trees with explicit offsets. Every tree, every offset, and the closure of the cursor's states under all moves (including moves that fail).",
"P14": "A global allocator of the harness logs every (de)allocation with its layout, poisons freed memory and puts guard zones behind chunks. Every history of allocations (single, slices, from iterators, metadata), drops, and hand-overs to another thread is run; all contents are verified after each step, and live memory after the end.",
"P17": "Reference: scan the text. Every text in every chunking, every offset and every (line, column) in and around the text.",
"P18": "Lockstep with a map from names to texts; ids are checked never to be re-used for another name and to disappear with the file. On disk the operations work in a scratch directory the check creates and removes.",
"P19": "Hooks report each lock and counter access; a DFS scheduler runs all interleavings of two-thread programs and those of three threads up to a preemption bound. Each execution's answers are checked for linearizability against the map model (all linear extensions of the real-time order), then the final state, and deadlocks.",
"P20": "Lockstep with a map from files to symbol lists, after every history of updates and clears.",
"P21": "Hooks report accesses to the two concurrent maps. Every found symbol must be defined by some update that may be visible at that time; what is defined before and after an update must be found throughout; the final state must equal that of some order.",
"P22": "A scratch directory with nested folders, names sharing a prefix, blanks, non-ASCII letters and a linked folder. After every history of openings and closings, every file is asked for its folder, and imports (plain, with dot segments, absolute, missing) are resolved and compared with the exact URI a client uses.",
"P23": "The service behind the server records what it is asked. A protocol model maps each line of a session to the expected answer. Sessions are fed whole, byte by byte with pending reads, cut everywhere, with read errors everywhere, and with writers that accept one byte at a time or fail after n bytes.",
"P24": "References over document trees decide definitions, outlines and searches; the index is in every state that matters (absent, other file, same name). Roots answer in every order of completion through hand-driven futures. Wire types are written and read back.",
"P25": "A model editor keeps lines and cursor; the drawn bytes are interpreted by a small terminal and compared row by row with the model's screen. Every history of keys is driven through the real session.",
"P26": "The reference decides fitting by flattening (a group fits iff its flat text and what follows up to the next possible break fit), independent of the printer's worklist.",
"P27": "Reference: for each node and token ask the rules in order of priority and insertion; the layout comes from P26's reference. Rules of the harness look at depth, parents and the source in the context. One formatter formats all trees one after the other, so nothing of an earlier text may stay.",
"P28": "Reference: longest dotted prefix over all scopes. Segments must tile the source.",
"P29": "Strict readers for HTML, JSON and terminal output reconstruct text, spans and attributes. Results whose segments cover only parts of the source, overlap or are empty are exported too.",
"P30": "A reference computes rows, columns and marks from the text; output is parsed back (rows, gutters, marks; HTML entities; LSP JSON).",
"P32": "Reference graph answers by brute force (closure, all simple paths). Layouts are checked against geometric conditions only, so that other placements satisfying the statement are accepted. Forces are checked by what they conserve: nothing moves without forces, all nodes together stay where they are, repelled nodes recede evenly. Engines, graph and tree layouts are run under several configurations (spacings, margins, strengths, sizes), and pictures are those of the layouts.",
"P33": "References over the generating trees.",
"P36": "A strict XML reader reads the picture, which is compared with the elements the layout and the styles call for (nodes in any order).",
"P37": "A build script writes every small macro call and what it spells out; the real macros expand them when the harness is compiled. (A panic of a macro would break the build and is reported as an error of the harness.)",
"P35": "A reference says what each error must contain (kind, texts, offset, source). Histories: copies and attached sources on one error; reporting and moving operations of a parser, on every storage with and without a source, checked after each step against a token index; tokens and errors of a lexer, finished well or fatally and handed to a parser; edits and copies of a source.",
"P39": "The reference joins the pieces by the rule; each prefix of each list is checked on the way, and a small tokeniser checks that the words survive.",
"P42": "A table says what each kind must answer. All lists of tokens are parsed token by token; at each place every look-ahead is compared with the list without trivia, and the leaves of the tree with the whole list.",
"P40": "What comes out is read as source again: a line comment ends at its line, a block at the first end mark, and every line needs its marker and indentation; the text that is left must be that of the comment. Settings reach the processor directly and through FormatContext.",
"P43": "The harness spells each value as JSON by hand, from the field names alone, and requires the real writer to give exactly that; the reader is then fed the value, compact and indented text, bytes, a stream, and the value with one more field.",
"P41": "The real watcher on inotify, in scratch directories that are removed. A reference client applies each event to a map of file contents, which must equal the directory after each operation; events are also classified one by one. The sentinel file that ends each batch of events makes the check independent of timing.",
"P38": "The testers run in scratch directories; for each kind of tester a reference computes the expected record and verdict. Torn records are all prefixes, single changes are all replacements of one value.",
}
# what was done where a planted change was missed at first
SEEDS = {
"html-keeps-written-entity": "missed: no text spelled an escaped mark itself; such texts added",
"comments-sorted-by-low-half": "missed: all places were near each other; places 2^31 apart added",
"trailing-comment-of-many-lines": "missed: all comments stood on one line; comments over several lines added",
"lookahead-ends-behind-many-blanks": "missed: lookahead never went over many tokens; a space of it added",
"prefix-of-lowest-precedence": "missed: precedences were 1 and above; 0 to 255 added",
"pratt-operand-behind-blank": "missed: blanks were never put behind operands; now put at every place",
"block-comment-repeated-first-byte": "missed: no mark repeated its first byte; marks like `xxy` and texts of mark characters added",
"relex-without-backtrack": "missed: no lexer looked ahead; a second lexer that looks a token ahead added",
"symbol-named-like-container": "missed: no symbol was named like its container; added",
"formatter-keeps-first-text": "missed: no rule read the text in the context; one does now",
"json-source-from-segments": "missed: segments always covered the source; partial and overlapping ones added",
"svg-path-three-points": "missed: edges had at most three points; up to twelve now",
"red-child-lookup-in-64k": "missed: no leaf was longer than 64 KiB; leaves of the lengths around powers of two added",
"checkpoint-before-equal-twin": "missed: only the last node was wrapped; the first one of several equal ones is now",
"edit-delta-counts-characters": "missed: edits inserted ASCII only where words are told apart; they insert longer letters now",
"graph-layer-by-weight": "missed: edges had no weights; they have now",
}
