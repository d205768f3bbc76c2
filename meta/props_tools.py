V = "projects/oak-vfs/src/"
PP = "projects/oak-pretty-print/src/"
SEQ = "exhaustive enumeration of bounded inputs and operation sequences on the real code, against an independent reference model"
PROPS = [
 dict(id="P17", title="Line and column positions agree with the text",
  statement="Every byte offset maps to the line it lies on and its column in UTF-16 units, and that position maps back to the same offset. A column behind the end of a line means the end of that line, a line behind the text means the end of the text, and line starts and ends tile the text, however the text is stored.",
  over=["inputs"], for_all="every text of up to 6 (8) characters of 1 to 4 bytes and line ends, whole or cut into chunks in every way, every offset and every position",
  why="Tests convert a few positions in short ASCII texts; the guarantee covers surrogate pairs, carriage returns, empty lines, positions outside the text and chunked storage.",
  files=[V+"line_map.rs"], mech=[("LineMap",V+"line_map.rs")], observe=["LineMap line_start/line_end/offset_to_line_col_utf16/line_col_utf16_to_offset"],
  technique=SEQ, note="All texts up to 6 (thorough 8) symbols in every chunking, all offsets and positions, and long texts with line ends around the chunk sizes of the buffers. Columns that fall between a carriage return and its line feed may clamp to either side."),
 dict(id="P18", title="A virtual file system behaves like a map from names to texts",
  statement="After any history of writes and removals through any handle, contents, existence, metadata, listings, line maps and ids are those of the files written last. A file keeps its id while it exists, an id never names another file, and the id of a removed file names none.",
  over=["histories"], for_all="every history of up to 6 (7) writes and removals of three names in memory and of up to 4 (5) on a scratch directory on disk",
  why="Tests write and read one or two files; stale ids and listings need histories of removing and writing again.",
  files=[V+"vfs/memory.rs",V+"vfs/disk.rs"], mech=[("MemoryVfs maps",V+"vfs/memory.rs"),("DiskVfs path mapping",V+"vfs/disk.rs")], observe=["Vfs and WritableVfs methods"],
  technique="exhaustive enumeration of operation histories on the real file systems, lockstep with a map model", note="Three names, three texts, two handles in memory; four paths and a file that is no text on disk. DiskVfs gives out no ids and MemoryVfs has no directories: nothing is claimed about those."),
 dict(id="P19", title="Concurrent file system calls take effect one after the other",
  statement="Calls on one in-memory file system from several threads always give answers that some order of the calls explains, each call taking effect between its start and its end. Names, contents and ids never disagree with each other, and no call waits forever.",
  over=["schedules"], for_all="every interleaving of two small programs, and of three up to a preemption bound",
  why="No test uses the file system from two threads; the guarantee is over all interleavings.",
  files=[V+"vfs/memory.rs"], mech=[("three locks and a counter",V+"vfs/memory.rs")], observe=["answers of concurrent calls, and the files afterwards"],
  technique="stateless exploration of all interleavings of the real code under a controlled scheduler; each execution checked for linearizability against a sequential specification", note="252 pairs of programs with all interleavings, 735 triples with up to 2 (thorough 4) preemptions. Scheduling points are the accesses to locks and counters (sequential consistency assumed between them).",
  hook="lock and counter accesses of the in-memory file system report to a scheduler under cfg(oak_mc)"),
 dict(id="P20", title="The symbol table holds exactly the current symbols of every file",
  statement="After any history of updates, looking up a qualified name finds a definition that some file currently has, and finds one whenever there is one. The symbols of a file, and searches by part of a name, list exactly the symbols of the latest updates.",
  over=["histories"], for_all="every history of up to 5 (6) updates of two files with shared, repeated and nested names",
  why="Tests never update two files that define the same name, or one file twice.",
  files=["projects/oak-resolver/src/lib.rs"], mech=[("GlobalSymbolTable",'projects/oak-resolver/src/lib.rs')], observe=["lookup, query_file, query"],
  technique="exhaustive enumeration of update histories on the real table, lockstep with a model", note="Two files, eight symbol lists over four qualified names. Which of several current definitions a lookup returns is not specified."),
 dict(id="P21", title="Concurrent symbol table updates never lose or resurrect symbols",
  statement="While files are updated and queried from several threads, a name that a file defines before and after its update is found at every moment, and nothing is found that is no longer current. Afterwards the table is the one some order of the updates gives, and no call waits forever.",
  over=["schedules"], for_all="every interleaving of two small programs up to 6 (8) preemptions and of three up to 1 (3)",
  why="No test touches the table from two threads; the guarantee is over all interleavings.",
  files=["projects/oak-resolver/src/lib.rs"], mech=[("update_file_symbols over two concurrent maps",'projects/oak-resolver/src/lib.rs')], observe=["lookup, query_file, query during and after updates"],
  technique="stateless exploration of interleavings of the real code under a controlled scheduler; each execution checked against a specification of visible updates", note="Scheduling points are the accesses to the concurrent maps; the inside of a map operation is atomic (the map's own guarantee).",
  hook="accesses to the symbol table's maps report to a scheduler under cfg(oak_mc)"),
 dict(id="P22", title="Workspace folders and import roots follow what is open",
  statement="After any history of opening and closing folders, a file belongs to the innermost open folder that contains it, by whole path components, and to none otherwise. An import is found next to the importing file or in an open folder exactly when it is there, never in a closed one.",
  over=["histories","inputs"], for_all="every history of up to 4 (5) openings and closings of eight folder names after six ways to start, and every set of resolver roots",
  why="Tests use one folder and never close it; nested folders, name prefixes and several names of one directory are not tried.",
  files=["projects/oak-lsp/src/workspace.rs","projects/oak-resolver/src/lib.rs"], mech=[("WorkspaceManager","projects/oak-lsp/src/workspace.rs"),("StandardResolver","projects/oak-resolver/src/lib.rs")], observe=["find_root, is_within_workspace, list_folders, resolve, get_path, path_to_uri"],
  technique="exhaustive enumeration of histories on the real workspace over a scratch directory, lockstep with a model", note="Folders nested in each other, sharing a name prefix, with blanks and non-ASCII letters, one directory under two names, and names that are no files."),
 dict(id="P23", title="The tool server answers every request once, in order, with its id",
  statement="For any sequence of input lines, each request gets exactly one response line with its id and either a result or an error, in order, and the language service is asked exactly what the request says. Notifications, blank lines and garbage get none and do not disturb what follows, however input and output are cut, and broken streams are reported after the complete requests were answered.",
  over=["inputs","histories","fault_sequences"], for_all="every session of up to 6 (7) of ten kinds of lines and up to 3 (4) of thirty-two, every cut, every place where input or output breaks off, every name one edit away from the known ones, and offsets around every power of two",
  why="The tests send one or two well-formed requests in one piece.",
  files=["projects/oak-mcp/src/lib.rs"], mech=[("McpServer::run","projects/oak-mcp/src/lib.rs")], observe=["bytes written by the server, its result"],
  technique="exhaustive enumeration of sessions, stream cuts and stream failures on the real server, against a protocol model", note="Streams are in memory: all at once, byte by byte with waits, and cut or broken at every position. The language service behind the server is a stand-in that answers late and notes what it is asked."),
 dict(id="P25", title="An interactive session edits, shows and submits exactly what was typed",
  statement="After any sequence of keys, the shown row is the prompt and the edited line with the cursor at its display column, and complete input is handed over exactly as typed, line by line; keys that are let go do nothing. The session ends on end of input or when told to, and always leaves the terminal as it found it, also after errors.",
  over=["histories"], for_all="every history of up to 6 (7) of twelve keys, of up to 8 (9) editing keys on single and continued lines, and of up to 5 (6) keys pressed, held and let go",
  why="The interactive loop has no tests; it needs a terminal.",
  files=["projects/oak-repl/src/lib.rs"], mech=[("LineBuffer and the key loop","projects/oak-repl/src/lib.rs")], observe=["drawn screen, lines handed to the handler, raw mode"],
  technique="exhaustive enumeration of key histories on the real session with a scripted terminal, lockstep with an editor model", note="Characters of one to four bytes and of one and two columns; multi-line input, interrupts, end of input, errors and exit requests of the handler.",
  hook="a script stands in for the terminal under cfg(oak_mc)"),
 dict(id="P26", title="Printed documents break exactly the groups that do not fit",
  statement="A group stays on one line exactly when it fits behind what is already on the line and holds no forced break, measured in characters. Otherwise its own breaks become line ends at the right indentation. All texts come out once, in order, and line ends, trailing blanks and the final newline follow the configuration.",
  over=["inputs"], for_all="every document of up to 5 (6) items of thirteen kinds and up to 7 (8) of eight, under ten widths and five configurations",
  why="The printer has no tests beyond its defaults; nesting of groups, indentation and forced breaks needs all small documents.",
  files=[PP+"document/printer.rs",PP+"document/mod.rs",PP+"config/mod.rs"], mech=[("Printer::will_break, render",PP+"document/printer.rs")], observe=["Document::render, join"],
  technique=SEQ, note="Widths 0 to 8 and 100 (four widths from six items on), spaces and tabs, both line endings, trimming and final newline on and off. Texts of one to three characters, with multi-byte characters, blanks and line breaks in them."),
 dict(id="P27", title="Formatting applies the first rule that answers and loses nothing else",
  statement="At every node and token the rule of highest priority that applies and answers decides, earlier added rules first among equals, and conflicting rules are refused. Where no rule speaks the source text is reproduced exactly. Rules see the true depth and enclosing nodes, errors are passed on, and the changed flag is right.",
  over=["inputs","histories"], for_all="every list of up to 4 (5) of eight rules over every tree of up to 4 items, and every tree of up to 6 (7) items with no or one (two) rules",
  why="Formatter and rule sets are untested; ties, conflicts and fall-through show only with several rules.",
  files=[PP+"formatter/mod.rs",PP+"rules/mod.rs",PP+"builtin_rules/mod.rs"], mech=[("RuleSet",PP+"rules/mod.rs"),("Formatter::format_node",PP+"formatter/mod.rs"),("built-in rules",PP+"builtin_rules/mod.rs")], observe=["Formatter::format, RuleSet::add_rule, applicable_rules_for_node/token, FormatContext"],
  technique=SEQ, note="Built-in rules and eight rules of the harness with ties, refusals, errors and context conditions, over trees of four node kinds and four tokens; the expected layout comes from P26's reference printer."),

 dict(id="P24", title="The language service answers from the document, index and resolver as they are",
  statement="Going to a definition finds exactly the definitions the tree, the imports and the symbol index give for the place asked; outlines and workspace symbol searches list exactly the symbols of the documents. Several roots are served in the order given, and file lists hold every file once. What goes over the wire comes back unchanged.",
  over=["inputs"], for_all="every document tree of up to 7 (8) items, every offset in it, every state of index and resolver, every list of up to 6 (7) roots with every order of completion",
  why="Tests use a service that overrides these answers; the defaults every language inherits are never run on nested references, missing symbols or several roots.",
  files=["projects/oak-lsp/src/service.rs","projects/oak-lsp/src/types.rs"], mech=[("default methods of LanguageService","projects/oak-lsp/src/service.rs"),("wire types","projects/oak-lsp/src/types.rs")], observe=["LanguageService::definition, document_symbols, workspace_symbols, with_root, with_roots, list_all_files", "serialised requests and answers"],
  technique="exhaustive enumeration of document trees, index states and completion orders on the real default methods, against a reference", note="Trees over definitions, references and plain nodes of the harness language; roots that answer late in every combination; a scratch directory for file lists. Names of DiskVfs files are paths."),
 dict(id="P28", title="Highlighting gives every token its text, place and best matching style",
  statement="The highlighted segments together are the source text, in order, without gap or overlap, each segment the exact text of its span. Each token gets the style of the longest dotted prefix of its scopes that the theme knows, the earlier scope first among equals, and the theme's fallback otherwise. Without a tree the text comes out whole in the fallback style.",
  over=["inputs"], for_all="every theme over seven entries with every list of up to 4 scopes, and every tree of up to 6 items (7 and 8 with fewer kinds of leaves) with each of seven language categories and nine themes",
  why="Tests look at one source and one theme; which prefix wins and that no text is lost depends on the tree and the theme.",
  files=["projects/oak-highlight/src/highlighter/mod.rs","projects/oak-highlight/src/themes/mod.rs","projects/oak-core/src/language/mod.rs"], mech=[("HighlightTheme::resolve_styles","projects/oak-highlight/src/highlighter/mod.rs"),("HighlightVisitor","projects/oak-highlight/src/highlighter/mod.rs"),("role scopes","projects/oak-core/src/language/mod.rs")], observe=["highlighted segments and their styles, resolve_style(s), scopes of roles"],
  technique=SEQ, note="Leaves of all token roles with multi-byte text; nodes highlighted on their own as well as whole trees; the three shipped themes and six of the harness."),
 dict(id="P29", title="Exported highlighting reads back as the same text with the same styles",
  statement="Whatever the text, the colours and the style, HTML and JSON written by the exporters are well formed and read back as exactly the same segments, spans and styles, and terminal output, escape codes taken out, is the text, each part shown in its own attributes and reset after it.",
  over=["inputs"], for_all="every text of up to 5 (6) of the characters that mean something in a format, every combination of style flags and colours for one and two segments, every character of Unicode up to U+2FFF (all)",
  why="Tests export one harmless text; escaping must hold for every text and colour.",
  files=["projects/oak-highlight/src/exporters/mod.rs"], mech=[("HtmlExporter, JsonExporter, AnsiExporter, CssExporter","projects/oak-highlight/src/exporters/mod.rs")], observe=["exported text, parsed with readers of the harness"],
  technique=SEQ, note="HTML with and without a style block and inline styles is read by a strict reader, escape codes by a small terminal. JsonExporter's pretty flag has no effect and is not claimed."),
 dict(id="P30", title="Diagnostics point, in every output format, at the place they name",
  statement="For any text and any span in it, console, plain, HTML, and editor output name the right line, column and text of every label, and mark exactly the characters of the span. All parts of a diagnostic come out, escaped for the format, and localised when asked. Errors of the framework become diagnostics with their key, arguments and place, and no span breaks the output.",
  over=["inputs"], for_all="every text of up to 5 (6) characters and line ends with every span, every combination of parts, texts of 1 to 1000 lines, every framework error at every offset",
  why="Tests render one diagnostic on one line; wrong columns need multi-byte text, empty spans, line ends and the end of the file.",
  files=["projects/oak-diagnostic/src/lib.rs"], mech=[("ConsoleEmitter, PlainTextEmitter, HtmlEmitter, LspEmitter","projects/oak-diagnostic/src/lib.rs"),("Diagnostic::from_provider","projects/oak-diagnostic/src/lib.rs")], observe=["rendered diagnostics"],
  technique=SEQ, note="Characters of 1 to 4 bytes and all line ends, with and without Unicode drawing, colours, locales and uris; spans outside of the text must not panic and leave the rest of the output intact."),
 dict(id="P32", title="Graphs answer truthfully, and layouts place every node once and draw every edge",
  statement="Cycles, connectivity, degrees and neighbours of a graph are those of its edges, in whatever order they were added. Every layout places each node once, finitely, with its label, kind and size, and draws each edge between known nodes with its label. Layered and tree layouts keep levels in order along their direction without overlapping nodes, and rectangles and transformations compute what geometry says.",
  over=["inputs"], for_all="every graph of up to 4 nodes and an unknown one with up to 4 (5) edges, every graph of 3 (4) nodes, every tree of up to 6 (7) nodes in three sizes and up to 10 (11) nodes, all pairs of small rectangles",
  why="Tests lay out one small tree and one graph; cycles, unknown nodes, sizes and directions are never combined.",
  files=["projects/oak-visualize/src/graph/mod.rs","projects/oak-visualize/src/tree/mod.rs","projects/oak-visualize/src/layout/mod.rs","projects/oak-visualize/src/geometry/mod.rs"], mech=[("Graph, GraphLayout","projects/oak-visualize/src/graph/mod.rs"),("TreeLayout","projects/oak-visualize/src/tree/mod.rs"),("layout engines","projects/oak-visualize/src/layout/mod.rs"),("Rect, Transform","projects/oak-visualize/src/geometry/mod.rs")], observe=["graph queries, node rectangles, edge points, rectangle and transform results"],
  technique=SEQ, note="Four directions, all algorithms of graphs and trees, the engines for flat and hierarchical nodes in several orders. Where force-directed layouts put nodes is only required to be finite; rotations and scalings are compared up to rounding."),
 dict(id="P33", title="Symbol outlines and references come straight from the tree",
  statement="The outline lists every definition of the tree once, in source order, with its own name, span and enclosing container. References to a name are exactly the name tokens with that text. Both keep their places when the tree is part of a longer text, and indexing for search takes any tree.",
  over=["inputs"], for_all="every tree of up to 7 (8) items over definitions, references, plain nodes and names, and every tree of names and definitions of 9 (10) items",
  why="Tests outline one flat file; nesting, missing names and several names in one definition need all small trees.",
  files=["projects/oak-symbols/src/lib.rs","projects/oak-navigation/src/lib.rs","projects/oak-semantic-search/src/lib.rs"], mech=[("UniversalSymbolProvider","projects/oak-symbols/src/lib.rs"),("find references","projects/oak-navigation/src/lib.rs"),("indexing","projects/oak-semantic-search/src/lib.rs")], observe=["symbols, references, the result of indexing"],
  technique=SEQ, note="Trees of the harness language with several element roles, roots with other roles too; texts with multi-byte characters. What indexing stores is not observable (the store was removed upstream), so only its success is claimed."),

 dict(id="P36", title="Drawn pictures are well-formed and show the whole layout in its styles",
  statement="Whatever the labels, ids, colours and attributes, rendered SVG is well-formed and reads back with exactly the given texts. It shows every node of the layout at its place with its label, and every edge of two or more points with its label, each in its own style or else the configured one, and the canvas holds all nodes and the padding. HTML and JSON exports hold the same layout.",
  over=["inputs"], for_all="every text of up to 4 (5) special characters in eleven places, every combination of style fields for nodes and edges, every list of up to 2 (3) nodes of fifteen places and sizes, every list of up to 3 points for an edge (two edges)",
  why="Rendering has hardly any tests; escaping must hold for every text and styles combine freely.",
  files=["projects/oak-visualize/src/render/mod.rs","projects/oak-visualize/src/theme.rs"], mech=[("SvgRenderer","projects/oak-visualize/src/render/mod.rs"),("LayoutExporter","projects/oak-visualize/src/render/mod.rs"),("VisualizationTheme::to_render_config","projects/oak-visualize/src/theme.rs")], observe=["rendered SVG read by a strict XML reader, exported HTML and JSON"],
  technique=SEQ, note="Characters of markup and of 1 to 4 bytes; control characters, which XML cannot hold, and attributes that the renderer writes itself are not tried. Nodes may come in any order."),

 dict(id="P37", title="Documents and rules written with the printer's macros mean what they spell",
  statement="A document written with the doc macro, joined, converted or derived for a type is exactly the document its parts spell, in order, and renders alike at every width. Rules defined with the rule macro have the given names and priorities, apply exactly where their condition holds, and get the node, context and source they are asked about.",
  over=["programs","inputs"], for_all="every document of up to 2 items over thirteen kinds of leaves, 3 over three and 4 over one as a macro call; every list of up to 6 (8) texts in derived types; every tree of up to 6 (8) items for rules",
  why="Two macro calls are tested; what a macro expands to matters for every program.",
  files=["projects/oak-macros/src/doc.rs","projects/oak-macros/src/to_doc.rs","projects/oak-macros/src/define_rules.rs","projects/oak-pretty-print/src/to_doc.rs","projects/oak-pretty-print/src/document/mod.rs"], mech=[("DocExpr","projects/oak-macros/src/doc.rs"),("derive(AsDocument)","projects/oak-macros/src/to_doc.rs"),("define_rules","projects/oak-macros/src/define_rules.rs"),("AsDocument, ToDocument","projects/oak-pretty-print/src/to_doc.rs")], observe=["values of macro calls and their rendering, rules and formatted output"],
  technique="exhaustive enumeration of small macro programs, expanded by the real macros when the harness is built, each compared with its spelled-out meaning", note="A build script writes all macro calls. Lists within lists and empty parts may be kept or dropped. Expressions are those the macro accepts as method receivers."),
 dict(id="P38", title="Golden-file testers pass exactly what was recorded and record what was produced",
  statement="A tester run passes exactly if the outcome for every selected file equals its recorded expectation; expectations that differ anywhere, are cut off at any byte, or belong to input that is late, panics or cannot be read never pass. It writes an expectation only where none exists or regeneration was asked for, with exactly the produced outcome, and leaves every other file as it was.",
  over=["inputs","crash_points","histories"], for_all="every text of up to 3 (4) symbols for lexers, 4 (5) for parsers and builders, recorded, repeated, regenerated and taken over from the old name; every pair of short texts; every single change and every cut of six records; every set of nine files with seven extension lists; late, panicking and unreadable inputs",
  why="A tester that passes wrongly hides every other defect, and nothing tests the testers.",
  files=["projects/oak-testing/src/lexing.rs","projects/oak-testing/src/parsing.rs","projects/oak-testing/src/building.rs","projects/oak-testing/src/lib.rs"], mech=[("LexerTester::test_single_file","projects/oak-testing/src/lexing.rs"),("ParserTester::test_single_file, to_ast","projects/oak-testing/src/parsing.rs"),("BuilderTester::test_single_file","projects/oak-testing/src/building.rs"),("find_test_files","projects/oak-testing/src/lexing.rs")], observe=["result of run_tests, all files of the scratch directory and their contents"],
  technique="exhaustive enumeration of texts, records, single changes, torn records and directory contents, run on the real testers in scratch directories and compared with a reference", note="A lexer, parser and builder of the harness drive the testers. A run that never ends is not tried: the testers report a deadline only when the work ends. The order in which files are visited is not specified."),
 dict(id="P43", title="What is written as JSON is spelled as published and reads back the same",
  statement="Tokens and token streams, origins of tokens, roles, diagnostics, highlighting, themes, graphs, trees, geometry, settings, file metadata, chunks and JSON-RPC messages are written with their published field and variant names, and reading what was written, as text, bytes, stream or value, gives the same value. A part of a response that is absent is left out, and unknown fields are ignored. Documents and formatter settings, which are only written, have one spelling.",
  over=["inputs"], for_all="every token, every stream of up to 3 (4) tokens of eight kinds, every list of up to three origins out of eighteen, every document of up to 5 (6) items, and every combination of a few values for each field of each other kind of value",
  why="No test writes a value as JSON; editors, caches and other processes read it, and what breaks is a reversed or huge span, an empty token, an absent part, a text that needs escaping.",
  files=["projects/oak-core/src/serde_range.rs","projects/oak-core/src/lexer/mod.rs","projects/oak-core/src/tree/metadata.rs","projects/oak-core/src/language/mod.rs","projects/oak-diagnostic/src/lib.rs","projects/oak-highlight/src/highlighter/mod.rs","projects/oak-visualize/src/theme.rs","projects/oak-mcp/src/lib.rs","projects/oak-pretty-print/src/config/mod.rs","projects/oak-vfs/src/lib.rs"],
  mech=[("serialize, deserialize","projects/oak-core/src/serde_range.rs"),("arc_slice_serde","projects/oak-core/src/lexer/mod.rs"),("JsonRpcResponse","projects/oak-mcp/src/lib.rs")], observe=["serde_json::to_string and from_str of the public values"],
  technique="exhaustive enumeration of bounded field values and value trees, each written by the real code, compared with an independently spelled JSON value and read back from five kinds of input", note="Numbers that JSON cannot hold (NaN, infinities) are left out, as are sums of floating point that readers may round. The messages of the language service are part of P24, the records of the testers of P38."),
 dict(id="P41", title="Whoever follows a disk watcher's events knows the watched files",
  statement="Every file that appears, changes or goes below a watched directory is told of, as created, changed or removed, under its own name; a rename removes the old name and creates the new one. Nothing is told of files that did not change or are not watched (any more). So a client that only follows the events always has the current files.",
  over=["histories"], for_all="every history of up to 4 (5) file operations out of 14 below a watched directory, and of up to 4 (5) out of 12 in which directories are also watched and unwatched",
  why="The watcher has no tests; what a client knows depends on the whole history of changes and watches.",
  files=["projects/oak-vfs/src/vfs/watch.rs"], mech=[("DiskWatcher::new","projects/oak-vfs/src/vfs/watch.rs"),("watch, unwatch, unwatch_all","projects/oak-vfs/src/vfs/watch.rs")], observe=["events given to the callback, files of a scratch directory"],
  technique="exhaustive enumeration of histories of file and watch operations on the real watcher in scratch directories, events followed by a reference client after each operation", note="Linux (inotify). After each operation the harness waits for the event of a file of its own, so operations do not overlap; how the operating system merges quick successions of changes is out of scope."),
 dict(id="P40", title="Comments survive formatting, each once, whole and where it is asked for",
  statement="A comment that is formatted comes out as one comment of its kind with its own text line by line, blanks around lines aside, and the given indentation; not formatted, it comes out as it was, and where comments are not preserved nothing comes out. The collector finds exactly the comments before, after and within the places asked for. Inserting emits, in order, each non-trailing comment before the position, or the first trailing one after it.",
  over=["inputs","configurations"], for_all="every text of up to 6 (7) symbols in every kind of comment with three indentations and all settings, every list of up to 3 (4) comments at places 0 to 3 with every range, position and insertion",
  why="Nothing tests comments; a text with line ends, an unusual setting or an overlapping range turns a comment into code or loses it.",
  files=["projects/oak-pretty-print/src/comment/mod.rs","projects/oak-pretty-print/src/formatter/mod.rs"], mech=[("Comment::formatted_text","projects/oak-pretty-print/src/comment/mod.rs"),("CommentCollector, CommentProcessor","projects/oak-pretty-print/src/comment/mod.rs"),("FormatContext::new","projects/oak-pretty-print/src/formatter/mod.rs")], observe=["formatted and inserted text read as comments, results of the collector's queries"],
  technique="exhaustive enumeration of comment texts, lists, places and settings on the real code, read back with a small comment reader and compared with a reference", note="Texts that end a block comment early (those holding */) are no text of a comment and are not tried. Blanks within the lines of a block comment count, those at their ends do not."),
]
