C = "projects/oak-core/src/"
SEQ = "exhaustive enumeration of bounded inputs and operation sequences on the real code, against an independent reference model"
PROPS = [
 dict(id="P01", title="Every way of storing a text answers every query like the text itself",
  statement="A document reads the same whether it is held as one string, shared, buffered, rope or chunked storage, and however it is cut into chunks. Length, characters, slices, chunks and their positions, and line and substring searches all agree with the plain text, and positions outside the text or inside a character are answered without failing.",
  over=["inputs","configurations"], for_all="every text, every way to cut it into chunks, every stored representation, every offset and range",
  why="Tests read a few ASCII literals through one representation; the guarantee is over all texts, cuts and offsets, including multi-byte characters across chunk boundaries.",
  files=[C+"source/mod.rs",C+"source/text.rs",C+"source/rope.rs",C+"source/buffer.rs"], mech=[("Source trait",C+"source/mod.rs"),("chunked storage",C+"source/rope.rs")],
  observe=["Source::length/get_char_at/get_text_in/chunk_at"],
  technique=SEQ, note="All texts up to 5 (thorough 6) symbols over an alphabet of 1- to 4-byte characters and line ends, every cut into chunks, every query at every offset; plus texts around the internal chunk size. Bounded: longer texts with several interesting places far apart are covered only at the chunk-size boundary."),
 dict(id="P02", title="A scanning cursor behaves like a position in the whole text",
  statement="Whatever a lexer did with its scanning cursor before, each peek, advance, seek and search gives what the same position in the complete text gives. How the text is cut into chunks never shows.",
  over=["inputs","histories"], for_all="every text and cut, every reachable cursor state, every cursor operation",
  why="The cursor caches the current chunk, so its answer depends on the history of moves; tests drive it forward over unchunked strings only.",
  files=[C+"source/mod.rs",C+"source/cursor.rs"], mech=[("SourceCursor and its cached chunk",C+"source")],
  observe=["SourceCursor operations"],
  technique="explicit-state exploration of the real cursor: reachable states to closure, every operation in every state, compared with a reference", note="States (position, cached chunk) are explored to closure for each text and cut; texts up to 4 (5) symbols. The reference is a position in a plain string."),
 dict(id="P03", title="A batch of edits means the same on every document representation",
  statement="Applying a batch of non-overlapping edits gives the text obtained by splicing every edit at its original place, whatever order the edits are listed in and however the document is stored. The offset reported as first affected never lies behind the first changed byte, and a later batch sees the result of the earlier one.",
  over=["inputs","histories"], for_all="every text, every batch of up to three edits in every listing order, every history of batches on one document",
  why="Edits interact: listing order, adjacent and empty ranges, chunk boundaries. Tests apply single ASCII edits.",
  files=[C+"source/text.rs",C+"source/rope.rs",C+"source/mod.rs"], mech=[("apply_edits",C+"source"),("chunk splitting",C+"source/rope.rs")],
  observe=["SourceText/rope apply_edits and the resulting text"],
  technique=SEQ, note="Every batch of at most 2 (some 3) edits on texts up to 4 (5) symbols, all listing orders, histories of 2-3 batches on a rope, and edits around the internal chunk size."),
 dict(id="P04", title="Vector byte scanners agree with the byte-at-a-time definition",
  statement="The accelerated scanners for whitespace, digits, hexadecimal digits, identifiers and delimiters return exactly what looking at one byte after the other returns, for any length, alignment and byte value.",
  over=["inputs"], for_all="every length up to two vectors, alignment, byte value at every place, and every short string of interesting bytes around a vector boundary",
  why="Errors in vector code sit at lane boundaries, sign bits and tails; tests try a few strings.",
  files=[C+"source/simd.rs"], mech=[("SIMD scanners",C+"source/simd.rs")], observe=["scanner results"],
  technique=SEQ, note="All byte values at all places of runs up to 131 (260) bytes at eight (sixteen) alignments. Checks the implementation selected on this machine (x86-64)."),
 dict(id="P05", title="Shared lexing helpers recognise exactly the described token",
  statement="The shared helpers for whitespace, comments, strings, numbers and identifiers consume exactly the run their configuration describes, and nothing when it does not start here. The result is the same at every position and for every way the text is cut into chunks.",
  over=["inputs","configurations"], for_all="every text of up to 5 (6) fragments, every position, every cut, every helper configuration used by the languages",
  why="About a hundred language lexers rely on these helpers; tests see only the literals in their fixtures, never chunked.",
  files=[C+"lexer/scan_string.rs",C+"lexer/scan_comment.rs",C+"lexer/scan_number.rs",C+"lexer/mod.rs"], mech=[("scan helpers",C+"lexer")], observe=["consumed range and token kind"],
  technique=SEQ, note="Reference recognisers written independently of the code; fragments include quotes, escapes, delimiters, multi-byte characters; comment texts of up to 8 (9) mark characters."),
 dict(id="P08", title="Lexing continued from cached tokens equals lexing afresh",
  statement="When a document is edited and its tokens are recomputed from the previous run, the resulting token list is the one a fresh run over the new text produces. This holds for every edit, for batches of edits and for repeated edits.",
  over=["inputs","histories"], for_all="every small text, every edit and batch of edits, followed by further edits",
  why="Reuse is decided by offsets and lookahead margins; wrong reuse needs an edit exactly at a token boundary, which tests do not contain.",
  files=[C+"lexer/mod.rs"], mech=[("LexerState::new_with_cache",C+"lexer/mod.rs")], observe=["tokens from Lexer::lex with a session"],
  technique=SEQ, note="Histories of edit batches over all texts up to 5 (6) symbols with two lexers written against the public interface, one of which looks one token ahead; the specific languages that relex incrementally are covered by P34."),
 dict(id="P09", title="Tree building operations produce the tree they describe",
  statement="Whatever well-nested sequence of open, close, wrap, checkpoint, restore, consume and skip operations a parser performs, the finished tree has exactly the described structure. The lengths add up, every token appears once and in order, and backtracking leaves no trace.",
  over=["programs","inputs"], for_all="every disciplined sequence of builder operations up to the depth bound on several token lists",
  why="Checkpoints, restores and wraps interact; each language's tests use a handful of fixed sequences.",
  files=[C+"builder/mod.rs",C+"parser/state.rs"], mech=[("ParserState and TreeSink",C+"parser/state.rs")], observe=["finished green tree"],
  technique="exhaustive enumeration of operation sequences on the real parser state, lockstep with a reference tree builder", note="All sequences up to depth 6 (8) that respect the documented nesting discipline (a block closes or wraps only what it opened)."),
 dict(id="P10", title="Incremental reparsing equals parsing from scratch",
  statement="After any edit or batch of edits, reparsing with the previous session gives the same tree and the same diagnostics as parsing the new text from scratch. This holds again after every further edit.",
  over=["inputs","histories"], for_all="every small text, every edit, batch of edits and repeated edits, five grammars with node reuse",
  why="The incremental parser is compared with a fresh one on two or three fixed edits at most; the guarantee is over all edits.",
  files=[C+"parser/state.rs",C+"parser/session.rs",C+"parser/mod.rs"], mech=[("try_reuse / incremental_node",C+"parser/state.rs"),("generations",C+"parser/session.rs")], observe=["Parser::parse output and the tree it keeps"],
  technique=SEQ, note="Four recursive-descent grammars (nodes, optional nodes, nested nodes, words that mean what their text says) over a small language; production languages that reuse nodes are covered by P34. Contract assumed: a node kind determines the production that parses it."),
 dict(id="P11", title="A parse session always holds the last good tree and nothing stale",
  statement="Through every history of successful, recovered and failed parses, one-pass parses, lexing and manual generation changes, a session returns for each parse what a new session would. The tree and tokens it keeps are those of the latest completed work, never memory that has been given back.",
  over=["histories"], for_all="every history of session operations up to the depth bound, with memory reuse in between",
  why="Tests parse once or twice per session and never after a failure; stale references need several steps.",
  files=[C+"parser/session.rs",C+"parser/mod.rs"], mech=[("ParseSession generations",C+"parser/session.rs")], observe=["ParseSession::last_root, old_tree, tokens; parse results"],
  technique="exhaustive enumeration of operation histories on the real session, lockstep with a state model", note="All histories of up to 5 (6) operations of fifteen kinds with three grammars (fine, recovering, failing), with deliberate reuse of freed memory after each."),
 dict(id="P12", title="Operator expressions group by declared precedence and associativity",
  statement="Expressions of prefix, infix and postfix operators are grouped as their declared precedences and associativities say. Malformed input terminates, loses no text and never crashes.",
  over=["inputs","configurations"], for_all="every expression up to the bound under every operator table of the family; every string of symbols",
  why="Tests cover a few operators with one table.",
  files=[C+"parser/pratt.rs"], mech=[("Pratt engine",C+"parser/pratt.rs")], observe=["tree shape"],
  technique=SEQ, note="All expressions of up to 9 (10) symbols and strings of up to 7 (8). Reference: precedence climbing defined by splitting at the weakest operator, not by the engine's algorithm. Non-associative operators are excluded (the engine leaves them to the language)."),
 dict(id="P13", title="Tree positions and navigation agree with the covered text",
  statement="Every element reached in a syntax tree, by child index, by offset, by traversal or by moving a cursor, has the kind and the exact range of the text it covers. The element found at an offset is the one containing that byte, or none outside the tree. Trees are equal exactly if their kinds, lengths and structure are.",
  over=["inputs","histories"], for_all="every tree up to the element bound with leaves of 0 to 2 bytes and up to half a gigabyte, every offset, every cursor state and move",
  why="Empty leaves and nodes, and cursors after failed moves, are not in the tests' trees.",
  files=[C+"tree/red_tree.rs",C+"tree/green_tree.rs",C+"tree/cursor.rs",C+"visitor/mod.rs"], mech=[("red tree offsets",C+"tree/red_tree.rs"),("tree cursor",C+"tree/cursor.rs")], observe=["spans, children, leaf_at_offset, cursor, traversals"],
  technique="exhaustive enumeration of trees; cursor states explored to closure; compared with a reference tree", note="All trees of up to 7 (8) elements below the root. Where a cursor stands after the end of a traversal is not specified."),
 dict(id="P14", title="Arena memory is disjoint, intact, stable and given back",
  statement="Objects placed in an arena are aligned, never overlap and keep their contents and address until the arena is dropped, whatever the sizes and however many arenas are in use. Dropped arenas give their memory back up to a fixed reserve, which ends with its thread.",
  over=["histories"], for_all="every history of allocations, drops and moves between threads up to the depth bound with sizes around the chunk size",
  why="Overlap and leaks need particular sizes at chunk boundaries and many arenas; tests allocate a few small objects.",
  files=[C+"memory/arena.rs"], mech=[("SyntaxArena bump allocation and chunk pool",C+"memory/arena.rs")], observe=["addresses, contents, live bytes of the process allocator"],
  technique="exhaustive enumeration of allocation histories on the real arena under a bookkeeping allocator", note="Up to 5 (6) small allocations, 4 (5) large ones, 4 (5) operations on many arenas. Live memory, layouts and double frees are observed by a global allocator of the harness, which poisons freed chunks."),
 dict(id="P35", title="Errors keep what they say, and are reported at their place and source",
  statement="An error says, in its kind, its fields and its text, exactly what it was created with, through any copies and attached sources. Whatever a source, lexer or parser has been through, the errors it reports carry its source and the place of the current token, or the end of the text, and all of them come out with the result. Reading, opening and creating files gives the exact contents or an error.",
  over=["histories","inputs"], for_all="every kind of error under every history of up to 4 (5) copies and attached sources; every sequence of up to 5 (6) reports and moves of a parser on five texts in seven storages; every sequence of up to 8 (9) tokens and errors of a lexer; every history of up to 7 (8) edits of a source; every path, directory state and content",
  why="Tests check that there is an error, not where it points after backtracking, in a nested parser or in a text that was edited.",
  files=[C+"errors/mod.rs",C+"errors/display.rs",C+"errors/from_std.rs",C+"parser/state.rs",C+"source/text.rs",C+"source/mod.rs",C+"helpers/mod.rs"], mech=[("OakError constructors, with_source_id, clone",C+"errors/mod.rs"),("record_expected, record_unexpected_token, unexpected_eof ...",C+"parser/state.rs"),("Source::source_id",C+"source/mod.rs")], observe=["error kinds, fields and texts; diagnostics of lexers and parsers; source ids; files of a scratch directory"],
  technique=SEQ, note="The text of an error must hold its key, message, offset and source; how it is worded is not specified. Backtracking takes back tokens and nodes; reported errors stay, as the code does today, and that is what is claimed."),
 dict(id="P39", title="Source written piece by piece keeps every piece and keeps words apart",
  statement="A source buffer holds the pieces pushed into it, in order and unchanged, with one blank exactly where two word characters would otherwise meet. So the tokens read back are those of the pieces, however the pieces are nested in values that write themselves.",
  over=["inputs"], for_all="every list of up to 5 (7) pieces out of 18, every list of up to 6 (8) pieces out of four nested in every way",
  why="Minified output is tested on nothing; empty pieces and characters that are letters in other scripts decide whether words merge.",
  files=[C+"source/buffer.rs"], mech=[("SourceBuffer::push",C+"source/buffer.rs"),("ToSource",C+"source/buffer.rs")], observe=["text of the buffer and its copies"],
  technique=SEQ, note="A word character is alphanumeric in Unicode, or an underscore. Signs that merge into one operator when they meet (as + and +) are not kept apart by the code, and that is not claimed."),
 dict(id="P42", title="Kinds answer for their role, and parsers skip exactly trivia",
  statement="A kind of token or element answers yes to exactly the questions its role calls for, and ignored means whitespace or comment. A parser that looks ahead, skips or advances passes over exactly the ignored tokens, never over others, and the tree still holds all of them.",
  over=["inputs"], for_all="every kind of every role, own and universal, asked about every role; every list of up to 4 (5) tokens of 22 kinds",
  why="Each language's tests have a few kinds of tokens in usual orders; the defaults behind all languages are asked nothing directly.",
  files=[C+"language/mod.rs",C+"parser/state.rs"], mech=[("TokenType and ElementType defaults",C+"language/mod.rs"),("skip_trivia, bump, peek_non_trivia_kind_at",C+"parser/state.rs")], observe=["answers of kinds; tokens seen by a parser; leaves of the tree"],
  technique=SEQ, note="Kinds of the harness with roles of their own that map to universal roles, two or three to each, and kinds whose roles are the universal ones."),
]
