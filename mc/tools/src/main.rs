#![feature(new_range_api)]
#![allow(async_fn_in_trait)]
use mc_kit::*;
mod p17;
mod p18;
mod p19;
mod p20;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;
mod p28;
mod p29;
mod p30;
mod p32;
mod p33;
mod p36;
mod p37;
mod p38;
mod p40;
mod p41;
mod p43;
mod toy;
static CHECKS: &[Check] = &[
    Check { id: "P17", bounds: "every text of up to 6 (8) characters of 1 to 4 bytes and line ends, whole or cut into chunks in every way, every offset and every position; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All texts up to 6 (thorough 8) symbols in every chunking, all offsets and positions, and long texts with line ends around the chunk sizes of the buffers. Columns that fall between a carriage return and its line feed may clamp to either side."], spaces: p17::spaces, mem_mb: 4096 },
    Check { id: "P18", bounds: "every history of up to 6 (7) writes and removals of three names in memory and of up to 4 (5) on a scratch directory on disk; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Three names, three texts, two handles in memory; four paths and a file that is no text on disk. DiskVfs gives out no ids and MemoryVfs has no directories: nothing is claimed about those."], spaces: p18::spaces, mem_mb: 4096 },
    Check { id: "P19", bounds: "every interleaving of two small programs, and of three up to a preemption bound; see coverage.spaces", assumptions: &["the harness reference is right", "252 pairs of programs with all interleavings, 735 triples with up to 2 (thorough 4) preemptions. Scheduling points are the accesses to locks and counters (sequential consistency assumed between them)."], spaces: p19::spaces, mem_mb: 0 },
    Check { id: "P20", bounds: "every history of up to 5 (6) updates of two files with shared, repeated and nested names; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Two files, eight symbol lists over four qualified names. Which of several current definitions a lookup returns is not specified."], spaces: p20::p20, mem_mb: 4096 },
    Check { id: "P21", bounds: "every interleaving of two small programs up to 6 (8) preemptions and of three up to 1 (3); see coverage.spaces", assumptions: &["the harness reference is right", "Scheduling points are the accesses to the concurrent maps; the inside of a map operation is atomic (the map's own guarantee)."], spaces: p20::p21, mem_mb: 0 },
    Check { id: "P22", bounds: "every history of up to 4 (5) openings and closings of eight folder names after six ways to start, and every set of resolver roots; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Folders nested in each other, sharing a name prefix, with blanks and non-ASCII letters, one directory under two names, and names that are no files."], spaces: p22::spaces, mem_mb: 4096 },
    Check { id: "P23", bounds: "every session of up to 6 (7) of ten kinds of lines and up to 3 (4) of thirty-two, every cut, every place where input or output breaks off, every name one edit away from the known ones, and offsets around every power of two; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Streams are in memory: all at once, byte by byte with waits, and cut or broken at every position. The language service behind the server is a stand-in that answers late and notes what it is asked."], spaces: p23::spaces, mem_mb: 4096 },
    Check { id: "P25", bounds: "every history of up to 6 (7) of twelve keys, of up to 8 (9) editing keys on single and continued lines, and of up to 5 (6) keys pressed, held and let go; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Characters of one to four bytes and of one and two columns; multi-line input, interrupts, end of input, errors and exit requests of the handler."], spaces: p25::spaces, mem_mb: 4096 },
    Check { id: "P26", bounds: "every document of up to 5 (6) items of thirteen kinds and up to 7 (8) of eight, under ten widths and five configurations; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Widths 0 to 8 and 100 (four widths from six items on), spaces and tabs, both line endings, trimming and final newline on and off. Texts of one to three characters, with multi-byte characters, blanks and line breaks in them."], spaces: p26::spaces, mem_mb: 4096 },
    Check { id: "P27", bounds: "every list of up to 4 (5) of eight rules over every tree of up to 4 items, and every tree of up to 6 (7) items with no or one (two) rules; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Built-in rules and eight rules of the harness with ties, refusals, errors and context conditions, over trees of four node kinds and four tokens; the expected layout comes from P26's reference printer."], spaces: p27::spaces, mem_mb: 4096 },
    Check { id: "P24", bounds: "every document tree of up to 7 (8) items, every offset in it, every state of index and resolver, every list of up to 6 (7) roots with every order of completion; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Trees over definitions, references and plain nodes of the harness language; roots that answer late in every combination; a scratch directory for file lists. Names of DiskVfs files are paths."], spaces: p24::spaces, mem_mb: 4096 },
    Check { id: "P28", bounds: "every theme over seven entries with every list of up to 4 scopes, and every tree of up to 6 items (7 and 8 with fewer kinds of leaves) with each of seven language categories and nine themes; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Leaves of all token roles with multi-byte text; nodes highlighted on their own as well as whole trees; the three shipped themes and six of the harness."], spaces: p28::spaces, mem_mb: 4096 },
    Check { id: "P29", bounds: "every text of up to 5 (6) of the characters that mean something in a format, every combination of style flags and colours for one and two segments, every character of Unicode up to U+2FFF (all); and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "HTML with and without a style block and inline styles is read by a strict reader, escape codes by a small terminal. JsonExporter's pretty flag has no effect and is not claimed."], spaces: p29::spaces, mem_mb: 4096 },
    Check { id: "P30", bounds: "every text of up to 5 (6) characters and line ends with every span, every combination of parts, texts of 1 to 1000 lines, every framework error at every offset; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Characters of 1 to 4 bytes and all line ends, with and without Unicode drawing, colours, locales and uris; spans outside of the text must not panic and leave the rest of the output intact."], spaces: p30::spaces, mem_mb: 4096 },
    Check { id: "P32", bounds: "every graph of up to 4 nodes and an unknown one with up to 4 (5) edges, every graph of 3 (4) nodes, every tree of up to 6 (7) nodes in three sizes and up to 10 (11) nodes, all pairs of small rectangles; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Four directions, all algorithms of graphs and trees, the engines for flat and hierarchical nodes in several orders. Where force-directed layouts put nodes is only required to be finite; rotations and scalings are compared up to rounding."], spaces: p32::spaces, mem_mb: 4096 },
    Check { id: "P33", bounds: "every tree of up to 7 (8) items over definitions, references, plain nodes and names, and every tree of names and definitions of 9 (10) items; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Trees of the harness language with several element roles, roots with other roles too; texts with multi-byte characters. What indexing stores is not observable (the store was removed upstream), so only its success is claimed."], spaces: p33::spaces, mem_mb: 4096 },
    Check { id: "P36", bounds: "every text of up to 4 (5) special characters in eleven places, every combination of style fields for nodes and edges, every list of up to 2 (3) nodes of fifteen places and sizes, every list of up to 3 points for an edge (two edges); and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Characters of markup and of 1 to 4 bytes; control characters, which XML cannot hold, and attributes that the renderer writes itself are not tried. Nodes may come in any order."], spaces: p36::spaces, mem_mb: 4096 },
    Check { id: "P37", bounds: "every document of up to 2 items over thirteen kinds of leaves, 3 over three and 4 over one as a macro call; every list of up to 6 (8) texts in derived types; every tree of up to 6 (8) items for rules; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "A build script writes all macro calls. Lists within lists and empty parts may be kept or dropped. Expressions are those the macro accepts as method receivers."], spaces: p37::spaces, mem_mb: 4096 },
    Check { id: "P38", bounds: "every text of up to 3 (4) symbols for lexers, 4 (5) for parsers and builders, recorded, repeated, regenerated and taken over from the old name; every pair of short texts; every single change and every cut of six records; every set of nine files with seven extension lists; late, panicking and unreadable inputs; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "A lexer, parser and builder of the harness drive the testers. A run that never ends is not tried: the testers report a deadline only when the work ends. The order in which files are visited is not specified."], spaces: p38::spaces, mem_mb: 4096 },
    Check { id: "P40", bounds: "every text of up to 6 (7) symbols in every kind of comment with three indentations and all settings, every list of up to 3 (4) comments at places 0 to 3 with every range, position and insertion; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Texts that end a block comment early (those holding */) are no text of a comment and are not tried. Blanks within the lines of a block comment count, those at their ends do not."], spaces: p40::spaces, mem_mb: 4096 },
    Check { id: "P41", bounds: "every history of up to 4 (5) file operations out of 14 below a watched directory, and of up to 4 (5) out of 12 in which directories are also watched and unwatched; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Linux (inotify). After each operation the harness waits for the event of a file of its own, so operations do not overlap; how the operating system merges quick successions of changes is out of scope."], spaces: p41::spaces, mem_mb: 4096 },
    Check { id: "P43", bounds: "every token, every stream of up to 3 (4) tokens of eight kinds, every list of up to three origins out of eighteen, every document of up to 5 (6) items, and every combination of a few values for each field of each other kind of value; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Numbers that JSON cannot hold (NaN, infinities) are left out, as are sums of floating point that readers may round. The messages of the language service are part of P24, the records of the testers of P38."], spaces: p43::spaces, mem_mb: 4096 },
];
fn main() {
    mc_kit::main(CHECKS)
}
