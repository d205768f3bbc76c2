#![feature(new_range_api)]
use mc_kit::*;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p35;
mod p39;
mod p42;
#[global_allocator]
static BOOKS: p14::Books = p14::Books;
mod lang;
mod util;
static CHECKS: &[Check] = &[
    Check { id: "P01", bounds: "every text, every way to cut it into chunks, every stored representation, every offset and range; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All texts up to 5 (thorough 6) symbols over an alphabet of 1- to 4-byte characters and line ends, every cut into chunks, every query at every offset; plus texts around the internal chunk size. Bounded: longer texts with several interesting places far apart are covered only at the chunk-size boundary."], spaces: p01::spaces, mem_mb: 4096 },
    Check { id: "P02", bounds: "every text and cut, every reachable cursor state, every cursor operation; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "States (position, cached chunk) are explored to closure for each text and cut; texts up to 4 (5) symbols. The reference is a position in a plain string."], spaces: p02::spaces, mem_mb: 4096 },
    Check { id: "P03", bounds: "every text, every batch of up to three edits in every listing order, every history of batches on one document; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Every batch of at most 2 (some 3) edits on texts up to 4 (5) symbols, all listing orders, histories of 2-3 batches on a rope, and edits around the internal chunk size."], spaces: p03::spaces, mem_mb: 4096 },
    Check { id: "P04", bounds: "every length up to two vectors, alignment, byte value at every place, and every short string of interesting bytes around a vector boundary; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All byte values at all places of runs up to 131 (260) bytes at eight (sixteen) alignments. Checks the implementation selected on this machine (x86-64)."], spaces: p04::spaces, mem_mb: 4096 },
    Check { id: "P05", bounds: "every text of up to 5 (6) fragments, every position, every cut, every helper configuration used by the languages; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Reference recognisers written independently of the code; fragments include quotes, escapes, delimiters, multi-byte characters; comment texts of up to 8 (9) mark characters."], spaces: p05::spaces, mem_mb: 4096 },
    Check { id: "P08", bounds: "every small text, every edit and batch of edits, followed by further edits; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Histories of edit batches over all texts up to 5 (6) symbols with two lexers written against the public interface, one of which looks one token ahead; the specific languages that relex incrementally are covered by P34."], spaces: p08::spaces, mem_mb: 4096 },
    Check { id: "P10", bounds: "every small text, every edit, batch of edits and repeated edits, five grammars with node reuse; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Four recursive-descent grammars (nodes, optional nodes, nested nodes, words that mean what their text says) over a small language; production languages that reuse nodes are covered by P34. Contract assumed: a node kind determines the production that parses it."], spaces: p10::spaces, mem_mb: 4096 },
    Check { id: "P09", bounds: "every disciplined sequence of builder operations up to the depth bound on several token lists; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All sequences up to depth 6 (8) that respect the documented nesting discipline (a block closes or wraps only what it opened)."], spaces: p09::spaces, mem_mb: 4096 },
    Check { id: "P11", bounds: "every history of session operations up to the depth bound, with memory reuse in between; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All histories of up to 5 (6) operations of fifteen kinds with three grammars (fine, recovering, failing), with deliberate reuse of freed memory after each."], spaces: p11::spaces, mem_mb: 4096 },
    Check { id: "P12", bounds: "every expression up to the bound under every operator table of the family; every string of symbols; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All expressions of up to 9 (10) symbols and strings of up to 7 (8). Reference: precedence climbing defined by splitting at the weakest operator, not by the engine's algorithm. Non-associative operators are excluded (the engine leaves them to the language)."], spaces: p12::spaces, mem_mb: 4096 },
    Check { id: "P13", bounds: "every tree up to the element bound with leaves of 0 to 2 bytes and up to half a gigabyte, every offset, every cursor state and move; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "All trees of up to 7 (8) elements below the root. Where a cursor stands after the end of a traversal is not specified."], spaces: p13::spaces, mem_mb: 4096 },
    Check { id: "P14", bounds: "every history of allocations, drops and moves between threads up to the depth bound with sizes around the chunk size; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Up to 5 (6) small allocations, 4 (5) large ones, 4 (5) operations on many arenas. Live memory, layouts and double frees are observed by a global allocator of the harness, which poisons freed chunks."], spaces: p14::spaces, mem_mb: 4096 },
    Check { id: "P35", bounds: "every kind of error under every history of up to 4 (5) copies and attached sources; every sequence of up to 5 (6) reports and moves of a parser on five texts in seven storages; every sequence of up to 8 (9) tokens and errors of a lexer; every history of up to 7 (8) edits of a source; every path, directory state and content; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "The text of an error must hold its key, message, offset and source; how it is worded is not specified. Backtracking takes back tokens and nodes; reported errors stay, as the code does today, and that is what is claimed."], spaces: p35::spaces, mem_mb: 4096 },
    Check { id: "P39", bounds: "every list of up to 5 (7) pieces out of 18, every list of up to 6 (8) pieces out of four nested in every way; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "A word character is alphanumeric in Unicode, or an underscore. Signs that merge into one operator when they meet (as + and +) are not kept apart by the code, and that is not claimed."], spaces: p39::spaces, mem_mb: 4096 },
    Check { id: "P42", bounds: "every kind of every role, own and universal, asked about every role; every list of up to 4 (5) tokens of 22 kinds; and a few shapes of large case at every small size and on both sides of the powers of two; see coverage.spaces", assumptions: &["the harness reference is right", "Kinds of the harness with roles of their own that map to universal roles, two or three to each, and kinds whose roles are the universal ones."], spaces: p42::spaces, mem_mb: 4096 },
];
fn main() {
    mc_kit::main(CHECKS)
}
