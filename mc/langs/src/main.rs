#![feature(new_range_api)]
mod lang;
mod table;
use lang::*;
use mc_kit::*;

pub static ALPHA: &[&str] = &["a", "0", " ", "\n", "\"", "'", "\\", "/", "*", "#", "-", ".", "(", ")", "{", "}", "[", "<", ">", "=", ":", ";", ",", "é", "中", "\r", "`", "$", "@", "%", "!", "|", "&", "_", "e"];

pub fn lex_wf(t: &str, l: &Lexed) -> Res {
    let Some(toks) = &l.tokens else { return fail("lexerr", format!("{:?}", l.err)) };
    let mut pos = 0;
    for (i, k) in toks.iter().enumerate() {
        ensure!(k.start <= k.end && k.end <= t.len(), "bounds", "token {i} {k:?} outside text of length {}", t.len());
        ensure!(t.is_char_boundary(k.start) && t.is_char_boundary(k.end), "charboundary", "token {i} {k:?} not on a char boundary");
        ensure!(k.start >= pos, "overlap", "token {i} {k:?} begins before {pos}");
        ensure!(k.start == pos, "gap", "text {pos}..{} is in no token", k.start);
        if k.eof { ensure!(i + 1 == toks.len() && k.start == t.len() && k.end == t.len(), "eof", "misplaced end-of-stream token {i} {k:?}"); }
        else { ensure!(k.end > k.start, "empty", "token {i} {k:?} is empty"); }
        pos = k.end;
    }
    ensure!(pos == t.len(), "gap", "text {pos}..{} is in no token", t.len());
    ensure!(toks.last().is_some_and(|k| k.eof), "noeof", "no end-of-stream token");
    Ok(())
}
fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(2, 3);
    let which = std::env::var("SURVEY").unwrap_or("lex".into());
    let mut v = vec![];
    for l in table::all() {
        let l: &'static dyn DynLang = Box::leak(l);
        let n = seq::count_upto(ALPHA.len() as u64, d);
        let w = which.clone();
        v.push(space(l.name(), n, move |i| format!("{:?}", seq::string(ALPHA, d, i)), move |i, cx| {
            let t = seq::string(ALPHA, d, i);
            cx.exec();
            if w == "lex" {
                let r = l.lex(&Doc::Whole(t.clone()));
                lex_wf(&t, &r)?;
            } else if w == "chunk" {
                let r = l.lex(&Doc::Whole(t.clone()));
                for p in seq::partitions(&t) {
                    let r2 = l.lex(&Doc::Pieces(p.clone()));
                    ensure_eq!(r2, r, "chunk", "{p:?}");
                }
            } else if w == "parse" {
                let r = l.parse(&Doc::Whole(t.clone()));
                if r.ok {
                    ensure!(r.sums_ok, "sums", "{r:?}");
                    ensure!(r.len == t.len(), "len", "{r:?}");
                }
            } else if w == "parseclean" {
                let r = l.parse(&Doc::Whole(t.clone()));
                if r.ok && r.diags.is_empty() {
                    ensure!(r.sums_ok, "sums", "{r:?}");
                    ensure!(r.len == t.len(), "len", "{r:?}");
                }
            }
            Ok(())
        }));
    }
    v
}
static CHECKS: &[Check] = &[Check { id: "S01", bounds: "", assumptions: &[], spaces, mem_mb: 2048 }];
fn main() { mc_kit::main(CHECKS) }
