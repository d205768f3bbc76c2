//! P08: continuing from cached tokens after edits gives the tokens of a fresh run.
use crate::{lang::*, p03::batches, util::*};
use mc_kit::*;
use oak_core::lexer::*;
use oak_core::source::{ChunkedBuffer, Source, TextEdit};
use oak_core::{Lexer, ParseSession};

/// A cache without slice access: the other code path of the same mechanism.
#[derive(Default)]
struct Slow(Option<LexOutput<Mock>>);
impl LexerCache<Mock> for Slow {
    fn set_lex_output(&mut self, o: LexOutput<Mock>) {
        self.0 = Some(o)
    }
    fn get_token(&self, i: usize) -> Option<Token<T>> {
        self.0.as_ref()?.result.as_ref().ok()?.get(i).copied()
    }
    fn count_tokens(&self) -> usize {
        self.0.as_ref().and_then(|o| o.result.as_ref().ok()).map_or(0, |t| t.len())
    }
    fn has_tokens(&self) -> bool {
        self.count_tokens() > 0
    }
}
type Toks = Vec<(T, usize, usize)>;
fn toks(o: &LexOutput<Mock>) -> Toks {
    o.result.as_ref().unwrap().iter().map(|t| (t.kind, t.span.start, t.span.end)).collect()
}
/// Tokens that look ahead: `...` (a dot otherwise), numbers `a`, `a.a`, `a..` (the two dots not
/// part of it), `=` and `==` and `=b` (a word with the sign in front).
#[derive(Clone, Copy)]
struct Ahead;
impl Lexer<Mock> for Ahead {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Mock>) -> LexOutput<Mock> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(text.length());
        let mut st = LexerState::new_with_cache(text, from, cache);
        if !(st.fully_reused() && st.tokens().last().is_some_and(|t| t.kind == T::Eof)) {
            while st.not_at_end() {
                let a = st.get_position();
                let k = if st.consume_if_starts_with("...") {
                    T::Comma
                }
                else if st.consume_if_starts_with("==") || st.consume_if_starts_with("=b") {
                    T::Op(1)
                }
                else {
                    match st.bump() {
                        Some('a') => {
                            st.take_while(|c| c == 'a');
                            if st.current() == Some('.') && st.peek_next_n(1) == Some('a') {
                                st.advance(1);
                                st.take_while(|c| c == 'a');
                            }
                            T::A
                        }
                        Some('.') => T::C,
                        Some('b') => {
                            st.take_while(|c| c == 'b');
                            T::B
                        }
                        Some(' ') => T::Ws,
                        Some('=') => T::Op(0),
                        _ => T::Err,
                    }
                };
                st.add_token(k, a, st.get_position());
            }
            st.add_eof();
        }
        st.finish_with_cache(Ok(()), cache)
    }
}
thread_local! { static AHEAD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn run<S: Source + ?Sized, C: LexerCache<Mock>>(t: &S, e: &[TextEdit], c: &mut C) -> Toks {
    if AHEAD.get() { toks(&Ahead.lex(t, e, c)) } else { toks(&MockLexer.lex(t, e, c)) }
}
fn lex<C: LexerCache<Mock>>(t: &str, e: &[TextEdit], c: &mut C) -> Toks {
    run(t, e, c)
}
fn edits(e: &[(usize, usize, String)]) -> Vec<TextEdit> {
    e.iter().map(|x| edit(x.0, x.1, &x.2)).collect()
}
fn history(t: &str, depth: u32, per: usize, reps: &[&str], cx: &mut Cx, path: &mut Vec<(String, Vec<(usize, usize, String)>)>) -> Res {
    let start = if path.is_empty() { t.to_string() } else { path[0].0.clone() };
    // replay on the real caches
    let mut c = ParseSession::<Mock>::new(16);
    let mut s = Slow::default();
    let mut last = (lex(&start, &[], &mut c), lex(&start, &[], &mut s));
    let mut cur = start.clone();
    for (_, e) in path.iter() {
        cur = splice(&cur, e);
        last = (lex(&cur, &edits(e), &mut c), lex(&cur, &edits(e), &mut s));
    }
    let f = lex(&cur, &[], &mut ParseSession::<Mock>::new(16));
    cx.exec();
    cx.step();
    cx.state(&(&cur, path.len()));
    ensure_eq!(last.0, f, "tokens", "history {start:?} {path:?}");
    ensure_eq!(last.1, f, "tokens", "history {start:?} {path:?} with a cache that has no slices");
    // what is kept for a start: tokens from the front, up to where lexing goes on
    let kept = |from: usize, st: &LexerState<'_, str, Mock>, how: &str| -> Res {
        let k: Toks = st.tokens().iter().map(|t| (t.kind, t.span.start, t.span.end)).collect();
        ensure!(f.starts_with(&k), "kept", "{how}: tokens kept from {from} of {cur:?}: {k:?}");
        ensure!(k.last().map_or(0, |t| t.2) == st.get_position() && st.get_position() <= from, "kept", "{how}: from {from} of {cur:?} lexing goes on at {} behind {:?}", st.get_position(), k.last());
        if st.fully_reused() && !cur.is_empty() {
            ensure_eq!(k.len(), f.len(), "kept", "{how}: number of tokens of the fully reused {cur:?}");
        }
        Ok(())
    };
    let half = (0..=cur.len() / 2).rev().find(|k| cur.is_char_boundary(*k)).unwrap();
    for from in [half, cur.len(), cur.len() + 1] {
        kept(from, &LexerState::new_with_cache(&*cur, from, &c), "slices")?;
        kept(from, &LexerState::new_with_cache(&*cur, from, &s), "no slices")?;
    }
    // nothing changed: same again
    ensure_eq!(lex(&cur, &[], &mut c), f, "tokens", "repeated without edits after {start:?} {path:?}");
    // the same text in pieces
    let mut b = ChunkedBuffer::new();
    for x in seq::pieces(&cur, 2) {
        b.push_str(&x)
    }
    ensure_eq!(run(&b as &dyn Source, &[edit(0, 0, "")], &mut c), f, "tokens", "relexed from the start in pieces after {start:?} {path:?}");
    if depth == 0 {
        return Ok(());
    }
    for e in batches(&cur, per, reps) {
        if e.is_empty() {
            continue;
        }
        cx.nontrivial(true);
        path.push((cur.clone(), e));
        history(t, depth - 1, 1, &reps[..reps.len().min(2)], cx, path)?;
        path.pop();
    }
    Ok(())
}
static ALPHA: &[&str] = &["a", "b", "=", "/", "\"", " ", "\n", "é"];
static DOTS: &[&str] = &["a", ".", "=", "b", " "];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 6);
    let d2 = tier.pick(3, 4);
    let d3 = tier.pick(6, 7);
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    vec![
        space("every character, put in and taken out anywhere", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
            AHEAD.set(false);
            let c = all[i as usize].to_string();
            history(&format!("a{c} =a"), 1, 1, &["", &c], cx, &mut vec![])
        }),
        space(
            format!("every text of at most {d} symbols, every single edit"),
            seq::count_upto(8, d),
            move |i| format!("{:?}", seq::string(ALPHA, d, i)),
            move |i, cx| {
                AHEAD.set(false);
                history(&seq::string(ALPHA, d, i), 1, 1, &["", "a", "/", "=", "\"", "\n", "ab"], cx, &mut vec![])
            },
        ),
        space(
            format!("every text of at most {d2} symbols, every batch of 2 edits, then every single edit"),
            seq::count_upto(8, d2),
            move |i| format!("{:?}", seq::string(ALPHA, d2, i)),
            move |i, cx| {
                AHEAD.set(false);
                history(&seq::string(ALPHA, d2, i), 2, 2, &["", "a", "/", "="], cx, &mut vec![])
            },
        ),
        space(
            format!("a lexer that looks ahead: every text of at most {d3} symbols, every single edit"),
            seq::count_upto(5, d3),
            move |i| format!("{:?}", seq::string(DOTS, d3, i)),
            move |i, cx| {
                AHEAD.set(true);
                history(&seq::string(DOTS, d3, i), 1, 1, &["", "a", ".", "..", "=", "b", " "], cx, &mut vec![])
            },
        ),
        space(
            format!("a lexer that looks ahead: every text of at most {d2} symbols, every batch of 2 edits, then every single edit"),
            seq::count_upto(5, d2),
            move |i| format!("{:?}", seq::string(DOTS, d2, i)),
            move |i, cx| {
                AHEAD.set(true);
                history(&seq::string(DOTS, d2, i), 2, 2, &["", "a", ".", "="], cx, &mut vec![])
            },
        ),
        {
            // long texts: the cut-off search
            let n = tier.pick(60u64, 200);
            space(
                "texts of many tokens, an edit at every place",
                n * 4,
                |i| format!("{i}"),
                move |i, cx| {
                    AHEAD.set(false);
                    let unit = ["a b", "a=/", "ab\n", "==a"][(i / n) as usize];
                    let t = unit.repeat((i % n) as usize + 1);
                    for at in 0..=t.len() {
                        for (del, ins) in [(0, "a"), (1, ""), (0, "/"), (1, "="), (2, "b"), (0, "\"")] {
                            if at + del > t.len() {
                                continue;
                            }
                            let mut c = ParseSession::<Mock>::new(16);
                            lex(&t, &[], &mut c);
                            let e = vec![(at, at + del, ins.to_string())];
                            let u = splice(&t, &e);
                            cx.step();
                            ensure_eq!(lex(&u, &edits(&e), &mut c), lex(&u, &[], &mut ParseSession::<Mock>::new(16)), "tokens", "{t:?} {e:?}");
                        }
                    }
                    cx.exec();
                    cx.nontrivial(true);
                    cx.state(&i);
                    Ok(())
                },
            )
        },
        {
            const HEADS: [(&str, usize); 5] = [("a", 65534), ("b", 65536), ("b ", 32768), ("==", 32768), ("a ", 32767)];
            const TAILS: [&str; 6] = ["", "a", " b", "a=", "..a", "\"a\" "];
            space(
                "every edit of a short text behind 2^16 bytes, then another one in front",
                2 * HEADS.len() as u64 * TAILS.len() as u64,
                |i| format!("{:?} before {:?}{}", HEADS[i as usize / 2 % 5], TAILS[i as usize / 10], ["", ", looking ahead"][i as usize % 2]),
                |i, cx| {
                    AHEAD.set(i % 2 == 1);
                    let (h, t) = (HEADS[i as usize / 2 % 5], TAILS[i as usize / 10]);
                    let t = h.0.repeat(h.1) + t;
                    let from = h.1 * h.0.len() - 2;
                    for a in from..=t.len() {
                        for b in a..=t.len().min(a + 2) {
                            for r in ["", "a", " =", ".b"] {
                                let mut c = ParseSession::<Mock>::new(16);
                                lex(&t, &[], &mut c);
                                let mut cur = t.clone();
                                for e in [vec![(a, b, r.to_string())], vec![(from / 2, from / 2 + 1, "b".to_string())]] {
                                    cur = splice(&cur, &e);
                                    cx.step();
                                    ensure!(lex(&cur, &edits(&e), &mut c) == lex(&cur, &[], &mut ParseSession::<Mock>::new(16)), "tokens", "{e:?}");
                                }
                            }
                        }
                    }
                    cx.exec();
                    cx.nontrivial(true);
                    cx.state(&i);
                    Ok(())
                },
            )
        },
        {
            let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes(0, tier.pick(512, 4096)).into_iter().filter(|n| *n > 30).collect()));
            const UNITS: [&str; 8] = ["a b", "a=/", "ab\n", "==a", "a.", "..", ".=", "\"a\" "];
            space(
                "texts of very many tokens, edits around the ends, the middle and the powers of two, then another one",
                ns.len() as u64 * 8,
                |i| format!("{} times {:?}", ns[i as usize / 8], UNITS[i as usize % 8]),
                move |i, cx| {
                    AHEAD.set(i % 8 >= 4);
                    let t = UNITS[i as usize % 8].repeat(ns[i as usize / 8] as usize);
                    for at in seq::marks(&t, 1) {
                        for (del, ins) in [(0, "a"), (1, ""), (1, "="), (2, "b"), (0, "\""), (0, ".")] {
                            if at + del > t.len() {
                                continue;
                            }
                            let mut c = ParseSession::<Mock>::new(16);
                            lex(&t, &[], &mut c);
                            let e = vec![(at, at + del, ins.to_string())];
                            let u = splice(&t, &e);
                            cx.step();
                            ensure!(lex(&u, &edits(&e), &mut c) == lex(&u, &[], &mut ParseSession::<Mock>::new(16)), "tokens", "{e:?}");
                            let m = u.len() / 3;
                            let e2 = vec![(m, m + 1, "b".to_string()), (u.len(), u.len(), " a".to_string())];
                            let w = splice(&u, &e2);
                            ensure!(lex(&w, &edits(&e2), &mut c) == lex(&w, &[], &mut ParseSession::<Mock>::new(16)), "tokens", "{e:?} then {e2:?}");
                        }
                    }
                    cx.exec();
                    cx.nontrivial(true);
                    cx.state(&i);
                    Ok(())
                },
            )
        },
    ]
}
