//! P02: a scanning cursor behaves like a position in the whole text, whatever it did before.
//! For every text and cut, the reachable states of the real cursor (position and cached
//! chunk) are explored to closure: every operation is checked in every reachable state.
use crate::lang::{Mock, T};
use mc_kit::*;
use oak_core::lexer::{LexerState, Token};
use oak_core::source::{ChunkedBuffer, Source, SourceCursor, SourceText};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Peek,
    PeekNext,
    PeekN(usize),
    PeekByte,
    Rest,
    ChunkEnd,
    AdvChar,
    AdvByte,
    Adv(usize),
    Set(usize),
    Starts(&'static str),
    Consume(&'static str),
    Find(&'static str),
    SkipWs,
    SkipDig,
    SkipId,
    SkipUntil(u8),
    TakeNot(char),
    TakeAlnum,
    TakeByteNot(u8),
    // through a lexer's state only
    TextIn(usize, usize),
    TextFrom(usize),
    CharAt(usize),
    Queries,
    With(usize),
    Dead(usize),
}
use Op::*;

static PATS: &[&str] = &["", "a", "é", "a1", "1 ", "aé", "é😀", "\n", "aa1", "a1 ", "zz"];

fn ops(t: &str) -> Vec<Op> {
    let mut v = vec![Peek, PeekNext, PeekByte, Rest, ChunkEnd, AdvChar, AdvByte, SkipWs, SkipDig, SkipId, TakeAlnum];
    v.extend([b' ', b'\n', b'a', b'1', b'_'].map(SkipUntil));
    v.extend(['a', 'é', '😀', ' ', '\0'].map(TakeNot));
    v.extend([b'a', b'\n', 0xc3].map(TakeByteNot));
    v.extend((1..=4).map(PeekN));
    v.extend((0..=5).map(Adv));
    v.extend(PATS.iter().map(|p| Starts(p)));
    v.extend(PATS.iter().map(|p| Consume(p)));
    v.extend(PATS.iter().map(|p| Find(p)));
    for c in t.chars().filter(|c| !ALPHA.contains(&c.to_string().as_str())) {
        let s: &'static str = Box::leak(c.to_string().into_boxed_str());
        v.extend([TakeNot(c), TakeByteNot(s.as_bytes()[0]), Starts(s), Consume(s), Find(s)]);
    }
    v.extend((0..=t.len() + 2).filter(|i| *i > t.len() || t.is_char_boundary(*i)).map(Set));
    v
}

/// Result expected from the model at `pos`, and the new position; None if the operation
/// would leave the character grid (outside the contract).
fn model(t: &str, pos: usize, op: &Op) -> Option<(String, usize)> {
    let rest = &t[pos..];
    let end = |n: usize| pos + n;
    let rg = |n: usize| Some((format!("{pos}..{}", end(n)), end(n)));
    let bytes = rest.as_bytes();
    let cnt = |f: &dyn Fn(u8) -> bool| bytes.iter().take_while(|b| f(**b)).count();
    match op {
        Peek => Some((format!("{:?}", rest.chars().next()), pos)),
        PeekNext => Some((format!("{:?}", rest.chars().nth(1)), pos)),
        PeekN(n) => (pos + n >= t.len() || t.is_char_boundary(pos + n)).then(|| (format!("{:?}", t.get(pos + n..).and_then(|r| r.chars().next())), pos)),
        PeekByte => Some((format!("{:?}", bytes.first()), pos)),
        Rest | ChunkEnd => Some((String::new(), pos)),
        AdvChar => Some((format!("{:?}", rest.chars().next()), pos + rest.chars().next().map_or(0, |c| c.len_utf8()))),
        AdvByte => bytes.first().is_none_or(|b| b.is_ascii()).then(|| (format!("{:?}", bytes.first()), pos + bytes.len().min(1))),
        Adv(n) => (pos + n >= t.len() || t.is_char_boundary(pos + n)).then(|| (format!("{}", (pos + n).min(t.len())), (pos + n).min(t.len()))),
        Set(p) => Some((format!("{pos}"), (*p).min(t.len()))),
        Starts(p) => Some((format!("{}", rest.starts_with(p)), pos)),
        Consume(p) => Some((format!("{}", rest.starts_with(p)), pos + if rest.starts_with(p) { p.len() } else { 0 })),
        Find(p) => Some((format!("{:?}", rest.find(p).map(|i| i + pos)), pos)),
        SkipWs => rg(cnt(&|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r'))),
        SkipDig => rg(cnt(&|b| b.is_ascii_digit())),
        SkipId => rg(cnt(&|b| b.is_ascii_alphanumeric() || b == b'_')),
        SkipUntil(x) => rg(cnt(&|b| b != *x)),
        TakeNot(c) => rg(rest.find(*c).unwrap_or(rest.len())),
        TakeAlnum => rg(rest.find(|c: char| !c.is_alphanumeric()).unwrap_or(rest.len())),
        TakeByteNot(x) => {
            let n = cnt(&|b| b != *x);
            t.is_char_boundary(pos + n).then(|| (format!("{pos}..{}", pos + n), pos + n))
        }
        TextIn(a, b) => Some((format!("{:?}", &t[*a..*b]), pos)),
        TextFrom(a) => Some((format!("{:?}", t.get(*a..).unwrap_or("")), pos)),
        CharAt(a) => Some((format!("{:?}", t.get(*a..).and_then(|r| r.chars().next())), pos)),
        Queries => Some((format!("{} {} {}", t.len(), pos < t.len(), pos >= t.len()), pos)),
        With(n) => (pos + n <= t.len() && t.is_char_boundary(pos + n)).then(|| (format!("{}", pos + n), pos + n)),
        Dead(p) => Some((String::new(), if *p == pos { pos + rest.chars().next().map_or(0, |c| c.len_utf8()) } else { pos })),
    }
}
fn real<S: Source + ?Sized>(c: &mut SourceCursor<'_, S>, t: &str, op: &Op) -> Result<String, Fail> {
    let r = |x: core::range::Range<usize>| format!("{}..{}", x.start, x.end);
    Ok(match op {
        Peek => format!("{:?}", c.peek_char()),
        PeekNext => format!("{:?}", c.peek_next_char()),
        PeekN(n) => format!("{:?}", c.peek_next_n(*n)),
        PeekByte => format!("{:?}", c.peek_byte().as_ref()),
        Rest => {
            let p = c.position();
            let x = c.rest().to_string();
            ensure!(t[p..].starts_with(&x) && (x.is_empty() == (p == t.len())), "rest", "at {p} the remaining chunk is {x:?}");
            String::new()
        }
        ChunkEnd => {
            let p = c.position();
            let e = c.chunk_end();
            ensure!(e <= t.len() && (e > p || p == t.len()), "chunkend", "at {p} the chunk ends at {e}");
            String::new()
        }
        AdvChar => format!("{:?}", c.advance_char()),
        AdvByte => format!("{:?}", c.advance_byte().as_ref()),
        Adv(n) => format!("{}", c.advance_bytes(*n)),
        Set(p) => format!("{}", c.set_position(*p)),
        Starts(p) => format!("{}", c.starts_with(p)),
        Consume(p) => format!("{}", c.consume_if_starts_with(p)),
        Find(p) => format!("{:?}", c.find_str(p)),
        SkipWs => r(c.skip_ascii_whitespace()),
        SkipDig => r(c.skip_ascii_digits()),
        SkipId => r(c.skip_ascii_ident_continue()),
        SkipUntil(x) => r(c.skip_until(*x)),
        TakeNot(x) => r(c.take_while(|c| c != *x)),
        TakeAlnum => r(c.take_while(|c| c.is_alphanumeric())),
        TakeByteNot(x) => r(c.take_while_byte(|b| b != *x)),
        _ => unreachable!(),
    })
}
/// The same operations, and a few more, on the state of a lexer.
fn lexer<S: Source + ?Sized>(c: &mut LexerState<'_, S, Mock>, t: &str, op: &Op) -> Result<String, Fail> {
    let r = |x: core::range::Range<usize>| format!("{}..{}", x.start, x.end);
    Ok(match op {
        Peek => {
            let a = c.peek();
            ensure_eq!(c.current(), a, "peek", "current");
            format!("{a:?}")
        }
        PeekNext => format!("{:?}", c.peek_next()),
        PeekN(n) => format!("{:?}", c.peek_next_n(*n)),
        PeekByte => format!("{:?}", c.peek_byte().as_ref()),
        Rest | ChunkEnd => {
            let p = c.get_position();
            let x = if *op == Rest { c.rest().as_bytes().to_vec() } else { c.rest_bytes().to_vec() };
            ensure!(t.as_bytes()[p..].starts_with(&x) && (x.is_empty() == (p == t.len())), "rest", "at {p} the remaining chunk is {x:?}");
            String::new()
        }
        AdvChar => format!("{:?}", c.bump()),
        AdvByte => format!("{:?}", c.advance_byte().as_ref()),
        Adv(n) => {
            c.advance(*n);
            format!("{}", c.get_position())
        }
        Set(p) => format!("{}", c.set_position(*p)),
        Starts(p) => format!("{}", c.starts_with(p)),
        Consume(p) => format!("{}", c.consume_if_starts_with(p)),
        Find(_) => unreachable!(),
        SkipWs => r(c.skip_ascii_whitespace()),
        SkipDig => r(c.skip_ascii_digits()),
        SkipId => r(c.skip_ascii_ident_continue()),
        SkipUntil(x) => r(c.skip_until(*x)),
        TakeNot(x) => r(c.take_while(|c| c != *x)),
        TakeAlnum => r(c.take_while(|c| c.is_alphanumeric())),
        TakeByteNot(x) => r(c.take_while_byte(|b| b != *x)),
        TextIn(a, b) => format!("{:?}", c.get_text_in(core::range::Range { start: *a, end: *b })),
        TextFrom(a) => format!("{:?}", c.get_text_from(*a)),
        CharAt(a) => format!("{:?}", c.get_char_at(*a)),
        Queries => {
            ensure_eq!(c.source().length(), t.len(), "length", "source");
            format!("{} {} {}", c.get_length(), c.not_at_end(), c.fully_reused())
        }
        With(n) => {
            let a = c.get_position();
            let k = Token { kind: T::B, span: core::range::Range { start: a, end: a + n } };
            let m = c.tokens().len();
            let at = c.advance_with(k);
            ensure!(c.tokens().len() == m + 1 && c.get_tokens().last() == Some(&k), "token", "advance_with: {:?}", c.tokens());
            c.add_token(T::C, a, at);
            c.add_eof();
            let e = [Token { kind: T::C, span: k.span }, Token { kind: T::Eof, span: core::range::Range { start: at, end: at } }];
            ensure!(c.get_tokens().len() == m + 3 && c.tokens()[m + 1..] == e, "token", "add_token, add_eof: {:?}", c.tokens());
            format!("{at}")
        }
        Dead(p) => {
            c.advance_if_dead_lock(*p);
            String::new()
        }
    })
}
fn close_lexer<S: Source + std::fmt::Debug + ?Sized>(what: &str, s: &S, t: &str, cx: &mut Cx) -> Res {
    let bs = seq::bounds(t);
    let mut all: Vec<Op> = ops(t).into_iter().filter(|o| !matches!(o, Find(_))).collect();
    for &a in &bs {
        all.extend(bs.iter().filter(|b| **b >= a).map(|b| TextIn(a, *b)));
        all.extend([TextFrom(a), CharAt(a), Dead(a)])
    }
    all.extend([TextFrom(t.len() + 1), CharAt(t.len() + 1), Queries]);
    all.extend((0..=4).map(With));
    // the state that matters: the cursor's (tokens are only appended)
    let key = |c: &LexerState<'_, S, Mock>| {
        let k = format!("{c:?}");
        k[..k.rfind(", tokens: [").unwrap_or(k.len())].to_string()
    };
    let mut seen: BTreeMap<String, (Vec<usize>, usize)> = BTreeMap::new();
    let mut q: VecDeque<String> = VecDeque::new();
    let k = key(&LexerState::new(s));
    seen.insert(k.clone(), (vec![], 0));
    q.push_back(k);
    while let Some(k) = q.pop_front() {
        let (path, pos) = seen[&k].clone();
        cx.state(&(what, t, &k, 1));
        for (i, op) in all.iter().enumerate() {
            let Some((want, np)) = model(t, pos, op)
            else {
                continue;
            };
            let mut c = LexerState::new(s);
            for j in &path {
                lexer(&mut c, t, &all[*j])?;
            }
            let hist = || format!("{what}, lexer state: after {:?}", path.iter().map(|j| all[*j].clone()).collect::<Vec<_>>());
            let got = guarded(|| lexer(&mut c, t, op)).map_err(|f| Fail { kind: f.kind, detail: format!("{} {op:?}: {}", hist(), f.detail) })?;
            cx.step();
            ensure!(got == want, "result", "{}, {op:?} gave {got}, expected {want}", hist());
            ensure!(c.get_position() == np, "position", "{}, {op:?} moved to {}, expected {np}", hist(), c.get_position());
            let k2 = key(&c);
            if !seen.contains_key(&k2) && seen.len() < 4096 {
                let mut p2 = path.clone();
                p2.push(i);
                seen.insert(k2.clone(), (p2, np));
                q.push_back(k2);
            }
        }
    }
    cx.note("lexer states explored to closure", seen.len() as u64);
    cx.exec();
    Ok(())
}
/// `start`: None for `new`, Some(p) for `new_at(p)`.
fn close<S: Source + ?Sized>(what: &str, s: &S, t: &str, cx: &mut Cx) -> Res {
    let all = ops(t);
    let mut seen: BTreeMap<String, (usize, Vec<usize>, usize)> = BTreeMap::new(); // key -> (start, path, model pos)
    let mut q: VecDeque<String> = VecDeque::new();
    for st in seq::bounds(t).into_iter().chain([t.len() + 3]) {
        let c = SourceCursor::new_at(s, st);
        let k = format!("{c:?}");
        ensure_eq!(c.position(), st.min(t.len()), "position", "{what} new_at {st}");
        if !seen.contains_key(&k) {
            seen.insert(k.clone(), (st, vec![], st.min(t.len())));
            q.push_back(k);
        }
    }
    while let Some(k) = q.pop_front() {
        let (st, path, pos) = seen[&k].clone();
        cx.state(&(what, t, &k));
        for (i, op) in all.iter().enumerate() {
            let Some((want, np)) = model(t, pos, op)
            else {
                continue;
            };
            let mut c = SourceCursor::new_at(s, st);
            for j in &path {
                real(&mut c, t, &all[*j])?;
            }
            let hist = || format!("{what}: after new_at({st}) and {:?}", path.iter().map(|j| all[*j].clone()).collect::<Vec<_>>());
            let got = guarded(|| real(&mut c, t, op)).map_err(|f| Fail { kind: f.kind, detail: format!("{} {op:?}: {}", hist(), f.detail) })?;
            cx.step();
            ensure!(got == want, "result", "{}, {op:?} gave {got}, expected {want}", hist());
            ensure!(c.position() == np, "position", "{}, {op:?} moved to {}, expected {np}", hist(), c.position());
            let k2 = format!("{c:?}");
            if !seen.contains_key(&k2) {
                let mut p2 = path.clone();
                p2.push(i);
                seen.insert(k2.clone(), (st, p2, np));
                q.push_back(k2);
            }
        }
    }
    cx.note("cursor states explored to closure", seen.len() as u64);
    cx.exec();
    Ok(())
}

static ALPHA: &[&str] = &["a", "1", " ", "\n", "é", "😀"];

pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 6);
    let dl = tier.pick(4, 5);
    vec![space(
        format!("the state of a lexer: every text of at most {dl} symbols, every cut: all states to closure"),
        seq::count_upto(6, dl),
        move |i| format!("{:?}", seq::string(ALPHA, dl, i)),
        move |i, cx| {
            let t = seq::string(ALPHA, dl, i);
            close_lexer("str", t.as_str(), &t, cx)?;
            for p in seq::partitions(&t) {
                let mut b = ChunkedBuffer::new();
                for x in &p {
                    b.push_str(x)
                }
                cx.nontrivial(p.len() > 1);
                close_lexer(&format!("{p:?}"), &b, &t, cx)?;
            }
            Ok(())
        },
    ),
    space(
        format!("every text of at most {d} symbols, every cut: all cursor states to closure"),
        seq::count_upto(6, d),
        move |i| format!("{:?}", seq::string(ALPHA, d, i)),
        move |i, cx| {
            let t = seq::string(ALPHA, d, i);
            close("str", t.as_str(), &t, cx)?;
            close("contiguous", &SourceText::new(t.clone()), &t, cx)?;
            for p in seq::partitions(&t) {
                let mut b = ChunkedBuffer::new();
                for x in &p {
                    b.push_str(x)
                }
                cx.nontrivial(p.len() > 1);
                close(&format!("{p:?}"), &b, &t, cx)?;
            }
            Ok(())
        },
    ),
    {
        let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
        space("every character among others, whole and in single characters: all states to closure", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
            let c = all[i as usize];
            cx.nontrivial(!c.is_ascii());
            for t in [format!("a{c}1"), format!(" {c}")] {
                let mut b = ChunkedBuffer::new();
                seq::pieces(&t, 1).iter().for_each(|x| b.push_str(x));
                close("single characters", &b, &t, cx)?;
                if t.starts_with('a') { close("str", t.as_str(), &t, cx)? } else { close_lexer("single characters", &b, &t, cx)? }
            }
            Ok(())
        })
    },
    long_runs(tier)]
}
/// Long runs, cut into pieces of every size: every two operations in a row from every place of interest.
fn long_runs(tier: Tier) -> Box<dyn Space> {
    static FILL: [&str; 6] = ["a", "1", " ", "é", "\n", "😀"];
    static END: [&str; 4] = ["", "é", " a1", "\n\u{a0}_"];
    let ns = seq::sizes(tier.pick(17, 70), tier.pick(64, 1024));
    let r = [ns.len() as u64, 6, 4];
    let make = move |i: u64| {
        let g = seq::digits(&r, i);
        (FILL[g[1] as usize].repeat(ns[g[0] as usize] as usize) + END[g[2] as usize], ns[g[0] as usize] as usize)
    };
    let m2 = make.clone();
    space(
        "long runs cut into pieces of many sizes: every two operations in a row from every place of interest",
        seq::prod(&r),
        move |i| {
            let (t, n) = m2(i);
            format!("{n} times {:?}, then {:?}", t.chars().next(), t.chars().skip(n).collect::<String>())
        },
        move |i, cx| {
            let (t, n) = make(i);
            let at = seq::marks(&t, 2);
            let mut all = ops("");
            all.retain(|o| !matches!(o, Set(_)));
            let k = n.min(3);
            all.extend([n.saturating_sub(1), n, n + 1, 2 * n].map(Adv));
            all.extend([n.saturating_sub(1), n, n + 1, 2 * n].map(PeekN));
            all.extend(at.iter().rev().take(6).map(|p| Set(*p)));
            // prefixes of the text as patterns
            for m in [k, n] {
                let b = t.char_indices().nth(m).map_or(t.len(), |x| x.0);
                let p: &'static str = Box::leak(t[..b].to_string().into_boxed_str());
                all.extend([Starts(p), Consume(p), Find(p)]);
            }
            let tail: &'static str = Box::leak(t[at[at.len() - at.len().min(5)]..].to_string().into_boxed_str());
            all.extend([Starts(tail), Consume(tail), Find(tail)]);
            let first: Vec<Op> = all.iter().filter(|o| !matches!(o, Peek | PeekByte | Rest | ChunkEnd)).cloned().collect();
            let lx: Vec<Op> = all.iter().filter(|o| !matches!(o, Find(_))).cloned().collect();
            for piece in [1, 2, 3, 16, 17, usize::MAX] {
                let mut b = ChunkedBuffer::new();
                if piece == usize::MAX { b.push_str(&t) } else { seq::pieces(&t, piece).iter().for_each(|x| b.push_str(x)) }
                cx.state(&(&t, piece));
                cx.nontrivial(n > 16);
                cx.exec();
                for &p in &at {
                    for o1 in &first {
                        let Some((_, p1)) = model(&t, p, o1) else { continue };
                        // a second operation only where it is short work
                        let seconds: &[Op] = if n <= 8 || p == 0 { &all } else { &all[..8] };
                        for o2 in seconds {
                            let Some((want, p2)) = model(&t, p1, o2) else { continue };
                            let mut c = SourceCursor::new_at(&b, p);
                            real(&mut c, &t, o1)?;
                            let got = real(&mut c, &t, o2)?;
                            cx.step();
                            ensure!(got == want && c.position() == p2, "long", "pieces of {piece}, at {p}: {o1:?} then {o2:?} gave {got} and moved to {}, expected {want} and {p2}", c.position());
                        }
                    }
                    for o in &lx {
                        let Some((want, p1)) = model(&t, p, o) else { continue };
                        let mut c: LexerState<'_, ChunkedBuffer, Mock> = LexerState::new(&b);
                        c.set_position(p);
                        let got = lexer(&mut c, &t, o)?;
                        cx.step();
                        ensure!(got == want && c.get_position() == p1, "long", "lexer, pieces of {piece}, at {p}: {o:?} gave {got} and moved to {}, expected {want} and {p1}", c.get_position());
                    }
                }
            }
            Ok(())
        },
    )
}
