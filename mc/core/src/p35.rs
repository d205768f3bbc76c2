//! P35: an error keeps what it was created with, and every reporting function of sources, lexers
//! and parsers creates it with the place and the source it is about.
use crate::{lang::*, util::*};
use mc_kit::*;
use oak_core::lexer::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceCursor, SourceText};
use oak_core::{Lexer, OakDiagnostics, OakError, OakErrorKind as K, ParseSession, ParserState, memory::arena::SyntaxArena};
use std::path::PathBuf;

/// What an error says: its kind, texts, place and source.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Sig {
    key: &'static str,
    texts: Vec<String>,
    offset: Option<usize>,
    id: Option<u32>,
}
fn sig(e: &OakError) -> Sig {
    let (texts, offset, id) = match e.kind() {
        K::IoError { error, source_id } => (vec![format!("{:?}", error.kind()), error.to_string()], None, *source_id),
        K::SyntaxError { message, offset, source_id } => (vec![message.clone()], Some(*offset), *source_id),
        K::UnexpectedCharacter { character, offset, source_id } => (vec![character.to_string()], Some(*offset), *source_id),
        K::UnexpectedToken { token, offset, source_id } => (vec![token.clone()], Some(*offset), *source_id),
        K::UnexpectedEof { offset, source_id } => (vec![], Some(*offset), *source_id),
        K::ExpectedToken { expected, offset, source_id } => (vec![expected.clone()], Some(*offset), *source_id),
        K::ExpectedName { name_kind, offset, source_id } => (vec![name_kind.clone()], Some(*offset), *source_id),
        K::TrailingCommaNotAllowed { offset, source_id } => (vec![], Some(*offset), *source_id),
        K::CustomError { message }
        | K::InvalidTheme { message }
        | K::FormatError { message }
        | K::SemanticError { message }
        | K::ProtocolError { message }
        | K::SerdeError { message }
        | K::DeserializeError { message }
        | K::XmlError { message }
        | K::ZipError { message }
        | K::ParseError { message }
        | K::InternalError { message } => (vec![message.clone()], None, None),
        K::UnsupportedFormat { format } => (vec![format.clone()], None, None),
        K::ColorParseError { color } => (vec![color.clone()], None, None),
        K::TestFailure { path, expected, actual } => (vec![path.display().to_string(), expected.clone(), actual.clone()], None, None),
        K::TestRegenerated { path } => (vec![path.display().to_string()], None, None),
    };
    Sig { key: e.kind().key(), texts, offset, id }
}
const KINDS: usize = 25;
/// Constructor `k` and what its error must say; `true`: it has a source.
fn make(k: usize, m: &str, at: usize, id: Option<u32>) -> (OakError, Sig, bool) {
    let c = m.chars().next().unwrap_or('?');
    let io = || std::io::Error::new(if at % 2 == 0 { std::io::ErrorKind::NotFound } else { std::io::ErrorKind::PermissionDenied }, m.to_string());
    let iot = vec![format!("{:?}", io().kind()), m.to_string()];
    let one = vec![m.to_string()];
    let (e, key, texts, offset, i, has): (OakError, &'static str, Vec<String>, Option<usize>, Option<u32>, bool) = match k {
        0 => match id {
            Some(i) => (OakError::io_error(io(), i), "error.io", iot, None, id, true),
            None => (OakError::from(io()), "error.io", iot, None, None, true),
        },
        1 => (OakError::syntax_error(m, at, id), "error.syntax", one, Some(at), id, true),
        2 => (OakError::unexpected_character(c, at, id), "error.unexpected_character", vec![c.to_string()], Some(at), id, true),
        3 => (OakError::unexpected_token(m, at, id), "error.unexpected_token", one, Some(at), id, true),
        4 => (OakError::unexpected_eof(at, id), "error.unexpected_eof", vec![], Some(at), id, true),
        5 => (OakError::expected_token(m, at, id), "error.expected_token", one, Some(at), id, true),
        6 => (OakError::expected_name(m, at, id), "error.expected_name", one, Some(at), id, true),
        7 => (OakError::trailing_comma_not_allowed(at, id), "error.trailing_comma_not_allowed", vec![], Some(at), id, true),
        8 => (OakError::custom_error(m), "error.custom", one, None, None, false),
        9 => (OakError::invalid_theme(m), "error.invalid_theme", one, None, None, false),
        10 => (OakError::unsupported_format(m), "error.unsupported_format", one, None, None, false),
        11 => (OakError::color_parse_error(m), "error.color_parse", one, None, None, false),
        12 => (OakError::format_error(m), "error.format", one, None, None, false),
        13 => (OakError::semantic_error(m), "error.semantic", one, None, None, false),
        14 => (OakError::protocol_error(m), "error.protocol", one, None, None, false),
        15 => (OakError::serde_error(m), "error.serde", one, None, None, false),
        16 => (OakError::deserialize_error(m), "error.deserialize", one, None, None, false),
        17 => (OakError::xml_error(m), "error.xml", one, None, None, false),
        18 => (OakError::zip_error(m), "error.zip", one, None, None, false),
        19 => (OakError::parse_error(m), "error.parse", one, None, None, false),
        20 => (OakError::internal_error(m), "error.internal", one, None, None, false),
        21 => (OakError::test_failure(PathBuf::from(m), "want".into(), format!("{at}")), "error.test_failure", vec![m.to_string(), "want".into(), format!("{at}")], None, None, false),
        22 => (OakError::test_regenerated(PathBuf::from(m)), "error.test_regenerated", one, None, None, false),
        23 => (OakError::from("x".parse::<u8>().unwrap_err()), "error.parse", vec!["x".parse::<u8>().unwrap_err().to_string()], None, None, false),
        _ => (OakError::from("x".parse::<f32>().unwrap_err()), "error.parse", vec!["x".parse::<f32>().unwrap_err().to_string()], None, None, false),
    };
    (e, Sig { key, texts, offset, id: i }, has)
}
static MSGS: &[&str] = &["", "m", "é b", "'\"%", "{}"];
fn says(e: &OakError, s: &Sig, what: &str) -> Res {
    ensure_eq!(sig(e), s.clone(), "content", "{what}");
    let t = e.to_string();
    ensure_eq!(format!("{e:?}"), t, "display", "{what}: Debug and Display");
    ensure_eq!(e.kind().to_string(), t, "display", "{what}: the kind and the error");
    ensure!(t.starts_with(s.key), "display", "{what}: {t:?} does not start with the key");
    for m in &s.texts[(s.key == "error.io") as usize..] {
        ensure!(t.contains(m.as_str()) || t.contains(&format!("{m:?}")), "display", "{what}: {t:?} does not say {m:?}");
    }
    if let Some(o) = s.offset {
        ensure!(t.contains(&o.to_string()) && s.id.is_none_or(|i| t.contains(&i.to_string())), "display", "{what}: {t:?} does not say where ({:?}:{o})", s.id);
    }
    Ok(())
}
/// Every character as the character, message, token or name of every kind of error.
fn every_character(tier: Tier) -> Box<dyn Space> {
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    space("every kind of error about every character", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
        let c = all[i as usize];
        cx.nontrivial(!c.is_ascii());
        for m in [c.to_string(), format!("{c} a{c}")] {
            for k in 0..KINDS {
                cx.step();
                let (e, s, _) = make(k, &m, i as usize, Some(c as u32));
                cx.state(&(k, c));
                says(&e, &s, "every character")?;
                says(&e.clone().with_source_id(c as u32), &s, "every character")?;
            }
        }
        cx.exec();
        Ok(())
    })
}
/// Histories on one error: clone it, attach sources.
fn errors(d: u32) -> Box<dyn Space> {
    let r = [KINDS as u64, MSGS.len() as u64, 3, 3, seq::count_upto(4, d)];
    let case = move |i: u64| {
        let g = seq::digits(&r, i);
        (g[0] as usize, MSGS[g[1] as usize], [0usize, 1, usize::MAX][g[2] as usize], [None, Some(0u32), Some(u32::MAX)][g[3] as usize], seq::nth(4, d, g[4]))
    };
    space(
        format!("every kind of error, message, place and source; every history of at most {d} clones and attached sources"),
        seq::prod(&r),
        move |i| format!("{:?}", case(i)),
        move |i, cx| {
            let (k, m, at, id, ops) = case(i);
            let (mut e, mut s, has) = make(k, m, at, id);
            let what = format!("{:?}", case(i));
            says(&e, &s, &what)?;
            for o in &ops {
                cx.step();
                match o {
                    0 => {
                        let c = e.clone();
                        says(&e, &s, &what)?;
                        e = c
                    }
                    1 => e = OakError::from(e.kind().clone()),
                    n => {
                        let id = [5u32, 0][n - 2];
                        e = e.with_source_id(id);
                        if has {
                            s.id = Some(id)
                        }
                    }
                }
                says(&e, &s, &what)?;
            }
            cx.exec();
            cx.nontrivial(has && !ops.is_empty());
            cx.state(&(s, k));
            Ok(())
        },
    )
}
/// The result of a run with its diagnostics.
fn results(d: u32) -> Box<dyn Space> {
    space(
        format!("every way to make a result, then at most {d} diagnostics"),
        5 * seq::count_upto(3, d),
        move |i| format!("{} {:?}", i % 5, seq::nth(3, d, i / 5)),
        move |i, cx| {
            let e = OakError::custom_error("x");
            let (mut r, ok) = match i % 5 {
                0 => (OakDiagnostics::new(Ok(3)), true),
                1 => (OakDiagnostics::success(3), true),
                2 => (OakDiagnostics::error(e), false),
                3 => (OakDiagnostics::new(Err(e)), false),
                _ => (OakDiagnostics { result: Ok(3), diagnostics: vec![] }, true),
            };
            let ds = seq::nth(3, d, i / 5);
            for (n, k) in ds.iter().enumerate() {
                ensure_eq!(r.has_errors(), !ok || n > 0, "has errors", "after {n} diagnostics");
                r.diagnostics.push(make(*k, "m", n, None).0);
                cx.step();
            }
            let c = r.clone();
            for r in [&r, &c] {
                ensure_eq!(r.has_errors(), !ok || !ds.is_empty(), "has errors", "{i}");
                ensure_eq!(r.result.as_ref().ok(), ok.then_some(&3), "result", "{i}");
                ensure_eq!(r.diagnostics.iter().map(sig).collect::<Vec<_>>(), ds.iter().enumerate().map(|(n, k)| make(*k, "m", n, None).1).collect::<Vec<_>>(), "diagnostics", "{i}");
            }
            cx.exec();
            cx.nontrivial(!ds.is_empty());
            cx.state(&(ok, ds));
            Ok(())
        },
    )
}
// ------------------------------------------------------------ where the parser reports
#[derive(Clone, Copy, Debug)]
enum Op {
    Syntax,
    Token,
    Expected,
    Name,
    Comma,
    Eof,
    EofRet,
    Expect,
    Bump,
    Advance,
    Until,
    Back,
    Again,
}
use Op::*;
static OPS: [Op; 13] = [Syntax, Token, Expected, Name, Comma, Eof, EofRet, Expect, Bump, Advance, Until, Back, Again];
fn reports<S: Source + ?Sized>(src: &S, t: &str, id: Option<u32>, p: &[Op], what: &str, cx: &mut Cx) -> Res {
    let lexed = MockLexer.lex(src, &[], &mut ParseSession::<Mock>::new(16));
    let toks: Vec<(T, usize, usize)> = lexed.result.as_ref().unwrap().iter().map(|t| (t.kind, t.span.start, t.span.end)).collect();
    let mut want: Vec<Sig> = toks.iter().filter(|k| k.0 == T::Err).map(|k| make(2, &t[k.1..k.2], k.1, id).1).collect();
    let arena = SyntaxArena::new(4);
    let mut st = ParserState::<Mock, S>::new(&arena, lexed, src, 4);
    let mut i = 0;
    let trivia = |i: &mut usize| {
        while toks.get(*i).is_some_and(|t| t.0 == T::Ws) {
            *i += 1
        }
    };
    trivia(&mut i);
    let w = || format!("{p:?} on {t:?} as {what}");
    ensure_eq!(st.source_id(), id, "source", "{}", w());
    let start = (st.checkpoint(), i);
    for o in p {
        cx.step();
        let at = toks.get(i).map_or(t.len(), |k| k.1);
        ensure_eq!(st.current_offset(), at, "place", "{}", w());
        match o {
            Syntax => {
                let e = st.syntax_error("s");
                let x = make(1, "s", at, id).1;
                ensure_eq!(sig(&e), x, "returned", "{}", w());
                want.push(x)
            }
            Token => {
                st.record_unexpected_token("t");
                want.push(make(3, "t", at, id).1)
            }
            Expected => {
                st.record_expected("e");
                want.push(make(5, "e", at, id).1)
            }
            Name => {
                st.record_expected_name("n");
                want.push(make(6, "n", at, id).1)
            }
            Comma => {
                st.record_trailing_comma_not_allowed();
                want.push(make(7, "", at, id).1)
            }
            Eof => {
                st.record_unexpected_eof();
                want.push(make(4, "", t.len(), id).1)
            }
            EofRet => {
                let e = st.unexpected_eof();
                let x = make(4, "", t.len(), id).1;
                ensure_eq!(sig(&e), x, "returned", "{}", w());
                want.push(x)
            }
            Expect => {
                let r = st.expect(T::B);
                if toks.get(i).is_some_and(|k| k.0 == T::B) {
                    ensure!(r.is_ok(), "returned", "{}", w());
                    i += 1;
                    trivia(&mut i)
                }
                else {
                    let x = make(5, "B", at, id).1;
                    ensure_eq!(r.as_ref().err().map(sig), Some(x.clone()), "returned", "{}", w());
                    want.push(x)
                }
            }
            Bump => {
                st.bump();
                if i < toks.len() {
                    i += 1;
                    trivia(&mut i)
                }
            }
            Advance => {
                st.advance();
                i += 1;
                trivia(&mut i)
            }
            Until => {
                st.advance_until_any(&[T::B, T::C]);
                while i < toks.len() && !matches!(toks[i].0, T::B | T::C) {
                    i += 1;
                    trivia(&mut i)
                }
            }
            Back => {
                st.restore(start.0);
                i = start.1
            }
            Again => {
                // a nested state sees the same source
                let n = st.nested();
                ensure_eq!((n.source_id(), n.current_offset(), n.errors.len()), (id, at, 0), "nested", "{}", w());
            }
        }
        ensure_eq!(st.errors.iter().map(sig).collect::<Vec<_>>(), want.clone(), "diagnostics", "{}", w());
    }
    let c = st.checkpoint();
    let root = st.finish_at(c, N::Root);
    let fatal = p.len() % 2 == 1;
    let o = st.finish(if fatal { Err(OakError::custom_error("z")) } else { Ok(root) });
    ensure_eq!(o.result.is_err(), fatal, "result", "{}", w());
    ensure_eq!(o.diagnostics.iter().map(sig).collect::<Vec<_>>(), want.clone(), "diagnostics", "finished: {}", w());
    cx.state(&(t, want));
    Ok(())
}
fn parser(d: u32) -> Box<dyn Space> {
    static TEXTS: &[&str] = &["", " a b", "aé ab,", "  ", "é"];
    let n = OPS.len() as u64;
    space(
        format!("every sequence of at most {d} reports and moves of a parser on {} texts, four storages, with and without a source", TEXTS.len()),
        TEXTS.len() as u64 * seq::count_upto(n, d),
        move |i| format!("{:?} {:?}", TEXTS[(i % 5) as usize], seq::nth(n, d, i / 5).iter().map(|k| OPS[*k]).collect::<Vec<_>>()),
        move |i, cx| {
            let t = TEXTS[(i % 5) as usize];
            let p: Vec<Op> = seq::nth(n, d, i / 5).iter().map(|k| OPS[*k]).collect();
            for id in [None, Some(3)] {
                match id {
                    Some(k) => reports(&SourceText::new_with_id(t, k), t, id, &p, "text with source", cx)?,
                    None => reports(&SourceText::new(t), t, id, &p, "text", cx)?,
                }
                reports(&RopeBuffer::new_with_id(t, id), t, id, &p, "rope", cx)?;
                let mut b = ChunkedBuffer::new_with_id(id);
                seq::pieces(t, 1).iter().for_each(|x| b.push_str(x));
                reports(&b.snapshot() as &dyn Source, t, id, &p, "chunks", cx)?;
            }
            reports(t, t, None, &p, "str", cx)?;
            cx.exec();
            cx.nontrivial(p.len() > 1);
            Ok(())
        },
    )
}
// ------------------------------------------------------------ a lexer's own errors
fn lexer(d: u32) -> Box<dyn Space> {
    // 0 token, 1 error by value, 2 error by kind, 3 character
    space(
        format!("every sequence of at most {d} tokens and errors of a lexer, finished well or not, handed to a parser"),
        4 * seq::count_upto(4, d),
        move |i| format!("{} {:?}", i % 4, seq::nth(4, d, i / 4)),
        move |i, cx| {
            lexed(seq::nth(4, d, i / 4), i % 2 == 1, i % 4 > 1, cx)
        },
    )
}
fn lexed(p: Vec<usize>, fatal: bool, cached: bool, cx: &mut Cx) -> Res {
            let text = "a".repeat(p.len());
            let src = SourceText::new_with_id(text.clone(), 9);
            let mut st = LexerState::<SourceText, Mock>::new(&src);
            let (mut toks, mut errs) = (0, vec![]);
            for o in &p {
                cx.step();
                let at = st.get_position();
                st.bump();
                match o {
                    0 => {
                        st.add_token(T::A, at, at + 1);
                        toks += 1
                    }
                    1 => {
                        st.add_error(src.syntax_error("m", at));
                        errs.push(make(1, "m", at, Some(9)).1)
                    }
                    2 => {
                        st.add_error(K::CustomError { message: "k".into() });
                        errs.push(make(8, "k", at, None).1)
                    }
                    _ => {
                        st.add_error(src.unexpected_character('a', at));
                        errs.push(make(2, "a", at, Some(9)).1)
                    }
                }
            }
            let end = if fatal { Err(OakError::internal_error("dead")) } else { Ok(()) };
            let mut cache = ParseSession::<Mock>::new(4);
            let o = if cached { st.finish_with_cache(end, &mut cache) } else { st.finish(end) };
            ensure_eq!(o.diagnostics.iter().map(sig).collect::<Vec<_>>(), errs.clone(), "diagnostics", "{p:?}");
            ensure_eq!(o.result.as_ref().ok().map(|t| t.len()), (!fatal).then_some(toks), "tokens", "{p:?}");
            ensure_eq!(o.has_errors(), fatal || !errs.is_empty(), "has errors", "{p:?}");
            if cached {
                ensure_eq!(LexerCache::<Mock>::has_tokens(&cache), !fatal && toks > 0, "cache", "{p:?}");
                ensure_eq!(LexerCache::<Mock>::count_tokens(&cache), if fatal { 0 } else { toks }, "cache", "{p:?}");
            }
            let arena = SyntaxArena::new(4);
            let st = ParserState::<Mock, SourceText>::new(&arena, o, &src, 4);
            let mut want = errs.clone();
            if fatal {
                want.insert(0, make(20, "dead", 0, None).1)
            }
            // all of the errors are passed on, the fatal one among them
            let mut got: Vec<Sig> = st.errors.iter().map(sig).collect();
            let key = |s: &Sig| format!("{s:?}");
            got.sort_by_key(key);
            want.sort_by_key(key);
            ensure_eq!(got, want, "diagnostics", "passed on to the parser: {p:?}");
            ensure_eq!(st.not_at_end(), !fatal && toks > 0, "tokens", "{p:?}");
            ensure_eq!(st.current_offset(), if fatal || toks == 0 { text.len() } else { p.iter().position(|o| *o == 0).unwrap() }, "place", "{p:?}");
            cx.exec();
            cx.nontrivial(fatal && !errs.is_empty());
            cx.state(&(fatal, toks, errs));
            Ok(())
}
// ------------------------------------------------------------ sources keep their id
fn source_says<S: Source>(s: &S, id: Option<u32>, what: &str) -> Res {
    fn dynamic(s: &dyn Source) -> (Option<u32>, Sig) {
        (s.source_id(), sig(&s.syntax_error("m".into(), 2)))
    }
    let x = make(1, "m", 2, id).1;
    ensure_eq!(Source::source_id(s), id, "source", "{what}");
    ensure_eq!(Source::source_id(&s), id, "source", "{what} by reference");
    ensure_eq!(Source::source_id(&&s), id, "source", "{what} by reference");
    ensure_eq!(sig(&Source::syntax_error(s, "m".into(), 2)), x, "source", "{what}");
    ensure_eq!(sig(&Source::syntax_error(&s, "m".into(), 2)), x, "source", "{what}");
    ensure_eq!(dynamic(s), (id, x), "source", "{what}");
    ensure_eq!(Source::source_id(SourceCursor::new(s).source()), id, "source", "{what} behind a cursor");
    ensure_eq!(LexerState::<S, Mock>::new(s).source().source_id(), id, "source", "{what} behind a lexer");
    Ok(())
}
fn sources(d: u32) -> Box<dyn Space> {
    // histories: 0 append, 1 remove the first byte, 2 replace all, 3 copy, 4 no edits
    space(
        format!("every history of at most {d} edits and copies of a source with or without an id"),
        3 * seq::count_upto(5, d),
        move |i| format!("{} {:?}", i % 3, seq::nth(5, d, i / 3)),
        move |i, cx| {
            let id = [None, Some(0), Some(8)][(i % 3) as usize];
            let mut s = match id {
                Some(k) => SourceText::new_with_id("ab", k),
                None => SourceText::new("ab"),
            };
            let mut r = RopeBuffer::new_with_id("ab", id);
            let mut b = ChunkedBuffer::new_with_id(id);
            let mut t = "ab".to_string();
            b.push_str("ab");
            for o in seq::nth(5, d, i / 3) {
                cx.step();
                let e = match o {
                    0 => edit(t.len(), t.len(), "c"),
                    1 => edit(0, t.len().min(1), ""),
                    2 => edit(0, t.len(), "xyz"),
                    3 => {
                        s = s.clone();
                        r = r.clone();
                        b = b.clone();
                        continue;
                    }
                    _ => {
                        s.apply_edits(&[]);
                        r.apply_edits(&[]);
                        b.push_str("");
                        continue;
                    }
                };
                t = splice(&t, &[(e.span.start, e.span.end, e.text.to_string())]);
                s.apply_edits(std::slice::from_ref(&e));
                r.apply_edits(std::slice::from_ref(&e));
                b.push_str("c");
            }
            let w = |x: &str| format!("{x} with id {id:?} after {:?}", seq::nth(5, d, i / 3));
            source_says(&s, id, &w("text"))?;
            source_says(&r, id, &w("rope"))?;
            source_says(&r.snapshot(), id, &w("rope snapshot"))?;
            source_says(&b, id, &w("chunks"))?;
            source_says(&b.snapshot(), id, &w("chunk snapshot"))?;
            source_says(&t.as_str(), None, "str")?;
            ensure_eq!(s.source_id(), id, "source", "{}", w("text"));
            ensure_eq!(s.text(), t, "text", "{}", w("text"));
            for at in [0, t.len()] {
                for (e, k) in [(s.syntax_error("m", at), 1), (s.unexpected_character('m', at), 2), (s.expected_token("m", at), 5), (s.expected_name("m", at), 6), (s.trailing_comma_not_allowed(at), 7)] {
                    ensure_eq!(sig(&e), make(k, "m", at, id).1, "content", "{}", w("text"));
                }
            }
            cx.exec();
            cx.nontrivial(id.is_some());
            cx.state(&(id, t));
            Ok(())
        },
    )
}
// ------------------------------------------------------------ files
fn files() -> Box<dyn Space> {
    use oak_core::helpers::*;
    // what is at the path before: nothing, a file, a directory, a file where a directory is needed
    static PATHS: &[&str] = &["f", "d/f", "d/e/f", "é b/f.x"];
    static DATA: &[&[u8]] = &[b"", b"a", "é\r\n\0b".as_bytes(), b"\xff", b"a\xc3"];
    space(
        "every path, state of the directory and content; reading, opening and creating",
        (PATHS.len() * 4 * DATA.len()) as u64,
        move |i| format!("{:?}", seq::digits(&[PATHS.len() as u64, 4, DATA.len() as u64], i)),
        move |i, cx| {
            let g = seq::digits(&[PATHS.len() as u64, 4, DATA.len() as u64], i);
            let dir = std::env::temp_dir().join(format!("mc-p35-{}-{i}", std::process::id()));
            struct Drop_(PathBuf);
            impl Drop for Drop_ {
                fn drop(&mut self) {
                    let _ = std::fs::remove_dir_all(&self.0);
                }
            }
            std::fs::create_dir(&dir).unwrap();
            let _d = Drop_(dir.clone());
            let path = dir.join(PATHS[g[0] as usize]);
            let data = DATA[g[2] as usize];
            match g[1] {
                1 => {
                    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                    std::fs::write(&path, data).unwrap()
                }
                2 => std::fs::create_dir_all(&path).unwrap(),
                3 => {
                    let p = path.parent().unwrap();
                    if p != dir {
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        std::fs::write(p, data).unwrap()
                    }
                }
                _ => {}
            }
            let text = std::str::from_utf8(data).ok().filter(|_| g[1] == 1);
            let w = format!("{:?} with {g:?}", PATHS[g[0] as usize]);
            let r = source_from_path(&path);
            cx.step();
            ensure_eq!(r.as_ref().ok().map(|s| s.text()), text, "read", "{w}");
            if let Err(e) = r {
                ensure!(e.to_string().contains(&path.display().to_string()), "read", "{w}: {e} does not name the file");
            }
            use std::io::{Read, Write};
            match open_file(&path) {
                Ok(mut f) => {
                    let mut b = vec![];
                    let n = f.read_to_end(&mut b);
                    ensure!(g[1] != 0 && g[1] != 3 && n.is_ok() == (g[1] == 1), "open", "{w}");
                    ensure!(g[1] != 1 || b == data, "open", "{w}: {b:?}");
                }
                Err(e) => {
                    ensure!(g[1] != 1, "open", "{w}: {e}");
                    ensure!(e.to_string().contains(&path.display().to_string()), "open", "{w}: {e} does not name the file");
                }
            }
            let fine = g[1] < 2 || g[1] == 3 && path.parent() == Some(&*dir);
            match create_file(&path) {
                Ok(mut f) => {
                    ensure!(fine, "create", "{w}: created");
                    f.write_all(b"new").unwrap();
                    drop(f);
                    ensure_eq!(std::fs::read(&path).unwrap(), b"new".to_vec(), "create", "{w}");
                }
                Err(e) => ensure!(!fine, "create", "{w}: {e}"),
            }
            cx.steps(2);
            cx.exec();
            cx.nontrivial(g[1] != 1);
            cx.state(&g);
            Ok(())
        },
    )
}
fn keys() -> Box<dyn Space> {
    space(
        "the keys of the kinds are different",
        1,
        |_| String::new(),
        |_, cx| {
            let mut k: Vec<&str> = (0..23).map(|k| make(k, "m", 0, None).0.kind().key()).collect();
            cx.steps(k.len() as u64);
            k.sort();
            k.dedup();
            ensure_eq!(k.len(), 23, "keys", "distinct keys");
            ensure!(k.iter().all(|k| k.starts_with("error.")), "keys", "{k:?}");
            cx.exec();
            cx.nontrivial(true);
            cx.state(&k);
            Ok(())
        },
    )
}
/// Many reports: patterns of up to three operations over and over.
fn many(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(0, tier.pick(64, 512));
    let n2 = ns.clone();
    let n = OPS.len() as u64;
    let c = seq::count_upto(n, 2);
    space(
        "up to two reports and moves of a parser, over and over, on a long text",
        c * ns.len() as u64,
        move |i| format!("{} times {:?}", n2[(i / c) as usize], seq::nth(n, 2, i % c).iter().map(|k| OPS[*k]).collect::<Vec<_>>()),
        move |i, cx| {
            let k = ns[(i / c) as usize] as usize;
            let p: Vec<Op> = seq::nth(n, 2, i % c).iter().map(|k| OPS[*k]).collect::<Vec<_>>().repeat(k);
            let t = "aé ab, ".repeat(k.min(100));
            reports(&SourceText::new_with_id(t.as_str(), 5), &t, Some(5), &p, "text with source", cx)?;
            cx.exec();
            Ok(())
        },
    )
}
/// Reports behind 2^16 bytes.
fn far(tier: Tier) -> Box<dyn Space> {
    let n = OPS.len() as u64;
    let d = tier.pick(2, 3);
    const HEADS: [usize; 3] = [65534, 65536, 70000];
    space(
        format!("up to {d} reports and moves of a parser behind a token of 2^16 bytes"),
        3 * seq::count_upto(n, d),
        move |i| format!("{} bytes, {:?}", HEADS[i as usize % 3], seq::nth(n, d, i / 3).iter().map(|k| OPS[*k]).collect::<Vec<_>>()),
        move |i, cx| {
            let p: Vec<Op> = [Advance].into_iter().chain(seq::nth(n, d, i / 3).iter().map(|k| OPS[*k])).collect();
            let t = "a".repeat(HEADS[i as usize % 3]) + " b, é";
            cx.exec();
            cx.state(&i);
            cx.nontrivial(p.len() > 1);
            reports(&SourceText::new_with_id(t.as_str(), 5), &t, Some(5), &p, "text with source", cx).map_err(|f| Fail { kind: f.kind, detail: f.detail.chars().take(300).collect() })
        },
    )
}
fn many_lexed(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(30, tier.pick(256, 4096));
    let n2 = ns.clone();
    space(
        "up to three tokens and errors of a lexer, over and over",
        4 * 85 * ns.len() as u64,
        move |i| format!("{} {:?} {} times", i % 4, seq::nth(4, 3, i / 4 % 85), n2[(i / 340) as usize]),
        move |i, cx| lexed(seq::nth(4, 3, i / 4 % 85).repeat(ns[(i / 340) as usize] as usize), i % 2 == 1, i % 4 > 1, cx).map_err(|f| Fail { kind: f.kind, detail: f.detail.chars().take(300).collect() }),
    )
}
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    vec![every_character(tier), errors(tier.pick(4, 5)), results(tier.pick(6, 7)), parser(tier.pick(5, 6)), lexer(tier.pick(8, 9)), sources(tier.pick(7, 8)), files(), keys(), many(tier), many_lexed(tier), far(tier)]
}
