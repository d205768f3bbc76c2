//! P05: the shared lexing helpers recognise exactly the run described, on every chunking.
use crate::lang::*;
use mc_kit::*;
use oak_core::lexer::{scan_comment::*, scan_identifier::{is_ascii_ident_continue, is_ascii_ident_start}, *};
use oak_core::source::{ChunkedBuffer, Source};

/// Expected (consumed length, token emitted) of helper `h` at the start of `r`.
fn want(h: usize, r: &str) -> Option<usize> {
    let line = |m: &str| r.starts_with(m).then(|| r.find('\n').unwrap_or(r.len()));
    let block = |a: &str, b: &str| r.strip_prefix(a).map(|x| x.find(b).map_or(r.len(), |k| a.len() + k + b.len()));
    let nested = |a: &str, b: &str| {
        let mut i = a.len();
        let mut d = 1;
        if !r.starts_with(a) {
            return None;
        }
        while d > 0 && i < r.len() {
            if r[i..].starts_with(a) {
                d += 1;
                i += a.len()
            }
            else if r[i..].starts_with(b) {
                d -= 1;
                i += b.len()
            }
            else {
                i += r[i..].chars().next().unwrap().len_utf8()
            }
        }
        Some(i)
    };
    let string = |qs: &[char], esc: Option<char>| {
        let q = r.chars().next().filter(|c| qs.contains(c))?;
        let mut it = r.char_indices().skip(1);
        while let Some((i, c)) = it.next() {
            if Some(c) == esc {
                it.next();
            }
            else if c == q {
                return Some(i + c.len_utf8());
            }
        }
        Some(r.len())
    };
    match h {
        0 => line("//"),
        1 => block("/*", "*/"),
        2 => line("//").or_else(|| block("/*", "*/")),
        3 => line("//").or_else(|| nested("/*", "*/")),
        4 => string(&['"', '\''], Some('\\')),
        5 => string(&['"', '\''], None),
        6 => string(&['é', '"'], Some('\\')),
        7 => string(&['"'], Some('é')),
        8 => Some(r.find(|c: char| !matches!(c, ' ' | '\t' | '\n' | '\r')).unwrap_or(r.len())).filter(|n| *n > 0),
        9 => Some(r.find(|c: char| !c.is_whitespace()).unwrap_or(r.len())).filter(|n| *n > 0),
        10 => r.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_').then(|| r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len())),
        11 => block("<!--", "-->"),
        _ => nested("(*", "*)"),
    }
}
pub const N: usize = 13;
/// Marks of block comments, and whether they nest; with a line mark they are scanned by configuration.
static MARKS: &[(&str, &str, &str, bool)] = &[
    ("", "/*", "*/", false),
    ("", "<!--", "-->", false),
    ("", "[[", "]]", false),
    ("", "\"\"\"", "\"\"\"", false),
    ("", "é", "è", false),
    ("", "«", "»", false),
    ("", "x", "xxy", false),
    ("", "{", "}", false),
    ("--", "{-", "-}", true),
    (";", "#|", "|#", true),
    (";;", "(;", ")", true),
    ("//", "{", "}", false),
    ("#", "", "", false),
    ("%", "«é", "é»", true),
    ("", "@", "abaab", false),
    ("", "[[", "]]]]", false),
];
/// The comment at the start of `r`: its length.
fn comment(m: &(&str, &str, &str, bool), r: &str) -> Option<usize> {
    let &(line, open, close, nested) = m;
    if !line.is_empty() && r.starts_with(line) {
        return Some(r.find('\n').unwrap_or(r.len()));
    }
    if open.is_empty() || !r.starts_with(open) {
        return None;
    }
    let (mut i, mut d) = (open.len(), 1);
    while d > 0 && i < r.len() {
        let t = &r[i..];
        if nested && t.starts_with(open) {
            d += 1;
            i += open.len()
        }
        else if t.starts_with(close) {
            d -= 1;
            i += close.len()
        }
        else {
            i += t.chars().next().unwrap().len_utf8()
        }
    }
    Some(i)
}
fn marks(k: usize, d: u32) -> Box<dyn Space> {
    let m = &MARKS[k];
    let mut al: Vec<String> = Vec::new();
    for c in m.0.chars().chain(m.1.chars()).chain(m.2.chars()).chain(['\n', 'a', 'â']).filter(|c| *c != '\n' || !m.0.is_empty()) {
        if !al.contains(&c.to_string()) {
            al.push(c.to_string())
        }
    }
    let al: &'static [&'static str] = al.into_iter().map(|s| &*s.leak()).collect::<Vec<_>>().leak();
    let n = al.len() as u64;
    // as many texts for every alphabet
    let d = if n > 6 { d - 2 } else if n > 5 { d - 1 } else { d };
    space(
        format!("comments with the marks {:?}: every text of at most {d} characters behind the opening mark", (m.0, m.1, m.2)),
        2 * seq::count_upto(n, d),
        move |i| format!("{:?}", format!("{}{}", if i % 2 == 0 { m.1 } else { m.0 }, seq::string(al, d, i / 2))),
        move |i, cx| {
            let t = format!("{}{}", if i % 2 == 0 { m.1 } else { m.0 }, seq::string(al, d, i / 2));
            let want = comment(m, &t);
            cx.state(&t);
            for piece in [usize::MAX, 1, 2, 3] {
                let mut b = ChunkedBuffer::new();
                if piece == usize::MAX { b.push_str(&t) } else { seq::pieces(&t, piece).iter().for_each(|x| b.push_str(x)) }
                let mut st = LexerState::<ChunkedBuffer, Mock>::new(&b);
                let got = if m.0.is_empty() && !m.3 { st.scan_block_comment(T::C, m.1, m.2) } else { CommentConfig { line_marker: m.0, block_start: m.1, block_end: m.2, nested_blocks: m.3 }.scan(&mut st, T::C, T::C) };
                ensure!(got == want.is_some(), "answer", "{t:?} in pieces of {piece}: recognised={got}, expected {want:?}");
                ensure_eq!(st.get_position(), want.unwrap_or(0), "position", "{t:?} in pieces of {piece}");
                let toks: Vec<(usize, usize)> = st.tokens().iter().map(|k| (k.span.start, k.span.end)).collect();
                ensure_eq!(toks, want.map(|n| (0, n)).into_iter().collect::<Vec<_>>(), "token", "{t:?} in pieces of {piece}");
                cx.step();
            }
            cx.exec();
            cx.nontrivial(want.is_some());
            Ok(())
        },
    )
}
fn code<S: Source + ?Sized>(h: usize, st: &mut LexerState<'_, S, Mock>) -> bool {
    const C: CommentConfig = CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: false };
    const CN: CommentConfig = CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true };
    const CP: CommentConfig = CommentConfig { line_marker: "", block_start: "(*", block_end: "*)", nested_blocks: true };
    match h {
        0 => st.scan_line_comment(T::C, "//"),
        1 => st.scan_block_comment(T::C, "/*", "*/"),
        2 => C.scan(st, T::C, T::C),
        3 => CN.scan(st, T::C, T::C),
        4 => StringConfig { quotes: &['"', '\''], escape: Some('\\') }.scan(st, T::C),
        5 => StringConfig { quotes: &['"', '\''], escape: None }.scan(st, T::C),
        6 => StringConfig { quotes: &['é', '"'], escape: Some('\\') }.scan(st, T::C),
        7 => StringConfig { quotes: &['"'], escape: Some('é') }.scan(st, T::C),
        8 => WhitespaceConfig { unicode_whitespace: false }.scan(st, T::C),
        9 => WhitespaceConfig { unicode_whitespace: true }.scan(st, T::C),
        10 => st.scan_ascii_identifier(T::C),
        11 => st.scan_block_comment(T::C, "<!--", "-->"),
        _ => CP.scan(st, T::C, T::C),
    }
}
fn one<S: Source + ?Sized>(s: &S, t: &str, what: &str, hs: &[usize], cx: &mut Cx) -> Res {
    for at in seq::bounds(t) {
        for &h in hs {
            cx.step();
            let mut st = LexerState::<S, Mock>::new(s);
            st.set_position(at);
            let got = code(h, &mut st);
            let w = want(h, &t[at..]);
            ensure!(got == w.is_some(), "answer", "helper {h} at {at} of {t:?} stored as {what}: recognised={got}, expected {w:?}");
            let n = w.unwrap_or(0);
            ensure_eq!(st.get_position(), at + n, "position", "helper {h} at {at} of {t:?} stored as {what}");
            let toks: Vec<(usize, usize)> = st.tokens().iter().map(|k| (k.span.start, k.span.end)).collect();
            ensure_eq!(toks, if got { vec![(at, at + n)] } else { vec![] }, "token", "helper {h} at {at} of {t:?} stored as {what}");
            let o = st.finish(Ok(()));
            ensure_eq!(o.result.map(|r| r.len()).ok(), Some(got as usize), "token", "finish");
        }
    }
    cx.exec();
    Ok(())
}
static ALPHAS: &[(&[&str], &[usize], &str)] = &[
    (&["/", "*", "\n", "a", "é", "//", "/*", "*/"], &[0, 1, 2, 3], "comments"),
    (&["\"", "'", "\\", "a", "é", "\n", "aaaaaaaaaaaaaaaa"], &[4, 5, 6, 7], "strings"),
    (&[" ", "\n", "\t", "\r", "a", "\u{a0}", "_", "1", "                "], &[8, 9, 10], "whitespace and identifiers"),
    (&["<!", "--", "-", "->", ">", "é", "a"], &[11], "long comment marks"),
    (&["(", "*", ")", "a", "é", "(*", "*)"], &[12], "nested comments"),
];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 6);
    let md = tier.pick(8, 9);
    let mut v: Vec<Box<dyn Space>> = (0..MARKS.len()).map(|k| marks(k, md)).collect();
    v.extend(ALPHAS
        .iter()
        .map(|(al, hs, name)| {
            let (al, hs) = (*al, *hs);
            space(
                format!("{name}: every text of at most {d} fragments, every position, every cut"),
                seq::count_upto(al.len() as u64, d),
                move |i| format!("{:?}", seq::string(al, d, i)),
                move |i, cx| {
                    let t = seq::string(al, d, i);
                    cx.state(&t);
                    one(t.as_str(), &t, "str", hs, cx)?;
                    let parts = if t.chars().count() <= 7 { seq::partitions(&t) } else { vec![seq::pieces(&t, 1), seq::pieces(&t, 2), seq::pieces(&t, 3), seq::pieces(&t, 17)] };
                    for p in parts {
                        cx.nontrivial(p.len() > 1);
                        let mut b = ChunkedBuffer::new();
                        for x in &p {
                            b.push_str(x)
                        }
                        one(&b, &t, &format!("{p:?}"), hs, cx)?;
                    }
                    Ok(())
                },
            )
        })
        );
    let mut ns = seq::sizes(70, tier.pick(4096, 65536));
    ns.extend([65535, 65536, 65537]);
    ns.sort();
    ns.dedup();
    let r = [ns.len() as u64, 14];
    let make = move |i: u64| -> (String, &'static [usize], usize) {
        let g = seq::digits(&r, i);
        let n = ns[g[0] as usize] as usize;
        let (t, h): (String, &'static [usize]) = match g[1] {
            0 => ("/*".repeat(n) + &"*/".repeat(n) + "*/x", &[1, 2, 3]),
            1 => ("/*".repeat(n) + &"*/".repeat(n.saturating_sub(1)), &[1, 2, 3]),
            2 => ("/*".repeat(n) + "é\n" + &"*/".repeat(n) + "a", &[1, 2, 3]),
            3 => ("/*".to_string() + &"*".repeat(n) + "/x", &[1, 2, 3]),
            4 => ("//".to_string() + &"a".repeat(n) + "\nb", &[0, 2, 3]),
            5 => ("//".to_string() + &"é".repeat(n), &[0, 2, 3]),
            6 => ("\"".to_string() + &"\\\"".repeat(n) + "\"a", &[4, 5, 6, 7]),
            7 => ("'".to_string() + &"a".repeat(n) + "\"'", &[4, 5, 6, 7]),
            8 => ("\"".to_string() + &"é".repeat(n) + "\"\"", &[4, 5, 6, 7]),
            9 => (" ".repeat(n) + "\u{a0} a", &[8, 9, 10]),
            10 => ("a1_".repeat(n) + "é", &[8, 9, 10]),
            11 => ("\u{2003}\n".repeat(n) + "_", &[8, 9, 10]),
            12 => ("<!--".to_string() + &"-".repeat(n) + ">>", &[11]),
            _ => ("(*".repeat(n) + &"(*)*)".repeat(n) + "a", &[12]),
        };
        (t, h, n)
    };
    let m2 = make.clone();
    v.push(space(
        "long and deep: runs, escapes and nesting of every number up to 70 and around the powers of two",
        seq::prod(&r),
        move |i| {
            let (t, _, n) = m2(i);
            format!("{n} times, {:?} ...", t.chars().take(12).collect::<String>())
        },
        move |i, cx| {
            let (t, hs, n) = make(i);
            cx.state(&i);
            cx.nontrivial(n > 1);
            let mut at = seq::marks(&t, 1);
            if n > 60000 {
                at.retain(|a| *a == 0 || a + 1 == t.len())
            }
            if n > 1100 {
                at.retain(|a| *a < 3 || *a + 3 > t.len())
            }
            for piece in [usize::MAX, 1, 2, 3, 17, 4096] {
                let mut b = ChunkedBuffer::new();
                if piece == usize::MAX { b.push_str(&t) } else { seq::pieces(&t, piece).iter().for_each(|x| b.push_str(x)) }
                for &a in &at {
                    for &h in hs {
                        cx.step();
                        let mut st = LexerState::<ChunkedBuffer, Mock>::new(&b);
                        st.set_position(a);
                        let got = code(h, &mut st);
                        let w = want(h, &t[a..]);
                        ensure!(got == w.is_some() && st.get_position() == a + w.unwrap_or(0), "long", "helper {h} at {a} of {} bytes in pieces of {piece}: recognised={got} up to {}, expected {w:?}", t.len(), st.get_position());
                        let toks: Vec<(usize, usize)> = st.tokens().iter().map(|k| (k.span.start, k.span.end)).collect();
                        ensure_eq!(toks, w.map(|n| (a, a + n)).into_iter().collect::<Vec<_>>(), "token", "helper {h} at {a}");
                    }
                }
            }
            cx.exec();
            Ok(())
        },
    ));
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    v.push(space("every character in comments, strings, names and blanks, in pieces", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
        let c = all[i as usize];
        const H: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
        cx.nontrivial(!c.is_ascii());
        for t in [format!("//{c}\n{c}"), format!("/*{c}*/{c}"), format!("\"{c}\\{c}\"{c}"), format!("_{c}a"), format!(" {c} "), format!("{c}//"), format!("é{c}é{c}"), format!("(*{c}(*{c}*)*)")] {
            cx.state(&t);
            one(t.as_str(), &t, "str", &H, cx)?;
            let mut b = ChunkedBuffer::new();
            seq::pieces(&t, 1).iter().for_each(|x| b.push_str(x));
            one(&b, &t, "single characters", &H, cx)?;
        }
        Ok(())
    }));
    v.push(space(
        "byte tests: every byte as the start and the rest of a name, every two bytes as the start of a comment, alone, cut short and followed",
        256,
        |i| format!("byte {i}"),
        |i, cx| {
            let b = i as u8;
            cx.state(&b);
            cx.nontrivial(b == b'/' || b == b'_' || b.is_ascii_alphanumeric());
            let start = matches!(b, b'a'..=b'z' | b'A'..=b'Z' | b'_');
            ensure_eq!((is_ascii_ident_start(b), is_ascii_ident_continue(b)), (start, start || matches!(b, b'0'..=b'9')), "name", "byte {b}");
            ensure!(!starts_with_line_comment(&[]) && !starts_with_block_comment(&[]), "comment", "no bytes");
            ensure!(!starts_with_line_comment(&[b]) && !starts_with_block_comment(&[b]), "comment", "byte {b} alone");
            for c in 0..=255u8 {
                cx.step();
                let mut t = vec![b, c];
                for more in [0, 1, 1, 14, 16] {
                    t.extend(std::iter::repeat_n(c, more));
                    let got = (starts_with_line_comment(&t), starts_with_block_comment(&t));
                    ensure_eq!(got, ((b, c) == (b'/', b'/'), (b, c) == (b'/', b'*')), "comment", "{t:?}");
                }
            }
            cx.exec();
            Ok(())
        },
    ));
    v
}
