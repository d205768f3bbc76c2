//! P01: every way of storing a text answers every query like the text itself.
use crate::util::*;
use mc_kit::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceCursor, SourceText};

/// All representations of `t` whose storage is cut as in `p`.
pub fn representations(t: &str, p: &[String]) -> Vec<(&'static str, Box<dyn Source>)> {
    let mut v: Vec<(&'static str, Box<dyn Source>)> = Vec::new();
    v.push(("contiguous", Box::new(SourceText::new(t.to_string()))));
    v.push(("contiguous with id", Box::new(SourceText::new_with_id(t.to_string(), 7))));
    let mut b = ChunkedBuffer::new();
    for x in p {
        b.push_str(x)
    }
    v.push(("chunked snapshot", Box::new(b.snapshot())));
    v.push(("chunked", Box::new(b)));
    v.push(("rope of one text", Box::new(RopeBuffer::new(t))));
    // appended piece by piece
    let mut r = RopeBuffer::new("");
    let mut at = 0;
    for x in p {
        r.apply_edits(&[edit(at, at, x)]);
        at += x.len()
    }
    v.push(("rope appended snapshot", Box::new(r.snapshot())));
    v.push(("rope appended", Box::new(r)));
    // prepended piece by piece
    let mut r = RopeBuffer::new("");
    for x in p.iter().rev() {
        r.apply_edits(&[edit(0, 0, x)]);
    }
    v.push(("rope prepended", Box::new(r)));
    // pieces inserted into a frame which is removed afterwards
    let mut r = RopeBuffer::new("[é]");
    let mut at = 3;
    for x in p {
        r.apply_edits(&[edit(at, at, x)]);
        at += x.len()
    }
    r.apply_edits(&[edit(0, 3, ""), edit(at, at + 1, "")]);
    v.push(("rope framed", Box::new(r.snapshot())));
    v
}

/// `t` is the truth; `pos` are the char boundaries to query.
pub fn same_as_text(what: &str, s: &dyn Source, t: &str, pos: &[usize], chars: &[char], pats: &[&str], cx: &mut Cx) -> Res {
    cx.exec();
    ensure_eq!(s.length(), t.len(), "length", "{what}");
    ensure_eq!(s.is_empty(), t.is_empty(), "length", "{what} is_empty");
    // walking the chunks yields the text
    let mut at = 0;
    let mut n = 0;
    while at < t.len() {
        let c = s.chunk_at(at);
        ensure!(c.start <= at && at < c.end(), "chunk", "{what}: chunk at {at} is {}..{}", c.start, c.end());
        ensure!(c.end() <= t.len() && &t[c.start..c.end()] == c.text, "chunk", "{what}: chunk at {at} holds {:?}, the text there is {:?}", c.text, t.get(c.start..c.end()));
        at = c.end();
        n += 1;
        ensure!(n <= t.len() + 1, "chunk", "{what}: chunks do not advance");
    }
    for k in [t.len(), t.len() + 1, t.len() + 9] {
        let c = s.chunk_at(k);
        ensure!(c.text.is_empty() && c.start == t.len(), "chunk", "{what}: chunk at {k} behind the end is {c:?}");
        ensure_eq!(s.get_char_at(k), None, "char", "{what} char at {k}");
        ensure_eq!(s.get_text_from(k), "", "text", "{what} text from {k}");
        ensure_eq!(s.find_char_from(k, 'a'), None, "find", "{what} find a from {k}");
    }
    for &a in pos {
        let rest = &t[a..];
        cx.steps(2);
        if a < t.len() {
            let c = s.chunk_at(a);
            ensure!(c.start <= a && a < c.end() && &t[c.start..c.end()] == c.text, "chunk", "{what}: chunk at {a} is {c:?}");
            ensure!(!c.slice_from(a).is_empty() && rest.starts_with(c.slice_from(a)), "chunk", "{what}: slice at {a}");
        }
        ensure_eq!(s.get_char_at(a), rest.chars().next(), "char", "{what} char at {a}");
        ensure_eq!(s.get_text_from(a), rest, "text", "{what} text from {a}");
        for &b in pos {
            if b >= a {
                cx.step();
                ensure_eq!(s.get_text_in(range(a, b)), &t[a..b], "text", "{what} text in {a}..{b}");
            }
        }
        for &c in chars {
            cx.step();
            ensure_eq!(s.find_char_from(a, c), rest.find(c).map(|i| i + a), "find", "{what} find {c:?} from {a}");
        }
        for &p in pats {
            cx.step();
            ensure_eq!(s.find_str_from(a, p), rest.find(p).map(|i| i + a), "find", "{what} find {p:?} from {a}");
            let mut k = SourceCursor::new_at(s, a);
            ensure_eq!(k.starts_with(p), rest.starts_with(p), "starts", "{what} starts with {p:?} at {a}");
        }
        let e = s.syntax_error("m".into(), a);
        ensure_eq!(format!("{e:?}"), format!("{:?}", oak_core::OakError::syntax_error("m", a, s.source_id())), "error", "{what} error at {a}");
    }
    Ok(())
}

static ALPHA: &[&str] = &["a", "b", "\n", "é", "中", "😀"];

pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 6);
    let n = seq::count_upto(6, d);
    let mut v = vec![space(
        format!("every text of at most {d} symbols, every cut, every representation, every query"),
        n,
        move |i| format!("{:?}", seq::string(ALPHA, d, i)),
        move |i, cx| {
            let t = seq::string(ALPHA, d, i);
            let pos = seq::bounds(&t);
            let chars: Vec<char> = ALPHA.iter().map(|s| s.chars().next().unwrap()).chain(['\0']).collect();
            let mut pats: Vec<String> = seq::strings(&["a", "b", "é", "😀"], 2);
            for (k, a) in pos.iter().enumerate() {
                for b in &pos[k..] {
                    pats.push(t[*a..*b].to_string())
                }
            }
            pats.sort();
            pats.dedup();
            let pats: Vec<&str> = pats.iter().map(|s| s.as_str()).collect();
            same_as_text("str", &t.as_str(), &t, &pos, &chars, &pats, cx)?;
            for p in seq::partitions(&t) {
                cx.state(&p);
                cx.nontrivial(p.len() > 1);
                for (w, s) in representations(&t, &p) {
                    same_as_text(&format!("{w} {p:?}"), &*s, &t, &pos, &chars, &pats, cx)?;
                    if w == "contiguous with id" {
                        ensure_eq!(s.source_id(), Some(7), "id", "{w}");
                        ensure_eq!((&&*s as &dyn Source).source_id(), Some(7), "id", "reference to {w}");
                    }
                }
            }
            Ok(())
        },
    )];
    // real chunk boundaries (4096 bytes)
    let around: Vec<usize> = tier.pick(vec![4088, 4090, 4092, 4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193], (4080..4105).chain(8180..8205).chain(12280..12295).collect());
    let marks = ["é", "中", "😀", "ab", "é😀", "\n"];
    let m = marks.len() as u64;
    let len = around.len() as u64 * m * 3;
    let ar2 = around.clone();
    let make = move |i: u64| {
        let k = seq::digits(&[ar2.len() as u64, m, 3], i);
        let mut t = "x".repeat(ar2[k[0] as usize]);
        t.push_str(marks[k[1] as usize]);
        t.push_str(&"y".repeat([0usize, 3, 5000][k[2] as usize]));
        t
    };
    let mk2 = make.clone();
    v.push(space(
        "texts whose interesting character lies around the internal chunk size",
        len,
        move |i| {
            let t = mk2(i);
            let k = t.find(|c| c != 'x').unwrap();
            format!("x*{k} {:?} then {} bytes", &t[k..].chars().take(2).collect::<String>(), t.len() - k)
        },
        move |i, cx| {
            let t = make(i);
            let k = t.find(|c| c != 'x').unwrap();
            let mut pos: Vec<usize> = vec![0];
            for c in [k, 4096, 8192, 12288, t.len()] {
                pos.extend((c.saturating_sub(5)..=c + 5).filter(|x| *x <= t.len() && t.is_char_boundary(*x)));
            }
            pos.sort();
            pos.dedup();
            let first = t[k..].chars().next().unwrap();
            let mut pats: Vec<&str> = vec!["xx", "xy", "yx"];
            for w in pos.windows(3) {
                pats.push(&t[w[0]..w[2]]);
            }
            pats.sort();
            pats.dedup();
            let pats: Vec<&str> = pats.into_iter().filter(|p| p.len() < 40).collect();
            for p in [vec![t.clone()], vec![t[..k].to_string(), t[k..].to_string()]] {
                let p: Vec<String> = p.into_iter().filter(|x| !x.is_empty()).collect();
                cx.state(&p);
                cx.nontrivial(true);
                for (w, s) in representations(&t, &p) {
                    same_as_text(w, &*s, &t, &pos, &[first, 'y', 'z'], &pats, cx)?;
                }
            }
            Ok(())
        },
    ));
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    v.push(space("every character among others, in every cut", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
        let c = all[i as usize];
        let (one, two) = (c.to_string(), format!("{c}b"));
        cx.nontrivial(!c.is_ascii());
        for t in [format!("a{c}b"), format!("{c}\n{c}b"), format!("é{c}")] {
            cx.state(&t);
            let pos = seq::bounds(&t);
            same_as_text("str", &t.as_str(), &t, &pos, &[c, 'b'], &[&one, &two], cx)?;
            for p in seq::partitions(&t) {
                for (w, s) in representations(&t, &p) {
                    same_as_text(w, &*s, &t, &pos, &[c, 'b'], &[&one, &two], cx)?;
                }
            }
        }
        Ok(())
    }));
    // many pieces
    let mut ns = seq::sizes(40, tier.pick(512, 4096));
    ns.extend([65535, 65536, 65537]);
    let many = ns.len() as u64;
    let kinds: [&[&str]; 5] = [&["é"], &["ab"], &["\n"], &["😀", "a"], &["中", "", "xy"]];
    let make = move |i: u64| -> Vec<String> {
        let (n, k) = (ns[i as usize / 5], kinds[i as usize % 5]);
        // a lot of text comes in larger pieces
        let (n, each) = if n > 60000 { (n.div_ceil(500), 500) } else { (n, 1) };
        (0..n as usize).map(|j| k[j % k.len()].repeat(each)).collect()
    };
    let m2 = make.clone();
    v.push(space(
        "texts of many pieces: every number up to 40, and around the powers of two",
        5 * many,
        move |i| format!("{} pieces {:?}", m2(i).len(), m2(i).iter().take(3).collect::<Vec<_>>()),
        move |i, cx| {
            let p = make(i);
            let t: String = p.concat();
            let mut pos = seq::marks(&t, 3);
            if t.len() > 60000 {
                pos.retain(|a| *a < 5 || a.abs_diff(65536) < 3 || a + 5 > t.len())
            }
            cx.state(&i);
            cx.nontrivial(true);
            let last = t.chars().last().unwrap_or('a');
            let mut pats: Vec<&str> = vec!["zz"];
            for w in pos.windows(4) {
                pats.push(&t[w[0]..w[3]])
            }
            pats.sort();
            pats.dedup();
            pats.retain(|p| p.len() < 20);
            same_as_text("str", &t.as_str(), &t, &pos, &[last, 'z'], &pats, cx)?;
            for (w, s) in representations(&t, &p) {
                same_as_text(w, &*s, &t, &pos, &[last, 'z'], &pats, cx)?;
            }
            Ok(())
        },
    ));
    v
}
