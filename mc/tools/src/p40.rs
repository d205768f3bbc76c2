//! P40: comments survive formatting: every one comes out once, as a comment of its kind with its
//! own text, where and whether it is asked for.
use crate::toy::Toy;
use mc_kit::*;
use oak_pretty_print::{
    Comment, CommentCollector, CommentKind, CommentProcessor, FormatConfig, FormatContext,
    comment::{Position, SourceSpan},
};
use CommentKind::*;

const KINDS: [CommentKind; 3] = [Line, Block, Doc];
fn pos(o: usize) -> Position {
    Position { line: 0, column: o, offset: o }
}
fn span(s: usize, e: usize) -> SourceSpan {
    SourceSpan { start: pos(s), end: pos(e) }
}
fn make(k: &CommentKind, text: &str, s: usize, e: usize) -> Comment {
    match k {
        Line => Comment::line(text.into(), span(s, e)),
        Block => Comment::block(text.into(), span(s, e)),
        Doc => Comment::doc(text.into(), span(s, e)),
    }
}
fn mark(k: &CommentKind) -> &'static str {
    match k {
        Line => "//",
        Block => "/*",
        Doc => "///",
    }
}
/// Reads one comment of kind `k` and gives the text of each of its lines; `None`: it is none.
fn read(out: &str, k: &CommentKind, indent: &str) -> Option<Vec<String>> {
    match k {
        Line | Doc => {
            let mut v = vec![];
            for (i, l) in out.split('\n').enumerate() {
                // lines without anything on them are no harm
                if i > 0 && l.trim().is_empty() {
                    continue;
                }
                let l = if i > 0 { l.strip_prefix(indent)? } else { l };
                let t = l.strip_prefix(mark(k))?;
                if *k == Line && t.starts_with('/') {
                    return None;
                }
                v.push(t.to_string());
            }
            Some(v)
        }
        Block => {
            let t = out.strip_prefix("/*")?;
            let n = t.find("*/")?;
            if n + 2 != t.len() {
                return None;
            }
            Some(t[..n].split('\n').map(|l| l.to_string()).collect())
        }
    }
}
fn trimmed(v: Vec<String>) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|l| l.trim().to_string()).collect();
    while v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    while v.first().is_some_and(|l| l.is_empty()) {
        v.remove(0);
    }
    v
}
/// `out` is the formatted comment of kind `k` with the text `text`.
fn formatted(out: &str, k: &CommentKind, text: &str, indent: &str) -> Res {
    let Some(v) = read(out, k, indent) else { return fail("broken", format!("{out:?} is no {k:?} comment ({text:?}, indent {indent:?})")) };
    let want = trimmed(text.lines().map(|l| l.to_string()).collect());
    let got = if *k == Block && v.len() > 1 && !want.is_empty() {
        // every line but the first starts with a star below the first
        for l in &v[1..] {
            ensure!(l.starts_with(indent), "indent", "{l:?} in {out:?} does not start with {indent:?}");
        }
        let n = v.len();
        let mut w = vec![v[0].clone()];
        for l in &v[1..n - 1] {
            let l = l[indent.len()..].trim_start();
            let Some(l) = l.strip_prefix('*') else { return fail("broken", format!("a line without star in {out:?}")) };
            w.push(l.to_string());
        }
        w.push(v[n - 1].clone());
        w
    }
    else {
        v
    };
    ensure_eq!(trimmed(got), want, "text", "{out:?} for {k:?} {text:?} indent {indent:?}");
    Ok(())
}
/// `out` is the comment as it was.
fn verbatim(out: &str, k: &CommentKind, text: &str, indent: &str) -> Res {
    let Some(v) = read(out, k, indent) else { return fail("broken", format!("{out:?} is no {k:?} comment ({text:?} as it was)")) };
    let want: Vec<&str> = text.split('\n').collect();
    let want = if *k == Block { want } else { want.iter().enumerate().filter(|(i, l)| *i == 0 || !l.trim().is_empty()).map(|(_, l)| *l).collect() };
    let v: Vec<&str> = if *k == Block { v.iter().map(|l| l.as_str()).collect() } else { v.iter().enumerate().filter(|(i, l)| *i == 0 || !l.trim().is_empty()).map(|(_, l)| l.as_str()).collect() };
    ensure_eq!(v, want, "text", "{out:?} for {k:?} {text:?} as it was");
    Ok(())
}
static AL: &[&str] = &["a", "é", " ", "\n", "\t", "*", "/", "\r\n"];
static INDENTS: &[&str] = &["", "  ", "\t"];
/// One comment, formatted, as it was, and dropped.
fn written(k: &CommentKind, indent: &str, text: String, cx: &mut Cx) -> Res {
    // such a text ends the comment before its end; a line starting with a slash makes a doc comment
    if *k == Block && text.contains("*/") || *k == Line && text.split('\n').any(|l| l.starts_with('/')) {
        return Ok(());
    }
    // a carriage return alone ends no line
    cx.step();
    cx.state(&(format!("{k:?}"), &text));
    cx.nontrivial(text.contains('\n'));
    guarded(|| {
        let c = make(k, &text, 0, 1);
        ensure!(c == Comment::new(k.clone(), text.clone(), span(0, 1)) && !c.is_trailing && c.indent_level == 0, "new", "{c:?}");
        let c2 = c.clone().with_trailing(true).with_indent_level(3);
        ensure!(c2.is_trailing && c2.indent_level == 3 && c2.content == text && c2.kind == *k && c2.span == c.span, "with", "{c2:?}");
        formatted(&c.formatted_text(indent), k, &text, indent)?;
        for keep in [false, true] {
            for fmt in [false, true] {
                let p = CommentProcessor::new().with_preserve_comments(keep).with_format_comments(fmt);
                let v = p.process_comments(&[c.clone(), c2.clone()], indent);
                ensure_eq!(v.len(), if keep { 2 } else { 0 }, "count", "preserve {keep}, format {fmt}: {v:?}");
                for o in &v {
                    if fmt { formatted(o, k, &text, indent)? } else { verbatim(o, k, &text, indent)? }
                }
            }
        }
        Ok(())
    })
}
fn texts(d: u32) -> Box<dyn Space> {
    let r = [3, 3, seq::count_upto(AL.len() as u64, d)];
    let case = move |i: u64| {
        let g = seq::digits(&r, i);
        (&KINDS[g[0] as usize], INDENTS[g[1] as usize], seq::string(AL, d, g[2]))
    };
    space(
        format!("every text of up to {d} symbols as a comment of every kind with three indentations, formatted, as it was, and dropped"),
        seq::prod(&r),
        move |i| format!("{:?}", case(i)),
        move |i, cx| {
            let (k, indent, text) = case(i);
            written(k, indent, text, cx)
        },
    )
}
/// What the places of comments are.
#[derive(Clone, Copy)]
enum Map {
    /// characters of one line
    Columns,
    /// lines
    Lines,
    /// characters of one line, two thousand million apart
    Far,
}
impl Map {
    fn pos(self, o: usize) -> Position {
        match self {
            Map::Columns => pos(o),
            Map::Lines => Position { line: o, column: 0, offset: o * 3 },
            Map::Far => pos(o << 31),
        }
    }
    fn name(self) -> &'static str {
        match self {
            Map::Columns => "places",
            Map::Lines => "lines",
            Map::Far => "places 2^31 apart",
        }
    }
}
/// Every list of comments at small places, every question about places, every insertion.
fn places(n: u32, p: usize, map: Map) -> Box<dyn Space> {
    let spans: Vec<(usize, usize)> = (0..=p).flat_map(|s| (s..=p).map(move |e| (s, e))).collect();
    let a = spans.len() as u64 * 2;
    let case = move |i: u64| -> Vec<(usize, usize, bool)> { seq::nth(a, n, i).into_iter().map(|x| (spans[x / 2].0, spans[x / 2].1, x % 2 == 1)).collect() };
    let c2 = case.clone();
    space(
        format!("every list of up to {n} comments between {} 0 and {p}, trailing or not, as added and sorted; every range and position; every insertion with comments kept or not, formatted or not", map.name()),
        seq::count_upto(a, n),
        move |i| format!("{:?}", case(i)),
        move |i, cx| {
            let l = c2(i);
            cx.state(&l);
            cx.nontrivial(l.len() > 1);
            guarded(|| {
                let all: Vec<Comment> = l.iter().enumerate().map(|(j, &(s, e, t))| Comment { span: SourceSpan { start: map.pos(s), end: map.pos(e) }, ..make(&KINDS[j % 3], &format!("c{j}"), 0, 0) }.with_trailing(t)).collect();
                for sort in [false, true] {
                    let mut want = all.clone();
                    let mut col = CommentCollector::new();
                    ensure!(col == CommentCollector::default() && col.comments().is_empty(), "empty", "{col:?}");
                    for c in &all {
                        col.add_comment(c.clone());
                    }
                    ensure_eq!(col.comments(), &want[..], "added", "{l:?}");
                    if sort {
                        col.sort_by_position();
                        want.sort_by_key(|c| c.span.start.offset);
                        let got: Vec<usize> = col.comments().iter().map(|c| c.span.start.offset).collect();
                        ensure!(got.is_sorted() && want.iter().all(|c| col.comments().contains(c)) && got.len() == want.len(), "sorted", "{:?}", col.comments());
                        // comments at one place keep their order
                        ensure_eq!(col.comments(), &want[..], "stable", "{l:?}");
                    }
                    let pick = |f: &dyn Fn(&Comment) -> bool| want.iter().filter(|c| f(c)).collect::<Vec<_>>();
                    ensure_eq!(col.trailing_comments(), pick(&|c| c.is_trailing), "trailing", "{l:?}");
                    for s in 0..=p + 1 {
                        cx.step();
                        ensure_eq!(col.comments_before(map.pos(s)), pick(&|c| c.span.end.offset <= map.pos(s).offset), "before", "{l:?} before {s}");
                        ensure_eq!(col.comments_after(map.pos(s)), pick(&|c| c.span.start.offset >= map.pos(s).offset), "after", "{l:?} after {s}");
                        for e in 0..=p + 1 {
                            ensure_eq!(col.comments_in_range(map.pos(s), map.pos(e)), pick(&|c| c.span.start.offset >= map.pos(s).offset && c.span.end.offset <= map.pos(e).offset), "range", "{l:?} in {s}..{e}");
                        }
                    }
                    for how in 0..6 {
                        let (keep, fmt, mut pr) = match how {
                            0..4 => (how & 1 == 1, how & 2 == 2, CommentProcessor::new().with_preserve_comments(how & 1 == 1).with_format_comments(how & 2 == 2)),
                            _ => {
                                // the processor of a formatter: comments are kept whether they are formatted or not
                                let f = how == 5;
                                let cx = FormatContext::<Toy>::new(FormatConfig { format_comments: f, ..Default::default() });
                                (true, f, (*cx.comment_processor).clone())
                            }
                        };
                        *pr.collector_mut() = col.clone();
                        ensure_eq!(pr.collector(), &col, "collector", "");
                        for s in 0..=p + 1 {
                            cx.step();
                            let what = format!("{l:?} sorted {sort} at {s}, preserve {keep}, format {fmt}");
                            let line = |c: &Comment, indent: &str| {
                                if fmt { c.formatted_text(indent) } else { format!("{}{}{}", mark(&c.kind), c.content, if c.kind == Block { "*/" } else { "" }) }
                            };
                            for indent in ["", "\t"] {
                                let mut out = String::from("x\n");
                                pr.insert_comments_at_position(&mut out, map.pos(s), indent);
                                let mut w = String::from("x\n");
                                if keep {
                                    for c in want.iter().filter(|c| !c.is_trailing && c.span.end.offset <= map.pos(s).offset) {
                                        w += &format!("{indent}{}\n", line(c, indent));
                                    }
                                }
                                ensure_eq!(out, w, "insert", "{what}");
                            }
                            let mut out = String::from("x");
                            pr.insert_trailing_comment(&mut out, map.pos(s));
                            let mut w = String::from("x");
                            if keep {
                                if let Some(c) = want.iter().find(|c| c.is_trailing && c.span.start.offset >= map.pos(s).offset) {
                                    w += &format!(" {}", line(c, ""));
                                }
                            }
                            ensure_eq!(out, w, "insert_trailing", "{what}");
                        }
                    }
                    col.comments_mut().reverse();
                    want.reverse();
                    ensure_eq!(col.comments(), &want[..], "comments_mut", "{l:?}");
                    col.clear();
                    ensure!(col.comments().is_empty() && col == CommentCollector::new(), "clear", "{col:?}");
                }
                Ok(())
            })
        },
    )
}
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let ns = seq::sizes_and_64k(tier.pick(40, 70), tier.pick(512, 4096));
    let n2 = ns.clone();
    const SHAPES: [&str; 4] = ["letters", "lines", "blank lines", "comments"];
    let mut v = vec![texts(tier.pick(6, 7)), places(tier.pick(3, 4), 3, Map::Columns), places(tier.pick(2, 3), 3, Map::Lines), places(tier.pick(2, 3), 3, Map::Far)];
    v.push(space("long comments, many comments", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], SHAPES[i as usize % 4]), move |i, cx| {
        let n = ns[i as usize / 4] as usize;
        if i % 4 == 3 {
            let make_one = |j: usize| make(&KINDS[j % 3], &format!(" c{j}"), j * 7 % n.max(1) * 4, j * 7 % n.max(1) * 4 + 3).with_trailing(j % 4 == 0);
            let mut want: Vec<Comment> = (0..n).map(make_one).collect();
            let mut col = CommentCollector::new();
            for c in &want {
                col.add_comment(c.clone())
            }
            ensure_eq!(col.comments(), &want[..], "added", "{n} comments");
            col.sort_by_position();
            want.sort_by_key(|c| c.span.start.offset);
            ensure_eq!(col.comments(), &want[..], "sorted", "{n} comments");
            let p = 2 * n;
            let pick = |f: &dyn Fn(&Comment) -> bool| want.iter().filter(|c| f(c)).collect::<Vec<_>>();
            ensure_eq!(col.trailing_comments(), pick(&|c| c.is_trailing), "trailing", "{n} comments");
            ensure_eq!(col.comments_before(pos(p)), pick(&|c| c.span.end.offset <= p), "before", "{n} comments");
            ensure_eq!(col.comments_after(pos(p)), pick(&|c| c.span.start.offset >= p), "after", "{n} comments");
            ensure_eq!(col.comments_in_range(pos(1), pos(p)), pick(&|c| c.span.start.offset >= 1 && c.span.end.offset <= p), "range", "{n} comments");
            let mut pr = CommentProcessor::new().with_preserve_comments(true).with_format_comments(true);
            *pr.collector_mut() = col.clone();
            let mut out = String::new();
            pr.insert_comments_at_position(&mut out, pos(p), "  ");
            let w: String = want.iter().filter(|c| !c.is_trailing && c.span.end.offset <= p).map(|c| format!("  {}\n", c.formatted_text("  "))).collect();
            ensure_eq!(out, w, "insert", "{n} comments");
            ensure_eq!(pr.process_comments(&want, "").len(), n, "count", "{n} comments");
        }
        else {
            let text: String = match i % 4 {
                0 => (0..n).map(|k| ["a", "é", " ", "*"][k * 5 % 4]).collect(),
                1 => (0..n).map(|k| [" a\n", "é*\n", "\t b c\n"][k % 3]).collect::<String>() + "end",
                _ => "x".to_string() + &"\n".repeat(n) + "y",
            };
            for k in &KINDS {
                for indent in INDENTS {
                    formatted(&make(k, &text, 0, 1).formatted_text(indent), k, &text, indent)?;
                    let as_is = CommentProcessor::new().with_preserve_comments(true).with_format_comments(false).process_comments(&[make(k, &text, 0, 1)], indent);
                    ensure_eq!(as_is.len(), 1, "count", "as it was");
                    verbatim(&as_is[0], k, &text, indent)?
                }
            }
        }
        cx.state(&i);
        cx.steps(n as u64 / 16 + 1);
        cx.exec();
        Ok(())
    }));
    v.push(each_character("every character in a comment, at its start and its end, of every kind", tier, |c, cx| {
        for k in &KINDS {
            for text in [format!("{c}"), format!(" a{c}b\n{c}d\n{c}")] {
                written(k, "  ", text, cx)?
            }
        }
        Ok(())
    }));
    v
}
