//! P26: the pretty printer lays every document out as its groups, breaks and indentation say.
use mc_kit::*;
use oak_pretty_print::{Document, FormatConfig, IndentStyle, LineEnding};

/// A document as a flat list of leaves and brackets.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum I {
    T(&'static str),
    Nil,
    Line,
    Soft,
    SoftSpace,
    Hard,
    Group,
    Indent,
    Concat,
    End,
}
const LEAVES: [I; 11] = [I::T("a"), I::T("bbb"), I::T("é中"), I::T("c "), I::T("d\nee"), I::Line, I::Soft, I::SoftSpace, I::Hard, I::Nil, I::T("")];
const SMALL: [I; 6] = [I::T("a"), I::T("é中"), I::T("d\nee"), I::Line, I::Soft, I::Hard];

fn build(p: &[I]) -> Document<'static> {
    fn items(p: &[I], at: &mut usize) -> Vec<Document<'static>> {
        let mut v = Vec::new();
        while *at < p.len() && p[*at] != I::End {
            let i = p[*at];
            *at += 1;
            v.push(match i {
                I::T(t) => Document::text(t),
                I::Nil => Document::Nil,
                I::Line => Document::Line,
                I::Soft => Document::SoftLine,
                I::SoftSpace => Document::SoftLineSpace,
                I::Hard => Document::HardLine,
                _ => {
                    let mut inner = items(p, at);
                    *at += 1;
                    let one = if inner.len() == 1 { inner.pop().unwrap() } else { Document::concat(inner) };
                    match i {
                        I::Group => Document::group(one),
                        I::Indent => Document::indent(one),
                        _ => Document::concat(vec![one]),
                    }
                }
            })
        }
        v
    }
    Document::concat(items(p, &mut 0))
}
/// All balanced programs of exactly `n` items.
fn programs(leaves: &[I], n: usize) -> Vec<Vec<I>> {
    fn go(leaves: &[I], n: usize, open: usize, cur: &mut Vec<I>, out: &mut Vec<Vec<I>>) {
        if open > n {
            return;
        }
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for l in leaves {
            cur.push(*l);
            go(leaves, n - 1, open, cur, out);
            cur.pop();
        }
        for b in [I::Group, I::Indent] {
            cur.push(b);
            go(leaves, n - 1, open + 1, cur, out);
            cur.pop();
        }
        if open > 0 && !matches!(cur.last(), Some(I::Group | I::Indent)) {
            cur.push(I::End);
            go(leaves, n - 1, open - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(leaves, n, 0, &mut Vec::new(), &mut out);
    out
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub width: usize,
    pub tabs: bool,
    pub windows: bool,
    pub trim: bool,
    pub last: bool,
}
impl Cfg {
    pub fn config(&self) -> FormatConfig {
        let mut c = FormatConfig::new().with_indent_style(if self.tabs { IndentStyle::Tabs } else { IndentStyle::Spaces(2) }).with_line_ending(if self.windows { LineEnding::Windows } else { LineEnding::Unix }).with_max_width(self.width);
        c.trim_trailing_whitespace = self.trim;
        c.insert_final_newline = self.last;
        c
    }
}
/// What the text of a group looks like on one line: the longest line it makes from the current
/// column, the column behind it, and whether it may stay on one line at all.
struct Flat {
    /// columns used on the first line
    first: usize,
    /// (columns of the widest line after a line end inside a text, columns of the last line)
    rest: Option<(usize, usize)>,
    hard: bool,
}
fn chars(s: &str) -> usize {
    s.chars().count()
}
fn flat(p: &[I]) -> Flat {
    let mut f = Flat { first: 0, rest: None, hard: false };
    for i in p {
        let t = match i {
            I::T(t) => t,
            I::Line | I::SoftSpace => " ",
            I::Hard => {
                f.hard = true;
                ""
            }
            _ => "",
        };
        for (k, piece) in t.split('\n').enumerate() {
            if k > 0 {
                let w = f.rest.map_or(0, |r| r.0);
                f.rest = Some((w, 0));
            }
            match &mut f.rest {
                None => f.first += chars(piece),
                Some((w, l)) => {
                    *l += chars(piece);
                    *w = (*w).max(*l)
                }
            }
        }
    }
    f
}
fn matching(p: &[I], at: usize) -> usize {
    let mut depth = 0;
    for (k, i) in p.iter().enumerate().skip(at) {
        match i {
            I::Group | I::Indent | I::Concat => depth += 1,
            I::End => depth -= 1,
            _ => {}
        }
        if depth == 0 {
            return k;
        }
    }
    unreachable!()
}
pub fn reference(p: &[I], c: Cfg) -> String {
    let (unit, size) = if c.tabs { ("\t", 4) } else { ("  ", 2) };
    let eol = if c.windows { "\r\n" } else { "\n" };
    let mut lines: Vec<(String, &str)> = vec![(String::new(), "")];
    let mut column = 0usize;
    let mut level = 0usize;
    let mut broken = false;
    let mut stack: Vec<(I, bool)> = Vec::new();
    for (k, i) in p.iter().enumerate() {
        let newline = match i {
            I::Hard => true,
            I::Line | I::Soft | I::SoftSpace => broken,
            _ => false,
        };
        match i {
            _ if newline => {
                let l = lines.last_mut().unwrap();
                if c.trim {
                    l.0.truncate(l.0.trim_end_matches([' ', '\t']).len())
                }
                l.1 = eol;
                lines.push((unit.repeat(level), ""));
                column = level * size;
            }
            I::Line | I::SoftSpace => {
                lines.last_mut().unwrap().0.push(' ');
                column += 1
            }
            I::T(t) => {
                for (k, piece) in t.split('\n').enumerate() {
                    if k > 0 {
                        lines.last_mut().unwrap().1 = "\n";
                        lines.push((String::new(), ""));
                        column = 0
                    }
                    lines.last_mut().unwrap().0.push_str(piece);
                    column += chars(piece)
                }
            }
            I::Group => {
                let f = flat(&p[k + 1..matching(p, k)]);
                stack.push((*i, broken));
                broken = f.hard || column + f.first > c.width || f.rest.is_some_and(|r| r.0 > c.width);
            }
            I::Indent | I::Concat => {
                stack.push((*i, broken));
                level += (*i == I::Indent) as usize
            }
            I::End => {
                let (w, b) = stack.pop().unwrap();
                broken = b;
                level -= (w == I::Indent) as usize
            }
            _ => {}
        }
    }
    let mut out: String = lines.iter().map(|(a, b)| format!("{a}{b}")).collect();
    if c.trim {
        out.truncate(out.trim_end_matches([' ', '\t']).len())
    }
    if c.last && !out.is_empty() && !out.ends_with('\n') {
        out.push_str(eol)
    }
    out
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn run(p: &[I], widths: &[usize], cx: &mut Cx) -> Res {
    let d = build(p);
    let all: String = p.iter().map(|i| if let I::T(t) = i { *t } else { "" }).collect();
    for w in widths {
        for k in 0..5 {
            let c = Cfg { width: *w, tabs: k == 1, windows: k == 2, trim: k != 3 && k != 4, last: k != 4 && k != 1 };
            let got = d.render(c.config());
            ensure_eq!(squeeze(&got), squeeze(&all), "text", "{p:?} with {c:?}: words of the output");
            ensure_eq!(got, reference(p, c), "layout", "{p:?} with {c:?}");
            cx.step();
            if cx.state(&got) {
                cx.nontrivial(got.trim_end().contains('\n'));
            }
        }
    }
    cx.exec();
    Ok(())
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v = Vec::new();
    for (what, leaves, from, to) in [("all leaves", &LEAVES[..], 1, t.pick(5, 6)), ("six leaves", &SMALL[..], t.pick(6, 7), t.pick(7, 8))] {
        for n in from..=to {
            let all = std::sync::Arc::new(programs(leaves, n));
            let names = all.clone();
            let widths: &'static [usize] = if n >= 6 { &[0, 2, 4, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 100] };
            v.push(space(format!("documents of {n} items ({what})"), all.len() as u64, move |i| format!("{:?}", names[i as usize]), move |i, cx| run(&all[i as usize], widths, cx)));
        }
    }
    v.push(space("joined documents", 5 * 4, |i| format!("{} parts, separator {}", i / 4, i % 4), |i, cx| {
        let sep = [Document::text(","), Document::Nil, Document::HardLine, Document::concat(vec![Document::text(","), Document::Line])][(i % 4) as usize].clone();
        let parts: Vec<Document> = (0..i / 4).map(|k| Document::text(format!("p{k}"))).collect();
        let mut want = Vec::new();
        for (k, p) in parts.iter().enumerate() {
            if k > 0 {
                want.push(sep.clone())
            }
            want.push(p.clone())
        }
        let want = Document::concat(want).render(FormatConfig::new());
        use oak_pretty_print::document::JoinDoc;
        ensure_eq!(Document::join(parts.clone(), sep.clone()).render(FormatConfig::new()), want, "join", "Document::join");
        ensure_eq!(oak_pretty_print::join(parts.clone(), sep.clone()).render(FormatConfig::new()), want, "join", "join");
        ensure_eq!(parts.into_iter().join_doc(sep).render(FormatConfig::new()), want, "join", "join_doc");
        cx.exec();
        Ok(())
    }));
    let ns = seq::sizes_and_64k(t.pick(40, 70), t.pick(256, 1024));
    let n2 = ns.clone();
    const SHAPES: [&str; 6] = ["words and line ends in one group", "groups in a row", "groups in each other", "indents in each other", "lines in a row", "a long word between groups"];
    v.push(space("large documents", 6 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 6], SHAPES[i as usize % 6]), move |i, cx| {
        let n = ns[i as usize / 6] as usize;
        let leaf = |k: usize| LEAVES[k * 7 % LEAVES.len()];
        if n > 5000 && i % 6 != 5 && (i % 6 != 0 || n != 65537) {
            return Ok(());
        }
        let p: Vec<I> = match i % 6 {
            0 => [I::Group].into_iter().chain((0..n).flat_map(|k| [I::T(["a", "é中", "bbb"][k % 3]), [I::Line, I::Soft, I::SoftSpace][k % 3]])).chain([I::End]).collect(),
            1 => (0..n).flat_map(|k| [I::Group, leaf(k), I::Line, leaf(k / 2), I::End]).collect(),
            2 => (0..n).flat_map(|k| [I::Group, I::T(["a", "é中", ""][k % 3]), I::Soft]).chain((0..n).map(|_| I::End)).collect(),
            3 => (0..n).flat_map(|k| [I::Indent, leaf(k), I::Hard]).chain((0..n).flat_map(|k| [I::Hard, leaf(k), I::End])).collect(),
            4 => (0..n).flat_map(|k| [leaf(k), I::Hard]).collect(),
            _ => {
                let word: &'static str = Box::leak("é".repeat(n).into_boxed_str());
                vec![I::Group, I::T("a"), I::Line, I::Group, I::T(word), I::Soft, I::T("b"), I::End, I::Line, I::Group, I::T("c"), I::Line, I::End, I::End]
            }
        };
        run(&p, &[0, 5, n.max(1) - 1, n, n + 1, n + 2, n + 3, n + 4, 80, 120, 2 * n, 3 * n, 100000], cx)
    }));
    v.push(each_character("every character as a word, in a word, at a line's start and end", t, |c, cx| {
        let (a, b) = (keep(c.to_string()), keep(format!("x{c}é")));
        run(&[I::Group, I::T(a), I::Line, I::T(b), I::Indent, I::Hard, I::T(a), I::Hard, I::T(b), I::T(a), I::Soft, I::End, I::T(a), I::End], &[0, 2, 3, 4, 7, 12], cx)
    }));
    v
}
