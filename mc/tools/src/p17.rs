//! P17: offsets and (line, UTF-16 column) positions agree with the text, for every small text,
//! however it is stored, every offset and every position.
use mc_kit::*;
use oak_core::source::{Source, SourceText, ChunkedBuffer, RopeBuffer};
use oak_vfs::{LineMap, MemoryVfs, Vfs};

struct Model {
    text: String,
    starts: Vec<usize>,
}
impl Model {
    fn new(text: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1)
            }
        }
        Model { text: text.into(), starts }
    }
    fn end(&self, line: usize) -> usize {
        self.starts.get(line + 1).copied().unwrap_or(self.text.len())
    }
    fn units(&self, a: usize, b: usize) -> u32 {
        self.text[a..b].chars().map(|c| c.len_utf16() as u32).sum()
    }
    fn position(&self, offset: usize) -> (u32, u32) {
        let o = offset.min(self.text.len());
        let line = self.starts.iter().filter(|s| **s <= o).count() - 1;
        (line as u32, self.units(self.starts[line], o))
    }
    /// The acceptable offsets of a position.
    fn offsets(&self, line: u32, col: u32) -> Vec<usize> {
        let l = line as usize;
        if l >= self.starts.len() {
            return vec![self.text.len()];
        }
        let (a, e) = (self.starts[l], self.end(l));
        let content = self.text[a..e].trim_end_matches('\n').len() + a;
        let bare = self.text[a..content].trim_end_matches('\r').len() + a;
        let mut u = 0;
        let mut before = a;
        for (p, c) in self.text[a..].char_indices().map(|(i, c)| (a + i, c.len_utf16() as u32)).chain([(self.text.len(), 0)]).take_while(|x| x.0 <= content) {
            if u == col {
                return vec![p];
            }
            if u > col {
                // inside a surrogate pair: either end of the character
                return vec![before, p];
            }
            before = p;
            u += c
        }
        // behind the line: its end, before or after a carriage return
        (bare..=content).collect()
    }
}

fn agree<S: Source + ?Sized>(what: &str, s: &S, map: &LineMap, m: &Model, cx: &mut Cx) -> Res {
    let n = m.text.len();
    ensure_eq!(map.line_count(), m.starts.len(), "lines", "{what} line_count");
    for l in 0..m.starts.len() + 2 {
        ensure_eq!(map.line_start(l as u32), m.starts.get(l).copied(), "lines", "{what} line_start({l})");
        ensure_eq!(map.line_end(l as u32), m.starts.get(l).map(|_| m.end(l)), "lines", "{what} line_end({l})");
        cx.step();
    }
    for o in 0..n + 3 {
        if !m.text.is_char_boundary(o.min(n)) {
            // not a position, but not a reason to give up either
            let (l, _) = map.offset_to_line_col_utf16(s, o);
            ensure_eq!(l, m.starts.iter().filter(|s| **s <= o).count() as u32 - 1, "position", "{what} line of offset {o} inside a character");
            continue;
        }
        let got = map.offset_to_line_col_utf16(s, o);
        ensure_eq!(got, m.position(o), "position", "{what} offset_to_line_col({o})");
        ensure_eq!(map.line_col_utf16_to_offset(s, got.0, got.1), o.min(n), "roundtrip", "{what} back from {got:?}");
        cx.steps(2);
    }
    for l in (0..m.starts.len() as u32 + 2).chain([u32::MAX]) {
        for c in (0..m.text.len() as u32 + 3).chain([u32::MAX]) {
            let got = map.line_col_utf16_to_offset(s, l, c);
            let want = m.offsets(l, c);
            ensure!(want.contains(&got), "offset", "{what} line_col_to_offset({l}, {c}): code gave {got}, expected one of {want:?}");
            cx.step();
        }
    }
    Ok(())
}

fn run(text: &str, cx: &mut Cx) -> Res {
    let m = Model::new(text);
    let whole = SourceText::new(text);
    agree("SourceText", &whole, &LineMap::from_source(&whole), &m, cx)?;
    agree("str", text, &LineMap::from_source(text), &m, cx)?;
    let vfs = MemoryVfs::new();
    vfs.write_file("u", text);
    match vfs.line_map("u") {
        Some(lm) => agree("vfs", &vfs.get_source("u").unwrap(), &lm, &m, cx)?,
        None => return fail("vfs", "no line map for a file that exists"),
    }
    for p in seq::partitions(text) {
        let mut r = ChunkedBuffer::new();
        for piece in &p {
            r.push_str(piece);
        }
        agree("chunked", &r, &LineMap::from_source(&r), &m, cx)?;
        cx.exec();
    }
    cx.state(text);
    cx.nontrivial(text.contains('\n'));
    Ok(())
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    const A: [&str; 6] = ["a", "é", "中", "𝄞", "\n", "\r"];
    let d = t.pick(6, 7);
    let mut v = vec![space("texts", seq::count_upto(6, d), move |i| format!("{:?}", seq::string(&A, d, i)), move |i, cx| run(&seq::string(&A, d, i), cx))];
    // lines around the internal chunk size of buffers
    let big: Vec<String> = {
        let mut v = Vec::new();
        for n in [1022usize, 1023, 1024, 1025, 4094, 4095, 4096, 4097] {
            for tail in ["\n", "é\n", "\n\n", "𝄞\r\nb", "\nb\n", ""] {
                v.push(format!("{}{tail}", "x".repeat(n)));
                v.push(format!("{}{tail}{}", "y\n".repeat(n / 2), "z".repeat(1030)))
            }
        }
        v
    };
    let names = big.clone();
    v.push(space("long texts", big.len() as u64, move |i| format!("{} bytes ending {:?}", names[i as usize].len(), names[i as usize].chars().rev().take(6).collect::<Vec<_>>()), move |i, cx| {
        let text = &big[i as usize];
        let m = Model::new(text);
        let s = SourceText::new(text.as_str());
        let r = RopeBuffer::new(text.as_str());
        let mut c = ChunkedBuffer::new();
        for piece in seq::pieces(text, 700) {
            c.push_str(&piece)
        }
        for (what, a) in [("SourceText", LineMap::from_source(&s)), ("rope", LineMap::from_source(&r)), ("chunked", LineMap::from_source(&c))] {
            ensure_eq!(a.line_count(), m.starts.len(), "lines", "{what} line_count");
            for l in 0..m.starts.len() {
                ensure_eq!(a.line_start(l as u32), Some(m.starts[l]), "lines", "{what} line_start({l})");
                cx.step();
            }
            for o in (text.len().saturating_sub(1034)..=text.len()).chain(1018..1030).filter(|o| text.is_char_boundary(*o)) {
                let got = match what {
                    "rope" => a.offset_to_line_col_utf16(&r, o),
                    "chunked" => a.offset_to_line_col_utf16(&c, o),
                    _ => a.offset_to_line_col_utf16(&s, o),
                };
                ensure_eq!(got, m.position(o), "position", "{what} offset_to_line_col({o})");
                cx.step();
            }
        }
        cx.exec();
        Ok(())
    }));
    const UNITS: [&str; 9] = ["a\n", "é\r\n", "𝄞", "中𝄞a", "\n", "\r", "x", "ab𝄞é\n\n", "é"];
    let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes_and_64k(40, t.pick(4096, 16384))));
    v.push(space(
        "many lines and long lines: every number up to 40 and around the powers of two",
        UNITS.len() as u64 * 2 * ns.len() as u64,
        |i| format!("{:?} {} times{}", UNITS[i as usize % 9], ns[i as usize / 18], ["", ", then a line"][i as usize / 9 % 2]),
        |i, cx| {
            let text = UNITS[i as usize % 9].repeat(ns[i as usize / 18] as usize) + ["", "\n𝄞z"][i as usize / 9 % 2];
            let m = Model::new(&text);
            let s = SourceText::new(text.as_str());
            let r = RopeBuffer::new(text.as_str());
            let mut c = ChunkedBuffer::new();
            for piece in seq::pieces(&text, 333) {
                c.push_str(&piece)
            }
            let all: [(&str, &dyn Source); 3] = [("SourceText", &s), ("rope", &r), ("chunked", &c)];
            cx.state(&i);
            cx.nontrivial(true);
            for (what, a) in all {
                let map = LineMap::from_source(a);
                ensure_eq!(map.line_count(), m.starts.len(), "lines", "{what} line_count");
                for l in 0..m.starts.len() + 2 {
                    ensure_eq!(map.line_start(l as u32), m.starts.get(l).copied(), "lines", "{what} line_start({l})");
                    ensure_eq!(map.line_end(l as u32), m.starts.get(l).map(|_| m.end(l)), "lines", "{what} line_end({l})");
                }
                for o in seq::marks(&text, 2).into_iter().chain([text.len() + 1]) {
                    let want = m.position(o);
                    cx.steps(4);
                    ensure_eq!(map.offset_to_line_col_utf16(a, o), want, "position", "{what} offset_to_line_col({o})");
                    ensure_eq!(map.line_col_utf16_to_offset(a, want.0, want.1), o.min(text.len()), "roundtrip", "{what} back from {want:?}");
                    // the columns around, and far behind
                    for k in [want.1 + 1, want.1 + 2, want.1 * 2, u32::MAX] {
                        let got = map.line_col_utf16_to_offset(a, want.0, k);
                        let ok = m.offsets(want.0, k);
                        ensure!(ok.contains(&got), "offset", "{what} line_col_to_offset({}, {k}): code gave {got}, expected one of {ok:?}", want.0);
                    }
                }
            }
            cx.exec();
            Ok(())
        },
    ));
    v.push(each_character("every character at a line's start, in it and at its end", t, |c, cx| run(&format!("{c}\n{c}a\r\n{c}"), cx)));
    v
}
