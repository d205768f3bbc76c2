//! P29: what the exporters write reads back as the same text with the same styles.
use mc_kit::*;
use oak_highlight::{highlighter::HighlightSpan, *};

const CHARS: &[&str] = &["a", "<", ">", "&", "\"", "'", "\\", "\n", "\r", "\t", "\u{1}", "\u{7f}", "\u{85}", "é", "𝄞", "\u{2028}", ";"];
const COLORS: [Option<&str>; 6] = [None, Some("#FF0000"), Some("#6A9955"), Some("#123456"), Some("a\"><b x=\"&lt;"), Some("'\\\n;é")];
fn style(i: usize) -> HighlightStyle {
    let flags = i % 8;
    let c = i / 8;
    HighlightStyle { color: COLORS[c % 6].map(String::from), background_color: COLORS[c / 6 % 6].map(String::from), bold: flags & 1 != 0, italic: flags & 2 != 0, underline: flags & 4 != 0 }
}
const STYLES: usize = 8 * 36;
/// Every character with what it should look like.
type Looks = Vec<(char, Vec<String>)>;
fn read_html(mut s: &str) -> Result<Looks, String> {
    let mut out = Vec::new();
    let mut now: Vec<String> = Vec::new();
    let mut open = false;
    fn entity(s: &str) -> Option<(char, usize)> {
        for (e, c) in [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&#39;", '\'')] {
            if s.starts_with(e) {
                return Some((c, e.len()));
            }
        }
        None
    }
    while let Some(c) = s.chars().next() {
        match c {
            '<' => {
                if open {
                    s = s.strip_prefix("</span>").ok_or("markup inside a span")?;
                    open = false;
                    now.clear()
                }
                else {
                    let (class, rest) = match (s.strip_prefix("<span class=\""), s.strip_prefix("<span style=\"")) {
                        (Some(r), _) => (true, r),
                        (_, Some(r)) => (false, r),
                        _ => return Err(format!("unknown markup {s:?}")),
                    };
                    let end = rest.find('"').ok_or("open attribute")?;
                    let mut value = String::new();
                    let mut raw = &rest[..end];
                    while let Some(c) = raw.chars().next() {
                        if c == '&' {
                            let (c, n) = entity(raw).ok_or("stray & in attribute")?;
                            value.push(c);
                            raw = &raw[n..]
                        }
                        else {
                            value.push(c);
                            raw = &raw[c.len_utf8()..]
                        }
                    }
                    s = rest[end + 1..].strip_prefix('>').ok_or("markup after the attribute")?;
                    now = if class { value.split(' ').map(String::from).collect() } else { vec![value] };
                    open = true
                }
            }
            '&' => {
                let (c, n) = entity(s).ok_or("stray &")?;
                out.push((c, now.clone()));
                s = &s[n..]
            }
            '>' => return Err("stray >".into()),
            c => {
                out.push((c, now.clone()));
                s = &s[c.len_utf8()..]
            }
        }
    }
    if open { Err("span never ends".into()) } else { Ok(out) }
}
fn inline(s: &HighlightStyle) -> Vec<String> {
    let mut v = Vec::new();
    v.extend(s.color.iter().map(|c| format!("color: {c}")));
    v.extend(s.background_color.iter().map(|c| format!("background-color: {c}")));
    v.extend(s.bold.then(|| "font-weight: bold".to_string()));
    v.extend(s.italic.then(|| "font-style: italic".to_string()));
    v.extend(s.underline.then(|| "text-decoration: underline".to_string()));
    if v.is_empty() { v } else { vec![v.join("; ")] }
}
fn classes(s: &HighlightStyle) -> Vec<String> {
    [(s.bold, "bold"), (s.italic, "italic"), (s.underline, "underline")].into_iter().filter(|x| x.0).map(|x| x.1.to_string()).collect()
}
fn codes(s: &HighlightStyle) -> Vec<String> {
    let mut v: Vec<&str> = Vec::new();
    v.extend(s.bold.then_some("1"));
    v.extend(s.italic.then_some("3"));
    v.extend(s.underline.then_some("4"));
    v.extend(s.color.as_deref().map(|c| match c {
        "#FF0000" | "#F44747" | "#DC322F" | "#FF5555" => "31",
        "#00FF00" | "#6A9955" | "#859900" => "32",
        "#FFFF00" | "#F1FA8C" | "#E6DB74" => "33",
        "#0000FF" | "#569CD6" | "#005CC5" => "34",
        "#FF00FF" | "#FF79C6" | "#D73A49" => "35",
        "#00FFFF" | "#9CDCFE" | "#2AA198" => "36",
        _ => "37",
    }));
    v.into_iter().map(String::from).collect()
}
fn read_ansi(s: &str) -> Result<Looks, String> {
    let mut out = Vec::new();
    let mut now: Vec<String> = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            out.push((c, now.clone()));
            continue;
        }
        if it.next() != Some('[') {
            return Err("escape without [".into());
        }
        let seq: String = it.by_ref().take_while(|c| *c != 'm').collect();
        for code in seq.split(';') {
            match code {
                "0" => now.clear(),
                "1" | "3" | "4" => now.push(code.into()),
                c if c.len() == 2 && c.starts_with('3') => now.push(code.into()),
                _ => return Err(format!("code {code:?}")),
            }
        }
    }
    if now.is_empty() { Ok(out) } else { Err(format!("{now:?} stays on at the end")) }
}
fn looks(r: &HighlightResult, f: impl Fn(&HighlightStyle) -> Vec<String>) -> Looks {
    r.segments.iter().flat_map(|s| { let l = f(&s.style); s.text.chars().map(move |c| (c, l.clone())).collect::<Vec<_>>() }).collect()
}
fn equal(a: &HighlightResult, b: &HighlightResult) -> bool {
    a.source == b.source && a.segments.len() == b.segments.len() && a.segments.iter().zip(&b.segments).all(|(x, y)| x.span == y.span && x.style == y.style && x.text == y.text)
}
/// A result whose segments are some pieces of the text, in any order.
fn parts_of(source: &str, cuts: &[(usize, usize)], cx: &mut Cx) -> Res {
    let segments = cuts.iter().enumerate().map(|(i, &(start, end))| HighlightSegment { span: HighlightSpan { start, end }, style: style(i * 37 % STYLES), text: source[start..end].to_string().into() }).collect();
    check_result(&HighlightResult { segments, source: source.to_string().into() }, cx)
}
fn check(parts: &[(String, HighlightStyle)], cx: &mut Cx) -> Res {
    let source: String = parts.iter().map(|p| &p.0[..]).collect();
    let mut at = 0;
    let r = HighlightResult {
        segments: parts
            .iter()
            .map(|(t, s)| {
                let span = HighlightSpan { start: at, end: at + t.len() };
                at += t.len();
                HighlightSegment { span, style: s.clone(), text: t.clone().into() }
            })
            .collect(),
        source: source.clone().into(),
    };
    check_result(&r, cx)
}
fn check_result(r: &HighlightResult, cx: &mut Cx) -> Res {
    let source = &r.source;
    for css in [false, true] {
        for inl in [false, true] {
            let got = HtmlExporter::new(css, inl).export(r);
            let mut body = &got[..];
            if css {
                let end = body.find("</style>\n").ok_or_else(|| Fail { kind: "html".into(), detail: got.clone() })?;
                let block = &body[..end];
                ensure!(block.starts_with("<style>") && !block[7..].contains('<'), "html", "style block {block:?}");
                for c in ["bold", "italic", "underline"] {
                    ensure!(block.contains(&format!(".highlight .{c} {{")), "css", "no rule for {c}");
                }
                body = &body[end + 9..]
            }
            let Some(body) = body.strip_prefix("<div class=\"highlight\">").and_then(|b| b.strip_suffix("</div>"))
            else {
                return fail("html", format!("no frame: {got:?}"));
            };
            match read_html(body) {
                Err(e) => return fail("html", format!("{e}: {got:?}")),
                Ok(l) => ensure_eq!(l, looks(r, if inl { inline } else { classes }), "html", "{got:?}"),
            }
            cx.step()
        }
    }
    for pretty in [false, true] {
        let got = JsonExporter { pretty }.export(r);
        match serde_json::from_str::<HighlightResult>(&got) {
            Err(e) => return fail("json", format!("{e}: {got:?}")),
            Ok(b) => ensure!(equal(r, &b), "json", "{got} reads back as {b:?}"),
        }
        cx.step()
    }
    let own = serde_json::to_string(r).unwrap();
    ensure!(serde_json::from_str::<HighlightResult>(&own).is_ok_and(|b| equal(r, &b)), "serde", "{own}");
    if !source.contains('\x1b') {
        let got = AnsiExporter.export(r);
        match read_ansi(&got) {
            Err(e) => return fail("ansi", format!("{e}: {got:?}")),
            Ok(l) => ensure_eq!(l, looks(r, codes), "ansi", "{got:?}"),
        }
    }
    cx.state(&source[..]);
    cx.nontrivial(source.chars().any(|c| !c.is_alphanumeric()));
    cx.exec();
    Ok(())
}
/// Pieces of texts that are spelled like what writers make of others.
const WRITTEN: &[&str] = &["&", "<", "lt;", "amp;", "#39;", "\\", "u0041", "n", "\"", "[0m"];
const SHORT: &str = "a<é\"b&\n";
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = t.pick(5, 6);
    let few: &'static [&'static str] = &["<", "&", "\"", "\\", "é"];
    let cuts = seq::count_upto(few.len() as u64, 4);
    let ends: Vec<usize> = (0..=SHORT.len()).filter(|e| SHORT.is_char_boundary(*e)).collect();
    let pairs: &'static Vec<(usize, usize)> = Box::leak(Box::new(ends.iter().flat_map(|a| ends.iter().filter(move |b| a <= *b).map(move |b| (*a, *b))).collect()));
    vec![
        space("texts", seq::count_upto(CHARS.len() as u64, n), move |i| format!("{:?}", seq::string(CHARS, n, i)), move |i, cx| {
            let s = seq::string(CHARS, n, i);
            check(&[(s, style(i as usize % STYLES))], cx)
        }),
        space("texts that look written already", seq::count_upto(WRITTEN.len() as u64, 4), move |i| format!("{:?}", seq::string(WRITTEN, 4, i)), move |i, cx| {
            let s = seq::string(WRITTEN, 4, i);
            check(&[(s, style(i as usize % STYLES)), ("lt;".into(), style(1))], cx)
        }),
        space("one style", STYLES as u64 * cuts, move |i| format!("{:?} as {:?}", seq::string(few, 4, i % cuts), style((i / cuts) as usize)), move |i, cx| check(&[(seq::string(few, 4, i % cuts), style((i / cuts) as usize))], cx)),
        space("two styles", (STYLES * STYLES) as u64, |i| format!("{:?}, {:?}", style(i as usize % STYLES), style(i as usize / STYLES)), |i, cx| {
            check(&[("<a".into(), style(i as usize % STYLES)), ("".into(), style((i as usize + 1) % 8)), ("\"&".into(), style(i as usize / STYLES))], cx)
        }),
        space("every character", t.pick(0x3000, 0x110000), |i| format!("U+{i:04X}"), |i, cx| match char::from_u32(i as u32) {
            Some(c) => check(&[("x".into(), style(0)), (c.to_string(), style(i as usize % STYLES)), (format!("{c}y"), style(8))], cx),
            None => Ok(()),
        }),
        space("some of the text", (pairs.len() as u64).pow(2) + 1, move |i| if i == 0 { "none".into() } else { format!("{:?}, {:?}", pairs[(i - 1) as usize / pairs.len()], pairs[(i - 1) as usize % pairs.len()]) }, move |i, cx| match i {
            0 => parts_of(SHORT, &[], cx),
            i => parts_of(SHORT, &[pairs[(i - 1) as usize / pairs.len()], pairs[(i - 1) as usize % pairs.len()]], cx),
        }),
        space("colours", 26 * 8, |i| format!("colour {} flags {}", i / 8, i % 8), |i, cx| {
            const C: [&str; 26] = [
                "#FF0000", "#F44747", "#DC322F", "#FF5555", "#00FF00", "#6A9955", "#859900", "#FFFF00", "#F1FA8C", "#E6DB74", "#0000FF", "#569CD6", "#005CC5", "#FF00FF", "#FF79C6", "#D73A49", "#00FFFF", "#9CDCFE", "#2AA198", "", "#", "#F", "#FF00000", "<", "red", "é",
            ];
            let mut s = style(i as usize % 8);
            s.color = Some(C[i as usize / 8].into());
            check(&[("a".into(), crate::p28::PLAIN), ("b".into(), s), ("c".into(), crate::p28::PLAIN)], cx)
        }),
        space("straight to a format", seq::count_upto(CHARS.len() as u64, 2) * 3, |i| format!("{:?}", seq::string(CHARS, 2, i / 3)), |i, cx| {
            let s = seq::string(CHARS, 2, i / 3);
            let t = [Theme::Default, Theme::OneDarkPro, Theme::OneLight][(i % 3) as usize];
            let h = OakHighlighter::new();
            let r = h.highlight(&s, "x", t).unwrap();
            let want = [
                (ExportFormat::Html, Some(HtmlExporter::new(true, true).export(&r))),
                (ExportFormat::Json, Some(JsonExporter { pretty: true }.export(&r))),
                (ExportFormat::Ansi, Some(AnsiExporter.export(&r))),
                (ExportFormat::Css, Some(CssExporter.export(&r))),
                (ExportFormat::Xml, None),
            ];
            for (f, w) in want {
                ensure_eq!(h.highlight_format(&s, "x", t, f).ok(), w, "format", "{f:?}");
                cx.step()
            }
            cx.exec();
            Ok(())
        }),
        {
            let ns = seq::sizes_and_64k(t.pick(40, 70), t.pick(1 << 14, 1 << 16));
            let n2 = ns.clone();
            space("long texts, many segments", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], ["characters that need care", "letters and a character at the end", "segments", "segments with gaps"][i as usize % 4]), move |i, cx| {
                let n = ns[i as usize / 4] as usize;
                match i % 4 {
                    0 => check(&[((0..n).map(|k| CHARS[k % CHARS.len()]).collect(), style(n % STYLES))], cx),
                    1 => {
                        for c in ["<", "\"", "\n", "\u{1}", "é", "𝄞"] {
                            check(&[("a".repeat(n) + c, style(n % STYLES)), (c.to_string() + &"b".repeat(n), style(1))], cx)?
                        }
                        Ok(())
                    }
                    2 if n <= 4200 => check(&(0..n).map(|k| (CHARS[k % CHARS.len()].to_string(), style(k * 5 % STYLES))).collect::<Vec<_>>(), cx),
                    3 if n <= 4200 => {
                        let s = "é<".repeat(n);
                        parts_of(&s, &(0..n).map(|k| (k * 3, k * 3 + 2)).collect::<Vec<_>>(), cx)
                    }
                    _ => Ok(()),
                }
            })
        },
    ]
}
