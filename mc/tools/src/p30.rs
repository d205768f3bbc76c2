//! P30: a diagnostic points, in every output format, at exactly the place its label names.
use core::range::Range;
use mc_kit::*;
use oak_core::{
    errors::{OakError, OakErrorKind},
    source::{ChunkedBuffer, Source, SourceText},
};
use oak_diagnostic::*;
use std::collections::HashMap;

const CHARS: &[&str] = &["a", "\n", "é", "<", "𝄞", "\r\n"];
fn source(text: &str, chunk: usize) -> Box<dyn Source> {
    if chunk == 0 {
        return Box::new(SourceText::new(text.to_string()));
    }
    let mut b = ChunkedBuffer::new();
    for p in seq::pieces(text, chunk) {
        b.push_str(&p)
    }
    Box::new(b)
}
struct Place {
    line: usize,
    col: usize,
    utf16: usize,
}
fn place(text: &str, o: usize) -> Place {
    let line = text[..o].matches('\n').count();
    let start = text[..o].rfind('\n').map_or(0, |p| p + 1);
    let s = &text[start..o];
    Place { line, col: s.chars().count(), utf16: s.encode_utf16().count() }
}
fn lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split('\n').collect();
    let last = v.len() - 1;
    for l in &mut v[..last] {
        *l = l.strip_suffix('\r').unwrap_or(l)
    }
    v
}
/// One row of a snippet: exactly this, or starting and ending so.
#[derive(Debug)]
enum Row {
    Is(String),
    Around(String, String),
}
struct Chars {
    vbar: &'static str,
    ltop: &'static str,
    lbot: &'static str,
    gap: &'static str,
}
fn snippet(text: &str, l: &Label, uri: Option<&str>, c: &Chars) -> Vec<Row> {
    let (a, b) = (place(text, l.span.start), place(text, l.span.end));
    let all = lines(text);
    let w = (b.line + 1).to_string().len();
    let pad = " ".repeat(w);
    let msg = l.message.as_ref().map_or(String::new(), |m| format!(" {m}"));
    let mut rows = vec![Row::Is(format!("  {} at {}:{}:{}", c.ltop, uri.unwrap_or("<anonymous>"), a.line + 1, a.col + 1)), Row::Is(format!("{pad} {}", c.vbar))];
    if a.line == b.line {
        rows.push(Row::Is(format!("{:>w$} {} {}", a.line + 1, c.vbar, all[a.line])));
        let n = text[l.span].chars().count().max(1);
        rows.push(Row::Is(format!("{pad} {} {}{}{msg}", c.vbar, " ".repeat(a.col), "^".repeat(n))))
    }
    else {
        for i in a.line..=b.line {
            let mark = if i == a.line { c.ltop } else { c.vbar };
            rows.push(Row::Is(format!("{:>w$} {} {mark}{}{}", i + 1, c.vbar, c.gap, all[i])))
        }
        rows.push(Row::Around(format!("{pad} {} {}", c.vbar, c.lbot), format!("^{msg}")))
    }
    rows.push(Row::Is(format!("{pad} {}", c.vbar)));
    rows
}
fn header(d: &Diagnostic, message: &str) -> String {
    let sev = match d.severity {
        Severity::Error => "error",
        Severity::Warning => "warning",
        Severity::Advice => "advice",
    };
    format!("[{}] {message}", d.code.as_deref().unwrap_or(sev))
}
fn match_rows(got: &str, want: &[Row], what: &str) -> Res {
    let got: Vec<&str> = got.split('\n').collect();
    ensure!(
        got.len() == want.len()
            && got.iter().zip(want).all(|(g, w)| match w {
                Row::Is(s) => g == s,
                Row::Around(a, b) => g.starts_with(a) && g.ends_with(b) && g.len() >= a.len() + b.len(),
            }),
        "rows",
        "{what}: got {got:#?}, expected {want:#?}"
    );
    Ok(())
}
/// Removes the colours; every row has to end without one.
fn plain(s: &str, color: &str) -> Result<String, String> {
    let mut out = String::new();
    for (i, row) in s.split('\n').enumerate() {
        if i > 0 {
            out.push('\n')
        }
        let mut on = false;
        let mut rest = row;
        while let Some(p) = rest.find('\x1b') {
            out.push_str(&rest[..p]);
            let e = rest[p..].find('m').ok_or("open escape")? + p;
            let code = &rest[p..=e];
            match code {
                "\x1b[0m" => on = false,
                "\x1b[31;1m" | "\x1b[33;1m" | "\x1b[36;1m" | "\x1b[34m" => on = true,
                c if c == color => on = true,
                c => return Err(format!("unknown colour {c:?}")),
            }
            rest = &rest[e + 1..]
        }
        out.push_str(rest);
        if on {
            return Err(format!("row {row:?} stays coloured"));
        }
    }
    Ok(out)
}
/// Removes the markup, which has to be well formed and of four kinds.
fn bare(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut open: Vec<&str> = Vec::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => {
                let e = rest.find('>').ok_or("open tag")?;
                let tag = &rest[1..e];
                if let Some(t) = tag.strip_prefix('/') {
                    if open.pop() != Some(t) {
                        return Err(format!("</{t}> closes nothing"));
                    }
                }
                else {
                    let (name, attr) = tag.split_once(' ').unwrap_or((tag, ""));
                    if !["div", "span", "pre", "code"].contains(&name) || !(attr.is_empty() || attr.starts_with("class=\"") && attr.matches('"').count() == 2 && attr.ends_with('"')) {
                        return Err(format!("<{tag}>"));
                    }
                    open.push(name)
                }
                rest = &rest[e + 1..]
            }
            '&' => {
                let (e, c) = [("&lt;", '<'), ("&gt;", '>'), ("&amp;", '&'), ("&quot;", '"'), ("&#39;", '\'')].into_iter().find(|(e, _)| rest.starts_with(e)).ok_or("stray &")?;
                out.push(c);
                rest = &rest[e.len()..]
            }
            '>' | '"' => return Err(format!("stray {c}")),
            c => {
                out.push(c);
                rest = &rest[c.len_utf8()..]
            }
        }
    }
    if open.is_empty() { Ok(out) } else { Err(format!("{open:?} never close")) }
}
struct Upper;
impl Localizer for Upper {
    fn localize(&self, key: &str, args: &HashMap<String, String>) -> String {
        let mut a: Vec<_> = args.iter().collect();
        a.sort();
        format!("{key} {a:?}").to_uppercase()
    }
}
const UNI: Chars = Chars { vbar: "│", ltop: "┌", lbot: "└", gap: "" };
const ASC: Chars = Chars { vbar: "|", ltop: "/", lbot: "|", gap: "" };
fn expected(text: &str, d: &Diagnostic, message: &str, uri: Option<&str>, c: &Chars) -> Vec<Row> {
    let mut v = vec![Row::Is(header(d, message))];
    for l in &d.labels {
        v.extend(snippet(text, l, uri, c))
    }
    if let Some(h) = &d.help {
        v.extend([Row::Is("".into()), Row::Is(format!("help: {h}"))])
    }
    v.push(Row::Is("".into()));
    v
}
fn render<E: Emitter>(e: &E, s: &dyn Source, d: &Diagnostic, local: bool, uri: Option<&str>) -> String {
    if !local && uri.is_none() {
        return e.render(s, d);
    }
    e.render_localized(s, d, local.then_some(&Upper), uri)
}
fn check(text: &str, d: &Diagnostic, local: bool, uri: Option<&str>, chunks: usize, cx: &mut Cx) -> Res {
    let s = source(text, chunks);
    let message = match (&d.i18n_key, local) {
        (Some(k), true) => Upper.localize(k, &d.i18n_args),
        _ => d.message.clone(),
    };
    let what = format!("{text:?} {d:?}");
    for (unicode, c) in [(true, &UNI), (false, &ASC)] {
        let got = render(&PlainTextEmitter { unicode }, &*s, d, local, uri);
        match_rows(&got, &expected(text, d, &message, uri, c), &format!("plain {what}"))?;
        let got = render(&ConsoleEmitter { unicode }, &*s, d, local, uri);
        let color = d.labels.iter().find_map(|l| l.color.as_deref()).unwrap_or("\x1b[0m");
        let got = plain(&got, color).map_err(|e| Fail { kind: "colours".into(), detail: format!("{e}: {got:?}") })?;
        match_rows(&got, &expected(text, d, &message, uri, &Chars { gap: " ", ..*c }), &format!("console {what}"))?;
        cx.step()
    }
    let html = render(&HtmlEmitter, &*s, d, local, uri);
    let got = bare(&html).map_err(|e| Fail { kind: "markup".into(), detail: format!("{e}: {html}") })?;
    // the rows of the snippets stand in <code>, all else is indented freely
    let mut rest = &html[..];
    for l in &d.labels {
        let Some((a, b)) = rest.split_once("<pre><code>").and_then(|(_, r)| r.split_once("</code>"))
        else {
            return fail("rows", format!("html {what}: no snippet in {html}"));
        };
        match bare(a) {
            Ok(a) => {
                let mut want = snippet(text, l, uri, &UNI);
                let Row::Is(at) = want.remove(0)
                else {
                    unreachable!()
                };
                ensure!(got.contains(&at), "rows", "html {what}: no {at:?} in {got}");
                want.push(Row::Is("".into()));
                match_rows(&a, &want, &format!("html {what}"))?
            }
            Err(e) => return fail("markup", e),
        }
        rest = b
    }
    ensure!(!rest.contains("<code>"), "rows", "html {what}: more snippets than labels");
    ensure!(got.contains(&header(d, &message)), "header", "html {what}: {got}");
    if let Some(h) = &d.help {
        ensure!(got.contains(&format!("help: {h}")), "help", "html {what}: {got}");
    }
    let lsp = render(&LspEmitter, &*s, d, local, uri);
    let Ok(got) = serde_json::from_str::<serde_json::Value>(&lsp)
    else {
        return fail("json", lsp);
    };
    let range = |l: &Label| {
        let (a, b) = (place(text, l.span.start), place(text, l.span.end));
        serde_json::json!({"start": {"line": a.line, "character": a.utf16}, "end": {"line": b.line, "character": b.utf16}})
    };
    let zero = serde_json::json!({"line": 0, "character": 0});
    let want = serde_json::json!({
        "range": d.labels.first().map_or(serde_json::json!({"start": zero, "end": zero}), range),
        "severity": match d.severity { Severity::Error => 1, Severity::Warning => 2, Severity::Advice => 3 },
        "code": d.code.clone().unwrap_or_default(),
        "source": "oak",
        "message": message,
        "relatedInformation": d.labels.iter().filter(|l| l.message.is_some()).map(|l| serde_json::json!({"location": {"uri": uri.unwrap_or(""), "range": range(l)}, "message": l.message})).collect::<Vec<_>>(),
    });
    ensure_eq!(got, want, "lsp", "{what}");
    let back: Diagnostic = serde_json::from_str(&serde_json::to_string(d).unwrap()).map_err(|e| Fail { kind: "serde".into(), detail: e.to_string() })?;
    ensure_eq!(serde_json::to_value(&back).unwrap(), serde_json::to_value(d).unwrap(), "serde", "round trip");
    ensure_eq!((back.i18n_args.clone(), back.severity, back.labels.len()), (d.i18n_args.clone(), d.severity, d.labels.len()), "serde", "round trip");
    cx.step();
    if cx.state(&html) {
        cx.nontrivial(!d.labels.is_empty());
    }
    cx.exec();
    Ok(())
}
fn spans(text: &str) -> Vec<Range<usize>> {
    let b = seq::bounds(text);
    b.iter().enumerate().flat_map(|(i, s)| b[i..].iter().map(move |e| Range { start: *s, end: *e })).collect()
}
fn errors(offset: usize) -> Vec<(OakError, bool, Option<(&'static str, &'static str)>)> {
    vec![
        (OakError::syntax_error("m", offset, Some(3)), true, None),
        (OakError::unexpected_character('é', offset, None), true, None),
        (OakError::unexpected_token("tok", offset, None), true, Some(("token", "tok"))),
        (OakError::unexpected_eof(offset, None), true, None),
        (OakError::expected_token("exp", offset, None), true, Some(("expected", "exp"))),
        (OakError::expected_name("kind", offset, Some(1)), true, Some(("name_kind", "kind"))),
        (OakError::trailing_comma_not_allowed(offset, None), true, None),
        (OakError::custom_error("c"), false, None),
        (OakErrorKind::InvalidTheme { message: "x".into() }.into(), false, None),
        (OakErrorKind::SemanticError { message: "x".into() }.into(), false, None),
        (OakErrorKind::ParseError { message: "x".into() }.into(), false, None),
        (OakError::io_error(std::io::Error::other("gone"), 7), false, None),
    ]
}
/// A provider with one diagnostic and no list of its own.
struct Silent;
impl OakDiagnosticsProvider<crate::toy::Toy> for Silent {
    fn emit_diagnostics<S: Source + ?Sized>(&self, _: &str, _: &oak_core::tree::RedNode<crate::toy::Toy>, _: &S) -> Vec<Diagnostic> {
        vec![Diagnostic::error("one")]
    }
}
/// Pieces of texts that are spelled like what writers make of others.
const WRITTEN: &[&str] = &["&", "<", "lt;", "amp;", "#39;", "\\", "u0041", "\""];
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = t.pick(5, 6);
    let count = CHARS.len() as u64;
    let text = move |i: u64| seq::string(CHARS, n, i);
    vec![
        space("texts, every span", seq::count_upto(count, n), move |i| format!("{:?}", text(i)), move |i, cx| {
            let text = text(i);
            for (k, span) in spans(&text).into_iter().enumerate() {
                let mut d = if k % 2 == 0 { Diagnostic::error("no <b>") } else { Diagnostic::warning("odd & 'end'") };
                if k % 3 == 0 {
                    d = d.with_label(span, "here <i>")
                }
                else {
                    d.labels.push(Label { message: None, span, color: (k % 3 == 1).then(|| "\x1b[35m".to_string()) })
                }
                check(&text, &d, false, None, [0, 2, 3][k % 3], cx)?
            }
            Ok(())
        }),
        space("texts that look written already", seq::count_upto(WRITTEN.len() as u64, t.pick(4, 5)), move |i| format!("{:?}", seq::string(WRITTEN, 5, i)), move |i, cx| {
            let text = seq::string(WRITTEN, 5, i);
            let b = seq::bounds(&text);
            for (start, end) in [(0, text.len()), (b[b.len() / 2], text.len()), (0, b[b.len() / 2])] {
                let d = Diagnostic::error(text.clone()).with_label(Range { start, end }, text.clone()).with_code(text.clone()).with_help(text.clone());
                check(&text, &d, false, Some(&text), i as usize % 3, cx)?
            }
            Ok(())
        }),
        space("all parts of a diagnostic", 3 * 3 * 3 * 2 * 2 * 3 * 10, |i| format!("{:?}", seq::digits(&[3, 3, 3, 2, 2, 3, 10], i)), |i, cx| {
            let g = seq::digits(&[3, 3, 3, 2, 2, 3, 10], i);
            let text = ["a<é\n𝄞b\n", "x", ""][g[0] as usize];
            let mut d = Diagnostic::error("m <1>");
            d.severity = [Severity::Error, Severity::Warning, Severity::Advice][g[1] as usize];
            d.code = [None, Some("E<1>"), Some("")][g[2] as usize].map(String::from);
            if g[3] == 1 {
                d = d.with_i18n("key.<x>").with_arg("a", "1").with_arg("b<", "é")
            }
            if g[4] == 1 {
                d = d.with_help("do \"it\" & go")
            }
            if let Some(c) = d.code.take() {
                d = d.with_code(c)
            }
            ensure_eq!((d.help.as_deref(), d.code.as_deref()), ((g[4] == 1).then_some("do \"it\" & go"), [None, Some("E<1>"), Some("")][g[2] as usize]), "parts", "of a diagnostic");
            ensure!(Silent.emit_all_diagnostics("file:///a", text).is_empty() && Silent.emit_all_diagnostics("", &*source(text, 2)).is_empty(), "parts", "diagnostics out of nothing");
            let all = spans(text);
            let pick = |k: u64| all[(k as usize * 7 + g[6] as usize) % all.len()];
            for k in 0..g[5] {
                d = d.with_label(pick(k), format!("label {k}"))
            }
            for local in [false, true] {
                for uri in [None, Some("file:///a<b>&c.x"), Some("")] {
                    check(text, &d, local, uri, 0, cx)?
                }
            }
            Ok(())
        }),
        space("many lines", 8 * t.pick(14, 16) * 3, |i| format!("{:?}", seq::digits(&[8, 16, 3], i)), move |i, cx| {
            let g = seq::digits(&[8, t.pick(14, 16), 3], i);
            let lines = [1usize, 9, 10, 11, 99, 100, 101, 1000][g[0] as usize];
            let text: String = (0..lines).map(|k| if k % 3 == 0 { "é\r\n" } else { "ab\n" }).collect::<String>() + ["", "end", "\n"][g[2] as usize];
            let b = seq::bounds(&text);
            let at = |k: u64| b[b.len() - 1 - (k as usize).min(b.len() - 1)];
            for k in 0..14 {
                let (x, y) = (at(g[1]), at(k));
                if x <= y {
                    check(&text, &Diagnostic::error("x").with_label(Range { start: x, end: y }, "y"), false, Some("u"), 0, cx)?
                }
            }
            Ok(())
        }),
        space("errors of the framework", seq::count_upto(count, n), move |i| format!("{:?}", text(i)), move |i, cx| {
            let text = text(i);
            let s = source(&text, 0);
            for o in (0..=text.len() + 2).filter(|o| text.is_char_boundary(*o) || *o > text.len()) {
                for (e, located, arg) in errors(o) {
                    let d = e.to_diagnostic(&*s);
                    let what = format!("{e:?} in {text:?}");
                    ensure_eq!(format!("{:?}", Diagnostic::from_provider(&e, &*s)), format!("{d:?}"), "provider", "{what}");
                    ensure_eq!((d.code.as_deref(), d.i18n_key.as_deref()), (Some(e.kind().key()), Some(e.kind().key())), "code", "{what}");
                    ensure_eq!((d.severity, &d.message), (Severity::Error, &e.kind().to_string()), "message", "{what}");
                    ensure_eq!(d.i18n_args, arg.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<HashMap<_, _>>(), "arguments", "{what}");
                    let start = o.min(text.len());
                    let want = located.then(|| (start, start + text[start..].chars().next().map_or(0, char::len_utf8)));
                    ensure_eq!(d.labels.iter().map(|l| (l.span.start, l.span.end)).collect::<Vec<_>>(), want.into_iter().collect::<Vec<_>>(), "place", "{what}");
                    ensure_eq!(Diagnostic::from(&e).message, e.to_string(), "message", "{what}");
                    check(&text, &d, false, None, 0, cx)?
                }
            }
            Ok(())
        }),
        space("spans that fit no text", seq::count_upto(count, 2), |i| format!("{:?}", seq::string(CHARS, 2, i)), |i, cx| {
            let text = seq::string(CHARS, 2, i);
            let s = source(&text, 0);
            for start in 0..text.len() + 3 {
                for end in 0..text.len() + 3 {
                    let d = Diagnostic::error("m").with_label(Range { start, end }, "odd");
                    for unicode in [false, true] {
                        ensure!(ConsoleEmitter { unicode }.render(&*s, &d).contains("m\n"), "lost", "console {d:?}");
                        ensure!(PlainTextEmitter { unicode }.render(&*s, &d).starts_with("[error] m\n"), "lost", "plain {d:?}");
                    }
                    ensure!(bare(&HtmlEmitter.render(&*s, &d)).is_ok(), "markup", "html {d:?}");
                    ensure!(serde_json::from_str::<serde_json::Value>(&LspEmitter.render(&*s, &d)).is_ok(), "json", "lsp {d:?}");
                    cx.step()
                }
            }
            for start in 0..text.len() + 3 {
                for (e, ..) in errors(start) {
                    for l in e.to_diagnostic(&*s).labels {
                        ensure!(l.span.start <= l.span.end && l.span.end <= text.len(), "place", "{e:?} in {text:?}: {:?}", l.span);
                        cx.step()
                    }
                }
            }
            cx.exec();
            Ok(())
        }),
        {
            let ns = seq::sizes_and_64k(t.pick(40, 70), t.pick(1 << 12, 1 << 14));
            let n2 = ns.clone();
            space("long lines, many labels", 3 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 3], ["characters in a line", "labels", "lines in a label"][i as usize % 3]), move |i, cx| {
                let n = ns[i as usize / 3] as usize;
                match i % 3 {
                    0 => {
                        let text = format!("x\n{}\r\ny", (0..n).map(|k| ["a", "é", "𝄞", "<"][k * 3 % 5 % 4]).collect::<String>());
                        let at = seq::marks(&text, 1);
                        for (k, a) in at.iter().enumerate() {
                            for b in [at[k], at[(k + 1).min(at.len() - 1)], at[(k + 5).min(at.len() - 1)], at[at.len() - 1]] {
                                check(&text, &Diagnostic::warning("w").with_label(Range { start: *a, end: b }, "y"), false, Some("u"), 0, cx)?
                            }
                        }
                        Ok(())
                    }
                    1 if n <= 300 => {
                        let text = "aé\n<b\r\n".repeat(n / 3 + 1);
                        let b = seq::bounds(&text);
                        let mut d = Diagnostic::error("m");
                        for k in 0..n {
                            let at = k * 7 % (b.len() - 1);
                            d = d.with_label(Range { start: b[at], end: b[(at + k % 4).min(b.len() - 1)] }, format!("label {k}"))
                        }
                        check(&text, &d, false, Some("u"), 0, cx)
                    }
                    2 => {
                        let text = "é\nab\r\n".repeat(n);
                        let b = seq::bounds(&text);
                        for (x, y) in [(0, b.len() - 1), (b.len() / 2, b.len() - 1), (1.min(b.len() - 1), b.len() / 2)] {
                            check(&text, &Diagnostic::error("m").with_label(Range { start: b[x], end: b[y] }, "y"), false, None, 0, cx)?
                        }
                        Ok(())
                    }
                    _ => Ok(()),
                }
            })
        },
        each_character("every character under a label, before and behind it, in messages", t, |c, cx| {
            if c == '\x1b' {
                // the colours of the console are found by it
                return Ok(());
            }
            let text = format!("{c}a\nb{c}{c}z\r\n{c}");
            let b = seq::bounds(&text);
            for (k, (x, y)) in [(0, 1), (1, 2), (3, 4), (4, 6), (3, 8), (b.len() - 2, b.len() - 1)].into_iter().enumerate() {
                if b[x] > b[y] {
                    continue;
                }
                let mut d = Diagnostic::warning("m").with_label(Range { start: b[x], end: b[y] }, "y");
                // what a terminal or a row cannot show has no place in a message
                if k == 3 && !c.is_control() {
                    d.message = format!("m{c}");
                    d.labels[0].message = Some(format!("{c}y"));
                    d.help = Some(c.to_string());
                    d.code = Some(format!("E{c}"));
                }
                check(&text, &d, false, Some("u"), k % 3, cx)?
            }
            Ok(())
        }),
    ]
}
