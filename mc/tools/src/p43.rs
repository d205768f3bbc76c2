//! P43: what the crates write as JSON is spelled as published and reads back as the same value.
use mc_kit::*;
use oak_core::{
    language::{LanguageCategory, UniversalElementRole as ER, UniversalTokenRole as TR},
    lexer::{Token, TokenStream},
    tree::{ProvenancePart, TokenProvenance},
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::HashMap;

const TEXTS: [&str; 6] = ["", "né", "a\"\\\n\t\r\u{0}\u{7f}", "𝄞</script>", "null", "\u{2028}/é\u{feff}"];
const SPANS: [(usize, usize); 6] = [(0, 0), (3, 9), (7, 2), (255, 65536), (0, usize::MAX), (usize::MAX, usize::MAX)];
/// Numbers that every JSON reader gives back exactly.
const NUMBERS: [f64; 6] = [0.0, 1.0, -2.5, 1e9, 0.125, -4503599627370496.0];

/// The value is written as `want`.
fn spelled<T: Serialize>(t: &T, want: &Value, cx: &mut Cx) -> Result<String, Fail> {
    let got = serde_json::to_value(t).map_err(|e| Fail { kind: "write".into(), detail: format!("{want} cannot be written: {e}") })?;
    if got != *want {
        return Err(Fail { kind: "spelling".into(), detail: format!("written as {got}, expected {want}") });
    }
    let text = serde_json::to_string(t).map_err(|e| Fail { kind: "write".into(), detail: format!("{want}: {e}") })?;
    cx.exec();
    cx.state(&text);
    cx.nontrivial(text.len() > 4);
    Ok(text)
}
/// ... and reads back as the same from every kind of input, also with blanks and unknown fields.
fn both<T: Serialize + DeserializeOwned>(t: &T, want: Value, cx: &mut Cx) -> Res {
    let text = spelled(t, &want, cx)?;
    let pretty = serde_json::to_string_pretty(t).unwrap();
    let mut more = want.clone();
    if let Value::Object(o) = &mut more {
        o.insert("no field of this name".into(), json!([1, {"a": null}]));
    }
    for (from, back) in [
        ("a value", serde_json::from_value::<T>(want.clone())),
        ("text", serde_json::from_str(&text)),
        ("bytes", serde_json::from_slice(text.as_bytes())),
        ("a stream", serde_json::from_reader(text.as_bytes())),
        ("indented text", serde_json::from_str(&pretty)),
        ("a value with more fields", serde_json::from_value(more)),
    ] {
        match back {
            Ok(b) => ensure_eq!(serde_json::to_value(&b).unwrap(), want.clone(), "reading", "back from {from}"),
            Err(e) => return fail("reading", format!("{text} cannot be read from {from}: {e}")),
        }
        cx.step();
    }
    Ok(())
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_uppercase() && !o.is_empty() {
            o.push('_')
        }
        o.push(c.to_ascii_lowercase())
    }
    o
}
const TROLES: [TR; 10] = [TR::Keyword, TR::Name, TR::Literal, TR::Escape, TR::Operator, TR::Punctuation, TR::Comment, TR::Whitespace, TR::Error, TR::None];
const EROLES: [ER; 19] = [
    ER::Root, ER::Container, ER::Definition, ER::Binding, ER::Reference, ER::Typing, ER::Documentation, ER::Metadata, ER::Attribute, ER::AttributeKey, ER::Detail, ER::Name, ER::Statement, ER::Expression, ER::Call, ER::Value, ER::Embedded, ER::Error, ER::None,
];
const CATS: [LanguageCategory; 7] = [LanguageCategory::Programming, LanguageCategory::Markup, LanguageCategory::Config, LanguageCategory::StyleSheet, LanguageCategory::Dsl, LanguageCategory::Modeling, LanguageCategory::Other];

fn range((a, b): (usize, usize)) -> core::range::Range<usize> {
    core::range::Range { start: a, end: b }
}
fn rj((a, b): (usize, usize)) -> Value {
    json!({"start": a, "end": b})
}
fn token(k: usize) -> (Token<TR>, Value) {
    let (r, s) = (TROLES[k % TROLES.len()], SPANS[k / TROLES.len() % SPANS.len()]);
    (Token { kind: r, span: range(s) }, json!({"kind": snake(&format!("{r:?}")), "span": rj(s)}))
}
fn part(k: usize) -> (ProvenancePart, Value) {
    if k < SPANS.len() {
        return (ProvenancePart::Source(range(SPANS[k])), json!({"Source": rj(SPANS[k])}));
    }
    let t = TEXTS[(k - SPANS.len()) / 2 % TEXTS.len()];
    if (k - SPANS.len()) % 2 == 0 { (ProvenancePart::Synthesized(t.into()), json!({"Synthesized": t})) } else { (ProvenancePart::OpaqueTag(t.into()), json!({"OpaqueTag": t})) }
}
const PARTS: u64 = (SPANS.len() + 2 * TEXTS.len()) as u64;

/// The digits of a mixed number, one at a time.
struct Pick(u64);
impl Pick {
    fn of(&mut self, n: usize) -> usize {
        let k = self.0 % n as u64;
        self.0 /= n as u64;
        k as usize
    }
    fn bool(&mut self) -> bool {
        self.of(2) == 1
    }
    fn text(&mut self) -> String {
        TEXTS[self.of(4)].into()
    }
    fn maybe(&mut self) -> Option<String> {
        let k = self.of(3);
        (k > 0).then(|| TEXTS[k].into())
    }
    fn number(&mut self) -> f64 {
        NUMBERS[self.of(4)]
    }
    fn map(&mut self) -> HashMap<String, String> {
        (0..self.of(3)).map(|k| (TEXTS[k + 1].to_string(), TEXTS[k].to_string())).collect()
    }
}
fn style(p: &mut Pick) -> (oak_highlight::HighlightStyle, Value) {
    let s = oak_highlight::HighlightStyle { color: p.maybe(), background_color: p.maybe(), bold: p.bool(), italic: p.bool(), underline: p.bool() };
    let v = json!({"color": s.color, "background_color": s.background_color, "bold": s.bold, "italic": s.italic, "underline": s.underline});
    (s, v)
}
const STYLES: u64 = 3 * 3 * 8;

fn highlighting(i: u64, cx: &mut Cx) -> Res {
    use oak_highlight::*;
    let mut p = Pick(i);
    let ((a, aj), (b, bj)) = (style(&mut p), style(&mut Pick(i.wrapping_mul(31) + 7)));
    both(&a, aj.clone(), cx)?;
    let (n, name) = (p.of(3), p.text());
    let two = [("keyword.né", &a, &aj), ("", &b, &bj)];
    let theme = HighlightTheme { name: name.clone(), styles: two[..n].iter().map(|(k, s, _)| (k.to_string(), (*s).clone())).collect() };
    let tj = json!({"name": name, "styles": Value::Object(two[..n].iter().map(|(k, _, j)| (k.to_string(), (*j).clone())).collect())});
    both(&theme, tj, cx)?;
    let (s, t) = (SPANS[i as usize % SPANS.len()], TEXTS[i as usize % TEXTS.len()]);
    let seg = [
        (HighlightSegment { span: range(s).into(), style: a.clone(), text: t.into() }, json!({"span": rj(s), "style": aj, "text": t})),
        (HighlightSegment { span: range((0, 1)).into(), style: b.clone(), text: "x".into() }, json!({"span": {"start": 0, "end": 1}, "style": bj, "text": "x"})),
    ];
    both(&seg[0].0, seg[0].1.clone(), cx)?;
    let r = HighlightResult { segments: seg[..n].iter().map(|s| s.0.clone()).collect(), source: t.into() };
    both(&r, json!({"segments": seg[..n].iter().map(|s| s.1.clone()).collect::<Vec<_>>(), "source": t}), cx)
}
fn diagnostics(i: u64, cx: &mut Cx) -> Res {
    use oak_diagnostic::*;
    let mut p = Pick(i);
    let sev = [(Severity::Error, "Error"), (Severity::Warning, "Warning"), (Severity::Advice, "Advice")][p.of(3)];
    let (code, key, help, message, args, n) = (p.maybe(), p.maybe(), p.maybe(), p.text(), p.map(), p.of(3));
    let labels: Vec<(Label, Value)> = (0..n)
        .map(|k| {
            let s = SPANS[(i as usize + k) % SPANS.len()];
            let (m, c) = (p.maybe(), (k == 1).then(|| "red".to_string()));
            (Label { message: m.clone(), span: range(s), color: c.clone() }, json!({"message": m, "span": rj(s), "color": c}))
        })
        .collect();
    let want = json!({"code": code, "message": message, "i18n_key": key, "i18n_args": args, "severity": sev.1, "labels": labels.iter().map(|l| l.1.clone()).collect::<Vec<_>>(), "help": help});
    let d = Diagnostic { code, message, i18n_key: key, i18n_args: args, severity: sev.0, labels: labels.into_iter().map(|l| l.0).collect(), help };
    both(&d, want, cx)
}
fn id(k: usize) -> Value {
    [json!(null), json!(7), json!("a\"é"), json!(-1.5), json!(u64::MAX)][k].clone()
}
fn payload(k: usize) -> Option<Value> {
    [None, Some(json!({})), Some(json!({"a": [1, null, "é\n"]})), Some(json!([])), Some(json!("x")), Some(json!(false))][k].clone()
}
fn messages(i: u64, cx: &mut Cx) -> Res {
    use oak_mcp::*;
    let mut p = Pick(i);
    let (id, load, method, error, code, data) = (id(p.of(5)), payload(p.of(6)), p.text(), p.bool(), [0, -32601, i32::MAX][p.of(3)], payload(p.of(3)));
    let want = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": load});
    both(&JsonRpcRequest { jsonrpc: "2.0".into(), id: id.clone(), method: method.clone(), params: load.clone() }, want.clone(), cx)?;
    match JsonRpcRequest::from_json(&want.to_string()) {
        Ok(r) => ensure_eq!((r.id, r.method, r.params), (id.clone(), method.clone(), load.clone()), "reading", "a request"),
        Err(e) => return fail("reading", format!("request {want}: {e}")),
    }
    let note = json!({"jsonrpc": "2.0", "method": method, "params": load});
    both(&JsonRpcNotification { jsonrpc: "2.0".into(), method: method.clone(), params: load.clone() }, note.clone(), cx)?;
    match JsonRpcNotification::from_json(&note.to_string()) {
        Ok(r) => ensure_eq!((r.method, r.params), (method.clone(), load.clone()), "reading", "a notification"),
        Err(e) => return fail("reading", format!("notification {note}: {e}")),
    }
    // parts a response does not have are left out
    let mut want = json!({"jsonrpc": "2.0", "id": id});
    if let Some(l) = &load {
        want["result"] = l.clone()
    }
    if error {
        want["error"] = json!({"code": code, "message": method});
        if let Some(d) = &data {
            want["error"]["data"] = d.clone()
        }
    }
    let r = JsonRpcResponse { jsonrpc: "2.0".into(), id, result: load, error: error.then(|| JsonRpcError { code, message: method, data }) };
    both(&r, want.clone(), cx)?;
    match serde_json::from_str::<Value>(&r.to_json()) {
        Ok(v) => ensure_eq!(v, want, "spelling", "to_json"),
        Err(e) => return fail("spelling", format!("to_json of {want}: {e}")),
    }
    Ok(())
}
fn pictures(i: u64, cx: &mut Cx) -> Res {
    use oak_visualize::{geometry::*, graph::*, layout::LayoutConfig, render::*, tree::TreeNode};
    let mut p = Pick(i);
    let (x, y, w, h) = (p.number(), p.number(), p.number(), p.number());
    let (pj, sj) = (json!({"x": x, "y": y}), json!({"width": w, "height": h}));
    both(&Point::new(x, y), pj.clone(), cx)?;
    both(&Size::new(w, h), sj.clone(), cx)?;
    both(&Rect::new(Point::new(x, y), Size::new(w, h)), json!({"origin": pj, "size": sj}), cx)?;
    both(&Transform { a: x, b: y, c: w, d: h, e: x + 1.0, f: y + 1.0 }, json!({"a": x, "b": y, "c": w, "d": h, "e": x + 1.0, "f": y + 1.0}), cx)?;
    let (name, other, label, sized, map, yes) = (p.text(), p.text(), p.maybe(), p.bool(), p.map(), p.bool());
    let size = sized.then(|| Size::new(w, h));
    let szj = if sized { sj.clone() } else { Value::Null };
    both(&GraphNode { id: name.clone(), label: other.clone(), node_type: "t".into(), size, attributes: map.clone(), weight: x }, json!({"id": name, "label": other, "node_type": "t", "size": szj, "attributes": map, "weight": x}), cx)?;
    both(&GraphEdge { from: name.clone(), to: other.clone(), label: label.clone(), edge_type: "t".into(), weight: y, directed: yes, attributes: map.clone() }, json!({"from": name, "to": other, "label": label, "edge_type": "t", "weight": y, "directed": yes, "attributes": map}), cx)?;
    let leaf = |n: &str| (TreeNode { id: n.into(), label: other.clone(), node_type: name.clone(), children: vec![], attributes: map.clone(), size }, json!({"id": n, "label": other, "node_type": name, "children": [], "attributes": map, "size": szj}));
    let (mut a, mut aj) = leaf("a");
    for k in 0..i as usize % 3 {
        let (b, bj) = leaf(["b", "c"][k]);
        a.children.push(b);
        aj["children"].as_array_mut().unwrap().push(bj)
    }
    both(&a, aj, cx)?;
    both(&LayoutConfig { node_width: x, node_height: y, horizontal_spacing: w, vertical_spacing: h, margin: x + 1.0, padding: y + 2.0 }, json!({"node_width": x, "node_height": y, "horizontal_spacing": w, "vertical_spacing": h, "margin": x + 1.0, "padding": y + 2.0}), cx)?;
    let e = ElementStyle { fill_color: label.clone(), stroke_color: yes.then(|| other.clone()), stroke_width: sized.then_some(x), text_color: (!yes).then(|| name.clone()), text_size: yes.then_some(y), opacity: (!sized).then_some(w), class_name: label.clone().filter(|_| yes), attributes: map.clone() };
    both(&e, json!({"fill_color": label, "stroke_color": e.stroke_color, "stroke_width": e.stroke_width, "text_color": e.text_color, "text_size": e.text_size, "opacity": e.opacity, "class_name": e.class_name, "attributes": map}), cx)?;
    let c = RenderConfig { canvas_width: x, canvas_height: y, background_color: name.clone(), node_fill_color: other.clone(), node_stroke_color: "s".into(), node_stroke_width: w, edge_color: "e".into(), edge_width: h, text_color: "t".into(), text_size: x + 1.0, font_family: "f".into(), padding: y + 1.0, show_labels: yes, show_arrows: sized, arrow_size: w + 1.0 };
    both(&c, json!({"canvas_width": x, "canvas_height": y, "background_color": name, "node_fill_color": other, "node_stroke_color": "s", "node_stroke_width": w, "edge_color": "e", "edge_width": h, "text_color": "t", "text_size": x + 1.0, "font_family": "f", "padding": y + 1.0, "show_labels": yes, "show_arrows": sized, "arrow_size": w + 1.0}), cx)
}
fn themes(i: u64, cx: &mut Cx) -> Res {
    use oak_visualize::theme::*;
    let mut p = Pick(i);
    let (a, b, c, d, x, y, on, arrows) = (p.text(), p.text(), p.text(), p.text(), p.number() as f32, p.number() as f32, p.bool(), p.bool());
    let t = VisualizationTheme {
        name: a.clone(),
        background_color: b.clone(),
        node: NodeTheme { fill_color: c.clone(), stroke_color: d.clone(), stroke_width: x, border_radius: y, shadow: ShadowConfig { enabled: on, color: a.clone(), offset_x: x, offset_y: y, blur_radius: x + 1.0 } },
        edge: EdgeTheme { color: b.clone(), width: y, style: c.clone(), arrow: ArrowConfig { enabled: arrows, size: x, arrow_type: d.clone() } },
        text: TextTheme { font_family: d.clone(), font_size: y, color: a.clone(), font_weight: c.clone() },
        highlight: HighlightTheme { selected_color: a.clone(), hover_color: b.clone(), error_color: c.clone(), warning_color: d.clone() },
    };
    let want = json!({
        "name": a, "background_color": b,
        "node": {"fill_color": c, "stroke_color": d, "stroke_width": x, "border_radius": y, "shadow": {"enabled": on, "color": a, "offset_x": x, "offset_y": y, "blur_radius": x + 1.0}},
        "edge": {"color": b, "width": y, "style": c, "arrow": {"enabled": arrows, "size": x, "arrow_type": d}},
        "text": {"font_family": d, "font_size": y, "color": a, "font_weight": c},
        "highlight": {"selected_color": a, "hover_color": b, "error_color": c, "warning_color": d}
    });
    both(&t, want, cx)?;
    let r = t.to_render_config();
    let got = (r.background_color, r.node_fill_color, r.node_stroke_color, r.node_stroke_width, r.edge_color, r.edge_width);
    ensure_eq!(got, (b.clone(), c.clone(), d.clone(), x as f64, b.clone(), y as f64), "theme", "colours of nodes and edges");
    ensure_eq!((r.text_color, r.text_size, r.font_family, r.show_arrows, r.arrow_size), (a, y as f64, d, arrows, x as f64), "theme", "texts and arrows");
    Ok(())
}
/// Documents, written only.
fn document(code: &[usize], at: &mut usize) -> (oak_pretty_print::Document<'static>, Value) {
    use oak_pretty_print::Document as D;
    let k = code.get(*at).copied().unwrap_or(0);
    *at += 1;
    match k {
        0 => (D::Nil, json!({"kind": "nil"})),
        1 => (D::Text("é\"".into()), json!({"kind": "text", "value": "é\""})),
        2 => (D::Line, json!({"kind": "line"})),
        3 => (D::SoftLine, json!({"kind": "softLine"})),
        4 => (D::SoftLineSpace, json!({"kind": "softLineSpace"})),
        5 => (D::HardLine, json!({"kind": "hardLine"})),
        6 => {
            let (d, j) = document(code, at);
            (D::Group(Box::new(d)), json!({"kind": "group", "value": j}))
        }
        7 => {
            let (d, j) = document(code, at);
            (D::Indent(Box::new(d)), json!({"kind": "indent", "value": j}))
        }
        _ => {
            let (a, aj) = document(code, at);
            let (b, bj) = document(code, at);
            (D::Concat(vec![a, b]), json!({"kind": "concat", "value": [aj, bj]}))
        }
    }
}
fn config(i: u64, cx: &mut Cx) -> Res {
    use oak_pretty_print::*;
    let mut p = Pick(i);
    let (s, sj, n) = [(IndentStyle::Spaces(4), json!({"spaces": 4}), 4), (IndentStyle::Spaces(0), json!({"spaces": 0}), 0), (IndentStyle::Spaces(255), json!({"spaces": 255}), 255), (IndentStyle::Tabs, json!("tabs"), 4)][p.of(4)].clone();
    let (e, ej) = [(LineEnding::Unix, "unix"), (LineEnding::Windows, "windows"), (LineEnding::Auto, "auto")][p.of(3)];
    let mut c = FormatConfig::new().with_indent_style(s).with_line_ending(e).with_max_width([0, 100, usize::MAX][p.of(3)]);
    (c.insert_final_newline, c.trim_trailing_whitespace, c.preserve_blank_lines, c.format_comments, c.format_strings) = (p.bool(), p.bool(), p.bool(), p.bool(), p.bool());
    c.max_blank_lines = p.of(3);
    let want = json!({"indentStyle": sj, "indentText": if sj == "tabs" { "\t".into() } else { " ".repeat(n) }, "lineEnding": ej, "maxWidth": c.max_width, "insertFinalNewline": c.insert_final_newline, "trimTrailingWhitespace": c.trim_trailing_whitespace,
        "preserveBlankLines": c.preserve_blank_lines, "maxBlankLines": c.max_blank_lines, "formatComments": c.format_comments, "formatStrings": c.format_strings, "indentSize": n});
    spelled(&c, &want, cx)?;
    let t = p.text();
    spelled(&FormatOutput::new(t.clone(), c.format_strings), &json!({"content": t, "changed": c.format_strings}), cx).map(|_| ())
}
fn files(i: u64, cx: &mut Cx) -> Res {
    use oak_vfs::*;
    let mut p = Pick(i);
    let (t, tj) = [(FileType::File, "File"), (FileType::Directory, "Directory"), (FileType::Other, "Other")][p.of(3)];
    let (len, modified) = ([0, 5, u64::MAX][p.of(3)], [None, Some(0), Some(1700000000), Some(u64::MAX)][p.of(4)]);
    both(&FileMetadata { file_type: t, len, modified }, json!({"file_type": tj, "len": len, "modified": modified}), cx)?;
    both(&t, json!(tj), cx)?;
    let (s, text, role) = (SPANS[p.of(6)], p.text(), p.text());
    both(&oak_semantic_search::CodeChunk { text: text.clone(), range_start: s.0, range_end: s.1, role: role.clone() }, json!({"text": text, "range_start": s.0, "range_end": s.1, "role": role}), cx)
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let toks = (TROLES.len() * SPANS.len()) as u64;
    let k = t.pick(3, 4);
    let few = 8u64;
    let docs = t.pick(5, 6);
    let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes_and_64k(40, t.pick(1024, 16384))));
    vec![
        space("roles and categories", 36, |i| format!("{i}"), |i, cx| match i as usize {
            i if i < 10 => both(&TROLES[i], json!(snake(&format!("{:?}", TROLES[i]))), cx),
            i if i < 29 => both(&EROLES[i - 10], json!(snake(&format!("{:?}", EROLES[i - 10]))), cx),
            i => both(&CATS[i - 29], json!(format!("{:?}", CATS[i - 29])), cx),
        }),
        space("tokens", toks, |i| format!("{:?}", token(i as usize).0), |i, cx| {
            let (t, j) = token(i as usize);
            both(&t, j, cx)
        }),
        space("token streams", seq::count_upto(few, k) * 6, move |i| format!("{:?} {:?}", TEXTS[i as usize % 6], seq::nth(few, k, i / 6)), move |i, cx| {
            let l: Vec<_> = seq::nth(few, k, i / 6).into_iter().map(|k| token(k * 7)).collect();
            let s = TokenStream { raw: TEXTS[i as usize % 6].into(), tokens: l.iter().map(|t| t.0).collect::<Vec<_>>().into() };
            both(&s, json!({"raw": TEXTS[i as usize % 6], "tokens": l.iter().map(|t| t.1.clone()).collect::<Vec<_>>()}), cx)
        }),
        space("origins of tokens", seq::count_upto(PARTS as u32 as u64, 3), |i| format!("{:?}", seq::nth(PARTS, 3, i)), |i, cx| {
            let l: Vec<_> = seq::nth(PARTS, 3, i).into_iter().map(part).collect();
            both(&TokenProvenance { parts: l.iter().map(|p| p.0.clone()).collect() }, json!({"parts": l.iter().map(|p| p.1.clone()).collect::<Vec<_>>()}), cx)
        }),
        space("highlighting", STYLES * 3 * 4 * 6, |i| format!("{i}"), highlighting),
        space("diagnostics", 3 * 27 * 4 * 3 * 3 * 9, |i| format!("{i}"), diagnostics),
        space("messages", 5 * 6 * 4 * 2 * 3 * 3, |i| format!("{i}"), messages),
        space("pictures", 256 * 16 * 3 * 2 * 3 * 2, |i| format!("{i}"), pictures),
        space("themes of pictures", 256 * 16 * 4, |i| format!("{i}"), themes),
        space("documents", seq::count_upto(9, docs), move |i| format!("{:?}", seq::nth(9, docs, i)), move |i, cx| {
            let (d, j) = document(&seq::nth(9, docs, i), &mut 0);
            spelled(&d, &j, cx).map(|_| ())
        }),
        space("formatting", 4 * 3 * 3 * 32 * 3 * 4, |i| format!("{i}"), config),
        space("files and chunks", 3 * 3 * 4 * 6 * 16, |i| format!("{i}"), files),
        space("long texts, many parts", 4 * ns.len() as u64, move |i| format!("{} {}", ns[i as usize / 4], ["tokens", "parts", "styles", "nested nodes"][i as usize % 4]), move |i, cx| {
            let n = ns[i as usize / 4] as usize;
            let text = "é".repeat(n);
            match i % 4 {
                0 => {
                    let l: Vec<_> = (0..n).map(token).collect();
                    both(&TokenStream { raw: text.clone(), tokens: l.iter().map(|t| t.0).collect::<Vec<_>>().into() }, json!({"raw": text, "tokens": l.iter().map(|t| t.1.clone()).collect::<Vec<_>>()}), cx)
                }
                1 => {
                    let l: Vec<_> = (0..n).map(|k| part(k % PARTS as usize)).collect();
                    both(&TokenProvenance { parts: l.iter().map(|p| p.0.clone()).collect() }, json!({"parts": l.iter().map(|p| p.1.clone()).collect::<Vec<_>>()}), cx)
                }
                2 => {
                    let l: Vec<_> = (0..n.min(64)).map(|k| (format!("{text}{k}"), style(&mut Pick(k as u64)))).collect();
                    both(&oak_highlight::HighlightTheme { name: text.clone(), styles: l.iter().map(|(k, s)| (k.clone(), s.0.clone())).collect() }, json!({"name": text, "styles": Value::Object(l.iter().map(|(k, s)| (k.clone(), s.1.clone())).collect())}), cx)
                }
                _ => {
                    let mut d = (oak_pretty_print::Document::Nil, json!({"kind": "nil"}));
                    for _ in 0..n.min(200) {
                        d = (oak_pretty_print::Document::Group(Box::new(d.0)), json!({"kind": "group", "value": d.1}))
                    }
                    spelled(&d.0, &d.1, cx).map(|_| ())
                }
            }
        }),
        each_character("every character in a text that is written", t, |c, cx| {
        for s in [c.to_string(), format!("a{c}\"{c}")] {
            use oak_mcp::*;
            both(&JsonRpcRequest { jsonrpc: "2.0".into(), id: json!(s), method: s.clone(), params: Some(json!({"p": [s]})) }, json!({"jsonrpc": "2.0", "id": s, "method": s, "params": {"p": [s]}}), cx)?;
            let r = JsonRpcResponse { jsonrpc: "2.0".into(), id: json!(s), result: Some(json!(s)), error: None };
            match serde_json::from_str::<Value>(&r.to_json()) {
                Ok(v) => ensure_eq!(v, json!({"jsonrpc": "2.0", "id": s, "result": s}), "spelling", "to_json"),
                Err(e) => return fail("spelling", format!("to_json of {s:?}: {e}")),
            }
            ensure!(!r.to_json().contains('\n'), "spelling", "a response with {s:?} in it fills one line");
            let text = spelled(&ProvenancePart::OpaqueTag(s.as_str().into()), &json!({"OpaqueTag": s}), cx)?;
            match serde_json::from_str::<ProvenancePart>(&text) {
                Ok(x) => ensure_eq!(serde_json::to_value(&x).unwrap(), json!({"OpaqueTag": s}), "reading", "a tag"),
                Err(e) => return fail("reading", format!("{text}: {e}")),
            }
            let seg = oak_highlight::HighlightSegment { span: range((0, 1)).into(), style: Default::default(), text: s.as_str().into() };
            let v = serde_json::to_value(&seg).unwrap();
            ensure_eq!(v["text"].clone(), json!(s), "spelling", "a segment");
            match serde_json::from_value::<oak_highlight::HighlightSegment>(v) {
                Ok(x) => ensure_eq!(x.text.to_string(), s.clone(), "reading", "a segment"),
                Err(e) => return fail("reading", format!("segment of {s:?}: {e}")),
            }
        }
        Ok(())
    }),
    ]
}
