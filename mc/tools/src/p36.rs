//! P36: drawn pictures are well-formed and show every node, label and edge of the layout where it
//! is, in its own style and inside of the canvas; exports hold the same layout.
use mc_kit::*;
use oak_visualize::{geometry::*, layout::*, render::*, theme::*};
use std::collections::{BTreeMap, HashSet};

// ---------------------------------------------------------------- a strict reader of XML
#[derive(Debug, Clone, Default, PartialEq)]
struct El {
    name: String,
    attrs: BTreeMap<String, String>,
    children: Vec<El>,
    text: String,
}
fn name(s: &str) -> usize {
    s.find(|c: char| !(c.is_alphanumeric() || "-_:.".contains(c))).unwrap_or(s.len())
}
fn plain(raw: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = raw;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => return Err(format!("stray < in {raw:?}")),
            '&' => {
                let end = rest.find(';').ok_or_else(|| format!("stray & in {raw:?}"))?;
                out.push(match &rest[1..end] {
                    "lt" => '<',
                    "gt" => '>',
                    "amp" => '&',
                    "quot" => '"',
                    "apos" => '\'',
                    n => n
                        .strip_prefix('#')
                        .and_then(|n| match n.strip_prefix('x') {
                            Some(h) => u32::from_str_radix(h, 16).ok(),
                            None => n.parse().ok(),
                        })
                        .and_then(char::from_u32)
                        .ok_or_else(|| format!("stray & in {raw:?}"))?,
                });
                rest = &rest[end + 1..]
            }
            c => {
                out.push(c);
                rest = &rest[c.len_utf8()..]
            }
        }
    }
    if raw.contains("]]>") { Err(format!("]]> in {raw:?}")) } else { Ok(out) }
}
fn element<'a>(s: &'a str) -> Result<(El, &'a str), String> {
    let mut s = s.strip_prefix('<').ok_or_else(|| format!("no element at {s:?}"))?;
    let n = name(s);
    let mut e = El { name: s[..n].to_string(), ..El::default() };
    if n == 0 || !s.starts_with(char::is_alphabetic) {
        return Err(format!("no name at {s:?}"));
    }
    s = &s[n..];
    loop {
        let t = s.trim_start_matches([' ', '\n', '\t']);
        if let Some(r) = t.strip_prefix("/>") {
            return Ok((e, r));
        }
        if let Some(r) = t.strip_prefix('>') {
            s = r;
            break;
        }
        if t.len() == s.len() {
            return Err(format!("no blank before an attribute at {s:?}"));
        }
        let n = name(t);
        let key = t[..n].to_string();
        let r = t[n..].strip_prefix("=\"").ok_or_else(|| format!("attribute without value at {t:?}"))?;
        let end = r.find('"').ok_or("value never ends")?;
        if n == 0 || e.attrs.insert(key.clone(), plain(&r[..end])?).is_some() {
            return Err(format!("attribute {key:?} twice or without name"));
        }
        s = &r[end + 1..];
    }
    loop {
        let end = s.find('<').ok_or_else(|| format!("{} never ends", e.name))?;
        e.text += &plain(&s[..end])?;
        s = &s[end..];
        if let Some(r) = s.strip_prefix("</") {
            let r = r.strip_prefix(&e.name[..]).ok_or_else(|| format!("{} ends with {r:?}", e.name))?;
            return Ok((e, r.strip_prefix('>').ok_or("odd end")?));
        }
        let (c, r) = element(s)?;
        e.children.push(c);
        s = r
    }
}
fn read(s: &str) -> Result<El, String> {
    match element(s)? {
        (e, "") => Ok(e),
        (_, r) => Err(format!("{r:?} after the end")),
    }
}

// ---------------------------------------------------------------- what a picture should hold
fn number(v: f64) -> String {
    v.to_string()
}
struct Picture {
    config: RenderConfig,
    layout: Layout,
    nodes: BTreeMap<String, ElementStyle>,
    edges: BTreeMap<String, ElementStyle>,
}
impl Picture {
    fn new() -> Self {
        Picture { config: RenderConfig::default(), layout: Layout::new(), nodes: BTreeMap::new(), edges: BTreeMap::new() }
    }
}
fn el(name: &str, attrs: &[(&str, String)]) -> El {
    El { name: name.into(), attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), ..El::default() }
}
fn extra(e: &mut El, s: &ElementStyle, class: &str) {
    if let Some(o) = s.opacity {
        e.attrs.insert("opacity".into(), number(o));
    }
    if let Some(c) = &s.class_name {
        e.attrs.insert("class".into(), format!("{class} {c}"));
    }
    e.attrs.extend(s.attributes.iter().map(|(k, v)| (k.clone(), v.clone())));
}
fn label(c: &RenderConfig, s: &ElementStyle, size: f64, x: f64, y: f64, text: &str) -> El {
    let mut t = el("text", &[
        ("x", number(x)),
        ("y", number(y)),
        ("text-anchor", "middle".into()),
        ("dominant-baseline", "central".into()),
        ("fill", s.text_color.clone().unwrap_or(c.text_color.clone())),
        ("font-size", number(s.text_size.unwrap_or(size))),
        ("font-family", c.font_family.clone()),
        ("class", "label".into()),
    ]);
    t.text = text.into();
    t
}
fn draw(p: &Picture) -> (Vec<El>, Vec<Vec<El>>) {
    let c = &p.config;
    let none = ElementStyle::default();
    let mut edges = Vec::new();
    for e in &p.layout.edges {
        let s = p.edges.get(&format!("{}_{}", e.from, e.to)).unwrap_or(&none);
        let [a, .., b] = &e.points[..]
        else { continue };
        let d = e.points.iter().enumerate().map(|(i, q)| format!("{} {} {}", if i == 0 { 'M' } else { 'L' }, q.x, q.y)).collect::<Vec<_>>().join(" ");
        let mut x = el("path", &[
            ("d", d),
            ("stroke", s.stroke_color.clone().unwrap_or(c.edge_color.clone())),
            ("stroke-width", number(s.stroke_width.unwrap_or(c.edge_width))),
            ("fill", "none".into()),
            ("class", "edge".into()),
        ]);
        if c.show_arrows {
            x.attrs.insert("marker-end".into(), "url(#arrowhead)".into());
        }
        extra(&mut x, s, "edge");
        edges.push(x);
        if let Some(t) = &e.label {
            edges.push(label(c, s, c.text_size * 0.8, (a.x + b.x) / 2.0, (a.y + b.y) / 2.0 - 5.0, t))
        }
    }
    let mut nodes = Vec::new();
    for n in p.layout.nodes.values() {
        let s = p.nodes.get(&n.id).unwrap_or(&none);
        let r = &n.rect;
        let mut x = el("rect", &[
            ("x", number(r.origin.x)),
            ("y", number(r.origin.y)),
            ("width", number(r.size.width)),
            ("height", number(r.size.height)),
            ("fill", s.fill_color.clone().unwrap_or(c.node_fill_color.clone())),
            ("stroke", s.stroke_color.clone().unwrap_or(c.node_stroke_color.clone())),
            ("stroke-width", number(s.stroke_width.unwrap_or(c.node_stroke_width))),
            ("class", "node".into()),
        ]);
        extra(&mut x, s, "node");
        let mut v = vec![x];
        if c.show_labels {
            v.push(label(c, s, c.text_size, r.origin.x + r.size.width / 2.0, r.origin.y + r.size.height / 2.0, &n.label))
        }
        nodes.push(v)
    }
    (edges, nodes)
}
fn number_of(e: &El, key: &str) -> f64 {
    e.attrs.get(key).and_then(|v| v.parse().ok()).unwrap_or(f64::NAN)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
fn svg_is(got: &str, p: &Picture, what: &str) -> Res {
    let root = match read(got) {
        Ok(r) => r,
        Err(e) => return fail("markup", format!("{what}: {e}\n{got}")),
    };
    let c = &p.config;
    ensure_eq!(&root.name[..], "svg", "svg", "{what}");
    ensure_eq!(root.attrs.get("xmlns").map(|s| &s[..]), Some("http://www.w3.org/2000/svg"), "svg", "{what}");
    // the canvas holds all nodes and the padding around them
    let (w, h) = (number_of(&root, "width"), number_of(&root, "height"));
    let all: Vec<&Rect> = p.layout.nodes.values().map(|n| &n.rect).collect();
    let low = |f: fn(&Rect) -> f64| all.iter().map(|r| f(r)).fold(f64::INFINITY, f64::min);
    let high = |f: fn(&Rect) -> f64| all.iter().map(|r| f(r)).fold(f64::NEG_INFINITY, f64::max);
    let (x, y, dx, dy) = match all.is_empty() {
        true => (0.0, 0.0, c.canvas_width, c.canvas_height),
        false => {
            let (x, y) = (low(|r| r.origin.x), low(|r| r.origin.y));
            (x, y, high(|r| r.origin.x + r.size.width) - x, high(|r| r.origin.y + r.size.height) - y)
        }
    };
    ensure!(near(w, dx + 2.0 * c.padding) && near(h, dy + 2.0 * c.padding), "canvas", "{what}: {w} x {h} for {dx} x {dy}");
    let shape: Vec<&str> = root.children.iter().map(|e| &e.name[..]).collect();
    ensure_eq!(shape, vec!["rect", "defs", "g"], "svg", "{what}");
    let [back, defs, g] = &root.children[..]
    else { unreachable!() };
    ensure_eq!(back, &el("rect", &[("width", "100%".into()), ("height", "100%".into()), ("fill", c.background_color.clone())]), "background", "{what}");
    let markers: Vec<&El> = defs.children.iter().filter(|e| e.name == "marker").collect();
    ensure_eq!(markers.len(), c.show_arrows as usize, "arrows", "{what}");
    for m in markers {
        ensure_eq!(m.attrs.get("id").map(|s| &s[..]), Some("arrowhead"), "arrows", "{what}");
        ensure!(near(number_of(m, "markerWidth"), c.arrow_size) && near(number_of(m, "refX"), c.arrow_size) && near(number_of(m, "refY"), c.arrow_size / 2.0), "arrows", "{what}: {m:?}");
        ensure_eq!(m.children.len(), 1, "arrows", "{what}");
        ensure_eq!(m.children[0].attrs.get("fill"), Some(&c.edge_color), "arrows", "{what}");
    }
    let by: Vec<f64> = g.attrs.get("transform").and_then(|t| t.strip_prefix("translate(")?.strip_suffix(')')).map(|t| t.split(", ").filter_map(|n| n.parse().ok()).collect()).unwrap_or_default();
    ensure!(by.len() == 2 && near(by[0], c.padding - x) && near(by[1], c.padding - y), "canvas", "{what}: moved by {by:?} from {x}, {y}");
    let (edges, nodes) = draw(p);
    let (ge, gn) = g.children.split_at(edges.len().min(g.children.len()));
    ensure_eq!(ge, &edges[..], "edges", "{what}");
    // nodes come in any order, each with its label
    let mut left = nodes;
    let mut rest = gn;
    while !rest.is_empty() {
        match left.iter().position(|n| rest.starts_with(n)) {
            Some(k) => rest = &rest[left.swap_remove(k).len()..],
            None => return fail("nodes", format!("{what}: {:?} is none of {left:?}", rest[0])),
        }
    }
    ensure!(left.is_empty(), "nodes", "{what}: {left:?} not drawn");
    Ok(())
}
fn check(p: &Picture, cx: &mut Cx) -> Res {
    let mut r = SvgRenderer::new().with_config(p.config.clone());
    for (k, s) in &p.nodes {
        r.set_node_style(k.clone(), s.clone())
    }
    for (k, s) in &p.edges {
        r.set_edge_style(k.clone(), s.clone())
    }
    let svg = match r.render_layout(&p.layout) {
        Ok(s) => s,
        Err(e) => return fail("error", e.to_string()),
    };
    svg_is(&svg, p, "svg")?;
    let bare = Picture { config: p.config.clone(), layout: p.layout.clone(), nodes: BTreeMap::new(), edges: BTreeMap::new() };
    for f in [ExportFormat::Svg, ExportFormat::Html, ExportFormat::Json] {
        let got = match LayoutExporter::new(f).with_config(p.config.clone()).export(&p.layout) {
            Ok(s) => s,
            Err(e) => return fail("error", format!("{f:?}: {e}")),
        };
        match f {
            ExportFormat::Svg => svg_is(&got, &bare, "exported svg")?,
            ExportFormat::Html => {
                let inside = got.find("<svg").zip(got.rfind("</svg>")).map(|(a, b)| &got[a..b + 6]);
                match inside {
                    Some(s) => svg_is(s, &bare, "html")?,
                    None => return fail("html", format!("no picture: {got}")),
                }
            }
            ExportFormat::Json => {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(&got)
                else { return fail("json", got) };
                let num = |v: &serde_json::Value| v.as_f64().unwrap_or(f64::NAN);
                let nodes = v["nodes"].as_object().cloned().unwrap_or_default();
                ensure_eq!(nodes.keys().collect::<HashSet<_>>(), p.layout.nodes.keys().collect::<HashSet<_>>(), "json", "nodes");
                for (id, n) in &p.layout.nodes {
                    let g = &nodes[id];
                    let r = &n.rect;
                    ensure_eq!([num(&g["x"]), num(&g["y"]), num(&g["width"]), num(&g["height"])], [r.origin.x, r.origin.y, r.size.width, r.size.height], "json", "node {id:?}");
                }
                let edges = v["edges"].as_array().cloned().unwrap_or_default();
                ensure_eq!(edges.len(), p.layout.edges.len(), "json", "edges");
                for (g, e) in edges.iter().zip(&p.layout.edges) {
                    ensure_eq!((g["from"].as_str(), g["to"].as_str(), g["label"].as_str()), (Some(&e.from[..]), Some(&e.to[..]), e.label.as_deref()), "json", "edge");
                    let pts: Vec<[f64; 2]> = g["points"].as_array().into_iter().flatten().map(|q| [num(&q["x"]), num(&q["y"])]).collect();
                    ensure_eq!(pts, e.points.iter().map(|q| [q.x, q.y]).collect::<Vec<_>>(), "json", "points");
                }
            }
        }
        cx.step()
    }
    cx.state(&(p.layout.nodes.len(), p.layout.edges.len(), svg.len()));
    cx.nontrivial(!p.layout.nodes.is_empty());
    cx.exec();
    Ok(())
}

// ---------------------------------------------------------------- what is tried
const CHARS: &[&str] = &["a", "<", ">", "&", "\"", "'", "é", "𝄞", " ", "]", ";", "\n"];
/// Pieces of texts that are spelled like what writers make of others.
const WRITTEN: &[&str] = &["&", "<", "lt;", "amp;", "#39;", "\\", "u0041", "\""];
fn pair() -> Layout {
    let mut l = Layout::new();
    l.add_node_with_metadata("n".into(), "one".into(), Rect::from_xywh(0.0, 0.0, 10.0, 4.0), NodeType::Default);
    l.add_node_with_metadata("m".into(), "two".into(), Rect::from_xywh(20.0, -6.0, 5.0, 5.0), NodeType::Struct);
    l.add_edge(Edge::new("n".into(), "m".into()).with_points(vec![Point::new(10.0, 2.0), Point::new(20.0, -3.5)]).with_label("to".into()));
    l
}
/// Some text wherever a picture takes one.
fn words(s: &str, cx: &mut Cx) -> Res {
    for place in 0..11 {
        let mut p = Picture::new();
        p.layout = pair();
        let s = s.to_string();
        let all = ElementStyle::new().with_fill("f".into()).with_stroke("s".into(), 1.0).with_text("t".into(), 3.0);
        // attribute values do not keep line ends
        if s.contains('\n') && place > 2 {
            continue;
        }
        match place {
            0 => p.layout.nodes.get_mut("n").unwrap().label = s,
            1 => p.layout.edges[0].label = Some(s),
            2 => p.layout.add_node(s, Rect::from_xywh(3.0, 8.0, 2.0, 2.0)),
            3 => p.config.background_color = s,
            4 => (p.config.node_fill_color, p.config.edge_color) = (s.clone(), s),
            5 => (p.config.node_stroke_color, p.config.text_color) = (s.clone(), s),
            6 => p.config.font_family = s,
            7 => drop(p.nodes.insert("n".into(), all.with_class(s))),
            8 => drop(p.edges.insert("n_m".into(), all.with_class(s.clone()).with_attribute("data-x".into(), s))),
            9 => drop(p.nodes.insert("m".into(), ElementStyle::new().with_fill(s.clone()).with_stroke(s.clone(), 1.0).with_text(s.clone(), 2.0).with_attribute("data-x".into(), s))),
            _ => drop(p.edges.insert("n_m".into(), ElementStyle::new().with_stroke(s.clone(), 0.5).with_text(s, 7.5))),
        }
        check(&p, cx)?
    }
    Ok(())
}
fn some_style(d: &[u64]) -> ElementStyle {
    let mut s = ElementStyle::new();
    let on = |k: usize| d[k] == 1;
    if on(0) {
        s = s.with_fill("red".into())
    }
    if on(1) {
        s = s.with_stroke("blue".into(), 0.25)
    }
    if on(2) {
        s = s.with_text("green".into(), 9.0)
    }
    if on(3) {
        s = s.with_opacity(0.5)
    }
    if on(4) {
        s = s.with_class("mine".into())
    }
    if on(5) {
        s = s.with_attribute("data-a".into(), "1".into())
    }
    if on(6) {
        s = s.with_attribute("data-b".into(), "2".into())
    }
    s
}
const SIZES: [(f64, f64); 3] = [(10.0, 5.0), (0.0, 0.0), (0.1, 1e7)];
const PLACES: [(f64, f64); 5] = [(0.0, 0.0), (-30.5, 7.0), (100.0, -1e6), (0.0, 40.0), (1e-3, 1e-9)];
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = t.pick(4, 5);
    let k = t.pick(2, 3);
    let spots = (PLACES.len() * SIZES.len()) as u64;
    let count = seq::count_upto(spots, k);
    let lines = seq::count_upto(5, 3);
    let e = t.pick(1, 2);
    vec![
        space("any text anywhere", seq::count_upto(CHARS.len() as u64, n), move |i| format!("{:?}", seq::string(CHARS, n, i)), move |i, cx| words(&seq::string(CHARS, n, i), cx)),
        space("texts that look written already", seq::count_upto(WRITTEN.len() as u64, n), move |i| format!("{:?}", seq::string(WRITTEN, n, i)), move |i, cx| words(&seq::string(WRITTEN, n, i), cx)),
        space("styles", 1 << 11, |i| format!("{i:b}"), |i, cx| {
            let d = seq::digits(&[2; 11], i);
            let mut p = Picture::new();
            p.layout = pair();
            p.layout.add_edge(Edge::new("m".into(), "n".into()).with_points(vec![Point::new(1.0, 2.0), Point::new(2.0, 1.0), Point::new(0.0, 0.0)]));
            p.config.show_labels = d[7] == 1;
            p.config.show_arrows = d[8] == 1;
            if d[9] == 1 {
                p.nodes.insert("m".into(), some_style(&d));
                p.nodes.insert("unknown".into(), some_style(&d[1..]));
            }
            else {
                p.nodes.insert("n".into(), some_style(&d));
                p.nodes.insert("m".into(), some_style(&d[1..]));
            }
            if d[10] == 1 {
                p.edges.insert("n_m".into(), some_style(&d));
                p.edges.insert("m_m".into(), some_style(&d[2..]));
            }
            else {
                p.edges.insert("m_n".into(), some_style(&d));
            }
            check(&p, cx)
        }),
        space("places and sizes", count * 4 * 2, move |i| format!("{:?} padding {}", seq::nth(spots, k, i / 8), i % 4), move |i, cx| {
            let mut p = Picture::new();
            p.config.padding = [0.0, 20.0, 0.5, 1000.0][(i % 4) as usize];
            for (j, s) in seq::nth(spots, k, i / 8).into_iter().enumerate() {
                let ((x, y), (w, h)) = (PLACES[s as usize % PLACES.len()], SIZES[s as usize / PLACES.len()]);
                let r = Rect::from_xywh(x, y, w, h);
                match i / 4 % 2 {
                    0 => p.layout.add_node(format!("n{j}"), r),
                    _ => p.layout.add_node_with_metadata(format!("n{j}"), "same".into(), r, NodeType::Enum),
                }
            }
            check(&p, cx)
        }),
        space("edges", lines.pow(e as u32) * 2 * 2, move |i| format!("{:?}", seq::digits(&vec![lines; e], i / 4)), move |i, cx| {
            let mut p = Picture::new();
            p.layout = pair();
            p.config.show_arrows = i % 2 == 0;
            for (j, d) in seq::digits(&vec![lines; e], i / 4).into_iter().enumerate() {
                let points = seq::nth(5, 3, d).into_iter().map(|s| Point::new(PLACES[s as usize].0, PLACES[s as usize].1)).collect();
                let mut edge = Edge::new("m".into(), ["n", "m", "unknown"][(d % 3) as usize].into()).with_points(points);
                if i / 2 % 2 == 0 {
                    edge = edge.with_label(format!("e{j}"))
                }
                p.layout.add_edge(edge)
            }
            check(&p, cx)
        }),
        space("longer edges", 12 * 5 * 4, |i| format!("{} points", i / 20), |i, cx| {
            let mut p = Picture::new();
            p.layout = pair();
            p.config.show_arrows = i % 2 == 0;
            let points = (0..i / 20).map(|k| PLACES[((k * k + i / 4) % 5) as usize]).map(|(x, y)| Point::new(x, y)).collect();
            let edge = Edge::new("n".into(), "m".into()).with_points(points);
            p.layout.add_edge(if i / 2 % 2 == 0 { edge.with_label("way".into()) } else { edge });
            check(&p, cx)
        }),
        space("themes", 6 * 4, |i| format!("{i}"), |i, cx| {
            let mut t = [VisualizationTheme::light, VisualizationTheme::dark, VisualizationTheme::one_light, VisualizationTheme::one_dark_pro, VisualizationTheme::github, VisualizationTheme::default][(i / 4) as usize]();
            t.edge.arrow.enabled = i % 2 == 0;
            t.node.stroke_width = [1.0, 0.5][(i / 2 % 2) as usize];
            let c = t.to_render_config();
            let d = RenderConfig::default();
            ensure_eq!((&c.background_color, &c.node_fill_color, &c.node_stroke_color, &c.edge_color, &c.text_color, &c.font_family), (&t.background_color, &t.node.fill_color, &t.node.stroke_color, &t.edge.color, &t.text.color, &t.text.font_family), "theme", "{t:?}");
            ensure_eq!((c.node_stroke_width, c.edge_width, c.text_size, c.arrow_size), (t.node.stroke_width as f64, t.edge.width as f64, t.text.font_size as f64, t.edge.arrow.size as f64), "theme", "{t:?}");
            ensure_eq!((c.show_arrows, c.show_labels, c.padding, c.canvas_width, c.canvas_height), (t.edge.arrow.enabled, d.show_labels, d.padding, d.canvas_width, d.canvas_height), "theme", "{t:?}");
            let back: VisualizationTheme = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
            ensure_eq!(format!("{back:?}"), format!("{t:?}"), "theme", "written and read");
            let back: RenderConfig = serde_json::from_str(&serde_json::to_string(&c).unwrap()).unwrap();
            ensure_eq!(format!("{back:?}"), format!("{c:?}"), "config", "written and read");
            let mut p = Picture::new();
            p.layout = pair();
            p.config = c;
            check(&p, cx)
        }),
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(256, 1024));
            let n2 = ns.clone();
            space("large pictures", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], ["nodes and edges", "points of an edge", "characters of a label", "attributes"][i as usize % 4]), move |i, cx| {
                let n = ns[i as usize / 4] as usize;
                let mut p = Picture::new();
                match i % 4 {
                    0 => {
                        for k in 0..n {
                            let r = Rect::from_xywh((k * 37 % 100) as f64 * 3.5, -(k as f64) * 2.0, (k % 7) as f64, 4.0);
                            p.layout.add_node_with_metadata(format!("n{k}"), format!("label <{k}>"), r, NodeType::Enum);
                            if k % 5 == 0 {
                                p.nodes.insert(format!("n{k}"), some_style(&seq::digits(&[2; 7], k as u64 % 128)));
                            }
                        }
                        for k in 0..n {
                            let (a, b) = (k, k * 3 % n);
                            let mut e = Edge::new(format!("n{a}"), format!("n{b}")).with_points(vec![Point::new(a as f64, 0.5), Point::new(b as f64, -1.0)]);
                            if k % 2 == 0 {
                                e = e.with_label(format!("e & {k}"))
                            }
                            p.layout.add_edge(e);
                            if k % 3 == 0 {
                                p.edges.insert(format!("n{a}_n{b}"), some_style(&seq::digits(&[2; 7], k as u64 * 5 % 128)));
                            }
                        }
                    }
                    1 => {
                        p.layout = pair();
                        p.layout.add_edge(Edge::new("m".into(), "n".into()).with_points((0..n).map(|k| Point::new(k as f64 / 3.0, (k * k % 50) as f64)).collect()).with_label("way".into()))
                    }
                    2 => {
                        p.layout = pair();
                        p.layout.nodes.get_mut("n").unwrap().label = (0..n).map(|k| CHARS[k % 11]).collect();
                        p.layout.edges[0].label = Some((0..n).map(|k| CHARS[k * 5 % 11]).collect())
                    }
                    _ => {
                        p.layout = pair();
                        let s = (0..n).fold(ElementStyle::new(), |s, k| s.with_attribute(format!("data-{k}"), format!("\"{k}\"")));
                        p.nodes.insert("n".into(), s.clone());
                        p.edges.insert("n_m".into(), s);
                    }
                }
                check(&p, cx)
            })
        },
        each_character("every character wherever a picture takes a text", t, |c, cx| {
        // XML has no way to write the others
        if c < ' ' && !"\n".contains(c) || "\u{fffe}\u{ffff}".contains(c) {
            return Ok(());
        }
        words(&format!("a{c}b"), cx)?;
        words(&c.to_string(), cx)
    }),
    ]
}
