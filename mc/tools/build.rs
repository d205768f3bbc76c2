//! Spells out every small document as a `doc!` call next to the document it should give, so that the
//! macro is run on all of them when the harness is compiled (p37.rs compares the values).
use std::{env, fmt::Write, fs, path::Path};

#[derive(Clone)]
enum D {
    Leaf(&'static str, &'static str),
    Many(&'static str, Vec<D>),
}
const LEAVES: [(&str, &str); 13] = [
    ("\"a\"", "Document::Text(\"a\".into())"),
    ("line", "Document::Line"),
    ("word.as_str()", "Document::Text(\"wörd\".into())"),
    ("nil", "Document::Nil"),
    ("soft_line", "Document::SoftLine"),
    ("soft_line_space", "Document::SoftLineSpace"),
    ("hard_line", "Document::HardLine"),
    ("\"é\\n\"", "Document::Text(\"é\\n\".into())"),
    ("word.clone()", "Document::Text(\"wörd\".into())"),
    ("(if word.len() > 3 { Document::Line } else { Document::Nil })", "Document::Line"),
    ("join(words.clone(), \",\")", "Document::Concat(vec![Document::Text(\"x\".into()), Document::Text(\",\".into()), Document::Text(\"y\".into())])"),
    ("join(words.iter().take(1), soft_line)", "Document::Concat(vec![Document::Text(\"x\".into())])"),
    (
        "join(words.iter().rev(), [\",\", line])",
        "Document::Concat(vec![Document::Text(\"y\".into()), Document::Concat(vec![Document::Text(\",\".into()), Document::Line]), Document::Text(\"x\".into())])",
    ),
];
/// All lists of documents of `n` items over the first `leaves` leaves.
fn lists(n: usize, leaves: usize) -> Vec<Vec<D>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for first in 1..=n {
        for d in docs(first, leaves) {
            for rest in lists(n - first, leaves) {
                out.push([vec![d.clone()], rest].concat())
            }
        }
    }
    out
}
fn docs(n: usize, leaves: usize) -> Vec<D> {
    let mut out = Vec::new();
    if n == 1 {
        out.extend(LEAVES[..leaves].iter().map(|l| D::Leaf(l.0, l.1)));
    }
    for inner in lists(n - 1, leaves) {
        out.push(D::Many("", inner.clone()));
        if !inner.is_empty() {
            out.push(D::Many("group", inner.clone()));
            out.push(D::Many("indent", inner));
        }
    }
    out
}
fn list(v: &[D], f: fn(&D) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(", ")
}
fn spelled(d: &D) -> String {
    match d {
        D::Leaf(s, _) => s.to_string(),
        D::Many("", v) => format!("[{}]", list(v, spelled)),
        D::Many(k, v) => format!("{k}({})", list(v, spelled)),
    }
}
fn meant(d: &D) -> String {
    match d {
        D::Leaf(_, s) => s.to_string(),
        D::Many(k, v) => {
            let inner = format!("Document::Concat(vec![{}])", list(v, meant));
            match *k {
                "group" => format!("Document::Group(Box::new({inner}))"),
                "indent" => format!("Document::Indent(Box::new({inner}))"),
                _ => inner,
            }
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut all: Vec<(String, String)> = Vec::new();
    for (n, leaves) in [(1, LEAVES.len()), (2, LEAVES.len()), (3, 3), (4, 1)] {
        for v in lists(n, leaves) {
            let want = format!("Document::Concat(vec![{}])", list(&v, meant));
            let text = list(&v, spelled);
            if n < 3 {
                all.push((format!("{text},"), want.clone()))
            }
            all.push((text, want))
        }
    }
    let mut out = String::new();
    let mut names = String::new();
    for (k, part) in all.chunks(40).enumerate() {
        writeln!(out, "fn part{k}(word: &String, words: &Vec<String>, out: &mut Vec<(&'static str, Document<'static>, Document<'static>)>) {{").unwrap();
        for (text, want) in part {
            writeln!(out, "    out.push(({text:?}, own(doc!({text})), {want}));").unwrap()
        }
        writeln!(out, "}}").unwrap();
        writeln!(names, "    part{k}(&word, &words, &mut out);").unwrap()
    }
    writeln!(out, "pub fn all() -> Vec<(&'static str, Document<'static>, Document<'static>)> {{\n    let word = String::from(\"wörd\");\n    let words = vec![String::from(\"x\"), String::from(\"y\")];\n    let mut out = Vec::new();\n{names}    out\n}}").unwrap();
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("docs.rs"), out).unwrap()
}
