//! P37: documents written with the macros and traits of the printer are the documents they spell.
use crate::toy::*;
use mc_kit::*;
use oak_core::{language::Language, memory::arena::SyntaxArena, tree::RedNode};
use oak_pretty_print::{AsDocument, Doc, Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, LineEnding, ToDocument, define_rules, doc, document::JoinDoc};

fn own(d: Document<'_>) -> Document<'static> {
    match d {
        Document::Nil => Document::Nil,
        Document::Text(t) => Document::Text(t.into_owned().into()),
        Document::Concat(v) => Document::Concat(v.into_iter().map(own).collect()),
        Document::Group(d) => Document::Group(Box::new(own(*d))),
        Document::Indent(d) => Document::Indent(Box::new(own(*d))),
        Document::Line => Document::Line,
        Document::SoftLine => Document::SoftLine,
        Document::SoftLineSpace => Document::SoftLineSpace,
        Document::HardLine => Document::HardLine,
    }
}
include!(concat!(env!("OUT_DIR"), "/docs.rs"));

/// The document without lists in lists and empty parts, which mean nothing.
fn flat(d: &Document<'_>, out: &mut Vec<String>) {
    match d {
        Document::Nil => {}
        Document::Concat(v) => v.iter().for_each(|d| flat(d, out)),
        Document::Group(i) | Document::Indent(i) => {
            let mut inner = Vec::new();
            flat(i, &mut inner);
            out.push(format!("{}{inner:?}", if matches!(d, Document::Group(_)) { "group" } else { "indent" }))
        }
        Document::Text(t) => out.push(format!("{t:?}")),
        Document::Line => out.push("line".into()),
        Document::SoftLine => out.push("soft".into()),
        Document::SoftLineSpace => out.push("space".into()),
        Document::HardLine => out.push("hard".into()),
    }
}
fn same(got: &Document<'_>, want: &Document<'_>, what: &str) -> Res {
    let (mut g, mut w) = (Vec::new(), Vec::new());
    flat(got, &mut g);
    flat(want, &mut w);
    ensure_eq!(g, w, "document", "{what}");
    for width in [0, 1, 2, 3, 4, 6, 80] {
        let c = || FormatConfig { max_width: width, ..FormatConfig::default() };
        ensure_eq!(got.render(c()), want.render(c()), "rendered", "{what} in {width} columns");
    }
    Ok(())
}

// ---------------------------------------------------------------- derived
#[derive(AsDocument)]
struct Unit;
#[derive(AsDocument)]
struct Tuple(String);
#[derive(AsDocument)]
struct Named {
    only: Vec<String>,
}
#[derive(AsDocument)]
#[allow(dead_code)]
struct Two(String, String);
#[derive(AsDocument)]
#[oak(doc = group(["<", self.0.as_str(), soft_line_space, self.1.as_document(), ">"]))]
struct Own(String, Option<String>);
#[derive(AsDocument)]
#[oak(doc = [_self.name.as_str(), indent(line, "end")])]
struct Mine {
    name: String,
}
#[derive(AsDocument)]
struct Wrap<T: AsDocument>(T);
#[derive(AsDocument)]
#[allow(dead_code)]
enum Any {
    Empty,
    One(String),
    Deep(Box<Any>),
    Several(String, String),
    #[oak(doc = "star")]
    Star,
    #[oak(doc = ["(", _self.as_str(), ")"])]
    Around(String),
    #[oak(doc = indent(hard_line, _self.as_str()))]
    Inner { text: String },
    #[oak(doc = [nil, "many"])]
    Many { a: String, b: String },
}
fn words(s: &str) -> Document<'static> {
    Document::Text(s.to_string().into())
}
fn docs_of(v: &[&str]) -> Document<'static> {
    Document::Concat(v.iter().map(|s| words(s)).collect())
}
fn any(d: u64, s: &str, depth: usize) -> (Any, Document<'static>) {
    match d % 8 {
        0 => (Any::Empty, Document::Nil),
        1 => (Any::One(s.into()), words(s)),
        2 if depth > 0 => {
            let (a, d) = any(d / 8, s, depth - 1);
            (Any::Deep(Box::new(a)), d)
        }
        2 => (Any::Deep(Box::new(Any::Star)), words("star")),
        3 => (Any::Several(s.into(), s.into()), Document::Nil),
        4 => (Any::Star, words("star")),
        5 => (Any::Around(s.into()), docs_of(&["(", s, ")"])),
        6 => (Any::Inner { text: s.into() }, Document::Indent(Box::new(Document::Concat(vec![Document::HardLine, words(s)])))),
        _ => (Any::Many { a: s.into(), b: s.into() }, words("many")),
    }
}
fn derived(v: &[String], cx: &mut Cx) -> Res {
    let refs: Vec<&str> = v.iter().map(|s| &s[..]).collect();
    let all = docs_of(&refs);
    let one = v.concat();
    same(&Unit.as_document(), &Document::Nil, "a unit struct")?;
    same(&Two(one.clone(), one.clone()).as_document(), &Document::Nil, "a struct of two fields")?;
    same(&Tuple(one.clone()).as_document(), &words(&one), "a tuple")?;
    same(&Named { only: v.to_vec() }.as_document(), &all, "a field")?;
    same(&Wrap(v.to_vec()).as_document(), &all, "a generic struct")?;
    same(&Wrap(Wrap(v.first().cloned())).as_document(), &v.first().map_or(Document::Nil, |s| words(s)), "nested generic structs")?;
    for second in [None, Some(one.clone())] {
        let want = Document::Group(Box::new(Document::Concat(vec![words("<"), words(&one), Document::SoftLineSpace, second.as_ref().map_or(Document::Nil, |s| words(s)), words(">")])));
        same(&Own(one.clone(), second).as_document(), &want, "a struct with its own document")?;
    }
    same(&Mine { name: one.clone() }.as_document(), &Document::Concat(vec![words(&one), Document::Indent(Box::new(Document::Concat(vec![Document::Line, words("end")])))]), "a struct with a document of _self")?;
    for d in 0..64 {
        let (a, want) = any(d, &one, 1);
        same(&a.as_document(), &want, "a variant")?;
        same(&(&Box::new(Some(&a))).as_document(), &want, "a variant behind references")?;
        cx.step()
    }
    // the traits by hand
    same(&v.as_ref_documents(), &all, "a list")?;
    same(&v.to_vec().as_document(), &all, "a vector")?;
    same(&one.as_document(), &words(&one), "a string")?;
    same(&one[..].as_document(), &words(&one), "a str")?;
    same(&one.clone().to_document(), &words(&one), "a string by value")?;
    same(&(&one).to_document(), &words(&one), "a reference")?;
    same(&all.as_document(), &all, "a document")?;
    same(&all.clone().to_document(), &all, "a document by value")?;
    same(&Document::from(one.clone()), &words(&one), "from a string")?;
    same(&Document::from(&one[..]), &words(&one), "from a str")?;
    same(&Document::from(std::borrow::Cow::Borrowed(&one[..])), &words(&one), "from a cow")?;
    for (sep, what) in [(Document::Nil, "nothing"), (words(","), "commas"), (Document::Concat(vec![words(";"), Document::HardLine]), "lines")] {
        let mut parts = Vec::new();
        for (i, s) in v.iter().enumerate() {
            if i > 0 {
                parts.push(sep.clone())
            }
            parts.push(words(s))
        }
        let want = Document::Concat(parts);
        let docs = || v.iter().map(|s| words(s));
        same(&docs().join_doc(sep.clone()), &want, &format!("joined by {what}"))?;
        same(&Document::join(docs(), sep.clone()), &want, &format!("joined by {what}"))?;
        same(&oak_pretty_print::join(docs(), sep.clone()), &want, &format!("joined by {what}"))?;
        same(&own(doc!(join(v.iter(), sep))), &want, &format!("joined by {what} in a macro"))?;
    }
    let parts = [Document::Nil, words(&one), Document::Line, Document::SoftLine, Document::SoftLineSpace, Document::HardLine];
    let named = [oak_pretty_print::NIL, Document::text(one.clone()), oak_pretty_print::LINE, oak_pretty_print::SOFT_LINE, oak_pretty_print::SOFT_LINE_SPACE, oak_pretty_print::HARD_LINE];
    for (p, n) in parts.iter().zip(&named) {
        same(n, p, "a constant")?;
        same(&Document::group(n.clone()), &Document::Group(Box::new(p.clone())), "a group")?;
        same(&Document::indent(n.clone()), &Document::Indent(Box::new(p.clone())), "an indented part")?;
        same(&oak_pretty_print::indent(n.clone()), &Document::Indent(Box::new(p.clone())), "an indented part")?;
        same(&Document::concat(vec![n.clone(), all.clone()]), &Document::Concat(vec![p.clone(), all.clone()]), "a list")?;
        cx.step()
    }
    cx.state(&one);
    cx.nontrivial(v.len() > 1);
    cx.exec();
    Ok(())
}
trait AsRefDocuments {
    fn as_ref_documents(&self) -> Document<'_>;
}
impl AsRefDocuments for [String] {
    fn as_ref_documents(&self) -> Document<'_> {
        doc!(join(self.iter(), nil))
    }
}

// ---------------------------------------------------------------- rules
fn named(kind: &impl std::fmt::Debug, name: &str) -> bool {
    format!("{kind:?}") == name
}
const HIGH: u8 = 200;
/// Rules with and without each part, the parts in every order.
fn rules<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {
    define_rules! {
        both {
            token(t, c, s) if named(&t.kind, "Word") => Ok(Some(Document::text(format!("<{}{}>", &s[t.span.start..t.span.end], c.depth)))),
            priority: HIGH,
            node(n, c, s, f) if named(&n.green.kind, "Plain") => {
                let inner = f(n)?;
                Ok(Some(Document::concat(vec![Document::text(format!("({}{}", c.depth, s.len())), inner, Document::text(")")])))
            }
        }
        bare { priority: 1 + 2 }
        only_node {
            priority: 4,
            node(def, _c, _s, _f) if named(&def.green.kind, "Def") || named(&def.green.kind, "Plain") => Ok(if def.offset > 2 { Some(Document::text("far")) } else { None }),
        }
        only_token { token(name, _c, _s) if named(&name.kind, "Name") => Ok((name.span.start > 0).then(|| Document::text("later"))) priority: 0, }
    }
}
fn ruled(t: &Tree, at: &mut usize, depth: usize, len: usize, out: &mut String) {
    match t {
        Tree::Leaf(k, s) => {
            match k {
                T::Word => *out += &format!("<{s}{depth}>"),
                T::Name if *at > 0 => *out += "later",
                _ => *out += s,
            }
            *at += s.len()
        }
        Tree::Node(k, c) => {
            if *k == N::Def && *at > 2 {
                *out += "far";
                fn skip(t: &Tree, at: &mut usize) {
                    match t {
                        Tree::Leaf(_, s) => *at += s.len(),
                        Tree::Node(_, c) => c.iter().for_each(|t| skip(t, at)),
                    }
                }
                return skip(t, at);
            }
            if *k == N::Plain {
                *out += &format!("({}{len}", depth + 1)
            }
            for t in c {
                ruled(t, at, depth + 1, len, out)
            }
            if *k == N::Plain {
                *out += ")"
            }
        }
    }
}
fn defined(p: &[Tk], cx: &mut Cx) -> Res {
    let all = rules::<Toy>();
    let facts: Vec<(&str, u8)> = all.iter().map(|r| (r.name(), r.priority())).collect();
    ensure_eq!(facts, vec![("both", 200), ("bare", 3), ("only_node", 4), ("only_token", 0)], "rules", "names and priorities");
    let mut c = FormatConfig::new().with_line_ending(LineEnding::Unix);
    (c.trim_trailing_whitespace, c.insert_final_newline, c.max_width) = (false, false, 1000);
    let mut f = Formatter::<Toy>::new(c);
    for r in all {
        ensure!(f.add_rule(r).is_ok(), "rules", "refused")
    }
    let t = tree(N::Root, p);
    let source = crate::toy::text(p);
    let arena = SyntaxArena::new(4);
    let got = f.format(&RedNode::new(root(&arena, &t), 0), &source).map_err(|e| Fail { kind: "error".into(), detail: format!("{e:?}") })?;
    let mut want = String::new();
    ruled(&t, &mut 0, 0, source.len(), &mut want);
    ensure_eq!(got.content, want, "rules", "{}", show(p));
    cx.state(&want);
    cx.nontrivial(p.len() > 1);
    cx.step();
    cx.exec();
    Ok(())
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let docs: &'static Vec<(&str, Document, Document)> = Box::leak(Box::new(all()));
    let trees: &'static Vec<Vec<Tk>> = Box::leak(Box::new(forests_upto(&[(T::Name, "a"), (T::Word, "é"), (T::Blank, " ")], &[N::Plain, N::Def], t.pick(6, 8))));
    const WORDS: [&str; 5] = ["a", "é中", "", "b\nc", " "];
    let n = t.pick(6, 8);
    vec![
        space("every small document in the macro", docs.len() as u64, |i| docs[i as usize].0.to_string(), |i, cx| {
            let (s, got, want) = &docs[i as usize];
            same(got, want, s)?;
            cx.state(&s);
            cx.nontrivial(s.contains(','));
            cx.step();
            cx.exec();
            Ok(())
        }),
        space("derived and by hand", seq::count_upto(5, n), move |i| format!("{:?}", seq::nth(5, n, i)), move |i, cx| derived(&seq::nth(5, n, i).into_iter().map(|k| WORDS[k as usize].to_string()).collect::<Vec<_>>(), cx)),
        space("defined rules", trees.len() as u64, move |i| show(&trees[i as usize]), move |i, cx| defined(&trees[i as usize], cx)),
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(256, 1024));
            let n2 = ns.clone();
            space("many parts, large trees", 2 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 2], ["words", "nodes"][i as usize % 2]), move |i, cx| {
                let n = ns[i as usize / 2] as usize;
                if i % 2 == 0 {
                    return derived(&(0..n).map(|k| WORDS[k * 3 % 5].to_string()).collect::<Vec<_>>(), cx);
                }
                for which in 0..4 {
                    let p = shape(&[(T::Name, "a"), (T::Word, "é"), (T::Blank, " ")], &[N::Plain, N::Def, N::Plain], n, which);
                    // the line of this formatter ends at 1000
                    if n <= 70 {
                        defined(&p, cx)?
                    }
                }
                Ok(())
            })
        },
    ]
}
