//! P33: symbol outlines, references and search chunks come straight from the tree: every definition
//! once, in order, with its own name, place and container; every name token with the asked text.
use crate::toy::*;
use mc_kit::*;
use oak_core::{
    language::UniversalElementRole,
    memory::arena::SyntaxArena,
    source::{ChunkedBuffer, SourceText},
    tree::RedNode,
};
use oak_navigation::SimpleReferenceFinder;
use oak_semantic_search::{NoSemanticSearch, SemanticSearch, SemanticSearcher};
use oak_symbols::{SymbolInformation, SymbolProvider, UniversalSymbolProvider};

/// name, start, end, container
pub type Sym = (String, usize, usize, Option<String>);
fn width(t: &Tree) -> usize {
    match t {
        Tree::Leaf(_, s) => s.len(),
        Tree::Node(_, c) => c.iter().map(width).sum(),
    }
}
pub fn is_def(k: N) -> bool {
    matches!(k, N::Def | N::Role(UniversalElementRole::Definition))
}
/// What the outline of a tree is.
pub fn outline(t: &Tree, at: usize, inside: Option<&str>, out: &mut Vec<Sym>) {
    let Tree::Node(k, c) = t
    else { return };
    let mut own = None;
    if is_def(*k) {
        let named = c.iter().find_map(|x| if let Tree::Leaf(T::Name | T::Role(oak_core::language::UniversalTokenRole::Name), s) = x { Some(s.to_string()) } else { None });
        let name = named.unwrap_or(format!("<{k:?}>"));
        out.push((name.clone(), at, at + width(t), inside.map(|s| s.to_string())));
        own = Some(name);
    }
    let inside = own.as_deref().or(inside);
    let mut p = at;
    for x in c {
        outline(x, p, inside, out);
        p += width(x)
    }
}
pub fn facts(v: Vec<SymbolInformation>, uri: &str) -> std::result::Result<Vec<Sym>, Fail> {
    v.into_iter()
        .map(|s| {
            ensure_eq!(s.uri.to_string(), uri.to_string(), "uri", "of symbol {:?}", s.name);
            ensure_eq!(s.role, UniversalElementRole::Definition, "role", "of symbol {:?}", s.name);
            Ok((s.name, s.range.start, s.range.end, s.container_name))
        })
        .collect()
}
fn names(t: &Tree, at: &mut usize, want: &str, out: &mut Vec<(usize, usize)>) {
    match t {
        Tree::Leaf(k, s) => {
            if *k == T::Name && *s == want {
                out.push((*at, *at + s.len()))
            }
            *at += s.len()
        }
        Tree::Node(_, c) => c.iter().for_each(|x| names(x, at, want, out)),
    }
}
const URI: &str = "file:///é a.toy";
const LEAVES: [(T, &str); 5] = [(T::Name, "a"), (T::Name, "né"), (T::Word, "a"), (T::Blank, "\n"), (T::Name, "")];
const NODES: [N; 3] = [N::Def, N::Plain, N::Role(UniversalElementRole::Statement)];

/// One tree, whole text and text in chunks, and as a part of a longer text.
fn one(p: &[Tk], root_kind: N, cx: &mut Cx) -> Res {
    let t = tree(root_kind, p);
    let text = text(p);
    let arena = SyntaxArena::default();
    let green = root(&arena, &t);
    for before in ["", "≠ "] {
        let red = RedNode::new(green, before.len());
        let full = format!("{before}{text} ;");
        let mut want = Vec::new();
        outline(&t, before.len(), None, &mut want);
        let provider = UniversalSymbolProvider::new();
        let whole = SourceText::new(full.clone());
        let got = facts(provider.document_symbols(URI, &red, &whole), URI)?;
        ensure_eq!(got, want, "outline", "of {:?} at {}", t, before.len());
        let got = facts(provider.document_symbols(URI, &red, full.as_str()), URI)?;
        ensure_eq!(got, want, "outline", "of {:?} at {} from a string", t, before.len());
        let mut cut = ChunkedBuffer::new();
        for c in full.chars() {
            cut.push_str(&c.to_string());
        }
        let got = facts(provider.document_symbols(URI, &red, &cut), URI)?;
        ensure_eq!(got, want, "outline", "of {:?} at {} from chunks", t, before.len());
        cx.nontrivial(!want.is_empty());
        cx.exec();
        cx.state(&want);
        let own = p.iter().filter_map(|x| if let Tk::L(_, s) = x { Some(*s) } else { None }).filter(|s| s.len() < 9).take(2);
        for name in ["a", "né", "n", "", "b", "\n"].into_iter().chain(own) {
            let mut at = before.len();
            let mut want = Vec::new();
            names(&t, &mut at, name, &mut want);
            let got = SimpleReferenceFinder::find(&red, name, &full, URI);
            for l in &got {
                ensure_eq!(l.uri.to_string(), URI.to_string(), "uri", "of a reference");
            }
            let got: Vec<(usize, usize)> = got.iter().map(|l| (l.range.start, l.range.end)).collect();
            ensure_eq!(got, want, "references", "to {:?} in {:?} at {}", name, t, before.len());
            cx.step();
        }
        let searcher = futures::executor::block_on(SemanticSearcher::new("db")).unwrap();
        ensure!(futures::executor::block_on(searcher.index_code(red, &full, "table")).is_ok(), "index", "indexing fails for {t:?}");
        cx.steps(3);
    }
    ensure!(futures::executor::block_on(NoSemanticSearch.search(&text, p.len())).is_err(), "search", "the disabled search answers");
    Ok(())
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = t.pick(7, 8);
    let all = std::sync::Arc::new(forests_upto(&LEAVES, &NODES, n));
    let b = all.clone();
    let deep = std::sync::Arc::new(forests(&[(T::Name, "a"), (T::Name, "long name of a thing, é")], &[N::Def, N::Plain], t.pick(9, 10)));
    let d = deep.clone();
    let roles = std::sync::Arc::new(forests_upto(&[(T::Name, "a"), (T::Role(oak_core::language::UniversalTokenRole::Keyword), "fn")], &[N::Def, N::Ref, N::Role(UniversalElementRole::Binding), N::Role(UniversalElementRole::Container), N::Role(UniversalElementRole::Documentation)], t.pick(5, 6)));
    let r = roles.clone();
    vec![
        space(&format!("trees of up to {n} items"), all.len() as u64, move |i| show(&all[i as usize]), move |i, cx| one(&b[i as usize], N::Root, cx)),
        space("deeper trees of names", deep.len() as u64, move |i| show(&deep[i as usize]), move |i, cx| one(&d[i as usize], N::Root, cx)),
        space(
            "other roles, the root too",
            roles.len() as u64 * 2,
            move |i| format!("{} {}", if i % 2 == 0 { "definition" } else { "plain" }, show(&roles[i as usize / 2])),
            move |i, cx| one(&r[i as usize / 2], if i % 2 == 0 { N::Def } else { N::Plain }, cx),
        ),
        {
            let far = std::sync::Arc::new(behind(&forests_upto(&LEAVES, &NODES, t.pick(4, 5)), T::Word));
            let f2 = far.clone();
            space("trees behind 2^16 bytes", far.len() as u64, move |i| brief(&far[i as usize]), move |i, cx| one(&f2[i as usize], N::Root, cx))
        },
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(256, 1024));
            let n2 = ns.clone();
            space("large trees", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], SHAPES[i as usize % 4]), move |i, cx| {
                let p = shape(&LEAVES[..4], &[N::Def, N::Plain, N::Def], ns[i as usize / 4] as usize, i as usize % 4);
                one(&p, N::Root, cx)
            })
        },
        each_character("every character as a name, in a name and in other text", t, |c, cx| {
            let (a, b) = (keep(c.to_string()), keep(format!("n{c}é")));
            one(&[Tk::Open(N::Def), Tk::L(T::Word, a), Tk::L(T::Name, a), Tk::Open(N::Plain), Tk::L(T::Name, b), Tk::Open(N::Def), Tk::L(T::Name, b), Tk::L(T::Name, "a"), Tk::End, Tk::End, Tk::End], N::Root, cx)
        }),
    ]
}
