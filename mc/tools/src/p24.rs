//! P24: what the language service does by itself: definitions, outlines, symbol search, file lists
//! and several roots come from the tree, the index, the resolver and the file system as they are,
//! and what goes over the wire comes back unchanged.
use crate::p18::scratch;
use crate::p33::{Sym, outline};
use crate::toy::*;
use futures::executor::block_on;
use mc_kit::*;
use oak_core::{language::UniversalElementRole, memory::arena::SyntaxArena, tree::RedNode};
use oak_lsp::service::LanguageService;
use oak_lsp::types::*;
use oak_lsp::workspace::WorkspaceManager;
use oak_symbols::SymbolInformation;
use oak_vfs::{DiskVfs, MemoryVfs, WritableVfs};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A future that is ready after some polls.
struct Later(u32);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Doc {
    uri: String,
    arena: SyntaxArena,
    tree: Tree,
    late: u32,
}
struct Server<V: WritableVfs> {
    vfs: V,
    ws: WorkspaceManager,
    docs: Vec<Doc>,
}
// SAFETY: the harness uses a server from one thread only.
unsafe impl<V: WritableVfs> Send for Server<V> {}
unsafe impl<V: WritableVfs> Sync for Server<V> {}
impl<V: WritableVfs + Send + Sync> LanguageService for Server<V> {
    type Lang = Toy;
    type Vfs = V;
    fn vfs(&self) -> &V {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Toy>>> + Send + '_ {
        let k = self.docs.iter().position(|d| d.uri == uri);
        async move {
            Later(k.map_or(1, |k| self.docs[k].late)).await;
            let d = &self.docs[k?];
            Some(RedNode::new(root(&d.arena, &d.tree), 0))
        }
    }
}
fn memory(docs: &[(&str, Tree, u32)]) -> Server<MemoryVfs> {
    Server { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), docs: docs.iter().map(|(u, t, late)| Doc { uri: u.to_string(), arena: SyntaxArena::default(), tree: t.clone(), late: *late }).collect() }
}
fn sym(name: &str, uri: &str, at: usize, inside: Option<&str>, role: UniversalElementRole) -> SymbolInformation {
    SymbolInformation { name: name.into(), role, uri: uri.into(), range: (at..at + 2).into(), container_name: inside.map(|s| s.into()) }
}

// ---------------------------------------------------------------- definition
#[derive(Clone, Debug, PartialEq)]
enum At {
    Nothing,
    /// a token directly below the root
    Token(usize, usize),
    /// the outermost reference around the position
    Reference(usize, usize),
}
fn len(t: &Tree) -> usize {
    match t {
        Tree::Leaf(_, s) => s.len(),
        Tree::Node(_, c) => c.iter().map(len).sum(),
    }
}
fn at(t: &Tree, start: usize, offset: usize, top: bool) -> At {
    let Tree::Node(k, c) = t
    else { return At::Nothing };
    if *k == N::Ref {
        return At::Reference(start, start + len(t));
    }
    let mut p = start;
    for x in c {
        let e = p + len(x);
        if (p..e).contains(&offset) {
            return match x {
                Tree::Leaf(..) if top => At::Token(p, e),
                _ => at(x, p, offset, false),
            };
        }
        p = e;
    }
    At::Nothing
}
const DOC: &str = "file:///é/doc.toy";
const LEAVES: [(T, &str); 4] = [(T::Name, "a"), (T::Name, "né"), (T::Word, "w"), (T::Blank, "\n")];
const NODES: [N; 3] = [N::Ref, N::Def, N::Plain];
/// The definition asked for at every position of one document.
fn definitions(p: &[Tk], uri: &str, prepare: impl Fn(&Server<MemoryVfs>), resolve: impl Fn(&str) -> Option<(String, usize, usize)>, cx: &mut Cx) -> Res {
    let t = tree(N::Root, p);
    let text = text(p);
    let mut s = memory(&[(uri, t.clone(), 1)]);
    prepare(&s);
    ensure!(block_on(s.definition(uri, (0..0).into())).is_empty(), "definition", "of a document without text");
    s.vfs.write_file(uri, text.as_str());
    for offset in (0..=text.len() + 1).filter(|o| text.len() < 60000 || *o < 2 || o.abs_diff(65536) < 2 || o + 9 > text.len()) {
        let want: Vec<(String, usize, usize)> = match at(&t, 0, offset, true) {
            At::Nothing => vec![],
            At::Token(a, b) => vec![(uri.to_string(), a, b)],
            At::Reference(a, b) => resolve(&text[a..b]).into_iter().collect(),
        };
        for end in [offset, offset + 3] {
            let got: Vec<_> = block_on(s.definition(uri, (offset..end).into())).into_iter().map(|l| (l.uri.to_string(), l.range.start, l.range.end)).collect();
            cx.state(&(&got, offset));
            ensure_eq!(got, want, "definition", "at {offset}..{end} of {text:?}");
            cx.step();
            cx.exec();
        }
        if !want.is_empty() && offset < text.len() {
            cx.nontrivial(true);
        }
    }
    s.docs.clear();
    ensure!(block_on(s.definition(uri, (0..0).into())).is_empty(), "definition", "of a document without a tree");
    Ok(())
}
fn table(s: &Server<MemoryVfs>) {
    use UniversalElementRole as R;
    s.ws.symbols.update_file_symbols("file:///lib".into(), vec![sym("a", "file:///lib", 3, None, R::Definition), sym("w", "file:///lib", 5, Some("K"), R::Definition), sym("aw", "file:///lib", 7, None, R::Typing)]);
    s.ws.symbols.update_file_symbols(DOC.into(), vec![sym("né", DOC, 9, None, R::Binding)]);
}
fn in_table(name: &str) -> Option<(String, usize, usize)> {
    match name {
        "a" => Some(("file:///lib".into(), 3, 5)),
        "aw" => Some(("file:///lib".into(), 7, 9)),
        "né" => Some((DOC.into(), 9, 11)),
        _ => None,
    }
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// References that are files: beside the document, below a root, and known as a symbol as well.
fn modules(p: &[Tk], cx: &mut Cx) -> Res {
    let dir = Scratch(scratch("lsp").canonicalize().unwrap());
    let mk = |rel: &str| {
        let f = dir.0.join(rel);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(&f, "").unwrap();
        url::Url::from_file_path(&f).unwrap().to_string()
    };
    let doc = mk("src/doc.toy");
    let (a, ne, w) = (mk("src/a"), mk("src/né"), mk("root/w"));
    mk("root/né");
    definitions(
        p,
        &doc,
        |s| {
            s.ws.initialize(&InitializeParams { root_uri: Some(url::Url::from_file_path(dir.0.join("root")).unwrap().to_string()), workspace_folders: vec![] });
            s.ws.symbols.update_file_symbols("file:///lib".into(), vec![sym("a", "file:///lib", 3, None, UniversalElementRole::Definition)]);
        },
        |name| match name {
            "a" => Some(("file:///lib".into(), 3, 5)),
            "né" => Some((ne.clone(), 0, 0)),
            "w" => Some((w.clone(), 0, 0)),
            _ => None,
        },
        cx,
    )?;
    let _ = a;
    Ok(())
}

// ---------------------------------------------------------------- outline and symbol search
const ROLES: [UniversalElementRole; 16] = {
    use UniversalElementRole::*;
    [Root, Container, Definition, Binding, Reference, Typing, Documentation, Metadata, Attribute, Statement, Expression, Call, Value, Error, Name, None]
};
fn kind(role: UniversalElementRole) -> SymbolKind {
    use UniversalElementRole::*;
    match role {
        Root => SymbolKind::File,
        Container => SymbolKind::Module,
        Binding | Reference | Expression => SymbolKind::Variable,
        Typing => SymbolKind::Class,
        Metadata | Attribute => SymbolKind::Property,
        Documentation => SymbolKind::String,
        Value => SymbolKind::Constant,
        Error => SymbolKind::Null,
        _ => SymbolKind::Function,
    }
}
fn items(got: Vec<StructureItem>) -> std::result::Result<Vec<(String, UniversalElementRole, SymbolKind, usize, usize)>, Fail> {
    got.into_iter()
        .map(|s| {
            ensure!(s.children.is_empty() && !s.deprecated && s.detail.is_none(), "outline", "extra facts in {s:?}");
            ensure_eq!(s.selection_range, s.range, "outline", "selection");
            Ok((s.name, s.role, s.kind, s.range.start, s.range.end))
        })
        .collect()
}
/// Indexed symbols of the document: none, or some.
fn indexed(which: u64) -> Vec<SymbolInformation> {
    match which {
        0 => vec![],
        1 => vec![sym("a", DOC, 0, None, ROLES[2])],
        _ => ROLES.iter().enumerate().map(|(k, r)| sym(["a", "né", "x"][k % 3], DOC, k, [None, Some("K")][k % 2], *r)).collect(),
    }
}
fn outlines(p: &[Tk], which: u64, have: u64, cx: &mut Cx) -> Res {
    let t = tree(N::Root, p);
    let text = text(p);
    let doc = [(DOC, t.clone(), 2)];
    let s = memory(&doc[..(have & 1) as usize]);
    if have & 2 == 2 {
        s.vfs.write_file(DOC, text.as_str());
    }
    let mine = indexed(which);
    s.ws.symbols.update_file_symbols("file:///lib".into(), vec![sym("other", "file:///lib", 3, None, ROLES[3])]);
    s.ws.symbols.update_file_symbols(DOC.into(), mine.clone());
    let want: Vec<_> = if have != 3 {
        vec![]
    }
    else if mine.is_empty() {
        let mut v: Vec<Sym> = vec![];
        outline(&t, 0, None, &mut v);
        v.into_iter().map(|(name, a, b, _)| (name, ROLES[2], SymbolKind::Function, a, b)).collect()
    }
    else {
        mine.iter().map(|x| (x.name.clone(), x.role, kind(x.role), x.range.start, x.range.end)).collect()
    };
    let got = items(block_on(s.document_symbols(DOC)))?;
    cx.exec();
    cx.state(&format!("{got:?}"));
    ensure_eq!(got, want, "outline", "of {text:?}");
    if !want.is_empty() {
        cx.nontrivial(true);
    }
    for q in ["", "a", "né", "K", "K::", "other", "zz"] {
        let all = mine.iter().cloned().chain([sym("other", "file:///lib", 3, None, ROLES[3])]);
        let mut want: Vec<_> = all
            .filter(|x| x.container_name.as_ref().map_or(x.name.clone(), |c| format!("{c}::{}", x.name)).contains(q))
            .map(|x| format!("{:?}", (x.name, kind(x.role), x.uri.to_string(), x.range, x.container_name)))
            .collect();
        let mut got: Vec<_> = block_on(s.workspace_symbols(q.into())).into_iter().map(|x| format!("{:?}", (x.name, x.kind, x.location.uri.to_string(), x.location.range, x.container_name))).collect();
        want.sort();
        got.sort();
        ensure_eq!(got, want, "search", "for {q:?}");
        cx.step();
    }
    Ok(())
}

// ---------------------------------------------------------------- several roots
const URIS: [&str; 4] = ["a", "b", "c", "none"];
fn several(list: &[usize], late: &[usize], cx: &mut Cx) -> Res {
    let docs: Vec<(&str, Tree, u32)> = (0..3).map(|k| (URIS[k], tree(N::Root, &vec![Tk::L(T::Word, "w"); k + 1]), late[k] as u32)).collect();
    let s = memory(&docs);
    let got = block_on(s.with_roots(list.iter().map(|k| URIS[*k].to_string()).collect(), |r| r.span().end));
    let want: Vec<usize> = list.iter().filter(|k| **k < 3).map(|k| k + 1).collect();
    cx.exec();
    cx.state(&got);
    ensure_eq!(got, want, "roots", "of {list:?} arriving {late:?}");
    for (k, u) in URIS.iter().enumerate() {
        let got = block_on(s.with_root(u, |r| r.span().end));
        ensure_eq!(got, (k < 3).then_some(k + 1), "root", "of {u}");
        cx.step();
    }
    cx.nontrivial(true);
    Ok(())
}

// ---------------------------------------------------------------- files
const PATHS: [(&str, bool); 9] = [("a.x", true), ("d/b.x", true), ("d/e/c.x", true), ("d/e/ü z.x", true), ("d/empty", false), ("é d/f.x", true), ("é d/g", false), ("z", false), ("d/e.x", true)];
fn files(mask: u64, cx: &mut Cx) -> Res {
    let dir = Scratch(scratch("lsp").canonicalize().unwrap());
    for (k, (p, file)) in PATHS.iter().enumerate() {
        if mask >> k & 1 == 1 {
            let f = dir.0.join(p);
            std::fs::create_dir_all(if *file { f.parent().unwrap() } else { &f }).unwrap();
            if *file {
                std::fs::write(&f, "x").unwrap()
            }
        }
    }
    let s = Server { vfs: DiskVfs::new(dir.0.clone()), ws: WorkspaceManager::new(), docs: vec![] };
    // the names of files on disk are their paths
    let uri = |p: &str| dir.0.join(p).to_str().unwrap().to_string();
    for below in ["", "d", "d/e", "é d", "z", "a.x", "d/e/c.x", "nothing", "d/e.x"] {
        for absolute in [true, false] {
            let start = if !absolute { below.to_string() } else if below.is_empty() { dir.0.to_str().unwrap().into() } else { uri(below) };
            let mut got = block_on(s.list_all_files(&start));
            let mut want: Vec<String> = PATHS
                .iter()
                .enumerate()
                .filter(|(k, (p, file))| mask >> k & 1 == 1 && *file && (below.is_empty() || *p == below || p.starts_with(&format!("{below}/"))))
                .map(|(_, (p, _))| if *p == below { start.clone() } else { uri(p) })
                .collect();
            got.sort();
            want.sort();
            cx.nontrivial(!want.is_empty());
            cx.exec();
            cx.state(&got.len());
            ensure_eq!(got, want, "files", "below {below:?}");
            cx.step();
        }
    }
    ensure!(block_on(s.list_all_files("no uri")).is_empty(), "files", "below what is no file");
    Ok(())
}

/// Links on disk: what they point to is listed under their name.
const LINKS: [(&str, &str, &[&str]); 5] = [("d/file", "../a.x", &["d/file"]), ("d/folder", "../z", &["d/folder/b.x"]), ("nowhere", "none", &[]), ("self", "self", &[]), ("in", "d/e", &["in/c.x"])];
fn links(i: u64, cx: &mut Cx) -> Res {
    let dir = Scratch(scratch("lsp").canonicalize().unwrap());
    let mut want = vec!["a.x", "d/e/c.x", "z/b.x"];
    for f in &want {
        std::fs::create_dir_all(dir.0.join(f).parent().unwrap()).unwrap();
        std::fs::write(dir.0.join(f), "x").unwrap()
    }
    for (k, (name, to, files)) in LINKS.iter().enumerate() {
        if i >> k & 1 == 1 {
            std::os::unix::fs::symlink(to, dir.0.join(name)).unwrap();
            want.extend(*files)
        }
    }
    if i >> LINKS.len() == 1 {
        std::os::unix::fs::symlink(".", dir.0.join("loop")).unwrap()
    }
    let s = Server { vfs: DiskVfs::new(dir.0.clone()), ws: WorkspaceManager::new(), docs: vec![] };
    let mut got = block_on(s.list_all_files(dir.0.to_str().unwrap()));
    let mut want: Vec<String> = want.iter().map(|p| dir.0.join(p).to_str().unwrap().to_string()).collect();
    got.sort();
    want.sort();
    cx.nontrivial(i > 0);
    cx.exec();
    cx.state(&got.len());
    cx.step();
    ensure!(got == want, "links", "{} names, not {}; the last {}", got.len(), want.len(), got.last().map(|s| s.len()).unwrap_or(0));
    Ok(())
}

// ---------------------------------------------------------------- the wire
const TEXTS: [&str; 5] = ["", "né", "a\"\\\n\t\u{0}", "𝄞</script>", "file:///a%20b"];
const SPOTS: [(usize, usize); 4] = [(0, 0), (3, 9), (7, 2), (0, usize::MAX)];
fn opt<T>(yes: bool, t: T) -> Option<T> {
    yes.then_some(t)
}
fn round<T: serde::Serialize + for<'a> serde::Deserialize<'a> + std::fmt::Debug>(t: &T, parts: &[(&str, serde_json::Value)], cx: &mut Cx) -> Res {
    let v = match serde_json::to_value(t) {
        Ok(v) => v,
        Err(e) => return fail("wire", format!("{t:?} cannot be written: {e}")),
    };
    for (at, part) in parts {
        ensure_eq!(v.pointer(at).cloned(), Some(part.clone()), "wire", "at {at} of {t:?}");
    }
    let text = serde_json::to_string(t).unwrap();
    cx.exec();
    cx.state(&text);
    for back in [serde_json::from_value::<T>(v), serde_json::from_str::<T>(&text), serde_json::from_slice::<T>(text.as_bytes()), serde_json::from_reader::<_, T>(text.as_bytes())] {
        match back {
            Ok(b) => ensure_eq!(format!("{b:?}"), format!("{t:?}"), "wire", "{text}"),
            Err(e) => return fail("wire", format!("{text} cannot be read: {e}")),
        }
        cx.step();
    }
    Ok(())
}
fn wire(i: u64, cx: &mut Cx) -> Res {
    use serde_json::json;
    let d = seq::digits(&[TEXTS.len() as u64, SPOTS.len() as u64, 16, ROLES.len() as u64], i);
    let (s, (a, b), m, role) = (TEXTS[d[0] as usize].to_string(), SPOTS[d[1] as usize], d[2], ROLES[d[3] as usize]);
    let r: core::range::Range<usize> = core::range::Range { start: a, end: b };
    let rj = json!({"start": a, "end": b});
    let bit = |k: u64| m >> k & 1 == 1;
    let kind = SymbolKind::from(role);
    let loc = LocationRange { uri: s.as_str().into(), range: r };
    let span = |a: usize, b: usize| LspRange { start: Position { line: a as u32, character: b as u32 }, end: Position { line: b as u32, character: a as u32 } };
    round(&loc, &[("/uri", json!(s)), ("/range", rj.clone())], cx)?;
    round(&Location { uri: s.as_str().into(), range: span(a, b) }, &[("/uri", json!(s)), ("/range/start/line", json!(a as u32)), ("/range/end/character", json!(a as u32))], cx)?;
    round(&oak_navigation::Location { uri: s.as_str().into(), range: r }, &[("/uri", json!(s)), ("/range", rj.clone())], cx)?;
    ensure_eq!(LocationRange::from(oak_navigation::Location { uri: s.as_str().into(), range: r }), loc.clone(), "convert", "navigation location");
    ensure_eq!(Location::from(oak_navigation::Location { uri: s.as_str().into(), range: r }), Location { uri: s.as_str().into(), range: r }, "convert", "navigation location");
    ensure_eq!(LocationRange::from(Location::from(loc.clone())), loc.clone(), "convert", "location and back");
    round(&Hover { contents: s.clone(), range: opt(bit(0), r) }, &[("/contents", json!(s)), ("/range", if bit(0) { rj.clone() } else { json!(null) })], cx)?;
    let edit = oak_lsp::types::TextEdit { range: r, new_text: s.clone() };
    round(&edit, &[("/range", rj.clone()), ("/new_text", json!(s))], cx)?;
    let edits = WorkspaceEdit { changes: [(s.clone(), vec![edit; m as usize % 3])].into() };
    let diag = Diagnostic { range: r, severity: opt(bit(0), [DiagnosticSeverity::Error, DiagnosticSeverity::Warning, DiagnosticSeverity::Information, DiagnosticSeverity::Hint][d[3] as usize % 4]), code: opt(bit(1), s.clone()), source: opt(bit(2), s.clone()), message: s.clone() };
    round(&diag, &[("/range", rj.clone()), ("/message", json!(s)), ("/code", if bit(1) { json!(s) } else { json!(null) })], cx)?;
    let action = CodeAction { title: s.clone(), kind: opt(bit(0), s.clone()), diagnostics: opt(bit(1), vec![diag; m as usize % 3]), edit: opt(bit(2), edits.clone()), command: opt(bit(3), Command { title: s.clone(), command: s.clone(), arguments: opt(bit(0), vec![rj.clone(), json!(s)]) }), is_preferred: opt(bit(1), bit(2)), disabled: opt(bit(0), CodeActionDisabled { reason: s.clone() }) };
    round(&action, &[("/title", json!(s))], cx)?;
    round(&edits, &[], cx)?;
    let item = |children| StructureItem { name: s.clone(), detail: opt(bit(0), s.clone()), role, kind, range: r, selection_range: core::range::Range { start: b, end: a }, deprecated: bit(1), children };
    round(&item(vec![item(vec![]); m as usize % 3]), &[("/name", json!(s)), ("/range", rj.clone()), ("/selection_range", json!({"start": b, "end": a}))], cx)?;
    let info = sym(&s, &s, a.min(1 << 40), opt(bit(0), s.as_str()), role);
    round(&info, &[("/uri", json!(s))], cx)?;
    let w = WorkspaceSymbol::from(info.clone());
    ensure_eq!((w.name.clone(), w.kind, w.location.uri.to_string(), w.location.range, w.container_name.clone()), (info.name.clone(), self::kind(role), s.clone(), info.range, info.container_name.clone()), "convert", "a symbol of role {role:?}");
    round(&w, &[("/location/uri", json!(s))], cx)?;
    round(&SymbolInformation2 { name: s.clone(), kind, location: loc, container_name: opt(bit(0), s.clone()) }, &[], cx)?;
    let sel = SelectionRange { range: r, parent: None };
    round(&(0..m % 4).fold(sel, |p, k| SelectionRange { range: core::range::Range { start: a.min(9) + k as usize, end: b }, parent: Some(Box::new(p)) }), &[], cx)?;
    round(&FoldingRange { range: r, kind: [None, Some(FoldingRangeKind::Comment), Some(FoldingRangeKind::Imports), Some(FoldingRangeKind::Region)][m as usize % 4] }, &[("/range", rj.clone())], cx)?;
    round(&DocumentHighlight { range: span(a, b), kind: [None, Some(DocumentHighlightKind::Text), Some(DocumentHighlightKind::Read), Some(DocumentHighlightKind::Write)][m as usize % 4] }, &[], cx)?;
    round(&InlayHint { position: span(a, b).start, label: s.clone(), kind: opt(bit(0), if bit(1) { InlayHintKind::Type } else { InlayHintKind::Parameter }), tooltip: opt(bit(1), s.clone()), padding_left: opt(bit(2), bit(0)), padding_right: opt(bit(3), bit(1)) }, &[("/label", json!(s))], cx)?;
    let par = ParameterInformation { label: s.clone(), documentation: opt(bit(2), s.clone()) };
    let sig = SignatureInformation { label: s.clone(), documentation: opt(bit(0), s.clone()), parameters: opt(bit(1), vec![par; m as usize % 3]), active_parameter: opt(bit(3), a as u32) };
    round(&SignatureHelp { signatures: vec![sig; m as usize % 3], active_signature: opt(bit(0), a as u32), active_parameter: opt(bit(1), b as u32) }, &[], cx)?;
    round(&CompletionItem { label: s.clone(), kind: opt(bit(0), CompletionItemKind::Snippet), detail: opt(bit(1), s.clone()), documentation: opt(bit(2), s.clone()), insert_text: opt(bit(3), s.clone()) }, &[("/label", json!(s))], cx)?;
    round(&SemanticTokens { result_id: opt(bit(0), s.clone()), data: (0..m as u32 % 4).map(|k| SemanticToken { delta_line: k, delta_start: a as u32, length: b as u32, token_type: k, token_modifiers_bitset: m as u32 }).collect() }, &[], cx)?;
    round(&InitializeParams { root_uri: opt(bit(0), s.clone()), workspace_folders: vec![WorkspaceFolder { uri: s.clone(), name: s.clone() }; m as usize % 3] }, &[], cx)?;
    // requests, as a client writes them
    use oak_lsp::handlers::*;
    let q = json!({"uri": s, "range": rj, "position": a, "query": s, "new_name": s});
    let Ok(x) = serde_json::from_value::<RangeRequest>(q.clone())
    else { return fail("wire", format!("no range request: {q}")) };
    ensure_eq!((x.uri, x.range), (s.clone(), r), "wire", "range request {q}");
    let Ok(x) = serde_json::from_value::<RenameRequest>(q.clone())
    else { return fail("wire", format!("no rename request: {q}")) };
    ensure_eq!((x.uri, x.range, x.new_name), (s.clone(), r, s.clone()), "wire", "rename request {q}");
    let Ok(x) = serde_json::from_value::<PositionRequest>(q.clone())
    else { return fail("wire", format!("no position request: {q}")) };
    ensure_eq!((x.uri, x.position), (s.clone(), a), "wire", "position request {q}");
    let Ok(x) = serde_json::from_value::<UriRequest>(q.clone())
    else { return fail("wire", format!("no uri request: {q}")) };
    ensure_eq!(x.uri, s.clone(), "wire", "uri request {q}");
    let Ok(x) = serde_json::from_value::<QueryRequest>(q.clone())
    else { return fail("wire", format!("no query request: {q}")) };
    ensure_eq!(x.query, s, "wire", "query request {q}");
    cx.nontrivial(true);
    Ok(())
}
use oak_lsp::types::SymbolInformation as SymbolInformation2;

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let n = t.pick(7, 8);
    let all = std::sync::Arc::new(forests_upto(&LEAVES, &NODES, n));
    let small = std::sync::Arc::new(forests_upto(&LEAVES, &NODES[..2], t.pick(5, 6)));
    let outl = std::sync::Arc::new(forests_upto(&[(T::Name, "a"), (T::Word, "né")], &[N::Def, N::Plain], t.pick(8, 9)));
    let (a2, s2, o2) = (all.clone(), small.clone(), outl.clone());
    let k = t.pick(6, 7);
    let lists = seq::count_upto(4, k);
    vec![
        space(&format!("definitions in trees of up to {n} items"), all.len() as u64, move |i| show(&all[i as usize]), move |i, cx| definitions(&a2[i as usize], DOC, table, in_table, cx)),
        {
            let far = std::sync::Arc::new(behind(&forests_upto(&LEAVES, &NODES, t.pick(4, 5)), T::Word));
            let f2 = far.clone();
            space("definitions behind 2^16 bytes", far.len() as u64, move |i| brief(&far[i as usize]), move |i, cx| definitions(&f2[i as usize], DOC, table, in_table, cx))
        },
        space("definitions in files", small.len() as u64, move |i| show(&small[i as usize]), move |i, cx| modules(&s2[i as usize], cx)),
        space("outlines and search", outl.len() as u64 * 12, move |i| format!("index {} given {} {}", i % 3, i / 3 % 4, show(&outl[i as usize / 12])), move |i, cx| outlines(&o2[i as usize / 12], i % 3, i / 3 % 4, cx)),
        space("several roots", lists * 27, move |i| format!("{:?} late {:?}", seq::nth(4, k, i / 27), seq::digits(&[3, 3, 3], i % 27)), move |i, cx| several(&seq::nth(4, k, i / 27), &seq::digits(&[3, 3, 3], i % 27).iter().map(|x| *x as usize).collect::<Vec<_>>(), cx)),
        space("files", 1 << PATHS.len(), |i| format!("{:?}", PATHS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, p)| p.0).collect::<Vec<_>>()), files),
        space("links", (1 << LINKS.len()) + 1, |i| if i >> LINKS.len() == 1 { "a link to the folder it is in".into() } else { format!("{:?}", LINKS.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, p)| p.0).collect::<Vec<_>>()) }, links),
        space("wire", TEXTS.len() as u64 * SPOTS.len() as u64 * 16 * ROLES.len() as u64, |i| format!("{:?}", seq::digits(&[5, 4, 16, 16], i)), wire),
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(128, 512));
            let n2 = ns.clone();
            space("large documents", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], SHAPES[i as usize % 4]), move |i, cx| {
                let n = ns[i as usize / 4] as usize;
                definitions(&shape(&LEAVES, &NODES, n, i as usize % 4), DOC, table, in_table, cx)?;
                outlines(&shape(&[(T::Name, "a"), (T::Word, "né")], &[N::Def, N::Plain], n, i as usize % 4), 0, 3, cx)
            })
        },
        {
            let ns = seq::sizes(t.pick(20, 40), t.pick(256, 1024));
            let n2 = ns.clone();
            space("many documents, symbols and files", ns.len() as u64, move |i| format!("{}", n2[i as usize]), move |i, cx| {
                let n = ns[i as usize] as usize;
                // roots of many documents
                let names: Vec<String> = (0..n).map(|k| format!("file:///d{k}")).collect();
                let docs: Vec<(&str, Tree, u32)> = (0..n).map(|k| (names[k].as_str(), tree(N::Root, &vec![Tk::L(T::Word, "w"); k % 5 + 1]), (k * 7 % 4) as u32)).collect();
                let s = memory(&docs);
                let asked: Vec<String> = names.iter().rev().cloned().chain(["none".to_string()]).chain(names.iter().step_by(3).cloned()).collect();
                let got = block_on(s.with_roots(asked, |r| r.span().end));
                let want: Vec<usize> = (0..n).rev().chain((0..n).step_by(3)).map(|k| k % 5 + 1).collect();
                ensure_eq!(got, want, "roots", "of {n} documents");
                // symbols of many files
                for k in 0..n {
                    s.ws.symbols.update_file_symbols(names[k].clone(), vec![sym(&format!("x{k}y"), &names[k], k, None, ROLES[k % 16]), sym("common", &names[k], 1, None, ROLES[2])]);
                }
                let found = |q: &str| {
                    let mut v: Vec<_> = block_on(s.workspace_symbols(q.into())).into_iter().map(|x| (x.name, x.location.uri.to_string(), x.location.range.start)).collect();
                    v.sort();
                    v
                };
                let sorted = |mut v: Vec<(String, String, usize)>| {
                    v.sort();
                    v
                };
                ensure_eq!(found("common"), sorted((0..n).map(|k| ("common".into(), names[k].clone(), 1)).collect()), "search", "for a name in all {n} files");
                ensure_eq!(found("x"), sorted((0..n).map(|k| (format!("x{k}y"), names[k].clone(), k)).collect()), "search", "in {n} files");
                for k in [0, n / 2, n.max(1) - 1] {
                    ensure_eq!(found(&format!("x{k}y")), sorted((0..n).filter(|j| *j == k).map(|k| (format!("x{k}y"), names[k].clone(), k)).collect()), "search", "for one name in {n} files");
                }
                // an outline of many indexed symbols
                let mine: Vec<SymbolInformation> = (0..n).map(|k| sym(&format!("m{k}"), DOC, n - k, None, ROLES[k % 16])).collect();
                let one = memory(&[(DOC, tree(N::Root, &[Tk::L(T::Word, "w")]), 0)]);
                one.vfs.write_file(DOC, "w");
                one.ws.symbols.update_file_symbols(DOC.into(), mine.clone());
                let want: Vec<_> = mine.iter().map(|x| (x.name.clone(), x.role, kind(x.role), x.range.start, x.range.end)).collect();
                ensure_eq!(items(block_on(one.document_symbols(DOC)))?, want, "outline", "of {n} indexed symbols");
                // files side by side and in each other
                let dir = Scratch(scratch("lsp").canonicalize().unwrap());
                let mut want = Vec::new();
                for k in 0..n {
                    let rel = match k % 3 {
                        0 => format!("f{k}.x"),
                        1 => format!("{}g{k}.x", "d/".repeat(k % 120)),
                        _ => format!("dir{k}/h.x"),
                    };
                    let f = dir.0.join(&rel);
                    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                    std::fs::write(&f, "").unwrap();
                    want.push(f.to_str().unwrap().to_string());
                }
                want.sort();
                let d = Server { vfs: DiskVfs::new(dir.0.clone()), ws: WorkspaceManager::new(), docs: vec![] };
                let mut got = block_on(d.list_all_files(dir.0.to_str().unwrap()));
                got.sort();
                ensure_eq!(got, want, "files", "below a folder of {n} files");
                cx.state(&n);
                cx.nontrivial(n > 2);
                cx.steps(4 * n as u64 + 1);
                cx.exec();
                Ok(())
            })
        },
        each_character("every character as a name, in a name and in other text", t, |c, cx| {
            let (a, b) = (keep(c.to_string()), keep(format!("n{c}é")));
            let p = [Tk::Open(N::Def), Tk::L(T::Word, a), Tk::L(T::Name, a), Tk::Open(N::Plain), Tk::L(T::Name, b), Tk::Open(N::Def), Tk::L(T::Name, b), Tk::L(T::Name, "a"), Tk::End, Tk::End, Tk::End];
            definitions(&p, DOC, table, in_table, cx)?;
            outlines(&p, 0, 3, cx)?;
            // references that only differ by the character, and where it is
            let names = ["a", keep(c.to_string()), keep(format!("{c}a")), keep(format!("a{c}")), keep(format!("a{c}a")), "aa"];
            let p: Vec<Tk> = names.iter().flat_map(|n| [Tk::Open(N::Ref), Tk::L(T::Name, n), Tk::End, Tk::L(T::Blank, "\n")]).collect();
            let find = |name: &str| names[..5].iter().rposition(|n| *n == name).map(|k| (format!("file:///lib{c}"), k, k + 2));
            let fill = |s: &Server<MemoryVfs>| {
                let uri = format!("file:///lib{c}");
                s.ws.symbols.update_file_symbols(uri.clone(), names[..5].iter().enumerate().map(|(k, n)| sym(n, &uri, k, None, UniversalElementRole::Definition)).collect())
            };
            definitions(&p, DOC, fill, find, cx)
        }),
    ]
}
