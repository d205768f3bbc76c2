//! P38: the golden-file testers accept exactly what was recorded, record exactly what was produced,
//! and leave every other file alone, also when they are cut off, time out or panic.
use crate::p18::scratch;
use mc_kit::*;
use oak_core::builder::{BuildOutput, Builder, BuilderCache};
use oak_core::errors::{OakDiagnostics, OakErrorKind};
use oak_core::language::*;
use oak_core::lexer::*;
use oak_core::parser::*;
use oak_core::source::{Source, TextEdit};
use oak_core::*;
use oak_testing::{building::BuilderTester, lexing::LexerTester, parsing::ParserTester};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize)]
pub enum T {
    A,
    B,
    Blank,
    Open,
    Close,
    Bang,
    Past,
    Eof,
}
impl TokenType for T {
    const END_OF_STREAM: Self = T::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> UniversalTokenRole {
        if *self == T::Blank { UniversalTokenRole::Whitespace } else { UniversalTokenRole::None }
    }
    fn is_ignored(&self) -> bool {
        *self == T::Blank
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize)]
pub enum N {
    Root,
    List,
    Tok(T),
}
impl From<T> for N {
    fn from(t: T) -> Self {
        N::Tok(t)
    }
}
impl ElementType for N {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        if *self == N::Root { UniversalElementRole::Root } else { UniversalElementRole::None }
    }
}
#[derive(Debug)]
pub struct Words(Vec<char>, usize);
impl serde::Serialize for Words {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.contains(&'%') {
            return Err(serde::ser::Error::custom("no"));
        }
        let mut m: BTreeMap<&str, J> = BTreeMap::new();
        m.insert("chars", json!(self.0));
        m.insert("blanks", json!(self.1));
        m.serialize(s)
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Gold;
impl Language for Gold {
    const NAME: &'static str = "gold";
    type TokenType = T;
    type ElementType = N;
    type TypedRoot = Words;
}
/// Where `z` sleeps and `#` panics.
fn trouble(text: &str) {
    if text.contains('#') {
        panic!("asked to");
    }
    if text.contains('z') {
        std::thread::sleep(Duration::from_millis(1500));
    }
}
fn fatal() -> OakError {
    OakError::syntax_error("fatal", 3, None)
}
#[derive(Clone, Copy, Default)]
pub struct Lx;
impl Lexer<Gold> for Lx {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], _: &'a mut impl LexerCache<Gold>) -> LexOutput<Gold> {
        let whole = text.get_text_in((0..text.length()).into()).to_string();
        trouble(&whole);
        let mut diagnostics = Vec::new();
        let mut tokens = Vec::new();
        for (at, w) in cuts(&whole) {
            let c = first_of(w);
            if c == '!' {
                diagnostics.push(OakError::unexpected_character(c, at, None));
            }
            let end = at + w.len();
            let (a, b) = if c == '$' { (whole.len(), whole.len() + 3) } else { (at, end) };
            tokens.push(Token { kind: kind(c), span: (a..b).into() });
        }
        let result = if whole.contains('?') { Err(fatal()) } else { Ok(tokens.into()) };
        OakDiagnostics { result, diagnostics }
    }
}
fn first_of(w: &str) -> char {
    w.chars().next().unwrap()
}
/// The text in tokens: a run of `w` is one, any other character is one of its own.
fn cuts(text: &str) -> Vec<(usize, &str)> {
    let mut v = Vec::new();
    let mut at = 0;
    while let Some(c) = text[at..].chars().next() {
        let n = if c == 'w' { text[at..].find(|c| c != 'w').unwrap_or(text.len() - at) } else { c.len_utf8() };
        v.push((at, &text[at..at + n]));
        at += n;
    }
    v
}
fn kind(c: char) -> T {
    match c {
        'a' => T::A,
        ' ' => T::Blank,
        '(' => T::Open,
        ')' => T::Close,
        '!' => T::Bang,
        '$' => T::Past,
        _ => T::B,
    }
}
pub struct Px;
fn list<S: Source + ?Sized>(s: &mut ParserState<'_, Gold, S>) {
    let cp = s.checkpoint();
    s.bump();
    while s.not_at_end() && !s.at(T::Close) {
        if s.at(T::Open) { list(s) } else { s.bump() }
    }
    s.expect(T::Close).ok();
    s.finish_at(cp, N::List);
}
impl Parser<Gold> for Px {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Gold>) -> ParseOutput<'a, Gold> {
        // the lexer never fails here; `?` fails the parse
        #[derive(Clone, Copy)]
        struct Soft;
        impl Lexer<Gold> for Soft {
            fn lex<'a, S: Source + ?Sized>(&self, text: &S, e: &[TextEdit], c: &'a mut impl LexerCache<Gold>) -> LexOutput<Gold> {
                let mut st = LexerState::<S, Gold>::new_with_cache(text, 0, c);
                let whole = text.get_text_in((0..text.length()).into()).to_string();
                let _ = e;
                for (at, w) in cuts(&whole) {
                    let ch = first_of(w);
                    if ch == '!' {
                        st.add_error(OakError::unexpected_character(ch, at, None));
                    }
                    st.add_token(kind(ch), at, at + w.len());
                }
                st.finish_with_cache(Ok(()), c)
            }
        }
        let whole = text.get_text_in((0..text.length()).into()).to_string();
        trouble(&whole);
        parse_with_lexer(&Soft, text, edits, cache, |s| {
            let cp = s.checkpoint();
            while s.not_at_end() {
                match s.peek_kind() {
                    Some(T::Open) => list(s),
                    Some(T::Close) => {
                        s.record_unexpected_token(")");
                        s.bump()
                    }
                    _ => s.bump(),
                }
            }
            if whole.contains('?') {
                return Err(fatal());
            }
            Ok(s.finish_at(cp, N::Root))
        })
    }
}
pub struct Bx;
impl Builder<Gold> for Bx {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], _: &'a mut impl BuilderCache<Gold>) -> BuildOutput<Gold> {
        let whole = text.get_text_in((0..text.length()).into()).to_string();
        trouble(&whole);
        let diagnostics = whole.char_indices().filter(|(_, c)| *c == '!').map(|(at, c)| OakError::unexpected_character(c, at, None)).collect();
        let result = if whole.contains('?') { Err(fatal()) } else { Ok(Words(whole.chars().filter(|c| *c != ' ').collect(), whole.matches(' ').count())) };
        OakDiagnostics { result, diagnostics }
    }
}

// ---------------------------------------------------------------- what has to be recorded
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Lex,
    Parse,
    Build,
}
const KS: [K; 3] = [K::Lex, K::Parse, K::Build];
impl K {
    fn suffix(self) -> &'static str {
        ["lexed.json", "parsed.json", "built.json"][self as usize]
    }
}
fn bang_errors(t: &str) -> Vec<String> {
    t.char_indices().filter(|(_, c)| *c == '!').map(|(at, c)| OakError::unexpected_character(c, at, None).to_string()).collect()
}
/// The tree of a text as nested lists.
enum Item {
    Leaf(usize),
    Node(Vec<Item>),
}
fn items(t: &[(usize, &str)], at: &mut usize, inside: bool, end: usize, errors: &mut Vec<OakError>) -> Vec<Item> {
    let mut v = Vec::new();
    while *at < t.len() {
        let (pos, w) = t[*at];
        let c = first_of(w);
        if c == ')' {
            if inside {
                return v;
            }
            errors.push(OakError::unexpected_token(")", pos, None));
        }
        *at += 1;
        if c == '(' {
            let mut inner = vec![Item::Leaf(1)];
            inner.extend(items(t, at, true, end, errors));
            if *at < t.len() {
                inner.push(Item::Leaf(1));
                *at += 1;
                // blanks behind a consumed token belong to the node being built
                while *at < t.len() && t[*at].1 == " " {
                    inner.push(Item::Leaf(1));
                    *at += 1;
                }
            }
            else {
                errors.push(OakError::expected_token("Close", end, None));
            }
            v.push(Item::Node(inner));
        }
        else {
            v.push(Item::Leaf(w.len()));
        }
    }
    v
}
fn size(i: &Item) -> usize {
    match i {
        Item::Leaf(n) => *n,
        Item::Node(v) => v.iter().map(size).sum(),
    }
}
fn ast(kind: &str, v: &[Item], count: &mut u64) -> J {
    *count += 1;
    let mut children: Vec<J> = v.iter().filter_map(|i| if let Item::Node(w) = i { Some(ast("List", w, count)) } else { None }).collect();
    let leaves: Vec<usize> = v.iter().filter_map(|i| if let Item::Leaf(n) = i { Some(*n) } else { None }).collect();
    if !leaves.is_empty() {
        *count += 1;
        children.push(json!({"kind": format!("Leaves({})", leaves.len()), "children": [], "text_length": leaves.iter().sum::<usize>(), "is_leaf": true}));
    }
    json!({"kind": kind, "children": children, "text_length": v.iter().map(size).sum::<usize>(), "is_leaf": false})
}
fn record(k: K, t: &str) -> J {
    let fails = t.contains('?');
    let mut errors = bang_errors(t);
    match k {
        K::Lex => {
            if fails {
                errors.push(fatal().to_string());
            }
            let tokens: Vec<J> = cuts(t).into_iter().filter(|(_, w)| *w != " " && !fails).map(|(at, w)| if w == "$" { json!({"kind": "Past", "text": "", "start": t.len(), "end": t.len() + 3}) } else { json!({"kind": format!("{:?}", kind(first_of(w))), "text": w, "start": at, "end": at + w.len()}) }).collect();
            json!({"success": errors.is_empty(), "count": tokens.len(), "tokens": tokens, "errors": errors})
        }
        K::Parse => {
            let mut es = Vec::new();
            let v = items(&cuts(t), &mut 0, false, t.len(), &mut es);
            errors.extend(es.iter().map(|e| e.to_string()));
            let (tree, n) = if fails {
                errors.push(fatal().to_string());
                (json!({"kind": "Error", "children": [], "text_length": 0, "is_leaf": true}), 1)
            }
            else {
                let mut n = 0;
                (ast("Root", &v, &mut n), n)
            };
            json!({"success": !fails, "node_count": n, "ast_structure": tree, "errors": errors})
        }
        K::Build => {
            if fails {
                errors.push(fatal().to_string());
            }
            let root = if fails || t.contains('%') { J::Null } else { json!({"type_name": std::any::type_name::<Words>(), "content": {"chars": t.chars().filter(|c| *c != ' ').collect::<Vec<_>>(), "blanks": t.matches(' ').count()}}) };
            json!({"success": !fails, "typed_root": root, "errors": errors})
        }
    }
}

// ---------------------------------------------------------------- running the testers
#[derive(Debug, PartialEq, Clone, Copy)]
enum Got {
    Pass,
    /// The expectation was written for the first time.
    New,
    Differs,
    Other,
    Panic,
}
fn tester(k: K, dir: &Path, exts: &[&str], regenerate: bool, timeout: Option<u64>) -> Got {
    // the worker is the only thread that touches the environment
    unsafe { if regenerate { std::env::set_var("REGENERATE_TESTS", "1") } else { std::env::remove_var("REGENERATE_TESTS") } }
    macro_rules! run {
        ($t:ident, $x:expr, $($g:ty),*) => {{
            let mut t = $t::new(dir);
            for e in exts {
                t = t.with_extension(e);
            }
            if let Some(ms) = timeout {
                t = t.with_timeout(Duration::from_millis(ms));
            }
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.run_tests::<$($g),*>($x)))
        }};
    }
    let r = match k {
        K::Lex => run!(LexerTester, &Lx, Gold, Lx),
        K::Parse => run!(ParserTester, &Px, Gold, Px),
        K::Build => run!(BuilderTester, &Bx, Gold, Bx),
    };
    match r {
        Err(_) => Got::Panic,
        Ok(Ok(())) => Got::Pass,
        Ok(Err(e)) => match e.kind() {
            OakErrorKind::TestRegenerated { .. } => Got::New,
            OakErrorKind::TestFailure { .. } => Got::Differs,
            _ => Got::Other,
        },
    }
}
/// All files below a directory with their contents.
fn snap(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, root: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                go(&p, root, out)
            }
            else {
                out.insert(p.strip_prefix(root).unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        Dir(scratch("gold"))
    }
    fn put(&self, f: &str, s: impl AsRef<[u8]>) {
        let p = self.0.join(f);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap()
    }
    fn json(&self, f: &str) -> Result<J, Fail> {
        let b = std::fs::read(self.0.join(f)).or_else(|e| fail("golden", format!("{f}: {e}")))?;
        let mut d = serde_json::Deserializer::from_slice(&b);
        d.disable_recursion_limit();
        let j = <J as serde::Deserialize>::deserialize(&mut d).or_else(|e| fail("golden", format!("{f}: {e}")))?;
        d.end().or_else(|e| fail("golden", format!("{f}: {e}")))?;
        Ok(j)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// The outcome of a run that finds no expectation.
fn first(k: K) -> Got {
    if k == K::Parse { Got::New } else { Got::Pass }
}

static ALPHA: &[&str] = &["a", "é", " ", "!", "?", "(", ")"];
static LALPHA: &[&str] = &["a", "é", " ", "!", "?", "$", "\n"];
static BALPHA: &[&str] = &["a", "é", " ", "!", "?", "%", "\n"];
fn alpha(k: K) -> &'static [&'static str] {
    match k {
        K::Lex => LALPHA,
        K::Parse => ALPHA,
        K::Build => BALPHA,
    }
}

/// Every place in a JSON value, changed in every way that must be noticed.
fn changes(j: &J) -> Vec<J> {
    let mut out = Vec::new();
    match j {
        J::Bool(b) => out.push(json!(!b)),
        J::Number(n) => {
            let n = n.as_u64().unwrap();
            out.push(json!(n + 1));
            if n > 0 {
                out.push(json!(n - 1));
            }
        }
        J::String(s) => {
            out.push(json!(format!("{s}x")));
            out.push(json!(format!(" {s}")));
            if !s.is_empty() {
                out.push(json!(""));
            }
        }
        J::Null => out.push(json!({"type_name": "x", "content": null})),
        J::Array(v) => {
            for i in 0..v.len() {
                for c in changes(&v[i]) {
                    let mut w = v.clone();
                    w[i] = c;
                    out.push(J::Array(w));
                }
                let mut w = v.clone();
                w.remove(i);
                out.push(J::Array(w));
                let mut w = v.clone();
                w.insert(i, v[i].clone());
                out.push(J::Array(w));
                if i > 0 && v[i] != v[i - 1] {
                    let mut w = v.clone();
                    w.swap(i, i - 1);
                    out.push(J::Array(w));
                }
            }
        }
        J::Object(m) => {
            for (key, x) in m {
                for c in changes(x) {
                    let mut w = m.clone();
                    w[key] = c;
                    out.push(J::Object(w));
                }
                if !x.is_null() {
                    let mut w = m.clone();
                    w.remove(key);
                    out.push(J::Object(w));
                }
            }
        }
    }
    out
}
const RICH: [&str; 6] = ["a(é a) !(", "a", "?!", " ", "((a)b)c d", "aa!b!"];
const NAMES: [&str; 9] = ["a.x", "b.y", "d/c.x", "d/e/f.y", "x", "g.z.x", "j.json", "a.expected.json", "k.parsed.json"];
static EXTS: &[&[&str]] = &[&["x"], &["y"], &["x", "y"], &["json"], &[], &["x", "json"], &["X", ".x"]];
/// The expectation of a source file, by the name of the file.
fn golden_of(f: &str, k: K) -> String {
    format!("{f}.{}", k.suffix())
}
fn tested(f: &str, exts: &[&str]) -> bool {
    let name = f.rsplit('/').next().unwrap();
    let Some((stem, ext)) = name.rsplit_once('.')
    else {
        return false;
    };
    !stem.is_empty() && exts.contains(&ext) && !["parsed", "lexed", "built", "expected"].iter().any(|s| name.ends_with(&format!(".{s}.json")))
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    for k in KS {
        let d = if k == K::Lex { t.pick(3, 4) } else { t.pick(4, 5) };
        v.push(space(
            format!("{k:?}: every text of at most {d} symbols, recorded, repeated, regenerated, taken over"),
            seq::count_upto(7, d),
            move |i| format!("{:?}", seq::string(alpha(k), d, i)),
            move |i, cx| {
                let text = seq::string(alpha(k), d, i);
                let dir = Dir::new();
                dir.put("t.x", &text);
                let g = golden_of("t.x", k);
                let want = record(k, &text);
                cx.state(&want.to_string());
                cx.nontrivial(text.len() > 1);
                let r = tester(k, &dir.0, &["x"], false, None);
                ensure!(r == first(k), "first", "first run on {text:?}: {r:?}");
                ensure_eq!(dir.json(&g)?, want.clone(), "record", "recorded for {text:?}");
                let before = snap(&dir.0);
                ensure!(before.len() == 2 && before["t.x"] == text.as_bytes(), "files", "after the first run: {:?}", before.keys().collect::<Vec<_>>());
                let r = tester(k, &dir.0, &["x"], false, None);
                ensure!(r == Got::Pass, "repeat", "second run on {text:?}: {r:?}");
                ensure_eq!(snap(&dir.0), before.clone(), "files", "second run on {text:?} changed files");
                let r = tester(k, &dir.0, &["x"], true, None);
                ensure!(r == Got::Pass, "regenerate", "regenerating {text:?}: {r:?}");
                ensure_eq!(snap(&dir.0), before.clone(), "files", "regenerating {text:?} changed files");
                // an expectation under the old name is taken over
                std::fs::rename(dir.0.join(&g), dir.0.join("t.expected.json")).unwrap();
                let r = tester(k, &dir.0, &["x"], false, None);
                ensure!(r == Got::Pass, "legacy", "run with the old name for {text:?}: {r:?}");
                ensure_eq!(snap(&dir.0), before, "legacy", "after taking over the old name for {text:?}");
                cx.execs(4);
                cx.steps(4);
                Ok(())
            },
        ));
        let d = t.pick(2, if k == K::Lex { 2 } else { 3 });
        let n = seq::count_upto(7, d);
        v.push(space(
            format!("{k:?}: every text of at most {d} symbols against the record of every other"),
            n,
            move |i| format!("{:?}", seq::string(alpha(k), d, i)),
            move |i, cx| {
                let text = seq::string(alpha(k), d, i);
                let want = record(k, &text);
                let dir = Dir::new();
                let g = golden_of("t.x", k);
                for j in 0..n {
                    let other = seq::string(alpha(k), d, j);
                    let rec = record(k, &other);
                    let bytes = serde_json::to_vec(&rec).unwrap();
                    dir.put("t.x", &text);
                    dir.put(&g, &bytes);
                    let r = tester(k, &dir.0, &["x"], false, None);
                    ensure!(r == if rec == want { Got::Pass } else { Got::Differs }, "compare", "{text:?} against the record of {other:?}: {r:?}");
                    ensure!(std::fs::read(dir.0.join(&g)).is_ok_and(|b| b == bytes), "files", "the expectation of {other:?} changed when {text:?} was tested");
                    cx.exec();
                    cx.step();
                    if j % 7 == i % 7 {
                        let r = tester(k, &dir.0, &["x"], true, None);
                        ensure!(r == Got::Pass, "regenerate", "regenerating {text:?} over the record of {other:?}: {r:?}");
                        ensure_eq!(dir.json(&g)?, want.clone(), "record", "{text:?} regenerated over the record of {other:?}");
                        ensure_eq!(snap(&dir.0).len(), 2, "files", "files after regenerating");
                        cx.exec();
                    }
                }
                Ok(())
            },
        ));
        v.push(space(
            format!("{k:?}: every single change of a record, and every place where writing it was cut off"),
            RICH.len() as u64,
            |i| format!("{:?}", RICH[i as usize]),
            move |i, cx| {
                let text = RICH[i as usize];
                let want = record(k, text);
                let dir = Dir::new();
                let g = golden_of("t.x", k);
                dir.put("t.x", text);
                for c in changes(&want) {
                    dir.put(&g, c.to_string());
                    let r = tester(k, &dir.0, &["x"], false, None);
                    ensure!(matches!(r, Got::Differs | Got::Other), "compare", "{text:?} passes against {c}: {r:?}");
                    ensure_eq!(dir.json(&g)?, c.clone(), "files", "the expectation changed");
                    cx.exec();
                    cx.step();
                }
                // what a tester that was killed while writing may leave behind
                std::fs::remove_file(dir.0.join(&g)).unwrap();
                tester(k, &dir.0, &["x"], false, None);
                let full = std::fs::read(dir.0.join(&g)).or_else(|e| fail("record", format!("{e}")))?;
                let stride = if k == K::Lex { 5 } else { 1 };
                for cut in (0..full.len()).filter(|c| c % stride == 0 || *c < 3 || *c + 3 > full.len()) {
                    dir.put(&g, &full[..cut]);
                    let r = tester(k, &dir.0, &["x"], false, None);
                    ensure!(matches!(r, Got::Differs | Got::Other), "torn", "{text:?} passes against the first {cut} bytes of its record: {r:?}");
                    ensure!(std::fs::read(dir.0.join(&g)).is_ok_and(|b| b == full[..cut]), "files", "a torn expectation was replaced");
                    cx.exec();
                    cx.step();
                }
                let r = tester(k, &dir.0, &["x"], true, None);
                ensure!(r == Got::Pass && std::fs::read(dir.0.join(&g)).is_ok_and(|b| b == full), "torn", "regenerating over a torn record: {r:?}");
                cx.nontrivial(true);
                cx.state(&want.to_string());
                Ok(())
            },
        ));
        let quick = t == Tier::Quick;
        v.push(space(
            format!("{k:?}: every set of files and extensions"),
            512 * EXTS.len() as u64,
            |i| format!("{:?} with {:?}", (0..9).filter(|b| i % 512 >> b & 1 == 1).map(|b| NAMES[b]).collect::<Vec<_>>(), EXTS[(i / 512) as usize]),
            move |i, cx| {
                let exts = EXTS[(i / 512) as usize];
                let files: Vec<&str> = (0..9).filter(|b| i % 512 >> b & 1 == 1).map(|b| NAMES[b]).collect();
                if k == K::Lex && quick && (i % 512).count_ones() > 4 {
                    return Ok(()); // a lexer run takes ten milliseconds
                }
                let text = |f: &str| format!("a é{}", &f[..1]);
                let dir = Dir::new();
                let mut want: BTreeMap<String, Option<J>> = BTreeMap::new();
                for f in &files {
                    dir.put(f, text(f));
                }
                let before = snap(&dir.0);
                for f in &files {
                    want.insert(f.to_string(), None);
                }
                for f in files.iter().filter(|f| tested(f, exts)) {
                    want.insert(golden_of(f, k), Some(record(k, &text(f))));
                    // the old name is taken over
                    if *f == "a.x" {
                        want.remove("a.expected.json");
                    }
                }
                for round in 0..2 {
                    let r = tester(k, &dir.0, exts, round == 0, None);
                    ensure!(r == Got::Pass, "run", "round {round}: {r:?}");
                    let now = snap(&dir.0);
                    ensure_eq!(now.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "files", "files after round {round}");
                    for (f, j) in &want {
                        match j {
                            None => ensure!(now[f] == before[f], "files", "{f} changed"),
                            Some(j) => ensure_eq!(serde_json::from_slice::<J>(&now[f]).unwrap_or_default(), j.clone(), "record", "{f}"),
                        }
                    }
                    cx.exec();
                    cx.step();
                }
                // one of several expectations does not hold
                for f in files.iter().filter(|f| tested(f, exts)) {
                    let g = golden_of(f, k);
                    let good = std::fs::read(dir.0.join(&g)).unwrap();
                    let bad = serde_json::to_vec(&record(k, "aaa")).unwrap();
                    dir.put(&g, &bad);
                    let r = tester(k, &dir.0, exts, false, None);
                    ensure!(r == Got::Differs, "compare", "{g} does not hold, but the run says {r:?}");
                    ensure!(std::fs::read(dir.0.join(&g)).unwrap() == bad, "files", "{g} changed");
                    dir.put(&g, &good);
                    cx.exec();
                }
                cx.nontrivial(want.len() > files.len());
                Ok(())
            },
        ));
        v.push(space(
            format!("{k:?}: late, panicking and unreadable"),
            5 * 4,
            |i| format!("{} with {}", ["late", "panic", "no text", "late among others", "directory named like a file"][(i / 4) as usize], ["no expectation", "an expectation", "regeneration", "regeneration over an expectation"][(i % 4) as usize]),
            move |i, cx| {
                let dir = Dir::new();
                let text = ["z", "#", "", "az", "a"][(i / 4) as usize];
                let g = golden_of("t.x", k);
                if i / 4 == 2 {
                    dir.put("t.x", [b'a', 0xff, b'b']);
                }
                else if i / 4 == 4 {
                    std::fs::create_dir_all(dir.0.join("t.x/u.x")).unwrap();
                    dir.put("t.x/v.y", "a");
                }
                else {
                    dir.put("t.x", text);
                }
                if i / 4 == 3 {
                    dir.put("b.x", "a");
                    dir.put(&golden_of("b.x", k), record(k, "a").to_string());
                }
                let old = record(k, text).to_string();
                if i % 2 == 1 && i / 4 != 4 {
                    dir.put(&g, &old);
                }
                let before = snap(&dir.0);
                let r = tester(k, &dir.0, &["x"], i % 4 > 1, Some(30));
                if i / 4 == 4 {
                    ensure!(r == Got::Pass, "directory", "a directory is not tested: {r:?}");
                }
                else {
                    ensure!(matches!(r, Got::Other | Got::Panic), "trouble", "the run says {r:?}");
                }
                let mut now = snap(&dir.0);
                if i / 4 == 3 && i % 4 > 1 {
                    // the other file may have been written again
                    let b = now.insert(golden_of("b.x", k), before[&golden_of("b.x", k)].clone()).unwrap();
                    ensure_eq!(serde_json::from_slice::<J>(&b).unwrap_or_default(), record(k, "a"), "record", "b.x");
                }
                ensure_eq!(now, before, "files", "files changed");
                cx.exec();
                cx.step();
                cx.nontrivial(true);
                cx.state(&i);
                Ok(())
            },
        ));
        {
            let ns = seq::sizes(t.pick(8, 40), t.pick(512, 4096));
            let n2 = ns.clone();
            const SHAPES: [&str; 6] = ["letters", "errors", "lists in a row", "lists in each other", "files", "one token"];
            v.push(space(format!("{k:?}: long texts, many files"), 6 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 6], SHAPES[i as usize % 6]), move |i, cx| {
                let n = ns[i as usize / 6] as usize;
                let dir = Dir::new();
                let files: Vec<(String, String)> = match i % 6 {
                    5 => vec![("t.x".into(), format!("é{} a", "w".repeat(n * 130)))],
                    0 => vec![("t.x".into(), "aé b".repeat(n))],
                    1 => vec![("t.x".into(), "a!é".repeat(n))],
                    2 => vec![("t.x".into(), "(a )".repeat(n))],
                    3 if n <= 300 => vec![("t.x".into(), "(a".repeat(n) + &"b)".repeat(n))],
                    4 if n <= 260 => (0..n).map(|k| (if k % 3 == 0 { format!("d{k}/t.x") } else { format!("{}f{k}.x", "e/".repeat(k % 60)) }, format!("a{}", "b".repeat(k % 5)))).collect(),
                    _ => return Ok(()),
                };
                for (f, s) in &files {
                    dir.put(f, s)
                }
                let r = tester(k, &dir.0, &["x"], true, None);
                ensure!(r == Got::Pass, "record", "recording {n} {}: {r:?}", SHAPES[i as usize % 6]);
                for (f, s) in &files {
                    ensure_eq!(dir.json(&golden_of(f, k))?, record(k, s), "record", "of {f}");
                }
                let before = snap(&dir.0);
                ensure_eq!(before.len(), 2 * files.len(), "files", "after recording");
                let r = tester(k, &dir.0, &["x"], false, None);
                ensure!(r == Got::Pass, "repeat", "run after recording {n} {}: {r:?}", SHAPES[i as usize % 6]);
                ensure_eq!(snap(&dir.0), before, "files", "changed");
                // the last of them, and the end of it, is compared as well
                if let Some((f, s)) = files.last().filter(|f| f.1.len() > 1) {
                    dir.put(f, &s[..s.char_indices().next_back().map_or(0, |c| c.0)]);
                    let r = tester(k, &dir.0, &["x"], false, None);
                    // a record too deep to be read counts as different as well
                    ensure!(r == Got::Differs || r == Got::Other && i % 6 == 3, "compare", "{f} of {n} {} has lost its last letter: {r:?}", SHAPES[i as usize % 6]);
                }
                cx.state(&i);
                cx.nontrivial(n > 8);
                cx.execs(3);
                cx.steps(3 + files.len() as u64);
                Ok(())
            }));
        }
    }
    for k in KS {
        v.push(each_character(format!("{k:?}: every character in a source and in its name, recorded and repeated"), Tier::Quick, move |c, cx| {
            // asked for trouble; no name of a file; in quick one kind for a character
            if "#z/\0".contains(c) || t.pick(!c.is_ascii() && c as usize % 3 != k as usize, false) {
                return Ok(());
            }
            let text = format!("{c}a(é{c}a{c})\n{c}");
            let f = format!("n{c}.x");
            let dir = Dir::new();
            dir.put(&f, &text);
            let want = record(k, &text);
            let r = tester(k, &dir.0, &["x"], false, None);
            ensure!(r == first(k), "first", "first run on {text:?}: {r:?}");
            ensure_eq!(dir.json(&golden_of(&f, k))?, want, "record", "recorded for {text:?}");
            let before = snap(&dir.0);
            let r = tester(k, &dir.0, &["x"], false, None);
            ensure!(r == Got::Pass, "repeat", "second run on {text:?}: {r:?}");
            ensure_eq!(snap(&dir.0), before, "files", "changed");
            // another text behind the same name
            dir.put(&f, format!("a{c}{c}é)"));
            let r = tester(k, &dir.0, &["x"], false, None);
            let same = record(k, &format!("a{c}{c}é)")) == want;
            ensure!(r == if same { Got::Pass } else { Got::Differs }, "compare", "another text: {r:?}");
            cx.state(&c);
            cx.nontrivial(!c.is_ascii());
            cx.execs(3);
            cx.steps(3);
            Ok(())
        }));
    }
    v
}
