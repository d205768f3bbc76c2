//! P28: highlighting gives every token of the tree its own text, place and best matching style.
use core::range::Range;
use mc_kit::*;
use oak_core::{
    errors::{OakDiagnostics, OakError},
    language::*,
    lexer::{LexOutput, Lexer, LexerCache},
    memory::arena::SyntaxArena,
    parser::{ParseCache, ParseOutput, Parser},
    source::{Source, TextEdit},
    tree::{GreenLeaf, GreenNode, GreenTree, RedNode, RedTree},
    visitor::Visitor,
};
use oak_highlight::{
    HighlightStyle, HighlightTheme, OakHighlighter, Theme,
    highlighter::{HighlightVisitor, Highlighter, ScopeProvider},
};
use std::collections::HashMap;
use {UniversalElementRole as ER, UniversalTokenRole as TR};

/// What the tokens of our language are called, and what they are to everybody.
/// Text no theme says anything about.
pub const PLAIN: HighlightStyle = HighlightStyle { color: None, background_color: None, bold: false, italic: false, underline: false };
const ROLES: [(&str, TR); 7] =
    [("keyword", TR::Keyword), ("keyword.control.flow", TR::Keyword), ("name.of", TR::Name), ("constant.character.escape", TR::Escape), ("none", TR::None), ("odd.", TR::Operator), ("", TR::Punctuation)];
const UNIVERSAL: [TR; 11] = [TR::Keyword, TR::Name, TR::Literal, TR::Escape, TR::Operator, TR::Punctuation, TR::Comment, TR::Whitespace, TR::Error, TR::None, TR::Eof];
/// Roles whose own names and universal names begin, end or go on like each other.
static ALIKE: std::sync::LazyLock<Vec<(String, TR)>> = std::sync::LazyLock::new(|| {
    UNIVERSAL
        .iter()
        .flat_map(|u| {
            let n = u.name();
            [n[..1].to_string(), n[..n.len() - 1].into(), n[1..].into(), format!("{n}x"), format!("{n}.x"), format!("x.{n}"), n.to_uppercase(), format!("{n}.{n}"), format!("source.{n}"), format!("{n}.lang.x")].map(|s| (s, *u))
        })
        .collect()
});
fn role_of(k: u8) -> (&'static str, TR) {
    match ROLES.get(k as usize) {
        Some(r) => *r,
        None => {
            let (n, u) = &ALIKE[k as usize - ROLES.len()];
            (n, *u)
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct K(pub u8);
pub const NODE: K = K(200);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Role(u8);
impl TokenRole for Role {
    fn universal(&self) -> TR {
        role_of(self.0).1
    }
    fn name(&self) -> &str {
        role_of(self.0).0
    }
}
impl TokenType for K {
    const END_OF_STREAM: Self = K(4);
    type Role = Role;
    fn role(&self) -> Role {
        Role(self.0)
    }
}
impl ElementType for K {
    type Role = ER;
    fn role(&self) -> ER {
        if *self == NODE { ER::Container } else { ER::Root }
    }
}
#[derive(Clone, Copy, Debug, Default)]
struct Lang<const C: usize>;
const CATS: [LanguageCategory; 7] = {
    use LanguageCategory::*;
    [Programming, Markup, Config, StyleSheet, Dsl, Modeling, Other]
};
const PREFIX: [&str; 7] = ["source", "markup", "config", "source", "dsl", "source", "source"];
impl<const C: usize> Language for Lang<C> {
    const NAME: &'static str = "lang.x";
    const CATEGORY: LanguageCategory = CATS[C];
    type TokenType = K;
    type ElementType = K;
    type TypedRoot = ();
}

// ---------------------------------------------------------------- what themes mean
pub fn mark(name: &str) -> HighlightStyle {
    HighlightStyle { color: Some(name.to_string()), bold: name.len() % 2 == 0, ..PLAIN }
}
fn prefixes(scope: &str) -> Vec<&str> {
    // longest first; a prefix ends at a dot or at the end
    let mut v: Vec<&str> = (0..=scope.len()).rev().filter(|e| *e == scope.len() || scope.as_bytes()[*e] == b'.').map(|e| &scope[..e]).collect();
    v.retain(|s| !s.is_empty());
    v
}
fn fallback(styles: &HashMap<String, HighlightStyle>) -> HighlightStyle {
    styles.get("none").cloned().unwrap_or(PLAIN)
}
fn best(styles: &HashMap<String, HighlightStyle>, scopes: &[String]) -> HighlightStyle {
    let mut hits: Vec<(usize, &str)> = Vec::new();
    for s in scopes {
        if let Some(p) = prefixes(s).into_iter().find(|p| styles.contains_key(*p)) {
            hits.push((p.split('.').count(), p))
        }
    }
    let deepest = hits.iter().map(|h| h.0).max();
    match hits.iter().find(|h| Some(h.0) == deepest) {
        Some(h) => styles[h.1].clone(),
        None => fallback(styles),
    }
}
fn scopes(specific: &str, universal: &str, lang: &str, prefix: &str) -> Vec<String> {
    let mut v = vec![format!("{specific}.{lang}")];
    if specific != universal {
        v.push(specific.into())
    }
    v.extend([format!("{prefix}.{universal}"), universal.into(), format!("{prefix}.{lang}")]);
    v
}
const KEYS: [&str; 7] = ["a", "a.b", "a.b.c", "b", "none", "a.", "b.x"];
const SCOPES: [&str; 12] = ["a", "a.b", "a.b.c", "a.b.c.d", "b", "b.x.y", "", "a.", ".a", "c", "none", "ab.c"];
fn theme(mask: u64) -> HighlightTheme {
    HighlightTheme { name: "t".into(), styles: KEYS.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, k)| (k.to_string(), mark(k))).collect() }
}

// ---------------------------------------------------------------- trees
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tk {
    L(u8, &'static str),
    Open,
    End,
}
const LEAVES: [(u8, &str); 7] = [(0, "if"), (1, "é"), (2, "x\n"), (3, "𝄞"), (4, ""), (5, " "), (6, ";")];
fn forests(n: usize, open: usize, leaves: &[(u8, &'static str)], cur: &mut Vec<Tk>, out: &mut Vec<Vec<Tk>>) {
    if open > n {
        return;
    }
    if n == 0 {
        return out.push(cur.clone());
    }
    for (k, s) in leaves {
        cur.push(Tk::L(*k, s));
        forests(n - 1, open, leaves, cur, out);
        cur.pop();
    }
    cur.push(Tk::Open);
    forests(n - 1, open + 1, leaves, cur, out);
    cur.pop();
    if open > 0 {
        cur.push(Tk::End);
        forests(n - 1, open - 1, leaves, cur, out);
        cur.pop();
    }
}
fn plant<'a, L: Language<TokenType = K, ElementType = K>>(arena: &'a SyntaxArena, p: &[Tk], at: &mut usize, kind: K) -> &'a GreenNode<'a, L> {
    let mut c = Vec::new();
    while *at < p.len() && p[*at] != Tk::End {
        let i = p[*at];
        *at += 1;
        match i {
            Tk::L(k, s) => c.push(GreenTree::Leaf(GreenLeaf::new(K(k), s.len() as u32))),
            _ => {
                c.push(GreenTree::Node(plant(arena, p, at, NODE)));
                *at += 1
            }
        }
    }
    arena.alloc(GreenNode::new(kind, arena.alloc_slice_copy(&c)))
}
struct Planned<'p>(&'p [Tk], u8);
impl<'p, const C: usize> Parser<Lang<C>> for Planned<'p> {
    fn parse<'a, S: Source + ?Sized>(&self, _: &'a S, _: &[TextEdit], cache: &'a mut impl ParseCache<Lang<C>>) -> ParseOutput<'a, Lang<C>> {
        let cache: &'a _ = cache;
        let bad = OakError::unsupported_format("refused");
        let tree = plant(cache.arena(), self.0, &mut 0, K(0));
        match self.1 {
            0 => OakDiagnostics { result: Ok(tree), diagnostics: vec![] },
            1 => OakDiagnostics { result: Ok(tree), diagnostics: vec![bad] },
            _ => OakDiagnostics { result: Err(bad), diagnostics: vec![] },
        }
    }
}
impl<'p, const C: usize> Lexer<Lang<C>> for Planned<'p> {
    fn lex<'a, S: Source + ?Sized>(&self, _: &S, _: &[TextEdit], _: &'a mut impl LexerCache<Lang<C>>) -> LexOutput<Lang<C>> {
        OakDiagnostics { result: Err(OakError::unsupported_format("no lexer")), diagnostics: vec![] }
    }
}
/// Kind, start, end of every token.
fn tokens(p: &[Tk]) -> Vec<(u8, usize, usize)> {
    let mut at = 0;
    let mut v = Vec::new();
    for i in p {
        if let Tk::L(k, s) = i {
            v.push((*k, at, at + s.len()));
            at += s.len()
        }
    }
    v
}
fn same(segments: &[oak_highlight::HighlightSegment], source: &str, toks: &[(u8, usize, usize)], t: &HighlightTheme, cat: usize, what: &str) -> Res {
    let places: Vec<(usize, usize)> = segments.iter().map(|s| (s.span.start, s.span.end)).collect();
    let want: Vec<(usize, usize)> = toks.iter().map(|t| (t.1, t.2)).collect();
    ensure_eq!(places, want, "spans", "{what}");
    for (s, (k, a, b)) in segments.iter().zip(toks) {
        ensure_eq!(&*s.text, &source[*a..*b], "text", "{what}");
        let r = role_of(*k);
        let want = best(&t.styles, &scopes(r.0, r.1.name(), "lang.x", PREFIX[cat]));
        ensure_eq!(s.style, want, "style", "{what}: {r:?} in {}", PREFIX[cat]);
    }
    Ok(())
}
fn trees<const C: usize>(p: &[Tk], own: &[HighlightTheme], cx: &mut Cx) -> Res {
    let source: String = p.iter().map(|i| if let Tk::L(_, s) = i { *s } else { "" }).collect();
    let toks = tokens(p);
    let h = OakHighlighter::new();
    for (t, name) in [(Theme::Default, "default"), (Theme::OneDarkPro, "dark"), (Theme::OneLight, "light")] {
        for state in 0..3 {
            let parser = Planned(p, state);
            let got = h.highlight_with_language::<Lang<C>, _, _>(&source, t, &parser, &parser);
            match (got, state) {
                (Err(_), 2) => {}
                (Ok(r), 0 | 1) => {
                    ensure_eq!(&*r.source, source, "source", "source of the result");
                    same(&r.segments, &source, &toks, &t.get_theme(), C, name)?;
                    let all: String = r.segments.iter().map(|s| &*s.text).collect();
                    ensure_eq!(all, source, "cover", "{name}: the segments together");
                }
                (g, _) => return fail("result", format!("parser {state}: {:?}", g.map(|g| g.segments.len()))),
            }
            cx.step();
        }
    }
    let arena = SyntaxArena::new(4);
    let root: &GreenNode<Lang<C>> = plant(&arena, p, &mut 0, K(0));
    for t in own {
        // the whole tree, and every node in it on its own
        let mut todo = vec![RedNode::new(root, 0)];
        while let Some(n) = todo.pop() {
            let span: Range<usize> = n.span();
            let mut v = HighlightVisitor { theme: t, segments: Vec::new(), source: &source };
            <HighlightVisitor as Visitor<Lang<C>>>::visit_node(&mut v, n);
            fn inside<const C: usize>(n: &RedNode<Lang<C>>, out: &mut Vec<(u8, usize, usize)>) {
                let mut at = n.offset;
                for c in n.green.children {
                    match c {
                        GreenTree::Leaf(l) => out.push((l.kind.0, at, at + l.length as usize)),
                        GreenTree::Node(g) => inside(&RedNode::<Lang<C>>::new(g, at), out),
                    }
                    at += c.len() as usize
                }
            }
            let mut want = Vec::new();
            inside(&n, &mut want);
            same(&v.segments, &source, &want, t, C, &format!("node at {span:?}"))?;
            todo.extend(n.children().filter_map(|c| if let RedTree::Node(n) = c { Some(n) } else { None }));
            cx.step()
        }
    }
    cx.state(&source);
    cx.nontrivial(toks.len() > 1);
    cx.exec();
    Ok(())
}
fn own() -> Vec<HighlightTheme> {
    let pool = ["keyword", "keyword.control", "source.keyword", "source.lang.x", "markup.lang", "name.of.lang.x", "variable", "variable.other", "source", "config.none", "keyword.lang.x", "keyword.operator", "dsl.punctuation", "odd..lang.x", "odd.", ".lang", "punctuation"];
    (0..6usize)
        .map(|k| HighlightTheme { name: format!("own {k}"), styles: pool.iter().enumerate().filter(|(i, _)| k == 0 || (i * 7 + k * 5) % 6 < 3).map(|(_, s)| (s.to_string(), mark(s))).collect() })
        .collect()
}
/// A text whose language nobody knows.
fn unmarked(s: String, cx: &mut Cx) -> Res {
    for t in [Theme::Default, Theme::OneDarkPro, Theme::OneLight] {
        let h = OakHighlighter::new().theme(Theme::OneDarkPro);
        for r in [h.highlight(&s, "rust", t), Highlighter::highlight(&h, &s, "", t)] {
            let r = r.map_err(|e| Fail { kind: "error".into(), detail: format!("{e:?}") })?;
            let all: String = r.segments.iter().map(|s| &*s.text).collect();
            ensure_eq!(all, s, "cover", "the segments together");
            ensure_eq!(&*r.source, s, "source", "source");
            let mut at = 0;
            for g in &r.segments {
                ensure_eq!((g.span.start, &s[g.span.start..g.span.end]), (at, &*g.text), "spans", "{s:?}");
                ensure_eq!(g.style, fallback(&t.get_theme().styles), "style", "{s:?}");
                at = g.span.end
            }
            cx.step()
        }
    }
    cx.exec();
    Ok(())
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let lists = seq::count_upto(12, 4);
    let max = 4;
    let list = move |i: u64| seq::nth(12, max, i / 128).into_iter().map(|s| SCOPES[s].to_string()).collect::<Vec<_>>();
    let own: &'static [HighlightTheme] = Box::leak(own().into_boxed_slice());
    let mut v = vec![space("themes and scopes", lists * 128, move |i| format!("theme of {:?}, scopes {:?}", theme(i % 128).styles.keys().collect::<Vec<_>>(), list(i)), move |i, cx| {
        let t = theme(i % 128);
        let s = list(i);
        ensure_eq!(t.resolve_styles(&s), best(&t.styles, &s), "styles", "resolve_styles({s:?})");
        if let [one] = &s[..] {
            let want = prefixes(one).into_iter().find_map(|p| t.styles.get(p)).cloned().unwrap_or_else(|| fallback(&t.styles));
            ensure_eq!(t.resolve_style(one), want, "style", "resolve_style({one:?})");
        }
        cx.nontrivial(s.len() > 1);
        cx.step();
        cx.exec();
        Ok(())
    })];
    let toks = [TR::Keyword, TR::Name, TR::Literal, TR::Escape, TR::Operator, TR::Punctuation, TR::Comment, TR::Whitespace, TR::Error, TR::None, TR::Eof];
    let elems = [ER::Root, ER::Container, ER::Statement, ER::Definition, ER::Binding, ER::Reference, ER::Expression, ER::Value, ER::Error, ER::None, ER::Call, ER::Typing, ER::Documentation, ER::Attribute, ER::Metadata];
    v.push(space("scopes of roles", 7 * 3, |i| format!("{:?}, language {:?}", CATS[(i % 7) as usize], ["rust", "", "a.b"][(i / 7) as usize]), move |i, cx| {
        let (c, lang) = ((i % 7) as usize, ["rust", "", "a.b"][(i / 7) as usize]);
        for r in toks {
            ensure_eq!(r.scopes(lang, CATS[c]), scopes(r.name(), r.name(), lang, PREFIX[c]), "scopes", "{r:?}");
            for t in [Theme::Default, Theme::OneDarkPro, Theme::OneLight] {
                let t = t.get_theme();
                let want = prefixes(r.name()).into_iter().find_map(|p| t.styles.get(p)).cloned().unwrap_or_else(|| fallback(&t.styles));
                ensure_eq!(t.get_token_style(r), want, "style", "{r:?}");
                cx.step()
            }
        }
        for r in elems {
            ensure_eq!(r.scopes(lang, CATS[c]), scopes(r.name(), r.name(), lang, PREFIX[c]), "scopes", "{r:?}");
            for t in [Theme::Default, Theme::OneDarkPro, Theme::OneLight] {
                let t = t.get_theme();
                let want = prefixes(r.name()).into_iter().find_map(|p| t.styles.get(p)).cloned().unwrap_or_else(|| fallback(&t.styles));
                ensure_eq!(t.get_element_style(r), want, "style", "{r:?}");
                cx.step()
            }
        }
        cx.exec();
        Ok(())
    }));
    let alike = ALIKE.len() as u64;
    v.push(space("roles with names like their universal ones, themes of one and two of their scopes", alike * 7, move |i| format!("{:?} in {:?}", ALIKE[(i / 7) as usize], CATS[(i % 7) as usize]), move |i, cx| {
        let (name, u) = &ALIKE[(i / 7) as usize];
        let all = scopes(name, u.name(), "lang.x", PREFIX[(i % 7) as usize]);
        let mut keys: Vec<&str> = all.iter().flat_map(|s| prefixes(s)).collect();
        keys.sort();
        keys.dedup();
        let themes: Vec<HighlightTheme> = (0..keys.len()).flat_map(|a| (0..=a).map(move |b| (a, b))).map(|(a, b)| HighlightTheme { name: "t".into(), styles: [a, b].map(|k| (keys[k].to_string(), mark(keys[k]))).into() }).collect();
        let p = [Tk::L(ROLES.len() as u8 + (i / 7) as u8, "w")];
        match i % 7 {
            0 => trees::<0>(&p, &themes, cx),
            1 => trees::<1>(&p, &themes, cx),
            2 => trees::<2>(&p, &themes, cx),
            3 => trees::<3>(&p, &themes, cx),
            4 => trees::<4>(&p, &themes, cx),
            5 => trees::<5>(&p, &themes, cx),
            _ => trees::<6>(&p, &themes, cx),
        }
    }));
    for (n, leaves) in [(1, 7), (2, 7), (3, 7), (4, 7), (5, 7), (6, 7), (7, t.pick(4, 7)), (8, t.pick(1, 3))] {
        let mut all = Vec::new();
        forests(n, 0, &LEAVES[..leaves], &mut Vec::new(), &mut all);
        let all = std::sync::Arc::new(all);
        let names = all.clone();
        v.push(space(format!("trees of {n} items"), all.len() as u64, move |i| format!("{:?}", names[i as usize]), move |i, cx| {
            let p = &all[i as usize];
            match i % 7 {
                0 => trees::<0>(p, own, cx),
                1 => trees::<1>(p, own, cx),
                2 => trees::<2>(p, own, cx),
                3 => trees::<3>(p, own, cx),
                4 => trees::<4>(p, own, cx),
                5 => trees::<5>(p, own, cx),
                _ => trees::<6>(p, own, cx),
            }
        }));
    }
    v.push(space("without a language", seq::count_upto(5, 3), |i| format!("{:?}", seq::string(&["a", "\n", "é", "𝄞", "<"], 3, i)), |i, cx| unmarked(seq::string(&["a", "\n", "é", "𝄞", "<"], 3, i), cx)));
    let ns = seq::sizes(t.pick(40, 70), t.pick(256, 1024));
    let n2 = ns.clone();
    v.push(space("large trees", 3 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 3], ["leaves in a row", "nodes in a row", "nodes in each other"][i as usize % 3]), move |i, cx| {
        let n = ns[i as usize / 3] as usize;
        let leaf = |k: usize| Tk::L(LEAVES[k % 7].0, LEAVES[k % 7].1);
        let p: Vec<Tk> = match i % 3 {
            0 => (0..n).map(leaf).collect(),
            1 => (0..n).flat_map(|k| [Tk::Open, leaf(k), leaf(k / 3), Tk::End]).collect(),
            _ => (0..n).flat_map(|k| [leaf(k), Tk::Open]).chain((0..n).flat_map(|k| [leaf(k), Tk::End])).collect(),
        };
        // the inner nodes on their own are checked in the small trees
        trees::<0>(&p, if n > 70 { &[] } else { own }, cx)
    }));
    let mut tails = Vec::new();
    (0..=3).for_each(|n| forests(n, 0, &LEAVES[..4], &mut Vec::new(), &mut tails));
    let heads = [65535, 65536, 65538].map(crate::toy::long);
    v.push(space("trees behind 2^16 bytes", 3 * tails.len() as u64, {
        let t = tails.clone();
        move |i| format!("{} bytes, then {:?}", heads[i as usize % 3].len(), t[i as usize / 3])
    }, move |i, cx| trees::<0>(&[vec![Tk::L(1, heads[i as usize % 3])], tails[i as usize / 3].clone()].concat(), &[], cx)));
    // long scopes, long lists of scopes, large themes
    let ns = seq::sizes(t.pick(20, 40), t.pick(256, 512));
    let n2 = ns.clone();
    v.push(space("long scopes", 2 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 2], ["parts", "scopes"][i as usize % 2]), move |i, cx| {
        let n = ns[i as usize / 2] as usize;
        let long = |k: usize| vec!["p"; k].join(".");
        for have in seq::sizes(4, 256).into_iter().map(|x| x as usize).filter(|x| *x <= n + 1) {
            let styles: HashMap<String, HighlightStyle> = [long(have), "other".to_string(), format!("{}q", long(have))].into_iter().map(|s| (s.clone(), mark(&s))).collect();
            let t = HighlightTheme { name: "t".into(), styles };
            let s: Vec<String> = if i % 2 == 0 { vec!["other".into(), long(n)] } else { (0..n).map(|k| format!("{}.x{k}", long(k % 5))).chain([long(have), "other".into()]).collect() };
            ensure_eq!(t.resolve_styles(&s), best(&t.styles, &s), "styles", "a theme with {have} parts");
            cx.step();
        }
        let many = HighlightTheme { name: "t".into(), styles: (0..n).map(|k| (format!("s{k}.x"), mark(&format!("s{k}.x")))).collect() };
        for k in [0, n / 2, n.max(1) - 1, n] {
            let s = vec!["s".to_string(), format!("s{k}"), format!("s{k}.x.y")];
            ensure_eq!(many.resolve_styles(&s), best(&many.styles, &s), "styles", "a theme of {n} scopes");
        }
        cx.state(&i);
        cx.exec();
        Ok(())
    }));
    v.push(each_character("every character as a token, in one and without a language", t, move |c, cx| {
        let (a, b) = (keep(c.to_string()), keep(format!("x{c}é")));
        trees::<0>(&[Tk::L(1, a), Tk::Open, Tk::L(2, b), Tk::L(3, a), Tk::End], if c < '\u{100}' { own } else { &own[..1] }, cx)?;
        unmarked(format!("{c}a\n{c}<{c}"), cx)
    }));
    v
}
