//! P42: a kind is what its role says it is, and parsers skip exactly whitespace and comments.
use mc_kit::*;
use oak_core::{
    Language, OakDiagnostics, ParserState, SourceText, Token,
    language::{ElementRole, ElementType, LanguageCategory, TokenRole, TokenType, UniversalElementRole as ER, UniversalTokenRole as TR},
    memory::arena::SyntaxArena,
    tree::GreenTree,
};
use std::collections::HashSet;

const TRS: [TR; 11] = [TR::Keyword, TR::Name, TR::Literal, TR::Escape, TR::Operator, TR::Punctuation, TR::Comment, TR::Whitespace, TR::Error, TR::None, TR::Eof];
const ERS: [ER; 19] = [
    ER::Container,
    ER::Statement,
    ER::Binding,
    ER::Reference,
    ER::Call,
    ER::Expression,
    ER::Value,
    ER::Definition,
    ER::Typing,
    ER::Metadata,
    ER::Attribute,
    ER::AttributeKey,
    ER::Detail,
    ER::Name,
    ER::Embedded,
    ER::Documentation,
    ER::Root,
    ER::Error,
    ER::None,
];
/// Roles of our own: two for every universal one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct R(u8);
impl TokenRole for R {
    fn universal(&self) -> TR {
        TRS[self.0 as usize % 11]
    }
    fn name(&self) -> &str {
        "own"
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Q(u8);
impl ElementRole for Q {
    fn universal(&self) -> ER {
        ERS[self.0 as usize % 19]
    }
    fn name(&self) -> &str {
        "own"
    }
}
/// Three kinds for every universal role: two share a role of ours.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct T(u8);
impl TokenType for T {
    const END_OF_STREAM: Self = T(10);
    type Role = R;
    fn role(&self) -> R {
        R(self.0 % 22)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct N(u8);
impl ElementType for N {
    type Role = Q;
    fn role(&self) -> Q {
        Q(self.0 % 38)
    }
}
impl From<T> for N {
    fn from(t: T) -> N {
        N(t.0)
    }
}
/// Kinds whose roles are the universal ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct U(u8);
impl TokenType for U {
    const END_OF_STREAM: Self = U(3);
    type Role = TR;
    fn role(&self) -> TR {
        TRS[self.0 as usize]
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct V(u8);
impl ElementType for V {
    type Role = ER;
    fn role(&self) -> ER {
        ERS[self.0 as usize]
    }
}
#[derive(Clone, Copy, Debug, Default)]
struct Lang;
impl Language for Lang {
    const NAME: &'static str = "roles";
    type TokenType = T;
    type ElementType = N;
    type TypedRoot = ();
}
fn token<K: TokenType>(k: K, end: bool, u: TR) -> Res {
    for q in TRS {
        ensure_eq!(k.is_universal(q), q == u, "is_universal", "{k:?} of role {u:?} asked for {q:?}");
    }
    ensure_eq!(k.is_comment(), u == TR::Comment, "is_comment", "{k:?} of role {u:?}");
    ensure_eq!(k.is_whitespace(), u == TR::Whitespace, "is_whitespace", "{k:?} of role {u:?}");
    ensure_eq!(k.is_error(), u == TR::Error, "is_error", "{k:?} of role {u:?}");
    ensure_eq!(k.is_ignored(), u == TR::Whitespace || u == TR::Comment, "is_ignored", "{k:?} of role {u:?}");
    ensure_eq!(k.is_end_of_stream(), end, "is_end_of_stream", "{k:?}");
    Ok(())
}
fn element<K: ElementType>(k: K, u: ER) -> Res {
    for q in ERS {
        ensure_eq!(k.is_universal(q), q == u, "is_universal", "{k:?} of role {u:?} asked for {q:?}");
    }
    ensure_eq!(k.is_root(), u == ER::Root, "is_root", "{k:?} of role {u:?}");
    ensure_eq!(k.is_error(), u == ER::Error, "is_error", "{k:?} of role {u:?}");
    Ok(())
}
fn kinds() -> Box<dyn Space> {
    space(
        "every kind of token and element asked about every role",
        33 + 57,
        |i| if i < 33 { format!("token {i}") } else { format!("element {}", i - 33) },
        |i, cx| {
            cx.state(&i);
            cx.nontrivial(true);
            cx.steps(60);
            guarded(|| {
                if i < 33 {
                    let k = T(i as u8);
                    token(k, i == 10, TRS[i as usize % 11])?;
                    for r in 0..22 {
                        ensure_eq!(k.is_role(R(r)), i % 22 == r as u64, "is_role", "{k:?} asked for role {r}");
                    }
                    if i < 11 {
                        let u = U(i as u8);
                        token(u, i == 3, TRS[i as usize])?;
                        for r in TRS {
                            ensure_eq!(u.is_role(r), TRS[i as usize] == r, "is_role", "{u:?} asked for {r:?}");
                        }
                        ensure_eq!(TRS[i as usize].universal(), TRS[i as usize], "universal", "");
                    }
                }
                else {
                    let i = i - 33;
                    let k = N(i as u8);
                    element(k, ERS[i as usize % 19])?;
                    for r in 0..38 {
                        ensure_eq!(k.is_role(Q(r)), i % 38 == r as u64, "is_role", "{k:?} asked for role {r}");
                    }
                    if i < 19 {
                        let v = V(i as u8);
                        element(v, ERS[i as usize])?;
                        for r in ERS {
                            ensure_eq!(v.is_role(r), ERS[i as usize] == r, "is_role", "{v:?} asked for {r:?}");
                        }
                        ensure_eq!(ERS[i as usize].universal(), ERS[i as usize], "universal", "");
                    }
                }
                let mut names: HashSet<&str> = TRS.iter().map(TokenRole::name).collect();
                ensure_eq!(names.len(), TRS.len(), "names", "token roles share a name: {names:?}");
                names = ERS.iter().map(|r| ElementRole::name(r)).collect();
                ensure_eq!(names.len(), ERS.len(), "names", "element roles share a name: {names:?}");
                ensure!(Lang::CATEGORY == LanguageCategory::Programming, "category", "languages are for programming unless they say otherwise");
                Ok(())
            })
        },
    )
}
fn trivia(k: T) -> bool {
    matches!(TRS[k.0 as usize % 11], TR::Comment | TR::Whitespace)
}
/// Every list of tokens: parsers see those that are no trivia, and trees hold them all.
fn streams(d: u32) -> Box<dyn Space> {
    let case = move |i: u64| -> Vec<T> { seq::nth(22, d, i).into_iter().map(|k| T(k as u8)).collect() };
    space(format!("every list of up to {d} tokens of 22 kinds, parsed token by token"), seq::count_upto(22, d), move |i| format!("{:?}", case(i)), move |i, cx| stream(case(i), cx))
}
/// Long lists of two kinds in turn, and one kind many times in front of another.
fn long(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(40, tier.pick(256, 1024));
    let r = [ns.len() as u64, 22, 22, 2];
    let case = move |i: u64| -> Vec<T> {
        let g = seq::digits(&r, i);
        let (n, a, b) = (ns[g[0] as usize] as usize, T(g[1] as u8), T(g[2] as u8));
        if g[3] == 0 { [a, b].repeat(n) } else { [vec![a; n], vec![b, a, b]].concat() }
    };
    let c2 = case.clone();
    space(
        "two kinds in turn, and one kind many times before another: every number up to 40 and around the powers of two",
        seq::prod(&r),
        move |i| format!("{} tokens, {:?} ...", c2(i).len(), c2(i).iter().take(3).collect::<Vec<_>>()),
        move |i, cx| stream(case(i), cx),
    )
}
fn stream(ks: Vec<T>, cx: &mut Cx) -> Res {
            cx.state(&ks);
            cx.nontrivial(ks.iter().any(|k| trivia(*k)));
            guarded(|| {
                let text = "x".repeat(ks.len());
                let source = SourceText::new(text.as_str());
                let toks: Vec<Token<T>> = ks.iter().enumerate().map(|(j, k)| Token { kind: *k, span: (j..j + 1).into() }).collect();
                let arena = SyntaxArena::new(16);
                let mut st: ParserState<Lang, SourceText> = ParserState::new(&arena, OakDiagnostics { result: Ok(toks.into()), diagnostics: vec![] }, &source, 4);
                let start = (0, 0);
                st.skip_trivia();
                let mut at = 0;
                let mut seen = vec![];
                loop {
                    while at < ks.len() && trivia(ks[at]) {
                        at += 1;
                    }
                    cx.step();
                    let who = if ks.len() < 40 { format!("{ks:?}") } else { format!("{} tokens {:?}", ks.len(), &ks[..3]) };
                    ensure_eq!(st.peek_kind(), ks.get(at).copied(), "current", "{who} after {} tokens", seen.len());
                    let rest: Vec<T> = ks[at..].iter().copied().filter(|k| !trivia(*k)).collect();
                    for n in (0..=ks.len()).filter(|n| *n < 5 || *n + 3 > ks.len() || at % 64 == 0 && n.is_power_of_two()) {
                        ensure_eq!(st.peek_non_trivia_kind_at(n), rest.get(n).copied(), "peek", "{who} at {at}, {n} ahead");
                        ensure_eq!(st.peek_kind_at(n), ks.get(at + n).copied(), "peek", "{who} at {at}, {n} tokens ahead");
                    }
                    if at >= ks.len() {
                        break;
                    }
                    seen.push(ks[at]);
                    st.bump();
                    at += 1;
                }
                ensure!(!st.not_at_end(), "end", "{ks:?}");
                let root = st.finish_at(start, N(16));
                let leaves: Vec<T> = root.children().iter().map(|c| match c { GreenTree::Leaf(l) => l.kind, GreenTree::Node(_) => T(99) }).collect();
                ensure!(leaves == ks, "tree", "the leaves of the tree of {} tokens are {leaves:?}", ks.len());
                Ok(())
            })
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    vec![kinds(), streams(t.pick(4, 5)), long(t)]
}
