//! A small language of our own: the checked mechanisms are the core's, the language only drives them.
use oak_core::*;
use oak_core::language::{ElementRole, ElementType, TokenRole, TokenType, UniversalElementRole, UniversalTokenRole};
use oak_core::{memory::arena::SyntaxArena, tree::TokenProvenance};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    A,
    B,
    C,
    Ws,
    Open,
    Close,
    Comma,
    /// a word whose meaning is in its text
    W,
    Op(u8),
    Err,
    Eof,
}
impl TokenType for T {
    const END_OF_STREAM: Self = T::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> Self::Role {
        match self {
            T::Ws => UniversalTokenRole::Whitespace,
            T::Eof => UniversalTokenRole::Eof,
            T::Err => UniversalTokenRole::Error,
            _ => UniversalTokenRole::None,
        }
    }
    fn is_ignored(&self) -> bool {
        *self == T::Ws
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Root,
    Item,
    List,
    Pair,
    Opt,
    Bin(u8),
    Pre(u8),
    Post(u8),
    Num,
    Tok(T),
}
impl From<T> for N {
    fn from(t: T) -> Self {
        N::Tok(t)
    }
}
impl ElementType for N {
    type Role = UniversalElementRole;
    fn role(&self) -> Self::Role {
        match self {
            N::Root => UniversalElementRole::Root,
            _ => UniversalElementRole::None,
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Mock;
impl Language for Mock {
    const NAME: &'static str = "mock";
    type TokenType = T;
    type ElementType = N;
    type TypedRoot = ();
}

// ---------------------------------------------------------------- model trees
use oak_core::tree::{GreenNode, GreenTree};
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
    L(T, usize),
    N(N, Vec<M>),
}
impl M {
    pub fn len(&self) -> usize {
        match self {
            M::L(_, n) => *n,
            M::N(_, c) => c.iter().map(|m| m.len()).sum(),
        }
    }
    pub fn of(n: &GreenNode<'_, Mock>) -> M {
        M::N(
            n.kind,
            n.children()
                .iter()
                .map(|c| match c {
                    GreenTree::Node(x) => M::of(x),
                    GreenTree::Leaf(l) => M::L(l.kind, l.length as usize),
                })
                .collect(),
        )
    }
    pub fn show(&self) -> String {
        match self {
            M::L(t, n) => format!("{t:?}:{n}"),
            M::N(k, c) => format!("{k:?}({})", c.iter().map(|m| m.show()).collect::<Vec<_>>().join(" ")),
        }
    }
}
/// Every node's length is the sum of its children's.
pub fn lengths_ok(n: &GreenNode<'_, Mock>) -> bool {
    let s: usize = n.children().iter().map(|c| c.len() as usize).sum();
    s == n.text_len() as usize && n.children().iter().all(|c| c.as_node().is_none_or(lengths_ok))
}

// ---------------------------------------------------------------- lexer
use oak_core::lexer::*;
use oak_core::source::{Source, TextEdit};
/// Identifiers (`ab`), words of `b`, whitespace, brackets, commas, operators `+ - * ^ !`,
/// strings to the closing quote or the end, `//` comments, `=` and `==`, anything else an error.
#[derive(Clone, Copy, Default)]
pub struct MockLexer;
impl MockLexer {
    pub fn run<S: Source + ?Sized>(st: &mut LexerState<'_, S, Mock>) {
        while st.not_at_end() {
            let a = st.get_position();
            let Some(c) = st.current() else { break };
            let k = match c {
                'a' => {
                    st.take_while(|c| c == 'a');
                    T::A
                }
                'b' => {
                    st.take_while(|c| c == 'b');
                    T::B
                }
                'c' => {
                    st.bump();
                    T::C
                }
                'x' | 'y' => {
                    st.bump();
                    T::W
                }
                ' ' | '\n' => {
                    st.skip_ascii_whitespace();
                    T::Ws
                }
                '(' => {
                    st.bump();
                    T::Open
                }
                ')' => {
                    st.bump();
                    T::Close
                }
                ',' => {
                    st.bump();
                    T::Comma
                }
                '/' if st.starts_with("//") => {
                    st.skip_until(b'\n');
                    T::Ws
                }
                '"' => {
                    StringConfig { quotes: &['"'], escape: Some('\\') }.scan(st, T::C);
                    continue;
                }
                '=' => {
                    let two = st.consume_if_starts_with("==");
                    if !two {
                        st.bump();
                    }
                    T::Op(if two { b'E' } else { b'=' })
                }
                '+' | '-' | '*' | '^' | '!' => {
                    st.bump();
                    T::Op(c as u8)
                }
                _ => {
                    st.bump();
                    st.add_error(OakError::unexpected_character(c, a, st.source().source_id()));
                    T::Err
                }
            };
            st.add_token(k, a, st.get_position());
        }
        st.add_eof();
    }
}
impl Lexer<Mock> for MockLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Mock>) -> LexOutput<Mock> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(text.length());
        let mut st = LexerState::new_with_cache(text, from, cache);
        // a token list that already covers the text ends with its end-of-stream token
        if !(st.fully_reused() && st.tokens().last().is_some_and(|t| t.kind == T::Eof)) {
            Self::run(&mut st);
        }
        st.finish_with_cache(Ok(()), cache)
    }
}

// ---------------------------------------------------------------- parser
/// Which grammar style drives the incremental machinery.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    /// every construct through incremental_node, one token of lookahead behind a construct
    Nodes,
    /// lists through incremental_opt, statements terminated by a comma
    Opt,
    /// several nested nodes starting at the same offset, right recursion
    Nest,
    /// words mean what their text says
    Word,
    /// some tokens say where they come from
    Meta,
}
pub struct MockParser(pub G);
thread_local! { pub static NOTES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }
thread_local! { pub static BUILT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
type St<'a, S> = ParserState<'a, Mock, S>;
impl MockParser {
    fn item<S: Source + ?Sized>(&self, s: &mut St<'_, S>) -> Result<(), OakError> {
        BUILT.with(|b| b.set(b.get() + 1));
        match (self.0, s.peek_kind()) {
            (G::Nodes, Some(T::Open)) => s.incremental_node(N::List, |s| {
                s.bump();
                while s.not_at_end() && !s.at(T::Close) && !s.at(T::Eof) {
                    self.item(s)?
                }
                s.expect(T::Close).ok();
                Ok(())
            }),
            (G::Nodes, Some(T::A)) => {
                if s.peek_non_trivia_kind_at(1) == Some(T::Comma) {
                    s.incremental_node(N::Pair, |s| {
                        s.bump();
                        s.bump();
                        if s.at(T::Open) || s.at(T::A) { self.item(s) } else { s.expect(T::B) }
                    })
                    .ok();
                    Ok(())
                }
                else {
                    s.incremental_node(N::Item, |s| {
                        s.bump();
                        // a following b belongs to this item
                        s.eat(T::B);
                        Ok(())
                    })
                }
            }
            (G::Opt, Some(_)) => {
                let r = s.incremental_opt(N::Opt, |s| {
                    if s.at(T::Close) {
                        return Ok(false);
                    }
                    while s.not_at_end() && !s.at(T::Comma) && !s.at(T::Eof) {
                        if s.at(T::Open) {
                            s.incremental_node(N::List, |s| {
                                s.bump();
                                while s.not_at_end() && !s.at(T::Close) && !s.at(T::Eof) {
                                    self.item(s)?
                                }
                                s.expect(T::Close)
                            })
                            .ok();
                        }
                        else if s.at(T::Close) {
                            return Ok(true);
                        }
                        else {
                            s.bump()
                        }
                    }
                    s.eat(T::Comma);
                    Ok(true)
                })?;
                if !r {
                    s.record_unexpected_token("close");
                    s.bump()
                }
                Ok(())
            }
            (G::Nest, Some(T::A | T::Open)) => s.incremental_node(N::Item, |s| {
                s.incremental_node(N::Opt, |s| {
                    s.incremental_node(N::Pair, |s| {
                        if s.eat(T::Open) {
                            while s.at(T::A) || s.at(T::Open) {
                                self.item(s)?
                            }
                            return s.expect(T::Close);
                        }
                        s.bump();
                        Ok(())
                    })?;
                    if s.at(T::B) {
                        s.incremental_node(N::List, |s| {
                            s.bump();
                            Ok(())
                        })?
                    }
                    Ok(())
                })?;
                if s.eat(T::Comma) { self.item(s) } else { Ok(()) }
            }),
            // `x` takes a following a, `y` a following b; an a in front of an `x` is another node
            (G::Word, Some(T::W)) => s.incremental_node(N::Item, |s| {
                let x = word(s);
                s.bump();
                s.eat(if x == "x" { T::A } else { T::B });
                Ok(())
            }),
            (G::Word, Some(T::A)) => {
                let x = s.peek_non_trivia_at(1).filter(|t| t.kind == T::W).is_some_and(|t| s.source.get_text_in(t.span) == "x");
                s.incremental_node(if x { N::Pair } else { N::Opt }, |s| {
                    s.bump();
                    Ok(())
                })
            }
            (G::Word, Some(T::B)) => s.incremental_node(N::List, |s| {
                s.bump();
                while s.at(T::W) || s.at(T::A) {
                    self.item(s)?
                }
                s.eat(T::B);
                Ok(())
            }),
            // an a may stand in front of a noted b, which takes what follows up to a comma
            (G::Meta, Some(T::A)) => s.incremental_node(N::Item, |s| {
                s.bump();
                if s.at(T::B) { noted(s) }
                Ok(())
            }),
            (G::Meta, Some(T::B)) => s.incremental_node(N::Pair, |s| {
                noted(s);
                while s.at(T::A) || s.at(T::Open) {
                    self.item(s)?
                }
                s.eat(T::Comma);
                Ok(())
            }),
            (G::Meta, Some(T::Open)) => s.incremental_node(N::List, |s| {
                s.bump();
                while s.not_at_end() && !s.at(T::Close) && !s.at(T::Eof) {
                    self.item(s)?
                }
                s.expect(T::Close).ok();
                Ok(())
            }),
            _ => {
                s.record_unexpected_token("?");
                s.bump();
                Ok(())
            }
        }
    }
}
fn word<S: Source + ?Sized>(s: &St<'_, S>) -> String {
    s.current().map_or(String::new(), |t| s.source.get_text_in(t.span).to_string())
}
/// Takes the current token and notes where it stands.
fn noted<S: Source + ?Sized>(s: &mut St<'_, S>) {
    if let Some(t) = s.current().copied() {
        let from = TokenProvenance::from_source(t.span);
        s.sink.push_leaf_with_metadata(t.kind, t.length(), from);
        s.advance()
    }
}
/// What the leaves of a tree say about where they come from.
fn notes(n: &GreenNode<'_, Mock>, arena: &SyntaxArena, v: &mut Vec<String>) {
    for c in n.children() {
        match c {
            GreenTree::Node(x) => notes(x, arena, v),
            GreenTree::Leaf(l) => {
                if let Some(m) = l.metadata {
                    v.push(format!("{:?}", arena.get_metadata(m)))
                }
            }
        }
    }
}
impl Parser<Mock> for MockParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Mock>) -> ParseOutput<'a, Mock> {
        oak_core::parser::parse_with_lexer(&MockLexer, text, edits, cache, |s| {
            NOTES.take();
            let cp = s.checkpoint();
            while s.not_at_end() && !s.at(T::Eof) {
                // `c` makes the whole parse fail
                if s.at(T::C) {
                    return Err(s.syntax_error("c"));
                }
                self.item(s).ok();
            }
            let root = s.finish_at(cp, N::Root);
            if self.0 == G::Meta {
                NOTES.with_borrow_mut(|v| notes(root, s.arena(), v))
            }
            Ok(root)
        })
    }
}
/// Observable outcome of a parse.
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub tree: Result<M, String>,
    pub diags: Vec<String>,
    pub lengths: bool,
    pub notes: Vec<String>,
}
pub fn out(o: ParseOutput<'_, Mock>) -> Out {
    Out { notes: NOTES.take(), lengths: o.result.as_ref().is_ok_and(|n| lengths_ok(n)), tree: o.result.map(M::of).map_err(|e| format!("{e:?}")), diags: o.diagnostics.iter().map(|d| format!("{d:?}")).collect() }
}
pub fn fresh(g: G, t: &str) -> Out {
    let mut s = ParseSession::<Mock>::new(16);
    out(MockParser(g).parse(t, &[], &mut s))
}
