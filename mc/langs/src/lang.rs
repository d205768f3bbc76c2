//! Type-erased access to every bundled language.
use oak_core::{
    GreenNode, GreenTree, Lexer, ParseSession, Parser, TextEdit, TokenType,
    source::{ChunkedBuffer, Source, SourceText},
};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub kind: String,
    pub eof: bool,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lexed {
    pub tokens: Option<Vec<Tok>>,
    pub err: String,
    pub diags: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Parsed {
    pub ok: bool,
    pub err: String,
    pub diags: Vec<String>,
    /// s-expression with kinds and lengths
    pub tree: String,
    pub len: usize,
    pub leaves: Vec<(String, usize)>,
    /// every node's length equals the sum of its children's
    pub sums_ok: bool,
}

pub enum Doc {
    Whole(String),
    Pieces(Vec<String>),
}
impl Doc {
    pub fn text(&self) -> String {
        match self {
            Doc::Whole(s) => s.clone(),
            Doc::Pieces(p) => p.concat(),
        }
    }
}
pub struct Step {
    pub doc: Doc,
    pub edits: Vec<TextEdit>,
}

pub trait DynLang: Send + Sync {
    fn name(&self) -> &'static str;
    fn lex(&self, doc: &Doc) -> Lexed;
    /// Lex a history of texts in one session (the lexer sees its own previous output).
    fn lex_history(&self, steps: &[Step]) -> Vec<Lexed>;
    fn parse(&self, doc: &Doc) -> Parsed;
    fn parse_history(&self, steps: &[Step]) -> Vec<Parsed>;
}

fn walk<L: oak_core::Language>(n: &GreenNode<'_, L>, out: &mut Parsed) {
    let _ = write!(out.tree, "({:?}:{}", n.kind, n.text_len());
    let mut sum = 0usize;
    for c in n.children() {
        match c {
            GreenTree::Node(x) => {
                sum += x.text_len() as usize;
                walk(x, out)
            }
            GreenTree::Leaf(l) => {
                sum += l.length as usize;
                let _ = write!(out.tree, " {:?}:{}", l.kind, l.length);
                out.leaves.push((format!("{:?}", l.kind), l.length as usize));
            }
        }
    }
    if sum != n.text_len() as usize {
        out.sums_ok = false
    }
    out.tree.push(')');
}

pub fn erase_lex<L: oak_core::Language>(o: oak_core::lexer::LexOutput<L>) -> Lexed {
    let diags = o.diagnostics.iter().map(|e| format!("{e:?}")).collect();
    match o.result {
        Ok(t) => Lexed { tokens: Some(t.iter().map(|t| Tok { kind: format!("{:?}", t.kind), eof: t.kind == L::TokenType::END_OF_STREAM, start: t.span.start, end: t.span.end }).collect()), err: String::new(), diags },
        Err(e) => Lexed { tokens: None, err: format!("{e:?}"), diags },
    }
}
pub fn erase_parse<L: oak_core::Language>(o: oak_core::parser::ParseOutput<'_, L>) -> Parsed {
    let mut p = Parsed { ok: false, err: String::new(), diags: o.diagnostics.iter().map(|e| format!("{e:?}")).collect(), tree: String::new(), len: 0, leaves: vec![], sums_ok: true };
    match o.result {
        Ok(n) => {
            p.ok = true;
            p.len = n.text_len() as usize;
            walk(n, &mut p)
        }
        Err(e) => p.err = format!("{e:?}"),
    }
    p
}
pub fn chunked(p: &[String]) -> impl Source {
    let mut b = ChunkedBuffer::new();
    for x in p {
        b.push_str(x)
    }
    b
}

pub struct Ops<L: oak_core::Language + Send + Sync + 'static> {
    pub name: &'static str,
    pub cfg: &'static L,
    pub lex: fn(&'static L, &dyn Source, &[TextEdit], &mut ParseSession<L>) -> oak_core::lexer::LexOutput<L>,
    pub parse: for<'x> fn(&'static L, &'x dyn Source, &[TextEdit], &'x mut ParseSession<L>) -> oak_core::parser::ParseOutput<'x, L>,
}
impl<L: oak_core::Language + Send + Sync + 'static> Ops<L> {
    fn with<T>(&self, d: &Doc, f: impl FnOnce(&dyn Source) -> T) -> T {
        match d {
            Doc::Whole(s) => f(&SourceText::new(s.clone())),
            Doc::Pieces(p) => f(&chunked(p)),
        }
    }
}
impl<L: oak_core::Language + Send + Sync + 'static> DynLang for Ops<L> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn lex(&self, d: &Doc) -> Lexed {
        self.with(d, |s| erase_lex::<L>((self.lex)(self.cfg, s, &[], &mut ParseSession::new(16))))
    }
    fn lex_history(&self, steps: &[Step]) -> Vec<Lexed> {
        let mut c = ParseSession::<L>::new(16);
        steps.iter().map(|st| self.with(&st.doc, |s| erase_lex::<L>((self.lex)(self.cfg, s, &st.edits, &mut c)))).collect()
    }
    fn parse(&self, d: &Doc) -> Parsed {
        self.with(d, |s| erase_parse::<L>((self.parse)(self.cfg, s, &[], &mut ParseSession::new(16))))
    }
    fn parse_history(&self, steps: &[Step]) -> Vec<Parsed> {
        let mut c = ParseSession::<L>::new(16);
        steps.iter().map(|st| self.with(&st.doc, |s| erase_parse::<L>((self.parse)(self.cfg, s, &st.edits, &mut c)))).collect()
    }
}

#[macro_export]
macro_rules! lang {
    ($v:ident, $name:expr, $m:ident, [$($md:ident),*], $L:ident, $X:ident, $P:ident, |$c:ident| $lx:expr, |$c2:ident| $ps:expr) => {
        $crate::lang!($v, $name, $m, [$($md),*], $L, $X, $P, <$L>::default(), |$c| $lx, |$c2| $ps)
    };
    ($v:ident, $name:expr, $m:ident, [$($md:ident),*], $L:ident, $X:ident, $P:ident, $new:expr, |$c:ident| $lx:expr, |$c2:ident| $ps:expr) => {{
        #[allow(unused_imports, ambiguous_glob_reexports)]
        mod inner {
            pub use $m::{$($md::*,)* *};
        }
        #[allow(unused_imports)]
        use inner::{$L, $P, $X};
        let cfg: &'static $L = Box::leak(Box::new($new));
        $v.push(Box::new($crate::lang::Ops::<$L> {
            name: $name,
            cfg,
            lex: |$c, s, e, k| oak_core::Lexer::<$L>::lex(&$lx, s, e, k),
            parse: |$c2, s, e, k| oak_core::Parser::<$L>::parse(&$ps, s, e, k),
        }));
    }};
}
