//! P09: whatever sequence of builder operations a parser performs, the tree it finishes is
//! the tree those operations describe, with the lengths and text of the tokens.
use crate::lang::*;
use mc_kit::*;
use oak_core::{Lexer, OakError, ParseSession, ParserState, SourceText, memory::arena::SyntaxArena, source::Source, tree::TokenProvenance};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bump,
    EatA,
    ExpectB,
    Skip,
    Open,
    Close,
    Wrap,
    /// wraps the first node instead of the last
    WrapFirst,
    Until,
    Sub,
    Promote,
    Try,
    /// the other backtracking point
    TryE,
    Inc,
    IncOpt,
    /// consumes a token into a leaf that says where it comes from
    Meta,
    /// ends a block successfully
    Ok,
    /// ends a block with an error (or `absent` for IncOpt)
    Fail,
    Absent,
}
use Op::*;
static WRAPS: [Op; 8] = [Bump, Skip, Open, Close, Wrap, WrapFirst, Sub, Meta];
static OPS: [Op; 18] = [Bump, EatA, ExpectB, Skip, Open, Close, Wrap, Until, Sub, Promote, Try, TryE, Inc, IncOpt, Meta, Ok, Fail, Absent];

/// Is the sequence a disciplined one? (close what was opened in this block, end blocks)
fn valid(p: &[Op]) -> bool {
    let mut st: Vec<(Op, usize)> = vec![(Try, 0)];
    for (i, o) in p.iter().enumerate() {
        let n = st.len();
        match o {
            Open => st[n - 1].1 += 1,
            Close => {
                if st[n - 1].1 == 0 {
                    return false;
                }
                st[n - 1].1 -= 1
            }
            Try | TryE | Inc | IncOpt => st.push((*o, 0)),
            Ok | Fail => {
                if n == 1 || (*o == Ok && st[n - 1].1 != 0) || i > 0 && matches!(p[i - 1], Try | TryE) && *o == Ok {
                    return false;
                }
                // only a backtracking point may leave nodes unfinished
                if st[n - 1].1 != 0 && !matches!(st[n - 1].0, Try | TryE) {
                    return false;
                }
                st.pop();
            }
            Absent => {
                // nothing may have been consumed
                if n == 1 || st[n - 1].0 != IncOpt || p[i - 1] != IncOpt {
                    return false;
                }
                st.pop();
            }
            _ => {}
        }
    }
    true
}
/// Completes a prefix: end all blocks, close all nodes.
fn complete(p: &[Op]) -> Vec<Op> {
    let mut st: Vec<usize> = vec![0];
    let mut v = p.to_vec();
    for o in p {
        let n = st.len();
        match o {
            Open => st[n - 1] += 1,
            Close => st[n - 1] -= 1,
            Try | TryE | Inc | IncOpt => st.push(0),
            Ok | Fail | Absent => {
                st.pop();
            }
            _ => {}
        }
    }
    while let Some(k) = st.pop() {
        for _ in 0..k {
            v.push(Close)
        }
        if !st.is_empty() {
            v.push(Ok)
        }
    }
    v
}

// ---- the model: a token index and a list of finished children
struct Model<'t> {
    toks: &'t [(T, usize)],
    i: usize,
    kids: Vec<M>,
    errs: Vec<(usize, String)>,
    total: usize,
}
impl Model<'_> {
    fn offset(&self) -> usize {
        self.toks[..self.i.min(self.toks.len())].iter().map(|t| t.1).sum()
    }
    fn trivia(&mut self) {
        while let Some((T::Ws, n)) = self.toks.get(self.i) {
            self.kids.push(M::L(T::Ws, *n));
            self.i += 1
        }
    }
    fn kind(&self) -> Option<T> {
        self.toks.get(self.i).map(|t| t.0)
    }
    fn bump(&mut self) {
        if let Some((k, n)) = self.toks.get(self.i) {
            self.kids.push(M::L(*k, *n));
            self.i += 1;
            self.trivia()
        }
    }
    fn fold(&mut self, at: usize, k: N) {
        let c = self.kids.split_off(at);
        self.kids.push(M::N(k, c))
    }
}
type St<'a> = ParserState<'a, Mock, SourceText>;
const KIND: N = N::Item;
fn agree(st: &St<'_>, m: &Model<'_>, p: &[Op], at: usize, text: &str) -> Res {
    let c = |what: &str, ok: bool| if ok { Result::Ok(()) } else { fail("query", format!("{what} differs from the model after {:?} of {p:?} on {text:?}", &p[..at])) };
    c("position", st.tokens.index() == m.i)?;
    c("current kind", st.peek_kind() == m.kind())?;
    c("at end", st.not_at_end() == (m.i < m.toks.len()))?;
    c("offset", st.current_offset() == if m.i < m.toks.len() { m.offset() } else { m.total })?;
    c("current text", st.peek_text().map(|x| x.into_owned()) == m.toks.get(m.i).map(|t| text[m.offset()..m.offset() + t.1].to_string()))?;
    let tok = |k: usize| m.toks.get(m.i + k).map(|t| (t.0, m.toks[..m.i + k].iter().map(|t| t.1).sum::<usize>(), t.1));
    for k in 0..3 {
        c("token ahead", st.peek_at(k).map(|t| (t.kind, t.span.start, t.length())) == tok(k))?;
        let n = (0..m.toks.len()).filter(|i| m.toks.get(m.i + i).is_some_and(|t| t.0 != T::Ws)).nth(k);
        c("significant token ahead", st.peek_non_trivia_at(k).map(|t| (t.kind, t.span.start, t.length())) == n.and_then(tok))?;
    }
    c("at", st.at(T::A) == (m.kind() == Some(T::A)) && st.not_at(T::A) != st.at(T::A))?;
    for k in 0..3 {
        c("lookahead", st.peek_kind_at(k) == m.toks.get(m.i + k).map(|t| t.0))?;
        c("significant lookahead", st.peek_non_trivia_kind_at(k) == m.toks.get(m.i..).unwrap_or(&[]).iter().map(|t| t.0).filter(|t| *t != T::Ws).nth(k))?;
    }
    c("number of children", st.sink.checkpoint() == m.kids.len())
}
/// Runs one block of both sides; returns where it ended and whether it succeeded.
fn block<'a>(st: &mut St<'a>, m: &mut Model<'_>, p: &[Op], mut at: usize, text: &str, nodes: &mut Vec<&'a oak_core::GreenNode<'a, Mock>>, cx: &mut Cx) -> Result<(usize, Op), Fail> {
    let mut opens: Vec<((usize, usize), usize)> = Vec::new();
    let first = m.kids.len();
    while at < p.len() {
        let o = p[at];
        at += 1;
        cx.step();
        match o {
            Ok | Fail | Absent => return Result::Ok((at, o)),
            Bump => {
                st.bump();
                m.bump()
            }
            EatA => {
                let w = m.kind() == Some(T::A);
                ensure_eq!(st.eat(T::A), w, "eat", "{p:?} {text:?}");
                if w {
                    m.bump()
                }
            }
            ExpectB => {
                let r = st.expect(T::B);
                if m.kind() == Some(T::B) {
                    ensure!(r.is_ok(), "expect", "{p:?} {text:?}");
                    m.bump()
                }
                else {
                    ensure!(r.is_err(), "expect", "{p:?} {text:?}");
                    m.errs.push((if m.i < m.toks.len() { m.offset() } else { m.total }, "expected".into()))
                }
            }
            Skip => {
                st.advance();
                m.i += 1;
                m.trivia()
            }
            Until => {
                st.advance_until(T::B);
                while m.i < m.toks.len() && m.kind() != Some(T::B) {
                    m.i += 1;
                    m.trivia()
                }
            }
            Open => opens.push((st.checkpoint(), m.kids.len())),
            Close => {
                let (c, k) = opens.pop().unwrap();
                nodes.push(st.finish_at(c, KIND));
                m.fold(k, KIND)
            }
            Wrap | WrapFirst => {
                // wrap the most recent (or the first) node of this block that is still at top level
                let base = opens.last().map_or(first, |o| o.1);
                let mut at_top = (base..m.kids.len()).filter(|k| matches!(m.kids[*k], M::N(..)));
                if let Some(k) = if o == Wrap { at_top.next_back() } else { at_top.next() } {
                    let n = nodes_of(st, k);
                    let c = st.checkpoint_before(n);
                    st.bump();
                    m.bump();
                    nodes.push(st.finish_at(c, N::Pair));
                    m.fold(k, N::Pair)
                }
            }
            Sub => {
                let mut n = st.nested();
                ensure!(n.errors.is_empty() && n.sink.checkpoint() == 0 && n.tokens.index() == m.i, "nested", "{p:?} {text:?}: a nested parser starts at token {} with {} leaves and {} errors", n.tokens.index(), n.sink.checkpoint(), n.errors.len());
                let c = n.checkpoint();
                n.bump();
                let node = n.finish_at(c, N::Opt);
                let i = n.tokens.index();
                st.push_child(node);
                st.tokens.set_index(i);
                let k = m.kids.len();
                m.bump();
                m.fold(k, N::Opt)
            }
            Promote => {
                if let Some(n) = nodes.last().copied() {
                    let c = st.promote(n);
                    ensure_eq!(M::of(c), M::of(n), "promote", "{p:?} {text:?}");
                    ensure!(!std::ptr::eq(c, n) && c.text_len() == n.text_len(), "promote", "{p:?} {text:?}");
                }
            }
            Meta => {
                if let Some((_, n)) = m.toks.get(m.i) {
                    let a = m.offset();
                    st.sink.push_leaf_with_metadata(T::C, *n, provenance(a, *n));
                    st.advance();
                    m.kids.push(M::L(T::C, *n));
                    m.i += 1;
                    m.trivia()
                }
            }
            Try | TryE => {
                let (mi, mk) = (m.i, m.kids.len());
                let mut end = (at, Ok);
                let mut bad = None;
                let body = |st: &mut St<'a>| match block(st, m, p, at, text, nodes, cx) {
                    Result::Ok(e) => {
                        end = e;
                        if e.1 == Ok { Result::Ok(5) } else { Err(OakError::syntax_error("x", at, None)) }
                    }
                    Err(f) => {
                        bad = Some(f);
                        Result::Ok(5)
                    }
                };
                let r = if o == Try { st.try_parse(body) } else { st.try_parse_with_error(body) };
                if let Some(f) = bad {
                    return Err(f);
                }
                let want = if end.1 == Ok { Result::Ok(5) } else { Err(OakError::syntax_error("x", at, None).to_string()) };
                ensure_eq!(r.map_err(|e| e.to_string()), want, "try", "{p:?} {text:?}");
                at = end.0;
                if end.1 != Ok {
                    m.i = mi;
                    m.kids.truncate(mk);
                }
            }
            Inc | IncOpt => {
                let mk = m.kids.len();
                let mut end = (at, Ok);
                let mut bad = None;
                let mut body = |st: &mut St<'a>| match block(st, m, p, at, text, nodes, cx) {
                    Result::Ok(e) => {
                        end = e;
                        e.1
                    }
                    Err(f) => {
                        bad = Some(f);
                        Ok
                    }
                };
                let e = || OakError::syntax_error("x", 0, None);
                let good = if o == Inc {
                    st.incremental_node(N::List, |s| if body(s) == Ok { Result::Ok(()) } else { Err(e()) }).map(|_| true)
                }
                else {
                    st.incremental_opt(N::List, |s| match body(s) {
                        Ok => Result::Ok(true),
                        Absent => Result::Ok(false),
                        _ => Err(e()),
                    })
                };
                if let Some(f) = bad {
                    return Err(f);
                }
                at = end.0;
                ensure_eq!(good.ok(), [Some(true), None, Some(false)][[Ok, Fail, Absent].iter().position(|x| *x == end.1).unwrap()], "incremental", "{p:?} {text:?}");
                if end.1 != Absent {
                    m.fold(mk, N::List)
                }
            }
        }
        agree(st, m, p, at, text)?;
    }
    Result::Ok((at, Ok))
}
/// The sink's k-th child as the node it is (found through a throw-away fold).
fn nodes_of<'a>(st: &mut St<'a>, k: usize) -> &'a oak_core::GreenNode<'a, Mock> {
    let all = st.finish_at((0, 0), N::Root);
    let n = all.children()[k].as_node().unwrap();
    st.sink.restore(0);
    for c in all.children() {
        match c {
            oak_core::tree::GreenTree::Node(x) => st.push_child(x),
            oak_core::tree::GreenTree::Leaf(l) => match l.metadata.and_then(|k| st.arena().get_metadata(k)) {
                Some(p) => st.sink.push_leaf_with_metadata(l.kind, l.length as usize, p.clone()),
                None => st.sink.push_leaf(l.kind, l.length as usize),
            },
        }
    }
    n
}
fn one(p: &[Op], text: &str, cx: &mut Cx) -> Res {
    let src = SourceText::new(text.to_string());
    let lexed = MockLexer.lex(&src, &[], &mut ParseSession::<Mock>::new(16));
    let toks: Vec<(T, usize)> = lexed.result.as_ref().unwrap().iter().map(|t| (t.kind, t.length())).collect();
    let nlex = lexed.diagnostics.len();
    let arena = SyntaxArena::new(4);
    let mut st = ParserState::<Mock, SourceText>::new(&arena, lexed, &src, 4);
    let mut m = Model { toks: &toks, i: 0, kids: vec![], errs: vec![], total: text.len() };
    m.trivia();

    agree(&st, &m, p, 0, text)?;
    let cp = st.checkpoint();
    let mut nodes = Vec::new();
    block(&mut st, &mut m, p, 0, text, &mut nodes, cx)?;
    // a finished root takes in the trivia in front of it if it then spans the whole text
    let root = st.finish_at(cp, N::Root);
    let lead = cp.1;
    let kids = m.kids.split_off(lead);
    let bare = M::N(N::Root, kids.clone());
    let mut all = std::mem::take(&mut m.kids);
    all.extend(kids);
    let want = M::N(N::Root, all);
    let whole = want.len() == text.len();
    let errs: Vec<(usize, String)> = std::mem::take(&mut m.errs);
    let skipped = p.iter().any(|o| matches!(o, Skip | Until));
    let consumed: usize = m.offset();
    let o = st.finish(Result::Ok(root));
    cx.exec();
    cx.state(&(&want, errs.len()));
    cx.nontrivial(p.len() > 2);
    let root = o.result.unwrap();
    // where parsing stopped early, the trivia in front may be left out or in
    if whole || M::of(root) != bare {
        ensure_eq!(M::of(root), want, "tree", "{p:?} on {text:?}");
    }
    ensure!(lengths_ok(root), "length", "{p:?} on {text:?}: a node's length is not the sum of its children's");
    // leaves that carry where they come from say so, the others carry nothing
    fn metas(n: &oak_core::GreenNode<'_, Mock>, at: &mut usize, arena: &SyntaxArena, whole: bool) -> Res {
        for c in n.children() {
            match c {
                oak_core::tree::GreenTree::Node(x) => metas(x, at, arena, whole)?,
                oak_core::tree::GreenTree::Leaf(l) => {
                    let got = l.metadata.and_then(|k| arena.get_metadata(k).cloned());
                    // with everything in the tree, a leaf's place is known
                    let want = (l.kind == T::C).then(|| provenance(*at, l.length as usize));
                    if whole { ensure_eq!(got, want, "metadata", "leaf at {at}") } else { ensure_eq!(got.is_some(), want.is_some(), "metadata", "leaf at {at}") }
                    *at += l.length as usize;
                }
            }
        }
        Result::Ok(())
    }
    if !text.contains('c') {
        metas(root, &mut 0, &arena, whole && !skipped && root.text_len() as usize == text.len())?
    }
    if !skipped && whole {
        ensure_eq!(root.text_len() as usize, consumed, "length", "{p:?} on {text:?}: bytes covered by the tree");
    }
    ensure_eq!(o.diagnostics.len(), nlex + errs.len(), "diagnostics", "{p:?} on {text:?}: number of diagnostics");
    for (d, (at, _)) in o.diagnostics[nlex..].iter().zip(&errs) {
        let s = match d.kind() {
            oak_core::OakErrorKind::ExpectedToken { expected, offset, source_id } => expected == "B" && offset == at && source_id.is_none(),
            _ => false,
        };
        ensure!(s, "diagnostics", "{p:?} on {text:?}: {d} should be about {at}");
    }
    Result::Ok(())
}

static TEXTS: &[&str] = &["", "a", "ab", " a b ", "a  b,a", "(a) b"];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    vec![sequences("", &OPS, tier.pick(6, 7)), sequences(" that wrap nodes", &WRAPS, tier.pick(7, 8)), repeated(tier), far(tier)]
}
/// One case per prefix of 3 operations, all continuations inside.
fn sequences(which: &str, ops: &'static [Op], d: u32) -> Box<dyn Space> {
    let n = ops.len() as u64;
    space(
        format!("every disciplined sequence of at most {d} builder operations{which} on {} token lists", TEXTS.len()),
        seq::count_upto(n, 3),
        move |i| format!("prefix {:?}", seq::nth(n, 3, i).iter().map(|k| ops[*k]).collect::<Vec<_>>()),
        move |i, cx| {
            let p: Vec<Op> = seq::nth(n, 3, i).iter().map(|k| ops[*k]).collect();
            if !valid(&p) {
                return Result::Ok(());
            }
            fn go(ops: &[Op], p: &mut Vec<Op>, left: u32, cx: &mut Cx) -> Res {
                let q = complete(p);
                if valid(&q) {
                    for t in TEXTS {
                        guarded(|| one(&q, t, cx)).map_err(|f| Fail { kind: f.kind, detail: format!("{q:?} on {t:?}: {}", f.detail) })?;
                    }
                }
                if left > 0 {
                    for o in ops {
                        p.push(*o);
                        if valid(p) {
                            go(ops, p, left - 1, cx)?;
                        }
                        p.pop();
                    }
                }
                Result::Ok(())
            }
            let mut p = p;
            let left = if p.len() == 3 { d - 3 } else { 0 };
            go(ops, &mut p, left, cx)
        },
    )
}
const PATTERNS: [(&str, &[Op], &[Op], &[Op]); 17] = [
    // name, what is repeated, what stands in the middle, what is repeated behind it
    ("bump", &[Bump], &[], &[]),
    ("nodes in one another", &[Open], &[Bump], &[Close]),
    ("nodes that take a token on both sides", &[Open, Bump], &[], &[Bump, Close]),
    ("nodes in a row", &[Open, Bump, Close], &[], &[]),
    ("wrap what was finished", &[], &[Open, Bump, Close], &[Wrap]),
    ("attempts that fail", &[Try, Bump, Fail], &[Bump], &[]),
    ("attempts that fail, within each other", &[Try, Bump], &[], &[Fail]),
    ("attempts that succeed, within each other", &[TryE, Bump], &[], &[Ok]),
    ("attempts that leave nodes open", &[Try, Open, Bump, Open, Bump, Fail], &[Bump], &[]),
    ("productions within each other", &[Inc], &[Bump], &[Ok]),
    ("productions in a row", &[Inc, Bump, Ok], &[IncOpt, Absent], &[IncOpt, Bump, Ok]),
    ("productions that fail", &[Inc, Bump, Fail], &[Bump], &[]),
    ("skip", &[Skip], &[Bump], &[]),
    ("what is not there", &[ExpectB], &[Bump], &[EatA]),
    ("nested parsers", &[Sub], &[Until], &[]),
    ("wrap the first of many", &[Open, Bump, Close], &[], &[WrapFirst]),
    ("leaves with a place", &[Meta], &[Open], &[Meta]),
];
/// Few kinds of operations, many of them.
fn repeated(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(40, tier.pick(256, 1024));
    let n2 = ns.clone();
    let r = [ns.len() as u64, PATTERNS.len() as u64];
    space(
        "patterns of operations repeated: every number up to 40 and around the powers of two",
        seq::prod(&r),
        move |i| {
            let g = seq::digits(&r, i);
            format!("{} times {}", n2[g[0] as usize], PATTERNS[g[1] as usize].0)
        },
        move |i, cx| {
            let g = seq::digits(&r, i);
            let n = ns[g[0] as usize] as usize;
            let (name, a, b, c) = PATTERNS[g[1] as usize];
            let p = complete(&[a.repeat(n), b.to_vec(), c.repeat(n)].concat());
            ensure!(valid(&p), "harness", "{name}");
            for unit in ["a", "a ", "b", " b,a"] {
                let t = unit.repeat(n.min(300));
                guarded(|| one(&p, &t, cx)).map_err(|f| Fail { kind: f.kind, detail: format!("{n} times {name} on {unit:?} repeated: {}", f.detail.chars().take(500).collect::<String>()) })?;
            }
            Result::Ok(())
        },
    )
}
/// Where the leaf of `n` bytes at `a` comes from: the source, or (every third) out of thin air.
fn provenance(a: usize, n: usize) -> TokenProvenance {
    if a % 3 == 2 { TokenProvenance::from_synthesized(format!("{a}+{n}")) } else { TokenProvenance::from_source(crate::util::range(a, a + n)) }
}

/// Lookahead and search over long lists of tokens.
fn far(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes_and_64k(20, tier.pick(1 << 10, 1 << 13));
    let n2 = ns.clone();
    const SHAPES: [&str; 6] = ["blanks, then a", "a, blanks, b", "blanks only", "a and blank in turn", "a, all of them", "a, blanks, b, blanks, c"];
    space(
        "lookahead and search over many tokens",
        6 * ns.len() as u64,
        move |i| format!("{} {}", n2[i as usize / 6], SHAPES[i as usize % 6]),
        move |i, cx| {
            let n = ns[i as usize / 6] as usize;
            let w = |n: usize| vec![T::Ws; n];
            let kinds: Vec<T> = match i % 6 {
                0 => [w(n), vec![T::A]].concat(),
                1 => [vec![T::A], w(n), vec![T::B]].concat(),
                2 => w(n),
                3 => [T::A, T::Ws].repeat(n),
                4 => vec![T::A; n],
                _ => [vec![T::A], w(n), vec![T::B], w(n), vec![T::C]].concat(),
            };
            let text: String = kinds.iter().map(|k| match k { T::A => 'a', T::B => 'b', T::C => 'c', _ => ' ' }).collect();
            let src = SourceText::new(text.clone());
            let sig: Vec<usize> = (0..kinds.len()).filter(|k| kinds[*k] != T::Ws).collect();
            let arena = SyntaxArena::new(4);
            let fresh = || {
                let toks: Vec<oak_core::lexer::Token<T>> = kinds.iter().enumerate().map(|(k, t)| oak_core::lexer::Token { kind: *t, span: crate::util::range(k, k + 1) }).collect();
                ParserState::<Mock, SourceText>::new(&arena, oak_core::OakDiagnostics { result: Result::Ok(toks.into()), diagnostics: vec![] }, &src, 4)
            };
            let look = |st: &St<'_>, at: usize, what: &str| -> Res {
                ensure_eq!(st.tokens.index(), at, "query", "{what}: position");
                ensure_eq!(st.current_offset(), at, "query", "{what}: offset");
                ensure_eq!(st.sink.checkpoint() <= at, true, "query", "{what}: leaves");
                let from = sig.partition_point(|k| *k < at);
                for k in [0, 1, 2, n.saturating_sub(1), n, n + 1] {
                    ensure_eq!(st.peek_non_trivia_at(k).map(|t| (t.kind, t.span.start)), sig.get(from + k).map(|p| (kinds[*p], *p)), "query", "{what}: significant token {k} ahead");
                    ensure_eq!(st.peek_non_trivia_kind_at(k), sig.get(from + k).map(|p| kinds[*p]), "query", "{what}: significant kind {k} ahead");
                    ensure_eq!(st.peek_at(k).map(|t| (t.kind, t.span.start)), kinds.get(at + k).map(|t| (*t, at + k)), "query", "{what}: token {k} ahead");
                    ensure_eq!(st.peek_kind_at(k), kinds.get(at + k).copied(), "query", "{what}: kind {k} ahead");
                }
                Result::Ok(())
            };
            let first = sig.first().copied().unwrap_or(kinds.len());
            let mut st = fresh();
            look(&st, first, "at the start")?;
            let cp = st.checkpoint();
            for sets in [&[T::C][..], &[T::B, T::C], &[T::C, T::B], &[]] {
                st.advance_until_any(sets);
                let to = sig.iter().copied().find(|k| sets.contains(&kinds[*k])).unwrap_or(kinds.len());
                look(&st, to, &format!("searched for any of {sets:?}"))?;
                st.restore(cp);
                look(&st, first, "gone back")?;
                cx.step();
            }
            for kind in [T::A, T::B, T::C] {
                st.advance_until(kind);
                look(&st, sig.iter().copied().find(|k| kinds[*k] == kind).unwrap_or(kinds.len()), &format!("searched for {kind:?}"))?;
                st.restore(cp);
                cx.step();
            }
            // forward one by one, each token a leaf
            let mut st = fresh();
            for k in sig.iter().skip(1).chain([&kinds.len()]).take(sig.len()) {
                st.bump();
                ensure_eq!((st.tokens.index(), st.sink.checkpoint()), (*k, *k), "query", "tokens and leaves after a step to {k}");
            }
            cx.state(&i);
            cx.nontrivial(n > 1);
            cx.steps(kinds.len() as u64 / 64);
            cx.exec();
            Result::Ok(())
        },
    )
}
