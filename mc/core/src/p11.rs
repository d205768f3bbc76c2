//! P11: a parse session keeps exactly the tree of its last successful parse, through every
//! history of successful, recovered and failed parses and manual generation changes.
use crate::lang::*;
use mc_kit::*;
use oak_core::{GreenNode, Lexer, ParseCache, ParseSession, Parser, lexer::LexerCache, memory::arena::SyntaxArena, source::TextEdit};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// parse the k-th text, telling the session the right edits (replace all)
    Parse(usize),
    /// the same through a borrowed session and the function that takes a lexer
    Through(usize),
    /// parse the k-th text from scratch, whatever was parsed before
    OnePass(usize),
    /// parse the k-th text in a different grammar style
    Lex(usize),
    /// a caller prepares a generation and never commits it
    Prepare,
    /// other work on this thread reuses freed memory
    Garbage,
}
static TEXTS: &[&str] = &["", "a", "a b(a)", "a )", "ac", "\"", "((a,b)a) a a,b é"];
/// Texts whose tokens look alike and mean different things.
static WORDS: &[&str] = &["", "x a", "y a", "b x", "b y", "xc", "a x )"];
fn texts(g: G) -> &'static [&'static str] {
    if g == G::Word { WORDS } else { TEXTS }
}
/// last committed tree of the running generation / of the one before, and cached tokens
#[derive(Default, Clone)]
struct Model {
    last: Option<M>,
    committed: bool,
    clean: bool,
    tokens: usize,
}
impl Model {
    /// the tree of the generation just retired stays readable if that generation is complete
    fn prepare(&mut self) {
        if !self.committed || !self.clean {
            self.last = None
        }
        self.committed = false;
        self.clean = true;
    }
}
fn lens(n: Option<&GreenNode<'_, Mock>>) -> Option<M> {
    n.map(|n| M::of(n))
}
fn garbage() {
    for k in 0..3 {
        let a = SyntaxArena::new(4);
        for i in 0..400 {
            let s = a.alloc_slice_copy(&[0xAAu8; 200]);
            s[0] = (i + k) as u8;
        }
    }
}
fn through(g: G, t: &str, e: &[TextEdit], mut s: &mut impl ParseCache<Mock>) -> Out {
    out(oak_core::parser::parse(&MockParser(g), &MockLexer, t, e, &mut s))
}
/// What a borrowed session says about itself.
fn same(s: &ParseSession<Mock>, c: &impl ParseCache<Mock>, what: &str) -> Res {
    ensure!(std::ptr::eq(s.arena(), c.arena()), "borrowed", "{what}: arena");
    ensure_eq!(lens(c.old_tree()), lens(s.old_tree()), "borrowed", "{what}: old tree");
    ensure_eq!(c.lex_output().map(|l| l.result.as_ref().unwrap().len()), s.lex_output().map(|l| l.result.as_ref().unwrap().len()), "borrowed", "{what}: lex output");
    ensure_eq!((c.count_tokens(), c.has_tokens(), c.get_tokens().map(|t| t.len())), (s.count_tokens(), s.has_tokens(), s.get_tokens().map(|t| t.len())), "borrowed", "{what}: tokens");
    for i in 0..=s.count_tokens() {
        ensure_eq!(c.get_token(i).map(|t| (t.kind, t.span)), s.get_token(i).map(|t| (t.kind, t.span)), "borrowed", "{what}: token {i}");
    }
    Ok(())
}
fn run(p: &[Op], g: G, cx: &mut Cx) -> Res {
    run_on(texts(g), p, g, cx)
}
fn run_on(texts: &[&'static str], p: &[Op], g: G, cx: &mut Cx) -> Res {
    let mut s = if p.len() % 2 == 0 { ParseSession::<Mock>::default() } else { ParseSession::<Mock>::new(16) };
    let mut m = Model { clean: true, ..Model::default() };
    let mut prev = "";
    for (i, o) in p.iter().enumerate() {
        cx.step();
        match o {
            Op::Parse(k) | Op::Through(k) | Op::OnePass(k) => {
                let t = texts[*k];
                let e = [TextEdit { span: crate::util::range(0, prev.len()), text: t.into() }];
                let e: &[TextEdit] = if i == 0 { &[] } else { &e };
                let got = match o {
                    Op::OnePass(_) => out(oak_core::parser::parse_one_pass(&MockParser(g), t, &mut s)),
                    Op::Through(_) => through(g, t, e, &mut &mut s),
                    _ => out(MockParser(g).parse(t, e, &mut s)),
                };
                let f = fresh(g, t);
                ensure!(got == f, "tree", "{p:?}: parse {i} of {t:?} gave {got:?}, a new session gives {f:?}");
                if let Op::OnePass(_) = o {
                    m.clean = false
                }
                m.prepare();
                m.tokens = MockLexer.lex(t, &[], &mut ParseSession::<Mock>::new(16)).result.unwrap().len();
                m.clean = f.diags.is_empty();
                m.committed = f.tree.is_ok();
                // a parse that fails leaves the tree of the generation before in place
                if let Ok(t) = f.tree {
                    m.last = Some(t)
                }
                prev = t;
            }
            Op::Lex(k) => {
                let t = texts[*k];
                let o = MockLexer.lex(t, &[TextEdit { span: crate::util::range(0, prev.len()), text: t.into() }], &mut s);
                m.tokens = o.result.unwrap().len();
            }
            Op::Prepare => {
                s.prepare_generation();
                m.prepare();
                m.tokens = 0;
                ensure_eq!(lens(s.old_tree()), m.last, "oldtree", "{p:?}: previous tree after operation {i}");
            }
            Op::Garbage => garbage(),
        }
        garbage();
        let me: *const ParseSession<Mock> = &s;
        same(unsafe { &*me }, &&mut s, "after a step")?;
        ensure_eq!(lens(s.last_root()), m.last, "lastroot", "{p:?}: kept tree after operation {i}");
        ensure_eq!(s.count_tokens(), m.tokens, "tokens", "{p:?}: cached tokens after operation {i}");
        ensure_eq!(s.has_tokens(), m.tokens > 0, "tokens", "{p:?}");
        ensure_eq!(s.get_tokens().map_or(0, |t| t.len()), m.tokens, "tokens", "{p:?}");
        ensure!(s.get_token(m.tokens).is_none() && (m.tokens == 0 || s.get_token(m.tokens - 1).is_some()), "tokens", "{p:?}");
    }
    cx.exec();
    cx.nontrivial(p.len() > 1);
    cx.state(&(format!("{:?}", m.last), m.committed, m.tokens));
    Ok(())
}
/// Every history of three operations, over and over.
fn cycles(g: G, ops: &'static [Op], times: u64) -> Box<dyn Space> {
    let n = ops.len() as u64;
    let case = move |i: u64| -> Vec<Op> { seq::nth(n, 3, i).iter().map(|k| ops[*k]).collect::<Vec<_>>() };
    space(
        format!("{g:?}: every history of up to three session operations, {times} times over"),
        seq::count_upto(n, 3),
        move |i| format!("{:?}", case(i)),
        move |i, cx| run(&case(i).repeat(times as usize), g, cx).map_err(|f| Fail { kind: f.kind, detail: format!("{:?} over and over: {}", case(i), f.detail.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()) }),
    )
}
/// Large and small texts one after another.
fn large(g: G, tier: Tier) -> Box<dyn Space> {
    let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes(8, tier.pick(300, 1100))));
    const OPS: [Op; 8] = [Op::Parse(0), Op::Parse(1), Op::Parse(2), Op::Parse(3), Op::Through(1), Op::OnePass(2), Op::Lex(1), Op::Prepare];
    let d = tier.pick(3, 4);
    let per = seq::count_upto(OPS.len() as u64, d);
    let case = move |i: u64| -> Vec<Op> { seq::nth(OPS.len() as u64, d, i % per).iter().map(|k| OPS[*k]).collect::<Vec<_>>() };
    space(
        format!("{g:?}: every history of at most {d} operations on texts of many words"),
        ns.len() as u64 * per,
        move |i| format!("{} words, {:?}", ns[(i / per) as usize], case(i)),
        move |i, cx| {
            let n = ns[(i / per) as usize] as usize;
            let (words, groups) = ("a ".repeat(n), format!("{}b", "(a)".repeat(n)));
            let failing = format!("{words}\"");
            // the texts live as long as the session
            let (w, r, f): (&'static str, &'static str, &'static str) = unsafe { (std::mem::transmute(&*words), std::mem::transmute(&*groups), std::mem::transmute(&*failing)) };
            run_on(&["a", w, r, f], &case(i), g, cx).map_err(|f| Fail { kind: f.kind, detail: format!("{n} words, {:?}: {}", case(i), f.detail.chars().take(200).collect::<String>()) })
        },
    )
}
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 6);
    let ops: &'static Vec<Op> = Box::leak(Box::new((0..TEXTS.len()).map(Op::Parse).chain([Op::Through(2), Op::OnePass(1), Op::OnePass(2), Op::OnePass(4), Op::Lex(2), Op::Prepare, Op::Garbage]).collect()));
    let n = ops.len() as u64;
    [G::Nodes, G::Opt, G::Word]
        .into_iter()
        .map(|g| {
            space(
                format!("{g:?}: every history of at most {d} session operations"),
                seq::count_upto(n, d),
                move |i| format!("{:?}", seq::nth(n, d, i).iter().map(|k| ops[*k]).collect::<Vec<_>>()),
                move |i, cx| run(&seq::nth(n, d, i).iter().map(|k| ops[*k]).collect::<Vec<_>>(), g, cx),
            )
        })
        .chain([cycles(G::Nodes, ops, tier.pick(12, 90)), cycles(G::Word, ops, tier.pick(12, 90)), cycles(G::Meta, ops, tier.pick(8, 60)), large(G::Nodes, tier), large(G::Word, tier)])
        .collect()
}
