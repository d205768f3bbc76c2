//! P27: formatting applies, at every node and token, the first applicable rule by priority and
//! order that answers, and without one reproduces the source.
use crate::{p26, toy::*};
use mc_kit::*;
use oak_core::{
    errors::OakError,
    language::{UniversalElementRole as ER, UniversalTokenRole as TR},
    memory::arena::SyntaxArena,
    tree::{RedLeaf, RedNode},
};
use oak_pretty_print::{Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, IndentStyle, LineEnding, RuleSet};
use p26::I;

/// The rules of the harness.
const RULES: [(&str, u8); 8] = [("group plain", 7), ("brackets plain", 7), ("deep", 11), ("no container", 10), ("shout", 6), ("pass", 6), ("refuse", 3), ("inside", 8)];
fn conflict(a: usize, b: usize) -> bool {
    // "group plain" objects to "inside", whichever comes first; "refuse" to itself
    (a == 0 && b == 7) || (a == 6 && b == 6)
}
struct Rule(usize);
const PLAIN: N = N::Plain;
const CONTAINER: N = N::Role(ER::Container);
const STATEMENT: N = N::Role(ER::Statement);
const COMMA: T = T::Role(TR::Punctuation);
impl FormatRule<Toy> for Rule {
    fn name(&self) -> &str {
        RULES[self.0].0
    }
    fn priority(&self) -> u8 {
        RULES[self.0].1
    }
    fn applies_to_node(&self, n: &RedNode<Toy>) -> bool {
        match self.0 {
            0 | 1 => n.green.kind == PLAIN,
            2 => true,
            3 => n.green.kind == CONTAINER,
            7 => n.green.kind == STATEMENT,
            _ => false,
        }
    }
    fn applies_to_token(&self, t: &RedLeaf<Toy>) -> bool {
        match self.0 {
            4 | 5 => t.kind == T::Word || t.kind == COMMA,
            6 => t.kind == T::Word,
            _ => false,
        }
    }
    fn apply_node<'a>(&self, n: &RedNode<Toy>, cx: &FormatContext<Toy>, _: &'a str, children: &dyn Fn(&RedNode<Toy>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        match self.0 {
            0 => Ok(Some(Document::group(Document::indent(Document::concat(vec![Document::SoftLine, children(n)?, Document::HardLine]))))),
            1 => Ok(Some(Document::concat(vec![Document::text("["), children(n)?, Document::text("]")]))),
            2 => Ok((cx.depth > 2).then(|| Document::text("…"))),
            3 => Ok(None),
            7 => Ok((cx.is_inside(CONTAINER) && cx.parent_kind() == Some(PLAIN)).then(|| Document::text("!"))),
            _ => Ok(None),
        }
    }
    fn apply_token<'a>(&self, t: &RedLeaf<Toy>, cx: &FormatContext<Toy>, source: &'a str) -> FormatResult<Option<Document<'a>>> {
        match self.0 {
            // the text is handed over twice
            4 => Ok(Some(Document::text(match cx.source.as_ref().and_then(|s| s.get(t.span.start..t.span.end)) {
                Some(s) if s == &source[t.span.start..t.span.end] => s.to_uppercase(),
                s => format!("context has {s:?}"),
            }))),
            6 => Err(OakError::format_error("refused".to_string())),
            _ => Ok(None),
        }
    }
    fn conflicts_with(&self, other: &dyn FormatRule<Toy>) -> bool {
        RULES.iter().position(|r| r.0 == other.name()).is_some_and(|o| conflict(self.0, o))
    }
}
/// Everything that can apply, in the order it is asked: ours by number, 100.. the built-in ones.
fn accepted(seq: &[usize]) -> (Vec<usize>, Vec<bool>) {
    let mut have: Vec<usize> = vec![100, 101, 102];
    let mut ok = Vec::new();
    for r in seq {
        let bad = have.iter().any(|h| *h < 100 && (conflict(*r, *h) || conflict(*h, *r)));
        ok.push(!bad);
        if !bad {
            have.push(*r)
        }
    }
    (have, ok)
}
fn prio(r: usize) -> u8 {
    match r {
        100 => 10,
        101 => 5,
        102 => 6,
        r => RULES[r].1,
    }
}
/// The expected document, as a program of the printer's reference.
fn expect(t: &Tree, path: &mut Vec<N>, order: &[usize], out: &mut Vec<I>) -> Result<(), ()> {
    match t {
        Tree::Leaf(k, s) => {
            for r in order {
                match (*r, *k) {
                    (4, T::Word | COMMA) => {
                        out.push(I::T(Box::leak(s.to_uppercase().into_boxed_str())));
                        return Ok(());
                    }
                    (6, T::Word) => return Err(()),
                    (102, COMMA) if *s == "," => {
                        out.extend([I::T(","), I::SoftSpace]);
                        return Ok(());
                    }
                    _ => {}
                }
            }
            out.push(I::T(s));
            Ok(())
        }
        Tree::Node(k, c) => {
            path.push(*k);
            let mut pre: &[I] = &[];
            let mut post: &[I] = &[];
            let mut whole = None;
            for r in order {
                match (*r, *k) {
                    (0, PLAIN) => (pre, post) = (&[I::Group, I::Indent, I::Soft], &[I::Hard, I::End, I::End]),
                    (1, PLAIN) => (pre, post) = (&[I::T("[")], &[I::T("]")]),
                    (2, _) if path.len() > 2 => whole = Some("…"),
                    (7, STATEMENT) if path.contains(&CONTAINER) && path.len() > 1 && path[path.len() - 2] == PLAIN => whole = Some("!"),
                    (100, CONTAINER) => (pre, post) = (&[I::Group, I::Indent, I::Line], &[I::End, I::End]),
                    (101, STATEMENT) => post = &[I::Line],
                    _ => continue,
                }
                break;
            }
            match whole {
                Some(t) => out.push(I::T(t)),
                None => {
                    out.extend(pre);
                    for x in c {
                        expect(x, path, order, out)?
                    }
                    out.extend(post)
                }
            }
            path.pop();
            Ok(())
        }
    }
}
fn ordered(have: &[usize]) -> Vec<usize> {
    let mut v = Vec::new();
    for p in (0..=255u8).rev() {
        v.extend(have.iter().filter(|r| prio(**r) == p))
    }
    v
}
fn config(k: usize) -> (FormatConfig, p26::Cfg) {
    let c = p26::Cfg { width: [3, 100][k % 2], tabs: k / 2 == 1, windows: false, trim: k / 2 == 0, last: true };
    (c.config(), c)
}
fn run(seq: &[usize], trees: &[Vec<Tk>], cx: &mut Cx) -> Res {
    let (have, ok) = accepted(seq);
    let order = ordered(&have);
    for k in 0..4 {
        let (fc, c) = config(k);
        let mut f = Formatter::<Toy>::new(fc);
        for (r, ok) in seq.iter().zip(&ok) {
            let got = f.add_rule(Box::new(Rule(*r)));
            ensure_eq!(got.is_ok(), *ok, "conflict", "add_rule({:?})", RULES[*r].0);
        }
        for p in trees {
            let arena = SyntaxArena::new(4);
            let t = tree(N::Root, p);
            let source = text(p);
            let red = RedNode::new(root(&arena, &t), 0);
            let got = f.format(&red, &source);
            let mut prog = Vec::new();
            let want = expect(&t, &mut Vec::new(), &order, &mut prog).map(|_| p26::reference(&prog, c));
            match (got, want) {
                (Err(_), Err(())) => {}
                (Ok(g), Ok(w)) => {
                    ensure_eq!(g.content, w, "content", "{} with rules {seq:?} and {c:?}", show(p));
                    ensure_eq!(g.changed, w != source, "changed", "{} with rules {seq:?}: {w:?}", show(p));
                    cx.state(&w);
                }
                (g, w) => return fail("error", format!("{} with rules {seq:?}: code gave {:?}, expected {w:?}", show(p), g.map(|g| g.content))),
            }
            cx.step();
        }
    }
    cx.nontrivial(!seq.is_empty());
    cx.exec();
    Ok(())
}
fn plain(p: &[Tk], cx: &mut Cx) -> Res {
    // a tree no built-in rule speaks about comes out as it went in
    let arena = SyntaxArena::new(4);
    let red_tree = tree(N::Root, p);
    let source = text(p);
    let mut fc = FormatConfig::new().with_line_ending(LineEnding::Unix).with_indent_style(IndentStyle::Spaces(2));
    fc.trim_trailing_whitespace = false;
    fc.insert_final_newline = false;
    let g = Formatter::<Toy>::new(fc).format(&RedNode::new(root(&arena, &red_tree), 0), &source).map_err(|e| Fail { kind: "error".into(), detail: format!("{e:?}") })?;
    ensure_eq!(g.content, source, "source", "{}", show(p));
    ensure!(!g.changed, "changed", "{} counts as changed", show(p));
    cx.state(&source);
    cx.step();
    cx.exec();
    Ok(())
}
const LEAVES: [(T, &str); 4] = [(T::Name, "a\n"), (T::Word, "é"), (COMMA, ","), (COMMA, ";")];
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let trees: &'static Vec<Vec<Tk>> = Box::leak(Box::new(forests_upto(&LEAVES, &[PLAIN, CONTAINER, STATEMENT], 4)));
    let big: &'static Vec<Vec<Tk>> = Box::leak(Box::new(forests(&LEAVES, &[PLAIN, CONTAINER, STATEMENT], 6)));
    let bigger: &'static Vec<Vec<Tk>> = Box::leak(Box::new(forests_upto(&[(T::Name, "a"), (T::Word, "é\n"), (T::Blank, " "), (T::Eof, "")], &[PLAIN, N::Def, N::Ref], t.pick(6, 7))));
    let d = t.pick(4, 5);
    let nested = |d: u32| move |i: u64| seq::nth(8, d, i).into_iter().map(|r| RULES[r].0).collect::<Vec<_>>().join(", ");
    vec![
        space(format!("rule lists, {} trees each", trees.len()), seq::count_upto(8, d), nested(d), move |i, cx| run(&seq::nth(8, d, i), trees, cx)),
        space(format!("short rule lists, {} trees of six items each", big.len()), seq::count_upto(8, t.pick(1, 2)), nested(t.pick(1, 2)), move |i, cx| run(&seq::nth(8, t.pick(1, 2), i), big, cx)),
        space("no rule applies", bigger.len() as u64, move |i| show(&bigger[i as usize]), move |i, cx| plain(&bigger[i as usize], cx)),
        space("long rule sets", 60, |i| format!("{} rules of {} priorities", 1 + i, 1 + i % 3), |i, cx| {
            struct Many(String, u8);
            impl FormatRule<Toy> for Many {
                fn name(&self) -> &str {
                    &self.0
                }
                fn priority(&self) -> u8 {
                    self.1
                }
                fn applies_to_node(&self, _: &RedNode<Toy>) -> bool {
                    true
                }
                fn apply_node<'a>(&self, _: &RedNode<Toy>, _: &FormatContext<Toy>, _: &'a str, _: &dyn Fn(&RedNode<Toy>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
                    Ok(None)
                }
                fn apply_token<'a>(&self, _: &RedLeaf<Toy>, _: &FormatContext<Toy>, _: &'a str) -> FormatResult<Option<Document<'a>>> {
                    Ok(None)
                }
            }
            let prio = |k: u64| (k * 7 % (1 + i % 3)) as u8 * 100;
            let mut set = RuleSet::<Toy>::new();
            let rules = (0..=i).map(|k| Box::new(Many(format!("r{k}"), prio(k))) as Box<dyn FormatRule<Toy>>).collect();
            ensure!(set.add_rules(rules).is_ok(), "conflict", "add_rules");
            let arena = SyntaxArena::new(4);
            let n = RedNode::new(root(&arena, &Tree::Node(PLAIN, vec![])), 0);
            let got: Vec<String> = set.applicable_rules_for_node(&n).map(|r| r.name().to_string()).collect();
            let mut want = Vec::new();
            for p in (0..=255u8).rev() {
                want.extend((0..=i).filter(|k| prio(*k) == p).map(|k| format!("r{k}")))
            }
            ensure_eq!(got, want, "order", "{} rules", 1 + i);
            cx.step();
            cx.exec();
            Ok(())
        }),
        space("rule sets", seq::count_upto(8, d), nested(d), move |i, cx| {
            let s = seq::nth(8, d, i);
            let mut set = RuleSet::<Toy>::new();
            let (have, ok) = accepted(&s);
            for (r, ok) in s.iter().zip(&ok) {
                ensure_eq!(set.add_rule(Box::new(Rule(*r))).is_ok(), *ok, "conflict", "add_rule({:?})", RULES[*r].0);
            }
            let order: Vec<&str> = ordered(&have).into_iter().filter(|r| *r < 100).map(|r| RULES[r].0).collect();
            let arena = SyntaxArena::new(4);
            for k in [PLAIN, CONTAINER, STATEMENT, N::Def] {
                let n = RedNode::new(root(&arena, &Tree::Node(k, vec![])), 0);
                let got: Vec<&str> = set.applicable_rules_for_node(&n).map(|r| r.name()).collect();
                let want: Vec<&str> = order.iter().copied().filter(|r| Rule(RULES.iter().position(|x| x.0 == *r).unwrap()).applies_to_node(&n)).collect();
                ensure_eq!(got, want, "order", "rules for {k:?}");
                cx.step();
            }
            for k in [T::Word, COMMA, T::Name] {
                let l = RedLeaf { kind: k, span: (0..0).into() };
                let got: Vec<&str> = set.applicable_rules_for_token(&l).map(|r| r.name()).collect();
                let want: Vec<&str> = order.iter().copied().filter(|r| Rule(RULES.iter().position(|x| x.0 == *r).unwrap()).applies_to_token(&l)).collect();
                ensure_eq!(got, want, "order", "rules for {k:?}");
                cx.step();
            }
            cx.exec();
            Ok(())
        }),
        {
            let far = std::sync::Arc::new(behind(&forests_upto(&LEAVES, &[PLAIN, STATEMENT], 3), T::Name));
            let f2 = far.clone();
            space("trees behind 2^16 bytes", far.len() as u64, move |i| brief(&far[i as usize]), move |i, cx| {
                for l in [&[0usize] as &[usize], &[5, 7]] {
                    run(l, &[f2[i as usize].clone()], cx)?
                }
                // the built-in rules speak about commas and statements
                if f2[i as usize].iter().any(|x| matches!(x, Tk::L(COMMA, _) | Tk::Open(STATEMENT))) { Ok(()) } else { plain(&f2[i as usize], cx) }
            })
        },
        {
            let ns = seq::sizes(t.pick(40, 70), t.pick(256, 512));
            let n2 = ns.clone();
            let lists: [&[usize]; 6] = [&[], &[0], &[1, 4], &[5, 7], &[2, 0], &[3, 1, 0, 6]];
            space("large trees", 4 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 4], SHAPES[i as usize % 4]), move |i, cx| {
                let p = shape(&LEAVES, &[PLAIN, CONTAINER, STATEMENT], ns[i as usize / 4] as usize, i as usize % 4);
                for l in lists {
                    run(l, &[p.clone()], cx)?;
                }
                plain(&shape(&[(T::Name, "a"), (T::Word, "é\n"), (T::Blank, " ")], &[PLAIN, N::Def], ns[i as usize / 4] as usize, i as usize % 4), cx)
            })
        },
        each_character("every character as a token, in one and between two", t, |c, cx| {
            let (a, b) = (keep(c.to_string()), keep(format!("x{c}é")));
            let p = [Tk::L(T::Name, a), Tk::Open(PLAIN), Tk::L(T::Word, b), Tk::L(T::Name, a), Tk::End, Tk::L(T::Word, "y"), Tk::L(T::Name, a)];
            for l in [&[0usize] as &[usize], &[5, 7]] {
                run(l, &[p.to_vec()], cx)?
            }
            plain(&p, cx)
        }),
    ]
}
