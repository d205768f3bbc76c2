//! P12: operator expressions are grouped by the declared precedences and associativities.
use crate::lang::*;
use mc_kit::*;
use oak_core::{
    Lexer, ParseSession, ParserState, SourceText,
    memory::arena::SyntaxArena,
    parser::pratt::{Associativity, OperatorInfo, Pratt, PrattParser, binary, postfix, unary},
    source::Source,
    tree::GreenNode,
};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Table {
    /// precedence and right-associativity of + * ^
    bin: [(u8, bool); 3],
    pre: u8,
    post: u8,
}
const BIN: [u8; 3] = [b'+', b'*', b'^'];
#[derive(Clone, Copy, PartialEq)]
struct Style {
    /// Blanks behind an operand are skipped after its node is finished, so they lie next to it.
    loose: bool,
    /// Left-associative operators are declared non-associative, which groups the same.
    none: bool,
}
const PLAIN: Style = Style { loose: false, none: false };
struct Spec(Table, Style);
impl Pratt<Mock> for Spec {
    fn primary<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Mock, S>) -> &'a GreenNode<'a, Mock> {
        let c = s.checkpoint();
        if s.eat(T::Open) {
            PrattParser::<Mock, Spec>::parse(s, 0, self);
            s.expect(T::Close).ok();
            return s.finish_at(c, N::List);
        }
        if self.1.loose && s.at(T::A) {
            let t = *s.current().unwrap();
            s.sink.push_leaf(t.kind, t.length());
            s.tokens.advance();
            let n = s.finish_at(c, N::Num);
            s.skip_trivia();
            return n;
        }
        s.expect(T::A).ok();
        s.finish_at(c, N::Num)
    }
    fn prefix<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Mock, S>) -> &'a GreenNode<'a, Mock> {
        if s.at(T::Op(b'-')) {
            return unary(s, T::Op(b'-'), self.0.pre, N::Pre(b'-'), |s, p| PrattParser::<Mock, Spec>::parse(s, p, self));
        }
        self.primary(s)
    }
    fn infix<'a, S: Source + ?Sized>(&self, s: &mut ParserState<'a, Mock, S>, left: &'a GreenNode<'a, Mock>, min: u8) -> Option<&'a GreenNode<'a, Mock>> {
        let Some(T::Op(c)) = s.peek_kind()
        else {
            return None;
        };
        if c == b'!' {
            return (self.0.post >= min).then(|| postfix(s, left, T::Op(b'!'), N::Post(b'!')));
        }
        let k = BIN.iter().position(|b| *b == c)?;
        let (p, right) = self.0.bin[k];
        if p < min {
            return None;
        }
        Some(binary(s, left, T::Op(c), p, if right { Associativity::Right } else if self.1.none { Associativity::None } else { Associativity::Left }, N::Bin(c), |s, p| PrattParser::<Mock, Spec>::parse(s, p, self)))
    }
}
/// Expression trees by yield.
#[derive(Clone, Debug, PartialEq)]
enum E {
    X,
    Paren(Box<E>),
    Pre(Box<E>),
    Post(Box<E>),
    Bin(u8, Box<E>, Box<E>),
}
/// Every way to group the symbols (x, operators, parentheses).
fn groupings(s: &[u8]) -> Vec<E> {
    let mut v = Vec::new();
    if s == b"a" {
        v.push(E::X);
    }
    if s.len() > 2 && s[0] == b'(' && s[s.len() - 1] == b')' {
        v.extend(groupings(&s[1..s.len() - 1]).into_iter().map(|e| E::Paren(e.into())));
    }
    if s.len() > 1 && s[0] == b'-' {
        v.extend(groupings(&s[1..]).into_iter().map(|e| E::Pre(e.into())));
    }
    if s.len() > 1 && s[s.len() - 1] == b'!' {
        v.extend(groupings(&s[..s.len() - 1]).into_iter().map(|e| E::Post(e.into())));
    }
    for i in 1..s.len().saturating_sub(1) {
        if BIN.contains(&s[i]) {
            for l in groupings(&s[..i]) {
                for r in groupings(&s[i + 1..]) {
                    v.push(E::Bin(s[i], l.clone().into(), r.into()))
                }
            }
        }
    }
    v
}
/// The declarative reading: an operator on the left edge spine / right edge spine of an operand
/// must bind tighter than the operator whose operand it is (or equally, on the associative side).
fn legal(e: &E, t: &Table) -> bool {
    let info = |c: u8| t.bin[BIN.iter().position(|b| *b == c).unwrap()];
    // operators that are open to the left (binary, postfix) along the left... of an operand standing to the right of an operator
    fn left_open(e: &E, out: &mut Vec<u8>) {
        match e {
            E::Bin(c, l, _) => {
                out.push(*c);
                left_open(l, out)
            }
            E::Post(l) => {
                out.push(b'!');
                left_open(l, out)
            }
            _ => {}
        }
    }
    fn right_open(e: &E, out: &mut Vec<u8>) {
        match e {
            E::Bin(c, _, r) => {
                out.push(*c);
                right_open(r, out)
            }
            E::Pre(r) => {
                out.push(b'-');
                right_open(r, out)
            }
            _ => {}
        }
    }
    let prec = |c: u8| match c {
        b'-' => t.pre,
        b'!' => t.post,
        c => info(c).0,
    };
    match e {
        E::X => true,
        E::Paren(x) => legal(x, t),
        E::Pre(x) => {
            let mut v = vec![];
            left_open(x, &mut v);
            legal(x, t) && v.iter().all(|c| prec(*c) >= t.pre)
        }
        E::Post(x) => {
            // the operand of a postfix operator may end with an open operator only if that one binds at least as tightly ... i.e. would not have taken the postfix
            let mut v = vec![];
            right_open(x, &mut v);
            legal(x, t) && v.iter().all(|c| if *c == b'-' { t.post < t.pre } else { t.post < next(info(*c)) })
        }
        E::Bin(c, l, r) => {
            let (p, right) = info(*c);
            let mut ro = vec![];
            right_open(l, &mut ro);
            let mut lo = vec![];
            left_open(r, &mut lo);
            legal(l, t) && legal(r, t) && ro.iter().all(|d| p < if *d == b'-' { t.pre } else { next(info(*d)) }) && lo.iter().all(|d| prec(*d) >= next((p, right)))
        }
    }
}
/// The least precedence an operator needs to be part of the right operand.
fn next((p, right): (u8, bool)) -> u8 {
    if right { p } else { p + 1 }
}
fn model(e: &E) -> M {
    let tok = |c: u8| M::L(T::Op(c), 1);
    match e {
        E::X => M::N(N::Num, vec![M::L(T::A, 1)]),
        E::Paren(x) => M::N(N::List, vec![M::L(T::Open, 1), model(x), M::L(T::Close, 1)]),
        E::Pre(x) => M::N(N::Pre(b'-'), vec![tok(b'-'), model(x)]),
        E::Post(x) => M::N(N::Post(b'!'), vec![model(x), tok(b'!')]),
        E::Bin(c, l, r) => M::N(N::Bin(*c), vec![model(l), tok(*c), model(r)]),
    }
}
fn strip(m: M) -> M {
    match m {
        M::N(k, c) => M::N(k, c.into_iter().filter(|x| !matches!(x, M::L(T::Ws | T::Eof, _))).map(strip).collect()),
        l => l,
    }
}
fn run(text: &str, t: Table, style: Style) -> Result<(M, M, usize), Fail> {
    let src = SourceText::new(text.to_string());
    let lexed = MockLexer.lex(&src, &[], &mut ParseSession::<Mock>::new(16));
    let arena = SyntaxArena::new(4);
    let mut s = ParserState::<Mock, SourceText>::new(&arena, lexed, &src, 4);
    let c = s.checkpoint();
    let p = PrattParser::<Mock, Spec>::new(Spec(t, style));
    let e = p.parse_expr(&mut s, 0);
    let expr = M::of(e);
    ensure!(lengths_ok(e), "length", "{text:?} {t:?}");
    while s.not_at_end() {
        s.bump()
    }
    let r = s.finish_at(c, N::Root);
    let o = s.finish(Ok(r));
    let root = o.result.unwrap();
    ensure!(root.text_len() as usize == text.len() && lengths_ok(root), "length", "{text:?} {t:?}: tree covers {} bytes", root.text_len());
    Ok((expr, M::of(root), o.diagnostics.len()))
}
/// All well-formed expressions of at most `n` symbols.
fn exprs(n: usize) -> Vec<String> {
    // operand (op operand)*, operand = -* (a | '(' expr ')') !*
    fn operands(n: usize) -> Vec<String> {
        let mut v = Vec::new();
        for pre in 0..=2usize {
            for post in 0..=2usize {
                if pre + post + 1 <= n {
                    v.push(format!("{}a{}", "-".repeat(pre), "!".repeat(post)));
                }
                if pre + post + 5 <= n && pre + post <= 1 {
                    for o in BIN {
                        v.push(format!("{}(a{}a){}", "-".repeat(pre), o as char, "!".repeat(post)));
                    }
                }
            }
        }
        v
    }
    let mut all: Vec<String> = operands(n);
    let mut layer = all.clone();
    while !layer.is_empty() {
        let mut next = Vec::new();
        for l in &layer {
            if l.len() + 2 <= n {
                for o in BIN {
                    for r in operands(n - l.len() - 1) {
                        next.push(format!("{l}{}{r}", o as char));
                    }
                }
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    all
}
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let n = tier.pick(9, 10);
    let all: &'static Vec<String> = Box::leak(Box::new(exprs(n)));
    // every table: precedences 1..=4 of the three binary operators, associativity per level, prefix and postfix 1..=5
    let mut tables = Vec::new();
    for a in 1..=3u8 {
        for b in 1..=3u8 {
            for c in 1..=3u8 {
                for ass in 0..8u8 {
                    let r = |k: u8| ass >> (k - 1) & 1 == 1;
                    for pre in [1, 2, 3, 4] {
                        for post in [1, 2, 3, 4] {
                            let t = Table { bin: [(a, r(a)), (b, r(b)), (c, r(c))], pre, post };
                            if !tables.contains(&t) {
                                tables.push(t)
                            }
                        }
                    }
                }
            }
        }
    }
    let tables: &'static Vec<Table> = Box::leak(Box::new(tables));
    vec![
        space(
            format!("every expression of at most {n} symbols under every one of {} operator tables", tables.len()),
            all.len() as u64,
            move |i| all[i as usize].clone(),
            move |i, cx| {
                let e = &all[i as usize];
                let gs = groupings(e.as_bytes());
                cx.state(e);
                cx.nontrivial(gs.len() > 1);
                for t in tables {
                    let ok: Vec<&E> = gs.iter().filter(|g| legal(g, t)).collect();
                    // tables in which a low prefix or postfix operator makes the reading ambiguous have no declarative answer
                    if ok.len() != 1 {
                        cx.note("skipped: table gives the expression no single declarative reading", 1);
                        continue;
                    }
                    let (got, _, diags) = run(e, *t, PLAIN)?;
                    cx.exec();
                    cx.step();
                    ensure!(got == model(ok[0]), "grouping", "{e} under {t:?}: grouped {}, expected {}", got.show(), model(ok[0]).show());
                    ensure_eq!(diags, 0, "diagnostics", "{e}");
                    // whitespace does not change the grouping
                    if t.pre == 4 && t.post == 4 {
                        let spaced: String = e.chars().flat_map(|c| [' ', c]).chain([' ']).collect();
                        for (loose, none) in [(false, false), (true, false), (false, true)] {
                            let (g2, root, _) = run(&spaced, *t, Style { loose, none })?;
                            ensure!(strip(g2.clone()) == got, "grouping", "{spaced:?} under {t:?}{}: {}", if loose { " with blanks next to operands" } else { "" }, g2.show());
                            ensure_eq!(root.len(), spaced.len(), "length", "{spaced:?}");
                            cx.step();
                        }
                    }
                }
                Ok(())
            },
        ),
        {
            let d = tier.pick(7, 8);
            static AL: &[&str] = &["a", "+", "*", "-", "!", "(", ")", " "];
            space(
                format!("every malformed or well-formed string of at most {d} symbols: nothing lost, terminates"),
                seq::count_upto(8, d),
                move |i| format!("{:?}", seq::string(AL, d, i)),
                move |i, cx| {
                    let s = seq::string(AL, d, i);
                    for t in [Table { bin: [(1, false), (2, false), (3, true)], pre: 4, post: 5 }, Table { bin: [(2, true), (1, false), (3, true)], pre: 2, post: 1 }] {
                        run(&s, t, PLAIN)?;
                        run(&s, t, Style { loose: true, none: true })?;
                        cx.exec();
                        cx.step();
                    }
                    Ok(())
                },
            )
        },
        long(tier),
        wide(),
        wide_unary(tier.pick(6, 7)),
        space(
            "operator descriptions: every precedence with every associativity",
            256,
            |i| format!("precedence {i}"),
            |i, cx| {
                let p = i as u8;
                cx.state(&p);
                cx.nontrivial(true);
                for (o, a) in [(OperatorInfo::left(p), Associativity::Left), (OperatorInfo::right(p), Associativity::Right), (OperatorInfo::none(p), Associativity::None)] {
                    ensure_eq!((o.precedence, o.associativity), (p, a), "description", "precedence {p}");
                    cx.step();
                }
                cx.exec();
                Ok(())
            },
        ),
    ]
}
/// Operators only between operands: the weakest one is the outermost; of several, the last if it
/// groups to the left, the first if to the right.
fn by_weakest(s: &[u8], t: &Table) -> E {
    if s.len() == 1 {
        return E::X;
    }
    let info = |c: u8| t.bin[BIN.iter().position(|b| *b == c).unwrap()];
    let ops = (1..s.len()).step_by(2);
    let least = ops.clone().map(|i| info(s[i]).0).min().unwrap();
    let mut at: Vec<usize> = ops.filter(|i| info(s[*i]).0 == least).collect();
    let right = info(s[at[0]]).1;
    let k = if right { at[0] } else { at.pop().unwrap() };
    E::Bin(s[k], by_weakest(&s[..k], t).into(), by_weakest(&s[k + 1..], t).into())
}
const LONG: [&str; 9] = ["a+", "a+a*", "a^", "a^a+", "a*a+a^", "(", "-", "!", "(-a!*"];
fn long(tier: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(40, tier.pick(256, 1024));
    let n2 = ns.clone();
    space(
        "long and deep expressions: every length up to 40 and around the powers of two",
        9 * ns.len() as u64,
        move |i| format!("{} times {:?}", n2[i as usize / 9], LONG[i as usize % 9]),
        move |i, cx| {
            let (n, k) = (ns[i as usize / 9] as usize, i as usize % 9);
            cx.state(&i);
            cx.nontrivial(n > 1);
            for bin in [[(1, false), (2, false), (3, true)], [(1, false), (1, false), (1, false)], [(2, true), (2, true), (2, true)], [(3, true), (2, false), (1, true)], [(0, false), (100, true), (254, false)], [(127, false), (128, false), (129, false)], [(254, true), (253, true), (0, true)]] {
                let t = Table { bin, pre: 4, post: 5 };
                let (text, want) = match k {
                    5 => ("(".repeat(n) + "a" + &")".repeat(n), (0..n).fold(E::X, |e, _| E::Paren(e.into()))),
                    6 => ("-".repeat(n) + "a", (0..n).fold(E::X, |e, _| E::Pre(e.into()))),
                    7 => ("a".to_string() + &"!".repeat(n), (0..n).fold(E::X, |e, _| E::Post(e.into()))),
                    8 => {
                        if bin[1].0 > 3 {
                            continue;
                        }
                        let neg = || E::Pre(E::Post(E::X.into()).into());
                        ("(-a!*".repeat(n) + "a" + &")".repeat(n), (0..n).fold(E::X, |e, _| E::Paren(E::Bin(b'*', neg().into(), e.into()).into())))
                    }
                    _ => {
                        let s = LONG[k].repeat(n) + "a";
                        let e = by_weakest(s.as_bytes(), &t);
                        (s, e)
                    }
                };
                let (got, _, diags) = run(&text, t, PLAIN)?;
                cx.exec();
                cx.steps(n as u64 + 1);
                ensure!(got == model(&want), "long", "{n} times {:?} under {t:?}", LONG[k]);
                ensure_eq!(diags, 0, "diagnostics", "{n} times {:?}", LONG[k]);
            }
            Ok(())
        },
    )
}
/// Prefix, postfix and binary operators of precedences far apart and next to each other.
fn wide_unary(n: usize) -> Box<dyn Space> {
    const LEVELS: [u8; 13] = [0, 1, 2, 15, 16, 63, 64, 127, 128, 129, 253, 254, 255];
    let exprs: &'static Vec<(String, Vec<E>)> = Box::leak(Box::new(exprs(n).into_iter().map(|e| (groupings(e.as_bytes()), e)).filter(|(g, e)| g.len() > 1 && !e.contains('^')).map(|(g, e)| (e, g)).collect()));
    let r = [13, 13, 12, 2, 2];
    space(
        format!("every precedence out of thirteen between 0 and 255 of a prefix and a postfix operator with every one between 0 and 254 of a binary one, expressions of at most {n} symbols"),
        seq::prod(&r),
        move |i| format!("{:?}", seq::digits(&r, i)),
        move |i, cx| {
            let g = seq::digits(&r, i);
            let (pre, post, p) = (LEVELS[g[0] as usize], LEVELS[g[1] as usize], LEVELS[g[2] as usize]);
            let other = if g[4] == 1 { 64 } else { p };
            let right = g[3] == 1;
            let t = Table { bin: [(p, right), (other, right), (1, right)], pre, post };
            cx.state(&i);
            for (e, all) in exprs {
                let mut ok = all.iter().filter(|g| legal(g, &t));
                let (Some(want), None) = (ok.next(), ok.next())
                else {
                    cx.note("skipped: table gives the expression no single declarative reading", 1);
                    continue;
                };
                let want = model(want);
                let (got, _, diags) = run(e, t, PLAIN)?;
                cx.exec();
                cx.step();
                cx.nontrivial(true);
                ensure!(got == want && diags == 0, "grouping", "{e} under {t:?}: grouped {}, expected {}", got.show(), want.show());
            }
            Ok(())
        },
    )
}
/// Precedences far apart and next to each other: only their order counts.
fn wide() -> Box<dyn Space> {
    const LEVELS: [u8; 12] = [0, 1, 2, 15, 16, 63, 64, 127, 128, 129, 253, 254];
    let exprs: &'static Vec<String> = Box::leak(Box::new((0..3u32.pow(4)).map(|k| (0..4).map(|j| format!("a{}", BIN[(k / 3u32.pow(j) % 3) as usize] as char)).collect::<String>() + "a").collect()));
    let r = [12, 12, 12, 8];
    space(
        "every three precedences out of twelve between 0 and 254, all expressions of five operands",
        seq::prod(&r),
        move |i| format!("{:?}", seq::digits(&r, i)),
        move |i, cx| {
            let g = seq::digits(&r, i);
            let p: Vec<u8> = (0..3).map(|k| LEVELS[g[k] as usize]).collect();
            let ass = |k: usize| g[3] >> k & 1 == 1;
            // operators of one precedence group to the same side
            if (0..3).any(|a| (0..a).any(|b| p[a] == p[b] && ass(a) != ass(b))) {
                return Ok(());
            }
            let t = Table { bin: [(p[0], ass(0)), (p[1], ass(1)), (p[2], ass(2))], pre: 255, post: 255 };
            cx.state(&i);
            for e in exprs {
                let (got, _, diags) = run(e, t, PLAIN)?;
                let want = model(&by_weakest(e.as_bytes(), &t));
                cx.exec();
                cx.step();
                cx.nontrivial(true);
                ensure!(got == want && diags == 0, "grouping", "{e} under {t:?}: grouped {}, expected {}", got.show(), want.show());
            }
            Ok(())
        },
    )
}
