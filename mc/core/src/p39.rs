//! P39: source written piece by piece keeps every piece, and words that meet stay apart.
use mc_kit::*;
use oak_core::source::{SourceBuffer, ToSource};

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
/// The pieces in order; one blank where two words would merge.
fn model(p: &[&str]) -> String {
    let mut s = String::new();
    for x in p.iter().filter(|x| !x.is_empty()) {
        if s.chars().last().is_some_and(word) && x.chars().next().is_some_and(word) {
            s.push(' ')
        }
        s.push_str(x)
    }
    s
}
struct Pieces<'a>(&'a [&'a str]);
impl ToSource for Pieces<'_> {
    fn to_source(&self, b: &mut SourceBuffer) {
        for x in self.0 {
            b.push(x)
        }
    }
}
/// A node whose parts write themselves.
enum Tree {
    Leaf(&'static str),
    Node(Vec<Tree>),
}
impl ToSource for Tree {
    fn to_source(&self, b: &mut SourceBuffer) {
        match self {
            Tree::Leaf(s) => b.push(s),
            Tree::Node(c) => c.iter().for_each(|c| c.to_source(b)),
        }
    }
}
impl Tree {
    fn flat(&self, v: &mut Vec<&'static str>) {
        match self {
            Tree::Leaf(s) => v.push(s),
            Tree::Node(c) => c.iter().for_each(|c| c.flat(v)),
        }
    }
}
/// Tokens of a language in which words are runs of word characters and everything else single.
fn tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut open = false;
    for c in s.chars() {
        if word(c) && open {
            v.last_mut().unwrap().push(c)
        }
        else if !c.is_whitespace() {
            v.push(c.to_string())
        }
        open = word(c)
    }
    v
}
/// A list of pieces, written one after the other.
fn written(p: &[&str], cx: &mut Cx) -> Res {
    let want = model(p);
    let mut b = SourceBuffer::new();
    for (k, x) in p.iter().enumerate() {
        b.push(x);
        cx.step();
        let part = model(&p[..=k]);
        ensure_eq!(b.to_string(), part, "text", "{:?}", &p[..=k]);
        ensure_eq!(b.clone().finish(), part, "text", "a copy after {:?}", &p[..=k]);
    }
    ensure_eq!(String::from(b.clone()), want, "text", "{p:?}");
    ensure_eq!(b.finish(), want, "text", "{p:?}");
    ensure_eq!(Pieces(p).to_source_string(), want, "text", "{p:?} as a value");
    // what the pieces are made of is what is read back
    let parts: Vec<String> = p.iter().flat_map(|x| tokens(x)).collect();
    ensure_eq!(tokens(&want), parts, "tokens", "{p:?} written as {want:?}");
    // nothing but blanks between words was added
    let bare = |s: &str| s.chars().filter(|c| *c != ' ').collect::<String>();
    ensure_eq!(bare(&want), bare(&p.concat()), "text", "{p:?}");
    cx.exec();
    cx.nontrivial(want.len() > p.concat().len());
    cx.state(&want);
    Ok(())
}
static ALPHA: &[&str] = &["", "a", "_", "1", "é", "字", "²", "Ⅷ", "\u{301}", "+", " ", "a+", "+a", "-", "if", "\n", "\"b\"", "\u{660}"];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let d = tier.pick(5, 7);
    let n = ALPHA.len() as u64;
    let m = tier.pick(6u32, 8);
    static FEW: &[&str] = &["a", "+", "", "_b"];
    vec![
        each_character("every character as a piece, at the start and at the end of one", tier, |c, cx| {
            let (a, b, e) = (c.to_string(), format!("{c}1"), format!("1{c}"));
            written(&[&a, "a", &a, &a, "_", &b, &e, "+", &b, "", &a, "\u{301}", &a], cx)
        }),
        space(
            format!("every list of at most {d} pieces out of {}", ALPHA.len()),
            seq::count_upto(n, d),
            move |i| format!("{:?}", seq::nth(n, d, i).iter().map(|k| ALPHA[*k]).collect::<Vec<_>>()),
            move |i, cx| written(&seq::nth(n, d, i).iter().map(|k| ALPHA[*k]).collect::<Vec<_>>(), cx),
        ),
        space(
            format!("every list of at most {m} pieces out of {}, cut into nested values in every way", FEW.len()),
            seq::count_upto(4, m) << (m - 1),
            move |i| format!("{:?} cut by {:b}", seq::nth(4, m, i >> (m - 1)), i & ((1 << (m - 1)) - 1)),
            move |i, cx| {
                let p: Vec<&'static str> = seq::nth(4, m, i >> (m - 1)).iter().map(|k| FEW[*k]).collect();
                let cut = i & ((1 << (m - 1)) - 1);
                if p.is_empty() || cut >> (p.len() - 1) != 0 {
                    return Ok(());
                }
                // groups of neighbours; and everything behind a cut one level deeper
                let mut groups = vec![vec![Tree::Leaf(p[0])]];
                for (k, x) in p[1..].iter().enumerate() {
                    if cut >> k & 1 == 1 {
                        groups.push(vec![])
                    }
                    groups.last_mut().unwrap().push(Tree::Leaf(x))
                }
                let flat = Tree::Node(groups.into_iter().map(Tree::Node).collect());
                let mut deep = Tree::Node(vec![]);
                for (k, x) in p.iter().enumerate().rev() {
                    deep = if cut >> k & 1 == 1 { Tree::Node(vec![Tree::Leaf(x), deep]) } else { Tree::Node(vec![Tree::Node(vec![Tree::Leaf(x)]), deep]) }
                }
                for t in [&flat, &deep] {
                    cx.step();
                    let mut v = vec![];
                    t.flat(&mut v);
                    ensure_eq!(v, p, "harness", "cut");
                    ensure_eq!(t.to_source_string(), model(&p), "text", "{p:?} cut by {cut:b}");
                    let mut b = SourceBuffer::new();
                    b.push("x");
                    t.to_source(&mut b);
                    b.push("y");
                    let all: Vec<&str> = std::iter::once("x").chain(p.iter().copied()).chain(std::iter::once("y")).collect();
                    ensure_eq!(b.finish(), model(&all), "text", "{all:?} cut by {cut:b}");
                }
                cx.exec();
                cx.nontrivial(cut != 0);
                cx.state(&(p, cut));
                Ok(())
            },
        ),
        {
            let ns = seq::sizes(70, tier.pick(4096, 65536));
            let n2 = ns.clone();
            space(
                "two pieces in turn, many times: every number up to 70 and around the powers of two",
                ns.len() as u64 * n * n,
                move |i| format!("{} times {:?} {:?}", n2[(i / (n * n)) as usize], ALPHA[(i / n % n) as usize], ALPHA[(i % n) as usize]),
                move |i, cx| {
                    let k = ns[(i / (n * n)) as usize] as usize;
                    let two = [ALPHA[(i / n % n) as usize], ALPHA[(i % n) as usize]];
                    let p = two.repeat(k);
                    let mut b = SourceBuffer::new();
                    p.iter().for_each(|x| b.push(x));
                    let want = model(&p);
                    cx.step();
                    cx.exec();
                    ensure!(b.clone().finish() == want, "text", "{k} times {two:?}");
                    // one long piece is as good as its parts
                    let mut b = SourceBuffer::new();
                    let long = two[0].repeat(k);
                    b.push(&long);
                    b.push(two[1]);
                    ensure!(b.finish() == model(&[&long, two[1]]), "text", "{k} times {:?} as one, then {:?}", two[0], two[1]);
                    cx.nontrivial(want.len() > p.concat().len());
                    cx.state(&i);
                    Ok(())
                },
            )
        },
    ]
}
