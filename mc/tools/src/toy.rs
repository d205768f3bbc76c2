//! A small language of our own for the tools: names, words, blanks, and nodes of every useful role.
use oak_core::language::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Name,
    Word,
    Blank,
    Role(UniversalTokenRole),
    Eof,
}
impl TokenType for T {
    const END_OF_STREAM: Self = T::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> UniversalTokenRole {
        match self {
            T::Name => UniversalTokenRole::Name,
            T::Blank => UniversalTokenRole::Whitespace,
            T::Eof => UniversalTokenRole::Eof,
            T::Role(r) => *r,
            _ => UniversalTokenRole::None,
        }
    }
    fn is_ignored(&self) -> bool {
        *self == T::Blank
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Root,
    Def,
    Ref,
    Plain,
    Role(UniversalElementRole),
    Tok(T),
}
impl From<T> for N {
    fn from(t: T) -> Self {
        N::Tok(t)
    }
}
impl ElementType for N {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            N::Root => UniversalElementRole::Root,
            N::Def => UniversalElementRole::Definition,
            N::Ref => UniversalElementRole::Reference,
            N::Role(r) => *r,
            _ => UniversalElementRole::None,
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = N;
    type TypedRoot = ();
}

// ---------------------------------------------------------------- trees of the toy language
use oak_core::{
    memory::arena::SyntaxArena,
    tree::{GreenLeaf, GreenNode, GreenTree},
};
/// A tree as a flat list of leaves and brackets.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tk {
    L(T, &'static str),
    Open(N),
    End,
}
/// A long leaf: what follows it is behind 2^16 bytes.
pub fn long(n: usize) -> &'static str {
    Box::leak("é".repeat(n / 2).into_boxed_str())
}
/// The list without its first leaf, whose length is told.
pub fn brief(p: &[Tk]) -> String {
    let Tk::L(_, head) = p[0] else { panic!("no leaf") };
    format!("{} bytes, then {}", head.len(), show(&p[1..]))
}
/// Every list of `l` behind a leaf of about 2^16 bytes.
pub fn behind(l: &[Vec<Tk>], leaf: T) -> Vec<Vec<Tk>> {
    let heads = [65535, 65536, 65538].map(long);
    l.iter().flat_map(|p| heads.map(|h| [vec![Tk::L(leaf, h)], p.clone()].concat())).collect()
}
/// All balanced lists of exactly `n` items.
pub fn forests(leaves: &[(T, &'static str)], nodes: &[N], n: usize) -> Vec<Vec<Tk>> {
    fn go(leaves: &[(T, &'static str)], nodes: &[N], n: usize, open: usize, cur: &mut Vec<Tk>, out: &mut Vec<Vec<Tk>>) {
        if open > n {
            return;
        }
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for (t, s) in leaves {
            cur.push(Tk::L(*t, s));
            go(leaves, nodes, n - 1, open, cur, out);
            cur.pop();
        }
        for k in nodes {
            cur.push(Tk::Open(*k));
            go(leaves, nodes, n - 1, open + 1, cur, out);
            cur.pop();
        }
        if open > 0 {
            cur.push(Tk::End);
            go(leaves, nodes, n - 1, open - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(leaves, nodes, n, 0, &mut Vec::new(), &mut out);
    out
}
pub fn forests_upto(leaves: &[(T, &'static str)], nodes: &[N], n: usize) -> Vec<Vec<Tk>> {
    (0..=n).flat_map(|k| forests(leaves, nodes, k)).collect()
}
pub const SHAPES: [&str; 4] = ["leaves in a row", "small nodes in a row", "nested", "nested, with leaves on every level"];
/// A large list of about `n` leaves or nodes.
pub fn shape(leaves: &[(T, &'static str)], nodes: &[N], n: usize, which: usize) -> Vec<Tk> {
    let leaf = |k: usize| Tk::L(leaves[k % leaves.len()].0, leaves[k % leaves.len()].1);
    let node = |k: usize| Tk::Open(nodes[k % nodes.len()]);
    match which {
        0 => (0..n).map(leaf).collect(),
        1 => (0..n).flat_map(|k| [node(k), leaf(k), leaf(k / 3), Tk::End]).collect(),
        2 => (0..n).map(node).chain([leaf(n)]).chain((0..n).map(|_| Tk::End)).collect(),
        _ => (0..n).flat_map(|k| [leaf(k), node(k)]).chain((0..n).flat_map(|k| [leaf(k / 2), Tk::End])).collect(),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Node(N, Vec<Tree>),
    Leaf(T, &'static str),
}
pub fn tree(root: N, p: &[Tk]) -> Tree {
    fn items(p: &[Tk], at: &mut usize) -> Vec<Tree> {
        let mut v = Vec::new();
        while *at < p.len() && p[*at] != Tk::End {
            let i = p[*at];
            *at += 1;
            v.push(match i {
                Tk::L(t, s) => Tree::Leaf(t, s),
                Tk::Open(k) => {
                    let inner = items(p, at);
                    *at += 1;
                    Tree::Node(k, inner)
                }
                Tk::End => unreachable!(),
            })
        }
        v
    }
    Tree::Node(root, items(p, &mut 0))
}
pub fn text(p: &[Tk]) -> String {
    p.iter().map(|i| if let Tk::L(_, s) = i { *s } else { "" }).collect()
}
pub fn plant<'a>(arena: &'a SyntaxArena, t: &Tree) -> GreenTree<'a, Toy> {
    match t {
        Tree::Leaf(k, s) => GreenTree::Leaf(GreenLeaf::new(*k, s.len() as u32)),
        Tree::Node(..) => GreenTree::Node(root(arena, t)),
    }
}
pub fn root<'a>(arena: &'a SyntaxArena, t: &Tree) -> &'a GreenNode<'a, Toy> {
    let Tree::Node(k, c) = t
    else {
        panic!("a leaf is no root")
    };
    let children: Vec<_> = c.iter().map(|x| plant(arena, x)).collect();
    arena.alloc(GreenNode::new(*k, arena.alloc_slice_copy(&children)))
}
pub fn show(p: &[Tk]) -> String {
    p.iter()
        .map(|i| match i {
            Tk::L(t, s) => format!("{t:?}:{s:?} "),
            Tk::Open(k) => format!("{k:?}( "),
            Tk::End => ") ".into(),
        })
        .collect()
}
