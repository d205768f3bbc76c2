//! P13: positions and navigation in red and green trees agree with the text the tree covers, for
//! every small tree, every offset in and around it, and every cursor state and move.
use crate::lang::*;
use mc_kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{Cursor, GreenLeaf, GreenNode, GreenTree, RedLeaf, RedNode, RedTree};
use oak_core::visitor::{PreOrder, Visitor};
use std::collections::HashSet;

/// every forest of `n` elements, leaves being 0, 1 or 2 bytes long
fn forests(n: usize, memo: &mut Vec<Vec<Vec<M>>>) -> Vec<Vec<M>> {
    if let Some(v) = memo.get(n) {
        return v.clone();
    }
    let mut out = vec![];
    if n == 0 {
        out.push(vec![])
    }
    for k in 1..=n {
        let firsts: Vec<M> = if k == 1 { (0..3).map(|l| M::L(T::A, l)).chain([M::N(N::Item, vec![])]).collect() } else { forests(k - 1, memo).into_iter().map(|f| M::N(N::Item, f)).collect() };
        let rest = forests(n - k, memo);
        for f in &firsts {
            for r in &rest {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v)
            }
        }
    }
    if memo.len() == n {
        memo.push(out.clone())
    }
    out
}
/// number the elements in pre-order, so that every one is distinguishable
fn number(m: &M, c: &mut u8) -> M {
    let k = *c;
    *c = c.wrapping_add(1);
    match m {
        M::L(_, l) => M::L(T::Op(k), *l),
        M::N(_, v) => M::N(N::Bin(k), v.iter().map(|x| number(x, c)).collect()),
    }
}
fn build<'a>(a: &'a SyntaxArena, m: &M) -> GreenTree<'a, Mock> {
    match m {
        M::L(t, l) => GreenTree::Leaf(GreenLeaf::new(*t, *l as u32)),
        M::N(k, c) => {
            let v: Vec<_> = c.iter().map(|x| build(a, x)).collect();
            let v = a.alloc_slice_copy(&v);
            GreenTree::Node(a.alloc(GreenNode::new(*k, v)))
        }
    }
}
/// what the caller of a red tree can see of one element
type Seen = (Result<N, T>, usize, usize);
fn seen(t: &RedTree<'_, Mock>) -> Seen {
    let s = t.span();
    match t {
        RedTree::Node(n) => (Ok(n.kind::<N>()), s.start, s.end),
        RedTree::Leaf(l) => (Err(l.kind), s.start, s.end),
    }
}
fn model_seen(m: &M, at: usize) -> Seen {
    match m {
        M::L(t, l) => (Err(*t), at, at + l),
        M::N(k, _) => (Ok(*k), at, at + m.len()),
    }
}
fn flat(m: &M, at: usize, out: &mut Vec<Seen>) {
    out.push(model_seen(m, at));
    if let M::N(_, c) = m {
        let mut p = at;
        for x in c {
            flat(x, p, out);
            p += x.len()
        }
    }
}
#[derive(Default)]
struct Walk(Vec<Seen>);
impl<'a> Visitor<'a, Mock> for Walk {
    fn visit_node(&mut self, node: RedNode<'a, Mock>) {
        self.0.push(seen(&RedTree::Node(node)));
        self.walk_node(node)
    }
    fn visit_token(&mut self, token: RedLeaf<Mock>) {
        self.0.push(seen(&RedTree::Leaf(token)))
    }
}
fn leaves(m: &M, at: usize, out: &mut Vec<Seen>) {
    let mut v = vec![];
    flat(m, at, &mut v);
    out.extend(v.into_iter().filter(|s| s.0.is_err()))
}
fn node(n: RedNode<'_, Mock>, m: &M, at: usize, text: &str, cx: &mut Cx) -> Res {
    let M::N(k, c) = m else { unreachable!() };
    let who = || format!("{} at {at}", m.show());
    ensure_eq!((n.kind::<N>(), n.element_type(), n.span().start, n.span().end), (*k, *k, at, at + m.len()), "span", "{}", who());
    ensure_eq!((n.green().children_count(), n.green().has_children()), (c.len(), !c.is_empty()), "children", "{}", who());
    let mut want = vec![];
    let mut p = at;
    for x in c {
        want.push(model_seen(x, p));
        p += x.len()
    }
    let got: Vec<_> = n.children().collect();
    ensure_eq!(got.iter().map(seen).collect::<Vec<_>>(), want, "children", "{}", who());
    ensure_eq!(RedTree::Node(n).children().map(|x| seen(&x)).collect::<Vec<_>>(), want, "children", "{}", who());
    for (i, x) in got.iter().enumerate() {
        cx.step();
        ensure_eq!(seen(&n.child_at(i)), want[i], "child_at", "child {i} of {}", who());
        ensure!(n.child_at(i) == *x, "child_at", "child {i} of {} differs from the iterator's", who());
        ensure_eq!(n.green().child_at(i).map(|g| (g.len() as usize, g.is_node(), g.is_leaf())), Some((c[i].len(), matches!(c[i], M::N(..)), matches!(c[i], M::L(..)))), "green", "child {i} of {}", who());
        ensure_eq!(&*x.text(text), &text[want[i].1..want[i].2], "text", "child {i} of {}", who());
        ensure_eq!((x.as_node().is_some(), x.as_leaf().is_some()), (want[i].0.is_ok(), want[i].0.is_err()), "as", "{}", who());
    }
    ensure!(n.green().child_at(c.len()).is_none(), "green", "a child after the last one of {}", who());
    let mut lv = vec![];
    leaves(m, at, &mut lv);
    for o in at.saturating_sub(1)..=at + m.len() + 1 {
        cx.step();
        let idx = want.iter().position(|w| w.1 <= o && o < w.2);
        ensure_eq!(n.child_index_at_offset(o), idx, "at_offset", "index of the child of {} holding byte {o}", who());
        ensure_eq!(n.child_at_offset(o).map(|x| seen(&x)), idx.map(|i| want[i]), "at_offset", "child of {} holding byte {o}", who());
        ensure_eq!(n.leaf_at_offset(o).map(|x| seen(&RedTree::Leaf(x))), lv.iter().find(|w| w.1 <= o && o < w.2).copied(), "leaf_at_offset", "leaf of {} holding byte {o}", who());
    }
    for (x, mx) in got.iter().zip(c).zip(&want).map(|((a, b), w)| (a, (b, w.1))) {
        if let RedTree::Node(y) = x {
            node(*y, mx.0, mx.1, text, cx)?
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- cursor
const MOVES: [&str; 5] = ["step_into", "step_over", "step_out", "step", "step_next"];
fn at<'m>(m: &'m M, path: &[usize]) -> (&'m M, usize) {
    let (mut m, mut o) = (m, 0);
    for k in path {
        let M::N(_, c) = m else { unreachable!() };
        o += c[..*k].iter().map(|x| x.len()).sum::<usize>();
        m = &c[*k];
    }
    (m, o)
}
fn kids(m: &M) -> usize {
    match m {
        M::N(_, c) => c.len(),
        _ => 0,
    }
}
fn over(m: &M, path: &[usize]) -> Option<Vec<usize>> {
    let (k, up) = path.split_last()?;
    (k + 1 < kids(at(m, up).0)).then(|| up.iter().copied().chain([k + 1]).collect())
}
fn next(m: &M, path: &[usize]) -> Option<Vec<usize>> {
    (0..=path.len()).rev().find_map(|n| over(m, &path[..n]))
}
fn into(m: &M, path: &[usize]) -> Option<Vec<usize>> {
    (kids(at(m, path).0) > 0).then(|| path.iter().copied().chain([0]).collect())
}
fn cursor(root: &GreenNode<'_, Mock>, m: &M, cx: &mut Cx) -> Res {
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let mut todo = vec![(Cursor::new(root), vec![])];
    seen.insert(vec![]);
    while let Some((c, path)) = todo.pop() {
        let (x, o) = at(m, &path);
        let is = match (c.current(), x) {
            (GreenTree::Leaf(l), M::L(t, n)) => l.kind() == *t && l.length() as usize == *n,
            (GreenTree::Node(n), M::N(..)) => M::of(n) == *x,
            _ => false,
        };
        ensure!(is, "cursor", "element at path {path:?} of {}", m.show());
        ensure_eq!((c.offset(), c.len(), c.end_offset(), c.as_node().is_some()), (o, x.len(), o + x.len(), matches!(x, M::N(..))), "cursor", "position at path {path:?} of {}", m.show());
        for (i, mv) in MOVES.iter().enumerate() {
            cx.step();
            let mut d = c.clone();
            let moved = match i {
                0 => d.step_into(),
                1 => d.step_over(),
                2 => d.step_out(),
                3 => d.step(),
                _ => d.step_next(),
            };
            let want = match i {
                0 => into(m, &path),
                1 => over(m, &path),
                2 => path.split_last().map(|(_, up)| up.to_vec()),
                3 => into(m, &path).or_else(|| next(m, &path)),
                _ => next(m, &path),
            };
            ensure_eq!(moved, want.is_some(), "cursor", "{mv} from path {path:?} of {}", m.show());
            match want {
                // where the cursor is after the end of a traversal is not specified
                None if i < 3 => {
                    ensure!(d.current() == c.current() && d.offset() == c.offset(), "cursor", "failed {mv} from path {path:?} of {} moved", m.show())
                }
                None => (),
                Some(p) => {
                    // every way to reach a path is compared, one of them is followed
                    ensure_eq!(d.offset(), at(m, &p).1, "cursor", "{mv} from path {path:?} of {}: offset", m.show());
                    if seen.insert(p.clone()) {
                        todo.push((d, p))
                    }
                    else {
                        let mut back = vec![];
                        while {
                            back.push((d.offset(), d.len()));
                            d.step_out()
                        } {}
                        let want: Vec<_> = (0..=p.len()).rev().map(|n| at(m, &p[..n])).map(|(x, o)| (o, x.len())).collect();
                        ensure_eq!(back, want, "cursor", "{mv} from path {path:?} of {}: way back", m.show());
                    }
                }
            }
        }
    }
    let mut all = vec![];
    flat(m, 0, &mut all);
    ensure_eq!(seen.len(), all.len(), "cursor", "elements reached in {}", m.show());
    Ok(())
}
/// Every tree that differs in one element: another kind, another length, one element more or less.
fn changes(m: &M, out: &mut dyn FnMut(M)) {
    match m {
        M::L(t, l) => {
            out(M::L(T::Err, *l));
            out(M::L(*t, l + 1));
            if *l == 0 {
                out(M::N(N::Opt, vec![]))
            }
        }
        M::N(k, c) => {
            out(M::N(N::Opt, c.clone()));
            out(M::N(*k, c.iter().cloned().chain([M::L(T::Err, 0)]).collect()));
            for i in 0..c.len() {
                let mut less = c.clone();
                less.remove(i);
                out(M::N(*k, less));
                changes(&c[i], &mut |x| {
                    let mut d = c.clone();
                    d[i] = x;
                    out(M::N(*k, d))
                })
            }
        }
    }
}
fn run(f: &[M], cx: &mut Cx) -> Res {
    let m = number(&M::N(N::Root, f.to_vec()), &mut 0);
    let a = SyntaxArena::new(4);
    let t = build(&a, &m);
    let g = t.as_node().unwrap();
    ensure!(M::of(g) == m && lengths_ok(g), "green", "{}", m.show());
    for off in [0, 3] {
        let text = "abcdefghijklmnopqrstuvwxyz";
        let red = RedNode::new(g, off);
        node(red, &m, off, text, cx)?;
        let mut want = vec![];
        flat(&m, off, &mut want);
        ensure_eq!(PreOrder::new(RedTree::Node(red)).map(|x| seen(&x)).collect::<Vec<_>>(), want, "preorder", "{}", m.show());
        let mut w = Walk::default();
        w.visit_node(red);
        ensure_eq!(w.0, want, "visitor", "{}", m.show());
    }
    cursor(g, &m, cx)?;
    // equal trees are equal and hash the same, wherever they live
    let b = SyntaxArena::new(4);
    let u = build(&b, &m);
    ensure!(u == t && fp(&u) == fp(&t), "equal", "a copy of {} differs", m.show());
    // and any other tree differs, as does the same tree elsewhere
    let mut others = vec![];
    changes(&m, &mut |x| others.push(x));
    for x in &others {
        cx.step();
        let u = build(&b, x);
        ensure!(u != t, "equal", "{} counts as equal to {}", m.show(), x.show());
        ensure!(RedNode::new(u.as_node().unwrap(), 0) != RedNode::new(g, 0), "equal", "red {} counts as equal to {}", m.show(), x.show());
    }
    ensure!(RedNode::new(g, 1) != RedNode::new(g, 0) && RedNode::new(u.as_node().unwrap(), 1) == RedNode::new(g, 1), "equal", "{} and its place", m.show());
    ensure!(RedTree::Node(RedNode::new(g, 1)) != RedTree::Node(RedNode::new(g, 0)), "equal", "{} and its place", m.show());
    cx.exec();
    cx.nontrivial(f.len() > 1);
    cx.state(&m.show());
    Ok(())
}
// ---------------------------------------------------------------- large trees
const SHAPES: [&str; 8] = ["leaves in a row", "nodes in a row", "nodes in one another", "a comb to the left", "a comb to the right", "empty leaves and nodes among others", "two levels", "three levels"];
fn shape(k: usize, n: usize) -> Vec<M> {
    let leaf = |l: usize| M::L(T::A, l);
    let nd = |c: Vec<M>| M::N(N::Item, c);
    let sq = (1..).find(|x| x * x >= n).unwrap_or(1);
    match k {
        0 => (0..n).map(|i| leaf(1 + i % 3)).collect(),
        1 => (0..n).map(|i| nd(vec![leaf(i % 4), leaf(1)])).collect(),
        2 => vec![(0..n).fold(leaf(2), |m, _| nd(vec![m]))],
        3 => vec![(0..n).fold(leaf(1), |m, i| nd(vec![m, leaf(i % 2)]))],
        4 => vec![(0..n).fold(leaf(1), |m, i| nd(vec![leaf(i % 3), m]))],
        5 => (0..n).map(|i| if i % 7 == 3 { leaf(5) } else if i % 2 == 0 { leaf(0) } else { nd(vec![]) }).collect(),
        6 => (0..sq).map(|i| nd((0..sq.min(n.saturating_sub(i * sq))).map(|j| leaf((i + j) % 3)).collect())).collect(),
        _ => (0..sq).map(|i| nd((0..sq.min(n.saturating_sub(i * sq))).map(|j| nd(vec![leaf(j % 2), leaf(i % 2)])).collect())).collect(),
    }
}
fn large(m: &M, who: String, long: bool, cx: &mut Cx) -> Res {
    let a = SyntaxArena::new(4);
    let t = build(&a, m);
    let g = t.as_node().unwrap();
    ensure!(M::of(g) == *m && lengths_ok(g), "green", "{who}");
    let len = m.len();
    let places: Vec<usize> = if long {
        let mut v = vec![];
        flat(m, 0, &mut v);
        v.iter().flat_map(|s| [s.1.saturating_sub(1), s.1, s.1 + 1, (s.1 + s.2) / 2, s.2.saturating_sub(1)]).filter(|p| *p < len).collect()
    }
    else {
        seq::marks(&"a".repeat(len), 2)
    };
    for off in [0, 5] {
        let red = RedNode::new(g, off);
        let mut want = vec![];
        flat(m, off, &mut want);
        cx.steps(want.len() as u64);
        ensure_eq!(PreOrder::new(RedTree::Node(red)).map(|x| seen(&x)).collect::<Vec<_>>(), want, "preorder", "{who}");
        let mut w = Walk::default();
        w.visit_node(red);
        ensure_eq!(w.0, want, "visitor", "{who}");
        let lv: Vec<Seen> = want.iter().filter(|s| s.0.is_err()).copied().collect();
        for p in places.iter().map(|p| p + off).chain([off + len, off + len + 1]) {
            cx.step();
            let w = lv.iter().find(|w| w.1 <= p && p < w.2).copied();
            ensure_eq!(red.leaf_at_offset(p).map(|x| seen(&RedTree::Leaf(x))), w, "leaf_at_offset", "{who}: leaf holding byte {p}");
        }
        // down along the children that hold a byte, and along the first and last ones
        for p in places.iter().copied().chain([usize::MAX - 1, usize::MAX]) {
            let (mut n, mut x, mut at) = (red, m, off);
            while let M::N(_, c) = x {
                cx.step();
                let mut q = at;
                let mut starts = vec![];
                for y in c {
                    starts.push(q);
                    q += y.len()
                }
                ensure_eq!((n.span().start, n.span().end, n.green().children_count()), (at, q, c.len()), "span", "{who}");
                let held = (0..c.len()).find(|i| starts[*i] <= p.wrapping_add(off) && p.wrapping_add(off) < starts[*i] + c[*i].len());
                if p < len {
                    ensure_eq!(n.child_index_at_offset(p + off), held, "at_offset", "{who}: index of the child holding byte {p}");
                    ensure_eq!(n.child_at_offset(p + off).map(|x| seen(&x)), held.map(|i| model_seen(&c[i], starts[i])), "at_offset", "{who}: child holding byte {p}");
                }
                let Some(i) = (if p < len { held } else if p == usize::MAX { c.len().checked_sub(1) } else { (!c.is_empty()).then_some(0) }) else { break };
                let child = n.child_at(i);
                ensure_eq!(seen(&child), model_seen(&c[i], starts[i]), "child_at", "{who}: child {i}");
                (x, at) = (&c[i], starts[i]);
                match child {
                    RedTree::Node(y) => n = y,
                    RedTree::Leaf(_) => break,
                }
            }
        }
    }
    // leaves are equal if their kinds and places are
    let red: Vec<RedTree<Mock>> = PreOrder::new(RedTree::Node(RedNode::new(g, 0))).filter(|x| x.as_leaf().is_some()).take(9).collect();
    for (i, x) in red.iter().enumerate() {
        for (j, y) in red.iter().enumerate() {
            ensure_eq!(x == y, i == j || seen(x) == seen(y), "equal", "{who}: leaves {i} and {j}");
        }
    }
    // a cursor through the whole tree, and back from its end
    let mut all = vec![];
    flat(m, 0, &mut all);
    let mut c = Cursor::new(g);
    for (i, w) in all.iter().enumerate() {
        cx.step();
        ensure_eq!((c.offset(), c.end_offset(), c.as_node().is_some()), (w.1, w.2, w.0.is_ok()), "cursor", "{who}: element {i}");
        if i + 1 < all.len() {
            ensure!(c.step(), "cursor", "{who}: no step from element {i} of {}", all.len());
        }
    }
    let mut path = vec![];
    while let M::N(_, k) = at(m, &path).0 {
        if k.is_empty() {
            break;
        }
        path.push(k.len() - 1)
    }
    if all.len() > 1 {
        let mut d = Cursor::new(g);
        while d.step_into() {
            while d.step_over() {}
        }
        let mut d = d.clone();
        for n in (0..=path.len()).rev() {
            let (x, o) = at(m, &path[..n]);
            ensure_eq!((d.offset(), d.len()), (o, x.len()), "cursor", "{who}: last path, level {n}");
            ensure_eq!(d.step_out(), n > 0, "cursor", "{who}: level {n}");
        }
    }
    cx.exec();
    cx.nontrivial(true);
    cx.state(&who);
    Ok(())
}
/// The same tree with leaves of `by` and `by + 1` bytes in the place of 1 and 2.
fn longer(m: &M, by: usize) -> M {
    match m {
        M::L(t, 0) => M::L(*t, 0),
        M::L(t, l) => M::L(*t, by + l - 1),
        M::N(k, c) => M::N(*k, c.iter().map(|x| longer(x, by)).collect()),
    }
}
const LONG: [usize; 14] = [100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 31) / 5, (1 << 29) - 1];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let n = tier.pick(7, 8);
    let mut memo = vec![];
    let some: Vec<Vec<M>> = (0..=tier.pick(5, 6)).flat_map(|k| forests(k, &mut memo)).collect();
    let some: &'static Vec<Vec<M>> = Box::leak(Box::new(some));
    let count = (some.len() * LONG.len()) as u64;
    let each = move |i: u64| (number(&M::N(N::Root, some[i as usize / LONG.len()].clone()), &mut 0), LONG[i as usize % LONG.len()]);
    (0..=n)
        .map(|k| {
            let v: &'static Vec<Vec<M>> = Box::leak(Box::new(forests(k, &mut memo)));
            space(
                format!("every tree of {k} elements below the root, leaves of 0 to 2 bytes"),
                v.len() as u64,
                move |i| M::N(N::Root, v[i as usize].clone()).show(),
                move |i, cx| run(&v[i as usize], cx),
            )
        })
        .chain({
            let ns = seq::sizes(70, tier.pick(1024, 4096));
            let n2 = ns.clone();
            [space(
                "large trees of eight shapes: every size up to 70 and around the powers of two",
                8 * ns.len() as u64,
                move |i| format!("{} {}", n2[i as usize / 8], SHAPES[i as usize % 8]),
                move |i, cx| {
                    let (k, n) = (i as usize % 8, ns[i as usize / 8] as usize);
                    large(&number(&M::N(N::Root, shape(k, n)), &mut 0), format!("{n}, {}", SHAPES[k]), false, cx)
                },
            )]
        })
        .chain([space(
            format!("every tree of up to {} elements with leaves as long as the powers of two", tier.pick(5, 6)),
            count,
            move |i| longer(&each(i).0, each(i).1).show(),
            move |i, cx| {
                let (m, by) = each(i);
                large(&longer(&m, by), format!("{} with leaves of {by}", m.show()), true, cx)
            },
        )])
        .collect()
}
