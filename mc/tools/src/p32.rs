//! P32: pictures of graphs and trees: the questions a graph answers are true of it, and every layout
//! places every node once, with its label, kind and size, and draws every edge between known nodes.
use crate::toy;
use mc_kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_visualize::layout::{ForceDirectedLayout, HierarchicalLayout, LayoutDirection};
use oak_visualize::*;
use std::collections::BTreeSet;

// ---------------------------------------------------------------- graphs
const IDS: [&str; 5] = ["a", "b", "c é", "d<", "nowhere"];
const TYPES: [&str; 4] = ["function", "struct", "module", "odd"];
/// The name of node `k`: the first ones are odd.
fn id(k: usize) -> &'static str {
    static ALL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| (0..3000).map(|k| if k < 5 { IDS[k] } else { &*format!("node {k}").leak() }).collect())[k]
}
fn node_type(k: usize) -> NodeType {
    [NodeType::Function, NodeType::Struct, NodeType::Module, NodeType::Default][k]
}
#[derive(Clone, Debug)]
struct G {
    /// how many of IDS are nodes of the graph
    n: usize,
    edges: Vec<(usize, usize)>,
    directed: bool,
}
impl G {
    fn sized(k: usize) -> Option<Size> {
        [None, Some(Size::new(30.0, 60.0)), None, Some(Size::new(0.0, 0.0))][k]
    }
    fn build(&self, sized: bool) -> Graph {
        let mut g = Graph::new(self.directed);
        for k in 0..self.n {
            let mut n = GraphNode::new(id(k).into(), format!("label {k}")).with_type(TYPES[k % 4].into()).with_weight(k as f64);
            if let (true, Some(s)) = (sized, Self::sized(k % 4)) {
                n = n.with_size(s)
            }
            g.add_node(n);
        }
        for (k, (a, b)) in self.edges.iter().enumerate() {
            let mut e = GraphEdge::new(id(*a).into(), id(*b).into());
            if k % 2 == 1 {
                e = e.with_label(format!("e{k}"))
            }
            // weights pull harder or not at all, and neither add nor remove edges
            if k % 3 > 0 {
                e = e.with_weight([0.0, 3.0][k % 3 - 1])
            }
            g.add_edge(e);
        }
        g
    }
    fn known(&self) -> Vec<(usize, (usize, usize))> {
        self.edges.iter().copied().enumerate().filter(|(_, (a, b))| *a < self.n && *b < self.n).collect()
    }
    /// The component every node is in, taking edges as undirected.
    fn components(&self) -> Vec<usize> {
        let mut c: Vec<usize> = (0..self.n).collect();
        for _ in 0..self.n {
            for (_, (a, b)) in self.known() {
                let m = c[a].min(c[b]);
                (c[a], c[b]) = (m, m)
            }
        }
        c
    }
    /// Is there a way round, over known nodes?
    fn cyclic(&self) -> bool {
        let known = self.known();
        if !self.directed {
            // a forest has as many edges as nodes without components
            return known.len() + self.components().iter().collect::<BTreeSet<_>>().len() > self.n;
        }
        let mut left: BTreeSet<usize> = (0..self.n).collect();
        loop {
            let free: Vec<usize> = left.iter().copied().filter(|x| !known.iter().any(|(_, (a, b))| b == x && left.contains(a))).collect();
            if free.is_empty() {
                return !left.is_empty();
            }
            free.iter().for_each(|x| {
                left.remove(x);
            })
        }
    }
}
fn questions(g: &G, cx: &mut Cx) -> Res {
    let real = g.build(false);
    for k in 0..g.n.max(5) {
        let mut want = Vec::new();
        for (a, b) in &g.edges {
            if *a == k {
                want.push(id(*b))
            }
            if !g.directed && *b == k {
                want.push(id(*a))
            }
        }
        ensure_eq!(real.get_neighbors(id(k)), want, "neighbors", "of {:?} in {g:?}", id(k));
        ensure_eq!(real.get_degree(id(k)), want.len(), "degree", "of {:?} in {g:?}", id(k));
        cx.step();
    }
    let connected = g.components().iter().all(|c| *c == 0);
    ensure_eq!(real.is_connected(), connected, "connected", "{g:?}");
    let mut cycles = real.find_cycles();
    if g.edges.iter().all(|(a, b)| *a < g.n && *b < g.n) {
        ensure_eq!(!cycles.is_empty(), g.cyclic(), "cycles", "{g:?}: {cycles:?}");
        cx.nontrivial(g.cyclic());
    }
    for c in &mut cycles {
        let at: Vec<usize> = c.iter().map(|x| (0..g.n.max(5)).position(|y| id(y) == x).unwrap_or(9999)).collect();
        ensure!(!at.is_empty() && at.iter().collect::<BTreeSet<_>>().len() == at.len(), "cycles", "{c:?} in {g:?}");
        // every step needs an edge of its own
        let mut left: Vec<(usize, usize)> = g.edges.clone();
        for k in 0..at.len() {
            let (a, b) = (at[k], at[(k + 1) % at.len()]);
            match left.iter().position(|e| *e == (a, b) || !g.directed && *e == (b, a)) {
                Some(p) => drop(left.remove(p)),
                None => return fail("cycles", format!("{c:?} is no way round in {g:?}")),
            }
        }
    }
    cx.state(&(g.n, connected, cycles.len()));
    cx.exec();
    Ok(())
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6 * (1.0 + a.abs().max(b.abs()))
}
struct Want {
    id: String,
    label: String,
    kind: NodeType,
    size: Size,
}
/// Every node once, every edge where it belongs, nothing else.
fn placed(l: &Layout, nodes: &[Want], edges: &[(String, String, Option<String>)], what: &dyn Fn() -> String, cx: &mut Cx) -> Res {
    let ids: BTreeSet<&str> = nodes.iter().map(|n| n.id.as_str()).collect();
    ensure_eq!(l.nodes.keys().map(|k| k.as_str()).collect::<BTreeSet<_>>(), ids, "nodes", "{}", what());
    for n in nodes {
        let p = &l.nodes[&n.id];
        ensure_eq!((p.id.clone(), p.label.clone(), p.node_type), (n.id.clone(), n.label.clone(), n.kind), "node", "{}", what());
        ensure_eq!(p.rect.size, n.size, "size", "of {:?}, {}", n.id, what());
        ensure!(p.rect.origin.x.is_finite() && p.rect.origin.y.is_finite(), "place", "{:?} is at {:?}, {}", n.id, p.rect.origin, what());
        cx.step();
    }
    let mut got: Vec<(String, String, Option<String>)> = l.edges.iter().map(|e| (e.from.clone(), e.to.clone(), e.label.clone())).collect();
    let mut want = edges.to_vec();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "edges", "{}", what());
    for e in &l.edges {
        let (a, b) = (l.nodes[&e.from].rect.center(), l.nodes[&e.to].rect.center());
        let ok = e.points.len() >= 2 && e.points[0] == a && e.points[e.points.len() - 1] == b && e.points.iter().all(|p| p.x.is_finite() && p.y.is_finite());
        ensure!(ok, "edge", "{} to {} is drawn along {:?}, {}", e.from, e.to, e.points, what());
        cx.step();
    }
    if !nodes.is_empty() {
        let low = |f: fn(&Rect) -> f64| l.nodes.values().map(|n| f(&n.rect)).fold(f64::INFINITY, f64::min);
        let high = |f: fn(&Rect) -> f64| l.nodes.values().map(|n| f(&n.rect)).fold(f64::NEG_INFINITY, f64::max);
        let b = &l.bounds;
        let ok = near(b.min_x(), low(Rect::min_x)) && near(b.min_y(), low(Rect::min_y)) && near(b.max_x(), high(Rect::max_x)) && near(b.max_y(), high(Rect::max_y));
        ensure!(ok, "bounds", "are {b:?}, {}", what());
    }
    cx.exec();
    Ok(())
}
fn overlap(a: &Rect, b: &Rect) -> bool {
    let e = 1e-6;
    a.min_x() + e < b.max_x() && b.min_x() + e < a.max_x() && a.min_y() + e < b.max_y() && b.min_y() + e < a.max_y()
}
fn apart(l: &Layout, what: &dyn Fn() -> String) -> Res {
    let all: Vec<_> = l.nodes.values().collect();
    for (k, a) in all.iter().enumerate() {
        for b in &all[..k] {
            ensure!(!overlap(&a.rect, &b.rect), "overlap", "{} {:?} and {} {:?}, {}", a.id, a.rect, b.id, b.rect, what());
        }
    }
    Ok(())
}
const ALGORITHMS: [GraphLayoutAlgorithm; 5] = [GraphLayoutAlgorithm::ForceDirected, GraphLayoutAlgorithm::Circular, GraphLayoutAlgorithm::Hierarchical, GraphLayoutAlgorithm::Grid, GraphLayoutAlgorithm::Organic];
fn graph_layouts(g: &G, sized: bool, iterations: usize, cx: &mut Cx) -> Res {
    graph_layouts_with(g, sized, &GraphLayoutConfig { iterations, ..GraphLayoutConfig::default() }, cx)
}
fn graph_layouts_with(g: &G, sized: bool, config: &GraphLayoutConfig, cx: &mut Cx) -> Res {
    let real = g.build(sized);
    let plain = Size::new(config.node_width, config.node_height);
    let (wide, high) = (config.node_width + config.node_spacing, config.node_height + config.node_spacing);
    let nodes: Vec<Want> = (0..g.n).map(|k| Want { id: id(k).into(), label: format!("label {k}"), kind: node_type(k % 4), size: if sized { G::sized(k % 4).unwrap_or(plain) } else { plain } }).collect();
    let edges: Vec<_> = g.known().iter().map(|(k, (a, b))| (id(*a).to_string(), id(*b).to_string(), (k % 2 == 1).then(|| format!("e{k}")))).collect();
    for alg in ALGORITHMS {
        let what = || format!("{alg:?} of {g:?} sized {sized} {config:?}");
        let l = match GraphLayout::new().with_algorithm(alg).with_config(config.clone()).layout_graph(&real) {
            Ok(l) => l,
            Err(e) => return fail("layout", format!("{e}, {}", what())),
        };
        placed(&l, &nodes, &edges, &what, cx)?;
        match alg {
            GraphLayoutAlgorithm::Circular => {
                let mut angles: Vec<f64> = l.nodes.values().map(|n| n.rect.center()).map(|c| c.y.atan2(c.x).rem_euclid(std::f64::consts::TAU)).map(|a| if near(a, std::f64::consts::TAU) { 0.0 } else { a }).collect();
                angles.sort_by(f64::total_cmp);
                for (k, a) in angles.iter().enumerate() {
                    ensure!(near(*a, std::f64::consts::TAU * k as f64 / g.n as f64), "circle", "angles {angles:?}, {}", what());
                }
                ensure!(l.nodes.values().all(|n| near(n.rect.center().distance_to(&Point::origin()), config.circle_radius)), "circle", "radius, {}", what());
            }
            GraphLayoutAlgorithm::Grid => {
                let cols = (1..).find(|c| c * c >= g.n).unwrap_or(1);
                let cells: BTreeSet<(i64, i64)> = l.nodes.values().map(|n| ((n.rect.origin.x / wide).round() as i64, (n.rect.origin.y / high).round() as i64)).collect();
                let want: BTreeSet<(i64, i64)> = (0..g.n).map(|k| ((k % cols) as i64, (k / cols) as i64)).collect();
                ensure_eq!(cells, want, "grid", "{}", what());
                if !sized {
                    apart(&l, &what)?;
                }
            }
            GraphLayoutAlgorithm::Hierarchical => {
                let directed = G { directed: true, ..g.clone() };
                if !directed.cyclic() {
                    for (_, (a, b)) in g.known() {
                        ensure!(l.nodes[id(a)].rect.origin.y + config.layer_distance * 0.99 < l.nodes[id(b)].rect.origin.y, "layers", "{} is not above {}, {}", id(a), id(b), what());
                    }
                }
                if !sized {
                    apart(&l, &what)?;
                }
            }
            GraphLayoutAlgorithm::ForceDirected | GraphLayoutAlgorithm::Organic => {
                let links: Vec<(usize, usize)> = g.known().into_iter().map(|(_, e)| e).collect();
                let at: Vec<Point> = (0..g.n).map(|k| l.nodes[id(k)].rect.center()).collect();
                let moves = (config.spring_strength != 0.0, config.repulsion_strength > 0.0, config.iterations > 0);
                pushed(&at, &links, moves, &what)?;
            }
        }
        cx.state(&format!("{:?} {}", alg, l.edges.len()));
    }
    Ok(())
}
/// A graph or tree is drawn as its layout is.
fn drawn(g: &Graph, t: &TreeNode, cx: &mut Cx) -> Res {
    let rendered = |l: oak_visualize::Result<Layout>| l.and_then(|l| oak_visualize::render::SvgRenderer::new().render_layout(&l));
    use TreeLayoutAlgorithm as A;
    for alg in [A::Layered, A::Radial, A::Compact, A::Balloon] {
        let e = TreeLayout::new().with_algorithm(alg);
        same_picture(e.visualize(t), rendered(e.layout_tree(t)), "tree")?;
        cx.step();
    }
    same_picture(to_svg(t), rendered(TreeLayout::new().layout_tree(t)), "tree")?;
    for e in [|| GraphLayout::new(), || GraphLayout::force_directed(), || GraphLayout::circular(), || GraphLayout::circular().with_algorithm(GraphLayoutAlgorithm::Grid), || GraphLayout::force_directed().with_iterations(0), || GraphLayout::new().with_attraction(0.0).with_repulsion(0.0)] {
        same_picture(e().visualize(g), rendered(e().layout_graph(g)), "graph")?;
        cx.step();
    }
    same_picture(to_svg(g), rendered(GraphLayout::new().layout_graph(g)), "graph")?;
    for (e, far) in [(GraphLayout::circular(), 200.0), (GraphLayout::force_directed().with_attraction(0.0).with_repulsion(0.0), 100.0), (GraphLayout::force_directed().with_iterations(0), 100.0)] {
        if let Ok(l) = e.layout_graph(g) {
            ensure!(l.nodes.values().all(|n| near(n.rect.center().distance_to(&Point::origin()), far)), "circle", "{:?}", l.nodes);
        }
    }
    cx.exec();
    Ok(())
}
/// Parts of a picture may come in any order.
fn same_picture(a: oak_visualize::Result<String>, b: oak_visualize::Result<String>, what: &str) -> Res {
    let sizes = |r: oak_visualize::Result<String>| {
        r.map_err(|e| e.to_string()).map(|s| {
            let mut names: Vec<String> = s.split('<').map(|p| p.split([' ', '>']).next().unwrap().to_string()).collect();
            names.sort();
            let mut texts: Vec<String> = s.split('<').filter_map(|p| p.split_once('>')).map(|p| p.1.trim().to_string()).collect();
            texts.sort();
            (names, texts)
        })
    };
    let (a, b) = (sizes(a), sizes(b));
    ensure_eq!(a, b, "picture", "{what}");
    Ok(())
}
/// What springs and repulsion may do to nodes that start on a circle of radius 100: `moves` says
/// whether there are springs, repulsion and rounds. (A regular polygon is no stable state: rounding
/// breaks it up when there are many corners.)
fn pushed(at: &[Point], links: &[(usize, usize)], (springs, repulsion, rounds): (bool, bool, bool), what: &dyn Fn() -> String) -> Res {
    let radius = |k: usize| at[k].distance_to(&Point::origin());
    let linked = |k: usize| links.iter().any(|(a, b)| a != b && (*a == k || *b == k));
    for k in 0..at.len() {
        let still = !rounds || (!repulsion && (!springs || !linked(k))) || at.len() == 1;
        if still {
            ensure!(near(radius(k), 100.0), "forces", "nothing moves {}, it is at {:?}, {}", id(k), at[k], what());
        }
        else if repulsion && (!springs || !(0..at.len()).any(linked)) {
            ensure!(radius(k) > 100.0 && (at.len() > 8 || (radius(k) - radius(0)).abs() < 1.0), "forces", "{} repelled by the others is at {:?}, {}", id(k), at[k], what());
        }
    }
    Ok(())
}
const DIRECTIONS: [LayoutDirection; 4] = [LayoutDirection::TopDown, LayoutDirection::BottomUp, LayoutDirection::LeftRight, LayoutDirection::RightLeft];
const KINDS: [NodeType; 4] = [NodeType::Enum, NodeType::Variable, NodeType::Default, NodeType::Function];
fn engines(g: &G, order: u64, cx: &mut Cx) -> Res {
    engines_with(g, order, &LayoutConfig::default(), None, cx)
}
fn engines_with(g: &G, order: u64, config: &LayoutConfig, strengths: Option<(f64, f64)>, cx: &mut Cx) -> Res {
    let size = |k: usize| [Size::default(), Size::new(300.0, 10.0), Size::new(0.0, 0.0), Size::new(7.0, 200.0)][k % 4];
    let mut nodes: Vec<LayoutNode> = (0..g.n).map(|k| LayoutNode::new(id(k).into(), format!("label {k}")).with_type(KINDS[k % 4]).with_size(size(k))).collect();
    if order == 1 {
        nodes.reverse()
    }
    let edges: Vec<LayoutEdge> = g
        .edges
        .iter()
        .enumerate()
        .map(|(k, (a, b))| {
            let e = LayoutEdge::new(id(*a).into(), id(*b).into()).with_type([EdgeType::Call, EdgeType::Default][k % 2]);
            if k % 2 == 1 { e.with_label(format!("e{k}")) } else { e }
        })
        .collect();
    let want: Vec<Want> = (0..g.n).map(|k| Want { id: id(k).into(), label: format!("label {k}"), kind: KINDS[k % 4], size: size(k) }).collect();
    let lines: Vec<_> = g.known().iter().map(|(k, (a, b))| (id(*a).to_string(), id(*b).to_string(), (k % 2 == 1).then(|| format!("e{k}")))).collect();
    let acyclic = !G { directed: true, ..g.clone() }.cyclic();
    for d in DIRECTIONS {
        let what = || format!("{d:?} of {g:?} order {order} {config:?}");
        let l = match HierarchicalLayout::new(d).layout(&nodes, &edges, config) {
            Ok(l) => l,
            Err(e) => return fail("layout", format!("{e}, {}", what())),
        };
        placed(&l, &want, &lines, &what, cx)?;
        apart(&l, &what)?;
        let margin = g.n == 0 || l.bounds.min_x() + 1e-6 > config.margin && l.bounds.min_y() + 1e-6 > config.margin;
        ensure!(margin, "margin", "bounds {:?}, {}", l.bounds, what());
        if acyclic {
            cx.nontrivial(!lines.is_empty());
            for (_, (a, b)) in g.known() {
                let (a, b) = (&l.nodes[id(a)].rect, &l.nodes[id(b)].rect);
                let e = 1e-6;
                let (v, h) = (config.vertical_spacing - e, config.horizontal_spacing - e);
                let ok = match d {
                    LayoutDirection::TopDown => a.max_y() + v < b.min_y(),
                    LayoutDirection::BottomUp => b.max_y() + v < a.min_y(),
                    LayoutDirection::LeftRight => a.max_x() + h < b.min_x(),
                    LayoutDirection::RightLeft => b.max_x() + h < a.min_x(),
                };
                ensure!(ok, "direction", "parent {a:?}, child {b:?}, {}", what());
            }
        }
    }
    for n in [0, 1, 100] {
        let what = || format!("force directed, {n} rounds, {g:?} order {order} {config:?} {strengths:?}");
        let mut engine = ForceDirectedLayout::new().with_iterations(n);
        if let Some((spring, repulsion)) = strengths {
            engine = engine.with_spring_strength(spring).with_repulsion_strength(repulsion)
        }
        let l = match engine.layout(&nodes, &edges, config) {
            Ok(l) => l,
            Err(e) => return fail("layout", format!("{e}, {}", what())),
        };
        placed(&l, &want, &lines, &what, cx)?;
        let at: Vec<Point> = (0..g.n).map(|k| l.nodes[id(k)].rect.center()).collect();
        let links: Vec<(usize, usize)> = g.known().into_iter().map(|(_, e)| e).collect();
        let (spring, repulsion) = strengths.unwrap_or((0.1, 1000.0));
        pushed(&at, &links, (spring != 0.0, repulsion > 0.0, n > 0), &what)?;
        // what one node does to another the other does to it
        if g.n > 1 {
            let far = at.iter().map(|p| p.distance_to(&Point::origin())).fold(1.0, f64::max);
            let sum = at.iter().fold(Point::origin(), |a, b| a + *b);
            ensure!(sum.distance_to(&Point::origin()) < far * 1e-6, "forces", "all nodes together moved to {sum:?}, {}", what());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- trees
/// Trees of exactly `n` nodes, as the parent of every node but the first.
fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, path: &mut Vec<usize>, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        let k = p.len() + 1;
        if k == n {
            return out.push(p.clone());
        }
        for d in (0..path.len()).rev() {
            let cut: Vec<usize> = path[d + 1..].to_vec();
            path.truncate(d + 1);
            p.push(path[d]);
            path.push(k);
            go(n, path, p, out);
            path.pop();
            p.pop();
            path.extend(cut);
        }
    }
    let mut out = Vec::new();
    if n > 0 {
        go(n, &mut vec![0], &mut vec![], &mut out);
    }
    out
}
fn tree_size(k: u64) -> Option<Size> {
    [None, Some(Size::new(300.0, 20.0)), Some(Size::new(1.0, 1.0))][k as usize]
}
fn tree_node(p: &[usize], sizes: &[u64], k: usize) -> TreeNode {
    let mut t = TreeNode::new(format!("n{k}"), format!("label {k}"), TYPES[k % 4].into());
    if let Some(s) = tree_size(sizes[k]) {
        t = t.with_size(s)
    }
    let below = p.iter().enumerate().filter(|(_, q)| **q == k).map(|(c, _)| tree_node(p, sizes, c + 1));
    if k % 2 == 0 { below.fold(t, TreeNode::with_child) } else { t.with_children(below.collect()) }
}
fn trees(p: &[usize], sizes: &[u64], cx: &mut Cx) -> Res {
    trees_with(p, sizes, &TreeLayoutConfig::default(), cx)
}
fn trees_with(p: &[usize], sizes: &[u64], config: &TreeLayoutConfig, cx: &mut Cx) -> Res {
    let n = p.len() + 1;
    let t = tree_node(p, sizes, 0);
    let mut depth = vec![0; n];
    for k in 1..n {
        depth[k] = depth[p[k - 1]] + 1
    }
    ensure_eq!(t.node_count(), n, "count", "{p:?}");
    ensure_eq!(t.depth(), depth.iter().max().unwrap() + 1, "depth", "{p:?}");
    ensure_eq!(t.leaf_count(), (0..n).filter(|k| !p.contains(k)).count(), "leaves", "{p:?}");
    ensure_eq!(t.is_leaf(), n == 1, "leaves", "{p:?}");
    let plain = Size::new(config.node_width, config.node_height);
    let level = config.level_distance;
    let nodes: Vec<Want> = (0..n).map(|k| Want { id: format!("n{k}"), label: format!("label {k}"), kind: node_type(k % 4), size: tree_size(sizes[k]).unwrap_or(plain) }).collect();
    let edges: Vec<_> = p.iter().enumerate().map(|(c, q)| (format!("n{q}"), format!("n{}", c + 1), None)).collect();
    use TreeLayoutAlgorithm as A;
    for alg in [A::Layered, A::Radial, A::Compact, A::Balloon] {
        let what = || format!("{alg:?} of {p:?} sizes {sizes:?} {config:?}");
        let l = match TreeLayout::new().with_algorithm(alg).with_config(config.clone()).layout_tree(&t) {
            Ok(l) => l,
            Err(e) => return fail("layout", format!("{e}, {}", what())),
        };
        placed(&l, &nodes, &edges, &what, cx)?;
        let rect = |k: usize| l.nodes[&format!("n{k}")].rect;
        match alg {
            A::Layered | A::Compact => {
                for k in 0..n {
                    ensure!(near(rect(k).origin.y, level * depth[k] as f64), "level", "n{k} is at {:?}, {}", rect(k), what());
                }
                apart(&l, &what)?;
                // in reading order on every level
                for a in 0..n {
                    for b in a + 1..n {
                        if depth[a] == depth[b] {
                            ensure!(rect(a).min_x() < rect(b).min_x(), "order", "n{a} {:?} and n{b} {:?}, {}", rect(a), rect(b), what());
                        }
                    }
                }
            }
            A::Radial | A::Balloon => {
                for k in 1..n {
                    let far = rect(k).center().distance_to(&rect(p[k - 1]).center());
                    let want = if alg == A::Radial { level * depth[k] as f64 } else { level * 0.6f64.powi(depth[k] as i32 - 1) };
                    ensure!(near(far, want), "radius", "n{k} is {far} away, not {want}, {}", what());
                }
                // brothers do not sit on each other
                for a in 1..n {
                    for b in a + 1..n {
                        if p[a - 1] == p[b - 1] && depth[a] < 20 {
                            ensure!(rect(a).center().distance_to(&rect(b).center()) > 1e-6, "overlap", "n{a} and n{b}, {}", what());
                        }
                    }
                }
            }
        }
        cx.state(&format!("{alg:?}{p:?}"));
    }
    cx.nontrivial(n > 2);
    Ok(())
}
/// The picture of a syntax tree has its shape and names.
fn syntax(p: &[toy::Tk], cx: &mut Cx) -> Res {
    fn same(v: &TreeNode, t: &toy::Tree, ids: &mut BTreeSet<String>) -> Res {
        ensure!(ids.insert(v.id.clone()), "id", "{} twice", v.id);
        match t {
            toy::Tree::Leaf(k, _) => ensure_eq!((v.label.clone(), v.node_type.as_str(), v.children.len()), (format!("{k:?}"), "leaf", 0), "leaf", "{t:?}"),
            toy::Tree::Node(k, c) => {
                ensure_eq!((v.label.clone(), v.node_type.as_str(), v.children.len()), (format!("{k:?}"), "node", c.len()), "node", "{t:?}");
                for (v, t) in v.children.iter().zip(c) {
                    same(v, t, ids)?
                }
            }
        }
        Ok(())
    }
    let t = toy::tree(toy::N::Root, p);
    let arena = SyntaxArena::default();
    let green = toy::root(&arena, &t);
    let red = oak_core::tree::RedNode::new(green, 3);
    let g = oak_core::GreenTree::Node(green);
    let mut ids = BTreeSet::new();
    same(&TreeNode::from(&g), &t, &mut ids)?;
    same(&TreeNode::from(oak_core::RedTree::Node(red)), &t, &mut ids)?;
    for svg in [to_svg(&g), to_svg(&oak_core::RedTree::Node(red))] {
        let n = p.iter().filter(|x| !matches!(x, toy::Tk::End)).count() + 1;
        match svg {
            Ok(s) => {
                ensure_eq!(s.matches("<rect").count(), n + 1, "picture", "boxes of {t:?}");
                ensure_eq!(s.matches("<text").count(), n, "picture", "labels of {t:?}");
                ensure_eq!(s.matches("<path").count(), n - 1, "picture", "lines of {t:?}");
            }
            Err(e) => return fail("picture", format!("{e} for {t:?}")),
        }
    }
    cx.steps(2);
    cx.execs(2);
    cx.state(&ids.len());
    Ok(())
}

// ---------------------------------------------------------------- geometry
fn rects(r: i64) -> Vec<Rect> {
    let mut v = Vec::new();
    for x in 0..r {
        for y in 0..r {
            for w in 0..r - x {
                for h in 0..r - y {
                    v.push(Rect::from_xywh(x as f64 - 1.0, y as f64 - 1.0, w as f64, h as f64))
                }
            }
        }
    }
    v
}
fn points(r: i64) -> Vec<Point> {
    (0..r * 2 + 1).flat_map(|x| (0..r * 2 + 1).map(move |y| Point::new(x as f64 / 2.0 - 1.5, y as f64 / 2.0 - 1.5))).collect()
}
fn inside(r: &Rect, p: &Point) -> bool {
    r.origin.x <= p.x && p.x <= r.origin.x + r.size.width && r.origin.y <= p.y && p.y <= r.origin.y + r.size.height
}
fn geometry(a: &Rect, b: &Rect, all: &[Point], cx: &mut Cx) -> Res {
    let common = all.iter().any(|p| inside(a, p) && inside(b, p));
    ensure_eq!(a.intersects(b), common, "intersects", "{a:?} {b:?}");
    let u = a.union(b);
    for p in all {
        ensure_eq!(a.contains_point(*p), inside(a, p), "contains", "{a:?} {p:?}");
        ensure!(inside(&u, p) || !inside(a, p) && !inside(b, p), "union", "{a:?} {b:?} misses {p:?}");
        let wide = a.expand(0.5);
        let reach = all.iter().any(|q| inside(a, q) && (q.x - p.x).abs() <= 0.5 && (q.y - p.y).abs() <= 0.5);
        ensure_eq!(wide.contains_point(*p), reach, "expand", "{a:?} {p:?}");
        cx.steps(3);
    }
    let at = |x: f64, y: f64| Point::new(x, y);
    let (l, t, r, m) = (u.min_x(), u.min_y(), u.max_x(), u.max_y());
    let tight = [a, b].iter().any(|q| q.min_x() == l) && [a, b].iter().any(|q| q.min_y() == t) && [a, b].iter().any(|q| q.max_x() == r) && [a, b].iter().any(|q| q.max_y() == m);
    ensure!(tight, "union", "{a:?} {b:?} gives {u:?}");
    ensure_eq!(a.union(b), b.union(a), "union", "order of {a:?} {b:?}");
    for (p, q) in [(a.top_left(), a.bottom_right()), (a.bottom_left(), a.top_right()), (a.bottom_right(), a.top_left()), (a.top_right(), a.bottom_left())] {
        ensure_eq!(Rect::from_points(p, q), *a, "corners", "{a:?}");
    }
    ensure_eq!([a.top_left(), a.top_right(), a.bottom_left(), a.bottom_right()], [at(a.x(), a.y()), at(a.x() + a.width(), a.y()), at(a.x(), a.y() + a.height()), at(a.x() + a.width(), a.y() + a.height())], "corners", "{a:?}");
    let c = a.center();
    ensure!(near(c.x - a.min_x(), a.max_x() - c.x) && near(c.y - a.min_y(), a.max_y() - c.y), "center", "{a:?}");
    let moved = a.translate(2.0, -3.0);
    ensure_eq!((moved.min_x() - 2.0, moved.min_y() + 3.0, moved.size), (a.min_x(), a.min_y(), a.size), "translate", "{a:?}");
    let z = a.size;
    ensure_eq!((z.area(), Size::square(z.width)), (a.width() * a.height(), Size::new(a.width(), a.width())), "size", "{a:?}");
    ensure!(if z.height == 0.0 { z.aspect_ratio() == f64::INFINITY } else { near(z.aspect_ratio() * z.height, z.width) }, "size", "ratio of {z:?} is {}", z.aspect_ratio());
    for k in [0.0, 0.5, 1.0, 3.0] {
        let g = a.scale(k);
        ensure_eq!((z.scale(k), z.scale_xy(k, 2.0), z.scale_xy(2.0, k)), (Size::new(z.width * k, z.height * k), Size::new(z.width * k, z.height * 2.0), Size::new(z.width * 2.0, z.height * k)), "scale", "{z:?} by {k}");
        ensure_eq!(g, Rect::from_points(a.top_left().scale(k), a.bottom_right().scale(k)), "scale", "{a:?} by {k}");
        for p in all {
            ensure_eq!((p.scale(k), Transform::scale(k, 2.0).transform_point(*p), Transform::scale(2.0, k).transform_point(*p)), (at(p.x * k, p.y * k), at(p.x * k, p.y * 2.0), at(p.x * 2.0, p.y * k)), "scale", "{p:?} by {k}");
            ensure!(!inside(a, p) || g.contains_point(p.scale(k)), "scale", "{p:?} of {a:?} by {k}");
        }
    }
    for p in all {
        let to = *p + a.origin;
        ensure_eq!((to, to - a.origin, to - *p), (at(p.x + a.x(), p.y + a.y()), *p, a.origin), "add", "{p:?} {a:?}");
        ensure_eq!((p.translate(a.x(), a.y()), Transform::translate(a.x(), a.y()).transform_point(*p), Transform::identity().transform_point(*p)), (to, to, *p), "translate", "{p:?} {a:?}");
    }
    cx.exec();
    Ok(())
}
fn transforms() -> Vec<Transform> {
    let mut v = vec![Transform::identity()];
    for (x, y) in [(2.0, -3.0), (0.5, 4.0), (-1.0, 0.0)] {
        v.push(Transform::translate(x, y));
        v.push(Transform::scale(x, y));
    }
    for k in 1..8 {
        v.push(Transform::rotate(k as f64 * std::f64::consts::PI / 4.0))
    }
    v
}
fn turned(i: &[usize], cx: &mut Cx) -> Res {
    let all = transforms();
    let one = i.iter().fold(Transform::identity(), |t, k| t.compose(&all[*k]));
    for p in points(3) {
        let want = i.iter().fold(p, |p, k| all[*k].transform_point(p));
        let got = one.transform_point(p);
        ensure!(near(got.x, want.x) && near(got.y, want.y), "compose", "{i:?} of {p:?} is {got:?}, one after the other {want:?}");
        cx.step();
    }
    if let [k] = i {
        let (t, p) = (&all[*k], Point::new(3.0, 4.0));
        let q = t.transform_point(p);
        if (7..).contains(k) {
            let angle = (*k - 6) as f64 * std::f64::consts::PI / 4.0;
            ensure!(near(q.distance_to(&Point::origin()), 5.0), "rotate", "{t:?}");
            ensure!(near((q.y.atan2(q.x) - p.y.atan2(p.x)).rem_euclid(std::f64::consts::TAU), angle), "rotate", "{t:?} by {angle}");
        }
    }
    cx.exec();
    cx.state(&format!("{one:?}"));
    Ok(())
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let mut out: Vec<Box<dyn Space>> = Vec::new();
    // edge lists of up to m edges over n nodes and an unknown one
    fn listed(i: u64, m: u32) -> G {
        let directed = i % 2 == 0;
        let n = (i / 2 % 5) as usize;
        // the last id is no node
        let pick = |k: u64| if k as usize == 3.max(n) { 4 } else { k as usize };
        let w = 3.max(n) as u64 + 1;
        let v = seq::nth(w * w, m, (i / 10) % seq::count_upto(w * w, m));
        G { n, edges: v.into_iter().map(|e| (pick(e as u64 / w), pick(e as u64 % w))).collect(), directed }
    }
    let m = t.pick(4, 5);
    let total = 10 * seq::count_upto(25, m);
    let real = move |i: u64| {
        // the smaller graphs have fewer lists: do not repeat them
        let n = (i / 2 % 5).max(3);
        i / 10 < seq::count_upto((n + 1) * (n + 1), m)
    };
    out.push(space(&format!("questions to graphs with up to {m} edges"), total, move |i| format!("{:?}", listed(i, m)), move |i, cx| if real(i) { questions(&listed(i, m), cx) } else { Ok(()) }));
    let m2 = t.pick(2, 3);
    let total = 10 * seq::count_upto(25, m2);
    let real2 = move |i: u64| i / 10 < seq::count_upto(((i / 2 % 5).max(3) + 1) * ((i / 2 % 5).max(3) + 1), m2);
    out.push(space(
        &format!("layouts of graphs with up to {m2} edges"),
        total * 4,
        move |i| format!("sized {} iterations {} {:?}", i % 2, i / 2 % 2 * 100, listed(i / 4, m2)),
        move |i, cx| if real2(i / 4) { graph_layouts(&listed(i / 4, m2), i % 2 == 1, (i / 2 % 2) as usize * 100, cx) } else { Ok(()) },
    ));
    let m3 = t.pick(3, 4);
    let total = 10 * seq::count_upto(25, m3);
    let real3 = move |i: u64| i % 2 == 0 && i / 10 < seq::count_upto(((i / 2 % 5).max(3) + 1) * ((i / 2 % 5).max(3) + 1), m3);
    out.push(space(&format!("engines on graphs with up to {m3} edges"), total * 2, move |i| format!("order {} {:?}", i % 2, listed(i / 2, m3)), move |i, cx| if real3(i / 2) { engines(&listed(i / 2, m3), i % 2, cx) } else { Ok(()) }));
    // every set of edges over three (four) nodes
    let n = t.pick(3usize, 4);
    let dense = move |i: u64| G { n, edges: (0..n * n).filter(|k| i / 2 >> k & 1 == 1).map(|k| (k / n, k % n)).collect(), directed: i % 2 == 0 };
    out.push(space(
        &format!("all graphs of {n} nodes"),
        2 << (n * n),
        move |i| format!("{:?}", dense(i)),
        move |i, cx| {
            let g = dense(i);
            questions(&g, cx)?;
            graph_layouts(&g, false, if n == 3 { 100 } else { 10 }, cx)?;
            if g.directed { engines(&g, 0, cx) } else { Ok(()) }
        },
    ));
    let k = t.pick(6, 7);
    let all: std::sync::Arc<Vec<Vec<usize>>> = std::sync::Arc::new((1..=k).flat_map(shapes).collect());
    let p3 = 3u64.pow(k as u32);
    let a2 = all.clone();
    out.push(space(
        &format!("trees of up to {k} nodes of three sizes"),
        all.len() as u64 * p3,
        move |i| format!("{:?} {:?}", all[(i / p3) as usize], seq::digits(&vec![3; k], i % p3)),
        move |i, cx| {
            let p = &a2[(i / p3) as usize];
            let s = seq::digits(&vec![3; k], i % p3);
            if s[p.len() + 1..].iter().any(|d| *d > 0) { Ok(()) } else { trees(p, &s, cx) }
        },
    ));
    let k = t.pick(10, 11);
    let big: std::sync::Arc<Vec<Vec<usize>>> = std::sync::Arc::new((1..=k).flat_map(shapes).collect());
    let b2 = big.clone();
    out.push(space(&format!("trees of up to {k} nodes"), big.len() as u64, move |i| format!("{:?}", big[i as usize]), move |i, cx| trees(&b2[i as usize], &vec![0; k], cx)));
    let syn = std::sync::Arc::new(toy::forests_upto(&[(toy::T::Name, "a"), (toy::T::Role(oak_core::language::UniversalTokenRole::Operator), "+"), (toy::T::Blank, "")], &[toy::N::Def, toy::N::Plain], t.pick(6, 7)));
    let s2 = syn.clone();
    out.push(space("pictures of syntax trees", syn.len() as u64, move |i| toy::show(&syn[i as usize]), move |i, cx| syntax(&s2[i as usize], cx)));
    // configurations: every graph of up to three nodes and tree of up to five
    let graphs: std::sync::Arc<Vec<G>> = std::sync::Arc::new((0..=3usize).flat_map(|n| (0..1u32 << (n * n)).map(move |m| G { n, edges: (0..n * n).filter(|k| m >> k & 1 == 1).map(|k| (k / n, k % n)).collect(), directed: true })).collect());
    let lcs: Vec<(LayoutConfig, Option<(f64, f64)>)> = [(0.0, 0.0, 0.0), (1.0, 0.0, 5.0), (0.0, 7.0, 0.5), (200.0, 3.0, 100.0)]
        .iter()
        .flat_map(|(h, v, m)| [None, Some((0.0, 0.0)), Some((0.0, 1000.0)), Some((0.1, 0.0)), Some((0.02, 50.0))].map(|s| (LayoutConfig { horizontal_spacing: *h, vertical_spacing: *v, margin: *m, ..LayoutConfig::default() }, s)))
        .collect();
    let (g2, n) = (graphs.clone(), graphs.len() as u64);
    out.push(space("configured engines", n * lcs.len() as u64, move |i| format!("configuration {} {:?}", i / n, graphs[(i % n) as usize]), move |i, cx| {
        let (c, s) = &lcs[(i / n) as usize];
        engines_with(&g2[(i % n) as usize], i % 2, c, *s, cx)
    }));
    let d = GraphLayoutConfig::default;
    let gcs = vec![
        GraphLayoutConfig { node_width: 5.0, node_height: 70.0, ..d() },
        GraphLayoutConfig { node_spacing: 0.0, layer_distance: 45.0, iterations: 1, ..d() },
        GraphLayoutConfig { circle_radius: 3.0, spring_strength: 0.0, ..d() },
        GraphLayoutConfig { repulsion_strength: 0.0, node_spacing: 100.0, ..d() },
        GraphLayoutConfig { repulsion_strength: 0.0, spring_strength: 0.0, ..d() },
        GraphLayoutConfig { spring_strength: 0.0, max_velocity: 0.25, iterations: 3, ..d() },
        GraphLayoutConfig { ideal_edge_length: 1.0, damping: 0.0, node_width: 300.0, ..d() },
    ];
    let graphs: std::sync::Arc<Vec<G>> = std::sync::Arc::new((0..n).map(|i| (0..=3usize).flat_map(|n| (0..1u32 << (n * n)).map(move |m| (n, m))).nth(i as usize).unwrap()).map(|(n, m)| G { n, edges: (0..n * n).filter(|k| m >> k & 1 == 1).map(|k| (k / n, k % n)).collect(), directed: m % 2 == 0 }).collect());
    let g2 = graphs.clone();
    out.push(space("configured graph layouts", n * 2 * gcs.len() as u64, move |i| format!("configuration {} sized {} {:?}", i / n / 2, i / n % 2, graphs[(i % n) as usize]), move |i, cx| graph_layouts_with(&g2[(i % n) as usize], i / n % 2 == 1, &gcs[(i / n / 2) as usize], cx)));
    let d = TreeLayoutConfig::default;
    let tcs = vec![TreeLayoutConfig { node_width: 3.0, node_height: 9.0, ..d() }, TreeLayoutConfig { level_distance: 200.0, sibling_distance: 0.0, ..d() }, TreeLayoutConfig { level_distance: 41.0, sibling_distance: 1.0, subtree_distance: 0.0, ..d() }, TreeLayoutConfig { node_width: 500.0, sibling_distance: 100.0, ..d() }];
    let k = t.pick(6, 7);
    let all: std::sync::Arc<Vec<Vec<usize>>> = std::sync::Arc::new((1..=k).flat_map(shapes).collect());
    let (a2, n, c) = (all.clone(), all.len() as u64, tcs.len() as u64);
    out.push(space("configured tree layouts", n * c * 3, move |i| format!("configuration {} sized {} {:?}", i / n % c, i / n / c, all[(i % n) as usize]), move |i, cx| {
        let p = &a2[(i % n) as usize];
        trees_with(p, &(0..=p.len() as u64).map(|k| (k + 1) * (i / n / c) % 3).collect::<Vec<_>>(), &tcs[(i / n % c) as usize], cx)
    }));
    let all: std::sync::Arc<Vec<Vec<usize>>> = std::sync::Arc::new((1..=t.pick(5, 6)).flat_map(shapes).collect());
    let a2 = all.clone();
    out.push(space("pictures of trees and graphs", all.len() as u64 * 3, move |i| format!("sized {} {:?}", i % 3, all[i as usize / 3]), move |i, cx| {
        let p = &a2[i as usize / 3];
        let t = tree_node(p, &(0..=p.len() as u64).map(|k| (k + 1) * (i % 3) % 3).collect::<Vec<_>>(), 0);
        let g = G { n: p.len() + 1, edges: p.iter().enumerate().map(|(c, q)| (*q, c + 1)).collect(), directed: i % 2 == 0 };
        drawn(&g.build(i % 3 > 0), &t, cx)
    }));
    let r = t.pick(5, 6);
    let n = rects(r).len() as u64;
    out.push(space("rectangles", n * n, move |i| format!("{:?} {:?}", rects(r)[(i / n) as usize], rects(r)[(i % n) as usize]), move |i, cx| {
        let all = rects(r);
        geometry(&all[(i / n) as usize], &all[(i % n) as usize], &points(r + 1), cx)
    }));
    let d = t.pick(4, 5);
    let n = transforms().len();
    out.push(space("transformations", seq::count_upto(n as u64, d), move |i| format!("{:?}", seq::nth(n as u64, d, i)), move |i, cx| turned(&seq::nth(n as u64, d, i), cx)));
    let ns = seq::sizes(t.pick(24, 40), t.pick(128, 256));
    let n2 = ns.clone();
    const LARGE: [&str; 9] = ["no edges", "a chain", "a ring", "out of one", "into one", "two halves, crossed", "a binary tree", "layers of two", "edges to nowhere"];
    out.push(space("large graphs", 9 * ns.len() as u64, move |i| format!("{} nodes, {}", n2[i as usize / 9], LARGE[i as usize % 9]), move |i, cx| {
        let n = ns[i as usize / 9] as usize;
        let edges: Vec<(usize, usize)> = match i % 9 {
            0 => vec![],
            1 => (1..n).map(|k| (k - 1, k)).collect(),
            2 => (0..n).map(|k| (k, (k + 1) % n)).collect(),
            3 => (1..n).map(|k| (0, k)).collect(),
            4 => (1..n).map(|k| (k, 0)).collect(),
            5 => (0..n / 2).map(|k| (k, n / 2 + k * 7 % (n / 2))).collect(),
            6 => (1..n).map(|k| ((k - 1) / 2, k)).collect(),
            // as many ways from the first layer to the last as subsets of the layers
            7 => (0..n).flat_map(|k| [k - k % 2 + 2, k - k % 2 + 3].map(|c| (k, c))).filter(|(_, c)| *c < n).collect(),
            _ => (0..n).map(|k| (k, n + 5)).collect(),
        };
        for directed in [true, false] {
            let g = G { n, edges: edges.clone(), directed };
            questions(&g, cx)?;
            graph_layouts(&g, directed, if n < 40 { 20 } else { 2 }, cx)?;
        }
        if n < 70 { engines(&G { n, edges, directed: true }, i % 2, cx) } else { Ok(()) }
    }));
    let ns = seq::sizes(t.pick(40, 70), t.pick(128, 256));
    let n2 = ns.clone();
    out.push(space("large trees", 5 * ns.len() as u64, move |i| format!("{} nodes, {}", n2[i as usize / 5], ["a chain", "a star", "two chains", "a binary tree", "a comb"][i as usize % 5]), move |i, cx| {
        let n = ns[i as usize / 5] as usize;
        if n == 0 {
            return Ok(());
        }
        // numbered in reading order
        let p: Vec<usize> = match i % 5 {
            0 => (0..n - 1).collect(),
            1 => vec![0; n - 1],
            2 => (1..n).map(|k| if k == n / 2 { 0 } else { k - 1 }).collect(),
            3 => {
                fn halves(at: usize, n: usize, p: &mut Vec<usize>) {
                    let left = (n - 1).div_ceil(2);
                    for (m, from) in [(left, at + 1), (n - 1 - left, at + 1 + left)] {
                        if m > 0 {
                            p[from - 1] = at;
                            halves(from, m, p)
                        }
                    }
                }
                let mut p = vec![0; n - 1];
                halves(0, n, &mut p);
                p
            }
            _ => (1..n).map(|k| (k - 1) / 2 * 2).collect(),
        };
        trees(&p, &(0..n as u64).map(|k| if n % 2 == 0 { 0 } else { k % 3 }).collect::<Vec<_>>(), cx)?;
        let toks = toy::shape(&[(toy::T::Name, "a"), (toy::T::Blank, "")], &[toy::N::Def, toy::N::Plain], n, i as usize % 4);
        syntax(&toks, cx)
    }));
    out
}
