use crate::T;
use oak_visualize::{
    geometry::{Point, Rect, Size, Transform},
    graph::{Graph, GraphEdge, GraphLayout, GraphLayoutAlgorithm, GraphNode},
    layout::{ForceDirectedLayout, HierarchicalLayout, Layout, LayoutConfig, LayoutDirection, LayoutEdge, LayoutEngine, LayoutNode, NodeType},
    tree::{TreeLayout, TreeLayoutAlgorithm, TreeNode},
};

// ---- P26 ----
const IDS: [&str; 4] = ["a", "b", "c", "unknown"];
const LABELS: [&str; 4] = ["A", "B", "C", ""];
const KINDS: [&str; 3] = ["function", "struct", "module"];
fn kind(i: usize) -> NodeType {
    [NodeType::Function, NodeType::Struct, NodeType::Module][i]
}
/// Two different ends in any order, or a loop.
fn edges(n: usize, max: usize) -> Vec<(usize, usize)> {
    (0..vx::choose(max as u64 + 1)).map(|_| (vx::choose(n as u64), vx::choose(if n < 3 { n as u64 } else { 4 }))).collect()
}
fn graph(n: usize, edges: &[(usize, usize)], directed: bool) -> Graph {
    let mut g = Graph::new(directed);
    for i in 0..n {
        let mut node = GraphNode::new(IDS[i].into(), LABELS[i].into()).with_type(KINDS[i].into());
        if i == 1 {
            node = node.with_size(Size::new(7.0, 9.0));
        }
        g.add_node(node);
    }
    for (i, (a, b)) in edges.iter().enumerate() {
        let mut e = GraphEdge::new(IDS[*a].into(), IDS[*b].into());
        if i == 0 {
            e = e.with_label("L".into());
        }
        g.add_edge(e);
    }
    g
}
/// Connected components over the nodes 0..n.
fn component(n: usize, edges: &[(usize, usize)]) -> Vec<usize> {
    let mut c: Vec<usize> = (0..n).collect();
    for _ in 0..n {
        for (a, b) in edges {
            if *a < n && *b < n {
                let m = c[*a].min(c[*b]);
                c[*a] = m;
                c[*b] = m;
            }
        }
    }
    c
}
/// P26: questions about graphs.
#[unsafe(no_mangle)]
pub extern "C" fn h_graph() {
    let n = vx::choose(4);
    let directed = vx::flag();
    let edges = if n == 0 { Vec::new() } else { edges(n, if T { 5 } else { 4 }) };
    let g = graph(n, &edges, directed);
    let comps = component(n, &edges);
    assert!(g.is_connected() == comps.iter().all(|c| *c == 0), "connected");
    for i in 0..n {
        let mut want: Vec<&str> = Vec::new();
        for (a, b) in &edges {
            if *a == i {
                want.push(IDS[*b]);
            }
            if !directed && *b == i {
                want.push(IDS[*a]);
            }
        }
        let mut got = g.get_neighbors(IDS[i]);
        assert!(g.get_degree(IDS[i]) == got.len(), "degree");
        want.sort();
        got.sort();
        assert!(got == want, "neighbours");
    }
    let cycles = g.find_cycles();
    let cyclic = if directed {
        // a closed walk of some length
        let mut reach = [[false; 4]; 4];
        for (a, b) in &edges {
            reach[*a][*b] = true;
        }
        for k in 0..4 {
            for i in 0..4 {
                for j in 0..4 {
                    reach[i][j] |= reach[i][k] & reach[k][j];
                }
            }
        }
        (0..4).any(|i| reach[i][i])
    } else {
        // more edges than a forest over the same parts has
        let used = if edges.iter().any(|e| e.1 == 3) { 4 } else { n };
        let c = component(used.max(n), &edges);
        let parts = (0..c.len()).filter(|i| c[*i] == *i).count();
        edges.len() > c.len() - parts
    };
    assert!(cycles.is_empty() != cyclic, "cycles");
    for c in &cycles {
        assert!(!c.is_empty(), "empty cycle");
        for (i, a) in c.iter().enumerate() {
            let b = &c[(i + 1) % c.len()];
            assert!(g.get_neighbors(a).contains(&b.as_str()), "a cycle that is none");
            assert!(c.iter().filter(|x| *x == a).count() == 1, "a node twice in a cycle");
        }
    }
    vx::cover(if cyclic { 1 } else { 2 });
}
fn finite(l: &Layout) {
    for n in l.nodes.values() {
        let r = &n.rect;
        assert!(r.origin.x.is_finite() && r.origin.y.is_finite() && r.size.width.is_finite() && r.size.height.is_finite(), "position");
        assert!(l.bounds.origin.x <= r.origin.x && l.bounds.origin.y <= r.origin.y, "bounds");
        assert!(l.bounds.max_x() >= r.max_x() - 1e-6 && l.bounds.max_y() >= r.max_y() - 1e-6, "bounds");
    }
    for e in &l.edges {
        assert!(e.points.len() >= 2 && e.points.iter().all(|p| p.x.is_finite() && p.y.is_finite()), "edge is not drawn");
        let (f, t) = (&l.nodes[&e.from], &l.nodes[&e.to]);
        let (p, q) = (e.points[0], e.points[e.points.len() - 1]);
        for (r, p) in [(&f.rect, p), (&t.rect, q)] {
            assert!(p.x >= r.min_x() - 1e-6 && p.x <= r.max_x() + 1e-6 && p.y >= r.min_y() - 1e-6 && p.y <= r.max_y() + 1e-6, "edge does not end at its node");
        }
    }
}
fn has_edges(l: &Layout, n: usize, edges: &[(usize, usize)]) {
    let mut want: Vec<(&str, &str, Option<&str>)> = Vec::new();
    for (i, (a, b)) in edges.iter().enumerate() {
        if *a < n && *b < n {
            want.push((IDS[*a], IDS[*b], if i == 0 { Some("L") } else { None }));
        }
    }
    let mut got: Vec<(&str, &str, Option<&str>)> = l.edges.iter().map(|e| (e.from.as_str(), e.to.as_str(), e.label.as_deref())).collect();
    want.sort();
    got.sort();
    assert!(got == want, "edges of the layout");
}
fn has_nodes(l: &Layout, n: usize, other: Size) {
    assert!(l.nodes.len() == n, "nodes of the layout");
    for i in 0..n {
        let p = l.nodes.get(IDS[i]).expect("node is missing");
        assert!(p.id == IDS[i] && p.label == LABELS[i] && p.node_type == kind(i), "label or type of a node");
        let size = if i == 1 { Size::new(7.0, 9.0) } else { other };
        assert!(p.rect.size == size, "size of a node");
    }
    finite(l);
}
/// Layered: an edge of an acyclic graph leads to a lower layer.
fn layered(l: &Layout, n: usize, edges: &[(usize, usize)]) {
    let mut reach = [[false; 4]; 4];
    for (a, b) in edges {
        reach[*a][*b] |= *b < n;
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                reach[i][j] |= reach[i][k] & reach[k][j];
            }
        }
    }
    if (0..n).any(|i| reach[i][i]) {
        return;
    }
    for (a, b) in edges {
        if *b < n {
            assert!(l.nodes[IDS[*a]].rect.origin.y < l.nodes[IDS[*b]].rect.origin.y, "layer");
        }
    }
    vx::cover(2);
}
fn apart(l: &Layout) {
    let v: Vec<_> = l.nodes.values().collect();
    for (i, a) in v.iter().enumerate() {
        for b in &v[i + 1..] {
            let o = a.rect.min_x() < b.rect.max_x() && b.rect.min_x() < a.rect.max_x() && a.rect.min_y() < b.rect.max_y() && b.rect.min_y() < a.rect.max_y();
            assert!(!o, "nodes on top of each other");
        }
    }
}
/// P26: layouts of graphs.
#[unsafe(no_mangle)]
pub extern "C" fn h_graph_layout() {
    let n = vx::choose(4);
    let edges = if n == 0 { Vec::new() } else { edges(n, if T { 5 } else { 4 }) };
    let g = graph(n, &edges, true);
    let k = vx::choose(5);
    let a = [GraphLayoutAlgorithm::ForceDirected, GraphLayoutAlgorithm::Circular, GraphLayoutAlgorithm::Hierarchical, GraphLayoutAlgorithm::Grid, GraphLayoutAlgorithm::Organic][k];
    let l = GraphLayout::new().with_algorithm(a).with_iterations(2).layout_graph(&g).expect("layout");
    has_nodes(&l, n, Size::new(80.0, 40.0));
    has_edges(&l, n, &edges);
    if k == 2 {
        layered(&l, n, &edges);
    }
    if (1..4).contains(&k) {
        apart(&l);
    }
    vx::cover(1);
}
/// P26: layout engines.
#[unsafe(no_mangle)]
pub extern "C" fn h_engine_layout() {
    let n = vx::choose(4);
    let edges = if n == 0 { Vec::new() } else { edges(n, if T { 5 } else { 4 }) };
    let nodes: Vec<_> = (0..n)
        .map(|i| {
            let node = LayoutNode::new(IDS[i].into(), LABELS[i].into()).with_type(kind(i));
            if i == 1 { node.with_size(Size::new(7.0, 9.0)) } else { node }
        })
        .collect();
    let wires: Vec<_> = edges
        .iter()
        .enumerate()
        .map(|(i, (a, b))| {
            let e = LayoutEdge::new(IDS[*a].into(), IDS[*b].into());
            if i == 0 { e.with_label("L".into()) } else { e }
        })
        .collect();
    let c = LayoutConfig::default();
    let k = vx::choose(5);
    let l = match k {
        0 => ForceDirectedLayout::new().with_iterations(2).layout(&nodes, &wires, &c),
        k => HierarchicalLayout::new([LayoutDirection::TopDown, LayoutDirection::BottomUp, LayoutDirection::LeftRight, LayoutDirection::RightLeft][k - 1]).layout(&nodes, &wires, &c),
    }
    .expect("layout");
    has_nodes(&l, n, Size::default());
    has_edges(&l, n, &edges);
    if k > 0 {
        apart(&l);
    }
    vx::cover(1);
}
/// A tree over the nodes with parents given.
fn build(i: usize, parents: &[usize], ids: &[String], small: bool) -> TreeNode {
    let mut t = TreeNode::new(ids[i].clone(), format!("label {}", i), KINDS[i % 3].into());
    if i == 1 && small {
        t = t.with_size(Size::new(7.0, 9.0));
    }
    for (c, p) in parents.iter().enumerate() {
        if *p == i && c > 0 {
            t = t.with_child(build(c, parents, ids, small));
        }
    }
    t
}
/// P26: layouts of trees.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_layout() {
    // what is chosen hangs below a chain of twelve nodes, or beside nine children, or stands alone
    let lead = vx::choose(3);
    let from = [1, 12, 10][lead];
    let more = 1 + vx::choose(if lead > 0 { if T { 4 } else { 3 } } else if T { 8 } else { 7 });
    let n = from + more - 1;
    let parents: Vec<usize> = (0..n)
        .map(|i| match i {
            0 => usize::MAX,
            i if i < from => [0, i - 1, 0][lead],
            i => vx::choose((i as u64).min(13)),
        })
        .collect();
    let ids: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    let small = vx::flag();
    let t = build(0, &parents, &ids, small);
    let mut depths = vec![1; n];
    for i in 1..n {
        depths[i] = depths[parents[i]] + 1;
    }
    let leaves = (0..n).filter(|i| !parents.contains(i)).count();
    assert!(t.depth() == *depths.iter().max().unwrap() && t.node_count() == n && t.leaf_count() == leaves && t.is_leaf() == (n == 1), "size of a tree");
    let k = vx::choose(4);
    let a = [TreeLayoutAlgorithm::Layered, TreeLayoutAlgorithm::Radial, TreeLayoutAlgorithm::Compact, TreeLayoutAlgorithm::Balloon][k];
    let l = TreeLayout::new().with_algorithm(a).layout_tree(&t).expect("layout");
    assert!(l.nodes.len() == n && l.edges.len() == n - 1, "nodes and edges of the layout");
    for i in 0..n {
        let p = l.nodes.get(&ids[i]).expect("node is missing");
        assert!(p.label == format!("label {}", i) && p.node_type == kind(i % 3), "label or type of a node");
        assert!(p.rect.size == if i == 1 && small { Size::new(7.0, 9.0) } else { Size::new(100.0, 40.0) }, "size of a node");
        if i > 0 {
            assert!(l.edges.iter().filter(|e| e.to == ids[i] && e.from == ids[parents[i]]).count() == 1, "edge to a child");
            let parent = &l.nodes[&ids[parents[i]]];
            if k == 0 || k == 2 {
                assert!(p.rect.origin.y > parent.rect.origin.y, "child above its parent");
            }
        }
    }
    finite(&l);
    if !small && (k == 0 || k == 2) {
        apart(&l);
    }
    vx::cover(1);
}
fn number(set: &[f64]) -> f64 {
    set[vx::choose(set.len() as u64)]
}
/// P32: rectangles and points.
#[unsafe(no_mangle)]
pub extern "C" fn h_rects() {
    let at: &[f64] = if T { &[-2.0, 0.0, 1.0, 3.0] } else { &[-2.0, 0.0, 1.0] };
    let len: &[f64] = &[0.0, 1.0, 2.5];
    let rect = || Rect::from_xywh(number(at), number(at), number(len), number(len));
    let (a, b) = (rect(), rect());
    let p = Point::new(number(&[-2.0, 0.5, 1.0, 3.5]), number(&[-2.0, 0.5, 1.0, 3.5]));
    let within = |r: &Rect, p: Point| r.origin.x <= p.x && p.x <= r.origin.x + r.size.width && r.origin.y <= p.y && p.y <= r.origin.y + r.size.height;
    assert!(a.contains_point(p) == within(&a, p), "point of a rectangle");
    // two rectangles have a point in common exactly when they share the corner both begin after
    let corner = Point::new(a.origin.x.max(b.origin.x), a.origin.y.max(b.origin.y));
    assert!(a.intersects(&b) == (within(&a, corner) && within(&b, corner)), "rectangles meet");
    assert!(a.intersects(&b) == b.intersects(&a));
    let u = a.union(&b);
    let corners = |r: &Rect| [r.top_left(), r.top_right(), r.bottom_left(), r.bottom_right()];
    assert!(corners(&a).iter().chain(&corners(&b)).all(|c| within(&u, *c)), "union holds both");
    // and is no larger than it must be
    let touches = |f: fn(&Rect) -> f64| f(&u) == f(&a) || f(&u) == f(&b);
    assert!(touches(Rect::min_x) && touches(Rect::min_y) && touches(Rect::max_x) && touches(Rect::max_y), "smallest union");
    let c = a.center();
    assert!(c.x - a.x() == a.max_x() - c.x && c.y - a.y() == a.max_y() - c.y, "centre");
    let n = Rect::from_points(a.bottom_left(), a.top_right());
    assert!(n == a && Rect::from_points(a.bottom_right(), a.top_left()) == a, "rectangle between corners");
    let d = p.x;
    let t = a.translate(d, p.y);
    assert!(t.size == a.size && t.origin == Point::new(a.origin.x + d, a.origin.y + p.y), "moved rectangle");
    let e = a.expand(d);
    assert!(e.center() == c && e.width() == a.width() + 2.0 * d && e.height() == a.height() + 2.0 * d, "grown rectangle");
    let s = a.scale(d);
    assert!(s.origin == a.origin.scale(d) && (s.width(), s.height()) == (a.width() * d, a.height() * d), "scaled rectangle");
    assert!(a.size.area() == a.width() * a.height() && a.size.scale_xy(d, p.y) == Size::new(a.width() * d, a.height() * p.y));
    vx::cover(if a.intersects(&b) { 1 } else { 2 });
}
/// P32: transformations.
#[unsafe(no_mangle)]
pub extern "C" fn h_transforms() {
    let set: &[f64] = if T { &[-2.0, 0.0, 1.0] } else { &[-2.0, 3.0] };
    let any = || Transform { a: number(set), b: number(set), c: number(set), d: number(set), e: number(set), f: number(set) };
    let (s, t) = (any(), if vx::flag() { Transform::scale(number(set), 5.0) } else if vx::flag() { Transform::translate(7.0, number(set)) } else if T { Transform { a: 2.0, b: 3.0, c: 5.0, d: 7.0, e: 11.0, f: 13.0 } } else { any() });
    let p = Point::new(1.0, number(&[0.0, 4.0]));
    let of = |t: &Transform, p: Point| Point::new(t.a * p.x + t.c * p.y + t.e, t.b * p.x + t.d * p.y + t.f);
    assert!(s.transform_point(p) == of(&s, p), "transformed point");
    assert!(s.compose(&t).transform_point(p) == of(&t, of(&s, p)), "one after the other");
    let id = Transform::identity();
    assert!(id.transform_point(p) == p && s.compose(&id) == s && id.compose(&s) == s && Transform::default() == id, "identity");
    let (x, y) = (s.e, s.f);
    assert!(Transform::translate(x, y).transform_point(p) == p.translate(x, y), "translation");
    assert!(Transform::scale(x, y).transform_point(p) == Point::new(p.x * x, p.y * y), "scaling");
    let r = Transform::rotate(0.0);
    assert!(r.transform_point(p) == p, "no rotation");
    // a quarter turn takes the first axis to the second
    let quarters = vx::choose(5);
    let turned = Transform::rotate(quarters as f64 * std::f64::consts::FRAC_PI_2).transform_point(p);
    let (mut want, mut left) = (p, quarters);
    while left > 0 {
        want = Point::new(-want.y, want.x);
        left -= 1;
    }
    assert!(turned.distance_to(&want) < 1e-9, "quarter turns");
    let d = p.distance_to(&Point::new(p.x + 3.0, p.y - 4.0));
    assert!(d == 5.0 && p.distance_to(&p) == 0.0, "distance");
    vx::cover(1);
}
