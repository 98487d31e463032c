//! P08-P15: parser state, operator parsing, trees, arena, session.
#![feature(new_range_api)]
#![allow(clippy::all)]
use core::range::Range;
use oak_core::{
    errors::{OakDiagnostics, OakError},
    language::ElementType,
    lexer::{LexOutput, Token},
    memory::arena::SyntaxArena,
    parser::{deep_clone_node, Associativity, ParseCache, ParseSession, Parser, ParserState, Pratt, PrattParser},
    source::{Source, TextEdit},
    tree::{Cursor, GreenLeaf, GreenNode, GreenTree, RedLeaf, RedNode, RedTree, TokenProvenance},
    visitor::{PreOrder, Visitor},
    Lexer, TokenType,
};
use toy::*;
mod ops;
use ops::*;
const T: bool = cfg!(feature = "thorough");

// ---- P10: parser state against a model ----
#[derive(Clone, PartialEq, Debug)]
enum M {
    L(Tk, u32),
    N(El, Vec<M>),
}
impl M {
    fn len(&self) -> u32 {
        match self {
            M::L(_, n) => *n,
            M::N(_, c) => c.iter().map(|x| x.len()).sum(),
        }
    }
}
fn same(g: &GreenTree<Toy>, m: &M) -> bool {
    match (g, m) {
        (GreenTree::Leaf(l), M::L(k, n)) => l.kind == *k && l.length == *n,
        (GreenTree::Node(n), M::N(k, c)) => same_node(n, *k, c),
        _ => false,
    }
}
fn same_node(n: &GreenNode<Toy>, k: El, c: &[M]) -> bool {
    n.kind == k && n.text_len == c.iter().map(|x| x.len()).sum::<u32>() && n.children.len() == c.len() && n.children.iter().zip(c).all(|(a, b)| same(a, b))
}
#[derive(Clone)]
struct Model {
    toks: Vec<(Tk, usize)>,
    at: usize,
    out: Vec<M>,
    errs: Vec<usize>,
    src: usize,
}
impl Model {
    fn trivia(k: Tk) -> bool {
        matches!(k, Tk::Ws | Tk::Com)
    }
    fn skip(&mut self) {
        while self.at < self.toks.len() && Self::trivia(self.toks[self.at].0) {
            self.out.push(M::L(self.toks[self.at].0, self.toks[self.at].1 as u32));
            self.at += 1;
        }
    }
    fn kind(&self) -> Option<Tk> {
        self.toks.get(self.at).map(|t| t.0)
    }
    fn offset(&self) -> usize {
        if self.at >= self.toks.len() {
            return self.src;
        }
        self.toks[..self.at].iter().map(|t| t.1).sum()
    }
    fn bump(&mut self) {
        if let Some((k, n)) = self.toks.get(self.at).copied() {
            self.out.push(M::L(k, n as u32));
            self.at += 1;
            self.skip();
        }
    }
    fn drop_token(&mut self) {
        self.at += 1;
        self.skip();
    }
    fn eat(&mut self, k: Tk) -> bool {
        let y = self.kind() == Some(k);
        if y {
            self.bump();
        }
        y
    }
    fn expect(&mut self, k: Tk) -> bool {
        let y = self.eat(k);
        if !y {
            self.errs.push(self.offset());
        }
        y
    }
    fn wrap(&mut self, cp: usize, k: El) {
        let c = self.out.split_off(cp);
        self.out.push(M::N(k, c));
    }
}
fn tokens(n: usize, kinds: &[Tk]) -> (Vec<Token<Tk>>, Vec<(Tk, usize)>, String) {
    let (mut a, mut b) = (vec![], vec![]);
    let mut at = 0;
    for i in 0..n {
        let k = kinds[vx::choose(kinds.len() as u64)];
        let len = 1 + (i & 1);
        a.push(Token { kind: k, span: Range { start: at, end: at + len } });
        b.push((k, len));
        at += len;
    }
    (a, b, "x".repeat(at))
}
type St<'a> = ParserState<'a, Toy, str>;
fn agree(st: &St, m: &Model) {
    assert!(st.peek_kind() == m.kind() && st.current_offset() == m.offset(), "current token");
    assert!(st.not_at_end() == (m.at < m.toks.len()));
    let mut off = 0;
    let mut seen = 0;
    while seen < 2 {
        let t = m.toks.get(m.at + off);
        match t {
            None => {
                assert!(st.peek_non_trivia_kind_at(seen).is_none());
                break;
            }
            Some(t) if !Model::trivia(t.0) => {
                assert!(st.peek_non_trivia_kind_at(seen) == Some(t.0), "look-ahead over trivia");
                seen += 1;
            }
            _ => {}
        }
        off += 1;
    }
    assert!(st.peek_kind_at(1) == m.toks.get(m.at + 1).map(|t| t.0));
    assert!(st.errors.len() == m.errs.len(), "number of errors");
}
/// One step of both; returns false when the step fails (in the sense of the parser).
fn step<'a>(op: usize, st: &mut St<'a>, m: &mut Model, marks: &mut Vec<((usize, usize), usize, usize)>) -> bool {
    match op {
        0 => {
            st.bump();
            m.bump();
            true
        }
        1 => {
            let (a, b) = (st.eat(Tk::Comma), m.eat(Tk::Comma));
            assert!(a == b);
            a
        }
        2 => {
            let (a, b) = (st.expect(Tk::Id), m.expect(Tk::Id));
            assert!(a.is_ok() == b);
            b
        }
        3 => {
            marks.push((st.checkpoint(), m.at, m.out.len()));
            true
        }
        4 => {
            // give up what was parsed since the mark
            if let Some((cp, at, n)) = marks.pop() {
                st.restore(cp);
                m.at = at;
                m.out.truncate(n);
            }
            true
        }
        5 => {
            // wrap what was parsed since the mark
            if let Some((cp, _, n)) = marks.pop() {
                let g = st.finish_at(cp, El::List);
                m.wrap(n, El::List);
                let M::N(k, c) = m.out.last().unwrap() else { unreachable!() };
                assert!(same_node(g, *k, c), "wrapped node");
            }
            true
        }
        6 => {
            // wrap again around the last finished node
            if let Some(M::N(..)) = m.out.last() {
                let cp = st.sink.checkpoint() - 1;
                let g = st.finish_at((0, cp), El::Item);
                let before = st.checkpoint_before(g);
                st.bump();
                let n = m.out.len() - 1;
                m.wrap(n, El::Item);
                m.bump();
                st.finish_at(before, El::Binary);
                m.wrap(n, El::Binary);
            }
            true
        }
        7 => {
            st.advance_until(Tk::Comma);
            while m.kind().is_some() && m.kind() != Some(Tk::Comma) {
                m.drop_token();
            }
            true
        }
        _ => {
            st.record_expected("thing");
            m.errs.push(m.offset());
            false
        }
    }
}
fn finish(mut st: St, mut m: Model) {
    let g = st.finish_at((0, 0), El::Root);
    m.wrap(0, El::Root);
    let M::N(k, c) = &m.out[0] else { unreachable!() };
    assert!(same_node(g, *k, c), "tree differs from the model");
    for (e, o) in st.errors.iter().zip(&m.errs) {
        assert!(error_offset(e) == Some(*o), "error position");
    }
    vx::observe(g.text_len as u64);
    vx::cover(1);
}
fn error_offset(e: &OakError) -> Option<usize> {
    use oak_core::errors::OakErrorKind::*;
    Some(match e.kind() {
        ExpectedToken { offset, .. } | UnexpectedToken { offset, .. } | ExpectedName { offset, .. } | UnexpectedEof { offset, .. } | SyntaxError { offset, .. } => *offset,
        _ => return None,
    })
}
fn start<'a>(arena: &'a SyntaxArena, n: usize, text: &'a mut String) -> (St<'a>, Model) {
    let (a, b, s) = tokens(n, &[Tk::Id, Tk::Ws, Tk::Comma]);
    *text = s;
    let src = text.len();
    let st = ParserState::new(arena, OakDiagnostics { result: Ok(a.into()), diagnostics: vec![] }, text.as_str(), 8);
    let mut m = Model { toks: b, at: 0, out: vec![], errs: vec![], src };
    m.skip();
    (st, m)
}
/// P10: every sequence of parser operations.
#[unsafe(no_mangle)]
pub extern "C" fn h_ops() {
    let arena = SyntaxArena::new(1);
    let mut text = String::new();
    let (mut st, mut m) = start(&arena, 4, &mut text);
    let mut marks = vec![];
    for _ in 0..if T { 5 } else { 4 } {
        step(vx::choose(9), &mut st, &mut m, &mut marks);
        // marks beyond what is left are void
        marks.retain(|x| x.2 <= m.out.len());
        agree(&st, &m);
    }
    finish(st, m);
}
/// P10: speculative parses, nested, that fail or succeed.
#[unsafe(no_mangle)]
pub extern "C" fn h_speculate() {
    let arena = SyntaxArena::new(1);
    let mut text = String::new();
    let (mut st, mut m) = start(&arena, if T { 4 } else { 3 }, &mut text);
    for _ in 0..2 {
        if vx::flag() {
            step(vx::choose(3), &mut st, &mut m, &mut vec![]);
        }
        let keep_errors = vx::flag();
        let saved = m.clone();
        let m2 = &mut m;
        let body = |st: &mut St| -> Result<u8, OakError> {
            let mut marks = vec![];
            let mut ok = true;
            step(3, st, m2, &mut marks);
            for _ in 0..2 {
                ok = step([0, 1, 2, 5, 7, 8][vx::choose(6)], st, m2, &mut marks);
                if !ok {
                    break;
                }
            }
            if ok {
                let inner = m2.clone();
                let r = st.try_parse(|st| {
                    if step(vx::choose(3), st, m2, &mut vec![]) { Ok(1) } else { Err(OakError::custom_error("inner")) }
                });
                if r.is_err() {
                    *m2 = inner;
                }
                agree(st, m2);
                Ok(7)
            }
            else {
                Err(OakError::custom_error("outer"))
            }
        };
        let r = if keep_errors { st.try_parse_with_error(body) } else { st.try_parse(body) };
        match r {
            Ok(v) => assert!(v == 7),
            Err(_) => {
                let errs = std::mem::take(&mut m.errs);
                m = saved;
                if keep_errors {
                    m.errs = errs;
                }
                vx::cover(2);
            }
        }
        agree(&st, &m);
    }
    finish(st, m);
}

// ---- P11: operators ----
struct Table {
    infix: [(u8, bool); 3],
    prefix: u8,
    postfix: u8,
}
const OPS: [Tk; 3] = [Tk::Op, Tk::Comma, Tk::Str];
impl Table {
    fn of(&self, k: Tk) -> Option<(u8, bool)> {
        OPS.iter().position(|o| *o == k).map(|i| self.infix[i])
    }
}
impl Pratt<Toy> for Table {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        let cp = st.checkpoint();
        let _ = st.expect(Tk::Id);
        st.finish_at(cp, El::Item)
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        if st.at(Tk::Open) {
            return oak_core::parser::unary(st, Tk::Open, self.prefix, El::Unary, |st, p| PrattParser::parse(st, p, self));
        }
        self.primary(st)
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        let k = st.peek_kind()?;
        if k == Tk::Close {
            return if self.postfix < min { None } else { Some(oak_core::parser::postfix(st, left, k, El::Postfix)) };
        }
        let (p, right) = self.of(k)?;
        if p < min {
            return None;
        }
        let a = if right { Associativity::Right } else { Associativity::Left };
        Some(oak_core::parser::binary(st, left, k, p, a, El::Binary, |st, p| PrattParser::parse(st, p, self)))
    }
}
/// The defining conditions of precedence and associativity, checked on the finished tree.
/// Returns the tokens of the expression, in order.
fn well_grouped(t: &Table, n: &GreenNode<Toy>, out: &mut Vec<Tk>) {
    let kids: Vec<_> = n.children.iter().filter(|c| !matches!(c, GreenTree::Leaf(l) if l.kind == Tk::Ws)).collect();
    let node = |i: usize| kids[i].as_node().expect("operand");
    let leaf = |i: usize| kids[i].as_leaf().expect("operator").kind;
    // the loosest operator reachable along the right (left) edge of an operand
    fn edge(t: &Table, n: &GreenNode<Toy>, right: bool, min: &mut Option<(u8, bool)>) {
        let kids: Vec<_> = n.children.iter().filter(|c| !matches!(c, GreenTree::Leaf(l) if l.kind == Tk::Ws)).collect();
        let upd = |p: (u8, bool), min: &mut Option<(u8, bool)>| {
            if min.is_none() || min.unwrap().0 > p.0 {
                *min = Some(p);
            }
        };
        match n.kind {
            El::Binary => {
                upd(t.of(kids[1].as_leaf().unwrap().kind).unwrap(), min);
                edge(t, kids[if right { 2 } else { 0 }].as_node().unwrap(), right, min)
            }
            El::Unary if right => {
                upd((t.prefix, true), min);
                edge(t, kids[1].as_node().unwrap(), right, min)
            }
            El::Postfix if !right => {
                upd((t.postfix, false), min);
                edge(t, kids[0].as_node().unwrap(), right, min)
            }
            _ => {}
        }
    }
    match n.kind {
        El::Item => {
            assert!(kids.len() == 1 && leaf(0) == Tk::Id);
            out.push(Tk::Id);
        }
        El::Binary => {
            assert!(kids.len() == 3);
            let (p, right) = t.of(leaf(1)).unwrap();
            // left operand: nothing that should have taken this operator itself
            let mut e = None;
            edge(t, node(0), true, &mut e);
            if let Some((q, qr)) = e {
                assert!(q > p || (q == p && !qr), "left operand binds too loosely");
            }
            // right operand: nothing that should have been left to the outside
            let mut e = None;
            edge(t, node(2), false, &mut e);
            if let Some((q, _)) = e {
                assert!(q > p || (q == p && right), "right operand binds too loosely");
            }
            well_grouped(t, node(0), out);
            out.push(leaf(1));
            well_grouped(t, node(2), out);
        }
        El::Unary => {
            assert!(kids.len() == 2 && leaf(0) == Tk::Open);
            let mut e = None;
            edge(t, node(1), false, &mut e);
            if let Some((q, _)) = e {
                assert!(q >= t.prefix, "operand of a prefix operator binds too loosely");
            }
            out.push(Tk::Open);
            well_grouped(t, node(1), out);
        }
        El::Postfix => {
            assert!(kids.len() == 2 && leaf(1) == Tk::Close);
            let mut e = None;
            edge(t, node(0), true, &mut e);
            if let Some((q, qr)) = e {
                assert!(q > t.postfix || (q == t.postfix && !qr), "operand of a postfix operator binds too loosely");
            }
            well_grouped(t, node(0), out);
            out.push(Tk::Close);
        }
        _ => panic!("unexpected node"),
    }
}
fn pratt_check(binary_only: bool) {
    let prec = |n: u64| 1 + vx::below(n, 0) as u8;
    let np = if binary_only { 4 } else { 3 };
    let mut t = Table { infix: [(0, false); 3], prefix: 0, postfix: 0 };
    let nops = if binary_only { 3 } else { 2 };
    for x in t.infix.iter_mut().take(nops) {
        *x = (prec(np), vx::bits(1, 0) == 1);
    }
    t.prefix = prec(np);
    t.postfix = prec(np);
    let mut ks = vec![];
    let n = 1 + vx::choose(if binary_only { 5 } else { 3 } + T as u64);
    for i in 0..n {
        if i > 0 {
            ks.push(OPS[vx::choose(nops as u64)]);
        }
        if !binary_only && vx::flag() {
            ks.push(Tk::Open);
        }
        ks.push(Tk::Id);
        if !binary_only && vx::flag() {
            ks.push(Tk::Close);
        }
    }
    let want = ks.clone();
    let tail = [None, Some(Tk::Num), Some(Tk::Id)][vx::choose(3)];
    ks.extend(tail);
    let toks: Vec<_> = ks.iter().enumerate().map(|(i, k)| Token { kind: *k, span: Range { start: i, end: i + 1 } }).collect();
    let text = "x".repeat(toks.len());
    let arena = SyntaxArena::new(1);
    let mut st: St = ParserState::new(&arena, OakDiagnostics { result: Ok(toks.into()), diagnostics: vec![] }, text.as_str(), 8);
    let g = PrattParser::<Toy, Table>::parse(&mut st, 0, &t);
    assert!(st.peek_kind() == tail && st.errors.is_empty(), "the whole expression is consumed, nothing more");
    let mut got = vec![];
    well_grouped(&t, g, &mut got);
    assert!(got == want, "operands and operators in order");
    vx::observe(g.text_len as u64);
    vx::cover(1);
}
/// P11: all tables of three infix operators.
#[unsafe(no_mangle)]
pub extern "C" fn h_pratt_binary() {
    pratt_check(true)
}
/// P11: with prefix and postfix operators.
#[unsafe(no_mangle)]
pub extern "C" fn h_pratt_mixed() {
    pratt_check(false)
}

// ---- P12 / P13: trees ----
/// A tree of symbolic shape and leaf lengths together with its model.
fn tree<'a>(arena: &'a SyntaxArena, steps: usize, bits: u32) -> (&'a GreenNode<'a, Toy>, M) {
    let mut st: Vec<(Vec<GreenTree<'a, Toy>>, Vec<M>)> = vec![(vec![], vec![])];
    let close = |st: &mut Vec<(Vec<GreenTree<'a, Toy>>, Vec<M>)>| -> (&'a GreenNode<'a, Toy>, M) {
        let (g, m) = st.pop().unwrap();
        let k = if st.is_empty() { El::Root } else { El::List };
        let n: &'a GreenNode<'a, Toy> = arena.alloc(GreenNode::new(k, arena.alloc_slice_copy(&g)));
        (n, M::N(k, m))
    };
    for i in 0..steps {
        match vx::choose(3) {
            0 => {
                let len = if bits == 0 { 2 * vx::choose(2) as u32 } else { vx::bits(bits, 1) as u32 };
                let k = [Tk::Id, Tk::Ws, Tk::Op][i % 3];
                let top = st.last_mut().unwrap();
                top.0.push(GreenTree::Leaf(GreenLeaf::new(k, len)));
                top.1.push(M::L(k, len));
            }
            1 => st.push((vec![], vec![])),
            _ => {
                vx::assume(st.len() > 1);
                let (n, m) = close(&mut st);
                let top = st.last_mut().unwrap();
                top.0.push(GreenTree::Node(n));
                top.1.push(m);
            }
        }
    }
    while st.len() > 1 {
        let (n, m) = close(&mut st);
        let top = st.last_mut().unwrap();
        top.0.push(GreenTree::Node(n));
        top.1.push(m);
    }
    close(&mut st)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    N(El),
    L(Tk),
}
fn flat(m: &M, at: usize, out: &mut Vec<(K, usize, usize)>) {
    let e = at + m.len() as usize;
    match m {
        M::L(k, _) => out.push((K::L(*k), at, e)),
        M::N(k, c) => {
            out.push((K::N(*k), at, e));
            let mut p = at;
            for x in c {
                flat(x, p, out);
                p += x.len() as usize;
            }
        }
    }
}
fn shown(t: &RedTree<Toy>) -> (K, usize, usize) {
    let s = t.span();
    match t {
        RedTree::Node(n) => {
            assert!(n.span() == s && n.element_type() == n.green().kind());
            (K::N(n.green.kind), s.start, s.end)
        }
        RedTree::Leaf(l) => (K::L(l.kind), s.start, s.end),
    }
}
fn walk(t: RedTree<Toy>, how: usize, out: &mut Vec<(K, usize, usize)>) {
    out.push(shown(&t));
    if let RedTree::Node(n) = t {
        match how {
            0 => t.children().for_each(|c| walk(c, how, out)),
            _ => (0..n.green().children_count()).for_each(|i| walk(n.child_at(i), how, out)),
        }
    }
    else {
        assert!(t.children().next().is_none() && t.as_node().is_none() && t.as_leaf().is_some());
    }
}
struct Vis(Vec<(K, usize, usize)>);
impl<'a> Visitor<'a, Toy> for Vis {
    fn visit_node(&mut self, n: RedNode<'a, Toy>) {
        self.0.push(shown(&RedTree::Node(n)));
        self.walk_node(n);
    }
    fn visit_token(&mut self, t: RedLeaf<Toy>) {
        self.0.push(shown(&RedTree::Leaf(t)));
    }
}
/// P12: every traversal agrees.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_walks() {
    let arena = SyntaxArena::new(1);
    let (g, m) = tree(&arena, if T { 9 } else { 8 }, 0);
    let base = vx::choose(2) * 5;
    let root = RedNode::new(g, base);
    let mut want = vec![];
    flat(&m, base, &mut want);
    for how in 0..2 {
        let mut got = vec![];
        walk(RedTree::Node(root), how, &mut got);
        assert!(got == want, "children");
    }
    let got: Vec<_> = PreOrder::new(RedTree::Node(root)).map(|t| shown(&t)).collect();
    assert!(got == want, "pre-order");
    let mut v = Vis(vec![]);
    v.visit_node(root);
    assert!(v.0 == want, "visitor");
    // the cursor walks the same elements (relative to the root)
    let mut c = Cursor::new(g);
    for (i, (k, a, b)) in want.iter().enumerate() {
        let kk = match c.current() {
            GreenTree::Node(n) => K::N(n.kind),
            GreenTree::Leaf(l) => K::L(l.kind),
        };
        assert!(kk == *k && c.offset() + base == *a && c.end_offset() + base == *b && c.len() == b - a, "cursor");
        assert!(c.as_node().is_some() == matches!(k, K::N(_)));
        assert!(c.step() == (i + 1 < want.len()), "cursor end");
    }
    vx::observe(want.len() as u64);
    vx::cover(1);
}
/// P12: what lies at an offset.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_offsets() {
    let arena = SyntaxArena::new(1);
    let (g, m) = tree(&arena, if T { 7 } else { 6 }, 2);
    let base = vx::bits(4, 0) as usize;
    let off = vx::bits(5, 0) as usize;
    let root = RedNode::new(g, base);
    let mut all = vec![];
    flat(&m, base, &mut all);
    let want = all.iter().find(|(k, a, b)| matches!(k, K::L(_)) && *a <= off && off < *b).copied();
    let got = root.leaf_at_offset(off).map(|l| shown(&RedTree::Leaf(l)));
    assert!(got == want, "leaf at offset");
    let M::N(_, kids) = &m else { unreachable!() };
    let mut at = base;
    let mut idx = None;
    for (i, k) in kids.iter().enumerate() {
        let e = at + k.len() as usize;
        if idx.is_none() && at <= off && off < e {
            idx = Some((i, at, e));
        }
        at = e;
    }
    assert!(root.child_index_at_offset(off) == idx.map(|x| x.0), "child index at offset");
    let c = root.child_at_offset(off).map(|c| (c.span().start, c.span().end));
    assert!(c == idx.map(|x| (x.1, x.2)), "child at offset");
    vx::observe(want.is_some() as u64);
    vx::cover(if want.is_some() { 1 } else { 2 });
}
/// P12: every sequence of cursor moves.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_cursor() {
    let arena = SyntaxArena::new(1);
    let (g, m) = tree(&arena, if T { 7 } else { 6 }, 2);
    let mut c = Cursor::new(g);
    let mut path: Vec<usize> = vec![];
    fn get<'m>(m: &'m M, path: &[usize]) -> (&'m M, usize) {
        let (mut cur, mut at) = (m, 0);
        for i in path {
            let M::N(_, k) = cur else { unreachable!() };
            at += k[..*i].iter().map(|x| x.len() as usize).sum::<usize>();
            cur = &k[*i];
        }
        (cur, at)
    }
    fn into(m: &M, p: &mut Vec<usize>) -> bool {
        let y = matches!(get(m, p).0, M::N(_, k) if !k.is_empty());
        if y {
            p.push(0);
        }
        y
    }
    fn over(m: &M, p: &mut Vec<usize>) -> bool {
        let Some((last, up)) = p.split_last() else { return false };
        let M::N(_, k) = get(m, up).0 else { unreachable!() };
        let y = last + 1 < k.len();
        if y {
            *p.last_mut().unwrap() += 1;
        }
        y
    }
    fn next(m: &M, p: &mut Vec<usize>) -> bool {
        loop {
            if over(m, p) {
                return true;
            }
            if p.pop().is_none() {
                return false;
            }
        }
    }
    for _ in 0..if T { 5 } else { 4 } {
        let (a, b) = match vx::choose(5) {
            0 => (c.step_into(), into(&m, &mut path)),
            1 => (c.step_over(), over(&m, &mut path)),
            2 => (c.step_out(), path.pop().is_some()),
            3 => (c.step_next(), next(&m, &mut path)),
            _ => (c.step(), into(&m, &mut path) || next(&m, &mut path)),
        };
        assert!(a == b, "whether the cursor moved");
        let (e, at) = get(&m, &path);
        assert!(c.offset() == at && c.len() == e.len() as usize && same(&c.current(), e), "where the cursor is");
    }
    vx::observe(c.offset() as u64);
    vx::cover(1);
}
/// P13: lengths and copies.
#[unsafe(no_mangle)]
pub extern "C" fn h_tree_copy() {
    let (m, sum);
    let target = SyntaxArena::new(1);
    let copy = {
        let arena = SyntaxArena::new(1);
        let (g, mm) = tree(&arena, if T { 10 } else { 9 }, 2);
        m = mm;
        sum = m.len();
        assert!(same(&GreenTree::Node(g), &m) && g.text_len() == sum, "lengths");
        let c = deep_clone_node(g, &target);
        assert!(c == g, "equal to the original");
        c
        // the original storage goes away here
    };
    // and is used again for something else
    let other = SyntaxArena::new(1);
    other.alloc_slice_copy(&[0xeeu8; 600]);
    assert!(same(&GreenTree::Node(copy), &m) && copy.text_len() == sum, "independent of the original storage");
    assert!(copy.child_at(copy.children_count()).is_none() && copy.has_children() == (copy.children_count() > 0));
    vx::observe(copy.children_count() as u64);
    vx::cover(1);
}

// ---- P14: arena ----
struct Tracked(usize, usize, u8);
/// Counts the bytes asked for and given back, by the sizes the caller states.
struct Counting;
static HELD: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
fn held() -> isize {
    HELD.load(std::sync::atomic::Ordering::Relaxed)
}
fn count(n: isize) {
    HELD.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as isize));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
/// P14: blocks are aligned, disjoint, owned and keep their contents; the memory checks are the engine's.
fn arena_steps(n: usize) {
    let mut ops = vec![(vx::choose(2), 0)];
    for _ in 0..n {
        let k = vx::choose(7);
        ops.push((k, match k { 2 => vx::choose(5), 3 => vx::choose(10), 4 => vx::choose(4), _ => 0 }));
    }
    arena_run(&ops);
    // the same again: everything that was taken is given back, with the size it was taken with
    let before = held();
    arena_run(&ops);
    assert!(held() == before, "memory not returned exactly");
    vx::observe(n as u64);
}
fn arena_run(ops: &[(usize, usize)]) {
    let arena = SyntaxArena::new(ops[0].0);
    let mut got: Vec<Tracked> = vec![];
    let mut metas = vec![];
    for (i, &(k, sel)) in ops[1..].iter().enumerate() {
        let v = 0x30 + i as u8;
        let (p, len) = match k {
            0 => {
                let r: &mut u64 = arena.alloc(u64::from_ne_bytes([v; 8]));
                assert!(r as *mut u64 as usize % 8 == 0);
                (r as *mut u64 as usize, 8)
            }
            1 => {
                let r: &mut [u8; 3] = arena.alloc([v; 3]);
                (r.as_ptr() as usize, 3)
            }
            2 => {
                let sizes = [0usize, 1, 7, 8, 9];
                let n = sizes[sel];
                let b = vec![v; n];
                let r = arena.alloc_slice_copy(&b);
                assert!(r.len() == n);
                (r.as_ptr() as usize, n)
            }
            // around the end of a chunk, and larger than one
            3 => {
                let sizes = [65536usize, 65528, 65529, 65512, 65535, 65537, 70000, 40000, 32768, 131073];
                let n = sizes[sel];
                let b = vec![v; n];
                let r = arena.alloc_slice_copy(&b);
                (r.as_ptr() as usize, n)
            }
            4 => {
                let n = sel;
                let r: &mut [u16] = arena.alloc_slice_fill_iter(n, std::iter::repeat(u16::from_ne_bytes([v; 2])).take(n));
                assert!(r.len() == n && (n == 0 || r.as_ptr() as usize % 2 == 0));
                (r.as_ptr() as usize, 2 * n)
            }
            5 => {
                let r: &mut [u64] = arena.alloc_slice_fill_iter(2, vec![u64::from_ne_bytes([v; 8]); 2]);
                assert!(r.as_ptr() as usize % 8 == 0);
                (r.as_ptr() as usize, 16)
            }
            _ => {
                let p = TokenProvenance::from_source(Range { start: i, end: i + 1 });
                metas.push((arena.add_metadata(p.clone()), p));
                (8, 0)
            }
        };
        for t in &got {
            assert!(len == 0 || t.1 == 0 || p + len <= t.0 || t.0 + t.1 <= p, "blocks overlap");
        }
        got.push(Tracked(p, len, v));
    }
    for t in &got {
        if t.1 > 0 {
            let s = unsafe { std::slice::from_raw_parts(t.0 as *const u8, t.1) };
            assert!(s[0] == t.2 && s[t.1 - 1] == t.2 && s[t.1 / 2] == t.2, "contents changed");
            if t.1 < 100 {
                assert!(s.iter().all(|b| *b == t.2), "contents changed");
            }
        }
    }
    for (i, p) in &metas {
        assert!(arena.get_metadata(*i) == Some(p), "metadata");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_arena() {
    arena_steps(if T { 5 } else { 4 });
    vx::cover(1);
}
/// P14: memory is reused after an arena is gone, never while it is alive.
#[unsafe(no_mangle)]
pub extern "C" fn h_arena_reuse() {
    let mut alive: Vec<(SyntaxArena, usize, u8)> = vec![];
    for i in 0..if T { 8 } else { 7 } {
        if vx::flag() || alive.is_empty() {
            let a = SyntaxArena::new(0);
            let n = [16usize, 65536][vx::choose(2)];
            let v = 0x41 + i as u8;
            let b = vec![v; n];
            a.alloc_slice_copy(&b[..8]);
            let p = a.alloc_slice_copy(&b).as_ptr() as usize;
            for (_, q, _) in &alive {
                assert!(p != *q, "shared with a live arena");
            }
            alive.push((a, p, v));
        }
        else {
            alive.remove(vx::choose(alive.len() as u64));
        }
        for (_, p, v) in &alive {
            assert!(unsafe { *(*p as *const u8).add(15) } == *v, "contents of a live arena changed");
        }
    }
    vx::observe(alive.len() as u64);
    vx::cover(1);
}
/// P14: nothing is lost when many chunks come back at once.
#[unsafe(no_mangle)]
pub extern "C" fn h_arena_many() {
    let n = [1usize, 63, 64, 65, 70][vx::choose(5)];
    let before = vx::live();
    let mut all = vec![];
    for _ in 0..n {
        let a = SyntaxArena::new(0);
        a.alloc(1u64);
        all.push(a);
    }
    drop(all);
    let pooled = vx::live() - before;
    // whatever is kept for reuse is really reused
    let mut all = vec![];
    for _ in 0..n {
        let a = SyntaxArena::new(0);
        a.alloc(1u64);
        all.push(a);
    }
    drop(all);
    let after = vx::live() - before;
    assert!(after <= pooled, "memory is lost on every round");
    vx::observe(n as u64);
    vx::cover(1);
}

// ---- P15: sessions ----
fn snapshot(n: &GreenNode<Toy>) -> M {
    M::N(
        n.kind,
        n.children
            .iter()
            .map(|c| match c {
                GreenTree::Leaf(l) => M::L(l.kind, l.length),
                GreenTree::Node(n) => snapshot(n),
            })
            .collect(),
    )
}
/// P15: any sequence of parses, successful or given up, and reads.
#[unsafe(no_mangle)]
pub extern "C" fn h_session() {
    let mut s = ParseSession::<Toy>::new(vx::choose(2));
    let mut want: Option<M> = None;
    let mut last = false;
    for i in 0..if T { 8 } else { 6 } {
        match vx::choose(3) {
            0 | 1 => {
                let good = vx::flag();
                s.prepare_generation();
                let kids: Vec<_> = (0..=i).map(|j| GreenTree::<Toy>::Leaf(GreenLeaf::new(Tk::Id, (i + j) as u32 + 1))).collect();
                let m = M::N(El::Root, (0..=i).map(|j| M::L(Tk::Id, (i + j) as u32 + 1)).collect());
                if let Some(w) = &want {
                    match s.old_tree() {
                        Some(old) => assert!(snapshot(old) == *w, "previous tree while parsing"),
                        // an abandoned parse leaves nothing the next edits apply to
                        None => assert!(!last, "the previous tree is offered while parsing"),
                    }
                }
                else {
                    assert!(s.old_tree().is_none());
                }
                let a = s.arena();
                let root = a.alloc(GreenNode::new(El::Root, a.alloc_slice_copy(&kids)));
                last = good;
                if good {
                    s.commit_generation(root);
                    want = Some(m);
                }
            }
            _ => {}
        }
        match (s.last_root(), &want) {
            (Some(r), Some(w)) => assert!(snapshot(r) == *w, "last tree"),
            (None, None) => {}
            _ => panic!("presence of the last tree"),
        }
    }
    vx::cover(1);
    if want.is_some() {
        vx::cover(2);
    }
}
/// P15: the same through the parser, with parses that fail.
#[unsafe(no_mangle)]
pub extern "C" fn h_session_parse() {
    let mut s = ParseSession::<Toy>::new(1);
    let mut want: Option<M> = None;
    for _ in 0..if T { 6 } else { 5 } {
        let text = vx::pick(&["a", "(a,b)", "a+b c"]);
        let fail = vx::flag();
        let m = oak_core::parser::parse_with_lexer(&ToyLexer, text, &[], &mut s, |st: &mut ParserState<Toy, str>| {
            while st.not_at_end() && !st.at(Tk::Eof) {
                ToyParser::element(st);
            }
            let r = st.finish_at((0, 0), El::Root);
            if fail { Err(st.unexpected_eof()) } else { Ok(r) }
        });
        if let Ok(r) = m.result {
            assert!(!fail && r.text_len as usize == text.len());
            want = Some(snapshot(r));
        }
        else {
            assert!(fail);
        }
        assert!(s.last_root().map(|r| snapshot(r)) == want, "last tree");
    }
    vx::cover(1);
}

// ---- P08 / P09: parsing with the framework ----
fn leaves(n: &GreenNode<Toy>, out: &mut Vec<(Tk, usize)>) {
    let mut len = 0;
    for c in n.children {
        len += c.len();
        match c {
            GreenTree::Leaf(l) => out.push((l.kind, l.length as usize)),
            GreenTree::Node(n) => leaves(n, out),
        }
    }
    assert!(len == n.text_len, "node length");
}
fn lossless(text: &str) {
    let mut s = ParseSession::<Toy>::new(1);
    let toks = ToyLexer.lex(text, &[], &mut s).result.unwrap();
    let o = ToyParser.parse(text, &[], &mut s);
    for e in &o.diagnostics {
        assert!(error_offset(e).is_some_and(|p| p <= text.len()), "error position");
    }
    let r = o.result.unwrap();
    assert!(r.text_len as usize == text.len(), "tree length");
    let mut l = vec![];
    leaves(r, &mut l);
    assert!(l.len() + 1 == toks.len() && l.iter().zip(toks.iter()).all(|(a, t)| a.0 == t.kind && a.1 == t.length()), "leaves are the tokens");
    vx::observe(l.len() as u64);
    vx::cover(1);
}
/// P08: every text.
#[unsafe(no_mangle)]
pub extern "C" fn h_parse() {
    lossless(&vx::text(if T { 4 } else { 3 }, 3))
}
/// P08: longer texts over the significant characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_parse_long() {
    lossless(&vx::over_upto(b"a(),+=- ", if T { 6 } else { 5 }))
}
fn reparse(s: &mut ParseSession<Toy>, old: &str, a: usize, b: usize, ins: &str) -> String {
    let new = [&old[..a], ins, &old[b..]].concat();
    let e = [TextEdit { span: Range { start: a, end: b }, text: ins.to_string().into() }];
    let mut f = ParseSession::<Toy>::new(1);
    let parsed = || PARSED.swap(0, std::sync::atomic::Ordering::Relaxed);
    parsed();
    let full = ToyParser.parse(new.as_str(), &[], &mut f);
    let want = snapshot(full.result.unwrap());
    let all = parsed();
    let inc = ToyParser.parse(new.as_str(), &e, s);
    let got = snapshot(inc.result.unwrap());
    let places = |d: &[OakError]| d.iter().map(|e| (std::mem::discriminant(e.kind()), error_offset(e))).collect::<Vec<_>>();
    assert!(places(&inc.diagnostics) == places(&full.diagnostics), "incremental errors differ");
    if parsed() < all {
        vx::cover(2); // something was reused
    }
    assert!(got == want, "incremental tree differs");
    assert!(s.last_root().map(|r| snapshot(r)) == Some(want));
    new
}
/// A parse that is given up: its text is the next one's starting point, its tree is not.
fn abandon(s: &mut ParseSession<Toy>, old: &str, a: usize, b: usize, ins: &str) -> String {
    let new = [&old[..a], ins, &old[b..]].concat();
    let e = [TextEdit { span: Range { start: a, end: b }, text: ins.to_string().into() }];
    let out = oak_core::parser::parse_with_lexer(&ToyLexer, new.as_str(), &e, s, |st: &mut ParserState<Toy, str>| Err(st.unexpected_eof()));
    assert!(out.result.is_err());
    new
}
const DOCS: [&str; 8] = ["a b", "(a,b) c", "(a", "a+b*c d", "a /*x*/ b", "a (b) -c", "(a (b c)) d", "a! \"x\" 1"];
/// P09: one edit in each document.
#[unsafe(no_mangle)]
pub extern "C" fn h_reparse() {
    let old = vx::pick(&DOCS);
    let a = vx::choose(old.len() as u64 + 1);
    let b = a + vx::choose((old.len() - a) as u64 + 1);
    let ins = vx::over_upto(b"a(),+*/- \"", if T { 4 } else { 3 });
    let mut s = ParseSession::<Toy>::new(1);
    ToyParser.parse(old, &[], &mut s).result.unwrap();
    reparse(&mut s, old, a, b, &ins);
    vx::cover(1);
}
/// P09: whole statements of the same shape inserted, replaced and removed next to each other.
#[unsafe(no_mangle)]
pub extern "C" fn h_reparse_statement() {
    let op = || vx::of(b"+*=^") as char;
    let old = format!("a{}b{}c,{}", op(), op(), ["", "d", "(e)"][vx::choose(3)]);
    let at = vx::choose(old.len() as u64 + 1);
    let end = at + [0, 1, 5, 6][vx::choose(4)];
    vx::assume(end <= old.len());
    let ins = match vx::choose(if T { 4 } else { 3 }) {
        0 => format!("a{}b{}c,", op(), op()),
        1 => format!(",a{}b{}c", op(), op()),
        2 => format!("a{}-b", op()),
        _ => format!("(a{}b{}c),", op(), op()),
    };
    let mut s = ParseSession::<Toy>::new(1);
    ToyParser.parse(old.as_str(), &[], &mut s).result.unwrap();
    reparse(&mut s, &old, at, end, &ins);
    vx::cover(1);
}
/// P09: histories of edits on one session.
#[unsafe(no_mangle)]
pub extern "C" fn h_reparse_history() {
    let mut doc = vx::pick(&["a b", "(a b) c", "a+b (c"]).to_string();
    let mut s = ParseSession::<Toy>::new(1);
    ToyParser.parse(doc.as_str(), &[], &mut s).result.unwrap();
    for _ in 0..if T { 3 } else { 2 } {
        let a = vx::choose(doc.len() as u64 + 1);
        let b = a + vx::choose(((doc.len() - a) as u64 + 1).min(3));
        let ins = vx::pick(&["", " ", "a", "(", ")", "+"]);
        doc = if vx::choose(3) == 0 { abandon(&mut s, &doc, a, b, ins) } else { reparse(&mut s, &doc, a, b, ins) };
    }
    vx::cover(1);
}
/// P09: two edits in one batch.
#[unsafe(no_mangle)]
pub extern "C" fn h_reparse_batch() {
    let old = vx::pick(&["a b c d", "(a) (b) c", "a+b (c) d"]);
    let n = old.len() as u64;
    let a = vx::choose(n + 1);
    let b = a + vx::choose((n - a as u64 + 1).min(3));
    let c = b + vx::choose(n - b as u64 + 1);
    let d = c + vx::choose((n - c as u64 + 1).min(3));
    vx::assume(b < c);
    let (i1, i2) = (vx::pick(&["", " ", "a", "(", "+"]), vx::pick(&["", "b ", ")", "/*"]));
    let new = [&old[..a], i1, &old[b..c], i2, &old[d..]].concat();
    let mut e = vec![TextEdit { span: Range { start: a, end: b }, text: i1.to_string().into() }, TextEdit { span: Range { start: c, end: d }, text: i2.to_string().into() }];
    if vx::flag() {
        e.reverse();
    }
    let mut f = ParseSession::<Toy>::new(1);
    let want = snapshot(ToyParser.parse(new.as_str(), &[], &mut f).result.unwrap());
    let mut s = ParseSession::<Toy>::new(1);
    ToyParser.parse(old, &[], &mut s).result.unwrap();
    let got = snapshot(ToyParser.parse(new.as_str(), &e, &mut s).result.unwrap());
    assert!(got == want, "incremental tree differs");
    vx::cover(1);
}

vx::main!(
    h_more_ops,
    h_roles,
    h_ops, h_speculate, h_pratt_binary, h_pratt_mixed, h_tree_walks, h_tree_offsets, h_tree_cursor, h_tree_copy, h_arena, h_arena_reuse, h_arena_many, h_session, h_session_parse, h_parse, h_parse_long, h_reparse, h_reparse_statement,
    h_reparse_history, h_reparse_batch
);
