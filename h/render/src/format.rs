//! P31: formatting trees with rules, and comments.
use crate::T;
use oak_core::{
    ElementType, GreenNode, Language, RedNode, TokenType, UniversalElementRole, UniversalTokenRole,
    memory::SyntaxArena,
    tree::{GreenLeaf, GreenTree, RedLeaf},
};
use oak_pretty_print::{
    Comment, CommentCollector, CommentKind, CommentProcessor, Doc, Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, LineEnding, define_rules,
    comment::{Position, SourceSpan},
};
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tk {
    Word,
    Mark,
    Eof,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum El {
    Block,
    Stmt,
    Expr,
}
impl From<Tk> for El {
    fn from(_: Tk) -> El {
        El::Expr
    }
}
impl TokenType for Tk {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = Tk::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Tk::Word => UniversalTokenRole::Name,
            Tk::Mark => UniversalTokenRole::Punctuation,
            Tk::Eof => UniversalTokenRole::Eof,
        }
    }
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            El::Block => UniversalElementRole::Container,
            El::Stmt => UniversalElementRole::Statement,
            El::Expr => UniversalElementRole::Expression,
        }
    }
}
#[derive(Debug, Clone, Copy, Default)]
struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = Tk;
    type ElementType = El;
    type TypedRoot = ();
}
enum M {
    L(Tk, &'static str),
    N(El, Vec<M>),
}
const WORDS: [(Tk, &str); 5] = [(Tk::Word, "ab"), (Tk::Mark, ","), (Tk::Word, ","), (Tk::Mark, ";"), (Tk::Word, "é \n")];
const KINDS: [El; 3] = [El::Block, El::Stmt, El::Expr];
/// Every tree built by `steps` steps, together with its text.
fn tree<'a>(arena: &'a SyntaxArena, steps: usize, words: usize, src: &mut String) -> (&'a GreenNode<'a, Mini>, M) {
    let mut st: Vec<(El, Vec<GreenTree<'a, Mini>>, Vec<M>)> = vec![(KINDS[vx::choose(3)], vec![], vec![])];
    fn close<'a>(arena: &'a SyntaxArena, st: &mut Vec<(El, Vec<GreenTree<'a, Mini>>, Vec<M>)>) -> (&'a GreenNode<'a, Mini>, M) {
        let (k, g, m) = st.pop().unwrap();
        let n: &'a GreenNode<'a, Mini> = arena.alloc(GreenNode::new(k, arena.alloc_slice_copy(&g)));
        (n, M::N(k, m))
    }
    for _ in 0..steps {
        match vx::choose(3) {
            0 => {
                let (k, w) = WORDS[vx::choose(words as u64)];
                src.push_str(w);
                let top = st.last_mut().unwrap();
                top.1.push(GreenTree::Leaf(GreenLeaf::new(k, w.len() as u32)));
                top.2.push(M::L(k, w));
            }
            1 => st.push((KINDS[vx::choose(3)], vec![], vec![])),
            _ => {
                vx::assume(st.len() > 1);
                let (n, m) = close(arena, &mut st);
                let top = st.last_mut().unwrap();
                top.1.push(GreenTree::Node(n));
                top.2.push(m);
            }
        }
    }
    while st.len() > 1 {
        let (n, m) = close(arena, &mut st);
        let top = st.last_mut().unwrap();
        top.1.push(GreenTree::Node(n));
        top.2.push(m);
    }
    close(arena, &mut st)
}
/// A rule of the harness: what it wants to format and what it makes of it.
#[derive(Clone, Copy)]
struct Rule {
    name: &'static str,
    priority: u8,
    on: usize,
    yields: bool,
    against: &'static str,
}
/// What the rules were told about where they are: depth, kinds the node is inside of.
static SEEN: Mutex<Vec<(usize, u8, u8)>> = Mutex::new(Vec::new());
fn number(k: Option<El>) -> u8 {
    k.map_or(3, |k| k as u8)
}
fn seen(c: &FormatContext<Mini>, parent: u8) {
    let inside = KINDS.iter().enumerate().map(|(i, k)| (c.is_inside(*k) as u8) << i).sum();
    SEEN.lock().unwrap().push((c.depth, inside, parent));
}
impl Rule {
    /// 0 to 2: nodes of that kind, 3: words, 4: marks
    fn wants(&self, k: El) -> bool {
        self.on == k as usize
    }
}
impl FormatRule<Mini> for Rule {
    fn name(&self) -> &str {
        self.name
    }
    fn priority(&self) -> u8 {
        self.priority
    }
    fn applies_to_node(&self, node: &RedNode<Mini>) -> bool {
        self.wants(node.green.kind)
    }
    fn applies_to_token(&self, t: &RedLeaf<Mini>) -> bool {
        self.on == 3 + t.kind as usize
    }
    fn apply_node<'a>(&self, node: &RedNode<Mini>, c: &FormatContext<Mini>, _: &'a str, children: &dyn Fn(&RedNode<Mini>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        seen(c, number(c.parent_kind()));
        if !self.yields {
            return Ok(None);
        }
        Ok(Some(Document::concat(vec![Document::text(self.name), children(node)?])))
    }
    fn apply_token<'a>(&self, t: &RedLeaf<Mini>, c: &FormatContext<Mini>, source: &'a str) -> FormatResult<Option<Document<'a>>> {
        seen(c, 9);
        Ok(self.yields.then(|| Document::concat(vec![Document::text(self.name), Document::text(&source[t.span.start..t.span.end])])))
    }
    fn conflicts_with(&self, other: &dyn FormatRule<Mini>) -> bool {
        other.name() == self.against
    }
}
/// The document the rules make of a tree; `above` are the kinds around it, innermost last.
fn document(m: &M, rules: &[Rule], above: &mut Vec<El>, told: &mut Vec<(usize, u8, u8)>) -> Document<'static> {
    let inside = |above: &[El]| KINDS.iter().enumerate().map(|(i, k)| (above.contains(k) as u8) << i).sum();
    match m {
        M::L(k, w) => {
            for r in rules {
                match r.name {
                    "comma" if *k == Tk::Mark && *w == "," => return Document::concat(vec![Document::text(","), Document::SoftLineSpace]),
                    "comma" | "stmt" | "block" => {}
                    _ if r.on == 3 + *k as usize => {
                        told.push((above.len(), inside(above), 9));
                        if r.yields {
                            return Document::concat(vec![Document::text(r.name), Document::text(*w)]);
                        }
                    }
                    _ => {}
                }
            }
            Document::text(*w)
        }
        M::N(k, kids) => {
            let parent = number(above.last().copied());
            above.push(*k);
            let mut made = None;
            for r in rules {
                let around = match r.name {
                    "block" if *k == El::Block => 0,
                    "stmt" if *k == El::Stmt => 1,
                    "comma" | "stmt" | "block" => continue,
                    _ if r.wants(*k) => {
                        told.push((above.len(), inside(above), parent));
                        if !r.yields {
                            continue;
                        }
                        2
                    }
                    _ => continue,
                };
                made = Some((around, r.name));
                break;
            }
            let children = Document::concat(kids.iter().map(|m| document(m, rules, above, told)).collect());
            above.pop();
            match made {
                None => children,
                Some((0, _)) => Document::group(Document::indent(Document::concat(vec![Document::Line, children]))),
                Some((1, _)) => Document::concat(vec![children, Document::Line]),
                Some((_, name)) => Document::concat(vec![Document::text(name), children]),
            }
        }
    }
}
const BUILT_IN: [Rule; 3] = [
    Rule { name: "block", priority: 10, on: 9, yields: true, against: "-" },
    Rule { name: "comma", priority: 6, on: 9, yields: true, against: "-" },
    Rule { name: "stmt", priority: 5, on: 9, yields: true, against: "-" },
];
/// P31: every tree, with the rules that come with the formatter.
#[unsafe(no_mangle)]
pub extern "C" fn h_format() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, if T { 6 } else { 5 }, 5, &mut src);
    let mut c = FormatConfig::default().with_max_width(vx::bits(8, 3) as usize).with_line_ending(LineEnding::Unix);
    let plain = vx::flag();
    if plain {
        c.trim_trailing_whitespace = false;
        c.insert_final_newline = false;
    }
    let out = Formatter::<Mini>::new(c.clone()).format(&RedNode::new(g, 0), &src).expect("formatted");
    let want = document(&m, &BUILT_IN, &mut vec![], &mut vec![]).render(c);
    assert!(out.content == want, "formatted text");
    assert!(out.changed == (want != src), "changed");
    // nothing but blanks is added or lost
    let dark = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<Vec<_>>();
    assert!(dark(&out.content) == dark(&src), "characters of the source");
    vx::cover(if out.changed { 1 } else { 2 });
}
/// P31: rules that are added.
#[unsafe(no_mangle)]
pub extern "C" fn h_format_rules() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, if T { 4 } else { 3 }, 2, &mut src);
    let c = FormatConfig::default().with_line_ending(LineEnding::Unix);
    let mut f = Formatter::<Mini>::new(c.clone());
    let mut rules = BUILT_IN.to_vec();
    for i in 0..2 {
        let k = vx::choose(3);
        let r = Rule {
            name: ["p", "q"][i],
            priority: [0, 6, 200][vx::choose(3)],
            on: vx::choose(5),
            yields: k > 0,
            // the second rule, or the first, may refuse the other
            against: if k == 2 { ["q", "p"][i] } else { "-" },
        };
        let refused = rules.iter().any(|o| r.against == o.name || o.against == r.name);
        assert!(f.add_rule(Box::new(r)).is_err() == refused, "conflicting rule");
        if !refused {
            let at = rules.iter().position(|o| o.priority < r.priority).unwrap_or(rules.len());
            rules.insert(at, r);
        }
    }
    SEEN.lock().unwrap().clear();
    let out = f.format(&RedNode::new(g, 0), &src).expect("formatted");
    let mut told = vec![];
    let want = document(&m, &rules, &mut vec![], &mut told).render(c);
    assert!(out.content == want, "formatted text");
    assert!(*SEEN.lock().unwrap() == told, "context of the rules");
    assert!(out.changed == (want != src), "changed");
    vx::cover(if rules.len() < 5 { 2 } else { 1 });
}
fn written<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {
    define_rules! {
        r {
            priority: 3 + 4,
            node(n, c, _source, kids) if ElementType::is_universal(&n.green.kind, UniversalElementRole::Statement) => {
                assert!(c.depth > 0);
                Ok(Some(Document::concat(vec![Document::text("r"), kids(n)?])))
            },
            token(t, _c, source) if TokenType::is_universal(&t.kind, UniversalTokenRole::Name) => {
                Ok(Some(Document::concat(vec![Document::text("r"), Document::text(&source[t.span.start..t.span.end])])))
            },
        }
        s {
            token(t, _c, source) if TokenType::is_universal(&t.kind, UniversalTokenRole::Punctuation) => {
                Ok(Some(Document::concat(vec![Document::text("s"), Document::text(&source[t.span.start..t.span.end])])))
            },
            priority: 6,
        }
        u {
            priority: 255,
            node(n, _c, _s, _kids) if n.green.children.is_empty() => Ok(None),
        }
    }
}
/// P35: rules written with the macro.
#[unsafe(no_mangle)]
pub extern "C" fn h_template_rules() {
    let arena = SyntaxArena::new(1);
    let mut src = String::new();
    let (g, m) = tree(&arena, if T { 5 } else { 4 }, 4, &mut src);
    let c = FormatConfig::default().with_line_ending(LineEnding::Unix);
    let mut f = Formatter::<Mini>::new(c.clone());
    let made = written::<Mini>();
    let named: Vec<(String, u8)> = made.iter().map(|r| (r.name().to_string(), r.priority())).collect();
    assert!(named == [("r".to_string(), 7), ("s".to_string(), 6), ("u".to_string(), 255)], "names and priorities");
    let mut rules = BUILT_IN.to_vec();
    let mut add = |name, priority, on: &[usize]| {
        let at = rules.iter().position(|o| o.priority < priority).unwrap_or(rules.len());
        on.iter().for_each(|on| rules.insert(at, Rule { name, priority, on: *on, yields: true, against: "-" }))
    };
    let which = vx::choose(8);
    for (i, r) in made.into_iter().enumerate() {
        if which >> i & 1 == 1 {
            assert!(f.add_rule(r).is_ok());
            match i {
                0 => add("r", 7, &[1, 3]),
                1 => add("s", 6, &[4]),
                _ => {}
            }
        }
    }
    let out = f.format(&RedNode::new(g, 0), &src).expect("formatted");
    let want = document(&m, &rules, &mut vec![], &mut vec![]).render(c);
    assert!(out.content == want, "formatted text");
    vx::observe(out.content.len() as u64);
    vx::cover(1);
}
fn at(offset: usize) -> Position {
    Position { line: 0, column: offset, offset }
}
/// P31: comments keep their words, and are found where they are.
#[unsafe(no_mangle)]
pub extern "C" fn h_comments() {
    let texts = ["a", " é b ", "", "  ", "x\ny", " \n * z\n"];
    let mut col = CommentCollector::new();
    let mut all = vec![];
    let n = if T { 3 } else { 2 };
    for _ in 0..n {
        let k = vx::choose(3);
        let kind = [CommentKind::Line, CommentKind::Doc, CommentKind::Block][k].clone();
        let text = texts[vx::choose(if k < 2 { 3 } else { 6 })];
        let start = vx::choose(3);
        let span = SourceSpan { start: at(start), end: at(start + vx::choose(2)) };
        let c = Comment::new(kind, text.to_string(), span).with_trailing(vx::flag());
        col.add_comment(c.clone());
        all.push(c);
    }
    if vx::flag() {
        col.sort_by_position();
        // stable
        for i in 1..all.len() {
            for j in (1..=i).rev() {
                if all[j - 1].span.start.offset > all[j].span.start.offset {
                    all.swap(j - 1, j);
                }
            }
        }
    }
    let text = |c: &Comment| {
        let t = c.content.trim();
        match c.kind {
            CommentKind::Line if t == "" => format!("//{}", c.content),
            CommentKind::Doc if t == "" => format!("///{}", c.content),
            CommentKind::Line => format!("// {t}"),
            CommentKind::Doc => format!("/// {t}"),
            CommentKind::Block if t == "" => format!("/*{} */", c.content),
            CommentKind::Block if !c.content.contains('\n') => format!("/* {t} */"),
            CommentKind::Block => {
                let mut s = "/*\n".to_string();
                for l in c.content.lines() {
                    s += &format!("> * {}\n", l.trim());
                }
                s + "> */"
            }
        }
    };
    let p = vx::choose(4);
    let q = vx::choose(4);
    let same = |got: Vec<&Comment>, f: &dyn Fn(&Comment) -> bool| assert!(got == all.iter().filter(|c| f(c)).collect::<Vec<_>>(), "comments found");
    same(col.comments_before(at(p)), &|c| c.span.end.offset <= p);
    same(col.comments_after(at(p)), &|c| c.span.start.offset >= p);
    same(col.comments_in_range(at(p), at(q)), &|c| c.span.start.offset >= p && c.span.end.offset <= q);
    same(col.trailing_comments(), &|c| c.is_trailing);
    let mut pr = CommentProcessor::new();
    *pr.collector_mut() = col.clone();
    let shown = pr.process_comments(&all, ">");
    assert!(shown == all.iter().map(|c| text(c)).collect::<Vec<_>>(), "text of a comment");
    let mut out = "x".to_string();
    pr.insert_comments_at_position(&mut out, at(p), ">");
    let mut want = "x".to_string();
    for c in all.iter().filter(|c| c.span.end.offset <= p && !c.is_trailing) {
        want += &format!(">{}\n", text(c));
    }
    assert!(out == want, "comments before a position");
    let mut out = "x".to_string();
    pr.insert_trailing_comment(&mut out, at(p));
    let want = match all.iter().find(|c| c.span.start.offset >= p && c.is_trailing) {
        None => "x".to_string(),
        Some(c) => format!("x {}", c.formatted_text("")),
    };
    assert!(out == want, "comment behind a position");
    let kept = pr.clone().with_format_comments(false).process_comments(&all, ">");
    assert!(kept == all.iter().map(|c| c.content.clone()).collect::<Vec<_>>(), "kept comments");
    assert!(pr.with_preserve_comments(false).process_comments(&all, ">").is_empty());
    vx::cover(1);
}
