//! The remaining operations of the parser state, against their definitions.
use crate::*;
use oak_core::errors::OakErrorKind;
use oak_core::source::SourceText;

type S<'a> = ParserState<'a, Toy, SourceText>;
const FILE: u32 = 7;
/// What an error says: its kind, its text, its place.
type Err = (&'static str, String, usize);
fn read(e: &OakError) -> Err {
    use OakErrorKind::*;
    let (text, at, id) = match e.kind() {
        SyntaxError { message, offset, source_id } => (message.clone(), *offset, *source_id),
        UnexpectedToken { token, offset, source_id } => (token.clone(), *offset, *source_id),
        ExpectedToken { expected, offset, source_id } => (expected.clone(), *offset, *source_id),
        ExpectedName { name_kind, offset, source_id } => (name_kind.clone(), *offset, *source_id),
        TrailingCommaNotAllowed { offset, source_id } | UnexpectedEof { offset, source_id } => (String::new(), *offset, *source_id),
        CustomError { message } => (message.clone(), 0, Some(FILE)),
        _ => panic!("unknown error"),
    };
    assert!(id == Some(FILE), "error of another file");
    (e.kind().key(), text, at)
}
struct Ref {
    m: Model,
    text: String,
    errs: Vec<Err>,
}
fn agree2(st: &S, r: &Ref) {
    let m = &r.m;
    let here = m.kind();
    assert!(st.peek_kind() == here && st.current_offset() == m.offset(), "current token");
    assert!(st.not_at_end() == here.is_some(), "end of the tokens");
    for k in [Tk::Id, Tk::Ws, Tk::Comma] {
        assert!(st.at(k) == (here == Some(k)) && st.not_at(k) != st.at(k), "kind of the current token");
    }
    let mut at = m.offset();
    for i in 0..3 {
        let want = m.toks.get(m.at + i);
        assert!(st.peek_kind_at(i) == want.map(|t| t.0), "look-ahead");
        match (st.peek_at(i), want) {
            (None, None) => {}
            (Some(t), Some(w)) => assert!(t.kind == w.0 && t.span == (Range { start: at, end: at + w.1 }), "token ahead"),
            _ => panic!("token ahead"),
        }
        if let Some(w) = want {
            at += w.1;
        }
    }
    match (st.peek_text(), here) {
        (None, None) => {}
        (Some(t), Some(_)) => assert!(t == r.text[m.offset()..m.offset() + m.toks[m.at].1], "text of the current token"),
        _ => panic!("text of the current token"),
    }
    assert!(st.source_id() == Some(FILE), "file of the parse");
    assert!(st.errors.len() == r.errs.len(), "number of errors");
    for (e, w) in st.errors.iter().zip(&r.errs) {
        assert!(read(e) == *w, "error recorded");
    }
}
fn op<'a>(n: usize, st: &mut S<'a>, r: &mut Ref) {
    let at = r.m.offset();
    match n {
        0 => {
            st.bump();
            r.m.bump();
        }
        1 => {
            st.advance();
            r.m.drop_token();
        }
        2 => {
            let kinds: &[Tk] = [&[Tk::Comma, Tk::Str][..], &[Tk::Str, Tk::Id], &[]][vx::choose(3)];
            st.advance_until_any(kinds);
            while r.m.kind().is_some_and(|k| !kinds.contains(&k)) {
                r.m.drop_token();
            }
        }
        3 => match vx::choose(8) {
            0 => {
                let e = st.syntax_error("a");
                r.errs.push(("error.syntax", "a".to_string(), at));
                assert!(read(&e) == r.errs[r.errs.len() - 1], "error returned");
            }
            1 => {
                st.record_unexpected_token("b");
                r.errs.push(("error.unexpected_token", "b".to_string(), at));
            }
            2 => {
                st.record_expected("c");
                r.errs.push(("error.expected_token", "c".to_string(), at));
            }
            3 => {
                st.record_expected_name("d");
                r.errs.push(("error.expected_name", "d".to_string(), at));
            }
            4 => {
                st.record_trailing_comma_not_allowed();
                r.errs.push(("error.trailing_comma_not_allowed", String::new(), at));
            }
            5 => {
                st.record_unexpected_eof();
                r.errs.push(("error.unexpected_eof", String::new(), r.text.len()));
            }
            6 => {
                let e = st.unexpected_eof();
                r.errs.push(("error.unexpected_eof", String::new(), r.text.len()));
                assert!(read(&e) == r.errs[r.errs.len() - 1], "error returned");
            }
            _ => {
                let e = st.expect(Tk::Str).expect_err("a token of a kind that does not occur");
                r.errs.push(("error.expected_token", "Str".to_string(), at));
                assert!(read(&e) == r.errs[r.errs.len() - 1], "error returned");
            }
        },
        4 => {
            // a part parsed on its own, then taken into the tree
            let mut part = st.nested();
            let from = r.m.clone();
            part.bump();
            let said = vx::flag();
            if said {
                part.record_expected("inner");
            }
            part.bump();
            agree2(st, r);
            let mut inner = Model { out: vec![], ..from };
            inner.bump();
            inner.bump();
            assert!(part.peek_kind() == inner.kind() && part.errors.len() == said as usize, "the part");
            let g = part.finish_at((0, 0), El::Item);
            assert!(same_node(g, El::Item, &inner.out), "tree of the part");
            let g = if vx::flag() {
                let copy = st.promote(g);
                assert!(!std::ptr::eq(copy, g) && same_node(copy, El::Item, &inner.out), "copy of the part");
                copy
            }
            else {
                g
            };
            st.push_child(g);
            r.m.out.push(M::N(El::Item, inner.out));
            vx::cover(2);
        }
        5 => {
            // a node that may be absent or broken
            let (present, broken, steps) = (vx::flag(), vx::flag(), vx::choose(2));
            let n = r.m.out.len();
            let res = if vx::flag() {
                st.incremental_opt(El::Stmt, |st| {
                    for _ in 0..steps {
                        st.bump();
                    }
                    if broken { Err(OakError::custom_error("broken")) } else { Ok(present) }
                })
            }
            else {
                vx::assume(present);
                st.incremental_node(El::Stmt, |st| {
                    for _ in 0..steps {
                        st.bump();
                    }
                    if broken { Err(OakError::custom_error("broken")) } else { Ok(()) }
                })
                .map(|_| true)
            };
            for _ in 0..steps {
                r.m.bump();
            }
            match res {
                Ok(p) => assert!(!broken && p == present, "result of a node"),
                Err(e) => assert!(broken && read(&e).1 == "broken", "error of a node"),
            }
            if broken || present {
                r.m.wrap(n, El::Stmt);
            }
            vx::cover(3);
        }
        _ => {
            // a leaf that comes from elsewhere
            let p = TokenProvenance::from_synthesized("gen");
            st.sink.push_leaf_with_metadata(Tk::Str, 3, p);
            r.m.out.push(M::L(Tk::Str, 3));
        }
    }
}
/// Every sequence of the remaining operations.
#[unsafe(no_mangle)]
pub extern "C" fn h_more_ops() {
    let arena = SyntaxArena::new(1);
    let n = 3;
    let (a, b, s) = tokens(n, &[Tk::Id, Tk::Ws, Tk::Comma]);
    let text: String = s.chars().enumerate().map(|(i, _)| (b'a' + i as u8) as char).collect();
    // the text may go on after the last token
    let text = if vx::flag() { format!("{text}..") } else { text };
    let src = SourceText::new_with_id(text.clone(), FILE);
    let mut errs = vec![];
    let mut diagnostics = vec![];
    for i in 0..vx::choose(3) {
        diagnostics.push(OakError::unexpected_character('!', i, Some(FILE)));
    }
    let odd = diagnostics.len();
    let failed = vx::flag();
    let mut toks = b;
    if failed {
        toks.clear();
    }
    let result = if failed { Err(OakError::custom_error("lexer")) } else { Ok(a.into()) };
    let mut st: S = ParserState::new(&arena, OakDiagnostics { result, diagnostics }, &src, 8);
    // what the lexer said comes first
    assert!(st.errors.len() == odd + failed as usize, "errors of the lexer");
    let mut from = 0;
    if failed {
        assert!(read(&st.errors[0]) == ("error.custom", "lexer".to_string(), 0), "failure of the lexer");
        from = 1;
        vx::cover(4);
    }
    for i in 0..odd {
        let OakErrorKind::UnexpectedCharacter { offset, .. } = st.errors[from + i].kind() else { panic!("error of the lexer") };
        assert!(*offset == i, "order of the errors");
    }
    let kept: Vec<OakError> = st.errors.drain(..).collect();
    let mut r = Ref { m: Model { toks, at: 0, out: vec![], errs: vec![], src: text.len() }, text, errs: std::mem::take(&mut errs) };
    r.m.skip();
    agree2(&st, &r);
    let steps = if failed || odd > 0 { 1 } else if T { 3 } else { 2 };
    for _ in 0..steps {
        op(vx::choose(7), &mut st, &mut r);
        agree2(&st, &r);
    }
    let total = kept.len() + st.errors.len();
    let mut all = kept;
    all.append(&mut st.errors);
    st.errors = all;
    let g = st.finish_at((0, 0), El::Root);
    r.m.wrap(0, El::Root);
    let M::N(k, c) = &r.m.out[0] else { unreachable!() };
    assert!(same_node(g, *k, c), "tree differs from the model");
    let metas = count_meta(g, &st);
    assert!(metas == count_str(&r.m.out[0]), "leaves from elsewhere");
    let good = vx::flag();
    let out = st.finish(if good { Ok(g) } else { Err(OakError::custom_error("end")) });
    assert!(out.diagnostics.len() == total, "errors kept at the end");
    match out.result {
        Ok(x) => assert!(good && std::ptr::eq(x, g), "tree handed out"),
        Err(e) => assert!(!good && read(&e).1 == "end", "failure handed out"),
    }
    vx::cover(1);
}
/// Leaves whose provenance reads back from the arena.
fn count_meta(g: &GreenNode<Toy>, st: &S) -> usize {
    g.children
        .iter()
        .map(|c| match c {
            GreenTree::Node(n) => count_meta(n, st),
            GreenTree::Leaf(l) => match l.metadata {
                None => {
                    assert!(l.kind != Tk::Str, "leaf without its origin");
                    0
                }
                Some(i) => {
                    let p = st.arena().get_metadata(i).expect("origin of a leaf");
                    assert!(*p == TokenProvenance::from_synthesized("gen"), "origin of a leaf");
                    1
                }
            },
        })
        .sum()
}
fn count_str(m: &M) -> usize {
    match m {
        M::L(k, _) => (*k == Tk::Str) as usize,
        M::N(_, c) => c.iter().map(count_str).sum(),
    }
}

use oak_core::language::{ElementRole, TokenRole, UniversalElementRole, UniversalTokenRole};
const TOKENS: [UniversalTokenRole; 11] = {
    use UniversalTokenRole::*;
    [Keyword, Name, Literal, Escape, Operator, Punctuation, Comment, Whitespace, Error, None, Eof]
};
const ELEMENTS: [UniversalElementRole; 19] = {
    use UniversalElementRole::*;
    [Root, Container, Definition, Binding, Reference, Typing, Documentation, Metadata, Attribute, Error, None, Call, Value, Expression, Statement, AttributeKey, Detail, Name, Embedded]
};
/// A role of one language: a universal one, or a finer one of it.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Fine<R>(R, bool);
impl TokenRole for Fine<UniversalTokenRole> {
    fn universal(&self) -> UniversalTokenRole {
        self.0
    }
    fn name(&self) -> &str {
        if self.1 { "fine" } else { self.0.name() }
    }
}
impl ElementRole for Fine<UniversalElementRole> {
    fn universal(&self) -> UniversalElementRole {
        self.0
    }
    fn name(&self) -> &str {
        if self.1 { "fine" } else { self.0.name() }
    }
}
/// A token and an element that are nothing but their role.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Kind<R>(Fine<R>);
impl TokenType for Kind<UniversalTokenRole> {
    const END_OF_STREAM: Self = Kind(Fine(UniversalTokenRole::Eof, false));
    type Role = Fine<UniversalTokenRole>;
    fn role(&self) -> Self::Role {
        self.0
    }
}
impl ElementType for Kind<UniversalElementRole> {
    type Role = Fine<UniversalElementRole>;
    fn role(&self) -> Self::Role {
        self.0
    }
}
/// What a role makes of a kind.
#[unsafe(no_mangle)]
pub extern "C" fn h_roles() {
    let (a, b) = (TOKENS[vx::choose(11)], TOKENS[vx::choose(11)]);
    let (fa, fb) = (vx::flag(), vx::flag());
    let k = Kind(Fine(a, fa));
    assert!(k.is_role(Fine(b, fb)) == (a == b && fa == fb) && k.is_universal(b) == (a == b), "role of a token");
    let (blank, note) = (a == UniversalTokenRole::Whitespace, a == UniversalTokenRole::Comment);
    assert!(k.is_whitespace() == blank && k.is_comment() == note && k.is_ignored() == (blank || note), "trivia");
    assert!(k.is_error() == (a == UniversalTokenRole::Error), "token in error");
    assert!(k.is_end_of_stream() == (a == UniversalTokenRole::Eof && !fa), "end of the tokens");
    assert!(a.universal() == a && !a.name().is_empty() && (a.name() == b.name()) == (a == b), "name of a token role");
    let (a, b) = (ELEMENTS[vx::choose(19)], ELEMENTS[vx::choose(19)]);
    let e = Kind(Fine(a, fa));
    assert!(e.is_role(Fine(b, fb)) == (a == b && fa == fb) && e.is_universal(b) == (a == b), "role of an element");
    assert!(e.is_root() == (a == UniversalElementRole::Root) && e.is_error() == (a == UniversalElementRole::Error), "root and error");
    assert!(a.universal() == a && !a.name().is_empty() && (a.name() == b.name()) == (a == b), "name of an element role");
}
