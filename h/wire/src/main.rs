#![feature(new_range_api)]
//! P33: what is written out for the other side of a connection reads back as what it was.
use core::range::Range;
use oak_core::{
    Arc,
    language::{LanguageCategory, UniversalElementRole as El, UniversalTokenRole as Tr},
    lexer::{Token, TokenStream},
    tree::{ProvenancePart, TokenProvenance},
};
use oak_lsp as lsp;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, from_value, json, to_value};
const T: bool = cfg!(feature = "thorough");

fn round<X: Serialize + DeserializeOwned>(x: &X) -> X {
    let v = to_value(x).expect("a value is written");
    from_value(v).expect("a written value is read")
}
macro_rules! kept {
    ($v:expr; $($f:ident),*) => {{
        let v = $v;
        let w = round(&v);
        $( assert!(w.$f == v.$f, concat!("what comes back differs in ", stringify!($f))); )*
    }};
}
fn num() -> usize {
    vx::bits(64, 0) as usize
}
fn range() -> Range<usize> {
    Range { start: num(), end: num() }
}
fn text() -> String {
    vx::text(if T { 3 } else { 2 }, 3)
}
fn small() -> String {
    vx::text(1, 1)
}
fn maybe<X>(f: impl FnOnce() -> X) -> Option<X> {
    if vx::flag() { Some(f()) } else { None }
}
fn arc(s: &str) -> Arc<str> {
    Arc::from(s)
}
const ELEMENTS: [El; 19] = [
    El::Root,
    El::Container,
    El::Definition,
    El::Binding,
    El::Reference,
    El::Typing,
    El::Documentation,
    El::Metadata,
    El::Attribute,
    El::AttributeKey,
    El::Detail,
    El::Name,
    El::Statement,
    El::Expression,
    El::Call,
    El::Value,
    El::Embedded,
    El::Error,
    El::None,
];
const TOKENS: [Tr; 11] = [Tr::Keyword, Tr::Name, Tr::Literal, Tr::Escape, Tr::Operator, Tr::Punctuation, Tr::Comment, Tr::Whitespace, Tr::Error, Tr::None, Tr::Eof];

fn element() -> El {
    ELEMENTS[vx::choose(19)]
}
/// P33: the tokens of a text, and where each came from.
#[unsafe(no_mangle)]
pub extern "C" fn h_wire_tokens() {
    let n = vx::choose(if T { 4 } else { 3 });
    let toks: Vec<Token<Tr>> = (0..n).map(|_| Token { kind: TOKENS[vx::choose(11)], span: range() }).collect();
    let s = TokenStream { raw: text(), tokens: Arc::from_iter(toks.iter().copied()) };
    let w = round(&s);
    assert!(w.raw == s.raw, "the text comes back");
    assert!(w.tokens.len() == n, "as many tokens come back");
    for (a, b) in w.tokens.iter().zip(&toks) {
        assert!(a.kind == b.kind, "the kind of a token comes back");
        assert!(a.span.start == b.span.start && a.span.end == b.span.end, "the place of a token comes back");
        assert!(a == b);
    }
    let parts = vec![ProvenancePart::Source(range()), ProvenancePart::Synthesized(small()), ProvenancePart::OpaqueTag(small())];
    let k = vx::choose(4);
    kept!(TokenProvenance { parts: parts[..k].to_vec() }; parts);
    let c = [LanguageCategory::Programming, LanguageCategory::Markup, LanguageCategory::Config, LanguageCategory::StyleSheet, LanguageCategory::Dsl, LanguageCategory::Modeling, LanguageCategory::Other][vx::choose(7)];
    assert!(round(&c) == c);
    vx::observe(n as u64);
    vx::cover(1);
}
/// P33: places in files, in every type that carries one, and between those types.
#[unsafe(no_mangle)]
pub extern "C" fn h_wire_places() {
    let uri = text();
    let r = range();
    match vx::choose(9) {
        0 => {
            let a = oak_navigation::Location { uri: arc(&uri), range: r };
            assert!(round(&a) == a);
            let b: lsp::LocationRange = a.clone().into();
            assert!(b.uri == a.uri && b.range == a.range, "conversion keeps the place");
            let c: lsp::Location = a.clone().into();
            assert!(c.uri == a.uri && c.range == a.range, "conversion keeps the place");
            // both sides write the same
            let d: lsp::LocationRange = from_value(to_value(&a).unwrap()).unwrap();
            assert!(d == b);
        }
        1 => {
            let a = lsp::LocationRange { uri: arc(&uri), range: r };
            assert!(round(&a) == a);
            let b: lsp::Location = a.clone().into();
            assert!(b.uri == a.uri && b.range == r, "conversion keeps the place");
            let c: lsp::LocationRange = b.into();
            assert!(c == a, "conversion keeps the place");
        }
        2 => kept!(lsp::TextEdit { range: r, new_text: text() }; range, new_text),
        3 => kept!(lsp::Hover { contents: text(), range: maybe(range) }; contents, range),
        4 => kept!(oak_hover::Hover { contents: text(), range: maybe(range) }; contents, range),
        5 => {
            let kind = maybe(|| [lsp::FoldingRangeKind::Comment, lsp::FoldingRangeKind::Imports, lsp::FoldingRangeKind::Region][vx::choose(3)]);
            kept!(lsp::FoldingRange { range: r, kind }; range, kind)
        }
        6 => {
            let p = |a: usize, b: usize| lsp::Position { line: a as u32, character: b as u32 };
            let l = lsp::LspRange { start: p(r.start, r.end), end: p(num(), num()) };
            assert!(round(&l) == l);
            let a = lsp::Location { uri: arc(&uri), range: l };
            assert!(round(&a) == a);
            let kind = maybe(|| [lsp::DocumentHighlightKind::Text, lsp::DocumentHighlightKind::Read, lsp::DocumentHighlightKind::Write][vx::choose(3)]);
            let h = lsp::DocumentHighlight { range: l, kind };
            assert!(round(&h) == h);
        }
        7 => {
            // nested selections
            let mut s = lsp::SelectionRange { range: r, parent: None };
            let depth = vx::choose(3);
            for _ in 0..depth {
                s = lsp::SelectionRange { range: range(), parent: Some(Box::new(s)) }
            }
            let w = round(&s);
            let (mut a, mut b) = (&s, &w);
            loop {
                assert!(a.range == b.range, "a selection comes back");
                match (&a.parent, &b.parent) {
                    (Some(x), Some(y)) => (a, b) = (x, y),
                    (None, None) => break,
                    _ => panic!("nesting is lost"),
                }
            }
        }
        _ => {
            let a = lsp::SourcePosition { line: r.start as u32, column: r.end as u32, offset: num(), length: num() };
            assert!(round(&a) == a);
            let m = oak_vfs::FileMetadata { file_type: [oak_vfs::FileType::File, oak_vfs::FileType::Directory, oak_vfs::FileType::Other][vx::choose(3)], len: num() as u64, modified: maybe(|| num() as u64) };
            kept!(m; file_type, len, modified)
        }
    }
    vx::observe(r.start as u64);
    vx::cover(1);
}
/// P33: symbols, outlines, edits, diagnostics and completions.
#[unsafe(no_mangle)]
pub extern "C" fn h_wire_answers() {
    let name = text();
    let r = range();
    match vx::choose(8) {
        0 => {
            let a = oak_symbols::SymbolInformation { name, role: element(), uri: arc(&small()), range: r, container_name: maybe(small) };
            kept!(a.clone(); name, role, uri, range, container_name);
            let b = lsp::WorkspaceSymbol::from(a.clone());
            assert!(b.name == a.name && b.location.uri == a.uri && b.location.range == a.range && b.container_name == a.container_name, "conversion keeps the symbol");
            kept!(b; name, kind, location, container_name);
            let c = lsp::StructureItem::from(a.clone());
            assert!(c.name == a.name && c.role == a.role && c.range == a.range && c.selection_range == a.range && c.children.is_empty(), "conversion keeps the symbol");
        }
        1 => {
            let item = |name: String, role: El, children| lsp::StructureItem { name, detail: maybe(small), role, kind: role.into(), range: range(), selection_range: range(), deprecated: vx::flag(), children };
            let role = element();
            let kids: Vec<_> = (0..vx::choose(3)).map(|i| item(["x", "y"][i].to_string(), role, vec![])).collect();
            let a = item(name, role, kids);
            let b = round(&a);
            let same = |a: &lsp::StructureItem, b: &lsp::StructureItem| {
                a.name == b.name && a.detail == b.detail && a.role == b.role && a.kind == b.kind && a.range == b.range && a.selection_range == b.selection_range && a.deprecated == b.deprecated && a.children.len() == b.children.len()
            };
            assert!(same(&a, &b), "an outline entry comes back");
            assert!(a.children.iter().zip(&b.children).all(|(x, y)| same(x, y)), "nested entries come back");
            let c = oak_structural_view::StructureItem { name: a.name, detail: a.detail, role, range: a.range, selection_range: a.selection_range, deprecated: a.deprecated, children: vec![] };
            kept!(c; name, detail, role, range, selection_range, deprecated);
        }
        2 => {
            let sev = [lsp::DiagnosticSeverity::Error, lsp::DiagnosticSeverity::Warning, lsp::DiagnosticSeverity::Information, lsp::DiagnosticSeverity::Hint];
            kept!(lsp::Diagnostic { range: r, severity: maybe(|| sev[vx::choose(4)]), code: maybe(small), source: maybe(small), message: name }; range, severity, code, source, message)
        }
        3 => {
            // edits of several files
            let mut e = lsp::WorkspaceEdit::default();
            let n = [vx::choose(3), vx::choose(3)];
            for (u, n) in ["a", "b"].iter().zip(n) {
                e.changes.insert(u.to_string(), (0..n).map(|_| lsp::TextEdit { range: range(), new_text: small() }).collect());
            }
            let w = round(&e);
            assert!(w.changes.len() == 2);
            for u in ["a", "b"] {
                let (x, y) = (&e.changes[u], &w.changes[u]);
                assert!(x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.range == q.range && p.new_text == q.new_text), "the edits of a file come back");
            }
        }
        4 => {
            use oak_diagnostic::{Diagnostic, Label, Severity};
            let labels: Vec<Label> = (0..vx::choose(3)).map(|_| Label { message: maybe(small), span: range(), color: maybe(small) }).collect();
            let mut d = Diagnostic { code: maybe(small), message: name, i18n_key: maybe(small), i18n_args: Default::default(), severity: [Severity::Error, Severity::Warning, Severity::Advice][vx::choose(3)], labels, help: maybe(small) };
            if vx::flag() {
                d.i18n_args.insert("k".into(), small());
            }
            let w = round(&d);
            assert!(w.code == d.code && w.message == d.message && w.i18n_key == d.i18n_key && w.i18n_args == d.i18n_args && w.severity == d.severity && w.help == d.help, "a diagnostic comes back");
            assert!(w.labels.len() == d.labels.len() && w.labels.iter().zip(&d.labels).all(|(a, b)| a.message == b.message && a.span == b.span && a.color == b.color), "its labels come back");
        }
        5 => {
            let c = oak_semantic_search::CodeChunk { text: name, range_start: r.start, range_end: r.end, role: small() };
            kept!(c; text, range_start, range_end, role)
        }
        6 => {
            let s = oak_highlight::HighlightStyle { color: maybe(small), background_color: maybe(small), bold: vx::flag(), italic: vx::flag(), underline: vx::flag() };
            assert!(round(&s) == s);
            let mut t = oak_highlight::HighlightTheme { name, styles: Default::default() };
            t.styles.insert("keyword".into(), s);
            kept!(t; name, styles)
        }
        _ => {
            let n = vx::choose(3);
            let data: Vec<_> = (0..n).map(|_| lsp::SemanticToken { delta_line: num() as u32, delta_start: num() as u32, length: num() as u32, token_type: num() as u32, token_modifiers_bitset: num() as u32 }).collect();
            let s = lsp::SemanticTokens { result_id: maybe(small), data };
            let w = round(&s);
            let k = |t: &lsp::SemanticToken| (t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset);
            assert!(w.result_id == s.result_id && w.data.iter().map(k).eq(s.data.iter().map(k)), "tokens come back");
        }
    }
    vx::observe(r.end as u64);
    vx::cover(1);
}
/// P33: requests as a client writes them, and the remote procedure calls around them.
#[unsafe(no_mangle)]
pub extern "C" fn h_wire_requests() {
    let uri = text();
    let (a, b) = (num(), num());
    let at = json!({ "start": a, "end": b });
    match vx::choose(5) {
        0 => assert!(from_value::<lsp::UriRequest>(json!({ "uri": uri })).unwrap().uri == uri),
        1 => {
            let q: lsp::RangeRequest = from_value(json!({ "uri": uri, "range": at })).unwrap();
            assert!(q.uri == uri && q.range.start == a && q.range.end == b, "the range asked about");
            assert!(from_value::<lsp::RangeRequest>(json!({ "uri": uri })).is_err(), "a request without a range is refused");
        }
        2 => {
            let q: lsp::PositionRequest = from_value(json!({ "uri": uri, "position": a })).unwrap();
            assert!(q.uri == uri && q.position == a);
        }
        3 => assert!(from_value::<lsp::QueryRequest>(json!({ "query": uri })).unwrap().query == uri),
        _ => {
            let new = small();
            let q: lsp::RenameRequest = from_value(json!({ "uri": uri, "range": at, "new_name": new })).unwrap();
            assert!(q.uri == uri && q.range.start == a && q.range.end == b && q.new_name == new);
        }
    }
    let id = [Value::Null, Value::from(a), Value::String(uri.clone())][vx::choose(3)].clone();
    let e = maybe(|| oak_mcp::JsonRpcError { code: b as i32, message: small(), data: maybe(|| Value::from(a)) });
    let result = if e.is_none() { Some(Value::String(uri)) } else { None };
    let p = oak_mcp::JsonRpcResponse { jsonrpc: "2.0".into(), id, result, error: e };
    let w = round(&p);
    assert!(w.jsonrpc == p.jsonrpc && w.id == p.id && w.result == p.result, "a response comes back");
    match (&w.error, &p.error) {
        (Some(x), Some(y)) => assert!(x.code == y.code && x.message == y.message && x.data == y.data, "an error comes back"),
        (None, None) => {}
        _ => panic!("an error is lost"),
    }
    vx::observe(a as u64);
    vx::cover(1);
}
vx::main!(h_wire_tokens, h_wire_places, h_wire_answers, h_wire_requests);
