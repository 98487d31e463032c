//! P06, P08, P09, P24 on the JSON front end.
#![feature(new_range_api)]
#![allow(clippy::all)]
use core::range::Range;
use oak_core::{
    errors::OakError,
    parser::{ParseSession, Parser},
    source::{SourceBuffer, TextEdit, ToSource},
    tree::{GreenNode, GreenTree},
    Lexer, TokenType,
};
use oak_json::{ast::*, JsonElementType as El, JsonLanguage, JsonLexer, JsonParser, JsonTokenType as Tk};
const T: bool = cfg!(feature = "thorough");

fn config() -> JsonLanguage {
    if vx::flag() { JsonLanguage::json5() } else { JsonLanguage::standard() }
}

// ---- P06 ----
/// Is the text between two tokens one of the findings, where no rule matches: a number without digits,
/// the first letter of a keyword the text does not have, in a language without bare keys, or a slash that
/// begins no comment?
fn known_gap(text: &str, mut at: usize, end: usize, cfg: &JsonLanguage) -> bool {
    let b = text.as_bytes();
    let byte = |i: usize| if i < b.len() { b[i] } else { 0 };
    while at < end {
        let rest = &b[at..];
        match b[at] {
            b't' | b'f' | b'n' if !cfg.bare_keys && !rest.starts_with(b"true") && !rest.starts_with(b"false") && !rest.starts_with(b"null") => at += 1,
            b'/' if cfg.comments && byte(at + 1) != b'/' && byte(at + 1) != b'*' => at += 1,
            _ => {
                let start = at;
                at += (byte(at) == b'-') as usize;
                if cfg.hex_numbers && byte(at) == b'0' && byte(at + 1) | 32 == b'x' {
                    at += 2;
                }
                if byte(at).is_ascii_digit() || at == start {
                    return false;
                }
                at += (byte(at) == b'.') as usize;
                if byte(at).is_ascii_digit() {
                    return false;
                }
                if byte(at) | 32 == b'e' {
                    at += 1;
                    at += (byte(at) == b'+' || byte(at) == b'-') as usize;
                    while byte(at).is_ascii_digit() {
                        at += 1;
                    }
                }
            }
        }
    }
    at == end
}
fn tiles(text: &str, cfg: &JsonLanguage) {
    let mut s = ParseSession::<JsonLanguage>::new(1);
    let t = JsonLexer::new(cfg).lex(text, &[], &mut s).result.expect("lexing fails");
    let mut at = 0;
    for (i, k) in t.iter().enumerate() {
        assert!(at <= k.span.start && known_gap(text, at, k.span.start, cfg), "gap or overlap");
        assert!(text.is_char_boundary(k.span.end), "inside a character");
        let last = i + 1 == t.len();
        assert!((k.kind == Tk::Eof) == last, "end of file token");
        assert!(last == (k.span.end == k.span.start), "empty token");
        at = k.span.end;
    }
    assert!(!t.is_empty() && at == text.len(), "the text is not covered");
    vx::observe(t.len() as u64);
    vx::cover(1);
}
/// P06: every text.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_lex() {
    tiles(&vx::text(if T { 4 } else { 3 }, 3), &config())
}
/// P06: longer texts over the characters the lexer distinguishes.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_lex_long() {
    tiles(&vx::over_upto(b"-0.exX+t\"'\\/*\n{$", if T { 6 } else { 5 }), &config())
}
/// P06: words.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_lex_words() {
    let t = vx::pick(&["tru#e", "#true", "fals#", "null#", "nul#1", "-#0.#e", "0x#f", "/*#*/#", "//#\n#", "\"\\#\"#", "\"\\u00#", "'\\#'", "[#,\"a#\":#]"]);
    tiles(&vx::template(t, b'#'), &config())
}

/// P06, finding: text no rule matches is left between the tokens.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_lex_gaps() {
    let (text, cfg) = [("-", JsonLanguage::standard()), ("[tru]", JsonLanguage::standard()), ("0x", JsonLanguage::json5()), ("/1", JsonLanguage::json5())][vx::choose(4)].clone();
    let mut s = ParseSession::<JsonLanguage>::new(1);
    let t = JsonLexer::new(&cfg).lex(text, &[], &mut s).result.unwrap();
    assert!(t.iter().map(|k| k.length()).sum::<usize>() == text.len(), "gap");
}

// ---- P08 ----
/// The grammar, on the kinds of the tokens.
struct Oracle<'a> {
    t: &'a [Tk],
    i: usize,
    cfg: &'a JsonLanguage,
}
impl Oracle<'_> {
    fn at(&self) -> Tk {
        self.t.get(self.i).copied().unwrap_or(Tk::Eof)
    }
    fn eat(&mut self, k: Tk) -> bool {
        let y = self.at() == k;
        self.i += y as usize;
        y
    }
    fn value(&mut self) -> bool {
        let k = self.at();
        match k {
            Tk::LeftBrace | Tk::LeftBracket => {
                let close = if k == Tk::LeftBrace { Tk::RightBrace } else { Tk::RightBracket };
                self.i += 1;
                if self.eat(close) {
                    return true;
                }
                loop {
                    if k == Tk::LeftBrace {
                        let key = self.eat(Tk::StringLiteral) || self.cfg.bare_keys && self.eat(Tk::BareKey);
                        if !key || !self.eat(Tk::Colon) {
                            return false;
                        }
                    }
                    if !self.value() {
                        return false;
                    }
                    if self.eat(close) {
                        return true;
                    }
                    if !self.eat(Tk::Comma) {
                        return false;
                    }
                    if self.cfg.trailing_comma && self.eat(close) {
                        return true;
                    }
                }
            }
            Tk::StringLiteral | Tk::NumberLiteral | Tk::BooleanLiteral | Tk::NullLiteral => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
}
fn error_offset(e: &OakError) -> Option<usize> {
    use oak_core::errors::OakErrorKind as K;
    match e.kind() {
        K::SyntaxError { offset, .. } | K::UnexpectedToken { offset, .. } | K::UnexpectedEof { offset, .. } | K::ExpectedToken { offset, .. } | K::ExpectedName { offset, .. } | K::TrailingCommaNotAllowed { offset, .. } => Some(*offset),
        _ => None,
    }
}
fn leaves(n: &GreenNode<JsonLanguage>, out: &mut Vec<(Tk, usize)>) {
    let mut sum = 0;
    for c in n.children {
        sum += c.len();
        match c {
            GreenTree::Node(n) => leaves(n, out),
            GreenTree::Leaf(l) => out.push((l.kind, l.length as usize)),
        }
    }
    assert!(sum == n.text_len, "node length");
}
fn lossless(text: &str, cfg: &JsonLanguage) {
    let mut s = ParseSession::<JsonLanguage>::new(1);
    let toks = JsonLexer::new(cfg).lex(text, &[], &mut s).result.unwrap();
    // texts with the finding of P06
    vx::assume(toks.iter().map(|t| t.length()).sum::<usize>() == text.len());
    let o = JsonParser::new(cfg).parse(text, &[], &mut s);
    for e in &o.diagnostics {
        assert!(error_offset(e).is_some_and(|p| p <= text.len()), "error position");
    }
    let kinds: Vec<Tk> = toks.iter().map(|t| t.kind).filter(|k| !k.is_ignored()).collect();
    let mut g = Oracle { t: &kinds, i: 0, cfg };
    let one = g.value();
    let valid = one && g.at() == Tk::Eof;
    // text after a value is the finding below
    vx::assume(!one || valid);
    assert!(o.diagnostics.is_empty() == valid, "valid without errors, invalid with errors");
    let r = o.result.unwrap();
    let mut l = vec![];
    leaves(r, &mut l);
    // a document that is not understood may end the tree early
    // blanks before the value are the finding below
    let lead = toks.iter().take_while(|t| t.kind.is_ignored()).count();
    let toks = &toks[lead..];
    assert!(l.len() < toks.len() && l.iter().zip(toks.iter()).all(|(a, t)| a.0 == t.kind && a.1 == t.length()), "leaves are the tokens, in order");
    if one {
        assert!(r.text_len as usize == text.len() - toks[0].span.start && l.len() + 1 == toks.len(), "the tree covers the text");
    }
    if valid {
        vx::cover(2);
    }
    vx::observe(l.len() as u64);
    vx::observe(o.diagnostics.len() as u64);
    vx::cover(1);
}
/// P08, finding: blanks before the value and text after it are not in the tree, without a diagnostic.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_parse_around() {
    let text = [" 1", "1 2", "[]]"][vx::choose(3)];
    let cfg = JsonLanguage::standard();
    let mut s = ParseSession::<JsonLanguage>::new(1);
    let o = JsonParser::new(&cfg).parse(text, &[], &mut s);
    assert!(!o.diagnostics.is_empty() || o.result.unwrap().text_len as usize == text.len(), "text without a diagnostic outside the tree");
}
/// P08: every text.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_parse() {
    lossless(&vx::text(if T { 4 } else { 3 }, 2), &config())
}
/// P08: longer texts over the significant characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_parse_long() {
    lossless(&vx::over_upto(b"[]{},:1k ", if T { 6 } else { 5 }), &config())
}
/// P08: objects.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_parse_object() {
    let d = |n: usize| vx::over_upto(b"{}[],:1 ", n);
    let text = match vx::choose(3) {
        0 => format!("{{\"a\"{}", d(if T { 5 } else { 4 })),
        1 => format!(" {{\"a\":1,{}\"\":{}}}", d(2), d(2)),
        _ => format!("[{{\"\":[]{}}}]{}", d(2), d(if T { 3 } else { 2 })),
    };
    lossless(&text, &config())
}

// ---- P09 ----
#[derive(Clone, PartialEq, Debug)]
enum M {
    L(Tk, u32),
    N(El, Vec<M>),
}
fn snapshot(n: &GreenNode<JsonLanguage>) -> M {
    M::N(
        n.kind,
        n.children
            .iter()
            .map(|c| match c {
                GreenTree::Leaf(l) => M::L(l.kind, l.length),
                GreenTree::Node(n) => snapshot(n),
            })
            .collect(),
    )
}
fn reparse(s: &mut ParseSession<JsonLanguage>, cfg: &JsonLanguage, old: &str, edits: &[(usize, usize, &str)], flip: bool) -> String {
    let mut new = old.to_string();
    for (a, b, t) in edits.iter().rev() {
        new.replace_range(*a..*b, t);
    }
    let mut e: Vec<TextEdit> = edits.iter().map(|(a, b, t)| TextEdit { span: Range { start: *a, end: *b }, text: t.to_string().into() }).collect();
    if flip {
        e.reverse();
    }
    let mut f = ParseSession::<JsonLanguage>::new(1);
    let full = JsonParser::new(cfg).parse(new.as_str(), &[], &mut f);
    let want = snapshot(full.result.unwrap());
    let inc = JsonParser::new(cfg).parse(new.as_str(), &e, s);
    assert!(snapshot(inc.result.unwrap()) == want, "incremental tree differs");
    let places = |d: &[OakError]| d.iter().map(|e| (std::mem::discriminant(e.kind()), error_offset(e))).collect::<Vec<_>>();
    assert!(places(&inc.diagnostics) == places(&full.diagnostics), "incremental errors differ");
    new
}
const DOCS: [&str; 7] = ["[1,2]", "{\"a\":1}", "[[],{}]", "{\"a\":[1,2],\"b\":{}}", "[1,", "{\"a\":,\"b\":2}", " [ 1 ] "];
/// P09: one edit.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_reparse() {
    let old = vx::pick(&DOCS);
    let a = vx::choose(old.len() as u64 + 1);
    let b = a + vx::choose(((old.len() - a) as u64 + 1).min(4));
    let ins = vx::over_upto(b"[]{},:1\" ", if T { 3 } else { 2 });
    let cfg = JsonLanguage::standard();
    let mut s = ParseSession::<JsonLanguage>::new(1);
    JsonParser::new(&cfg).parse(old, &[], &mut s).result.unwrap();
    reparse(&mut s, &cfg, old, &[(a, b, &ins)], false);
    vx::cover(1);
}
/// P09: several edits one after the other.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_reparse_history() {
    let cfg = JsonLanguage::standard();
    let mut doc = vx::pick(&["[1,2]", "{\"a\":{}}", "[{\"a\":1}]"]).to_string();
    let mut s = ParseSession::<JsonLanguage>::new(1);
    JsonParser::new(&cfg).parse(doc.as_str(), &[], &mut s).result.unwrap();
    for _ in 0..if T { 3 } else { 2 } {
        let a = vx::choose(doc.len() as u64 + 1);
        let b = a + vx::choose(((doc.len() - a) as u64 + 1).min(3));
        let ins = vx::pick(&["", " ", "1", "[", "]", ",", "{}", "\""]);
        doc = reparse(&mut s, &cfg, &doc, &[(a, b, ins)], false);
    }
    vx::cover(1);
}
/// P09: two edits at once.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_reparse_batch() {
    let cfg = JsonLanguage::standard();
    let old = vx::pick(&["[1,2,3]", "{\"a\":1,\"b\":[2]}", "[[],[],[]]"]);
    let n = old.len() as u64;
    let a = vx::choose(n + 1);
    let b = a + vx::choose((n - a as u64 + 1).min(3));
    let c = b + vx::choose(n - b as u64 + 1);
    let d = c + vx::choose((n - c as u64 + 1).min(3));
    vx::assume(b < c);
    let (i, j) = (vx::pick(&["", " ", "1,", "[", "]"]), vx::pick(&["", "1", "]", ","]));
    let mut s = ParseSession::<JsonLanguage>::new(1);
    JsonParser::new(&cfg).parse(old, &[], &mut s).result.unwrap();
    reparse(&mut s, &cfg, old, &[(a, b, i), (c, d, j)], vx::flag());
    vx::cover(1);
}

// ---- P24 ----
fn same(a: &JsonValue, b: &JsonValue) -> bool {
    match (a, b) {
        (JsonValue::Null(_), JsonValue::Null(_)) => true,
        (JsonValue::Boolean(a), JsonValue::Boolean(b)) => a.value == b.value,
        (JsonValue::Number(a), JsonValue::Number(b)) => a.value.to_bits() == b.value.to_bits(),
        (JsonValue::String(a), JsonValue::String(b)) => a.value == b.value,
        (JsonValue::Array(a), JsonValue::Array(b)) => a.elements.len() == b.elements.len() && a.elements.iter().zip(&b.elements).all(|(a, b)| same(a, b)),
        (JsonValue::Object(a), JsonValue::Object(b)) => a.fields.len() == b.fields.len() && a.fields.iter().zip(&b.fields).all(|(a, b)| a.name.value == b.name.value && same(&a.value, &b.value)),
        _ => false,
    }
}
fn round_trip(v: &JsonValue) {
    let text = v.to_string();
    let mut b = SourceBuffer::new();
    v.to_source(&mut b);
    assert!(same(&oak_json::parse(&text).expect("written text is rejected"), v), "value changed");
    let src = b.finish();
    assert!(same(&oak_json::parse(&src).expect("written source is rejected"), v), "value changed by to_source");
    // blanks around and inside change nothing
    vx::observe_bytes(text.as_bytes());
}
fn string(s: &str) -> JsonValue {
    JsonValue::from(s)
}
fn array(e: Vec<JsonValue>) -> JsonValue {
    JsonValue::from(e)
}
fn object(f: Vec<(String, JsonValue)>) -> JsonValue {
    let span = Range { start: 0, end: 0 };
    JsonValue::Object(JsonObject { fields: f.into_iter().map(|(k, v)| JsonField { name: JsonString { value: k, span }, value: v, span }).collect(), span })
}
/// P24: every string, alone, as an element and as a key.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_string() {
    let s = vx::text(3, 3);
    // the writer does not escape, a finding
    for b in s.bytes() {
        vx::assume((b != b'"') & (b != b'\\'));
    }
    round_trip(&match vx::choose(3) {
        0 => string(&s),
        1 => array(vec![string(&s), string("")]),
        _ => object(vec![(s, string(","))]),
    });
    vx::cover(1);
}
/// P24: every four-byte character, with a symbolic or quoted neighbour.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_string_wide() {
    let mut s = vec![];
    let first = vx::flag();
    if first && T {
        vx::push_char(&mut s, 1);
        vx::assume((s[0] != b'"') & (s[0] != b'\\'));
    }
    else if first {
        s.push(b"a'\x1f\n"[vx::choose(4)]);
    }
    vx::push_char(&mut s, 4);
    if !first {
        s.push(b"'n\x1f\x7f"[vx::choose(4)]);
    }
    round_trip(&string(&String::from_utf8(s).unwrap()));
    vx::cover(1);
}
fn value(depth: usize) -> JsonValue {
    match vx::choose(if depth > 0 { 7 } else { 5 }) {
        0 => JsonValue::from(()),
        1 => JsonValue::from(vx::flag()),
        2 => JsonValue::from([0.0, -0.0, 1.0, -12.5, 1e21, 1.5e-7, 123456789012.0, 5e-324, f64::MAX][vx::choose(9)]),
        3 => string(vx::pick(&["", "a", "'", "null", "\n", "\u{1}", "}", "é"])),
        4 => array(vec![]),
        5 => array((0..vx::choose(if T { 4 } else { 3 })).map(|_| value(depth - 1)).collect()),
        _ => object((0..vx::choose(3)).map(|_| (vx::pick(&["", "a", "'", ":"]).to_string(), value(depth - 1))).collect()),
    }
}
fn nested(depth: usize) -> JsonValue {
    match vx::choose(if depth > 0 { 5 } else { 3 }) {
        0 => JsonValue::from(()),
        1 => JsonValue::from(-12.5),
        2 => string("],"),
        3 => array((0..vx::choose(3)).map(|_| nested(depth - 1)).collect()),
        _ => object((0..vx::choose(if T { 3 } else { 2 })).map(|_| (vx::pick(&["", "a'"]).to_string(), nested(depth - 1))).collect()),
    }
}
/// P24: every nested value.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_value() {
    round_trip(&if vx::flag() { value(1) } else { nested(2) });
    vx::cover(1);
}
/// P24: blanks after brackets, braces and commas and around colons do not change the value.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_read() {
    let blank = || vx::over_upto(b" \t\n\r", 1);
    let inner = value(0);
    let t = inner.to_string();
    let (text, want) = match vx::choose(3) {
        0 => (t, inner),
        1 => (format!("[{}{},{}null]{}", blank(), t, blank(), blank()), array(vec![inner, JsonValue::from(())])),
        _ => (format!("{{{}\"k\"{}:{}{}}}{}", blank(), blank(), blank(), t, blank()), object(vec![("k".into(), inner)])),
    };
    let got = oak_json::parse(&text).expect("rejected");
    assert!(same(&got, &want), "value");
    vx::cover(1);
}
/// P24, finding: the writer does not escape quotes and backslashes.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_write_escapes() {
    let v = string(["\"", "\\", "a\"b"][vx::choose(3)]);
    assert!(oak_json::parse(&v.to_string()).is_ok_and(|w| same(&w, &v)), "value changed");
}
/// P24, finding: the reader keeps escape sequences as they are written.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_read_escapes() {
    let (t, want) = [("\"\\n\"", "\n"), ("\"\\u0041\"", "A"), ("\"\\\\\"", "\\")][vx::choose(3)];
    assert!(oak_json::parse(t).unwrap().as_str() == Some(want), "decoded text");
}
/// P24, finding: blanks after a scalar are taken for a part of it, and blanks before the value shift it.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_read_blanks() {
    let (t, want) = match vx::choose(4) {
        0 => (" [1]", array(vec![JsonValue::from(1.0)])),
        1 => ("[1 ]", array(vec![JsonValue::from(1.0)])),
        2 => ("[\"a\" ]", array(vec![string("a")])),
        _ => ("[true ]", array(vec![JsonValue::from(true)])),
    };
    assert!(oak_json::parse(t).is_ok_and(|v| same(&v, &want)), "value");
}
/// P24, finding: text after the value is accepted.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_read_trailing() {
    assert!(oak_json::parse(["[]]", "{},"][vx::choose(2)]).is_err(), "trailing text accepted");
}

// ---- P35 ----
/// P35: values written with the macro.
#[unsafe(no_mangle)]
pub extern "C" fn h_json_macro() {
    let s = vx::text(if T { 3 } else { 2 }, 3);
    let n = vx::choose(4) as i32 - 1;
    let yes = vx::flag();
    let sp = || Range { start: 0, end: 0 };
    let text = |s: &str| JsonValue::String(JsonString { value: s.to_string(), span: sp() });
    let num = |n: i32| JsonValue::Number(JsonNumber { value: n as f64, span: sp() });
    let flag = |value| JsonValue::Boolean(JsonBoolean { value, span: sp() });
    let null = || JsonValue::Null(JsonNull { span: sp() });
    let list = |elements| JsonValue::Array(JsonArray { elements, span: sp() });
    let object = |f: Vec<(&str, JsonValue)>| JsonValue::Object(JsonObject { fields: f.into_iter().map(|(k, value)| JsonField { name: JsonString { value: k.to_string(), span: sp() }, value, span: sp() }).collect(), span: sp() });
    let (made, want) = match vx::choose(6) {
        0 => (oak_json::json!(null), null()),
        1 => (oak_json::json!([null, true, false, 7, "x\n\"", [], {}]), list(vec![null(), flag(true), flag(false), num(7), text("x\n\""), list(vec![]), object(vec![])])),
        2 => (oak_json::json!({ "a b": s.clone(), c: n, "d": yes, e: [n, yes, s.clone()], "a b": null }), object(vec![("a b", text(&s)), ("c", num(n)), ("d", flag(yes)), ("e", list(vec![num(n), flag(yes), text(&s)])), ("a b", null())])),
        3 => (oak_json::json!({ x: { y: { z: [s.as_str()] }, }, }), object(vec![("x", object(vec![("y", object(vec![("z", list(vec![text(&s)]))]))]))])),
        4 => (oak_json::json!([n + 1, -n, !yes, if yes { 1 } else { 2 }, (s.clone())]), list(vec![num(n + 1), num(-n), flag(!yes), num(if yes { 1 } else { 2 }), text(&s)])),
        _ => (oak_json::json!([2.5, 0, 1.0]), list(vec![JsonValue::Number(JsonNumber { value: 2.5, span: sp() }), num(0), num(1)])),
    };
    assert!(made == want, "the value that was written");
    vx::observe(s.len() as u64);
    vx::cover(1);
}

vx::main!(h_json_macro, h_json_lex_gaps, h_json_parse_around, h_json_lex, h_json_lex_long, h_json_lex_words, h_json_parse, h_json_parse_long, h_json_parse_object, h_json_reparse, h_json_reparse_history, h_json_reparse_batch, h_json_string, h_json_string_wide, h_json_value, h_json_read, h_json_write_escapes, h_json_read_escapes, h_json_read_blanks, h_json_read_trailing);
