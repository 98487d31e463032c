//! Errors, the diagnostics made of them, and their messages in another language.
use crate::*;
use oak_core::errors::{OakDiagnostics, OakErrorKind};
use oak_diagnostic::Localizer;
use std::collections::HashMap;
use std::path::PathBuf;

/// What an error was built from.
#[derive(Clone, Default, PartialEq, Debug)]
struct Said {
    key: &'static str,
    texts: Vec<String>,
    letter: Option<char>,
    at: Option<usize>,
    file: Option<u32>,
    placed: bool,
}
/// What an error holds, read from its fields.
fn said(k: &OakErrorKind) -> Said {
    use OakErrorKind::*;
    let mut s = Said { key: k.key(), ..Said::default() };
    let mut place = |at: Option<usize>, file: Option<u32>| {
        s.at = at;
        s.file = file;
        s.placed = true;
    };
    match k {
        IoError { error, source_id } => {
            place(None, *source_id);
            s.texts = vec![error.to_string()];
        }
        SyntaxError { message, offset, source_id } => {
            place(Some(*offset), *source_id);
            s.texts = vec![message.clone()];
        }
        UnexpectedCharacter { character, offset, source_id } => {
            place(Some(*offset), *source_id);
            s.letter = Some(*character);
        }
        UnexpectedToken { token, offset, source_id } => {
            place(Some(*offset), *source_id);
            s.texts = vec![token.clone()];
        }
        UnexpectedEof { offset, source_id } | TrailingCommaNotAllowed { offset, source_id } => place(Some(*offset), *source_id),
        ExpectedToken { expected, offset, source_id } => {
            place(Some(*offset), *source_id);
            s.texts = vec![expected.clone()];
        }
        ExpectedName { name_kind, offset, source_id } => {
            place(Some(*offset), *source_id);
            s.texts = vec![name_kind.clone()];
        }
        CustomError { message } | InvalidTheme { message } | FormatError { message } | SemanticError { message } | ProtocolError { message } | SerdeError { message } | DeserializeError { message } | XmlError { message } | ZipError { message } | ParseError { message } | InternalError { message } => s.texts = vec![message.clone()],
        UnsupportedFormat { format } => s.texts = vec![format.clone()],
        ColorParseError { color } => s.texts = vec![color.clone()],
        TestFailure { path, expected, actual } => s.texts = vec![path.to_str().unwrap().to_string(), expected.clone(), actual.clone()],
        TestRegenerated { path } => s.texts = vec![path.to_str().unwrap().to_string()],
    }
    s
}
fn letter() -> char {
    let mut s = Vec::new();
    vx::push_char(&mut s, vx::choose(4) + 1);
    String::from_utf8(s).unwrap().chars().next().unwrap()
}
const KINDS: usize = 23;
/// Any error with what it was built from.
fn any_error(message: &str, letter: char, at: usize, file: Option<u32>) -> (OakError, Said) {
    let m = message.to_string();
    let one = |key| Said { key, texts: vec![m.clone()], ..Said::default() };
    let placed = |key, texts: Vec<String>| Said { key, texts, at: Some(at), file, placed: true, ..Said::default() };
    match vx::choose(KINDS as u64) {
        0 => {
            let e = std::io::Error::new(std::io::ErrorKind::NotFound, m.clone());
            match file {
                Some(f) => (OakError::io_error(e, f), Said { key: "error.io", texts: vec![m.clone()], file, placed: true, ..Said::default() }),
                None => (OakError::from(e), Said { key: "error.io", texts: vec![m.clone()], placed: true, ..Said::default() }),
            }
        }
        1 => (OakError::syntax_error(message, at, file), placed("error.syntax", vec![m.clone()])),
        2 => (OakError::unexpected_character(letter, at, file), Said { letter: Some(letter), ..placed("error.unexpected_character", vec![]) }),
        3 => (OakError::unexpected_token(message, at, file), placed("error.unexpected_token", vec![m.clone()])),
        4 => (OakError::unexpected_eof(at, file), placed("error.unexpected_eof", vec![])),
        5 => (OakError::custom_error(message), one("error.custom")),
        6 => (OakError::invalid_theme(message), one("error.invalid_theme")),
        7 => (OakError::unsupported_format(message), one("error.unsupported_format")),
        8 => (OakError::color_parse_error(message), one("error.color_parse")),
        9 => (OakError::format_error(message), one("error.format")),
        10 => (OakError::semantic_error(message), one("error.semantic")),
        11 => (OakError::protocol_error(message), one("error.protocol")),
        12 => (OakError::expected_token(message, at, file), placed("error.expected_token", vec![m.clone()])),
        13 => (OakError::expected_name(message, at, file), placed("error.expected_name", vec![m.clone()])),
        14 => (OakError::trailing_comma_not_allowed(at, file), placed("error.trailing_comma_not_allowed", vec![])),
        15 => (OakError::test_failure(PathBuf::from("p"), m.clone(), "other".to_string()), Said { key: "error.test_failure", texts: vec!["p".to_string(), m.clone(), "other".to_string()], ..Said::default() }),
        16 => (OakError::test_regenerated(PathBuf::from("p")), Said { key: "error.test_regenerated", texts: vec!["p".to_string()], ..Said::default() }),
        17 => (OakError::serde_error(message), one("error.serde")),
        18 => (OakError::deserialize_error(message), one("error.deserialize")),
        19 => (OakError::xml_error(message), one("error.xml")),
        20 => (OakError::zip_error(message), one("error.zip")),
        21 => (OakError::parse_error(message), one("error.parse")),
        _ => (OakError::internal_error(message), one("error.internal")),
    }
}
fn any_file() -> Option<u32> {
    vx::flag().then(|| vx::bits(32, 7) as u32)
}
/// Copies, the file an error is given, and results with diagnostics.
#[unsafe(no_mangle)]
pub extern "C" fn h_error_values() {
    let message = vx::text(2, 3);
    let at = vx::bits(64, 5) as usize;
    let file = any_file();
    let (e, want) = any_error(&message, letter(), at, file);
    assert!(said(e.kind()) == want, "what an error holds");
    let copy = e.clone();
    assert!(said(copy.kind()) == want, "copy of an error");
    if let (OakErrorKind::IoError { error: a, .. }, OakErrorKind::IoError { error: b, .. }) = (e.kind(), copy.kind()) {
        assert!(a.kind() == b.kind(), "copy of an input or output error");
        vx::cover(1);
    }
    let f = vx::bits(32, 9) as u32;
    let placed = copy.with_source_id(f);
    let mut moved = want.clone();
    if want.placed {
        moved.file = Some(f);
        vx::cover(2);
    }
    assert!(said(placed.kind()) == moved, "an error given its file");
    assert!(said(e.kind()) == want, "error changed through its copy");
    // results
    let r: OakDiagnostics<u8> = match vx::choose(3) {
        0 => OakDiagnostics::success(1),
        1 => OakDiagnostics::error(e.clone()),
        _ => OakDiagnostics::new(if vx::flag() { Ok(1) } else { Err(e.clone()) }),
    };
    let mut r = r;
    if vx::flag() {
        r.diagnostics.push(placed);
    }
    let ok = matches!(r.result, Ok(1));
    if let Err(x) = &r.result {
        assert!(said(x.kind()) == want, "error of a result");
    }
    assert!(r.has_errors() == (!ok || !r.diagnostics.is_empty()), "whether a result has errors");
    let again = r.clone();
    assert!(again.has_errors() == r.has_errors() && again.result.is_ok() == ok && again.diagnostics.len() == r.diagnostics.len(), "copy of a result");
}

/// Whether `part` occurs in `s`.
fn holds(s: &str, part: &str) -> bool {
    let (s, p) = (s.as_bytes(), part.as_bytes());
    let mut found = p.is_empty();
    for i in 0..(s.len() + 1).saturating_sub(p.len()) {
        let mut same = true;
        for j in 0..p.len() {
            same &= s[i + j] == p[j];
        }
        found |= same;
    }
    found
}
/// The message of an error says its kind, its text, its place and its file.
#[unsafe(no_mangle)]
pub extern "C" fn h_error_messages() {
    let message = vx::text(if T { 2 } else { 1 }, 3);
    let at = [0, 7, 10, 123, 4096, usize::MAX][vx::choose(if T { 6 } else { 4 })];
    let file = [None, Some(0), Some(42), Some(u32::MAX)][vx::choose(if T { 4 } else { 3 })];
    let (e, want) = any_error(&message, letter(), at, file);
    let text = e.to_string();
    assert!(text.starts_with(want.key), "message without the kind");
    assert!(e.kind().to_string() == text && format!("{:?}", e) == text, "two messages for an error");
    for t in &want.texts {
        assert!(holds(&text[want.key.len()..], t), "message without the text");
    }
    if let Some(c) = want.letter {
        assert!(holds(&text, &c.to_string()), "message without the character");
    }
    if let Some(at) = want.at {
        assert!(text.ends_with(&format!(":{}", at)) || text.ends_with(&format!(":{})", at)), "message without the place");
        vx::cover(1);
    }
    if want.placed {
        assert!(holds(&text, &format!("{:?}", want.file)), "message without the file");
    }
    let d = Diagnostic::from(&e);
    assert!(d.message == text && d.severity == Severity::Error && d.labels.is_empty() && d.code.is_none(), "diagnostic of an error");
}

/// A diagnostic has the kind, the place and the words of its error.
#[unsafe(no_mangle)]
pub extern "C" fn h_error_diagnostics() {
    let src = vx::text(2, 3);
    let message = vx::text(1, 1);
    let at = vx::choose(src.len() as u64 + 2);
    let (e, want) = any_error(&message, 'c', at, None);
    let s = SourceText::new(src.clone());
    let d = if vx::flag() { e.to_diagnostic(&s) } else { Diagnostic::from_provider(&e, &s) };
    assert!(d.code.as_deref() == Some(want.key) && d.i18n_key.as_deref() == Some(want.key), "kind of a diagnostic");
    assert!(d.severity == Severity::Error && d.help.is_none() && d.message == e.to_string(), "diagnostic of an error");
    match want.at {
        None => assert!(d.labels.is_empty(), "label for an error with no place"),
        Some(at) => {
            assert!(d.labels.len() == 1 && d.labels[0].span.start == at.min(src.len()), "place of a diagnostic");
            vx::cover(1);
        }
    }
    let name = match want.key {
        "error.unexpected_token" => Some("token"),
        "error.expected_token" => Some("expected"),
        "error.expected_name" => Some("name_kind"),
        _ => None,
    };
    if let Some(n) = name {
        assert!(d.i18n_args.len() == 1 && d.i18n_args.get(n) == Some(&message), "words of a diagnostic");
        vx::cover(2);
    }
}

struct Words(String);
impl Localizer for Words {
    fn localize(&self, key: &str, args: &HashMap<String, String>) -> String {
        let mut out = format!("{}{}", self.0, key);
        for name in ["a", "b"] {
            if let Some(v) = args.get(name) {
                out.push_str(name);
                out.push_str(v);
            }
        }
        out
    }
}
/// A localized report is the report of the localized message.
#[unsafe(no_mangle)]
pub extern "C" fn h_localized() {
    let src = vx::pick(&["", "ab\ncd"]).to_string();
    let own = vx::text(1, 1);
    let word = vx::text(if T { 2 } else { 1 }, 3);
    let mut d = if vx::flag() { Diagnostic::error(own.clone()) } else { Diagnostic::warning(own.clone()) };
    let mut message = own.clone();
    let mut args = String::new();
    if vx::flag() {
        d = d.with_arg("a", "x");
        args.push_str("ax");
    }
    if vx::flag() {
        d = d.with_arg("b", word.clone());
        args.push('b');
        args.push_str(&word);
    }
    if vx::flag() {
        d = d.with_i18n("k");
        message = format!("{}k{}", word, args);
        vx::cover(1);
    }
    if vx::flag() {
        d = d.with_code("c");
    }
    if !src.is_empty() && vx::flag() {
        d = d.with_label(Range { start: 1, end: 4 }, "l");
    }
    let uri = if vx::flag() { Some("u") } else { None };
    let mut said = d.clone();
    said.message = message;
    said.i18n_key = None;
    let s = SourceText::new(src);
    fn same<E: Emitter>(e: E, s: &SourceText, d: &Diagnostic, said: &Diagnostic, w: &Words, uri: Option<&str>) {
        let words = if uri.is_some() { "in a file" } else { "in no file" };
        assert!(e.render_localized(s, d, Some(w), uri) == e.render_localized::<_, Words>(s, said, None, uri), "localized report {}", words);
        if uri.is_none() {
            // without a localizer the own message stays
            let mut plain = d.clone();
            plain.i18n_key = None;
            assert!(e.render(s, d) == e.render(s, &plain), "report in its own words");
        }
    }
    let w = Words(word);
    match vx::choose(4) {
        0 => same(ConsoleEmitter { unicode: vx::flag() }, &s, &d, &said, &w, uri),
        1 => same(PlainTextEmitter { unicode: vx::flag() }, &s, &d, &said, &w, uri),
        2 => same(HtmlEmitter, &s, &d, &said, &w, uri),
        _ => same(LspEmitter, &s, &d, &said, &w, uri),
    }
}

/// A diagnostic written as JSON and read back is the same diagnostic.
#[unsafe(no_mangle)]
pub extern "C" fn h_diagnostic_json() {
    let a = vx::text(2, 3);
    let b = vx::text(if T { 2 } else { 1 }, 1);
    let mut d = Diagnostic::error(a.clone());
    d.severity = [Severity::Error, Severity::Warning, Severity::Advice][vx::choose(3)];
    let which = vx::choose(4);
    if vx::flag() {
        d = d.with_code(if which == 0 { b.as_str() } else { "c" });
    }
    if vx::flag() {
        d = d.with_help(if which == 1 { b.as_str() } else { "h" });
    }
    if vx::flag() {
        d = d.with_i18n(if which == 2 { b.as_str() } else { "k" }).with_arg("x", a.clone()).with_arg("y", b.clone());
    }
    for i in 0..vx::choose(3) {
        let start = vx::bits(64, i as u64) as usize;
        let end = vx::bits(64, 9) as usize;
        d = d.with_label(Range { start, end }, if which == 3 { b.as_str() } else { "l" });
        if i == 0 && vx::flag() {
            d.labels[0].message = None;
        }
        if i == 1 {
            d.labels[1].color = Some("red".to_string());
        }
    }
    let v = serde_json::to_value(&d).expect("write");
    let back: Diagnostic = serde_json::from_value(v).expect("read");
    assert!(back.code == d.code && back.message == d.message && back.help == d.help && back.i18n_key == d.i18n_key, "words of a diagnostic");
    assert!(back.severity == d.severity, "severity of a diagnostic");
    assert!(back.i18n_args.len() == d.i18n_args.len(), "arguments of a diagnostic");
    for (k, v) in &d.i18n_args {
        assert!(back.i18n_args.get(k) == Some(v), "argument of a diagnostic");
        vx::cover(1);
    }
    assert!(back.labels.len() == d.labels.len(), "labels of a diagnostic");
    for (x, y) in back.labels.iter().zip(&d.labels) {
        assert!(x.span == y.span && x.message == y.message && x.color == y.color, "label of a diagnostic");
        vx::cover(2);
    }
}
