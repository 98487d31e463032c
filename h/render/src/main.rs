#![feature(new_range_api)]
use core::range::Range;
use oak_core::{errors::OakError, source::SourceText};
use oak_diagnostic::{ConsoleEmitter, Diagnostic, DiagnosticProvider, Emitter, HtmlEmitter, LspEmitter, PlainTextEmitter, Severity};
const T: bool = cfg!(feature = "thorough");
mod errors;
mod format;
mod templates;
mod graphs;
mod print;
mod styles;
use errors::*;
use format::*;
use graphs::*;
use print::*;
use styles::*;
use templates::*;

// ---- markup, read independently ----
/// Drops terminal colours.
pub fn no_colours(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("\x1b[") {
        out.push_str(&rest[..i]);
        let j = rest[i..].find('m').expect("unfinished colour") + i;
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}
/// The text content of a piece of markup; panics where it is not well formed.
pub fn content(s: &str) -> Vec<(String, String)> {
    // (path of open elements, text) in order
    let b = s.as_bytes();
    let mut out: Vec<(String, String)> = Vec::new();
    let mut open: Vec<String> = Vec::new();
    let mut i = 0;
    let mut text: Vec<u8> = Vec::new();
    let flush = |text: &mut Vec<u8>, open: &Vec<String>, out: &mut Vec<(String, String)>| {
        if !text.is_empty() {
            out.push((open.join("/"), String::from_utf8(std::mem::take(text)).unwrap()));
        }
    };
    while i < b.len() {
        if b[i] == b'<' {
            flush(&mut text, &open, &mut out);
            let close = i + 1 < b.len() && b[i + 1] == b'/';
            let mut j = if close { i + 2 } else { i + 1 };
            let from = j;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'-') {
                j += 1;
            }
            let name = s[from..j].to_string();
            assert!(!name.is_empty(), "stray markup");
            let mut names: Vec<String> = Vec::new();
            let mut class = String::new();
            loop {
                let gap = j;
                while j < b.len() && b[j] == b' ' {
                    j += 1;
                }
                assert!(j < b.len(), "unfinished tag");
                if b[j] == b'>' {
                    if close {
                        assert!(names.is_empty() && open.pop().is_some_and(|o| o.split(' ').next() == Some(&name)), "tags do not match");
                    } else {
                        open.push(if class.is_empty() { name } else { format!("{} {}", name, class) });
                    }
                    j += 1;
                    break;
                }
                if b[j] == b'/' {
                    assert!(!close && b.get(j + 1) == Some(&b'>'), "stray slash in a tag");
                    j += 2;
                    break;
                }
                assert!(j > gap && !close, "attribute without a space");
                let from = j;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'-') {
                    j += 1;
                }
                let attribute = s[from..j].to_string();
                assert!(!attribute.is_empty() && !names.contains(&attribute), "attribute twice or without a name");
                assert!(b.get(j) == Some(&b'=') && b.get(j + 1) == Some(&b'"'), "attribute without a value");
                j += 2;
                let mut value: Vec<u8> = Vec::new();
                while b[j] != b'"' {
                    j += unescape(b, j, &mut value);
                }
                j += 1;
                let value = String::from_utf8(value).unwrap();
                if attribute == "class" {
                    class = value;
                } else {
                    out.push((format!("@{}", attribute), value));
                }
                names.push(attribute);
            }
            i = j;
        } else {
            i += unescape(b, i, &mut text);
        }
    }
    flush(&mut text, &open, &mut out);
    assert!(open.is_empty(), "tags stay open");
    out
}
/// Appends the character at `i`; returns how many bytes it takes.
fn unescape(b: &[u8], i: usize, out: &mut Vec<u8>) -> usize {
    assert!(b[i] != b'<', "markup in text");
    if b[i] != b'&' {
        out.push(b[i]);
        return 1;
    }
    for (e, c) in [("&amp;", b'&'), ("&lt;", b'<'), ("&gt;", b'>'), ("&quot;", b'"'), ("&#39;", b'\''), ("&apos;", b'\''), ("&#x27;", b'\''), ("&#34;", b'"')] {
        if b[i..].starts_with(e.as_bytes()) {
            out.push(c);
            return e.len();
        }
    }
    panic!("stray ampersand");
}

// ---- P20 ----
struct Place {
    line: usize,
    col: usize,
    units: usize,
}
fn place(text: &str, at: usize) -> Place {
    let before = &text.as_bytes()[..at.min(text.len())];
    let start = before.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let line = before.iter().filter(|b| **b == b'\n').count();
    let mut col = 0;
    let mut units = 0;
    for b in &before[start..] {
        col += ((*b & 0xC0) != 0x80) as usize;
        units += ((*b & 0xC0) != 0x80) as usize + (*b >= 0xF0) as usize;
    }
    Place { line, col, units }
}
/// Split at line feeds, byte by byte.
fn rows(text: &str) -> Vec<&str> {
    let mut v = Vec::new();
    let mut from = 0;
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            v.push(&text[from..i]);
            from = i + 1;
        }
    }
    v.push(&text[from..]);
    v
}
fn lines(text: &str) -> Vec<&str> {
    let mut v = rows(text);
    let n = v.len();
    for l in &mut v[..n - 1] {
        *l = l.strip_suffix('\r').unwrap_or(l);
    }
    v
}
/// What the picture of a label in `rows` must show. `gap` is the space between the bracket of a
/// label over several lines and the line.
fn shown(rows: &[&str], text: &str, s: usize, e: usize, vbar: &str, ltop: &str, lbot: &str, hbar: &str, gap: &str) {
    let (from, to) = (place(text, s), place(text, e));
    let all = lines(text);
    let w = (to.line + 1).to_string().len();
    let pad = " ".repeat(w);
    assert!(rows[0].ends_with(&format!(" at u:{}:{}", from.line + 1, from.col + 1)), "place of the label");
    let mut k = 1;
    while rows[k].trim_end() == format!("{} {}", pad, vbar) {
        k += 1;
    }
    if from.line == to.line {
        assert!(rows[k] == format!("{:>w$} {} {}", from.line + 1, vbar, all[from.line], w = w), "line of the label");
        let n = text[s..e].chars().count().max(1);
        assert!(rows[k + 1] == format!("{} {} {}{} here", pad, vbar, " ".repeat(from.col), "^".repeat(n)), "marks under the label");
        vx::cover(1);
    } else {
        for l in from.line..=to.line {
            let bracket = if l == from.line { ltop } else { vbar };
            assert!(rows[k] == format!("{:>w$} {} {}{}{}", l + 1, vbar, bracket, gap, all[l], w = w), "line of a label over several lines");
            k += 1;
        }
        if to.col > 0 {
            assert!(rows[k] == format!("{} {} {}{}^ here", pad, vbar, lbot, hbar.repeat(gap.len() + to.col - 1)), "end of a label over several lines");
        } else {
            assert!(rows[k].starts_with(&format!("{} {} {}", pad, vbar, lbot)) && rows[k].ends_with("^ here"), "end of a label at the start of a line");
        }
        vx::cover(2);
    }
}
/// A text and a label on it.
fn labelled(wide: bool) -> (String, usize, usize) {
    // one path per sequence of character kinds; letters stay symbolic
    let n = vx::choose(if T { 5 } else { 4 });
    // now and then behind enough lines for the line numbers to get another digit
    let lead = if n > 0 && vx::flag() { 8 } else { 0 };
    let mut v = vec![b'\n'; lead];
    for _ in 0..n {
        match vx::choose(if T { 5 } else { 4 }) {
            0 => v.push(b'\n'),
            1 => {
                let c = vx::byte(b'a');
                vx::assume((c >= 0x20) & (c < 0x7f));
                v.push(c);
            }
            2 if wide => vx::push_char(&mut v, 2),
            3 if wide => vx::push_char(&mut v, 4),
            2 => v.extend_from_slice("é".as_bytes()),
            3 => v.extend_from_slice("😀".as_bytes()),
            _ => v.extend_from_slice(b"\r\n"),
        }
    }
    let text = unsafe { String::from_utf8_unchecked(v) };
    let s = lead.saturating_sub(1);
    let s = s + vx::choose((text.len() - s) as u64 + 1);
    let e = s + vx::choose((text.len() - s) as u64 + 1);
    vx::assume(text.is_char_boundary(s) && text.is_char_boundary(e));
    (text, s, e)
}
fn severity() -> (Diagnostic, &'static str) {
    let m = "message";
    match vx::choose(3) {
        0 => (Diagnostic::error(m), "error"),
        1 => (Diagnostic::warning(m), "warning"),
        _ => {
            let mut d = Diagnostic::error(m);
            d.severity = Severity::Advice;
            (d, "advice")
        }
    }
}
fn rendered(e: &impl Emitter, text: &str, d: &Diagnostic) -> String {
    e.render_localized::<_, ()>(&SourceText::new(text.to_string()), d, None, Some("u"))
}
/// P20: plain text.
#[unsafe(no_mangle)]
pub extern "C" fn h_plain() {
    let (text, s, e) = labelled(true);
    let d = Diagnostic::error("message").with_label(Range { start: s, end: e }, "here");
    let unicode = vx::flag();
    let out = rendered(&PlainTextEmitter { unicode }, &text, &d);
    let rows = rows(&out);
    assert!(rows[0].contains("message") && rows[0].contains("error"), "header");
    if unicode {
        shown(&rows[1..], &text, s, e, "│", "┌", "└", "─", "");
    } else {
        shown(&rows[1..], &text, s, e, "|", "/", "|", "_", "");
    }
    vx::observe_bytes(out.as_bytes());
}
/// P20: terminal.
#[unsafe(no_mangle)]
pub extern "C" fn h_console() {
    let (text, s, e) = labelled(false);
    let d = Diagnostic::error("message").with_label(Range { start: s, end: e }, "here");
    let unicode = vx::flag();
    let out = no_colours(&rendered(&ConsoleEmitter { unicode }, &text, &d));
    let rows = rows(&out);
    assert!(rows[0].contains("message") && rows[0].contains("error"), "header");
    if unicode {
        shown(&rows[1..], &text, s, e, "│", "┌", "└", "─", " ");
    } else {
        shown(&rows[1..], &text, s, e, "|", "/", "|", "_", " ");
    }
    vx::observe_bytes(out.as_bytes());
}
/// P20, P21: HTML.
#[unsafe(no_mangle)]
pub extern "C" fn h_html() {
    let (text, s, e) = labelled(false);
    let d = Diagnostic::error("message").with_label(Range { start: s, end: e }, "here");
    let out = rendered(&HtmlEmitter, &text, &d);
    let all: String = content(&out).into_iter().filter(|c| !c.0.starts_with('@')).map(|c| c.1).collect();
    let rows = rows(&all);
    let first = rows.iter().position(|r| r.contains(" at u:")).expect("place of the label");
    assert!(rows[..first].iter().any(|r| r.contains("message")), "header");
    let mut rest: Vec<&str> = rows[first..].to_vec();
    rest[1] = rest[1].strip_prefix("    ").expect("picture");
    shown(&rest, &text, s, e, "│", "┌", "└", "─", "");
    vx::observe_bytes(out.as_bytes());
}
/// P20: language server.
#[unsafe(no_mangle)]
pub extern "C" fn h_lsp() {
    let (text, s, e) = labelled(true);
    let (d, sev) = severity();
    let labels = vx::choose(3);
    let mut d = d;
    for i in 0..labels {
        // the second label is the first one turned into a caret
        d = d.with_label(Range { start: s, end: if i == 0 { e } else { s } }, "here");
    }
    let out = rendered(&LspEmitter, &text, &d);
    let v: serde_json::Value = serde_json::from_str(&out).expect("not JSON");
    let (from, to) = if labels > 0 { (place(&text, s), place(&text, e)) } else { (place("", 0), place("", 0)) };
    let at = |p: &serde_json::Value, w: &Place| p["line"] == w.line as u64 && p["character"] == w.units as u64;
    assert!(at(&v["range"]["start"], &from) && at(&v["range"]["end"], &to), "range");
    assert!(v["message"] == "message" && v["severity"] == ["error", "warning", "advice"].iter().position(|x| *x == sev).unwrap() as u64 + 1, "message and severity");
    let related = v["relatedInformation"].as_array().expect("labels");
    assert!(related.len() == labels, "labels");
    for (i, r) in related.iter().enumerate() {
        let end = if i == 0 { &to } else { &from };
        assert!(r["message"] == "here" && r["location"]["uri"] == "u" && at(&r["location"]["range"]["start"], &from) && at(&r["location"]["range"]["end"], end), "label");
    }
    vx::cover(1);
    vx::observe_bytes(out.as_bytes());
}
/// P20: any label at all, several labels, every severity.
#[unsafe(no_mangle)]
pub extern "C" fn h_labels() {
    let mut text = String::new();
    for _ in 0..vx::choose(if T { 4 } else { 3 }) {
        text.push_str(["\n", "é", "a"][vx::choose(if T { 3 } else { 2 })]);
    }
    let (mut d, sev) = severity();
    let n = 1 + vx::choose(2);
    let mut marks = 0;
    for i in 0..n {
        let (s, e) = (vx::choose(text.len() as u64 + 2), vx::choose(text.len() as u64 + 2));
        let big = i == 0 && vx::flag();
        let e = if big { usize::MAX - e } else { e };
        d = d.with_label(Range { start: s, end: e }, "here");
        if s <= e && e <= text.len() && text.is_char_boundary(s) && text.is_char_boundary(e) {
            marks += 1;
        }
    }
    let extra = vx::choose(3);
    if extra == 1 {
        d = d.with_help("try this");
    }
    if extra == 2 {
        d = d.with_code("E1");
    }
    let out = match vx::choose(4) {
        0 => rendered(&PlainTextEmitter { unicode: false }, &text, &d),
        1 => no_colours(&rendered(&ConsoleEmitter { unicode: true }, &text, &d)),
        2 => content(&rendered(&HtmlEmitter, &text, &d)).into_iter().filter(|c| !c.0.starts_with('@')).map(|c| c.1).collect(),
        _ => {
            let out = rendered(&LspEmitter, &text, &d);
            serde_json::from_str::<serde_json::Value>(&out).expect("not JSON");
            vx::cover(2);
            return;
        }
    };
    let head = out.trim_start().split('\n').next().unwrap_or("").to_string();
    assert!(head.contains("message") && head.contains(if d.code.is_some() { "E1" } else { sev }), "header");
    assert!(out.contains("try this") == d.help.is_some(), "help");
    assert!(out.matches("here").count() >= marks, "a label is missing");
    assert!(out.matches(" at u:").count() == n, "a label is missing");
    vx::cover(1);
}
/// P20: what a parse error is labelled with.
#[unsafe(no_mangle)]
pub extern "C" fn h_errors() {
    let text = vx::text(3, 3);
    let at = vx::choose(text.len() as u64 + 2);
    let err = match vx::choose(7) {
        0 => OakError::syntax_error("m".to_string(), at, None),
        1 => OakError::unexpected_character('c', at, None),
        2 => OakError::unexpected_eof(at, None),
        3 => OakError::unexpected_token("t".to_string(), at, None),
        4 => OakError::expected_token("t".to_string(), at, None),
        5 => OakError::expected_name("t".to_string(), at, None),
        _ => OakError::trailing_comma_not_allowed(at, None),
    };
    let d = err.to_diagnostic(&SourceText::new(text.clone()));
    assert!(d.labels.len() == 1 && d.severity == Severity::Error && d.message == err.kind().to_string(), "label of an error");
    let r = d.labels[0].span;
    assert!(r.start <= r.end && r.end <= text.len(), "label outside the text");
    if at >= text.len() {
        assert!(r.start == text.len() && r.end == r.start, "label of an error at the end");
        vx::cover(1);
    } else if text.is_char_boundary(at) {
        assert!(r.start == at && text.is_char_boundary(r.end) && text[at..r.end].chars().count() == 1, "label of an error");
        vx::cover(2);
    }
}

vx::main!(h_plain, h_console, h_html, h_lsp, h_labels, h_errors, h_escape_html, h_escape_diagnostics, h_escape_svg, h_escape_json, h_tile, h_tile_json, h_styles, h_printer, h_printer_texts, h_graph, h_graph_layout, h_engine_layout, h_tree_layout, h_format, h_format_rules, h_comments, h_rects, h_transforms, h_templates, h_template_rules, h_error_values, h_error_messages, h_error_diagnostics, h_localized, h_diagnostic_json);
