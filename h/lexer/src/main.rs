#![feature(new_range_api)]
#![allow(clippy::all)]
use core::range::Range;
use oak_core::lexer::*;
use oak_core::source::*;
use oak_core::{Lexer, ParseSession};
use toy::*;

const T: bool = cfg!(feature = "thorough");

// ---- P05: the scanners against their grammars, from any boundary of any text, flat or in pieces ----

fn with_source(s: &str, f: impl Fn(&dyn Source)) {
    if vx::flag() {
        // cut in at most three pieces
        let bs: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).collect();
        let mut b = ChunkedBuffer::new();
        let i = vx::choose(bs.len() as u64 + 1);
        let (l, r) = if i < bs.len() { s.split_at(bs[i]) } else { (s, "") };
        b.push_str(l);
        b.push_str(r);
        f(&b)
    }
    else {
        f(&SourceText::new(s))
    }
}
type St<'a> = LexerState<'a, dyn Source + 'a, Toy>;
/// Checks one scan: `want` is the length it must cover, None when it must not match.
fn scanned(st: &mut St<'_>, at: usize, hit: bool, kind: Tk, want: Option<usize>) {
    assert!(hit == want.is_some(), "matched or not");
    match want {
        Some(n) => {
            assert!(st.get_position() == at + n, "position after the token");
            assert!(st.tokens().len() == 1, "exactly one token");
            let t = st.tokens()[0];
            assert!(t.kind == kind && t.span.start == at && t.span.end == at + n, "token");
            vx::observe(n as u64);
            vx::cover(1);
        }
        None => {
            assert!(st.get_position() == at, "position moved without a match");
            assert!(st.tokens().is_empty(), "token without a match");
            vx::cover(2);
        }
    }
}
fn starts(b: &[u8], at: usize, p: &[u8]) -> bool {
    at + p.len() <= b.len() && &b[at..at + p.len()] == p
}
fn len_at(b: &[u8], i: usize) -> usize {
    match b[i] {
        0..0x80 => 1,
        0x80..0xE0 => 2,
        0xE0..0xF0 => 3,
        _ => 4,
    }
}
fn string_len(b: &[u8], quotes: &[&[u8]], esc: Option<&[u8]>) -> Option<usize> {
    let q = *quotes.iter().find(|q| starts(b, 0, q))?;
    let mut i = q.len();
    while i < b.len() {
        if let Some(e) = esc {
            if starts(b, i, e) {
                i += e.len();
                if i < b.len() {
                    i += len_at(b, i);
                }
                continue;
            }
        }
        if starts(b, i, q) {
            return Some(i + q.len());
        }
        i += len_at(b, i);
    }
    Some(b.len())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_string() {
    static C1: StringConfig = StringConfig { quotes: &['"', '\''], escape: Some('\\') };
    static C2: StringConfig = StringConfig { quotes: &['"'], escape: None };
    let (c, quotes, esc): (&StringConfig, &[&[u8]], Option<&[u8]>) = if vx::flag() { (&C1, &[b"\"", b"'"], Some(b"\\")) } else { (&C2, &[b"\""], None) };
    let lead = vx::choose(2);
    let mut v = b"a"[..lead].to_vec();
    v.push(if T { b'"' } else { vx::of(b"\"'x") });
    let t = vx::text(if T { 5 } else { 4 }, 3);
    v.extend_from_slice(t.as_bytes());
    let s = unsafe { String::from_utf8_unchecked(v) };
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        st.advance(lead);
        let hit = c.scan(&mut st, Tk::Str);
        scanned(&mut st, lead, hit, Tk::Str, string_len(&s.as_bytes()[lead..], quotes, esc));
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_string_wide() {
    static C1: StringConfig = StringConfig { quotes: &['é', '"'], escape: Some('\\') };
    static C2: StringConfig = StringConfig { quotes: &['é', '"'], escape: Some('è') };
    let (c, esc): (&StringConfig, &[u8]) = if vx::flag() { (&C1, b"\\") } else { (&C2, "è".as_bytes()) };
    let mut s = vx::pick(&["é", "\"", "a"]).to_string();
    let n = vx::choose(if T { 6 } else { 5 });
    for _ in 0..n {
        s.push_str(vx::pick(&["é", "\"", "\\", "è", "€"]));
    }
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let hit = c.scan(&mut st, Tk::Str);
        scanned(&mut st, 0, hit, Tk::Str, string_len(s.as_bytes(), &["é".as_bytes(), b"\""], Some(esc)));
    });
}
fn comment_len(b: &[u8], line: &[u8], open: &[u8], close: &[u8], nested: bool) -> Option<usize> {
    if !line.is_empty() && starts(b, 0, line) {
        let mut i = line.len();
        while i < b.len() && b[i] != b'\n' {
            i += 1;
        }
        return Some(i);
    }
    if open.is_empty() || !starts(b, 0, open) {
        return None;
    }
    let mut i = open.len();
    let mut depth = 1;
    while i < b.len() {
        if nested && starts(b, i, open) {
            depth += 1;
            i += open.len();
        }
        else if starts(b, i, close) {
            depth -= 1;
            i += close.len();
            if depth == 0 {
                return Some(i);
            }
        }
        else {
            i += 1;
        }
    }
    Some(b.len())
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_comment() {
    static CS: [CommentConfig; 4] = [
        CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true },
        CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: false },
        CommentConfig { line_marker: "#", block_start: "", block_end: "", nested_blocks: false },
        CommentConfig { line_marker: "", block_start: "{-", block_end: "-}", nested_blocks: true },
    ];
    let c = &CS[vx::choose(4)];
    let lead = vx::choose(2);
    let set: &[u8] = match c.line_marker {
        "//" => b"/*\na",
        "#" => b"#\na",
        _ => b"{-}\n",
    };
    let mut v = b"x"[..lead].to_vec();
    let n = vx::choose(if T { 9 } else { 8 });
    for _ in 0..n {
        v.push(vx::of(set));
    }
    if vx::flag() {
        v.extend_from_slice("é".as_bytes());
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        st.advance(lead);
        let hit = c.scan(&mut st, Tk::Com, Tk::Com);
        let want = comment_len(&s.as_bytes()[lead..], c.line_marker.as_bytes(), c.block_start.as_bytes(), c.block_end.as_bytes(), c.nested_blocks);
        scanned(&mut st, lead, hit, Tk::Com, want);
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_comment_kinds() {
    // the two kinds of comments get their own token kinds, with any text inside
    let mut s = vx::pick(&["//", "/*", "/"]).to_string();
    s.push_str(&vx::text(if T { 5 } else { 4 }, 4));
    let src = SourceText::new(s.as_str());
    let mut st = LexerState::<dyn Source, Toy>::new(&src);
    let hit = COM.scan(&mut st, Tk::Com, Tk::Str);
    let k = if s.as_bytes()[..].starts_with(b"//") { Tk::Com } else { Tk::Str };
    scanned(&mut st, 0, hit, k, comment_len(s.as_bytes(), b"//", b"/*", b"*/", true));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_state() {
    // the scanners built into the lexer state
    let which = vx::choose(4);
    let mut v = vec![];
    let n = vx::choose(if T { 8 } else { 7 });
    for _ in 0..n {
        v.push(match which {
            0 => vx::of(b"/*\na"),
            1 => vx::of(b"-\na"),
            2 => {
                let b = vx::byte(b'a');
                vx::assume(b < 0x80);
                b
            }
            _ => vx::of(b"<!->"),
        });
    }
    if vx::flag() {
        v.extend_from_slice("é€".as_bytes());
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let b = s.as_bytes();
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let (hit, want) = match which {
            0 => (st.scan_block_comment(Tk::Com, "/*", "*/"), comment_len(b, b"", b"/*", b"*/", false)),
            1 => (st.scan_line_comment(Tk::Com, "--"), comment_len(b, b"--", b"", b"", false)),
            2 => {
                let hit = st.scan_ascii_identifier(Tk::Com);
                let first = |c: u8| matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'_');
                let mut e = 0;
                if !b.is_empty() && first(b[0]) {
                    while e < b.len() && (first(b[e]) || matches!(b[e], b'0'..=b'9')) {
                        e += 1;
                    }
                }
                (hit, if e > 0 { Some(e) } else { None })
            }
            _ => (st.scan_block_comment(Tk::Com, "<!--", "-->"), comment_len(b, b"", b"<!--", b"-->", false)),
        };
        scanned(&mut st, 0, hit, Tk::Com, want);
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_delims() {
    // longer delimiters, also ones whose parts repeat
    static D: [(&str, &str, &[u8]); 5] = [("<!--", "-->", b"->a"), ("(**", "**)", b"*()"), ("%%%", "%%%", b"%a\n"), ("[=[", "]=]", b"]=["), ("{", "}", b"{}a")];
    static CS: [[CommentConfig; 2]; 5] = {
        const fn c(a: &'static str, b: &'static str, nested_blocks: bool) -> CommentConfig {
            CommentConfig { line_marker: "", block_start: a, block_end: b, nested_blocks }
        }
        const fn two(a: &'static str, b: &'static str) -> [CommentConfig; 2] {
            [c(a, b, false), c(a, b, true)]
        }
        [two("<!--", "-->"), two("(**", "**)"), two("%%%", "%%%"), two("[=[", "]=]"), two("{", "}")]
    };
    let which = vx::choose(5);
    let (open, close, set) = D[which];
    let mut v = open.as_bytes().to_vec();
    let n = vx::choose(if T { 9 } else { 8 });
    for _ in 0..n {
        v.push(vx::of(set));
    }
    if vx::flag() {
        v.extend_from_slice("é".as_bytes());
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let b = s.as_bytes();
    let how = vx::choose(3);
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let hit = if how == 2 { st.scan_block_comment(Tk::Com, open, close) } else { CS[which][how].scan(&mut st, Tk::Com, Tk::Com) };
        scanned(&mut st, 0, hit, Tk::Com, comment_len(b, b"", open.as_bytes(), close.as_bytes(), how == 1));
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_white() {
    let uni = vx::flag();
    let c = WhitespaceConfig { unicode_whitespace: uni };
    let s = vx::text(if T { 6 } else { 5 }, 3);
    let mut n = 0;
    for ch in s.chars() {
        let w = match ch {
            ' ' | '\t' | '\n' | '\r' => true,
            // Unicode White_Space
            '\u{b}' | '\u{c}' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}' => uni,
            _ => false,
        };
        if !w {
            break;
        }
        n += ch.len_utf8();
    }
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let hit = c.scan(&mut st, Tk::Ws);
        scanned(&mut st, 0, hit, Tk::Ws, if n > 0 { Some(n) } else { None });
    });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scan_prefix() {
    let n = [0usize, 1, 4, 31, 32, 33, 35][vx::choose(7)];
    let run = if n > 4 { n - 2 } else { 0 };
    let which = vx::choose(5);
    let mut v = vec![];
    for i in 0..n {
        v.push(if i < run { [b'7', b'F', b' ', b'7', b'7'][which] } else { vx::byte(b'1') });
    }
    let count = |f: &dyn Fn(u8) -> bool| v.iter().position(|b| !f(*b)).unwrap_or(n);
    match which {
        0 => assert!(scan_number::count_ascii_digit_prefix(&v) == count(&|b| matches!(b, b'0'..=b'9'))),
        1 => assert!(scan_number::count_ascii_hexdigit_prefix(&v) == count(&|b| matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))),
        2 => assert!(scan_white_space::count_space_tab_prefix(&v) == count(&|b| b == b' ' || b == b'\t')),
        3 => {
            assert!(scan_comment::starts_with_line_comment(&v) == (n >= 2 && v[0] == b'/' && v[1] == b'/'));
            assert!(scan_comment::starts_with_block_comment(&v) == (n >= 2 && v[0] == b'/' && v[1] == b'*'));
        }
        _ => {
            let b = vx::byte(b'a');
            let start = matches!(b, b'a'..=b'z' | b'A'..=b'Z' | b'_');
            assert!(scan_identifier::is_ascii_ident_start(b) == start);
            assert!(scan_identifier::is_ascii_ident_continue(b) == (start || matches!(b, b'0'..=b'9')));
        }
    }
    vx::cover(1);
}
/// P02: the lexer state reads like the text, whatever is done with it.
#[unsafe(no_mangle)]
pub extern "C" fn h_state_ops() {
    let s = vx::text(if T { 4 } else { 3 }, 3);
    let b = s.as_bytes();
    let bs = bounds(&s);
    let ops: Vec<usize> = (0..3).map(|_| vx::choose(11)).collect();
    let key = vx::byte(b'a');
    vx::assume(key < 0x80);
    // where the operations that take an argument go to
    let to: Vec<usize> = ops.iter().map(|o| if [3, 9, 10].contains(o) { bs[vx::choose(bs.len() as u64)] } else { 0 }).collect();
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let mut want: Vec<(Tk, usize, usize)> = vec![];
        let mut at = 0;
        for (op, to) in ops.iter().zip(to.iter().copied()) {
            let first = s[at..].chars().next();
            let width = first.map_or(0, |c| c.len_utf8());
            at = match op {
                0 => {
                    assert!(st.bump() == first, "bump");
                    at + width
                }
                1 => {
                    st.advance(width);
                    at + width
                }
                2 if width > 0 => {
                    assert!(st.advance_with(Token { kind: Tk::Str, span: Range { start: at, end: at + width } }) == at + width, "advance_with");
                    want.push((Tk::Str, at, at + width));
                    at + width
                }
                3 => {
                    assert!(st.set_position(to) == at, "set_position");
                    to
                }
                4 => {
                    let r = st.take_while(|c| c != key as char);
                    let mut e = at;
                    while e < b.len() && b[e] != key {
                        e += 1;
                    }
                    assert!(r.start == at && r.end == e, "take_while");
                    e
                }
                5 => {
                    let p = (key as char).to_string();
                    let hit = at < b.len() && b[at] == key;
                    assert!(st.starts_with(&p) == hit && st.consume_if_starts_with(&p) == hit, "starts_with");
                    at + hit as usize
                }
                6 => {
                    st.add_token(Tk::Com, at, b.len());
                    want.push((Tk::Com, at, b.len()));
                    at
                }
                7 => {
                    st.advance_if_dead_lock(at);
                    at + width
                }
                8 => {
                    let r = st.skip_until(key);
                    let mut e = at;
                    while e < b.len() && b[e] != key {
                        e += 1;
                    }
                    assert!(r.start == at && r.end == e, "skip_until");
                    e
                }
                9 => {
                    if at <= to {
                        assert!(st.peek_next_n(to - at) == s[to..].chars().next(), "peek_next_n");
                    }
                    at
                }
                _ => {
                    assert!(st.get_text_from(at).as_bytes() == &b[at..], "text from the position");
                    if at <= to {
                        assert!(st.get_text_in(Range { start: at, end: to }).as_bytes() == &b[at..to], "text of a range");
                    }
                    at
                }
            };
            assert!(st.get_position() == at && st.not_at_end() == (at < b.len()) && st.fully_reused() == (at == b.len()), "position");
            let c = s[at..].chars().next();
            assert!(st.peek() == c && st.current() == c && st.get_char_at(at) == c, "character");
            assert!(st.peek_next() == s[at..].chars().nth(1) && st.peek_byte() == b.get(at).copied(), "next character");
            let rest = st.rest().len();
            assert!(rest <= b.len() - at && (rest > 0 || at == b.len()), "rest of the piece");
            assert!(st.rest_bytes() == &b[at..at + rest], "bytes of the piece");
            assert!(st.get_length() == b.len());
        }
        st.add_eof();
        want.push((Tk::Eof, at, at));
        assert!(st.tokens().iter().map(|t| (t.kind, t.span.start, t.span.end)).eq(want.iter().copied()) && st.get_tokens().len() == want.len(), "tokens");
        let out = st.finish(Ok(()));
        assert!(out.diagnostics.is_empty() && out.result.unwrap().iter().map(|t| (t.kind, t.span.start, t.span.end)).eq(want), "result");
        vx::observe(at as u64);
    });
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_deadlock() {
    // a lexer that never matches still walks over the text one character at a time
    let s = vx::text(if T { 7 } else { 6 }, 4);
    with_source(&s, |src| {
        let mut st = LexerState::<dyn Source, Toy>::new(src);
        let mut n = 0;
        for c in s.chars() {
            assert!(st.not_at_end() && st.get_position() == n && st.current() == Some(c));
            st.advance_if_dead_lock(n);
            n += c.len_utf8();
            assert!(st.get_position() == n);
            st.advance_if_dead_lock(n + 1);
            assert!(st.get_position() == n);
        }
        assert!(!st.not_at_end());
        st.advance_if_dead_lock(n);
        assert!(st.get_position() == n);
        st.add_eof();
        let t = st.tokens()[0];
        assert!(t.kind == Tk::Eof && t.span.start == n && t.span.end == n);
        vx::observe(n as u64);
        vx::cover(1);
    });
}

// ---- P06 / P07 with the toy language ----
fn check_tiling(s: &str, ts: &[Token<Tk>]) {
    let mut at = 0;
    for (i, t) in ts.iter().enumerate() {
        assert!(t.span.start == at, "gap or overlap");
        if i + 1 < ts.len() {
            assert!(t.span.end > at && t.kind != Tk::Eof, "empty token");
        }
        assert!(s.is_char_boundary(t.span.end), "inside a character");
        at = t.span.end;
    }
    let l = ts.last().unwrap();
    assert!(l.kind == Tk::Eof && l.span.start == s.len() && l.span.end == s.len(), "end token");
    vx::observe(ts.len() as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_toy_lex() {
    let s = vx::text(if T { 5 } else { 4 }, 3);
    with_source(&s, |src| {
        let mut c = ParseSession::<Toy>::new(1);
        let o = ToyLexer.lex(src, &[], &mut c);
        check_tiling(&s, &o.result.unwrap());
        vx::cover(1);
    });
}
struct Slow(Vec<Token<Tk>>);
impl LexerCache<Toy> for Slow {
    fn set_lex_output(&mut self, o: LexOutput<Toy>) {
        self.0 = o.result.unwrap().to_vec();
    }
    fn get_token(&self, i: usize) -> Option<Token<Tk>> {
        self.0.get(i).copied()
    }
    fn count_tokens(&self) -> usize {
        self.0.len()
    }
    fn has_tokens(&self) -> bool {
        !self.0.is_empty()
    }
}
const BASES: [&str; 9] = ["", "ab", "a 1", "a /", "\"q\"a", "/*x*/b", "é a1,", "(a,b) ", "ab/*c*/ \"d e\" 123 //x\nfoo,"];
fn relex(base: &str, a: usize, b: usize, ins: &str, slow: bool) {
    let new = [&base[..a], ins, &base[b..]].concat();
    let e = [TextEdit { span: Range { start: a, end: b }, text: ins.to_string().into() }];
    let mut fresh = ParseSession::<Toy>::new(1);
    let want = ToyLexer.lex(new.as_str(), &[], &mut fresh).result.unwrap();
    check_tiling(&new, &want);
    let got = if slow {
        let mut c = Slow(vec![]);
        ToyLexer.lex(base, &[], &mut c).result.unwrap();
        ToyLexer.lex(new.as_str(), &e, &mut c).result.unwrap()
    }
    else {
        let mut c = ParseSession::<Toy>::new(1);
        ToyLexer.lex(base, &[], &mut c).result.unwrap();
        let r = ToyLexer.lex(new.as_str(), &e, &mut c).result.unwrap();
        assert!(c.get_tokens().unwrap() == &r[..], "cache holds the new tokens");
        assert!(c.count_tokens() == r.len() && c.get_token(0) == r.first().copied());
        // and nothing to do when nothing changed
        assert!(ToyLexer.lex(new.as_str(), &[], &mut c).result.unwrap()[..] == r[..], "re-lexing the same text");
        r
    };
    assert!(got[..] == want[..], "incremental tokens differ");
    vx::observe(want.len() as u64);
    vx::cover(1);
}
fn bounds(s: &str) -> Vec<usize> {
    s.char_indices().map(|x| x.0).chain([s.len()]).collect()
}
/// P07: one edit with arbitrary inserted bytes.
#[unsafe(no_mangle)]
pub extern "C" fn h_toy_relex() {
    let base = vx::pick(&BASES);
    let bs = bounds(base);
    let i = vx::choose(bs.len() as u64);
    let j = i + vx::choose((bs.len() - i) as u64);
    let ins = vx::ascii_upto(if T { 3 } else { 2 });
    relex(base, bs[i], bs[j], &ins, vx::flag());
}
/// P07: arbitrary text before the edit.
#[unsafe(no_mangle)]
pub extern "C" fn h_toy_relex_any() {
    let base = vx::over_upto(b"a/*\" ", if T { 7 } else { 6 });
    let i = vx::choose(base.len() as u64 + 1);
    let j = i + vx::choose((base.len() - i) as u64 + 1);
    let ins = vx::pick(&["", "a", "/", "*", "\""]);
    relex(&base, i, j, ins, false);
}
/// P07: histories.
#[unsafe(no_mangle)]
pub extern "C" fn h_toy_relex_twice() {
    let mut s = vx::pick(&["a1", "a /", "\"a", "/*a"]).to_string();
    let mut c = ParseSession::<Toy>::new(1);
    ToyLexer.lex(s.as_str(), &[], &mut c).result.unwrap();
    for _ in 0..if T { 3 } else { 2 } {
        let i = vx::choose(s.len() as u64 + 1);
        let j = i + vx::choose((s.len() - i) as u64 + 1);
        let ins = vx::pick(&["", "a", "/", "*", "\""]);
        let e = [TextEdit { span: Range { start: i, end: j }, text: ins.to_string().into() }];
        s = [&s[..i], ins, &s[j..]].concat();
        let got = ToyLexer.lex(s.as_str(), &e, &mut c).result.unwrap();
        let mut fresh = ParseSession::<Toy>::new(1);
        let want = ToyLexer.lex(s.as_str(), &[], &mut fresh).result.unwrap();
        assert!(got[..] == want[..], "incremental tokens differ");
        vx::observe(want.len() as u64);
    }
    vx::cover(1);
}
/// P07: several edits at once, in any order.
#[unsafe(no_mangle)]
pub extern "C" fn h_toy_relex_batch() {
    let base = vx::pick(&["a1/*x*/b", "é\"a\" 12", "a é b"]);
    let bs = bounds(base);
    let n = bs.len() as u64;
    let mut at = [0; 4];
    let mut lo = 0usize;
    for x in at.iter_mut() {
        lo += vx::choose(n - lo as u64);
        *x = bs[lo];
    }
    let [a, b, c, d] = at;
    vx::assume(b < c);
    let (i1, i2) = (vx::pick(&["", "a", "/", "\""]), vx::pick(&["", "é", "1", "*"]));
    let new = [&base[..a], i1, &base[b..c], i2, &base[d..]].concat();
    let mut e = vec![TextEdit { span: Range { start: a, end: b }, text: i1.to_string().into() }, TextEdit { span: Range { start: c, end: d }, text: i2.to_string().into() }];
    if vx::flag() {
        e.reverse();
    }
    let mut cache = ParseSession::<Toy>::new(1);
    ToyLexer.lex(base, &[], &mut cache).result.unwrap();
    let got = ToyLexer.lex(new.as_str(), &e, &mut cache).result.unwrap();
    let mut fresh = ParseSession::<Toy>::new(1);
    let want = ToyLexer.lex(new.as_str(), &[], &mut fresh).result.unwrap();
    check_tiling(&new, &want);
    assert!(got[..] == want[..], "incremental tokens differ");
    let again = ToyLexer.lex(new.as_str(), &[], &mut cache).result.unwrap();
    assert!(again[..] == want[..], "the cache holds the new tokens");
    vx::cover(1);
}

vx::main!(
    h_state_ops, h_scan_string, h_scan_string_wide, h_scan_comment, h_scan_comment_kinds, h_scan_state, h_scan_delims, h_scan_white, h_scan_prefix, h_deadlock, h_toy_lex, h_toy_relex, h_toy_relex_any, h_toy_relex_twice, h_toy_relex_batch
);
