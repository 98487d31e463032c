#![feature(new_range_api)]
#![allow(clippy::all)]
use core::range::Range;
use oak_core::source::*;

const T: bool = cfg!(feature = "thorough");

/// The text in pieces of at most one or more characters each: any division into at most `max` pieces.
fn pieces(s: &str, max: usize) -> Vec<&str> {
    let mut out = vec![];
    let mut last = 0;
    for (i, _) in s.char_indices() {
        if i > 0 && out.len() + 1 < max && vx::flag() {
            out.push(&s[last..i]);
            last = i;
        }
    }
    if last < s.len() {
        out.push(&s[last..]);
    }
    out
}
fn chunked(s: &str, max: usize) -> ChunkedBuffer {
    let mut b = ChunkedBuffer::new();
    for p in pieces(s, max) {
        b.push_str(p);
    }
    b
}
/// A rope with that division (built by editing).
fn rope(s: &str, max: usize) -> RopeBuffer {
    let ps = pieces(s, max);
    if vx::flag() {
        // front to back
        let mut b = RopeBuffer::new("");
        let mut n = 0;
        for p in ps {
            b.apply_edits(&[TextEdit { span: Range { start: n, end: n }, text: p.to_string().into() }]);
            n += p.len();
        }
        b
    }
    else {
        // back to front
        let mut b = RopeBuffer::new("");
        for p in ps.iter().rev() {
            b.apply_edits(&[TextEdit { span: Range { start: 0, end: 0 }, text: p.to_string().into() }]);
        }
        b
    }
}
fn bounds(s: &str) -> Vec<usize> {
    s.char_indices().map(|x| x.0).chain([s.len()]).collect()
}
fn find_naive(hay: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + pat.len() <= hay.len() {
        if &hay[i..i + pat.len()] == pat {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn tiles<S: Source + ?Sized>(s: &str, src: &S) {
    let mut at = 0;
    while at < s.len() {
        let c = src.chunk_at(at);
        assert!(c.start <= at && at < c.end(), "chunk does not contain the offset");
        assert!(c.text.as_bytes() == &s.as_bytes()[c.start..c.end()], "chunk text");
        assert!(c.slice_from(at).as_bytes() == &s.as_bytes()[at..c.end()], "chunk slice");
        at = c.end();
    }
    assert!(src.chunk_at(s.len()).text.is_empty());
    assert!(src.chunk_at(s.len()).start == s.len());
}
fn reads<S: Source + ?Sized>(s: &str, src: &S) {
    assert!(src.length() == s.len());
    assert!(src.is_empty() == s.is_empty());
    tiles(s, src);
    let bs = bounds(s);
    for (k, &i) in bs.iter().enumerate() {
        assert!(src.get_char_at(i) == s[i..].chars().next(), "char at");
        assert!(src.get_text_from(i).as_bytes() == s[i..].as_bytes(), "text from");
        for &j in &bs[k..] {
            assert!(src.get_text_in(Range { start: i, end: j }).as_bytes() == s[i..j].as_bytes(), "text in");
        }
    }
    assert!(src.get_text_from(s.len() + 1).is_empty());
    vx::observe(s.len() as u64);
}
fn finds<S: Source + ?Sized>(s: &str, src: &S, ch: char, pat: &str) {
    let mut enc = [0; 4];
    let one = ch.encode_utf8(&mut enc).as_bytes().to_vec();
    let mut seen = 0;
    for i in bounds(s) {
        let a = src.find_char_from(i, ch);
        assert!(a == find_naive(s.as_bytes(), i, &one), "find char");
        let b = src.find_str_from(i, pat);
        assert!(b == find_naive(s.as_bytes(), i, pat.as_bytes()), "find string");
        seen += a.is_some() as u64 + b.is_some() as u64;
    }
    vx::observe(seen);
}

/// P01: chunk streams read like the flat text.
#[unsafe(no_mangle)]
pub extern "C" fn h_chunked_reads() {
    let s = vx::text(if T { 6 } else { 5 }, 4);
    let b = chunked(&s, 4);
    reads(&s, &b);
    reads(&s, &b.snapshot());
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_rope_reads() {
    let s = vx::text(if T { 6 } else { 5 }, 4);
    let mut b = rope(&s, 4);
    reads(&s, &b);
    let snap = b.snapshot();
    reads(&s, &snap);
    // a snapshot does not follow later edits
    b.apply_edits(&[TextEdit { span: Range { start: 0, end: s.len() }, text: "zz".into() }]);
    reads(&s, &snap);
    reads("zz", &b);
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_flat_reads() {
    let s = vx::text(if T { 7 } else { 6 }, 4);
    reads(&s, s.as_str());
    reads(&s, &s.as_str());
    let t = SourceText::new(s.as_str());
    reads(&s, &t);
    assert!(t.text().as_bytes() == s.as_bytes());
    assert!(t.len() == s.len());
    vx::cover(1);
}
/// P01: searching, with matches that straddle chunk boundaries.
#[unsafe(no_mangle)]
pub extern "C" fn h_chunked_find() {
    let s = vx::over_upto(b"ab", if T { 7 } else { 6 });
    let n = 1 + vx::choose(3);
    let pat = vx::over(b"ab", n);
    let b = chunked(&s, 6);
    finds(&s, &b, 'b', &pat);
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_chunked_find_wide() {
    // any division of any text of a few characters of different widths; one of them is arbitrary
    let mut w = vec![];
    vx::push_char(&mut w, 2);
    let w = unsafe { String::from_utf8_unchecked(w) };
    let set: [&str; 4] = ["a", &w, "é", "€"];
    let n = vx::choose(if T { 6 } else { 5 });
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(vx::pick(&set));
    }
    let mut q = String::new();
    for _ in 0..1 + vx::choose(2) {
        q.push_str(vx::pick(&["a", "é", "€"]));
    }
    let b = chunked(&s, 5);
    finds(&s, &b, q.chars().next().unwrap(), &q);
    vx::cover(1);
}
/// Patterns longer than the pieces.
#[unsafe(no_mangle)]
pub extern "C" fn h_chunked_find_long() {
    let n = if T { 7 } else { 6 };
    let mut s = String::new();
    for _ in 0..n {
        s.push(vx::of(b"ab") as char);
    }
    let pat = ["aba", "abab", "aabb", "ababa"][vx::choose(4)];
    let b = chunked(&s, n);
    finds(&s, &b, 'a', pat);
    vx::cover(1);
}
/// P01: the places where long texts are cut into chunks.
#[unsafe(no_mangle)]
pub extern "C" fn h_long_text() {
    let lead = 4096 - 4 + vx::choose(5);
    let mut v = vec![b'x'; lead];
    let t = vx::text(5, 4);
    v.extend_from_slice(t.as_bytes());
    v.extend_from_slice(b"yy");
    let s = unsafe { String::from_utf8_unchecked(v) };
    let mut c = ChunkedBuffer::new();
    c.push_str(&s);
    let r = RopeBuffer::new(&s);
    let cs = c.snapshot();
    let rs = r.snapshot();
    let all: [&dyn Source; 4] = [&c, &r, &cs, &rs];
    let mut bs: Vec<usize> = vec![lead - 1];
    bs.extend(t.char_indices().map(|x| lead + x.0));
    bs.extend([s.len() - 2, s.len() - 1, s.len()]);
    for src in all {
        assert!(src.length() == s.len());
        tiles(&s, src);
        for (k, &i) in bs.iter().enumerate() {
            assert!(src.get_char_at(i) == s[i..].chars().next(), "char at");
            assert!(src.get_text_from(i).as_bytes() == s[i..].as_bytes(), "text from");
            for &j in &bs[k..] {
                assert!(src.get_text_in(Range { start: i, end: j }).as_bytes() == s[i..j].as_bytes(), "text in");
            }
        }
        assert!(src.find_str_from(lead - 2, "yy") == Some(find_naive(s.as_bytes(), lead - 2, b"yy").unwrap()));
    }
    vx::cover(1);
}

/// P02: any short sequence of cursor operations against the text itself.
fn cursor_ops(s: &str, src: &dyn Source, k: usize) {
    let b = s.as_bytes();
    let mut c = SourceCursor::new(src);
    let mut at = 0usize;
    let key = vx::byte(b'a');
    vx::assume(key < 0x80);
    for _ in 0..k {
        let end = match vx::choose(12) {
            0 => {
                let ch = s[at..].chars().next();
                assert!(c.advance_char() == ch, "advance_char");
                at + ch.map_or(0, |x| x.len_utf8())
            }
            1 => {
                let r = c.take_while(|ch| ch != key as char);
                let mut e = at;
                while e < b.len() && b[e] != key {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "take_while");
                e
            }
            2 => {
                let r = c.take_while_byte(|x| x == key);
                let mut e = at;
                while e < b.len() && b[e] == key {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "take_while_byte");
                e
            }
            3 => {
                let r = c.skip_ascii_whitespace();
                let mut e = at;
                while e < b.len() && matches!(b[e], b' ' | b'\t' | b'\n' | b'\r') {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "skip_ascii_whitespace");
                e
            }
            4 => {
                let r = c.skip_ascii_digits();
                let mut e = at;
                while e < b.len() && matches!(b[e], b'0'..=b'9') {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "skip_ascii_digits");
                e
            }
            5 => {
                let r = c.skip_ascii_ident_continue();
                let mut e = at;
                while e < b.len() && matches!(b[e], b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_') {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "skip_ascii_ident_continue");
                e
            }
            6 => {
                let r = c.skip_until(key);
                let mut e = at;
                while e < b.len() && b[e] != key {
                    e += 1;
                }
                assert!(r.start == at && r.end == e, "skip_until");
                e
            }
            7 => {
                let mut p = vec![key];
                if vx::flag() {
                    p.push(b'b');
                }
                let p = unsafe { String::from_utf8_unchecked(p) };
                let m = b.len() - at >= p.len() && &b[at..at + p.len()] == p.as_bytes();
                assert!(c.starts_with(&p) == m, "starts_with");
                assert!(c.position() == at);
                assert!(c.consume_if_starts_with(&p) == m, "consume_if_starts_with");
                if m { at + p.len() } else { at }
            }
            8 => {
                let mut p = vec![key];
                if vx::flag() {
                    p.push(b'b');
                }
                let f = find_naive(b, at, &p);
                let p = unsafe { String::from_utf8_unchecked(p) };
                assert!(c.find_str(&p) == f, "find_str");
                at
            }
            9 => {
                if at < b.len() && b[at] < 0x80 {
                    assert!(c.advance_byte() == Some(b[at]), "advance_byte");
                    at + 1
                }
                else if at == b.len() {
                    assert!(c.advance_byte() == None);
                    at
                }
                else {
                    at
                }
            }
            10 => {
                // jump to any character boundary
                let bs = bounds(s);
                let t = bs[vx::choose(bs.len() as u64)];
                assert!(c.set_position(t) == at, "set_position returns the old position");
                t
            }
            _ => {
                assert!(c.set_position(b.len() + 3) == at);
                b.len()
            }
        };
        assert!(c.position() == end, "position");
        at = end;
        assert!(c.peek_char() == s[at..].chars().next(), "peek_char");
        assert!(c.peek_byte() == b.get(at).copied(), "peek_byte");
        let mut it = s[at..].chars();
        it.next();
        assert!(c.peek_next_char() == it.next(), "peek_next_char");
        assert!(c.position() == at, "peeking moved the cursor");
    }
    vx::observe(at as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cursor_chunked() {
    let s = vx::text(if T { 5 } else { 4 }, 3);
    let b = chunked(&s, 3);
    cursor_ops(&s, &b, 2);
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cursor_flat() {
    let s = vx::text(if T { 5 } else { 4 }, 4);
    let b = SourceText::new(s.as_str());
    cursor_ops(&s, &b, 2);
    vx::cover(1);
}
/// The character-visiting order over any division.
#[unsafe(no_mangle)]
pub extern "C" fn h_cursor_visit() {
    let s = vx::text(if T { 7 } else { 6 }, 4);
    let b = chunked(&s, 4);
    let mut c = SourceCursor::new(&b);
    let mut n = 0;
    for ch in s.chars() {
        assert!(c.position() == n);
        assert!(c.peek_next_n(0) == Some(ch));
        assert!(c.advance_char() == Some(ch));
        n += ch.len_utf8();
    }
    assert!(c.position() == s.len() && c.advance_char() == None && c.peek_char() == None);
    // and from any boundary
    let bs = bounds(&s);
    let at = bs[vx::choose(bs.len() as u64)];
    let mut c = SourceCursor::new_at(&b, at);
    for ch in s[at..].chars() {
        assert!(c.advance_char() == Some(ch));
    }
    assert!(c.position() == s.len());
    assert!(SourceCursor::new_at(&b, s.len() + 7).position() == s.len());
    vx::observe(at as u64);
    vx::cover(1);
}

/// P03: the edited text, independently: walk the original and splice.
fn spliced(s: &str, edits: &[(usize, usize, String)]) -> Vec<u8> {
    let mut out = vec![];
    let b = s.as_bytes();
    for i in 0..=b.len() {
        // insertions at i first, in listed order, then the replacement that starts at i
        for e in edits {
            if e.0 == i && e.1 == i {
                out.extend_from_slice(e.2.as_bytes());
            }
        }
        for e in edits {
            if e.0 == i && e.1 > i {
                out.extend_from_slice(e.2.as_bytes());
            }
        }
        if i < b.len() && !edits.iter().any(|e| e.0 <= i && i < e.1) {
            out.push(b[i]);
        }
    }
    out
}
fn edits_of(s: &str, n: usize, w: usize) -> Vec<(usize, usize, String)> {
    let bs = bounds(s);
    let mut v: Vec<(usize, usize, String)> = vec![];
    for k in 0..n {
        let i = vx::choose(bs.len() as u64);
        let j = i + vx::choose((bs.len() - i) as u64);
        let (a, b) = (bs[i], bs[j]);
        for e in &v {
            // replaced ranges share no character; insertions are not strictly inside a replaced range
            vx::assume(b <= e.0 || e.1 <= a);
        }
        let l = vx::choose(w as u64 + 1);
        let t = match l {
            0 => String::new(),
            1 => ["x", "y", "z"][k].to_string(),
            2 => ["é", "pq", "ß"][k].to_string(),
            _ => "€".to_string(),
        };
        v.push((a, b, t));
    }
    v
}
fn real(v: &[(usize, usize, String)]) -> Vec<TextEdit> {
    v.iter().map(|e| TextEdit { span: Range { start: e.0, end: e.1 }, text: e.2.clone().into() }).collect()
}
fn sound_range(old: &[u8], new: &[u8], r: Range<usize>) {
    assert!(r.start <= old.len() && r.start <= new.len(), "start outside");
    assert!(r.end <= new.len(), "end outside");
    assert!(old[..r.start] == new[..r.start], "text before the reported region changed");
    let tail = new.len() - r.end;
    assert!(tail <= old.len() && old[old.len() - tail..] == new[r.end..], "text after the reported region changed");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_edits_flat() {
    let s = vx::text(if T { 5 } else { 4 }, 2);
    let n = vx::choose(if s.len() < if T { 5 } else { 4 } { 4 } else { 3 });
    let v = edits_of(&s, n, 2);
    let want = spliced(&s, &v);
    let mut t = SourceText::new(s.as_str());
    let r = t.apply_edits_range(&real(&v));
    assert!(t.text().as_bytes() == &want[..], "edited text");
    sound_range(s.as_bytes(), &want, r);
    vx::observe_bytes(&want);
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_edits_rope() {
    let s = vx::text(if T { 4 } else { 3 }, 3);
    let mut t = rope(&s, 3);
    let n = vx::choose(if T { 4 } else { 3 });
    let v = edits_of(&s, n, 2);
    let want = spliced(&s, &v);
    let r = t.apply_edits_range(&real(&v));
    assert!(t.length() == want.len(), "length");
    let w = unsafe { String::from_utf8_unchecked(want.clone()) };
    reads(&w, &t);
    sound_range(s.as_bytes(), &want, r);
    vx::cover(1);
}
/// Histories: several batches in a row on one rope.
#[unsafe(no_mangle)]
pub extern "C" fn h_edits_history() {
    let mut s = "aéb".to_string();
    let mut t = RopeBuffer::new(&s);
    let mut f = SourceText::new(s.as_str());
    for _ in 0..(if T { 4 } else { 3 }) {
        let v = edits_of(&s, 1, 3);
        s = String::from_utf8(spliced(&s, &v)).unwrap();
        let a = t.apply_edits(&real(&v));
        let b = f.apply_edits(&real(&v));
        assert!(a == b);
        assert!(f.text() == s);
        reads(&s, &t);
    }
    vx::cover(1);
}
/// Replacing text across the chunk cut of a long document.
#[unsafe(no_mangle)]
pub extern "C" fn h_edits_long() {
    let mut s = "x".repeat(4094);
    s.push_str("é€ab");
    let bs: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).filter(|x| *x >= 4092).collect();
    let i = vx::choose(bs.len() as u64);
    let j = i + vx::choose((bs.len() - i) as u64);
    let ins = vx::pick(&["", "q", "é"]).to_string();
    let want = spliced_long(&s, bs[i], bs[j], &ins);
    let e = [TextEdit { span: Range { start: bs[i], end: bs[j] }, text: ins.into() }];
    let mut r = RopeBuffer::new(&s);
    r.apply_edits(&e);
    assert!(r.length() == want.len());
    let w = unsafe { String::from_utf8_unchecked(want) };
    tiles(&w, &r);
    assert!(r.get_text_in(Range { start: 0, end: w.len() }).as_bytes() == w.as_bytes());
    vx::cover(1);
}
fn spliced_long(s: &str, a: usize, b: usize, t: &str) -> Vec<u8> {
    let mut v = s.as_bytes()[..a].to_vec();
    v.extend_from_slice(t.as_bytes());
    v.extend_from_slice(&s.as_bytes()[b..]);
    v
}

/// P04: vector scans against the scalar definition.
fn buf(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(vx::byte(b'a'));
    }
    v
}
fn first(t: &[u8], f: impl Fn(u8) -> bool) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        if f(t[i]) {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn simd_case(t: &[u8], which: usize) {
    let n = t.len();
    let k = [vx::byte(b'k'), vx::byte(b'l'), vx::byte(b'm'), vx::byte(b'n')];
    let (got, want) = match which {
        0 => (SimdScanner::find_byte(t, k[0]), first(t, |b| b == k[0])),
        1 => (Some(SimdScanner::skip_byte(t, k[0])), Some(first(t, |b| b != k[0]).unwrap_or(n))),
        2 => (Some(SimdScanner::skip_two_bytes(t, k[0], k[1])), Some(first(t, |b| b != k[0] && b != k[1]).unwrap_or(n))),
        3 => (Some(SimdScanner::skip_ascii_whitespace(t)), Some(first(t, |b| !(b == b' ' || b == b'\t' || b == b'\n' || b == b'\r')).unwrap_or(n))),
        4 => (Some(SimdScanner::skip_ascii_digits(t)), Some(first(t, |b| !(b >= b'0' && b <= b'9')).unwrap_or(n))),
        5 => (
            Some(SimdScanner::skip_ascii_ident_continue(t)),
            Some(first(t, |b| !((b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_')).unwrap_or(n)),
        ),
        6 => (
            Some(SimdScanner::skip_ascii_hexdigits(t)),
            Some(first(t, |b| !((b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'f') || (b >= b'A' && b <= b'F'))).unwrap_or(n)),
        ),
        7 => (SimdScanner::find_first_of_4(t, k[0], k[1], k[2], k[3]), first(t, |b| b == k[0] || b == k[1] || b == k[2] || b == k[3])),
        _ => (Some(SimdScanner::skip_until(t, k[0])), Some(first(t, |b| b == k[0]).unwrap_or(n))),
    };
    assert!(got == want, "scan differs from its definition");
    vx::observe(got.map_or(999, |x| x as u64));
    vx::cover(1 + which as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_simd() {
    let which = vx::choose(9);
    let n = vx::choose(if T { 70 } else { 50 });
    let v = buf(n);
    simd_case(&v, which);
}
/// A long matching run first, so that the scan gets to the later blocks; the interesting bytes follow.
#[unsafe(no_mangle)]
pub extern "C" fn h_simd_late() {
    let which = vx::choose(9);
    let run = [13usize, 15, 16, 17, 29, 30, 31, 32, 33, 34, 47, 48, 61, 62, 63, 64, 65][vx::choose(17)];
    let mut v = Vec::with_capacity(run + 4);
    let (k, l) = (vx::byte(b'k'), vx::byte(b'l'));
    let fill = match which {
        3 => b' ',
        4 => b'5',
        5 => b'Z',
        6 => b'c',
        1 | 2 => k,
        _ => {
            vx::assume(k != l);
            k
        }
    };
    for _ in 0..run {
        v.push(fill);
    }
    for _ in 0..4 {
        v.push(vx::byte(b'a'));
    }
    let n = v.len();
    let (got, want) = match which {
        0 => (SimdScanner::find_byte(&v, l), first(&v, |b| b == l)),
        1 => (Some(SimdScanner::skip_byte(&v, k)), Some(first(&v, |b| b != k).unwrap_or(n))),
        2 => (Some(SimdScanner::skip_two_bytes(&v, l, k)), Some(first(&v, |b| b != k && b != l).unwrap_or(n))),
        7 => (SimdScanner::find_first_of_4(&v, l, l, b'q', b'r'), first(&v, |b| b == l || b == b'q' || b == b'r')),
        8 => (Some(SimdScanner::skip_until(&v, l)), Some(first(&v, |b| b == l).unwrap_or(n))),
        _ => {
            simd_case(&v, which);
            return;
        }
    };
    assert!(got == want, "scan differs from its definition");
    vx::cover(1 + which as u64);
}

vx::main!(h_chunked_reads, h_rope_reads, h_flat_reads, h_chunked_find, h_chunked_find_wide, h_chunked_find_long, h_long_text, h_cursor_chunked, h_cursor_flat, h_cursor_visit, h_edits_flat, h_edits_rope, h_edits_history, h_edits_long, h_simd, h_simd_late);
