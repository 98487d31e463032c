#![feature(new_range_api)]
use oak_core::source::{RopeBuffer, Source, SourceText};
use oak_vfs::{FileType, LineMap, MemoryVfs, Vfs, WritableVfs};


const T: bool = cfg!(feature = "thorough");

/// Independent definition of positions.
fn check_map<S: Source + ?Sized>(s: &str, src: &S) {
    let m = LineMap::from_source(src);
    let b = s.as_bytes();
    // line starts are exactly the positions after newlines
    let mut line = 0u32;
    assert!(m.line_start(0) == Some(0));
    for i in 0..b.len() {
        if b[i] == b'\n' {
            assert!(m.line_end(line) == Some(i + 1));
            line += 1;
            assert!(m.line_start(line) == Some(i + 1));
        }
    }
    assert!(m.line_count() == line as usize + 1);
    assert!(m.line_start(line + 1) == None);
    assert!(m.line_end(line) == Some(b.len()));
    // every character boundary converts there and back
    let (mut l, mut c) = (0u32, 0u32);
    let mut i = 0;
    let mut it = s.chars();
    loop {
        let p = m.offset_to_line_col_utf16(src, i);
        assert!(p == (l, c), "offset to position");
        assert!(m.line_col_utf16_to_offset(src, l, c) == i, "position to offset");
        let Some(ch) = it.next() else { break };
        i += ch.len_utf8();
        if ch == '\n' {
            l += 1;
            c = 0;
        } else {
            c += if (ch as u32) >= 0x10000 { 2 } else { 1 };
        }
    }
    vx::cover(1);
    vx::observe(line as u64);
    vx::observe(c as u64);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_linemap_flat() {
    let s = vx::text(if T { 8 } else { 7 }, 4);
    let src = SourceText::new(s.as_str());
    check_map(&s, &src);
}
/// P16: any line and column, inside the text or not.
fn check_position<S: Source + ?Sized>(s: &str, src: &S) {
    let m = LineMap::from_source(src);
    let (line, col) = (vx::choose(5) as u32, vx::choose(5) as u32);
    let mut at = 0;
    let mut n = 0;
    for l in s.split('\n') {
        if n == line {
            let mut c = 0;
            let mut off = 0;
            for ch in l.chars() {
                if c >= col {
                    break;
                }
                c += ch.len_utf16() as u32;
                off += ch.len_utf8();
            }
            assert!(m.line_col_utf16_to_offset(src, line, col) == at + off, "position is clamped to its line");
            vx::cover(2);
            break;
        }
        n += 1;
        at += l.len() + 1;
    }
    if n < line {
        assert!(m.line_col_utf16_to_offset(src, line, col) == s.len(), "line is clamped to the text");
        vx::cover(3);
    }
    for far in [s.len(), s.len() + 1, usize::MAX] {
        assert!(m.offset_to_line_col_utf16(src, far) == m.offset_to_line_col_utf16(src, s.len()), "offset is clamped");
    }
    assert!(m.line_col_utf16_to_offset(src, u32::MAX, u32::MAX) == s.len());
    vx::cover(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_linemap_any() {
    let s = vx::text(if T { 7 } else { 6 }, 4);
    check_position(&s, &SourceText::new(s.as_str()));
}
/// P16: the same through a rope and through text longer than its chunks.
#[unsafe(no_mangle)]
pub extern "C" fn h_linemap_rope() {
    let mut s = vx::text(if T { 5 } else { 4 }, 4);
    let pad = ["", "a\n", "\u{1f600}b\n"][vx::choose(3)];
    s.push_str(pad);
    let mut r = RopeBuffer::new("");
    // built by insertions, so that chunks end anywhere
    for (i, c) in s.char_indices() {
        r.apply_edits(&[oak_core::source::TextEdit { span: core::range::Range { start: i, end: i }, text: c.to_string().into() }]);
    }
    check_map(&s, &r);
    check_position(&s, &r);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_linemap_long() {
    let n = [62, 63, 64, 4094, 4095, 4096][vx::choose(6)];
    let mut s = String::from_utf8(vec![b'x'; n]).unwrap();
    s.insert(n / 2, '\n');
    s.push_str(&vx::text(if T { 6 } else { 5 }, 4));
    s.push_str(["", "y\n"][vx::choose(2)]);
    let r = RopeBuffer::new(s.as_str());
    let (m, f) = (LineMap::from_source(&r), LineMap::from_source(&SourceText::new(s.as_str())));
    assert!(m.line_count() == f.line_count());
    let mut line = 0;
    let mut start = 0;
    for (i, c) in s.bytes().enumerate() {
        if c == b'\n' {
            assert!(m.line_end(line) == Some(i + 1));
            line += 1;
            start = i + 1;
            assert!(m.line_start(line) == Some(start));
        }
    }
    assert!(m.line_count() as u32 == line + 1);
    let col = s[start..].encode_utf16().count() as u32;
    assert!(m.offset_to_line_col_utf16(&r, s.len()) == (line, col));
    assert!(m.line_col_utf16_to_offset(&r, line, col) == s.len());
    vx::cover(1);
}

// ---- P17 ----
const URIS: [&str; 4] = ["", "a", "a/b", "A"];
struct Model {
    files: [Option<(String, u32)>; 4],
    /// every identifier handed out and the path it was for
    old: Vec<(u32, usize)>,
}
impl Model {
    fn check(&self, fs: &MemoryVfs) {
        let mut listed = fs.read_dir("").expect("listing").iter().map(|u| u.to_string()).collect::<Vec<_>>();
        for (i, f) in self.files.iter().enumerate() {
            let u = URIS[i];
            assert!(fs.exists(u) == f.is_some(), "existence");
            assert!(fs.is_file(u) == f.is_some() && !fs.is_dir(u), "kind");
            match f {
                Some((text, id)) => {
                    let src = fs.get_source(u).expect("file is gone");
                    assert!(src.length() == text.len() && *src.get_text_in(core::range::Range { start: 0, end: text.len() }) == **text, "content");
                    assert!(fs.get_id(u) == Some(*id) && src.source_id() == Some(*id), "identifier of a path");
                    assert!(fs.get_uri(*id).as_deref() == Some(u), "path of an identifier");
                    let m = fs.metadata(u).expect("metadata");
                    assert!(m.len == text.len() as u64 && m.file_type == FileType::File, "metadata");
                    assert!(fs.line_map(u).unwrap().line_count() == text.matches('\n').count() + 1, "lines");
                    let at = listed.iter().position(|l| l == u).expect("file is not listed");
                    listed.swap_remove(at);
                }
                None => assert!(fs.get_source(u).is_none() && fs.get_id(u).is_none() && fs.metadata(u).is_none() && fs.line_map(u).is_none(), "absent file"),
            }
        }
        assert!(listed.is_empty(), "listed although absent");
        for (id, i) in &self.old {
            let now = self.files[*i].as_ref().is_some_and(|f| f.1 == *id);
            assert!(fs.get_uri(*id).is_some() == now, "identifier of a removed file");
        }
    }
}
fn history(contents: &[&str], any: bool, steps: usize) {
    let fs = MemoryVfs::new();
    let other = fs.clone();
    let mut m = Model { files: Default::default(), old: vec![] };
    m.check(&fs);
    for _ in 0..steps {
        let fs = if vx::flag() { &fs } else { &other };
        let i = vx::choose(if any { 4 } else { 3 });
        match vx::choose(2) {
            0 => {
                let text = if any { vx::pick(contents).to_string() } else { vx::text(2, 2) };
                if contents.len() % 2 == 0 {
                    fs.write_file(URIS[i], text.as_str());
                }
                else {
                    WritableVfs::write_file(fs, URIS[i], oak_core::Arc::from(text.as_str()));
                }
                let id = fs.get_id(URIS[i]).expect("no identifier");
                for (j, f) in m.files.iter().enumerate() {
                    assert!(j == i || f.as_ref().is_none_or(|f| f.1 != id), "identifier shared by two paths");
                }
                if let Some(f) = &m.files[i] {
                    assert!(f.1 == id, "identifier changed by a write");
                }
                else {
                    assert!(m.old.iter().all(|(o, j)| *o != id || *j == i), "identifier of a removed file reused");
                    m.old.push((id, i));
                }
                m.files[i] = Some((text, id));
            }
            _ => {
                if contents.len() % 2 == 0 {
                    fs.remove_file(URIS[i]);
                }
                else {
                    WritableVfs::remove_file(fs, URIS[i]);
                }
                m.files[i] = None;
            }
        }
        m.check(fs);
        m.check(&other);
    }
    vx::cover(1);
}
/// P17: every history of writes and removals through either handle.
#[unsafe(no_mangle)]
pub extern "C" fn h_vfs_history() {
    history(&["", "\n"], true, if T { 4 } else { 3 })
}
#[unsafe(no_mangle)]
pub extern "C" fn h_vfs_history_trait() {
    history(&["", "é\n", "x"], true, 3)
}
/// P17: any content.
#[unsafe(no_mangle)]
pub extern "C" fn h_vfs_content() {
    history(&["", ""], false, 2)
}
vx::main!(h_linemap_flat, h_linemap_any, h_linemap_rope, h_linemap_long, h_vfs_history, h_vfs_history_trait, h_vfs_content);
