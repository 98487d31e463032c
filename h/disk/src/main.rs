#![feature(new_range_api)]
//! P34: files on disk seen through the file system interface.
use oak_core::{Arc, source::Source};
use oak_vfs::{DiskVfs, FileType, Vfs, WritableVfs};
mod sys;
use sys::TREE;
const T: bool = cfg!(feature = "thorough");
/// When every file was written.
pub const WHEN: i64 = 1_000;
/// Names of files, and where they are.
const URIS: [(&str, &str); 8] = [
    ("a", "/r/a"),
    ("d/b", "/r/d/b"),
    ("/r/a", "/r/a"),
    ("d", "/r/d"),
    ("a/x", "/r/a/x"),
    ("/o/p/q", "/o/p/q"),
    ("./a", "/r/a"),
    ("d//b", "/r/d/b"),
];
fn names(path: &str) -> Vec<Vec<u8>> {
    path.split('/').filter(|n| !n.is_empty()).map(|n| n.as_bytes().to_vec()).collect()
}
type Tree = Vec<(Vec<Vec<u8>>, Option<Vec<u8>>)>;
fn find<'a>(t: &'a Tree, at: &[Vec<u8>]) -> Option<&'a Option<Vec<u8>>> {
    t.iter().find(|e| e.0 == at).map(|e| &e.1)
}
fn sorted(mut t: Tree) -> Tree {
    t.sort();
    t
}
/// What a write should do to the files.
fn write(t: &mut Tree, at: &[Vec<u8>], content: &[u8]) {
    for i in 1..at.len() {
        match find(t, &at[..i]) {
            None => t.push((at[..i].to_vec(), None)),
            Some(None) => {}
            // a file is in the way
            Some(_) => return,
        }
    }
    match t.iter_mut().find(|e| e.0 == at) {
        None => t.push((at.to_vec(), Some(content.to_vec()))),
        Some((_, None)) => {}
        Some((_, c)) => *c = Some(content.to_vec()),
    }
}
fn look(v: &DiskVfs, want: &Tree) {
    for (uri, path) in URIS {
        let node = find(want, &names(path)).cloned();
        assert!(v.exists(uri) == node.is_some(), "a file exists when it is there");
        let file = node.clone().flatten();
        match (v.get_source(uri), &file) {
            (None, c) => assert!(c.as_ref().is_none_or(|c| std::str::from_utf8(c).is_err()), "a file that is there can be read"),
            (Some(s), Some(c)) => {
                assert!(s.length() == c.len() && s.get_text_from(0).as_bytes() == &c[..], "a file is read as it was written")
            }
            (Some(_), None) => panic!("what is not there can be read"),
        }
        assert!(v.is_file(uri) == file.is_some() && v.is_dir(uri) == matches!(node, Some(None)), "files and directories are told apart");
        match (v.metadata(uri), &node) {
            (None, None) => {}
            (Some(m), Some(n)) => {
                assert!(m.file_type == if n.is_some() { FileType::File } else { FileType::Directory });
                assert!(m.modified == Some(WHEN as u64), "when it was written");
                if let Some(c) = n {
                    assert!(m.len == c.len() as u64, "how long it is")
                }
            }
            _ => panic!("metadata of what is there"),
        }
        assert!(v.line_map(uri).is_some() == v.get_source(uri).is_some());
    }
    for (uri, path) in [("", "/r"), ("d", "/r/d"), ("/r", "/r"), ("/o/p", "/o/p"), ("a", "/r/a"), ("no", "/r/no")] {
        let at = names(path);
        match v.read_dir(uri) {
            None => assert!(!matches!(find(want, &at), Some(None)), "a directory can be listed"),
            Some(list) => {
                assert!(matches!(find(want, &at), Some(None)), "only a directory can be listed");
                let inside: Vec<_> = want.iter().filter(|e| e.0.len() == at.len() + 1 && e.0[..at.len()] == at[..]).collect();
                assert!(list.len() == inside.len(), "each entry is listed once");
                for e in inside {
                    let name = std::str::from_utf8(e.0.last().unwrap()).unwrap();
                    let hit = list.iter().find(|u| u.rsplit('/').next() == Some(name));
                    let u = hit.expect("every entry is listed");
                    assert!(v.exists(u) && v.is_dir(u) == e.1.is_none(), "what is listed can be looked at");
                    if let (Some(c), Some(s)) = (&e.1, v.get_source(u)) {
                        assert!(s.get_text_from(0).as_bytes() == &c[..], "what is listed can be read")
                    }
                }
            }
        }
    }
}
/// P34: every history of writes and removals.
#[unsafe(no_mangle)]
pub extern "C" fn h_disk_history() {
    *TREE.lock().unwrap() = vec![(vec![b"r".to_vec()], None), (vec![b"cwd".to_vec()], None)];
    if vx::flag() {
        // a file that someone else wrote: any bytes
        let n = vx::choose(if T { 3 } else { 2 });
        TREE.lock().unwrap().push((names("/r/a"), Some((0..n).map(|_| vx::byte(b'a')).collect())));
    }
    let mut want = TREE.lock().unwrap().clone();
    let v = DiskVfs::new("/r".into());
    look(&v, &want);
    for step in 0..2 {
        let (uri, path) = URIS[vx::choose(8)];
        if vx::flag() {
            let text = if step == 0 { vx::text(2, 2) } else { vx::text(1, 1) };
            v.write_file(uri, Arc::from(text.as_str()));
            write(&mut want, &names(path), text.as_bytes())
        }
        else {
            v.remove_file(uri);
            let at = names(path);
            want.retain(|e| !(e.0 == at && e.1.is_some()))
        }
        assert!(sorted(TREE.lock().unwrap().clone()) == sorted(want.clone()), "only the named file changes");
        look(&v, &want);
    }
    vx::observe(want.len() as u64);
    vx::cover(1);
}
/// P34: longer histories over fixed contents.
#[unsafe(no_mangle)]
pub extern "C" fn h_disk_long() {
    *TREE.lock().unwrap() = vec![(vec![b"r".to_vec()], None), (vec![b"cwd".to_vec()], None)];
    let mut want = TREE.lock().unwrap().clone();
    let v = DiskVfs::new("/r".into());
    for step in 0..if T { 4 } else { 3 } {
        let (uri, path) = URIS[vx::choose(8)];
        let at = names(path);
        match vx::choose(3) {
            2 => {
                v.remove_file(uri);
                want.retain(|e| !(e.0 == at && e.1.is_some()))
            }
            k => {
                let text = [["longer", ""], ["a\nb", "\u{20ac}"]][k][step % 2];
                v.write_file(uri, Arc::from(text));
                write(&mut want, &at, text.as_bytes())
            }
        }
        assert!(sorted(TREE.lock().unwrap().clone()) == sorted(want.clone()), "only the named file changes");
    }
    look(&v, &want);
    vx::observe(want.len() as u64);
    vx::cover(1);
}
vx::main!(h_disk_history, h_disk_long);
