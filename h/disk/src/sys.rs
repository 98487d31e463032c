//! Stand-ins for the file system calls: a tree of files in memory. Nothing here reaches the real
//! file system; only descriptors the process already has (below 1000) are passed on.
use std::sync::Mutex;
/// Names from the root, and the content of a file (`None` for a directory).
pub static TREE: Mutex<Vec<(Vec<Vec<u8>>, Option<Vec<u8>>)>> = Mutex::new(vec![]);
/// Open files: which one, and how far it was read.
static OPEN: Mutex<Vec<(Vec<Vec<u8>>, usize)>> = Mutex::new(vec![]);
struct Dir {
    names: Vec<(Vec<u8>, bool)>,
    next: usize,
    entry: [u64; 40],
}
const FIRST: i32 = 1000;
unsafe extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, ...) -> i64;
}
fn fail(e: i32) -> i32 {
    unsafe { *__errno_location() = e }
    -1
}
unsafe fn bytes<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while unsafe { *p.add(n) } != 0 {
        n += 1;
    }
    unsafe { std::slice::from_raw_parts(p, n) }
}
/// The names a path goes through; `Err` when it goes through something that is no directory.
pub fn resolve(path: &[u8]) -> Result<Vec<Vec<u8>>, i32> {
    // a relative path starts from the directory the process is in
    let mut at: Vec<Vec<u8>> = if path.first() == Some(&b'/') { vec![] } else { vec![b"cwd".to_vec()] };
    let mut from = 0;
    let mut i = 0;
    if path.is_empty() {
        return Err(2);
    }
    while i <= path.len() {
        if i == path.len() || path[i] == b'/' {
            let name = &path[from..i];
            from = i + 1;
            if !name.is_empty() {
                is_dir(&at)?;
                if name == b".." {
                    at.pop();
                }
                else if name != b"." {
                    at.push(name.to_vec())
                }
            }
        }
        i += 1;
    }
    Ok(at)
}
fn is_dir(at: &[Vec<u8>]) -> Result<(), i32> {
    if at.is_empty() {
        return Ok(());
    }
    match TREE.lock().unwrap().iter().find(|e| e.0 == at) {
        None => Err(2),
        Some((_, None)) => Ok(()),
        Some(_) => Err(20),
    }
}
fn get(at: &[Vec<u8>]) -> Option<Option<Vec<u8>>> {
    if at.is_empty() {
        return Some(None);
    }
    TREE.lock().unwrap().iter().find(|e| e.0 == at).map(|e| e.1.clone())
}
fn open(at: &[Vec<u8>], flags: i32) -> Result<i32, i32> {
    let writes = flags & 3 != 0;
    match get(at) {
        Some(None) if writes => return Err(21),
        Some(Some(_)) if flags & 0o200000 != 0 => return Err(20),
        None if flags & 0o100 == 0 => return Err(2),
        None => {
            is_dir(&at[..at.len() - 1])?;
            TREE.lock().unwrap().push((at.to_vec(), Some(vec![])))
        }
        _ => {}
    }
    if writes && flags & 0o1000 != 0 {
        let mut t = TREE.lock().unwrap();
        t.iter_mut().find(|e| e.0 == at).unwrap().1 = Some(vec![]);
    }
    let mut o = OPEN.lock().unwrap();
    o.push((at.to_vec(), 0));
    Ok(FIRST + o.len() as i32 - 1)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
    match resolve(unsafe { bytes(path) }).and_then(|at| open(&at, flags)) {
        Ok(fd) => fd,
        Err(e) => fail(e),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, to: *mut u8, n: usize) -> isize {
    if fd < FIRST {
        return unsafe { syscall(0, fd as i64, to, n) as isize };
    }
    let mut o = OPEN.lock().unwrap();
    let (at, pos) = &mut o[(fd - FIRST) as usize];
    match get(at) {
        Some(Some(c)) => {
            let n = n.min(c.len() - (*pos).min(c.len()));
            unsafe { std::ptr::copy_nonoverlapping(c.as_ptr().add(*pos), to, n) }
            *pos += n;
            n as isize
        }
        Some(None) => fail(21) as isize,
        None => 0,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, from: *const u8, n: usize) -> isize {
    if fd < FIRST {
        return unsafe { syscall(1, fd as i64, from, n) as isize };
    }
    let mut o = OPEN.lock().unwrap();
    let (at, pos) = &mut o[(fd - FIRST) as usize];
    let mut t = TREE.lock().unwrap();
    if let Some((_, Some(c))) = t.iter_mut().find(|e| &e.0 == at) {
        let from = unsafe { std::slice::from_raw_parts(from, n) };
        c.truncate(*pos);
        c.extend_from_slice(from);
        *pos += n;
    }
    n as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < FIRST { unsafe { syscall(3, fd as i64) as i32 } } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: i32, _off: i64, _whence: i32) -> i64 {
    if fd < FIRST { fail(29) as i64 } else { OPEN.lock().unwrap()[(fd - FIRST) as usize].1 as i64 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, _flags: i32, _mask: u32, buf: *mut u8) -> i32 {
    if path.is_null() {
        return fail(14);
    }
    let path = unsafe { bytes(path) };
    let at = if path.is_empty() && fd >= FIRST { Ok(OPEN.lock().unwrap()[(fd - FIRST) as usize].0.clone()) } else { resolve(path) };
    let node = at.and_then(|at| get(&at).ok_or(2));
    match node {
        Err(e) => fail(e),
        Ok(node) => {
            unsafe {
                std::ptr::write_bytes(buf, 0, 256);
                *(buf as *mut u32) = 0x7ff;
                *(buf.add(28) as *mut u16) = if node.is_some() { 0o100644 } else { 0o40755 };
                *(buf.add(40) as *mut u64) = node.map_or(4096, |c| c.len() as u64);
                *(buf.add(112) as *mut i64) = super::WHEN;
            }
            0
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(path: *const u8, _mode: u32) -> i32 {
    match resolve(unsafe { bytes(path) }) {
        Err(e) => fail(e),
        Ok(at) if get(&at).is_some() => fail(17),
        Ok(at) => match is_dir(&at[..at.len() - 1]) {
            Err(e) => fail(e),
            Ok(()) => {
                TREE.lock().unwrap().push((at, None));
                0
            }
        },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const u8) -> i32 {
    match resolve(unsafe { bytes(path) }) {
        Err(e) => fail(e),
        Ok(at) => match get(&at) {
            None => fail(2),
            Some(None) => fail(21),
            Some(_) => {
                TREE.lock().unwrap().retain(|e| e.0 != at);
                0
            }
        },
    }
}
/// Removing a directory, should the code under test ever ask for it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(path: *const u8) -> i32 {
    match resolve(unsafe { bytes(path) }) {
        Err(e) => fail(e),
        Ok(at) => {
            let mut t = TREE.lock().unwrap();
            if t.iter().any(|e| e.0.len() > at.len() && e.0[..at.len()] == at[..]) {
                return fail(39);
            }
            t.retain(|e| e.0 != at);
            0
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const u8) -> *mut u8 {
    let at = match resolve(unsafe { bytes(path) }) {
        Ok(at) => at,
        Err(e) => {
            fail(e);
            return std::ptr::null_mut();
        }
    };
    if let Err(e) = is_dir(&at) {
        fail(e);
        return std::ptr::null_mut();
    }
    let names = TREE.lock().unwrap().iter().filter(|e| e.0.len() == at.len() + 1 && e.0[..at.len()] == at[..]).map(|e| (e.0[at.len()].clone(), e.1.is_none())).collect();
    Box::into_raw(Box::new(Dir { names, next: 0, entry: [0; 40] })) as *mut u8
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    let d = unsafe { &mut *(d as *mut Dir) };
    let Some((name, dir)) = d.names.get(d.next) else { return std::ptr::null_mut() };
    d.next += 1;
    let e = d.entry.as_mut_ptr() as *mut u8;
    unsafe {
        std::ptr::write_bytes(e, 0, 320);
        *(e as *mut u64) = d.next as u64;
        *(e.add(16) as *mut u16) = 280;
        *e.add(18) = if *dir { 4 } else { 8 };
        std::ptr::copy_nonoverlapping(name.as_ptr(), e.add(19), name.len());
    }
    e
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
    drop(unsafe { Box::from_raw(d as *mut Dir) });
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(_d: *mut u8) -> i32 {
    FIRST + 100_000
}
