//! Harness intrinsics.  Under the symbolic executor these calls are interpreted; natively they
//! replay a given vector of values (rt.c).
extern "C" {
    fn vx_sym(w: u32, default: u64) -> u64;
    fn vx_assume(c: u64);
    fn vx_pin(v: u64) -> u64;
    fn vx_observe(v: u64);
    fn vx_cover(id: u64);
    fn vx_live() -> u64;
    fn vxn_push(v: u64);
    fn vxn_done() -> !;
}
/// An arbitrary value of `bits` bits; `default` is only where exploration starts.
#[inline(always)]
pub fn bits(bits: u32, default: u64) -> u64 {
    unsafe { vx_sym(bits, default) }
}
#[inline(always)]
pub fn byte(default: u8) -> u8 {
    bits(8, default as u64) as u8
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vx_assume(c as u64) }
}
/// Split into one path per value.
#[inline(always)]
pub fn pin(v: u64) -> u64 {
    unsafe { vx_pin(v) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { vx_observe(v) }
}
pub fn observe_bytes(v: &[u8]) {
    observe(v.len() as u64);
    for b in v {
        observe(*b as u64);
    }
}
/// Reachability witness.
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { vx_cover(id) }
}
/// Bytes of live heap memory.
#[inline(always)]
pub fn live() -> u64 {
    unsafe { vx_live() }
}
/// Symbolic number in 0..n (kept symbolic).
#[inline(always)]
pub fn below(n: u64, default: u64) -> u64 {
    let w = if n <= 256 { 8 } else { 64 };
    let v = bits(w, default);
    assume(v < n);
    v
}
/// Number in 0..n, one path per value.
#[inline(always)]
pub fn choose(n: u64) -> usize {
    if n <= 1 {
        return 0;
    }
    pin(below(n, 0)) as usize
}
#[inline(always)]
pub fn flag() -> bool {
    pin(bits(1, 0)) != 0
}
/// One arbitrary character of exactly `width` UTF-8 bytes, all bytes symbolic.
pub fn push_char(out: &mut Vec<u8>, width: usize) {
    match width {
        1 => {
            let b = byte(b'a');
            assume(b < 0x80);
            out.push(b);
        }
        2 => {
            let a = byte(0xC3);
            let b = byte(0xA9);
            assume((a >= 0xC2) & (a <= 0xDF));
            assume((b & 0xC0) == 0x80);
            out.push(a);
            out.push(b);
        }
        3 => {
            let a = byte(0xE4);
            let b = byte(0xBD);
            let c = byte(0xA0);
            assume((a & 0xF0) == 0xE0);
            assume((b & 0xC0) == 0x80);
            assume((c & 0xC0) == 0x80);
            assume(!((a == 0xE0) & (b < 0xA0)));
            assume(!((a == 0xED) & (b >= 0xA0)));
            out.extend_from_slice(&[a, b, c]);
        }
        _ => {
            let a = byte(0xF0);
            let b = byte(0x9F);
            let c = byte(0x98);
            let d = byte(0x80);
            assume((a >= 0xF0) & (a <= 0xF4));
            assume((b & 0xC0) == 0x80);
            assume((c & 0xC0) == 0x80);
            assume((d & 0xC0) == 0x80);
            assume(!((a == 0xF0) & (b < 0x90)));
            assume(!((a == 0xF4) & (b >= 0x90)));
            out.extend_from_slice(&[a, b, c, d]);
        }
    }
}
fn to_string(v: Vec<u8>) -> String {
    // the constraints above are exactly well-formed UTF-8
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any UTF-8 text of at most `max` bytes, made of characters of at most `maxw` bytes each.
/// One path per sequence of character widths; the bytes stay symbolic.
pub fn text(max: usize, maxw: usize) -> String {
    let mut v = Vec::with_capacity(max + 1);
    loop {
        let room = (max - v.len()).min(maxw);
        let k = choose(room as u64 + 1);
        if k == 0 {
            break;
        }
        push_char(&mut v, k);
    }
    to_string(v)
}
/// Any ASCII text of exactly `n` bytes.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        push_char(&mut v, 1);
    }
    to_string(v)
}
/// Any ASCII text of at most `n` bytes.
pub fn ascii_upto(n: usize) -> String {
    let k = choose(n as u64 + 1);
    ascii(k)
}
/// One byte out of a set (kept symbolic).
pub fn of(set: &[u8]) -> u8 {
    let b = byte(set[0]);
    let mut ok = false;
    for s in set {
        ok |= b == *s;
    }
    assume(ok);
    b
}
/// A text of exactly `n` characters out of a set of single bytes.
pub fn over(set: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n + 1);
    for _ in 0..n {
        v.push(of(set));
    }
    to_string(v)
}
pub fn over_upto(set: &[u8], n: usize) -> String {
    let k = choose(n as u64 + 1);
    over(set, k)
}
/// `$` in the template becomes one arbitrary ASCII byte.
pub fn template(t: &str, hole: u8) -> String {
    let mut v = Vec::with_capacity(t.len() + 1);
    for b in t.bytes() {
        if b == hole {
            push_char(&mut v, 1);
        } else {
            v.push(b);
        }
    }
    to_string(v)
}
/// One of the given concrete documents.
pub fn pick<'a, T: ?Sized>(docs: &[&'a T]) -> &'a T {
    docs[choose(docs.len() as u64)]
}
/// Runs a future that never really waits.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Waker};
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future did not complete");
}
pub fn native_main(table: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in table {
            println!("{}", n);
        }
        return;
    }
    for v in &a[2..] {
        unsafe { vxn_push(v.parse().unwrap()) }
    }
    let f = table.iter().find(|t| t.0 == a[1]).expect("no such harness").1;
    f();
    unsafe { vxn_done() }
}
#[macro_export]
macro_rules! main {
    ($($n:ident),* $(,)?) => {
        fn main() {
            vx::native_main(&[$((stringify!($n), $n as extern "C" fn())),*]);
        }
    };
}
