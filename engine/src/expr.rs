//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract,
    Concat,
}

pub type E = u32; // 0 = "no expression" (concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}
#[derive(Clone, Copy)]
pub struct Node {
    pub key: Key,
    pub vars: u128, // set of symbolic variables (bit 127 = "127 or more")
    pub size: u32,
    pub h: u128, // structural hash (variables by index)
}
fn mix(a: u64, b: u64) -> u64 {
    let m = (a ^ b.rotate_left(32) ^ 0x9E37_79B9_7F4A_7C15) as u128 * 0xD6E8_FEB8_6659_FD93u128;
    (m as u64) ^ ((m >> 64) as u64).rotate_left(17)
}
pub fn mix128(a: u128, b: u128) -> u128 {
    let l = mix(mix(a as u64, b as u64), (b >> 64) as u64 ^ 0x51);
    let h = mix(mix((a >> 64) as u64 ^ 0xABCD, (b >> 64) as u64), (b as u64).wrapping_mul(3) ^ l);
    ((h as u128) << 64) | l as u128
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub var_w: Vec<u8>, // widths of the variables
    eval_memo: Vec<(u32, u64)>,
    eval_gen: u32,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn eval_bin(op: Op, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                (if x < 0 { 1i64 } else { -1 }) as u64
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Op::SRem => {
            let (x, y) = (sext64(a, w), sext64(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext64(a, w);
            (if b >= w as u64 { x >> 63 } else { x >> b }) as u64
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sext64(a, w) < sext64(b, w)) as u64,
        Op::Sle => (sext64(a, w) <= sext64(b, w)) as u64,
        _ => unreachable!(),
    }) & m
}
pub fn eval_bin128(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                (if x < 0 { 1i128 } else { -1 }) as u128
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext128(a, w);
            (if b >= w as u128 { x >> 127 } else { x >> b }) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![], map: FxMap::default(), var_w: vec![], eval_memo: vec![], eval_gen: 0 };
        a.n.push(Node { key: Key { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u64::MAX }, vars: 0, size: 0, h: 0 });
        a
    }
    pub fn clear(&mut self) {
        *self = Arena::new();
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].key.w as u32
    }
    #[inline]
    pub fn vars(&self, e: E) -> u128 {
        self.n[e as usize].vars
    }
    #[inline]
    pub fn konst(&self, e: E) -> Option<u64> {
        let k = &self.n[e as usize].key;
        if k.op == Op::Const {
            Some(k.k)
        } else {
            None
        }
    }
    fn mk(&mut self, key: Key) -> E {
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mut vars = 0u128;
        let mut size = 1u32;
        if key.op == Op::Var {
            vars = 1u128 << key.k.min(127);
        } else {
            for x in [key.a, key.b, key.c] {
                if x != 0 {
                    vars |= self.n[x as usize].vars;
                    size = size.saturating_add(self.n[x as usize].size);
                }
            }
        }
        let e = self.n.len() as E;
        let mut h = mix128(((key.op as u128) << 72) | ((key.w as u128) << 64) | key.k as u128, 0x1234_5678_9abc_def0_0fed_cba9_8765_4321);
        for x in [key.a, key.b, key.c] {
            h = mix128(h, self.n[x as usize].h);
        }
        self.n.push(Node { key, vars, size, h });
        self.map.insert(key, e);
        e
    }
    pub fn c(&mut self, w: u32, k: u64) -> E {
        debug_assert!(w <= 64);
        self.mk(Key { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn c128(&mut self, w: u32, k: u128) -> E {
        if w <= 64 {
            return self.c(w, k as u64);
        }
        let lo = self.c(64, k as u64);
        let hi = self.c(w - 64, (k >> 64) as u64);
        self.mk(Key { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn var(&mut self, idx: usize, w: u32) -> E {
        while self.var_w.len() <= idx {
            self.var_w.push(w as u8);
        }
        self.var_w[idx] = w as u8;
        self.mk(Key { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, k: idx as u64 })
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E {
        self.mk(Key { op, w: w as u8, a, b, c, k })
    }
    pub fn not(&mut self, e: E) -> E {
        // logical not of a width-1 expression
        let k = self.n[e as usize].key;
        if k.op == Op::Const {
            return self.c(1, k.k ^ 1);
        }
        if k.op == Op::Eq && k.w == 1 && self.w(k.a) == 1 && self.konst(k.b) == Some(0) {
            return k.a;
        }
        let z = self.c(1, 0);
        self.raw(Op::Eq, 1, e, z, 0, 0)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let k = self.n[e as usize].key;
        if k.w as u32 == w {
            return e;
        }
        debug_assert!((k.w as u32) < w);
        if k.op == Op::Const {
            return self.c128(w, k.k as u128);
        }
        if k.op == Op::Zext {
            return self.raw(Op::Zext, w, k.a, 0, 0, 0);
        }
        self.raw(Op::Zext, w, e, 0, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let k = self.n[e as usize].key;
        if k.w as u32 == w {
            return e;
        }
        if k.op == Op::Const {
            let v = sext64(k.k, k.w as u32) as i128 as u128 & mask128(w);
            return self.c128(w, v);
        }
        if k.op == Op::Zext {
            return self.raw(Op::Zext, w, k.a, 0, 0, 0);
        }
        self.raw(Op::Sext, w, e, 0, 0, 0)
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, 0, w)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let k = self.n[e as usize].key;
        let ew = k.w as u32;
        if lo == 0 && w == ew {
            return e;
        }
        debug_assert!(lo + w <= ew, "extract {} {} of {}", lo, w, ew);
        match k.op {
            Op::Const => return self.c(w, k.k >> lo),
            Op::Extract => return self.extract(k.a, lo + k.k as u32, w),
            Op::Concat => {
                let bw = self.w(k.b);
                if lo + w <= bw {
                    return self.extract(k.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(k.a, lo - bw, w);
                }
                let l = self.extract(k.b, lo, bw - lo);
                let h = self.extract(k.a, 0, lo + w - bw);
                return self.concat(h, l);
            }
            Op::Zext => {
                let aw = self.w(k.a);
                if lo >= aw {
                    return self.c128(w, 0);
                }
                if lo + w <= aw {
                    return self.extract(k.a, lo, w);
                }
                let x = self.extract(k.a, lo, aw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let aw = self.w(k.a);
                if lo + w <= aw {
                    return self.extract(k.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(k.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(k.a, lo, w);
                let b = self.extract(k.b, lo, w);
                return self.bin(k.op, a, b);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(k.a, 0, w);
                let b = self.extract(k.b, 0, w);
                return self.bin(k.op, a, b);
            }
            Op::Ite => {
                let a = self.extract(k.b, lo, w);
                let b = self.extract(k.c, lo, w);
                return self.ite(k.a, a, b);
            }
            Op::Shl => {
                if let Some(s) = self.konst(k.b) {
                    let s = s as u32;
                    if lo >= s {
                        return self.extract(k.a, lo - s, w);
                    }
                    if lo + w <= s {
                        return self.c128(w, 0);
                    }
                }
            }
            Op::LShr => {
                if let Some(s) = self.konst(k.b) {
                    let s = s as u32;
                    if lo + w + s <= ew {
                        return self.extract(k.a, lo + s, w);
                    }
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, w, e, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n[hi as usize].key, self.n[lo as usize].key);
        let w = h.w as u32 + l.w as u32;
        if h.op == Op::Const && l.op == Op::Const && w <= 64 {
            return self.c(w, (h.k << l.w) | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u64 {
            return self.extract(h.a, l.k as u32, w);
        }
        // hi is Extract(x, lw..) and lo is the low part which simplified to x's trunc
        if l.op == Op::Extract && h.op == Op::Concat {
            // (Concat (x) (Extract a k)) ++ Extract a k'
            let hb = self.n[h.b as usize].key;
            if hb.op == Op::Extract && hb.a == l.a && hb.k == l.k + l.w as u64 {
                let m = self.extract(l.a, l.k as u32, (hb.w + l.w) as u32);
                return self.concat(h.a, m);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        if self.w(a) == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        // Ite(not x, a, b) -> Ite(x, b, a)
        let k = self.n[c as usize].key;
        if k.op == Op::Eq && self.w(k.a) == 1 && self.konst(k.b) == Some(0) {
            return self.ite(k.a, b, a);
        }
        let w = self.w(a);
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn is_cmp(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }
    /// Constant value of any width, if it is one.
    fn konst128(&self, e: E) -> Option<u128> {
        let k = self.n[e as usize].key;
        match k.op {
            Op::Const => Some(k.k as u128),
            Op::Concat => {
                let h = self.konst(k.a)?;
                let l = self.konst(k.b)?;
                Some(((h as u128) << self.w(k.b)) | l as u128)
            }
            Op::Zext => self.konst128(k.a),
            _ => None,
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (mut ka, mut kb) = (self.konst128(a), self.konst128(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if w <= 64 {
                let v = if rw == 1 && w != 1 { eval_cmp(op, w, x as u64, y as u64) } else { eval_bin(op, w, x as u64, y as u64) };
                return self.c(rw, v);
            }
            let v = if rw == 1 { eval_cmp128(op, w, x, y) } else { eval_bin128(op, w, x, y) };
            return self.c128(rw, v);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ka.is_some() || (kb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ka, &mut kb);
            }
        }
        let full = mask128(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    let k = self.n[a as usize].key;
                    if k.op == Op::Add {
                        if let Some(z) = self.konst128(k.b) {
                            let c = self.c128(w, y.wrapping_add(z) & full);
                            return self.bin(Op::Add, k.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c128(w, 0);
                }
                if let Some(y) = kb {
                    let c = self.c128(w, y.wrapping_neg() & full);
                    return self.bin(Op::Add, a, c);
                }
                // (x + k) - x
                let k = self.n[a as usize].key;
                if k.op == Op::Add && k.a == b {
                    return k.b;
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
            }
            Op::UDiv | Op::SDiv => {
                if kb == Some(1) && w > 1 {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(full) {
                    return a;
                }
                if let Some(y) = kb {
                    let k = self.n[a as usize].key;
                    if k.op == Op::Zext {
                        let aw = self.w(k.a);
                        if aw <= 64 {
                            let c = self.c(aw, (y & mask128(aw)) as u64);
                            let x = self.bin(Op::And, k.a, c);
                            return self.zext(x, w);
                        }
                    }
                    if k.op == Op::And {
                        if let Some(z) = self.konst128(k.b) {
                            let c = self.c128(w, y & z);
                            return self.bin(Op::And, k.a, c);
                        }
                    }
                    // low mask: zext(trunc)
                    if w <= 64 && (y + 1).is_power_of_two() && y != 0 {
                        let bits = (y + 1).trailing_zeros();
                        if bits < w {
                            let t = self.extract(a, 0, bits);
                            return self.zext(t, w);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    let na = self.not(a);
                    if na == b {
                        return self.c(1, 0);
                    }
                }
                if let (Op::Zext, Op::Zext) = (self.n[a as usize].key.op, self.n[b as usize].key.op) {
                    let (x, y) = (self.n[a as usize].key.a, self.n[b as usize].key.a);
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Op::And, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(full) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(1, 1);
                    }
                }
                if let (Op::Zext, Op::Zext) = (self.n[a as usize].key.op, self.n[b as usize].key.op) {
                    let (x, y) = (self.n[a as usize].key.a, self.n[b as usize].key.a);
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Op::Or, x, y);
                        return self.zext(r, w);
                    }
                }
                // (x << k) | zext(y) with y narrower than k -> concat
                for (s, z) in [(a, b), (b, a)] {
                    let sk = self.n[s as usize].key;
                    let zk = self.n[z as usize].key;
                    if sk.op == Op::Shl && zk.op == Op::Zext {
                        if let Some(sh) = self.konst128(sk.b) {
                            let sh = sh as u32;
                            if self.w(zk.a) <= sh && sh < w {
                                let hi = self.extract(sk.a, 0, w - sh);
                                let lo = self.zext(zk.a, sh);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c128(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if w == 1 && kb == Some(1) {
                    return self.not(a);
                }
                if let Some(y) = kb {
                    let k = self.n[a as usize].key;
                    if k.op == Op::Xor {
                        if let Some(z) = self.konst128(k.b) {
                            let c = self.c128(w, y ^ z);
                            return self.bin(Op::Xor, k.a, c);
                        }
                    }
                    if k.op == Op::Zext && self.w(k.a) <= 64 && y <= mask128(self.w(k.a)) {
                        let aw = self.w(k.a);
                        let c = self.c(aw, y as u64);
                        let x = self.bin(Op::Xor, k.a, c);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if op != Op::AShr && y >= w as u128 {
                        return self.c128(w, 0);
                    }
                    let y = y as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, y, w - y);
                        return self.zext(x, w);
                    }
                    let k = self.n[a as usize].key;
                    if op == Op::AShr && k.op == Op::Zext && y < w {
                        let x = self.extract(a, y, w - y);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(y) = kb {
                    let k = self.n[a as usize].key;
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match k.op {
                        Op::Zext => {
                            let aw = self.w(k.a);
                            if y > mask128(aw) {
                                return self.c(1, 0);
                            }
                            let c = self.c128(aw, y);
                            return self.bin(Op::Eq, k.a, c);
                        }
                        Op::Sext => {
                            let aw = self.w(k.a);
                            let t = y & mask128(aw);
                            if sext128(t, aw) as u128 & full != y {
                                return self.c(1, 0);
                            }
                            let c = self.c128(aw, t);
                            return self.bin(Op::Eq, k.a, c);
                        }
                        Op::Concat => {
                            let bw = self.w(k.b);
                            let ch = self.c128(w - bw, y >> bw);
                            let cl = self.c128(bw, y & mask128(bw));
                            let x = self.bin(Op::Eq, k.a, ch);
                            if self.konst(x) == Some(0) {
                                return x;
                            }
                            let z = self.bin(Op::Eq, k.b, cl);
                            return self.and1(x, z);
                        }
                        Op::Add => {
                            if let Some(z) = self.konst128(k.b) {
                                let c = self.c128(w, y.wrapping_sub(z) & full);
                                return self.bin(Op::Eq, k.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.konst128(k.b) {
                                let c = self.c128(w, y ^ z);
                                return self.bin(Op::Eq, k.a, c);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, k.a, k.b);
                            }
                        }
                        Op::Or => {
                            if y == 0 {
                                let x = self.bin(Op::Eq, k.a, b);
                                let z = self.bin(Op::Eq, k.b, b);
                                return self.and1(x, z);
                            }
                        }
                        Op::Ite => {
                            let (tb, tc) = (self.konst128(k.b), self.konst128(k.c));
                            if tb.is_some() || tc.is_some() {
                                let x = self.bin(Op::Eq, k.b, b);
                                let z = self.bin(Op::Eq, k.c, b);
                                return self.ite(k.a, x, z);
                            }
                        }
                        _ => {}
                    }
                } else if let (Op::Zext, Op::Zext) = (self.n[a as usize].key.op, self.n[b as usize].key.op) {
                    let (x, y) = (self.n[a as usize].key.a, self.n[b as usize].key.a);
                    if self.w(x) == self.w(y) {
                        return self.bin(Op::Eq, x, y);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.c(1, (op == Op::Ule) as u64);
                }
                if let Some(y) = kb {
                    if op == Op::Ule {
                        if y == full {
                            return self.c(1, 1);
                        }
                        let c = self.c128(w, y + 1);
                        return self.bin(Op::Ult, a, c);
                    }
                    if y == 0 {
                        return self.c(1, 0);
                    }
                    if y == 1 {
                        let z = self.c128(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    let k = self.n[a as usize].key;
                    if k.op == Op::Zext {
                        let aw = self.w(k.a);
                        if y > mask128(aw) {
                            return self.c(1, 1);
                        }
                        let c = self.c128(aw, y);
                        return self.bin(Op::Ult, k.a, c);
                    }
                    if k.op == Op::Ite && self.konst128(k.b).is_some() && self.konst128(k.c).is_some() {
                        let x = self.bin(Op::Ult, k.b, b);
                        let z = self.bin(Op::Ult, k.c, b);
                        return self.ite(k.a, x, z);
                    }
                }
                if let Some(x) = ka {
                    if op == Op::Ule {
                        // x <= b  <=> !(b < x)
                        let r = self.bin(Op::Ult, b, a);
                        return self.not(r);
                    }
                    // x < b <=> !(b <= x) <=> !(b < x+1)
                    if x == full {
                        return self.c(1, 0);
                    }
                    let c = self.c128(w, x + 1);
                    let r = self.bin(Op::Ult, b, c);
                    return self.not(r);
                }
                if let (Op::Zext, Op::Zext) = (self.n[a as usize].key.op, self.n[b as usize].key.op) {
                    let (x, y) = (self.n[a as usize].key.a, self.n[b as usize].key.a);
                    if self.w(x) == self.w(y) {
                        return self.bin(op, x, y);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.c(1, (op == Op::Sle) as u64);
                }
                // both non-negative -> unsigned
                let nn = |s: &Self, e: E| -> bool {
                    let k = s.n[e as usize].key;
                    match k.op {
                        Op::Zext => true,
                        _ => s.konst128(e).map_or(false, |v| v >> (w - 1) == 0),
                    }
                };
                if nn(self, a) && nn(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // zext x vs negative constant
                if self.n[a as usize].key.op == Op::Zext {
                    if let Some(y) = kb {
                        if y >> (w - 1) == 1 {
                            return self.c(1, 0);
                        }
                    }
                }
                if self.n[b as usize].key.op == Op::Zext {
                    if let Some(y) = ka {
                        if y >> (w - 1) == 1 {
                            return self.c(1, 1);
                        }
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }

    // ---------- evaluation (widths <= 64 except through concat/extract) ----------
    pub fn eval(&mut self, e: E, vals: &[u64]) -> u128 {
        self.eval_gen += 1;
        if self.eval_memo.len() < self.n.len() {
            self.eval_memo.resize(self.n.len() + 1024, (0, 0));
        }
        let g = self.eval_gen;
        self.eval_rec(e, vals, g)
    }
    fn eval_rec(&mut self, e: E, vals: &[u64], g: u32) -> u128 {
        let k = self.n[e as usize].key;
        if k.w <= 64 {
            let (mg, mv) = self.eval_memo[e as usize];
            if mg == g {
                return mv as u128;
            }
        }
        let w = k.w as u32;
        let r: u128 = match k.op {
            Op::Const => k.k as u128,
            Op::Var => vals.get(k.k as usize).copied().unwrap_or(0) as u128 & mask128(w),
            Op::Ite => {
                if self.eval_rec(k.a, vals, g) != 0 {
                    self.eval_rec(k.b, vals, g)
                } else {
                    self.eval_rec(k.c, vals, g)
                }
            }
            Op::Zext => self.eval_rec(k.a, vals, g),
            Op::Sext => {
                let aw = self.w(k.a);
                sext128(self.eval_rec(k.a, vals, g), aw) as u128 & mask128(w)
            }
            Op::Extract => (self.eval_rec(k.a, vals, g) >> k.k) & mask128(w),
            Op::Concat => {
                let bw = self.w(k.b);
                (self.eval_rec(k.a, vals, g) << bw) | self.eval_rec(k.b, vals, g)
            }
            op => {
                let aw = self.w(k.a);
                let a = self.eval_rec(k.a, vals, g);
                let b = self.eval_rec(k.b, vals, g);
                if Self::is_cmp(op) {
                    eval_cmp128(op, aw, a, b)
                } else {
                    eval_bin128(op, aw, a, b)
                }
            }
        };
        if k.w <= 64 {
            self.eval_memo[e as usize] = (g, r as u64);
        }
        r
    }
    #[allow(dead_code)]
    pub fn show(&self, e: E) -> String {
        let k = self.n[e as usize].key;
        match k.op {
            Op::Const => format!("{:#x}:{}", k.k, k.w),
            Op::Var => format!("v{}", k.k),
            Op::Extract => format!("({}[{}+{}])", self.show(k.a), k.k, k.w),
            Op::Zext => format!("z{}({})", k.w, self.show(k.a)),
            Op::Sext => format!("s{}({})", k.w, self.show(k.a)),
            Op::Ite => format!("({} ? {} : {})", self.show(k.a), self.show(k.b), self.show(k.c)),
            o => format!("({:?} {} {})", o, self.show(k.a), self.show(k.b)),
        }
    }
}
pub fn eval_cmp(op: Op, w: u32, a: u64, b: u64) -> u64 {
    match op {
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sext64(a, w) < sext64(b, w)) as u64,
        Op::Sle => (sext64(a, w) <= sext64(b, w)) as u64,
        _ => unreachable!(),
    }
}
pub fn eval_cmp128(op: Op, w: u32, a: u128, b: u128) -> u128 {
    (match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sext128(a, w) < sext128(b, w),
        Op::Sle => sext128(a, w) <= sext128(b, w),
        _ => unreachable!(),
    }) as u128
}
