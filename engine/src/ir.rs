//! Textual LLVM IR: tokens, types, globals, function index.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T<'a> {
    W(&'a str),      // word / keyword / iN / integer or float literal starting with a digit, +, -
    L(&'a str),      // %name
    G(&'a str),      // @name
    M(&'a str),      // !name or !123
    A(&'a str),      // #12
    S(&'a str),      // "string"
    C(&'a [u8]),     // c"bytes" (raw, still escaped)
    P(u8),           // punctuation
    Dots,
    Nl,
    Eof,
}

#[derive(Clone)]
pub struct Lex<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), i: 0 }
    }
    fn str(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let a = self.i + 1;
        let mut j = a;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        self.str(a, j)
    }
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            return self.quoted();
        }
        let a = self.i;
        while self.i < self.s.len() && is_name(self.s[self.i]) {
            self.i += 1;
        }
        self.str(a, self.i)
    }
    /// Next token, newlines included.
    pub fn raw(&mut self) -> T<'a> {
        loop {
            if self.i >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                b'\n' => {
                    self.i += 1;
                    return T::Nl;
                }
                b'%' => {
                    self.i += 1;
                    return T::L(self.name());
                }
                b'@' => {
                    self.i += 1;
                    return T::G(self.name());
                }
                b'!' => {
                    self.i += 1;
                    return T::M(if self.i < self.s.len() && (is_name(self.s[self.i]) || self.s[self.i] == b'"') { self.name() } else { "" });
                }
                b'#' => {
                    self.i += 1;
                    return T::A(self.name());
                }
                b'"' => return T::S(self.quoted()),
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                    self.i += 1;
                    return T::C(self.quoted().as_bytes());
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    return T::Dots;
                }
                b'+' => {
                    self.i += 1;
                    return T::P(b'+');
                }
                _ if is_name(c) => return T::W(self.name()),
                _ => {
                    self.i += 1;
                    return T::P(c);
                }
            }
        }
    }
    pub fn next(&mut self) -> T<'a> {
        loop {
            let t = self.raw();
            if t != T::Nl {
                return t;
            }
        }
    }
    pub fn peek(&self) -> T<'a> {
        let mut c = self.clone();
        c.next()
    }
    pub fn eat(&mut self, p: u8) -> bool {
        if self.peek() == T::P(p) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, p: u8) {
        let at = self.i;
        let t = self.next();
        if t != T::P(p) {
            panic!("expected {:?}, got {:?} near {:?}", p as char, t, self.ctx(at));
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == T::W(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn ctx(&self, at: usize) -> String {
        let a = at.saturating_sub(100);
        let b = (at + 200).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    pub fn to_eol(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    /// Skip a balanced parenthesised group (current token is '(').
    pub fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Other, // label, metadata, token, opaque, half, fp128 ...
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => ((n * t.bits() + 7) / 8).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// Alloc size.
    pub fn size(&self) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match self {
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => up((n * t.bits() + 7) / 8, self.align()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    /// Leaf slots: (byte offset, width in bits). Integers of 65..128 bits give two slots.
    pub fn slots(&self, off: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) if *w <= 64 => out.push((off, *w)),
            Ty::Int(w) if *w <= 128 => {
                out.push((off, 64));
                out.push((off + 8, *w - 64));
            }
            Ty::Int(w) => {
                // very wide integers: moved around only
                let mut r = *w;
                let mut o = off;
                while r > 0 {
                    let k = r.min(64);
                    out.push((o, k));
                    o += 8;
                    r -= k;
                }
            }
            Ty::F32 => out.push((off, 32)),
            Ty::F64 | Ty::Ptr => out.push((off, 64)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.slots(off + i * t.size(), out);
                }
            }
            Ty::Vec(n, t) => {
                // vectors of bytes-multiple elements are laid out densely
                let eb = if t.bits() % 8 == 0 { t.bits() / 8 } else { 0 };
                for i in 0..*n {
                    t.slots(off + i * eb, out);
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.slots(off + self.field_off(i), out);
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(w) => (w + 63) / 64,
            Ty::F32 | Ty::F64 | Ty::Ptr => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    pub fn widths(&self) -> Vec<u32> {
        let mut v = vec![];
        self.slots(0, &mut v);
        v.into_iter().map(|x| x.1).collect()
    }
}

pub struct FuncSrc {
    pub name: String,
    pub range: (usize, usize), // text range of "define ... }" ; (0,0) for declarations
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // text range of initialiser
    pub is_const: bool,
    pub align: u64,
    pub addr: u64,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncSrc>,
    pub func_ix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_ix: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub data: Vec<Vec<u8>>,          // initial bytes of each global
    pub meta: Vec<(u32, u32)>,       // !N -> text range of the definition
    pub subprog: std::sync::Mutex<HashMap<u32, Arc<str>>>,
}

pub const FUNC_BASE: u64 = 1 << 56;
pub const GLOBAL_OBJ0: u64 = 16;

fn is_ty_word(w: &str) -> bool {
    (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
        || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            funcs: vec![],
            func_ix: HashMap::new(),
            globals: vec![],
            global_ix: HashMap::new(),
            aliases: HashMap::new(),
            data: vec![],
            meta: vec![],
            subprog: Default::default(),
        };
        // pass 1: index
        let mut pos = 0usize;
        let b = text.as_bytes();
        let mut tydefs: Vec<(String, usize)> = vec![];
        let mut gdefs: Vec<(usize, usize)> = vec![];
        while pos < b.len() {
            let eol = memchr(b'\n', &b[pos..]).map(|k| pos + k).unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                let name = fn_name(line);
                let end = text[pos..].find("\n}").map(|k| pos + k + 2).expect("function end");
                let ix = m.funcs.len() as u32;
                m.func_ix.insert(name.clone(), ix);
                m.funcs.push(FuncSrc { name, range: (pos, end) });
                pos = end;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                let ix = m.funcs.len() as u32;
                m.func_ix.insert(name.clone(), ix);
                m.funcs.push(FuncSrc { name, range: (0, 0) });
            } else if line.starts_with('@') {
                gdefs.push((pos, eol));
            } else if line.starts_with('%') {
                let mut lx = Lex::new(line);
                if let T::L(n) = lx.next() {
                    tydefs.push((n.to_string(), pos));
                }
            } else if line.starts_with('!') && line.as_bytes().get(1).map_or(false, |c| c.is_ascii_digit()) {
                let e = line.find(' ').unwrap();
                let n: usize = line[1..e].parse().unwrap();
                if m.meta.len() <= n {
                    m.meta.resize(n + 1, (0, 0));
                }
                m.meta[n] = (pos as u32, eol as u32);
            }
            pos = eol + 1;
        }
        // named types: resolve recursively through text positions
        let tyix: HashMap<String, usize> = tydefs.into_iter().collect();
        let names: Vec<String> = tyix.keys().cloned().collect();
        for n in names {
            m.resolve_named(&text, &tyix, &n);
        }
        // globals
        for (a, e) in gdefs {
            let line = &text[a..e];
            let mut lx = Lex::new(line);
            let name = match lx.next() {
                T::G(n) => n.to_string(),
                t => panic!("{:?}", t),
            };
            lx.expect(b'=');
            let mut is_const = false;
            let mut external = false;
            loop {
                match lx.next() {
                    T::W("global") => break,
                    T::W("constant") => {
                        is_const = true;
                        break;
                    }
                    T::W("external") | T::W("extern_weak") => external = true,
                    T::W("alias") => {
                        // alias T, ptr @x
                        let _ = m.ty(&mut lx);
                        lx.expect(b',');
                        let _ = m.ty(&mut lx);
                        if let T::G(t) = lx.next() {
                            m.aliases.insert(name.clone(), t.to_string());
                        }
                        break;
                    }
                    T::W(_) => {
                        if lx.peek() == T::P(b'(') {
                            lx.skip_parens();
                        }
                    }
                    t => panic!("global {} {:?}", line, t),
                }
            }
            if m.aliases.contains_key(&name) {
                continue;
            }
            let ty = m.ty(&mut lx);
            let init = if external { None } else { Some((a + lx.i, e)) };
            let align = line.rfind(", align ").and_then(|k| line[k + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(ty.align());
            let ix = m.globals.len() as u32;
            m.global_ix.insert(name.clone(), ix);
            m.globals.push(Global { name, ty, init, is_const, align, addr: 0 });
        }
        for (i, g) in m.globals.iter_mut().enumerate() {
            g.addr = ((GLOBAL_OBJ0 + i as u64) << 32) + base_off(g.align) as u64;
        }
        m.text = text;
        for i in 0..m.globals.len() {
            let g = &m.globals[i];
            let mut buf = vec![0u8; g.ty.size() as usize];
            if let Some((a, e)) = g.init {
                let ty = g.ty.clone();
                let text = &m.text[a..e];
                let mut lx = Lex::new(text);
                m.const_bytes(&ty, &mut lx, &mut buf, 0);
            }
            m.data.push(buf);
        }
        m
    }

    fn resolve_named(&mut self, text: &str, ix: &HashMap<String, usize>, n: &str) -> Ty {
        if let Some(t) = self.types.get(n) {
            return t.clone();
        }
        let pos = ix[n];
        let eol = text[pos..].find('\n').map(|k| pos + k).unwrap_or(text.len());
        let mut lx = Lex::new(&text[pos..eol]);
        lx.next();
        lx.expect(b'=');
        lx.next(); // type
        // make sure the named types it mentions are resolved first
        let mut probe = lx.clone();
        loop {
            match probe.next() {
                T::L(d) => {
                    if d != n && !self.types.contains_key(d) {
                        self.resolve_named(text, ix, d);
                    }
                }
                T::Eof => break,
                _ => {}
            }
        }
        let t = self.ty(&mut lx);
        self.types.insert(n.to_string(), t.clone());
        t
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let at = lx.i;
        let t = match lx.next() {
            T::W("ptr") => {
                if lx.peek() == T::W("addrspace") {
                    lx.next();
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            T::W("void") => Ty::Void,
            T::W("float") => Ty::F32,
            T::W("double") => Ty::F64,
            T::W(w) if is_ty_word(w) => {
                if w.as_bytes()[0] == b'i' {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    Ty::Other
                }
            }
            T::P(b'{') => {
                let mut f = vec![];
                if !lx.eat(b'}') {
                    loop {
                        f.push(self.ty(lx));
                        if lx.eat(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                Ty::Struct(Arc::new(f), false)
            }
            T::P(b'<') => {
                if lx.peek() == T::P(b'{') {
                    let Ty::Struct(f, _) = self.ty(lx) else { unreachable!() };
                    lx.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = int(lx);
                    assert!(lx.eatw("x"));
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n as u64, Arc::new(e))
                }
            }
            T::P(b'[') => {
                let n = int(lx);
                assert!(lx.eatw("x"));
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n as u64, Arc::new(e))
            }
            T::L(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type expected, got {:?} near {}", t, lx.ctx(at)),
        };
        t
    }
    pub fn is_ty_start(t: T) -> bool {
        match t {
            T::W(w) => is_ty_word(w),
            T::P(b'{') | T::P(b'<') | T::P(b'[') => true,
            T::L(_) => true,
            _ => false,
        }
    }
    /// Skip attributes until a type starts.
    pub fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                T::W(w) if !is_ty_word(w) => {
                    lx.next();
                    if w == "align" || w == "cc" {
                        if let T::W(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if lx.peek() == T::P(b'(') {
                        lx.skip_parens();
                    }
                }
                T::A(_) | T::S(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => break,
            }
        }
    }
    /// Skip parameter attributes that precede an operand value.
    pub fn skip_param_attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                T::W(w) => {
                    let isattr = matches!(
                        w,
                        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "writable" | "zeroext" | "signext" | "inreg" | "byval" | "sret" | "align" | "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "immarg" | "returned" | "nofpclass" | "initializes" | "dead_on_unwind" | "dead_on_return" | "nofree" | "nest" | "swiftself" | "allocalign" | "allocptr" | "allocsize" | "noext" | "elementtype" | "byref" | "preallocated" | "inalloca" | "swifterror" | "swiftasync" | "nosync"
                    );
                    if !isattr {
                        break;
                    }
                    lx.next();
                    if w == "align" {
                        if lx.peek() != T::P(b'(') {
                            lx.next();
                        }
                    }
                    if lx.peek() == T::P(b'(') {
                        lx.skip_parens();
                    }
                }
                _ => break,
            }
        }
    }

    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&i) = self.global_ix.get(n) {
            return self.globals[i as usize].addr;
        }
        if let Some(&i) = self.func_ix.get(n) {
            return FUNC_BASE + ((i as u64) << 4);
        }
        if let Some(t) = self.aliases.get(n) {
            return self.sym_addr(&t.clone());
        }
        panic!("unknown symbol @{}", n)
    }

    /// Parse a constant of scalar slots.
    pub fn const_slots(&self, ty: &Ty, lx: &mut Lex, out: &mut Vec<u64>) {
        let n = ty.nslots() as usize;
        let at = lx.i;
        match lx.peek() {
            T::W("zeroinitializer") | T::W("undef") | T::W("poison") | T::W("null") | T::W("none") => {
                lx.next();
                out.extend(std::iter::repeat(0).take(n));
            }
            T::W("true") => {
                lx.next();
                out.push(1)
            }
            T::W("false") => {
                lx.next();
                out.push(0)
            }
            T::G(g) => {
                lx.next();
                out.push(self.sym_addr(g));
            }
            T::W("splat") => {
                lx.next();
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut v = vec![];
                self.const_slots(&t, lx, &mut v);
                lx.expect(b')');
                while out.len() < n || v.is_empty() {
                    out.extend_from_slice(&v);
                    if out.len() % v.len() == 0 && out.len() >= n {
                        break;
                    }
                }
            }
            T::C(bytes) => {
                lx.next();
                for b in unescape(bytes) {
                    out.push(b as u64);
                }
            }
            T::P(b'<') | T::P(b'{') | T::P(b'[') => {
                // struct, vector or array literal
                let packed_struct = matches!(ty, Ty::Struct(_, true));
                let open = lx.next();
                if packed_struct && open == T::P(b'<') {
                    lx.expect(b'{');
                }
                let close = match open {
                    T::P(b'<') => {
                        if packed_struct {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                    T::P(b'{') => b'}',
                    _ => b']',
                };
                if !lx.eat(close) {
                    loop {
                        let t = self.ty(lx);
                        self.const_slots(&t, lx, out);
                        if lx.eat(close) {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                if packed_struct {
                    lx.expect(b'>');
                }
            }
            T::W(w) if w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' => {
                lx.next();
                match ty {
                    Ty::F32 | Ty::F64 => {
                        let mut w = w.to_string();
                        if lx.peek() == T::P(b'+') {
                            // 1.0e+05
                            lx.next();
                            if let T::W(x) = lx.next() {
                                w.push('+');
                                w.push_str(x);
                            }
                        }
                        let v: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse().unwrap() };
                        out.push(if *ty == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() });
                    }
                    Ty::Int(width) => {
                        let v: i128 = if let Some(h) = w.strip_prefix("-") { (h.parse::<u128>().unwrap() as i128).wrapping_neg() } else { w.parse::<u128>().unwrap_or(0) as i128 };
                        let v = v as u128;
                        if *width <= 64 {
                            out.push(v as u64 & crate::expr::mask(*width));
                        } else {
                            out.push(v as u64);
                            let mut r = *width - 64;
                            out.push((v >> 64) as u64 & crate::expr::mask(r.min(64)));
                            while r > 64 {
                                r -= 64;
                                out.push(if (v as i128) < 0 { crate::expr::mask(r.min(64)) } else { 0 });
                            }
                        }
                    }
                    _ => panic!("number for {:?}", ty),
                }
            }
            T::W("getelementptr") => {
                lx.next();
                while let T::W(w) = lx.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    lx.next();
                    if lx.peek() == T::P(b'(') && w == "inrange" {
                        lx.skip_parens();
                    } else if lx.peek() == T::P(b'(') {
                        break;
                    }
                }
                lx.expect(b'(');
                let ety = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let mut v = vec![];
                self.const_slots(&pt, lx, &mut v);
                let mut addr = v[0];
                let mut cur = ety;
                let mut first = true;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let mut iv = vec![];
                    self.const_slots(&it, lx, &mut iv);
                    let Ty::Int(iw) = it else { panic!() };
                    let i = crate::expr::sext64(iv[0], iw);
                    if first {
                        addr = addr.wrapping_add((i as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                addr = addr.wrapping_add(cur.field_off(i as usize));
                                cur = cur.field_ty(i as usize);
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                addr = addr.wrapping_add((i as u64).wrapping_mul(t.size()));
                                cur = (**t).clone();
                            }
                            _ => panic!(),
                        }
                    }
                }
                lx.expect(b')');
                out.push(addr);
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("addrspacecast") | T::W("trunc") | T::W("zext") | T::W("ptrtoaddr") => {
                lx.next();
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut v = vec![];
                self.const_slots(&t, lx, &mut v);
                assert!(lx.eatw("to"));
                let to = self.ty(lx);
                lx.expect(b')');
                if let Ty::Int(w) = to {
                    v[0] &= crate::expr::mask(w);
                }
                out.extend(v);
            }
            T::W(op @ ("add" | "sub" | "xor" | "mul" | "and" | "or")) => {
                lx.next();
                while lx.eatw("nuw") || lx.eatw("nsw") {}
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut a = vec![];
                self.const_slots(&t, lx, &mut a);
                lx.expect(b',');
                let t2 = self.ty(lx);
                let mut b = vec![];
                self.const_slots(&t2, lx, &mut b);
                lx.expect(b')');
                let Ty::Int(w) = t else { panic!() };
                let r = match op {
                    "add" => a[0].wrapping_add(b[0]),
                    "sub" => a[0].wrapping_sub(b[0]),
                    "mul" => a[0].wrapping_mul(b[0]),
                    "xor" => a[0] ^ b[0],
                    "and" => a[0] & b[0],
                    _ => a[0] | b[0],
                };
                out.push(r & crate::expr::mask(w));
            }
            t => panic!("constant expected, got {:?} for {:?} near {}", t, ty, lx.ctx(at)),
        }
    }
    fn const_bytes(&self, ty: &Ty, lx: &mut Lex, buf: &mut [u8], off: u64) {
        match (ty, lx.peek()) {
            (_, T::W("zeroinitializer")) | (_, T::W("undef")) | (_, T::W("poison")) => {
                lx.next();
            }
            (Ty::Arr(..), T::C(b)) => {
                lx.next();
                let b = unescape(b);
                buf[off as usize..off as usize + b.len()].copy_from_slice(&b);
            }
            (Ty::Arr(_, et), T::P(b'[')) => {
                lx.next();
                if !lx.eat(b']') {
                    let mut i = 0;
                    loop {
                        let t = self.ty(lx);
                        self.const_bytes(&t, lx, buf, off + i * et.size());
                        i += 1;
                        if lx.eat(b']') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
            }
            (Ty::Struct(_, packed), _) => {
                if *packed {
                    lx.expect(b'<');
                }
                lx.expect(b'{');
                if !lx.eat(b'}') {
                    let mut i = 0;
                    loop {
                        let t = self.ty(lx);
                        self.const_bytes(&t, lx, buf, off + ty.field_off(i));
                        i += 1;
                        if lx.eat(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                if *packed {
                    lx.expect(b'>');
                }
            }
            _ => {
                let mut v = vec![];
                self.const_slots(ty, lx, &mut v);
                let mut s = vec![];
                ty.slots(off, &mut s);
                for ((o, w), x) in s.into_iter().zip(v) {
                    let n = ((w + 7) / 8) as usize;
                    buf[o as usize..o as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
                }
            }
        }
    }
    /// Name of the subprogram a debug location belongs to.
    pub fn dbg_subprogram(&self, loc: u32) -> Option<Arc<str>> {
        if let Some(s) = self.subprog.lock().unwrap().get(&loc) {
            return if s.is_empty() { None } else { Some(s.clone()) };
        }
        let r = self.dbg_subprogram_uncached(loc, 0);
        let s: Arc<str> = r.unwrap_or_default().into();
        self.subprog.lock().unwrap().insert(loc, s.clone());
        if s.is_empty() {
            None
        } else {
            Some(s)
        }
    }
    fn meta_text(&self, n: u32) -> &str {
        match self.meta.get(n as usize) {
            Some(&(a, b)) => &self.text[a as usize..b as usize],
            None => "",
        }
    }
    fn dbg_subprogram_uncached(&self, loc: u32, depth: u32) -> Option<String> {
        let t = self.meta_text(loc);
        if t.contains("!DISubprogram(") {
            let k = t.find("linkageName: \"").map(|k| k + 14).or_else(|| t.find("name: \"").map(|k| k + 7))?;
            return Some(t[k..].split('"').next()?.to_string());
        }
        if depth > 40 {
            return None;
        }
        let k = t.find("scope: !")? + 8;
        let n: u32 = t[k..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()?;
        self.dbg_subprogram_uncached(n, depth + 1)
    }
    pub fn dbg_line(&self, loc: u32) -> Option<u32> {
        let t = self.meta_text(loc);
        let k = t.find("line: ")? + 6;
        t[k..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
    }
}

pub fn base_off(align: u64) -> u32 {
    // exactly `align`-aligned (not more) from 16 up; malloc guarantees 16 below that
    if align <= 16 {
        0x1_0010
    } else if align <= 0x1_0000 {
        0x1_0000 + align as u32
    } else {
        align as u32
    }
}
pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|&x| x == c)
}
fn fn_name(line: &str) -> String {
    let mut lx = Lex::new(line);
    loop {
        match lx.next() {
            T::G(n) => return n.to_string(),
            T::Eof => panic!("no name: {}", line),
            _ => {}
        }
    }
}
pub fn int(lx: &mut Lex) -> i64 {
    match lx.next() {
        T::W(w) => w.parse().unwrap(),
        t => panic!("int expected {:?}", t),
    }
}
pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
