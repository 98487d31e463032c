//! Lowering of textual LLVM IR functions to a flat, scalarised instruction list.
use crate::expr::{mask, Op};
use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    I(u64),
}
pub type Span = (u32, u32); // start, len

#[derive(Clone, Copy, Debug)]
pub struct Edge {
    pub pc: u32,
    pub block: u32,
    pub copies: Span,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastW {
    Zext,
    Sext,
    Trunc,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    Cmp(u8),
    ToUi(u8),
    ToSi(u8),
    FromUi(u8),
    FromSi(u8),
    Ext,
    Trunc,
    Floor,
    Ceil,
    Round,
    RoundEven,
    TruncI,
    Sqrt,
    Abs,
    Min,
    Max,
    CopySign,
    Fma,
    Pow,
    ToUiSat(u8),
    ToSiSat(u8),
    Sin,
    Cos,
    Exp,
    Log,
    Powi,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceAdd,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: u32, a: Opd, b: Opd },
    BinW { op: Op, w: u8, d: u32, a: [Opd; 2], b: [Opd; 2] },
    Cmp { op: Op, neg: bool, w: u8, d: u32, a: Opd, b: Opd },
    CmpW { op: Op, neg: bool, w: u8, d: u32, a: [Opd; 2], b: [Opd; 2] },
    Sel { w: u8, ptr: bool, d: u32, c: Opd, a: Opd, b: Opd },
    Zext { d: u32, a: Opd, wf: u8, wt: u8 },
    Sext { d: u32, a: Opd, wf: u8, wt: u8 },
    Trunc { d: u32, a: Opd, wt: u8 },
    CastW { k: CastW, wf: u8, wt: u8, d: u32, a: [Opd; 2] },
    Bits { src: Span, d: u32, dst: Span }, // opw table: (Opd, w) / (_, w)
    Load { d: u32, p: Opd, mem: Span, size: u32 },
    Store { p: Opd, vals: Span, mem: Span, size: u32 },
    Gep { d: u32, p: Opd, off: u64, idx: Span },
    Alloca { d: u32, off: u32 },
    Call { f: u32, args: Span, d: u32 },
    CallInd { f: Opd, args: Span, d: u32 },
    Ext { f: u32, args: Span, d: u32, nret: u8 },
    Panic { f: u32, args: Span },
    Intr { k: Intr, w: u8, d: u32, args: Span },
    Fp { k: Fp, dbl: bool, d: u32, args: Span },
    Rmw { op: u8, w: u8, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u8, d: u32, p: Opd, c: Opd, n: Opd },
    Cpuid { d: u32, n: u8 },
    Br(Edge),
    CBr { c: Opd, t: Edge, f: Edge },
    Sw { w: u8, v: Opd, cases: Span, def: Edge },
    Ret(Span),
    Unreach,
    Unsup(u32),
}
pub const RMW: [&str; 11] = ["xchg", "add", "sub", "and", "or", "xor", "nand", "umax", "umin", "max", "min"];

pub struct Func {
    pub ix: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub frame: u32,
    pub insts: Vec<Inst>,
    pub loc: Vec<u32>,
    pub opds: Vec<Opd>,
    pub opw: Vec<(Opd, u8)>,
    pub mem: Vec<(u32, u8)>,
    pub idx: Vec<(Opd, u8, u64)>,
    pub copies: Vec<(u32, Opd)>,
    pub cases: Vec<(u64, Edge)>,
    pub msgs: Vec<String>,
    pub block_pc: Vec<u32>,
    pub nblocks: u32,
}

fn is_panic_fn(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("4core6option13unwrap_failed")
        || n.contains("4core6option13expect_failed")
        || n.contains("4core6result13unwrap_failed")
        || n.contains("4core3str16slice_error_fail")
        || n.contains("3std9panicking")
        || n.contains("5alloc7raw_vec12handle_error")
        || n.contains("5alloc7raw_vec17capacity_overflow")
        || n.contains("5alloc5alloc18handle_alloc_error")
        || n.contains("3std7process5abort")
        || n.contains("3std3sys") && n.contains("abort_internal")
        || n == "abort"
}

struct Low<'m> {
    m: &'m Module,
    f: Func,
    names: HashMap<&'m str, Vec<Opd>>,
    blocks: HashMap<&'m str, u32>,
    bname: Vec<&'m str>,
    cur: u32,
    loc: u32,
    // pending edges: index into `edges`
    pend: Vec<(u32, u32)>, // (from block, to block)
    phis: Vec<Vec<(u32, Ty, Vec<(usize, &'m str)>)>>, // per block: dst reg, type, (text offset of value, pred)
}

const PENDING: u32 = u32::MAX;

pub fn lower(m: &Module, ix: u32) -> Func {
    let src = &m.funcs[ix as usize];
    let text: &str = &m.text[src.range.0..src.range.1];
    let f = Func {
        ix,
        nparams: 0,
        nregs: 0,
        frame: 0,
        insts: vec![],
        loc: vec![],
        opds: vec![],
        opw: vec![],
        mem: vec![],
        idx: vec![],
        copies: vec![],
        cases: vec![],
        msgs: vec![],
        block_pc: vec![],
        nblocks: 0,
    };
    let mut l = Low { m, f, names: HashMap::new(), blocks: HashMap::new(), bname: vec![], cur: 0, loc: 0, pend: vec![], phis: vec![] };
    l.run(text, src.range.0);
    l.f
}

impl<'m> Low<'m> {
    fn reg(&mut self, n: u32) -> u32 {
        let r = self.f.nregs;
        self.f.nregs += n;
        r
    }
    fn bind(&mut self, name: &'m str, n: u32) -> u32 {
        let r = self.reg(n);
        self.names.insert(name, (r..r + n).map(Opd::R).collect());
        r
    }
    fn emit(&mut self, i: Inst) {
        self.f.insts.push(i);
        self.f.loc.push(self.loc);
    }
    fn span_opds(&mut self, v: &[Opd]) -> Span {
        let s = self.f.opds.len() as u32;
        self.f.opds.extend_from_slice(v);
        (s, v.len() as u32)
    }
    fn unsup(&mut self, s: String) {
        let k = self.f.msgs.len() as u32;
        self.f.msgs.push(s);
        self.emit(Inst::Unsup(k));
    }
    fn val(&self, ty: &Ty, lx: &mut Lex<'m>) -> Vec<Opd> {
        match lx.peek() {
            T::L(n) => {
                lx.next();
                match self.names.get(n) {
                    Some(v) => v.clone(),
                    None => panic!("undefined %{} in {}", n, self.m.funcs[self.f.ix as usize].name),
                }
            }
            _ => {
                let mut v = vec![];
                self.m.const_slots(ty, lx, &mut v);
                v.into_iter().map(Opd::I).collect()
            }
        }
    }
    fn tyval(&self, lx: &mut Lex<'m>) -> (Ty, Vec<Opd>) {
        let t = self.m.ty(lx);
        self.m.skip_param_attrs(lx);
        let v = self.val(&t, lx);
        (t, v)
    }
    fn label(&mut self, lx: &mut Lex<'m>) -> Edge {
        assert!(lx.eatw("label"));
        let T::L(n) = lx.next() else { panic!() };
        let to = self.blocks[n];
        self.pend.push((self.cur, to));
        Edge { pc: PENDING, block: to, copies: (self.pend.len() as u32 - 1, 0) }
    }

    fn run(&mut self, text: &'m str, _base: usize) {
        // header
        let mut lx = Lex::new(text);
        assert!(lx.eatw("define"));
        self.m.skip_attrs(&mut lx);
        let _ret = self.m.ty(&mut lx);
        loop {
            if let T::G(_) = lx.next() {
                break;
            }
        }
        lx.expect(b'(');
        let mut unnamed = 0u32;
        if !lx.eat(b')') {
            loop {
                if let T::Dots = lx.peek() {
                    lx.next();
                    lx.expect(b')');
                    break;
                }
                let t = self.m.ty(&mut lx);
                self.m.skip_param_attrs(&mut lx);
                let n = t.nslots();
                if let T::L(name) = lx.peek() {
                    lx.next();
                    self.bind(name, n);
                    if name.parse::<u32>().is_ok() {
                        unnamed += 1;
                    }
                } else {
                    self.reg(n);
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        self.f.nparams = self.f.nregs;
        // to end of header line
        lx.to_eol();
        let body_at = lx.i + 1;
        // split blocks
        let mut starts: Vec<(&'m str, usize, usize)> = vec![]; // name, start, end
        let mut pos = body_at;
        let bytes = text.as_bytes();
        while pos < text.len() {
            let eol = memchr(b'\n', &bytes[pos..]).map(|k| pos + k).unwrap_or(text.len());
            let c = bytes[pos];
            if eol > pos && c != b' ' && c != b'}' && c != b']' && c != b'\t' && c != b';' {
                // label line
                let line = &text[pos..eol];
                let name = if c == b'"' { line[1..].split('"').next().unwrap() } else { line.split(':').next().unwrap() };
                if let Some(l) = starts.last_mut() {
                    l.2 = pos;
                }
                starts.push((name, eol + 1, text.len()));
            } else if starts.is_empty() && eol > pos && c == b' ' {
                let nm: &'m str = Box::leak(format!("{}", unnamed).into_boxed_str());
                starts.push((nm, pos, text.len()));
            }
            pos = eol + 1;
        }
        for (i, (n, _, _)) in starts.iter().enumerate() {
            self.blocks.insert(n, i as u32);
            self.bname.push(n);
        }
        let nb = starts.len();
        self.f.nblocks = nb as u32;
        self.f.block_pc = vec![PENDING; nb];
        self.phis = (0..nb).map(|_| vec![]).collect();
        // successors
        let mut succ: Vec<Vec<u32>> = vec![vec![]; nb];
        for i in 0..nb {
            let t = &text[starts[i].1..starts[i].2];
            let mut k = 0;
            while let Some(p) = t[k..].find("label %") {
                let at = k + p;
                let is_unwind = t[..at].ends_with("unwind ");
                let mut lx = Lex::new(&t[at + 6..]);
                if let T::L(n) = lx.next() {
                    if !is_unwind {
                        if let Some(&b) = self.blocks.get(n) {
                            succ[i].push(b);
                        }
                    }
                }
                k = at + 7;
            }
        }
        // reverse postorder
        let mut seen = vec![false; nb];
        let mut order = vec![];
        let mut st: Vec<(u32, usize)> = vec![(0, 0)];
        seen[0] = true;
        while let Some((b, i)) = st.last_mut() {
            if *i < succ[*b as usize].len() {
                let s = succ[*b as usize][*i];
                *i += 1;
                if !seen[s as usize] {
                    seen[s as usize] = true;
                    st.push((s, 0));
                }
            } else {
                order.push(*b);
                st.pop();
            }
        }
        order.reverse();
        for &b in &order {
            self.cur = b;
            self.f.block_pc[b as usize] = self.f.insts.len() as u32;
            let (s, e) = (starts[b as usize].1, starts[b as usize].2);
            let mut lx = Lex::new(&text[..e]);
            lx.i = s;
            loop {
                match lx.peek() {
                    T::Eof | T::P(b'}') => break,
                    _ => {}
                }
                self.inst(&mut lx, text);
            }
        }
        // resolve edges
        let pend = std::mem::take(&mut self.pend);
        let mut spans: Vec<Span> = vec![];
        for &(from, to) in &pend {
            let start = self.f.copies.len() as u32;
            let phis = std::mem::take(&mut self.phis[to as usize]);
            for (d, ty, inc) in &phis {
                let pn = self.bname[from as usize];
                let (at, _) = inc.iter().find(|(_, p)| *p == pn).unwrap_or_else(|| panic!("phi pred {} in {}", pn, self.m.funcs[self.f.ix as usize].name));
                let mut lx = Lex::new(text);
                lx.i = *at;
                let v = self.val(ty, &mut lx);
                for (k, o) in v.iter().enumerate() {
                    self.f.copies.push((d + k as u32, *o));
                }
            }
            self.phis[to as usize] = phis;
            spans.push((start, self.f.copies.len() as u32 - start));
        }
        let bp = self.f.block_pc.clone();
        let fix = |e: &mut Edge| {
            e.copies = spans[e.copies.0 as usize];
            e.pc = bp[e.block as usize];
        };
        for i in self.f.insts.iter_mut() {
            match i {
                Inst::Br(e) => fix(e),
                Inst::CBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                Inst::Sw { def, .. } => fix(def),
                _ => {}
            }
        }
        for c in self.f.cases.iter_mut() {
            fix(&mut c.1);
        }
    }

    fn finish_line(&mut self, lx: &mut Lex<'m>, first: usize) {
        // pick up !dbg and move to the end of the line
        let a = lx.i;
        lx.to_eol();
        let line = std::str::from_utf8(&lx.s[a..lx.i]).unwrap_or("");
        if let Some(k) = line.find("!dbg !") {
            if let Ok(n) = line[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u32>() {
                for j in first..self.f.loc.len() {
                    self.f.loc[j] = n;
                }
                self.loc = n;
            }
        }
    }

    fn inst(&mut self, lx: &mut Lex<'m>, text: &'m str) {
        let first = self.f.insts.len();
        let line_at = lx.i;
        let mut t = lx.next();
        let mut dst: Option<&'m str> = None;
        if let T::L(n) = t {
            dst = Some(n);
            lx.expect(b'=');
            t = lx.next();
        }
        let mut op = match t {
            T::W(w) => w,
            // debug records: #dbg_value(...)
            T::A(_) | T::P(b'#') => {
                lx.to_eol();
                return;
            }
            t => panic!("instruction expected, got {:?} near {}", t, lx.ctx(line_at)),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            op = match lx.next() {
                T::W(w) => w,
                _ => panic!(),
            };
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(lx);
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let b = self.val(&ty, lx);
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                let d = self.bind(dst.unwrap(), ty.nslots());
                let (n, sty) = lanes(&ty);
                for i in 0..n {
                    match sty {
                        Ty::Int(w) if w <= 64 => self.emit(Inst::Bin { op: o, w: w as u8, d: d + i, a: a[i as usize], b: b[i as usize] }),
                        Ty::Int(w) if w <= 128 => {
                            let k = (i * 2) as usize;
                            self.emit(Inst::BinW { op: o, w: w as u8, d: d + 2 * i, a: [a[k], a[k + 1]], b: [b[k], b[k + 1]] })
                        }
                        _ => self.unsup(format!("{} on {:?}", op, ty)),
                    }
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(lx);
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let b = self.val(&ty, lx);
                let k = match op {
                    "fadd" => Fp::Add,
                    "fsub" => Fp::Sub,
                    "fmul" => Fp::Mul,
                    "fdiv" => Fp::Div,
                    _ => Fp::Rem,
                };
                let d = self.bind(dst.unwrap(), ty.nslots());
                let (n, sty) = lanes(&ty);
                for i in 0..n {
                    let args = self.span_opds(&[a[i as usize], b[i as usize]]);
                    self.emit(Inst::Fp { k, dbl: sty == Ty::F64, d: d + i, args });
                }
            }
            "fneg" => {
                self.flags(lx);
                let (ty, a) = self.tyval(lx);
                let d = self.bind(dst.unwrap(), ty.nslots());
                let (n, sty) = lanes(&ty);
                for i in 0..n {
                    let args = self.span_opds(&[a[i as usize]]);
                    self.emit(Inst::Fp { k: Fp::Neg, dbl: sty == Ty::F64, d: d + i, args });
                }
            }
            "fcmp" => {
                self.flags(lx);
                let T::W(p) = lx.next() else { panic!() };
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let b = self.val(&ty, lx);
                let code = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"].iter().position(|x| *x == p).unwrap() as u8;
                let d = self.bind(dst.unwrap(), ty.nslots());
                let (n, sty) = lanes(&ty);
                for i in 0..n {
                    let args = self.span_opds(&[a[i as usize], b[i as usize]]);
                    self.emit(Inst::Fp { k: Fp::Cmp(code), dbl: sty == Ty::F64, d: d + i, args });
                }
            }
            "icmp" => {
                let mut p = lx.next();
                if p == T::W("samesign") {
                    p = lx.next();
                }
                let T::W(p) = p else { panic!() };
                let (ty, mut a) = self.tyval(lx);
                lx.expect(b',');
                let mut b = self.val(&ty, lx);
                let (o, neg, swap) = match p {
                    "eq" => (Op::Eq, false, false),
                    "ne" => (Op::Eq, true, false),
                    "ult" => (Op::Ult, false, false),
                    "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, false, true),
                    "uge" => (Op::Ule, false, true),
                    "slt" => (Op::Slt, false, false),
                    "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, false, true),
                    "sge" => (Op::Sle, false, true),
                    _ => panic!("icmp {}", p),
                };
                if swap {
                    std::mem::swap(&mut a, &mut b);
                }
                let (n, sty) = lanes(&ty);
                let d = self.bind(dst.unwrap(), n);
                for i in 0..n {
                    let w = match sty {
                        Ty::Ptr => 64,
                        Ty::Int(w) => w,
                        _ => panic!("icmp on {:?}", ty),
                    };
                    if w <= 64 {
                        self.emit(Inst::Cmp { op: o, neg, w: w as u8, d: d + i, a: a[i as usize], b: b[i as usize] })
                    } else if w <= 128 {
                        let k = (i * 2) as usize;
                        self.emit(Inst::CmpW { op: o, neg, w: w as u8, d: d + i, a: [a[k], a[k + 1]], b: [b[k], b[k + 1]] })
                    } else {
                        self.unsup(format!("icmp on {:?}", ty))
                    }
                }
            }
            "select" => {
                self.flags(lx);
                let (ct, c) = self.tyval(lx);
                lx.expect(b',');
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, b) = self.tyval(lx);
                let ws = ty.widths();
                let d = self.bind(dst.unwrap(), ws.len() as u32);
                let vecc = matches!(ct, Ty::Vec(..));
                let per = if vecc { ws.len() / c.len() } else { 0 };
                let ptr = has_ptr(&ty);
                for (i, w) in ws.iter().enumerate() {
                    let cc = if vecc { c[i / per] } else { c[0] };
                    self.emit(Inst::Sel { w: *w as u8, ptr, d: d + i as u32, c: cc, a: a[i], b: b[i] });
                }
            }
            "zext" | "sext" | "trunc" => {
                self.flags(lx);
                let (ty, a) = self.tyval(lx);
                assert!(lx.eatw("to"));
                let to = self.m.ty(lx);
                let (n, st) = lanes(&ty);
                let (_, dt) = lanes(&to);
                let (Ty::Int(wf), Ty::Int(wt)) = (st, dt) else { panic!() };
                let per_d = (wt + 63) / 64;
                let per_s = (wf + 63) / 64;
                let d = self.bind(dst.unwrap(), n * per_d);
                for i in 0..n {
                    let dd = d + i * per_d;
                    let k = (i * per_s) as usize;
                    if wf <= 64 && wt <= 64 {
                        self.emit(match op {
                            "zext" => Inst::Zext { d: dd, a: a[k], wf: wf as u8, wt: wt as u8 },
                            "sext" => Inst::Sext { d: dd, a: a[k], wf: wf as u8, wt: wt as u8 },
                            _ => Inst::Trunc { d: dd, a: a[k], wt: wt as u8 },
                        });
                    } else if wf <= 128 && wt <= 128 {
                        let kind = match op {
                            "zext" => CastW::Zext,
                            "sext" => CastW::Sext,
                            _ => CastW::Trunc,
                        };
                        let hi = if per_s > 1 { a[k + 1] } else { Opd::I(0) };
                        self.emit(Inst::CastW { k: kind, wf: wf as u8, wt: wt as u8, d: dd, a: [a[k], hi] });
                    } else {
                        self.unsup(format!("{} {:?} to {:?}", op, ty, to));
                    }
                }
            }
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let (ty, a) = self.tyval(lx);
                assert!(lx.eatw("to"));
                let to = self.m.ty(lx);
                let wf = match ty {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                let wt = match to {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                if wf == wt {
                    self.names.insert(dst.unwrap(), a);
                } else {
                    let d = self.bind(dst.unwrap(), (wt + 63) / 64);
                    if wf <= 64 && wt <= 64 {
                        if wt < wf {
                            self.emit(Inst::Trunc { d, a: a[0], wt: wt as u8 });
                        } else {
                            self.emit(Inst::Zext { d, a: a[0], wf: wf as u8, wt: wt as u8 });
                        }
                    } else {
                        let hi = if a.len() > 1 { a[1] } else { Opd::I(0) };
                        self.emit(Inst::CastW { k: if wt < wf { CastW::Trunc } else { CastW::Zext }, wf: wf as u8, wt: wt as u8, d, a: [a[0], hi] });
                    }
                }
            }
            "bitcast" => {
                let (ty, a) = self.tyval(lx);
                assert!(lx.eatw("to"));
                let to = self.m.ty(lx);
                let (ws, wd) = (ty.widths(), to.widths());
                if ws == wd {
                    self.names.insert(dst.unwrap(), a);
                } else {
                    let s = self.f.opw.len() as u32;
                    for (o, w) in a.iter().zip(&ws) {
                        self.f.opw.push((*o, *w as u8));
                    }
                    let e = self.f.opw.len() as u32;
                    for w in &wd {
                        self.f.opw.push((Opd::I(0), *w as u8));
                    }
                    let d = self.bind(dst.unwrap(), wd.len() as u32);
                    self.emit(Inst::Bits { src: (s, e - s), d, dst: (e, wd.len() as u32) });
                }
            }
            "freeze" => {
                let (_, a) = self.tyval(lx);
                self.names.insert(dst.unwrap(), a);
            }
            "fpext" | "fptrunc" | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                self.flags(lx);
                let (ty, a) = self.tyval(lx);
                assert!(lx.eatw("to"));
                let to = self.m.ty(lx);
                let (n, st) = lanes(&ty);
                let (_, dt) = lanes(&to);
                let d = self.bind(dst.unwrap(), to.nslots());
                for i in 0..n {
                    let wi = |t: &Ty| if let Ty::Int(w) = t { *w as u8 } else { 0 };
                    let (k, dbl) = match op {
                        "fpext" => (Fp::Ext, false),
                        "fptrunc" => (Fp::Trunc, true),
                        "fptoui" => (Fp::ToUi(wi(&dt)), st == Ty::F64),
                        "fptosi" => (Fp::ToSi(wi(&dt)), st == Ty::F64),
                        "uitofp" => (Fp::FromUi(wi(&st)), dt == Ty::F64),
                        _ => (Fp::FromSi(wi(&st)), dt == Ty::F64),
                    };
                    if wi(&st) > 64 || wi(&dt) > 64 {
                        self.unsup(format!("{} {:?}", op, ty));
                        continue;
                    }
                    let args = self.span_opds(&[a[i as usize]]);
                    self.emit(Inst::Fp { k, dbl, d: d + i, args });
                }
            }
            "extractvalue" | "insertvalue" => {
                let (ty, a) = self.tyval(lx);
                let ins = if op == "insertvalue" {
                    lx.expect(b',');
                    Some(self.tyval(lx))
                } else {
                    None
                };
                let mut cur = ty.clone();
                let mut at = 0u32;
                while lx.peek() == T::P(b',') {
                    let save = lx.i;
                    lx.next();
                    match lx.peek() {
                        T::W(w) if w.as_bytes()[0].is_ascii_digit() => {
                            let i: usize = w.parse().unwrap();
                            lx.next();
                            for j in 0..i {
                                at += cur.field_ty(j).nslots();
                            }
                            cur = cur.field_ty(i);
                        }
                        _ => {
                            lx.i = save;
                            break;
                        }
                    }
                }
                match ins {
                    None => {
                        let v = a[at as usize..(at + cur.nslots()) as usize].to_vec();
                        self.names.insert(dst.unwrap(), v);
                    }
                    Some((_, v)) => {
                        let mut r = a;
                        for (k, o) in v.iter().enumerate() {
                            r[at as usize + k] = *o;
                        }
                        self.names.insert(dst.unwrap(), r);
                    }
                }
            }
            "extractelement" => {
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, i) = self.tyval(lx);
                let per = ty.field_ty(0).nslots() as usize;
                match i[0] {
                    Opd::I(k) => {
                        let k = k as usize * per;
                        let v = a.get(k..k + per).map(|x| x.to_vec()).unwrap_or(vec![Opd::I(0); per]);
                        self.names.insert(dst.unwrap(), v);
                    }
                    r => {
                        // chain of selects
                        if per != 1 {
                            self.bind(dst.unwrap(), per as u32);
                            self.unsup("extractelement".into());
                        } else {
                            let w = ty.widths()[0] as u8;
                            let mut acc = a[0];
                            for (k, x) in a.iter().enumerate().skip(1) {
                                let c = self.reg(1);
                                self.emit(Inst::Cmp { op: Op::Eq, neg: false, w: 64, d: c, a: r, b: Opd::I(k as u64) });
                                let d = self.reg(1);
                                self.emit(Inst::Sel { w, ptr: false, d, c: Opd::R(c), a: *x, b: acc });
                                acc = Opd::R(d);
                            }
                            self.names.insert(dst.unwrap(), vec![acc]);
                        }
                    }
                }
            }
            "insertelement" => {
                let (ty, mut a) = self.tyval(lx);
                lx.expect(b',');
                let (_, v) = self.tyval(lx);
                lx.expect(b',');
                let (_, i) = self.tyval(lx);
                let per = ty.field_ty(0).nslots() as usize;
                match i[0] {
                    Opd::I(k) => {
                        for (j, o) in v.iter().enumerate() {
                            a[k as usize * per + j] = *o;
                        }
                        self.names.insert(dst.unwrap(), a);
                    }
                    r => {
                        let w = ty.widths()[0] as u8;
                        for k in 0..a.len() {
                            let c = self.reg(1);
                            self.emit(Inst::Cmp { op: Op::Eq, neg: false, w: 64, d: c, a: r, b: Opd::I(k as u64) });
                            let d = self.reg(1);
                            self.emit(Inst::Sel { w, ptr: false, d, c: Opd::R(c), a: v[0], b: a[k] });
                            a[k] = Opd::R(d);
                        }
                        self.names.insert(dst.unwrap(), a);
                    }
                }
            }
            "shufflevector" => {
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, b) = self.tyval(lx);
                lx.expect(b',');
                let mt = self.m.ty(lx);
                let mut mv = vec![];
                // poison lanes become 0
                self.m.const_slots(&mt, lx, &mut mv);
                let per = ty.field_ty(0).nslots() as usize;
                let n = a.len() / per;
                let mut r = vec![];
                for k in mv {
                    let k = (k & mask(32)) as usize;
                    let s = if k < n { &a[k * per..(k + 1) * per] } else { &b[(k - n) * per..(k - n + 1) * per] };
                    r.extend_from_slice(s);
                }
                self.names.insert(dst.unwrap(), r);
            }
            "load" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyval(lx);
                if let Some(packed) = packed(&ty) {
                    // lanes narrower than a byte are packed in memory
                    let mem = self.memspan(&packed);
                    let r = self.reg(1);
                    self.emit(Inst::Load { d: r, p: p[0], mem, size: store_size(&packed) });
                    let d = self.repack(&[Opd::R(r)], &packed.widths(), &ty.widths());
                    self.names.insert(dst.unwrap(), d);
                    self.finish_line(lx, first);
                    return;
                }
                let mem = self.memspan(&ty);
                let d = self.bind(dst.unwrap(), ty.nslots());
                self.emit(Inst::Load { d, p: p[0], mem, size: store_size(&ty) });
            }
            "store" => {
                self.flags(lx);
                let (ty, v) = self.tyval(lx);
                lx.expect(b',');
                let (_, p) = self.tyval(lx);
                if let Some(packed) = packed(&ty) {
                    let v = self.repack(&v, &ty.widths(), &packed.widths());
                    let mem = self.memspan(&packed);
                    let vals = self.span_opds(&v);
                    self.emit(Inst::Store { p: p[0], vals, mem, size: store_size(&packed) });
                    self.finish_line(lx, first);
                    return;
                }
                let mem = self.memspan(&ty);
                let vals = self.span_opds(&v);
                self.emit(Inst::Store { p: p[0], vals, mem, size: store_size(&ty) });
            }
            "getelementptr" => {
                self.flags(lx);
                let mut cur = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyval(lx);
                let mut off = 0u64;
                let mut firsti = true;
                let s = self.f.idx.len() as u32;
                while lx.peek() == T::P(b',') {
                    let save = lx.i;
                    lx.next();
                    if let T::M(_) = lx.peek() {
                        lx.i = save;
                        break;
                    }
                    let (it, iv) = self.tyval(lx);
                    let Ty::Int(iw) = it else { panic!("gep index {:?}", it) };
                    let (scale, next) = if firsti {
                        (cur.size(), cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let Opd::I(k) = iv[0] else { panic!() };
                                off = off.wrapping_add(cur.field_off(k as usize));
                                cur = cur.field_ty(k as usize);
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                            _ => panic!("gep into {:?}", cur),
                        }
                    };
                    firsti = false;
                    cur = next;
                    match iv[0] {
                        Opd::I(k) => off = off.wrapping_add((crate::expr::sext64(k, iw) as u64).wrapping_mul(scale)),
                        r => {
                            if scale != 0 {
                                self.f.idx.push((r, iw as u8, scale))
                            }
                        }
                    }
                }
                let n = self.f.idx.len() as u32 - s;
                if n == 0 && off == 0 {
                    self.names.insert(dst.unwrap(), p);
                } else if let (0, Opd::I(b)) = (n, p[0]) {
                    self.names.insert(dst.unwrap(), vec![Opd::I(b.wrapping_add(off))]);
                } else {
                    let d = self.bind(dst.unwrap(), 1);
                    self.emit(Inst::Gep { d, p: p[0], off, idx: (s, n) });
                }
            }
            "alloca" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                let mut count = 1u64;
                let mut align = ty.align();
                while lx.eat(b',') {
                    if lx.eatw("align") {
                        align = int(lx) as u64;
                    } else if let T::M(_) = lx.peek() {
                        break;
                    } else {
                        let (_, v) = self.tyval(lx);
                        match v[0] {
                            Opd::I(k) => count = k,
                            _ => {
                                self.unsup("dynamic alloca".into());
                            }
                        }
                    }
                }
                let o = (self.f.frame as u64 + align - 1) / align * align;
                self.f.frame = (o + ty.size() * count + 8) as u32; // small gap
                let d = self.bind(dst.unwrap(), 1);
                self.emit(Inst::Alloca { d, off: o as u32 });
            }
            "call" | "invoke" => self.call(lx, dst, op == "invoke"),
            "br" => {
                if lx.peek() == T::W("label") {
                    let e = self.label(lx);
                    self.emit(Inst::Br(e));
                } else {
                    let (_, c) = self.tyval(lx);
                    lx.expect(b',');
                    let t = self.label(lx);
                    lx.expect(b',');
                    let f = self.label(lx);
                    self.emit(Inst::CBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (ty, v) = self.tyval(lx);
                lx.expect(b',');
                let def = self.label(lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.tyval(lx);
                    lx.expect(b',');
                    let e = self.label(lx);
                    let Opd::I(k) = k[0] else { panic!() };
                    cs.push((k, e));
                }
                let Ty::Int(w) = ty else { panic!() };
                if w > 64 {
                    self.unsup("wide switch".into());
                } else {
                    let s = self.f.cases.len() as u32;
                    let n = cs.len() as u32;
                    self.f.cases.extend(cs);
                    self.emit(Inst::Sw { w: w as u8, v: v[0], cases: (s, n), def });
                }
            }
            "ret" => {
                if lx.eatw("void") {
                    self.emit(Inst::Ret((0, 0)));
                } else {
                    let (_, v) = self.tyval(lx);
                    let s = self.span_opds(&v);
                    self.emit(Inst::Ret(s));
                }
            }
            "unreachable" => self.emit(Inst::Unreach),
            "phi" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let at = lx.i;
                    // skip the value up to the ',' that precedes the label
                    let mut depth = 0;
                    loop {
                        let save = lx.i;
                        match lx.next() {
                            T::P(b'(') | T::P(b'{') | T::P(b'<') | T::P(b'[') => depth += 1,
                            T::P(b')') | T::P(b'}') | T::P(b'>') => depth -= 1,
                            T::P(b']') => depth -= 1,
                            T::P(b',') if depth == 0 => {
                                let _ = save;
                                break;
                            }
                            _ => {}
                        }
                    }
                    let T::L(p) = lx.next() else { panic!("phi") };
                    inc.push((at, p));
                    lx.expect(b']');
                    if lx.peek() == T::P(b',') {
                        let save = lx.i;
                        lx.next();
                        if lx.peek() != T::P(b'[') {
                            lx.i = save;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                let d = self.bind(dst.unwrap(), ty.nslots());
                let b = self.cur as usize;
                self.phis[b].push((d, ty, inc));
            }
            "fence" => {}
            "atomicrmw" => {
                if lx.eatw("volatile") {}
                let T::W(k) = lx.next() else { panic!() };
                let (_, p) = self.tyval(lx);
                lx.expect(b',');
                let (ty, v) = self.tyval(lx);
                let w = ty.bits() as u8;
                let d = self.bind(dst.unwrap(), 1);
                match RMW.iter().position(|x| *x == k) {
                    Some(o) => self.emit(Inst::Rmw { op: o as u8, w, d, p: p[0], v: v[0] }),
                    None => self.unsup(format!("atomicrmw {}", k)),
                }
            }
            "cmpxchg" => {
                self.flags(lx);
                let (_, p) = self.tyval(lx);
                lx.expect(b',');
                let (ty, c) = self.tyval(lx);
                lx.expect(b',');
                let (_, n) = self.tyval(lx);
                let d = self.bind(dst.unwrap(), 2);
                self.emit(Inst::CmpXchg { w: ty.bits() as u8, d, p: p[0], c: c[0], n: n[0] });
            }
            "landingpad" | "resume" => {
                if let Some(d) = dst {
                    self.bind(d, 2);
                }
                // landingpads span several lines, but such blocks are not reachable here
                self.unsup(op.to_string());
            }
            _ => {
                let eol = memchr(b'\n', &text.as_bytes()[line_at..]).map(|k| line_at + k).unwrap_or(text.len());
                panic!("instruction {} not known: {}", op, &text[line_at..eol]);
            }
        }
        self.finish_line(lx, first);
    }

    fn flags(&self, lx: &mut Lex<'m>) {
        loop {
            match lx.peek() {
                T::W("nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "volatile" | "atomic" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" | "inalloca") => {
                    lx.next();
                }
                _ => break,
            }
        }
    }
    /// The same bits divided into other widths.
    fn repack(&mut self, a: &[Opd], from: &[u32], to: &[u32]) -> Vec<Opd> {
        let s = self.f.opw.len() as u32;
        for (o, w) in a.iter().zip(from) {
            self.f.opw.push((*o, *w as u8));
        }
        let e = self.f.opw.len() as u32;
        for w in to {
            self.f.opw.push((Opd::I(0), *w as u8));
        }
        let d = self.reg(to.len() as u32);
        self.emit(Inst::Bits { src: (s, e - s), d, dst: (e, to.len() as u32) });
        (0..to.len() as u32).map(|i| Opd::R(d + i)).collect()
    }
    fn memspan(&mut self, ty: &Ty) -> Span {
        let mut v = vec![];
        ty.slots(0, &mut v);
        let s = self.f.mem.len() as u32;
        for (o, w) in &v {
            self.f.mem.push((*o as u32, *w as u8));
        }
        (s, v.len() as u32)
    }

    fn call(&mut self, lx: &mut Lex<'m>, dst: Option<&'m str>, invoke: bool) {
        self.flags(lx);
        self.m.skip_attrs(lx);
        let rty = self.m.ty(lx);
        // optional function type: (…) or T (...)
        if lx.peek() == T::P(b'(') {
            lx.skip_parens();
        }
        let nret = rty.nslots();
        enum Callee<'m> {
            Name(&'m str),
            Ind(Opd),
            Asm(&'m str),
        }
        let callee = match lx.peek() {
            T::G(n) => {
                lx.next();
                Callee::Name(n)
            }
            T::L(n) => {
                lx.next();
                Callee::Ind(self.names[n][0])
            }
            T::W("asm") => {
                lx.next();
                let mut s = "";
                loop {
                    match lx.peek() {
                        T::S(x) => {
                            if s.is_empty() {
                                s = x
                            }
                            lx.next();
                        }
                        T::P(b',') => {
                            lx.next();
                        }
                        T::W(_) => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                Callee::Asm(s)
            }
            _ => {
                let mut v = vec![];
                self.m.const_slots(&Ty::Ptr, lx, &mut v);
                Callee::Ind(Opd::I(v[0]))
            }
        };
        // arguments
        let mut args: Vec<Opd> = vec![];
        let mut atys: Vec<Ty> = vec![];
        lx.expect(b'(');
        if !lx.eat(b')') {
            loop {
                if let T::W("metadata") = lx.peek() {
                    // metadata argument: skip to ',' or ')'
                    let mut depth = 0;
                    loop {
                        match lx.peek() {
                            T::P(b'(') => depth += 1,
                            T::P(b')') if depth == 0 => break,
                            T::P(b')') => depth -= 1,
                            T::P(b',') if depth == 0 => break,
                            _ => {}
                        }
                        lx.next();
                    }
                } else {
                    let t = self.m.ty(lx);
                    self.m.skip_param_attrs(lx);
                    let v = self.val(&t, lx);
                    args.extend(v);
                    atys.push(t);
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        let mut edge = None;
        if invoke {
            // attributes, bundles, then "to label %x unwind label %y" (possibly on the next line)
            loop {
                match lx.next() {
                    T::W("to") => break,
                    T::Eof => panic!("invoke"),
                    _ => {}
                }
            }
            edge = Some(self.label(lx));
            assert!(lx.eatw("unwind"));
            assert!(lx.eatw("label"));
            lx.next();
        }
        let mut noret = false;
        match callee {
            Callee::Name(n) => {
                let mut n: &str = n;
                while let Some(t) = self.m.aliases.get(n) {
                    n = t;
                }
                if n.starts_with("llvm.") {
                    self.intrinsic(n, &args, &atys, &rty, dst);
                } else {
                    let fx = self.m.func_ix[n];
                    let d = match dst {
                        Some(x) => self.bind(x, nret),
                        None => self.reg(nret),
                    };
                    let sp = self.span_opds(&args);
                    if is_panic_fn(n) {
                        self.emit(Inst::Panic { f: fx, args: sp });
                        noret = true;
                    } else if self.m.funcs[fx as usize].range == (0, 0) {
                        self.emit(Inst::Ext { f: fx, args: sp, d, nret: nret as u8 });
                    } else {
                        self.emit(Inst::Call { f: fx, args: sp, d });
                    }
                }
            }
            Callee::Ind(p) => {
                let d = match dst {
                    Some(x) => self.bind(x, nret),
                    None => self.reg(nret),
                };
                let sp = self.span_opds(&args);
                self.emit(Inst::CallInd { f: p, args: sp, d });
            }
            Callee::Asm(s) => {
                if s.contains("cpuid") || s.contains("xgetbv") {
                    let d = match dst {
                        Some(x) => self.bind(x, nret),
                        None => self.reg(nret),
                    };
                    self.emit(Inst::Cpuid { d, n: nret as u8 });
                } else if s.starts_with("/*") && s.ends_with("*/") && args.len() == 1 && nret == 1 {
                    // an optimisation barrier: the operand comes back unchanged
                    if let Some(x) = dst {
                        self.names.insert(x, vec![args[0]]);
                    }
                } else if nret == 0 {
                    // empty asm: compiler barrier
                    if !s.trim().is_empty() {
                        self.unsup(format!("asm {}", s));
                    }
                } else {
                    let d = match dst {
                        Some(x) => self.bind(x, nret),
                        None => self.reg(nret),
                    };
                    let _ = d;
                    self.unsup(format!("asm {}", s));
                }
            }
        }
        if let Some(e) = edge {
            if !noret {
                self.emit(Inst::Br(e));
            } else {
                self.emit(Inst::Unreach);
                // the edge stays registered (harmless)
            }
        }
    }

    fn intrinsic(&mut self, n: &str, args: &[Opd], atys: &[Ty], rty: &Ty, dst: Option<&'m str>) {
        let parts: Vec<&str> = n.split('.').collect();
        let k2 = parts[1];
        match k2 {
            "lifetime" | "dbg" | "assume" | "invariant" | "prefetch" | "donothing" | "var" => {
                if let Some(d) = dst {
                    self.bind(d, rty.nslots());
                }
                return;
            }
            "experimental" if parts[2] == "noalias" => return,
            "x86" if n == "llvm.x86.sse2.pause" => return,
            "expect" | "launder" | "strip" | "ssa" => {
                self.names.insert(dst.unwrap(), vec![args[0]]);
                return;
            }
            "threadlocal" => {
                self.names.insert(dst.unwrap(), vec![args[0]]);
                return;
            }
            "ptrmask" => {
                let d = self.bind(dst.unwrap(), 1);
                self.emit(Inst::Bin { op: Op::And, w: 64, d, a: args[0], b: args[1] });
                return;
            }
            "is" => {
                self.names.insert(dst.unwrap(), vec![Opd::I(0)]);
                return;
            }
            "objectsize" => {
                self.names.insert(dst.unwrap(), vec![Opd::I(u64::MAX)]);
                return;
            }
            "trap" | "debugtrap" | "ubsantrap" => {
                self.emit(Inst::Intr { k: Intr::Trap, w: 0, d: 0, args: (0, 0) });
                return;
            }
            "memcpy" | "memmove" => {
                let sp = self.span_opds(&args[..3]);
                self.emit(Inst::Intr { k: Intr::Memcpy, w: 0, d: 0, args: sp });
                return;
            }
            "memset" => {
                let sp = self.span_opds(&args[..3]);
                self.emit(Inst::Intr { k: Intr::Memset, w: 0, d: 0, args: sp });
                return;
            }
            _ => {}
        }
        let fpk = match k2 {
            "floor" => Some(Fp::Floor),
            "ceil" => Some(Fp::Ceil),
            "round" => Some(Fp::Round),
            "roundeven" | "rint" | "nearbyint" => Some(Fp::RoundEven),
            "trunc" => Some(Fp::TruncI),
            "sqrt" => Some(Fp::Sqrt),
            "fabs" => Some(Fp::Abs),
            "minnum" | "minimumnum" => Some(Fp::Min),
            "maxnum" | "maximumnum" => Some(Fp::Max),
            "copysign" => Some(Fp::CopySign),
            "fma" | "fmuladd" => Some(Fp::Fma),
            "pow" => Some(Fp::Pow),
            "powi" => Some(Fp::Powi),
            "sin" => Some(Fp::Sin),
            "cos" => Some(Fp::Cos),
            "exp" => Some(Fp::Exp),
            "log" => Some(Fp::Log),
            "fptoui" if parts[2] == "sat" => Some(Fp::ToUiSat(if let Ty::Int(w) = rty { *w as u8 } else { 0 })),
            "fptosi" if parts[2] == "sat" => Some(Fp::ToSiSat(if let Ty::Int(w) = rty { *w as u8 } else { 0 })),
            _ => None,
        };
        if let Some(k) = fpk {
            let d = self.bind(dst.unwrap(), rty.nslots());
            let (nl, st) = lanes(&atys[0]);
            for i in 0..nl {
                let mut v = vec![];
                for (j, _) in atys.iter().enumerate() {
                    v.push(args[j * nl as usize + i as usize]);
                }
                let sp = self.span_opds(&v);
                self.emit(Inst::Fp { k, dbl: st == Ty::F64, d: d + i, args: sp });
            }
            return;
        }
        let o = if parts.len() > 2 && parts[2] == "with" { format!("{}.o", k2) } else if parts.len() > 2 && parts[2] == "sat" { format!("{}.sat", k2) } else if k2 == "vector" { format!("{}.{}", parts[2], parts[3]) } else { k2.to_string() };
        let k = match o.as_str() {
            "umax" => Intr::Umax,
            "umin" => Intr::Umin,
            "smax" => Intr::Smax,
            "smin" => Intr::Smin,
            "usub.sat" => Intr::UsubSat,
            "uadd.sat" => Intr::UaddSat,
            "sadd.sat" => Intr::SaddSat,
            "ssub.sat" => Intr::SsubSat,
            "uadd.o" => Intr::UaddO,
            "usub.o" => Intr::UsubO,
            "umul.o" => Intr::UmulO,
            "sadd.o" => Intr::SaddO,
            "ssub.o" => Intr::SsubO,
            "smul.o" => Intr::SmulO,
            "ctlz" => Intr::Ctlz,
            "cttz" => Intr::Cttz,
            "ctpop" => Intr::Ctpop,
            "bswap" => Intr::Bswap,
            "bitreverse" => Intr::Bitrev,
            "fshl" => Intr::Fshl,
            "fshr" => Intr::Fshr,
            "abs" => Intr::Abs,
            "ucmp" => Intr::Ucmp,
            "scmp" => Intr::Scmp,
            "reduce.or" => Intr::ReduceOr,
            "reduce.and" => Intr::ReduceAnd,
            "reduce.xor" => Intr::ReduceXor,
            "reduce.add" => Intr::ReduceAdd,
            _ => {
                if let Some(d) = dst {
                    self.bind(d, rty.nslots());
                }
                self.unsup(n.to_string());
                return;
            }
        };
        if matches!(k, Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceXor | Intr::ReduceAdd) {
            let op = match k {
                Intr::ReduceOr => Op::Or,
                Intr::ReduceAnd => Op::And,
                Intr::ReduceXor => Op::Xor,
                _ => Op::Add,
            };
            let w = atys[0].widths()[0] as u8;
            let mut acc = args[0];
            for a in &args[1..] {
                let d = self.reg(1);
                self.emit(Inst::Bin { op, w, d, a: acc, b: *a });
                acc = Opd::R(d);
            }
            self.names.insert(dst.unwrap(), vec![acc]);
            return;
        }
        let (nl, st) = lanes(&atys[0]);
        let Ty::Int(w) = st else {
            self.bind(dst.unwrap(), rty.nslots());
            self.unsup(n.to_string());
            return;
        };
        if w > 64 {
            // wide versions: only the few that compile down to operations we have
            match k {
                Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                    let c = self.reg(1);
                    let (a, b) = ([args[0], args[1]], [args[2], args[3]]);
                    let op = if matches!(k, Intr::Umax | Intr::Umin) { Op::Ult } else { Op::Slt };
                    self.emit(Inst::CmpW { op, neg: false, w: w as u8, d: c, a, b });
                    let d = self.bind(dst.unwrap(), 2);
                    let max = matches!(k, Intr::Umax | Intr::Smax);
                    for i in 0..2 {
                        let (x, y) = if max { (b[i], a[i]) } else { (a[i], b[i]) };
                        self.emit(Inst::Sel { w: if i == 0 { 64 } else { w as u8 - 64 }, ptr: false, d: d + i as u32, c: Opd::R(c), a: x, b: y });
                    }
                    return;
                }
                _ => {}
            }
            // others are evaluated concretely (operands are pinned)
            let d = self.bind(dst.unwrap(), rty.nslots());
            let sp = self.span_opds(args);
            self.emit(Inst::Intr { k, w: w as u8, d, args: sp });
            return;
        }
        let per_ret = rty.nslots() / nl;
        let d = self.bind(dst.unwrap(), rty.nslots());
        // with.overflow on vectors is not used; result lanes: for overflow intrinsics (value, flag)
        for i in 0..nl {
            let mut v = vec![];
            for j in 0..atys.len() {
                let (jl, _) = lanes(&atys[j]);
                if jl == nl && nl > 1 {
                    v.push(args[j * nl as usize + i as usize]);
                } else if nl == 1 {
                    v.push(args[j]);
                }
            }
            let sp = self.span_opds(&v);
            self.emit(Inst::Intr { k, w: w as u8, d: d + i * per_ret, args: sp });
        }
    }
}

pub fn lanes(t: &Ty) -> (u32, Ty) {
    match t {
        Ty::Vec(n, e) => (*n as u32, (**e).clone()),
        t => (1, t.clone()),
    }
}
fn has_ptr(t: &Ty) -> bool {
    match t {
        Ty::Ptr => true,
        Ty::Arr(_, t) | Ty::Vec(_, t) => has_ptr(t),
        Ty::Struct(f, _) => f.iter().any(has_ptr),
        _ => false,
    }
}
/// The integer type a vector of lanes narrower than a byte has in memory.
fn packed(t: &Ty) -> Option<Ty> {
    match t {
        Ty::Vec(n, e) if e.bits() % 8 != 0 => {
            assert!(n * e.bits() <= 64, "wide packed vector");
            Some(Ty::Int((n * e.bits()) as u32))
        }
        _ => None,
    }
}
fn store_size(t: &Ty) -> u32 {
    let mut v = vec![];
    t.slots(0, &mut v);
    v.iter().map(|(o, w)| o + ((*w as u64) + 7) / 8).max().unwrap_or(0) as u32
}
