//! Concolic executor: runs the lowered IR on concrete values that carry symbolic expressions,
//! and asks the solver for the inputs of every path not taken.
use crate::expr::*;
use crate::ir::*;
use crate::lower::*;
use crate::z3::{Verdict, Z3};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default, Debug)]
pub struct Val {
    pub c: u64,
    pub e: E,
}
fn cv(c: u64) -> Val {
    Val { c, e: 0 }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Term {
    Ok,
    Assume,
    Panic(String),
    Mem(String),
    Unreach,
    Steps,
    Stack,
    Unsup(String),
    Diverge(String),
    Stop,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    None,
    VxSym,
    VxAssume,
    VxPin,
    VxObserve,
    VxCover,
    VxLive,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Write,
    Errno,
    Syscall,
    ClockGettime,
    GetRandom,
    Sysconf,
    Ret(u64),
    ErrNo(u64, u64), // return value, errno
}
pub fn ext_kind(n: &str) -> Ext {
    match n {
        "vx_sym" => Ext::VxSym,
        "vx_assume" => Ext::VxAssume,
        "vx_pin" => Ext::VxPin,
        "vx_observe" => Ext::VxObserve,
        "vx_cover" => Ext::VxCover,
        "vx_live" => Ext::VxLive,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "aligned_alloc" => Ext::AlignedAlloc,
        "memcmp" | "bcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "write" => Ext::Write,
        "writev" => Ext::Ret(1),
        "__errno_location" => Ext::Errno,
        "syscall" => Ext::Syscall,
        "clock_gettime" => Ext::ClockGettime,
        "gettid" | "getpid" | "pthread_self" => Ext::Ret(4242),
        "sysconf" => Ext::Sysconf,
        "sched_getaffinity" => Ext::ErrNo(!0, 38),
        "getenv" => Ext::Ret(0),
        "getauxval" => Ext::Ret(0),
        "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "sched_yield" | "atexit" | "__cxa_atexit" => Ext::Ret(0),
        "pthread_getspecific" => Ext::Ret(0),
        "pthread_key_create" => Ext::Ret(0),
        "pthread_attr_init" | "pthread_attr_destroy" | "sigaction" | "sigaltstack" | "close" => Ext::Ret(0),
        "statx" | "stat64" | "lstat64" | "fstat64" | "open64" | "openat64" | "readlink" | "opendir" | "access" => Ext::ErrNo(!0, 2),
        "read" | "getcwd" => Ext::Ret(0),
        "getrandom" => Ext::GetRandom,
        _ => Ext::None,
    }
}

#[derive(Default)]
struct Obj {
    data: Vec<u8>,
    sh: Vec<u64>, // expr << 8 | byte index
    base: u32,
    dead: bool,
    ro: bool,
    dirty: bool,
}

struct Fr<'m> {
    f: &'m Func,
    pc: u32,
    bp: u32,
    d: u32,
}

#[derive(Clone)]
pub struct Item {
    pub inputs: Vec<u64>,
    pub start: u32,
    pub hash: u64,
    pub excl: Vec<u64>,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
    pub count: u64,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: u64,
}

pub struct Cfg {
    pub steps: u64,
    pub budget: Duration,
    pub max_depth: usize,
    pub size_limit: u32,
    pub check: bool,
    pub z3_ms: u32,
    pub max_viol: usize,
    pub verbose: bool,
    pub seed: u64,
}

const SHARDS: usize = 64;
type Cached = Option<Option<Box<[(u32, u64)]>>>; // None: unknown; Some(None): unsat; Some(Some): sat

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64,
    pub ok: AtomicU64,
    pub assume: AtomicU64,
    pub queries: AtomicU64,
    pub hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub z3_us: AtomicU64,
    pub insts: AtomicU64,
    pub events: AtomicU64,
    pub pins: AtomicU64,
    pub autopins: AtomicU64,
    pub dropped: AtomicU64,
    pub maxdepth: AtomicUsize,
}

pub struct Shared<'m> {
    pub m: &'m Module,
    pub fns: Vec<OnceLock<Box<Func>>>,
    pub ext: Vec<Ext>,
    pub cfg: Cfg,
    pub queue: Mutex<(Vec<Item>, usize)>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub cache: Vec<Mutex<FxMap<u128, Cached>>>,
    pub stats: Stats,
    pub viols: Mutex<Vec<Viol>>,
    pub samples: Mutex<Vec<Sample>>,
    pub covers: Mutex<std::collections::BTreeMap<u64, u64>>,
    pub unsups: Mutex<std::collections::BTreeMap<String, u64>>,
    pub hits: Mutex<Vec<Vec<u8>>>,
    pub deadline: Mutex<Instant>,
}

impl<'m> Shared<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let n = m.funcs.len();
        Shared {
            m,
            fns: (0..n).map(|_| OnceLock::new()).collect(),
            ext: m.funcs.iter().map(|f| if f.range == (0, 0) { ext_kind(&f.name) } else { Ext::None }).collect(),
            cfg,
            queue: Mutex::new((vec![], 0)),
            cv: Condvar::new(),
            stop: AtomicBool::new(false),
            cache: (0..SHARDS).map(|_| Mutex::new(FxMap::default())).collect(),
            stats: Stats::default(),
            viols: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            covers: Default::default(),
            unsups: Default::default(),
            hits: Mutex::new(vec![vec![]; n]),
            deadline: Mutex::new(Instant::now()),
        }
    }
    pub fn func(&'m self, ix: u32) -> &'m Func {
        self.fns[ix as usize].get_or_init(|| Box::new(lower(self.m, ix)))
    }
}

const STACK0: u64 = 1 << 22;
type R<T> = Result<T, Term>;

pub struct Worker<'m> {
    sh: &'m Shared<'m>,
    m: &'m Module,
    ar: Arena,
    z3: Z3,
    regs: Vec<Val>,
    frames: Vec<Fr<'m>>,
    objs: Vec<Obj>,
    nglob: usize,
    stk: Vec<Obj>,
    dirty: Vec<u32>,
    pool: Vec<Vec<u8>>,
    live: u64,
    hits: Vec<Vec<u8>>,
    // path state
    item: Item,
    nvars: usize,
    depth: u32,
    hash: u64,
    known: FxMap<E, ()>,
    dom: Vec<[u64; 4]>,
    lits1: Vec<Vec<E>>,
    litsn: Vec<E>,
    fixed: u128,
    children: Vec<Item>,
    obs: u64,
    covers: Vec<u64>,
    steps: u64,
    clock: u64,
    masks: FxMap<E, [u64; 4]>,
    tmp: Vec<Val>,
    rng: u64,
    errno: u64, // object address
    aborted: Option<Term>,
}

fn hmix(h: u64, a: u64, b: u64) -> u64 {
    let x = (h ^ a.wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(23).wrapping_add(b.wrapping_mul(0xD6E8FEB86659FD93));
    (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9)
}

impl<'m> Worker<'m> {
    pub fn new(sh: &'m Shared<'m>, id: u64) -> Self {
        let m = sh.m;
        let mut objs = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            objs.push(Obj { data: m.data[i].clone(), base: base_off(g.align), ro: g.is_const, ..Default::default() });
        }
        let nglob = objs.len();
        Worker {
            sh,
            m,
            ar: Arena::new(),
            z3: Z3::new(sh.cfg.z3_ms),
            regs: Vec::with_capacity(1 << 16),
            frames: vec![],
            objs,
            nglob,
            stk: vec![],
            dirty: vec![],
            pool: vec![],
            live: 0,
            hits: vec![vec![]; m.funcs.len()],
            item: Item { inputs: vec![], start: 0, hash: 0, excl: vec![] },
            nvars: 0,
            depth: 0,
            hash: 0,
            known: FxMap::default(),
            dom: vec![],
            lits1: vec![],
            litsn: vec![],
            fixed: 0,
            children: vec![],
            obs: 0,
            covers: vec![],
            steps: 0,
            clock: 0,
            masks: FxMap::default(),
            tmp: vec![],
            rng: (sh.cfg.seed + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (id + 1).wrapping_mul(0xD6E8FEB86659FD93),
            errno: 0,
            aborted: None,
        }
    }

    // ---------------------------------------------------------------- scheduling
    pub fn work(&mut self, entry: u32, id: usize) {
        loop {
            let it = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) {
                        q.1 = q.1.min(q.1);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    if Instant::now() > *self.sh.deadline.lock().unwrap() {
                        self.sh.stop.store(true, Relaxed);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    if !q.0.is_empty() {
                        q.1 += 1;
                        // odd workers pick at random, for diversity when the budget does not suffice
                        let n = q.0.len();
                        let it = if id % 2 == 1 && n > 1 {
                            self.rng ^= self.rng << 13;
                            self.rng ^= self.rng >> 7;
                            self.rng ^= self.rng << 17;
                            let k = (self.rng % n as u64) as usize;
                            q.0.swap_remove(k)
                        } else {
                            q.0.pop().unwrap()
                        };
                        break Some(it);
                    }
                    if q.1 == 0 {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                }
            };
            let Some(it) = it else { break };
            let term = self.run(entry, it);
            self.finish(term);
            let ch = std::mem::take(&mut self.children);
            let mut q = self.sh.queue.lock().unwrap();
            q.1 -= 1;
            let n = ch.len();
            q.0.extend(ch);
            drop(q);
            if n > 1 {
                self.sh.cv.notify_all();
            } else if n == 1 {
                self.sh.cv.notify_one();
            } else {
                self.sh.cv.notify_one();
            }
        }
        // merge coverage
        let mut g = self.sh.hits.lock().unwrap();
        for (i, h) in self.hits.iter().enumerate() {
            if !h.is_empty() {
                if g[i].len() < h.len() {
                    g[i].resize(h.len(), 0);
                }
                for (a, b) in g[i].iter_mut().zip(h) {
                    *a |= *b;
                }
            }
        }
    }

    fn stack_names(&self) -> Vec<String> {
        let mut v = vec![];
        for fr in self.frames.iter().rev().take(40) {
            let pc = fr.pc.saturating_sub(1) as usize;
            let loc = fr.f.loc.get(pc).copied().unwrap_or(0);
            let mut s = self.m.funcs[fr.f.ix as usize].name.clone();
            if loc != 0 {
                if let Some(l) = self.m.dbg_line(loc) {
                    let sp = self.m.dbg_subprogram(loc).map(|x| x.to_string()).unwrap_or_default();
                    if !sp.is_empty() && sp != s {
                        s = format!("{} (in {})", sp, s);
                    }
                    s = format!("{}:{}", s, l);
                }
            }
            v.push(s);
        }
        v
    }

    fn finish(&mut self, term: Term) {
        let st = &self.sh.stats;
        st.insts.fetch_add(self.steps, Relaxed);
        st.events.fetch_add(self.depth as u64, Relaxed);
        st.maxdepth.fetch_max(self.depth as usize, Relaxed);
        let n = self.nvars.min(self.item.inputs.len());
        let inputs = self.item.inputs[..n].to_vec();
        if self.sh.cfg.verbose {
            eprintln!("path start={} depth={} {:?} {:?} steps={}", self.item.start, self.depth, term, inputs, self.steps);
        }
        if term != Term::Stop {
            st.paths.fetch_add(1, Relaxed);
        }
        let (kind, msg) = match term {
            Term::Ok => {
                let k = st.ok.fetch_add(1, Relaxed);
                if !self.covers.is_empty() {
                    let mut g = self.sh.covers.lock().unwrap();
                    for c in &self.covers {
                        *g.entry(*c).or_insert(0) += 1;
                    }
                }
                // keep a spread of explored paths for comparison with the native build
                let mut s = self.sh.samples.lock().unwrap();
                if s.len() < 64 {
                    s.push(Sample { inputs, obs: self.obs });
                } else {
                    let r = (hmix(k, self.obs, 7) % (k + 1)) as usize;
                    if r < 64 {
                        s[r] = Sample { inputs, obs: self.obs };
                    }
                }
                return;
            }
            Term::Assume => {
                st.assume.fetch_add(1, Relaxed);
                return;
            }
            Term::Stop => return,
            Term::Panic(s) => ("panic", s),
            Term::Mem(s) => ("memory", s),
            Term::Unreach => ("unreachable", "unreachable code reached".to_string()),
            Term::Steps => ("steps", "step limit".to_string()),
            Term::Stack => ("stack", "call depth limit".to_string()),
            Term::Unsup(s) => {
                let site = self.stack_names().first().cloned().unwrap_or_default();
                *self.sh.unsups.lock().unwrap().entry(format!("{} at {}", s, site)).or_insert(0) += 1;
                return;
            }
            Term::Diverge(s) => {
                *self.sh.unsups.lock().unwrap().entry(format!("DIVERGENCE {}", s)).or_insert(0) += 1;
                return;
            }
        };
        let stack = self.stack_names();
        let mut g = self.sh.viols.lock().unwrap();
        // one entry per distinct failure site, with a few inputs each
        let site = stack.iter().take(4).cloned().collect::<Vec<_>>();
        let same: Vec<usize> = (0..g.len()).filter(|&i| g[i].kind == kind && g[i].msg == msg && g[i].stack.iter().take(4).cloned().collect::<Vec<_>>() == site).collect();
        if same.len() < 6 {
            g.push(Viol { kind: kind.to_string(), msg, inputs, stack, count: 1 });
        } else {
            g[same[0]].count += 1;
        }
        let total: u64 = g.iter().map(|v| v.count).sum();
        if g.len() >= self.sh.cfg.max_viol || total > 3000 {
            self.sh.stop.store(true, Relaxed);
        }
    }

    // ---------------------------------------------------------------- path condition
    fn reset_run(&mut self) {
        for &i in &self.dirty {
            let o = &mut self.objs[i as usize];
            o.data.clear();
            o.data.extend_from_slice(&self.m.data[i as usize]);
            o.sh = vec![];
            o.dirty = false;
        }
        self.dirty.clear();
        for mut o in self.objs.drain(self.nglob..) {
            let d = std::mem::take(&mut o.data);
            if d.capacity() > 0 && self.pool.len() < 4096 && d.capacity() < 1 << 16 {
                self.pool.push(d);
            }
        }
        self.live = 0;
        self.regs.clear();
        self.frames.clear();
        self.nvars = 0;
        self.depth = 0;
        self.hash = 0;
        self.known.clear();
        self.dom.clear();
        self.lits1.clear();
        self.litsn.clear();
        self.fixed = 0;
        self.obs = 0xcbf29ce484222325;
        self.covers.clear();
        self.steps = 0;
        self.clock = 1_700_000_000;
        self.errno = 0;
        self.aborted = None;
        if self.ar.n.len() > 3_000_000 {
            self.ar.clear();
            self.masks.clear();
            self.z3.reset();
        }
    }

    fn mask_of(&mut self, e: E, v: usize) -> [u64; 4] {
        if let Some(m) = self.masks.get(&e) {
            return *m;
        }
        let mut m = [0u64; 4];
        let w = self.ar.var_w[v] as u32;
        let mut vals = vec![0u64; v + 1];
        for x in 0..(1u64 << w) {
            vals[v] = x;
            if self.ar.eval(e, &vals) != 0 {
                m[(x / 64) as usize] |= 1 << (x % 64);
            }
        }
        self.masks.insert(e, m);
        m
    }
    fn single(&self, vars: u128) -> Option<usize> {
        if vars != 0 && vars & (vars - 1) == 0 {
            let v = vars.trailing_zeros() as usize;
            if v < 127 && self.ar.var_w[v] <= 8 {
                return Some(v);
            }
        }
        None
    }
    fn assert_lit(&mut self, e: E) {
        if self.ar.konst(e) == Some(1) {
            return;
        }
        if self.known.insert(e, ()).is_some() {
            return;
        }
        // split conjunctions, so that independence and byte domains see the parts
        let k = self.ar.n[e as usize].key;
        if k.op == Op::And && k.w == 1 {
            self.assert_lit(k.a);
            self.assert_lit(k.b);
            return;
        }
        if k.op == Op::Eq && self.ar.w(k.a) == 1 && self.ar.konst(k.b) == Some(0) {
            // not(a or b)
            let i = self.ar.n[k.a as usize].key;
            if i.op == Op::Or && i.w == 1 {
                let (x, y) = (self.ar.not(i.a), self.ar.not(i.b));
                self.assert_lit(x);
                self.assert_lit(y);
                return;
            }
        }
        let vars = self.ar.vars(e);
        if let Some(v) = self.single(vars) {
            let m = self.mask_of(e, v);
            let mut ch = false;
            for i in 0..4 {
                let n = self.dom[v][i] & m[i];
                ch |= n != self.dom[v][i];
                self.dom[v][i] = n;
            }
            if ch {
                self.lits1[v].push(e);
                if self.dom[v].iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    self.fixed |= 1u128 << v;
                }
            }
        } else {
            self.litsn.push(e);
            // a wide variable equated with a constant is fixed as well
            if k.op == Op::Eq && self.ar.konst(k.b).is_some() {
                let x = self.ar.n[k.a as usize].key;
                if x.op == Op::Var {
                    self.fixed |= self.ar.vars(k.a);
                }
            }
        }
    }

    /// Is path && extras satisfiable?  Returns new input values for the variables involved.
    fn solve(&mut self, extra: &[E]) -> Option<Box<[(u32, u64)]>> {
        let mut vars = 0u128;
        for &e in extra {
            if self.ar.konst(e) == Some(0) {
                return None;
            }
            vars |= self.ar.vars(e);
        }
        self.sh.stats.queries.fetch_add(1, Relaxed);
        let mut comp: Vec<E> = vec![];
        let mut used = vec![false; self.litsn.len()];
        loop {
            let mut ch = false;
            for (i, &l) in self.litsn.iter().enumerate() {
                if !used[i] {
                    let lv = self.ar.n[l as usize].vars;
                    if lv & vars != 0 {
                        used[i] = true;
                        comp.push(l);
                        if lv & !vars != 0 {
                            vars |= lv;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let (key, single) = match self.single(vars) {
            Some(v) if comp.is_empty() => {
                let mut mm = [!0u64; 4];
                for &e in extra {
                    let m = self.mask_of(e, v);
                    for i in 0..4 {
                        mm[i] &= m[i];
                    }
                }
                let mut k = 0x77u128;
                for i in 0..4 {
                    k = mix128(k, ((self.dom[v][i] as u128) << 64) | mm[i] as u128);
                }
                (k, Some(v))
            }
            _ => {
                let mut hs: Vec<u128> = comp.iter().map(|&l| self.ar.n[l as usize].h).collect();
                hs.sort();
                hs.dedup();
                let mut xs: Vec<u128> = extra.iter().map(|&l| self.ar.n[l as usize].h).collect();
                xs.sort();
                let mut k = 0x99u128;
                for h in hs {
                    k = mix128(k, h);
                }
                k = mix128(k, 0xEEEE);
                for h in xs {
                    k = mix128(k, h);
                }
                for v in 0..self.nvars.min(127) {
                    if vars >> v & 1 == 1 {
                        for i in 0..4 {
                            k = mix128(k, ((v as u128) << 64) | self.dom[v][i] as u128);
                        }
                    }
                }
                (k, None)
            }
        };
        let shard = (key as usize) % SHARDS;
        let hit = self.sh.cache[shard].lock().unwrap().get(&key).cloned();
        let r: Cached = match hit {
            Some(c) => {
                self.sh.stats.hits.fetch_add(1, Relaxed);
                c
            }
            None => {
                let mut lits = comp;
                let mut vs = vec![];
                for v in 0..self.nvars.min(127) {
                    if vars >> v & 1 == 1 {
                        lits.extend_from_slice(&self.lits1[v]);
                        vs.push(v as u32);
                    }
                }
                lits.extend_from_slice(extra);
                let t0 = Instant::now();
                let r = self.z3.check(&self.ar, &lits, &vs);
                self.sh.stats.z3_us.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
                let c: Cached = match r {
                    Verdict::Sat(m) => {
                        self.sh.stats.sat.fetch_add(1, Relaxed);
                        Some(Some(if single.is_some() { vec![(0, m[0].1)].into() } else { m.into() }))
                    }
                    Verdict::Unsat => {
                        self.sh.stats.unsat.fetch_add(1, Relaxed);
                        Some(None)
                    }
                    Verdict::Unknown => {
                        self.sh.stats.unknown.fetch_add(1, Relaxed);
                        None
                    }
                };
                self.sh.cache[shard].lock().unwrap().insert(key, c.clone());
                c
            }
        };
        match r {
            None => {
                self.sh.stats.dropped.fetch_add(1, Relaxed);
                None
            }
            Some(None) => None,
            Some(Some(m)) => Some(match single {
                Some(v) => vec![(v as u32, m[0].1)].into(),
                None => m,
            }),
        }
    }
    fn push_child(&mut self, model: &[(u32, u64)], start: u32, hash: u64, excl: Vec<u64>, check: &[E]) {
        let mut inputs = self.item.inputs.clone();
        for &(v, x) in model {
            inputs[v as usize] = x;
        }
        for &e in check {
            if self.ar.eval(e, &inputs) == 0 {
                *self.sh.unsups.lock().unwrap().entry("DIVERGENCE bad model".into()).or_insert(0) += 1;
                return;
            }
        }
        self.children.push(Item { inputs, start, hash, excl });
    }
    fn tick(&mut self, site: u64, dir: u64) {
        self.hash = hmix(self.hash, site, dir);
        self.depth += 1;
        self.sync();
    }
    fn sync(&mut self) {
        if self.depth == self.item.start && self.hash != self.item.hash {
            let s = self.stack_names().first().cloned().unwrap_or_default();
            self.aborted = Some(Term::Diverge(s));
        }
    }
    fn site(&self) -> u64 {
        match self.frames.last() {
            Some(f) => ((f.f.ix as u64) << 32) | f.pc as u64,
            None => 0,
        }
    }
    fn is_known(&mut self, e: E) -> bool {
        if self.known.contains_key(&e) {
            return true;
        }
        self.ar.vars(e) & !self.fixed == 0
    }
    fn branch(&mut self, cond: E, taken: bool) {
        let neg = self.ar.not(cond);
        let (lit, other) = if taken { (cond, neg) } else { (neg, cond) };
        if self.is_known(lit) {
            return;
        }
        let site = self.site();
        if self.depth >= self.item.start {
            if let Some(m) = self.solve(&[other]) {
                let h = hmix(self.hash, site, !taken as u64);
                self.push_child(&m, self.depth + 1, h, vec![], &[other]);
            }
        }
        self.assert_lit(lit);
        self.tick(site, taken as u64);
    }
    fn assume(&mut self, cond: E, holds: bool) -> R<()> {
        if holds && self.is_known(cond) {
            return Ok(());
        }
        let site = self.site();
        if !holds {
            if self.depth >= self.item.start {
                if let Some(m) = self.solve(&[cond]) {
                    let h = self.hash;
                    self.push_child(&m, self.depth, h, vec![], &[cond]);
                }
            }
            return Err(Term::Assume);
        }
        self.assert_lit(cond);
        self.tick(site, 2);
        Ok(())
    }
    /// Fix the value of an expression on this path; other values become other paths.
    fn pin(&mut self, e: E, v: u64) {
        let w = self.ar.w(e);
        let k = self.ar.c(w, v);
        let lit = self.ar.bin(Op::Eq, e, k);
        if self.is_known(lit) {
            return;
        }
        self.sh.stats.pins.fetch_add(1, Relaxed);
        let site = self.site();
        if self.depth >= self.item.start {
            let mut excl = if self.depth == self.item.start { self.item.excl.clone() } else { vec![] };
            excl.push(v);
            let mut lits = vec![];
            for &x in &excl {
                let k = self.ar.c(w, x);
                let l = self.ar.bin(Op::Eq, e, k);
                let l = self.ar.not(l);
                lits.push(l);
            }
            if let Some(m) = self.solve(&lits) {
                let h = self.hash;
                self.push_child(&m, self.depth, h, excl, &lits);
            }
        }
        self.assert_lit(lit);
        self.tick(site, 16 + v);
    }
    fn pin_vars(&mut self, e: E, c: u64) {
        if self.sh.stats.autopins.fetch_add(1, Relaxed) < 4 && std::env::var_os("VX_PINS").is_some() {
            let t = self.ar.show(e);
            eprintln!("pinned: {:?} {}", self.stack_names(), &t[..t.len().min(300)]);
        }
        let vars = self.ar.vars(e) & !self.fixed;
        for v in 0..self.nvars.min(127) {
            if vars >> v & 1 == 1 {
                let w = self.ar.var_w[v] as u32;
                if w > 8 {
                    self.pin(e, c);
                    return;
                }
                let x = self.ar.var(v, w);
                let val = self.item.inputs[v];
                self.pin(x, val);
            }
        }
        if self.ar.vars(e) & !self.fixed != 0 {
            self.pin(e, c);
        }
    }
    fn conc(&mut self, v: Val) -> u64 {
        if v.e != 0 && self.ar.vars(v.e) & !self.fixed != 0 {
            self.pin(v.e, v.c);
        }
        v.c
    }

    // ---------------------------------------------------------------- memory
    #[inline]
    fn locate(&self, addr: u64, size: u64, write: bool) -> R<(bool, usize, usize)> {
        let id = addr >> 32;
        let (st, ix) = if id >= STACK0 && id < STACK0 * 2 { (true, (id - STACK0) as usize) } else { (false, (id.wrapping_sub(GLOBAL_OBJ0)) as usize) };
        let o = match if st { self.stk.get(ix).filter(|_| ix < self.frames.len()) } else { self.objs.get(ix) } {
            Some(o) => o,
            None => return Err(Term::Mem(format!("{} through a bad pointer {:#x}", if write { "write" } else { "read" }, if addr < 1 << 20 { addr } else { 0xbad }))),
        };
        let off = (addr as u32 as u64).wrapping_sub(o.base as u64);
        if o.dead {
            return Err(Term::Mem(format!("{} of freed memory", if write { "write" } else { "read" })));
        }
        if off > o.data.len() as u64 || size > o.data.len() as u64 - off {
            return Err(Term::Mem(format!("{} of {} bytes out of bounds", if write { "write" } else { "read" }, size)));
        }
        if write && o.ro {
            return Err(Term::Mem("write to constant memory".into()));
        }
        Ok((st, ix, off as usize))
    }
    #[inline]
    fn obj(&mut self, st: bool, ix: usize) -> &mut Obj {
        if st {
            &mut self.stk[ix]
        } else {
            if ix < self.nglob && !self.objs[ix].dirty {
                self.objs[ix].dirty = true;
                self.dirty.push(ix as u32);
            }
            &mut self.objs[ix]
        }
    }
    #[inline]
    fn obj_ref(&self, st: bool, ix: usize) -> &Obj {
        if st {
            &self.stk[ix]
        } else {
            &self.objs[ix]
        }
    }
    fn read_slot(&mut self, st: bool, ix: usize, off: usize, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let o = self.obj_ref(st, ix);
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        let c = u64::from_le_bytes(b) & mask(w);
        if o.sh.is_empty() || o.sh[off..off + n].iter().all(|x| *x == 0) {
            return cv(c);
        }
        let mut s = [0u64; 8];
        s[..n].copy_from_slice(&o.sh[off..off + n]);
        let e0 = (s[0] >> 8) as E;
        let e = if e0 != 0 && s[0] & 255 == 0 && self.ar.w(e0) as usize == 8 * n && (1..n).all(|i| (s[i] >> 8) as E == e0 && s[i] & 255 == i as u64) {
            e0
        } else {
            let mut acc: E = 0;
            for i in (0..n).rev() {
                let x = if s[i] == 0 {
                    self.ar.c(8, b[i] as u64)
                } else {
                    let e = (s[i] >> 8) as E;
                    self.ar.extract(e, (s[i] & 255) as u32 * 8, 8)
                };
                acc = if acc == 0 { x } else { self.ar.concat(acc, x) };
            }
            acc
        };
        let e = if w as usize != 8 * n { self.ar.trunc(e, w) } else { e };
        self.norm(c, e)
    }
    fn write_slot(&mut self, st: bool, ix: usize, off: usize, w: u32, v: Val) {
        let n = ((w + 7) / 8) as usize;
        let e = if v.e != 0 && w as usize != 8 * n { self.ar.zext(v.e, 8 * n as u32) } else { v.e };
        let o = self.obj(st, ix);
        o.data[off..off + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
        if e != 0 {
            if o.sh.is_empty() {
                o.sh = vec![0; o.data.len()];
            }
            for i in 0..n {
                o.sh[off + i] = ((e as u64) << 8) | i as u64;
            }
        } else if !o.sh.is_empty() {
            for x in &mut o.sh[off..off + n] {
                *x = 0;
            }
        }
    }
    fn alloc(&mut self, size: u64, align: u64, fill: u8) -> R<u64> {
        if size > 1 << 30 {
            return Err(Term::Unsup(format!("allocation of {} bytes", size)));
        }
        let mut d = self.pool.pop().unwrap_or_default();
        d.clear();
        d.resize(size as usize, fill);
        let base = base_off(align);
        self.live += (size + 31) & !15;
        self.objs.push(Obj { data: d, base, ..Default::default() });
        Ok(((self.objs.len() as u64 - 1 + GLOBAL_OBJ0) << 32) + base as u64)
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let ix = (p >> 32).wrapping_sub(GLOBAL_OBJ0) as usize;
        if ix < self.nglob || ix >= self.objs.len() || (p as u32) != self.objs[ix].base {
            return Err(Term::Mem("free of a pointer that was not allocated".into()));
        }
        let o = &mut self.objs[ix];
        if o.dead {
            return Err(Term::Mem("double free".into()));
        }
        o.dead = true;
        o.sh = vec![];
        let d = std::mem::take(&mut o.data);
        self.live -= (d.len() as u64 + 31) & !15;
        if self.pool.len() < 4096 && d.capacity() < 1 << 16 {
            self.pool.push(d);
        }
        Ok(())
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (ss, si, so) = self.locate(src, n, false)?;
        let (ds, di, d0) = self.locate(dst, n, true)?;
        let n = n as usize;
        if (ss, si) == (ds, di) {
            let o = self.obj(ds, di);
            o.data.copy_within(so..so + n, d0);
            if !o.sh.is_empty() {
                o.sh.copy_within(so..so + n, d0);
            }
            return Ok(());
        }
        let o = self.obj(ds, di);
        let mut data = std::mem::take(&mut o.data);
        let mut sh = std::mem::take(&mut o.sh);
        let s = self.obj_ref(ss, si);
        data[d0..d0 + n].copy_from_slice(&s.data[so..so + n]);
        if !s.sh.is_empty() && s.sh[so..so + n].iter().any(|x| *x != 0) {
            if sh.is_empty() {
                sh = vec![0; data.len()];
            }
            sh[d0..d0 + n].copy_from_slice(&s.sh[so..so + n]);
        } else if !sh.is_empty() {
            for x in &mut sh[d0..d0 + n] {
                *x = 0;
            }
        }
        let o = self.obj(ds, di);
        o.data = data;
        o.sh = sh;
        Ok(())
    }
    fn byte(&mut self, addr: u64) -> R<Val> {
        let (st, ix, off) = self.locate(addr, 1, false)?;
        Ok(self.read_slot(st, ix, off, 8))
    }
    /// Load through an address that depends on one input byte: a table lookup.
    fn table_load(&mut self, p: Val, w: u32) -> R<Option<Val>> {
        let vars = self.ar.vars(p.e) & !self.fixed;
        let Some(v) = self.single(vars) else { return Ok(None) };
        if self.ar.vars(p.e) != vars {
            return Ok(None);
        }
        let n = ((w + 7) / 8) as usize;
        let (st, ix, _) = self.locate(p.c, n as u64, false)?;
        let o = self.obj_ref(st, ix);
        if !o.sh.is_empty() {
            return Ok(None);
        }
        let id = p.c >> 32;
        let start = (id << 32) + o.base as u64;
        let last = o.data.len() as u64 - n as u64;
        // in-bounds check over all values
        let ks = self.ar.c(64, start);
        let kl = self.ar.c(64, last);
        let rel = self.ar.bin(Op::Sub, p.e, ks);
        let inb = self.ar.bin(Op::Ule, rel, kl);
        if self.ar.konst(inb).is_none() {
            self.branch(inb, true);
        }
        let vw = self.ar.var_w[v] as u32;
        let mut vals = vec![0u64; v + 1];
        let mut groups: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
        for x in 0..(1u64 << vw) {
            if self.dom[v][(x / 64) as usize] >> (x % 64) & 1 == 0 {
                continue;
            }
            vals[v] = x;
            let a = self.ar.eval(p.e, &vals) as u64;
            let off = a.wrapping_sub(start);
            if off > last {
                continue;
            }
            let o = self.obj_ref(st, ix);
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off as usize..off as usize + n]);
            groups.entry(u64::from_le_bytes(b) & mask(w)).or_default().push(x);
            if groups.len() > 24 {
                return Ok(None);
            }
        }
        let big = groups.iter().max_by_key(|(_, l)| l.len()).map(|(k, _)| *k).unwrap();
        let mut e = self.ar.c(w, big);
        let var = self.ar.var(v, vw);
        let mut c = big;
        let cur = self.item.inputs[v];
        for (val, xs) in &groups {
            if *val == big {
                continue;
            }
            let mut cond = self.ar.c(1, 0);
            let mut i = 0;
            while i < xs.len() {
                let mut j = i;
                while j + 1 < xs.len() && xs[j + 1] == xs[j] + 1 {
                    j += 1;
                }
                let lo = self.ar.c(vw, xs[i]);
                let len = self.ar.c(vw, xs[j] - xs[i]);
                let s = self.ar.bin(Op::Sub, var, lo);
                let r = self.ar.bin(Op::Ule, s, len);
                cond = self.ar.or1(cond, r);
                i = j + 1;
            }
            let k = self.ar.c(w, *val);
            e = self.ar.ite(cond, k, e);
            if xs.contains(&cur) {
                c = *val;
            }
        }
        Ok(Some(self.norm(c, e)))
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn get(&self, bp: usize, o: Opd) -> Val {
        match o {
            Opd::R(r) => self.regs[bp + r as usize],
            Opd::I(c) => cv(c),
        }
    }
    #[inline]
    fn ex(&mut self, v: Val, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.ar.c(w, v.c)
        }
    }
    fn norm(&mut self, c: u64, e: E) -> Val {
        if e == 0 {
            return cv(c);
        }
        let n = self.ar.n[e as usize];
        if n.vars & !self.fixed == 0 {
            return cv(c);
        }
        if self.sh.cfg.check {
            let x = self.ar.eval(e, &self.item.inputs);
            if x as u64 != c {
                panic!("expression {} evaluates to {:#x}, concrete value {:#x}, inputs {:?}, stack {:?}", self.ar.show(e), x, c, self.item.inputs, self.stack_names());
            }
        }
        // a condition that the values left to its only variable decide
        if n.key.w == 1 {
            if let Some(v) = self.single(n.vars) {
                let (m, d) = (self.mask_of(e, v), self.dom[v]);
                if (0..4).all(|i| d[i] & !m[i] == 0) || (0..4).all(|i| d[i] & m[i] == 0) {
                    return cv(c);
                }
            }
        }
        if n.size > self.sh.cfg.size_limit {
            self.pin_vars(e, c);
            return cv(c);
        }
        Val { c, e }
    }
    #[inline]
    fn bin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
        let c = if Arena::is_cmp(op) { eval_cmp(op, w, a.c, b.c) } else { eval_bin(op, w, a.c, b.c) };
        if a.e | b.e == 0 {
            return cv(c);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(op, x, y);
        self.norm(c, e)
    }
    fn wide(&mut self, v: [Val; 2], w: u32) -> (u128, E) {
        let c = (v[0].c as u128) | ((v[1].c as u128) << 64);
        if v[0].e | v[1].e == 0 {
            return (c, 0);
        }
        let l = self.ex(v[0], 64);
        let h = self.ex(v[1], w - 64);
        (c, self.ar.concat(h, l))
    }
    fn split(&mut self, c: u128, e: E, w: u32) -> [Val; 2] {
        if e == 0 {
            return [cv(c as u64), cv((c >> 64) as u64)];
        }
        let l = self.ar.extract(e, 0, 64);
        let h = self.ar.extract(e, 64, w - 64);
        [self.norm(c as u64, l), self.norm((c >> 64) as u64, h)]
    }
    fn select(&mut self, c: Val, a: Val, b: Val, w: u32, ptr: bool) -> Val {
        let r = if c.c != 0 { a } else { b };
        if c.e == 0 {
            return r;
        }
        if a.e == b.e && a.c == b.c {
            return r;
        }
        // Small constants chosen by a condition are lengths (of characters, say): one path each,
        // so that sizes and addresses computed from them stay concrete.
        if ptr || (w == 64 && a.e == 0 && b.e == 0 && a.c.max(b.c) <= 16 && a.c.max(b.c) > 1) {
            self.branch(c.e, c.c != 0);
            return r;
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.ite(c.e, x, y);
        self.norm(r.c, e)
    }

    // ---------------------------------------------------------------- running
    fn enter(&mut self, f: u32, args: &[Val], d: u32) -> R<()> {
        let fun = self.sh.func(f);
        if self.frames.len() >= self.sh.cfg.max_depth {
            return Err(Term::Stack);
        }
        let depth = self.frames.len();
        if self.stk.len() <= depth {
            self.stk.push(Obj { base: 0x10000, ..Default::default() });
        }
        let o = &mut self.stk[depth];
        o.data.clear();
        o.data.resize(fun.frame as usize, 0xA5);
        if !o.sh.is_empty() {
            o.sh = vec![];
        }
        let bp = self.regs.len();
        self.regs.resize(bp + fun.nregs as usize, Val::default());
        let n = (fun.nparams as usize).min(args.len());
        self.regs[bp..bp + n].copy_from_slice(&args[..n]);
        let h = &mut self.hits[f as usize];
        if h.is_empty() {
            h.resize(fun.nblocks as usize, 0);
        }
        h[0] = 1;
        self.frames.push(Fr { f: fun, pc: 0, bp: bp as u32, d });
        Ok(())
    }

    pub fn run(&mut self, entry: u32, item: Item) -> Term {
        self.reset_run();
        self.item = item;
        self.hash = 0;
        self.sync();
        if let Err(t) = self.enter(entry, &[], 0) {
            return t;
        }
        let r = self.exec();
        match r {
            Ok(()) => {
                if self.depth < self.item.start {
                    return Term::Diverge("run ended early".into());
                }
                Term::Ok
            }
            Err(t) => {
                if self.depth < self.item.start && !matches!(t, Term::Diverge(_) | Term::Stop) {
                    return Term::Diverge(format!("run ended early: {:?}", t));
                }
                t
            }
        }
    }

    fn goto(&mut self, f: &'m Func, bp: usize, e: &Edge) -> u32 {
        let (s, n) = (e.copies.0 as usize, e.copies.1 as usize);
        self.hits[f.ix as usize][e.block as usize] = 1;
        if n == 1 {
            let (d, o) = f.copies[s];
            self.regs[bp + d as usize] = self.get(bp, o);
        } else if n > 1 {
            let mut t = std::mem::take(&mut self.tmp);
            t.clear();
            for &(_, o) in &f.copies[s..s + n] {
                t.push(self.get(bp, o));
            }
            for (i, &(d, _)) in f.copies[s..s + n].iter().enumerate() {
                self.regs[bp + d as usize] = t[i];
            }
            self.tmp = t;
        }
        e.pc
    }

    fn exec(&mut self) -> R<()> {
        let max = self.sh.cfg.steps;
        let mut f: &'m Func = self.frames.last().unwrap().f;
        let mut bp = 0usize;
        let mut pc = 0usize;
        loop {
            self.steps += 1;
            if self.steps & 0xffff == 0 {
                if self.steps > max {
                    return Err(Term::Steps);
                }
                if self.sh.stop.load(Relaxed) {
                    return Err(Term::Stop);
                }
                if self.steps & 0xfffff == 0 && Instant::now() > *self.sh.deadline.lock().unwrap() {
                    self.sh.stop.store(true, Relaxed);
                    return Err(Term::Stop);
                }
            }
            if self.aborted.is_some() {
                return Err(self.aborted.take().unwrap());
            }
            let inst = &f.insts[pc];
            pc += 1;
            match *inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (self.get(bp, a), self.get(bp, b));
                    if x.e | y.e == 0 {
                        self.regs[bp + d as usize] = cv(eval_bin(op, w as u32, x.c, y.c));
                    } else {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let r = self.bin(op, w as u32, x, y);
                        self.regs[bp + d as usize] = r;
                    }
                }
                Inst::Cmp { op, neg, w, d, a, b } => {
                    let (x, y) = (self.get(bp, a), self.get(bp, b));
                    let c = eval_cmp(op, w as u32, x.c, y.c) ^ neg as u64;
                    if x.e | y.e == 0 {
                        self.regs[bp + d as usize] = cv(c);
                    } else {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let (p, q) = (self.ex(x, w as u32), self.ex(y, w as u32));
                        let mut e = self.ar.bin(op, p, q);
                        if neg {
                            e = self.ar.not(e);
                        }
                        let r = self.norm(c, e);
                        self.regs[bp + d as usize] = r;
                    }
                }
                Inst::Load { d, p, mem, size } => {
                    let mut pv = self.get(bp, p);
                    if pv.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        if mem.1 == 1 {
                            let (o, w) = f.mem[mem.0 as usize];
                            if o == 0 {
                                if let Some(v) = self.table_load(pv, w as u32)? {
                                    self.regs[bp + d as usize] = v;
                                    continue;
                                }
                            }
                        }
                        self.locate(pv.c, size as u64, false)?;
                        pv = cv(self.conc(pv));
                    }
                    let (st, ix, off) = match self.locate(pv.c, size as u64, false) {
                        Ok(x) => x,
                        Err(t) => {
                            self.frames.last_mut().unwrap().pc = pc as u32;
                            return Err(t);
                        }
                    };
                    let o = self.obj_ref(st, ix);
                    if o.sh.is_empty() {
                        for k in 0..mem.1 {
                            let (mo, w) = f.mem[(mem.0 + k) as usize];
                            let o = self.obj_ref(st, ix);
                            let at = off + mo as usize;
                            let n = ((w + 7) / 8) as usize;
                            let c = match n {
                                8 => u64::from_le_bytes(o.data[at..at + 8].try_into().unwrap()),
                                4 => u32::from_le_bytes(o.data[at..at + 4].try_into().unwrap()) as u64,
                                2 => u16::from_le_bytes(o.data[at..at + 2].try_into().unwrap()) as u64,
                                1 => o.data[at] as u64,
                                _ => {
                                    let mut b = [0u8; 8];
                                    b[..n].copy_from_slice(&o.data[at..at + n]);
                                    u64::from_le_bytes(b)
                                }
                            };
                            self.regs[bp + (d + k) as usize] = cv(c & mask(w as u32));
                        }
                    } else {
                        for k in 0..mem.1 {
                            let (mo, w) = f.mem[(mem.0 + k) as usize];
                            let v = self.read_slot(st, ix, off + mo as usize, w as u32);
                            self.regs[bp + (d + k) as usize] = v;
                        }
                    }
                }
                Inst::Store { p, vals, mem, size } => {
                    let mut pv = self.get(bp, p);
                    if pv.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.locate(pv.c, size as u64, true)?;
                        pv = cv(self.conc(pv));
                    }
                    let (st, ix, off) = match self.locate(pv.c, size as u64, true) {
                        Ok(x) => x,
                        Err(t) => {
                            self.frames.last_mut().unwrap().pc = pc as u32;
                            return Err(t);
                        }
                    };
                    for k in 0..mem.1 {
                        let (mo, w) = f.mem[(mem.0 + k) as usize];
                        let v = self.get(bp, f.opds[(vals.0 + k) as usize]);
                        self.write_slot(st, ix, off + mo as usize, w as u32, v);
                    }
                }
                Inst::Gep { d, p, off, idx } => {
                    let mut v = self.get(bp, p);
                    v.c = v.c.wrapping_add(off);
                    if v.e != 0 && off != 0 {
                        let k = self.ar.c(64, off);
                        v.e = self.ar.bin(Op::Add, v.e, k);
                    }
                    for i in 0..idx.1 {
                        let (o, w, scale) = f.idx[(idx.0 + i) as usize];
                        let x = self.get(bp, o);
                        if v.e | x.e != 0 {
                            let base = self.ex(v, 64);
                            let xe = self.ex(x, w as u32);
                            let xs = if (w as u32) < 64 { self.ar.sext(xe, 64) } else { xe };
                            let k = self.ar.c(64, scale);
                            let m = self.ar.bin(Op::Mul, xs, k);
                            v.e = self.ar.bin(Op::Add, base, m);
                        }
                        v.c = v.c.wrapping_add((sext64(x.c, w as u32) as u64).wrapping_mul(scale));
                    }
                    if v.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        v = self.norm(v.c, v.e);
                    }
                    self.regs[bp + d as usize] = v;
                }
                Inst::Br(ref e) => pc = self.goto(f, bp, e) as usize,
                Inst::CBr { c, ref t, f: ref fe } => {
                    let v = self.get(bp, c);
                    if v.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.branch(v.e, v.c != 0);
                    }
                    pc = self.goto(f, bp, if v.c != 0 { t } else { fe }) as usize;
                }
                Inst::Sel { w, ptr, d, c, a, b } => {
                    let (c, a, b) = (self.get(bp, c), self.get(bp, a), self.get(bp, b));
                    let r = if c.e == 0 {
                        if c.c != 0 {
                            a
                        } else {
                            b
                        }
                    } else {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.select(c, a, b, w as u32, ptr)
                    };
                    self.regs[bp + d as usize] = r;
                }
                Inst::Zext { d, a, wf: _, wt } => {
                    let v = self.get(bp, a);
                    let r = if v.e == 0 {
                        v
                    } else {
                        let e = self.ar.zext(v.e, wt as u32);
                        self.norm(v.c, e)
                    };
                    self.regs[bp + d as usize] = r;
                }
                Inst::Sext { d, a, wf, wt } => {
                    let v = self.get(bp, a);
                    let c = sext64(v.c, wf as u32) as u64 & mask(wt as u32);
                    let r = if v.e == 0 {
                        cv(c)
                    } else {
                        let e = self.ar.sext(v.e, wt as u32);
                        self.norm(c, e)
                    };
                    self.regs[bp + d as usize] = r;
                }
                Inst::Trunc { d, a, wt } => {
                    let v = self.get(bp, a);
                    let c = v.c & mask(wt as u32);
                    let r = if v.e == 0 {
                        cv(c)
                    } else {
                        let e = self.ar.trunc(v.e, wt as u32);
                        self.norm(c, e)
                    };
                    self.regs[bp + d as usize] = r;
                }
                Inst::Alloca { d, off } => {
                    let depth = self.frames.len() as u64 - 1;
                    self.regs[bp + d as usize] = cv(((STACK0 + depth) << 32) + 0x10000 + off as u64);
                }
                Inst::Call { f: g, args, d } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let mut t = std::mem::take(&mut self.tmp);
                    t.clear();
                    for i in 0..args.1 {
                        t.push(self.get(bp, f.opds[(args.0 + i) as usize]));
                    }
                    let r = self.enter(g, &t, d);
                    self.tmp = t;
                    r?;
                    let fr = self.frames.last().unwrap();
                    f = fr.f;
                    bp = fr.bp as usize;
                    pc = 0;
                }
                Inst::CallInd { f: g, args, d } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let p = self.get(bp, g);
                    let p = self.conc(p);
                    if p < FUNC_BASE || ((p - FUNC_BASE) >> 4) as usize >= self.m.funcs.len() || p & 15 != 0 {
                        return Err(Term::Mem("call through a bad function pointer".into()));
                    }
                    let g = ((p - FUNC_BASE) >> 4) as u32;
                    let mut t: Vec<Val> = vec![];
                    for i in 0..args.1 {
                        t.push(self.get(bp, f.opds[(args.0 + i) as usize]));
                    }
                    if self.m.funcs[g as usize].range == (0, 0) {
                        let v = self.external(g, &t)?;
                        if let Some(v) = v {
                            self.regs[bp + d as usize] = v;
                        }
                    } else {
                        self.enter(g, &t, d)?;
                        let fr = self.frames.last().unwrap();
                        f = fr.f;
                        bp = fr.bp as usize;
                        pc = 0;
                    }
                }
                Inst::Ret(vals) => {
                    let fr = self.frames.last().unwrap();
                    let d = fr.d as usize;
                    let depth = self.frames.len();
                    if depth == 1 {
                        return Ok(());
                    }
                    let pbp = self.frames[depth - 2].bp as usize;
                    for i in 0..vals.1 {
                        let v = self.get(bp, f.opds[(vals.0 + i) as usize]);
                        self.regs[pbp + d + i as usize] = v;
                    }
                    self.regs.truncate(bp);
                    self.frames.pop();
                    let fr = self.frames.last().unwrap();
                    f = fr.f;
                    bp = fr.bp as usize;
                    pc = fr.pc as usize;
                }
                Inst::Sw { w, v, cases, ref def } => {
                    let x = self.get(bp, v);
                    let cs = &f.cases[cases.0 as usize..(cases.0 + cases.1) as usize];
                    let hit = cs.iter().find(|c| c.0 == x.c).map(|c| &c.1).unwrap_or(def);
                    if x.e != 0 {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.switch(x, w as u32, cs, hit.pc, def.pc);
                    }
                    pc = self.goto(f, bp, hit) as usize;
                }
                Inst::BinW { op, w, d, a, b } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = [self.get(bp, a[0]), self.get(bp, a[1])];
                    let b = [self.get(bp, b[0]), self.get(bp, b[1])];
                    let (x, xe) = self.wide(a, w as u32);
                    let (y, ye) = self.wide(b, w as u32);
                    let c = eval_bin128(op, w as u32, x, y);
                    let e = if xe | ye == 0 {
                        0
                    } else {
                        let p = if xe != 0 { xe } else { self.ar.c128(w as u32, x) };
                        let q = if ye != 0 { ye } else { self.ar.c128(w as u32, y) };
                        self.ar.bin(op, p, q)
                    };
                    let r = self.split(c, e, w as u32);
                    self.regs[bp + d as usize] = r[0];
                    self.regs[bp + d as usize + 1] = r[1];
                }
                Inst::CmpW { op, neg, w, d, a, b } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let a = [self.get(bp, a[0]), self.get(bp, a[1])];
                    let b = [self.get(bp, b[0]), self.get(bp, b[1])];
                    let (x, xe) = self.wide(a, w as u32);
                    let (y, ye) = self.wide(b, w as u32);
                    let c = eval_cmp128(op, w as u32, x, y) as u64 ^ neg as u64;
                    let mut e = 0;
                    if xe | ye != 0 {
                        let p = if xe != 0 { xe } else { self.ar.c128(w as u32, x) };
                        let q = if ye != 0 { ye } else { self.ar.c128(w as u32, y) };
                        e = self.ar.bin(op, p, q);
                        if neg {
                            e = self.ar.not(e);
                        }
                    }
                    let r = self.norm(c, e);
                    self.regs[bp + d as usize] = r;
                }
                Inst::CastW { k, wf, wt, d, a } => {
                    let (wf, wt) = (wf as u32, wt as u32);
                    let a = [self.get(bp, a[0]), self.get(bp, a[1])];
                    let (c, e) = if wf > 64 { self.wide(a, wf) } else { (a[0].c as u128, a[0].e) };
                    let rc = match k {
                        CastW::Zext => c,
                        CastW::Sext => sext128(c, wf) as u128 & mask128(wt),
                        CastW::Trunc => c & mask128(wt),
                    };
                    let re = if e == 0 {
                        0
                    } else {
                        match k {
                            CastW::Zext => self.ar.zext(e, wt),
                            CastW::Sext => self.ar.sext(e, wt),
                            CastW::Trunc => self.ar.trunc(e, wt),
                        }
                    };
                    if wt > 64 {
                        let r = self.split(rc, re, wt);
                        self.regs[bp + d as usize] = r[0];
                        self.regs[bp + d as usize + 1] = r[1];
                    } else {
                        let r = self.norm(rc as u64, re);
                        self.regs[bp + d as usize] = r;
                    }
                }
                Inst::Bits { src, d, dst } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let ss: Vec<(Val, u32)> = (0..src.1).map(|i| f.opw[(src.0 + i) as usize]).map(|(o, w)| (self.get(bp, o), w as u32)).collect();
                    let mut bitpos = 0u32;
                    let mut si = 0usize;
                    let mut sused = 0u32;
                    for j in 0..dst.1 {
                        let w = f.opw[(dst.0 + j) as usize].1 as u32;
                        let mut c = 0u64;
                        let mut e: E = 0;
                        let mut sym = false;
                        let mut parts: Vec<(Val, u32, u32)> = vec![]; // value, lo, width
                        let mut need = w;
                        let mut at = 0;
                        while need > 0 {
                            let (v, sw) = ss[si];
                            let take = need.min(sw - sused);
                            c |= ((v.c >> sused) & mask(take)) << at;
                            parts.push((v, sused, take));
                            sym |= v.e != 0;
                            at += take;
                            need -= take;
                            sused += take;
                            if sused == sw {
                                si += 1;
                                sused = 0;
                            }
                        }
                        if sym {
                            for (v, lo, t) in parts {
                                let x = if v.e != 0 { self.ar.extract(v.e, lo, t) } else { self.ar.c(t, v.c >> lo) };
                                e = if e == 0 { x } else { self.ar.concat(x, e) };
                            }
                        }
                        bitpos += w;
                        let r = self.norm(c, e);
                        self.regs[bp + (d + j) as usize] = r;
                    }
                    let _ = bitpos;
                }
                Inst::Ext { f: g, args, d, nret } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let t: Vec<Val> = (0..args.1).map(|i| self.get(bp, f.opds[(args.0 + i) as usize])).collect();
                    let r = self.external(g, &t)?;
                    if nret > 0 {
                        self.regs[bp + d as usize] = r.unwrap_or_default();
                    }
                }
                Inst::Panic { f: g, args } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let t: Vec<Val> = (0..args.1).map(|i| self.get(bp, f.opds[(args.0 + i) as usize])).collect();
                    let mut msg = self.m.funcs[g as usize].name.clone();
                    // a (&str) message when there is one
                    if t.len() >= 2 && t[1].c > 0 && t[1].c < 400 {
                        if let Ok((st, ix, off)) = self.locate(t[0].c, t[1].c, false) {
                            let d = &self.obj_ref(st, ix).data[off..off + t[1].c as usize];
                            if let Ok(s) = std::str::from_utf8(d) {
                                if s.bytes().all(|b| (32..127).contains(&b)) {
                                    msg = s.to_string();
                                }
                            }
                        }
                    }
                    return Err(Term::Panic(msg));
                }
                Inst::Intr { k, w, d, args } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let t: Vec<Val> = (0..args.1).map(|i| self.get(bp, f.opds[(args.0 + i) as usize])).collect();
                    self.intrinsic(k, w as u32, bp + d as usize, &t)?;
                }
                Inst::Fp { k, dbl, d, args } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let t: Vec<Val> = (0..args.1).map(|i| self.get(bp, f.opds[(args.0 + i) as usize])).collect();
                    let v: Vec<u64> = t.into_iter().map(|x| self.conc(x)).collect();
                    let r = fp(k, dbl, &v);
                    match r {
                        Some(r) => self.regs[bp + d as usize] = cv(r),
                        None => return Err(Term::Unsup(format!("float {:?}", k))),
                    }
                }
                Inst::Rmw { op, w, d, p, v } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let pv = self.get(bp, p);
                    let pv = self.conc(pv);
                    let v = self.get(bp, v);
                    let (st, ix, off) = self.locate(pv, (w as u64 + 7) / 8, true)?;
                    let w = w as u32;
                    let old = self.read_slot(st, ix, off, w);
                    let new = match RMW[op as usize] {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, w, old, v),
                        "sub" => self.bin(Op::Sub, w, old, v),
                        "and" => self.bin(Op::And, w, old, v),
                        "or" => self.bin(Op::Or, w, old, v),
                        "xor" => self.bin(Op::Xor, w, old, v),
                        k @ ("umax" | "umin" | "max" | "min") => {
                            let c = self.bin(if k.starts_with('u') { Op::Ult } else { Op::Slt }, w, old, v);
                            if k.ends_with("max") {
                                self.select(c, v, old, w, false)
                            } else {
                                self.select(c, old, v, w, false)
                            }
                        }
                        _ => return Err(Term::Unsup("nand".into())),
                    };
                    self.write_slot(st, ix, off, w, new);
                    self.regs[bp + d as usize] = old;
                }
                Inst::CmpXchg { w, d, p, c, n } => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let pv = self.get(bp, p);
                    let pv = self.conc(pv);
                    let (c, n) = (self.get(bp, c), self.get(bp, n));
                    let w = w as u32;
                    let (st, ix, off) = self.locate(pv, (w as u64 + 7) / 8, true)?;
                    let old = self.read_slot(st, ix, off, w);
                    let eq = self.bin(Op::Eq, w, old, c);
                    if eq.e != 0 {
                        self.branch(eq.e, eq.c != 0);
                    }
                    if eq.c != 0 {
                        self.write_slot(st, ix, off, w, n);
                    }
                    self.regs[bp + d as usize] = old;
                    self.regs[bp + d as usize + 1] = cv(eq.c);
                }
                Inst::Cpuid { d, n } => {
                    for i in 0..n as usize {
                        self.regs[bp + d as usize + i] = cv(0);
                    }
                }
                Inst::Unreach => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    return Err(Term::Unreach);
                }
                Inst::Unsup(k) => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    return Err(Term::Unsup(f.msgs[k as usize].clone()));
                }
            }
        }
    }

    fn switch(&mut self, x: Val, w: u32, cs: &[(u64, Edge)], hit: u32, def: u32) {
        if self.ar.vars(x.e) & !self.fixed == 0 {
            return;
        }
        // group the cases by target
        let mut groups: Vec<(u32, Vec<u64>)> = vec![];
        for (k, e) in cs {
            match groups.iter_mut().find(|g| g.0 == e.pc) {
                Some(g) => g.1.push(*k),
                None => groups.push((e.pc, vec![*k])),
            }
        }
        // the default target: everything not in another group
        let mut none = self.ar.c(1, 1);
        let mut lits: Vec<(u32, E)> = vec![];
        for (pc, ks) in &groups {
            let mut any = self.ar.c(1, 0);
            for k in ks {
                let kc = self.ar.c(w, *k);
                let l = self.ar.bin(Op::Eq, x.e, kc);
                any = self.ar.or1(any, l);
            }
            if *pc != def {
                let na = self.ar.not(any);
                none = self.ar.and1(none, na);
                lits.push((*pc, any));
            }
        }
        lits.push((def, none));
        let lit = lits.iter().find(|l| l.0 == hit).unwrap().1;
        if self.is_known(lit) {
            return;
        }
        let site = self.site();
        if self.depth >= self.item.start {
            for &(pc, l) in &lits {
                if pc != hit {
                    if let Some(m) = self.solve(&[l]) {
                        let h = hmix(self.hash, site, 8 + pc as u64);
                        self.push_child(&m, self.depth + 1, h, vec![], &[l]);
                    }
                }
            }
        }
        self.assert_lit(lit);
        self.tick(site, 8 + hit as u64);
    }

    fn intrinsic(&mut self, k: Intr, w: u32, d: usize, t: &[Val]) -> R<()> {
        if w > 64 {
            return self.intr_wide(k, w, d, t);
        }
        let r = match k {
            Intr::Trap => return Err(Term::Panic("trap".into())),
            Intr::Memcpy => {
                let n = self.conc(t[2]);
                let a = self.conc(t[0]);
                let b = self.conc(t[1]);
                return self.copy(a, b, n);
            }
            Intr::Memset => {
                let n = self.conc(t[2]);
                let a = self.conc(t[0]);
                return self.set_mem(a, t[1], n);
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let c = self.bin(if matches!(k, Intr::Umax | Intr::Umin) { Op::Ult } else { Op::Slt }, w, t[0], t[1]);
                if matches!(k, Intr::Umax | Intr::Smax) {
                    self.select(c, t[1], t[0], w, false)
                } else {
                    self.select(c, t[0], t[1], w, false)
                }
            }
            Intr::UsubSat => {
                let c = self.bin(Op::Ult, w, t[0], t[1]);
                let s = self.bin(Op::Sub, w, t[0], t[1]);
                self.select(c, cv(0), s, w, false)
            }
            Intr::UaddSat => {
                let s = self.bin(Op::Add, w, t[0], t[1]);
                let c = self.bin(Op::Ult, w, s, t[0]);
                self.select(c, cv(mask(w)), s, w, false)
            }
            Intr::UaddO => {
                let s = self.bin(Op::Add, w, t[0], t[1]);
                let o = self.bin(Op::Ult, w, s, t[0]);
                self.regs[d + 1] = o;
                s
            }
            Intr::UsubO => {
                let s = self.bin(Op::Sub, w, t[0], t[1]);
                let o = self.bin(Op::Ult, w, t[0], t[1]);
                self.regs[d + 1] = o;
                s
            }
            Intr::SaddO | Intr::SsubO | Intr::SmulO | Intr::UmulO | Intr::SaddSat | Intr::SsubSat => {
                let signed = k != Intr::UmulO;
                let op = match k {
                    Intr::SaddO | Intr::SaddSat => Op::Add,
                    Intr::SsubO | Intr::SsubSat => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.bin(op, w, t[0], t[1]);
                let w2 = 2 * w;
                // concrete
                let (a, b) = if signed { (sext128(t[0].c as u128, w), sext128(t[1].c as u128, w)) } else { (t[0].c as i128, t[1].c as i128) };
                let full = match op {
                    Op::Add => a + b,
                    Op::Sub => a - b,
                    _ => a.wrapping_mul(b),
                };
                let ovc = if signed { full != sext128(full as u128 & mask128(w), w) } else { (full as u128) > mask128(w) };
                let mut ov = cv(ovc as u64);
                if t[0].e | t[1].e != 0 {
                    let (x, y) = (self.ex(t[0], w), self.ex(t[1], w));
                    let (x2, y2) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                    let f = self.ar.bin(op, x2, y2);
                    let lo = self.ar.trunc(f, w);
                    let back = if signed { self.ar.sext(lo, w2) } else { self.ar.zext(lo, w2) };
                    let eq = self.ar.bin(Op::Eq, f, back);
                    let ne = self.ar.not(eq);
                    ov = self.norm(ovc as u64, ne);
                }
                if matches!(k, Intr::SaddSat | Intr::SsubSat) {
                    let neg = self.bin(Op::Slt, w, t[0], cv(0));
                    let mx = mask(w) >> 1;
                    let lim = self.select(neg, cv(mx + 1), cv(mx), w, false);
                    self.select(ov, lim, r, w, false)
                } else {
                    self.regs[d + 1] = ov;
                    r
                }
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                let c = match k {
                    Intr::Ctlz => (t[0].c.leading_zeros() + w).saturating_sub(64).min(w) as u64,
                    Intr::Cttz => (t[0].c.trailing_zeros() as u64).min(w as u64),
                    _ => t[0].c.count_ones() as u64,
                };
                if t[0].e == 0 {
                    cv(c)
                } else {
                    let x = t[0].e;
                    let mut e;
                    if k == Intr::Ctpop {
                        e = self.ar.c(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(x, i, 1);
                            let z = if w > 1 { self.ar.zext(b, w) } else { b };
                            e = self.ar.bin(Op::Add, e, z);
                        }
                    } else {
                        e = self.ar.c(w, w as u64);
                        for i in 0..w {
                            let bit = if k == Intr::Ctlz { i } else { w - 1 - i };
                            let b = self.ar.extract(x, bit, 1);
                            let v = if k == Intr::Ctlz { w - 1 - i } else { w - 1 - i };
                            let kk = self.ar.c(w, v as u64);
                            e = self.ar.ite(b, kk, e);
                        }
                    }
                    self.norm(c, e)
                }
            }
            Intr::Bswap => {
                let n = w / 8;
                let mut c = 0u64;
                for i in 0..n {
                    c |= ((t[0].c >> (8 * i)) & 255) << (8 * (n - 1 - i));
                }
                if t[0].e == 0 {
                    cv(c)
                } else {
                    let mut e = 0;
                    for i in 0..n {
                        let b = self.ar.extract(t[0].e, 8 * i, 8);
                        e = if e == 0 { b } else { self.ar.concat(e, b) };
                    }
                    self.norm(c, e)
                }
            }
            Intr::Bitrev => {
                let mut c = 0u64;
                for i in 0..w {
                    c |= ((t[0].c >> i) & 1) << (w - 1 - i);
                }
                if t[0].e == 0 {
                    cv(c)
                } else {
                    let mut e = 0;
                    for i in 0..w {
                        let b = self.ar.extract(t[0].e, i, 1);
                        e = if e == 0 { b } else { self.ar.concat(e, b) };
                    }
                    self.norm(c, e)
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(t[2]) % w as u64;
                let s = if k == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
                // fshl(a,b,s) = (a<<s)|(b>>(w-s)); fshr with shift 0 returns b
                if s == 0 {
                    if k == Intr::Fshl {
                        t[0]
                    } else {
                        t[1]
                    }
                } else {
                    let hi = self.bin(Op::Shl, w, t[0], cv(s));
                    let lo = self.bin(Op::LShr, w, t[1], cv(w as u64 - s));
                    self.bin(Op::Or, w, hi, lo)
                }
            }
            Intr::Abs => {
                let neg = self.bin(Op::Slt, w, t[0], cv(0));
                let m = self.bin(Op::Sub, w, cv(0), t[0]);
                self.select(neg, m, t[0], w, false)
            }
            Intr::Ucmp | Intr::Scmp => {
                // result type is i8
                let op = if k == Intr::Ucmp { Op::Ult } else { Op::Slt };
                let lt = self.bin(op, w, t[0], t[1]);
                let gt = self.bin(op, w, t[1], t[0]);
                let x = self.select(gt, cv(1), cv(0), 8, false);
                self.select(lt, cv(255), x, 8, false)
            }
            _ => return Err(Term::Unsup(format!("{:?}", k))),
        };
        self.regs[d] = r;
        Ok(())
    }
    fn intr_wide(&mut self, k: Intr, w: u32, d: usize, t: &[Val]) -> R<()> {
        let v: Vec<u64> = t.iter().map(|x| self.conc(*x)).collect();
        let a = v[0] as u128 | (v[1] as u128) << 64;
        let b = if v.len() >= 4 { v[2] as u128 | (v[3] as u128) << 64 } else { 0 };
        let m = mask128(w);
        let (r, o): (u128, Option<bool>) = match k {
            Intr::UaddO => {
                let (s, c) = a.overflowing_add(b);
                (s & m, Some(c || s > m))
            }
            Intr::UsubO => (a.wrapping_sub(b) & m, Some(a < b)),
            Intr::UmulO => {
                let (s, c) = a.overflowing_mul(b);
                (s & m, Some(c || s > m))
            }
            Intr::Ctlz => ((a.leading_zeros() + w - 128) as u128, None),
            Intr::Cttz => (a.trailing_zeros().min(w) as u128, None),
            Intr::Ctpop => (a.count_ones() as u128, None),
            Intr::Bswap if w == 128 => (a.swap_bytes(), None),
            _ => return Err(Term::Unsup(format!("{:?} i{}", k, w))),
        };
        self.regs[d] = cv(r as u64);
        self.regs[d + 1] = cv((r >> 64) as u64);
        if let Some(o) = o {
            self.regs[d + 2] = cv(o as u64);
        }
        Ok(())
    }
    fn set_mem(&mut self, a: u64, v: Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (st, ix, off) = self.locate(a, n, true)?;
        let n = n as usize;
        let o = self.obj(st, ix);
        for x in &mut o.data[off..off + n] {
            *x = v.c as u8;
        }
        if v.e != 0 {
            if o.sh.is_empty() {
                o.sh = vec![0; o.data.len()];
            }
            for x in &mut o.sh[off..off + n] {
                *x = (v.e as u64) << 8;
            }
        } else if !o.sh.is_empty() {
            for x in &mut o.sh[off..off + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    fn external(&mut self, g: u32, t: &[Val]) -> R<Option<Val>> {
        let k = self.sh.ext[g as usize];
        Ok(Some(match k {
            Ext::None => return Err(Term::Unsup(format!("call of external {}", self.m.funcs[g as usize].name))),
            Ext::VxSym => {
                let w = t[0].c as u32;
                let i = self.nvars;
                if i >= 126 {
                    return Err(Term::Unsup("too many symbolic variables".into()));
                }
                self.nvars += 1;
                if self.item.inputs.len() <= i {
                    self.item.inputs.push(t[1].c & mask(w));
                }
                let c = self.item.inputs[i] & mask(w);
                self.item.inputs[i] = c;
                let e = self.ar.var(i, w);
                let mut d = [0u64; 4];
                if w <= 8 {
                    for x in 0..(1u64 << w) {
                        d[(x / 64) as usize] |= 1 << (x % 64);
                    }
                }
                self.dom.push(d);
                self.lits1.push(vec![]);
                // memoised byte masks are only valid for this width; widths per index rarely change
                let e = if w < 64 { self.ar.zext(e, 64) } else { e };
                Val { c, e }
            }
            Ext::VxAssume => {
                let v = t[0];
                if v.e == 0 {
                    if v.c & 1 == 0 {
                        return Err(Term::Assume);
                    }
                } else {
                    let w = self.ar.w(v.e);
                    let z = self.ar.c(w, 0);
                    let eq = self.ar.bin(Op::Eq, v.e, z);
                    let c = self.ar.not(eq);
                    self.assume(c, v.c != 0)?;
                }
                return Ok(None);
            }
            Ext::VxPin => cv(self.conc(t[0])),
            Ext::VxObserve => {
                self.obs = (self.obs ^ t[0].c).wrapping_mul(0x100000001b3).rotate_left(17);
                return Ok(None);
            }
            Ext::VxCover => {
                if !self.covers.contains(&t[0].c) {
                    self.covers.push(t[0].c);
                }
                return Ok(None);
            }
            Ext::VxLive => cv(self.live),
            Ext::Malloc => {
                let n = self.conc(t[0]);
                cv(self.alloc(n, 16, 0xA5)?)
            }
            Ext::Calloc => {
                let n = self.conc(t[0]).wrapping_mul(self.conc(t[1]));
                cv(self.alloc(n, 16, 0)?)
            }
            Ext::AlignedAlloc => {
                let a = self.conc(t[0]);
                let n = self.conc(t[1]);
                cv(self.alloc(n, a, 0xA5)?)
            }
            Ext::PosixMemalign => {
                let p = self.conc(t[0]);
                let a = self.conc(t[1]);
                let n = self.conc(t[2]);
                let x = self.alloc(n, a, 0xA5)?;
                let (st, ix, off) = self.locate(p, 8, true)?;
                self.write_slot(st, ix, off, 64, cv(x));
                cv(0)
            }
            Ext::Realloc => {
                let p = self.conc(t[0]);
                let n = self.conc(t[1]);
                let x = self.alloc(n, 16, 0xA5)?;
                if p != 0 {
                    let ix = (p >> 32).wrapping_sub(GLOBAL_OBJ0) as usize;
                    if ix >= self.objs.len() || self.objs[ix].dead || ix < self.nglob || p as u32 != self.objs[ix].base {
                        return Err(Term::Mem("realloc of a bad pointer".into()));
                    }
                    let l = (self.objs[ix].data.len() as u64).min(n);
                    self.copy(x, p, l)?;
                    self.free(p)?;
                }
                cv(x)
            }
            Ext::Free => {
                let p = self.conc(t[0]);
                self.free(p)?;
                return Ok(None);
            }
            Ext::Memcmp => {
                let n = self.conc(t[2]);
                let a = self.conc(t[0]);
                let b = self.conc(t[1]);
                let bcmp = self.m.funcs[g as usize].name == "bcmp";
                let mut c = 0u64;
                let mut sym = false;
                let mut pairs = vec![];
                for i in 0..n {
                    let (x, y) = (self.byte(a + i)?, self.byte(b + i)?);
                    if c == 0 && x.c != y.c {
                        c = if x.c < y.c { mask(32) } else { 1 };
                    }
                    sym |= x.e | y.e != 0;
                    pairs.push((x, y));
                }
                if bcmp && c != 0 {
                    c = 1;
                }
                if !sym {
                    cv(c)
                } else {
                    let zero = self.ar.c(32, 0);
                    let one = self.ar.c(32, 1);
                    let m1 = self.ar.c(32, mask(32));
                    let e = if bcmp {
                        let mut eq = self.ar.c(1, 1);
                        for (x, y) in pairs {
                            let (p, q) = (self.ex(x, 8), self.ex(y, 8));
                            let l = self.ar.bin(Op::Eq, p, q);
                            eq = self.ar.and1(eq, l);
                        }
                        self.ar.ite(eq, zero, one)
                    } else {
                        let mut r = zero;
                        for (x, y) in pairs.into_iter().rev() {
                            let (p, q) = (self.ex(x, 8), self.ex(y, 8));
                            let lt = self.ar.bin(Op::Ult, p, q);
                            let eq = self.ar.bin(Op::Eq, p, q);
                            let ne = self.ar.ite(lt, m1, one);
                            r = self.ar.ite(eq, r, ne);
                        }
                        r
                    };
                    self.norm(c, e)
                }
            }
            Ext::Strlen => {
                let a = self.conc(t[0]);
                let mut n = 0;
                loop {
                    let b = self.byte(a + n)?;
                    if self.conc(b) == 0 {
                        break;
                    }
                    n += 1;
                }
                cv(n)
            }
            Ext::Memcpy => {
                let n = self.conc(t[2]);
                let a = self.conc(t[0]);
                let b = self.conc(t[1]);
                self.copy(a, b, n)?;
                cv(a)
            }
            Ext::Memset => {
                let n = self.conc(t[2]);
                let a = self.conc(t[0]);
                let v = if t[1].e != 0 {
                    let e = self.ar.trunc(t[1].e, 8);
                    self.norm(t[1].c & 255, e)
                } else {
                    t[1]
                };
                self.set_mem(a, v, n)?;
                cv(a)
            }
            Ext::Write => cv(self.conc(t[2])),
            Ext::Errno => {
                if self.errno == 0 {
                    self.errno = self.alloc(4, 16, 0)?;
                    self.live -= (4 + 31) & !15;
                }
                cv(self.errno)
            }
            Ext::Syscall => {
                let n = self.conc(t[0]);
                match n {
                    318 => {
                        // getrandom(buf, len, flags): a fixed value
                        let (p, l) = (self.conc(t[1]), self.conc(t[2]));
                        self.set_mem(p, cv(0x42), l)?;
                        cv(l)
                    }
                    202 => cv(0), // futex
                    _ => return Err(Term::Unsup(format!("syscall {}", n))),
                }
            }
            Ext::Sysconf => cv(if self.conc(t[0]) == 84 { 1 } else { 4096 }),
            Ext::GetRandom => {
                let (p, l) = (self.conc(t[0]), self.conc(t[1]));
                self.set_mem(p, cv(0x42), l)?;
                cv(l)
            }
            Ext::ClockGettime => {
                let p = self.conc(t[1]);
                self.clock += 1;
                let (st, ix, off) = self.locate(p, 16, true)?;
                let c = self.clock;
                self.write_slot(st, ix, off, 64, cv(c));
                self.write_slot(st, ix, off + 8, 64, cv(0));
                cv(0)
            }
            Ext::Ret(v) => cv(v),
            Ext::ErrNo(v, _) => {
                if self.errno == 0 {
                    self.errno = self.alloc(4, 16, 0)?;
                    self.live -= (4 + 31) & !15;
                }
                let (st, ix, off) = self.locate(self.errno, 4, true)?;
                self.write_slot(st, ix, off, 32, cv(2));
                cv(v & 0xffff_ffff)
            }
        }))
    }
}

fn fp(k: Fp, dbl: bool, v: &[u64]) -> Option<u64> {
    let f = |x: u64| if dbl { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    let o = |x: f64| if dbl { x.to_bits() } else { (x as f32).to_bits() as u64 };
    let g = |i: usize| f32::from_bits(v[i] as u32);
    let o32 = |x: f32| x.to_bits() as u64;
    Some(match k {
        Fp::Add => {
            if dbl {
                o(f(v[0]) + f(v[1]))
            } else {
                o32(g(0) + g(1))
            }
        }
        Fp::Sub => {
            if dbl {
                o(f(v[0]) - f(v[1]))
            } else {
                o32(g(0) - g(1))
            }
        }
        Fp::Mul => {
            if dbl {
                o(f(v[0]) * f(v[1]))
            } else {
                o32(g(0) * g(1))
            }
        }
        Fp::Div => {
            if dbl {
                o(f(v[0]) / f(v[1]))
            } else {
                o32(g(0) / g(1))
            }
        }
        Fp::Rem => {
            if dbl {
                o(f(v[0]) % f(v[1]))
            } else {
                o32(g(0) % g(1))
            }
        }
        Fp::Neg => v[0] ^ (if dbl { 1 << 63 } else { 1 << 31 }),
        Fp::Cmp(c) => {
            let (a, b) = (f(v[0]), f(v[1]));
            let un = a.is_nan() || b.is_nan();
            (match c {
                0 => false,
                1 => a == b,
                2 => a > b,
                3 => a >= b,
                4 => a < b,
                5 => a <= b,
                6 => !un && a != b,
                7 => !un,
                8 => un,
                9 => un || a == b,
                10 => un || a > b,
                11 => un || a >= b,
                12 => un || a < b,
                13 => un || a <= b,
                14 => un || a != b,
                _ => true,
            }) as u64
        }
        Fp::ToUi(w) | Fp::ToUiSat(w) => {
            let x = f(v[0]);
            let m = mask(w as u32);
            if x.is_nan() || x <= 0.0 {
                0
            } else if x >= m as f64 {
                m
            } else {
                x as u64 & m
            }
        }
        Fp::ToSi(w) | Fp::ToSiSat(w) => {
            let x = f(v[0]);
            let hi = (mask(w as u32) >> 1) as i64;
            let lo = -hi - 1;
            let r = if x.is_nan() {
                0
            } else if x >= hi as f64 {
                hi
            } else if x <= lo as f64 {
                lo
            } else {
                x as i64
            };
            r as u64 & mask(w as u32)
        }
        Fp::FromUi(_) => {
            if dbl {
                (v[0] as f64).to_bits()
            } else {
                o32(v[0] as f32)
            }
        }
        Fp::FromSi(w) => {
            let x = sext64(v[0], w as u32);
            if dbl {
                (x as f64).to_bits()
            } else {
                o32(x as f32)
            }
        }
        Fp::Ext => (f32::from_bits(v[0] as u32) as f64).to_bits(),
        Fp::Trunc => (f64::from_bits(v[0]) as f32).to_bits() as u64,
        Fp::Floor => o(f(v[0]).floor()),
        Fp::Ceil => o(f(v[0]).ceil()),
        Fp::Round => o(f(v[0]).round()),
        Fp::RoundEven => o(f(v[0]).round_ties_even()),
        Fp::TruncI => o(f(v[0]).trunc()),
        Fp::Sqrt => {
            if dbl {
                o(f(v[0]).sqrt())
            } else {
                o32(g(0).sqrt())
            }
        }
        Fp::Abs => v[0] & (if dbl { !(1 << 63) } else { !(1 << 31) }),
        Fp::Min => o(f(v[0]).min(f(v[1]))),
        Fp::Max => o(f(v[0]).max(f(v[1]))),
        Fp::CopySign => {
            let s = if dbl { 1u64 << 63 } else { 1 << 31 };
            (v[0] & !s) | (v[1] & s)
        }
        Fp::Fma => {
            if dbl {
                o(f(v[0]).mul_add(f(v[1]), f(v[2])))
            } else {
                o32(g(0).mul_add(g(1), g(2)))
            }
        }
        Fp::Pow if dbl => o(f(v[0]).powf(f(v[1]))),
        Fp::Sin if dbl => o(f(v[0]).sin()),
        Fp::Cos if dbl => o(f(v[0]).cos()),
        Fp::Exp if dbl => o(f(v[0]).exp()),
        Fp::Log if dbl => o(f(v[0]).ln()),
        _ => return None,
    })
}
