//! The symbolic interpreter and path explorer.
use crate::expr::{eval_bin, eval_cmp, mask, sext, Arena, B, C, E};
use crate::solver::Solver;
use crate::wasm::{Module, Op};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct V {
    b: u64,
    s: u32,
}
const fn cv(b: u64) -> V {
    V { b, s: 0 }
}
const CH: usize = 1024;
#[derive(Clone)]
struct Chunk {
    d: [u8; CH],
    sym: Option<Box<[u32; CH]>>,
    alive: [u64; CH / 64],
}
#[derive(Clone)]
struct Mem {
    c: Vec<Rc<Chunk>>,
    zero: Rc<Chunk>,
}
#[derive(Clone, Copy)]
struct Frame {
    f: u32,
    pc: u32,
    lb: u32,
    sb: u32,
}
#[derive(Clone, Copy, Debug)]
pub struct Dec {
    v: u64,
    yes: bool,
    forced: bool,
}
pub fn root() -> Item {
    Item { decs: vec![], model: vec![] }
}
pub struct Item {
    decs: Vec<Dec>,
    model: Vec<u64>,
}
#[derive(Clone)]
struct State {
    vals: Vec<V>,
    fr: Vec<Frame>,
    mem: Mem,
    globals: Vec<V>,
    widths: Vec<u8>,
    los: Vec<u64>,
    pc: Vec<u32>,
    model: Vec<u64>,
    known: HashMap<u32, u64>,
    decs: Vec<Dec>,
    replay: Option<Rc<Vec<Dec>>>,
    rpos: usize,
    log: Vec<V>,
    covers: Vec<u32>,
    instrs: u64,
    brk: u32,
    live: u32,
    allow_panic: bool,
    dropped: Vec<bool>,
}
enum Stop {
    Done,
    Infeasible,
    Trap(String, String),
    Limit(String),
}
type R<T> = Result<T, Stop>;
fn trap<T>(k: &str, m: String) -> R<T> {
    Err(Stop::Trap(k.into(), m))
}
#[derive(Clone, Copy, PartialEq)]
enum Host {
    None,
    Fresh,
    Assume,
    Check,
    Cover,
    Trace,
    Concretize,
    Alloc,
    Free,
    Realloc,
    AllowPanic,
    Live,
    End,
    Fail,
    Panic,
}
#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub log: Vec<u64>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub log: Vec<u64>,
    pub panicked: bool,
}
#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panics: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub checks_symbolic: u64,
    pub checks_concrete: u64,
    pub solver_ms: f64,
    pub solver_max_ms: f64,
    pub max_inputs: usize,
    pub max_path_instrs: u64,
    pub concretized: u64,
    pub covers: BTreeMap<u32, u64>,
    pub fns: BTreeSet<u32>,
    pub exprs: u64,
    pub items: u64,
}
pub struct Shared {
    pub m: Module,
    pub entry: u32,
    pub args: Vec<u64>,
    pub ctors: Option<u32>,
    pub max_instrs: u64,
    pub deadline: Instant,
    pub nthreads: usize,
    pub max_samples: usize,
    pub queue: Mutex<Vec<Item>>,
    pub qlen: AtomicUsize,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    pub errors: Mutex<Vec<String>>,
    pub samples: Mutex<Vec<Sample>>,
    pub heap: u32,
    pub seed: u64,
    pub forks_at: Mutex<HashMap<String, u64>>,
    pub profile: bool,
    /// the property whose assertions are checked (all if none)
    pub only: Option<String>,
}
impl Mem {
    fn new() -> Self {
        Mem {
            c: vec![],
            zero: Rc::new(Chunk {
                d: [0; CH],
                sym: None,
                alive: [0; CH / 64],
            }),
        }
    }
    fn grow(&mut self, bytes: usize) {
        while self.c.len() * CH < bytes {
            self.c.push(self.zero.clone());
        }
    }
    #[inline]
    fn w(&mut self, i: usize) -> &mut Chunk {
        Rc::make_mut(&mut self.c[i])
    }
    fn set_alive(&mut self, a: usize, n: usize, v: bool) {
        let mut p = a;
        let end = a + n;
        while p < end {
            let c = self.w(p / CH);
            let o = p % CH;
            if o % 64 == 0 && end - p >= 64 {
                c.alive[o / 64] = if v { u64::MAX } else { 0 };
                p += 64;
            } else {
                let b = 1u64 << (o % 64);
                if v {
                    c.alive[o / 64] |= b
                } else {
                    c.alive[o / 64] &= !b
                }
                p += 1;
            }
        }
    }
    #[inline]
    fn is_alive(&self, a: usize) -> bool {
        let c = &self.c[a / CH];
        let o = a % CH;
        c.alive[o / 64] >> (o % 64) & 1 != 0
    }
    fn check(&self, heap: u32, a: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if a + n as u64 > (self.c.len() * CH) as u64 {
            return trap("memory", format!("access of {n} bytes at {a:#x} out of bounds"));
        }
        if a < 64 {
            return trap("memory", format!("access of {n} bytes at null-ish address {a:#x}"));
        }
        if a >= heap as u64 && !(self.is_alive(a as usize) && self.is_alive(a as usize + n - 1)) {
            return trap(
                "memory",
                format!("access of {n} bytes at {a:#x}: heap memory that is freed or was never allocated"),
            );
        }
        Ok(())
    }
    fn byte(&self, a: usize) -> (u8, u32) {
        let c = &self.c[a / CH];
        (c.d[a % CH], c.sym.as_ref().map_or(0, |s| s[a % CH]))
    }
    fn set_byte(&mut self, a: usize, v: (u8, u32)) {
        let c = self.w(a / CH);
        c.d[a % CH] = v.0;
        if v.1 != 0 {
            c.sym.get_or_insert_with(|| Box::new([0; CH]))[a % CH] = v.1;
        } else if let Some(s) = &mut c.sym {
            s[a % CH] = 0;
        }
    }
    /// bytes without symbolic content
    fn bytes(&self, a: u32, n: u32) -> Vec<u8> {
        (0..n as usize)
            .filter_map(|i| {
                let p = a as usize + i;
                if p / CH < self.c.len() {
                    Some(self.byte(p).0)
                } else {
                    None
                }
            })
            .collect()
    }
    fn u32(&self, a: u32) -> u32 {
        let b = self.bytes(a, 4);
        if b.len() == 4 {
            u32::from_le_bytes([b[0], b[1], b[2], b[3]])
        } else {
            0
        }
    }
}
pub struct Exec {
    sh: Arc<Shared>,
    hosts: Vec<Host>,
    a: Arena,
    sol: Solver,
    work: VecDeque<State>,
    st: Stats,
    fns: Vec<bool>,
    rng: u64,
    nseen: u64,
    samples: Vec<Sample>,
    base: Option<State>,
    prof: HashMap<String, u64>,
}
fn host_of(f: &crate::wasm::Func) -> Result<Host, String> {
    Ok(match &f.import {
        Some(n) => match n.as_str() {
            "nd.fresh" => Host::Fresh,
            "nd.assume" => Host::Assume,
            "nd.check" => Host::Check,
            "nd.cover" => Host::Cover,
            "nd.trace" => Host::Trace,
            "nd.concretize" => Host::Concretize,
            "nd.alloc" => Host::Alloc,
            "nd.free" => Host::Free,
            "nd.realloc" => Host::Realloc,
            "nd.allow_panic" => Host::AllowPanic,
            "nd.live" => Host::Live,
            "nd.end" => Host::End,
            "nd.fail" => Host::Fail,
            _ => return Err(format!("unknown import {n}")),
        },
        None => {
            let n = f.name.as_str();
            if n == "core::panicking::panic_fmt"
                || n == "core::panicking::panic_nounwind_fmt"
                || n.ends_with("rust_begin_unwind")
                || n == "alloc::alloc::handle_alloc_error"
            {
                Host::Panic
            } else {
                Host::None
            }
        }
    })
}
impl Exec {
    pub fn new(sh: Arc<Shared>, id: u64) -> Result<Exec, String> {
        let mut hosts = vec![];
        for f in &sh.m.funcs {
            hosts.push(host_of(f)?);
        }
        let n = sh.m.funcs.len();
        let seed = sh.seed;
        Ok(Exec {
            sh,
            hosts,
            a: Arena::new(),
            sol: Solver::new(),
            work: VecDeque::new(),
            st: Stats::default(),
            fns: vec![false; n],
            rng: 0x9E3779B97F4A7C15 ^ (id + 1).wrapping_mul(seed | 1),
            nseen: 0,
            samples: vec![],
            base: None,
            prof: HashMap::new(),
        })
    }
    fn initial(&mut self) -> State {
        if let Some(b) = &self.base {
            return b.clone();
        }
        let sh = self.sh.clone();
        let m = &sh.m;
        let mut mem = Mem::new();
        mem.grow((m.mem_min as usize * 65536).max(sh.heap as usize));
        for d in &m.data {
            if let Some(o) = d.active {
                for (i, &x) in d.bytes.iter().enumerate() {
                    let p = o as usize + i;
                    mem.w(p / CH).d[p % CH] = x;
                }
            }
        }
        let s = State {
            vals: Vec::with_capacity(4096),
            fr: vec![],
            mem,
            globals: m.globals.iter().map(|g| cv(g.init)).collect(),
            widths: vec![],
            los: vec![],
            pc: vec![],
            model: vec![],
            known: HashMap::new(),
            decs: vec![],
            replay: None,
            rpos: 0,
            log: vec![],
            covers: vec![],
            instrs: 0,
            brk: sh.heap,
            live: 0,
            allow_panic: false,
            dropped: vec![false; m.data.len()],
        };
        self.base = Some(s.clone());
        s
    }
    fn start(&mut self, it: Item) -> State {
        let sh = self.sh.clone();
        let mut s = self.initial();
        s.model = it.model;
        s.replay = if it.decs.is_empty() {
            None
        } else {
            Some(Rc::new(it.decs))
        };
        for &v in &sh.args {
            s.vals.push(cv(v));
        }
        self.enter(&mut s, sh.entry);
        if let Some(c) = sh.ctors {
            self.enter(&mut s, c);
        }
        s
    }
    fn enter(&mut self, s: &mut State, f: u32) {
        let fun = &self.sh.m.funcs[f as usize];
        let lb = s.vals.len() as u32 - fun.nparams;
        let n = (fun.nlocals - fun.nparams) as usize;
        let nl = s.vals.len() + n;
        s.vals.resize(nl, cv(0));
        s.fr.push(Frame {
            f,
            pc: 0,
            lb,
            sb: s.vals.len() as u32,
        });
        self.fns[f as usize] = true;
    }
    pub fn run(mut self) {
        let sh = self.sh.clone();
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let s = match self.work.pop_back() {
                Some(s) => s,
                None => {
                    match self.take() {
                        Some(it) => {
                            self.st.items += 1;
                            self.start(it)
                        }
                        None => break,
                    }
                }
            };
            self.path(s);
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
        }
        // merge
        for (i, &b) in self.fns.iter().enumerate() {
            if b {
                self.st.fns.insert(i as u32);
            }
        }
        let mut g = sh.stats.lock().unwrap();
        let s = &self.st;
        g.paths += s.paths;
        g.panics += s.panics;
        g.infeasible += s.infeasible;
        g.forks += s.forks;
        g.instrs += s.instrs;
        g.sat += self.sol.sat;
        g.unsat += self.sol.unsat;
        g.cached += self.sol.cached;
        g.checks_symbolic += s.checks_symbolic;
        g.checks_concrete += s.checks_concrete;
        g.solver_ms += self.sol.nanos as f64 / 1e6;
        g.solver_max_ms = g.solver_max_ms.max(self.sol.max_nanos as f64 / 1e6);
        g.max_inputs = g.max_inputs.max(s.max_inputs);
        g.max_path_instrs = g.max_path_instrs.max(s.max_path_instrs);
        g.concretized += s.concretized;
        g.exprs += self.a.nodes.len() as u64;
        g.items += s.items;
        for (k, v) in &s.covers {
            *g.covers.entry(*k).or_default() += v;
        }
        g.fns.extend(s.fns.iter());
        sh.samples.lock().unwrap().append(&mut self.samples);
        let mut p = sh.forks_at.lock().unwrap();
        for (k, v) in self.prof.drain() {
            *p.entry(k).or_default() += v;
        }
    }
    fn take(&mut self) -> Option<Item> {
        let sh = self.sh.clone();
        let mut was_idle = false;
        loop {
            {
                let mut q = sh.queue.lock().unwrap();
                if let Some(it) = q.pop() {
                    sh.qlen.store(q.len(), Ordering::Relaxed);
                    if was_idle {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                    }
                    return Some(it);
                }
                if !was_idle {
                    was_idle = true;
                    sh.idle.fetch_add(1, Ordering::SeqCst);
                }
                if sh.idle.load(Ordering::SeqCst) == sh.nthreads {
                    return None;
                }
            }
            if sh.stop.load(Ordering::Relaxed) {
                return None;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
    }
    fn donate(&mut self) {
        let sh = self.sh.clone();
        let idle = sh.idle.load(Ordering::Relaxed);
        if idle == 0 || self.work.len() < 2 || sh.qlen.load(Ordering::Relaxed) >= idle {
            return;
        }
        let s = self.work.pop_front().unwrap();
        let mut q = sh.queue.lock().unwrap();
        q.push(Item {
            decs: s.decs,
            model: s.model,
        });
        sh.qlen.store(q.len(), Ordering::Relaxed);
    }
    fn error(&mut self, m: String) {
        self.sh.errors.lock().unwrap().push(m);
        self.sh.stop.store(true, Ordering::SeqCst);
    }
    fn inputs(&self, s: &State, model: &[u64]) -> Vec<u64> {
        s.los
            .iter()
            .enumerate()
            .map(|(i, lo)| {
                if s.widths[i] == 0 {
                    *lo
                } else {
                    (model.get(i).copied().unwrap_or(0) & mask(s.widths[i])) + lo
                }
            })
            .collect()
    }
    fn log_values(&self, s: &State, model: &[u64]) -> Vec<u64> {
        let mut memo = HashMap::new();
        s.log
            .iter()
            .map(|v| {
                if v.s == 0 {
                    v.b
                } else {
                    self.a.eval(v.s, model, &mut memo)
                }
            })
            .collect()
    }
    fn path(&mut self, mut s: State) {
        let i0 = s.instrs;
        let r = self.exec(&mut s);
        self.st.instrs += s.instrs - i0;
        let r = match r {
            Ok(()) => unreachable!(),
            Err(e) => e,
        };
        if let Some(e) = self.sol.error.take() {
            self.error(e);
            return;
        }
        let mut panicked = false;
        match r {
            Stop::Done => {}
            Stop::Infeasible => {
                self.st.infeasible += 1;
                return;
            }
            Stop::Trap(k, _) if k == "panic" && s.allow_panic => {
                panicked = true;
                self.st.panics += 1;
            }
            Stop::Trap(k, msg) => {
                let stack = self.stack(&s);
                let v = Violation {
                    inputs: self.inputs(&s, &s.model),
                    log: self.log_values(&s, &s.model),
                    kind: k,
                    msg,
                    stack,
                };
                self.sh.violations.lock().unwrap().push(v);
                self.sh.stop.store(true, Ordering::SeqCst);
                return;
            }
            Stop::Limit(m) => {
                let st = self.stack(&s).join(" < ");
                self.error(format!("{m} [{st}]"));
                return;
            }
        }
        if Instant::now() > self.sh.deadline {
            self.error("time limit".into());
            return;
        }
        self.st.paths += 1;
        self.st.max_inputs = self.st.max_inputs.max(s.los.len());
        self.st.max_path_instrs = self.st.max_path_instrs.max(s.instrs);
        for c in &s.covers {
            *self.st.covers.entry(*c).or_default() += 1;
        }
        // reservoir sampling of passing paths
        self.nseen += 1;
        let k = self.sh.max_samples / self.sh.nthreads + 1;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.samples.len() < k {
            self.samples.len()
        } else {
            (self.rng % self.nseen) as usize
        };
        if slot < k {
            let smp = Sample {
                inputs: self.inputs(&s, &s.model),
                log: self.log_values(&s, &s.model),
                panicked,
            };
            if slot == self.samples.len() {
                self.samples.push(smp)
            } else {
                self.samples[slot] = smp
            }
        }
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.fr.iter()
            .rev()
            .take(40)
            .map(|f| self.sh.m.funcs[f.f as usize].name.clone())
            .collect()
    }
    fn simp(&mut self, s: &State, e: u32) -> u32 {
        if let Some(&v) = s.known.get(&e) {
            let w = self.a.w(e);
            return self.a.c(v, w);
        }
        if s.known.is_empty() {
            return e;
        }
        let mut memo = HashMap::new();
        self.a.subst(e, &s.known, &mut memo)
    }
    fn constrain(&mut self, s: &mut State, c: u32, add: bool) {
        match self.a.e(c) {
            E::AndB(x, y) => {
                self.constrain(s, x, add);
                self.constrain(s, y, add);
            }
            E::Const(_) => return,
            _ => {
                if add {
                    s.pc.push(c);
                }
            }
        }
        s.known.insert(c, 1);
        let n = self.a.not(c);
        s.known.insert(n, 0);
        if let E::Cmp(C::Eq, x, k) = self.a.e(c) {
            if let Some(v) = self.a.is_c(k) {
                s.known.insert(x, v);
                if let E::ZExt(y) = self.a.e(x) {
                    s.known.insert(y, v);
                }
            }
        }
        if let E::Not(o) = self.a.e(c) {
            if let E::OrB(x, y) = self.a.e(o) {
                let (x, y) = (self.a.not(x), self.a.not(y));
                self.constrain(s, x, false);
                self.constrain(s, y, false);
            }
        }
    }
    fn note_fork(&mut self, s: &State) {
        self.st.forks += 1;
        if self.sh.profile {
            let n = s
                .fr
                .iter()
                .rev()
                .take(3)
                .map(|f| self.sh.m.funcs[f.f as usize].name.as_str())
                .collect::<Vec<_>>()
                .join(" < ");
            *self.prof.entry(n).or_default() += 1;
        }
    }
    /// Decide a boolean expression on this path, forking if both outcomes are
    /// feasible. The state must be at an instruction that can be re-executed.
    fn decide(&mut self, s: &mut State, cond: u32) -> R<bool> {
        let c = self.simp(s, cond);
        if let Some(v) = self.a.is_c(c) {
            return Ok(v != 0);
        }
        let nc = self.a.not(c);
        let learn = |me: &mut Self, s: &mut State, yes: bool, forced: bool| {
            s.known.insert(cond, yes as u64);
            let n = me.a.not(cond);
            s.known.insert(n, !yes as u64);
            me.constrain(s, if yes { c } else { nc }, !forced);
            s.decs.push(Dec { v: 0, yes, forced });
        };
        if let Some(d) = self.replayed(s) {
            learn(self, s, d.yes, d.forced);
            return Ok(d.yes);
        }
        let yes = self.a.eval(c, &s.model, &mut HashMap::new()) != 0;
        let other = if yes { nc } else { c };
        match self.sol.query(&mut self.a, &s.pc, other, &s.model, &s.widths) {
            None => {
                learn(self, s, yes, true);
            }
            Some(m2) => {
                self.note_fork(s);
                let mut o = s.clone();
                o.model = m2;
                learn(self, &mut o, !yes, false);
                self.work.push_back(o);
                learn(self, s, yes, false);
                self.donate();
            }
        }
        Ok(yes)
    }
    fn replayed(&mut self, s: &mut State) -> Option<Dec> {
        let r = s.replay.as_ref()?;
        let d = r[s.rpos];
        s.rpos += 1;
        if s.rpos == r.len() {
            s.replay = None;
        }
        Some(d)
    }
    fn concretize(&mut self, s: &mut State, e: u32) -> R<u64> {
        loop {
            let x = self.simp(s, e);
            if let Some(v) = self.a.is_c(x) {
                return Ok(v);
            }
            let w = self.a.w(x);
            if w == 0 {
                return Ok(self.decide(s, x)? as u64);
            }
            let rep = self.replayed(s);
            let v = match &rep {
                Some(d) => d.v,
                None => self.a.eval(x, &s.model, &mut HashMap::new()),
            };
            let k = self.a.c(v, w);
            let eq = self.a.cmp(C::Eq, x, k);
            let ne = self.a.not(eq);
            let learn = |me: &mut Self, s: &mut State, yes: bool, forced: bool| {
                me.constrain(s, if yes { eq } else { ne }, !forced);
                if yes {
                    s.known.insert(x, v);
                    s.known.insert(e, v);
                }
                s.decs.push(Dec { v, yes, forced });
            };
            if let Some(d) = rep {
                learn(self, s, d.yes, d.forced);
                if d.yes {
                    return Ok(v);
                }
                continue;
            }
            match self.sol.query(&mut self.a, &s.pc, ne, &s.model, &s.widths) {
                None => learn(self, s, true, true),
                Some(m2) => {
                    self.note_fork(s);
                    self.st.concretized += 1;
                    let mut o = s.clone();
                    o.model = m2;
                    learn(self, &mut o, false, false);
                    self.work.push_back(o);
                    learn(self, s, true, false);
                    self.donate();
                }
            }
            return Ok(v);
        }
    }
    fn sx(&mut self, v: V, w: u8) -> u32 {
        if v.s != 0 {
            v.s
        } else {
            self.a.c(v.b, w)
        }
    }
    fn mkv(&mut self, e: u32) -> V {
        match self.a.is_c(e) {
            Some(v) => cv(v),
            None => V { b: 0, s: e },
        }
    }
    fn load(&mut self, mem: &Mem, a: usize, n: usize, w: u8, sx: bool) -> V {
        let c = &mem.c[a / CH];
        let o = a % CH;
        if o + n <= CH {
            let symb = match &c.sym {
                None => false,
                Some(s) => s[o..o + n].iter().any(|&x| x != 0),
            };
            if !symb {
                let p = &c.d[o..o + n];
                let r = match n {
                    1 => p[0] as u64,
                    2 => u16::from_le_bytes(p.try_into().unwrap()) as u64,
                    4 => u32::from_le_bytes(p.try_into().unwrap()) as u64,
                    _ => u64::from_le_bytes(p.try_into().unwrap()),
                };
                return cv(if sx {
                    sext(r, n as u8 * 8) as u64 & mask(w)
                } else {
                    r
                });
            }
        }
        let bs: Vec<(u8, u32)> = (0..n).map(|i| mem.byte(a + i)).collect();
        let e = self.assemble(&bs);
        let e = if sx {
            self.a.sext(e, w)
        } else {
            self.a.zext(e, w)
        };
        self.mkv(e)
    }
    fn assemble(&mut self, bs: &[(u8, u32)]) -> u32 {
        let n = bs.len();
        let s0 = bs[0].1;
        if s0 != 0 && s0 & 7 == 0 {
            let e = s0 >> 3;
            if self.a.w(e) as usize == n * 8
                && bs.iter().enumerate().all(|(i, b)| b.1 == s0 + i as u32)
            {
                return e;
            }
        }
        let mut acc: Option<u32> = None;
        for &(b, s) in bs {
            let x = if s == 0 {
                self.a.c(b as u64, 8)
            } else {
                self.a.extract(s >> 3, ((s & 7) * 8) as u8, 8)
            };
            acc = Some(match acc {
                None => x,
                Some(l) => self.a.concat(x, l),
            });
        }
        acc.unwrap()
    }
    fn store(&mut self, mem: &mut Mem, a: usize, n: usize, v: V) {
        if v.s == 0 {
            let o = a % CH;
            if o + n <= CH {
                let c = mem.w(a / CH);
                let b = v.b.to_le_bytes();
                c.d[o..o + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut c.sym {
                    for x in &mut s[o..o + n] {
                        *x = 0;
                    }
                }
            } else {
                for i in 0..n {
                    mem.set_byte(a + i, ((v.b >> (8 * i)) as u8, 0));
                }
            }
            return;
        }
        let e = self.a.extract(v.s, 0, n as u8 * 8);
        if let Some(k) = self.a.is_c(e) {
            return self.store(mem, a, n, cv(k));
        }
        if let E::Concat(..) | E::ZExt(..) = self.a.e(e) {
            // keep byte granularity so that concrete parts stay concrete
            for i in 0..n {
                let x = self.a.extract(e, 8 * i as u8, 8);
                match self.a.is_c(x) {
                    Some(k) => mem.set_byte(a + i, (k as u8, 0)),
                    None => mem.set_byte(a + i, (0, e << 3 | i as u32)),
                }
            }
            return;
        }
        for i in 0..n {
            mem.set_byte(a + i, (0, e << 3 | i as u32));
        }
    }
    fn str_at(&self, s: &State, p: u32, n: u32) -> String {
        String::from_utf8_lossy(&s.mem.bytes(p, n.min(200))).into_owned()
    }
    fn alloc(&mut self, s: &mut State, size: u32, align: u32) -> u32 {
        let align = align.max(8);
        // header (size, magic) directly before the block; red zones around it
        let p = (s.brk + 24 + align - 1) / align * align;
        s.brk = p + size + 8;
        s.mem.grow(s.brk as usize + 16);
        self.store(&mut s.mem, p as usize - 8, 4, cv(size as u64));
        self.store(&mut s.mem, p as usize - 4, 4, cv(0xA11C));
        s.mem.set_alive(p as usize, size as usize, true);
        s.live += 1;
        p
    }
    fn free(&mut self, s: &mut State, p: u32, size: u32) -> R<()> {
        if s.mem.u32(p.wrapping_sub(4)) != 0xA11C || s.mem.u32(p.wrapping_sub(8)) != size {
            let k = s.mem.u32(p.wrapping_sub(4)) == 0xF4EE;
            return trap(
                "memory",
                if k {
                    format!("double free of {p:#x}")
                } else {
                    format!("free of {p:#x} with a wrong size or address")
                },
            );
        }
        s.mem.set_alive(p as usize, size as usize, false);
        self.store(&mut s.mem, p as usize - 4, 4, cv(0xF4EE));
        s.live -= 1;
        Ok(())
    }
    fn copy(&mut self, s: &mut State, d: u32, src: u32, n: u32) {
        let (d, src, n) = (d as usize, src as usize, n as usize);
        let mut t = Vec::with_capacity(n);
        let mut anysym = false;
        for i in 0..n {
            let b = s.mem.byte(src + i);
            anysym |= b.1 != 0;
            t.push(b);
        }
        if anysym {
            for (i, b) in t.into_iter().enumerate() {
                s.mem.set_byte(d + i, b);
            }
        } else {
            let mut i = 0;
            while i < n {
                let p = d + i;
                let c = s.mem.w(p / CH);
                let o = p % CH;
                let k = (CH - o).min(n - i);
                for j in 0..k {
                    c.d[o + j] = t[i + j].0;
                }
                if let Some(sy) = &mut c.sym {
                    for x in &mut sy[o..o + k] {
                        *x = 0
                    }
                }
                i += k;
            }
        }
    }
    /// concretize the value `k` entries below the top of the stack
    fn conc_at(&mut self, s: &mut State, k: usize) -> R<u64> {
        let i = s.vals.len() - 1 - k;
        let v = s.vals[i];
        if v.s == 0 {
            return Ok(v.b);
        }
        let x = self.concretize(s, v.s)?;
        s.vals[i] = cv(x);
        Ok(x)
    }
    fn host(&mut self, s: &mut State, h: Host, f: u32) -> R<()> {
        macro_rules! arg { ($k:expr) => { self.conc_at(s, $k)? as u32 } }
        match h {
            Host::None => unreachable!(),
            Host::Fresh => {
                let hi = arg!(0) as u64;
                let lo = arg!(1) as u64;
                s.vals.truncate(s.vals.len() - 2);
                let n = hi - lo;
                let w = (64 - n.leading_zeros()) as u8;
                let idx = s.los.len() as u32;
                s.los.push(lo);
                s.widths.push(w);
                while s.model.len() <= idx as usize {
                    s.model.push(0);
                }
                if w == 0 {
                    s.vals.push(cv(lo));
                    return Ok(());
                }
                if idx >= 128 {
                    return Err(Stop::Limit("more than 128 symbolic inputs".into()));
                }
                let v = self.a.var(idx, w);
                if n != mask(w) {
                    let k = self.a.c(n, w);
                    let c = self.a.cmp(C::Ule, v, k);
                    s.pc.push(c);
                    if s.model[idx as usize] > n {
                        s.model[idx as usize] = 0;
                    }
                } else {
                    s.model[idx as usize] &= mask(w);
                }
                let z = self.a.zext(v, 32);
                let l = self.a.c(lo, 32);
                let e = self.a.bin(B::Add, z, l);
                let v = self.mkv(e);
                s.vals.push(v);
            }
            Host::Assume => {
                let v = *s.vals.last().unwrap();
                self.assume(s, v)?;
                s.vals.pop();
            }
            Host::Check => {
                let (n, p) = (arg!(0), arg!(1));
                let v = s.vals[s.vals.len() - 3];
                if self.not_ours(s, p, n) {
                    // an assertion of another property: only go on where it holds
                    self.assume(s, v)?;
                    s.vals.truncate(s.vals.len() - 3);
                    return Ok(());
                }
                if v.s == 0 {
                    self.st.checks_concrete += 1;
                    if v.b == 0 {
                        return trap("check", self.str_at(s, p, n));
                    }
                } else {
                    let c = self.a.nonzero(v.s);
                    let c = self.simp(s, c);
                    match self.a.is_c(c) {
                        Some(0) => return trap("check", self.str_at(s, p, n)),
                        Some(_) => self.st.checks_concrete += 1,
                        None => {
                            if s.replay.is_none() {
                                self.st.checks_symbolic += 1;
                                let nc = self.a.not(c);
                                if let Some(m) =
                                    self.sol.query(&mut self.a, &s.pc, nc, &s.model, &s.widths)
                                {
                                    s.model = m;
                                    return trap("check", self.str_at(s, p, n));
                                }
                            }
                            self.constrain(s, c, false);
                        }
                    }
                }
                s.vals.truncate(s.vals.len() - 3);
            }
            Host::Cover => {
                let k = arg!(0);
                if !s.covers.contains(&k) {
                    s.covers.push(k);
                }
                s.vals.pop();
            }
            Host::Trace => {
                let v = s.vals.pop().unwrap();
                s.log.push(v);
            }
            Host::Concretize => {
                arg!(0);
            }
            Host::Alloc => {
                let (al, n) = (arg!(0), arg!(1));
                s.vals.truncate(s.vals.len() - 2);
                if n > 1 << 24 {
                    return Err(Stop::Limit(format!("allocation of {n} bytes")));
                }
                let p = self.alloc(s, n, al);
                s.vals.push(cv(p as u64));
            }
            Host::Free => {
                let (n, p) = (arg!(1), arg!(2));
                self.free(s, p, n)?;
                s.vals.truncate(s.vals.len() - 3);
            }
            Host::Realloc => {
                let (nn, al, old, p) = (arg!(0), arg!(1), arg!(2), arg!(3));
                if nn > 1 << 24 {
                    return Err(Stop::Limit(format!("allocation of {nn} bytes")));
                }
                let q = self.alloc(s, nn, al);
                self.copy(s, q, p, old.min(nn));
                self.free(s, p, old)?;
                s.vals.truncate(s.vals.len() - 4);
                s.vals.push(cv(q as u64));
            }
            Host::AllowPanic => {
                s.allow_panic = arg!(0) != 0;
                s.vals.pop();
            }
            Host::Live => s.vals.push(cv(s.live as u64)),
            Host::End => return Err(Stop::Done),
            Host::Fail => {
                let (n, p) = (arg!(0), arg!(1));
                if self.not_ours(s, p, n) {
                    return Err(Stop::Infeasible);
                }
                return trap("check", self.str_at(s, p, n));
            }
            Host::Panic => {
                let name = self.sh.m.funcs[f as usize].name.clone();
                let mut loc = String::new();
                let np = self.sh.m.funcs[f as usize].nparams as usize;
                if name.ends_with("_fmt") && np >= 2 {
                    // the last argument, or the one before a boolean flag
                    for k in 0..2 {
                        let v = s.vals[s.vals.len() - 1 - k];
                        if v.s == 0 && v.b > 1024 {
                            let l = v.b as u32;
                            let (fp, fl, ln) = (s.mem.u32(l), s.mem.u32(l + 4), s.mem.u32(l + 8));
                            if fl < 400 {
                                let n = self.str_at(s, fp, fl);
                                if n.contains(".rs") {
                                    loc = format!("{}:{ln}", n.trim_end_matches('\0'));
                                    break;
                                }
                            }
                        }
                    }
                }
                return trap("panic", format!("panic at {loc}"));
            }
        }
        Ok(())
    }
    fn assume(&mut self, s: &mut State, v: V) -> R<()> {
                if v.s != 0 {
                    let c = self.a.nonzero(v.s);
                    let c = self.simp(s, c);
                    match self.a.is_c(c) {
                        Some(0) => return Err(Stop::Infeasible),
                        Some(_) => {}
                        None => {
                            if s.replay.is_none()
                                && self.a.eval(c, &s.model, &mut HashMap::new()) == 0
                            {
                                match self.sol.query(&mut self.a, &s.pc, c, &s.model, &s.widths) {
                                    Some(m) => s.model = m,
                                    None => return Err(Stop::Infeasible),
                                }
                            }
                            self.constrain(s, c, true);
                        }
                    }
                } else if v.b == 0 {
                    return Err(Stop::Infeasible);
                }
        Ok(())
    }
    /// Is this assertion one of another property than the one being checked?
    fn not_ours(&self, s: &State, p: u32, n: u32) -> bool {
        let Some(only) = &self.sh.only else { return false };
        let m = self.str_at(s, p, n);
        match m.strip_prefix('[').and_then(|m| m.split_once(']')) {
            Some((tags, _)) => !tags.split(' ').any(|t| t == only),
            None => false,
        }
    }
    fn call(&mut self, s: &mut State, f: u32) -> R<bool> {
        let h = self.hosts[f as usize];
        if h != Host::None {
            self.host(s, h, f)?;
            return Ok(false);
        }
        if s.fr.len() > 2000 {
            return trap("stack", "call stack of more than 2000 frames (unbounded recursion)".into());
        }
        self.enter(s, f);
        Ok(true)
    }
    fn exec(&mut self, s: &mut State) -> R<()> {
        let sh = self.sh.clone();
        let m = &sh.m;
        let heap = sh.heap;
        'frame: loop {
            let fi = match s.fr.last() {
                Some(f) => *f,
                None => return Err(Stop::Done),
            };
            let fun = &m.funcs[fi.f as usize];
            let code = &fun.code[..];
            let mut pc = fi.pc as usize;
            let lb = fi.lb as usize;
            let sb = fi.sb as usize;
            if s.instrs > sh.max_instrs {
                return trap("hang", "one path runs for more instructions than the limit".into());
            }
            macro_rules! sync { () => { s.fr.last_mut().unwrap().pc = pc as u32; } }
            macro_rules! pop { () => { s.vals.pop().unwrap() } }
            macro_rules! push { ($e:expr) => { { let x = $e; s.vals.push(x) } } }
            macro_rules! jump { ($pc:expr, $k:expr, $h:expr) => { {
                let (k, h) = ($k as usize, sb + $h as usize);
                let n = s.vals.len();
                if n - k != h {
                    for i in 0..k { s.vals[h + i] = s.vals[n - k + i]; }
                    s.vals.truncate(h + k);
                }
                let t = $pc as usize;
                if t <= pc {
                    if s.instrs > sh.max_instrs { sync!(); return trap("hang", "one path runs for more instructions than the limit".into()); }
                    if s.instrs & 0xffff == 0 && (sh.stop.load(Ordering::Relaxed) || Instant::now() > sh.deadline) { sync!(); return Err(Stop::Limit("time limit".into())); }
                }
                pc = t;
                continue;
            } } }
            macro_rules! addr { ($k:expr, $off:expr, $n:expr) => { {
                let i = s.vals.len() - 1 - $k;
                let a = if s.vals[i].s == 0 { s.vals[i].b } else { sync!(); self.conc_at(s, $k)? };
                let a = a + $off as u64;
                if let Err(e) = s.mem.check(heap, a, $n) { sync!(); return Err(e); }
                a as usize
            } } }
            loop {
                s.instrs += 1;
                match code[pc] {
                    Op::Nop => {}
                    Op::Get(i) => push!(s.vals[lb + i as usize]),
                    Op::GetGet(i, j) => {
                        push!(s.vals[lb + i as usize]);
                        push!(s.vals[lb + j as usize]);
                        pc += 2;
                        continue;
                    }
                    Op::GetConstBin(i, o, w, k) => {
                        let x = s.vals[lb + i as usize];
                        if x.s == 0 {
                            push!(cv(eval_bin(o, x.b, k as u64, w)));
                        } else {
                            let k = self.a.c(k as u64, w);
                            let e = self.a.bin(o, x.s, k);
                            push!(self.mkv(e));
                        }
                        pc += 3;
                        continue;
                    }
                    Op::GetLoad { l, n, w, s: sx, off } => {
                        let x = s.vals[lb + l as usize];
                        if x.s != 0 {
                            push!(x);
                            let y;
                            {
                                sync!();
                                // leave the pushed value out of a forked state
                                s.vals.pop();
                                y = self.concretize(s, x.s)?;
                                push!(cv(y));
                            }
                        } else {
                            push!(x);
                        }
                        let a = addr!(0, off, n as usize);
                        s.vals.pop();
                        let v = self.load(&s.mem, a, n as usize, w, sx);
                        push!(v);
                        pc += 2;
                        continue;
                    }
                    Op::Set(i) => {
                        let v = pop!();
                        s.vals[lb + i as usize] = v;
                    }
                    Op::Tee(i) => s.vals[lb + i as usize] = *s.vals.last().unwrap(),
                    Op::Const(k) => push!(cv(k)),
                    Op::Bin(o, w) => {
                        let n = s.vals.len();
                        let (x, y) = (s.vals[n - 2], s.vals[n - 1]);
                        let shift =
                            matches!(o, B::Shl | B::LShr | B::AShr | B::Rotl | B::Rotr);
                        let div = matches!(o, B::UDiv | B::SDiv | B::URem | B::SRem);
                        if x.s == 0 && y.s == 0 {
                            if div {
                                if y.b == 0 {
                                    sync!();
                                    return trap("trap", "division by zero".into());
                                }
                                if o == B::SDiv
                                    && y.b == mask(w)
                                    && x.b == 1u64 << (w - 1)
                                {
                                    sync!();
                                    return trap("trap", "division overflow".into());
                                }
                            }
                            let yb = if shift { y.b % w as u64 } else { y.b };
                            s.vals.truncate(n - 1);
                            s.vals[n - 2] = cv(eval_bin(o, x.b, yb, w));
                        } else {
                            let (ex, mut ey) = (self.sx(x, w), self.sx(y, w));
                            if div {
                                let z = self.a.c(0, w);
                                let c = self.a.cmp(C::Eq, ey, z);
                                sync!();
                                if self.decide(s, c)? {
                                    return trap("trap", "division by zero".into());
                                }
                                if o == B::SDiv {
                                    let (k1, k2) =
                                        (self.a.c(mask(w), w), self.a.c(1 << (w - 1), w));
                                    let c1 = self.a.cmp(C::Eq, ey, k1);
                                    let c2 = self.a.cmp(C::Eq, ex, k2);
                                    let c = self.a.andb(c1, c2);
                                    if self.decide(s, c)? {
                                        return trap("trap", "division overflow".into());
                                    }
                                }
                            }
                            if shift {
                                let k = self.a.c(w as u64 - 1, w);
                                ey = self.a.bin(B::And, ey, k);
                            }
                            let e = self.a.bin(o, ex, ey);
                            s.vals.truncate(n - 1);
                            s.vals[n - 2] = self.mkv(e);
                        }
                    }
                    Op::Cmp(c, w, swap, neg) => {
                        let n = s.vals.len();
                        let (mut x, mut y) = (s.vals[n - 2], s.vals[n - 1]);
                        if swap {
                            std::mem::swap(&mut x, &mut y);
                        }
                        s.vals.truncate(n - 1);
                        s.vals[n - 2] = if x.s == 0 && y.s == 0 {
                            cv((eval_cmp(c, x.b, y.b, w) != neg) as u64)
                        } else {
                            let (x, y) = (self.sx(x, w), self.sx(y, w));
                            let mut e = self.a.cmp(c, x, y);
                            if neg {
                                e = self.a.not(e);
                            }
                            let e = self.a.b2i(e, 32);
                            self.mkv(e)
                        };
                    }
                    Op::Eqz(w) => {
                        let x = pop!();
                        if x.s == 0 {
                            push!(cv((x.b == 0) as u64));
                        } else {
                            let z = self.a.c(0, w);
                            let e = self.a.cmp(C::Eq, x.s, z);
                            let e = self.a.b2i(e, 32);
                            push!(self.mkv(e));
                        }
                    }
                    Op::BrIf { pc: t, keep, h } => {
                        let c = *s.vals.last().unwrap();
                        let taken = if c.s == 0 {
                            c.b != 0
                        } else {
                            let e = self.a.nonzero(c.s);
                            sync!();
                            self.decide(s, e)?
                        };
                        s.vals.pop();
                        if taken {
                            jump!(t, keep, h);
                        }
                    }
                    Op::BrZ { pc: t } => {
                        let c = *s.vals.last().unwrap();
                        let taken = if c.s == 0 {
                            c.b != 0
                        } else {
                            let e = self.a.nonzero(c.s);
                            sync!();
                            self.decide(s, e)?
                        };
                        s.vals.pop();
                        if !taken {
                            pc = t as usize;
                            continue;
                        }
                    }
                    Op::Br { pc: t, keep, h } => jump!(t, keep, h),
                    Op::BrTable { t } => {
                        sync!();
                        let tb = &fun.tables[t as usize];
                        let v = *s.vals.last().unwrap();
                        let k = if v.s == 0 {
                            v.b as usize
                        } else {
                            // one decision per distinct target
                            let mut r = tb.len() - 1;
                            for i in 0..tb.len() - 1 {
                                let kc = self.a.c(i as u64, 32);
                                let c = self.a.cmp(C::Eq, v.s, kc);
                                if self.decide(s, c)? {
                                    r = i;
                                    break;
                                }
                            }
                            r
                        };
                        let (p, kp, h) = tb[k.min(tb.len() - 1)];
                        s.vals.pop();
                        jump!(p, kp, h);
                    }
                    Op::Return => {
                        let k = fun.nresults as usize;
                        let n = s.vals.len();
                        for i in 0..k {
                            s.vals[lb + i] = s.vals[n - k + i];
                        }
                        s.vals.truncate(lb + k);
                        s.fr.pop();
                        continue 'frame;
                    }
                    Op::Call(f) => {
                        sync!();
                        let entered = self.call(s, f)?;
                        if entered {
                            let n = s.fr.len();
                            s.fr[n - 2].pc = pc as u32 + 1;
                            continue 'frame;
                        }
                    }
                    Op::CallInd { ty } => {
                        sync!();
                        let i = self.conc_at(s, 0)? as usize;
                        let f = match m.table.get(i) {
                            Some(Some(f)) => *f,
                            _ => return trap("trap", "call through a null or invalid function pointer".into()),
                        };
                        if m.types[m.funcs[f as usize].ty as usize] != m.types[ty as usize] {
                            return trap("trap", "indirect call type mismatch".into());
                        }
                        let top = pop!();
                        let entered = match self.call(s, f) {
                            Ok(e) => e,
                            Err(e) => {
                                s.vals.push(top);
                                return Err(e);
                            }
                        };
                        if entered {
                            let n = s.fr.len();
                            s.fr[n - 2].pc = pc as u32 + 1;
                            continue 'frame;
                        }
                    }
                    Op::Drop => {
                        s.vals.pop();
                    }
                    Op::Select(w) => {
                        let n = s.vals.len();
                        let (x, y, c) = (s.vals[n - 3], s.vals[n - 2], s.vals[n - 1]);
                        let r = if c.s == 0 {
                            if c.b != 0 {
                                x
                            } else {
                                y
                            }
                        } else {
                            let e = self.a.nonzero(c.s);
                            let e = self.simp(s, e);
                            match self.a.is_c(e) {
                                Some(v) => {
                                    if v != 0 {
                                        x
                                    } else {
                                        y
                                    }
                                }
                                None => {
                                    let (p, q) = (self.sx(x, w), self.sx(y, w));
                                    let e = self.a.ite(e, p, q);
                                    self.mkv(e)
                                }
                            }
                        };
                        s.vals.truncate(n - 2);
                        s.vals[n - 3] = r;
                    }
                    Op::GGet(i) => push!(s.globals[i as usize]),
                    Op::GSet(i) => {
                        let v = pop!();
                        s.globals[i as usize] = v;
                    }
                    Op::Load { n, w, s: sx, off } => {
                        let a = addr!(0, off, n as usize);
                        let v = self.load(&s.mem, a, n as usize, w, sx);
                        *s.vals.last_mut().unwrap() = v;
                    }
                    Op::Store { n, off } => {
                        let a = addr!(1, off, n as usize);
                        let v = pop!();
                        pop!();
                        self.store(&mut s.mem, a, n as usize, v);
                    }
                    Op::MemSize => push!(cv((s.mem.c.len() * CH / 65536) as u64)),
                    Op::MemGrow => {
                        sync!();
                        return Err(Stop::Limit("memory.grow (the harness must use the nd allocator)".into()));
                    }
                    Op::MemCopy => {
                        sync!();
                        let n = self.conc_at(s, 0)? as u32;
                        let a = self.conc_at(s, 1)? as u32;
                        let d = self.conc_at(s, 2)? as u32;
                        s.mem.check(heap, a as u64, n as usize)?;
                        s.mem.check(heap, d as u64, n as usize)?;
                        self.copy(s, d, a, n);
                        s.vals.truncate(s.vals.len() - 3);
                    }
                    Op::MemFill => {
                        sync!();
                        let n = self.conc_at(s, 0)? as usize;
                        let v = self.conc_at(s, 1)? as u8;
                        let d = self.conc_at(s, 2)? as usize;
                        s.mem.check(heap, d as u64, n)?;
                        for i in 0..n {
                            s.mem.set_byte(d + i, (v, 0));
                        }
                        s.vals.truncate(s.vals.len() - 3);
                    }
                    Op::MemInit(k) => {
                        sync!();
                        let n = self.conc_at(s, 0)? as usize;
                        let a = self.conc_at(s, 1)? as usize;
                        let d = self.conc_at(s, 2)? as usize;
                        s.mem.check(heap, d as u64, n)?;
                        let src = &m.data[k as usize].bytes;
                        if a + n > src.len() {
                            return trap("memory", "memory.init out of bounds".into());
                        }
                        for i in 0..n {
                            s.mem.set_byte(d + i, (src[a + i], 0));
                        }
                        s.vals.truncate(s.vals.len() - 3);
                    }
                    Op::DataDrop(k) => s.dropped[k as usize] = true,
                    Op::Wrap => {
                        let v = pop!();
                        if v.s == 0 {
                            push!(cv(v.b as u32 as u64));
                        } else {
                            let e = self.a.extract(v.s, 0, 32);
                            push!(self.mkv(e));
                        }
                    }
                    Op::ExtU => {
                        let v = pop!();
                        if v.s == 0 {
                            push!(v);
                        } else {
                            let e = self.a.zext(v.s, 64);
                            push!(self.mkv(e));
                        }
                    }
                    Op::ExtS(f, w) => {
                        let v = pop!();
                        let f = if f == 132 { 32 } else { f };
                        if v.s == 0 {
                            push!(cv(sext(v.b & mask(f), f) as u64 & mask(w)));
                        } else {
                            let e = self.a.extract(v.s, 0, f);
                            let e = self.a.sext(e, w);
                            push!(self.mkv(e));
                        }
                    }
                    Op::Clz(w) | Op::Ctz(w) | Op::Popcnt(w) => {
                        let op = code[pc];
                        let v = *s.vals.last().unwrap();
                        if v.s == 0 {
                            s.vals.pop();
                            let b = v.b;
                            push!(cv(match op {
                                Op::Clz(_) => b.leading_zeros() as u64 - (64 - w as u64),
                                Op::Ctz(_) => (b.trailing_zeros() as u64).min(w as u64),
                                _ => b.count_ones() as u64,
                            }));
                        } else {
                            s.vals.pop();
                            let mut r = match op {
                                Op::Popcnt(_) => self.a.c(0, w),
                                _ => self.a.c(w as u64, w),
                            };
                            for k in 0..w {
                                let bitpos = match op {
                                    Op::Clz(_) => k,
                                    Op::Ctz(_) => w - 1 - k,
                                    _ => k,
                                };
                                let bit = self.a.extract(v.s, bitpos, 1);
                                let one = self.a.c(1, 1);
                                let c = self.a.cmp(C::Eq, bit, one);
                                r = match op {
                                    Op::Popcnt(_) => {
                                        let z = self.a.zext(bit, w);
                                        self.a.bin(B::Add, r, z)
                                    }
                                    Op::Clz(_) => {
                                        let kk = self.a.c((w - 1 - k) as u64, w);
                                        self.a.ite(c, kk, r)
                                    }
                                    _ => {
                                        let kk = self.a.c(bitpos as u64, w);
                                        self.a.ite(c, kk, r)
                                    }
                                };
                            }
                            push!(self.mkv(r));
                        }
                    }
                    Op::F1(o) => {
                        sync!();
                        let v = self.conc_at(s, 0)?;
                        s.vals.pop();
                        push!(cv(f1(o, v)));
                    }
                    Op::F2(o) => {
                        sync!();
                        let y = self.conc_at(s, 0)?;
                        let x = self.conc_at(s, 1)?;
                        s.vals.truncate(s.vals.len() - 2);
                        push!(cv(f2(o, x, y)));
                    }
                    Op::FTrunc(o) => {
                        sync!();
                        let v = self.conc_at(s, 0)?;
                        match ftrunc(o, v) {
                            Some(r) => {
                                s.vals.pop();
                                push!(cv(r));
                            }
                            None => return trap("trap", "invalid float to int conversion".into()),
                        }
                    }
                    Op::Reinterp => {}
                    Op::RefNull => push!(cv(u32::MAX as u64)),
                    Op::Unreachable => {
                        sync!();
                        return trap("trap", "unreachable".into());
                    }
                }
                pc += 1;
            }
        }
    }
}
fn f1(o: u8, v: u64) -> u64 {
    let a = f32::from_bits(v as u32);
    let d = f64::from_bits(v);
    let r32 = |x: f32| x.to_bits() as u64;
    let r64 = |x: f64| x.to_bits();
    fn near32(x: f32) -> f32 {
        x.round_ties_even()
    }
    match o {
        0x8b => r32(a.abs()),
        0x8c => r32(-a),
        0x8d => r32(a.ceil()),
        0x8e => r32(a.floor()),
        0x8f => r32(a.trunc()),
        0x90 => r32(near32(a)),
        0x91 => r32(a.sqrt()),
        0x99 => r64(d.abs()),
        0x9a => r64(-d),
        0x9b => r64(d.ceil()),
        0x9c => r64(d.floor()),
        0x9d => r64(d.trunc()),
        0x9e => r64(d.round_ties_even()),
        0x9f => r64(d.sqrt()),
        0xb2 => r32(v as u32 as i32 as f32),
        0xb3 => r32(v as u32 as f32),
        0xb4 => r32(v as i64 as f32),
        0xb5 => r32(v as f32),
        0xb6 => r32(d as f32),
        0xb7 => r64(v as u32 as i32 as f64),
        0xb8 => r64(v as u32 as f64),
        0xb9 => r64(v as i64 as f64),
        0xba => r64(v as f64),
        0xbb => r64(a as f64),
        _ => unreachable!(),
    }
}
fn f2(o: u8, x: u64, y: u64) -> u64 {
    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
    let (c, d) = (f64::from_bits(x), f64::from_bits(y));
    let r32 = |x: f32| x.to_bits() as u64;
    let r64 = |x: f64| x.to_bits();
    match o {
        0x5b => (a == b) as u64,
        0x5c => (a != b) as u64,
        0x5d => (a < b) as u64,
        0x5e => (a > b) as u64,
        0x5f => (a <= b) as u64,
        0x60 => (a >= b) as u64,
        0x61 => (c == d) as u64,
        0x62 => (c != d) as u64,
        0x63 => (c < d) as u64,
        0x64 => (c > d) as u64,
        0x65 => (c <= d) as u64,
        0x66 => (c >= d) as u64,
        0x92 => r32(a + b),
        0x93 => r32(a - b),
        0x94 => r32(a * b),
        0x95 => r32(a / b),
        0x96 => r32(if a.is_nan() || b.is_nan() { f32::NAN } else { a.min(b) }),
        0x97 => r32(if a.is_nan() || b.is_nan() { f32::NAN } else { a.max(b) }),
        0x98 => r32(a.copysign(b)),
        0xa0 => r64(c + d),
        0xa1 => r64(c - d),
        0xa2 => r64(c * d),
        0xa3 => r64(c / d),
        0xa4 => r64(if c.is_nan() || d.is_nan() { f64::NAN } else { c.min(d) }),
        0xa5 => r64(if c.is_nan() || d.is_nan() { f64::NAN } else { c.max(d) }),
        0xa6 => r64(c.copysign(d)),
        _ => unreachable!(),
    }
}
fn ftrunc(o: u8, v: u64) -> Option<u64> {
    let a = f32::from_bits(v as u32) as f64;
    let d = f64::from_bits(v);
    let ck = |x: f64, lo: f64, hi: f64| {
        if x.is_nan() || x.trunc() < lo || x.trunc() > hi {
            None
        } else {
            Some(x.trunc())
        }
    };
    Some(match o {
        // saturating
        0 => a as i32 as u32 as u64,
        1 => a as u32 as u64,
        2 => d as i32 as u32 as u64,
        3 => d as u32 as u64,
        4 => a as i64 as u64,
        5 => a as u64,
        6 => d as i64 as u64,
        7 => d as u64,
        0xa8 => ck(a, i32::MIN as f64, i32::MAX as f64)? as i32 as u32 as u64,
        0xa9 => ck(a, 0.0, u32::MAX as f64)? as u32 as u64,
        0xaa => ck(d, i32::MIN as f64, i32::MAX as f64)? as i32 as u32 as u64,
        0xab => ck(d, 0.0, u32::MAX as f64)? as u32 as u64,
        0xae => ck(a, i64::MIN as f64, 9223372036854774784.0)? as i64 as u64,
        0xaf => ck(a, 0.0, 18446744073709549568.0)? as u64,
        0xb0 => ck(d, i64::MIN as f64, 9223372036854774784.0)? as i64 as u64,
        0xb1 => ck(d, 0.0, 18446744073709549568.0)? as u64,
        _ => unreachable!(),
    })
}
