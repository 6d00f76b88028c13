//! Symbolic executor for the parsed LLVM program.
use crate::expr::*;
use crate::ext::*;
use crate::ir::*;
use crate::jstr;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub block: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
}
#[derive(Clone)]
pub struct Report {
    pub tag: String,
    pub bytes: Vec<(u8, E)>,
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub cons: Vec<E>,
    /// per byte variable: values not excluded by the single-variable constraints
    pub dom: Vec<[u64; 4]>,
    pub model: Vec<u8>,
    pub steps: u64,
    pub reports: Vec<Rc<Report>>,
    pub covers: Vec<u32>,
    pub fs: Rc<Fs>,
    pub exiting: bool,
}
pub enum Stop {
    Kill,
    Done,
    Err(String),
    Viol(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Cfg {
    pub max_steps: u64,
    pub max_viol: u32,
    pub samples: usize,
    pub seed: u64,
    pub dump: usize,
    pub verbose: bool,
    /// stop everything once this many violations were recorded (0: never)
    pub stop_after: u64,
    pub found: Arc<std::sync::atomic::AtomicU64>,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { max_steps: 30_000_000, max_viol: 3, samples: 4, seed: 1, dump: 0, verbose: false, stop_after: 0, found: Default::default() }
    }
}

pub struct Prog {
    pub m: Module,
    pub ext: Vec<Ext>,
    pub lua: Vec<bool>, // function belongs to the code under test
}
impl Prog {
    pub fn new(m: Module) -> Prog {
        let ext = m.funcs.iter().map(|f| classify(f)).collect();
        let lua = m.funcs.iter().map(|f| f.name.contains("luafmt") && !f.is_decl).collect();
        Prog { m, ext, lua }
    }
}

pub struct Violation {
    pub msg: String,
    pub job: u32,
    pub vals: Vec<u8>,
    pub reports: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub job: u32,
    pub vals: Vec<u8>,
    pub reports: Vec<(String, Vec<u8>)>,
}
#[derive(Default)]
pub struct Stats {
    pub njobs: u64,
    pub jobs_skipped: u64,
    pub jobs_truncated: u64,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub assert_queries: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub branch_sym: u64,
    pub solver_s: f64,
    pub unknown: u64,
    pub max_vars: u64,
    pub dropped_states: u64,
    pub errors: Vec<(String, u64)>,
    pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: HashMap<u32, Vec<bool>>,
    pub jobs: Vec<(u32, u64, u64, f64, bool)>,
    pub dump: Vec<(String, bool)>,
    pub paths_sym: u64,
}
impl Stats {
    pub fn err(&mut self, e: String) {
        for x in self.errors.iter_mut() {
            if x.0 == e {
                x.1 += 1;
                return;
            }
        }
        self.errors.push((e, 1));
    }
    pub fn merge(&mut self, o: Stats) {
        self.jobs_skipped += o.jobs_skipped;
        self.jobs_truncated += o.jobs_truncated;
        self.paths += o.paths;
        self.paths_sym += o.paths_sym;
        self.killed += o.killed;
        self.forks += o.forks;
        self.instrs += o.instrs;
        self.asserts += o.asserts;
        self.asserts_symbolic += o.asserts_symbolic;
        self.assert_queries += o.assert_queries;
        self.queries += o.queries;
        self.cache_hits += o.cache_hits;
        self.branch_sym += o.branch_sym;
        self.solver_s += o.solver_s;
        self.unknown += o.unknown;
        self.max_vars = self.max_vars.max(o.max_vars);
        self.dropped_states += o.dropped_states;
        for (e, n) in o.errors {
            for _ in 0..n {
                self.err(e.clone());
            }
        }
        self.viols.extend(o.viols);
        self.samples.extend(o.samples);
        for (k, v) in o.covers {
            *self.covers.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.funcs {
            let e = self.funcs.entry(k).or_insert_with(|| vec![false; v.len()]);
            for (i, b) in v.iter().enumerate() {
                e[i] |= *b;
            }
        }
        self.jobs.extend(o.jobs);
        self.dump.extend(o.dump);
    }
    pub fn brief(&self, wall: f64) -> String {
        format!(
            "wall {:.1}s jobs {} (skipped {}, truncated {}) paths {} (symbolic {}) killed {} forks {} instrs {:.1}M asserts {} (sym {}, queries {}) solver queries {} ({:.1}s) cache hits {} sym branches {} unknown {} dropped {} violations {} errors {:?}",
            wall, self.njobs, self.jobs_skipped, self.jobs_truncated, self.paths, self.paths_sym, self.killed, self.forks, self.instrs as f64 / 1e6, self.asserts, self.asserts_symbolic, self.assert_queries, self.queries, self.solver_s, self.cache_hits, self.branch_sym, self.unknown, self.dropped_states, self.viols.len(), self.errors
        )
    }
    pub fn json(&self, p: &Prog, wall: f64) -> String {
        fn hex(b: &[u8]) -> String {
            b.iter().map(|x| format!("{:02x}", x)).collect()
        }
        fn reps(r: &[(String, Vec<u8>)]) -> String {
            let v: Vec<String> = r.iter().map(|(t, b)| format!("[{},{}]", jstr(t), jstr(&hex(b)))).collect();
            format!("[{}]", v.join(","))
        }
        let viols: Vec<String> = self
            .viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"msg\":{},\"job\":{},\"vals\":\"{}\",\"reports\":{},\"stack\":[{}]}}",
                    jstr(&v.msg),
                    v.job,
                    hex(&v.vals),
                    reps(&v.reports),
                    v.stack.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let samples: Vec<String> = self.samples.iter().map(|v| format!("{{\"job\":{},\"vals\":\"{}\",\"reports\":{}}}", v.job, hex(&v.vals), reps(&v.reports))).collect();
        let mut fl: Vec<(String, usize, usize)> = self
            .funcs
            .iter()
            .filter(|(f, _)| p.lua[**f as usize])
            .map(|(f, b)| (p.m.funcs[*f as usize].name.clone(), b.iter().filter(|x| **x).count(), b.len()))
            .collect();
        fl.sort();
        let nfall = self.funcs.len();
        let funcs: Vec<String> = fl.iter().map(|(n, a, b)| format!("[{},{},{}]", jstr(n), a, b)).collect();
        let errs: Vec<String> = self.errors.iter().map(|(e, n)| format!("[{},{}]", jstr(e), n)).collect();
        let cov: Vec<String> = self.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let inc: Vec<String> = self.jobs.iter().filter(|j| !j.4).map(|j| j.0.to_string()).collect();
        let mut slow = self.jobs.clone();
        slow.sort_by(|a, b| b.3.partial_cmp(&a.3).unwrap());
        let slow: Vec<String> = slow.iter().take(8).map(|j| format!("[{},{},{},{:.2}]", j.0, j.1, j.2, j.3)).collect();
        let dump: Vec<String> = self.dump.iter().map(|(q, s)| format!("[{},{}]", jstr(q), s)).collect();
        format!(
            "{{\"wall_s\":{:.3},\"jobs\":{},\"jobs_skipped\":{},\"jobs_truncated\":{},\"incomplete_jobs\":[{}],\"slow_jobs\":[{}],\"paths\":{},\"paths_symbolic\":{},\"killed\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"asserts_symbolic\":{},\"assert_queries\":{},\"solver_queries\":{},\"cache_hits\":{},\"sym_branches\":{},\"solver_s\":{:.3},\"unknown\":{},\"max_vars\":{},\"dropped_states\":{},\"functions_total\":{},\"functions\":[{}],\"errors\":[{}],\"covers\":{{{}}},\"violations\":[{}],\"samples\":[{}],\"queries_dump\":[{}]}}",
            wall, self.njobs, self.jobs_skipped, self.jobs_truncated, inc.join(","), slow.join(","), self.paths, self.paths_sym, self.killed, self.forks, self.instrs, self.asserts, self.asserts_symbolic, self.assert_queries, self.queries, self.cache_hits, self.branch_sym, self.solver_s, self.unknown, self.max_vars, self.dropped_states, nfall, funcs.join(","), errs.join(","), cov.join(","), viols.join(","), samples.join(","), dump.join(",")
        )
    }
}

pub struct Worker {
    pub p: Arc<Prog>,
    pub cfg: Cfg,
    pub pool: Pool,
    pub z: Z3,
    pub cache: HashMap<Vec<E>, Option<Rc<Vec<u8>>>>,
    pub stats: Stats,
    pub work: Vec<State>,
    pub base: Mem,
    pub job: u32,
    pub job_complete: bool,
    pub job_viol: HashMap<String, u32>,
    pub rng: u64,
    pub seen_samples: u64,
    pub errno: u32,
    pub regpool: Vec<Vec<Val>>,
}

#[inline]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn s64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl Worker {
    pub fn new(p: Arc<Prog>, cfg: Cfg) -> Worker {
        let mut mem = Mem::new();
        for g in &p.m.globals {
            let sz = if g.init.is_some() || g.ty != Ty::Void { g.ty.alloc_size() } else { 8 };
            mem.alloc(sz, if g.constant { Kind::Const } else { Kind::Global });
        }
        fn put(m: &Module, data: &mut [u8], off: usize, ty: &Ty, c: &C, syms: &HashMap<&str, u64>) {
            match c {
                C::Zero => {}
                C::Int(v) => {
                    let n = ty.size() as usize;
                    let b = v.to_le_bytes();
                    for i in 0..n.min(16) {
                        data[off + i] = b[i];
                    }
                }
                C::Str(s) => data[off..off + s.len()].copy_from_slice(s),
                C::Agg(v) => {
                    for (i, (t, c)) in v.iter().enumerate() {
                        let (o, _) = ty.field(i);
                        put(m, data, off + o as usize, t, c, syms);
                    }
                }
                C::Global(n, o) => {
                    let p = syms.get(&**n).copied().unwrap_or(0).wrapping_add(*o as u64);
                    data[off..off + 8].copy_from_slice(&p.to_le_bytes());
                }
            }
        }
        let mut syms: HashMap<&str, u64> = HashMap::new();
        for (i, f) in p.m.funcs.iter().enumerate() {
            syms.insert(&f.name, (FUNC_BASE + i as u64) << 32);
        }
        for (i, g) in p.m.globals.iter().enumerate() {
            syms.insert(&g.name, (i as u64 + 1) << 32);
        }
        for (i, g) in p.m.globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let o = mem.get_mut(i as u32 + 1).unwrap();
                put(&p.m, &mut o.data, 0, &g.ty, c, &syms);
            }
        }
        let errno = mem.alloc(8, Kind::Global);
        let z = Z3::new(20000);
        if cfg.dump > 0 {
            *z.dump.borrow_mut() = Some(vec![]);
        }
        let seed = cfg.seed;
        Worker {
            p,
            cfg,
            pool: Pool::new(),
            z,
            cache: HashMap::new(),
            stats: Stats::default(),
            work: vec![],
            base: mem,
            job: 0,
            job_complete: true,
            job_viol: HashMap::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            seen_samples: 0,
            errno,
            regpool: vec![],
        }
    }
    pub fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn finish(&mut self) {
        self.flush();
        if let Some(d) = self.z.dump.borrow_mut().take() {
            let n = self.cfg.dump;
            let step = (d.len() / n.max(1)).max(1);
            self.stats.dump.extend(d.into_iter().step_by(step).take(n));
        }
    }
    fn flush(&mut self) {
        self.stats.queries += *self.z.queries.borrow();
        self.stats.solver_s += *self.z.time.borrow();
        *self.z.queries.borrow_mut() = 0;
        *self.z.time.borrow_mut() = 0.0;
    }
    pub fn initial(&self, fname: &str) -> State {
        let f = *self.p.m.fname.get(fname).unwrap_or_else(|| panic!("no entry {}", fname));
        let fu = &self.p.m.funcs[f as usize];
        State {
            mem: self.base.clone(),
            frames: vec![],
            top: Frame { func: f, pc: fu.blocks[0].start, block: 0, regs: vec![Val::I(0); fu.nregs as usize], allocas: vec![], dst: None },
            cons: vec![],
            dom: vec![],
            model: vec![],
            steps: 0,
            reports: vec![],
            covers: vec![],
            fs: Rc::new(Fs::default()),
            exiting: false,
        }
    }
    pub fn call_concrete(&mut self, fname: &str) -> u32 {
        // run a nullary function returning u32; result passed via sym_result
        let st = self.initial(fname);
        self.job_complete = true;
        self.stats = Stats::default();
        let mut st = st;
        let p = self.p.clone();
        match self.run_state(&p, &mut st, Instant::now() + std::time::Duration::from_secs(60)) {
            Ok(Some(Val::I(v))) => v as u32,
            Ok(_) => panic!("jobs: no value"),
            Err(Stop::Err(e)) => panic!("jobs: {}", e),
            Err(Stop::Viol(e)) => panic!("jobs viol: {}", e),
            Err(_) => panic!("jobs: stop"),
        }
    }
    pub fn run_job(&mut self, entry: &str, job: u32, deadline: Instant) {
        self.job = job;
        self.job_complete = true;
        self.job_viol.clear();
        let st = self.initial(entry);
        self.work.push(st);
        let p = self.p.clone();
        while let Some(mut st) = self.work.pop() {
            if Instant::now() >= deadline || self.stopped() {
                self.job_complete = false;
                self.stats.dropped_states += 1 + self.work.len() as u64;
                self.stats.jobs_truncated += 1;
                self.work.clear();
                break;
            }
            let r = self.run_state(&p, &mut st, deadline);
            self.stats.max_vars = self.stats.max_vars.max(st.model.len() as u64);
            match r {
                Ok(_) => self.completed(&st),
                Err(Stop::Done) => self.completed(&st),
                Err(Stop::Kill) => self.stats.killed += 1,
                Err(Stop::Err(e)) => {
                    self.job_complete = false;
                    if e == "timeout" {
                        self.stats.dropped_states += 1 + self.work.len() as u64;
                        self.stats.jobs_truncated += 1;
                        self.work.clear();
                    } else {
                        if self.cfg.verbose {
                            eprintln!("error in job {}: {}\n  at {}", job, e, self.stack(&st).join("\n     "));
                        }
                        self.stats.err(e);
                    }
                }
                Err(Stop::Viol(m)) => {
                    self.violation(&st, m, None);
                    self.stats.paths += 1;
                }
            }
            if self.job_viol.values().sum::<u32>() >= self.cfg.max_viol.saturating_mul(4) {
                self.job_complete = false;
                self.work.clear();
            }
        }
        self.flush();
    }
    fn concretize_reports(&mut self, st: &State, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        self.pool.eval_begin();
        let mut out = vec![];
        for r in &st.reports {
            let mut v = vec![];
            for (b, e) in &r.bytes {
                v.push(if *e == 0 { *b } else { self.pool.eval_in(*e, model) as u8 });
            }
            out.push((r.tag.clone(), v));
        }
        out
    }
    fn completed(&mut self, st: &State) {
        self.stats.paths += 1;
        if !st.model.is_empty() {
            self.stats.paths_sym += 1;
        }
        for c in &st.covers {
            *self.stats.covers.entry(*c).or_insert(0) += 1;
        }
        // reservoir sample
        self.seen_samples += 1;
        let k = self.cfg.samples;
        if k == 0 {
            return;
        }
        let slot = if self.stats.samples.len() < k {
            self.stats.samples.len()
        } else {
            let r = self.rand() % self.seen_samples;
            if r as usize >= k {
                return;
            }
            r as usize
        };
        let reports = self.concretize_reports(st, &st.model);
        let s = Sample { job: self.job, vals: st.model.clone(), reports };
        if slot < self.stats.samples.len() {
            self.stats.samples[slot] = s;
        } else {
            self.stats.samples.push(s);
        }
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.p.m.funcs[st.top.func as usize].name.clone()];
        for f in st.frames.iter().rev() {
            v.push(self.p.m.funcs[f.func as usize].name.clone());
        }
        v
    }
    pub fn stopped(&self) -> bool {
        self.cfg.stop_after > 0 && self.cfg.found.load(std::sync::atomic::Ordering::Relaxed) >= self.cfg.stop_after
    }
    pub fn violation(&mut self, st: &State, msg: String, model: Option<&[u8]>) {
        let c = self.job_viol.entry(msg.clone()).or_insert(0);
        *c += 1;
        if *c > self.cfg.max_viol {
            return;
        }
        let model = model.unwrap_or(&st.model).to_vec();
        let reports = self.concretize_reports(st, &model);
        let stack = self.stack(st);
        if self.cfg.verbose {
            eprintln!("VIOL job {} {}: {}", self.job, msg, reports.iter().map(|(t, b)| format!("{}={:?}", t, String::from_utf8_lossy(b))).collect::<Vec<_>>().join(" "));
        }
        if !msg.starts_with("step limit") {
            self.cfg.found.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        self.stats.viols.push(Violation { msg, job: self.job, vals: model, reports, stack });
    }

    // ---------- solver ----------
    pub fn add_cons(&mut self, st: &mut State, c: E) {
        let vs = self.pool.vars[c as usize];
        if vs.count_ones() == 1 {
            let i = vs.trailing_zeros() as usize;
            let set = self.pool.byte_set(c);
            while st.dom.len() <= i {
                st.dom.push([!0; 4]);
            }
            for k in 0..4 {
                st.dom[i][k] &= set[k];
            }
        }
        st.cons.push(c);
    }
    /// Simplify a one-byte condition by the byte's constraints: Some(b) when it is constant there.
    pub fn dom_const(&mut self, st: &State, c: E) -> Option<bool> {
        let vs = self.pool.vars[c as usize];
        if vs.count_ones() != 1 || self.pool.w(c) != 1 {
            return None;
        }
        let i = vs.trailing_zeros() as usize;
        let d = match st.dom.get(i) {
            Some(d) => *d,
            None => return None,
        };
        let s = self.pool.byte_set(c);
        let (mut any, mut all) = (false, true);
        for k in 0..4 {
            any |= d[k] & s[k] != 0;
            all &= d[k] & !s[k] == 0;
        }
        if all {
            Some(true)
        } else if !any {
            Some(false)
        } else {
            None
        }
    }
    /// Replace the parts of a concatenation which depend on one byte and are constant in its domain.
    fn simp_parts(&mut self, st: &State, e: E) -> E {
        let vs = self.pool.vars[e as usize];
        if vs == 0 {
            return e;
        }
        let n = self.pool.nodes[e as usize];
        if n.w <= 8 && vs.count_ones() == 1 {
            let i = vs.trailing_zeros() as usize;
            if let Some(d) = st.dom.get(i) {
                if *d != [!0u64; 4] {
                    let d = *d;
                    let t = self.pool.byte_table(e);
                    let mut val: Option<u8> = None;
                    for k in 0..256 {
                        if d[k >> 6] >> (k & 63) & 1 == 1 {
                            match val {
                                None => val = Some(t[k]),
                                Some(x) if x != t[k] => return e,
                                _ => {}
                            }
                        }
                    }
                    if let Some(x) = val {
                        return self.pool.konst(x as u128, n.w);
                    }
                }
            }
            return e;
        }
        match n.op {
            Op::Concat => {
                let (a, b) = (self.simp_parts(st, n.a), self.simp_parts(st, n.b));
                if a == n.a && b == n.b {
                    e
                } else {
                    self.pool.concat(a, b)
                }
            }
            Op::ZExt => {
                let a = self.simp_parts(st, n.a);
                if a == n.a {
                    e
                } else {
                    self.pool.zext(a, n.w)
                }
            }
            Op::And => {
                // And(x, mask): decide the selected runs of bits one by one
                let (x, m) = match (self.pool.kv(n.a), self.pool.kv(n.b)) {
                    (Some(m), None) => (n.b, m),
                    (None, Some(m)) => (n.a, m),
                    _ => return e,
                };
                let mut parts: Vec<E> = vec![];
                let (mut lo, mut ch) = (0u32, false);
                while lo < n.w {
                    let bit = m >> lo & 1;
                    let mut hi = lo + 1;
                    while hi < n.w && m >> hi & 1 == bit {
                        hi += 1;
                    }
                    if bit == 0 {
                        parts.push(self.pool.konst(0, hi - lo));
                    } else {
                        let p = self.pool.extract(x, lo, hi - lo);
                        let q = self.simp_parts(st, p);
                        ch |= p != q || self.pool.kv(p).is_some();
                        parts.push(q);
                    }
                    lo = hi;
                }
                if !ch {
                    return e;
                }
                let mut r = parts[0];
                for p in &parts[1..] {
                    r = self.pool.concat(*p, r);
                }
                r
            }
            _ => e,
        }
    }
    fn simp(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if let Some(b) = self.dom_const(st, e) {
                return Val::I(b as u64);
            }
        }
        v
    }
    /// Is (cons ∧ cond) satisfiable? Some(Some(model)) sat, Some(None) unsat, None unknown.
    pub fn feasible(&mut self, st: &State, cond: E) -> Option<Option<Vec<u8>>> {
        let mut vars = self.pool.vars[cond as usize];
        let mut slice: Vec<E> = vec![];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && self.pool.vars[*c as usize] & vars != 0 {
                    used[i] = true;
                    vars |= self.pool.vars[*c as usize];
                    slice.push(*c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let neg = self.pool.not(cond);
        if slice.contains(&neg) {
            return Some(None);
        }
        slice.sort_unstable();
        slice.push(cond);
        let merge = |m: &Vec<u8>| {
            let mut n = st.model.clone();
            for i in 0..n.len() {
                if vars >> i & 1 == 1 {
                    n[i] = m[i];
                }
            }
            n
        };
        if let Some(r) = self.cache.get(&slice) {
            self.stats.cache_hits += 1;
            return Some(r.as_ref().map(|m| merge(m)));
        }
        let asts: Vec<Ast> = slice.iter().map(|c| self.pool.to_bool(&self.z, *c)).collect();
        match self.z.check(&asts, vars) {
            Res::Sat(m) => {
                let r = merge(&m);
                self.cache.insert(slice, Some(Rc::new(m)));
                Some(Some(r))
            }
            Res::Unsat => {
                self.cache.insert(slice, None);
                Some(None)
            }
            Res::Unknown => {
                self.stats.unknown += 1;
                None
            }
        }
    }
    /// Decide a boolean: follow the side the state's model satisfies; push a copy for the other side if feasible.
    pub fn branch(&mut self, st: &mut State, cond: E) -> R<bool> {
        if let Some(k) = self.pool.kv(cond) {
            return Ok(k == 1);
        }
        if st.cons.iter().rev().any(|c| *c == cond) {
            return Ok(true);
        }
        let neg = self.pool.not(cond);
        if st.cons.iter().rev().any(|c| *c == neg) {
            return Ok(false);
        }
        if let Some(b) = self.dom_const(st, cond) {
            return Ok(b);
        }
        self.stats.branch_sym += 1;
        let v = self.pool.eval(cond, &st.model) == 1;
        let (mine, other) = if v { (cond, neg) } else { (neg, cond) };
        match self.feasible(st, other) {
            Some(Some(model)) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.model = model;
                self.add_cons(&mut o, other);
                self.work.push(o);
                self.add_cons(st, mine);
            }
            Some(None) => {}
            None => {
                self.job_complete = false;
                self.stats.err("solver timeout on a branch: one side not explored".into());
                self.add_cons(st, mine);
            }
        }
        Ok(v)
    }
    pub fn assume(&mut self, st: &mut State, cond: E) -> R<()> {
        if let Some(k) = self.pool.kv(cond) {
            return if k == 1 { Ok(()) } else { Err(Stop::Kill) };
        }
        if self.pool.eval(cond, &st.model) != 1 {
            match self.feasible(st, cond) {
                Some(Some(m)) => st.model = m,
                Some(None) => return Err(Stop::Kill),
                None => {
                    self.job_complete = false;
                    self.stats.err("solver timeout on an assumption".into());
                    return Err(Stop::Kill);
                }
            }
        }
        // split conjunctions: better slicing
        let n = self.pool.n(cond);
        if n.op == Op::And {
            self.assume(st, n.a)?;
            return self.assume(st, n.b);
        }
        if !st.cons.contains(&cond) {
            self.add_cons(st, cond);
        }
        Ok(())
    }
    pub fn assert(&mut self, st: &mut State, cond: E, msg: &str) -> R<()> {
        self.stats.asserts += 1;
        if let Some(k) = self.pool.kv(cond) {
            if k == 1 {
                return Ok(());
            }
            return Err(Stop::Viol(msg.to_string()));
        }
        self.stats.asserts_symbolic += 1;
        let neg = self.pool.not(cond);
        if self.pool.eval(cond, &st.model) != 1 {
            let m = st.model.clone();
            self.violation(st, msg.to_string(), Some(&m));
            return self.assume(st, cond);
        }
        self.stats.assert_queries += 1;
        match self.feasible(st, neg) {
            Some(Some(m)) => {
                self.violation(st, msg.to_string(), Some(&m));
                self.assume(st, cond)
            }
            Some(None) => Ok(()),
            None => {
                self.job_complete = false;
                self.stats.err(format!("solver timeout on assertion {}", msg));
                Ok(())
            }
        }
    }
    /// Make a value concrete by forking over its feasible values.
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(k) => Ok(*k),
            Val::S(e) => {
                let w = self.pool.w(*e);
                let mut tries = 0;
                loop {
                    let k = self.pool.eval(*e, &st.model);
                    let kc = self.pool.konst(k, w);
                    let c = self.pool.eq(*e, kc);
                    if self.branch(st, c)? {
                        return Ok(k as u64);
                    }
                    tries += 1;
                    if tries > 3 {
                        return Err(Stop::Err("conc".into()));
                    }
                }
            }
            Val::W(w) => Ok(**w as u64),
            Val::A(_) => Err(Stop::Err("conc of aggregate".into())),
        }
    }
    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(k) => self.pool.konst(*k as u128, w),
            Val::S(e) => *e,
            Val::W(k) => self.pool.konst(**k, w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn v(&self, e: E) -> Val {
        let n = self.pool.n(e);
        if n.op == Op::Const {
            if n.w <= 64 {
                Val::I(n.k as u64)
            } else {
                Val::W(Rc::new(n.k))
            }
        } else {
            Val::S(e)
        }
    }

    // ---------- memory ----------
    /// address to (object, offset); symbolic addresses are concretised by forking
    pub fn addr(&mut self, st: &mut State, p: &Val) -> R<(u32, u64)> {
        let a = self.conc(st, p)?;
        Ok(((a >> 32) as u32, a & 0xffff_ffff))
    }
    fn oob(&self, st: &State, id: u32, off: u64, n: u64) -> Stop {
        Stop::Err(format!("memory access out of bounds obj {} size {:?} off {} len {}", id, st.mem.get(id).map(|o| o.data.len()), off as i32, n))
    }
    #[inline]
    pub fn load_u(&mut self, st: &mut State, p: &Val, n: u64) -> R<Val> {
        let a = match p {
            Val::I(a) => *a,
            Val::S(e) => {
                if let Some(v) = self.table_load(st, *e, n)? {
                    return Ok(v);
                }
                self.conc(st, p)?
            }
            _ => return Err(Stop::Err("bad pointer".into())),
        };
        let (id, off) = ((a >> 32) as u32, a & 0xffff_ffff);
        let o = match st.mem.get(id) {
            Some(o) => o,
            None => return Err(self.oob(st, id, off, n)),
        };
        let e = off + n;
        if e > o.data.len() as u64 {
            return Err(self.oob(st, id, off, n));
        }
        let (i, j) = (off as usize, e as usize);
        if o.sym.is_empty() || o.sym[i..j].iter().all(|x| *x == 0) {
            let d = &o.data[i..j];
            return Ok(match n {
                1 => Val::I(d[0] as u64),
                2 => Val::I(u16::from_le_bytes([d[0], d[1]]) as u64),
                4 => Val::I(u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64),
                8 => Val::I(u64::from_le_bytes(d.try_into().unwrap())),
                _ => {
                    let mut b = [0u8; 16];
                    b[..d.len()].copy_from_slice(d);
                    let v = u128::from_le_bytes(b);
                    if n <= 8 {
                        Val::I(v as u64)
                    } else {
                        Val::W(Rc::new(v))
                    }
                }
            });
        }
        let bytes: Vec<(u8, E)> = (i..j).map(|k| (o.data[k], o.sym[k])).collect();
        let mut acc: Option<E> = None;
        for (d, s) in bytes {
            let b = if s != 0 { s } else { self.pool.konst(d as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(l) => self.pool.concat(b, l),
            });
        }
        let e = acc.unwrap();
        Ok(self.v(e))
    }
    /// load through an address depending on one symbolic byte: build the value as an if-then-else over that byte
    fn table_load(&mut self, st: &mut State, e: E, n: u64) -> R<Option<Val>> {
        let vars = self.pool.vars[e as usize];
        if vars.count_ones() != 1 || self.pool.size[e as usize] > 200 || n > 8 {
            return Ok(None);
        }
        let vi = vars.trailing_zeros() as usize;
        let mut model = st.model.clone();
        // feasible values of that byte under its own single-variable constraints (over-approximation of the path condition)
        let cs: Vec<E> = st.cons.iter().copied().filter(|c| self.pool.vars[*c as usize] == vars).collect();
        let mut groups: Vec<(u64, Vec<(u8, u8)>)> = vec![]; // value -> ranges
        let mut idx: HashMap<u64, usize> = HashMap::new();
        let mut objid = None;
        for b in 0..=255u8 {
            model[vi] = b;
            self.pool.eval_begin();
            let mut ok = true;
            for c in &cs {
                if self.pool.eval_in(*c, &model) != 1 {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            let a = self.pool.eval_in(e, &model) as u64;
            let (id, off) = ((a >> 32) as u32, (a & 0xffff_ffff) as usize);
            if *objid.get_or_insert(id) != id {
                return Ok(None);
            }
            let o = match st.mem.get(id) {
                Some(o) => o,
                None => return Ok(None),
            };
            if off + n as usize > o.data.len() {
                return Ok(None);
            }
            if !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|x| *x != 0) {
                return Ok(None);
            }
            let mut buf = [0u8; 8];
            buf[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            let v = u64::from_le_bytes(buf);
            let gi = *idx.entry(v).or_insert_with(|| {
                groups.push((v, vec![]));
                groups.len() - 1
            });
            let rs = &mut groups[gi].1;
            match rs.last_mut() {
                Some(l) if l.1 as u32 + 1 == b as u32 => l.1 = b,
                _ => rs.push((b, b)),
            }
        }
        if groups.is_empty() || groups.len() > 64 {
            return Ok(None);
        }
        let w = (n * 8) as u32;
        let var = self.pool.var(vi as u32);
        // the last (largest) group is the default
        let big = (0..groups.len()).max_by_key(|i| groups[*i].1.len()).unwrap();
        let mut acc = self.pool.konst(groups[big].0 as u128, w);
        for (i, (v, rs)) in groups.iter().enumerate() {
            if i == big {
                continue;
            }
            let mut c = self.pool.false_;
            for (lo, hi) in rs {
                let x = self.range(var, 8, *lo as u64, *hi as u64);
                c = self.pool.bin(Op::Or, c, x);
            }
            let k = self.pool.konst(*v as u128, w);
            acc = self.pool.ite(c, k, acc);
        }
        Ok(Some(self.v(acc)))
    }
    pub fn range(&mut self, x: E, w: u32, lo: u64, hi: u64) -> E {
        if lo == hi {
            let k = self.pool.konst(lo as u128, w);
            return self.pool.eq(x, k);
        }
        let kl = self.pool.konst(lo as u128, w);
        let kh = self.pool.konst(hi as u128, w);
        let a = self.pool.bin(Op::Ule, kl, x);
        let b = self.pool.bin(Op::Ule, x, kh);
        self.pool.bin(Op::And, a, b)
    }
    pub fn store_u(&mut self, st: &mut State, p: &Val, v: &Val, n: u64) -> R<()> {
        let a = match p {
            Val::I(a) => *a,
            _ => self.conc(st, p)?,
        };
        let (id, off) = ((a >> 32) as u32, a & 0xffff_ffff);
        let bad = match st.mem.get(id) {
            Some(o) => off + n > o.data.len() as u64 || o.kind == Kind::Const,
            None => true,
        };
        if bad {
            return Err(self.oob(st, id, off, n));
        }
        let (i, j) = (off as usize, (off + n) as usize);
        match v {
            Val::I(k) => {
                let o = st.mem.get_mut(id).unwrap();
                let b = k.to_le_bytes();
                if n <= 8 {
                    o.data[i..j].copy_from_slice(&b[..n as usize]);
                } else {
                    o.data[i..i + 8].copy_from_slice(&b);
                    o.data[i + 8..j].fill(0);
                }
                if !o.sym.is_empty() {
                    o.sym[i..j].fill(0);
                }
            }
            Val::W(k) => {
                let o = st.mem.get_mut(id).unwrap();
                let b = k.to_le_bytes();
                o.data[i..j].copy_from_slice(&b[..n as usize]);
                if !o.sym.is_empty() {
                    o.sym[i..j].fill(0);
                }
            }
            Val::S(e) => {
                let w = self.pool.w(*e);
                let full = if (w as u64) < n * 8 { self.pool.zext(*e, (n * 8) as u32) } else { *e };
                let mut bs = vec![];
                for k in 0..n as u32 {
                    bs.push(self.pool.extract(full, k * 8, 8));
                }
                let consts: Vec<Option<u128>> = bs.iter().map(|b| self.pool.kv(*b)).collect();
                let o = st.mem.get_mut(id).unwrap();
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for k in 0..n as usize {
                    match consts[k] {
                        Some(c) => {
                            o.data[i + k] = c as u8;
                            o.sym[i + k] = 0;
                        }
                        None => o.sym[i + k] = bs[k],
                    }
                }
            }
            Val::A(_) => return Err(Stop::Err("store of aggregate as scalar".into())),
        }
        Ok(())
    }
    pub fn load_ty(&mut self, st: &mut State, ty: &Ty, p: &Val) -> R<Val> {
        match ty {
            Ty::I(w) => {
                let n = (*w as u64 + 7) / 8;
                let v = self.load_u(st, p, n)?;
                if *w as u64 == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    Val::I(k) => Val::I(k & m64(*w)),
                    Val::S(e) => {
                        let x = self.pool.extract(e, 0, *w);
                        self.v(x)
                    }
                    v => v,
                })
            }
            Ty::F(w) => self.load_u(st, p, (*w / 8) as u64),
            Ty::Ptr => self.load_u(st, p, 8),
            Ty::Struct(f, _) => {
                let base = self.conc(st, p)?;
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    v.push(self.load_ty(st, &t, &Val::I(base + o))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                if let Ty::Vector(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return Err(Stop::Err("load of sub-byte vector".into()));
                    }
                }
                let base = self.conc(st, p)?;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, t, &Val::I(base + i * t.alloc_size()))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load {:?}", ty))),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, ty: &Ty, p: &Val, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Struct(f, _), Val::A(vs)) => {
                let base = self.conc(st, p)?;
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    self.store_ty(st, &t, &Val::I(base + o), &vs[i])?;
                }
                Ok(())
            }
            (Ty::Array(_, t), Val::A(vs)) | (Ty::Vector(_, t), Val::A(vs)) => {
                let base = self.conc(st, p)?;
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, t, &Val::I(base + i as u64 * t.alloc_size()), x)?;
                }
                Ok(())
            }
            _ => self.store_u(st, p, v, ty.size()),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (di, doff) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
        let (si, soff) = ((s >> 32) as u32, (s & 0xffff_ffff) as usize);
        let n = n as usize;
        let (buf, sy) = match st.mem.get(si) {
            Some(o) if soff + n <= o.data.len() => {
                let sy = if o.sym.is_empty() || o.sym[soff..soff + n].iter().all(|x| *x == 0) { vec![] } else { o.sym[soff..soff + n].to_vec() };
                (o.data[soff..soff + n].to_vec(), sy)
            }
            _ => return Err(self.oob(st, si, soff as u64, n as u64)),
        };
        match st.mem.get(di) {
            Some(o) if doff + n <= o.data.len() && o.kind != Kind::Const => {}
            _ => return Err(self.oob(st, di, doff as u64, n as u64)),
        }
        let o = st.mem.get_mut(di).unwrap();
        o.data[doff..doff + n].copy_from_slice(&buf);
        if !sy.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[doff..doff + n].copy_from_slice(&sy);
        } else if !o.sym.is_empty() {
            o.sym[doff..doff + n].fill(0);
        }
        Ok(())
    }
    pub fn bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = ((p >> 32) as u32, (p & 0xffff_ffff) as usize);
        match st.mem.get(id) {
            Some(o) if off + n as usize <= o.data.len() => Ok((off..off + n as usize).map(|i| (o.data[i], if o.sym.is_empty() { 0 } else { o.sym[i] })).collect()),
            _ => Err(self.oob(st, id, off as u64, n)),
        }
    }
    pub fn be(&mut self, b: (u8, E)) -> E {
        if b.1 != 0 {
            b.1
        } else {
            self.pool.konst(b.0 as u128, 8)
        }
    }
    pub fn cstr(&mut self, st: &mut State, p: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        let mut a = p;
        loop {
            let b = self.load_u(st, &Val::I(a), 1)?;
            let b = self.conc(st, &b)? as u8;
            if b == 0 {
                return Ok(v);
            }
            v.push(b);
            a += 1;
        }
    }
    /// equality of two byte sequences as an expression
    pub fn bytes_eq(&mut self, a: &[(u8, E)], b: &[(u8, E)]) -> E {
        let mut acc = self.pool.true_;
        // concrete mismatches first
        for (x, y) in a.iter().zip(b) {
            if x.1 == 0 && y.1 == 0 && x.0 != y.0 {
                return self.pool.false_;
            }
        }
        for (x, y) in a.iter().zip(b) {
            if x.1 == 0 && y.1 == 0 {
                continue;
            }
            let (p, q) = (self.be(*x), self.be(*y));
            let e = self.pool.eq(p, q);
            acc = self.pool.bin(Op::And, acc, e);
        }
        acc
    }

    // ---------- values ----------
    #[inline]
    fn op(&self, fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::K(k) => Val::I(*k),
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::Wide(w) => Val::W(Rc::new(**w)),
            Opnd::Cst(b) => self.cst(&b.0, &b.1),
        }
    }
    fn cst(&self, ty: &Ty, c: &C) -> Val {
        match ty {
            Ty::I(w) if *w > 64 => Val::W(Rc::new(match c {
                C::Int(v) => *v,
                _ => 0,
            })),
            Ty::I(w) => Val::I(match c {
                C::Int(v) => *v as u64 & m64(*w),
                _ => 0,
            }),
            Ty::Ptr => Val::I(match c {
                C::Int(v) => *v as u64,
                C::Global(n, o) => {
                    let base = if let Some(g) = self.p.m.gname.get(&**n) { (*g as u64 + 1) << 32 } else { (FUNC_BASE + self.p.m.fname[&**n] as u64) << 32 };
                    base.wrapping_add(*o as u64)
                }
                _ => 0,
            }),
            Ty::F(_) => Val::I(match c {
                C::Int(v) => *v as u64,
                _ => 0,
            }),
            Ty::Struct(f, _) => Val::A(Rc::new(match c {
                C::Agg(v) => v.iter().map(|(t, c)| self.cst(t, c)).collect(),
                _ => f.iter().map(|t| self.cst(t, &C::Zero)).collect(),
            })),
            Ty::Array(n, t) | Ty::Vector(n, t) => Val::A(Rc::new(match c {
                C::Agg(v) => v.iter().map(|(t, c)| self.cst(t, c)).collect(),
                C::Str(s) => s.iter().map(|b| Val::I(*b as u64)).collect(),
                _ => (0..*n).map(|_| self.cst(t, &C::Zero)).collect(),
            })),
            _ => Val::I(0),
        }
    }
    pub fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (s64(x, w) >> y.min(63).min(w as u64 - 1)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Err("division by zero".into())),
                    Bin::UDiv => x / y,
                    Bin::URem => x % y,
                    Bin::SDiv => s64(x, w).wrapping_div(s64(y, w)) as u64,
                    Bin::SRem => s64(x, w).wrapping_rem(s64(y, w)) as u64,
                };
                return Ok(Val::I(r & m));
            }
        }
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.pool.bin(o, x, y);
        Ok(self.v(r))
    }
    pub fn icmp(&mut self, pr: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s64(x, w) > s64(y, w),
                Pred::Sge => s64(x, w) >= s64(y, w),
                Pred::Slt => s64(x, w) < s64(y, w),
                Pred::Sle => s64(x, w) <= s64(y, w),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match pr {
            Pred::Eq => self.pool.eq(x, y),
            Pred::Ne => {
                let e = self.pool.eq(x, y);
                self.pool.not(e)
            }
            Pred::Ugt => self.pool.bin(Op::Ult, y, x),
            Pred::Uge => self.pool.bin(Op::Ule, y, x),
            Pred::Ult => self.pool.bin(Op::Ult, x, y),
            Pred::Ule => self.pool.bin(Op::Ule, x, y),
            Pred::Sgt => self.pool.bin(Op::Slt, y, x),
            Pred::Sge => self.pool.bin(Op::Sle, y, x),
            Pred::Slt => self.pool.bin(Op::Slt, x, y),
            Pred::Sle => self.pool.bin(Op::Sle, x, y),
        };
        self.v(r)
    }
    pub fn cast(&mut self, k: CastK, w1: u32, w2: u32, a: &Val) -> Val {
        match a {
            Val::I(x) if w2 <= 64 => Val::I(match k {
                CastK::SExt => s64(*x, w1) as u64 & m64(w2),
                _ => *x & m64(w2),
            }),
            _ => {
                let e = self.e(a, w1);
                let r = match k {
                    CastK::Trunc => self.pool.extract(e, 0, w2),
                    CastK::ZExt => self.pool.zext(e, w2),
                    CastK::SExt => self.pool.sext(e, w2),
                    CastK::Bit => e,
                };
                self.v(r)
            }
        }
    }
    fn vcast(&mut self, k: CastK, t1: &Ty, t2: &Ty, a: &Val) -> R<Val> {
        if k == CastK::Bit {
            // bitcast vector <-> scalar
            match (t1, t2) {
                (Ty::Vector(_, et), t2) if t2.is_scalar() => {
                    if let Val::A(v) = a {
                        let w = et.bits();
                        let mut acc: Option<E> = None;
                        for x in v.iter() {
                            let e = self.e(x, w);
                            acc = Some(match acc {
                                None => e,
                                Some(l) => self.pool.concat(e, l),
                            });
                        }
                        return Ok(self.v(acc.unwrap()));
                    }
                }
                (t1, Ty::Vector(n, et)) if t1.is_scalar() => {
                    let e = self.e(a, t1.bits());
                    let w = et.bits();
                    let mut out = vec![];
                    for i in 0..*n as u32 {
                        let x = self.pool.extract(e, i * w, w);
                        out.push(self.v(x));
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
                (Ty::Vector(n1, e1), Ty::Vector(n2, e2)) => {
                    let i = Ty::I(*n1 as u32 * e1.bits());
                    if i.bits() <= 128 {
                        let x = self.vcast(k, t1, &i, a)?;
                        let _ = (n2, e2);
                        return self.vcast(k, &i, t2, &x);
                    }
                }
                _ => {}
            }
            return Err(Stop::Err("vector bitcast".into()));
        }
        match (t1, t2, a) {
            (Ty::Vector(_, e1), Ty::Vector(_, e2), Val::A(v)) => {
                let (w1, w2) = (e1.bits(), e2.bits());
                let out: Vec<Val> = v.iter().map(|x| self.cast(k, w1, w2, x)).collect();
                Ok(Val::A(Rc::new(out)))
            }
            _ => Err(Stop::Err("vector cast".into())),
        }
    }

    fn jump(&mut self, p: &Prog, st: &mut State, to: u32) {
        let f = &p.m.funcs[st.top.func as usize];
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let prev = st.top.block;
            let mut idx = b.phis[0].inc.iter().position(|x| x.0 == prev).expect("phi");
            if b.phis.len() == 1 {
                let v = self.op(&st.top, &b.phis[0].inc[idx].1);
                st.top.regs[b.phis[0].dst as usize] = v;
            } else {
                let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    if ph.inc.get(idx).map(|x| x.0) != Some(prev) {
                        idx = ph.inc.iter().position(|x| x.0 == prev).expect("phi");
                    }
                    vals.push((ph.dst, self.op(&st.top, &ph.inc[idx].1)));
                }
                for (d, v) in vals {
                    st.top.regs[d as usize] = v;
                }
            }
        }
        st.top.block = to;
        st.top.pc = b.start;
        if p.lua[st.top.func as usize] {
            if let Some(v) = self.stats.funcs.get_mut(&st.top.func) {
                v[to as usize] = true;
            }
        }
    }
    pub fn enter(&mut self, p: &Prog, st: &mut State, fi: u32, args: Vec<Val>, dst: Option<u32>) -> R<()> {
        let f = &p.m.funcs[fi as usize];
        if st.frames.len() > 20000 {
            return Err(Stop::Viol("stack overflow (call depth over 20000)".into()));
        }
        let nb = f.blocks.len();
        let cov = self.stats.funcs.entry(fi).or_insert_with(|| vec![false; nb]);
        cov[0] = true;
        let mut regs = args;
        let mut allocas = vec![];
        regs.truncate(f.params.len());
        for (i, b) in f.byval.iter().enumerate() {
            if let Some(sz) = b {
                let id = st.mem.alloc(*sz, Kind::Stack);
                let src = self.conc(st, &regs[i].clone())?;
                self.memcpy(st, (id as u64) << 32, src, *sz)?;
                regs[i] = Val::I((id as u64) << 32);
                allocas.push(id);
            }
        }
        regs.resize(f.nregs as usize, Val::I(0));
        let nf = Frame { func: fi, pc: f.blocks[0].start, block: 0, regs, allocas, dst };
        let old = std::mem::replace(&mut st.top, nf);
        st.frames.push(Rc::new(old));
        Ok(())
    }
    /// returns Ok(true) when the outermost frame returned
    fn leave(&mut self, st: &mut State, v: Option<Val>) -> bool {
        for a in std::mem::take(&mut st.top.allocas) {
            st.mem.dealloc(a);
        }
        match st.frames.pop() {
            None => true,
            Some(fr) => {
                let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                let dst = st.top.dst;
                st.top = fr;
                if let (Some(d), Some(v)) = (dst, v) {
                    st.top.regs[d as usize] = v;
                }
                false
            }
        }
    }

    pub fn run_state(&mut self, prog: &Arc<Prog>, st: &mut State, deadline: Instant) -> R<Option<Val>> {
        let p: &Prog = prog;
        {
            let nb = p.m.funcs[st.top.func as usize].blocks.len();
            let c = self.stats.funcs.entry(st.top.func).or_insert_with(|| vec![false; nb]);
            c[st.top.block as usize] = true;
        }
        loop {
            st.steps += 1;
            self.stats.instrs += 1;
            if st.steps & 0xffff == 0 {
                if st.steps > self.cfg.max_steps {
                    return Err(Stop::Viol("step limit exceeded (no termination within the bound)".into()));
                }
                if Instant::now() >= deadline {
                    return Err(Stop::Err("timeout".into()));
                }
            }
            let f = &p.m.funcs[st.top.func as usize];
            let ins = &f.code[st.top.pc as usize];
            match ins {
                Inst::Bin(op, w, d, a, b) => {
                    let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                    let mut r = self.bin(*op, *w, &x, &y)?;
                    if let Val::S(e) = r {
                        if *w == 1 {
                            r = self.simp(st, r);
                        } else if *w >= 16 && matches!(op, crate::ir::Bin::And | crate::ir::Bin::Or) && matches!(self.pool.nodes[e as usize].op, Op::Concat | Op::ZExt | Op::And) {
                            let x = self.simp_parts(st, e);
                            if x != e {
                                r = match self.pool.kv(x) {
                                    Some(k) if *w <= 64 => Val::I(k as u64),
                                    _ => Val::S(x),
                                };
                            }
                        } else if self.pool.size[e as usize] > 2000 {
                            // huge term (hashing and the like): decide its value by forking
                            let k = self.conc(st, &r)?;
                            if *w <= 64 {
                                r = Val::I(k);
                            }
                        }
                    }
                    st.top.regs[*d as usize] = r;
                }
                Inst::ICmp(pr, w, d, a, b) => {
                    let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                    let r = self.icmp(*pr, *w, &x, &y);
                    let r = self.simp(st, r);
                    st.top.regs[*d as usize] = r;
                }
                Inst::Cast(k, w1, w2, d, a) => {
                    let x = self.op(&st.top, a);
                    st.top.regs[*d as usize] = self.cast(*k, *w1, *w2, &x);
                }
                Inst::LoadS(n, d, a) => {
                    let x = self.op(&st.top, a);
                    let v = self.load_u(st, &x, *n as u64)?;
                    st.top.regs[*d as usize] = v;
                }
                Inst::Load(t, d, a) => {
                    let x = self.op(&st.top, a);
                    let v = self.load_ty(st, t, &x)?;
                    st.top.regs[*d as usize] = v;
                }
                Inst::StoreS(n, v, a) => {
                    let x = self.op(&st.top, a);
                    let v = self.op(&st.top, v);
                    self.store_u(st, &x, &v, *n as u64)?;
                }
                Inst::Store(t, v, a) => {
                    let x = self.op(&st.top, a);
                    let v = self.op(&st.top, v);
                    self.store_ty(st, t, &x, &v)?;
                }
                Inst::GepC(d, b, off) => {
                    let x = self.op(&st.top, b);
                    let r = match x {
                        Val::I(k) => Val::I(k.wrapping_add(*off as u64)),
                        x => self.bin(Bin::Add, 64, &x, &Val::I(*off as u64))?,
                    };
                    st.top.regs[*d as usize] = r;
                }
                Inst::Gep(d, b, off, var) => {
                    let mut x = self.op(&st.top, b);
                    if *off != 0 {
                        x = self.bin(Bin::Add, 64, &x, &Val::I(*off as u64))?;
                    }
                    for (v, w, s) in var.iter() {
                        let i = self.op(&st.top, v);
                        let i = if *w < 64 { self.cast(CastK::SExt, *w, 64, &i) } else { i };
                        let i = if *s == 1 { i } else { self.bin(Bin::Mul, 64, &i, &Val::I(*s as u64))? };
                        x = self.bin(Bin::Add, 64, &x, &i)?;
                    }
                    st.top.regs[*d as usize] = x;
                }
                Inst::Alloca(d, sz) => {
                    let id = st.mem.alloc(*sz, Kind::Stack);
                    st.top.allocas.push(id);
                    st.top.regs[*d as usize] = Val::I((id as u64) << 32);
                }
                Inst::Select(t, d, c, a, b) => {
                    let c = self.op(&st.top, c);
                    let r = match c {
                        Val::I(k) => self.op(&st.top, if k & 1 == 1 { a } else { b }),
                        Val::S(e) => {
                            let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                            if let (Val::I(p), Val::I(q)) = (&x, &y) {
                                if p == q {
                                    st.top.regs[*d as usize] = x;
                                    st.top.pc += 1;
                                    continue;
                                }
                            }
                            if matches!(t, Ty::I(_)) {
                                let w = t.bits();
                                let (x, y) = (self.e(&x, w), self.e(&y, w));
                                let r = self.pool.ite(e, x, y);
                                self.v(r)
                            } else if self.branch(st, e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => return Err(Stop::Err("select cond".into())),
                    };
                    st.top.regs[*d as usize] = r;
                }
                Inst::ExtractValue(d, a, ix) => {
                    let mut v = self.op(&st.top, a);
                    for i in ix {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Err("extractvalue".into())),
                        };
                    }
                    st.top.regs[*d as usize] = v;
                }
                Inst::InsertValue(d, t, a, v, ix) => {
                    let base = self.op(&st.top, a);
                    let base = match base {
                        Val::A(_) => base,
                        _ => self.cst(t, &C::Zero),
                    };
                    let v = self.op(&st.top, v);
                    fn ins(base: Val, ix: &[u32], v: Val) -> Val {
                        if ix.is_empty() {
                            return v;
                        }
                        match base {
                            Val::A(mut x) => {
                                let y = Rc::make_mut(&mut x);
                                let o = y[ix[0] as usize].clone();
                                y[ix[0] as usize] = ins(o, &ix[1..], v);
                                Val::A(x)
                            }
                            b => b,
                        }
                    }
                    st.top.regs[*d as usize] = ins(base, ix, v);
                }
                Inst::InsertElem(d, t, a, v, i) => {
                    let base = self.op(&st.top, a);
                    let base = match base {
                        Val::A(_) => base,
                        _ => self.cst(t, &C::Zero),
                    };
                    let v = self.op(&st.top, v);
                    let i = self.op(&st.top, i);
                    let i = self.conc(st, &i)?;
                    if let Val::A(mut x) = base {
                        Rc::make_mut(&mut x)[i as usize] = v;
                        st.top.regs[*d as usize] = Val::A(x);
                    }
                }
                Inst::ExtractElem(d, a, i) => {
                    let v = self.op(&st.top, a);
                    let i = self.op(&st.top, i);
                    let i = self.conc(st, &i)?;
                    match v {
                        Val::A(x) => st.top.regs[*d as usize] = x[i as usize].clone(),
                        _ => return Err(Stop::Err("extractelement".into())),
                    }
                }
                Inst::Shuffle(d, n, a, b, mask) => {
                    let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                    let get = |v: &Val, i: u64| match v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => Val::I(0),
                    };
                    let out: Vec<Val> = mask.iter().map(|m| if (*m as u64) < *n { get(&x, *m as u64) } else { get(&y, *m as u64 - n) }).collect();
                    st.top.regs[*d as usize] = Val::A(Rc::new(out));
                }
                Inst::VBin(op, t, d, a, b) => {
                    let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                    let w = match t {
                        Ty::Vector(_, e) => e.bits(),
                        _ => 0,
                    };
                    match (x, y) {
                        (Val::A(x), Val::A(y)) => {
                            let mut o = vec![];
                            for i in 0..x.len() {
                                o.push(self.bin(*op, w, &x[i], &y[i])?);
                            }
                            st.top.regs[*d as usize] = Val::A(Rc::new(o));
                        }
                        _ => return Err(Stop::Err("vbin".into())),
                    }
                }
                Inst::VICmp(pr, t, d, a, b) => {
                    let (x, y) = (self.op(&st.top, a), self.op(&st.top, b));
                    let w = match t {
                        Ty::Vector(_, e) => e.bits(),
                        _ => 0,
                    };
                    match (x, y) {
                        (Val::A(x), Val::A(y)) => {
                            let o = (0..x.len()).map(|i| self.icmp(*pr, w, &x[i], &y[i])).collect();
                            st.top.regs[*d as usize] = Val::A(Rc::new(o));
                        }
                        _ => return Err(Stop::Err("vicmp".into())),
                    }
                }
                Inst::VCast(k, t1, t2, d, a) => {
                    let x = self.op(&st.top, a);
                    let r = self.vcast(*k, t1, t2, &x)?;
                    st.top.regs[*d as usize] = r;
                }
                Inst::Copy(d, a) => {
                    let x = self.op(&st.top, a);
                    st.top.regs[*d as usize] = x;
                }
                Inst::Br(l) => {
                    self.jump(p, st, *l);
                    continue;
                }
                Inst::CondBr(c, a, b) => {
                    let c = self.op(&st.top, c);
                    let t = match c {
                        Val::I(k) => k & 1 == 1,
                        Val::S(e) => {
                            if self.pool.size[e as usize] > 3000 {
                                self.simplify_by_fork(st, e)?;
                            }
                            self.branch(st, e)?
                        }
                        _ => return Err(Stop::Err("br cond".into())),
                    };
                    self.jump(p, st, if t { *a } else { *b });
                    continue;
                }
                Inst::Switch(w, v, def, cs) => {
                    let v = self.op(&st.top, v);
                    let to = match v {
                        Val::I(k) => cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                        Val::S(e) => self.sym_switch(st, *w, e, *def, cs)?,
                        _ => return Err(Stop::Err("switch".into())),
                    };
                    self.jump(p, st, to);
                    continue;
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| self.op(&st.top, o));
                    let vv = v.clone();
                    if self.leave(st, v) {
                        return Ok(vv);
                    }
                    continue;
                }
                Inst::Unreachable => return Err(Stop::Err("unreachable reached".into())),
                Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
                Inst::Call(c) => {
                    let mut args: Vec<Val> = Vec::with_capacity(c.args.len() + 8);
                    for (_, o) in &c.args {
                        args.push(self.op(&st.top, o));
                    }
                    let fi = match &c.callee {
                        Callee::Intr(i) => {
                            let v = self.intrinsic(st, *i, c, &args)?;
                            if let Some(d) = c.dst {
                                st.top.regs[d as usize] = v;
                            }
                            st.top.pc += 1;
                            continue;
                        }
                        Callee::Func(f) => *f,
                        Callee::Ind(o) => {
                            let t = self.op(&st.top, o);
                            let t = self.conc(st, &t)?;
                            let k = (t >> 32).wrapping_sub(FUNC_BASE);
                            if k as usize >= p.m.funcs.len() || t & 0xffff_ffff != 0 {
                                return Err(Stop::Err(format!("indirect call to {:#x}", t)));
                            }
                            k as u32
                        }
                    };
                    match p.ext[fi as usize] {
                        Ext::Normal => {
                            st.top.pc += 1;
                            self.enter(p, st, fi, args, c.dst)?;
                            continue;
                        }
                        x => {
                            let r = self.external(p, st, x, fi, &args)?;
                            match r {
                                ExtRes::Val(v) => {
                                    if let Some(d) = c.dst {
                                        st.top.regs[d as usize] = v;
                                    }
                                }
                                ExtRes::Call(f, a) => {
                                    st.top.pc += 1;
                                    self.enter(p, st, f, a, c.dst)?;
                                    continue;
                                }
                            }
                        }
                    }
                }
            }
            st.top.pc += 1;
        }
    }
    /// very large expressions (e.g. hashes of symbolic bytes): split on the bytes they depend on
    fn simplify_by_fork(&mut self, st: &mut State, e: E) -> R<()> {
        let vars = self.pool.vars[e as usize];
        for i in 0..128u32 {
            if vars >> i & 1 == 1 {
                let v = self.pool.var(i);
                self.conc(st, &Val::S(v))?;
            }
        }
        Ok(())
    }
    fn sym_switch(&mut self, st: &mut State, w: u32, e: E, def: u32, cs: &[(u64, u32)]) -> R<u32> {
        let mut by: Vec<(u32, Vec<u64>)> = vec![];
        let umax = self.pool.umax[e as usize] as u64;
        for (k, b) in cs {
            if *k > umax {
                continue;
            }
            match by.iter_mut().find(|x| x.0 == *b) {
                Some(x) => x.1.push(*k),
                None => by.push((*b, vec![*k])),
            }
        }
        // try the model's own target first
        let cur = self.pool.eval(e, &st.model) as u64;
        let curdest = cs.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(def);
        by.sort_by_key(|x| (x.0 != curdest, x.1[0]));
        let mut any = self.pool.false_;
        for (b, ks) in by.iter_mut() {
            if *b == def {
                continue;
            }
            ks.sort_unstable();
            let c = self.keyset(e, w, ks);
            any = self.pool.bin(Op::Or, any, c);
            if self.branch(st, c)? {
                return Ok(*b);
            }
        }
        Ok(def)
    }
    fn keyset(&mut self, e: E, w: u32, ks: &[u64]) -> E {
        let mut c = self.pool.false_;
        let mut i = 0;
        while i < ks.len() {
            let mut j = i;
            while j + 1 < ks.len() && ks[j + 1] == ks[j] + 1 {
                j += 1;
            }
            let x = self.range(e, w, ks[i], ks[j]);
            c = self.pool.bin(Op::Or, c, x);
            i = j + 1;
        }
        c
    }
}

/// readable form of a v0-mangled name: the identifiers in it
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut i = 0;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            let j = if i < b.len() && b[i] == b'_' { i + 1 } else { i };
            if l > 0 && j + l <= b.len() && n.is_char_boundary(j) && n.is_char_boundary(j + l) && n[j..j + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !n[j..j + 1].as_bytes()[0].is_ascii_digit() {
                out.push(&n[j..j + l]);
                i = j + l;
                continue;
            }
        } else {
            i += 1;
        }
    }
    out.retain(|x| !x.starts_with('C') || x.len() < 10);
    out.join("::")
}
