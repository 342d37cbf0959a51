//! The monitor framework: cases, verdict recording, panic capture, hang watchdog, crash journal.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

use crate::rng::{hash_bytes, Rng};

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    /// Scratch directory (exists, private to this run)
    pub work: String,
    /// Path of the command line program, when built
    pub cli: String,
    pub threads: usize,
    /// Number of cases, when not the usual one
    pub cases: Option<u64>,
    /// Path of this very program
    pub me: String,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
    pub case: u64,
    pub input: String,
}

#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub nfails: u64,
    pub case: u64,
    pub input: String,
    /// Findings that are looked for deliberately (reported, matched with the findings file)
    pub observed: Vec<String>,
}

impl Rec {
    /// Remember the input of the current evaluation (for reports)
    pub fn input(&mut self, s: &str) {
        self.input.clear();
        self.input.push_str(s);
    }
    pub fn input_bytes(&mut self, s: &[u8]) {
        self.input = String::from_utf8_lossy(s).into_owned();
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Count an evaluation as non-trivial, identified by the bytes
    pub fn nontrivial(&mut self, b: &[u8]) {
        self.distinct.insert(hash_bytes(b));
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(format!("max:{}", name)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 4 && !s.is_empty() && s.len() < 400 {
            self.samples.push(s.to_string());
        }
    }
    pub fn fail<S: Into<String>>(&mut self, sig: &str, msg: S) {
        self.nfails += 1;
        if self.fails.len() < 20 {
            let f = Fail {
                sig: sig.to_string(),
                msg: msg.into(),
                case: self.case,
                input: self.input.clone(),
            };
            self.fails.push(f);
        }
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, sig: &str, msg: F) -> bool {
        if !ok {
            self.fail(sig, msg());
        }
        ok
    }
    fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max:") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        self.samples.extend(o.samples);
        self.fails.extend(o.fails);
        self.nfails += o.nfails;
        self.observed.extend(o.observed);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !quiet {
            return default(info);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = info.to_string());
    }));
}

/// Run code of the crate under test; a panic is returned as an error
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = before);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub type CaseFn = fn(&mut Rng, &mut Rec, u64, &Env);

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of cases: quick, thorough
    pub cases: (u64, u64),
    pub threads: usize,
    pub run: CaseFn,
    /// Counters which have to be non-zero, or else nothing was observed
    pub need: &'static [&'static str],
    pub exhaustive: bool,
}

pub const SLOTS: usize = 64;
/// Crash journal: slot 2i is the case of worker i (+1), shared with the supervisor through a file
static JOURNAL: Mutex<Option<usize>> = Mutex::new(None);

fn journal_open(path: &str) {
    unsafe {
        let c = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
        if fd < 0 {
            return;
        }
        libc::ftruncate(fd, (SLOTS * 8) as i64);
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        libc::close(fd);
        if p != libc::MAP_FAILED {
            *JOURNAL.lock().unwrap() = Some(p as usize);
        }
    }
}

fn journal_set(base: Option<usize>, worker: usize, v: u64) {
    if let Some(b) = base {
        if worker < SLOTS {
            unsafe { std::ptr::write_volatile((b as *mut u64).add(worker), v) };
        }
    }
}

extern "C" {
    fn pthread_getcpuclockid(t: libc::pthread_t, clk: *mut libc::clockid_t) -> libc::c_int;
}

fn cpu_of(clk: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub fn thread_cpu() -> f64 {
    cpu_of(libc::CLOCK_THREAD_CPUTIME_ID)
}

struct Worker {
    clk: AtomicU64,
    case: AtomicU64,
    live: AtomicBool,
}

/// CPU seconds a single case may burn. Cases need milliseconds; thousandfold slack.
const HANG_CPU_S: f64 = 60.0;

pub fn run(p: &'static Prop, env: &'static Env, only: Option<u64>, journal: &str, out: &str) -> i32 {
    let n = env.cases.unwrap_or(if env.thorough { p.cases.1 } else { p.cases.0 });
    let threads = if only.is_some() { 1 } else { env.threads.min(p.threads).max(1) };
    if !journal.is_empty() {
        journal_open(journal);
    }
    let base = *JOURNAL.lock().unwrap();
    let workers: &'static Vec<Worker> = Box::leak(Box::new(
        (0..threads)
            .map(|_| Worker {
                clk: AtomicU64::new(0),
                case: AtomicU64::new(0),
                live: AtomicBool::new(false),
            })
            .collect(),
    ));
    let mut hs = vec![];
    for w in 0..threads {
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut clk: libc::clockid_t = 0;
                    unsafe { pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    workers[w].clk.store(clk as u32 as u64, Ordering::SeqCst);
                    workers[w].live.store(true, Ordering::SeqCst);
                    let mut rec = Rec::default();
                    let mut i = only.unwrap_or(w as u64);
                    while i < n || only.is_some() {
                        workers[w].case.store(i + 1, Ordering::SeqCst);
                        journal_set(base, w, i + 1);
                        let mut rng = Rng::new(env.seed, p.id, i);
                        rec.case = i;
                        rec.input.clear();
                        let r = guard(|| (p.run)(&mut rng, &mut rec, i, env));
                        if let Err(msg) = r {
                            rec.fail("panic", format!("panicked: {}", msg));
                        }
                        i += threads as u64;
                        if only.is_some() {
                            break;
                        }
                        if rec.nfails > 200 {
                            break;
                        }
                    }
                    journal_set(base, w, 0);
                    workers[w].live.store(false, Ordering::SeqCst);
                    rec
                })
                .expect("spawn"),
        );
    }
    // Watchdog
    let out_path = out.to_string();
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); threads];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (w, s) in seen.iter_mut().enumerate() {
                if !workers[w].live.load(Ordering::SeqCst) {
                    continue;
                }
                let case = workers[w].case.load(Ordering::SeqCst);
                let cpu = cpu_of(workers[w].clk.load(Ordering::SeqCst) as u32 as i32);
                if case != s.0 {
                    *s = (case, cpu);
                } else if cpu - s.1 > HANG_CPU_S {
                    let mut rec = Rec::default();
                    rec.case = case - 1;
                    rec.evals = 1;
                    rec.fail(
                        "hang",
                        format!("no result after {} seconds of CPU time of the thread", HANG_CPU_S),
                    );
                    write_result(p, env, &rec, &out_path);
                    unsafe { libc::_exit(1) };
                }
            }
        }
    });
    let mut total = Rec::default();
    for h in hs {
        total.merge(h.join().expect("worker"));
    }
    total.fails.sort_by(|a, b| a.case.cmp(&b.case));
    total.samples.truncate(6);
    write_result(p, env, &total, out);
    if total.nfails > 0 {
        1
    } else {
        0
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(&format!("...[{} bytes in all]", s.len()));
        t
    }
}

fn write_result(p: &Prop, env: &Env, r: &Rec, out: &str) {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},\"nfails\":{}",
        jstr(p.id),
        env.seed,
        r.evals,
        r.distinct.len(),
        jstr(p.rule),
        p.exhaustive,
        r.nfails
    );
    o.push_str(",\"need\":[");
    o.push_str(&p.need.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"counters\":{");
    o.push_str(
        &r.counters
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"samples\":[");
    o.push_str(&r.samples.iter().map(|s| jstr(&clip(s, 400))).collect::<Vec<_>>().join(","));
    o.push_str("],\"observed\":[");
    o.push_str(&r.observed.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"fails\":[");
    o.push_str(
        &r.fails
            .iter()
            .take(20)
            .map(|f| {
                format!(
                    "{{\"sig\":{},\"case\":{},\"msg\":{},\"input\":{}}}",
                    jstr(&f.sig),
                    f.case,
                    jstr(&clip(&f.msg, 3000)),
                    jstr(&clip(&f.input, 20000))
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("]}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(out, o).expect("write result");
    }
}
