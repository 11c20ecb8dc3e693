//! Deterministic simulation of the barcoders library.
//!
//!   sim run --prop ID [--seed S] [--runs N] [--secs T] [--jobs J] [--replays DIR] [--variant V] [--shrink SECS]
//!   sim replay FILE
//!   sim plan --prop ID --run SEED
mod exec;
mod gen;
mod lend;
mod lines;
mod plan;
mod scan;
mod texts;

use exec::{recv, send, Report};
use plan::*;
use serde::{Deserialize, Serialize};
use simrt::rng::mix;
use simrt::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: simrt::SimAlloc = simrt::SimAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    ev: i16,
    rev: i16,
}
fn mkpipe() -> (i32, i32) {
    let mut f = [0i32; 2];
    if unsafe { pipe(f.as_mut_ptr()) } != 0 {
        eprintln!("pipe failed");
        std::process::exit(2);
    }
    (f[0], f[1])
}
fn xclose(f: i32) {
    unsafe { close(f) };
}

// ---------------------------------------------------------------- one run
#[derive(Clone, Debug)]
enum End {
    Ok(Report),
    Viol { class: String, msg: String, events: Vec<EvJ>, trace: u64, full: bool },
    /// Aborted while an injected allocation failure was in force: permitted.
    Benign,
    /// The harness itself failed.
    Broken(String),
}

struct Host {
    shared: *mut simrt::Shared,
    shared2: *mut simrt::Shared,
    // Ordered maps only: the standard hash maps would leave really random keys in this thread,
    // which the forked runs would inherit.
    memo: BTreeMap<Vec<u8>, Vec<u8>>,
    solos: u64,
    solo_hits: u64,
}
impl Host {
    fn new() -> Host {
        let n = std::mem::size_of::<simrt::Shared>();
        Host { shared: sys::mmap_shared(n) as *mut _, shared2: sys::mmap_shared(n) as *mut _, memo: BTreeMap::new(), solos: 0, solo_hits: 0 }
    }

    fn solo(&mut self, key: &[u8]) -> Vec<u8> {
        if let Some(o) = self.memo.get(key) {
            self.solo_hits += 1;
            return o.clone();
        }
        self.solos += 1;
        let call: Call = serde_json::from_slice(key).unwrap();
        let (r, w) = mkpipe();
        unsafe {
            (*self.shared2).nev = 0;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            xclose(r);
            limits();
            exec::run_solo(call, w, self.shared2);
        }
        xclose(w);
        let got = recv(r);
        xclose(r);
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        let o = match got {
            Some((b'S', b)) => b,
            _ => serde_json::to_vec(&Out { class: C_DEAD, len: 0, hash: 0, preview: format!("status {st:#x}") }).unwrap(),
        };
        if self.memo.len() > 60_000 {
            self.memo.clear();
        }
        self.memo.insert(key.to_vec(), o.clone());
        o
    }

    fn run(&mut self, plan: &Plan) -> End {
        let (qr, qw) = mkpipe();
        let (ar, aw) = mkpipe();
        unsafe {
            (*self.shared).nev = 0;
            (*self.shared).n_total = 0;
            (*self.shared).fired = 0;
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            xclose(qr);
            xclose(aw);
            limits();
            exec::run_plan(plan.clone(), qw, ar, self.shared);
        }
        if pid < 0 {
            return End::Broken("fork failed".into());
        }
        xclose(qw);
        xclose(ar);
        let mut report: Option<Report> = None;
        let mut hung = false;
        loop {
            let mut p = PollFd { fd: qr, ev: 1, rev: 0 };
            let n = unsafe { poll(&mut p, 1, 120_000) };
            if n == 0 {
                hung = true;
                unsafe { kill(pid, 9) };
                break;
            }
            match recv(qr) {
                Some((b'Q', key)) => {
                    let o = self.solo(&key);
                    if !send(aw, b'A', &o) {
                        break;
                    }
                }
                Some((b'R', b)) => {
                    report = serde_json::from_slice(&b).ok();
                    break;
                }
                _ => break,
            }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        xclose(qr);
        xclose(aw);
        let sh = unsafe { &*self.shared };
        let evs = || -> Vec<EvJ> { sh.ev[..sh.nev as usize].iter().map(exec::ev_json).collect() };
        let full = (sh.nev as u64) < sh.n_total;
        if let Some(r) = report {
            return match r.viol {
                None => End::Ok(r),
                Some((class, msg)) => End::Viol { class, msg, events: evs(), trace: r.trace, full },
            };
        }
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        let at = format!("operation {} of thread {}", sh.op, sh.thr);
        if hung {
            return End::Viol { class: "hang".into(), msg: format!("{at} blocks for ever"), events: evs(), trace: 0, full };
        }
        if sig == 6 && sh.fired > 0 {
            return End::Benign;
        }
        if sig == 24 {
            return End::Viol { class: "hang".into(), msg: format!("{at} uses the processor without end"), events: evs(), trace: 0, full };
        }
        if sig != 0 && sig != 9 {
            return End::Viol { class: "crash".into(), msg: format!("the process died of signal {sig} during {at}"), events: evs(), trace: 0, full };
        }
        if sig == 0 && code < 90 {
            return End::Viol { class: "crash".into(), msg: format!("the process exited with status {code} during {at}"), events: evs(), trace: 0, full };
        }
        End::Broken(format!("run ended with status {st:#x} in {at}"))
    }
}
fn limits() {
    unsafe {
        setrlimit(0, &[100, 101]); // CPU seconds
        setrlimit(4, &[0, 0]); // no core files
        prctl(1, 9, 0, 0, 0); // die with the worker
    }
}

// ---------------------------------------------------------------- replay files
#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    class: String,
    message: String,
    variant: String,
    run_seed: u64,
    verif_seed: u64,
    index: u64,
    trace: u64,
    original_ops: usize,
    original_events: usize,
    ops: usize,
    events: usize,
    shrink_attempts: u64,
    plan: Plan,
}

// ---------------------------------------------------------------- minimisation
struct Shrink<'a> {
    h: &'a mut Host,
    class: String,
    until: Instant,
    tries: u64,
}
impl Shrink<'_> {
    fn fails(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        matches!(self.h.run(p), End::Viol { class, .. } if class == self.class)
    }
    fn more(&self) -> bool {
        Instant::now() < self.until
    }
    /// Removes chunks of a sequence as long as the violation stays.
    fn ddmin<T: Clone>(&mut self, p: &mut Plan, items: Vec<T>, put: &dyn Fn(&mut Plan, &[T])) {
        let mut cur = items;
        let mut size = cur.len().max(1);
        while size >= 1 && !cur.is_empty() && self.more() {
            let mut i = 0;
            let mut any = false;
            while i < cur.len() && self.more() {
                let e = (i + size).min(cur.len());
                let mut t = cur[..i].to_vec();
                t.extend_from_slice(&cur[e..]);
                let mut q = p.clone();
                put(&mut q, &t);
                if self.fails(&q) {
                    cur = t;
                    *p = q;
                    any = true;
                } else {
                    i = e;
                }
            }
            if size == 1 && !any {
                break;
            }
            size = if size > 1 { size.div_ceil(2).min(size - 1) } else { 1 };
        }
    }
    fn go(&mut self, p: &mut Plan) {
        let seqs = |p: &Plan| -> Vec<(usize, usize, OpRec)> {
            let mut v = vec![];
            for (i, ph) in p.phases.iter().enumerate() {
                for (j, t) in ph.threads.iter().enumerate() {
                    for o in t {
                        v.push((i, j, o.clone()));
                    }
                }
            }
            v
        };
        let put_ops = |p: &mut Plan, t: &[(usize, usize, OpRec)]| {
            for ph in p.phases.iter_mut() {
                for t in ph.threads.iter_mut() {
                    t.clear();
                }
            }
            for (i, j, o) in t {
                p.phases[*i].threads[*j].push(o.clone());
            }
        };
        for round in 0..2 {
            {
                let ops = seqs(p);
                self.ddmin(p, ops, &put_ops);
            }
            if let Some(ev) = p.events.clone() {
                self.ddmin(p, ev, &|p, t| p.events = Some(t.to_vec()));
            }
            if round == 0 {
                for f in [
                    (|p: &mut Plan| p.env.poison = 0) as fn(&mut Plan),
                    |p| p.env.reuse = 0,
                    |p| p.env.env_mode = 0,
                    |p| p.env.clock_jump = 0,
                ] {
                    let mut q = p.clone();
                    f(&mut q);
                    if q != *p && self.fails(&q) {
                        *p = q;
                    }
                }
                self.inner(p);
            }
        }
    }
    /// Simplifies single operations.
    fn inner(&mut self, p: &mut Plan) {
        for i in 0..p.phases.len() {
            for j in 0..p.phases[i].threads.len() {
                for k in 0..p.phases[i].threads[j].len() {
                    if !self.more() {
                        return;
                    }
                    let o = p.phases[i].threads[j][k].clone();
                    let mut alts: Vec<OpRec> = vec![];
                    if !o.oom.is_empty() {
                        alts.push(OpRec { oom: vec![], ..o.clone() });
                        if o.oom.len() > 1 || o.oom[0].1 > 1 {
                            alts.push(OpRec { oom: vec![(o.oom[0].0, 1)], ..o.clone() });
                        }
                    }
                    match &o.op {
                        Op::New { slot, kind, text, input } if *input != Input::Str => {
                            alts.push(OpRec { op: Op::New { slot: *slot, kind: *kind, text: *text, input: Input::Str }, ..o.clone() });
                        }
                        Op::Gen { g, bits, input } if *input != Input::Str => {
                            alts.push(OpRec { op: Op::Gen { g: *g, bits: *bits, input: Input::Str }, ..o.clone() });
                        }
                        Op::Loop { n, body } => {
                            let mut m = *n / 2;
                            while m > 0 && m < *n {
                                alts.push(OpRec { op: Op::Loop { n: m, body: body.clone() }, ..o.clone() });
                                m /= 4;
                            }
                            for b in body {
                                alts.push(OpRec { op: Op::Loop { n: *n, body: vec![b.clone()] }, ..o.clone() });
                            }
                        }
                        Op::SweepT { kind, text, n, seed } => {
                            let mut m = *n / 2;
                            while m > 0 {
                                alts.push(OpRec { op: Op::SweepT { kind: *kind, text: *text, n: m, seed: *seed }, ..o.clone() });
                                m /= 2;
                            }
                            alts.reverse();
                        }
                        Op::SweepB { cfg, bits, n, seed } => {
                            let mut m = *n / 2;
                            while m > 0 {
                                alts.push(OpRec { op: Op::SweepB { cfg: *cfg, bits: *bits, n: m, seed: *seed }, ..o.clone() });
                                m /= 2;
                            }
                            alts.reverse();
                        }
                        Op::Channel { kind, text, all, seqs } => {
                            alts.push(OpRec { op: Op::Channel { kind: *kind, text: *text, all: false, seqs: vec![] }, ..o.clone() });
                            for s in seqs {
                                alts.push(OpRec { op: Op::Channel { kind: *kind, text: *text, all: false, seqs: vec![s.clone()] }, ..o.clone() });
                            }
                            alts.push(OpRec { op: Op::Channel { kind: *kind, text: *text, all: *all, seqs: vec![] }, ..o.clone() });
                        }
                        Op::Print { kind, text, n, seed } => {
                            let mut m = 1;
                            while m < *n {
                                alts.push(OpRec { op: Op::Print { kind: *kind, text: *text, n: m, seed: *seed }, ..o.clone() });
                                m *= 2;
                            }
                        }
                        Op::Relay { kind, text, stations, seed } if stations.len() > 1 => {
                            for i in 0..stations.len() {
                                let mut s = stations.clone();
                                s.remove(i);
                                alts.push(OpRec { op: Op::Relay { kind: *kind, text: *text, stations: s, seed: *seed }, ..o.clone() });
                                alts.push(OpRec { op: Op::Relay { kind: *kind, text: *text, stations: vec![stations[i].clone()], seed: *seed }, ..o.clone() });
                            }
                        }
                        Op::Scan { slot, seed, count } => {
                            for c in [0, 1, 2, 4, 8, 16, 32, 64] {
                                if c < *count {
                                    alts.push(OpRec { op: Op::Scan { slot: *slot, seed: *seed, count: c }, ..o.clone() });
                                }
                            }
                        }
                        _ => {}
                    }
                    for a in alts {
                        let mut q = p.clone();
                        q.phases[i].threads[j][k] = a;
                        if self.fails(&q) {
                            *p = q;
                            break;
                        }
                    }
                }
            }
        }
    }
}
/// Blanks what the remaining operations do not use.
fn tidy(p: &mut Plan) {
    let j = serde_json::to_value(&p.phases).unwrap();
    let mut texts = BTreeSet::new();
    let mut bits = BTreeSet::new();
    fn walk(v: &serde_json::Value, key: &str, texts: &mut BTreeSet<u64>, bits: &mut BTreeSet<u64>) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, x) in m {
                    walk(x, k, texts, bits);
                }
            }
            serde_json::Value::Array(a) => {
                for x in a {
                    walk(x, key, texts, bits);
                }
            }
            serde_json::Value::Number(n) => {
                let n = n.as_u64().unwrap_or(u64::MAX);
                if key == "text" || key == "seq" || key == "to" {
                    texts.insert(n);
                }
                if key == "bits" || key == "seq" || key == "to" {
                    bits.insert(n);
                }
            }
            _ => {}
        }
    }
    walk(&j, "", &mut texts, &mut bits);
    for (i, t) in p.texts.iter_mut().enumerate() {
        if !texts.contains(&(i as u64)) {
            t.clear();
        }
    }
    for (i, t) in p.bits.iter_mut().enumerate() {
        if !bits.contains(&(i as u64)) {
            t.clear();
        }
    }
}

// ---------------------------------------------------------------- search
#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    ops: u64,
    calls: u64,
    benign_aborts: u64,
    known: u64,
    solos: u64,
    solo_hits: u64,
    nontrivial: u64,
    counts: BTreeMap<String, u64>,
    traces: Vec<u64>,
    outcomes: Vec<u64>,
    samples: Vec<serde_json::Value>,
    rechecked: u64,
    unreproduced: Vec<String>,
    broken: Vec<String>,
    nondeterministic: Vec<String>,
    pairs: u64,
    edges: u64,
    edges_total: u64,
    violation: Option<String>,
    wall_s: f64,
}

struct Ctl {
    stop: AtomicU32,
    claimed: AtomicU32,
    done: AtomicU64,
}

struct Args {
    prop: String,
    seed: u64,
    runs: u64,
    secs: f64,
    jobs: usize,
    replays: String,
    variant: String,
    shrink: f64,
    recheck: u64,
    known: Vec<Known>,
}
/// A recorded defect: a violation of this class whose message contains all of `contains`.
#[derive(Deserialize, Clone)]
struct Known {
    property: String,
    class: String,
    contains: Vec<String>,
}
fn run_seed(a: &Args, i: u64) -> u64 {
    let mut h = mix(a.seed ^ 0xbabe);
    for b in a.prop.bytes().chain(a.variant.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i)
}
fn nontrivial(r: &Report) -> bool {
    const KEYS: [&str; 17] = [
        "preemptions_inside_calls",
        "threads_suspended",
        "allocations_failed",
        "conversion_panics",
        "content_changed_within_call",
        "nested_calls",
        "addresses_reused",
        "loop_iterations",
        "digit_substitutions",
        "compound_corruptions",
        "characters_replaced",
        "characters_smeared",
        "scan_lines_destroyed",
        "sink_failures_permanent",
        "sink_failures_transient",
        "clock_jumps",
        "env_reads",
    ];
    KEYS.iter().any(|k| r.counts.get(*k).copied().unwrap_or(0) > 0)
}

fn worker(a: &Args, w: usize, ctl: &Ctl, start: Instant, out: i32) -> ! {
    let mut h = Host::new();
    let mut st = Stats::default();
    let mut traces = BTreeSet::new();
    let mut outcomes = BTreeSet::new();
    let mut i = w as u64;
    while i < a.runs && start.elapsed().as_secs_f64() < a.secs && ctl.stop.load(Ordering::SeqCst) == 0 {
        let seed = run_seed(a, i);
        let plan = gen::plan(&a.prop, seed);
        let t0 = Instant::now();
        let end = h.run(&plan);
        if t0.elapsed().as_secs_f64() > 2.5 && std::env::var_os("SIM_SLOW").is_some() {
            println!("slow: run {i} seed {seed} {:.1} s, {} operations", t0.elapsed().as_secs_f64(), plan.n_ops());
            if let Some(d) = std::env::var_os("SIM_SLOW").filter(|d| d.len() > 1) {
                std::fs::write(std::path::Path::new(&d).join(format!("{seed}.json")), serde_json::to_string(&plan).unwrap()).unwrap();
            }
        }
        st.runs += 1;
        ctl.done.fetch_add(1, Ordering::SeqCst);
        match &end {
            End::Ok(r) => {
                st.ops += r.ops;
                st.calls += r.calls;
                for (k, v) in &r.counts {
                    let e = st.counts.entry(k.clone()).or_default();
                    *e = if k == "longest_call_steps" { (*e).max(*v) } else { *e + v };
                }
                outcomes.insert(r.outcomes);
                if nontrivial(r) && traces.insert(r.trace) {
                    st.nontrivial += 1;
                }
                if st.samples.len() < 2 {
                    st.samples.push(sample(&plan, seed, i, r));
                }
                // The first runs of every worker are repeated: once as they were, once from
                // their recorded decisions.
                if st.runs <= a.recheck {
                    st.rechecked += 1;
                    let again = h.run(&plan);
                    let mut q = plan.clone();
                    let sh = unsafe { &*h.shared };
                    let full = (sh.nev as u64) == sh.n_total;
                    q.events = Some(sh.ev[..sh.nev as usize].iter().map(exec::ev_json).collect());
                    for (how, e) in [("repeated", again), ("replayed", if full { h.run(&q) } else { end.clone() })] {
                        match e {
                            End::Ok(x) if x.trace == r.trace && x.outcomes == r.outcomes => {}
                            e => st.nondeterministic.push(format!("run {i} seed {seed} {how}: trace {:#x} became {}", r.trace, show_end(&e))),
                        }
                    }
                }
            }
            End::Benign => st.benign_aborts += 1,
            End::Broken(m) => st.broken.push(format!("run {i} seed {seed}: {m}")),
            End::Viol { class, msg, events, trace, full } => {
                if ctl.claimed.load(Ordering::SeqCst) != 0 {
                    break;
                }
                if a.known.iter().any(|k| k.property == a.prop && k.class == *class && k.contains.iter().all(|c| msg.contains(c.as_str()))) {
                    st.known += 1;
                    i += a.jobs as u64;
                    continue;
                }
                // Does it reproduce from its decisions, or at least from its seed?
                let mut base = plan.clone();
                base.events = Some(events.clone());
                let same = |e: End| matches!(e, End::Viol { class: c, .. } if c == *class);
                let ok = if !*full && same(h.run(&base)) {
                    true
                } else {
                    base = plan.clone();
                    same(h.run(&base))
                };
                if !ok {
                    st.unreproduced.push(format!("run {i} seed {seed}: {class}: {msg}"));
                } else if ctl.claimed.swap(1, Ordering::SeqCst) == 0 {
                    let until = Instant::now() + Duration::from_secs_f64(a.shrink);
                    let (n_ops, n_ev) = (plan.n_ops(), events.len());
                    let mut s = Shrink { h: &mut h, class: class.clone(), until, tries: 0 };
                    let mut p = base.clone();
                    s.go(&mut p);
                    let tries = s.tries;
                    let mut q = p.clone();
                    tidy(&mut q);
                    if same(h.run(&q)) {
                        p = q;
                    }
                    // The message and trace that belong to the minimised run.
                    let (m, t) = match h.run(&p) {
                        End::Viol { msg, trace, .. } => (msg, trace),
                        _ => (msg.clone(), *trace),
                    };
                    let f = Replay {
                        property: a.prop.clone(),
                        class: class.clone(),
                        message: m.clone(),
                        variant: a.variant.clone(),
                        run_seed: seed,
                        verif_seed: a.seed,
                        index: i,
                        trace: t,
                        original_ops: n_ops,
                        original_events: n_ev,
                        ops: p.n_ops(),
                        events: p.events.as_ref().map(|e| e.len()).unwrap_or(0),
                        shrink_attempts: tries,
                        plan: p,
                    };
                    let path = format!("{}/{}-{}-{:016x}.json", a.replays, a.prop, a.variant, seed);
                    let _ = std::fs::create_dir_all(&a.replays);
                    if std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).is_err() {
                        st.broken.push(format!("cannot write {path}"));
                    }
                    println!("run {i} seed {seed} variant {}: {class}: {m}", a.variant);
                    println!("minimised from {} operations and {} scheduling decisions to {} and {} in {} replays", n_ops, n_ev, f.ops, f.events, tries);
                    st.violation = Some(path);
                    ctl.stop.store(1, Ordering::SeqCst);
                }
            }
        }
        if st.broken.len() > 3 || st.unreproduced.len() > 20 {
            break;
        }
        i += a.jobs as u64;
    }
    st.solos = h.solos;
    st.solo_hits = h.solo_hits;
    st.traces = traces.into_iter().collect();
    st.outcomes = outcomes.into_iter().collect();
    let j = serde_json::to_vec(&st).unwrap();
    let (c1, c2) = unsafe { (&*h.shared, &*h.shared2) };
    let cov: Vec<u8> = c1.cov.iter().zip(c2.cov.iter()).map(|(a, b)| *a | *b).collect();
    send(out, b'J', &j);
    send(out, b'C', &cov);
    send(out, b'P', &c1.pairs);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    sys::exit_group(0)
}
fn show_end(e: &End) -> String {
    match e {
        End::Ok(r) => format!("trace {:#x}", r.trace),
        End::Viol { class, msg, .. } => format!("{class}: {msg}"),
        End::Benign => "abort".into(),
        End::Broken(m) => m.clone(),
    }
}
fn sample(p: &Plan, seed: u64, i: u64, r: &Report) -> serde_json::Value {
    let mut ops: Vec<serde_json::Value> = vec![];
    for (k, ph) in p.phases.iter().enumerate() {
        for (t, th) in ph.threads.iter().enumerate() {
            for o in th.iter().take(4) {
                if ops.len() < 12 {
                    ops.push(serde_json::json!({"phase": k, "thread": t, "op": o}));
                }
            }
        }
    }
    serde_json::json!({
        "run": i, "run_seed": seed, "env": p.env, "sched": p.sched,
        "texts": p.texts.iter().take(4).map(|s| s.chars().take(60).collect::<String>()).collect::<Vec<_>>(),
        "operations": p.n_ops(), "first_operations": ops,
        "result": {"calls": r.calls, "scheduling_decisions": r.n_events, "trace": format!("{:016x}", r.trace), "counts": r.counts},
    })
}

fn search(a: Args) -> i32 {
    let start = Instant::now();
    let ctl: &Ctl = unsafe { &*(sys::mmap_shared(4096) as *const Ctl) };
    let cpus = sys::get_affinity();
    let mut ws = vec![];
    for w in 0..a.jobs {
        let (r, wr) = mkpipe();
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            xclose(r);
            sys::set_affinity(cpus[w % cpus.len()]);
            worker(&a, w, ctl, start, wr);
        }
        xclose(wr);
        ws.push((pid, r));
    }
    let mut all = Stats::default();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut outs: BTreeSet<u64> = BTreeSet::new();
    let mut cov = vec![0u8; sys::COV_LEN];
    let mut pairs = vec![0u8; sys::PAIR_BITS / 8];
    for (pid, r) in ws {
        let mut ok = false;
        while let Some((tag, b)) = recv(r) {
            match tag {
                b'J' => {
                    ok = true;
                    let s: Stats = serde_json::from_slice(&b).unwrap();
                    all.runs += s.runs;
                    all.ops += s.ops;
                    all.calls += s.calls;
                    all.benign_aborts += s.benign_aborts;
                    all.known += s.known;
                    all.solos += s.solos;
                    all.solo_hits += s.solo_hits;
                    all.rechecked += s.rechecked;
                    for (k, v) in s.counts {
                        let e = all.counts.entry(k.clone()).or_default();
                        *e = if k == "longest_call_steps" { (*e).max(v) } else { *e + v };
                    }
                    traces.extend(s.traces);
                    outs.extend(s.outcomes);
                    if all.samples.len() < 3 {
                        all.samples.extend(s.samples.into_iter().take(1));
                    }
                    all.unreproduced.extend(s.unreproduced);
                    all.broken.extend(s.broken);
                    all.nondeterministic.extend(s.nondeterministic);
                    if s.violation.is_some() {
                        all.violation = s.violation;
                    }
                }
                b'C' => cov.iter_mut().zip(&b).for_each(|(x, y)| *x |= y),
                b'P' => pairs.iter_mut().zip(&b).for_each(|(x, y)| *x |= y),
                _ => {}
            }
        }
        xclose(r);
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
        if !ok {
            all.broken.push(format!("a worker died (status {s:#x})"));
        }
    }
    all.nontrivial = traces.len() as u64;
    let distinct_outcomes = outs.len() as u64;
    all.edges_total = sys::guards() as u64;
    all.edges = cov.iter().filter(|x| **x != 0).count() as u64;
    all.pairs = pairs.iter().map(|x| x.count_ones() as u64).sum();
    all.wall_s = start.elapsed().as_secs_f64();
    let mut j = serde_json::to_value(&all).unwrap();
    j["distinct_outcome_sets"] = distinct_outcomes.into();
    for k in ["traces", "outcomes"] {
        j.as_object_mut().unwrap().remove(k);
    }
    println!("STATS {j}");
    if all.violation.is_some() {
        return 1;
    }
    if !all.broken.is_empty() || !all.nondeterministic.is_empty() || !all.unreproduced.is_empty() {
        for m in all.broken.iter().chain(&all.nondeterministic).chain(&all.unreproduced).take(10) {
            println!("HARNESS {m}");
        }
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let Ok(b) = std::fs::read(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let f: Replay = match serde_json::from_slice(&b) {
        Ok(f) => f,
        Err(e) => {
            println!("{path}: {e}");
            return 2;
        }
    };
    let mut h = Host::new();
    match h.run(&f.plan) {
        End::Viol { class, msg, trace, .. } => {
            println!("{class}: {msg}");
            println!("REPLAYED class={class} same_class={} same_message={} same_trace={}", class == f.class, msg == f.message, trace == f.trace);
            if class == f.class {
                1
            } else {
                3
            }
        }
        End::Ok(_) | End::Benign => {
            println!("REPLAYED no violation");
            0
        }
        End::Broken(m) => {
            println!("{m}");
            2
        }
    }
}

fn main() {
    // Same addresses in every process.
    if std::env::var_os("SIM_NO_REEXEC").is_none() && sys::disable_aslr() {
        use std::os::unix::process::CommandExt;
        let me = std::env::current_exe().unwrap();
        let e = std::process::Command::new(me).args(std::env::args_os().skip(1)).args(["-"; 4]).env("SIM_NO_REEXEC", "1").exec();
        eprintln!("{e}");
    }
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, d: &str| -> String { argv.iter().position(|x| x == k).and_then(|i| argv.get(i + 1).cloned()).unwrap_or(d.to_string()) };
    let words = get("--words", "");
    if !words.is_empty() {
        let w = serde_json::from_slice(&std::fs::read(words).expect("word list")).expect("word list");
        let _ = texts::WORDS.set(w);
    }
    let code = match argv.first().map(|s| s.as_str()) {
        Some("run") => {
            let cpus = sys::get_affinity().len();
            search(Args {
                prop: get("--prop", "C01"),
                seed: get("--seed", "1").parse().unwrap(),
                runs: get("--runs", "1000").parse().unwrap(),
                secs: get("--secs", "60").parse().unwrap(),
                jobs: get("--jobs", &cpus.to_string()).parse::<usize>().unwrap().max(1),
                replays: get("--replays", "/verif/replays"),
                variant: get("--variant", "debug"),
                shrink: get("--shrink", "20").parse().unwrap(),
                recheck: get("--recheck", "4").parse().unwrap(),
                known: match get("--known", "") {
                    f if f.is_empty() => vec![],
                    f => serde_json::from_slice(&std::fs::read(f).expect("known findings")).expect("known findings"),
                },
            })
        }
        Some("replay") => replay(&argv[1]),
        Some("plan") => {
            let p = gen::plan(&get("--prop", "C01"), get("--run", "1").parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        _ => {
            eprintln!("usage: sim run|replay|plan");
            2
        }
    };
    std::process::exit(code);
}
