//! Executes one plan inside a forked child.  Everything in here runs on simulated threads; the
//! library is only entered through `simrt::sut`.
use crate::lend;
use crate::plan::*;
use crate::scan::{self, Tables};
use serde::{Deserialize, Serialize};
use simops::{Bc, Kind, Made, Rn, SimBits, SimSink, SimText, KINDS};
use simrt::rng::{mix, Rng};
use simrt::{fault_fired, host, op_begin, op_end, renew_budget, rt, set_alloc_faults, sut};
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// What a run reports when it ends.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<(String, String)>,
    pub trace: u64,
    pub outcomes: u64,
    pub ops: u64,
    pub calls: u64,
    pub counts: BTreeMap<String, u64>,
    pub n_events: u64,
    pub events: Option<Vec<EvJ>>,
    pub live: Vec<u64>,
}

// ---------------------------------------------------------------- outcomes
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x9e37_79b9_7f4a_7c15u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(0x632b_e59b_d9b4_e019);
    }
    mix(h)
}
fn out_of(class: u8, b: &[u8], text: bool) -> Out {
    let p: String = if text {
        String::from_utf8_lossy(b).chars().take(90).collect::<String>().escape_debug().to_string()
    } else if !b.is_empty() && b.iter().all(|x| *x <= 1) {
        b.iter().take(90).map(|x| (b'0' + x) as char).collect()
    } else {
        b.iter().take(24).map(|x| format!("{x:02x}")).collect()
    };
    Out { class, len: b.len() as u64, hash: hash_bytes(b), preview: p }
}
struct ConvPanic;
fn class_of_panic(p: Box<dyn Any + Send>) -> u8 {
    let c = if p.is::<simrt::OomUnwind>() {
        C_OOM
    } else if p.is::<ConvPanic>() {
        C_CONV
    } else {
        C_PANIC
    };
    sut(|| drop(p));
    c
}
fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, u8> {
    match catch_unwind(AssertUnwindSafe(|| sut(f))) {
        Ok(r) => Ok(r),
        Err(p) => Err(class_of_panic(p)),
    }
}
fn unwound(class: u8) -> Out {
    let m = simrt::me().unwrap();
    let msg = if class == C_PANIC { simrt::last_panic(m) } else { String::new() };
    // The message is shown but is not part of the outcome.
    Out { class, len: 0, hash: 0, preview: msg }
}
fn made(r: Result<Result<Made, barcoders_error::Error>, u8>) -> (Out, Option<Made>) {
    match r {
        Err(c) => (unwound(c), None),
        Ok(Err(e)) => (out_of(simops::error_code(&e), b"", true), None),
        Ok(Ok(m)) => {
            let o = match &m {
                Made::Text(s) => out_of(0, s.as_bytes(), true),
                Made::Bytes(b) => out_of(0, b, false),
                Made::Pixels(w, h, b) => {
                    let mut v = format!("{w}x{h}:").into_bytes();
                    v.extend_from_slice(b);
                    out_of(0, &v, true)
                }
            };
            (o, Some(m))
        }
    }
}
mod barcoders_error {
    pub use simops::ErrorT as Error;
}
fn modules(r: Result<Vec<u8>, u8>) -> (Out, Option<Vec<u8>>) {
    match r {
        Err(c) => (unwound(c), None),
        Ok(v) => {
            let o = out_of(0, &v, false);
            let copy = v.clone(); // host copy
            sut(|| drop(v));
            (o, Some(copy))
        }
    }
}
fn ctor(r: Result<Result<Bc, barcoders_error::Error>, u8>) -> (Out, Option<Bc>) {
    match r {
        Err(c) => (unwound(c), None),
        Ok(Err(e)) => (out_of(simops::error_code(&e), b"", true), None),
        Ok(Ok(b)) => (out_of(0, b"", true), Some(b)),
    }
}

// ---------------------------------------------------------------- values
pub struct Val {
    bc: Option<Bc>,
    kind: u8,
    text: String,
    muts: Vec<(u32, u8)>,
}
impl Drop for Val {
    fn drop(&mut self) {
        let b = self.bc.take();
        if simrt::me().is_some() {
            let _ = attempt(move || drop(b));
        } else {
            drop(b)
        }
    }
}
pub struct Gn {
    rn: Option<Rn>,
    cfg: Cfg,
}
impl Drop for Gn {
    fn drop(&mut self) {
        let b = self.rn.take();
        if simrt::me().is_some() {
            let _ = attempt(move || drop(b));
        }
    }
}
const LOCAL: usize = 16;
struct Th {
    slots: Vec<Option<Arc<Val>>>,
    gs: Vec<Option<Arc<Gn>>>,
    fixed: Box<[u8; 4096]>,
    depth: u32,
}

struct World {
    plan: Plan,
    shared: Vec<Option<Arc<Val>>>,
    shared_g: Vec<Option<Arc<Gn>>>,
    cells: [u32; 8],
    cache: BTreeMap<Vec<u8>, Out>,
    rep: Report,
    tables: Option<Tables>,
    q: i32,
    a: i32,
    /// Only what is left behind is judged, not the results.
    lax: bool,
    /// Distinguishes the operations of one round from those of another.
    base: u32,
}
static mut WORLD: Option<World> = None;
static mut TH: [Option<Th>; simrt::MAXT] = [const { None }; simrt::MAXT];
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
fn th() -> &'static mut Th {
    unsafe { TH[simrt::me().unwrap()].as_mut().unwrap() }
}

fn count(k: &str, n: u64) {
    if n > 0 {
        if let Some(x) = w().rep.counts.get_mut(k) {
            *x += n;
        } else {
            w().rep.counts.insert(k.to_string(), n);
        }
    }
}

/// Ends the run with a violation.
fn violation(class: &str, msg: &str) -> ! {
    w().rep.viol = Some((class.to_string(), msg.to_string()));
    finish()
}
fn fatal(class: &str, msg: &str) -> ! {
    violation(class, msg)
}

fn finish() -> ! {
    let r = rt();
    let s = r.stats;
    for (k, v) in [
        ("steps", s.points),
        ("switches", s.switches),
        ("preemptions_inside_calls", s.preempts_in_call),
        ("threads_suspended", s.stalls),
        ("threads_resumed_at_end", s.stalled_resumed),
        ("allocations_failed", s.alloc_fails),
        ("allocations", s.allocs),
        ("addresses_reused", s.addr_reuses),
        ("shared_heap_accesses", s.shared_accesses),
        ("writable_static_accesses", s.static_accesses),
        ("futex_waits", s.futex_waits),
        ("futex_wakes", s.futex_wakes),
        ("clock_reads", s.clock_reads),
        ("clock_jumps", s.clock_jumps),
        ("entropy_reads", s.entropy_reads),
        ("env_reads", s.env_reads),
        ("ambient_io", s.ambient_io),
        ("longest_call_steps", s.longest),
        ("threads_spawned_by_library", s.threads_spawned_by_sut),
    ] {
        count(k, v);
    }
    let x = &mut w().rep;
    x.trace = r.trace_hash;
    let ev = simrt::events();
    x.n_events = ev.len() as u64;
    if x.viol.is_some() {
        x.events = Some(ev.iter().map(ev_json).collect());
    }
    let j = serde_json::to_vec(&w().rep).unwrap();
    send(w().q, b'R', &j);
    simrt::sys::exit_group(0)
}
pub fn ev_json(e: &simrt::Ev) -> EvJ {
    let k = match e.kind {
        simrt::EvKind::Preempt => 'p',
        simrt::EvKind::Stall => 's',
        simrt::EvKind::Boundary => 'b',
        simrt::EvKind::Forced => 'f',
    };
    (e.thr, e.op, e.n, k, e.to)
}

// ---------------------------------------------------------------- talking to the worker
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { simrt::sys::raw(1, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if n == -4 {
            continue;
        }
        if n <= 0 {
            return false;
        }
        b = &b[n as usize..];
    }
    true
}
pub fn read_all(fd: i32, b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { simrt::sys::raw(0, fd as usize, b[at..].as_mut_ptr() as usize, b.len() - at, 0, 0, 0) };
        if n == -4 {
            continue;
        }
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}
pub fn send(fd: i32, tag: u8, b: &[u8]) -> bool {
    let mut m = vec![tag];
    m.extend_from_slice(&(b.len() as u32).to_le_bytes());
    m.extend_from_slice(b);
    write_all(fd, &m)
}
pub fn recv(fd: i32) -> Option<(u8, Vec<u8>)> {
    let mut h = [0u8; 5];
    if !read_all(fd, &mut h) {
        return None;
    }
    let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]) as usize;
    let mut b = vec![0; n];
    if !read_all(fd, &mut b) {
        return None;
    }
    Some((h[0], b))
}

/// The outcome of `c` made alone in a pristine process.
fn expect(c: &Call) -> Out {
    if w().lax {
        return out_of(0, b"", true);
    }
    let key = serde_json::to_vec(c).unwrap();
    if let Some(o) = w().cache.get(&key) {
        return o.clone();
    }
    if !send(w().q, b'Q', &key) {
        simrt::sys::exit_group(97);
    }
    let Some((_, b)) = recv(w().a) else { simrt::sys::exit_group(97) };
    let o: Out = serde_json::from_slice(&b).unwrap();
    if w().cache.len() > 20_000 {
        w().cache.clear();
    }
    w().cache.insert(key, o.clone());
    o
}

// ---------------------------------------------------------------- simulated conversions
struct Conv {
    own: u32, // index of the operation's own text/bits
    sim: Sim,
    text: bool,
    calls: u32,
    returned: Vec<u32>,
    fired: bool,
}
fn conv_content(c: &Conv, idx: u32) -> &'static [u8] {
    if c.text {
        unsafe { TEXTS[idx as usize] }
    } else {
        BITS.with_bits(idx)
    }
}
struct BitsTable;
static BITS: BitsTable = BitsTable;
static mut BITVECS: Vec<&'static [u8]> = Vec::new();
static mut TEXTS: Vec<&'static [u8]> = Vec::new();
fn place(p: &Plan) {
    lend::reset();
    unsafe {
        TEXTS = p.texts.iter().map(|t| lend::keep(t.as_bytes())).collect();
        BITVECS = p.bits.iter().map(|b| lend::keep(&b.bytes().map(|c| c - b'0').collect::<Vec<u8>>())).collect();
    }
}
impl BitsTable {
    #[allow(static_mut_refs)]
    fn with_bits(&self, i: u32) -> &'static [u8] {
        unsafe { BITVECS[i as usize] }
    }
}
fn conv_hook(p: *mut u8) -> (*const u8, usize) {
    let c: &mut Conv = unsafe { &mut *(p as *mut Conv) };
    simrt::point(simrt::P_CONV, 0);
    let k = host(|| {
        c.calls += 1;
        let k = c.calls;
        count("conversions", 1);
        if c.sim.panic_at == k {
            c.fired = true;
            count("conversion_panics", 1);
            fault_fired();
            resume_unwind(Box::new(ConvPanic));
        }
        k
    });
    if !c.sim.nest.is_empty() && (c.sim.nest_at == 0 || c.sim.nest_at == k) && host(|| th().depth < 2) {
        host(|| {
            th().depth += 1;
            count("nested_calls", c.sim.nest.len() as u64);
            let ops = c.sim.nest.clone();
            for o in &ops {
                step(o, true);
            }
            th().depth -= 1;
        });
    }
    let r = host(|| {
        let idx = match c.sim.cell {
            Some(x) => w().cells[x as usize],
            None if c.sim.seq.is_empty() => c.own,
            None => c.sim.seq[(k as usize - 1) % c.sim.seq.len()],
        };
        if !c.returned.contains(&idx) {
            if !c.returned.is_empty() {
                count("content_changed_within_call", 1);
            }
            c.returned.push(idx);
        }
        let b = conv_content(c, idx);
        (b.as_ptr(), b.len())
    });
    simrt::point(simrt::P_CONV, 1);
    r
}

// ---------------------------------------------------------------- operations
fn slot(i: u8) -> &'static mut Option<Arc<Val>> {
    let i = i as usize;
    if i >= 64 {
        &mut w().shared[i - 64]
    } else {
        &mut th().slots[i % LOCAL]
    }
}
fn gslot(i: u8) -> &'static mut Option<Arc<Gn>> {
    let i = i as usize;
    if i >= 64 {
        &mut w().shared_g[i - 64]
    } else {
        &mut th().gs[i % LOCAL]
    }
}

fn oracle(what: &dyn Fn() -> String, got: &Out, allowed: &[Out], fired: bool) {
    w().rep.calls += 1;
    simrt::mix_trace(got.hash ^ got.class as u64);
    let x = &mut w().rep;
    x.outcomes = mix(x.outcomes ^ got.hash ^ got.class as u64);
    if w().lax || allowed.iter().any(|a| a.same(got)) {
        if fired {
            count("calls_completed_despite_fault", 1);
        }
        return;
    }
    if fired && got.class != C_OK {
        count("calls_failed_by_fault", 1);
        return;
    }
    let e = allowed.iter().map(|a| a.show()).collect::<Vec<_>>().join(" or ");
    violation("mismatch", &format!("{}: got {}; alone it gives {}", what(), got.show(), e));
}

fn short(s: &str) -> String {
    if s.chars().count() > 70 {
        format!("{:?}...({} chars)", s.chars().take(60).collect::<String>(), s.chars().count())
    } else {
        format!("{s:?}")
    }
}

fn fired() -> bool {
    rt().t[simrt::me().unwrap()].fails_fired > 0
}

fn do_new(k: u8, text: u32, input: &Input) -> (Out, Option<Bc>, Option<Conv>) {
    let s: &str = &w().plan.texts[text as usize];
    let kind = kind(k);
    match input {
        Input::Owned => {
            let owned = lend::own(|| s.to_string());
            let (o, b) = ctor(attempt(move || simops::construct_string(kind, owned)));
            (o, b, None)
        }
        Input::Fixed if s.len() <= 4096 => {
            let buf = &mut th().fixed;
            buf[..s.len()].copy_from_slice(s.as_bytes());
            let t: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(buf.as_ptr(), s.len())) };
            let (o, b) = ctor(attempt(|| simops::construct_str(kind, t)));
            buf[..s.len()].fill(b'~');
            (o, b, None)
        }
        Input::At(n) => {
            let mut buf = vec![b'~'; *n as usize];
            buf.extend_from_slice(s.as_bytes());
            buf.extend_from_slice(b"0A9");
            let (o, b) = lend::lent(&buf, b'~', |buf| {
                let t = unsafe { std::str::from_utf8_unchecked(&buf[*n as usize..*n as usize + s.len()]) };
                ctor(attempt(|| simops::construct_str(kind, t)))
            });
            (o, b, None)
        }
        Input::Str | Input::Fixed => {
            let (o, b) = lend::lent_str(s, |t| ctor(attempt(|| simops::construct_str(kind, t))));
            (o, b, None)
        }
        Input::Sim(sim) => {
            let mut c = Box::new(Conv { own: text, sim: sim.clone(), text: true, calls: 0, returned: vec![], fired: false });
            let t = SimText { ctx: &mut *c as *mut Conv as *mut u8, hook: conv_hook };
            let (o, b) = if sim.by_ref {
                ctor(attempt(|| simops::construct_sim_ref(kind, &t)))
            } else {
                ctor(attempt(|| simops::construct_sim(kind, t)))
            };
            (o, b, Some(*c))
        }
    }
}
fn do_gen(rn: &Rn, bits: u32, input: &Input) -> (Out, Option<Made>, Option<Conv>) {
    let b: &'static [u8] = BITS.with_bits(bits);
    match input {
        Input::Owned => {
            let v = lend::own(|| b.to_vec());
            let (o, m) = made(attempt(move || simops::render_vec(rn, v)));
            (o, m, None)
        }
        Input::Fixed if b.len() <= 4096 => {
            let buf = &mut th().fixed;
            buf[..b.len()].copy_from_slice(b);
            let t: &'static [u8] = unsafe { std::slice::from_raw_parts(buf.as_ptr(), b.len()) };
            let (o, m) = made(attempt(|| simops::render_bits(rn, t)));
            buf[..b.len()].fill(1);
            (o, m, None)
        }
        Input::At(n) => {
            let mut buf = vec![1; *n as usize];
            buf.extend_from_slice(b);
            buf.extend_from_slice(&[1, 0, 1]);
            let (o, m) = lend::lent(&buf, 1, |buf| {
                let t = &buf[*n as usize..*n as usize + b.len()];
                made(attempt(|| simops::render_bits(rn, t)))
            });
            (o, m, None)
        }
        Input::Str | Input::Fixed => {
            let (o, m) = made(attempt(|| simops::render_bits(rn, b)));
            (o, m, None)
        }
        Input::Sim(sim) => {
            let mut c = Box::new(Conv { own: bits, sim: sim.clone(), text: false, calls: 0, returned: vec![], fired: false });
            let t = SimBits { ctx: &mut *c as *mut Conv as *mut u8, hook: conv_hook };
            let (o, m) = if sim.by_ref {
                made(attempt(|| simops::render_sim_ref(rn, &t)))
            } else {
                made(attempt(|| simops::render_sim(rn, t)))
            };
            (o, m, Some(*c))
        }
    }
}
fn drop_made(m: Option<Made>) {
    if let Some(m) = m {
        let _ = attempt(move || drop(m));
    }
}
fn contents(own: u32, conv: &Option<Conv>) -> Vec<u32> {
    match conv {
        None => vec![own],
        Some(c) if !c.returned.is_empty() => c.returned.clone(),
        // A conversion that panicked before returning anything: only failure is acceptable.
        Some(c) if c.fired => vec![],
        // The outcome does not depend on the content.
        Some(_) => vec![own],
    }
}

fn step(o: &OpRec, nested: bool) {
    w().rep.ops += 1;
    if !nested {
        op_begin(o.id + w().base);
    }
    renew_budget();
    if !o.oom.is_empty() && !nested {
        set_alloc_faults(&o.oom);
    }
    op(o);
    if !nested {
        op_end();
        if w().plan.prop == "C12" && rt().stats.ambient_io > 0 {
            let r = rt();
            violation(
                "ambient",
                &format!("operation {} asked the operating system for '{}'", o.id, String::from_utf8_lossy(&r.first_ambient[..r.first_ambient_len])),
            );
        }
    }
}

fn op(o: &OpRec) {
    let p: &'static Plan = unsafe { &*(&w().plan as *const Plan) };
    match &o.op {
        Op::New { slot: s, kind: k, text, input } => {
            let (out, bc, conv) = do_new(*k, *text, input);
            let f = fired();
            simrt::clear_alloc_faults();
            let idx = contents(*text, &conv);
            let allowed: Vec<Out> = idx.iter().map(|&i| expect(&Call::New { kind: *k, text: p.texts[i as usize].clone() })).collect();
            oracle(&|| format!("op {}: new {:?} {}", o.id, kind(*k), idx.iter().map(|&i| short(&p.texts[i as usize])).collect::<Vec<_>>().join(" or ")), &out, &allowed, f);
            if p.prop == "C09" && out.class != C_OK && scan::expressible(kind(*k), &p.texts[*text as usize]) {
                violation("scan", &format!("op {}: no {:?} symbol can be printed for {}: {}", o.id, kind(*k), short(&p.texts[*text as usize]), out.show()));
            }
            let Some(b) = bc else { return };
            // Which content is in force?  With one content it is known; with several the value
            // must behave as one of them.
            let which = if idx.len() == 1 {
                idx[0]
            } else {
                let (eo, _) = modules(attempt(|| simops::encode(&b)));
                let exps: Vec<(u32, Out)> = idx.iter().map(|&i| (i, expect(&Call::Enc { kind: *k, text: p.texts[i as usize].clone(), muts: vec![] }))).collect();
                let al: Vec<Out> = exps.iter().map(|e| e.1.clone()).collect();
                oracle(
                    &|| format!("op {}: encoding of {:?} built while its input changed between {}", o.id, kind(*k), idx.iter().map(|&i| short(&p.texts[i as usize])).collect::<Vec<_>>().join(" and ")),
                    &eo,
                    &al,
                    false,
                );
                exps.iter().find(|e| e.1.same(&eo)).map(|e| e.0).unwrap_or(idx[0])
            };
            let v = Arc::new(Val { bc: Some(b), kind: *k, text: p.texts[which as usize].clone(), muts: vec![] });
            let old = slot(*s).replace(v);
            drop(old);
        }
        Op::Enc { slot: s } => {
            let Some(v) = slot(*s).clone() else { return };
            let (out, _) = modules(attempt(|| simops::encode(v.bc.as_ref().unwrap())));
            let f = fired();
            simrt::clear_alloc_faults();
            let e = expect(&Call::Enc { kind: v.kind, text: v.text.clone(), muts: v.muts.clone() });
            oracle(&|| format!("op {}: encode {:?} {}{}", o.id, kind(v.kind), short(&v.text), show_muts(&v.muts)), &out, &[e], f);
        }
        Op::Mut { slot: s, pos, val } => {
            if let Some(v) = slot(*s) {
                if let Some(v) = Arc::get_mut(v) {
                    if simops::mutate(v.bc.as_mut().unwrap(), *pos as usize, *val) {
                        v.muts.push((*pos, *val));
                        count("fields_changed", 1);
                    }
                }
            }
        }
        Op::Drop { slot: s } => {
            let v = slot(*s).take();
            drop(v);
        }
        Op::Move { from, to, keep } => {
            let v = if *keep { slot(*from).clone() } else { slot(*from).take() };
            if let Some(v) = v {
                count("values_handed_over", 1);
                let old = slot(*to).replace(v);
                drop(old);
            }
        }
        Op::Make { g, cfg } => {
            let c = p.cfgs[*cfg as usize].clone();
            let rc = c.rcfg();
            let rn = attempt(|| simops::make(&rc));
            simrt::clear_alloc_faults();
            match rn {
                Ok(rn) => {
                    let old = gslot(*g).replace(Arc::new(Gn { rn: Some(rn), cfg: c }));
                    drop(old);
                }
                Err(c) => {
                    if !fired() {
                        violation("mismatch", &format!("op {}: building a generator: {}", o.id, unwound(c).show()));
                    }
                }
            }
        }
        Op::Gen { g, bits, input } => {
            let Some(g) = gslot(*g).clone() else { return };
            let (out, m, conv) = do_gen(g.rn.as_ref().unwrap(), *bits, input);
            let f = fired();
            simrt::clear_alloc_faults();
            drop_made(m);
            let idx = contents(*bits, &conv);
            let allowed: Vec<Out> = idx.iter().map(|&i| expect(&Call::Gen { cfg: g.cfg.clone(), bits: p.bits[i as usize].clone() })).collect();
            oracle(&|| format!("op {}: generate {:?} from {}", o.id, g.cfg, idx.iter().map(|&i| short(&p.bits[i as usize])).collect::<Vec<_>>().join(" or ")), &out, &allowed, f);
        }
        Op::EncGen { slot: s, g } => {
            let Some(v) = slot(*s).clone() else { return };
            let Some(g) = gslot(*g).clone() else { return };
            let (out, m) = made(enc_gen(v.bc.as_ref().unwrap(), g.rn.as_ref().unwrap()));
            let f = fired();
            simrt::clear_alloc_faults();
            drop_made(m);
            let e = expect(&Call::EncGen { kind: v.kind, text: v.text.clone(), muts: v.muts.clone(), cfg: g.cfg.clone() });
            oracle(&|| format!("op {}: encode {:?} {}{} and generate {:?}", o.id, kind(v.kind), short(&v.text), show_muts(&v.muts), g.cfg), &out, &[e], f);
        }
        Op::MutG { g, cfg } => {
            if let Some(v) = gslot(*g) {
                if let Some(v) = Arc::get_mut(v) {
                    let c = p.cfgs[*cfg as usize].clone();
                    if simops::assign(v.rn.as_mut().unwrap(), &c.rcfg()) {
                        v.cfg = c;
                        count("fields_changed", 1);
                    }
                }
            }
        }
        Op::DropG { g } => {
            let v = gslot(*g).take();
            drop(v);
        }
        Op::MoveG { from, to } => {
            if let Some(v) = gslot(*from).clone() {
                let old = gslot(*to).replace(v);
                drop(old);
            }
        }
        Op::CloneG { from, to } => {
            if let Some(v) = gslot(*from).clone() {
                match attempt(|| simops::clone_gen(v.rn.as_ref().unwrap())) {
                    Ok(rn) => {
                        count("generators_cloned", 1);
                        let old = gslot(*to).replace(Arc::new(Gn { rn: Some(rn), cfg: v.cfg.clone() }));
                        drop(old);
                    }
                    Err(c) => {
                        if !fired() {
                            violation("mismatch", &format!("op {}: cloning a generator: {}", o.id, unwound(c).show()));
                        }
                    }
                }
                simrt::clear_alloc_faults();
            }
        }
        Op::Switch { cell, to } => {
            w().cells[*cell as usize] = *to;
            count("content_switches", 1);
        }
        Op::Msg { e, style } => {
            let out = do_msg(*e, *style);
            let f = fired();
            simrt::clear_alloc_faults();
            let x = expect(&Call::Msg { e: *e, style: *style });
            oracle(&|| format!("op {}: message of error {e} style {style}", o.id), &out, &[x], f);
        }
        Op::Loop { n, body } => {
            count("loop_iterations", *n as u64);
            for _ in 0..*n {
                for b in body {
                    step(b, true);
                }
            }
        }
        Op::SweepT { kind: k, text, n, seed } => {
            let calls: Vec<Call> = (0..*n as u64).map(|i| Call::Enc { kind: *k, text: vary_text(&p.texts[*text as usize], *seed, i), muts: vec![] }).collect();
            many(o.id, calls);
        }
        Op::SweepB { cfg, bits, n, seed } => {
            let c = &p.cfgs[*cfg as usize];
            let calls: Vec<Call> = (0..*n as u64).map(|i| Call::Gen { cfg: c.clone(), bits: vary_bits(&p.bits[*bits as usize], *seed, i) }).collect();
            many(o.id, calls);
        }
        Op::Channel { kind: k, text, all, seqs } => channel(o.id, *k, &p.texts[*text as usize], *all, seqs),
        Op::Scan { slot: s, seed, count: n } => {
            let Some(v) = slot(*s).clone() else { return };
            scan_op(o.id, &v, *seed, *n);
        }
        Op::Print { kind: k, text, n, seed } => print_op(o.id, *k, &p.texts[*text as usize], *n, *seed),
        Op::Relay { kind: k, text, stations, seed } => relay_op(o.id, kind(*k), &p.texts[*text as usize], stations, *seed),
        Op::Lines { g, bits, seed } => {
            let Some(g) = gslot(*g).clone() else { return };
            crate::lines::lines_op(o.id, g.rn.as_ref().unwrap(), &g.cfg, *bits, *seed);
        }
        Op::Sink { what, idx, style, cap, sticky } => sink_op(o.id, *what, *idx, *style, *cap, *sticky),
    }
}
/// Makes the calls one after the other.  Processes that make a few of them each are the reference:
/// if the outcomes differ, one of the two depends on the calls made before it.
fn many(id: u32, calls: Vec<Call>) {
    for group in calls.chunks(12) {
        let got: Vec<Out> = group
            .iter()
            .map(|c| {
                renew_budget();
                one_call(c)
            })
            .collect();
        let f = fired();
        let e = expect(&Call::Batch { calls: group.to_vec() });
        let want: Vec<Out> = if w().lax || e.class != C_OK { vec![] } else { serde_json::from_str(&e.preview).unwrap() };
        for (i, g) in got.iter().enumerate() {
            let x = want.get(i).cloned().unwrap_or_else(|| e.clone());
            oracle(&|| format!("op {id}: one of {} similar calls in a row, {:?}", calls.len(), group[i]), g, &[x], f);
        }
        count("similar_calls_in_a_row", group.len() as u64);
    }
}
/// A call with the data it is given here, made in this process.
fn one_call(call: &Call) -> Out {
    let build = |k: u8, text: &str, muts: &[(u32, u8)]| -> Result<Bc, Out> {
        let (k, t) = if muts.is_empty() { (k, text.to_string()) } else { fresh_equivalent(k, text, muts) };
        let (o, b) = lend::lent_str(&t, |t| ctor(attempt(|| simops::construct_str(kind(k), t))));
        b.ok_or(o)
    };
    let make = |c: &Cfg| {
        let rc = c.rcfg();
        attempt(|| simops::make(&rc)).map_err(unwound)
    };
    let r = match call {
        Call::New { kind: k, text } => Ok(lend::lent_str(text, |t| ctor(attempt(|| simops::construct_str(kind(*k), t)))).0),
        Call::Enc { kind, text, muts } => build(*kind, text, muts).map(|b| modules(attempt(|| simops::encode(&b))).0),
        Call::Gen { cfg, bits } => make(cfg).map(|rn| {
            let b: Vec<u8> = bits.bytes().map(|c| c - b'0').collect();
            let (o, m) = lend::lent(&b, 1, |b| made(attempt(|| simops::render_bits(&rn, b))));
            drop_made(m);
            o
        }),
        Call::EncGen { kind, text, muts, cfg } => build(*kind, text, muts).and_then(|b| {
            make(cfg).map(|rn| {
                let (o, m) = made(enc_gen(&b, &rn));
                drop_made(m);
                o
            })
        }),
        Call::Msg { e, style } => Ok(do_msg(*e, *style)),
        Call::FmtV { kind, text, style } => build(*kind, text, &[]).map(|b| text_of(|k| simops::fmt_bc(&b, k, *style))),
        Call::FmtG { cfg, part: 255, style } => make(cfg).map(|g| text_of(|k| simops::fmt_rn(&g, k, *style))),
        Call::FmtG { cfg, part, style } => {
            let c = cfg.rcfg();
            Ok(text_of(|k| simops::fmt_parts(&c, *part, k, *style)))
        }
        Call::Batch { calls } => {
            let v: Vec<Out> = calls
                .iter()
                .map(|c| {
                    renew_budget();
                    one_call(c)
                })
                .collect();
            Ok(Out { class: C_OK, len: 0, hash: 0, preview: serde_json::to_string(&v).unwrap() })
        }
    };
    r.unwrap_or_else(|o| o)
}
fn show_muts(m: &[(u32, u8)]) -> String {
    if m.is_empty() {
        String::new()
    } else {
        format!(" with fields set {m:?}")
    }
}
fn enc_gen(b: &Bc, g: &Rn) -> Result<Result<Made, barcoders_error::Error>, u8> {
    attempt(|| {
        let v = simops::encode(b);
        // Long symbols in big pictures are cut: they only cost time.
        let n = v.len().min(host(|| if simops::area(g) % 8 == 0 { 150_000 } else { 60_000 } / simops::area(g).max(1)).max(8));
        simops::render_bits(g, &v[..n])
    })
}
fn do_msg(e: u8, style: u8) -> Out {
    let er = simops::ERRORS[e as usize % 4];
    if style == 9 {
        match attempt(|| simops::error_string(er)) {
            Ok(s) => {
                let o = out_of(0, s.as_bytes(), true);
                sut(|| drop(s));
                o
            }
            Err(c) => unwound(c),
        }
    } else {
        text_of(|k| simops::fmt_error(er, k, style))
    }
}
fn text_of(f: impl FnOnce(&mut SimSink) -> std::fmt::Result) -> Out {
    let mut st = SinkState { got: String::new(), writes: 0, fail_at: 0, sticky: false, part: 0, fired: false, unwinds: false, within: None };
    let mut k = SimSink { ctx: &mut st as *mut _ as *mut u8, hook: sink_hook };
    match attempt(|| f(&mut k)) {
        Ok(Ok(())) => out_of(0, st.got.as_bytes(), true),
        Ok(Err(_)) => out_of(5, b"", true),
        Err(c) => unwound(c),
    }
}

// ---------------------------------------------------------------- for the other modules
pub fn sut_render(rn: &Rn, bits: u32) -> Result<Result<Made, u8>, u8> {
    attempt(|| simops::render_bits(rn, BITS.with_bits(bits))).map(|r| r.map_err(|e| simops::error_code(&e)))
}
pub fn the_bits(i: u32) -> &'static [u8] {
    BITS.with_bits(i)
}
pub fn report_violation(class: &str, msg: &str) -> ! {
    violation(class, msg)
}
pub fn bump(k: &str, n: u64) {
    count(k, n)
}
pub fn note_outcome(h: u64) {
    w().rep.calls += 1;
    simrt::mix_trace(h);
    let x = &mut w().rep;
    x.outcomes = mix(x.outcomes ^ h);
}
pub fn discard(m: Made) {
    drop_made(Some(m))
}
pub fn panic_text(c: u8) -> String {
    unwound(c).show()
}

// ---------------------------------------------------------------- C08
fn corrupt(s: &[u8], c: &Corr) -> Option<Vec<u8>> {
    let mut v = s.to_vec();
    let n = v.len();
    match *c {
        Corr::Sub(p, d) => {
            let p = p as usize % n;
            if !v[p].is_ascii_digit() {
                return None;
            }
            v[p] = b'0' + (v[p] - b'0' + d) % 10;
        }
        Corr::Swap(p) => {
            let p = p as usize % (n - 1);
            v.swap(p, p + 1);
        }
        Corr::Flip(p, b) => v[p as usize % n] ^= 1 << (b % 8),
        Corr::Put(p, ch) => {
            let mut b = [0u8; 4];
            let e = ch.encode_utf8(&mut b).as_bytes();
            let p = p as usize % n;
            if p + e.len() > n {
                return None;
            }
            v[p..p + e.len()].copy_from_slice(e);
        }
        Corr::Rot(p, l) => {
            let p = p as usize % n;
            let e = (p + l as usize % n).min(n);
            if e > p {
                v[p..e].rotate_left(1);
            }
        }
    }
    Some(v)
}
fn channel(id: u32, k: u8, base: &str, all: bool, seqs: &[Vec<Corr>]) {
    let digits: Vec<u8> = base.bytes().map(|b| b - b'0').collect();
    let mut sent: Vec<u8> = base.as_bytes().to_vec();
    sent.push(b'0' + scan::mod10(&digits));
    let n = sent.len();
    let deliver = |arrived: &[u8], how: &str| {
        let Ok(s) = std::str::from_utf8(arrived) else {
            count("garbled_beyond_text", 1);
            return;
        };
        renew_budget();
        let (out, bc) = lend::lent_str(s, |s| ctor(attempt(|| simops::construct_str(kind(k), s))));
        if let Some(b) = bc {
            let _ = attempt(move || drop(b));
        }
        note_outcome(out.class as u64 + 1);
        count("deliveries", 1);
        let all_digits = arrived.iter().all(|b| b.is_ascii_digit());
        let want = if !all_digits {
            1
        } else {
            let d: Vec<u8> = arrived.iter().map(|b| b - b'0').collect();
            if scan::mod10(&d[..n - 1]) == d[n - 1] {
                0
            } else {
                4
            }
        };
        if want == 0 && how != "unaltered" {
            count("undetectable_corruptions", 1);
        }
        let ok = match want {
            0 => out.class == 0,
            4 => out.class == 4,
            _ => out.class == 1,
        };
        if !ok {
            violation(
                "channel",
                &format!(
                    "op {id}: {:?} sent {:?}, {how}, arrived {:?}: got {}, expected {}",
                    kind(k),
                    String::from_utf8_lossy(&sent),
                    s,
                    out.show(),
                    ["Ok", "Err(Character)", "", "", "Err(Checksum)"][want]
                ),
            );
        }
    };
    deliver(&sent, "unaltered");
    if all {
        for p in 0..n {
            for d in 1..10u8 {
                if let Some(v) = corrupt(&sent, &Corr::Sub(p as u8, d)) {
                    count("digit_substitutions", 1);
                    deliver(&v, &format!("digit {p} substituted"));
                }
            }
        }
        for p in 0..n - 1 {
            if sent[p] != sent[p + 1] {
                count("neighbour_swaps", 1);
                deliver(&corrupt(&sent, &Corr::Swap(p as u8)).unwrap(), &format!("digits {p} and {} swapped", p + 1));
            }
        }
        for p in 0..n {
            for b in 0..8 {
                count("bit_flips", 1);
                deliver(&corrupt(&sent, &Corr::Flip(p as u8, b)).unwrap(), &format!("bit {b} of byte {p} flipped"));
            }
        }
    }
    for s in seqs {
        let mut v = sent.clone();
        for c in s {
            if let Some(x) = corrupt(&v, c) {
                v = x;
                count("compound_corruptions", 1);
            }
        }
        if v != sent {
            deliver(&v, &format!("corrupted by {s:?}"));
        }
    }
}

// ---------------------------------------------------------------- C09
fn bits_str(m: &[u8]) -> String {
    m.iter().map(|b| (b'0' + b) as char).collect()
}
fn tables() -> &'static Tables {
    if w().tables.is_none() {
        w().tables = Some(Tables::new());
    }
    unsafe { &*(w().tables.as_ref().unwrap() as *const Tables) }
}
/// Prints symbols of texts like this one and reads them.
fn print_op(id: u32, k: u8, base: &str, n: u32, seed: u64) {
    for i in 0..n as u64 {
        let text = vary_print(kind(k), base, seed, i);
        if !scan::expressible(kind(k), &text) {
            continue;
        }
        renew_budget();
        let (o, b) = lend::lent_str(&text, |t| ctor(attempt(|| simops::construct_str(kind(k), t))));
        let Some(b) = b else { violation("scan", &format!("op {id}: constructing {:?} {}: {}", kind(k), short(&text), o.show())) };
        let m = intact(id, kind(k), &text, &b);
        drop(m);
        let _ = attempt(move || drop(b));
    }
}
/// The modules of an undamaged symbol, after reading them.
fn intact(id: u32, k: simops::Kind, text: &str, bc: &Bc) -> Vec<u8> {
    let t = tables();
    let (out, m) = modules(attempt(|| simops::encode(bc)));
    note_outcome(out.hash);
    let Some(m) = m else { violation("scan", &format!("op {id}: encoding {k:?} {}: {}", short(text), out.show())) };
    let want = scan::submitted(k, text).unwrap();
    count("symbols_printed", 1);
    use simops::Kind::*;
    let plain = k == Itf && text.len() % 2 == 0;
    let rev: Vec<u8> = m.iter().rev().cloned().collect();
    // An add-on is read beside its main symbol, which tells the direction.
    let read = |x: &[u8]| if k == Supp { t.forward(k, plain, x) } else { t.read(k, plain, x) };
    let exchanged = |x: &str| -> String {
        x.chars()
            .map(|c| match c {
                'B' => 'C',
                'C' => 'B',
                c => c,
            })
            .collect()
    };
    for (dir, x) in [("forwards", &m), ("backwards", &rev)] {
        if k == Supp && dir == "backwards" {
            continue;
        }
        match read(x) {
            None if k == Codabar && dir == "forwards" && want.contains('+') && scan::codabar_odd_plus(x, t).is_some_and(|r| r.data == want) => {
                violation("scan", &format!("op {id}: undamaged Codabar symbol of {} cannot be read: + is printed as 101100110011 instead of 1011011011", short(text)))
            }
            Some(r) if k == Codabar && r.data != want && r.data == exchanged(&want) => {
                violation("scan", &format!("op {id}: undamaged Codabar symbol of {} reads with start or stop characters B and C exchanged: {:?}", short(text), r.data))
            }
            None => violation("scan", &format!("op {id}: undamaged {k:?} symbol of {} cannot be read {dir}: {}", short(text), short(&bits_str(&m)))),
            Some(r) if r.data != want => {
                violation("scan", &format!("op {id}: undamaged {k:?} symbol of {} read {dir} gives {:?}: {}", short(text), r.data, short(&bits_str(&m))))
            }
            _ => {}
        }
    }
    let Some(_) = t.forward(k, plain, &m) else { violation("scan", &format!("op {id}: undamaged {k:?} symbol of {} reads only backwards", short(text))) };
    m
}
/// One symbol character damaged: the modules, which character, and how.
fn hurt(alpha: &[Vec<u8>], k: simops::Kind, m: &[u8], spans: &[(usize, usize)], rng: &mut Rng) -> (Vec<u8>, usize, &'static str) {
    let c = rng.below(spans.len() as u64) as usize;
    let (s, e) = spans[c];
    let how;
    let d = if k == simops::Kind::Itf {
        let mut pat = [1u8; 5];
        if rng.chance(2, 3) {
            // another digit
            let a = rng.below(5) as usize;
            let b = (a + 1 + rng.below(4) as usize) % 5;
            pat[a] = 3;
            pat[b] = 3;
            how = "replaced";
        } else {
            for x in pat.iter_mut() {
                *x = rng.range(1, 4) as u8;
            }
            how = "smeared";
        }
        scan::itf_damage(m, c, &pat)
    } else {
        let mut rep: Vec<u8> = m[s..e].to_vec();
        match rng.below(3) {
            0 | 1 => {
                how = "replaced";
                rep = alpha[rng.below(alpha.len() as u64) as usize].clone();
            }
            _ => {
                how = "smeared";
                let f = rng.range(1, 4);
                for _ in 0..f {
                    let x = rng.below(rep.len() as u64) as usize;
                    rep[x] ^= 1;
                }
            }
        }
        let mut d = m[..s].to_vec();
        d.extend_from_slice(&rep);
        d.extend_from_slice(&m[e..]);
        d
    };
    (d, c, how)
}
fn scan_op(id: u32, v: &Val, seed: u64, n: u32) {
    let k = kind(v.kind);
    let t = tables();
    let m = intact(id, k, &v.text, v.bc.as_ref().unwrap());
    let want = scan::submitted(k, &v.text).unwrap();
    let plain = k == simops::Kind::Itf && v.text.len() % 2 == 0;
    use simops::Kind::*;
    let read = |x: &[u8]| if k == Supp { t.forward(k, plain, x) } else { t.read(k, plain, x) };
    let r = t.forward(k, plain, &m).unwrap();
    let spans = r.spans;
    if k == simops::Kind::Code128 && spans.len() > 102 {
        // Position weights are a multiple of the modulus from the 103rd character on.
        return;
    }
    let alpha = t.alphabet(k);
    let mut rng = Rng::new(seed);
    if matches!(k, Supp) && v.text.len() == 2 {
        // four digits share a parity
        return;
    }
    let elementary = plain || matches!(k, Codabar | Code39 | Stf);
    for i in 0..n {
        if elementary {
            let e = if k == Stf { 2 * rng.below((scan::elements(&m) / 2) as u64) } else { rng.below(scan::elements(&m) as u64) } as usize;
            let d = scan::element_damage(&m, e, if matches!(k, Stf | Itf) { 3 } else { 2 });
            count("elements_misprinted", 1);
            let drev: Vec<u8> = d.iter().rev().cloned().collect();
            for (dir, x) in [("forwards", &d), ("backwards", &drev)] {
                match read(x) {
                    None => count("damage_rejected", 1),
                    Some(r) if r.data == want => count("damage_harmless", 1),
                    Some(r) => violation(
                        "scan",
                        &format!("op {id}: {k:?} symbol of {} with element {e} misprinted (damage {i}) reads {dir} as {:?}: {}", short(&v.text), r.data, short(&bits_str(&d))),
                    ),
                }
            }
            continue;
        }
        let (d, c, how) = hurt(&alpha, k, &m, &spans, &mut rng);
        if d == m {
            continue;
        }
        count(if how == "replaced" { "characters_replaced" } else { "characters_smeared" }, 1);
        let drev: Vec<u8> = d.iter().rev().cloned().collect();
        for (dir, x) in [("forwards", &d), ("backwards", &drev)] {
            if k == Supp && dir == "backwards" {
                continue;
            }
            match read(x) {
                None => count("damage_rejected", 1),
                Some(r) if r.data == want => count("damage_harmless", 1),
                Some(r) => violation(
                    "scan",
                    &format!("op {id}: {k:?} symbol of {} with character {c} {how} (damage {i}) reads {dir} as {:?}: {}", short(&v.text), r.data, short(&bits_str(&d))),
                ),
            }
        }
    }
}

// ---------------------------------------------------------------- C13
/// Code 128 data as a text for the constructor, in one of the ways there are.
fn spell128(data: &str, rng: &mut Rng) -> String {
    let c: Vec<char> = data.chars().collect();
    let mut s = String::new();
    let mut set = ' ';
    let mut i = 0;
    while i < c.len() {
        let run = c[i..].iter().take_while(|c| c.is_ascii_digit()).count();
        let u = c[i] as u32;
        let to = if run >= 2 && (set == '\u{106}' || rng.chance(1, 3)) {
            '\u{106}'
        } else if u == 0x179 && set == '\u{106}' {
            set
        } else if u < 0x20 {
            '\u{C0}'
        } else if (0x60..0x80).contains(&u) {
            '\u{181}'
        } else if (set == '\u{C0}' || set == '\u{181}') && rng.chance(7, 8) {
            set
        } else {
            *rng.pick(&['\u{C0}', '\u{181}'])
        };
        if to != set {
            s.push(to);
            set = to;
        }
        s.push(c[i]);
        i += 1;
        if set == '\u{106}' && u != 0x179 {
            s.push(c[i]);
            i += 1;
        }
    }
    s
}
fn relay_op(id: u32, k: simops::Kind, first: &str, stations: &[Station], seed: u64) {
    use simops::Kind::*;
    if !scan::expressible(k, first) {
        return;
    }
    let t = tables();
    let alpha = t.alphabet(k);
    let mut rng = Rng::new(seed);
    let want = scan::submitted(k, first).unwrap();
    if want.is_empty() {
        return;
    }
    let number = matches!(k, Ean13 | Ean8 | Upca);
    let plain = k == Itf && first.len() % 2 == 0;
    let read = |x: &[u8]| if k == Supp { t.forward(k, plain, x) } else { t.read(k, plain, x) };
    let mut text = first.to_string();
    for (no, st) in stations.iter().enumerate() {
        let who = |text: &str| format!("op {id}: station {no}, {k:?} {}", short(text));
        // typed in
        for c in &st.typos {
            if !number || no == 0 {
                continue;
            }
            let Some(v) = corrupt(text.as_bytes(), c) else { continue };
            let Ok(v) = String::from_utf8(v) else { continue };
            if v == text {
                continue;
            }
            renew_budget();
            let (o, b) = lend::lent_str(&v, |t| ctor(attempt(|| simops::construct_str(k, t))));
            count("numbers_mistyped", 1);
            let digits = v.bytes().all(|b| b.is_ascii_digit());
            let good = digits && {
                let d: Vec<u8> = v.bytes().map(|b| b - b'0').collect();
                scan::mod10(&d[..d.len() - 1]) == d[d.len() - 1]
            };
            if let Some(b) = b {
                if !good {
                    violation("relay", &format!("{}: mistyped as {v:?} and accepted", who(&text)));
                }
                let _ = attempt(move || drop(b));
            } else if good {
                violation("relay", &format!("{}: typed in as {v:?}: {}", who(&text), o.show()));
            }
        }
        renew_budget();
        let (o, b) = lend::lent_str(&text, |t| ctor(attempt(|| simops::construct_str(k, t))));
        let Some(bc) = b else { violation("relay", &format!("{}: not accepted: {}", who(&text), o.show())) };
        // printed
        let cfg = &w().plan.cfgs[st.cfg as usize];
        let rc = cfg.rcfg();
        let rn = match attempt(|| simops::make(&rc)) {
            Ok(rn) => rn,
            Err(c) => violation("relay", &format!("{}: building a generator: {}", who(&text), unwound(c).show())),
        };
        renew_budget();
        let r = if st.direct {
            enc_gen_all(&bc, &rn)
        } else {
            attempt(|| simops::encode(&bc)).and_then(|m| {
                let copy = m.clone();
                drop(m);
                lend::lent(&copy, 1, |c| attempt(|| simops::render_bits(&rn, c)))
            })
        };
        let picture = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => violation("relay", &format!("{}: rendering as {cfg:?} fails: {e}", who(&text))),
            Err(c) => violation("relay", &format!("{}: rendering as {cfg:?}: {}", who(&text), unwound(c).show())),
        };
        count("symbols_printed", 1);
        let units = match crate::lines::beam(&picture, cfg, &mut rng) {
            Ok(u) => u,
            Err(e) => violation("relay", &format!("{}, rendered as {cfg:?}: {e}", who(&text))),
        };
        discard(picture);
        let _ = attempt(move || {
            drop(bc);
            drop(rn);
        });
        let x = cfg.xdim as usize;
        let m: Vec<u8> = units.iter().step_by(x).cloned().collect();
        if m.iter().flat_map(|b| std::iter::repeat_n(*b, x)).collect::<Vec<u8>>() != units {
            violation("relay", &format!("{}, rendered as {cfg:?}: bars are not whole multiples of {x} units: {}", who(&text), short(&bits_str(&units))));
        }
        note_outcome(hash_bytes(&m));
        let turned = k != Supp && rng.chance(1, 2);
        let seen: Vec<u8> = if turned { m.iter().rev().cloned().collect() } else { m.clone() };
        let got = match read(&seen) {
            Some(r) => r.data,
            None => violation("relay", &format!("{}, rendered as {cfg:?}: cannot be read: {}", who(&text), short(&bits_str(&m)))),
        };
        if got != want {
            violation("relay", &format!("{}, rendered as {cfg:?}: read as {}: {}", who(&text), short(&got), short(&bits_str(&m))));
        }
        // readings of a damaged line
        let protected = !plain && !matches!(k, Codabar | Code39 | Stf) && !(k == Supp && first.len() == 2);
        let Some(fw) = t.forward(k, plain, &m) else { violation("relay", &format!("{}: reads only backwards", who(&text))) };
        if protected && !(k == Code128 && fw.spans.len() > 102) {
            for _ in 0..st.hurt {
                let (d, c, how) = hurt(&alpha, k, &m, &fw.spans, &mut rng);
                count("damaged_readings", 1);
                let d: Vec<u8> = if turned { d.into_iter().rev().collect() } else { d };
                if let Some(r) = read(&d) {
                    if r.data != want {
                        violation("relay", &format!("{}: character {c} {how}, read as {}", who(&text), short(&r.data)));
                    }
                }
            }
        }
        // typed in at the next station
        text = match k {
            Code128 => spell128(&got, &mut rng),
            _ => got,
        };
        count("stations_passed", 1);
    }
}
fn enc_gen_all(b: &Bc, g: &Rn) -> Result<Result<Made, barcoders_error::Error>, u8> {
    attempt(|| {
        let v = simops::encode(b);
        simops::render_vec(g, v)
    })
}

// ---------------------------------------------------------------- C11
struct SinkState {
    got: String,
    writes: u32,
    fail_at: u32,
    sticky: bool,
    /// Bytes of the failing write that still get through.
    part: usize,
    fired: bool,
    /// The failure is a panic.
    unwinds: bool,
    /// What the sink does at every write.
    within: Option<&'static dyn Fn()>,
}
fn sink_hook(p: *mut u8, s: &str) -> bool {
    simrt::point(simrt::P_CONV, 2);
    host(|| {
        let st: &mut SinkState = unsafe { &mut *(p as *mut SinkState) };
        if let Some(f) = st.within {
            f();
        }
        st.writes += 1;
        if st.fail_at != 0 && (st.writes == st.fail_at || (st.sticky && st.writes > st.fail_at)) {
            if !st.fired {
                let mut n = st.part.min(s.len());
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                st.got.push_str(&s[..n]);
            }
            st.fired = true;
            fault_fired();
            if st.unwinds {
                resume_unwind(Box::new(ConvPanic));
            }
            return false;
        }
        st.got.push_str(s);
        true
    })
}
fn sink_op(id: u32, what: u8, idx: u8, style: u8, cap: u32, sticky: bool) {
    let p: &'static Plan = unsafe { &*(&w().plan as *const Plan) };
    let v = if what == 0 { slot(idx).clone() } else { None };
    let g = if what == 1 { gslot(idx).clone() } else { None };
    if (what == 0 && v.is_none()) || (what == 1 && g.is_none()) {
        return;
    }
    let cfg = p.cfgs.get(idx as usize % p.cfgs.len().max(1)).map(|c| c.rcfg());
    // (A value that other threads use might carry results they have worked out meanwhile.)
    let alone = p.phases.iter().all(|x| x.threads.len() == 1);
    let run_as = |fail_at: u32, part: usize, sticky: bool, unwinds: bool, within: Option<&'static dyn Fn()>| -> (Result<std::fmt::Result, u8>, SinkState) {
        let mut st = SinkState { got: String::new(), writes: 0, fail_at, sticky, part, fired: false, unwinds, within };
        let mut k = SimSink { ctx: &mut st as *mut _ as *mut u8, hook: sink_hook };
        renew_budget();
        let r = attempt(|| match what {
            0 => simops::fmt_bc(v.as_ref().unwrap().bc.as_ref().unwrap(), &mut k, style),
            1 => simops::fmt_rn(g.as_ref().unwrap().rn.as_ref().unwrap(), &mut k, style),
            2 => simops::fmt_error(simops::ERRORS[idx as usize % 4], &mut k, style),
            _ => simops::fmt_parts(cfg.as_ref().unwrap(), idx, &mut k, style),
        });
        (r, st)
    };
    let run = |fail_at: u32, part: usize, sticky: bool| run_as(fail_at, part, sticky, false, None);
    let name = || match what {
        0 => format!("{:?} {}", kind(v.as_ref().unwrap().kind), short(&v.as_ref().unwrap().text)),
        1 => format!("generator {:?}", g.as_ref().unwrap().cfg),
        2 => format!("error {:?}", simops::ERRORS[idx as usize % 4]),
        _ => format!("colour or rotation {} of {:?}", idx % 3, cfg),
    };
    let (r, full) = run(0, 0, false);
    if !matches!(r, Ok(Ok(()))) {
        violation("sink", &format!("op {id}: formatting {} (style {style}) into a working sink: {}", name(), match r {
            Ok(_) => "reports failure".to_string(),
            Err(c) => panic_text(c),
        }));
    }
    note_outcome(hash_bytes(full.got.as_bytes()));
    count("texts_formatted", 1);
    if what == 2 && style == 3 {
        // Every kind of error has its own fixed message.
        for e in 0..4u8 {
            let o = do_msg(e, 9);
            if o.class == 0 && e != idx % 4 && o.hash == hash_bytes(full.got.as_bytes()) {
                violation("sink", &format!("op {id}: errors {e} and {} have the same message {:?}", idx % 4, full.got));
            }
        }
        let x = expect(&Call::Msg { e: idx % 4, style: 3 });
        if !x.same(&out_of(0, full.got.as_bytes(), true)) {
            violation("sink", &format!("op {id}: message of {} is {:?}, alone it is {}", name(), full.got, x.show()));
        }
        if full.got.is_empty() {
            violation("sink", &format!("op {id}: {} has no message", name()));
        }
    }
    if p.prop == "C12" {
        let call = match what {
            0 => v.as_ref().filter(|v| v.muts.is_empty()).map(|v| Call::FmtV { kind: v.kind, text: v.text.clone(), style }),
            1 => g.as_ref().map(|g| Call::FmtG { cfg: g.cfg.clone(), part: 255, style }),
            3 if !p.cfgs.is_empty() => Some(Call::FmtG { cfg: p.cfgs[idx as usize % p.cfgs.len()].clone(), part: idx, style }),
            _ => None,
        };
        if let Some(call) = call {
            renew_budget();
            let got = one_call(&call);
            let x = expect(&call);
            oracle(&|| format!("op {id}: {call:?}"), &got, &[x], fired());
        }
    }
    let total = full.writes;
    let mut at = 1;
    while at <= total {
        for part in [0usize, 3] {
            let (r, st) = run(at, part, sticky);
            count(if sticky { "sink_failures_permanent" } else { "sink_failures_transient" }, st.fired as u64);
            if part > 0 && st.fired {
                count("sink_short_writes", 1);
            }
            let how = || format!("op {id}: formatting {} (style {style}) into a sink failing at write {at} of {total}", name());
            match r {
                Err(c) => violation("sink", &format!("{}: {}", how(), panic_text(c))),
                Ok(Ok(())) if st.fired => violation("sink", &format!("{}: success reported", how())),
                Ok(Err(_)) if !st.fired => violation("sink", &format!("{}: failure reported although the sink never failed", how())),
                _ => {}
            }
            if alone && !full.got.starts_with(&st.got) {
                violation("sink", &format!("{}: the sink received {} which is not a prefix of {}", how(), short(&st.got), short(&full.got)));
            }
        }
        at += if total > cap { (total / cap).max(1) } else { 1 };
    }
    // A sink that panics at one write.
    if total > 0 {
        let at = 1 + cap.wrapping_mul(7) % total;
        let (r, st) = run_as(at, 0, sticky, true, None);
        count("sink_panics", st.fired as u64);
        if !matches!(r, Err(C_CONV)) {
            violation("sink", &format!("op {id}: formatting {} (style {style}) into a sink that panics at write {at} of {total}: {}", name(), match r {
                Ok(r) => format!("{r:?} returned"),
                Err(c) => panic_text(c),
            }));
        }
    }
    // A sink that formats the same value, and an error, at every write.
    let inner = || {
        let (r, st) = run(0, 0, false);
        let m = do_msg(idx, 9);
        if !matches!(r, Ok(Ok(()))) || alone && st.got != full.got || m.class != 0 {
            violation("sink", &format!("op {id}: formatting {} (style {style}) inside a write of the same text gives {}; the message of an error there: {}", name(), match r {
                Ok(Ok(())) => short(&st.got),
                Ok(Err(_)) => "failure".into(),
                Err(c) => panic_text(c),
            }, m.show()));
        }
    };
    if total <= 60 {
        let f: &dyn Fn() = &inner;
        let (r, st) = run_as(0, 0, false, false, Some(unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(f) }));
        count("nested_calls", total as u64);
        if !matches!(r, Ok(Ok(()))) || alone && st.got != full.got {
            violation("sink", &format!("op {id}: formatting {} (style {style}) into a sink that formats the same value at every write: {}", name(), match r {
                Ok(Ok(())) => short(&st.got),
                Ok(Err(_)) => "failure".into(),
                Err(c) => panic_text(c),
            }));
        }
    }
    let (r, again) = run(0, 0, false);
    if !matches!(r, Ok(Ok(()))) || alone && again.got != full.got {
        violation("sink", &format!("op {id}: formatting {} again after failures gives {} instead of {}", name(), short(&again.got), short(&full.got)));
    }
}

// ---------------------------------------------------------------- running
fn install(plan: Plan, q: i32, a: i32, shared: *mut simrt::Shared, record: bool) {
    let mode = match &plan.events {
        Some(ev) => simrt::Mode::Replay {
            events: ev
                .iter()
                .map(|e| {
                    let k = match e.3 {
                        'p' => simrt::EvKind::Preempt,
                        's' => simrt::EvKind::Stall,
                        'b' => simrt::EvKind::Boundary,
                        _ => simrt::EvKind::Forced,
                    };
                    ((e.0, e.1, e.2, k), e.4)
                })
                .collect(),
        },
        None => simrt::Mode::Search {
            strategy: match plan.sched.strategy {
                0 => simrt::Strategy::Boundary,
                1 => simrt::Strategy::Slices { mean: plan.sched.param },
                2 => simrt::Strategy::Alloc { num: plan.sched.param as u32 },
                _ => simrt::Strategy::Shared { num: plan.sched.param as u32 },
            },
            boundary_num: plan.sched.boundary_num,
            stall_hazard: plan.sched.stall_hazard,
            max_stalls: plan.sched.max_stalls,
            max_switches: plan.sched.max_switches,
        },
    };
    let _ = record;
    simrt::setup(simrt::Config {
        mode,
        seed: plan.seed,
        reuse: plan.env.reuse,
        poison: plan.env.poison,
        clock_jump_num: plan.env.clock_jump,
        env_mode: plan.env.env_mode,
        env_vals: plan.env.env_vals.clone(),
        io_errno: plan.env.io_errno,
        op_limit: plan.env.op_limit.max(1_000_000),
        fatal,
        shared,
    });
    let lax = plan.prop == "C07";
    place(&plan);
    unsafe {
        WORLD = Some(World {
            plan,
            shared: (0..16).map(|_| None).collect(),
            shared_g: (0..16).map(|_| None).collect(),
            cells: [0; 8],
            cache: BTreeMap::new(),
            rep: Report::default(),
            tables: None,
            q,
            a,
            lax,
            base: 0,
        });
    }
}
fn new_th() -> Th {
    Th { slots: (0..LOCAL).map(|_| None).collect(), gs: (0..LOCAL).map(|_| None).collect(), fixed: Box::new([b'~'; 4096]), depth: 0 }
}
fn drop_th(i: usize) {
    #[allow(static_mut_refs)]
    let t = unsafe { TH[i].take() };
    drop(t);
}

/// Runs one phase of the plan as number `no`.
fn phase(ph: usize, no: u32) {
    let nt = w().plan.phases[ph].threads.len();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for i in 0..nt {
        unsafe { TH[i] = Some(new_th()) };
        bodies.push(Box::new(move || {
            let ops: &'static [OpRec] = unsafe { &*(&w().plan.phases[ph].threads[i][..] as *const [OpRec]) };
            let r = catch_unwind(AssertUnwindSafe(|| {
                for o in ops {
                    step(o, false);
                }
                op_begin(DROPS + 16 * no + i as u32);
                drop_th(i);
                op_end();
            }));
            if r.is_err() {
                simrt::sys::write_err("simulator: harness panic inside a simulated thread\n");
                simrt::sys::exit_group(96);
            }
        }));
    }
    if nt > 0 {
        simrt::run_threads(no, bodies);
    }
}
const DROPS: u32 = 3_000_000_000;

/// C07: repeats the plan with other data and watches what the library keeps.
fn cycles() {
    if w().plan.stay && w().plan.phases.len() == 1 && w().plan.phases[0].threads.len() == 1 {
        simrt::run_threads(
            0,
            vec![Box::new(|| {
                if catch_unwind(rounds_of_calls).is_err() {
                    simrt::sys::write_err("simulator: harness panic inside a simulated thread\n");
                    simrt::sys::exit_group(96);
                }
            })],
        );
    } else {
        rounds_of_calls();
    }
}
fn rounds_of_calls() {
    let orig = w().plan.clone();
    let rounds = orig.rounds as usize;
    let mut live: Vec<u64> = vec![];
    // Something of bounded size may fill up first: the more it looks like a leak, the longer the
    // run is continued.
    for (k, total) in [rounds, rounds * 8, rounds * 80].into_iter().enumerate() {
        while live.len() < total {
            let i = live.len();
            if orig.vary && i > 0 {
                let x = &mut w().plan;
                for (n, t) in orig.texts.iter().enumerate() {
                    x.texts[n] = vary_text(t, orig.seed ^ n as u64, i as u64);
                }
                for (n, t) in orig.bits.iter().enumerate() {
                    x.bits[n] = vary_bits(t, orig.seed ^ n as u64, i as u64);
                }
                for (n, t) in orig.cfgs.iter().enumerate() {
                    x.cfgs[n] = vary_cfg(t, orig.seed ^ n as u64, i as u64);
                }
                place(x);
            }
            w().base = i as u32 * 100_000;
            if orig.stay && orig.phases.len() == 1 && orig.phases[0].threads.len() == 1 {
                unsafe { TH[0] = Some(new_th()) };
                let ops: &'static [OpRec] = unsafe { &*(&w().plan.phases[0].threads[0][..] as *const [OpRec]) };
                for o in ops {
                    step(o, false);
                }
                op_begin(DROPS + 16 * i as u32);
                drop_th(0);
                op_end();
            } else {
                for ph in 0..orig.phases.len() {
                    phase(ph, (i * orig.phases.len() + ph) as u32);
                }
            }
            // Everything obtained from finished calls has been dropped by the threads.
            for s in w().shared.iter_mut() {
                *s = None;
            }
            for s in w().shared_g.iter_mut() {
                *s = None;
            }
            live.push(rt().live as u64);
        }
        let n = live.len();
        let late = *live[n - n / 4..].iter().min().unwrap();
        // A collection that doubles its room now and then grows within any factor of two.
        let early = *live[..if k < 2 { n / 3 } else { n / 2 }].iter().max().unwrap();
        if late <= early {
            break;
        }
        if k < 2 {
            count("runs_continued_to_tell_a_leak_from_a_cache", 1);
            continue;
        }
        let some: Vec<u64> = live.iter().step_by(n / 16).cloned().collect();
        violation("leak", &format!("library heap after every {}th of {n} rounds of calls, everything dropped: {some:?}", n / 16));
    }
    w().rep.live = live;
}

/// Runs the whole plan; never returns.
pub fn run_plan(plan: Plan, q: i32, a: i32, shared: *mut simrt::Shared) -> ! {
    let prop = plan.prop.clone();
    install(plan, q, a, shared, true);
    if prop == "C01" {
        for (t, send, sync) in simops::probes() {
            count("thread_safety_claims", 1);
            if !send || !sync {
                violation("not-shareable", &format!("type {t} cannot be {} between threads", if !send { "moved" } else { "shared" }));
            }
        }
    }
    let nphases = w().plan.phases.len();
    if prop == "C07" && w().plan.rounds > 0 {
        cycles();
    } else {
        for ph in 0..nphases {
            phase(ph, ph as u32);
        }
    }
    let after = |f: Box<dyn FnOnce()>| simrt::run_inline(f);
    if prop == "C12" {
        after(Box::new(|| {
            let _ = attempt(simops::flush);
            if rt().stats.ambient_io > 0 {
                let r = rt();
                violation("ambient", &format!("a call left output behind: '{}'", String::from_utf8_lossy(&r.first_ambient[..r.first_ambient_len])));
            }
            // The process' panic hook must still be the one installed before the run.
            let m = simrt::me().unwrap();
            let before = rt().t[m].panics;
            let _ = catch_unwind(|| panic!("probe"));
            if rt().t[m].panics != before + 1 {
                violation("ambient", "the process-wide panic hook was replaced");
            }
        }));
    }
    finish()
}

/// Makes one call alone in this (pristine) process and reports its outcome; never returns.
pub fn run_solo(call: Call, q: i32, shared: *mut simrt::Shared) -> ! {
    let plan = Plan { prop: "solo".into(), env: Env { op_limit: 400_000_000, io_errno: 13, ..Env::default() }, ..Plan::default() };
    install(plan, q, -1, shared, false);
    rt().fatal = Some(solo_fatal);
    simrt::run_inline(move || {
        unsafe { TH[0] = Some(new_th()) };
        op_begin(0);
        let out = one_call(&call);
        let j = serde_json::to_vec(&out).unwrap();
        send(w().q, b'S', &j);
    });
    simrt::sys::exit_group(0)
}
/// A value whose public fields were changed must behave like one constructed that way: what to
/// construct.
fn fresh_equivalent(k: u8, text: &str, muts: &[(u32, u8)]) -> (u8, String) {
    if let Kind::Code39 | Kind::Code39C = kind(k) {
        let want = if muts.last().unwrap().1 % 2 == 1 { Kind::Code39C } else { Kind::Code39 };
        return (KINDS.iter().position(|x| *x == want).unwrap() as u8, text.to_string());
    }
    let mut d: Vec<u8> = text.bytes().map(|b| b - b'0').collect();
    if kind(k) == Kind::Itf && d.len() % 2 == 1 {
        let c = scan::mod10(&d);
        d.push(c);
    }
    let tf = matches!(kind(k), Kind::Itf | Kind::Stf);
    for m in muts {
        let n = d.len();
        match m.1 {
            10 if tf && n > 2 => d.truncate(n - 2),
            10.. if tf && m.1 > 10 && n < 200 => d.extend([(m.0 % 10) as u8, (m.0 / 3 % 10) as u8]),
            10.. if tf => {}
            _ => d[m.0 as usize % n] = m.1 % 10,
        }
    }
    (k, d.iter().map(|x| (x + b'0') as char).collect())
}
fn solo_fatal(class: &str, _msg: &str) -> ! {
    let o = Out { class: C_DEAD, len: 0, hash: 0, preview: class.to_string() };
    send(w().q, b'S', &serde_json::to_vec(&o).unwrap());
    simrt::sys::exit_group(0)
}
