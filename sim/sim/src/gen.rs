//! Seeded plan generation, one recipe per property.
use crate::plan::*;
use crate::texts::*;
use simops::{Kind, RKind, KINDS};
use simrt::rng::Rng;

const SHARED: u8 = 64;

struct G {
    r: Rng,
    p: Plan,
    next: u32,
    /// (kind, texts of its family)
    fams: Vec<(u8, Vec<u32>)>,
    /// Big pictures are the point of this plan.
    gallery: bool,
}
impl G {
    fn rec(&mut self, op: Op) -> OpRec {
        self.next += 1;
        OpRec { id: self.next, oom: vec![], op }
    }
    fn fail(&mut self, op: Op, oom: Vec<(u32, u32)>) -> OpRec {
        let mut o = self.rec(op);
        o.oom = oom;
        o
    }
    fn text(&mut self, s: String) -> u32 {
        if let Some(i) = self.p.texts.iter().position(|t| *t == s) {
            return i as u32;
        }
        self.p.texts.push(s);
        self.p.texts.len() as u32 - 1
    }
    fn some_kinds(&mut self, lo: u64, hi: u64) -> Vec<Kind> {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| *self.r.pick(&KINDS)).collect()
    }
    fn families(&mut self, lo: u64, hi: u64, max: usize) {
        for k in self.some_kinds(lo, hi) {
            let fixed = matches!(k, Kind::Ean13 | Kind::Ean8 | Kind::Upca | Kind::Supp);
            let deep = matches!(self.p.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C06" | "C12");
            if deep && !fixed && self.r.chance(1, 16) {
                // long texts
                let n = match self.p.prop.as_str() {
                    _ if k != Kind::Code128 => self.r.range(90, 256),
                    "C02" => self.r.range(200, 700),
                    _ => self.r.range(200, 2000),
                } as usize;
                let base = valid_len(k, &mut self.r, n);
                let f = family_of(k, base, &mut self.r, n);
                let ids: Vec<u32> = f.into_iter().map(|s| self.text(s)).collect();
                self.fams.push((kno(k), ids));
                continue;
            }
            let m = if k == Kind::Code128 && self.r.chance(1, 40) { 600 } else { max };
            // Sometimes the same text in another symbology.
            let near = match self.fams.last() {
                Some(l) if self.r.chance(1, 3) => {
                    let base = self.p.texts[l.1[0] as usize].clone();
                    reshaped(k, &base, &mut self.r)
                }
                _ => None,
            };
            let f = match near {
                Some(t) => family_of(k, t, &mut self.r, m),
                None => family(k, &mut self.r, m),
            };
            let ids: Vec<u32> = f.into_iter().map(|s| self.text(s)).collect();
            self.fams.push((kno(k), ids));
        }
    }
    fn rows(&mut self, max: usize) {
        let long = matches!(self.p.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C06" | "C12") && max > 8 && self.r.chance(1, 16);
        if long {
            self.long_rows();
        } else {
            self.p.bits = bit_family(&mut self.r, max);
        }
        self.p.cfgs = cfg_family(&mut self.r);
    }
    fn long_rows(&mut self) {
        let n = *self.r.pick(&[260u64, 520, 1100, 2100, 4200]);
        let n = self.r.range(n * 3 / 4, n) as usize;
        let row = (0..n).map(|_| (b'0' + self.r.below(2) as u8) as char).collect();
        self.p.bits = bit_family_of(row, &mut self.r, n);
    }
    /// Of the largest picture a plan has.
    fn pixels(&self) -> u64 {
        let row = self.p.bits.iter().map(|b| b.len()).max().unwrap_or(0) as u64;
        self.p.cfgs.iter().filter(|c| c.kind >= 3).map(|c| c.height as u64 * c.xdim as u64 * row).max().unwrap_or(0).max(1)
    }
    fn kt(&mut self) -> (u8, u32) {
        let f = self.r.below(self.fams.len() as u64) as usize;
        let t = *self.r.pick(&self.fams[f].1.clone());
        (self.fams[f].0, t)
    }
    /// Mostly the base text, which is valid.
    fn kt_valid(&mut self) -> (u8, u32) {
        let f = self.r.below(self.fams.len() as u64) as usize;
        (self.fams[f].0, self.fams[f].1[0])
    }
    fn some_bits(&mut self) -> u32 {
        self.r.below(self.p.bits.len() as u64) as u32
    }
    fn some_cfg(&mut self) -> u32 {
        self.r.below(self.p.cfgs.len() as u64) as u32
    }
    fn some_input(&mut self, sim: bool) -> Input {
        match self.r.below(if sim { 8 } else { 6 }) {
            0 | 1 => Input::Fixed,
            2 => Input::At(self.r.range(1, 15) as u8),
            3 | 4 => Input::Str,
            5 => Input::Owned,
            _ => Input::Sim(Sim { by_ref: self.r.chance(1, 2), ..Sim::default() }),
        }
    }
    fn slot(&mut self, shared: u64) -> u8 {
        if shared > 0 && self.r.chance(1, 2) {
            SHARED + self.r.below(shared) as u8
        } else {
            self.r.below(4) as u8
        }
    }
    fn own(&mut self) -> u8 {
        self.r.below(4) as u8
    }
    /// An ordinary call.
    fn call(&mut self, shared: u64) -> OpRec {
        let op = match self.r.below(20) {
            0..=6 => {
                let (kind, text) = self.kt();
                let input = self.some_input(true);
                Op::New { slot: self.own(), kind, text, input }
            }
            7..=11 => Op::Enc { slot: self.slot(shared) },
            12 | 13 => Op::EncGen { slot: self.slot(shared), g: self.slot(shared) },
            14 | 15 => Op::Gen { g: self.slot(shared), bits: self.some_bits(), input: self.some_input(true) },
            16 if self.r.chance(1, 2) => Op::Make { g: self.own(), cfg: self.some_cfg() },
            16 => Op::MutG { g: self.own(), cfg: self.some_cfg() },
            17 => Op::Mut { slot: self.own(), pos: self.r.below(30) as u32, val: self.r.below(13) as u8 },
            18 => match self.r.below(4) {
                0 => Op::Drop { slot: self.own() },
                1 => Op::DropG { g: self.own() },
                2 if self.r.chance(1, 2) => Op::MoveG { from: self.slot(shared), to: self.own() },
                2 => Op::CloneG { from: self.slot(shared), to: self.own() },
                _ => Op::Move { from: self.slot(shared), to: self.own(), keep: self.r.chance(1, 2) },
            },
            _ if matches!(self.p.prop.as_str(), "C05" | "C12") && self.r.chance(1, 2) => self.formatted(shared),
            _ => Op::Msg { e: self.r.below(4) as u8, style: *self.r.pick(&[0u8, 1, 2, 3, 4, 5, 7, 9, 13, 14]) },
        };
        self.rec(op)
    }
    /// A value formatted a few times.
    fn formatted(&mut self, shared: u64) -> Op {
        let what = *self.r.pick(&[0u8, 0, 1, 1, 3]);
        let idx = if what == 3 { self.r.below(12) as u8 } else { self.slot(shared) };
        Op::Sink { what, idx, style: self.r.below(16) as u8, cap: 1, sticky: self.r.chance(1, 2) }
    }
    fn start_own(&mut self) -> Vec<OpRec> {
        let mut v = vec![];
        for s in 0..self.r.range(1, 3) as u8 {
            let (kind, text) = self.kt_valid();
            let input = self.some_input(false);
            let o = self.rec(Op::New { slot: s, kind, text, input });
            v.push(o);
        }
        for g in 0..2 {
            let cfg = self.some_cfg();
            let o = self.rec(Op::Make { g, cfg });
            v.push(o);
        }
        v
    }
    /// Phase 0: values every thread uses.
    fn shared_values(&mut self, n: u64) -> Phase {
        let mut v = vec![];
        for s in 0..n as u8 {
            let (kind, text) = if s == 0 || self.r.chance(1, 2) { self.kt_valid() } else { self.kt() };
            let o = self.rec(Op::New { slot: SHARED + s, kind, text, input: Input::Str });
            v.push(o);
            let cfg = self.some_cfg();
            let o = self.rec(Op::Make { g: SHARED + s, cfg });
            v.push(o);
        }
        Phase { threads: vec![v] }
    }
    /// Afterwards every shared value must still be what it was.
    fn sweep(&mut self, n: u64) -> Vec<OpRec> {
        let mut v = vec![];
        for s in 0..n as u8 {
            let o = self.rec(Op::Enc { slot: SHARED + s });
            v.push(o);
            let o = self.rec(Op::EncGen { slot: SHARED + s, g: SHARED + s });
            v.push(o);
        }
        v
    }
    fn own_sweep(&mut self) -> Vec<OpRec> {
        let mut v = vec![];
        for s in 0..4 {
            let o = self.rec(Op::Enc { slot: s });
            v.push(o);
        }
        let b = self.some_bits();
        for g in 0..2 {
            let o = self.rec(Op::Gen { g, bits: b, input: Input::Str });
            v.push(o);
        }
        v
    }
    fn fresh(&mut self, n: usize) -> Vec<OpRec> {
        let mut v = vec![];
        for _ in 0..n {
            let (kind, text) = self.kt();
            let input = self.some_input(false);
            let o = self.rec(Op::New { slot: 0, kind, text, input });
            v.push(o);
            let o = self.rec(Op::Enc { slot: 0 });
            v.push(o);
        }
        v
    }
    fn sched(&mut self) {
        let s = &mut self.p.sched;
        match self.r.below(8) {
            0 => s.strategy = 0,
            1..=3 => {
                s.strategy = 1;
                s.param = self.r.logu(20_000);
            }
            4 => {
                s.strategy = 2;
                s.param = *self.r.pick(&[8u64, 32, 96, 200]);
            }
            _ => {
                s.strategy = 3;
                s.param = *self.r.pick(&[16u64, 64, 160, 255]);
            }
        }
        s.boundary_num = *self.r.pick(&[0u32, 40, 128, 256]);
        s.max_switches = match self.r.below(4) {
            0 => self.r.range(1, 4) as u32,
            1 => self.r.range(5, 60) as u32,
            _ => 4000,
        };
    }
    fn single(&mut self) {
        self.p.sched = Sched::default();
    }
    fn env(&mut self) {
        let e = &mut self.p.env;
        e.reuse = *self.r.pick(&[0u32, 1, 1, 2]);
        e.poison = *self.r.pick(&[0u8, 0x01, 0xA5, 0xFF, 0x30]);
        e.op_limit = 400_000_000;
        e.io_errno = 13;
    }
    fn small(&mut self) -> usize {
        match self.r.below(10) {
            0 => 256,
            1..=3 => 40,
            _ => 14,
        }
    }
    fn alloc_fault(&mut self) -> Vec<(u32, u32)> {
        let first = match self.r.below(4) {
            0 => self.r.range(1, 4),
            1 => self.r.range(1, 16),
            _ => self.r.logu(200),
        } as u32;
        let n = match self.r.below(6) {
            0 => 2,
            1 => self.r.range(2, 8) as u32,
            2 => 1_000_000, // memory stays exhausted until the call is over
            _ => 1,
        };
        let mut v = vec![(first, n)];
        if n < 100 && self.r.chance(1, 5) {
            v.push((first + n + self.r.range(1, 12) as u32, 1));
        }
        v
    }
}

fn renderings(v: &[OpRec]) -> u64 {
    v.iter()
        .map(|o| match &o.op {
            Op::Gen { .. } | Op::EncGen { .. } => 1,
            Op::SweepB { n, .. } => 2 * *n as u64,
            Op::Loop { n, body } => *n as u64 * renderings(body),
            _ => 0,
        })
        .sum()
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut g = G {
        r: Rng::new(seed ^ 0x0070_6c61_6e),
        p: Plan { prop: prop.to_string(), seed, ..Plan::default() },
        next: 0,
        fams: vec![],
        gallery: false,
    };
    g.env();
    match prop {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C13" => c13(&mut g),
        _ => panic!("unknown property {prop}"),
    }
    if prop != "C10" && prop != "C13" {
        // pictures stay small, most of the time
        let mut most = 60_000u64;
        if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06" | "C12") && g.r.chance(1, 12) {
            // The fewer there are, the bigger they may be.
            let drawn: u64 = g.p.phases.iter().flat_map(|x| &x.threads).map(|t| renderings(t)).sum();
            most = (*g.r.pick(&[150_000u64, 300_000, 700_000])).min(8_000_000 / drawn.max(1)).max(60_000);
            if most > 100_000 {
                for c in g.p.cfgs.iter_mut().filter(|c| c.kind >= 3) {
                    c.height = c.height.max(g.r.logu(4000) as u32);
                }
            }
        }
        let n = g.p.bits.iter().map(|b| b.len()).max().unwrap_or(1).max(1) as u64;
        for c in g.p.cfgs.iter_mut().filter(|_| !g.gallery) {
            c.xdim = (c.xdim as u64).min((most / n).max(1)) as u32;
            c.height = (c.height as u64).min((most / n / c.xdim.max(1) as u64).max(1)) as u32;
        }
    }
    g.p
}

fn c01(g: &mut G) {
    let m = g.small();
    g.families(1, 3, m);
    g.rows(150);
    g.sched();
    let ns = g.r.range(1, 4);
    let p0 = g.shared_values(ns);
    let many = g.r.chance(1, 12);
    let nt = if many { *g.r.pick(&[8usize, 9, 12, 17, 20, 34, 66]) } else { *g.r.pick(&[2usize, 2, 2, 3, 3, 4, 6]) };
    let n = g.r.range(3, if many { 6 } else if nt > 3 { 12 } else { 24 });
    let mut ts: Vec<Vec<OpRec>> = vec![];
    // Often all threads do the same thing: the same calls on the same or on related operands.
    let mirrored = g.r.chance(if many { 3 } else { 1 }, if many { 4 } else { 3 });
    for t in 0..nt {
        let mut v = if mirrored { vec![] } else { g.start_own() };
        if mirrored && t > 0 {
            let first: Vec<OpRec> = ts[0usize].clone();
            for o in first {
                let mut op = o.op.clone();
                match &mut op {
                    Op::New { text, kind, .. } if g.r.chance(1, 2) => {
                        let f = g.fams.iter().find(|f| f.0 == *kind).unwrap().1.clone();
                        *text = *g.r.pick(&f);
                    }
                    Op::Gen { bits, .. } if g.r.chance(1, 2) => *bits = g.some_bits(),
                    _ => {}
                }
                let x = g.rec(op);
                v.push(x);
            }
        } else {
            if mirrored {
                v = g.start_own();
            }
            for _ in 0..n {
                let o = g.call(ns);
                v.push(o);
            }
        }
        ts.push(v);
    }
    if !many && g.r.chance(1, 4) {
        if g.r.chance(1, 4) {
            g.long_rows();
        }
        if g.r.chance(1, 3) {
            g.p.sched.strategy = 2;
            g.p.sched.param = *g.r.pick(&[32u64, 96, 200]);
        }
        // Few different calls, each made over and over by every thread: what two calls of one
        // kind do to one another.
        let mut t: Vec<OpRec> = vec![];
        for _ in 0..g.r.range(1, 2) {
            let op = match g.r.below(6) {
                0 | 1 => {
                    let (kind, text) = g.kt_valid();
                    Op::New { slot: 0, kind, text, input: Input::Str }
                }
                2 | 3 => Op::Gen { g: g.r.below(2) as u8, bits: 0, input: Input::Str },
                4 => Op::EncGen { slot: 0, g: g.r.below(2) as u8 },
                _ => Op::Enc { slot: 0 },
            };
            let o = g.rec(op);
            t.push(o);
        }
        let k = g.r.range(4, 10);
        for v in ts.iter_mut() {
            *v = g.start_own();
            for _ in 0..k {
                for o in t.clone() {
                    let mut op = o.op;
                    match &mut op {
                        Op::New { text, kind, .. } => {
                            let f = g.fams.iter().find(|f| f.0 == *kind).unwrap().1.clone();
                            *text = if g.r.chance(1, 2) { f[0] } else { *g.r.pick(&f) };
                        }
                        Op::Gen { bits, .. } => *bits = g.some_bits(),
                        _ => {}
                    }
                    let new = matches!(op, Op::New { .. });
                    let x = g.rec(op);
                    v.push(x);
                    if new {
                        let x = g.rec(Op::Enc { slot: 0 });
                        v.push(x);
                    }
                }
            }
        }
    }
    let last = g.sweep(ns);
    g.p.phases = vec![p0, Phase { threads: ts }, Phase { threads: vec![last] }];
}

/// Big pictures of rows that differ in a module or two, one after another.
fn gallery(g: &mut G) {
    g.gallery = true;
    g.families(1, 1, 12);
    let n = g.r.range(20, 30) + g.r.logu(600);
    let row: Vec<u8> = (0..n).map(|_| b'0' + g.r.below(2) as u8).collect();
    g.p.bits = vec![String::from_utf8(row).unwrap()];
    for _ in 0..g.r.range(1, 4) {
        let mut b = g.r.pick(&g.p.bits).clone().into_bytes();
        for _ in 0..*g.r.pick(&[1u64, 1, 1, 2, 8]) {
            let i = g.r.below(n) as usize;
            b[i] ^= 1;
        }
        g.p.bits.push(String::from_utf8(b).unwrap());
    }
    g.p.cfgs = cfg_family(&mut g.r);
    g.p.cfgs.truncate(2);
    let (xdim, cells) = (g.r.range(1, 6), g.r.range(20_000, 400_000));
    for c in g.p.cfgs.iter_mut() {
        c.xdim = xdim as u32;
        if c.kind >= 3 {
            c.buffer = cells > 60_000;
        }
        let most = if c.kind < 3 { 2000 } else { 20_000 };
        c.height = (cells / (n * xdim) + 1).min(most) as u32;
    }
    g.single();
    let mut v = g.start_own();
    for _ in 0..g.r.range(4, 14) {
        let op = Op::Gen { g: g.r.below(2) as u8, bits: g.some_bits(), input: g.some_input(false) };
        let o = g.rec(op);
        v.push(o);
        if g.r.chance(1, 10) {
            let op = Op::MutG { g: g.r.below(2) as u8, cfg: g.some_cfg() };
            let o = g.rec(op);
            v.push(o);
        }
    }
    g.p.phases.push(Phase { threads: vec![v] });
}

/// The same text in one symbology after the other.
fn kin(g: &mut G) {
    g.families(1, 1, 12);
    g.rows(24);
    g.single();
    let mut v = g.start_own();
    for _ in 0..g.r.range(4, 16) {
        const NUMBERS: [Kind; 4] = [Kind::Ean13, Kind::Ean8, Kind::Upca, Kind::Supp];
        let numbers = g.r.chance(2, 3);
        let k = if numbers { *g.r.pick(&NUMBERS) } else { *g.r.pick(&KINDS) };
        let base = valid(k, &mut g.r, 16);
        let mut all = vec![(k, base.clone())];
        for _ in 0..g.r.range(1, 3) {
            let k = if numbers { *g.r.pick(&NUMBERS) } else { *g.r.pick(&KINDS) };
            if let Some(t) = reshaped(k, &base, &mut g.r) {
                let i = g.r.below(all.len() as u64 + 1) as usize;
                all.insert(i, (k, t));
            }
        }
        for (k, t) in all {
            let text = g.text(t);
            let slot = g.r.below(2) as u8;
            let o = g.rec(Op::New { slot, kind: kno(k), text, input: Input::Str });
            v.push(o);
            let o = g.rec(Op::Enc { slot });
            v.push(o);
        }
    }
    v.extend(g.own_sweep());
    g.p.phases.push(Phase { threads: vec![v] });
}

/// Many texts of one symbology rejected one after another, then one that may be accepted.
fn rejections(g: &mut G) {
    let mut ops = vec![];
    for _ in 0..g.r.range(1, 6) {
        let k = *g.r.pick(&KINDS);
        let f = family(k, &mut g.r, 16);
        let base = f[0].clone();
        let ids: Vec<u32> = f.into_iter().map(|s| g.text(s)).collect();
        g.fams.push((kno(k), ids.clone()));
        let mut body = vec![];
        for _ in 0..g.r.range(1, 2) {
            let bad = match g.r.below(8) {
                0 => String::new(),
                1 => format!("{base}\u{20ac}"),
                2 => base.chars().skip(1).collect(),
                3 => base.repeat(40),
                4 => format!("{base}7"),
                _ => {
                    let mut c: Vec<char> = base.chars().collect();
                    let i = g.r.below(c.len().max(1) as u64) as usize;
                    if i < c.len() {
                        c[i] = *g.r.pick(&['#', 'a', '\u{e9}', '\u{c0}', '\u{181}', '0', '9', 'X', '~']);
                    }
                    c.into_iter().collect()
                }
            };
            let text = g.text(bad);
            let o = g.rec(Op::New { slot: 1, kind: kno(k), text, input: Input::Fixed });
            body.push(o);
        }
        let n = *g.r.pick(&[70u64, 300, 1100, 5200, 5200, 10_500, 17_000]);
        let n = word_int(&mut g.r, 12, 20_000).unwrap_or(n) as u32;
        let l = g.rec(Op::Loop { n, body });
        ops.push(l);
        for _ in 0..2 {
            let text = *g.r.pick(&ids);
            let o = g.rec(Op::New { slot: 0, kind: kno(k), text, input: Input::Str });
            ops.push(o);
            let o = g.rec(Op::Enc { slot: 0 });
            ops.push(o);
        }
    }
    g.rows(24);
    g.single();
    let mut v = g.start_own();
    v.extend(ops);
    v.extend(g.own_sweep());
    v.extend(g.fresh(4));
    g.p.phases.push(Phase { threads: vec![v] });
}

fn c02(g: &mut G) {
    if g.r.chance(1, 16) {
        return gallery(g);
    }
    if g.r.chance(1, 20) {
        return rejections(g);
    }
    if g.r.chance(1, 24) {
        return kin(g);
    }
    if g.r.chance(1, 14) {
        // Many similar calls, and more of them
        let m = g.small();
        g.families(1, 3, m);
        g.rows(24);
        g.single();
        let mut v = g.start_own();
        for _ in 0..g.r.range(1, 3) {
            let o = similar(g);
            v.push(o);
        }
        v.extend(g.own_sweep());
        g.p.phases.push(Phase { threads: vec![v] });
        return;
    }
    let soak = g.r.chance(1, 6);
    if soak {
        // Many calls: mostly one kind, several families of short texts
        let one = g.r.chance(3, 4);
        let k = *g.r.pick(&KINDS);
        for _ in 0..g.r.range(1, 3) {
            let k = if one { k } else { *g.r.pick(&KINDS) };
            let m = *g.r.pick(&[6usize, 6, 14]);
            let base = g.fams.last().map(|l| g.p.texts[l.1[0] as usize].clone()).and_then(|b| reshaped(k, &b, &mut g.r)).filter(|_| !one);
            let f = match base {
                Some(t) => family_of(k, t, &mut g.r, m),
                None => family(k, &mut g.r, m),
            };
            let ids: Vec<u32> = f.into_iter().map(|s| g.text(s)).collect();
            g.fams.push((kno(k), ids));
        }
        g.rows(8);
        for c in g.p.cfgs.iter_mut() {
            c.height = c.height.min(4);
        }
    } else {
        let m = g.small();
        g.families(1, 3, m);
        g.rows(120);
    }
    g.single();
    // Now and then a process that has had many threads, one after another.
    let crowd = !soak && g.r.chance(1, 24);
    let np = if crowd { g.r.range(12, 80) } else { g.r.range(1, 4) } as usize;
    let ns = g.r.range(1, 3);
    let p0 = g.shared_values(ns);
    g.p.phases.push(p0);
    if soak {
        let many = word_int(&mut g.r, 12, 70_000);
        let calls = match g.r.below(24) {
            _ if many.is_some() => many.unwrap(),
            0 => 70_000,
            1 | 2 => 5000,
            3..=7 => 1100,
            8..=15 => g.r.range(300, 800),
            _ => g.r.range(20, 300),
        };
        let mut body = vec![];
        let tiny = calls > 5000;
        for _ in 0..if tiny { 1 } else { g.r.range(1, 8) } {
            let (kind, text) = if g.r.chance(2, 3) { g.kt_valid() } else { g.kt() };
            match g.r.below(8) {
                0 if tiny => {
                    // few pixels only
                    for c in g.p.cfgs.iter_mut() {
                        c.height = c.height.min(1);
                        c.xdim = c.xdim.min(2);
                        c.buffer |= c.kind >= 3;
                    }
                    let some = [g.some_bits(), g.some_bits(), g.some_bits()];
                    let short = some.into_iter().min_by_key(|b| g.p.bits[*b as usize].len()).unwrap();
                    let op = Op::Gen { g: g.r.below(2) as u8, bits: short, input: Input::Fixed };
                    let o = g.rec(op);
                    body.push(o);
                }
                0 if !tiny => {
                    let op = Op::Gen { g: g.r.below(2) as u8, bits: g.some_bits(), input: g.some_input(false) };
                    let o = g.rec(op);
                    body.push(o);
                }
                1 if !tiny => {
                    let op = Op::EncGen { slot: g.own(), g: g.r.below(2) as u8 };
                    let o = g.rec(op);
                    body.push(o);
                }
                2 => {
                    let (kind, text) = g.kt();
                    let o = g.rec(Op::New { slot: 3, kind, text, input: Input::Fixed });
                    body.push(o);
                }
                _ => {
                    let o = g.rec(Op::New { slot: 1, kind, text, input: Input::Fixed });
                    body.push(o);
                    let o = g.rec(Op::Enc { slot: 1 });
                    body.push(o);
                }
            }
        }
        let n = (calls / if tiny { 1 } else { body.len() as u64 }).max(1) as u32;
        let mut v = g.start_own();
        if g.r.chance(1, 4) {
            let o = similar(g);
            v.push(o);
        }
        let l = g.rec(Op::Loop { n, body });
        v.push(l);
        v.extend(g.own_sweep());
        v.extend(g.fresh(4));
        g.p.phases.push(Phase { threads: vec![v] });
    } else {
        for _ in 0..np {
            let mut v = g.start_own();
            let n = if crowd { g.r.range(1, 6) } else { g.r.range(10, 120) };
            for _ in 0..n {
                let o = if g.r.chance(1, 3) {
                    // focus: construct, change, encode, encode again
                    let (kind, text) = g.kt();
                    let s = g.own();
                    let input = g.some_input(false);
                    let o = g.rec(Op::New { slot: s, kind, text, input });
                    v.push(o);
                    if g.r.chance(1, 3) {
                        let e = g.rec(Op::Enc { slot: s });
                        v.push(e);
                        let (pos, val) = (g.r.below(30) as u32, g.r.below(13) as u8);
                        let e = g.rec(Op::Mut { slot: s, pos, val });
                        v.push(e);
                    }
                    if g.r.chance(1, 6) {
                        let o = Op::MutG { g: g.r.below(2) as u8, cfg: g.some_cfg() };
                        let e = g.rec(o);
                        v.push(e);
                        let o = Op::Gen { g: g.r.below(2) as u8, bits: g.some_bits(), input: Input::Str };
                        let e = g.rec(o);
                        v.push(e);
                    }
                    g.rec(Op::Enc { slot: s })
                } else if g.r.chance(1, 16) {
                    // the same call many times, then another of its kind
                    let gen = g.r.chance(1, 2);
                    let most = if gen { (500_000 / g.pixels()).clamp(3, 120) } else { 120 };
                    let n = g.r.logu(most) as u32;
                    let one = |g: &mut G| {
                        let op = if gen {
                            Op::Gen { g: g.r.below(2) as u8, bits: g.some_bits(), input: Input::Fixed }
                        } else {
                            let (kind, text) = g.kt();
                            Op::New { slot: 2, kind, text, input: Input::Fixed }
                        };
                        g.rec(op)
                    };
                    let body = vec![one(g)];
                    let l = g.rec(Op::Loop { n, body });
                    v.push(l);
                    one(g)
                } else {
                    g.call(ns)
                };
                v.push(o);
            }
            v.extend(g.own_sweep());
            g.p.phases.push(Phase { threads: vec![v] });
        }
    }
    let s = g.sweep(ns);
    g.p.phases.push(Phase { threads: vec![s] });
}

/// A call that is going to be cut short.
fn doomed(g: &mut G, ns: u64, conv: bool) -> OpRec {
    let panic_at = g.r.range(1, 3) as u32;
    let sim = Sim { by_ref: g.r.chance(1, 2), panic_at, ..Sim::default() };
    if conv {
        let op = if g.r.chance(2, 3) {
            let (kind, text) = g.kt();
            Op::New { slot: g.own(), kind, text, input: Input::Sim(sim) }
        } else {
            Op::Gen { g: g.slot(ns), bits: g.some_bits(), input: Input::Sim(sim) }
        };
        g.rec(op)
    } else {
        let f = g.alloc_fault();
        let op = match g.r.below(6) {
            0 | 1 => {
                let (kind, text) = g.kt();
                let input = g.some_input(false);
                Op::New { slot: g.own(), kind, text, input }
            }
            2 | 3 => Op::Enc { slot: g.slot(ns) },
            4 => Op::EncGen { slot: g.slot(ns), g: g.slot(ns) },
            _ => Op::Gen { g: g.slot(ns), bits: g.some_bits(), input: Input::Str },
        };
        g.fail(op, f)
    }
}
fn again(g: &mut G, o: &OpRec) -> OpRec {
    let mut op = o.op.clone();
    match &mut op {
        Op::New { input, .. } | Op::Gen { input, .. } => {
            if let Input::Sim(_) = input {
                *input = Input::Str;
            }
        }
        _ => {}
    }
    g.rec(op)
}

/// Many similar calls in a row.
fn similar(g: &mut G) -> OpRec {
    let seed = g.r.next();
    let n = g.r.range(40, 700) as u32;
    let op = if g.r.chance(1, 2) {
        let (kind, text) = if g.r.chance(5, 6) { g.kt_valid() } else { g.kt() };
        let n = if g.p.texts[text as usize].len() > 40 { n.min(60) } else { n };
        Op::SweepT { kind, text, n, seed }
    } else {
        let len = g.r.range(8, 28) as usize;
        g.p.bits.push("1".repeat(len));
        let bits = g.p.bits.len() as u32 - 1;
        let i = g.some_cfg() as usize;
        let mut c = g.p.cfgs[i].clone();
        c.height = c.height.min(2);
        c.xdim = c.xdim.min(2);
        g.p.cfgs.push(c);
        Op::SweepB { cfg: g.p.cfgs.len() as u32 - 1, bits, n, seed }
    };
    g.rec(op)
}

fn c03(g: &mut G) {
    let m = g.small();
    g.families(1, 2, m);
    g.rows(120);
    let nt = *g.r.pick(&[1usize, 1, 2, 3]);
    if nt > 1 {
        g.sched();
    } else {
        g.single();
    }
    let ns = g.r.range(1, 3);
    let p0 = g.shared_values(ns);
    let mut ts = vec![];
    // Or one call that is cut short again and again, at the same place.
    let siege = nt == 1 && g.r.chance(1, 8);
    // ... say, a rendering of many rows
    let tall = siege && g.r.chance(1, 3);
    if tall {
        for c in g.p.cfgs.iter_mut().filter(|c| c.kind < 2) {
            c.kind = 0;
            c.height = g.r.range(1, 3000) as u32;
        }
        for b in g.p.bits.iter_mut() {
            b.truncate(g.r.range(1, 20) as usize);
        }
    }
    for _ in 0..nt {
        let mut v = g.start_own();
        if siege {
            let conv = g.r.chance(1, 5);
            let mut d = doomed(g, ns, conv);
            for _ in 0..20 {
                if tall && !matches!(d.op, Op::Gen { .. } | Op::EncGen { .. }) {
                    d = doomed(g, ns, conv);
                }
            }
            for _ in 0..g.r.range(60, 400) {
                let x = g.fail(d.op.clone(), d.oom.clone());
                v.push(x);
            }
        }
        for _ in 0..if siege { 1 } else { g.r.range(2, 12) } {
            for _ in 0..g.r.below(3) {
                let o = g.call(ns);
                v.push(o);
            }
            let conv = g.r.chance(2, 5);
            let d = doomed(g, ns, conv);
            let a = again(g, &d);
            if g.r.chance(1, 6) {
                // a storm: the same call is cut short many times
                for _ in 0..if g.r.chance(1, 6) { g.r.range(60, 200) } else { g.r.logu(60) } {
                    let x = g.fail(d.op.clone(), d.oom.clone());
                    v.push(x);
                }
            }
            v.push(d);
            // straight afterwards, on the same thread: the same call, then related ones
            if g.r.chance(3, 4) {
                v.push(a);
            }
            if g.r.chance(1, 2) {
                let f = g.fresh(1);
                v.extend(f);
            }
        }
        v.extend(g.own_sweep());
        v.extend(g.fresh(2));
        ts.push(v);
    }
    let mut last = g.sweep(ns);
    last.extend(g.fresh(3));
    g.p.phases = vec![p0, Phase { threads: ts }, Phase { threads: vec![last] }];
}

fn c04(g: &mut G) {
    let m = g.small();
    g.families(1, 2, m);
    g.rows(120);
    g.single();
    let ns = g.r.range(1, 2);
    let p0 = g.shared_values(ns);
    let mut v = g.start_own();
    for _ in 0..g.r.range(1, 3) {
        let proto = match g.r.below(6) {
            0 | 1 => {
                let (kind, text) = if g.r.chance(3, 4) { g.kt_valid() } else { g.kt() };
                let input = g.some_input(false);
                Op::New { slot: 0, kind, text, input }
            }
            2 | 3 => Op::Enc { slot: g.slot(ns) },
            4 => Op::EncGen { slot: g.slot(ns), g: g.slot(ns) },
            _ => Op::Gen { g: g.slot(ns), bits: g.some_bits(), input: Input::Str },
        };
        let burst = *g.r.pick(&[1u32, 1, 1, 2, 3, 1_000_000]);
        let n = match g.r.below(3) {
            0 => 8,
            1 => 24,
            _ => 60,
        };
        let from = if g.r.chance(1, 4) { g.r.logu(300) as u32 } else { 1 };
        for k in from..from + n {
            let o = g.fail(proto.clone(), vec![(k, burst)]);
            v.push(o);
            if let Op::New { .. } = proto {
                let o = g.rec(Op::Enc { slot: 0 });
                v.push(o);
                let o = g.rec(Op::Drop { slot: 0 });
                v.push(o);
            }
        }
        let o = g.rec(proto);
        v.push(o);
    }
    v.extend(g.own_sweep());
    let last = g.sweep(ns);
    g.p.phases = vec![p0, Phase { threads: vec![v] }, Phase { threads: vec![last] }];
}

fn c05(g: &mut G) {
    let m = g.small().min(40);
    g.families(1, 2, m);
    g.rows(60);
    g.sched();
    let ns = g.r.range(1, 3);
    let p0 = g.shared_values(ns);
    let nt = g.r.range(2, 5) as usize;
    let mirrored = g.r.chance(1, 2);
    let mut ts: Vec<Vec<OpRec>> = vec![];
    for t in 0..nt {
        let mut v = g.start_own();
        if mirrored && t > 0 {
            let f = ts[0].clone();
            v = f.into_iter().map(|o| g.rec(o.op)).collect();
        } else {
            for _ in 0..g.r.range(3, 12) {
                let o = g.call(ns);
                v.push(o);
            }
        }
        ts.push(v);
    }
    let s = &mut g.p.sched;
    if s.strategy == 0 {
        s.strategy = 1;
        s.param = 50;
    }
    s.max_stalls = g.r.range(1, nt as u64 - 1) as u32;
    s.stall_hazard = match s.strategy {
        // decisions come every `param` points: suspend within the first calls or much later
        1 => g.r.logu((60_000 / s.param.max(1)).max(4)),
        _ => g.r.logu(60),
    };
    s.max_switches = s.max_switches.max(40);
    g.p.env.op_limit = 60_000_000;
    let last = g.sweep(ns);
    g.p.phases = vec![p0, Phase { threads: ts }, Phase { threads: vec![last] }];
}

fn c06(g: &mut G) {
    let m = g.small();
    g.families(1, 2, m);
    let m = if g.r.chance(1, 5) { 500 } else { 100 };
    g.rows(m);
    let nt = *g.r.pick(&[1usize, 1, 2, 2, 3]);
    if nt > 1 {
        g.sched();
    } else {
        g.single();
    }
    let ns = g.r.range(1, 2);
    let p0 = g.shared_values(ns);
    // cell c holds texts of family c (c < families), cells 4.. hold bit rows
    let mut init = p0.threads[0].clone();
    for c in 0..g.fams.len() {
        let to = g.fams[c].1[0];
        let o = g.rec(Op::Switch { cell: c as u8, to });
        init.push(o);
    }
    let b = g.some_bits();
    let o = g.rec(Op::Switch { cell: 4, to: b });
    init.push(o);
    let mut ts = vec![];
    for _ in 0..nt {
        let mut v = g.start_own();
        for _ in 0..g.r.range(3, 14) {
            if nt > 1 && g.r.chance(1, 3) {
                for _ in 0..g.r.range(1, 6) {
                    let o = if g.r.chance(2, 3) {
                        let c = g.r.below(g.fams.len() as u64) as usize;
                        let to = *g.r.pick(&g.fams[c].1.clone());
                        g.rec(Op::Switch { cell: c as u8, to })
                    } else {
                        let to = g.some_bits();
                        g.rec(Op::Switch { cell: 4, to })
                    };
                    v.push(o);
                }
            }
            let mut sim = Sim { by_ref: g.r.chance(1, 2), ..Sim::default() };
            let rows = g.r.chance(1, 3);
            let f = g.r.below(g.fams.len() as u64) as usize;
            match g.r.below(if nt > 1 { 4 } else { 3 }) {
                0 => {} // constant content
                1 | 2 => {
                    for _ in 0..g.r.range(2, 5) {
                        let x = if rows { g.some_bits() } else { *g.r.pick(&g.fams[f].1.clone()) };
                        sim.seq.push(x);
                    }
                }
                _ => sim.cell = Some(if rows { 4 } else { f as u8 }),
            }
            let gg = g.slot(ns);
            if g.r.chance(1, 3) {
                for _ in 0..g.r.range(1, 3) {
                    let o = match g.r.below(3) {
                        0 if rows => {
                            // the same generator once more
                            let bits = g.some_bits();
                            g.rec(Op::Gen { g: gg, bits, input: Input::Str })
                        }
                        0 => {
                            // the same kind of call as the one being interrupted
                            let t = *g.r.pick(&g.fams[f].1.clone());
                            let k = g.fams[f].0;
                            g.rec(Op::New { slot: 5, kind: k, text: t, input: Input::Str })
                        }
                        _ => g.call(ns),
                    };
                    sim.nest.push(o);
                }
                if g.r.chance(1, 2) {
                    let e = g.rec(Op::Enc { slot: 5 });
                    sim.nest.push(e);
                }
                sim.nest_at = g.r.below(3) as u32;
            }
            let o = if rows {
                let bits = g.some_bits();
                g.rec(Op::Gen { g: gg, bits, input: Input::Sim(sim) })
            } else {
                let text = *g.r.pick(&g.fams[f].1.clone());
                let kind = g.fams[f].0;
                let slot = g.own();
                g.rec(Op::New { slot, kind, text, input: Input::Sim(sim) })
            };
            v.push(o);
            if g.r.chance(1, 2) {
                let s = g.own();
                let e = g.rec(Op::Enc { slot: s });
                v.push(e);
            }
        }
        v.extend(g.own_sweep());
        ts.push(v);
    }
    let last = g.sweep(ns);
    g.p.phases = vec![Phase { threads: vec![init] }, Phase { threads: ts }, Phase { threads: vec![last] }];
}

fn c07(g: &mut G) {
    let kinds = g.some_kinds(1, 2);
    let max = *g.r.pick(&[8usize, 14, 30]);
    g.rows(60);
    let nt = *g.r.pick(&[1usize, 1, 2, 3]);
    if nt > 1 {
        g.sched();
    } else {
        g.single();
    }
    g.p.rounds = 36;
    g.p.vary = g.r.chance(3, 4);
    g.p.stay = nt == 1 && g.r.chance(2, 3);
    let mut ts = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..g.r.range(4, 10) {
            let k = *g.r.pick(&kinds);
            let slot = g.own();
            let oom = if g.r.chance(1, 5) { g.alloc_fault() } else { vec![] };
            let input = if oom.is_empty() && g.r.chance(1, 6) { Input::Sim(Sim { panic_at: g.r.range(1, 2) as u32, ..Sim::default() }) } else { Input::Str };
            let what = g.r.below(8);
            match what {
                0..=3 => {
                    let len = match k {
                        Kind::Ean13 => 12,
                        Kind::Ean8 => 7,
                        Kind::Upca => 11,
                        Kind::Supp => *g.r.pick(&[2usize, 5]),
                        _ => length(&mut g.r, max),
                    };
                    let mut s = valid_len(k, &mut g.r, len);
                    if what == 3 {
                        s = odd_one(k, &s, &mut g.r);
                    }
                    let text = g.text(s);
                    let o = g.fail(Op::New { slot, kind: kno(k), text, input }, oom);
                    v.push(o);
                }
                4 | 5 => {
                    let o = g.fail(Op::Enc { slot }, oom);
                    v.push(o);
                }
                6 => {
                    let cfg = g.some_cfg();
                    let m = g.rec(Op::Make { g: slot, cfg });
                    v.push(m);
                    let bits = g.some_bits();
                    let o = g.fail(Op::Gen { g: slot, bits, input }, oom);
                    v.push(o);
                }
                _ if g.r.chance(1, 3) => {
                    let o = if g.r.chance(1, 2) { Op::Msg { e: g.r.below(4) as u8, style: 9 } } else { g.formatted(0) };
                    let o = g.rec(o);
                    v.push(o);
                }
                _ => {
                    let cfg = g.some_cfg();
                    let m = g.rec(Op::Make { g: slot, cfg });
                    v.push(m);
                    let o = g.fail(Op::EncGen { slot, g: slot }, oom);
                    v.push(o);
                }
            }
        }
        ts.push(v);
    }
    g.p.phases = vec![Phase { threads: ts }];
}

fn c08(g: &mut G) {
    g.single();
    let mut v = vec![];
    for _ in 0..g.r.range(1, 2) {
        let k = *g.r.pick(&[Kind::Ean13, Kind::Ean8, Kind::Upca]);
        let n = match k {
            Kind::Ean13 => 12,
            Kind::Ean8 => 7,
            _ => 11,
        };
        let s = valid_len(k, &mut g.r, n)[..n].to_string();
        let text = g.text(s);
        let mut seqs = vec![];
        for _ in 0..g.r.range(10, 60) {
            let mut q = vec![];
            for _ in 0..g.r.range(1, 4) {
                let p = g.r.below(n as u64 + 1) as u8;
                q.push(match g.r.below(12) {
                    0..=3 => Corr::Sub(p, g.r.range(1, 9) as u8),
                    4..=6 => Corr::Swap(p),
                    7 => Corr::Flip(p, g.r.below(8) as u8),
                    8 | 9 if g.r.chance(1, 2) => {
                        let p = match g.r.below(3) {
                            0 => p,
                            1 => 0,
                            _ => n as u8,
                        };
                        match word_char(&mut g.r) {
                            Some(c) if g.r.chance(1, 2) => Corr::Put(p, c),
                            _ => Corr::Put(p, (b'A' + g.r.below(26) as u8 + 32 * (g.r.below(4) == 0) as u8) as char),
                        }
                    }
                    8 if g.r.chance(1, 2) => Corr::Put(p, g.r.below(128) as u8 as char),
                    8 => Corr::Put(p, *g.r.pick(&['a', ' ', ':', '/', '-', '+', '\u{0}', 'O', 'o', 'l', 'I', 'B', 'S', 'Z', '.', ',', '_', '\'', '?', 'x'])),
                    9 if g.r.chance(1, 3) => Corr::Put(p, char::from_u32(g.r.range(0x80, 0xd000) as u32).unwrap()),
                    9 => Corr::Put(p, *g.r.pick(&['é', '\u{80}', 'µ', '٣', '\u{661}', '１', '𝟗'])),
                    _ => Corr::Rot(p, g.r.range(2, 12) as u8),
                });
            }
            seqs.push(q);
        }
        let all = g.r.chance(3, 4);
        let o = g.rec(Op::Channel { kind: kno(k), text, all, seqs });
        v.push(o);
    }
    g.p.phases = vec![Phase { threads: vec![v] }];
}

/// Something to print that a scanner can read.
fn printable(g: &mut G, findings: bool) -> (Kind, String) {
    let k = *g.r.pick(&[Kind::Ean13, Kind::Ean8, Kind::Upca, Kind::Code11, Kind::Code11, Kind::Code39C, Kind::Code39C, Kind::Code93, Kind::Code93, Kind::Code128, Kind::Code128, Kind::Itf, Kind::Itf, Kind::Supp, Kind::Codabar, Kind::Code39, Kind::Stf]);
    let t = match k {
        Kind::Ean13 => digits(&mut g.r, 12),
        Kind::Ean8 => digits(&mut g.r, 7),
        Kind::Upca => digits(&mut g.r, 11),
        Kind::Itf => {
            let n = length(&mut g.r, 256);
            let n = if g.r.chance(2, 3) { (n | 1).min(255) } else { n };
            digits(&mut g.r, n)
        }
        Kind::Supp => {
            let n = *g.r.pick(&[2usize, 5, 5]);
            digits(&mut g.r, n)
        }
        Kind::Codabar => {
            let n = length(&mut g.r, 254);
            // B, C and + are known findings
            let known = findings && g.r.chance(1, 60);
            let a: &[char] = if known && g.r.chance(1, 2) { &['1', '+'] } else { &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '$', ':', '/', '.'] };
            let inner: String = (0..n).map(|_| *g.r.pick(a)).collect();
            let guards: &[char] = if known && a.len() > 2 { &['B', 'C'] } else { &['A', 'D'] };
            format!("{}{inner}{}", g.r.pick(guards), g.r.pick(guards))
        }
        Kind::Code128 => {
            let n = if g.r.chance(1, 12) { g.r.range(60, 300) as usize } else { length(&mut g.r, 60) };
            let huge = findings && g.r.chance(1, 150);
            let vast = findings && !huge && g.r.chance(1, 90);
            let t = if vast {
                // positions beyond sixteen bits
                let n = *g.r.pick(&[33_000usize, 65_600, 66_500]);
                let some = (0..).map(|_| code128(&mut g.r, 400, true)).find(|s| s.starts_with('\u{181}')).unwrap();
                format!("\u{181}{}{}", "~5q".repeat(n / 3), &some[2..])
            } else if huge {
                // as much check-digit weight as the symbology has, in as few characters
                let c = *g.r.pick(&['~', 'z', 'x']);
                format!("\u{181}{}", c.to_string().repeat(g.r.range(6600, 7400) as usize))
            } else {
                code128(&mut g.r, n, true)
            };
            if !huge && !vast && g.r.chance(1, 8) {
                torn_pairs(&t, &mut g.r)
            } else {
                t
            }
        }
        _ => {
            let m = if g.r.chance(1, 8) { 256 } else { 60 };
            let n = length(&mut g.r, m);
            if matches!(k, Kind::Code11 | Kind::Code39C | Kind::Code93) && g.r.chance(1, 25) {
                heavy(k, &mut g.r)
            } else {
                valid_len(k, &mut g.r, n)
            }
        }
    };
    let t = if k == Kind::Code128 || k == Kind::Codabar { t } else { spice(k, t, &mut g.r) };
    (k, t)
}

fn c09(g: &mut G) {
    g.single();
    let mut v = vec![];
    for s in 0..g.r.range(1, 3) as u8 {
        let (k, t) = printable(g, true);
        let (long, t_len) = (t.len() > 60, t.len());
        let text = g.text(t);
        let o = g.rec(Op::New { slot: s, kind: kno(k), text, input: Input::Str });
        v.push(o);
        let vast = t_len > 20_000;
        if !vast && g.r.chance(1, 3) {
            let n = g.r.range(20, if long { 60 } else { 400 }) as u32;
            let seed = g.r.next();
            let o = g.rec(Op::Print { kind: kno(k), text, n, seed });
            v.push(o);
        }
        let seed = g.r.next();
        let count = if vast { 3 } else if long { 40 } else { g.r.range(60, 200) as u32 };
        let o = g.rec(Op::Scan { slot: s, seed, count });
        v.push(o);
    }
    g.p.phases = vec![Phase { threads: vec![v] }];
}

/// Sizes beyond what a byte, sixteen bits or a file format holds.
fn huge(g: &mut G, i: usize, rk: RKind, c: &mut crate::plan::Cfg) {
    let n = g.p.bits[i].len() as u64;
    let edge = |g: &mut G| word_int(&mut g.r, 6, 70_000).unwrap_or_else(|| *g.r.pick(&[255u64, 256, 257, 300, 1000, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000]));
    match rk {
        RKind::Svg => {
            let top = u32::MAX as u64 / n;
            c.xdim = (match g.r.below(3) {
                0 => top,
                1 => g.r.range(1, top),
                _ => edge(g).min(top),
            }) as u32;
            c.height = *g.r.pick(&[1, 255, 256, 65535, 65536, 1 << 31, u32::MAX]);
        }
        RKind::Json => {
            c.xdim = *g.r.pick(&[255, 256, 65535, 65536, u32::MAX]);
            c.height = *g.r.pick(&[255, 256, 65535, 65536, u32::MAX]);
        }
        _ => {
            // The longest side some formats have: WebP 16383, GIF 65535
            let side = match rk {
                RKind::Webp => 16383,
                RKind::Gif => 65535,
                _ => 100_000,
            };
            match g.r.below(3) {
                // wide bars
                0 => {
                    c.xdim = (edge(g).min(side) / n).max(edge(g).min(150_000 / n).min(side / n)).max(1) as u32;
                    c.height = 1;
                }
                // many modules
                1 => {
                    let k = edge(g).min(side);
                    let mut s = g.p.bits[i].clone();
                    while (s.len() as u64) < k {
                        s.push((b'0' + g.r.below(2) as u8) as char);
                    }
                    g.p.bits[i] = s;
                    c.xdim = 1;
                    c.height = 1;
                }
                // many rows
                _ => {
                    g.p.bits[i].truncate(g.r.range(1, 3) as usize);
                    c.xdim = 1;
                    c.height = edge(g).min(side) as u32;
                }
            }
        }
    }
}

fn c10(g: &mut G) {
    g.single();
    let mut v = vec![];
    let nk = simops::RKINDS.len() as u64;
    for i in 0..g.r.range(2, 5) as u8 {
        let mut b = if g.r.chance(1, 3) {
            // a real symbol's shape
            let n = g.r.range(20, 150) as usize;
            let mut s = String::from("101");
            while s.len() < n {
                s.push((b'0' + g.r.below(2) as u8) as char);
            }
            s.push_str("101");
            s
        } else {
            bit_row(&mut g.r, 300)
        };
        if b.is_empty() {
            b = "1".into();
        }
        g.p.bits.push(b);
        let rk = simops::RKINDS[g.r.below(nk) as usize];
        let kind = crate::plan::ALL_R.iter().position(|x| *x == rk).unwrap() as u8;
        let mut c = cfg_of(kind, &mut g.r);
            if kind == 6 {
                c.xmlns = None;
            }
        if g.r.chance(1, 8) {
            c.xdim = g.r.range(5, 17) as u32;
        } else if let Some(x) = word_int(&mut g.r, 20, 400) {
            c.xdim = x as u32;
        }
        if g.r.chance(1, 8) {
            c.height = g.r.range(41, 300) as u32;
        } else if let Some(x) = word_int(&mut g.r, 20, 2000) {
            c.height = x as u32;
        }
        match g.r.below(16) {
            0 | 1 => {
                // colours that differ by as little as colours can
                c.bg = c.fg;
                for _ in 0..g.r.range(1, 3) {
                    let ch = g.r.below(4) as usize;
                    c.bg[ch] = if g.r.chance(1, 2) { c.fg[ch].saturating_add(1) } else { c.fg[ch].saturating_sub(1) };
                }
            }
            // one channel only; a channel moved
            2 => {
                let ch = g.r.below(4) as usize;
                c.bg = c.fg;
                c.bg[ch] = g.r.below(256) as u8;
            }
            3 => c.bg = [c.fg[1], c.fg[2], c.fg[0], c.fg[3]],
            _ => {}
        }
        if kind == 3 {
            // GIF knows opaque and transparent only
            c.fg[3] = if g.r.chance(1, 6) { 0 } else { 255 };
            c.bg[3] = if g.r.chance(1, 6) { 0 } else { 255 };
        }
        if c.fg == c.bg || (c.fg[3] == 0 && c.bg[3] == 0) {
            c.fg = [0, 0, 0, 255];
            c.bg = [255, 255, 255, 255];
        }
        if g.r.chance(1, if matches!(rk, RKind::Svg | RKind::Json) { 8 } else { 30 }) {
            huge(g, i as usize, rk, &mut c);
        } else {
            // keep pictures below a few hundred thousand pixels, and within what the format has
            let n = g.p.bits[i as usize].len() as u64;
            let side = match rk {
                RKind::Webp => 16383,
                RKind::Gif => 65535,
                _ => 120_000,
            };
            c.xdim = (c.xdim as u64).min((side / n).max(1)) as u32;
            let n = n * c.xdim as u64;
            if n * c.height as u64 > 120_000 {
                c.height = (120_000 / n).max(1) as u32;
            }
        }
        g.p.cfgs.push(c);
        let o = g.rec(Op::Make { g: i, cfg: i as u32 });
        v.push(o);
        let seed = g.r.next();
        let o = g.rec(Op::Lines { g: i, bits: i as u32, seed });
        v.push(o);
    }
    g.p.phases = vec![Phase { threads: vec![v] }];
}

fn c11(g: &mut G) {
    g.families(1, 3, 24);
    g.rows(40);
    g.single();
    let mut v = g.start_own();
    for _ in 0..g.r.range(3, 10) {
        let style = g.r.below(16) as u8;
        let cap = g.r.range(10, 40) as u32;
        let sticky = g.r.chance(1, 2);
        let what = g.r.below(4) as u8;
        let idx = match what {
            0 => g.own(),
            1 => g.r.below(2) as u8,
            2 => g.r.below(4) as u8,
            _ => g.r.below(12) as u8,
        };
        let o = g.rec(Op::Sink { what, idx, style, cap, sticky });
        v.push(o);
        if g.r.chance(1, 4) {
            let o = g.call(0);
            v.push(o);
        }
    }
    // every error's message once
    for e in 0..4 {
        let o = g.rec(Op::Sink { what: 2, idx: e, style: 3, cap: 20, sticky: false });
        v.push(o);
    }
    v.extend(g.own_sweep());
    g.p.phases = vec![Phase { threads: vec![v] }];
}

fn c12(g: &mut G) {
    let m = g.small();
    g.families(1, 3, m);
    g.rows(120);
    let nt = *g.r.pick(&[1usize, 1, 1, 2]);
    if nt > 1 {
        g.sched();
    } else {
        g.single();
    }
    g.p.env.env_mode = g.r.below(3) as u32;
    for _ in 0..if g.p.env.env_mode == 0 { 0 } else { g.r.range(1, 4) } {
        let x = env_value(&mut g.r);
        g.p.env.env_vals.push(x);
    }
    g.p.env.clock_jump = *g.r.pick(&[0u32, 16, 128, 256]);
    g.p.env.io_errno = *g.r.pick(&[13i32, 28, 5, 24, 32]);
    let ns = g.r.range(1, 3);
    let p0 = g.shared_values(ns);
    let mut ts = vec![];
    for _ in 0..nt {
        let mut v = g.start_own();
        for _ in 0..g.r.range(8, 40) {
            let o = if g.r.chance(1, 6) { let c = g.r.chance(1, 2); doomed(g, ns, c) } else { g.call(ns) };
            v.push(o);
        }
        if nt == 1 && g.r.chance(1, 16) {
            let o = similar(g);
            v.push(o);
        }
        v.extend(g.own_sweep());
        ts.push(v);
    }
    let last = g.sweep(ns);
    g.p.phases = vec![p0, Phase { threads: ts }, Phase { threads: vec![last] }];
}

fn c13(g: &mut G) {
    let nt = *g.r.pick(&[1usize, 1, 1, 2, 3]);
    if nt > 1 {
        g.sched();
    } else {
        g.single();
    }
    let nk = simops::RKINDS.len() as u64;
    let mut ts = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..g.r.range(1, 2) {
            let (k, t) = printable(g, false);
            let number = matches!(k, Kind::Ean13 | Kind::Ean8 | Kind::Upca);
            // the longest side, in modules
            let len = 40 + 30 * t.chars().count() as u64;
            let text = g.text(t);
            if g.r.chance(1, 4) {
                let n = g.r.range(20, if len > 2000 { 30 } else { 100 }) as u32;
                let seed = g.r.next();
                let o = g.rec(Op::Print { kind: kno(k), text, n, seed });
                v.push(o);
            }
            let mut stations = vec![];
            for _ in 0..g.r.range(2, 5) {
                let rk = simops::RKINDS[g.r.below(nk) as usize];
                let kind = crate::plan::ALL_R.iter().position(|x| *x == rk).unwrap() as u8;
                let mut c = cfg_of(kind, &mut g.r);
            if kind == 6 {
                c.xmlns = None;
            }
                if kind == 1 {
                    c.rot = 0;
                }
                c.fg[3] = 255;
                c.bg[3] = 255;
                if c.fg == c.bg {
                    c.fg = [0, 0, 0, 255];
                    c.bg = [255, 255, 255, 255];
                }
                c.xdim = (c.xdim as u64).min((16_000 / len).max(1)) as u32;
                if g.r.chance(1, 8) {
                    c.height = g.r.range(41, 300) as u32;
                    c.xdim = 1;
                }
                c.height = (c.height as u64).min((60_000 / len / c.xdim as u64).max(1)) as u32;
                g.p.cfgs.push(c);
                let mut typos = vec![];
                if number {
                    for _ in 0..g.r.below(4) {
                        typos.push(match g.r.below(4) {
                            0 => Corr::Swap(g.r.below(12) as u8),
                            1 => Corr::Flip(g.r.below(13) as u8, g.r.below(8) as u8),
                            _ => Corr::Sub(g.r.below(13) as u8, g.r.range(1, 9) as u8),
                        });
                    }
                }
                stations.push(Station { cfg: g.p.cfgs.len() as u32 - 1, typos, hurt: g.r.below(4) as u32, direct: g.r.chance(1, 2) });
            }
            let seed = g.r.next();
            let o = g.rec(Op::Relay { kind: kno(k), text, stations, seed });
            v.push(o);
        }
        ts.push(v);
    }
    g.p.phases = vec![Phase { threads: ts }];
}
