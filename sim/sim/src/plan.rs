//! A plan is one simulated run: environment, schedule parameters, inputs and operations.
//! It is a pure function of (property, run seed) and is what a replay file contains.
use serde::{Deserialize, Serialize};
use simops::{Kind, RCfg, RKind, KINDS};
use simrt::rng::{mix, Rng};

fn is_default<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cfg {
    pub kind: u8,
    pub height: u32,
    pub xdim: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub rot: u8,
    pub fg: [u8; 4],
    pub bg: [u8; 4],
    #[serde(default, skip_serializing_if = "is_default")]
    pub xmlns: Option<String>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub builder: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub buffer: bool,
}
pub const ALL_R: [RKind; 7] = [RKind::Ascii, RKind::Json, RKind::Svg, RKind::Gif, RKind::Png, RKind::Webp, RKind::Buf];
impl Cfg {
    pub fn rcfg(&self) -> RCfg {
        RCfg {
            kind: ALL_R[self.kind as usize],
            height: self.height,
            xdim: self.xdim,
            rot: self.rot,
            fg: self.fg,
            bg: self.bg,
            xmlns: self.xmlns.clone(),
            builder: self.builder,
            buffer: self.buffer,
        }
    }
}
pub fn kind(k: u8) -> Kind {
    KINDS[k as usize]
}

/// One call (or fixed short sequence of calls on a fresh value) whose outcome, made alone in a
/// process of its own, is the reference for the same call inside a run.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Call {
    New { kind: u8, text: String },
    Enc { kind: u8, text: String, muts: Vec<(u32, u8)> },
    Gen { cfg: Cfg, bits: String },
    EncGen { kind: u8, text: String, muts: Vec<(u32, u8)>, cfg: Cfg },
    Msg { e: u8, style: u8 },
    /// A fresh value formatted for debugging.
    FmtV { kind: u8, text: String, style: u8 },
    /// The same for a generator (part 255), a colour or a rotation.
    FmtG { cfg: Cfg, part: u8, style: u8 },
    /// A few calls made one after the other by a process that makes no others; the outcomes
    /// come back in the preview.
    Batch { calls: Vec<Call> },
}

pub const C_OK: u8 = 0;
pub const C_PANIC: u8 = 10;
pub const C_OOM: u8 = 11;
pub const C_CONV: u8 = 12;
pub const C_DEAD: u8 = 13;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Out {
    /// C_OK, 1..=5 an error of the library, or one of the classes above.
    pub class: u8,
    pub len: u64,
    pub hash: u64,
    pub preview: String,
}
impl Out {
    pub fn same(&self, o: &Out) -> bool {
        self.class == o.class && self.len == o.len && self.hash == o.hash
    }
    pub fn show(&self) -> String {
        let c = match self.class {
            0 => "Ok".to_string(),
            1 => "Err(Character)".into(),
            2 => "Err(Length)".into(),
            3 => "Err(Generate)".into(),
            4 => "Err(Checksum)".into(),
            5 => "Err(other)".into(),
            C_PANIC => "panic".into(),
            C_OOM => "unwound out of memory".into(),
            C_CONV => "unwound by the input conversion".into(),
            C_DEAD => "process died".into(),
            c => format!("class {c}"),
        };
        if self.class == 0 && self.len == 0 && self.preview.is_empty() {
            c
        } else {
            format!("{c} [{} bytes, #{:016x}] {}", self.len, self.hash, self.preview)
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Input {
    /// A fresh buffer.
    Str,
    /// The thread's own fixed buffer: always the same address.
    Fixed,
    /// A part of a buffer that starts so many bytes into it.
    At(u8),
    /// An owned String/Vec.
    Owned,
    /// A simulated conversion.
    Sim(Sim),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Sim {
    /// Pass the value by reference (the blanket `AsRef for &T`).
    #[serde(default, skip_serializing_if = "is_default")]
    pub by_ref: bool,
    /// Contents returned by successive conversions (indices into texts/bits, cyclic); empty: the
    /// operation's own text.
    #[serde(default, skip_serializing_if = "is_default")]
    pub seq: Vec<u32>,
    /// Take the content from this cell, which other threads switch.
    #[serde(default, skip_serializing_if = "is_default")]
    pub cell: Option<u8>,
    /// Panic at this conversion (1-based; 0: never).
    #[serde(default, skip_serializing_if = "is_default")]
    pub panic_at: u32,
    /// Operations performed from inside the conversion `nest_at` (1-based; 0: every).
    #[serde(default, skip_serializing_if = "is_default")]
    pub nest: Vec<OpRec>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub nest_at: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OpRec {
    pub id: u32,
    /// Allocations to fail: (first, how many), counted from 1 within the operation.
    #[serde(default, skip_serializing_if = "is_default")]
    pub oom: Vec<(u32, u32)>,
    pub op: Op,
}

/// Slots 0..=15 are the thread's own, 64.. are shared by all threads.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    New { slot: u8, kind: u8, text: u32, input: Input },
    Enc { slot: u8 },
    Mut { slot: u8, pos: u32, val: u8 },
    Drop { slot: u8 },
    /// Hands a value over: `to` receives the value of `from` (which keeps it if `keep`).
    Move { from: u8, to: u8, keep: bool },
    Make { g: u8, cfg: u32 },
    /// All public fields of a generator assigned.
    MutG { g: u8, cfg: u32 },
    Gen { g: u8, bits: u32, input: Input },
    EncGen { slot: u8, g: u8 },
    DropG { g: u8 },
    MoveG { from: u8, to: u8 },
    CloneG { from: u8, to: u8 },
    Switch { cell: u8, to: u32 },
    Msg { e: u8, style: u8 },
    Loop { n: u32, body: Vec<OpRec> },
    /// Many calls in a row that differ in their data: the text constructed and encoded.
    SweepT { kind: u8, text: u32, n: u32, seed: u64 },
    /// The same with the digits given to a generator.
    SweepB { cfg: u32, bits: u32, n: u32, seed: u64 },
    /// Receiver end of a noisy channel (C08).
    Channel { kind: u8, text: u32, all: bool, seqs: Vec<Vec<Corr>> },
    /// Scanner over damaged symbols (C09).
    Scan { slot: u8, seed: u64, count: u32 },
    /// Scanner over many undamaged symbols of similar texts (C09).
    Print { kind: u8, text: u32, n: u32, seed: u64 },
    /// Scanner over damaged renderings (C10).
    Lines { g: u8, bits: u32, seed: u64 },
    /// A number or text handed from station to station: printed, damaged, scanned, typed in again (C13).
    Relay { kind: u8, text: u32, stations: Vec<Station>, seed: u64 },
    /// Formatting into failing sinks (C11).
    Sink { what: u8, idx: u8, style: u8, cap: u32, sticky: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Station {
    pub cfg: u32,
    /// Corruptions of what is typed in, each followed by another attempt.
    #[serde(default, skip_serializing_if = "is_default")]
    pub typos: Vec<Corr>,
    /// Readings of a line with one damaged character, before one of a sound line.
    #[serde(default, skip_serializing_if = "is_default")]
    pub hurt: u32,
    /// The symbol is drawn from the value's modules (true) or from a copy of them.
    #[serde(default, skip_serializing_if = "is_default")]
    pub direct: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Corr {
    /// Digit at `pos` becomes another digit (adds d, modulo 10).
    Sub(u8, u8),
    /// Neighbours at pos, pos+1 exchanged.
    Swap(u8),
    /// Bit of a byte inverted.
    Flip(u8, u8),
    /// Character replaced (by an ASCII character, or two of them by a two-byte one).
    Put(u8, char),
    /// Burst: digits from pos on rotated by one place.
    Rot(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Env {
    pub reuse: u32,
    pub poison: u8,
    pub clock_jump: u32,
    pub env_mode: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub env_vals: Vec<String>,
    pub io_errno: i32,
    pub op_limit: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Sched {
    /// 0 boundary, 1 slices, 2 alloc, 3 shared
    pub strategy: u8,
    pub param: u64,
    pub boundary_num: u32,
    pub stall_hazard: u64,
    pub max_stalls: u32,
    pub max_switches: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Phase {
    pub threads: Vec<Vec<OpRec>>,
}

/// (thread, operation id, step within the operation, kind, successor)
pub type EvJ = (u32, u32, u64, char, u32);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub env: Env,
    pub sched: Sched,
    #[serde(default, skip_serializing_if = "is_default")]
    pub events: Option<Vec<EvJ>>,
    pub texts: Vec<String>,
    pub bits: Vec<String>,
    pub cfgs: Vec<Cfg>,
    pub phases: Vec<Phase>,
    /// C07: the phases are repeated so many times (0: once) ...
    #[serde(default, skip_serializing_if = "is_default")]
    pub rounds: u32,
    /// ... each time with other data of the same shape.
    #[serde(default, skip_serializing_if = "is_default")]
    pub vary: bool,
    /// C07: one thread makes the calls of all rounds.
    #[serde(default)]
    pub stay: bool,
}
/// Another text of the same shape: digits stay digits, letters letters.
pub fn vary_text(t: &str, seed: u64, i: u64) -> String {
    let mut r = Rng::new(seed ^ mix(i));
    t.chars()
        .map(|c| {
            let (lo, n) = match c {
                '0'..='9' => ('0', 10),
                'A'..='D' => ('A', 4),
                'E'..='Z' => ('E', 22),
                'a'..='z' => ('a', 26),
                // other foreign characters, but not those that have a meaning in Code 128
                '\u{e9}' | '\u{661}'..='\u{669}' | '\u{ff11}' | '\u{1d7d9}' => return char::from_u32(0x4e00 + r.below(20_000) as u32).unwrap(),
                _ => return c,
            };
            (lo as u8 + r.below(n) as u8) as char
        })
        .collect()
}
/// Another text of the same shape that a scanner reads without doubt.
pub fn vary_print(k: Kind, t: &str, seed: u64, i: u64) -> String {
    let mut r = Rng::new(seed ^ mix(i));
    if k == Kind::Codabar {
        let n = t.chars().count();
        return t.chars().enumerate().map(|(j, c)| if j == 0 || j + 1 == n || c == '+' { c } else { *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '$', ':', '/', '.']) }).collect();
    }
    // few different digits, or extreme ones, make extreme sums
    let a: Vec<u8> = match r.below(3) {
        0 => vec![0, 9],
        1 => (0..r.range(2, 3)).map(|_| r.below(10) as u8).collect(),
        _ => (0..10).collect(),
    };
    let again = r.chance(1, 5);
    let period = [*r.pick(&a), r.below(10) as u8, r.below(10) as u8];
    let p = r.range(1, 3) as usize;
    t.chars()
        .enumerate()
        .map(|(j, c)| match c {
            '0'..='9' if again => (b'0' + period[j % p]) as char,
            '0'..='9' => (b'0' + *r.pick(&a)) as char,
            'A'..='Z' => (b'A' + r.below(26) as u8) as char,
            'a'..='z' => (b'a' + r.below(26) as u8) as char,
            c => c,
        })
        .collect()
}
pub fn vary_bits(t: &str, seed: u64, i: u64) -> String {
    let mut r = Rng::new(seed ^ mix(i));
    t.bytes().map(|_| (b'0' + r.below(2) as u8) as char).collect()
}
pub fn vary_cfg(c: &Cfg, seed: u64, i: u64) -> Cfg {
    let mut r = Rng::new(seed ^ mix(i));
    let mut c = c.clone();
    for k in 0..4 {
        c.fg[k] = r.below(256) as u8;
        c.bg[k] = r.below(256) as u8;
    }
    c.height = r.range(1, 2 * c.height.clamp(1, 20) as u64) as u32;
    if let Some(x) = &mut c.xmlns {
        *x = vary_text("ns0000", seed, i);
    }
    c
}
impl Plan {
    pub fn n_ops(&self) -> usize {
        self.phases.iter().flat_map(|p| p.threads.iter()).map(|t| t.len()).sum()
    }
}
