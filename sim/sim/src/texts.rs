//! Inputs: families of related texts, module rows and renderer settings.
use crate::plan::Cfg;
use crate::scan::mod10;
use simops::{Kind, KINDS, RKINDS};
use simrt::rng::Rng;

/// Numbers and strings of the library's source (literals.py); only a bias for the generators.
#[derive(serde::Deserialize, Default)]
pub struct Words {
    ints: Vec<u64>,
    strs: Vec<String>,
    new_ints: Vec<u64>,
    new_strs: Vec<String>,
}
pub static WORDS: std::sync::OnceLock<Words> = std::sync::OnceLock::new();
/// Now and then a number from the source, or one next to it.
pub fn word_int(r: &mut Rng, one_in: u64, max: u64) -> Option<u64> {
    let w = WORDS.get()?;
    let fresh = !w.new_ints.is_empty();
    if !r.chance(if fresh { 2 } else { 1 }, one_in) {
        return None;
    }
    let v = if fresh && r.chance(3, 4) { &w.new_ints } else { &w.ints };
    if v.is_empty() {
        return None;
    }
    let n = *r.pick(v);
    let n = match r.below(8) {
        0 => n.saturating_sub(1),
        1 | 2 => n + 1,
        3 => n.saturating_mul(2),
        _ => n,
    };
    (1..=max).contains(&n).then_some(n)
}
fn word_str(r: &mut Rng, ok: &dyn Fn(char) -> bool) -> Option<String> {
    let w = WORDS.get()?;
    let fresh = !(w.new_strs.is_empty() && w.new_ints.is_empty());
    if !r.chance(1, if fresh { 3 } else { 12 }) {
        return None;
    }
    let (s, i) = if fresh && r.chance(4, 5) { (&w.new_strs, &w.new_ints) } else { (&w.strs, &w.ints) };
    for _ in 0..3 {
        let k = r.below((s.len() + i.len()).max(1) as u64) as usize;
        let x = if k < s.len() { s[k].clone() } else { i.get(k - s.len())?.to_string() };
        if !x.is_empty() && x.chars().all(ok) {
            return Some(x);
        }
    }
    None
}
/// A character of a word the source did not use to contain.
pub fn word_char(r: &mut Rng) -> Option<char> {
    let w = &WORDS.get()?.new_strs;
    if w.is_empty() {
        return None;
    }
    let s = r.pick(w);
    let n = s.chars().count() as u64;
    s.chars().nth(r.below(n.max(1)) as usize)
}
/// What an environment variable may hold.
pub fn env_value(r: &mut Rng) -> String {
    const VALS: [&str; 26] = [
        "", "1", "0", "2", "-1", "9", "255", "65536", "true", "false", "on", "off", "yes", "no", "debug", "C", "C.UTF-8", "POSIX", "en_US.UTF-8", "de_DE.UTF-8",
        "fr_FR@euro", "tr_TR.UTF-8", "ar_EG", "dumb", "/nonexistent", "\u{FFFF}",
    ];
    if let Some(w) = word_str(r, &|c| c != '\0') {
        return match r.below(4) {
            0 => format!("{w}_{}", w.to_uppercase()),
            1 => w.to_uppercase(),
            _ => w,
        };
    }
    r.pick(&VALS).to_string()
}
/// Now and then puts a word from the source over a part of the text, length kept.
fn spiced(k: Kind, t: String, r: &mut Rng) -> String {
    let a = alphabet(k);
    let ok = |c: char| if k == Kind::Code128 { (' '..='~').contains(&c) } else { a.contains(&c) };
    let Some(x) = word_str(r, &ok) else { return t };
    let mut c: Vec<char> = t.chars().collect();
    let lead = (k == Kind::Code128) as usize;
    let n = x.chars().count();
    if lead + n > c.len() {
        return t;
    }
    if k == Kind::Code128 && c.iter().any(|c| "\u{106}\u{C0}".contains(*c)) {
        c = vec!['\u{181}'; c.len()];
        for y in c[1..].iter_mut() {
            *y = (33 + r.below(90) as u8) as char;
        }
    }
    let room = (c.len() - n - lead) as u64;
    let at = lead
        + match r.below(3) {
            0 => 0,
            1 => room,
            _ => r.below(room + 1),
        } as usize;
    for (i, y) in x.chars().enumerate() {
        c[at + i] = y;
    }
    c.into_iter().collect()
}
pub fn kno(k: Kind) -> u8 {
    KINDS.iter().position(|x| *x == k).unwrap() as u8
}
const ALPHA39: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
const ALPHA93: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
fn alphabet(k: Kind) -> Vec<char> {
    match k {
        Kind::Ean13 | Kind::Ean8 | Kind::Upca | Kind::Supp | Kind::Itf | Kind::Stf => "0123456789".chars().collect(),
        Kind::Code11 => "0123456789-".chars().collect(),
        Kind::Code39 | Kind::Code39C => ALPHA39.chars().collect(),
        Kind::Code93 => ALPHA93.chars().collect(),
        Kind::Codabar => "0123456789-$:/.+ABCD".chars().collect(),
        Kind::Code128 => vec![],
    }
}
/// Texts with a structure an encoder might exploit.
fn patterned(a: &[char], n: usize, r: &mut Rng) -> String {
    let mut c: Vec<char> = (0..n).map(|_| *r.pick(a)).collect();
    match r.below(8) {
        // the same backwards
        0 | 1 => {
            for i in 0..n / 2 {
                c[n - 1 - i] = c[i];
            }
        }
        // periodic
        2 | 3 => {
            let p = r.range(2, 4) as usize;
            for i in p..n {
                c[i] = c[i - p];
            }
        }
        // in order
        4 => c.sort(),
        5 => {
            c.sort();
            c.reverse();
        }
        // all alike but a few
        6 => {
            let x = *r.pick(a);
            let keep = r.below(n.max(1) as u64) as usize;
            for i in 0..n {
                if i != keep && (i != 0 || r.chance(1, 2)) {
                    c[i] = x;
                }
            }
        }
        // two characters only
        _ => {
            let two = [*r.pick(a), *r.pick(a)];
            for x in c.iter_mut() {
                *x = *r.pick(&two);
            }
        }
    }
    c.into_iter().collect()
}
const TEN: [char; 10] = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
/// As much check weight as fits.
pub fn heavy(k: Kind, r: &mut Rng) -> String {
    let a = alphabet(k);
    let top = &a[a.len().saturating_sub(r.range(1, 5) as usize)..];
    let n = r.range(120, 256) as usize;
    (0..n).map(|_| *r.pick(top)).collect()
}
pub fn digits(r: &mut Rng, n: usize) -> String {
    match r.below(14) {
        12 | 13 => patterned(&TEN, n, r),
        0 => "9".repeat(n),
        1 => "0".repeat(n),
        2 => {
            let d = (b'0' + r.below(10) as u8) as char;
            d.to_string().repeat(n)
        }
        3 => {
            let s = r.below(10);
            (0..n as u64).map(|i| (b'0' + ((i + s) % 10) as u8) as char).collect()
        }
        _ => (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
    }
}
pub fn with_check(s: &str) -> String {
    let d: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
    format!("{s}{}", mod10(&d))
}
/// Lengths around which an encoder could behave differently.
pub fn length(r: &mut Rng, max: usize) -> usize {
    const B: [u64; 40] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 46, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256];
    if let Some(n) = word_int(r, 8, max as u64) {
        return n as usize;
    }
    let n = match r.below(6) {
        0 => *r.pick(&B),
        1 => B[r.below(22) as usize],
        2 => r.logu(max as u64),
        _ => r.range(1, 12),
    } as usize;
    n.clamp(1, max)
}
/// A valid Code 128 text of about n characters; `clean` leaves out what has no agreed reading.
pub fn code128(r: &mut Rng, n: usize, clean: bool) -> String {
    let mut s = String::new();
    let mut set = r.below(3);
    const SW: [char; 3] = ['\u{C0}', '\u{181}', '\u{106}'];
    s.push(SW[set as usize]);
    let mut k = 0;
    let style = r.below(4);
    while k < n {
        if k > 0 && r.chance(1, if style == 0 { 4 } else { 14 }) {
            set = (set + 1 + r.below(2)) % 3;
            s.push(SW[set as usize]);
            k += 1;
        }
        if r.chance(1, 16) {
            // function characters
            let f = if set == 2 { '\u{179}' } else { ['\u{179}', '\u{17A}', '\u{17B}', '\u{17C}'][r.below(if clean { 3 } else { 4 }) as usize] };
            s.push(f);
            k += 1;
            continue;
        }
        match set {
            0 => {
                let c = if style == 1 { r.below(32) } else { r.below(96) };
                s.push(c as u8 as char)
            }
            1 => s.push((32 + r.below(95) as u8) as char),
            _ => {
                s.push((b'0' + r.below(10) as u8) as char);
                s.push((b'0' + r.below(10) as u8) as char);
                k += 1;
            }
        }
        k += 1;
    }
    s
}
pub fn valid(k: Kind, r: &mut Rng, max: usize) -> String {
    let n = match k {
        Kind::Ean13 => 12,
        Kind::Ean8 => 7,
        Kind::Upca => 11,
        Kind::Supp => *r.pick(&[2usize, 5]),
        _ => length(r, max),
    };
    valid_len(k, r, n)
}
pub fn valid_len(k: Kind, r: &mut Rng, n: usize) -> String {
    match k {
        Kind::Ean13 | Kind::Ean8 | Kind::Upca => {
            let s = spiced(k, digits(r, n), r);
            if r.chance(1, 3) {
                with_check(&s)
            } else {
                s
            }
        }
        Kind::Supp | Kind::Itf | Kind::Stf => spiced(k, digits(r, n), r),
        Kind::Code128 => spiced(k, code128(r, n, false), r),
        _ => {
            let a = alphabet(k);
            let t = match r.below(9) {
                0 => digits(r, n),
                8 => patterned(&a, n, r),
                1 => r.pick(&a).to_string().repeat(n),
                _ => (0..n).map(|_| *r.pick(&a)).collect(),
            };
            spiced(k, t, r)
        }
    }
}
/// The same for data without a recipe of its own.
pub fn spice(k: Kind, t: String, r: &mut Rng) -> String {
    spiced(k, t, r)
}
fn with_char(s: &str, at: usize, c: char) -> String {
    s.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect()
}
/// Another text of the same length that usual short summaries take for the same: one character a
/// little lower, its neighbour (or one further away) higher by as much times a usual multiplier.
pub fn alike(base: &str, r: &mut Rng) -> String {
    let mut c: Vec<u8> = base.bytes().collect();
    if c.len() < 2 || !base.is_ascii() {
        return with_char(base, 0, '!');
    }
    for _ in 0..8 {
        let i = r.below(c.len() as u64 - 1) as usize;
        let j = if r.chance(3, 4) { i + 1 } else { r.range(i as u64 + 1, c.len() as u64 - 1) as usize };
        let m = *r.pick(&[1i32, 1, 2, 3, 5, 7, 10, 16, 17, 31, 31, 33, 37, 41, 64]);
        let d = if r.chance(1, 2) { 1 } else { -1 };
        let (x, y) = (c[i] as i32 - d, c[j] as i32 + d * m);
        if (33..127).contains(&x) && (33..127).contains(&y) {
            c[i] = x as u8;
            c[j] = y as u8;
            break;
        }
    }
    String::from_utf8(c).unwrap()
}
/// A text that is rejected, or at least different in kind.
pub fn odd_one(k: Kind, base: &str, r: &mut Rng) -> String {
    let n = base.chars().count();
    let at = r.below(n as u64) as usize;
    match r.below(11) {
        9 | 10 => alike(base, r),
        0 => String::new(),
        1 => base.chars().take(n - 1).collect(),
        2 => format!("{base}{base}"),
        3 => with_char(base, at, *r.pick(&['a', '!', '?', '*', '\u{0}', '~', '/', ':'])),
        4 => with_char(base, at, *r.pick(&['é', 'Ć', '٣', '１', '𝟙', '\u{7f}'])),
        5 if matches!(k, Kind::Ean13 | Kind::Ean8 | Kind::Upca) => {
            let d = digits(r, match k {
                Kind::Ean13 => 12,
                Kind::Ean8 => 7,
                _ => 11,
            });
            let w = with_check(&d);
            let l = w.as_bytes()[w.len() - 1] - b'0';
            format!("{d}{}", (l as u64 + r.range(1, 9)) % 10)
        }
        5 => digits(r, 257),
        6 => valid(*r.pick(&KINDS), r, 20),
        7 => base.to_lowercase(),
        _ => format!("{base}\u{17D}"),
    }
}
/// Valid variations that a lossy key or summary would confuse with `base`.
pub fn sibling(k: Kind, base: &str, r: &mut Rng, max: usize) -> String {
    let c: Vec<char> = base.chars().collect();
    let n = c.len();
    let lead = (k == Kind::Code128) as usize;
    match r.below(9) {
        8 if n > lead + 3 => {
            // begins and ends alike
            let mut v = c;
            let (a, b) = (lead + 1, n - 2);
            match r.below(3) {
                0 => v[a..=b].reverse(),
                1 => v[a..=b].rotate_left(1),
                _ => {
                    for i in a..=b {
                        let j = r.range(a as u64, b as u64) as usize;
                        v.swap(i, j);
                    }
                }
            }
            v.into_iter().collect()
        }
        0 | 1 if n > lead => {
            // one character different
            let at = r.range(lead as u64, n as u64 - 1) as usize;
            let x = if k == Kind::Code128 {
                if c[at].is_ascii_digit() {
                    (b'0' + r.below(10) as u8) as char
                } else {
                    c[at]
                }
            } else {
                *r.pick(&alphabet(k))
            };
            with_char(base, at, x)
        }
        2 if n > lead + 1 => {
            // transposed
            let a = r.range(lead as u64, n as u64 - 1) as usize;
            let b = r.range(lead as u64, n as u64 - 1) as usize;
            let mut v = c;
            v.swap(a, b);
            v.into_iter().collect()
        }
        3 if n > lead + 1 => {
            let mut v = c;
            v[lead..].reverse();
            v.into_iter().collect()
        }
        4 if !matches!(k, Kind::Ean13 | Kind::Ean8 | Kind::Upca | Kind::Supp) && n > lead + 1 => c[..n - 1].iter().collect(),
        5 if matches!(k, Kind::Ean13 | Kind::Ean8 | Kind::Upca) && base.bytes().all(|b| b.is_ascii_digit()) => {
            let l = match k {
                Kind::Ean13 => 12,
                Kind::Ean8 => 7,
                _ => 11,
            };
            if n == l {
                with_check(base)
            } else {
                base[..l.min(n)].to_string()
            }
        }
        6 => {
            // same length, fresh content
            let m = match k {
                Kind::Ean13 => 12,
                Kind::Ean8 => 7,
                Kind::Upca => 11,
                _ => n.max(lead + 1) - lead,
            };
            valid_len(k, r, if k == Kind::Code128 { m } else { m.min(256) })
        }
        _ => valid(k, r, max),
    }
}
/// The same text, as far as another symbology takes it.
pub fn reshaped(k: Kind, base: &str, r: &mut Rng) -> Option<String> {
    let n = match k {
        Kind::Ean13 => 12,
        Kind::Ean8 => 7,
        Kind::Upca => 11,
        Kind::Supp => *r.pick(&[2usize, 5]),
        Kind::Code128 => {
            let t: String = base.chars().filter(|c| (' '..='_').contains(c)).take(250).collect();
            if t.is_empty() {
                return None;
            }
            if t.len() % 2 == 0 && t.bytes().all(|b| b.is_ascii_digit()) && r.chance(1, 2) {
                return Some(format!("\u{106}{t}"));
            }
            return Some(format!("{}{t}", r.pick(&['\u{C0}', '\u{181}'])));
        }
        _ => {
            let a = alphabet(k);
            let t: String = base.chars().filter(|c| a.contains(c)).take(250).collect();
            return (!t.is_empty()).then_some(t);
        }
    };
    let d: Vec<char> = base.chars().filter(|c| c.is_ascii_digit()).collect();
    if d.is_empty() {
        return None;
    }
    // A number may be the beginning or the end of another; the rest is zeros.
    let t: String = if d.len() >= n {
        if r.chance(1, 2) { &d[..n] } else { &d[d.len() - n..] }.iter().collect()
    } else {
        let d: String = d.into_iter().collect();
        if r.chance(1, 2) { format!("{d:0<n$}") } else { format!("{d:0>n$}") }
    };
    Some(if k != Kind::Supp && r.chance(1, 3) { with_check(&t) } else { t })
}
/// 3 to 8 related texts; the first is valid.
pub fn family(k: Kind, r: &mut Rng, max: usize) -> Vec<String> {
    let base = valid(k, r, max);
    family_of(k, base, r, max)
}
pub fn family_of(k: Kind, base: String, r: &mut Rng, max: usize) -> Vec<String> {
    let mut v = vec![base];
    let n = r.range(3, 8);
    while (v.len() as u64) < n {
        let b = v[r.below(v.len() as u64) as usize].clone();
        let b = if b.is_empty() { v[0].clone() } else { b };
        v.push(if r.chance(1, 4) { odd_one(k, &b, r) } else { sibling(k, &b, r, max) });
    }
    v
}

pub fn bit_row(r: &mut Rng, max: usize) -> String {
    let wanted = word_int(r, 10, 5 * max as u64);
    let n = match r.below(5) {
        0 => r.range(1, 4),
        1 => r.range(60, 130),
        2 => r.logu(max as u64),
        _ => r.range(1, 40),
    } as usize;
    let n = wanted.map_or(n.clamp(1, max), |n| n as usize);
    match r.below(6) {
        0 => "1".repeat(n),
        1 => "0".repeat(n),
        2 => {
            // runs
            let mut s = String::new();
            let mut b = r.below(2);
            while s.len() < n {
                for _ in 0..r.range(1, 4) {
                    s.push((b'0' + b as u8) as char);
                }
                b = 1 - b;
            }
            s.truncate(n);
            s
        }
        _ => (0..n).map(|_| (b'0' + r.below(2) as u8) as char).collect(),
    }
}
pub fn bit_family(r: &mut Rng, max: usize) -> Vec<String> {
    let row = bit_row(r, max);
    bit_family_of(row, r, max)
}
pub fn bit_family_of(row: String, r: &mut Rng, max: usize) -> Vec<String> {
    let mut v = vec![row];
    let n = r.range(2, 6);
    while (v.len() as u64) < n {
        let b = v[r.below(v.len() as u64) as usize].clone().into_bytes();
        let mut b = if b.is_empty() { b"1".to_vec() } else { b };
        match r.below(6) {
            0 => {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1;
            }
            1 => b.reverse(),
            2 => b.push(b'0' + r.below(2) as u8),
            3 => {
                b.pop();
            }
            4 => b.iter_mut().for_each(|x| *x ^= 1),
            _ => b = bit_row(r, max).into_bytes(),
        }
        v.push(String::from_utf8(b).unwrap());
    }
    v
}

pub fn colour(r: &mut Rng) -> [u8; 4] {
    const P: [[u8; 4]; 8] =
        [[0, 0, 0, 255], [255, 255, 255, 255], [255, 0, 0, 255], [0, 0, 255, 255], [255, 255, 255, 0], [0, 0, 0, 0], [17, 34, 51, 128], [1, 2, 3, 1]];
    if r.chance(1, 2) {
        *r.pick(&P)
    } else {
        let mut c = [0; 4];
        for x in c.iter_mut() {
            *x = word_int(r, 16, 255).unwrap_or_else(|| r.below(256)) as u8;
        }
        c
    }
}
fn namespace(r: &mut Rng) -> String {
    match r.below(8) {
        0..=3 => "http://www.w3.org/2000/svg".into(),
        4 => String::new(),
        5 => "urn:".to_string() + &"x/".repeat(r.logu(200) as usize),
        6 => match word_str(r, &|c| !"\"<&".contains(c) && !c.is_control()) {
            Some(w) => match r.below(3) {
                0 => format!("http://{w}/svg"),
                1 => format!("urn:{w}"),
                _ => w,
            },
            None => "\u{e9}'\u{4e2d}".into(),
        },
        _ => format!("ns{}", r.below(10)),
    }
}
pub fn cfg_of(kind: u8, r: &mut Rng) -> Cfg {
    let mut fg = [0, 0, 0, 255];
    let mut bg = [255, 255, 255, 255];
    if r.chance(2, 3) {
        fg = colour(r);
    }
    if r.chance(2, 3) {
        bg = colour(r);
    }
    let tall = word_int(r, 16, 300);
    Cfg {
        kind,
        height: match r.below(4) {
            _ if tall.is_some() => tall.unwrap(),
            0 => 1,
            1 => r.range(2, 4),
            2 if kind == 0 && r.chance(1, 4) => r.logu(2500),
            _ => r.logu(40),
        } as u32,
        xdim: word_int(r, 16, 12).unwrap_or_else(|| r.range(1, 4)) as u32,
        rot: if kind >= 3 || (kind == 1 && r.chance(1, 4)) { r.below(4) as u8 } else { 0 },
        fg,
        bg,
        xmlns: match kind {
            2 if r.chance(1, 2) => Some(namespace(r)),
            6 if r.chance(1, 10) => Some("file".into()),
            _ => None,
        },
        builder: r.chance(1, 2),
        buffer: kind >= 3 && r.chance(1, 4),
    }
}
pub fn cfg_sibling(c: &Cfg, r: &mut Rng) -> Cfg {
    let mut d = c.clone();
    // colours that a careless summary takes for the same
    fn alike(c: &mut [u8; 4], r: &mut Rng) {
        let i = r.below(3) as usize;
        let m = *r.pick(&[1u8, 1, 2, 3, 5, 7, 10, 16, 31, 33, 37, 131]);
        match r.below(4) {
            0 => c.swap(i, i + 1),
            1 => c[..3].reverse(),
            _ if c[i] < 255 && c[i + 1] >= m => {
                c[i] += 1;
                c[i + 1] -= m;
            }
            _ if c[i] > 0 && c[i + 1] <= 255 - m => {
                c[i] -= 1;
                c[i + 1] += m;
            }
            _ => c[i] ^= 1,
        }
    }
    match r.below(11) {
        8 | 9 if c.kind >= 2 => alike(&mut d.fg, r),
        10 if c.kind >= 2 => alike(&mut d.bg, r),
        0 => d.height = d.height % 40 + 1,
        1 => d.xdim = d.xdim % 4 + 1,
        2 => d.fg = colour(r),
        3 => d.bg = colour(r),
        4 => std::mem::swap(&mut d.fg, &mut d.bg),
        5 if c.kind >= 3 => d.rot = (d.rot + r.range(1, 3) as u8) % 4,
        6 => std::mem::swap(&mut d.height, &mut d.xdim),
        5 | 7 if c.kind == 2 => d.xmlns = if d.xmlns.is_some() { None } else { Some("x".into()) },
        _ => d.builder = !d.builder,
    }
    d
}
pub fn cfg_family(r: &mut Rng) -> Vec<Cfg> {
    let kinds: Vec<u8> = RKINDS.iter().map(|k| crate::plan::ALL_R.iter().position(|x| x == k).unwrap() as u8).collect();
    let mut v = vec![];
    for _ in 0..r.range(1, 3) {
        let k = *r.pick(&kinds);
        let b = cfg_of(k, r);
        for _ in 0..r.below(3) {
            let s = cfg_sibling(&b, r);
            v.push(s);
        }
        v.push(b);
    }
    v
}

/// Moves one character of a Code 128 text somewhere else, so that digit pairs may be torn apart.
pub fn torn_pairs(t: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.len() < 3 {
        return t.to_string();
    }
    match r.below(3) {
        0 => {
            let i = r.range(1, c.len() as u64 - 1) as usize;
            let x = c.remove(i);
            let j = r.range(1, c.len() as u64) as usize;
            c.insert(j, x);
        }
        1 => {
            let j = r.range(1, c.len() as u64) as usize;
            c.insert(j, '\u{179}');
        }
        _ => {
            let i = r.range(1, c.len() as u64 - 1) as usize;
            c.remove(i);
        }
    }
    c.into_iter().collect()
}
