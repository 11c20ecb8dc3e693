//! Reference scanners: read a row of modules by the published rules of each symbology.
//!
//! The tables are written down as element widths (not as the module strings of the library).
//! Where the library's own tests fix a deviation within a scanner's tolerance it is followed here
//! (the wide bars of the 2-of-5 guards are two modules wide); the exchanged Codabar characters B
//! and C are not (known_findings.json).
use simops::Kind;

pub struct Read {
    pub data: String,
    /// Module ranges of the symbol characters: (start, end, class of admissible replacement)
    pub spans: Vec<(usize, usize)>,
}
type R = Option<Read>;

fn widths_to_bits(w: &str) -> Vec<u8> {
    let mut v = vec![];
    for (i, c) in w.bytes().enumerate() {
        for _ in 0..c - b'0' {
            v.push(1 - (i % 2) as u8);
        }
    }
    v
}

// ---------------------------------------------------------------- EAN / UPC
/// Space-bar-space-bar widths of the left-hand odd (A) set.
const EAN_A: [&str; 10] = ["3211", "2221", "2122", "1411", "1132", "1231", "1114", "1312", "1213", "3112"];
/// A/B choice of the six left digits by first digit (B = 1).
const EAN_PAR: [u8; 10] = [0b000000, 0b001011, 0b001101, 0b001110, 0b010011, 0b011001, 0b011100, 0b010101, 0b010110, 0b011010];

pub fn ean_pattern(set: u8, d: usize) -> Vec<u8> {
    let a: Vec<u8> = {
        let mut v = vec![];
        for (i, c) in EAN_A[d].bytes().enumerate() {
            for _ in 0..c - b'0' {
                v.push((i % 2) as u8);
            }
        }
        v
    };
    match set {
        0 => a,
        1 => a.iter().rev().map(|b| 1 - b).collect(), // B: C reversed
        _ => a.iter().map(|b| 1 - b).collect(),       // C: A complemented
    }
}
fn ean_digit(m: &[u8]) -> Option<(u8, u8)> {
    for set in 0..3 {
        for d in 0..10 {
            if ean_pattern(set, d) == m {
                return Some((set, d as u8));
            }
        }
    }
    None
}
/// Check digit of the digits before it: weights 3,1,3,1... from the right.
pub fn mod10(d: &[u8]) -> u8 {
    let mut s = 0u32;
    for (i, x) in d.iter().rev().enumerate() {
        s += *x as u32 * if i % 2 == 0 { 3 } else { 1 };
    }
    ((10 - s % 10) % 10) as u8
}

fn ean(m: &[u8], half: usize, thirteen: bool) -> R {
    let n = 3 + 7 * half + 5 + 7 * half + 3;
    if m.len() != n || m[..3] != [1, 0, 1] || m[n - 3..] != [1, 0, 1] {
        return None;
    }
    let mid = 3 + 7 * half;
    if m[mid..mid + 5] != [0, 1, 0, 1, 0] {
        return None;
    }
    let mut spans = vec![];
    let mut par = 0u8;
    let mut ds = vec![];
    for i in 0..half {
        let s = 3 + 7 * i;
        spans.push((s, s + 7));
        let (set, d) = ean_digit(&m[s..s + 7])?;
        if set > 1 {
            return None;
        }
        par = par * 2 + set;
        ds.push(d);
    }
    for i in 0..half {
        let s = mid + 5 + 7 * i;
        spans.push((s, s + 7));
        let (set, d) = ean_digit(&m[s..s + 7])?;
        if set != 2 {
            return None;
        }
        ds.push(d);
    }
    if thirteen {
        let first = EAN_PAR.iter().position(|&p| p == par)? as u8;
        ds.insert(0, first);
    } else if par != 0 {
        return None;
    }
    if mod10(&ds[..ds.len() - 1]) != ds[ds.len() - 1] {
        return None;
    }
    Some(Read { data: ds.iter().map(|d| (b'0' + d) as char).collect(), spans })
}

/// Add-ons: guard 1011, digits separated by 01, the sets chosen by the value.  They are read to
/// the right of the symbol they belong to, so their direction is known.
fn supp(m: &[u8]) -> R {
    let n = match m.len() {
        20 => 2,
        47 => 5,
        _ => return None,
    };
    if m[..4] != [1, 0, 1, 1] {
        return None;
    }
    let (mut ds, mut par, mut spans) = (vec![], 0usize, vec![]);
    for i in 0..n {
        let s = 4 + 9 * i;
        if i > 0 && m[s - 2..s] != [0, 1] {
            return None;
        }
        let (set, d) = ean_digit(&m[s..s + 7])?;
        if set > 1 {
            return None;
        }
        par = par * 2 + set as usize;
        ds.push(d as usize);
        spans.push((s, s + 7));
    }
    let want = if n == 2 {
        // the value modulo four in binary
        (ds[0] * 10 + ds[1]) % 4
    } else {
        const P: [usize; 10] = [0b11000, 0b10100, 0b10010, 0b10001, 0b01100, 0b00110, 0b00011, 0b01010, 0b01001, 0b00101];
        P[(3 * (ds[0] + ds[2] + ds[4]) + 9 * (ds[1] + ds[3])) % 10]
    };
    if par != want {
        return None;
    }
    Some(Read { data: ds.iter().map(|d| (b'0' + *d as u8) as char).collect(), spans })
}

// ---------------------------------------------------------------- Code 39
/// Two-of-five bars by column, wide spaces by group.
pub const C39: &str = "1234567890ABCDEFGHIJKLMNOPQRSTUVWXYZ-. *";
const C39_BARS: [&str; 10] = ["WNNNW", "NWNNW", "WWNNN", "NNWNW", "WNWNN", "NWWNN", "NNNWW", "WNNWN", "NWNWN", "NNWWN"];
const C39_SPACES: [&str; 4] = ["NWNN", "NNWN", "NNNW", "WNNN"];
pub const C39_ORDER: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";

fn nw(p: &str) -> Vec<u8> {
    let mut v = vec![];
    for (i, c) in p.chars().enumerate() {
        let n = if c == 'W' { 2 } else { 1 };
        for _ in 0..n {
            v.push(1 - (i % 2) as u8);
        }
    }
    v
}
pub fn c39_pattern(c: char) -> Vec<u8> {
    let special = |spaces: &str| {
        let mut p = String::new();
        for (i, s) in spaces.chars().enumerate() {
            p.push('N');
            p.push(s);
            if i == 3 {
                p.push('N');
            }
        }
        nw(&p)
    };
    match c {
        '$' => special("WWWN"),
        '/' => special("WWNW"),
        '+' => special("WNWW"),
        '%' => special("NWWW"),
        _ => {
            // Groups of ten share their spaces: digits second space, A-J third, K-T fourth,
            // U-Z - . space * first.
            let i = C39.find(c).unwrap();
            let b: Vec<char> = C39_BARS[i % 10].chars().collect();
            let s: Vec<char> = C39_SPACES[i / 10].chars().collect();
            let mut p = String::new();
            for k in 0..5 {
                p.push(b[k]);
                if k < 4 {
                    p.push(s[k]);
                }
            }
            nw(&p)
        }
    }
}
fn discrete(m: &[u8], table: &[(char, Vec<u8>)]) -> Option<Vec<(char, usize, usize)>> {
    // Characters separated by exactly one space module.
    let mut v = vec![];
    let mut at = 0;
    loop {
        let (c, p) = table.iter().find(|(_, p)| m[at..].starts_with(p) && (at + p.len() == m.len() || (m[at + p.len()] == 0 && m.get(at + p.len() + 1) == Some(&1))))?;
        v.push((*c, at, at + p.len()));
        at += p.len();
        if at == m.len() {
            return Some(v);
        }
        at += 1;
    }
}
fn code39(m: &[u8], t: &Tables, plain: bool) -> R {
    let v = discrete(m, &t.c39)?;
    let n = v.len();
    if plain {
        if n < 3 || v[0].0 != '*' || v[n - 1].0 != '*' || v[1..n - 1].iter().any(|x| x.0 == '*') {
            return None;
        }
        return Some(Read { data: v[1..n - 1].iter().map(|x| x.0).collect(), spans: v.iter().map(|x| (x.1, x.2)).collect() });
    }
    if n < 4 || v[0].0 != '*' || v[n - 1].0 != '*' {
        return None;
    }
    let mut sum = 0;
    for x in &v[1..n - 2] {
        sum += C39_ORDER.find(x.0)?;
    }
    if C39_ORDER.find(v[n - 2].0)? != sum % 43 {
        return None;
    }
    Some(Read { data: v[1..n - 2].iter().map(|x| x.0).collect(), spans: v.iter().map(|x| (x.1, x.2)).collect() })
}

// ---------------------------------------------------------------- Codabar
/// Narrow/wide choice of the seven elements.
const CODABAR: [(char, &str); 20] = [
    ('0', "0000011"), ('1', "0000110"), ('2', "0001001"), ('3', "1100000"), ('4', "0010010"), ('5', "1000010"), ('6', "0100001"),
    ('7', "0100100"), ('8', "0110000"), ('9', "1001000"), ('-', "0001100"), ('$', "0011000"), (':', "1000101"), ('/', "1010001"),
    ('.', "1010100"), ('+', "0010101"), ('A', "0011010"), ('B', "0101001"), ('C', "0001011"), ('D', "0001110"),
];
fn codabar(m: &[u8], t: &Tables) -> R {
    codabar_by(m, &t.codabar)
}
/// With the pattern the library prints for the plus sign (known_findings.json).
pub fn codabar_odd_plus(m: &[u8], t: &Tables) -> R {
    let mut table = t.codabar.clone();
    table.retain(|x| x.0 != '+');
    table.push(('+', vec![1, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1]));
    codabar_by(m, &table)
}
fn codabar_by(m: &[u8], table: &[(char, Vec<u8>)]) -> R {
    let v = discrete(m, table)?;
    let n = v.len();
    let guard = |x: &(char, usize, usize)| "ABCD".contains(x.0);
    if n < 3 || !guard(&v[0]) || !guard(&v[n - 1]) || v[1..n - 1].iter().any(guard) {
        return None;
    }
    Some(Read { data: v.iter().map(|x| x.0).collect(), spans: v.iter().map(|x| (x.1, x.2)).collect() })
}

// ---------------------------------------------------------------- Code 93
const C93: [&str; 48] = [
    "131112", "111213", "111312", "111411", "121113", "121212", "121311", "111114", "131211", "141111", // 0-9
    "211113", "211212", "211311", "221112", "221211", "231111", "112113", "112212", "112311", "122112", // A-J
    "132111", "111123", "111222", "111321", "121122", "131121", "212112", "212211", "211122", "211221", // K-T
    "221121", "222111", "112122", "112221", "122121", "123111", // U-Z
    "121131", "311112", "311211", "321111", "112131", "113121", "211131", // - . space $ / + %
    "121221", "312111", "311121", "122211", // ($) (%) (/) (+)
    "111141", // *
];
pub const C93_ORDER: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]*";
fn c93_check(v: &[usize], max: usize) -> usize {
    v.iter().rev().enumerate().map(|(i, x)| (i % max + 1) * x).sum::<usize>() % 47
}
fn code93(m: &[u8], t: &Tables) -> R {
    if m.len() % 9 != 1 || m.len() < 9 * 5 + 1 || m[m.len() - 1] != 1 {
        return None;
    }
    let n = m.len() / 9;
    let mut v = vec![];
    for i in 0..n {
        v.push(t.c93.iter().position(|p| *p == m[9 * i..9 * i + 9])?);
    }
    if v[0] != 47 || v[n - 1] != 47 || v[1..n - 1].contains(&47) {
        return None;
    }
    let d = &v[1..n - 3];
    if c93_check(d, 20) != v[n - 3] || c93_check(&v[1..n - 2], 15) != v[n - 2] {
        return None;
    }
    let ord: Vec<char> = C93_ORDER.chars().collect();
    Some(Read { data: d.iter().map(|&i| ord[i]).collect(), spans: (0..n).map(|i| (9 * i, 9 * i + 9)).collect() })
}

// ---------------------------------------------------------------- Code 11
const C11: [&str; 11] = ["NNNNW", "WNNNW", "NWNNW", "WWNNN", "NNWNW", "WNWNN", "NWWNN", "NNNWW", "WNNWN", "WNNNN", "NNWNN"];
pub const C11_ORDER: &str = "0123456789-";
fn c11_check(v: &[usize], max: usize) -> usize {
    v.iter().rev().enumerate().map(|(i, x)| (i % max + 1) * x).sum::<usize>() % 11
}
fn code11(m: &[u8], t: &Tables) -> R {
    let v = discrete(m, &t.c11)?;
    let n = v.len();
    if n < 4 || v[0].0 != '*' || v[n - 1].0 != '*' {
        return None;
    }
    let mut x = vec![];
    for c in &v[1..n - 1] {
        x.push(C11_ORDER.find(c.0)?);
    }
    // One check character up to ten data characters, two beyond.
    let d = if x.len() <= 11 { x.len() - 1 } else { x.len() - 2 };
    if x.len() == 12 || d == 0 {
        return None;
    }
    if c11_check(&x[..d], 10) != x[d] {
        return None;
    }
    if d > 10 && c11_check(&x[..d + 1], 9) != x[d + 1] {
        return None;
    }
    Some(Read { data: v[1..1 + d].iter().map(|c| c.0).collect(), spans: v.iter().map(|x| (x.1, x.2)).collect() })
}

// ---------------------------------------------------------------- interleaved 2-of-5
const TWO_OF_FIVE: [&str; 10] = ["NNWWN", "WNNNW", "NWNNW", "WWNNN", "NNWNW", "WNWNN", "NWWNN", "NNNWW", "WNNWN", "NWNWN"];
fn runs(m: &[u8]) -> Vec<(u8, usize, usize)> {
    let mut v: Vec<(u8, usize, usize)> = vec![];
    for (i, &b) in m.iter().enumerate() {
        match v.last_mut() {
            Some(l) if l.0 == b => l.1 += 1,
            _ => v.push((b, 1, i)),
        }
    }
    v
}
/// Digits of an interleaved symbol together with the element indices that carry them.
fn itf_digits(m: &[u8]) -> Option<Vec<u8>> {
    let r = runs(m);
    if r.len() < 4 + 10 + 3 || (r.len() - 7) % 10 != 0 || m[0] != 1 {
        return None;
    }
    if r[..4].iter().any(|x| x.1 != 1) {
        return None;
    }
    let e = &r[r.len() - 3..];
    // The library prints its wide stop bar two modules wide (fixed by its tests).
    if e[0].1 != 2 || e[1].1 != 1 || e[2].1 != 1 {
        return None;
    }
    let body = &r[4..r.len() - 3];
    let mut ds = vec![];
    for c in body.chunks(10) {
        for k in 0..2 {
            let mut p = String::new();
            for j in 0..5 {
                p.push(match c[2 * j + k].1 {
                    1 => 'N',
                    3 => 'W',
                    _ => return None,
                });
            }
            ds.push(TWO_OF_FIVE.iter().position(|x| *x == p)? as u8);
        }
    }
    Some(ds)
}
fn itf(m: &[u8], plain: bool) -> R {
    let ds = itf_digits(m)?;
    if plain {
        return Some(Read { data: ds.iter().map(|d| (b'0' + d) as char).collect(), spans: (0..ds.len()).map(|i| (i, i + 1)).collect() });
    }
    if mod10(&ds[..ds.len() - 1]) != ds[ds.len() - 1] {
        return None;
    }
    Some(Read { data: ds[..ds.len() - 1].iter().map(|d| (b'0' + d) as char).collect(), spans: (0..ds.len()).map(|i| (i, i + 1)).collect() })
}
/// Standard 2-of-5: only the bars carry data; every space is narrow.
fn stf(m: &[u8]) -> R {
    let r = runs(m);
    // (a reader does not see where the last space ends and the quiet zone begins)
    let r: &[(u8, usize, usize)] = match (r.first()?.0, r.last()?.0) {
        (1, 1) => &r,
        (0, 1) => &r[1..],
        (1, 0) => &r[..r.len() - 1],
        _ => return None,
    };
    let (bars, spaces): (Vec<(u8, usize, usize)>, Vec<(u8, usize, usize)>) = r.iter().partition(|x| x.0 == 1);
    if spaces.iter().any(|x| x.1 != 1) || bars.len() < 11 || (bars.len() - 6) % 5 != 0 {
        return None;
    }
    let n = bars.len();
    let w = |x: &[(u8, usize, usize)]| -> Vec<usize> { x.iter().map(|b| b.1).collect() };
    if w(&bars[..3]) != [2, 2, 1] || w(&bars[n - 3..]) != [2, 1, 2] {
        return None;
    }
    let mut data = String::new();
    let mut spans = vec![];
    for c in bars[3..n - 3].chunks(5) {
        let mut p = String::new();
        for b in c {
            p.push(match b.1 {
                1 => 'N',
                3 => 'W',
                _ => return None,
            });
            spans.push((b.2, b.2 + b.1));
        }
        data.push((b'0' + TWO_OF_FIVE.iter().position(|x| *x == p)? as u8) as char);
    }
    Some(Read { data, spans })
}
/// The symbol with one element, counted from the left, printed narrow instead of wide or the
/// other way round.
pub fn element_damage(m: &[u8], element: usize, wide: usize) -> Vec<u8> {
    let mut out = vec![];
    for (i, x) in runs(m).iter().enumerate() {
        let n = match (i == element, x.1) {
            (false, n) => n,
            (true, 1) => wide,
            (true, _) => 1,
        };
        out.resize(out.len() + n, x.0);
    }
    out
}
pub fn elements(m: &[u8]) -> usize {
    runs(m).len()
}
/// The symbol with one digit replaced by an arbitrary choice of five narrow/wide elements.
pub fn itf_damage(m: &[u8], digit: usize, pat: &[u8; 5]) -> Vec<u8> {
    let r = runs(m);
    let mut out = vec![];
    let base = 4 + digit / 2 * 10 + digit % 2;
    for (i, x) in r.iter().enumerate() {
        let mut n = x.1;
        for k in 0..5 {
            if i == base + 2 * k {
                n = pat[k] as usize;
            }
        }
        out.resize(out.len() + n, x.0);
    }
    out
}

// ---------------------------------------------------------------- Code 128
const C128: [&str; 106] = [
    "212222", "222122", "222221", "121223", "121322", "131222", "122213", "122312", "132212", "221213", "221312", "231212", "112232", "122132",
    "122231", "113222", "123122", "123221", "223211", "221132", "221231", "213212", "223112", "312131", "311222", "321122", "321221", "312212",
    "322112", "322211", "212123", "212321", "232121", "111323", "131123", "131321", "112313", "132113", "132311", "211313", "231113", "231311",
    "112133", "112331", "132131", "113123", "113321", "133121", "313121", "211331", "231131", "213113", "213311", "213131", "311123", "311321",
    "331121", "312113", "312311", "332111", "314111", "221411", "431111", "111224", "111422", "121124", "121421", "141122", "141221", "112214",
    "112412", "122114", "122411", "142112", "142211", "241211", "221114", "413111", "241112", "134111", "111242", "121142", "121241", "114212",
    "124112", "124211", "411212", "421112", "421211", "212141", "214121", "412121", "111143", "111341", "131141", "114113", "114311", "411113",
    "411311", "113141", "114131", "311141", "411131", "211412", "211214", "211232",
];
fn code128(m: &[u8], t: &Tables) -> R {
    if m.len() % 11 != 2 || m.len() < 11 * 3 + 13 {
        return None;
    }
    let n = m.len() / 11 - 1;
    if m[11 * n..] != t.c128_stop[..] {
        return None;
    }
    let mut v = vec![];
    for i in 0..n {
        v.push(t.c128.iter().position(|p| *p == m[11 * i..11 * i + 11])?);
    }
    let mut sum = 0usize;
    for (i, x) in v[..n - 1].iter().enumerate() {
        sum += x * i.max(1);
    }
    if sum % 103 != v[n - 1] {
        return None;
    }
    let mut set = match v[0] {
        103 => 'A',
        104 => 'B',
        105 => 'C',
        _ => return None,
    };
    let mut out = String::new();
    for &x in &v[1..n - 1] {
        match (x, set) {
            (103..=105, _) => return None,
            (102, _) => out.push('\u{0179}'),
            (101, 'A') | (100, 'B') => out.push('\u{017C}'),
            (101, _) => set = 'A',
            (100, _) => set = 'B',
            (99, 'A' | 'B') => set = 'C',
            (_, 'C') => out.push_str(&format!("{x:02}")),
            (98, _) => out.push('\u{017D}'),
            (97, _) => out.push('\u{017A}'),
            (96, _) => out.push('\u{017B}'),
            (x, 'A') if x >= 64 => out.push((x as u8 - 64) as char),
            (x, _) => out.push((x as u8 + 32) as char),
        }
    }
    let mut spans: Vec<(usize, usize)> = (0..n).map(|i| (11 * i, 11 * i + 11)).collect();
    spans.push((11 * n, m.len()));
    Some(Read { data: out, spans })
}

pub struct Tables {
    c39: Vec<(char, Vec<u8>)>,
    c11: Vec<(char, Vec<u8>)>,
    codabar: Vec<(char, Vec<u8>)>,
    c93: Vec<Vec<u8>>,
    c128: Vec<Vec<u8>>,
    c128_stop: Vec<u8>,
}
impl Tables {
    pub fn new() -> Tables {
        let mut c11: Vec<(char, Vec<u8>)> = C11_ORDER.chars().zip(C11.iter()).map(|(c, p)| (c, nw(p))).collect();
        c11.push(('*', nw("NNWWN")));
        Tables {
            c39: "1234567890ABCDEFGHIJKLMNOPQRSTUVWXYZ-. *$/+%".chars().map(|c| (c, c39_pattern(c))).collect(),
            c11,
            codabar: CODABAR.iter().map(|(c, p)| (*c, nw(&p.replace('0', "N").replace('1', "W")))).collect(),
            c93: C93.iter().map(|w| widths_to_bits(w)).collect(),
            c128: C128.iter().map(|w| widths_to_bits(w)).collect(),
            c128_stop: widths_to_bits("2331112"),
        }
    }
    /// Patterns a symbol character can be replaced with.
    pub fn alphabet(&self, k: Kind) -> Vec<Vec<u8>> {
        match k {
            Kind::Ean13 | Kind::Ean8 | Kind::Upca | Kind::Supp => (0..3).flat_map(|s| (0..10).map(move |d| ean_pattern(s, d))).collect(),
            Kind::Code11 => self.c11.iter().map(|x| x.1.clone()).collect(),
            Kind::Code39 | Kind::Code39C => self.c39.iter().map(|x| x.1.clone()).collect(),
            Kind::Code93 => self.c93.clone(),
            Kind::Code128 => self.c128.clone(),
            _ => vec![],
        }
    }
    /// `plain`: interleaved 2-of-5 without check digit.
    pub fn forward(&self, k: Kind, plain: bool, m: &[u8]) -> R {
        match k {
            Kind::Supp => supp(m),
            Kind::Codabar => codabar(m, self),
            Kind::Stf => stf(m),
            Kind::Ean13 => ean(m, 6, true),
            Kind::Upca => ean(m, 6, false),
            Kind::Ean8 => ean(m, 4, false),
            Kind::Code11 => code11(m, self),
            Kind::Code39 => code39(m, self, true),
            Kind::Code39C => code39(m, self, false),
            Kind::Code93 => code93(m, self),
            Kind::Code128 => code128(m, self),
            Kind::Itf => itf(m, plain),
        }
    }
    /// A scanner does not know from which end it reads.
    pub fn read(&self, k: Kind, plain: bool, m: &[u8]) -> R {
        self.forward(k, plain, m).or_else(|| {
            let r: Vec<u8> = m.iter().rev().cloned().collect();
            self.forward(k, plain, &r)
        })
    }
}

/// The data a scanner is expected to report for `text`.
pub fn submitted(k: Kind, text: &str) -> Option<String> {
    match k {
        Kind::Ean13 | Kind::Ean8 | Kind::Upca => {
            let n = match k {
                Kind::Ean13 => 12,
                Kind::Upca => 11,
                _ => 7,
            };
            let mut d: Vec<u8> = text.bytes().take(n).map(|b| b - b'0').collect();
            d.push(mod10(&d));
            Some(d.iter().map(|x| (b'0' + x) as char).collect())
        }
        Kind::Code128 => Some(text.chars().filter(|c| !"ÀƁĆ".contains(*c)).collect()),
        _ => Some(text.to_string()),
    }
}

/// Whether `text` is data the symbology can carry, so that a symbol must come out.
pub fn expressible(k: Kind, text: &str) -> bool {
    if k != Kind::Code128 {
        return true;
    }
    // In set C digits come in pairs that nothing interrupts.
    let mut set = ' ';
    let mut pending = false;
    for ch in text.chars() {
        if "\u{106}\u{C0}\u{181}".contains(ch) {
            if pending || set == ch {
                return false;
            }
            set = ch;
            continue;
        }
        let u = ch as u32;
        let fnc = (0x179..=0x17B).contains(&u);
        let ok = match set {
            '\u{C0}' => u < 0x60 || fnc,
            '\u{181}' => (0x20..0x7f).contains(&u) || fnc,
            '\u{106}' => {
                if ch.is_ascii_digit() {
                    pending = !pending;
                    true
                } else {
                    u == 0x179 && !pending
                }
            }
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    !pending && set != ' '
}
