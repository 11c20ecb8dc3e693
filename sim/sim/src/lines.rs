//! C10: a rendering is damaged until single scan lines survive; each is read back.
use crate::exec::*;
use crate::plan::*;
use simops::{Made, RKind, Rn};
use simrt::rng::Rng;

fn bs(m: &[u8]) -> String {
    let s: String = m.iter().take(80).map(|b| (b'0' + b) as char).collect();
    if m.len() > 80 {
        format!("{s}...({})", m.len())
    } else {
        s
    }
}

/// A rendering reduced to what a scanner sees: rows of cells, each a colour.
struct Raster {
    w: usize,
    h: usize,
    px: Vec<[u8; 4]>,
}

/// The position of the `>` that ends the tag at `from` (which is at its `<`): the first one outside
/// a quoted attribute value.
fn tag_end(s: &str, from: usize) -> Option<usize> {
    let mut quote = 0u8;
    for (i, b) in s.bytes().enumerate().skip(from) {
        match b {
            b'"' | b'\'' if quote == 0 => quote = b,
            _ if quote != 0 => {
                if b == quote {
                    quote = 0
                }
            }
            b'>' => return Some(i),
            _ => {}
        }
    }
    None
}

/// The value of the attribute `name` of a tag; what stands inside other values is not looked at.
fn attr<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let mut rest = tag;
    loop {
        let eq = rest.find('=')?;
        let key = rest[..eq].trim_end();
        let key = key.rsplit(|c: char| c.is_whitespace()).next().unwrap_or("");
        let v = rest[eq + 1..].trim_start();
        let q = v.chars().next().filter(|&c| c == '"' || c == '\'')?;
        let e = v[1..].find(q)?;
        if key == name {
            return Some(&v[1..1 + e]);
        }
        rest = &v[e + 2..];
    }
}

/// Paints the rectangles of an SVG document onto the unit cells `cells` (ascending) of the lines
/// `rows`; reads opacity as alpha.
fn svg_raster(s: &str, w: usize, h: usize, rows: &[usize], cells: &[usize]) -> Result<Vec<Vec<Option<([u8; 3], f64)>>>, String> {
    let open = s.find("<svg").ok_or("no <svg>")?;
    let close = tag_end(s, open).ok_or("unterminated <svg>")?;
    let head = &s[open..close];
    let vb = attr(head, "viewBox").ok_or("no viewBox")?;
    let v: Vec<f64> = vb.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if v.len() != 4 || v[0] != 0.0 || v[1] != 0.0 || v[2] != w as f64 || v[3] != h as f64 {
        return Err(format!("viewBox {vb:?}, expected 0 0 {w} {h}"));
    }
    if !s.trim_end().ends_with("</svg>") {
        return Err("not terminated by </svg>".into());
    }
    let mut out = vec![vec![None; cells.len()]; rows.len()];
    let mut at = close;
    while let Some(i) = s[at..].find("<rect") {
        let st = at + i;
        let en = tag_end(s, st).ok_or("unterminated <rect>")?;
        let t = &s[st..en];
        at = en;
        let num = |n: &str| -> Result<f64, String> {
            match attr(t, n) {
                None => Ok(0.0),
                Some(x) => x.parse().map_err(|_| format!("bad {n} in {t}")),
            }
        };
        let (x, y, rw, rh) = (num("x")?, num("y")?, num("width")?, num("height")?);
        let f = attr(t, "fill").unwrap_or("#000000");
        let f = f.strip_prefix('#').ok_or(format!("fill in {t}"))?;
        let full: String = if f.len() == 3 { f.chars().flat_map(|c| [c, c]).collect() } else { f.to_string() };
        if full.len() != 6 {
            return Err(format!("fill in {t}"));
        }
        let mut c = [0u8; 3];
        for k in 0..3 {
            c[k] = u8::from_str_radix(&full[2 * k..2 * k + 2], 16).map_err(|_| format!("fill in {t}"))?;
        }
        let mut o = 1.0;
        for name in ["fill-opacity", "opacity"] {
            if let Some(x) = attr(t, name) {
                o *= x.parse::<f64>().map_err(|_| format!("opacity in {t}"))?;
            }
        }
        for (ri, &row) in rows.iter().enumerate() {
            let cy = row as f64 + 0.5;
            if cy < y || cy >= y + rh {
                continue;
            }
            let first = cells.partition_point(|&cell| cell as f64 + 0.5 < x);
            for (k, &cell) in cells.iter().enumerate().skip(first) {
                if cell as f64 + 0.5 >= x + rw {
                    break;
                }
                out[ri][k] = Some((c, o));
            }
        }
    }
    Ok(out)
}

#[cfg(feature = "full")]
fn decode(kind: RKind, b: &[u8]) -> Result<Raster, String> {
    let f = match kind {
        RKind::Gif => image::ImageFormat::Gif,
        RKind::Png => image::ImageFormat::Png,
        _ => image::ImageFormat::WebP,
    };
    let im = image::load_from_memory_with_format(b, f).map_err(|e| format!("the file does not decode: {e}"))?.to_rgba8();
    let (w, h) = im.dimensions();
    Ok(Raster { w: w as usize, h: h as usize, px: im.pixels().map(|p| p.0).collect() })
}
#[cfg(not(feature = "full"))]
fn decode(_: RKind, _: &[u8]) -> Result<Raster, String> {
    Err("no images in this build".into())
}

pub fn lines_op(id: u32, rn: &Rn, cfg: &Cfg, bits: u32, seed: u64) {
    let m = the_bits(bits);
    let (h, x) = (cfg.height as usize, cfg.xdim as usize);
    let who = || format!("op {id}: {cfg:?} of {}", bs(m));
    let made = match sut_render(rn, bits) {
        Ok(Ok(m)) => m,
        Ok(Err(c)) => report_violation("lines", &format!("{}: rendering fails with error {c}", who())),
        Err(c) => report_violation("lines", &format!("{}: {}", who(), panic_text(c))),
    };
    bump("renderings", 1);
    let mut rng = Rng::new(seed);
    // Which lines survive the damage.
    let mut alive: Vec<usize> = vec![];
    let keep = rng.range(1, 4);
    if h <= 48 {
        alive.extend(0..h);
    } else {
        alive.extend([0, h - 1, h / 2]);
        for _ in 0..keep * 4 {
            alive.push(rng.below(h as u64) as usize);
        }
    }
    bump("scan_lines_destroyed", (h - alive.len().min(h)) as u64 + (alive.len() as u64).saturating_sub(1) * alive.len() as u64);
    bump("surviving_lines_read", alive.len() as u64);
    let hash;
    match &made {
        Made::Text(s) => {
            hash = hash_bytes(s.as_bytes());
            match ALL_R[cfg.kind as usize] {
                RKind::Ascii => {
                    let ls: Vec<&str> = s.split('\n').collect();
                    let ls: Vec<&str> = if ls.last() == Some(&"") && ls.len() == h + 1 { ls[..h].to_vec() } else { ls };
                    if ls.len() != h {
                        report_violation("lines", &format!("{}: {} text lines instead of {h}", who(), ls.len()));
                    }
                    for &r in &alive {
                        let got: Vec<char> = ls[r].chars().collect();
                        // Trailing spaces are invisible on paper but are modules here.
                        if got.len() != m.len() * x {
                            report_violation("lines", &format!("{}: line {r} is {} characters wide instead of {}", who(), got.len(), m.len() * x));
                        }
                        for (i, c) in got.iter().enumerate() {
                            let want = if m[i / x] == 0 { ' ' } else { '#' };
                            if *c != want {
                                report_violation("lines", &format!("{}: line {r}, character {i} is {c:?} instead of {want:?}", who()));
                            }
                        }
                    }
                }
                RKind::Json => {
                    let j: serde_json::Value = match serde_json::from_str(s) {
                        Ok(j) => j,
                        Err(e) => report_violation("lines", &format!("{}: not JSON ({e})", who())),
                    };
                    let enc: Option<Vec<u8>> = j["encoding"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap_or(9) as u8).collect());
                    if enc.as_deref() != Some(m) {
                        report_violation("lines", &format!("{}: encoding differs: {}", who(), bs(&enc.unwrap_or_default())));
                    }
                    let (h, x) = cfg.rcfg().json_dims();
                    if j["height"].as_u64() != Some(h as u64) || j["xdim"].as_u64() != Some(x as u64) {
                        report_violation("lines", &format!("{}: height {} and xdim {}", who(), j["height"], j["xdim"]));
                    }
                }
                _ => {
                    let w = m.len() * x;
                    // Every unit, or the first and last and a few others of every module.
                    let cells: Vec<usize> = if w <= 200_000 {
                        (0..w).collect()
                    } else {
                        (0..m.len()).flat_map(|i| [0, 1, x / 3, x / 2, x - 1].map(|d| i * x + d)).collect()
                    };
                    match svg_raster(s, w, h, &alive, &cells) {
                        Err(e) => report_violation("lines", &format!("{}: {e}", who())),
                        Ok(rows) => {
                            for (ri, row) in rows.iter().enumerate() {
                                for (c, &i) in row.iter().zip(&cells) {
                                    let want = if m[i / x] == 0 { cfg.bg } else { cfg.fg };
                                    let ok = match c {
                                        None => want[3] == 0,
                                        Some((rgb, o)) => *rgb == want[..3] && (o - want[3] as f64 / 255.0).abs() <= 0.00501,
                                    };
                                    if !ok {
                                        report_violation("lines", &format!("{}: line {}, unit {i} is {c:?} instead of {want:?}", who(), alive[ri]));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Made::Bytes(_) | Made::Pixels(..) => {
            let (r, gif) = match &made {
                Made::Bytes(b) => {
                    let k = ALL_R[cfg.kind as usize];
                    match decode(k, b) {
                        Ok(r) => (r, k == RKind::Gif),
                        Err(e) => report_violation("lines", &format!("{}: {e}", who())),
                    }
                }
                Made::Pixels(w, h, b) => {
                    if b.len() != *w as usize * *h as usize * 4 {
                        report_violation("lines", &format!("{}: buffer of {} bytes for {w}x{h}", who(), b.len()));
                    }
                    (Raster { w: *w as usize, h: *h as usize, px: b.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() }, false)
                }
                _ => unreachable!(),
            };
            let mut f = vec![r.w as u8, r.h as u8];
            for p in &r.px {
                f.extend_from_slice(p);
            }
            hash = hash_bytes(&f);
            let len = m.len() * x;
            let (ew, eh) = if cfg.rot % 2 == 1 { (h, len) } else { (len, h) };
            if (r.w, r.h) != (ew, eh) {
                report_violation("lines", &format!("{}: image of {}x{} instead of {ew}x{eh}", who(), r.w, r.h));
            }
            for &line in &alive {
                for i in 0..len {
                    // (column, row) of unit i of scan line `line` after a clockwise turn
                    let (cx, cy) = match cfg.rot % 4 {
                        0 => (i, line),
                        1 => (h - 1 - line, i),
                        2 => (len - 1 - i, h - 1 - line),
                        _ => (line, len - 1 - i),
                    };
                    let got = r.px[cy * r.w + cx];
                    let want = if m[i / x] == 0 { cfg.bg } else { cfg.fg };
                    let ok = if gif {
                        // GIF knows opaque and transparent only.
                        if want[3] == 0 {
                            got[3] == 0
                        } else {
                            got[..3] == want[..3] && got[3] == 255
                        }
                    } else {
                        got == want
                    };
                    if !ok {
                        report_violation("lines", &format!("{}: line {line}, unit {i} is {got:?} instead of {want:?}", who()));
                    }
                }
            }
        }
    }
    note_outcome(hash);
    discard(made);
}

/// What the beam of a scanner sees on one surviving line: the units, light or dark.
pub fn beam(made: &Made, cfg: &Cfg, rng: &mut Rng) -> Result<Vec<u8>, String> {
    let h = cfg.height as usize;
    let line = rng.below(h as u64) as usize;
    let side = |c: [u8; 4]| -> Result<u8, String> {
        if c[..3] == cfg.fg[..3] {
            Ok(1)
        } else if c[..3] == cfg.bg[..3] {
            Ok(0)
        } else {
            Err(format!("line {line} has a colour that is neither foreground nor background: {c:?}"))
        }
    };
    match made {
        Made::Text(s) => match ALL_R[cfg.kind as usize] {
            RKind::Ascii => {
                let l = s.split('\n').nth(line).ok_or(format!("there is no line {line}"))?;
                l.chars().map(|c| if c == '#' { Ok(1) } else if c == ' ' { Ok(0) } else { Err(format!("character {c:?} in line {line}")) }).collect()
            }
            RKind::Json => {
                let j: serde_json::Value = serde_json::from_str(s).map_err(|e| format!("not JSON ({e})"))?;
                let x = j["xdim"].as_u64().ok_or("no xdim")? as usize;
                let mut v = vec![];
                for b in j["encoding"].as_array().ok_or("no encoding")? {
                    v.extend(std::iter::repeat_n(b.as_u64().unwrap_or(9) as u8, x));
                }
                Ok(v)
            }
            _ => {
                let open = s.find("<svg").ok_or("no <svg>")?;
                let head = &s[open..tag_end(s, open).ok_or("unterminated <svg>")?];
                let vb = attr(head, "viewBox").ok_or("no viewBox")?;
                let w: usize = vb.split_whitespace().nth(2).and_then(|x| x.parse().ok()).ok_or("no width in the viewBox")?;
                let cells: Vec<usize> = (0..w).collect();
                let rows = svg_raster(s, w, h, &[line], &cells)?;
                rows[0]
                    .iter()
                    .map(|c| match c {
                        None => Err(format!("line {line} is not painted everywhere")),
                        Some((rgb, _)) => side([rgb[0], rgb[1], rgb[2], 255]),
                    })
                    .collect()
            }
        },
        Made::Bytes(_) | Made::Pixels(..) => {
            let r = match made {
                Made::Bytes(b) => decode(ALL_R[cfg.kind as usize], b)?,
                Made::Pixels(w, h, b) => Raster { w: *w as usize, h: *h as usize, px: b.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() },
                _ => unreachable!(),
            };
            let (len, lines) = if cfg.rot % 2 == 1 { (r.h, r.w) } else { (r.w, r.h) };
            if lines != h || r.px.len() != len * lines {
                return Err(format!("{lines} scan lines instead of {h}"));
            }
            (0..len)
                .map(|i| {
                    let (cx, cy) = match cfg.rot % 4 {
                        0 => (i, line),
                        1 => (h - 1 - line, i),
                        2 => (len - 1 - i, h - 1 - line),
                        _ => (line, len - 1 - i),
                    };
                    side(r.px[cy * r.w + cx])
                })
                .collect()
        }
    }
}
