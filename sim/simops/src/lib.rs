//! Thin, non-generic wrappers over the public API of barcoders.
//!
//! This crate is compiled with the same instrumentation as barcoders, so that the generic
//! functions of barcoders (and of core/alloc), which are instantiated here, are instrumented too.
//! It contains no checking and does not know the simulator: hooks are plain function pointers.

use barcoders::error::Error;
pub use barcoders::error::Error as ErrorT;
use barcoders::generators::ascii::ASCII;
use barcoders::generators::json::JSON;
use barcoders::generators::svg;
use barcoders::sym::codabar::Codabar;
use barcoders::sym::code11::Code11;
use barcoders::sym::code128::Code128;
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::ean13::EAN13;
use barcoders::sym::ean8::EAN8;
use barcoders::sym::ean_supp::EANSUPP;
use barcoders::sym::tf::TF;
use barcoders::sym::upca::UPCA;
use std::fmt::Write;
use std::marker::PhantomData;

#[cfg(feature = "full")]
use barcoders::generators::image as bimg;

// ---------------------------------------------------------------- inputs
/// Text whose content is decided, at each conversion, by the hook.
#[derive(Clone, Copy)]
pub struct SimText {
    pub ctx: *mut u8,
    pub hook: fn(*mut u8) -> (*const u8, usize),
}
impl AsRef<str> for SimText {
    fn as_ref(&self) -> &str {
        let (p, n) = (self.hook)(self.ctx);
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
    }
}
/// The same for modules.
#[derive(Clone, Copy)]
pub struct SimBits {
    pub ctx: *mut u8,
    pub hook: fn(*mut u8) -> (*const u8, usize),
}
impl AsRef<[u8]> for SimBits {
    fn as_ref(&self) -> &[u8] {
        let (p, n) = (self.hook)(self.ctx);
        unsafe { std::slice::from_raw_parts(p, n) }
    }
}

// ---------------------------------------------------------------- barcodes
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Ean13,
    Ean8,
    Upca,
    Supp,
    Itf,
    Stf,
    Code11,
    Code39,
    Code39C,
    Code93,
    Code128,
    Codabar,
}
pub const KINDS: [Kind; 12] = [
    Kind::Ean13,
    Kind::Ean8,
    Kind::Upca,
    Kind::Supp,
    Kind::Itf,
    Kind::Stf,
    Kind::Code11,
    Kind::Code39,
    Kind::Code39C,
    Kind::Code93,
    Kind::Code128,
    Kind::Codabar,
];

pub enum Bc {
    Ean13(EAN13),
    Ean8(EAN8),
    Upca(UPCA),
    Supp(EANSUPP),
    Tf(TF),
    Code11(Code11),
    Code39(Code39),
    Code93(Code93),
    Code128(Code128),
    Codabar(Codabar),
}
// Whether the types may be shared is itself a checked claim (see `probes`); the simulator shares
// them in any case, one thread running at a time.
unsafe impl Send for Bc {}
unsafe impl Sync for Bc {}
unsafe impl Send for Rn {}
unsafe impl Sync for Rn {}

fn construct<T: AsRef<str>>(k: Kind, t: T) -> Result<Bc, Error> {
    Ok(match k {
        Kind::Ean13 => Bc::Ean13(EAN13::new(t)?),
        Kind::Ean8 => Bc::Ean8(EAN8::new(t)?),
        Kind::Upca => Bc::Upca(UPCA::new(t)?),
        Kind::Supp => Bc::Supp(EANSUPP::new(t)?),
        Kind::Itf => Bc::Tf(TF::interleaved(t)?),
        Kind::Stf => Bc::Tf(TF::standard(t)?),
        Kind::Code11 => Bc::Code11(Code11::new(t)?),
        Kind::Code39 => Bc::Code39(Code39::new(t)?),
        Kind::Code39C => Bc::Code39(Code39::with_checksum(t)?),
        Kind::Code93 => Bc::Code93(Code93::new(t)?),
        Kind::Code128 => Bc::Code128(Code128::new(t)?),
        Kind::Codabar => Bc::Codabar(Codabar::new(t)?),
    })
}
#[inline(never)]
pub fn construct_str(k: Kind, t: &str) -> Result<Bc, Error> {
    construct(k, t)
}
#[inline(never)]
pub fn construct_string(k: Kind, t: String) -> Result<Bc, Error> {
    construct(k, t)
}
#[inline(never)]
pub fn construct_sim(k: Kind, t: SimText) -> Result<Bc, Error> {
    construct(k, t)
}
#[inline(never)]
pub fn construct_sim_ref(k: Kind, t: &SimText) -> Result<Bc, Error> {
    construct(k, t)
}

#[inline(never)]
pub fn encode(b: &Bc) -> Vec<u8> {
    match b {
        Bc::Ean13(x) => x.encode(),
        Bc::Ean8(x) => x.encode(),
        Bc::Upca(x) => x.encode(),
        Bc::Supp(x) => x.encode(),
        Bc::Tf(x) => x.encode(),
        Bc::Code11(x) => x.encode(),
        Bc::Code39(x) => x.encode(),
        Bc::Code93(x) => x.encode(),
        Bc::Code128(x) => x.encode(),
        Bc::Codabar(x) => x.encode(),
    }
}

/// Assignment to a public field.  Returns whether the value has such a field.
pub fn mutate(b: &mut Bc, pos: usize, val: u8) -> bool {
    match b {
        Bc::Code39(c) => {
            c.checksum = val % 2 == 1;
            true
        }
        // Two digits fewer or more.
        Bc::Tf(TF::Standard(d)) | Bc::Tf(TF::Interleaved(d)) if val >= 10 => {
            if val == 10 && d.len() > 2 {
                d.truncate(d.len() - 2);
            } else if val > 10 && d.len() < 200 {
                d.push((pos % 10) as u8);
                d.push((pos / 3 % 10) as u8);
            }
            true
        }
        Bc::Tf(TF::Standard(d)) | Bc::Tf(TF::Interleaved(d)) | Bc::Supp(EANSUPP::EAN2(d)) | Bc::Supp(EANSUPP::EAN5(d)) => {
            let n = d.len();
            d[pos % n] = val % 10;
            true
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- renderers
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum RKind {
    Ascii,
    Json,
    Svg,
    Gif,
    Png,
    Webp,
    Buf,
}
#[cfg(feature = "full")]
pub const RKINDS: &[RKind] = &[RKind::Ascii, RKind::Json, RKind::Svg, RKind::Gif, RKind::Png, RKind::Webp, RKind::Buf];
#[cfg(not(feature = "full"))]
pub const RKINDS: &[RKind] = &[RKind::Ascii, RKind::Json, RKind::Svg];

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct RCfg {
    pub kind: RKind,
    pub height: u32,
    pub xdim: u32,
    /// 0..=3 quarter turns (images only).
    pub rot: u8,
    pub fg: [u8; 4],
    pub bg: [u8; 4],
    pub xmlns: Option<String>,
    /// Call the provided constructor and builder methods instead of filling in the fields.
    pub builder: bool,
    /// Images: call generate_buffer instead of generate.
    pub buffer: bool,
}

impl RCfg {
    /// JSON has no rotation; `rot` makes its numbers larger than 32 bits instead.
    pub fn json_dims(&self) -> (usize, usize) {
        let f = |n: u32, wide: bool| if wide { (n as usize).wrapping_mul(0x1_0000_0001u64 as usize) } else { n as usize };
        (f(self.height, self.rot & 1 != 0), f(self.xdim, self.rot & 2 != 0))
    }
}

#[derive(Clone)]
pub enum Rn {
    Ascii(ASCII),
    Json(JSON),
    Svg(svg::SVG),
    #[cfg(feature = "full")]
    Image(bimg::Image, bool),
}

#[cfg(feature = "full")]
fn rotation(r: u8) -> bimg::Rotation {
    match r {
        1 => bimg::Rotation::Ninety,
        2 => bimg::Rotation::OneEighty,
        3 => bimg::Rotation::TwoSeventy,
        _ => bimg::Rotation::Zero,
    }
}

const BLACK: [u8; 4] = [0, 0, 0, 255];
const WHITE: [u8; 4] = [255, 255, 255, 255];
#[inline(never)]
pub fn make(c: &RCfg) -> Rn {
    match c.kind {
        RKind::Ascii => {
            let mut a = if c.builder { ASCII::default() } else { ASCII::new() };
            a.height = c.height as usize;
            a.xdim = c.xdim as usize;
            Rn::Ascii(a)
        }
        RKind::Json => {
            let mut a = if c.builder { JSON::default() } else { JSON::new() };
            (a.height, a.xdim) = c.json_dims();
            Rn::Json(a)
        }
        RKind::Svg => {
            let mut s = svg::SVG::new(c.height);
            if c.builder {
                // The order of the setters, and which defaults are left alone, varies too.
                let mut left: Vec<u32> = (0..4).collect();
                let mut ord = c.height as u64 * 7 + c.xdim as u64 * 3 + c.fg[1] as u64 + c.bg[2] as u64;
                let lazy = ord % 3 == 0;
                while !left.is_empty() {
                    let i = (ord % left.len() as u64) as usize;
                    ord /= left.len() as u64;
                    s = match left.remove(i) {
                        0 if !(lazy && c.xdim == 1) => s.xdim(c.xdim),
                        1 if !(lazy && c.fg == BLACK) => s.foreground(if c.fg == BLACK { svg::Color::black() } else { svg::Color::new(c.fg) }),
                        2 if !(lazy && c.bg == WHITE) => s.background(if c.bg == WHITE { svg::Color::white() } else { svg::Color::new(c.bg) }),
                        3 if c.xmlns.is_some() => s.xmlns(c.xmlns.clone().unwrap()),
                        _ => s,
                    };
                }
            } else {
                s.xdim = c.xdim;
                s.foreground = svg::Color::new(c.fg);
                s.background = svg::Color::new(c.bg);
                s.xmlns = c.xmlns.clone();
            }
            Rn::Svg(s)
        }
        #[cfg(feature = "full")]
        _ => {
            let (height, xdim, rot) = (c.height, c.xdim, rotation(c.rot));
            let foreground = if c.builder && c.fg == BLACK { bimg::Color::black() } else { bimg::Color::new(c.fg) };
            let background = if c.builder && c.bg == WHITE { bimg::Color::white() } else { bimg::Color::new(c.bg) };
            if c.builder {
                let rotation = rot;
                let im = match c.kind {
                    RKind::Gif => bimg::Image::GIF { height, xdim, rotation, foreground, background },
                    RKind::Png => bimg::Image::PNG { height, xdim, rotation, foreground, background },
                    RKind::Webp => bimg::Image::WEBP { height, xdim, rotation, foreground, background },
                    _ => bimg::Image::ImageBuffer { height, xdim, rotation, foreground, background },
                };
                return Rn::Image(im, use_buffer(c));
            }
            let mut im = match c.kind {
                RKind::Gif => bimg::Image::gif(height),
                RKind::Png => bimg::Image::png(height),
                RKind::Webp => bimg::Image::webp(height),
                _ => bimg::Image::image_buffer(height),
            };
            match &mut im {
                bimg::Image::GIF { xdim: x, rotation: r, foreground: f, background: b, .. }
                | bimg::Image::PNG { xdim: x, rotation: r, foreground: f, background: b, .. }
                | bimg::Image::WEBP { xdim: x, rotation: r, foreground: f, background: b, .. }
                | bimg::Image::ImageBuffer { xdim: x, rotation: r, foreground: f, background: b, .. } => {
                    *x = xdim;
                    *r = rot;
                    *f = foreground;
                    *b = background;
                }
            }
            Rn::Image(im, use_buffer(c))
        }
        #[cfg(not(feature = "full"))]
        _ => unreachable!(),
    }
}

#[inline(never)]
pub fn clone_gen(r: &Rn) -> Rn {
    r.clone()
}

/// Assignment to all public fields.  Returns whether `r` is of the kind of `c`.
pub fn assign(r: &mut Rn, c: &RCfg) -> bool {
    match (r, c.kind) {
        (Rn::Ascii(a), RKind::Ascii) => {
            a.height = c.height as usize;
            a.xdim = c.xdim as usize;
        }
        (Rn::Json(a), RKind::Json) => {
            (a.height, a.xdim) = c.json_dims();
        }
        (Rn::Svg(s), RKind::Svg) => {
            s.height = c.height;
            s.xdim = c.xdim;
            s.foreground = svg::Color::new(c.fg);
            s.background = svg::Color::new(c.bg);
            s.xmlns = c.xmlns.clone();
        }
        #[cfg(feature = "full")]
        (Rn::Image(im, buffer), k) => {
            match (&mut *im, k) {
                (bimg::Image::GIF { .. }, RKind::Gif) | (bimg::Image::PNG { .. }, RKind::Png) | (bimg::Image::WEBP { .. }, RKind::Webp) | (bimg::Image::ImageBuffer { .. }, RKind::Buf) => {}
                _ => return false,
            }
            match im {
                bimg::Image::GIF { xdim: x, rotation: r, foreground: f, background: b, height: h }
                | bimg::Image::PNG { xdim: x, rotation: r, foreground: f, background: b, height: h }
                | bimg::Image::WEBP { xdim: x, rotation: r, foreground: f, background: b, height: h }
                | bimg::Image::ImageBuffer { xdim: x, rotation: r, foreground: f, background: b, height: h } => {
                    *h = c.height;
                    *x = c.xdim;
                    *r = rotation(c.rot);
                    *f = bimg::Color::new(c.fg);
                    *b = bimg::Color::new(c.bg);
                }
            }
            *buffer = use_buffer(c);
        }
        _ => return false,
    }
    true
}

/// An image buffer has no file format: asked for a file it reports an error (`xmlns` set).
#[cfg(feature = "full")]
fn use_buffer(c: &RCfg) -> bool {
    if c.kind == RKind::Buf { c.xmlns.is_none() } else { c.buffer }
}

/// Characters or pixels per module.
pub fn area(r: &Rn) -> usize {
    match r {
        Rn::Ascii(a) => a.xdim * a.height,
        #[cfg(feature = "full")]
        Rn::Image(
            bimg::Image::GIF { xdim, height, .. } | bimg::Image::PNG { xdim, height, .. } | bimg::Image::WEBP { xdim, height, .. } | bimg::Image::ImageBuffer { xdim, height, .. },
            _,
        ) => *xdim as usize * *height as usize,
        _ => 1,
    }
}

pub enum Made {
    Text(String),
    Bytes(Vec<u8>),
    Pixels(u32, u32, Vec<u8>),
}

fn render<T: AsRef<[u8]>>(r: &Rn, t: T) -> Result<Made, Error> {
    match r {
        Rn::Ascii(a) => a.generate(t).map(Made::Text),
        Rn::Json(a) => a.generate(t).map(Made::Text),
        Rn::Svg(a) => a.generate(t).map(Made::Text),
        #[cfg(feature = "full")]
        Rn::Image(i, false) => i.generate(t).map(Made::Bytes),
        #[cfg(feature = "full")]
        Rn::Image(i, true) => (*i).generate_buffer(t).map(|b| {
            let (w, h) = b.dimensions();
            Made::Pixels(w, h, b.into_raw())
        }),
    }
}
#[inline(never)]
pub fn render_bits(r: &Rn, t: &[u8]) -> Result<Made, Error> {
    render(r, t)
}
#[inline(never)]
pub fn render_vec(r: &Rn, t: Vec<u8>) -> Result<Made, Error> {
    render(r, t)
}
#[inline(never)]
pub fn render_sim(r: &Rn, t: SimBits) -> Result<Made, Error> {
    render(r, t)
}
#[inline(never)]
pub fn render_sim_ref(r: &Rn, t: &SimBits) -> Result<Made, Error> {
    render(r, t)
}

// ---------------------------------------------------------------- formatting
pub struct SimSink {
    pub ctx: *mut u8,
    pub hook: fn(*mut u8, &str) -> bool,
}
impl Write for SimSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if (self.hook)(self.ctx, s) {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}

fn dbg(w: &mut SimSink, v: &dyn std::fmt::Debug, style: u8) -> std::fmt::Result {
    match style {
        0 | 3 => write!(w, "{:?}", v),
        1 | 4 => write!(w, "{:#?}", v),
        2 | 5 => write!(w, "{:08x?}", v),
        6 => write!(w, "{:60?}", v),
        7 => write!(w, "{:<90.2?}", v),
        8 => write!(w, "{:>+#170X?}", v),
        9 => write!(w, "{:^25?}", v),
        10 => write!(w, "{:.3?}", v),
        11 => write!(w, "{:*>1$?}", v, 300),
        _ => write!(w, "{:?} {:#?} {:12?}", v, v, v),
    }
}
#[inline(never)]
pub fn fmt_bc(b: &Bc, w: &mut SimSink, style: u8) -> std::fmt::Result {
    match b {
        Bc::Ean13(x) => dbg(w, x, style),
        Bc::Ean8(x) => dbg(w, x, style),
        Bc::Upca(x) => dbg(w, x, style),
        Bc::Supp(x) => dbg(w, x, style),
        Bc::Tf(x) => dbg(w, x, style),
        Bc::Code11(x) => dbg(w, x, style),
        Bc::Code39(x) => dbg(w, x, style),
        Bc::Code93(x) => dbg(w, x, style),
        Bc::Code128(x) => dbg(w, x, style),
        Bc::Codabar(x) => dbg(w, x, style),
    }
}
#[inline(never)]
pub fn fmt_rn(r: &Rn, w: &mut SimSink, style: u8) -> std::fmt::Result {
    match r {
        Rn::Ascii(x) => dbg(w, x, style),
        Rn::Json(x) => dbg(w, x, style),
        Rn::Svg(x) => dbg(w, x, style),
        #[cfg(feature = "full")]
        Rn::Image(x, _) => dbg(w, x, style),
    }
}
/// Colours and rotations on their own.
#[inline(never)]
pub fn fmt_parts(c: &RCfg, which: u8, w: &mut SimSink, style: u8) -> std::fmt::Result {
    match which % 3 {
        0 => dbg(w, &svg::Color::new(c.fg), style),
        #[cfg(feature = "full")]
        1 => dbg(w, &bimg::Color::new(c.bg), style),
        #[cfg(feature = "full")]
        _ => dbg(w, &rotation(c.rot), style),
        #[cfg(not(feature = "full"))]
        _ => dbg(w, &svg::Color::new(c.bg), style),
    }
}
pub const ERRORS: [Error; 4] = [Error::Character, Error::Length, Error::Generate, Error::Checksum];
#[inline(never)]
pub fn fmt_error(e: Error, w: &mut SimSink, style: u8) -> std::fmt::Result {
    match style {
        3 => write!(w, "{}", e),
        4 => write!(w, "{:>44}", e),
        5 => write!(w, "<{}> <{}>", e, e),
        13 => write!(w, "{:*<90.5}", e),
        14 => write!(w, "{:^#012}", e),
        15 => write!(w, "{:?} {} {:#?} {:300}", e, e, e, e),
        s => dbg(w, &e, s),
    }
}
#[inline(never)]
pub fn error_string(e: Error) -> String {
    e.to_string()
}
#[inline(never)]
pub fn fmt_result(b: Result<(), Error>, w: &mut SimSink) -> std::fmt::Result {
    write!(w, "{:?}", b)
}
pub fn error_code(e: &Error) -> u8 {
    match e {
        Error::Character => 1,
        Error::Length => 2,
        Error::Generate => 3,
        Error::Checksum => 4,
        #[allow(unreachable_patterns)]
        _ => 5,
    }
}

/// Flushes the standard streams, so that anything printed by library code reaches the seam.
pub fn flush() {
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
}

// ---------------------------------------------------------------- thread-safety claims
struct P<T: ?Sized>(PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSend for P<T> {}
impl<T: ?Sized> NotSync for P<T> {}
impl<T: ?Sized + Send> P<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> P<T> {
    const SYNC: bool = true;
}
macro_rules! probe {
    ($v:ident, $($t:ty),* $(,)?) => { $( $v.push((stringify!($t), P::<$t>::SEND, P::<$t>::SYNC)); )* }
}
/// (type, may be moved to another thread, may be shared between threads)
pub fn probes() -> Vec<(&'static str, bool, bool)> {
    let mut v = vec![];
    probe!(v, EAN13, EAN8, UPCA, EANSUPP, TF, Code11, Code39, Code93, Code128, Codabar, Error, ASCII, JSON, svg::SVG, svg::Color);
    #[cfg(feature = "full")]
    probe!(v, bimg::Image, bimg::Color, bimg::Rotation);
    v
}
