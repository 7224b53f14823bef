//! Generated leaf data: primitives, text, formatting types, and errors.

use crate::tape::Tape;
use std::fmt;

/// Run `$body` with `$x` bound to the value inside any primitive.
#[macro_export]
macro_rules! on_prim {
    ($p:expr, $x:ident => $body:expr) => {
        match $p {
            $crate::data::Prim::U8($x) => $body,
            $crate::data::Prim::U16($x) => $body,
            $crate::data::Prim::U32($x) => $body,
            $crate::data::Prim::U64($x) => $body,
            $crate::data::Prim::Usize($x) => $body,
            $crate::data::Prim::U128($x) => $body,
            $crate::data::Prim::I8($x) => $body,
            $crate::data::Prim::I16($x) => $body,
            $crate::data::Prim::I32($x) => $body,
            $crate::data::Prim::I64($x) => $body,
            $crate::data::Prim::Isize($x) => $body,
            $crate::data::Prim::I128($x) => $body,
            $crate::data::Prim::F32($x) => $body,
            $crate::data::Prim::F64($x) => $body,
            $crate::data::Prim::Bool($x) => $body,
            $crate::data::Prim::Char($x) => $body,
        }
    };
}

#[derive(Clone, Copy, Debug)]
pub enum Prim {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Usize(usize),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Isize(isize),
    I128(i128),
    F32(f32),
    F64(f64),
    Bool(bool),
    Char(char),
}

/// Formats as the primitive itself would
#[derive(Clone, Copy)]
pub struct Raw(pub Prim);

impl fmt::Debug for Raw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        on_prim!(&self.0, x => fmt::Debug::fmt(x, f))
    }
}

impl fmt::Display for Raw {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        on_prim!(&self.0, x => fmt::Display::fmt(x, f))
    }
}

/// An integer of any sign and width
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Num {
    pub neg: bool,
    pub mag: u128,
}

impl Num {
    pub fn u(v: u128) -> Num {
        Num { neg: false, mag: v }
    }

    pub fn i(v: i128) -> Num {
        Num {
            neg: v < 0,
            mag: v.unsigned_abs(),
        }
    }

    pub fn to_u(self, max: u128) -> Option<u128> {
        if !self.neg && self.mag <= max {
            Some(self.mag)
        } else {
            None
        }
    }

    /// The value if it fits a signed type whose maximum is `max`
    pub fn to_i(self, max: u128) -> Option<i128> {
        if self.neg {
            if self.mag <= max + 1 {
                Some((self.mag as i128).wrapping_neg())
            } else {
                None
            }
        } else if self.mag <= max {
            Some(self.mag as i128)
        } else {
            None
        }
    }

    pub fn as_f64(self) -> f64 {
        let m = self.mag as f64;
        if self.neg {
            -m
        } else {
            m
        }
    }

    /// Whether an `f64` holds this number exactly
    pub fn exact_f64(self) -> bool {
        if self.mag == 0 {
            return true;
        }
        let bits = 128 - self.mag.leading_zeros();
        let tz = self.mag.trailing_zeros();
        bits - tz <= 53
    }
}

impl fmt::Display for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.neg {
            f.write_str("-")?;
        }
        write!(f, "{}", self.mag)
    }
}

/// An interesting integer of `bits` bits, as its two's complement pattern
pub fn int_pattern(t: &mut Tape, bits: u32) -> u128 {
    let mask = if bits == 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    };
    let v = match t.weighted(&[6, 4, 3, 6, 4, 5]) {
        0 => t.below(12) as u128,
        // near the ends of this type
        1 => {
            let d = t.below(3) as u128;
            match t.below(3) {
                0 => mask.wrapping_sub(d),
                1 => (1u128 << (bits - 1)).wrapping_add(d),
                _ => (1u128 << (bits - 1)).wrapping_sub(1 + d),
            }
        }
        // negative small
        2 => (t.below(12) as u128).wrapping_neg(),
        // around powers of two, which is where all the other types end
        3 => {
            let k = if t.flip() {
                *t.pick(&[7u32, 8, 15, 16, 23, 24, 31, 32, 52, 53, 54, 63, 64, 65, 126, 127])
            } else {
                t.below(128) as u32
            };
            let p = 1u128 << k.min(bits - 1);
            let p = match t.below(4) {
                0 => p,
                1 => p.wrapping_sub(1),
                2 => p.wrapping_add(1),
                _ => p.wrapping_add(t.below(7) as u128).wrapping_sub(3),
            };
            if t.flip() {
                p.wrapping_neg()
            } else {
                p
            }
        }
        // random width
        4 => {
            let w = 1 + t.below(bits as usize) as u32;
            let v = t.any128();
            v >> (128 - w)
        }
        _ => t.any128(),
    };
    v & mask
}

pub fn gen_f64(t: &mut Tape) -> f64 {
    match t.weighted(&[5, 6, 4, 3, 3, 2]) {
        0 => t.below(20) as f64 - 4.0,
        1 => *t.pick(&[
            0.0,
            -0.0,
            0.1,
            -1.5,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            9007199254740991.0,
            9007199254740993.0,
            18446744073709551615.0,
            9223372036854775807.0,
            4294967295.0,
            2147483648.0,
            1e16,
            1e-7,
            1e21,
            123456789.125,
            0.30000000000000004,
        ]),
        2 => {
            let s = if t.flip() { -1.0 } else { 1.0 };
            s * t.below(100000) as f64 / *t.pick(&[10.0, 8.0, 3.0, 1000.0])
        }
        3 => f64::from_bits(t.any()),
        4 => t.any() as f64,
        _ => f64::from_bits(0x7ff8_0000_0000_0000 | (t.any() >> 13) | (t.below(2) as u64) << 63),
    }
}

pub fn gen_f32(t: &mut Tape) -> f32 {
    match t.below(3) {
        0 => gen_f64(t) as f32,
        1 => *t.pick(&[
            0.1f32,
            f32::MAX,
            f32::MIN_POSITIVE,
            1e-45,
            16777217.0,
            f32::NAN,
            f32::INFINITY,
            1.0e10,
        ]),
        _ => f32::from_bits(t.any() as u32),
    }
}

pub fn gen_char(t: &mut Tape) -> char {
    match t.below(4) {
        0 => (b'a' + t.below(26) as u8) as char,
        1 => *t.pick(&[
            '\0', '"', '\'', '\\', '\n', '\t', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}',
            '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', 'é', '☃', '𝄞', '\u{301}', '0', ' ',
            '{', '}',
        ]),
        _ => char::from_u32((t.any() % 0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn gen_prim_of(t: &mut Tape, kind: usize) -> Prim {
    match kind {
        0 => Prim::U8(int_pattern(t, 8) as u8),
        1 => Prim::U16(int_pattern(t, 16) as u16),
        2 => Prim::U32(int_pattern(t, 32) as u32),
        3 => Prim::U64(int_pattern(t, 64) as u64),
        4 => Prim::Usize(int_pattern(t, usize::BITS) as usize),
        5 => Prim::U128(int_pattern(t, 128)),
        6 => Prim::I8(int_pattern(t, 8) as i8),
        7 => Prim::I16(int_pattern(t, 16) as i16),
        8 => Prim::I32(int_pattern(t, 32) as i32),
        9 => Prim::I64(int_pattern(t, 64) as i64),
        10 => Prim::Isize(int_pattern(t, usize::BITS) as isize),
        11 => Prim::I128(int_pattern(t, 128) as i128),
        12 => Prim::F32(gen_f32(t)),
        13 => Prim::F64(gen_f64(t)),
        14 => Prim::Bool(t.flip()),
        _ => Prim::Char(gen_char(t)),
    }
}

pub const PRIM_KINDS: usize = 16;

pub fn gen_prim(t: &mut Tape) -> Prim {
    let k = t.weighted(&[2, 2, 2, 4, 2, 4, 2, 2, 2, 4, 2, 4, 2, 4, 2, 3]);
    gen_prim_of(t, k)
}

pub fn gen_num_prim(t: &mut Tape) -> Prim {
    let k = t.weighted(&[2, 2, 2, 4, 2, 4, 2, 2, 2, 4, 2, 4, 2, 4]);
    gen_prim_of(t, k)
}

const POOL: &[&str] = &[
    "", "a", "42", "-1", "true", "None", "null", "a string", "\"quoted\"", "back\\slash", "line\nfeed",
    "tab\tnul\0end", "é", "☃☃", "𝄞", "{}", "{:?}", "\u{1b}[0m", "1e5", "NaN", "18446744073709551616",
    "\u{301}combining", "'", "x y",
];

/// Text whose length in bytes is exactly `len`, made of characters of mixed width
pub fn text_of_len(t: &mut Tape, len: usize) -> String {
    let mut s = String::new();
    let style = t.below(5);
    while s.len() < len {
        let left = len - s.len();
        let c = match style {
            0 => (b'a' + (s.len() % 26) as u8) as char,
            1 => 'é',
            2 => '☃',
            3 => '𝄞',
            _ => gen_char(t),
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s
}

pub fn gen_len(t: &mut Tape) -> usize {
    let len = match t.weighted(&[40, 60, 30, 10, 1]) {
        0 => t.below(8),
        1 => {
            // the sizes at which buffers change representation, give or take
            let b = *t.pick(&[16usize, 22, 23, 24, 32, 46, 47, 48, 63, 64, 65, 128]);
            b + t.below(5) - 2
        }
        2 => t.below(80),
        3 => t.below(400),
        _ => *t.pick(&[256usize, 512, 1024]) + t.below(5) - 2,
    };
    t.at_most(len, 130)
}

pub fn gen_text(t: &mut Tape) -> String {
    match t.weighted(&[4, 6]) {
        0 => t.pick(POOL).to_string(),
        _ => {
            let n = gen_len(t);
            text_of_len(t, n)
        }
    }
}

pub fn gen_short(t: &mut Tape) -> String {
    match t.weighted(&[6, 2]) {
        0 => t.pick(POOL).to_string(),
        _ => {
            let n = t.below(30);
            text_of_len(t, n)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Text(String),
    Char(char),
    /// An integer written through a nested `write!`
    Num(i64),
    /// Writes down the formatter's flags as it sees them
    Flags,
    /// Text that honours the formatter's width, precision and fill
    Pad(String),
    /// An integer formatted with the formatter it was given
    Inherit(i64),
    /// Formatting fails here
    Fail,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FragData {
    pub parts: Vec<Part>,
    /// Debug says something different to Display
    pub marked: bool,
}

/// A type with hand-written `Debug` and `Display`
#[derive(Clone, PartialEq)]
pub struct Frag(pub FragData);

impl Frag {
    fn put(&self, f: &mut fmt::Formatter, dbg: bool) -> fmt::Result {
        crate::extra::tick();
        for p in &self.0.parts {
            crate::extra::tick();
            match p {
                Part::Text(s) => f.write_str(s)?,
                Part::Char(c) => fmt::Write::write_char(f, *c)?,
                Part::Num(n) => write!(f, "{}", n)?,
                Part::Flags => write!(
                    f,
                    "[{:?},{:?},{:?},{}{}{}{}]",
                    f.width(),
                    f.precision(),
                    f.align().map(|a| match a {
                        fmt::Alignment::Left => '<',
                        fmt::Alignment::Right => '>',
                        fmt::Alignment::Center => '^',
                    }),
                    f.fill(),
                    f.alternate() as u8,
                    f.sign_plus() as u8,
                    f.sign_aware_zero_pad() as u8
                )?,
                Part::Pad(s) => f.pad(s)?,
                Part::Inherit(n) => {
                    if dbg {
                        fmt::Debug::fmt(n, f)?
                    } else {
                        fmt::Display::fmt(n, f)?
                    }
                }
                Part::Fail => return Err(fmt::Error),
            }
        }
        Ok(())
    }

    pub fn fails(&self) -> bool {
        self.0.parts.iter().any(|p| *p == Part::Fail)
    }
}

impl fmt::Debug for Frag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0.marked {
            f.write_str("D<")?;
        }
        self.put(f, true)?;
        if self.0.marked {
            f.write_str(">")?;
        }
        Ok(())
    }
}

impl fmt::Display for Frag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.put(f, false)
    }
}

pub fn gen_frag(t: &mut Tape, may_fail: bool) -> Frag {
    let n = t.below(6);
    let mut parts = Vec::new();
    for _ in 0..n {
        parts.push(match t.weighted(&[5, 4, 2, 2, 2, 2, if may_fail { 2 } else { 0 }]) {
            0 => Part::Text(gen_text(t)),
            1 => Part::Char(gen_char(t)),
            2 => Part::Num(int_pattern(t, 64) as i64),
            3 => Part::Flags,
            4 => Part::Pad(gen_short(t)),
            5 => Part::Inherit(int_pattern(t, 64) as i64),
            _ => Part::Fail,
        });
    }
    Frag(FragData {
        parts,
        marked: t.flip(),
    })
}

/// An error with a chain of sources
#[derive(Clone, PartialEq)]
pub struct ErrVal {
    pub msg: Frag,
    pub src: Option<Box<ErrVal>>,
}

impl fmt::Debug for ErrVal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("E:")?;
        fmt::Debug::fmt(&self.msg, f)
    }
}

impl fmt::Display for ErrVal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.msg, f)
    }
}

impl std::error::Error for ErrVal {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        crate::extra::tick();
        self.src.as_ref().map(|s| &**s as _)
    }
}

impl ErrVal {
    pub fn fails(&self) -> bool {
        self.msg.fails() || self.src.as_ref().map_or(false, |s| s.fails())
    }

    pub fn desc(&self) -> String {
        format!(
            "{:?}{}",
            self.msg.0,
            self.src
                .as_ref()
                .map(|s| format!(" <- {}", s.desc()))
                .unwrap_or_default()
        )
    }
}

pub fn gen_err(t: &mut Tape, may_fail: bool) -> ErrVal {
    let depth = t.weighted(&[5, 4, 3, 1, 1]);
    let mut e = ErrVal {
        msg: gen_frag(t, may_fail),
        src: None,
    };
    for _ in 0..depth {
        e = ErrVal {
            msg: gen_frag(t, may_fail),
            src: Some(Box::new(e)),
        };
    }
    e
}

/// Both formatting traits behind one pointer
pub trait Both: fmt::Debug + fmt::Display {}
impl<T: fmt::Debug + fmt::Display + ?Sized> Both for T {}

pub fn plain(dbg: bool, v: &dyn Both) -> Result<String, String> {
    use std::fmt::Write;
    let mut s = String::new();
    let r = if dbg {
        write!(s, "{:?}", v)
    } else {
        write!(s, "{}", v)
    };
    match r {
        Ok(()) => Ok(s),
        Err(_) => Err(s),
    }
}

pub fn show_f64(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:?}#{:x}", v, v.to_bits())
    }
}
