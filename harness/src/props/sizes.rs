//! Enumerated messages of every small and many large sizes: around each power of two from 127 to
//! 2^20 (thorough: 2^24) and with every length from 1 to 255 of everything whose length fits a byte.
use crate::model::*;

pub const SIZES: &[usize] = &[
    254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384,
    16385, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 1048575, 1048576, 1048577,
];
const BIGGER: &[usize] = &[262143, 262144, 262145, 524288, 524289, 4194303, 4194304, 4194305, 16777215, 16777216, 16777217];
const SHAPES: u64 = 32;
const SMALL: u64 = 16;
const LENS: u64 = 258;

pub fn count(thorough: bool) -> u64 {
    lengths(thorough) + chains(thorough) + CODES
}
fn lengths(thorough: bool) -> u64 {
    let n = SIZES.len() + if thorough { BIGGER.len() } else { 0 };
    SHAPES * n as u64 + SMALL * LENS
}

// ---- every order in which containers can be nested, up to four (some: six) of them

const WRAPS: u64 = 9;
/// Chains of at most three containers, of four, of five or six of the first four kinds; each with
/// several offsets and innermost values.
const SHORT: u64 = WRAPS + WRAPS * WRAPS + WRAPS * WRAPS * WRAPS;
const FOUR: u64 = WRAPS * WRAPS * WRAPS * WRAPS;
const LONG: u64 = 1024 + 4096;
fn chains(thorough: bool) -> u64 {
    if thorough {
        SHORT * 8 * 15 + FOUR * 16 + LONG * 16
    } else {
        SHORT * 8 + FOUR * 2 + LONG
    }
}
fn digits(mut k: u64, base: u64) -> Vec<u8> {
    // all sequences of length 1, 2, 3...
    let (mut len, mut n) = (1, base);
    while k >= n {
        k -= n;
        n *= base;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = (k % base) as u8;
            k /= base;
            d
        })
        .collect()
}
fn chain(mut k: u64, thorough: bool) -> RM {
    let (w, var) = if k < SHORT * 8 * if thorough { 15 } else { 1 } {
        (digits(k % SHORT, WRAPS), k / SHORT)
    } else {
        k -= SHORT * 8 * if thorough { 15 } else { 1 };
        if k < FOUR * if thorough { 16 } else { 2 } {
            (digits(k % FOUR + SHORT, WRAPS), k / FOUR * 5 + k % 8)
        } else {
            k -= FOUR * if thorough { 16 } else { 2 };
            let mut w = digits(k % LONG + 4 + 16 + 64 + 256, 4);
            for (i, x) in w.iter_mut().enumerate() {
                // the fourth kind is an empty array, or sometimes a dict
                *x = if *x == 3 && (k >> i) % 3 > 0 { 7 } else { *x };
            }
            (w, k / LONG * 5 + k % 8)
        }
    };
    let mut h = (k ^ var << 40).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 29;
    let leaf = |x: u64| super::wirep::leaf(b"ybnqiuxtdsoghv"[((h >> 8) + var / 8) as usize % 14], h >> 13 ^ x);
    // two values of one type, with different contents where there is a choice
    let (mut v, mut u) = (leaf(0), leaf(5));
    use RV::*;
    for x in w.iter().rev() {
        let t = v.ty();
        let e = |k: RV, v: RV| E(Box::new((k, v)));
        let f = |v: RV, u: RV| match x {
            0 => V(Box::new(v)),
            1 => A(t.clone(), vec![v]),
            2 => R(vec![v]),
            3 => A(RT::D(Box::new((b(b'y'), t.clone()))), vec![e(Y(7), v)]),
            4 => A(t.clone(), vec![v, u]),
            5 => R(vec![Y(1), v]),
            6 => R(vec![v, Y(2)]),
            7 => A(t.clone(), vec![]),
            _ => A(RT::D(Box::new((b(b's'), t.clone()))), vec![e(S("ab".into()), v), e(S(String::new()), u)]),
        };
        (v, u) = (f(v.clone(), u.clone()), f(u, v));
    }
    let mut m = start(h >> 60 & 1 == 0, h >> 50);
    m.body = vec![S(ascii((var % 8) as usize)), v, T(h)];
    m
}

// ---- every character, alone, first and last in its text

const CODES: u64 = 0x110;
fn codes(k: u64) -> RM {
    let mut m = start(k % 2 == 0, k);
    let mut v = vec![];
    for x in (k as u32) << 12..(k as u32 + 1) << 12 {
        if let Some(c) = char::from_u32(x) {
            v.push(RV::S(c.to_string()));
            v.push(RV::S(format!("{}a", c)));
            v.push(RV::S(format!("a{}", c)));
        }
    }
    m.body = vec![RV::A(b(b's'), v)];
    m
}
/// Text of `n` bytes in which every position differs from its neighbours and from the same place
/// 256 or 65536 bytes away.
pub fn ascii(n: usize) -> String {
    (0..n).map(|i| (b'a' + ((i * 7 + i / 256 + i / 65536) % 26) as u8) as char).collect()
}
pub fn multi(n: usize) -> String {
    let mut s = String::with_capacity(n + 4);
    let c = ["\u{e9}", "\u{20ac}", "\u{1f600}", "b", "\u{fff0}", "\u{10ffff}"];
    let mut i = n % 3;
    s.push_str(&"axy"[..i]);
    while s.len() + 4 <= n {
        s.push_str(c[i % 6]);
        i += 1;
    }
    while s.len() < n {
        s.push('z');
    }
    s
}
pub fn path(n: usize) -> String {
    if n <= 1 {
        return "/".into();
    }
    let mut b = ascii(n).into_bytes();
    let step = 5 + n % 11;
    for i in (0..n).step_by(step) {
        b[i] = b'/';
    }
    if b[n - 1] == b'/' {
        b[n - 1] = b'q';
    }
    String::from_utf8(b).unwrap()
}
/// A name of two elements and `n` bytes (at least 3).
pub fn dotted(n: usize) -> String {
    let mut b = ascii(n.max(3)).into_bytes();
    let at = 1 + n % (b.len() - 2);
    b[at] = b'.';
    String::from_utf8(b).unwrap()
}
fn b(c: u8) -> RT {
    RT::B(c)
}
fn start(le: bool, k: u64) -> RM {
    let mut m = RM::empty();
    m.le = le;
    m.ty = 1 + (k % 4) as u8;
    m.flags = (k / 4 % 8) as u8;
    m.serial = 0x0102_0304 + k as u32;
    m.path = Some("/p/q".into());
    m.interface = Some("i.j".into());
    m.member = Some("mmmmmmmmm"[..1 + (k % 9) as usize].into());
    if m.ty == 2 || m.ty == 3 {
        m.reply_serial = Some(0x1122_3344);
        m.path = None;
        m.interface = None;
        m.member = None;
    }
    if m.ty == 3 {
        m.error_name = Some("e.f.g".into());
    }
    m
}
fn arr(t: u8, n: usize) -> RV {
    let v = |i: usize| {
        let k = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        match t {
            b'y' => RV::Y((i + i / 256) as u8),
            b'b' => RV::B(k >> 40 & 1 == 1),
            b'n' => RV::N(i as i16),
            b'q' => RV::Q((k >> 20) as u16),
            b'i' => RV::I(i as i32 - 5),
            b'u' => RV::U((k >> 9) as u32),
            b'x' => RV::X(k as i64),
            b't' => RV::T(k),
            b'd' => RV::D(k & 0x7fef_ffff_ffff_ffff),
            b's' => RV::S(ascii(i % 10)),
            b'o' => RV::O(path(1 + i % 7)),
            b'g' => RV::G(vec![b(b"ybnqiuxtdsoghv"[i % 14]); i % 4]),
            // many different descriptors make the library's encoder quadratic
            b'h' => RV::H(if n <= 4097 { 3 + (i as i32) * 2 } else { 3 + (i % 7) as i32 }),
            _ => RV::V(Box::new(if i % 2 == 0 { RV::Y(i as u8) } else { RV::T(k) })),
        }
    };
    RV::A(b(t), (0..n).map(v).collect())
}
/// The `k`-th message: `None` where the shape does not exist in this size.
pub fn get(k: u64, thorough: bool) -> Option<RM> {
    let total = count(thorough);
    // neighbours in number are spread over the workers
    let k = (k * 7919 + 13) % total;
    let total = lengths(thorough);
    if k >= total {
        let k = k - total;
        return Some(if k < CODES { codes(k) } else { chain(k - CODES, thorough) });
    }
    if k >= total - SMALL * LENS {
        let k = k - (total - SMALL * LENS);
        return small(k % SMALL, (k / SMALL) as usize);
    }
    let (shape, i) = (k % SHAPES, (k / SHAPES) as usize);
    let n = if i < SIZES.len() { SIZES[i] } else { BIGGER[i - SIZES.len()] };
    let cap = |lim: usize| n <= lim * if thorough { 4 } else { 1 };
    let elements = cap(65537);
    let mut m = start((shape + i as u64) % 2 == 0, shape + i as u64);
    use RV::*;
    m.body = match shape {
        0 => vec![S(ascii(n))],
        1 => vec![S(multi(n))],
        2 => vec![O(path(n))],
        3 => {
            m.ty = 4;
            m.path = Some(path(n));
            m.interface = Some("i.j".into());
            m.member = Some("m".into());
            m.reply_serial = None;
            m.error_name = None;
            vec![Y(1), U(2)]
        }
        4..=17 => {
            let t = b"ybnqiuxtdsoghv"[shape as usize - 4];
            if !(elements || t == b'y' && n <= 1048577) {
                return None;
            }
            vec![arr(t, n)]
        }
        18 if elements => vec![
            A(RT::S(vec![b(b'y'), b(b'u')]), (0..n).map(|i| R(vec![Y(i as u8), U(i as u32)])).collect()),
            Y(9),
        ],
        19 if elements => vec![A(
            RT::D(Box::new((b(b'q'), b(b's')))),
            (0..n).map(|i| E(Box::new((Q(i as u16), S(ascii(i % 5)))))).collect(),
        )],
        20 if cap(16385) => vec![A(RT::A(Box::new(b(b'y'))), (0..n).map(|i| arr(b'y', i % 3)).collect())],
        21 => vec![V(Box::new(S(ascii(n)))), T(3)],
        22 => vec![Y(1), S(ascii(n)), T(u64::MAX - 7), Y(2)],
        23 => vec![R(vec![Y(8), S(multi(n)), Q(513), S(ascii(n)), B(true)])],
        24 => vec![A(b(b's'), vec![S(ascii(n)), S(multi(n + 1)), S(String::new())]), X(-2)],
        25 => vec![V(Box::new(A(
            RT::D(Box::new((b(b's'), b(b'v')))),
            vec![
                E(Box::new((S(ascii(n)), V(Box::new(S("v".into())))))),
                E(Box::new((S("k".into()), V(Box::new(S(multi(n))))))),
            ],
        )))],
        26 if cap(1048577) && n >= 4 => {
            // an array whose content has this many bytes, behind a misaligned value, before another
            vec![Y(3), A(b(b's'), vec![S(ascii(n - 5 + n % 2))]), T(1), A(b(b't'), vec![T(5)])]
        }
        27 if elements => vec![Y(1), arr(b't', n / 8 + 1), Y(2)],
        28 if elements => vec![V(Box::new(arr(b'u', n))), H(5), H(6)],
        29 if n <= 4097 => vec![arr(b'h', n), V(Box::new(arr(b'h', n + 3))), H(1)],
        30 if cap(16385) => vec![A(
            RT::S(vec![b(b's'), b(b'v')]),
            (0..n).map(|i| R(vec![S(ascii(i % 4)), V(Box::new(if i % 3 == 0 { T(i as u64) } else { Q(i as u16) }))])).collect(),
        )],
        31 => vec![O(path(n)), G(vec![b(b'y'); n % 256]), O(path(n + 1)), Q(7)],
        _ => return None,
    };
    Some(m)
}
/// Everything whose length is a byte or a small number, with each length.
fn small(shape: u64, n: usize) -> Option<RM> {
    let mut m = start((shape + n as u64) % 2 == 0, shape + n as u64 / 3);
    use RV::*;
    let signal = |m: &mut RM| {
        let (le, serial) = (m.le, m.serial);
        *m = start(le, 3);
        m.serial = serial;
        m.member = Some("mm".into());
    };
    let one = n >= 1;
    match shape {
        0 if one && n <= 255 => m.body = (0..n).map(|i| Y(i as u8)).collect(),
        1 if one && n <= 255 => m.body = (0..n).map(|i| T(i as u64 * 0x0101_0101_0101)).collect(),
        2 if one && n <= 255 => m.body = (0..n).map(|i| if i % 5 == 4 { Y(1) } else { S(ascii(i % 7)) }).collect(),
        3 if n <= 255 => m.body = vec![Y(1), G(vec![b(b'y'); n]), U(4)],
        4 if n >= 3 && n <= 255 => m.body = vec![V(Box::new(R((0..n - 2).map(|i| Y(i as u8)).collect()))), T(2)],
        5 if n >= 3 && n <= 255 => {
            signal(&mut m);
            m.interface = Some(dotted(n));
            m.body = vec![T(1)]
        }
        6 if one && n <= 255 => {
            signal(&mut m);
            m.member = Some(ascii(n));
            m.body = vec![S("x".into())]
        }
        7 if n >= 3 && n <= 255 => {
            m.error_name = Some(dotted(n));
            m.body = vec![Y(1)]
        }
        8 if n >= 3 && n <= 255 => m.destination = Some(dotted(n)),
        9 if n >= 4 && n <= 255 => m.sender = Some(format!(":{}", dotted(n - 1))),
        10 if one => {
            signal(&mut m);
            m.path = Some(path(n))
        }
        11 => m.body = vec![S(multi(n)), Y(1), S(ascii(n)), Y(1)],
        12 => m.body = vec![arr(b'y', n), arr(b'q', n), arr(b't', n), Y(1)],
        13 => m.body = vec![arr(b'h', n), Y(1), arr(b's', n), arr(b'v', n / 4)],
        14 if n >= 1 && n <= 255 => {
            // values of all types, the body signature with `n` characters
            m.body = (0..n).map(|i| crate::props::wirep::leaf(b"ybnqiuxtdsogh"[(i + n) % 13], (i * n) as u64)).collect()
        }
        15 if one => m.body = vec![A(RT::S(vec![b(b'y'); 1 + n % 250]), (0..n % 20).map(|i| R((0..1 + n % 250).map(|j| Y((i + j) as u8)).collect())).collect()), O(path(n))],
        _ => return None,
    }
    Some(m)
}
