//! Workload generators: boundary-biased values, hostile byte strings, single-fault encodings.

use crate::model::*;
use crate::rng::Rng;
use std::sync::OnceLock;

/// Tokens the workload mixes in: integers, byte strings and texts found as literals in the tree
/// under test (written by the driver), so that unusual constants are exercised too. They only
/// steer the workload; no verdict depends on them.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub small: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    pub texts: Vec<String>,
    /// The same, for literals the pinned tree did not have.
    pub new_ints: Vec<u64>,
    pub new_small: Vec<u64>,
    pub new_strs: Vec<Vec<u8>>,
    pub new_texts: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn unhex(h: &str) -> Vec<u8> {
    h.as_bytes()
        .chunks_exact(2)
        .filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
        .collect()
}

/// One of the new literals, once in a while.
fn fresh<T: Clone>(r: &mut Rng, from: &[T], n: usize) -> Option<T> {
    if from.is_empty() || !r.one_in(n) {
        return None;
    }
    Some(r.pick(from).clone())
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        if let Ok(p) = std::env::var("VDICT") {
            if let Ok(s) = std::fs::read_to_string(p) {
                for l in s.lines() {
                    if let Some(n) = l.strip_prefix("I ") {
                        if let Ok(n) = n.parse::<u64>() {
                            for x in [n, n, n.wrapping_add(1), n.wrapping_sub(1)] {
                                d.new_ints.push(x);
                                if x <= 3000 {
                                    d.new_small.push(x);
                                }
                            }
                        }
                    } else if let Some(h) = l.strip_prefix("S ") {
                        let b = unhex(h);
                        if let Ok(s) = String::from_utf8(b.clone()) {
                            d.new_texts.push(s);
                        }
                        d.new_strs.push(b);
                    } else if let Some(n) = l.strip_prefix("i ") {
                        if let Ok(n) = n.parse::<u64>() {
                            for x in [n.wrapping_sub(1), n, n.wrapping_add(1)] {
                                d.ints.push(x);
                                if x <= 3000 {
                                    d.small.push(x);
                                }
                            }
                        }
                    } else if let Some(h) = l.strip_prefix("s ") {
                        let b = unhex(h);
                        if let Ok(s) = String::from_utf8(b.clone()) {
                            d.texts.push(s);
                        }
                        d.strs.push(b);
                    }
                }
            }
        }
        d.ints.sort();
        d.ints.dedup();
        d.small.sort();
        d.small.dedup();
        if d.ints.is_empty() {
            d.ints.push(42);
        }
        if d.small.is_empty() {
            d.small.push(7);
        }
        if d.texts.is_empty() {
            d.texts.push("tok".into());
        }
        if d.strs.is_empty() {
            d.strs.push(b"tok".to_vec());
        }
        d
    })
}

pub const EDGES: &[u64] = &[
    0,
    1,
    2,
    10,
    22,
    23,
    24,
    25,
    31,
    32,
    33,
    63,
    64,
    65,
    126,
    127,
    128,
    129,
    254,
    255,
    256,
    257,
    511,
    512,
    1023,
    1024,
    4095,
    4096,
    32767,
    32768,
    65534,
    65535,
    65536,
    65537,
    0x00ff_ffff,
    0x0100_0000,
    0x7fff_fffe,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0001,
    0xffff_fffe,
    0xffff_ffff,
    0x1_0000_0000,
    0x1_0000_0001,
    0xff_ffff_ffff,
    0x7fff_ffff_ffff_fffe,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0x8000_0000_0000_0001,
    0xffff_ffff_ffff_fffe,
    0xffff_ffff_ffff_ffff,
];

pub fn int(r: &mut Rng) -> u64 {
    if let Some(n) = fresh(r, &dict().new_ints, 5) {
        return n;
    }
    match r.below(16) {
        0..=5 => r.below(24) as u64,
        6..=9 => *r.pick(EDGES),
        10 => *r.pick(&dict().ints),
        11 => {
            // A power of two and its neighbours.
            let p = 1u64 << r.below(64);
            p.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        12 => {
            // A power of ten and its neighbours.
            let mut p = 1u64;
            for _ in 0..r.below(20) {
                p = p.wrapping_mul(10);
            }
            p.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        13 => {
            // Repeated bytes and sparse bits.
            let b = r.u64() & 0xff;
            let x = b * 0x0101_0101_0101_0101;
            x >> (8 * r.below(8))
        }
        _ => r.u64() >> r.below(64),
    }
}

/// A container or string length, mostly small.
pub fn len(r: &mut Rng, max: usize) -> usize {
    if let Some(n) = fresh(r, &dict().new_small, 30) {
        return (n as usize).min(max);
    }
    let n = match r.below(64) {
        0..=47 => r.below(5),
        48..=55 => r.below(16),
        56..=59 => *r.pick(&[22, 23, 24, 25, 26, 31, 32, 33]),
        60 => *r.pick(&[63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257]),
        61 => *r.pick(&dict().small) as usize,
        62 => r.below(300),
        _ => r.below(40),
    };
    n.min(max)
}

pub fn big_len(r: &mut Rng) -> usize {
    *r.pick(&[
        255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095,
        4096, 4097, 8191, 8192, 8193, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534,
        65535, 65536, 65537, 65540, 66000, 70000, 99999, 100000, 131071, 131072, 131073,
    ])
}

pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![*r.pick(&[0u8, 0xff, 0x20, 0x7f, 0x80]); n],
        1 => (0..n).map(|i| i as u8).collect(),
        // What could be taken for text.
        2 => text_n(r, n).into_bytes(),
        _ => (0..n).map(|_| r.u64() as u8).collect(),
    }
}

pub fn bstr(r: &mut Rng, max: usize) -> Vec<u8> {
    if let Some(s) = fresh(r, &dict().new_strs, 6) {
        if s.len() <= max {
            return s;
        }
    }
    if r.one_in(24) {
        let s = r.pick(&dict().strs).clone();
        if s.len() <= max {
            return s;
        }
    }
    let n = len(r, max);
    bytes(r, n)
}

pub fn ch(r: &mut Rng) -> char {
    if let Some(c) = fresh(r, &dict().new_ints, 12).and_then(|n| char::from_u32(n as u32)) {
        return c;
    }
    match r.below(12) {
        0..=5 => (0x20 + r.below(0x5f)) as u8 as char,
        6 => *r.pick(&['\0', '\u{1}', '\t', '\n', '\u{7f}', '\u{80}', '"', '\\']),
        7 => *r.pick(&[
            '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{fffe}', '\u{ffff}',
            '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{1f600}', '\u{300}', '\u{e9}',
        ]),
        8 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or('x'),
        9 => char::from_u32(0x800 + r.below(0xf800) as u32).unwrap_or('y'),
        _ => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap_or('z'),
    }
}

/// Text of exactly `n` bytes.
pub fn text_n(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let ascii = r.below(3) > 0;
    // Of one class of characters at times: numbers, words.
    let class: &[u8] = match r.below(12) {
        0 => b"0123456789",
        1 => b"abcdefghijklmnopqrstuvwxyz",
        2 => b"0123456789abcdef",
        3 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789",
        4 => b"a",
        _ => b"",
    };
    while s.len() < n {
        let c = if ascii && !class.is_empty() {
            *r.pick(class) as char
        } else if ascii {
            (0x20 + r.below(0x5f)) as u8 as char
        } else {
            ch(r)
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('a');
        }
    }
    s
}

/// Texts a reader or writer might be tempted to treat specially, or a text with an ornament at one
/// of its ends.
pub fn odd_text(r: &mut Rng, max: usize) -> String {
    let mut s = if r.bool() {
        r.pick(&[
            "", " ", "null", "Null", "NULL", "undefined", "true", "false", "True", "0", "-0", "1", "-1",
            "00", "01", "1.0", "1e3", "NaN", "Infinity", "-Infinity", "0x10", "255", "256", "65536",
            "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
            "-9223372036854775808", "1970-01-01", "2013-03-21T20:04:00Z", "http://example.com/", "a.b",
            "a/b", "/", ".", "..", "~", "$ref", "__proto__", "type", "tag", "value", "None", "Some", "()",
            "[]", "{}", "\"\"", "h''", "<", "&amp;", "%00", "\\", "\\n", "\\u0000", "YQ==", "YQ", "6161",
            "A", "a", "Z", "\u{e9}", "e\u{301}", "\u{212b}", "\u{c5}", "\u{df}", "SS", "\u{130}", "i\u{307}",
            "\u{1e9e}", "\u{fb01}", "\u{200b}", "\u{200d}", "\u{202e}abc", "\u{2028}", "\u{85}", "\u{a0}",
            "\u{ad}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{1f1e6}\u{1f1e7}",
        ])
        .to_string()
    } else {
        let n = len(r, max);
        text_n(r, n)
    };
    let o = *r.pick(&[
        "\u{feff}", "\0", "\0\0", " ", "  ", "\n", "\r\n", "\r", "\t", "\"", "'", "\u{a0}", "\u{3000}", "\u{200b}",
        "\u{301}", "\u{fffd}", "\\", "/", "#", "=", "==", "0", "A",
    ]);
    match r.below(5) {
        0 => s.insert_str(0, o),
        1 => s.push_str(o),
        2 => {
            s.insert_str(0, o);
            s.push_str(o);
        }
        3 => {
            let mut at = r.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, o);
        }
        _ => {}
    }
    if s.len() > max {
        let n = len(r, max);
        return text_n(r, n);
    }
    s
}

/// A string long enough for every width of length but the longest, of either kind.
pub fn long_string(r: &mut Rng) -> RV {
    let n = if r.one_in(30) {
        r.range(65_500, 70_000)
    } else if r.one_in(3) {
        r.range(300, 6_000)
    } else {
        r.range(200, 1_200)
    };
    if r.bool() {
        B(bytes(r, n))
    } else {
        T(text_n(r, n))
    }
}

/// A tag number: often one with a meaning in the standards.
pub fn tag_no(r: &mut Rng) -> u64 {
    if r.one_in(3) {
        *r.pick(&[
            0u64, 1, 2, 3, 4, 5, 16, 17, 18, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 38,
            39, 40, 42, 43, 61, 63, 64, 96, 98, 100, 103, 110, 256, 257, 258, 259, 260, 261, 262, 1004, 1040,
            27181, 55799, 55800, 65535,
        ])
    } else {
        int(r)
    }
}

/// A tag with content: where the number has a meaning, often of the kind it asks for.
pub fn tagged(r: &mut Rng, depth: usize, budget: &mut isize) -> RV {
    let t = tag_no(r);
    let v = if r.one_in(4) {
        value(r, depth, budget)
    } else {
        match t {
            0 | 1004 => T("2013-03-21T20:04:00Z".into()),
            1 | 100 => U(int(r)),
            2 | 3 | 64 => {
                let n = *r.pick(&[0usize, 1, 2, 7, 8, 8, 9, 15, 16, 17, 32]);
                B(bytes(r, n))
            }
            4 | 5 | 30 => A(vec![N(int(r)), U(int(r))]),
            24 | 63 => {
                let v = value(r, depth.min(2), budget);
                B(canon(&v).map(|v| raw(&v)).unwrap_or_default())
            }
            32..=36 => T(odd_text(r, 40)),
            258 => {
                let n = len(r, 12);
                A((0..n).map(|_| scalar_small(r)).collect())
            }
            _ => value(r, depth, budget),
        }
    };
    G(t, Box::new(v))
}

pub fn text(r: &mut Rng, max: usize) -> String {
    if r.one_in(14) {
        return odd_text(r, max);
    }
    if let Some(s) = fresh(r, &dict().new_texts, 6) {
        if s.len() <= max {
            return s;
        }
    }
    if r.one_in(16) {
        let s = r.pick(&dict().texts).clone();
        if s.len() <= max {
            return s;
        }
    }
    let n = len(r, max);
    text_n(r, n)
}

pub fn scalar(r: &mut Rng) -> RV {
    match r.below(9) {
        0..=2 => U(int(r)),
        3 | 4 => N(int(r)),
        5 => B(bstr(r, 300)),
        6 => T(text(r, 300)),
        _ => S(20 + r.below(4) as u8),
    }
}

/// A value of at most `depth` levels and about `budget` nodes. Maps hold distinct keys, in no
/// particular order.
pub fn value(r: &mut Rng, depth: usize, budget: &mut isize) -> RV {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || r.below(10) < 3 {
        return scalar(r);
    }
    match r.below(10) {
        0..=3 => {
            let n = len(r, (*budget).max(0) as usize);
            A((0..n).map(|_| value(r, depth - 1, budget)).collect())
        }
        4..=7 => {
            let n = len(r, (*budget).max(0) as usize / 2);
            map(r, n, depth - 1, budget)
        }
        8 => tagged(r, depth - 1, budget),
        _ => scalar(r),
    }
}

/// A map of (at most) n entries with distinct keys.
pub fn map(r: &mut Rng, n: usize, depth: usize, budget: &mut isize) -> RV {
    let mut seen = std::collections::HashSet::new();
    let mut m = Vec::new();
    let style = r.below(6);
    let base = bstr(r, 40);
    let ibase = int(r);
    for i in 0..n {
        let k = match style {
            0 => U(ibase.wrapping_add(i as u64)),
            1 => {
                // Keys sharing a prefix, of differing lengths.
                let mut s = "k".repeat(r.below(3));
                s.push_str(&i.to_string());
                T(s)
            }
            2 => {
                let mut b = base.clone();
                b.extend_from_slice(&(i as u16).to_be_bytes());
                if r.one_in(3) {
                    b.push(r.u64() as u8);
                }
                B(b)
            }
            3 => key(r, depth.min(3), budget),
            _ => {
                if r.one_in(4) {
                    key(r, depth.min(3), budget)
                } else {
                    scalar(r)
                }
            }
        };
        let id = match canon(&k) {
            Some(c) => raw(&c),
            None => continue,
        };
        if seen.insert(id) {
            let v = value(r, depth, budget);
            m.push((k, v));
        }
    }
    r.shuffle(&mut m);
    M(m)
}

/// A map key: often close to other keys (same type, same length, one byte apart, nested maps).
pub fn key(r: &mut Rng, depth: usize, budget: &mut isize) -> RV {
    *budget -= 1;
    match r.below(12) {
        0 => U(r.below(30) as u64),
        1 => U(int(r)),
        2 => N(r.below(30) as u64),
        3 => N(int(r)),
        4 => B(bytes_small(r)),
        5 => T(text_n(r, 0)),
        6 if r.one_in(4) => T(odd_text(r, 30)),
        6 => {
            let n = r.below(4);
            T((0..n).map(|_| *r.pick(&['a', 'b', 'é', '\u{0}'])).collect())
        }
        7 => S(20 + r.below(4) as u8),
        8 if depth > 0 => G(int(r), Box::new(key(r, depth - 1, budget))),
        9 if depth > 0 => {
            let n = r.below(4);
            A((0..n).map(|_| key(r, depth - 1, budget)).collect())
        }
        10 | 11 if depth > 0 => {
            let n = r.below(4);
            let mut m: Vec<(RV, RV)> = Vec::new();
            let mut seen = std::collections::HashSet::new();
            for _ in 0..n {
                let k = key(r, depth - 1, budget);
                if let Some(c) = canon(&k) {
                    if seen.insert(raw(&c)) {
                        m.push((k, key(r, depth - 1, budget)));
                    }
                }
            }
            M(m)
        }
        _ => scalar(r),
    }
}

fn bytes_small(r: &mut Rng) -> Vec<u8> {
    let n = r.below(4);
    (0..n).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect()
}

/// A chain of `h` containers, so that the height is exactly `h`.
pub fn chain(r: &mut Rng, h: usize) -> RV {
    let style = r.below(6);
    let mut v = match r.below(6) {
        0 => A(vec![]),
        1 => M(vec![]),
        2 => T(text(r, 20)),
        3 => B(bstr(r, 20)),
        _ => scalar(r),
    };
    for i in 0..h {
        let k = if style < 5 { style } else { r.below(5) };
        v = match k {
            0 => A(vec![v]),
            1 => M(vec![(U(i as u64 % 24), v)]),
            2 => M(vec![(v, U(i as u64 % 24))]),
            3 => G(int(r), Box::new(v)),
            _ => A(vec![scalar(r), v, scalar(r)]),
        };
    }
    v
}

/// One container level around an item.
#[derive(Clone)]
pub enum Step {
    Arr(Vec<RV>, Vec<RV>),
    /// The item is the value at a key, between other entries.
    Val(Vec<(RV, RV)>, RV, Vec<(RV, RV)>),
    /// The item is a key, perhaps after another entry.
    Key(Vec<(RV, RV)>, RV),
    Tag(u64),
}

/// `k` container levels, outermost first. What is beside the item is in canonical order.
pub fn steps(r: &mut Rng, k: usize) -> Vec<Step> {
    let style = r.below(8);
    let plain = !r.one_in(3);
    let tag = int(r);
    let at = r.u64() % 30;
    let mut out = Vec::with_capacity(k);
    for i in 0..k {
        let s = if style >= 4 { r.below(4) } else { style };
        let beside = !plain && r.one_in(4);
        out.push(match s {
            0 => {
                let mut pre = vec![];
                let mut post = vec![];
                if beside {
                    pre = (0..r.below(3)).map(|_| scalar_small(r)).collect();
                    post = (0..r.below(3)).map(|_| scalar_small(r)).collect();
                }
                Step::Arr(pre, post)
            }
            1 => {
                let key = if style < 4 { at } else { r.u64() % 30 };
                let mut pre = vec![];
                let mut post = vec![];
                if beside {
                    if key > 0 {
                        pre.push((U(r.u64() % key), scalar_small(r)));
                    }
                    if r.bool() {
                        post.push((U(key + 1 + r.u64() % 300), scalar_small(r)));
                    }
                    if r.bool() {
                        post.push((T(text_n(r, 3)), scalar_small(r)));
                    }
                }
                Step::Val(pre, U(key), post)
            }
            2 => {
                // Not beside the innermost item, which might be the same.
                let pre = if beside && i + 1 < k { vec![(U(0), scalar_small(r))] } else { vec![] };
                Step::Key(pre, U(i as u64 % 24))
            }
            _ => Step::Tag(if style < 4 { tag } else { int(r) }),
        });
    }
    out
}

pub fn wrap_value(steps: &[Step], v: RV) -> RV {
    steps.iter().rev().fold(v, |v, s| match s {
        Step::Arr(a, b) => {
            let mut x = a.clone();
            x.push(v);
            x.extend(b.iter().cloned());
            A(x)
        }
        Step::Val(a, k, b) => {
            let mut x = a.clone();
            x.push((k.clone(), v));
            x.extend(b.iter().cloned());
            M(x)
        }
        Step::Key(a, y) => {
            let mut x = a.clone();
            x.push((v, y.clone()));
            M(x)
        }
        Step::Tag(t) => G(*t, Box::new(v)),
    })
}

/// The same around bytes that need not be a good item.
pub fn wrap_bytes(steps: &[Step], inner: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut tail: Vec<Vec<u8>> = vec![];
    let pairs = |out: &mut Vec<u8>, m: &[(RV, RV)]| {
        for (k, v) in m {
            enc_raw(k, out);
            enc_raw(v, out);
        }
    };
    for s in steps {
        let mut t = vec![];
        match s {
            Step::Arr(a, b) => {
                head(&mut out, 4, (a.len() + 1 + b.len()) as u64);
                a.iter().for_each(|x| enc_raw(x, &mut out));
                b.iter().for_each(|x| enc_raw(x, &mut t));
            }
            Step::Val(a, k, b) => {
                head(&mut out, 5, (a.len() + 1 + b.len()) as u64);
                pairs(&mut out, a);
                enc_raw(k, &mut out);
                pairs(&mut t, b);
            }
            Step::Key(a, y) => {
                head(&mut out, 5, (a.len() + 1) as u64);
                pairs(&mut out, a);
                enc_raw(y, &mut t);
            }
            Step::Tag(t) => head(&mut out, 6, *t),
        }
        tail.push(t);
    }
    out.extend_from_slice(inner);
    for t in tail.iter().rev() {
        out.extend_from_slice(t);
    }
    out
}

/// How many levels to put around an item of height `h`, so that it ends up at, just below or just
/// beyond `limit`.
pub fn edge_levels(r: &mut Rng, limit: usize, h: usize) -> usize {
    let target = match r.below(6) {
        0 => limit + 1,
        1 => limit.saturating_sub(1 + r.below(3)),
        _ => limit,
    };
    target.saturating_sub(h)
}

/// General-purpose value: many profiles.
pub fn any(r: &mut Rng) -> RV {
    match r.below(24) {
        0..=3 => scalar(r),
        4 => {
            let h = r.below(12);
            chain(r, h)
        }
        5 => {
            let mut b = 60;
            let n = len(r, 60);
            map(r, n, 3, &mut b)
        }
        6 => {
            let mut b = 40;
            key(r, 4, &mut b)
        }
        7 => {
            // A wide, shallow container.
            let n = len(r, 3000);
            match r.below(2) {
                0 => A((0..n).map(|_| scalar(r)).collect()),
                _ => {
                    let mut b = 100_000;
                    map(r, n, 0, &mut b)
                }
            }
        }
        _ => {
            let mut b = *r.pick(&[6, 12, 25, 60]);
            let d = r.range(1, 6);
            value(r, d, &mut b)
        }
    }
}

/// A family of distinct items numbered from nought (up to some hundred thousand of them).
pub struct Fam {
    kind: u64,
    shift: u32,
    pre: Vec<u8>,
    second: bool,
}

impl Fam {
    pub fn new(r: &mut Rng) -> Fam {
        let kind = r.below(13) as u64;
        let shift = match r.below(3) {
            0 => 0,
            1 => *r.pick(&[8u32, 16, 24, 30, 32, 40, 44]),
            _ => r.below(45) as u32,
        };
        let n = *r.pick(&[0usize, 0, 1, 3, 7, 8, 15, 20, 30]);
        Fam { kind, shift, pre: bytes(r, n), second: r.one_in(4) }
    }

    fn one(&self, kind: u64, i: u64) -> RV {
        let x = if self.shift == 0 { i } else { (i << self.shift) | (i & 1) };
        let hex = || format!("{}{:x}", "k".repeat(self.pre.len() + 1), x);
        match kind {
            0 => U(x),
            1 => N(x),
            2 => if i & 1 == 0 { U(x) } else { N(x) },
            3 => T(format!("{}", i)),
            4 => T(hex()),
            5 => B([&self.pre[..], &(i as u32).to_be_bytes(), &[5][..]].concat()),
            6 => B([&self.pre[..], &x.to_le_bytes(), &[6]].concat()),
            7 => B([&(x.to_be_bytes())[..], &self.pre[..], &[7]].concat()),
            8 => A(vec![U(x)]),
            9 => A(vec![T(hex()), N(i)]),
            10 => M(vec![(U(x), S(20 + (i % 4) as u8))]),
            _ => G(x, Box::new(U(i % 3))),
        }
    }

    pub fn item(&self, i: u64) -> RV {
        if self.kind == 12 {
            // All kinds in turn.
            return self.one(i % 12, i);
        }
        if self.second && i % 97 == 96 {
            // Nearly all of one kind.
            return self.one((self.kind + 1 + i % 5) % 12, i);
        }
        self.one(self.kind, i)
    }
}

/// Large items at the width boundaries of lengths (thousands of bytes or elements).
pub fn large(r: &mut Rng) -> RV {
    let n = big_len(r);
    match r.below(5) {
        0 | 1 if r.one_in(6) => {
            let n = *r.pick(&[1usize << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 24]) + r.below(3) - 1;
            if r.bool() {
                B(bytes(r, n))
            } else {
                T(text_n(r, n))
            }
        }
        0 => B(bytes(r, n)),
        1 => T(text_n(r, n)),
        2 => {
            let f = Fam::new(r);
            A((0..n).map(|i| f.item(i as u64)).collect())
        }
        3 => {
            let (f, g) = (Fam::new(r), Fam::new(r));
            let flat = r.bool();
            let mut m: Vec<(RV, RV)> =
                (0..n as u64).map(|i| (f.item(i), if flat { U(0) } else { g.item(i) })).collect();
            match r.below(4) {
                0 => m.reverse(),
                1 => {}
                _ => r.shuffle(&mut m),
            }
            M(m)
        }
        _ => A((0..n).map(|_| scalar_small(r)).collect()),
    }
}

pub fn scalar_small(r: &mut Rng) -> RV {
    match r.below(6) {
        0 => U(int(r)),
        1 => N(int(r)),
        2 => B(bytes_small(r)),
        3 => T(text(r, 8)),
        4 => A(vec![]),
        _ => S(20 + r.below(4) as u8),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault {
    NonMinimal,
    Truncate,
    Trailing,
    BadUtf8,
    SwapKeys,
    DupKey,
    ReservedAi,
    BadSimple,
    Float,
    Depth,
}

pub const FAULTS: &[Fault] = &[
    Fault::NonMinimal,
    Fault::Truncate,
    Fault::Trailing,
    Fault::BadUtf8,
    Fault::SwapKeys,
    Fault::DupKey,
    Fault::ReservedAi,
    Fault::BadSimple,
    Fault::Float,
];

/// Writes a canonical tree with one fault at the `at`-th place where the fault can be applied.
pub struct FaultEnc<'a> {
    pub fault: Fault,
    pub at: usize,
    pub r: &'a mut Rng,
    pub seen: usize,
    pub done: bool,
    pub out: Vec<u8>,
}

pub const INVALID_UTF8: &[&[u8]] = &[
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xc2],
    &[0xc3, 0x28],
    &[0xe0, 0x80, 0x80],
    &[0xe0, 0x9f, 0xbf],
    &[0xe2, 0x82],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf],
    &[0xf0, 0x9f, 0x98],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xf8, 0x88, 0x80, 0x80, 0x80],
    &[0xfe],
    &[0xff],
];

impl<'a> FaultEnc<'a> {
    fn hit(&mut self) -> bool {
        if self.done {
            return false;
        }
        let h = self.seen == self.at;
        self.seen += 1;
        if h {
            self.done = true;
        }
        h
    }

    fn head(&mut self, major: u8, n: u64) {
        match self.fault {
            Fault::NonMinimal if n < 0x1_0000_0000 => {
                if self.hit() {
                    let w: Vec<usize> = [1usize, 2, 4, 8]
                        .iter()
                        .copied()
                        .filter(|w| *w > min_width(n))
                        .collect();
                    let w = *self.r.pick(&w);
                    head_w(&mut self.out, major, n, w);
                    return;
                }
            }
            Fault::ReservedAi => {
                if self.hit() {
                    let ai = *self.r.pick(&[28u8, 29, 30, 31]);
                    self.out.push(major << 5 | ai);
                    if self.r.bool() {
                        return;
                    }
                    // An indefinite-length or reserved head followed by what would be its length.
                    let w = *self.r.pick(&[1usize, 2, 4, 8]);
                    let be = n.to_be_bytes();
                    self.out.extend_from_slice(&be[8 - w..]);
                    return;
                }
            }
            _ => {}
        }
        head(&mut self.out, major, n);
    }

    pub fn item(&mut self, v: &RV) {
        if self.fault == Fault::Float && self.hit() {
            let (w, b) = match self.r.below(3) {
                0 => (2, 0x100 + self.r.u64() % 0xff00),
                1 => (4, 0x1_0000 + self.r.u64() % 0xffff_0000),
                _ => (8, 0x1_0000_0000 + self.r.u64() % 0xffff_fffe_0000_0000),
            };
            head_w(&mut self.out, 7, b, w);
            return;
        }
        if self.fault == Fault::BadSimple && self.hit() {
            if self.r.bool() {
                let n = self.r.below(20) as u64;
                head_w(&mut self.out, 7, n, 0);
            } else {
                let n = 24 + self.r.below(232) as u64;
                head_w(&mut self.out, 7, n, 1);
            }
            return;
        }
        match v {
            U(n) => self.head(0, *n),
            N(n) => self.head(1, *n),
            B(b) => {
                self.head(2, b.len() as u64);
                self.out.extend_from_slice(b);
            }
            T(s) => {
                if self.fault == Fault::BadUtf8 && self.hit() {
                    let bad = *self.r.pick(INVALID_UTF8);
                    // At the start, at the end or in between.
                    let mut cut = self.r.below(s.len() + 1);
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    let mut b = s.as_bytes()[..cut].to_vec();
                    b.extend_from_slice(bad);
                    b.extend_from_slice(&s.as_bytes()[cut..]);
                    if std::str::from_utf8(&b).is_ok() {
                        b = bad.to_vec();
                    }
                    head(&mut self.out, 3, b.len() as u64);
                    self.out.extend_from_slice(&b);
                    return;
                }
                self.head(3, s.len() as u64);
                self.out.extend_from_slice(s.as_bytes());
            }
            A(a) => {
                self.head(4, a.len() as u64);
                for x in a {
                    self.item(x);
                }
            }
            M(m) => {
                if !m.is_empty() && self.fault == Fault::DupKey && self.hit() {
                    let i = self.r.below(m.len());
                    head(&mut self.out, 5, m.len() as u64 + 1);
                    for (j, (k, x)) in m.iter().enumerate() {
                        enc_raw(k, &mut self.out);
                        enc_raw(x, &mut self.out);
                        if i == j {
                            enc_raw(k, &mut self.out);
                            if self.r.bool() {
                                enc_raw(x, &mut self.out);
                            } else {
                                enc_raw(&U(0), &mut self.out);
                            }
                        }
                    }
                    return;
                }
                if m.len() > 1 && self.fault == Fault::SwapKeys && self.hit() {
                    let i = self.r.below(m.len());
                    let mut j = self.r.below(m.len());
                    if i == j {
                        j = (i + 1) % m.len();
                    }
                    let mut m = m.clone();
                    m.swap(i, j);
                    head(&mut self.out, 5, m.len() as u64);
                    for (k, x) in &m {
                        enc_raw(k, &mut self.out);
                        enc_raw(x, &mut self.out);
                    }
                    return;
                }
                self.head(5, m.len() as u64);
                for (k, x) in m {
                    self.item(k);
                    self.item(x);
                }
            }
            G(t, x) => {
                self.head(6, *t);
                self.item(x);
            }
            // A simple value with a longer head is two faults in one; other stages cover it.
            S(s) if self.fault == Fault::NonMinimal => self.out.push(0xe0 | s),
            S(s) => self.head(7, *s as u64),
        }
    }
}

/// `v` must be canonical. `None` if the fault cannot be applied to it.
pub fn with_fault(v: &RV, fault: Fault, r: &mut Rng) -> Option<Vec<u8>> {
    match fault {
        Fault::Truncate => {
            let b = raw(v);
            let n = r.below(b.len());
            return Some(b[..n].to_vec());
        }
        Fault::Trailing => {
            let mut b = raw(v);
            let n = r.range(1, 4);
            for _ in 0..n {
                b.push(*r.pick(&[0u8, 0xff, 0x80, 0xa0, 0xf6, 0xf7, 0x20, 0x40, 0x60, 0x0a]));
            }
            return Some(b);
        }
        Fault::Depth => return None,
        _ => {}
    }
    // Count the places first, then pick one.
    let places = {
        let mut r2 = Rng::new(0, "count", 0);
        let mut e = FaultEnc {
            fault,
            at: usize::MAX,
            r: &mut r2,
            seen: 0,
            done: false,
            out: vec![],
        };
        e.item(v);
        e.seen
    };
    if places == 0 {
        return None;
    }
    // Prefer late places as often as early ones.
    let at = match r.below(4) {
        0 => places - 1,
        1 => 0,
        _ => r.below(places),
    };
    let mut e = FaultEnc {
        fault,
        at,
        r,
        seen: 0,
        done: false,
        out: vec![],
    };
    e.item(v);
    if !e.done {
        return None;
    }
    Some(e.out)
}

/// Encode with freely chosen widths, possibly out-of-order and duplicate keys, floats and odd
/// simple values: well-formed but not canonical.
pub fn enc_lax(v: &RV, r: &mut Rng, out: &mut Vec<u8>) {
    fn h(out: &mut Vec<u8>, major: u8, n: u64, r: &mut Rng) {
        let mw = min_width(n);
        if r.one_in(3) {
            let w: Vec<usize> = [0usize, 1, 2, 4, 8].iter().copied().filter(|w| *w >= mw).collect();
            let w = *r.pick(&w);
            head_w(out, major, n, w);
        } else {
            head_w(out, major, n, mw);
        }
    }
    match v {
        U(n) => h(out, 0, *n, r),
        N(n) => h(out, 1, *n, r),
        B(b) => {
            h(out, 2, b.len() as u64, r);
            out.extend_from_slice(b);
        }
        T(s) => {
            h(out, 3, s.len() as u64, r);
            out.extend_from_slice(s.as_bytes());
        }
        A(a) => {
            h(out, 4, a.len() as u64, r);
            for x in a {
                enc_lax(x, r, out);
            }
        }
        M(m) => {
            h(out, 5, m.len() as u64, r);
            for (k, x) in m {
                enc_lax(k, r, out);
                enc_lax(x, r, out);
            }
        }
        G(t, x) => {
            h(out, 6, *t, r);
            enc_lax(x, r, out);
        }
        S(s) => match r.below(6) {
            0 => {
                // Any simple value or float.
                let w = *r.pick(&[0usize, 1, 2, 4, 8]);
                let n = match w {
                    0 => r.below(24) as u64,
                    1 => r.below(256) as u64,
                    _ => {
                        if r.bool() {
                            r.below(40) as u64
                        } else {
                            r.u64()
                        }
                    }
                };
                head_w(out, 7, n, w);
            }
            1 => head_w(out, 7, *s as u64, 1),
            _ => out.push(0xe0 | s),
        },
    }
}

/// Byte-level mutations.
pub fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    let n = r.range(1, 3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u64() as u8);
            continue;
        }
        let i = r.below(b.len());
        match r.below(12) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u64() as u8,
            2 => b[i] = b[i].wrapping_add(1),
            3 => b[i] = b[i].wrapping_sub(1),
            4 => {
                b.remove(i);
            }
            5 => b.insert(i, r.u64() as u8),
            6 => {
                let x = *r.pick(&[
                    0x1b, 0x3b, 0x5b, 0x7b, 0x9b, 0xbb, 0xdb, 0xfb, 0x9f, 0xbf, 0x5f, 0x7f, 0xff,
                    0xf8, 0xf9, 0xfa, 0x18, 0x19, 0x1a, 0x80, 0xa0, 0xa1, 0xc0, 0xf6, 0xf7,
                ]);
                b[i] = x;
            }
            7 => b.truncate(i),
            8 => {
                // Repeat a slice.
                let j = r.range(i, b.len().min(i + 8));
                let s = b[i..j].to_vec();
                b.splice(i..i, s);
            }
            9 => {
                let j = r.below(b.len());
                b.swap(i, j);
            }
            10 => {
                // Overwrite an argument with a boundary value.
                let w = *r.pick(&[1usize, 2, 4, 8]);
                let v = int(r).to_be_bytes();
                for (k, x) in v[8 - w..].iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            _ => {
                let s = r.pick(&dict().strs).clone();
                let at = i;
                b.splice(at..at, s.into_iter().take(16));
            }
        }
    }
}

/// Another string of the same length that weak sums (plain, exclusive or, polynomial) do not tell apart.
pub fn alike(a: &[u8], r: &mut Rng) -> Vec<u8> {
    for _ in 0..20 {
        let mut b = a.to_vec();
        let i = r.below(b.len());
        let j = if r.bool() { (i + 1).min(b.len() - 1) } else { r.below(b.len()) };
        match r.below(8) {
            0 => b.swap(i, j),
            1 | 2 => {
                let n = *r.pick(&[1u8, 2, 0x10, 0x20, 0x40, 0x80]);
                b[i] = b[i].wrapping_add(n);
                b[j] = b[j].wrapping_sub(n);
            }
            3 => {
                let n = 1u8 << r.below(8);
                b[i] ^= n;
                b[j] ^= n;
            }
            4 | 5 => {
                // s = k * s + byte
                let k = *r.pick(&[2i32, 3, 5, 7, 17, 31, 33, 37, 65, 131]);
                let n = if r.bool() { 1 } else { -1 };
                if i + 1 < b.len() {
                    let (x, y) = (b[i] as i32 + n, b[i + 1] as i32 - n * k);
                    if (0..256).contains(&x) && (0..256).contains(&y) {
                        b[i] = x as u8;
                        b[i + 1] = y as u8;
                    }
                }
            }
            6 => b.reverse(),
            // The same ends, another middle.
            _ => {
                let m = b.len() / 2;
                b[m] = r.u64() as u8;
            }
        }
        if b != a {
            return b;
        }
    }
    a.to_vec()
}

/// Bytes that may or may not be CBOR: canonical, faulty, lax, mutated and random.
pub fn input(r: &mut Rng) -> Vec<u8> {
    match r.below(20) {
        0..=3 => {
            let v = any(r);
            canon(&v).map(|c| raw(&c)).unwrap_or_default()
        }
        4 | 5 => {
            let v = any(r);
            raw(&v)
        }
        6..=9 => {
            let v = any(r);
            let f = *r.pick(FAULTS);
            match canon(&v) {
                Some(c) => with_fault(&c, f, r).unwrap_or_else(|| raw(&c)),
                None => raw(&v),
            }
        }
        10 | 11 => {
            let v = any(r);
            let mut o = vec![];
            enc_lax(&v, r, &mut o);
            o
        }
        12..=16 => {
            let v = any(r);
            let mut o = raw(&v);
            mutate(&mut o, r);
            o
        }
        17 => {
            // Valid-looking tokens in sequence.
            let n = r.range(1, 12);
            let mut o = vec![];
            for _ in 0..n {
                let m = r.below(8) as u8;
                let x = int(r);
                let mw = min_width(x);
                let w = *r.pick(&[mw, mw, 8]);
                head_w(&mut o, m, x, w);
                if (m == 2 || m == 3) && x < 64 {
                    let s = text_n(r, x as usize);
                    o.extend_from_slice(s.as_bytes());
                }
            }
            o
        }
        18 => {
            // Claims of large content.
            let mut o = vec![];
            for _ in 0..r.range(1, 5) {
                let m = *r.pick(&[2u8, 3, 4, 5, 6, 4, 5]);
                let x = int(r) | (1 << r.below(63));
                head(&mut o, m, x);
            }
            let n = r.below(6);
            o.extend(bytes(r, n));
            o
        }
        _ => {
            let n = r.below(24);
            (0..n).map(|_| r.u64() as u8).collect()
        }
    }
}
