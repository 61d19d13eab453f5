//! Generators of keys, values, arguments and requests.

use crate::{
    model::{reserved, Model, Req, Val},
    src::{Rng, Src},
};
use std::collections::{BTreeMap, BTreeSet};

/// How large the things that are generated get.
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// Rarely more than a few hundred bytes.
    Small,
    /// Sometimes past 65536 bytes.
    Large,
}

pub fn len(s: &mut Src, size: Size) -> usize {
    match s.weighted(&[60, 6, 12, 6, 4, 3]) {
        0 => s.range(1, 8),
        1 => 0,
        2 => s.range(9, 40),
        3 => *s.pick(&[63, 64, 65, 127, 128, 129, 254, 255, 256, 257]),
        4 => dict_len(s, if size == Size::Large { 70_000 } else { 600 }),
        _ if size == Size::Large => match s.weighted(&[6, 2, 1]) {
            0 => *s.pick(&[300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]),
            1 => *s.pick(&[16383, 16384, 32767, 32768]),
            _ => *s.pick(&[65534, 65535, 65536, 65537, 70000]),
        },
        _ => *s.pick(&[300, 511, 512, 513]),
    }
}

/// A length next to a number in the source.
fn dict_len(s: &mut Src, max: usize) -> usize {
    let n = dict_int(s).unwrap_or(16);
    let n = n + s.choice(2) as i128 - 1;
    // Large ones only if a change has introduced them.
    let max = if max >= 70_000 && hot_int(s) && s.pct(10) { 5_000_000 } else { max };
    if n < 0 || n > max as i128 {
        s.range(1, 100)
    } else {
        n as usize
    }
}

fn dict_int(s: &mut Src) -> Option<i128> {
    let d = s.dict.clone();
    if !d.hot_ints.is_empty() && s.pct(60) {
        return Some(*s.pick(&d.hot_ints));
    }
    if d.ints.is_empty() {
        return None;
    }
    Some(*s.pick(&d.ints))
}

/// A number that the code may treat specially, for lengths of histories and the like.
pub fn count(s: &mut Src, usual: (usize, usize), max: usize) -> usize {
    if s.pct(if hot_int(s) { 12 } else { 4 }) {
        dict_len(s, max)
    } else {
        s.range(usual.0, usual.1)
    }
}

fn dict_str(s: &mut Src) -> Vec<u8> {
    let d = s.dict.clone();
    if !d.hot_strs.is_empty() && s.pct(60) {
        return s.pick(&d.hot_strs).clone();
    }
    if d.strs.is_empty() {
        return b"x".to_vec();
    }
    s.pick(&d.strs).clone()
}

/// Whether a change has introduced new literals, which are worth drawing more often.
fn hot(s: &Src) -> bool {
    !s.dict.hot_strs.is_empty()
}

/// Whether a change has introduced new numbers.
fn hot_int(s: &Src) -> bool {
    !s.dict.hot_ints.is_empty()
}

/// Of every length in UTF-8, and what programs tend to treat specially: white space, line ends, marks and quotes.
const TEXTS: [&str; 32] = [
    "é", "ß", "日本", "😀", "a\u{301}", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}",
    " ", "\t", "\r\n", "\r", "\u{b}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200d}", "\u{fffd}", "\u{1b}", "\"", "'", "\\", "%", "İ", "ŉ",
    "🇪🇺",
];

pub fn text(s: &mut Src, n: usize) -> String {
    let mut out = String::new();
    match s.weighted(&[5, 3, 1]) {
        0 => {
            if n > 32 {
                let seed = s.choice(u64::MAX);
                let mut r = Rng::new(seed);
                (0..n).for_each(|_| out.push((b'a' + r.below(26) as u8) as char));
            } else {
                for _ in 0..n {
                    out.push(*s.pick(&['a', 'b', 'c', 'A', 'z', '0', '1', ' ', ':', '=', '-', '_', '\n', '.']));
                }
            }
        }
        1 => {
            let mut i = 0;
            let each = if n > 32 { Some(s.below(TEXTS.len())) } else { None };
            while out.len() < n && i < n {
                match each {
                    Some(e) => out.push_str(TEXTS[(e + i) % TEXTS.len()]),
                    None => {
                        if s.bool() {
                            out.push('x')
                        } else {
                            let t = *s.pick(&TEXTS);
                            out.push_str(t)
                        }
                    }
                }
                i += 1;
            }
        }
        _ => {
            let d = dict_str(s);
            out.push_str(&String::from_utf8_lossy(&d));
        }
    }
    out
}

/// Any bytes.
pub fn blob(s: &mut Src, size: Size) -> Vec<u8> {
    let dict = if hot(s) { 30 } else { 6 };
    match s.weighted(&[40, 25, 20, dict, 4]) {
        0 => {
            let n = len(s, size);
            if n > 24 {
                let seed = s.choice(u64::MAX);
                let mut r = Rng::new(seed);
                (0..n).map(|_| b'a' + r.below(26) as u8).collect()
            } else {
                (0..n).map(|_| b"abcdefgh01 :"[s.below(12)]).collect()
            }
        }
        1 => {
            let n = len(s, size);
            if n > 24 {
                let seed = s.choice(u64::MAX);
                let mut r = Rng::new(seed);
                (0..n).map(|_| r.next() as u8).collect()
            } else {
                (0..n).map(|_| s.choice(255) as u8).collect()
            }
        }
        2 => {
            let n = len(s, size);
            text(s, n).into_bytes()
        }
        3 => {
            let mut d = dict_str(s);
            match s.weighted(&[5, 1, 1, 1]) {
                1 => d.push(b"x\0:0"[s.below(4)]),
                2 => {
                    d.pop();
                }
                3 => d.insert(0, b'x'),
                _ => {}
            }
            d
        }
        _ => {
            let n = len(s, size);
            let b = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'\n']);
            vec![b; n]
        }
    }
}

pub fn int(s: &mut Src) -> i64 {
    let dict = if hot_int(s) { 40 } else { 12 };
    match s.weighted(&[30, 20, 15, dict, 10]) {
        0 => s.choice(16) as i64,
        1 => -(s.choice(300) as i64) - 1,
        2 => {
            let p = s.below(64) as u32;
            let v = 1u64.wrapping_shl(p) as i64;
            let v = v.wrapping_add(s.choice(2) as i64 - 1);
            if s.bool() {
                v.wrapping_neg()
            } else {
                v
            }
        }
        3 => {
            let n = dict_int(s).unwrap_or(0) + s.choice(2) as i128 - 1;
            let n = n as i64;
            if s.pct(30) {
                n.wrapping_neg()
            } else {
                n
            }
        }
        _ => match s.below(4) {
            0 => *s.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            _ => s.choice(u64::MAX) as i64,
        },
    }
}

pub fn float(s: &mut Src) -> f64 {
    let dict = if hot_int(s) { 25 } else { 8 };
    match s.weighted(&[30, 25, dict, 10, 5]) {
        0 => s.choice(20) as f64 - 4.0,
        1 => *s.pick(&[
            0.0, -0.0, 0.5, -0.5, 0.1, 1e-3, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY,
            f64::NEG_INFINITY, f64::NAN, -f64::NAN, 9007199254740992.0, 9007199254740993.0, -9007199254740992.0,
            1e308, 1e-320, 4294967296.0, 9.223372036854775807e18, -9.223372036854775808e18, 3.14,
        ]),
        2 => {
            let n = dict_int(s).unwrap_or(0) as f64;
            n + *s.pick(&[0.0, 0.5, -0.5, 1.0, -1.0])
        }
        3 => f64::from_bits(s.choice(u64::MAX)),
        // Signalling and quiet NaNs with payloads.
        _ => f64::from_bits(0x7ff0_0000_0000_0001 | s.choice(u64::MAX)),
    }
}

/// A plausible key: neither empty nor reserved.
pub fn key(s: &mut Src, size: Size) -> Vec<u8> {
    let dict = if hot(s) { 30 } else { 4 };
    let k = match s.weighted(&[50, 20, 10, dict, 6]) {
        0 => {
            let n = s.range(1, 3);
            (0..n).map(|_| b"abk"[s.below(3)]).collect()
        }
        1 => {
            let mut k = b"key".to_vec();
            if s.bool() {
                k.push(b':');
            }
            k.extend(s.choice(300).to_string().bytes());
            k
        }
        2 => blob(s, Size::Small),
        3 => {
            let mut d = dict_str(s);
            if s.pct(40) {
                d.extend(s.choice(9).to_string().bytes());
            }
            d
        }
        _ => blob(s, size),
    };
    if k.is_empty() || reserved(&k) {
        b"k".to_vec()
    } else {
        k
    }
}

/// A small pool of keys which a case works with; some are prefixes or extensions of others.
pub fn pool(s: &mut Src, min: usize, max: usize) -> Vec<Vec<u8>> {
    let n = s.range(min, max);
    let mut out: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let mut k = if i > 0 && s.pct(25) {
            let mut k = out[s.below(i)].clone();
            match s.below(6) {
                4 | 5 => near(s, &mut k),
                0 => k.push(b'a'),
                1 => k.push(0),
                2 if k.len() > 1 => {
                    k.pop();
                }
                _ => k.extend_from_slice(b":1"),
            }
            k
        } else {
            key(s, Size::Small)
        };
        if k.is_empty() || reserved(&k) {
            k = b"k".to_vec();
        }
        while out.contains(&k) {
            k.push(b'a' + (i % 26) as u8);
        }
        out.push(k);
    }
    out
}

/// A near miss of, or a key with, the reserved prefix.
pub fn odd_key(s: &mut Src) -> Vec<u8> {
    match s.below(6) {
        0 => b"__hop__:".to_vec(),
        1 => {
            let mut k = b"__hop__:".to_vec();
            if s.pct(25) {
                let n = dict_len(s, 70_000);
                k.extend(vec![b'r'; n]);
            } else {
                k.extend(blob(s, Size::Small));
            }
            k
        }
        2 => Vec::new(),
        3 => b"__hop__"[..s.range(1, 7)].to_vec(),
        4 => s.pick(&[&b"__hop_:"[..], b"__HOP__:", b"_hop__:", b"__hop__", b"__hop__;", b"__hop__:a", b"a__hop__:"]).to_vec(),
        _ => {
            let mut k = b"__hop__:".to_vec();
            let i = s.below(8);
            k[i] = s.choice(255) as u8;
            k
        }
    }
}

/// How many items a list or the like has.
pub fn items(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[70, 14, 8, 8]) {
        0 => s.range(1, 5),
        1 => s.range(6, 20),
        2 => *s.pick(&[31, 32, 33, 63, 64, 100, 126, 127, 128, 129]),
        _ => *s.pick(&[200, 252, 253, 254, 255]),
    };
    n.min(max)
}

/// An item of a collection; when there are many they're kept small.
pub fn item(s: &mut Src, many: bool) -> Vec<u8> {
    if many {
        let n = s.choice(400);
        if n % 5 == 0 {
            vec![b'i', (n & 0xff) as u8]
        } else {
            n.to_string().into_bytes()
        }
    } else {
        blob(s, Size::Small)
    }
}

/// Something that's almost the same, or the same.
pub fn near(s: &mut Src, x: &mut Vec<u8>) {
    match s.below(9) {
        0 | 1 => x.iter_mut().for_each(|b| {
            if b.is_ascii_alphabetic() {
                *b ^= 0x20
            }
        }),
        2 => x.push(0),
        3 => x.push(b' '),
        4 => {
            x.pop();
        }
        5 => x.reverse(),
        6 => {
            if let Some(b) = x.first_mut() {
                *b ^= 0x80
            }
        }
        7 => x.insert(0, b" 0\0"[s.below(3)]),
        _ => {}
    }
}

/// Make some items almost or quite alike.
fn vary(s: &mut Src, items: &mut [Vec<u8>]) {
    let n = items.len();
    if n < 2 || !s.pct(12) {
        return;
    }
    if s.pct(25) {
        let mut x = items[0].clone();
        if s.bool() {
            x.clear();
        }
        let every = s.range(1, 3);
        for i in (0..n).step_by(every) {
            items[i] = x.clone();
        }
        return;
    }
    for _ in 0..s.range(1, 3) {
        let mut x = items[s.below(n)].clone();
        near(s, &mut x);
        items[s.below(n)] = x;
    }
}

/// The arguments which make up a value of a type (at most `max` of them).
pub fn args_of(s: &mut Src, kind: u8, max: usize, size: Size) -> Vec<Vec<u8>> {
    let mut args = plain_args(s, kind, max, size);
    if kind >= 5 {
        vary(s, &mut args);
    }
    args
}

fn plain_args(s: &mut Src, kind: u8, max: usize, size: Size) -> Vec<Vec<u8>> {
    match kind {
        0 => vec![blob(s, size)],
        1 => {
            let b = *s.pick(&[0u8, 1, 1, 0, 2, 127, 128, 255]);
            let mut a = vec![b];
            if s.pct(10) {
                a.extend(blob(s, Size::Small));
            }
            vec![a]
        }
        2 => {
            let f = float(s).to_bits();
            vec![tail(s, f.to_be_bytes().to_vec())]
        }
        3 => {
            let i = int(s);
            vec![tail(s, i.to_be_bytes().to_vec())]
        }
        4 => {
            let n = len(s, size);
            vec![text(s, n).into_bytes()]
        }
        5 => {
            let n = items(s, max);
            if n <= 3 && s.pct(10) {
                return (0..n).map(|_| blob(s, size)).collect();
            }
            (0..n).map(|_| item(s, n > 8)).collect()
        }
        6 => {
            let n = items(s, max);
            let odd = s.pct(10);
            let n = if odd { n | 1 } else { n + n % 2 };
            let n = n.min(max);
            (0..n)
                .map(|i| {
                    if n <= 4 && s.pct(6) {
                        let big = *s.pick(&[255, 256, 254, 257, 128, 127]);
                        vec![b'm'; big]
                    } else if n <= 4 && i % 2 == 1 && s.pct(5) {
                        blob(s, size)
                    } else {
                        item(s, n > 8)
                    }
                })
                .collect()
        }
        _ => {
            let n = items(s, max);
            (0..n)
                .map(|_| {
                    if n <= 3 && s.pct(4) && size == Size::Large {
                        let big = *s.pick(&[65535, 65536, 255, 256, 32768]);
                        vec![b's'; big]
                    } else {
                        item(s, n > 8)
                    }
                })
                .collect()
        }
    }
}

/// Numbers are read from the first eight bytes of an argument.
fn tail(s: &mut Src, mut b: Vec<u8>) -> Vec<u8> {
    match s.weighted(&[92, 4, 4]) {
        0 => {}
        1 => {
            let n = s.range(0, 7);
            b.truncate(n);
        }
        _ => b.push(s.choice(255) as u8),
    }
    b
}

/// A value that can be stored, directly.
pub fn val(s: &mut Src, kind: u8, size: Size) -> Val {
    match kind {
        0 => Val::Bytes(blob(s, size)),
        1 => Val::Bool(s.bool()),
        2 => Val::Float(float(s), true),
        3 => Val::Int(int(s)),
        4 => {
            let n = len(s, size);
            Val::Str(text(s, n))
        }
        5 => {
            let n = if s.pct(6) { 0 } else { items(s, 300) };
            let mut list: Vec<Vec<u8>> = (0..n).map(|_| item(s, n > 8)).collect();
            vary(s, &mut list);
            Val::List(list)
        }
        6 => {
            let n = if s.pct(6) { 0 } else { items(s, 300) };
            let mut m = BTreeMap::new();
            let mut keys = Vec::new();
            for _ in 0..n {
                let mut k = item(s, n > 8);
                if s.pct(4) {
                    let big = *s.pick(&[255, 254, 128, 127]);
                    k = vec![b'm'; big];
                }
                keys.push(k);
            }
            vary(s, &mut keys);
            for mut k in keys {
                k.truncate(255);
                let v = item(s, n > 8);
                m.insert(k, v);
            }
            Val::Map(m)
        }
        _ => {
            let n = if s.pct(6) { 0 } else { items(s, 300) };
            let mut items: Vec<Vec<u8>> = (0..n).map(|_| item(s, n > 8)).collect();
            vary(s, &mut items);
            items.iter_mut().for_each(|x| x.truncate(65535));
            Val::Set(items.into_iter().collect())
        }
    }
}

/// Weights of the commands, by their position in `CMDS`.
pub const CMDS: [u8; 16] = [0, 1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 20, 21, 22, 100, 101];

pub struct Profile {
    pub weights: [u32; 16],
    /// Percentage of the requests that are made up without regard to what is sensible.
    pub wild: u64,
    pub size: Size,
    /// Percentage of the keys that are odd.
    pub odd: u64,
}

pub const EVEN: [u32; 16] = [8, 6, 8, 6, 30, 10, 8, 5, 5, 10, 4, 16, 8, 5, 2, 2];

/// A request that makes sense for the state of the model (most of the time).
pub fn request(s: &mut Src, m: &Model, pool: &[Vec<u8>], p: &Profile) -> Req {
    let cmd = CMDS[s.weighted(&p.weights)];
    if s.pct(p.wild) {
        return wild(s, cmd, pool, p);
    }
    let pick = |s: &mut Src| -> Vec<u8> {
        if s.pct(p.odd) {
            odd_key(s)
        } else {
            s.pick(pool).clone()
        }
    };
    // Prefer keys that exist, with a value that suits.
    let pick_kind = |s: &mut Src, kinds: &[u8]| -> Vec<u8> {
        if s.pct(60) {
            let fit: Vec<&Vec<u8>> =
                pool.iter().filter(|k| m.map.get(*k).map_or(false, |v| kinds.contains(&v.kind()))).collect();
            if !fit.is_empty() {
                return s.pick(&fit).to_vec();
            }
        }
        pick(s)
    };
    let kind_of = |k: &[u8]| m.map.get(k).map(Val::kind);
    // A requested type: none, the one that is stored, or any.
    let kt = |s: &mut Src, k: &[u8], kinds: &[u8]| -> Option<u8> {
        match s.weighted(&[40, 35, 15, 10]) {
            0 => None,
            1 => kind_of(k).or_else(|| Some(*s.pick(kinds))),
            2 => Some(*s.pick(kinds)),
            _ => Some(s.below(8) as u8),
        }
    };
    let extra = |s: &mut Src, mut args: Vec<Vec<u8>>| {
        if s.pct(3) {
            args.push(blob(s, Size::Small));
        }
        args
    };
    const ALL: [u8; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    match cmd {
        0 | 1 => {
            let k = pick_kind(s, &[2, 3]);
            let t = kt(s, &k, &[2, 3]);
            Req::new(cmd, t, extra(s, vec![k]))
        }
        2 | 3 => {
            let k = pick_kind(s, &[2, 3]);
            let t = kt(s, &k, &[2, 3]);
            let kind = t.or(kind_of(&k)).unwrap_or(3);
            let a = args_of(s, if kind == 2 { 2 } else { 3 }, 1, p.size).remove(0);
            Req::new(cmd, t, extra(s, vec![k, a]))
        }
        10 => {
            let k = pick(s);
            let t = if s.pct(25) { None } else { Some(s.below(8) as u8) };
            let kind = t.or(kind_of(&k)).unwrap_or(0);
            let mut args = vec![k];
            if !s.pct(2) {
                args.extend(args_of(s, kind, 254, p.size));
            }
            Req::new(cmd, t, args)
        }
        20 => {
            let k = pick_kind(s, &[0, 4, 5]);
            let t = kt(s, &k, &[0, 4, 5]);
            let kind = t.or(kind_of(&k)).unwrap_or(0);
            let n = match s.weighted(&[60, 20, 10, 2]) {
                0 => 1,
                1 => s.range(2, 5),
                2 => items(s, 254),
                _ => 0,
            };
            let mut args = vec![k];
            for _ in 0..n {
                args.push(match kind {
                    4 if n <= 8 && s.pct(90) => args_of(s, 4, 1, p.size).remove(0),
                    _ if n > 8 => item(s, true),
                    _ => blob(s, p.size),
                });
            }
            Req::new(cmd, t, args)
        }
        21 => {
            let k = pick_kind(s, &[0, 4, 5, 6, 7]);
            let t = kt(s, &k, &[0, 4, 5, 6, 7]);
            Req::new(cmd, t, extra(s, vec![k]))
        }
        22 => {
            let k = pick_kind(s, &[6]);
            let t = kt(s, &k, &[6]);
            Req::new(cmd, t, extra(s, vec![k]))
        }
        11 => {
            let k = pick_kind(s, &ALL);
            let t = kt(s, &k, &ALL);
            Req::new(cmd, t, extra(s, vec![k]))
        }
        12 | 16 => {
            let k = pick_kind(s, &ALL);
            let t = if s.pct(8) { Some(s.below(8) as u8) } else { None };
            Req::new(cmd, t, extra(s, vec![k]))
        }
        15 => {
            let k = pick_kind(s, &ALL);
            let t = if s.pct(5) { Some(s.below(8) as u8) } else { None };
            let mut args = vec![k];
            if !s.pct(3) {
                args.push(pick(s));
            }
            Req::new(cmd, t, extra(s, args))
        }
        13 | 14 => {
            let n = match s.weighted(&[40, 40, 10, 2]) {
                0 => 1,
                1 => s.range(2, 4),
                2 => items(s, 255),
                _ => 0,
            };
            // Mostly keys for which it holds, so that both answers are common.
            let kind = s.below(8) as u8;
            let kind = if s.bool() { kind } else { pool.first().and_then(|k| kind_of(k)).unwrap_or(kind) };
            let fit: Vec<&Vec<u8>> = pool
                .iter()
                .filter(|k| match kind_of(k) {
                    Some(v) => cmd == 13 || v == kind,
                    None => false,
                })
                .collect();
            let spoil = if s.pct(40) && n > 0 { Some(s.below(n)) } else { None };
            let args = (0..n)
                .map(|i| {
                    if Some(i) != spoil && !fit.is_empty() {
                        s.pick(&fit).to_vec()
                    } else {
                        pick(s)
                    }
                })
                .collect();
            let t = if cmd == 14 {
                if s.pct(3) {
                    None
                } else {
                    Some(kind)
                }
            } else if s.pct(4) {
                Some(kind)
            } else {
                None
            };
            Req::new(cmd, t, args)
        }
        100 => {
            let n = if s.pct(10) { 0 } else { items(s, 255) };
            let args = (0..n).map(|_| item(s, n > 8)).collect();
            let t = if s.pct(10) { Some(s.below(8) as u8) } else { None };
            Req::new(cmd, t, args)
        }
        _ => Req::new(cmd, if s.pct(8) { Some(s.below(8) as u8) } else { None }, vec![]),
    }
}

/// Any request whatsoever.
pub fn wild(s: &mut Src, cmd: u8, pool: &[Vec<u8>], p: &Profile) -> Req {
    let kt = if s.bool() { Some(s.below(8) as u8) } else { None };
    if cmd == 101 {
        return Req::new(cmd, kt, vec![]);
    }
    let n = match s.weighted(&[10, 30, 30, 15, 5, 2]) {
        5 => *s.pick(&[127, 128, 129, 200, 253, 254, 255]),
        4 => s.range(4, 20),
        n => n,
    };
    let args = (0..n)
        .map(|i| match s.weighted(&[if i < 2 { 60 } else { 20 }, 10, 20, 10, 10]) {
            0 => s.pick(pool).clone(),
            1 => odd_key(s),
            2 => {
                if n > 20 {
                    item(s, true)
                } else {
                    blob(s, p.size)
                }
            }
            3 => int(s).to_be_bytes().to_vec(),
            _ => {
                let k = s.below(5) as u8;
                args_of(s, k, 1, Size::Small).remove(0)
            }
        })
        .collect();
    Req::new(cmd, kt, args)
}

/// Every key a request could possibly touch.
pub fn universe(m: &mut BTreeSet<Vec<u8>>, req: &Req) {
    for a in req.args.iter().take(4) {
        if !a.is_empty() && a.len() < 2000 {
            m.insert(a.clone());
        }
    }
}
