//! A dictionary of the literals of the source code under test.
//!
//! Literals which aren't in the dictionary of the tree this was developed against are "hot", and are drawn more often.

use std::{collections::BTreeSet, fs, path::Path};

#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub strs: Vec<Vec<u8>>,
    pub ints: Vec<i128>,
    pub hot_strs: Vec<Vec<u8>>,
    pub hot_ints: Vec<i128>,
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = fs::read_dir(dir) {
        let mut entries: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        entries.sort();
        for p in entries {
            if p.is_dir() {
                if p.file_name().map_or(false, |n| n == "target" || n == ".git") {
                    continue;
                }
                walk(&p, out);
            } else if p.extension().map_or(false, |e| e == "rs") {
                out.push(p);
            }
        }
    }
}

pub fn literals(src: &str, strs: &mut BTreeSet<Vec<u8>>, ints: &mut BTreeSet<i128>) {
    let src = match src.find("#[cfg(test)]\nmod tests") {
        Some(i) => &src[..i],
        None => src,
    };
    let b = src.as_bytes();
    let mut i = 0;
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            i += 1;
            let mut s = Vec::new();
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        b'n' => s.push(b'\n'),
                        b'r' => s.push(b'\r'),
                        b't' => s.push(b'\t'),
                        b'0' => s.push(0),
                        b'x' if i + 2 < b.len() => {
                            if let Ok(v) = u8::from_str_radix(&src[i + 1..i + 3], 16) {
                                s.push(v);
                            }
                            i += 2;
                        }
                        b'u' => {
                            let digits: String = src[i + 1..].chars().skip(1).take_while(|c| *c != '}').take(6).collect();
                            if let Some(c) = u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32) {
                                s.extend(c.to_string().bytes());
                            }
                            i += digits.len() + 2;
                        }
                        other => s.push(other),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                // The literal parts of format strings are of interest as well.
                strs.insert(s);
            }
        } else if c == b'\'' {
            // A character (or byte), or a lifetime.
            if i + 2 < b.len() && b[i + 1] != b'\\' && b[i + 2] == b'\'' {
                strs.insert(vec![b[i + 1]]);
                ints.insert(b[i + 1] as i128);
                i += 3;
            } else if i + 3 < b.len() && b[i + 1] == b'\\' {
                let mut j = i + 2;
                let v = match b[j] {
                    b'n' => Some(b'\n'),
                    b'r' => Some(b'\r'),
                    b't' => Some(b'\t'),
                    b'0' => Some(0),
                    b'x' if j + 2 < b.len() => u8::from_str_radix(&src[j + 1..j + 3], 16).ok(),
                    b'u' => {
                        let digits: String = src[j + 1..].chars().skip(1).take_while(|c| *c != '}').take(6).collect();
                        if let Some(c) = u32::from_str_radix(&digits, 16).ok().and_then(char::from_u32) {
                            strs.insert(c.to_string().into_bytes());
                        }
                        None
                    }
                    other => Some(other),
                };
                if let Some(v) = v {
                    strs.insert(vec![v]);
                    ints.insert(v as i128);
                }
                while j < b.len() && b[j] != b'\'' {
                    j += 1;
                }
                i = j + 1;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
            let start = i;
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
            let tok: String = src[start..i].chars().filter(|c| *c != '_').collect();
            let (radix, digits) = match tok.get(..2) {
                Some("0x") => (16, &tok[2..]),
                Some("0b") => (2, &tok[2..]),
                Some("0o") => (8, &tok[2..]),
                _ => (10, &tok[..]),
            };
            let end = digits
                .find(|c: char| !c.is_digit(radix))
                .unwrap_or(digits.len());
            if let Ok(v) = i128::from_str_radix(&digits[..end], radix) {
                ints.insert(v);
                // Such as 1 << 16 and 64 * 1024.
                let rest = &src[i..];
                for (op, shift) in [(" << ", true), (" * ", false)] {
                    let other: Option<u32> = rest
                        .strip_prefix(op)
                        .map(|r| r.chars().filter(|c| *c != '_').take_while(char::is_ascii_digit).collect::<String>())
                        .and_then(|d| d.parse().ok());
                    match other {
                        Some(n) if shift && n < 64 && v < 1 << 32 => {
                            ints.insert(v << n);
                        }
                        Some(n) if !shift && v < 1 << 64 => {
                            ints.insert(v * n as i128);
                        }
                        _ => {}
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

/// Every literal of the tree, one per line.
pub fn dump(repo: &str) -> String {
    let (strs, ints) = collect(repo);
    let mut out = String::new();
    for s in strs {
        out.push_str("s ");
        out.push_str(&crate::hex(&s));
        out.push('\n');
    }
    for i in ints {
        out.push_str(&format!("i {}\n", i));
    }
    out
}

fn collect(repo: &str) -> (BTreeSet<Vec<u8>>, BTreeSet<i128>) {
    let mut files = Vec::new();
    walk(Path::new(repo), &mut files);
    let (mut strs, mut ints) = (BTreeSet::new(), BTreeSet::new());
    for f in files {
        if f.components().any(|c| c.as_os_str() == "tests" || c.as_os_str() == "benches") {
            continue;
        }
        if let Ok(s) = fs::read_to_string(&f) {
            literals(&s, &mut strs, &mut ints);
        }
    }
    (strs, ints)
}

impl Dict {
    /// The dictionary of a tree, and of what is new in it.
    pub fn load(repo: &str, baseline: &str) -> Dict {
        let (strs, ints) = collect(repo);
        let (mut bs, mut bi): (BTreeSet<Vec<u8>>, BTreeSet<i128>) = Default::default();
        for line in fs::read_to_string(baseline).unwrap_or_default().lines() {
            if let Some(s) = line.strip_prefix("s ") {
                bs.insert(crate::unhex(s));
            } else if let Some(i) = line.strip_prefix("i ") {
                if let Ok(i) = i.parse() {
                    bi.insert(i);
                }
            }
        }
        let have = !bs.is_empty();
        Dict {
            hot_strs: strs.iter().filter(|s| have && !bs.contains(*s)).cloned().collect(),
            hot_ints: ints.iter().filter(|i| have && !bi.contains(*i)).copied().collect(),
            strs: strs.into_iter().collect(),
            ints: ints.into_iter().collect(),
        }
    }
}
