//! The reference model: a sequential store of typed values.

use crate::{codec, show, show_all};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Val {
    Bytes(Vec<u8>),
    Bool(bool),
    /// A float, and whether its exact bits are known. The payload of a NaN and the sign of a zero that come out of
    /// arithmetic aren't specified.
    Float(f64, bool),
    Int(i64),
    Str(String),
    List(Vec<Vec<u8>>),
    Map(BTreeMap<Vec<u8>, Vec<u8>>),
    Set(BTreeSet<Vec<u8>>),
}

impl Val {
    pub fn kind(&self) -> u8 {
        match self {
            Val::Bytes(_) => 0,
            Val::Bool(_) => 1,
            Val::Float(..) => 2,
            Val::Int(_) => 3,
            Val::Str(_) => 4,
            Val::List(_) => 5,
            Val::Map(_) => 6,
            Val::Set(_) => 7,
        }
    }

    /// Whether an observed value is this one.
    pub fn same(&self, got: &Val) -> bool {
        match (self, got) {
            (Val::Bytes(a), Val::Bytes(b)) => a == b,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Float(a, exact), Val::Float(b, exact2)) => {
                a.to_bits() == b.to_bits()
                    || (!(*exact && *exact2) && ((a.is_nan() && b.is_nan()) || (*a == 0.0 && *b == 0.0)))
            }
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::List(a), Val::List(b)) => a == b,
            (Val::Map(a), Val::Map(b)) => a == b,
            (Val::Set(a), Val::Set(b)) => a == b,
            _ => false,
        }
    }

    pub fn show(&self) -> String {
        match self {
            Val::Bytes(b) => format!("bytes {}", show(b)),
            Val::Bool(b) => format!("bool {}", b),
            Val::Float(f, _) => format!("float {:?} ({:016x})", f, f.to_bits()),
            Val::Int(i) => format!("int {}", i),
            Val::Str(s) => format!("str {}", show(s.as_bytes())),
            Val::List(l) => format!("list [{}] of {}", show_all(l), l.len()),
            Val::Map(m) => {
                let items: Vec<_> = m.iter().take(6).map(|(k, v)| format!("{}: {}", show(k), show(v))).collect();
                format!("map {{{}}} of {}", items.join(", "), m.len())
            }
            Val::Set(s) => {
                let items: Vec<_> = s.iter().take(6).map(|k| show(k)).collect();
                format!("set {{{}}} of {}", items.join(", "), s.len())
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub cmd: u8,
    pub kt: Option<u8>,
    pub args: Vec<Vec<u8>>,
}

impl Req {
    pub fn new(cmd: u8, kt: Option<u8>, args: Vec<Vec<u8>>) -> Self {
        Req { cmd, kt, args }
    }
    pub fn show(&self) -> String {
        let kt = self.kt.map_or(String::new(), |k| format!(":{}", codec::KEY_TYPES.get(k as usize).unwrap_or(&"?")));
        format!("{}{} [{}]", codec::cmd_name(self.cmd), kt, show_all(&self.args))
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Val(Val),
    /// A list in any order.
    Unordered(Vec<Vec<u8>>),
    Err(u8),
}

impl Out {
    pub fn matches(&self, got: &Out) -> bool {
        match (self, got) {
            (Out::Val(a), Out::Val(b)) => a.same(b),
            (Out::Unordered(a), Out::Val(Val::List(b))) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.sort();
                b.sort();
                a == b
            }
            (Out::Err(a), Out::Err(b)) => a == b,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Val(v) => v.show(),
            Out::Unordered(l) => format!("list (any order) [{}] of {}", show_all(l), l.len()),
            Out::Err(e) => format!("error {}", codec::ERRORS.get(*e as usize).unwrap_or(&"?")),
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}

pub const ARG: u8 = 0;
pub const KEY_UNSPECIFIED: u8 = 1;
pub const TYPE_DIFFERENT: u8 = 2;
pub const TYPE_UNEXPECTED: u8 = 3;
pub const PRECONDITION: u8 = 4;
pub const NONEXISTENT: u8 = 5;
pub const TYPE_REQUIRED: u8 = 6;
pub const TYPE_INVALID: u8 = 7;

pub const RESERVED: &[u8] = b"__hop__:";

pub fn reserved(key: &[u8]) -> bool {
    key.starts_with(RESERVED)
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub map: BTreeMap<Vec<u8>, Val>,
    pub ok: u64,
    pub errored: u64,
    pub started: u64,
    pub ended: u64,
}

fn keys_of(cmd: u8) -> usize {
    match cmd {
        13 | 14 | 100 | 101 => 0,
        15 => 2,
        _ => 1,
    }
}

fn first8(a: &[u8]) -> Option<[u8; 8]> {
    let mut r = [0; 8];
    r.copy_from_slice(a.get(..8)?);
    Some(r)
}

impl Model {
    pub fn exec(&mut self, req: &Req) -> Out {
        let out = match self.inner(req) {
            Ok(out) => {
                self.ok += 1;
                out
            }
            Err(e) => {
                self.errored += 1;
                Out::Err(e)
            }
        };
        out
    }

    fn inner(&mut self, req: &Req) -> Result<Out, u8> {
        for k in req.args.iter().take(keys_of(req.cmd)) {
            if k.is_empty() {
                return Err(KEY_UNSPECIFIED);
            }
            if reserved(k) {
                return Err(PRECONDITION);
            }
        }
        let key = || req.args.first().cloned().ok_or(KEY_UNSPECIFIED);
        let stored = |m: &Model, k: &[u8]| m.map.get(k).map(Val::kind);
        match req.cmd {
            0 => self.add(key()?, req.kt, 1, 1.0),
            1 => self.add(key()?, req.kt, -1, -1.0),
            2 | 3 => {
                let key = key()?;
                let raw = req.args.get(1).and_then(|a| first8(a)).ok_or(ARG)?;
                let (i, f) = (i64::from_be_bytes(raw), f64::from_be_bytes(raw));
                if req.cmd == 2 {
                    self.add(key, req.kt, i, f)
                } else {
                    self.add(key, req.kt, 0i64.wrapping_sub(i), -f)
                }
            }
            10 => {
                let key = key()?;
                let arg = req.args.get(1).ok_or(ARG)?;
                let kind = req.kt.or(stored(self, &key)).unwrap_or(0);
                let val = match kind {
                    0 => Val::Bytes(arg.clone()),
                    1 => Val::Bool(*arg.first().ok_or(ARG)? > 0),
                    2 => Val::Float(f64::from_be_bytes(first8(arg).ok_or(ARG)?), true),
                    3 => Val::Int(i64::from_be_bytes(first8(arg).ok_or(ARG)?)),
                    4 => Val::Str(String::from_utf8(arg.clone()).map_err(|_| ARG)?),
                    5 => Val::List(req.args[1..].to_vec()),
                    6 => {
                        let mut m = BTreeMap::new();
                        for p in req.args[1..].chunks_exact(2) {
                            if p[0].len() > 255 {
                                return Err(ARG);
                            }
                            m.insert(p[0].clone(), p[1].clone());
                        }
                        Val::Map(m)
                    }
                    _ => {
                        if req.args[1..].iter().any(|a| a.len() > 65535) {
                            return Err(ARG);
                        }
                        Val::Set(req.args[1..].iter().cloned().collect())
                    }
                };
                self.map.insert(key, val.clone());
                Ok(Out::Val(val))
            }
            11 => {
                let v = self.map.get(&key()?).ok_or(NONEXISTENT)?;
                if req.kt.map_or(false, |k| k != v.kind()) {
                    return Err(TYPE_DIFFERENT);
                }
                Ok(Out::Val(v.clone()))
            }
            12 => {
                if req.kt.is_some() {
                    return Err(TYPE_UNEXPECTED);
                }
                let key = key()?;
                self.map.remove(&key).ok_or(PRECONDITION)?;
                Ok(Out::Val(Val::Bytes(key)))
            }
            13 => {
                if req.kt.is_some() {
                    return Err(TYPE_UNEXPECTED);
                }
                if req.args.is_empty() {
                    return Err(ARG);
                }
                Ok(Out::Val(Val::Bool(req.args.iter().all(|k| self.map.contains_key(k)))))
            }
            14 => {
                let kt = req.kt.ok_or(TYPE_REQUIRED)?;
                if req.args.is_empty() {
                    return Err(ARG);
                }
                Ok(Out::Val(Val::Bool(req.args.iter().all(|k| stored(self, k) == Some(kt)))))
            }
            15 => {
                if req.kt.is_some() {
                    return Err(TYPE_UNEXPECTED);
                }
                let from = key()?;
                let to = req.args.get(1).ok_or(ARG)?;
                if !self.map.contains_key(&from) {
                    return Err(NONEXISTENT);
                }
                if self.map.contains_key(to) {
                    return Err(PRECONDITION);
                }
                if let Some(v) = self.map.remove(&from) {
                    self.map.insert(to.clone(), v);
                }
                Ok(Out::Val(Val::Bytes(to.clone())))
            }
            16 => {
                let key = key()?;
                if req.kt.is_some() {
                    return Err(TYPE_UNEXPECTED);
                }
                Ok(Out::Val(Val::Int(stored(self, &key).ok_or(NONEXISTENT)? as i64)))
            }
            20 => {
                let key = key()?;
                if req.args.len() < 2 {
                    return Err(ARG);
                }
                let kind = req.kt.or(stored(self, &key)).unwrap_or(0);
                if kind == 4 && req.args[1..].iter().any(|a| std::str::from_utf8(a).is_err()) {
                    return Err(ARG);
                }
                if !matches!(kind, 0 | 4 | 5) || stored(self, &key).map_or(false, |s| s != kind) {
                    return Err(TYPE_DIFFERENT);
                }
                let args = &req.args[1..];
                if let Some(Val::List(l)) = self.map.get(&key) {
                    if l.len() + args.len() > 65535 {
                        return Err(PRECONDITION);
                    }
                }
                let v = self.map.entry(key).or_insert_with(|| match kind {
                    0 => Val::Bytes(Vec::new()),
                    4 => Val::Str(String::new()),
                    _ => Val::List(Vec::new()),
                });
                match v {
                    Val::Bytes(b) => args.iter().for_each(|a| b.extend_from_slice(a)),
                    Val::Str(s) => args.iter().filter_map(|a| std::str::from_utf8(a).ok()).for_each(|a| s.push_str(a)),
                    Val::List(l) => l.extend(args.iter().cloned()),
                    _ => {}
                }
                Ok(Out::Val(v.clone()))
            }
            21 => {
                let key = key()?;
                let kind = req.kt.or(stored(self, &key)).unwrap_or(0);
                if !matches!(kind, 0 | 4 | 5 | 6 | 7) {
                    return Err(TYPE_INVALID);
                }
                let v = self.map.get(&key).ok_or(NONEXISTENT)?;
                if v.kind() != kind {
                    return Err(TYPE_DIFFERENT);
                }
                let n = match v {
                    Val::Bytes(b) => b.len(),
                    Val::Str(s) => s.chars().count(),
                    Val::List(l) => l.len(),
                    Val::Map(m) => m.len(),
                    Val::Set(s) => s.len(),
                    _ => 0,
                };
                Ok(Out::Val(Val::Int(n as i64)))
            }
            22 => {
                let key = key()?;
                if req.kt.or(stored(self, &key)).unwrap_or(6) != 6 {
                    return Err(TYPE_INVALID);
                }
                match self.map.get(&key).ok_or(NONEXISTENT)? {
                    Val::Map(m) => Ok(Out::Unordered(m.keys().cloned().collect())),
                    _ => Err(TYPE_DIFFERENT),
                }
            }
            100 => Ok(Out::Val(Val::List(req.args.clone()))),
            _ => {
                if req.kt.is_some() {
                    return Err(TYPE_UNEXPECTED);
                }
                Ok(Out::Val(Val::Map(self.stats())))
            }
        }
    }

    /// The counters that exist, with their values in eight bytes.
    pub fn stats(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (name, n) in [
            ("commands_errored", self.errored),
            ("commands_successful", self.ok),
            ("sessions_ended", self.ended),
            ("sessions_started", self.started),
        ] {
            if n > 0 {
                m.insert(name.as_bytes().to_vec(), (n as i64).to_be_bytes().to_vec());
            }
        }
        m
    }

    fn add(&mut self, key: Vec<u8>, kt: Option<u8>, i: i64, f: f64) -> Result<Out, u8> {
        let float = kt == Some(2);
        match self.map.get_mut(&key) {
            None => {
                let v = if float { Val::Float(0.0 + f, false) } else { Val::Int(i) };
                self.map.insert(key, v.clone());
                Ok(Out::Val(v))
            }
            Some(v @ Val::Float(..)) if float || kt.is_none() => {
                if let Val::Float(old, exact) = v {
                    *old += f;
                    *exact = false;
                }
                Ok(Out::Val(v.clone()))
            }
            Some(v @ Val::Int(_)) if !float => {
                if let Val::Int(old) = v {
                    *old = old.wrapping_add(i);
                }
                Ok(Out::Val(v.clone()))
            }
            Some(_) => Err(TYPE_DIFFERENT),
        }
    }
}
