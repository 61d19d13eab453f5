//! The wire format of requests and responses, written from its description and independent of the code under test.

use crate::model::{Out, Req, Val};
use std::collections::{BTreeMap, BTreeSet};

pub const COMMANDS: [(u8, &str); 16] = [
    (0, "increment"), (1, "decrement"), (2, "increment:by"), (3, "decrement:by"), (10, "set"), (11, "get"),
    (12, "delete"), (13, "exists"), (14, "is"), (15, "rename"), (16, "type"), (20, "append"), (21, "length"),
    (22, "keys"), (100, "echo"), (101, "stats"),
];
pub const KEY_TYPES: [&str; 8] = ["bytes", "boolean", "float", "integer", "string", "list", "map", "set"];
pub const ERRORS: [&str; 8] = [
    "ArgumentRetrieval", "KeyUnspecified", "KeyTypeDifferent", "KeyTypeUnexpected", "PreconditionFailed",
    "KeyNonexistent", "KeyTypeRequired", "KeyTypeInvalid",
];

pub fn cmd_name(id: u8) -> &'static str {
    COMMANDS.iter().find(|c| c.0 == id).map_or("?", |c| c.1)
}

/// Commands that have neither keys nor arguments don't carry a count of arguments.
pub fn simple(cmd: u8) -> bool {
    cmd == 101
}

pub fn encode(req: &Req) -> Vec<u8> {
    let mut out = Vec::new();
    out.push(req.cmd | if req.kt.is_some() { 0x80 } else { 0 });
    out.extend(req.kt);
    if simple(req.cmd) {
        return out;
    }
    out.push(req.args.len() as u8);
    for a in &req.args {
        out.extend_from_slice(&(a.len() as u32).to_be_bytes());
        out.extend_from_slice(a);
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed {
    /// The request and the number of bytes it takes.
    Done(Req, usize),
    More,
    BadCommand,
    BadKeyType,
}

/// Parse the request at the start of some bytes.
pub fn decode_req(b: &[u8]) -> Parsed {
    let first = match b.first() {
        Some(f) => *f,
        None => return Parsed::More,
    };
    let cmd = first & 0x7f;
    if !COMMANDS.iter().any(|c| c.0 == cmd) {
        return Parsed::BadCommand;
    }
    let mut at = 1;
    let mut kt = None;
    if first & 0x80 != 0 {
        match b.get(1) {
            None => return Parsed::More,
            Some(k) if *k > 7 => return Parsed::BadKeyType,
            Some(k) => kt = Some(*k),
        }
        at = 2;
    }
    if simple(cmd) {
        return Parsed::Done(Req { cmd, kt, args: vec![] }, at);
    }
    let count = match b.get(at) {
        None => return Parsed::More,
        Some(c) => *c,
    };
    at += 1;
    let mut args = Vec::new();
    for _ in 0..count {
        if b.len() < at + 4 {
            return Parsed::More;
        }
        let len = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
        at += 4;
        if b.len() - at < len {
            return Parsed::More;
        }
        args.push(b[at..at + len].to_vec());
        at += len;
    }
    Parsed::Done(Req { cmd, kt, args }, at)
}

/// A response, as it is on the wire.
#[derive(Clone, Debug)]
pub enum Resp {
    Val(Val),
    Dispatch(u8),
    Parse(u8),
}

impl Resp {
    pub fn out(self) -> Option<Out> {
        match self {
            Resp::Val(v) => Some(Out::Val(v)),
            Resp::Dispatch(e) => Some(Out::Err(e)),
            Resp::Parse(_) => None,
        }
    }
}

struct Rd<'a>(&'a [u8]);

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{} bytes left in the message but {} are needed", self.0.len(), n));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, n: usize) -> Result<usize, String> {
        Ok(self.take(n)?.iter().fold(0, |v, b| v << 8 | *b as usize))
    }
    fn arr8(&mut self) -> Result<[u8; 8], String> {
        let mut a = [0; 8];
        a.copy_from_slice(self.take(8)?);
        Ok(a)
    }
}

/// Strictly decode the response at the start of some bytes, returning the number of bytes it takes.
///
/// Returns nothing if the bytes end before the length in the header.
pub fn decode_resp(b: &[u8]) -> Option<Result<(Resp, usize), String>> {
    if b.len() < 4 {
        return None;
    }
    let len = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if b.len() - 4 < len {
        return None;
    }
    let mut rd = Rd(&b[4..4 + len]);
    let r = body(&mut rd).and_then(|r| {
        if rd.0.is_empty() {
            Ok((r, 4 + len))
        } else {
            Err(format!("the message is {} bytes longer than its content", rd.0.len()))
        }
    });
    Some(r)
}

fn body(rd: &mut Rd) -> Result<Resp, String> {
    let kind = rd.num(1)?;
    Ok(Resp::Val(match kind {
        0 => match rd.num(1)? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            n => return Err(format!("boolean byte {}", n)),
        },
        1 => {
            let n = rd.num(4)?;
            Val::Bytes(rd.take(n)?.to_vec())
        }
        2 => Val::Float(f64::from_be_bytes(rd.arr8()?), true),
        3 => Val::Int(i64::from_be_bytes(rd.arr8()?)),
        4 => {
            let n = rd.num(2)?;
            let mut l = Vec::new();
            for _ in 0..n {
                let n = rd.num(4)?;
                l.push(rd.take(n)?.to_vec());
            }
            Val::List(l)
        }
        5 => {
            let n = rd.num(2)?;
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let n = rd.num(1)?;
                let k = rd.take(n)?.to_vec();
                let n = rd.num(4)?;
                if m.insert(k, rd.take(n)?.to_vec()).is_some() {
                    return Err("duplicate key in a map".into());
                }
            }
            Val::Map(m)
        }
        6 => {
            let n = rd.num(2)?;
            let mut s = BTreeSet::new();
            for _ in 0..n {
                let n = rd.num(2)?;
                if !s.insert(rd.take(n)?.to_vec()) {
                    return Err("duplicate item in a set".into());
                }
            }
            Val::Set(s)
        }
        7 => {
            let n = rd.num(4)?;
            Val::Str(String::from_utf8(rd.take(n)?.to_vec()).map_err(|_| "string isn't UTF-8".to_string())?)
        }
        8 => {
            let n = rd.num(1)? as u8;
            if n > 1 {
                return Err(format!("parse error {}", n));
            }
            return Ok(Resp::Parse(n));
        }
        9 => {
            let n = rd.num(1)? as u8;
            if n > 7 {
                return Err(format!("dispatch error {}", n));
            }
            return Ok(Resp::Dispatch(n));
        }
        n => return Err(format!("response type {}", n)),
    }))
}

/// Encode a response. Maps and sets are written in order.
pub fn encode_resp(r: &Resp) -> Vec<u8> {
    let mut b = vec![0; 4];
    match r {
        Resp::Parse(e) => b.extend([8, *e]),
        Resp::Dispatch(e) => b.extend([9, *e]),
        Resp::Val(v) => match v {
            Val::Bool(v) => b.extend([0, *v as u8]),
            Val::Bytes(v) => {
                b.push(1);
                b.extend((v.len() as u32).to_be_bytes());
                b.extend(v);
            }
            Val::Float(f, _) => {
                b.push(2);
                b.extend(f.to_be_bytes());
            }
            Val::Int(i) => {
                b.push(3);
                b.extend(i.to_be_bytes());
            }
            Val::List(l) => {
                b.push(4);
                b.extend((l.len() as u16).to_be_bytes());
                for i in l {
                    b.extend((i.len() as u32).to_be_bytes());
                    b.extend(i);
                }
            }
            Val::Map(m) => {
                b.push(5);
                b.extend((m.len() as u16).to_be_bytes());
                for (k, v) in m {
                    b.push(k.len() as u8);
                    b.extend(k);
                    b.extend((v.len() as u32).to_be_bytes());
                    b.extend(v);
                }
            }
            Val::Set(s) => {
                b.push(6);
                b.extend((s.len() as u16).to_be_bytes());
                for i in s {
                    b.extend((i.len() as u16).to_be_bytes());
                    b.extend(i);
                }
            }
            Val::Str(s) => {
                b.push(7);
                b.extend((s.len() as u32).to_be_bytes());
                b.extend(s.as_bytes());
            }
        },
    }
    let len = (b.len() - 4) as u32;
    b[..4].copy_from_slice(&len.to_be_bytes());
    b
}
