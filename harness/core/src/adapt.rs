//! Between the model's types and those of the engine.

use hop_engine::{
    command::{
        request::{Context, RequestBuilder},
        response::Response,
        CommandId, DispatchError, Request,
    },
    dashmap::{DashMap, DashSet},
    state::{KeyType, Value},
    Hop,
};
use pbt::{
    codec::{self, Resp},
    model::{Out, Req, Val},
    Src,
};
use std::convert::TryFrom;

pub fn to_val(v: &Value) -> Val {
    match v {
        Value::Bytes(b) => Val::Bytes(b.clone()),
        Value::Boolean(b) => Val::Bool(*b),
        Value::Float(f) => Val::Float(*f, true),
        Value::Integer(i) => Val::Int(*i),
        Value::String(s) => Val::Str(s.clone()),
        Value::List(l) => Val::List(l.clone()),
        Value::Map(m) => Val::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect()),
        Value::Set(s) => Val::Set(s.iter().map(|r| r.key().clone()).collect()),
    }
}

pub fn to_value(v: &Val) -> Value {
    match v {
        Val::Bytes(b) => Value::Bytes(b.clone()),
        Val::Bool(b) => Value::Boolean(*b),
        Val::Float(f, _) => Value::Float(*f),
        Val::Int(i) => Value::Integer(*i),
        Val::Str(s) => Value::String(s.clone()),
        Val::List(l) => Value::List(l.clone()),
        Val::Map(m) => {
            let map = DashMap::new();
            for (k, v) in m {
                map.insert(k.clone(), v.clone());
            }
            Value::Map(map)
        }
        Val::Set(s) => {
            let set = DashSet::new();
            for k in s {
                set.insert(k.clone());
            }
            Value::Set(set)
        }
    }
}

/// Compare a stored value without copying it.
pub fn same(expect: &Val, got: &Value) -> bool {
    match (expect, got) {
        (Val::Bytes(a), Value::Bytes(b)) => a == b,
        (Val::Str(a), Value::String(b)) => a == b,
        (Val::List(a), Value::List(b)) => a == b,
        (Val::Map(a), Value::Map(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |r| r.value() == v)) && b.iter().count() == a.len()
        }
        (Val::Set(a), Value::Set(b)) => {
            a.len() == b.len() && a.iter().all(|k| b.contains(k)) && b.iter().count() == a.len()
        }
        (a, b) => a.same(&to_val(b)),
    }
}

pub fn command(id: u8) -> CommandId {
    // Not through the conversion from numbers, which is itself under test.
    use CommandId::*;
    [
        (0, Increment), (1, Decrement), (2, IncrementBy), (3, DecrementBy), (10, Set), (11, Get), (12, Delete),
        (13, Exists), (14, Is), (15, Rename), (16, Type), (20, Append), (21, Length), (22, Keys), (100, Echo),
        (101, Stats),
    ]
    .iter()
    .find(|c| c.0 == id)
    .map(|c| c.1)
    .expect("a command")
}

pub fn key_type(id: u8) -> KeyType {
    use KeyType::*;
    [Bytes, Boolean, Float, Integer, String, List, Map, Set][id as usize]
}

pub fn error_id(e: DispatchError) -> u8 {
    use DispatchError::*;
    match e {
        ArgumentRetrieval => 0,
        KeyUnspecified => 1,
        KeyTypeDifferent => 2,
        KeyTypeUnexpected => 3,
        PreconditionFailed => 4,
        KeyNonexistent => 5,
        KeyTypeRequired => 6,
        KeyTypeInvalid => 7,
    }
}

pub fn error(id: u8) -> DispatchError {
    use DispatchError::*;
    [
        ArgumentRetrieval, KeyUnspecified, KeyTypeDifferent, KeyTypeUnexpected, PreconditionFailed, KeyNonexistent,
        KeyTypeRequired, KeyTypeInvalid,
    ][id as usize]
}

pub fn to_resp(r: &Response) -> Resp {
    match r {
        Response::Value(v) => Resp::Val(to_val(v)),
        Response::DispatchError(e) => Resp::Dispatch(error_id(*e)),
        Response::ParseError(e) => Resp::Parse(match e {
            hop_engine::command::request::ParseError::CommandIdInvalid => 0,
            hop_engine::command::request::ParseError::KeyTypeInvalid => 1,
        }),
    }
}

pub fn resp_same(a: &Resp, b: &Resp) -> bool {
    match (a, b) {
        (Resp::Val(a), Resp::Val(b)) => a.same(b),
        (Resp::Dispatch(a), Resp::Dispatch(b)) => a == b,
        (Resp::Parse(a), Resp::Parse(b)) => a == b,
        _ => false,
    }
}

/// How a request reaches the engine.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    Builder,
    Parser,
}

pub fn builder(req: &Req) -> Option<RequestBuilder> {
    if req.args.iter().any(|a| a.is_empty()) || req.args.len() > 255 {
        return None;
    }
    let mut b = match req.kt {
        Some(k) => RequestBuilder::new_with_key_type(command(req.cmd), key_type(k)),
        None => RequestBuilder::new(command(req.cmd)),
    };
    for a in &req.args {
        if b.bytes(a.clone()).is_err() {
            return None;
        }
    }
    Some(b)
}

/// Perform something with the request, or return why it couldn't be made.
pub fn with_request<T>(req: &Req, route: Route, f: impl FnOnce(&Request) -> T) -> Result<T, String> {
    if route == Route::Builder {
        if let Some(b) = builder(req) {
            return Ok(f(&b.into_request()));
        }
    }
    let bytes = codec::encode(req);
    let mut ctx = Context::new();
    let r = match ctx.feed(&bytes) {
        Ok(Some(r)) => Ok(f(&r)),
        Ok(None) => Err("the parser wants more than the whole request".to_string()),
        Err(e) => Err(format!("the parser rejects the request: {:?}", e)),
    };
    r
}

pub enum Answer {
    Out(Out),
    /// The answer is no answer at all.
    Malformed(String),
    /// The request couldn't be made.
    Undelivered(String),
}

/// Dispatch a request, appending the response to a buffer that already has something in it.
pub fn dispatch(hop: &Hop, req: &Req, route: Route, prefix: &[u8]) -> Answer {
    let mut buf = prefix.to_vec();
    let result = match with_request(req, route, |r| hop.dispatch(r, &mut buf)) {
        Ok(r) => r,
        Err(e) => return Answer::Undelivered(e),
    };
    if buf.len() < prefix.len() || &buf[..prefix.len()] != prefix {
        return Answer::Malformed("what was in the response buffer before has changed".into());
    }
    let resp = &buf[prefix.len()..];
    match result {
        Err(e) => {
            if !resp.is_empty() {
                return Answer::Malformed(format!("fails with {:?} but writes {}", e, pbt::show(resp)));
            }
            Answer::Out(Out::Err(error_id(e)))
        }
        Ok(()) => match codec::decode_resp(resp) {
            None => Answer::Malformed(format!("incomplete response {}", pbt::show(resp))),
            Some(Err(e)) => Answer::Malformed(format!("malformed response {}: {}", pbt::show(resp), e)),
            Some(Ok((r, n))) => {
                if n != resp.len() {
                    return Answer::Malformed(format!("{} bytes after the response", resp.len() - n));
                }
                match r.out() {
                    Some(Out::Val(v)) => Answer::Out(Out::Val(v)),
                    _ => Answer::Malformed("succeeds but writes an error".into()),
                }
            }
        },
    }
}

pub fn prefix(s: &mut Src) -> Vec<u8> {
    if s.pct(15) {
        let n = s.range(1, 12);
        (0..n).map(|_| s.choice(255) as u8).collect()
    } else {
        Vec::new()
    }
}

pub fn new_hop(s: &mut Src) -> Hop {
    match s.weighted(&[80, 10, 10]) {
        0 => Hop::new(),
        1 => Hop::default(),
        _ => {
            let mut b = Hop::builder();
            if s.bool() {
                b.pubsub_enabled(s.bool());
            }
            if s.bool() {
                b.sessions_active_max(*s.pick(&[0, 1, 2, 10, usize::MAX]));
            }
            b.build()
        }
    }
}

#[allow(dead_code)]
pub fn command_try(n: u8) -> Option<CommandId> {
    CommandId::try_from(n).ok()
}
