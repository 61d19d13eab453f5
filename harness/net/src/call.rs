//! The calls of the client: how they're generated, what they mean, and performing them.

use crate::adapt::{error_id, key_type, to_val, to_value};
use hop::{
    backend::{memory::Error as MemoryError, server::Error as ServerError, Backend},
    request::CommandConfigurationError,
    Client,
};
use hop_engine::dashmap::{DashMap, DashSet};
use pbt::{
    codec,
    gen::{self, Profile, Size},
    model::{Model, Out, Req, Val},
    show, show_all, Src,
};
use std::{collections::BTreeSet, time::Duration};

#[derive(Clone, Debug)]
pub enum Call {
    /// Through the method for the type (or its alias), or as a value.
    Set { key: Vec<u8>, val: Val, items: Vec<Vec<u8>>, form: Form },
    Get { key: Vec<u8>, kt: Option<u8>, alias: bool },
    Add { key: Vec<u8>, down: bool, by: By },
    Append { key: Vec<u8>, arg: AppendArg, alias: bool },
    Exists { keys: Vec<Vec<u8>>, single: bool },
    Is { kt: u8, keys: Vec<Vec<u8>>, single: bool },
    Type { key: Vec<u8> },
    Keys { key: Vec<u8> },
    Length { key: Vec<u8>, kt: Option<u8>, alias: bool },
    Rename { from: Vec<u8>, to: Vec<u8> },
    Delete { key: Vec<u8> },
    Echo { content: Vec<u8> },
    Stats,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Typed,
    Alias,
    Value,
}

#[derive(Clone, Debug)]
pub enum By {
    Untyped,
    Int(Option<i64>),
    Float(Option<f64>),
}

#[derive(Clone, Debug)]
pub enum AppendArg {
    Bytes(Vec<u8>),
    List(Vec<Vec<u8>>),
    Str(String),
}

/// What came of a call.
#[derive(Clone, Debug)]
pub enum Got {
    Val(Val),
    /// The type of a key.
    Kind(u8),
    /// The counters, in the order errored, successful, ended and started.
    Stats([i64; 4]),
    /// The error of a command.
    Err(u8),
    /// The call was refused before sending anything.
    Refused(String),
    /// Any other error.
    Failed(String),
    /// The server rejected the request as unparseable.
    Rejected(u8),
}

impl Got {
    pub fn show(&self) -> String {
        match self {
            Got::Val(v) => v.show(),
            Got::Kind(k) => format!("type {}", codec::KEY_TYPES.get(*k as usize).unwrap_or(&"?")),
            Got::Stats(s) => format!("stats errored {} successful {} ended {} started {}", s[0], s[1], s[2], s[3]),
            Got::Err(e) => format!("error {}", codec::ERRORS.get(*e as usize).unwrap_or(&"?")),
            Got::Refused(e) => format!("refused: {}", e),
            Got::Failed(e) => format!("failed: {}", e),
            Got::Rejected(e) => format!("rejected as unparseable ({})", e),
        }
    }
    pub fn is_error(&self) -> bool {
        matches!(self, Got::Err(_) | Got::Refused(_) | Got::Failed(_) | Got::Rejected(_))
    }
}

/// What a call is expected to come to.
#[derive(Clone, Debug)]
pub enum Want {
    Out(Out),
    Kind(u8),
    Stats([i64; 4]),
    Refused(&'static str),
}

impl Want {
    pub fn show(&self) -> String {
        match self {
            Want::Out(o) => o.show(),
            Want::Kind(k) => format!("type {}", codec::KEY_TYPES[*k as usize]),
            Want::Stats(s) => Got::Stats(*s).show(),
            Want::Refused(why) => format!("a refusal, as {}", why),
        }
    }
    pub fn matches(&self, got: &Got) -> bool {
        match (self, got) {
            (Want::Out(o), Got::Val(v)) => o.matches(&Out::Val(v.clone())),
            (Want::Out(Out::Err(e)), Got::Err(g)) => e == g,
            (Want::Kind(a), Got::Kind(b)) => a == b,
            (Want::Stats(a), Got::Stats(b)) => a == b,
            (Want::Refused(_), Got::Refused(_)) => true,
            _ => false,
        }
    }
}

fn n(i: &[u8]) -> String {
    show(i)
}

impl Call {
    pub fn show(&self) -> String {
        match self {
            Call::Set { key, val, items, form } => {
                let items = match val {
                    Val::Set(_) | Val::Map(_) if *form != Form::Value => format!(" from [{}]", show_all(items)),
                    _ => String::new(),
                };
                format!("set({}) {:?} {}{}", n(key), form, val.show(), items)
            }
            Call::Get { key, kt, alias } => format!("get({}) {:?}{}", n(key), kt.map(|k| codec::KEY_TYPES[k as usize]), if *alias { " alias" } else { "" }),
            Call::Add { key, down, by } => format!("{}({}) {:?}", if *down { "decrement" } else { "increment" }, n(key), by),
            Call::Append { key, arg, .. } => match arg {
                AppendArg::Bytes(b) => format!("append({}) bytes {}", n(key), show(b)),
                AppendArg::List(b) => format!("append({}) list [{}]", n(key), show_all(b)),
                AppendArg::Str(b) => format!("append({}) str {}", n(key), show(b.as_bytes())),
            },
            Call::Exists { keys, single } => format!("exists() {} [{}]", if *single { "key" } else { "keys" }, show_all(keys)),
            Call::Is { kt, keys, single } => {
                format!("is({}) {} [{}]", codec::KEY_TYPES[*kt as usize], if *single { "key" } else { "keys" }, show_all(keys))
            }
            Call::Type { key } => format!("key_type({})", n(key)),
            Call::Keys { key } => format!("keys({})", n(key)),
            Call::Length { key, kt, .. } => format!("length({}) {:?}", n(key), kt.map(|k| codec::KEY_TYPES[k as usize])),
            Call::Rename { from, to } => format!("rename({}, {})", n(from), n(to)),
            Call::Delete { key } => format!("delete({})", n(key)),
            Call::Echo { content } => format!("echo({})", n(content)),
            Call::Stats => "stats()".into(),
        }
    }

    /// The request that the call spells, or why it can't be sent.
    pub fn spell(&self) -> Result<Req, &'static str> {
        let req = match self {
            Call::Set { key, val, .. } => {
                let mut args = vec![key.clone()];
                match val {
                    Val::Bytes(b) => args.push(b.clone()),
                    Val::Bool(b) => args.push(vec![*b as u8]),
                    Val::Float(f, _) => args.push(f.to_be_bytes().to_vec()),
                    Val::Int(i) => args.push(i.to_be_bytes().to_vec()),
                    Val::Str(s) => args.push(s.as_bytes().to_vec()),
                    Val::List(l) => {
                        if l.is_empty() {
                            return Err("the list is empty");
                        }
                        args.extend(l.iter().cloned());
                    }
                    Val::Map(m) => {
                        if m.is_empty() {
                            return Err("the map is empty");
                        }
                        for (k, v) in m {
                            args.push(k.clone());
                            args.push(v.clone());
                        }
                    }
                    Val::Set(l) => {
                        if l.is_empty() {
                            return Err("the set is empty");
                        }
                        args.extend(l.iter().cloned());
                    }
                }
                let collection = matches!(val, Val::Map(_) | Val::Set(_));
                // The items of maps and sets may be empty.
                if key.is_empty() || (!collection && args.iter().any(|a| a.is_empty())) {
                    return Err("an argument is empty");
                }
                if args.len() > 255 {
                    return Err("there are too many arguments");
                }
                return Ok(Req::new(10, Some(val.kind()), args));
            }
            Call::Get { key, kt, .. } => Req::new(11, *kt, vec![key.clone()]),
            Call::Add { key, down, by } => match by {
                By::Untyped => Req::new(*down as u8, None, vec![key.clone()]),
                By::Int(i) => Req::new(2 + *down as u8, Some(3), vec![key.clone(), i.unwrap_or(1).to_be_bytes().to_vec()]),
                By::Float(f) => Req::new(2 + *down as u8, Some(2), vec![key.clone(), f.unwrap_or(1.0).to_be_bytes().to_vec()]),
            },
            Call::Append { key, arg, .. } => {
                let mut args = vec![key.clone()];
                let kt = match arg {
                    AppendArg::Bytes(b) => {
                        args.push(b.clone());
                        0
                    }
                    AppendArg::Str(b) => {
                        args.push(b.as_bytes().to_vec());
                        4
                    }
                    AppendArg::List(l) => {
                        args.extend(l.iter().cloned());
                        5
                    }
                };
                Req::new(20, Some(kt), args)
            }
            Call::Exists { keys, .. } => Req::new(13, None, keys.clone()),
            Call::Is { kt, keys, .. } => Req::new(14, Some(*kt), keys.clone()),
            Call::Type { key } => Req::new(16, None, vec![key.clone()]),
            Call::Keys { key } => Req::new(22, None, vec![key.clone()]),
            Call::Length { key, kt, .. } => Req::new(21, *kt, vec![key.clone()]),
            Call::Rename { from, to } => Req::new(15, None, vec![from.clone(), to.clone()]),
            Call::Delete { key } => Req::new(12, None, vec![key.clone()]),
            Call::Echo { content } => Req::new(100, None, vec![content.clone()]),
            Call::Stats => Req::new(101, None, vec![]),
        };
        if let Call::Exists { keys, .. } | Call::Is { keys, .. } = self {
            if keys.is_empty() {
                return Err("there are no keys");
            }
        }
        if req.args.iter().any(|a| a.is_empty()) {
            return Err("an argument is empty");
        }
        if req.args.len() > 255 {
            return Err("there are too many arguments");
        }
        Ok(req)
    }

    /// What the call comes to, performing it on the model.
    pub fn want(&self, m: &mut Model) -> Want {
        match self.spell() {
            Err(why) => Want::Refused(why),
            Ok(req) => {
                let before = stats_of(m);
                match (self, m.exec(&req)) {
                    (Call::Type { .. }, Out::Val(Val::Int(k))) => Want::Kind(k as u8),
                    (Call::Stats, Out::Val(_)) => {
                        let _ = before;
                        Want::Stats(before)
                    }
                    (_, out) => Want::Out(out),
                }
            }
        }
    }

    /// What the call comes to when the server answers it with a value: nothing if the value isn't of a type that can
    /// be an answer.
    pub fn accept(&self, val: &Val) -> Option<Want> {
        let kind = val.kind();
        let ok = match self {
            Call::Set { val: v, .. } => kind == v.kind(),
            Call::Get { kt, .. } => kt.map_or(true, |k| k == kind),
            Call::Add { by, .. } => match by {
                By::Untyped => kind == 2 || kind == 3,
                By::Int(_) => kind == 3,
                By::Float(_) => kind == 2,
            },
            Call::Append { arg, .. } => {
                kind == match arg {
                    AppendArg::Bytes(_) => 0,
                    AppendArg::Str(_) => 4,
                    AppendArg::List(_) => 5,
                }
            }
            Call::Exists { .. } | Call::Is { .. } => kind == 1,
            Call::Type { .. } => {
                return match val {
                    Val::Int(k) if (0..8).contains(k) => Some(Want::Kind(*k as u8)),
                    _ => None,
                }
            }
            Call::Keys { .. } | Call::Echo { .. } => kind == 5,
            Call::Length { .. } => kind == 3,
            Call::Rename { .. } | Call::Delete { .. } => kind == 0,
            Call::Stats => {
                return match val {
                    Val::Map(m) => {
                        let get = |name: &str| {
                            m.get(name.as_bytes())
                                .and_then(|v| <[u8; 8]>::try_from(v.as_slice()).ok())
                                .map_or(0, i64::from_be_bytes)
                        };
                        Some(Want::Stats([
                            get("commands_errored"),
                            get("commands_successful"),
                            get("sessions_ended"),
                            get("sessions_started"),
                        ]))
                    }
                    _ => None,
                }
            }
        };
        if ok {
            Some(Want::Out(Out::Val(val.clone())))
        } else {
            None
        }
    }
}

pub fn stats_of(m: &Model) -> [i64; 4] {
    [m.errored as i64, m.ok as i64, m.ended as i64, m.started as i64]
}

/// A call made of a request that makes sense for the state.
pub fn generate(s: &mut Src, m: &Model, pool: &[Vec<u8>], p: &Profile) -> Call {
    let req = gen::request(s, m, pool, p);
    let mut args = req.args.into_iter();
    let mut key = |s: &mut Src| args.next().unwrap_or_else(|| s.pick(pool).clone());
    match req.cmd {
        0 | 1 | 2 | 3 => {
            let down = req.cmd % 2 == 1;
            let key = key(s);
            let kind = req.kt.or_else(|| m.map.get(&key).map(Val::kind)).unwrap_or(3);
            let by = match s.weighted(&[3, 2, 5]) {
                0 => By::Untyped,
                1 if kind == 2 => By::Float(None),
                1 => By::Int(None),
                _ if kind == 2 => By::Float(Some(gen::float(s))),
                _ => By::Int(Some(gen::int(s))),
            };
            Call::Add { key, down, by }
        }
        10 => {
            let key = key(s);
            let val = gen::val(s, req.kt.unwrap_or(0), p.size);
            let form = *s.pick(&[Form::Typed, Form::Typed, Form::Alias, Form::Value]);
            // What is given to the method: any order, with repetitions.
            let mut items: Vec<Vec<u8>> = match &val {
                Val::Set(l) => l.iter().cloned().collect(),
                _ => Vec::new(),
            };
            if !items.is_empty() {
                let k = s.below(items.len());
                items.rotate_left(k);
                if s.pct(30) {
                    let again = items[s.below(items.len())].clone();
                    items.push(again);
                }
            }
            Call::Set { key, val, items, form }
        }
        11 => Call::Get { key: key(s), kt: req.kt, alias: s.bool() },
        12 => Call::Delete { key: key(s) },
        13 | 14 => {
            let mut keys = vec![key(s)];
            let single = s.pct(30);
            if !single {
                keys.extend(args);
                match s.weighted(&[94, 2, 1, 1, 2]) {
                    0 => {}
                    1 => keys.clear(),
                    2 => keys.resize(256, b"a".to_vec()),
                    3 => keys.resize(300, b"a".to_vec()),
                    _ => keys.resize(255, b"a".to_vec()),
                }
            }
            if req.cmd == 13 {
                Call::Exists { keys, single }
            } else {
                Call::Is { kt: req.kt.unwrap_or_else(|| s.below(8) as u8), keys, single }
            }
        }
        15 => {
            let from = key(s);
            Call::Rename { from, to: key(s) }
        }
        16 => Call::Type { key: key(s) },
        20 => {
            let key = key(s);
            let kind = req.kt.or_else(|| m.map.get(&key).map(Val::kind)).unwrap_or(0);
            let rest: Vec<Vec<u8>> = args.collect();
            let first = rest.first().cloned().unwrap_or_default();
            let arg = match kind {
                4 => AppendArg::Str(String::from_utf8_lossy(&first).into_owned()),
                5 => AppendArg::List(if s.pct(2) { vec![vec![1]; s.range(253, 258)] } else { rest }),
                _ => AppendArg::Bytes(first),
            };
            Call::Append { key, arg, alias: s.bool() }
        }
        21 => {
            let kt = req.kt.filter(|k| matches!(k, 0 | 4 | 5 | 6 | 7));
            Call::Length { key: key(s), kt, alias: s.bool() }
        }
        22 => Call::Keys { key: key(s) },
        100 => Call::Echo { content: key(s) },
        _ => Call::Stats,
    }
}

pub const PROFILE: Profile = Profile { weights: [6, 5, 8, 6, 30, 14, 6, 4, 5, 8, 5, 14, 8, 6, 3, 3], wild: 4, size: Size::Small, odd: 4 };

pub trait Error: std::fmt::Debug {
    fn got(self) -> Got;
}

impl Error for MemoryError {
    fn got(self) -> Got {
        match self {
            MemoryError::RunningCommand { source } => Got::Err(error_id(source)),
            MemoryError::BuildingRequest { source } => Got::Refused(format!("{:?}", source)),
            other => Got::Failed(format!("{:?}", other)),
        }
    }
}

impl Error for ServerError {
    fn got(self) -> Got {
        match self {
            ServerError::Dispatching { reason } => Got::Err(error_id(reason)),
            ServerError::BuildingRequest { source } => Got::Refused(format!("{:?}", source)),
            ServerError::BadRequest { reason } => Got::Rejected(match reason {
                hop_engine::command::request::ParseError::CommandIdInvalid => 0,
                hop_engine::command::request::ParseError::KeyTypeInvalid => 1,
            }),
            other => Got::Failed(format!("{:?}", other)),
        }
    }
}

fn map_of(m: DashMap<Vec<u8>, Vec<u8>>) -> Val {
    Val::Map(m.into_iter().collect())
}

fn set_of(m: DashSet<Vec<u8>>) -> Val {
    Val::Set(m.into_iter().collect())
}

macro_rules! done {
    ($e:expr, $f:expr) => {
        match $e.await {
            Ok(v) => $f(v),
            Err(e) => e.got(),
        }
    };
}

fn configured(e: CommandConfigurationError) -> Got {
    Got::Refused(format!("{:?}", e))
}

/// Perform a call. Keys are given as different types of things that are bytes.
pub async fn perform<B>(client: &Client<B>, call: &Call) -> Got
where
    B: Backend + Send + Sync + 'static,
    B::Error: Error,
{
    match call {
        Call::Set { key, val, items, form } => {
            let set = client.set(key.as_slice());
            let typed = *form == Form::Typed;
            if *form == Form::Value {
                return done!(set.value(to_value(val)), |v| Got::Val(to_val(&v)));
            }
            match val.clone() {
                Val::Bytes(b) => done!(set.bytes(b), |v| Got::Val(Val::Bytes(v))),
                Val::Bool(b) if typed => done!(set.bool(b), |v| Got::Val(Val::Bool(v))),
                Val::Bool(b) => done!(set.boolean(b), |v| Got::Val(Val::Bool(v))),
                Val::Float(f, _) => done!(set.float(f), |v| Got::Val(Val::Float(v, true))),
                Val::Int(i) if typed => done!(set.int(i), |v| Got::Val(Val::Int(v))),
                Val::Int(i) => done!(set.integer(i), |v| Got::Val(Val::Int(v))),
                Val::Str(i) if typed => done!(set.str(i), |v| Got::Val(Val::Str(v))),
                Val::Str(i) => done!(set.string(i), |v| Got::Val(Val::Str(v))),
                Val::List(l) => done!(set.list(l), |v| Got::Val(Val::List(v))),
                Val::Map(m) => done!(set.map(m), |v| Got::Val(map_of(v))),
                Val::Set(_) => done!(set.set(items.clone()), |v: Vec<Vec<u8>>| {
                    let n = v.len();
                    let set: BTreeSet<_> = v.into_iter().collect();
                    if set.len() != n {
                        return Got::Failed("the set has repeated items".into());
                    }
                    Got::Val(Val::Set(set))
                }),
            }
        }
        Call::Get { key, kt, alias } => {
            let get = client.get(key.clone());
            match kt {
                None => done!(get, |v| Got::Val(to_val(&v))),
                Some(0) => done!(get.bytes(), |v| Got::Val(Val::Bytes(v))),
                Some(1) if *alias => done!(get.boolean(), |v| Got::Val(Val::Bool(v))),
                Some(1) => done!(get.bool(), |v| Got::Val(Val::Bool(v))),
                Some(2) => done!(get.float(), |v| Got::Val(Val::Float(v, true))),
                Some(3) if *alias => done!(get.integer(), |v| Got::Val(Val::Int(v))),
                Some(3) => done!(get.int(), |v| Got::Val(Val::Int(v))),
                Some(4) if *alias => done!(get.string(), |v| Got::Val(Val::Str(v))),
                Some(4) => done!(get.str(), |v| Got::Val(Val::Str(v))),
                Some(5) => done!(get.list(), |v| Got::Val(Val::List(v))),
                Some(6) => done!(get.map(), |v| Got::Val(map_of(v))),
                Some(_) => done!(get.set(), |v| Got::Val(set_of(v))),
            }
        }
        Call::Add { key, down: false, by } => {
            let add = client.increment(key);
            match by {
                By::Untyped => done!(add, |v| Got::Val(to_val(&v))),
                By::Int(None) => done!(add.int(), |v| Got::Val(Val::Int(v))),
                By::Int(Some(i)) => done!(add.int().by(*i), |v| Got::Val(Val::Int(v))),
                By::Float(None) => done!(add.float(), |v| Got::Val(Val::Float(v, true))),
                By::Float(Some(i)) => done!(add.float().by(*i), |v| Got::Val(Val::Float(v, true))),
            }
        }
        Call::Add { key, by, .. } => {
            let add = client.decrement(key);
            match by {
                By::Untyped => done!(add, |v| Got::Val(to_val(&v))),
                By::Int(None) => done!(add.int(), |v| Got::Val(Val::Int(v))),
                By::Int(Some(i)) => done!(add.int().by(*i), |v| Got::Val(Val::Int(v))),
                By::Float(None) => done!(add.float(), |v| Got::Val(Val::Float(v, true))),
                By::Float(Some(i)) => done!(add.float().by(*i), |v| Got::Val(Val::Float(v, true))),
            }
        }
        Call::Append { key, arg, alias } => {
            let append = client.append(key.as_slice());
            match arg.clone() {
                AppendArg::Bytes(b) => done!(append.bytes(b), |v| Got::Val(Val::Bytes(v))),
                AppendArg::List(b) => done!(append.list(b), |v| Got::Val(Val::List(v))),
                AppendArg::Str(b) if *alias => done!(append.string(b), |v| Got::Val(Val::Str(v))),
                AppendArg::Str(b) => done!(append.str(b), |v| Got::Val(Val::Str(v))),
            }
        }
        Call::Exists { keys, single: true } => done!(client.exists().key(&keys[0]), |v| Got::Val(Val::Bool(v))),
        Call::Exists { keys, .. } => match client.exists().keys(keys.iter()) {
            Ok(req) => done!(req, |v| Got::Val(Val::Bool(v))),
            Err(e) => configured(e),
        },
        Call::Is { kt, keys, single: true } => {
            done!(client.is(key_type(*kt)).key(&keys[0]), |v| Got::Val(Val::Bool(v)))
        }
        Call::Is { kt, keys, .. } => match client.is(key_type(*kt)).keys(keys.clone()) {
            Ok(req) => done!(req, |v| Got::Val(Val::Bool(v))),
            Err(e) => configured(e),
        },
        Call::Type { key } => done!(client.key_type(key), |v: hop::KeyType| {
            Got::Kind((0..8).find(|k| key_type(*k) == v).unwrap_or(99))
        }),
        Call::Keys { key } => done!(client.keys(key), |v| Got::Val(Val::List(v))),
        Call::Length { key, kt, alias } => {
            let len = client.length(key);
            let len = match kt {
                None => len,
                Some(0) => len.bytes(),
                Some(4) if *alias => len.string(),
                Some(4) => len.str(),
                Some(5) => len.list(),
                Some(6) => len.map(),
                Some(_) => len.set(),
            };
            done!(len, |v| Got::Val(Val::Int(v)))
        }
        Call::Rename { from, to } => done!(client.rename(from, to.as_slice()), |v| Got::Val(Val::Bytes(v))),
        Call::Delete { key } => done!(client.delete(key), |v| Got::Val(Val::Bytes(v))),
        Call::Echo { content } => done!(client.echo(content), |v| Got::Val(Val::List(v))),
        Call::Stats => done!(client.stats(), |v: hop::model::StatsData| {
            Got::Stats([v.commands_errored(), v.commands_successful(), v.sessions_ended(), v.sessions_started()])
        }),
    }
}

/// Perform a call that mustn't take forever.
pub async fn perform_timely<B>(client: &Client<B>, call: &Call, secs: u64) -> Option<Got>
where
    B: Backend + Send + Sync + 'static,
    B::Error: Error,
{
    tokio::time::timeout(Duration::from_secs(secs), perform(client, call)).await.ok()
}
