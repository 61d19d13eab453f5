//! C09 to C15: the wire format of requests and responses.

use crate::adapt::*;
use hop_engine::{
    command::{
        command_id::{CommandId, KeyNotation},
        request::{Context, ParseError, RequestBuilder, RequestBuilderError},
        response::{self, Context as RespContext, Instruction, Response, ResponseType},
        DispatchError, Request,
    },
    dashmap::{DashMap, DashSet},
    state::{KeyType, Value},
    Hop,
};
use pbt::{
    codec::{self, Parsed, Resp},
    ensure, fail,
    gen::{self, Profile, Size},
    model::{Model, Req, Val},
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    convert::TryFrom,
    ops::Bound::{Excluded, Included, Unbounded},
    str::FromStr,
};

fn any_request(s: &mut Src, size: Size) -> Req {
    if s.pct(35) {
        let pool = gen::pool(s, 1, 3);
        let mut m = Model::default();
        for k in &pool {
            let kind = s.below(8) as u8;
            let v = gen::val(s, kind, Size::Small);
            m.map.insert(k.clone(), v);
        }
        let prof = Profile { weights: gen::EVEN, wild: 30, size, odd: 10 };
        return gen::request(s, &m, &pool, &prof);
    }
    let cmd = *s.pick(&gen::CMDS);
    let kt = if s.bool() { Some(s.below(8) as u8) } else { None };
    if cmd == 101 {
        return Req::new(cmd, kt, vec![]);
    }
    let n = match s.weighted(&[12, 30, 25, 15, 10, 8]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => s.range(3, 8),
        4 => gen::items(s, 255),
        _ => *s.pick(&[255, 254, 253, 128, 127, 129, 126, 64, 32, 250]),
    };
    let args = (0..n)
        .map(|_| {
            if n > 16 {
                let mut i = gen::item(s, true);
                if s.pct(2) {
                    i = gen::blob(s, size);
                }
                if s.pct(5) {
                    i.clear();
                }
                i
            } else {
                gen::blob(s, size)
            }
        })
        .collect();
    Req::new(cmd, kt, args)
}

/// Compare everything that can be asked of a request with what it should be.
fn check_request(s: &mut Src, r: &Request, want: &Req, whole: bool) -> CaseResult {
    ensure!(r.command_id() == command(want.cmd), "command", "the command is {:?}", r.command_id());
    ensure!(r.key_type() == want.kt.map(key_type), "key-type", "the key type is {:?}", r.key_type());
    ensure!(r.arg_count() == want.args.len(), "count", "it has {} arguments", r.arg_count());
    for (i, a) in want.args.iter().enumerate() {
        ensure!(r.arg(i) == Some(&a[..]), "argument", "argument {} is {:?}, not {}", i, r.arg(i).map(show), show(a));
    }
    for i in [want.args.len(), want.args.len() + 1, 255, 256, 1000] {
        if i >= want.args.len() {
            ensure!(r.arg(i).is_none(), "argument", "there's an argument {}: {:?}", i, r.arg(i).map(show));
        }
    }
    let key = if matches!(want.cmd, 100 | 101) { None } else { want.args.first().map(|a| &a[..]) };
    ensure!(r.key() == key, "key", "the key is {:?}, not {:?}", r.key().map(show), key.map(show));
    // Ranges.
    let n = want.args.len();
    for _ in 0..3 {
        // Mostly near the arguments, sometimes at the ends of what an index can be.
        let mut end = || if s.pct(12) { *s.pick(&[usize::MAX, usize::MAX - 1, u32::MAX as usize]) } else { s.range(0, n + 2) };
        let (a, b) = (end(), end());
        let up = b.saturating_add(1).min(n);
        let part = |from: usize, to: usize| &want.args[from.min(to)..to];
        let (name, got, expect): (String, _, &[Vec<u8>]) = match s.below(9) {
            0 => ("..".into(), r.args(..), &want.args[..]),
            1 => (format!("{}..", a), r.args(a..), part(a, n)),
            2 => (format!("..{}", b), r.args(..b), part(0, b.min(n))),
            3 => (format!("{}..{}", a, b), r.args(a..b), part(a, b.min(n))),
            4 => (format!("..={}", b), r.args(..=b), part(0, up)),
            5 => (format!("{}..={}", a, b), r.args(a..=b), part(a, up)),
            6 => (format!("after {} to ={}", a, b), r.args((Excluded(a), Included(b))), part(a.saturating_add(1), up)),
            7 => (format!("after {} to {}", a, b), r.args((Excluded(a), Excluded(b))), part(a.saturating_add(1), b.min(n))),
            _ => (format!("after {}", a), r.args((Excluded(a), Unbounded)), part(a.saturating_add(1), n)),
        };
        match got {
            None => ensure!(expect.is_empty(), "range", "args({}) is nothing instead of {} arguments", name, expect.len()),
            Some(mut args) => {
                let skip = if expect.is_empty() { 0 } else { s.below(expect.len() + 1) };
                for (i, e) in expect.iter().enumerate() {
                    if i == skip {
                        ensure!(args.len() == expect.len() - i, "range", "args({}) has {} left after {}, of {}", name, args.len(), i, expect.len());
                    }
                    let g = args.next();
                    ensure!(g == Some(&e[..]), "range", "args({}) has {:?} at {} instead of {}", name, g.map(show), i, show(e));
                }
                ensure!(args.len() == 0, "range", "args({}) claims {} more at the end", name, args.len());
                ensure!(args.next().is_none(), "range", "args({}) has more than {} arguments", name, expect.len());
                ensure!(args.next().is_none(), "range", "args({}) continues after its end", name);
            }
        }
    }
    // Typed arguments.
    for _ in 0..2 {
        let i = s.range(0, n);
        let raw = want.args.get(i);
        let eight = raw.and_then(|a| a.get(..8)).map(|a| {
            let mut b = [0; 8];
            b.copy_from_slice(a);
            b
        });
        ensure!(r.typed_arg::<&[u8]>(i) == raw.map(|a| &a[..]), "typed", "argument {} as bytes", i);
        ensure!(r.typed_arg::<bool>(i) == raw.and_then(|a| a.first()).map(|b| *b > 0), "typed", "argument {} as a boolean", i);
        ensure!(r.typed_arg::<i64>(i) == eight.map(i64::from_be_bytes), "typed", "argument {} as an integer is {:?}", i, r.typed_arg::<i64>(i));
        ensure!(
            r.typed_arg::<f64>(i).map(f64::to_bits) == eight.map(u64::from_be_bytes),
            "typed", "argument {} as a float is {:?}", i, r.typed_arg::<f64>(i)
        );
        ensure!(
            r.typed_arg::<&str>(i) == raw.and_then(|a| std::str::from_utf8(a).ok()),
            "typed", "argument {} as a string is {:?}", i, r.typed_arg::<&str>(i)
        );
    }
    if n > 0 {
        let rest = &want.args[1..];
        if rest.iter().all(|a| a.len() <= 65535) {
            let set = r.typed_args::<DashSet<Vec<u8>>>();
            let ok = set.map_or(false, |set| {
                matches!(to_val(&Value::Set(set)), Val::Set(g) if g == rest.iter().cloned().collect())
            });
            ensure!(ok, "typed", "the arguments as a set");
        }
        if rest.chunks_exact(2).all(|p| p[0].len() <= 255) {
            if let Some(map) = r.typed_args::<DashMap<Vec<u8>, Vec<u8>>>() {
                let e = rest.chunks_exact(2).map(|p| (p[0].clone(), p[1].clone())).collect();
                ensure!(matches!(to_val(&Value::Map(map)), Val::Map(g) if g == e), "typed", "the arguments as a map");
            } else {
                ensure!(rest.len() % 2 == 1, "typed", "the arguments as a map aren't one");
            }
        }
    }
    let bytes = codec::encode(want);
    if whole {
        ensure!(r.as_bytes() == &bytes[..], "bytes", "it takes {} instead of {}", show(r.as_bytes()), show(&bytes));
    }
    Ok(())
}

/// C09
fn built(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let size = if s.pct(20) { Size::Large } else { Size::Small };
    let mut want = any_request(s, size);
    for a in &mut want.args {
        if a.is_empty() {
            a.push(b'e');
        }
    }
    let mut b = match want.kt {
        Some(k) if s.pct(80) => RequestBuilder::new_with_key_type(command(want.cmd), key_type(k)),
        Some(k) => RequestBuilder::new_with_key_type(command(want.cmd), Some(key_type(k))),
        None if s.bool() => RequestBuilder::new_with_key_type(command(want.cmd), None),
        None => RequestBuilder::new(command(want.cmd)),
    };
    for a in &want.args {
        let r = match s.below(8) {
            0 => b.value(a.clone()).map(|_| ()),
            1 => match String::from_utf8(a.clone()) {
                Ok(t) => b.value(t).map(|_| ()),
                Err(_) => b.bytes(&a[..]).map(|_| ()),
            },
            _ => b.bytes(a.clone()).map(|_| ()),
        };
        ensure!(r.is_ok(), "refused", "{}: the argument {} is refused: {:?}", want.show(), show(a), r);
    }
    // Values.
    let room = 255 - want.args.len();
    if want.cmd != 101 && s.pct(40) {
        let kind = s.below(8) as u8;
        let v = nonempty(gen::val(s, kind, size));
        let need = match &v {
            Val::List(l) => l.len(),
            Val::Map(m) => 2 * m.len(),
            Val::Set(x) => x.len(),
            _ => 1,
        };
        if need <= room {
            cx.class("with a value");
            cx.trace(|| format!("value {}", v.show()));
            let value = to_value(&v);
            let r = match (kind, &v) {
                // Through the conversions into values as well.
                (1, Val::Bool(v)) => b.value(*v).map(|_| ()),
                (2, Val::Float(v, _)) => b.value(*v).map(|_| ()),
                (3, Val::Int(v)) => b.value(*v).map(|_| ()),
                _ => b.value(value).map(|_| ()),
            };
            ensure!(r.is_ok(), "refused", "the value {} is refused: {:?}", v.show(), r);
            // The order of a map or set isn't specified: take it from the encoding.
            let encoded = b.clone().into_request().as_bytes().to_vec();
            let args = match codec::decode_req(&encoded) {
                Parsed::Done(got, n) if n == encoded.len() => got.args,
                other => return Err(fail("encoding", format!("with the value {} it encodes as {}: {:?}", v.show(), show(&encoded), other))),
            };
            ensure!(args.len() == want.args.len() + need, "value", "with the value {} it has {} arguments", v.show(), args.len());
            let tail = &args[want.args.len()..];
            let ok = match &v {
                Val::Bytes(x) => tail == [x.clone()],
                Val::Str(x) => tail == [x.as_bytes().to_vec()],
                Val::Bool(x) => tail == [vec![*x as u8]],
                Val::Int(x) => tail == [x.to_be_bytes().to_vec()],
                Val::Float(x, _) => tail == [x.to_be_bytes().to_vec()],
                Val::List(l) => tail == &l[..],
                Val::Map(m) => tail.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect::<std::collections::BTreeMap<_, _>>() == *m,
                Val::Set(x) => tail.iter().cloned().collect::<std::collections::BTreeSet<_>>() == *x,
            };
            ensure!(ok, "value", "the value {} is in the request as {}", v.show(), pbt::show_all(tail));
            want.args.extend_from_slice(tail);
        }
    }
    cx.trace(|| want.show());
    ensure!(*b.command_id_ref() == command(want.cmd), "builder", "the builder's command");
    ensure!(b.key_type_ref().copied() == want.kt.map(key_type), "builder", "the builder's key type");
    let req = if s.bool() { b.clone().into_request() } else { Request::from(b.clone()) };
    check_request(s, &req, &want, true)?;
    let bytes = codec::encode(&want);
    // Decode it, with the start of something else behind it.
    let mut stream = bytes.clone();
    let more = if s.bool() { s.range(1, 20) } else { 0 };
    for _ in 0..more {
        stream.push(s.choice(255) as u8);
    }
    let mut ctx = if s.bool() { Context::new() } else { Context::default() };
    let decoded = match ctx.feed(&stream) {
        Ok(Some(r)) => r,
        other => return Err(fail("decode", format!("{} isn't decoded: {:?}", want.show(), other))),
    };
    check_request(s, &decoded, &want, true)?;
    ensure!(decoded == req, "equal", "the decoded request isn't equal to the one that was built");
    let copy = decoded.clone();
    ensure!(copy.into_bytes().as_ref() == &bytes[..], "bytes", "the decoded request has other bytes");
    // Back into a builder, and extend it.
    let mut again = RequestBuilder::from(if s.bool() { decoded } else { req });
    ensure!(*again.command_id_ref() == command(want.cmd), "builder", "the builder's command, from a request");
    ensure!(again.key_type_ref().copied() == want.kt.map(key_type), "builder", "the builder's key type, from a request");
    let extra = if want.cmd == 101 { 0 } else { s.range(0, 3).min(255 - want.args.len()) };
    for _ in 0..extra {
        let mut a = gen::blob(s, Size::Small);
        a.push(b'.');
        cx.class("extended after decoding");
        let r = again.bytes(a.clone()).map(|_| ());
        ensure!(r.is_ok(), "refused", "extending with {} is refused: {:?}", show(&a), r);
        want.args.push(a);
    }
    if want.args.len() == 255 || want.cmd == 101 {
        let r = again.bytes(b"x".to_vec()).map(|_| ());
        ensure!(r == Err(RequestBuilderError::TooManyArguments), "limit", "a 256th argument gives {:?}", r);
    }
    let req = again.into_request();
    check_request(s, &req, &want, true)?;
    let bytes = req.as_bytes().to_vec();
    let mut ctx = Context::new();
    match ctx.feed(&bytes) {
        Ok(Some(r)) => check_request(s, &r, &want, true)?,
        other => return Err(fail("decode", format!("{} isn't decoded after extending it: {:?}", want.show(), other))),
    }
    cx.nontrivial = !want.args.is_empty();
    if want.args.len() == 255 {
        cx.class("255 arguments");
    }
    if want.args.iter().any(|a| a.len() > 65535) {
        cx.class("argument of more than 65535 bytes");
    }
    if want.kt.is_some() {
        cx.class("with a key type");
    }
    Ok(())
}

fn nonempty(v: Val) -> Val {
    match v {
        Val::Bytes(b) if b.is_empty() => Val::Bytes(b"x".to_vec()),
        Val::Str(b) if b.is_empty() => Val::Str("x".into()),
        Val::List(l) => {
            let mut l: Vec<Vec<u8>> = l.into_iter().map(|i| if i.is_empty() { b"i".to_vec() } else { i }).collect();
            if l.is_empty() {
                l.push(b"i".to_vec());
            }
            Val::List(l)
        }
        Val::Map(m) => {
            let mut m: std::collections::BTreeMap<_, _> =
                m.into_iter().filter(|(k, v)| !k.is_empty() && !v.is_empty()).collect();
            if m.is_empty() {
                m.insert(b"i".to_vec(), b"j".to_vec());
            }
            Val::Map(m)
        }
        Val::Set(x) => {
            let mut x: std::collections::BTreeSet<_> = x.into_iter().filter(|k| !k.is_empty()).collect();
            if x.is_empty() {
                x.insert(b"i".to_vec());
            }
            Val::Set(x)
        }
        v => v,
    }
}

fn parse_error(p: &Parsed) -> Option<ParseError> {
    match p {
        Parsed::BadCommand => Some(ParseError::CommandIdInvalid),
        Parsed::BadKeyType => Some(ParseError::KeyTypeInvalid),
        _ => None,
    }
}

/// Feed some bytes and compare with what they encode, returning the number of bytes that were consumed.
fn feed_and_compare(s: &mut Src, ctx: &mut Context, buf: &[u8], note: &str) -> Result<Parsed, Failure> {
    let expect = codec::decode_req(buf);
    let got = ctx.feed(buf);
    match (&expect, got) {
        (Parsed::More, Ok(None)) => {}
        (Parsed::Done(want, n), Ok(Some(r))) => {
            ensure!(
                r.as_bytes().len() == *n,
                "consumed", "{}: {} takes {} bytes instead of {}", note, want.show(), r.as_bytes().len(), n
            );
            check_request(s, &r, want, true).map_err(|f| fail(f.sig, format!("{}: {}: {}", note, want.show(), f.msg)))?;
        }
        (e, Err(g)) if parse_error(e) == Some(g) => {}
        (e, got) => {
            return Err(fail(
                "parse",
                format!("{}: {} bytes {} give {:?} instead of {:?}", note, buf.len(), show(buf), brief(got.map(|r| r.map(|r| r.as_bytes().to_vec()))), brief(e)),
            ))
        }
    }
    Ok(expect)
}

fn brief<T: std::fmt::Debug>(t: T) -> String {
    let mut x = format!("{:?}", t);
    if x.len() > 300 {
        let mut cut = 300;
        while !x.is_char_boundary(cut) {
            cut -= 1;
        }
        x.truncate(cut);
    }
    x
}

/// C10
fn stream(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let size = if s.pct(12) { Size::Large } else { Size::Small };
    let n = if s.choice(999) < 3 {
        cx.class("hundreds of requests");
        gen::count(s, (200, 3000), 5000).max(1)
    } else {
        s.range(1, 8)
    };
    let size = if n > 8 { Size::Small } else { size };
    let mut bytes = Vec::new();
    let mut ends = Vec::new();
    let mut rejects = 0;
    for _ in 0..n {
        if s.pct(15) {
            // Something that's rejected: it's the consumer that gets rid of it.
            rejects += 1;
            if s.bool() {
                let bad = *s.pick(&[4u8, 5, 9, 17, 19, 23, 50, 99, 102, 127]);
                bytes.push(bad | if s.bool() { 0x80 } else { 0 });
            } else {
                bytes.push(0x80 | *s.pick(&gen::CMDS));
                bytes.push(*s.pick(&[8u8, 9, 100, 255]));
            }
            cx.trace(|| "an invalid request".to_string());
        } else {
            let r = any_request(s, size);
            cx.trace(|| r.show());
            bytes.extend(codec::encode(&r));
        }
        ends.push(bytes.len());
    }
    let big = bytes.len() > 3000;
    let mut ctx = Context::new();
    let mut start = 0; // of the request that's being parsed
    let mut have = 0;
    let mode = s.below(4);
    let mut splits = 0;
    let mut turns = 0u64;
    while start < bytes.len() {
        turns += 1;
        if have < bytes.len() {
            let left = bytes.len() - have;
            let step = match mode {
                0 if !big => 1,
                1 => left,
                2 => match ends.iter().find(|e| **e > have) {
                    // Next to the boundaries of requests.
                    Some(e) => (*e - have + s.below(3)).saturating_sub(1).max(1),
                    None => left,
                },
                _ => {
                    let max = if big { left } else { 40 };
                    s.range(1, max.min(left))
                }
            };
            have += step.min(left);
            splits += 1;
        }
        // Everything that's complete.
        loop {
            let note = format!("after {} bytes of the stream, request at {}", have, start);
            // Sometimes the same bytes are fed more than once.
            if s.pct(4) && codec::decode_req(&bytes[start..have]) == Parsed::More {
                feed_and_compare(s, &mut ctx, &bytes[start..have], &note)?;
            }
            match feed_and_compare(s, &mut ctx, &bytes[start..have], &note)? {
                Parsed::More => break,
                Parsed::Done(_, n) => start += n,
                Parsed::BadCommand | Parsed::BadKeyType => {
                    // Continue behind it.
                    start = *ends.iter().find(|e| **e > start).unwrap_or(&bytes.len());
                    have = have.max(start);
                }
            }
            if start >= have {
                break;
            }
        }
        ensure!(turns < 2_000_000, "harness", "no progress");
    }
    if rejects > 0 {
        cx.class("with a rejected request");
    }
    if splits > 1 {
        cx.class("in several pieces");
    }
    if big {
        cx.class("more than 3000 bytes");
    }
    cx.nontrivial = n >= 2 && splits >= 2;
    Ok(())
}

/// Lengths around which the upper bytes of their encoding change.
const HUGE: [usize; 9] = [
    (1 << 20) - 1, 1 << 20, (1 << 21) + 77, (1 << 22) + 1, (1 << 23) + 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 5,
];

fn huge_blob(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i as u32).wrapping_mul(2_654_435_761) >> 24) as u8 % 26).collect()
}

/// C09: a huge argument at every position, or a huge value.
fn built_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let mut cases = 0;
    for n in HUGE {
        let blob = huge_blob(n);
        for at in 0..3 {
            let mut args = vec![b"k".to_vec(), b"v".to_vec(), b"w".to_vec()];
            args[at] = blob.clone();
            let want = Req::new(10, [None, Some(0), Some(5)][at], args);
            let mut b = RequestBuilder::new_with_key_type(command(10), want.kt.map(key_type));
            for (i, a) in want.args.iter().enumerate() {
                let r = match (i == at, at) {
                    (true, 1) => b.value(a.clone()).map(|_| ()),
                    (true, 2) => b.value(Value::List(vec![a.clone()])).map(|_| ()),
                    _ => b.bytes(&a[..]).map(|_| ()),
                };
                ensure!(r.is_ok(), "refused", "{}: argument {} is refused: {:?}", want.show(), i, r);
            }
            let req = b.into_request();
            let bytes = codec::encode(&want);
            ensure!(req.as_bytes() == &bytes[..], "encoding", "{} is encoded as {} bytes {}", want.show(), req.as_bytes().len(), show(req.as_bytes()));
            let mut ctx = Context::new();
            let decoded = match ctx.feed(&bytes) {
                Ok(Some(r)) => r,
                other => return Err(fail("decode", format!("{} isn't decoded: {}", want.show(), brief(other.map(|r| r.is_some()))))),
            };
            for r in [&req, &decoded] {
                let got: Vec<&[u8]> = match r.args(..) {
                    Some(a) => a.collect(),
                    None => vec![],
                };
                ensure!(got == want.args, "argument", "{} has other arguments: {}", want.show(), got.iter().map(|a| show(a)).collect::<Vec<_>>().join(", "));
                ensure!(r.command_id() == command(10) && r.key_type() == want.kt.map(key_type), "command", "{} is another command", want.show());
            }
            cases += 1;
        }
    }
    cx.class("huge arguments");
    Ok(cases)
}

/// C10: requests with a huge argument between small ones, in pieces.
fn stream_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let mut cases = 0;
    let dict = std::sync::Arc::new(Default::default());
    for n in HUGE {
        for at in 0..2 {
            let mut args = vec![b"k".to_vec(), b"v".to_vec(), b"w".to_vec()];
            args[at] = huge_blob(n);
            let reqs = [
                Req::new(100, None, vec![b"before".to_vec()]),
                Req::new(10, [None, Some(0)][at], args),
                Req::new(11, None, vec![b"after".to_vec()]),
            ];
            let mut bytes = Vec::new();
            let mut ends = Vec::new();
            for r in &reqs {
                bytes.extend(codec::encode(r));
                ends.push(bytes.len());
            }
            let cuts = [ends[0], ends[0] + 3, ends[0] + 9, ends[0] + n / 2, ends[1] - 7, ends[1] - 1, ends[1] + 2, ends[2]];
            let mut ctx = Context::new();
            let mut start = 0;
            for have in cuts {
                while start < have {
                    let mut s = Src::random(n as u64, std::sync::Arc::clone(&dict));
                    match feed_and_compare(&mut s, &mut ctx, &bytes[start..have], &format!("{} of {} bytes", have, bytes.len()))? {
                        Parsed::Done(_, n) => start += n,
                        _ => break,
                    }
                }
            }
            ensure!(start == bytes.len(), "parse", "{} of {} bytes are parsed", start, bytes.len());
            cases += 1;
        }
    }
    cx.class("huge arguments");
    Ok(cases)
}

/// C11
fn arbitrary(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut bytes = match s.weighted(&[3, 6, 1]) {
        0 => {
            let n = s.range(0, 40);
            (0..n).map(|_| s.choice(255) as u8).collect::<Vec<u8>>()
        }
        1 => codec::encode(&any_request(s, Size::Small)),
        _ => {
            let mut b = codec::encode(&any_request(s, Size::Small));
            b.extend(codec::encode(&any_request(s, Size::Small)));
            b
        }
    };
    let edits = s.weighted(&[20, 40, 25, 15]);
    for _ in 0..edits {
        if bytes.is_empty() {
            break;
        }
        let head = bytes.len().min(12);
        let at = if s.bool() { s.below(head) } else { s.below(bytes.len()) };
        match s.below(6) {
            0 => bytes[at] ^= 1 << s.below(8),
            1 => bytes[at] = s.choice(255) as u8,
            2 => bytes.truncate(at),
            3 => bytes.insert(at, s.choice(255) as u8),
            4 => {
                bytes.remove(at);
            }
            _ => {
                // A length that's odd.
                let n = *s.pick(&[0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 65535, 65536, 256]);
                for (i, b) in n.to_be_bytes().iter().enumerate() {
                    if let Some(x) = bytes.get_mut(at + i) {
                        *x = *b;
                    }
                }
            }
        }
    }
    if edits > 0 {
        cx.class("damaged encoding");
    }
    cx.trace(|| format!("{} bytes {}", bytes.len(), show(&bytes)));
    let mut ctx = Context::new();
    let mut have = 0;
    let whole = s.bool();
    loop {
        have = if whole { bytes.len() } else { (have + s.range(0, 9)).min(bytes.len()) };
        let note = format!("{} bytes", have);
        match feed_and_compare(s, &mut ctx, &bytes[..have], &note)? {
            Parsed::More => {
                if have == bytes.len() {
                    cx.class("incomplete");
                    break;
                }
            }
            Parsed::Done(r, n) => {
                cx.class("accepted");
                if n < have {
                    cx.class("accepted with bytes behind it");
                }
                cx.nontrivial = !r.args.is_empty();
                return Ok(());
            }
            _ => {
                cx.class("rejected");
                break;
            }
        }
    }
    cx.nontrivial = bytes.len() > 2;
    Ok(())
}

/// Every possible start of a request.
fn arbitrary_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let mut n = 0;
    let dict = std::sync::Arc::new(Default::default());
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            for rest in [&[][..], &[0], &[1, 0, 0, 0, 0], &[1, 0, 0, 0, 1, 7], &[2, 0, 0, 0, 1, 7, 0, 0, 0, 0]] {
                let mut bytes = vec![a, b];
                bytes.extend_from_slice(rest);
                let mut s = Src::random(n, std::sync::Arc::clone(&dict));
                feed_and_compare(&mut s, &mut Context::new(), &bytes, "enumerated")?;
                n += 1;
            }
        }
        let mut s = Src::random(n, std::sync::Arc::clone(&dict));
        feed_and_compare(&mut s, &mut Context::new(), &[a], "enumerated")?;
        n += 1;
    }
    cx.class("enumerated starts");
    Ok(n)
}

/// C12
fn limits(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let cmd = if s.pct(12) { 101 } else { *s.pick(&gen::CMDS) };
    let kt = if s.bool() { Some(s.below(8) as u8) } else { None };
    let mut b = RequestBuilder::new_with_key_type(command(cmd), kt.map(key_type));
    let mut have: Vec<Vec<u8>> = Vec::new();
    let max = if cmd == 101 { 0 } else { 255 };
    // Often start almost full.
    if cmd != 101 && s.pct(60) {
        let n = s.range(200, 255);
        cx.trace(|| format!("{} arguments", n));
        for i in 0..n {
            let r = b.bytes(vec![i as u8]).map(|_| ());
            ensure!(r.is_ok(), "refused", "the {}th argument gives {:?}", i + 1, r);
            have.push(vec![i as u8]);
        }
    }
    let steps = s.range(1, 10);
    let mut refusals = 0;
    for _ in 0..steps {
        let before = b.clone();
        let (empty, maybe_empty, amount, got, what);
        let mut add: Vec<Vec<u8>> = Vec::new();
        let mut any_order = false;
        if s.pct(35) {
            let a = if s.pct(25) { Vec::new() } else { gen::blob(s, Size::Small) };
            what = format!("bytes {}", show(&a));
            empty = a.is_empty();
            maybe_empty = false;
            amount = 1;
            got = b.bytes(a.clone()).map(|_| ());
            if empty {
                ensure!(got.is_err(), "empty-argument", "an empty argument is accepted");
                if have.len() < max {
                    ensure!(got == Err(RequestBuilderError::ArgumentEmpty), "error", "an empty argument gives {:?}", got);
                }
            }
            add.push(a);
        } else {
            let kind = s.below(8) as u8;
            let room = max - have.len().min(max);
            let v = sized_value(s, kind, room);
            what = format!("value {}", v.show());
            let (e, m, n) = match &v {
                Val::Bytes(x) => (x.is_empty(), false, 1),
                Val::Str(x) => (x.is_empty(), false, 1),
                Val::List(l) => (l.is_empty() || l.iter().any(|i| i.is_empty()), false, l.len()),
                Val::Map(x) => (x.is_empty(), x.iter().any(|(k, v)| k.is_empty() || v.is_empty()), 2 * x.len()),
                Val::Set(x) => (x.is_empty(), x.iter().any(|k| k.is_empty()), x.len()),
                _ => (false, false, 1),
            };
            empty = e;
            maybe_empty = m;
            amount = n;
            match &v {
                Val::Bytes(x) => add.push(x.clone()),
                Val::Str(x) => add.push(x.as_bytes().to_vec()),
                Val::Bool(x) => add.push(vec![*x as u8]),
                Val::Int(x) => add.push(x.to_be_bytes().to_vec()),
                Val::Float(x, _) => add.push(x.to_be_bytes().to_vec()),
                Val::List(l) => add.extend(l.iter().cloned()),
                Val::Map(x) => {
                    any_order = true;
                    x.iter().for_each(|(k, v)| add.extend([k.clone(), v.clone()]))
                }
                Val::Set(x) => {
                    any_order = true;
                    add.extend(x.iter().cloned())
                }
            }
            got = b.value(to_value(&v)).map(|_| ());
            if empty {
                ensure!(got.is_err(), "empty-value", "{} is accepted", what);
                if have.len() + amount.max(1) <= max {
                    ensure!(got == Err(RequestBuilderError::ValueEmpty), "error", "{} gives {:?}", what, got);
                }
            }
        }
        cx.trace(|| format!("{}: {:?}", what, got));
        if have.len() + amount > max {
            ensure!(got.is_err(), "too-many", "{} is accepted although there are {} arguments already", what, have.len());
            if !empty && !maybe_empty {
                ensure!(got == Err(RequestBuilderError::TooManyArguments), "error", "{} gives {:?} with {} arguments", what, got, have.len());
            }
            cx.class("too many arguments");
        } else if !empty && !maybe_empty {
            ensure!(got.is_ok(), "refused", "{} is refused with {} arguments: {:?}", what, have.len(), got);
        }
        match got {
            Err(_) => {
                refusals += 1;
                ensure!(b == before, "changed", "{} is refused but changes the request", what);
                if empty {
                    cx.class("empty");
                }
            }
            Ok(()) => {
                if any_order {
                    let enc = b.clone().into_request().as_bytes().to_vec();
                    let args = match codec::decode_req(&enc) {
                        Parsed::Done(r, n) if n == enc.len() => r.args,
                        other => return Err(fail("encoding", format!("after {}: {}", what, brief(other)))),
                    };
                    let tail = args.get(have.len()..).unwrap_or(&[]).to_vec();
                    let ok = if matches!(kind_of(&what), 'm') {
                        let mut a: Vec<_> = tail.chunks(2).map(|p| p.to_vec()).collect();
                        let mut e: Vec<_> = add.chunks(2).map(|p| p.to_vec()).collect();
                        a.sort();
                        e.sort();
                        a == e
                    } else {
                        let (mut a, mut e) = (tail.clone(), add.clone());
                        a.sort();
                        e.sort();
                        a == e
                    };
                    ensure!(ok, "missing", "{} isn't in the request as it should: {}", what, pbt::show_all(&tail));
                    add = tail;
                }
                have.extend(add);
            }
        }
    }
    let want = Req::new(cmd, kt, have);
    let req = b.into_request();
    check_request(s, &req, &want, true)?;
    let bytes = codec::encode(&want);
    match Context::new().feed(&bytes) {
        Ok(Some(r)) => ensure!(r == req, "equal", "it's not decoded as the same request"),
        other => return Err(fail("decode", brief(other))),
    }
    cx.nontrivial = refusals > 0;
    Ok(())
}

fn kind_of(what: &str) -> char {
    what.strip_prefix("value ").and_then(|w| w.chars().next()).unwrap_or(' ')
}

/// A value which has about as many items as there's room for.
fn sized_value(s: &mut Src, kind: u8, room: usize) -> Val {
    let around = |s: &mut Src, per: usize| -> usize {
        match s.weighted(&[30, 10, 40, 20]) {
            0 => s.range(1, 4),
            1 => 0,
            2 => ((room / per) as i64 + s.choice(4) as i64 - 2).max(0) as usize,
            _ => *s.pick(&[127, 128, 255, 256, 257, 300, 100, 129, 511, 512, 513]),
        }
    };
    match kind {
        0 => Val::Bytes(if s.pct(30) { vec![] } else { gen::blob(s, Size::Small) }),
        4 => {
            let n = if s.pct(30) { 0 } else { s.range(1, 30) };
            Val::Str(gen::text(s, n))
        }
        5 => {
            let n = around(s, 1);
            let hole = if n > 0 && s.pct(20) { Some(s.below(n)) } else { None };
            Val::List((0..n).map(|i| if Some(i) == hole { vec![] } else { i.to_string().into_bytes() }).collect())
        }
        6 => {
            let n = around(s, 2);
            Val::Map((0..n).map(|i| (i.to_string().into_bytes(), vec![b'v', i as u8])).collect())
        }
        7 => {
            let n = around(s, 1);
            Val::Set((0..n).map(|i| i.to_string().into_bytes()).collect())
        }
        k => gen::val(s, k, Size::Small),
    }
}

fn any_resp(s: &mut Src, size: Size) -> Resp {
    match s.weighted(&[80, 12, 8]) {
        0 => {
            let kind = s.below(8) as u8;
            let mut v = gen::val(s, kind, size);
            if size == Size::Large && s.pct(4) {
                match &mut v {
                    Val::List(l) => {
                        let n = *s.pick(&[65535, 65534, 256, 32768, 4000, 300]);
                        *l = (0..n).map(|i| if i % 3 == 0 { vec![] } else { vec![i as u8] }).collect();
                    }
                    Val::Set(x) => {
                        if s.bool() {
                            x.insert(vec![b's'; *s.pick(&[65535, 65534, 32768, 256, 255])]);
                        } else {
                            let n = *s.pick(&[65535, 256, 1000]);
                            x.extend((0..n as u32).map(|i| i.to_string().into_bytes()));
                            while x.len() > 65535 {
                                let k = x.iter().next().cloned();
                                k.map(|k| x.remove(&k));
                            }
                        }
                    }
                    Val::Map(m) => {
                        let n = *s.pick(&[65535, 256, 1000]);
                        m.extend((0..n as u32).map(|i| (i.to_string().into_bytes(), vec![])));
                        while m.len() > 65535 {
                            let k = m.keys().next().cloned();
                            k.map(|k| m.remove(&k));
                        }
                    }
                    _ => {}
                }
            }
            Resp::Val(v)
        }
        1 => Resp::Dispatch(s.below(8) as u8),
        _ => Resp::Parse(s.below(2) as u8),
    }
}

fn to_response(r: &Resp) -> Response {
    match r {
        Resp::Val(v) => match to_value(v) {
            Value::Boolean(v) => v.into(),
            Value::Bytes(v) => v.into(),
            Value::Float(v) => v.into(),
            Value::Integer(v) => v.into(),
            Value::List(v) => v.into(),
            Value::Map(v) => v.into(),
            Value::Set(v) => v.into(),
            Value::String(v) => v.into(),
        },
        Resp::Dispatch(e) => error(*e).into(),
        Resp::Parse(0) => ParseError::CommandIdInvalid.into(),
        Resp::Parse(_) => ParseError::KeyTypeInvalid.into(),
    }
}

fn show_resp(r: &Resp) -> String {
    match r {
        Resp::Val(v) => v.show(),
        Resp::Dispatch(e) => format!("dispatch error {}", e),
        Resp::Parse(e) => format!("parse error {}", e),
    }
}

fn write_direct(r: &Resp, out: &mut Vec<u8>) {
    match r {
        Resp::Val(v) => match (v, to_value(v)) {
            (Val::Bool(b), _) => response::write_bool(out, *b),
            (Val::Bytes(b), _) => response::write_bytes(out, b),
            (Val::Float(f, _), _) => response::write_float(out, *f),
            (Val::Int(i), _) => response::write_int(out, *i),
            (Val::Str(t), _) => response::write_str(out, t),
            (Val::List(l), _) => response::write_list(out, l),
            (_, Value::Map(m)) => response::write_map(out, &m),
            (_, Value::Set(x)) => response::write_set(out, &x),
            (_, v) => response::write_value(out, &v),
        },
        Resp::Dispatch(e) => response::write_dispatch_error(out, error(*e)),
        Resp::Parse(0) => response::write_parse_error(out, ParseError::CommandIdInvalid),
        Resp::Parse(_) => response::write_parse_error(out, ParseError::KeyTypeInvalid),
    }
}

/// C13
fn responses(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let size = if s.pct(25) { Size::Large } else { Size::Small };
    let n = if s.choice(1999) < 2 {
        cx.class("hundreds of responses");
        s.range(100, 600)
    } else {
        s.range(1, 5)
    };
    let size = if n > 5 { Size::Small } else { size };
    let mut buf = prefix(s);
    let skip = buf.len();
    let mut all = Vec::new();
    for _ in 0..n {
        let r = any_resp(s, size);
        cx.trace(|| show_resp(&r));
        cx.class(match &r {
            Resp::Val(v) => ["bytes", "boolean", "float", "integer", "string", "list", "map", "set"][v.kind() as usize],
            Resp::Dispatch(_) => "dispatch error",
            Resp::Parse(_) => "parse error",
        });
        let at = buf.len();
        let before = buf.clone();
        match s.below(4) {
            0 => write_direct(&r, &mut buf),
            1 => {
                let bytes = to_response(&r).as_bytes();
                buf.extend(bytes);
            }
            2 => match &r {
                Resp::Val(v) => response::write_value(&mut buf, &to_value(v)),
                _ => to_response(&r).copy_to(&mut buf),
            },
            _ => to_response(&r).copy_to(&mut buf),
        }
        ensure!(buf.len() > at && buf[..at] == before[..], "prefix", "writing {} changes what's in the buffer", show_resp(&r));
        // By the description of the format.
        match codec::decode_resp(&buf[at..]) {
            Some(Ok((g, len))) => {
                ensure!(at + len == buf.len(), "length", "{} takes {} bytes but its header says {}", show_resp(&r), buf.len() - at, len);
                ensure!(resp_same(&r, &g), "encoding", "{} is encoded as {}", show_resp(&r), show_resp(&g));
            }
            Some(Err(e)) => return Err(fail("encoding", format!("{} is encoded as {}: {}", show_resp(&r), show(&buf[at..]), e))),
            None => return Err(fail("length", format!("{} is encoded in {} bytes, fewer than its header says: {}", show_resp(&r), buf.len() - at, show(&buf[at..])))),
        }
        all.push((r, at));
    }
    let mut ctx = if s.bool() { RespContext::new() } else { RespContext::default() };
    let mut at = skip;
    for (r, pos) in &all {
        ensure!(at == *pos, "consumed", "response at {} instead of {}", at, pos);
        let end = all.iter().map(|a| a.1).find(|p| *p > at).unwrap_or(buf.len());
        let view = if s.bool() { &buf[at..] } else { &buf[at..end] };
        match ctx.feed(view) {
            Ok(Instruction::Concluded(g)) => {
                let g = to_resp(&g);
                ensure!(resp_same(r, &g), "decode", "{} is decoded as {}", show_resp(r), show_resp(&g));
            }
            other => return Err(fail("decode", format!("{} is decoded as {}", show_resp(r), brief(other)))),
        }
        let len = u32::from_be_bytes([buf[at], buf[at + 1], buf[at + 2], buf[at + 3]]) as usize;
        at += 4 + len;
    }
    cx.nontrivial = all.iter().any(|(r, _)| match r {
        Resp::Val(v) => v.kind() != 1,
        _ => false,
    });
    Ok(())
}

fn huge_resps() -> Vec<Resp> {
    let mut all = Vec::new();
    for n in HUGE {
        let blob = huge_blob(n);
        let text = String::from_utf8(blob.clone()).expect("ASCII");
        all.push(Resp::Val(Val::Str(text)));
        all.push(Resp::Val(Val::List(vec![b"a".to_vec(), blob.clone(), b"b".to_vec()])));
        let mut m = std::collections::BTreeMap::new();
        m.insert(b"k".to_vec(), blob.clone());
        all.push(Resp::Val(Val::Map(m)));
        // Huge in total.
        let items = (0..n / 60_000).map(|i| [&(i as u32).to_be_bytes()[..], &blob[..59_996]].concat()).collect();
        all.push(Resp::Val(Val::Set(items)));
        all.push(Resp::Val(Val::Bytes(blob)));
    }
    all
}

/// C13: huge values.
fn responses_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let all = huge_resps();
    for r in &all {
        let mut direct = b"abc".to_vec();
        write_direct(r, &mut direct);
        let mut copied = b"abc".to_vec();
        to_response(r).copy_to(&mut copied);
        for buf in [&direct[3..], &copied[3..], &to_response(r).as_bytes()] {
            match codec::decode_resp(buf) {
                Some(Ok((g, len))) if len == buf.len() => ensure!(resp_same(r, &g), "encoding", "{} is encoded as {}", show_resp(r), show_resp(&g)),
                other => return Err(fail("encoding", format!("{} is encoded in {} bytes {}: {}", show_resp(r), buf.len(), show(buf), brief(other.map(|r| r.map(|r| r.1)))))),
            }
            match RespContext::new().feed(buf) {
                Ok(Instruction::Concluded(g)) => {
                    let g = to_resp(&g);
                    ensure!(resp_same(r, &g), "decode", "{} is decoded as {}", show_resp(r), show_resp(&g));
                }
                Ok(Instruction::ReadBytes(n)) => return Err(fail("decode", format!("{}: all bytes are there but it wants {} more", show_resp(r), n))),
                Err(e) => return Err(fail("decode", format!("{}: error {:?}", show_resp(r), e))),
            }
        }
    }
    cx.class("huge values");
    Ok(all.len() as u64)
}

/// C14: huge values in pieces.
fn incremental_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let all = huge_resps();
    let mut ctx = RespContext::new();
    for (i, r) in all.iter().enumerate() {
        let mut bytes = codec::encode_resp(r);
        let total = bytes.len();
        bytes.extend([0; 5]);
        // As many as it asks for, or in larger or smaller steps.
        let most = [usize::MAX, 1 << 24, 5_000_000, 1_111_111][i % 4];
        let mut have = [0, 4, 2, 7][i / 4 % 4];
        let mut turns = 0;
        loop {
            turns += 1;
            match ctx.feed(&bytes[..have]) {
                Ok(Instruction::ReadBytes(n)) => {
                    ensure!(
                        n >= 1 && have + n <= total,
                        "amount", "{}: with {} of {} bytes it asks for {} more", show_resp(r), have, total, n
                    );
                    have += n.min(most);
                }
                Ok(Instruction::Concluded(g)) => {
                    ensure!(have == total, "early", "{}: finishes with {} of {} bytes", show_resp(r), have, total);
                    let g = to_resp(&g);
                    ensure!(resp_same(r, &g), "decode", "{} is decoded as {}", show_resp(r), show_resp(&g));
                    break;
                }
                Err(e) => return Err(fail("error", format!("{}: error {:?} with {} of {} bytes", show_resp(r), e, have, total))),
            }
            // It asks for parts of collections one by one.
            ensure!(turns < 2_000_000, "endless", "{}: doesn't finish", show_resp(r));
        }
    }
    cx.class("huge values");
    Ok(all.len() as u64)
}

/// What's wrong with a message, if it's something that has its own error.
fn specific(b: &[u8]) -> Option<&'static str> {
    let len = u32::from_be_bytes([*b.first()?, *b.get(1)?, *b.get(2)?, *b.get(3)?]) as usize;
    let body = b.get(4..4usize.checked_add(len)?)?;
    match *body.first()? {
        t if t > 9 => Some("ResponseTypeInvalid"),
        8 if *body.get(1)? > 1 => Some("ParseErrorInvalid"),
        9 if *body.get(1)? > 7 => Some("DispatchErrorInvalid"),
        7 => {
            let n = u32::from_be_bytes([*body.get(1)?, *body.get(2)?, *body.get(3)?, *body.get(4)?]) as usize;
            std::str::from_utf8(body.get(5..5usize.checked_add(n)?)?).is_err().then_some("StringInvalid")
        }
        _ => None,
    }
}

/// C14
fn incremental(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut ctx = RespContext::new();
    let rounds = if s.choice(1999) < 2 {
        cx.class("hundreds of responses");
        s.range(100, 600)
    } else {
        s.range(1, 4)
    };
    for _ in 0..rounds {
        let size = if s.pct(10) { Size::Large } else { Size::Small };
        let r = any_resp(s, size);
        let mut bytes = codec::encode_resp(&r);
        if s.bool() {
            // A proper response, in pieces.
            cx.class("valid, in pieces");
            cx.trace(|| show_resp(&r));
            let total = bytes.len();
            let behind = if s.pct(20) { s.range(1, 9) } else { 0 };
            bytes.extend(vec![0xaa; behind]);
            let mode = s.below(3);
            let mut have = if s.bool() { 0 } else { s.range(0, total - 1) };
            let mut turns = 0;
            loop {
                turns += 1;
                match ctx.feed(&bytes[..have]) {
                    Ok(Instruction::ReadBytes(n)) => {
                        ensure!(have < total, "late", "{}: asks for {} bytes more when all {} are there", show_resp(&r), n, total);
                        ensure!(
                            n >= 1 && n <= total - have,
                            "amount", "{}: with {} of {} bytes it asks for {} more", show_resp(&r), have, total, n
                        );
                        let step = match mode {
                            0 => n,
                            1 => s.range(1, n),
                            _ => s.range(1, bytes.len() - have),
                        };
                        have = (have + step).min(bytes.len());
                        if mode == 1 && turns > 40 {
                            have = total;
                        }
                    }
                    Ok(Instruction::Concluded(g)) => {
                        ensure!(have >= total, "early", "{}: finishes with {} of {} bytes", show_resp(&r), have, total);
                        let g = to_resp(&g);
                        ensure!(resp_same(&r, &g), "decode", "{} is decoded as {}", show_resp(&r), show_resp(&g));
                        break;
                    }
                    Err(e) => return Err(fail("error", format!("{}: error {:?} with {} of {} bytes", show_resp(&r), e, have, total))),
                }
                ensure!(turns <= total + 10, "endless", "{}: doesn't finish", show_resp(&r));
            }
            if turns > 2 {
                cx.nontrivial = true;
            }
        } else {
            // Anything else.
            cx.class("damaged");
            if s.pct(25) {
                let n = s.range(0, 30);
                bytes = (0..n).map(|_| s.choice(255) as u8).collect();
                if s.bool() && bytes.len() > 4 {
                    let n = (bytes.len() - 4) as u32;
                    bytes[..4].copy_from_slice(&n.to_be_bytes());
                }
            }
            let edits = s.range(1, 3);
            for _ in 0..edits {
                if bytes.is_empty() {
                    break;
                }
                let at = if s.bool() { s.below(bytes.len().min(14)) } else { s.below(bytes.len()) };
                match s.below(7) {
                    0 => bytes[at] ^= 1 << s.below(8),
                    1 => bytes[at] = s.choice(255) as u8,
                    2 => bytes.truncate(at),
                    3 => bytes.insert(at, s.choice(255) as u8),
                    4 => {
                        bytes.remove(at);
                    }
                    5 => {
                        // A shorter or longer message than its content.
                        if bytes.len() >= 4 {
                            let n = s.range(0, bytes.len() + 3) as u32;
                            bytes[..4].copy_from_slice(&n.to_be_bytes());
                        }
                    }
                    _ => {
                        let n = *s.pick(&[0u32, 1, 2, 3, 0xffff_ffff, 0x7fff_ffff, 65535, 65536]);
                        for (i, b) in n.to_be_bytes().iter().enumerate() {
                            if let Some(x) = bytes.get_mut(at + i) {
                                *x = *b;
                            }
                        }
                    }
                }
            }
            cx.trace(|| format!("{} bytes {}", bytes.len(), show(&bytes)));
            let mut have = if s.bool() { bytes.len() } else { s.range(0, bytes.len()) };
            let mut turns = 0;
            let mut done = false;
            loop {
                turns += 1;
                ensure!(turns <= bytes.len() + 10, "endless", "{}: neither finishes nor fails", show(&bytes));
                match ctx.feed(&bytes[..have]) {
                    Ok(Instruction::ReadBytes(n)) => {
                        ensure!(n >= 1, "amount", "{}: asks for no bytes", show(&bytes[..have]));
                        if have == bytes.len() {
                            break;
                        }
                        have = have.saturating_add(n).min(bytes.len());
                    }
                    Ok(Instruction::Concluded(g)) => {
                        match codec::decode_resp(&bytes[..have]) {
                            Some(Ok((e, _))) => {
                                let g = to_resp(&g);
                                ensure!(resp_same(&e, &g), "decode", "{} is decoded as {}", show_resp(&e), show_resp(&g));
                            }
                            None => return Err(fail("early", format!("{}: finishes before the message is complete", show(&bytes[..have])))),
                            // How forgiving it is about the rest isn't specified.
                            Some(Err(_)) => {}
                        }
                        ensure!(specific(&bytes[..have]).is_none(), "accepted", "{} is accepted", show(&bytes[..have]));
                        done = true;
                        break;
                    }
                    Err(e) => {
                        cx.class("error");
                        cx.nontrivial = true;
                        ensure!(
                            !matches!(codec::decode_resp(&bytes[..have]), Some(Ok(_))),
                            "error", "{}: a proper response gives {:?}", show(&bytes[..have]), e
                        );
                        if let Some(name) = specific(&bytes[..have]) {
                            ensure!(format!("{:?}", e) == name, "which-error", "{}: the error is {:?} instead of {}", show(&bytes[..have]), e, name);
                        }
                        done = true;
                        break;
                    }
                }
            }
            if !done {
                // It's still waiting: a new one would be made for the next connection.
                ctx = RespContext::new();
            }
        }
    }
    // The parser can go on.
    let r = any_resp(s, Size::Small);
    let bytes = codec::encode_resp(&r);
    match ctx.feed(&bytes) {
        Ok(Instruction::Concluded(g)) => {
            let g = to_resp(&g);
            ensure!(resp_same(&r, &g), "afterwards", "afterwards {} is decoded as {}", show_resp(&r), show_resp(&g));
        }
        other => return Err(fail("afterwards", format!("afterwards {} gives {}", show_resp(&r), brief(other)))),
    }
    Ok(())
}

fn near_name(s: &mut Src) -> String {
    let name = s.pick(&codec::COMMANDS).1.to_string();
    match s.below(7) {
        0 => name.to_uppercase(),
        1 => format!("{} ", name),
        2 => name[..name.len() - 1].to_string(),
        3 => {
            let t = *s.pick(&codec::KEY_TYPES);
            format!("{}:{}", name, t)
        }
        4 => name.replace(':', "_"),
        5 => {
            let n = s.range(0, 12);
            gen::text(s, n)
        }
        _ => {
            let mut c: Vec<char> = name.chars().collect();
            let i = s.below(c.len());
            c[i] = *s.pick(&['a', 'e', 's', 't', ':', 'x', '-', 'A']);
            c.into_iter().collect()
        }
    }
}

/// C15
fn names(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let name = near_name(s);
    cx.trace(|| format!("{:?}", name));
    let expect = codec::COMMANDS.iter().find(|c| c.1 == name).map(|c| command(c.0));
    let a = CommandId::from_str(&name).ok();
    let b = CommandId::try_from(name.as_str()).ok();
    ensure!(a == expect && b == expect, "name", "{:?} is {:?} and {:?}", name, a, b);
    cx.class(if expect.is_some() { "a command's name" } else { "not a name" });

    // What commands do with their keys, for one request.
    let (id, _) = *s.pick(&codec::COMMANDS);
    let cmd = command(id);
    let keys = match id {
        100 | 101 => 0,
        13 | 14 => 9,
        15 => 2,
        _ => 1,
    };
    let kt = match id {
        14 => Some(*s.pick(&[0u8, 3, 4])),
        10 => Some(0),
        _ => None,
    };
    let n = if id == 101 { 0 } else { s.range(0, 5) };
    let args: Vec<Vec<u8>> = (0..n).map(|i| format!("name:{}", i).into_bytes()).collect();
    let req = Req::new(id, kt, args);
    cx.trace(|| req.show());
    let hop = Hop::new();
    for a in &req.args {
        hop.state().insert(a.clone(), Value::Integer(5));
    }
    let _ = dispatch(&hop, &req, Route::Parser, &[]);
    for (i, a) in req.args.iter().enumerate() {
        let touched = !matches!(hop.state().key_ref(a).as_deref(), Some(Value::Integer(5)));
        ensure!(!(touched && i >= keys), "keys", "{}: changes {}, which isn't one of its keys", req.show(), show(a));
    }
    let r = with_request(&req, Route::Builder, |r| r.key().map(|k| k.to_vec())).unwrap_or(None);
    ensure!(r == if keys == 0 { None } else { req.args.first().cloned() }, "keys", "{}: the key is {:?}", req.show(), r);
    // Commands that don't carry arguments.
    ensure!(cmd.is_simple() == codec::simple(id), "simple", "{} is simple: {}", cmd, cmd.is_simple());
    let bytes = [id, 0];
    let mut ctx = Context::new();
    let used = match ctx.feed(&bytes) {
        Ok(Some(r)) => r.as_bytes().len(),
        other => return Err(fail("simple", format!("{} without arguments gives {}", cmd, brief(other)))),
    };
    ensure!(used == if codec::simple(id) { 1 } else { 2 }, "simple", "{} without arguments takes {} bytes", cmd, used);
    cx.nontrivial = true;
    Ok(())
}

fn names_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    for n in 0..=255u8 {
        let e = codec::COMMANDS.iter().find(|c| c.0 == n).map(|c| command(c.0));
        let g = CommandId::try_from(n).ok();
        ensure!(g == e, "number", "command number {} is {:?}", n, g);
        if let Some(c) = g {
            ensure!(c as u8 == n, "number", "{:?} has the number {}", c, c as u8);
        }
        let g = KeyType::try_from(n).ok();
        let e = if n < 8 { Some(key_type(n)) } else { None };
        ensure!(g == e && g.map_or(true, |k| k as u8 == n), "number", "key type number {} is {:?}", n, g);
        let g = DispatchError::try_from(n).ok();
        let e = if n < 8 { Some(error(n)) } else { None };
        ensure!(g == e && g.map_or(true, |k| k as u8 == n), "number", "error number {} is {:?}", n, g);
        let g = ParseError::try_from(n).ok();
        let e = match n {
            0 => Some(ParseError::CommandIdInvalid),
            1 => Some(ParseError::KeyTypeInvalid),
            _ => None,
        };
        ensure!(g == e && g.map_or(true, |k| k as u8 == n), "number", "parse error number {} is {:?}", n, g);
        let g = ResponseType::try_from(n).ok();
        use ResponseType as R;
        let e = [
            R::Boolean, R::Bytes, R::Float, R::Integer, R::List, R::Map, R::Set, R::String, R::ParseError,
            R::DispatchError,
        ]
        .get(n as usize)
        .copied();
        ensure!(g == e && g.map_or(true, |k| k as u8 == n), "number", "response type number {} is {:?}", n, g);
    }
    let mut messages = std::collections::BTreeSet::new();
    for n in 0..8 {
        messages.insert(error(n).to_string());
    }
    ensure!(messages.len() == 8, "message", "errors share messages: {:?}", messages);
    for (id, name) in codec::COMMANDS {
        let c = command(id);
        ensure!(c.name() == name, "name", "{:?} is named {:?}", c, c.name());
        ensure!(c.to_string() == name, "name", "{:?} is displayed as {:?}", c, c.to_string());
        ensure!(CommandId::from_str(name).ok() == Some(c), "name", "{:?} isn't {:?}", name, c);
        ensure!(CommandId::try_from(name).ok() == Some(c), "name", "{:?} isn't {:?}", name, c);
        let e = match id {
            100 | 101 => KeyNotation::None,
            13 | 14 => KeyNotation::Multiple,
            15 => KeyNotation::Two,
            _ => KeyNotation::One,
        };
        ensure!(c.key_notation() == e, "keys", "{} takes {:?} keys", c, c.key_notation());
    }
    cx.class("every number of every identifier");
    Ok(256 * 5 + 16)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C09",
            rule: "a request with at least one argument",
            assumptions: &["arguments have up to 70000 bytes, and up to 32 MB in the enumerated cases"],
            quick: 800_000,
            run: built,
            fixed: Some(built_fixed),
            ..Check::default()
        },
        Check {
            id: "C10",
            rule: "at least two requests in one stream that arrives in at least two pieces",
            assumptions: &["streams of up to 8 requests with arguments of up to 70000 bytes, hundreds of small ones, or one of up to 32 MB"],
            quick: 240_000,
            run: stream,
            fixed: Some(stream_fixed),
            ..Check::default()
        },
        Check {
            id: "C11",
            rule: "more than two bytes, or an accepted request with arguments",
            assumptions: &[],
            quick: 2_400_000,
            run: arbitrary,
            fixed: Some(arbitrary_fixed),
            ..Check::default()
        },
        Check {
            id: "C12",
            rule: "something is refused",
            assumptions: &["whether maps and sets with empty members are accepted isn't specified"],
            quick: 480_000,
            run: limits,
            ..Check::default()
        },
        Check {
            id: "C13",
            rule: "a response with something other than a boolean or an error",
            assumptions: &["collections of up to 65535 items, keys of maps of up to 255 bytes, items of sets of up to 65535 bytes"],
            quick: 360_000,
            run: responses,
            fixed: Some(responses_fixed),
            ..Check::default()
        },
        Check {
            id: "C14",
            rule: "a response that needs more than two pieces, or bytes that are an error",
            assumptions: &["how forgiving the parser is about messages that contradict themselves isn't specified"],
            quick: 1_000_000,
            run: incremental,
            fixed: Some(incremental_fixed),
            ..Check::default()
        },
        Check {
            id: "C15",
            rule: "a name and a request for the table of commands",
            assumptions: &[],
            quick: 1_200_000,
            run: names,
            fixed: Some(names_fixed),
            ..Check::default()
        },
    ]
}
