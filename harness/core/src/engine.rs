//! C01 to C08: histories of commands against the reference model.

use crate::adapt::*;
use hop_engine::Hop;
use pbt::{
    codec, ensure, fail,
    gen::{self, Profile, Size},
    model::{reserved, Model, Out, Req, Val},
    run::catch,
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::collections::BTreeSet;

/// What a check of histories is about.
struct Focus {
    weights: [u32; 16],
    wild: u64,
    odd: u64,
    /// Percentage of the cases with large values.
    large: u64,
    steps: (usize, usize),
    /// Types that keys have at the start.
    kinds: &'static [u8],
    preload: u64,
    /// Permille of the cases that start with a list that's almost as long as one can get.
    huge: u64,
    /// Whether a command, which would answer with the given result, is what the check is about.
    scope: fn(&Req, &Out, &Model) -> bool,
    nontrivial: fn(&Seen) -> bool,
    /// Whether commands are in scope that answer with an error, right or wrong.
    failures: bool,
}

#[derive(Default)]
struct Seen {
    /// Commands in scope that succeeded, and that failed.
    ok: u64,
    err: u64,
    cmds: BTreeSet<u8>,
    kinds: BTreeSet<u8>,
    steps: u64,
}

enum Step {
    Cmd(Req, Route),
    Put(Vec<u8>, Val),
    Drop(Vec<u8>),
}

fn show_key(k: &[u8]) -> String {
    show(k)
}

/// Compare the value of a key with the model's.
pub fn check_key(hop: &Hop, m: &Model, k: &[u8]) -> Result<(), String> {
    let expect = m.map.get(k);
    if k.is_empty() || reserved(k) {
        if hop.state().contains_key(k) {
            return Err(format!("key {} exists", show_key(k)));
        }
        return Ok(());
    }
    match (expect, hop.state().key_ref(k)) {
        (None, None) => Ok(()),
        (Some(e), Some(g)) => {
            if same(e, g.value()) {
                Ok(())
            } else {
                Err(format!("key {} holds {}, not {}", show_key(k), to_val(g.value()).show(), e.show()))
            }
        }
        (None, Some(g)) => Err(format!("key {} holds {} but shouldn't exist", show_key(k), to_val(g.value()).show())),
        (Some(e), None) => Err(format!("key {} doesn't exist but should hold {}", show_key(k), e.show())),
    }
}

fn keys_of(req: &Req) -> Vec<&Vec<u8>> {
    req.args.iter().take(3).filter(|a| a.len() < 100_000).collect()
}

fn apply_direct(hop: &Hop, m: &Model, k: &[u8]) {
    match m.map.get(k) {
        Some(v) => {
            hop.state().insert(k.to_vec(), to_value(v));
        }
        None => {
            hop.state().remove(k);
        }
    }
}

/// Perform one command and compare the answer and the keys around it. Also returns whether it answered with an error.
fn perform(hop: &Hop, m: &mut Model, req: &Req, route: Route, prefix: &[u8], watch: &BTreeSet<Vec<u8>>) -> (Out, bool, Result<(), (&'static str, String)>) {
    let expect = m.exec(req);
    let answer = match catch(|| dispatch(hop, req, route, prefix)) {
        Ok(a) => a,
        Err(f) => {
            if f.harness {
                panic!("{}", f.msg);
            }
            return (expect, false, Err(("panic", f.msg)));
        }
    };
    let failed = matches!(answer, Answer::Out(Out::Err(_)));
    let r = (|| {
        match answer {
            Answer::Undelivered(e) => return Err(("undelivered", e)),
            Answer::Malformed(e) => return Err(("malformed", e)),
            Answer::Out(got) => {
                if !expect.matches(&got) {
                    return Err(("answer", format!("answers {} instead of {}", got.show(), expect.show())));
                }
            }
        }
        for k in keys_of(req).into_iter().chain(watch) {
            check_key(hop, m, k).map_err(|e| ("state", format!("after it, {}", e)))?;
        }
        Ok(())
    })();
    (expect, failed, r)
}

/// Whether the last command misbehaves without the commands in scope having been executed before.
fn misbehaves_anyway(start: &[(Vec<u8>, Val)], steps: &[Step], focus: &Focus, watch: &BTreeSet<Vec<u8>>) -> bool {
    let r = catch(|| {
        let hop = Hop::new();
        let mut m = Model::default();
        for (k, v) in start {
            hop.state().insert(k.clone(), to_value(v));
            m.map.insert(k.clone(), v.clone());
        }
        for (i, step) in steps.iter().enumerate() {
            match step {
                Step::Put(k, v) => {
                    m.map.insert(k.clone(), v.clone());
                    apply_direct(&hop, &m, k);
                }
                Step::Drop(k) => {
                    m.map.remove(k);
                    apply_direct(&hop, &m, k);
                }
                Step::Cmd(req, route) => {
                    let mut ahead = m.clone();
                    let expect = ahead.exec(req);
                    if i + 1 < steps.len() && (focus.scope)(req, &expect, &m) {
                        m = ahead;
                        // Count it, so that statistics are what they'd be.
                        let echo = match expect {
                            Out::Err(_) => Req::new(14, None, vec![]),
                            _ => Req::new(100, None, vec![]),
                        };
                        let _ = dispatch(&hop, &echo, Route::Builder, &[]);
                        for k in keys_of(req) {
                            if !k.is_empty() && !reserved(k) {
                                apply_direct(&hop, &m, k);
                            }
                        }
                        continue;
                    }
                    if perform(&hop, &mut m, req, *route, &[], watch).2.is_err() {
                        return true;
                    }
                }
            }
        }
        false
    });
    r.unwrap_or(true)
}

fn history(s: &mut Src, cx: &mut Cx, focus: &Focus) -> CaseResult {
    let hop = new_hop(s);
    let other = hop.clone();
    let mut m = Model::default();
    let size = if s.pct(focus.large) { Size::Large } else { Size::Small };
    let prof = Profile { weights: focus.weights, wild: focus.wild, size, odd: focus.odd };
    let pool = gen::pool(s, 1, 6);
    let mut start: Vec<(Vec<u8>, Val)> = Vec::new();
    for k in &pool {
        if !focus.kinds.is_empty() && s.pct(focus.preload) {
            let kind = *s.pick(focus.kinds);
            start.push((k.clone(), gen::val(s, kind, size)));
        }
    }
    if s.choice(999) < focus.huge {
        cx.class("starts with a list of almost 65535 items");
        let n = s.range(65_300, 65_535);
        start.push((pool[0].clone(), Val::List(vec![b"x".to_vec(); n])));
    }
    if focus.huge > 0 && s.choice(1999) < focus.huge.min(4) {
        cx.class("starts with a value of megabytes");
        let n = s.range(1_000_000, 2_500_000);
        let text = "megabyte".repeat(n / 8) + &"é".repeat(s.below(9));
        let key = s.pick(&pool).clone();
        start.retain(|(k, _)| *k != key);
        start.push((key, if s.bool() { Val::Bytes(text.into_bytes()) } else { Val::Str(text) }));
    }
    if s.pct(1) {
        cx.class("starts with hundreds of other keys");
        let n = s.range(200, 1200);
        for i in 0..n {
            start.push((format!("fill{}", i).into_bytes(), Val::Int(i as i64)));
        }
    }
    for (k, v) in &start {
        cx.trace(|| format!("start: {} = {}", show_key(k), v.show()));
        hop.state().insert(k.clone(), to_value(v));
        m.map.insert(k.clone(), v.clone());
    }
    let n = if s.choice(999) < 8 { s.range(150, 500) } else { gen::count(s, focus.steps, 300) };
    let watch: BTreeSet<Vec<u8>> = pool.iter().cloned().collect();
    let mut universe: BTreeSet<Vec<u8>> = watch.clone();
    let mut steps: Vec<Step> = Vec::new();
    let mut seen = Seen::default();
    let mut all_in_scope = true;
    for i in 0..n {
        // Leaving the history early is a choice, so that failures shrink to short ones.
        if s.pct(2) && s.pct(20) {
            let k = s.pick(&pool).clone();
            if s.bool() && !focus.kinds.is_empty() {
                let kind = *s.pick(focus.kinds);
                let v = gen::val(s, kind, Size::Small);
                cx.trace(|| format!("[{}] state.insert {} = {}", i, show_key(&k), v.show()));
                m.map.insert(k.clone(), v.clone());
                apply_direct(&hop, &m, &k);
                steps.push(Step::Put(k, v));
            } else {
                cx.trace(|| format!("[{}] state.remove {}", i, show_key(&k)));
                m.map.remove(&k);
                apply_direct(&hop, &m, &k);
                steps.push(Step::Drop(k));
            }
            continue;
        }
        let req = gen::request(s, &m, &pool, &prof);
        if req.args.len() > 255 {
            return Err(pbt::run::harness_error("generated more than 255 arguments"));
        }
        let route = if s.bool() { Route::Builder } else { Route::Parser };
        let pre = prefix(s);
        let via = if s.pct(20) { &other } else { &hop };
        let before = m.clone();
        gen::universe(&mut universe, &req);
        cx.trace(|| format!("[{}] {}", i, req.show()));
        let (expect, failed, r) = perform(via, &mut m, &req, route, &pre, &watch);
        let scoped = (focus.scope)(&req, &expect, &before);
        all_in_scope &= scoped;
        seen.steps += 1;
        if scoped {
            if expect.is_err() {
                seen.err += 1;
            } else {
                seen.ok += 1;
            }
            seen.cmds.insert(req.cmd);
            if let Some(v) = req.args.first().and_then(|k| m.map.get(k)) {
                seen.kinds.insert(v.kind());
            }
            classify(cx, &req, &expect, &before);
        }
        steps.push(Step::Cmd(req.clone(), route));
        if let Err((what, msg)) = r {
            if focus.failures && failed && !expect.is_err() {
                // Failing is wrong, but doing so mustn't have an effect even then.
                for k in keys_of(&req).into_iter().chain(&watch) {
                    if let Err(e) = check_key(via, &before, k) {
                        return Err(fail(format!("effect:{}", codec::cmd_name(req.cmd)), format!("{} fails, yet {}", req.show(), e)));
                    }
                }
            }
            if scoped || !misbehaves_anyway(&start, &steps, focus, &watch) {
                return Err(fail(format!("{}:{}", what, codec::cmd_name(req.cmd)), format!("{}: {}", req.show(), msg)));
            }
            cx.class("ended early: another property's commands misbehave");
            return Ok(());
        }
    }
    // Keys that some request named in passing, and everything that was there at the start.
    universe.extend(start.iter().map(|(k, _)| k.clone()));
    for k in &universe {
        if let Err(e) = check_key(&hop, &m, k) {
            if all_in_scope {
                return Err(fail("state:end", format!("at the end, {}", e)));
            }
            cx.class("ended early: another property's commands misbehave");
            return Ok(());
        }
    }
    cx.nontrivial = (focus.nontrivial)(&seen);
    Ok(())
}

fn classify(cx: &mut Cx, req: &Req, expect: &Out, before: &Model) {
    cx.class(match (req.cmd, expect.is_err()) {
        (0, false) => "increment",
        (1, false) => "decrement",
        (2, false) => "increment:by",
        (3, false) => "decrement:by",
        (10, false) => "set",
        (11, false) => "get",
        (12, false) => "delete",
        (13, false) => "exists",
        (14, false) => "is",
        (15, false) => "rename",
        (16, false) => "type",
        (20, false) => "append",
        (21, false) => "length",
        (22, false) => "keys",
        (100, false) => "echo",
        (101, false) => "stats",
        (0..=3, true) => "failed counter",
        (10, true) => "failed set",
        (11, true) => "failed get",
        (12, true) => "failed delete",
        (15, true) => "failed rename",
        (20, true) => "failed append",
        _ => "other failure",
    });
    if !expect.is_err() {
        let k = req.args.first().and_then(|k| before.map.get(k));
        match (req.cmd, k) {
            (10, Some(v)) if req.kt.map_or(false, |t| t != v.kind()) => cx.class("set changes the type"),
            (10, Some(_)) => cx.class("set replaces"),
            (10, None) if req.kt.is_none() => cx.class("set creates with the default type"),
            (0..=3, None) => cx.class("counter created"),
            (0..=3, Some(Val::Float(..))) => cx.class("float counter"),
            (2, Some(Val::Int(v))) => {
                let by = req.args.get(1).and_then(|a| a.get(..8)).map_or(0, |a| {
                    a.iter().fold(0i64, |v, b| v << 8 | *b as i64)
                });
                if v.checked_add(by).is_none() {
                    cx.class("integer wraps around");
                }
            }
            (20, None) => cx.class("append creates"),
            (13 | 14, _) => match expect {
                Out::Val(Val::Bool(true)) if req.args.len() > 1 => cx.class("several keys, true"),
                Out::Val(Val::Bool(false)) => cx.class("false"),
                _ => {}
            },
            _ => {}
        }
        if let Out::Val(v) = expect {
            match v {
                Val::Map(_) => cx.class("answers a map"),
                Val::Set(_) => cx.class("answers a set"),
                Val::List(l) if l.len() > 255 => cx.class("answers a list of more than 255"),
                Val::Bytes(b) if b.len() > 65535 => cx.class("answers more than 65535 bytes"),
                Val::Str(s) if !s.is_ascii() => cx.class("answers non-ASCII text"),
                _ => {}
            }
        }
    } else if let Out::Err(e) = expect {
        cx.class(codec::ERRORS[*e as usize]);
    }
}

//                            inc dec iby dby set get del exi is ren typ app len key ech sta
const COUNTERS: [u32; 16] = [20, 18, 26, 24, 14, 4, 4, 0, 0, 3, 0, 2, 0, 0, 0, 0];
const SETGET: [u32; 16] = [2, 1, 1, 1, 50, 40, 4, 1, 1, 3, 1, 4, 1, 1, 0, 0];
const ERRORS: [u32; 16] = [10, 8, 10, 8, 20, 8, 10, 4, 4, 14, 6, 16, 8, 6, 0, 2];
const APPEND: [u32; 16] = [1, 0, 0, 0, 20, 3, 4, 0, 0, 3, 0, 50, 30, 0, 0, 0];
const MOVES: [u32; 16] = [3, 0, 1, 0, 25, 2, 25, 1, 0, 50, 0, 5, 0, 0, 0, 0];
const QUERIES: [u32; 16] = [2, 0, 1, 0, 24, 8, 5, 16, 16, 4, 14, 6, 14, 14, 4, 2];

const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7];

fn c01(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: gen::EVEN,
            wild: 7,
            odd: 3,
            large: 12,
            steps: (8, 50),
            kinds: ALL,
            preload: 15,
            huge: 2,
            scope: |_, _, _| true,
            nontrivial: |v| v.ok >= 5 && v.err >= 1 && v.cmds.len() >= 4,
            failures: false,
        },
    )
}

/// C01 with more keys than fit into two bytes, all of which are used again after all of them were created.
fn c01_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    const KEYS: u32 = 70_000;
    let hop = Hop::new();
    let mut m = Model::default();
    let none = BTreeSet::new();
    let mut n = 0;
    let mut run = |req: Req| -> CaseResult {
        n += 1;
        let route = if n % 2 == 0 { Route::Builder } else { Route::Parser };
        let (_, _, r) = perform(&hop, &mut m, &req, route, b"", &none);
        r.map_err(|(what, msg)| fail(format!("{}:{}", what, codec::cmd_name(req.cmd)), format!("with {} keys, {}: {}", m.map.len(), req.show(), msg)))
    };
    let key = |i: u32| format!("k{}", i).into_bytes();
    for i in 0..KEYS {
        let k = key(i);
        let text = format!("v{}", i).into_bytes();
        run(match i % 8 {
            0 => Req::new(10, Some(0), vec![k, text]),
            1 => Req::new(10, Some(1), vec![k, vec![1]]),
            2 => Req::new(0, Some(3), vec![k]),
            3 => Req::new(10, Some(3), vec![k, (i as i64).to_be_bytes().to_vec()]),
            4 => Req::new(20, Some(4), vec![k, text]),
            5 => Req::new(20, Some(5), vec![k, text]),
            6 => Req::new(10, Some(6), vec![k, b"n".to_vec(), text]),
            _ => Req::new(10, Some(7), vec![k, text]),
        })?;
    }
    for i in 0..KEYS {
        let k = key(i);
        run(match i / 8 % 10 {
            0 => Req::new(11, None, vec![k]),
            1 => Req::new(16, None, vec![k]),
            2 => Req::new(22, None, vec![k]),
            3 => Req::new(13, None, vec![k, key(KEYS - 1 - i), format!("x{}", i % 2 * i).into_bytes()]),
            4 => Req::new(20, None, vec![k, b"a".to_vec()]),
            5 => Req::new(0, None, vec![k]),
            6 => Req::new(21, None, vec![k]),
            7 => Req::new(15, None, vec![k, key(KEYS + i)]),
            8 => Req::new(12, None, vec![k]),
            _ => Req::new(14, Some((i % 8) as u8), vec![k]),
        })?;
    }
    for i in 0..2 * KEYS {
        check_key(&hop, &m, &key(i)).map_err(|e| fail("state:end", format!("with {} keys, at the end, {}", m.map.len(), e)))?;
    }
    cx.class("tens of thousands of keys");
    Ok(n)
}

fn c02(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: SETGET,
            wild: 4,
            odd: 2,
            large: 40,
            steps: (3, 24),
            kinds: ALL,
            preload: 15,
            huge: 2,
            scope: |r, _, _| r.cmd == 10 || r.cmd == 11,
            nontrivial: |v| v.ok >= 4 && v.cmds.len() == 2,
            failures: false,
        },
    )
}

fn c03(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: ERRORS,
            wild: 35,
            odd: 6,
            large: 6,
            steps: (6, 40),
            kinds: ALL,
            preload: 50,
            huge: 4,
            scope: |_, o, _| o.is_err(),
            nontrivial: |v| v.err >= 4 && v.cmds.len() >= 2,
            failures: true,
        },
    )
}

fn c04(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: COUNTERS,
            wild: 3,
            odd: 2,
            large: 0,
            steps: (4, 50),
            kinds: &[2, 3, 3, 2, 3, 2, 3, 2, 0, 1, 4, 5],
            preload: 40,
            huge: 0,
            scope: |r, _, _| r.cmd <= 3,
            nontrivial: |v| v.ok >= 4 && v.cmds.len() >= 2,
            failures: false,
        },
    )
}

fn c05(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: APPEND,
            wild: 3,
            odd: 2,
            large: 25,
            steps: (4, 30),
            kinds: &[0, 4, 5, 0, 4, 5, 0, 4, 5, 6, 7, 1, 2, 3],
            preload: 40,
            huge: 8,
            scope: |r, _, _| r.cmd == 20 || r.cmd == 21,
            nontrivial: |v| v.ok >= 3 && v.cmds.len() == 2,
            failures: false,
        },
    )
}

fn c06(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: MOVES,
            wild: 3,
            odd: 3,
            large: 6,
            steps: (5, 50),
            kinds: ALL,
            preload: 50,
            huge: 1,
            scope: |r, _, _| r.cmd == 12 || r.cmd == 15,
            nontrivial: |v| v.ok >= 3 && v.cmds.len() == 2,
            failures: false,
        },
    )
}

fn c07(s: &mut Src, cx: &mut Cx) -> CaseResult {
    history(
        s,
        cx,
        &Focus {
            weights: QUERIES,
            wild: 4,
            odd: 4,
            large: 8,
            steps: (5, 40),
            kinds: ALL,
            preload: 60,
            huge: 2,
            scope: |r, _, _| matches!(r.cmd, 11 | 13 | 14 | 16 | 21 | 22 | 100),
            nontrivial: |v| v.ok >= 5 && v.cmds.len() >= 3,
            failures: false,
        },
    )
}

fn odd_request(r: &Req) -> bool {
    r.args.iter().take(2).any(|a| a.is_empty() || a.starts_with(b"__hop__")) || matches!(r.cmd, 13 | 14) && r.args.iter().any(|a| a.is_empty() || reserved(a))
}

fn c08(s: &mut Src, cx: &mut Cx) -> CaseResult {
    // Only what the property says: no panics, an answer that is one, and nothing behind reserved keys.
    let hop = new_hop(s);
    let size = if s.pct(10) { Size::Large } else { Size::Small };
    let prof = Profile { weights: gen::EVEN, wild: 75, size, odd: 30 };
    let pool = gen::pool(s, 1, 4);
    let mut m = Model::default();
    for k in &pool {
        if s.pct(60) {
            let kind = s.below(8) as u8;
            let v = gen::val(s, kind, size);
            cx.trace(|| format!("start: {} = {}", show_key(k), v.show()));
            hop.state().insert(k.clone(), to_value(&v));
            m.map.insert(k.clone(), v);
        }
    }
    if s.choice(999) < 4 {
        let n = s.range(65_400, 65_535);
        let v = Val::List(vec![b"x".to_vec(); n]);
        hop.state().insert(pool[0].clone(), to_value(&v));
        m.map.insert(pool[0].clone(), v);
    }
    let n = s.range(2, 30);
    let mut odd = 0;
    for i in 0..n {
        let req = gen::request(s, &m, &pool, &prof);
        let pre = prefix(s);
        let route = if s.pct(30) { Route::Builder } else { Route::Parser };
        cx.trace(|| format!("[{}] {}", i, req.show()));
        let expect = m.exec(&req);
        let is_odd = odd_request(&req);
        let what = codec::cmd_name(req.cmd);
        let got = match catch(|| dispatch(&hop, &req, route, &pre)) {
            Ok(Answer::Out(o)) => o,
            Ok(Answer::Malformed(e)) => return Err(fail(format!("malformed:{}", what), format!("{}: {}", req.show(), e))),
            // The parser has its own properties.
            Ok(Answer::Undelivered(_)) => return Ok(()),
            Err(f) if f.harness => return Err(f),
            Err(f) => return Err(fail(format!("panic:{}", what), format!("{}: {}", req.show(), f.msg))),
        };
        if is_odd {
            odd += 1;
            cx.class("request with an empty, reserved or almost reserved key");
            ensure!(
                expect.matches(&got),
                format!("answer:{}", what),
                "{}: answers {} instead of {}", req.show(), got.show(), expect.show()
            );
            for k in req.args.iter().filter(|k| k.is_empty() || reserved(k)) {
                ensure!(!hop.state().contains_key(k), format!("reserved:{}", what), "{}: the key {} exists afterwards", req.show(), show_key(k));
            }
        }
        cx.class(if got.is_err() { "answered with an error" } else { "answered with a value" });
        // Continue from what the engine holds, whatever the model says.
        for k in keys_of(&req) {
            if k.is_empty() || reserved(k) {
                continue;
            }
            match hop.state().key_ref(k) {
                Some(v) => m.map.insert(k.clone(), to_val(v.value())),
                None => m.map.remove(k),
            };
        }
    }
    // The engine is still usable.
    for k in &pool {
        let a = dispatch(&hop, &Req::new(10, Some(3), vec![k.clone(), 7i64.to_be_bytes().to_vec()]), Route::Builder, &[]);
        ensure!(
            matches!(a, Answer::Out(Out::Val(Val::Int(7)))),
            "unusable", "the key {} can't be set afterwards", show_key(k)
        );
    }
    cx.nontrivial = odd > 0 && n > 3;
    Ok(())
}

const ASSUME: &[&str] = &[
    "histories have up to 500 commands over up to six keys (sometimes among 1200 others), with values up to 70000 bytes and lists of up to 65535 items",
    "the payload of a NaN and the sign of a zero that result from arithmetic are not specified",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "a history with at least 5 commands that succeed, one that fails, and 4 different commands",
            assumptions: ASSUME,
            quick: 300_000,
            run: c01,
            fixed: Some(c01_fixed),
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C02",
            rule: "a history with at least 4 successful sets and gets, of both kinds",
            assumptions: ASSUME,
            quick: 400_000,
            run: c02,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C03",
            rule: "a history with at least 4 failing commands of at least 2 kinds",
            assumptions: ASSUME,
            quick: 275_000,
            run: c03,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C04",
            rule: "a history with at least 4 successful counter commands of at least 2 kinds",
            assumptions: ASSUME,
            quick: 600_000,
            run: c04,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C05",
            rule: "a history with at least 3 successful appends and lengths, of both kinds",
            assumptions: ASSUME,
            quick: 175_000,
            run: c05,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C06",
            rule: "a history with at least 3 successful renames and deletes, of both kinds",
            assumptions: ASSUME,
            quick: 375_000,
            run: c06,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C07",
            rule: "a history with at least 5 successful queries of at least 3 kinds",
            assumptions: ASSUME,
            quick: 275_000,
            run: c07,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C08",
            rule: "more than 3 requests, at least one of which has an empty, reserved or almost reserved key",
            assumptions: ASSUME,
            quick: 500_000,
            run: c08,
            case_limit: 30,
            ..Check::default()
        },
    ]
}
