//! What doesn't depend on each other: threads with different keys (C30), and engines (C31).

use crate::{
    adapt::*,
    conc::{set_noise, Barrier},
    engine::check_key,
};
use hop_engine::{
    hop::Builder,
    metrics::Metric,
    session::{SessionId, SessionManager},
    Hop,
};
use pbt::{
    ensure, fail,
    gen::{self, Profile, Size},
    model::{Model, Out, Req, Val},
    run::catch,
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Mutex,
    thread,
};

// ---- C30 ----

struct Op {
    req: Req,
    route: Route,
    pre: Vec<u8>,
    expect: Out,
}

/// What a thread does, and what it leaves.
struct Part {
    ops: Vec<Op>,
    last: Model,
    keys: BTreeSet<Vec<u8>>,
    ok: usize,
}

/// The arguments of a request which are keys.
fn keys_of(req: &Req) -> &[Vec<u8>] {
    let n = match req.cmd {
        13 | 14 => req.args.len(),
        15 => 2,
        100 | 101 => 0,
        _ => 1,
    };
    &req.args[..n.min(req.args.len())]
}

fn attempt(hop: &Hop, op: &Op) -> Result<(), Failure> {
    let wrong = |what: &str, msg: String| Err(fail(format!("{}:{}", what, pbt::codec::cmd_name(op.req.cmd)), format!("{}: {}", op.req.show(), msg)));
    match catch(|| dispatch(hop, &op.req, op.route, &op.pre))? {
        Answer::Out(got) if op.expect.matches(&got) => Ok(()),
        Answer::Out(got) => wrong("answer", format!("answers {} instead of {}", got.show(), op.expect.show())),
        Answer::Malformed(e) => wrong("malformed", e),
        Answer::Undelivered(e) => wrong("undelivered", e),
    }
}

fn compare(hop: &Hop, part: &Part) -> Result<(), Failure> {
    for k in &part.keys {
        check_key(hop, &part.last, k).map_err(|e| fail("state", format!("at the end, {}", e)))?;
    }
    Ok(())
}

/// Whether a thread's commands misbehave when there's nothing else, which is no matter of interference.
fn misbehaves_alone(part: &Part) -> bool {
    let hop = Hop::new();
    part.ops.iter().any(|op| attempt(&hop, op).is_err()) || compare(&hop, part).is_err()
}

/// Keys that resemble the ones of another thread.
fn related(s: &mut Src, of: &[u8]) -> Vec<u8> {
    let mut k = of.to_vec();
    match s.below(8) {
        0 => k.push(s.choice(255) as u8),
        1 => {
            let i = s.below(k.len());
            k[i] ^= 0x20;
        }
        2 => {
            let i = s.below(k.len());
            k[i] = s.choice(255) as u8;
        }
        3 => k.reverse(),
        4 => k.insert(0, b'a'),
        5 => k.truncate(k.len() / 2),
        6 => k.push(0),
        _ => {
            let n = k.len();
            k.extend_from_within(..n);
        }
    }
    k
}

fn parts(s: &mut Src) -> Vec<Part> {
    let n = s.range(2, 6);
    let mut owner: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut first: Vec<Vec<u8>> = Vec::new();
    let size = if s.pct(6) { Size::Large } else { Size::Small };
    let prof = Profile { weights: gen::EVEN, wild: 4, size, odd: 1 };
    let resemble = s.pct(60);
    let long = s.pct(6);
    let mut out = Vec::new();
    for t in 0..n {
        let mut pool = Vec::new();
        for k in gen::pool(s, 1, 4) {
            let mut k = if resemble && !first.is_empty() {
                let of = s.pick(&first).clone();
                related(s, &of)
            } else {
                k
            };
            if k.is_empty() || pbt::model::reserved(&k) {
                k = b"k".to_vec();
            }
            while owner.contains_key(&k) {
                k.push(b'0' + t as u8);
            }
            owner.insert(k.clone(), t);
            pool.push(k);
        }
        if t == 0 {
            first = pool.clone();
        }
        let mut m = Model::default();
        let mut ops = Vec::new();
        let mut ok = 0;
        let count = if long { s.range(100, 300) } else { gen::count(s, (4, 30), 200) };
        for _ in 0..count {
            let req = gen::request(s, &m, &pool, &prof);
            let route = if s.pct(80) { Route::Parser } else { Route::Builder };
            let pre = prefix(s);
            // Statistics are everyone's.
            if req.cmd == 101 || keys_of(&req).iter().any(|k| owner.get(k).map_or(false, |o| *o != t)) {
                continue;
            }
            for k in keys_of(&req) {
                owner.insert(k.clone(), t);
            }
            let expect = m.exec(&req);
            if !expect.is_err() {
                ok += 1;
            }
            ops.push(Op { req, route, pre, expect });
        }
        let keys = owner.iter().filter(|(_, o)| **o == t).map(|(k, _)| k.clone()).collect();
        out.push(Part { ops, last: m, keys, ok });
    }
    out
}

fn apart(s: &mut Src, cx: &mut Cx) -> CaseResult {
    match s.weighted(&[65, 20, 15]) {
        0 => {}
        1 => return interleaved(s, cx),
        _ => return contended(s, cx),
    }
    let rounds = s.range(1, 3);
    let seed = s.choice(u64::MAX >> 1) + 1;
    let noisy = s.pct(50);
    let parts = parts(s);
    trace(cx, &parts);
    for round in 0..rounds {
        let hop = new_hop(s);
        let barrier = Barrier::new(parts.len());
        let trouble: Mutex<Option<(usize, Failure)>> = Mutex::new(None);
        thread::scope(|scope| {
            for (t, part) in parts.iter().enumerate() {
                let (hop, barrier, trouble) = (hop.clone(), &barrier, &trouble);
                scope.spawn(move || {
                    barrier.wait();
                    if noisy {
                        set_noise(pbt::src::mix(seed, (round * 16 + t) as u64) | 1);
                    }
                    let r = part.ops.iter().try_for_each(|op| attempt(&hop, op));
                    set_noise(0);
                    if let Err(f) = r {
                        trouble.lock().unwrap().get_or_insert((t, f));
                    }
                });
            }
        });
        let mut found = trouble.into_inner().unwrap();
        if found.is_none() {
            found = parts.iter().enumerate().find_map(|(t, p)| compare(&hop, p).err().map(|f| (t, f)));
        }
        if let Some((t, f)) = found {
            return verdict(cx, &parts[t], t, f, "while others use other keys at the same time");
        }
    }
    cx.class("threads with keys of their own");
    cx.nontrivial = parts.iter().filter(|p| p.ok >= 3).count() >= 2;
    Ok(())
}

fn verdict(cx: &mut Cx, part: &Part, t: usize, f: Failure, when: &str) -> CaseResult {
    if f.harness || !misbehaves_alone(part) {
        return Err(Failure { msg: format!("thread {}, {}: {}", t, when, f.msg), ..f });
    }
    cx.class("ended early: another property's commands misbehave");
    Ok(())
}

fn trace(cx: &mut Cx, parts: &[Part]) {
    for (t, p) in parts.iter().enumerate() {
        for op in &p.ops {
            cx.trace(|| format!("thread {}: {}", t, op.req.show()));
        }
    }
}

/// The same one command at a time, in an order that's part of the case.
fn interleaved(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let parts = parts(s);
    let hop = new_hop(s);
    let mut at = vec![0; parts.len()];
    loop {
        let left: Vec<usize> = (0..parts.len()).filter(|t| at[*t] < parts[*t].ops.len()).collect();
        if left.is_empty() {
            break;
        }
        let t = *s.pick(&left);
        let op = &parts[t].ops[at[t]];
        cx.trace(|| format!("client {}: {}", t, op.req.show()));
        at[t] += 1;
        if let Err(f) = attempt(&hop, op) {
            return verdict(cx, &parts[t], t, f, "with others' commands on other keys in between");
        }
    }
    for (t, p) in parts.iter().enumerate() {
        if let Err(f) = compare(&hop, p) {
            return verdict(cx, p, t, f, "with others' commands on other keys in between");
        }
    }
    cx.class("interleaved commands");
    cx.nontrivial = parts.iter().filter(|p| p.ok >= 3).count() >= 2;
    Ok(())
}

/// Threads with the same keys: all of them come to an end, with answers that are answers.
fn contended(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let n = s.range(2, 6);
    let pool = gen::pool(s, 1, 5);
    let mut weights = gen::EVEN;
    // Commands that deal with more than one key.
    for (i, c) in gen::CMDS.iter().enumerate() {
        if matches!(c, 13..=15) {
            weights[i] *= 4;
        }
    }
    let prof = Profile { weights, wild: 4, size: Size::Small, odd: 1 };
    let mut m = Model::default();
    let mut all: Vec<Vec<Op>> = (0..n).map(|_| Vec::new()).collect();
    for _ in 0..s.range(6, 40) * n {
        let t = s.below(n);
        let mut req = gen::request(s, &m, &pool, &prof);
        if req.cmd == 15 && s.pct(70) {
            req = Req::new(15, None, vec![s.pick(&pool).clone(), s.pick(&pool).clone()]);
        }
        let route = if s.bool() { Route::Parser } else { Route::Builder };
        let expect = m.exec(&req);
        cx.trace(|| format!("thread {}: {}", t, req.show()));
        all[t].push(Op { req, route, pre: Vec::new(), expect });
    }
    let seed = s.choice(u64::MAX >> 1) + 1;
    let noisy = s.pct(50);
    for round in 0..s.range(1, 4) {
        let hop = new_hop(s);
        let barrier = Barrier::new(n);
        let trouble: Mutex<Option<Failure>> = Mutex::new(None);
        thread::scope(|scope| {
            for (t, ops) in all.iter().enumerate() {
                let (hop, barrier, trouble) = (hop.clone(), &barrier, &trouble);
                scope.spawn(move || {
                    barrier.wait();
                    if noisy {
                        set_noise(pbt::src::mix(seed, (round * 16 + t) as u64) | 1);
                    }
                    for op in ops {
                        let f = match catch(|| dispatch(&hop, &op.req, op.route, &[])) {
                            Ok(Answer::Malformed(e)) => fail("malformed", format!("{}: {}", op.req.show(), e)),
                            Err(f) => f,
                            _ => continue,
                        };
                        trouble.lock().unwrap().get_or_insert(f);
                        break;
                    }
                    set_noise(0);
                });
            }
        });
        if let Some(f) = trouble.into_inner().unwrap() {
            // Without other threads it's about the commands.
            let hop = Hop::new();
            let alone = all.iter().flatten().any(|op| !matches!(catch(|| dispatch(&hop, &op.req, op.route, &[])), Ok(Answer::Out(_) | Answer::Undelivered(_))));
            if alone && !f.harness {
                cx.class("ended early: another property's commands misbehave");
                return Ok(());
            }
            return Err(f);
        }
    }
    cx.class("threads with the same keys");
    cx.nontrivial = all.iter().filter(|ops| ops.len() >= 5).count() >= 2;
    Ok(())
}

// ---- C31 ----

enum Act {
    Cmd(Req, Route),
    Clone,
    /// Drop one of the clones.
    Drop,
    /// Drop all of it, and begin with a new one.
    New(Vec<Setting>),
    AddSession,
    RemoveSession(u32),
    Subscribe(Vec<u8>, u32),
    Unsubscribe(Vec<u8>, u32),
    Leave(u32),
    Metrics,
    Put(Vec<u8>, Val),
}

impl Act {
    fn show(&self) -> String {
        match self {
            Act::Cmd(r, _) => r.show(),
            Act::Clone => "clone".into(),
            Act::Drop => "drop a clone".into(),
            Act::New(settings) => format!("new: {:?}", settings),
            Act::AddSession => "add a session".into(),
            Act::RemoveSession(i) => format!("remove the session {}", i),
            Act::Subscribe(k, i) => format!("subscribe {} to {}", i, show(k)),
            Act::Unsubscribe(k, i) => format!("unsubscribe {} from {}", i, show(k)),
            Act::Leave(i) => format!("remove the subscriptions of {}", i),
            Act::Metrics => "read metrics".into(),
            Act::Put(k, v) => format!("insert {} = {}", show(k), v.show()),
        }
    }
}

/// A call of the builder.
#[derive(Clone, Copy, Debug)]
enum Setting {
    Pubsub(bool),
    Sessions(usize),
    /// Continue with a clone of the builder.
    Clone,
}

fn settings(s: &mut Src) -> Vec<Setting> {
    if s.bool() {
        return Vec::new();
    }
    (0..s.range(1, 4))
        .map(|_| match s.weighted(&[5, 5, 2]) {
            0 => Setting::Pubsub(s.bool()),
            1 => Setting::Sessions(match s.below(3) {
                0 => *s.pick(&[0, 1, 2, 150, usize::MAX]),
                1 => s.choice(300) as usize,
                _ => gen::int(s) as usize,
            }),
            _ => Setting::Clone,
        })
        .collect()
}

struct Engine {
    hops: Vec<Hop>,
    m: Model,
    config: (bool, usize),
    sessions: BTreeSet<u32>,
    subs: BTreeSet<(Vec<u8>, u32)>,
}

impl Engine {
    fn new(settings: &[Setting]) -> Engine {
        let mut config = (true, usize::MAX);
        let hop = if settings.is_empty() {
            Hop::new()
        } else {
            let mut b = if settings.len() % 2 == 0 { Builder::new() } else { Hop::builder() };
            for set in settings {
                match *set {
                    Setting::Pubsub(p) => {
                        config.0 = p;
                        b.pubsub_enabled(p);
                    }
                    Setting::Sessions(n) => {
                        config.1 = n;
                        b.sessions_active_max(n);
                    }
                    Setting::Clone => b = b.clone(),
                }
            }
            b.build()
        };
        Engine { hops: vec![hop], m: Model::default(), config, sessions: BTreeSet::new(), subs: BTreeSet::new() }
    }

    /// Perform something through one of the clones.
    fn perform(&mut self, act: &Act, via: usize) -> Result<(), Failure> {
        let hop = &self.hops[via % self.hops.len()];
        match act {
            Act::Cmd(req, route) => {
                let expect = self.m.exec(req);
                attempt(hop, &Op { req: req.clone(), route: *route, pre: Vec::new(), expect })?;
            }
            Act::Clone => self.hops.push(hop.clone()),
            Act::Drop => {
                if self.hops.len() > 1 {
                    self.hops.remove(via % self.hops.len());
                }
            }
            Act::New(settings) => *self = Engine::new(settings),
            Act::AddSession => {
                let mut sessions: SessionManager = hop.sessions().clone();
                let id = sessions.add([7; 32]).id;
                ensure!(self.sessions.insert(id), "session", "a session gets the identifier {} of another of the engine", id);
                self.m.started += 1;
            }
            Act::RemoveSession(id) => {
                let got = hop.sessions().remove(*id);
                let want = self.sessions.remove(id);
                ensure!(got == want, "session", "removing the session {} of an engine that has {} it says {}", id, if want { "" } else { "not" }, got);
                self.m.ended += want as u64;
            }
            Act::Subscribe(k, id) => {
                let got = hop.pubsub().subscribe(k.clone(), SessionId::verif_new(*id)).is_some();
                let want = self.subs.insert((k.clone(), *id));
                ensure!(got == want, "subscription", "subscribing {} to {} says {}", id, show(k), got);
            }
            Act::Unsubscribe(k, id) => {
                let got = hop.pubsub().unsubscribe(k, SessionId::verif_new(*id));
                let want = self.subs.remove(&(k.clone(), *id));
                ensure!(got == want, "subscription", "unsubscribing {} from {} says {}", id, show(k), got);
            }
            Act::Leave(id) => {
                let got = hop.pubsub().remove_session(SessionId::verif_new(*id));
                let n = self.subs.len();
                self.subs.retain(|s| s.1 != *id);
                ensure!(got == (n != self.subs.len()), "subscription", "removing the subscriptions of {} says {}", id, got);
            }
            Act::Metrics => {
                let reader = hop.metrics();
                for (metric, want) in [
                    (Metric::CommandsSuccessful, self.m.ok),
                    (Metric::CommandsErrored, self.m.errored),
                    (Metric::SessionsStarted, self.m.started),
                    (Metric::SessionsEnded, self.m.ended),
                ] {
                    let got = reader.counter(&metric).map_or(0, |n| n as u64);
                    ensure!(got == want, "metrics", "{:?} is {} instead of {}", metric, got, want);
                }
            }
            Act::Put(k, v) => {
                hop.state().insert(k.clone(), to_value(v));
                self.m.map.insert(k.clone(), v.clone());
            }
        }
        Ok(())
    }

    fn check(&self, pool: &[Vec<u8>], via: usize) -> Result<(), Failure> {
        let hop = &self.hops[via % self.hops.len()];
        for k in pool {
            check_key(hop, &self.m, k).map_err(|e| fail("state", e))?;
        }
        let c = hop.config();
        let got = (c.pubsub_enabled(), c.sessions_active_max());
        ensure!(got == self.config, "config", "the configuration is {:?} instead of {:?}", got, self.config);
        for k in pool {
            for id in 0..3 {
                let got = hop.pubsub().get(k, SessionId::verif_new(id)).is_some();
                ensure!(got == self.subs.contains(&(k.clone(), id)), "subscription", "whether {} has subscribed to {} is said to be {}", id, show(k), got);
            }
        }
        Ok(())
    }
}

/// Perform what's to be done with one engine, or with all of them.
fn replay(acts: &[(usize, usize, bool, Act)], engines: &mut [Engine], only: Option<usize>, pool: &[Vec<u8>]) -> Result<(), (usize, Failure)> {
    for (e, via, elsewhere, act) in acts {
        if only.map_or(false, |o| o != *e) {
            continue;
        }
        let engine = &mut engines[*e];
        let r = if *elsewhere {
            // It makes no difference which thread does it.
            thread::scope(|scope| {
                let h = scope.spawn(|| catch(|| engine.perform(act, *via)));
                h.join().unwrap_or_else(|_| Err(fail("panic", "a thread panicked")))
            })
        } else {
            catch(|| engine.perform(act, *via))
        };
        r.and_then(|r| r).map_err(|f| (*e, Failure { msg: format!("engine {}: {}", e, f.msg), ..f }))?;
        for (i, engine) in engines.iter().enumerate() {
            if only.map_or(true, |o| o == i) {
                engine.check(pool, *via).map_err(|f| (i, Failure { msg: format!("after \"{}\" of engine {}, engine {}: {}", act.show(), e, i, f.msg), ..f }))?;
            }
        }
    }
    Ok(())
}

fn engines(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let n = s.range(2, 4);
    let pool = gen::pool(s, 1, 3);
    let prof = Profile { weights: gen::EVEN, wild: 5, size: Size::Small, odd: 1 };
    let starts: Vec<_> = (0..n).map(|_| settings(s)).collect();
    let begin = || starts.iter().map(|c| Engine::new(c)).collect::<Vec<_>>();
    cx.trace(|| format!("engines: {:?}", starts));
    let count = gen::count(s, (5, 40), 300);
    let threads = s.pct(25);
    let mut acts = Vec::new();
    // What the commands are going to find.
    let mut ahead: Vec<Model> = vec![Model::default(); n];
    let mut cmds = vec![0; n];
    for _ in 0..count {
        let e = s.below(n);
        let act = match s.weighted(&[60, 5, 4, 3, 6, 6, 6, 4, 2, 5, 4]) {
            0 => {
                let req = gen::request(s, &ahead[e], &pool, &prof);
                ahead[e].exec(&req);
                cmds[e] += 1;
                Act::Cmd(req, if s.bool() { Route::Parser } else { Route::Builder })
            }
            1 => Act::Clone,
            2 => Act::Drop,
            3 => {
                ahead[e] = Model::default();
                Act::New(settings(s))
            }
            4 => Act::AddSession,
            5 => Act::RemoveSession(s.choice(3) as u32),
            6 => Act::Subscribe(s.pick(&pool).clone(), s.choice(2) as u32),
            7 => Act::Unsubscribe(s.pick(&pool).clone(), s.choice(2) as u32),
            8 => Act::Leave(s.choice(2) as u32),
            9 => Act::Metrics,
            _ => {
                let k = s.pick(&pool).clone();
                let kind = s.choice(7) as u8;
                let v = gen::val(s, kind, Size::Small);
                ahead[e].map.insert(k.clone(), v.clone());
                Act::Put(k, v)
            }
        };
        cx.trace(|| format!("engine {}: {}", e, act.show()));
        acts.push((e, s.below(4), threads && s.pct(30), act));
    }
    if let Err((e, f)) = replay(&acts, &mut begin(), None, &pool) {
        // Does it without the others, too?
        if !f.harness && replay(&acts, &mut begin(), Some(e), &pool).is_err() {
            let same: Vec<_> = acts.into_iter().map(|(e, _, _, act)| (e, 0, false, act)).filter(|a| !matches!(a.3, Act::Clone | Act::Drop)).collect();
            if !matches!(f.sig.as_str(), "config") && replay(&same, &mut begin(), Some(e), &pool).is_err() {
                cx.class("ended early: another property's commands misbehave");
                return Ok(());
            }
        }
        return Err(f);
    }
    cx.class(if threads { "with several threads" } else { "with one thread" });
    cx.nontrivial = cmds.iter().filter(|c| **c >= 2).count() >= 2;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C30",
            rule: "at least two threads or clients have three successful commands each; of those with the same keys, at least two have five commands each",
            assumptions: &[
                "up to 6 threads",
                "interleavings within the engine are those of real threads, with random delays at operations on the keyspace and at allocations",
                "a program that hasn't ended within 30 s never ends",
            ],
            quick: 30_000,
            threads: 6,
            run: apart,
            case_limit: 30,
            ..Check::default()
        },
        Check {
            id: "C31",
            rule: "at least two engines are given two commands each",
            assumptions: &["up to 4 engines, with up to three keys in common"],
            quick: 250_000,
            run: engines,
            ..Check::default()
        },
    ]
}
