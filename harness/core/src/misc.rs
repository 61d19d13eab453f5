//! C16 and C24 to C28: statistics, sessions, subscriptions, metrics, timers, and the keyspace as a library.

use crate::{adapt::*, engine::check_key};
use hop_engine::{
    command::request::RequestBuilder,
    metrics::Metric,
    pubsub::{KeyUpdate, PubSubManager, Subscription},
    session::{SessionId, SessionManager},
    state::{State, Value},
    Hop,
};
use hop_internal_metrics::{Metrics, Reader, Snapshot, Writer};
use hop_internal_timer::Timer;
use pbt::{
    codec, ensure, fail,
    gen::{self, Profile, Size},
    model::{Model, Out, Req, Val},
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    future::Future,
    pin::pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Barrier, Weak,
    },
    task::{Context, Poll, Waker},
    thread,
    time::Duration,
};

const NAMES: [&str; 4] = ["commands_errored", "commands_successful", "sessions_ended", "sessions_started"];

/// The statistics that are reported, by command and by metric.
fn stats(hop: &Hop) -> Result<BTreeMap<String, i64>, Failure> {
    match dispatch(hop, &Req::new(101, None, vec![]), Route::Builder, &[]) {
        Answer::Out(Out::Val(Val::Map(m))) => {
            let mut out = BTreeMap::new();
            for (k, v) in m {
                let name = String::from_utf8_lossy(&k).into_owned();
                let mut b = [0; 8];
                ensure!(v.len() == 8, "format", "the statistic {} has the value {}", name, show(&v));
                b.copy_from_slice(&v);
                ensure!(NAMES.contains(&&name[..]), "name", "there's an unknown statistic {:?}", name);
                out.insert(name, i64::from_be_bytes(b));
            }
            Ok(out)
        }
        Answer::Out(o) => Err(fail("answer", format!("stats answers {}", o.show()))),
        Answer::Malformed(e) | Answer::Undelivered(e) => Err(fail("answer", format!("stats: {}", e))),
    }
}

/// C16
fn statistics(s: &mut Src, cx: &mut Cx) -> CaseResult {
    if s.pct(12) {
        return statistics_threads(s, cx);
    }
    let hop = new_hop(s);
    let mut sessions = hop.sessions().clone();
    let pool = gen::pool(s, 1, 4);
    let prof = Profile { weights: gen::EVEN, wild: 15, size: Size::Small, odd: 5 };
    let mut m = Model::default();
    let (mut ok, mut errored, mut started, mut ended) = (0i64, 0i64, 0i64, 0i64);
    let mut live: Vec<u32> = Vec::new();
    let n = gen::count(s, (3, 40), 400);
    let mut reports = 0;
    if s.choice(9999) < 6 {
        // More than fit into two bytes.
        let (a, b, c, d) = (s.range(0, 70_000), s.range(0, 70_000), s.range(0, 70_000), s.range(0, 70_000));
        cx.trace(|| format!("{} commands that succeed, {} that fail, {} sessions of which {} are removed", a, b, c, d.min(c)));
        cx.class("tens of thousands of commands or sessions");
        // An echo succeeds, and a deletion without a key fails.
        let requests = [Req::new(100, None, vec![b"x".to_vec()]), Req::new(12, None, vec![])];
        for (n, req) in [(a, &requests[0]), (b, &requests[1])] {
            for _ in 0..n {
                match dispatch(&hop, req, Route::Builder, &[]) {
                    Answer::Out(o) if o.is_err() => errored += 1,
                    _ => ok += 1,
                }
            }
        }
        for i in 0..c {
            let id = sessions.add([0; 32]).id;
            started += 1;
            if i < d && sessions.remove(id) {
                ended += 1;
            }
        }
    }
    for i in 0..n {
        match s.weighted(&[60, 20, 10, 10]) {
            0 => {
                let mut req = gen::request(s, &m, &pool, &prof);
                if req.cmd == 101 && req.kt.is_none() {
                    req = Req::new(100, None, vec![]);
                }
                cx.trace(|| format!("[{}] {}", i, req.show()));
                let pre = prefix(s);
                m.exec(&req);
                match dispatch(&hop, &req, Route::Parser, &pre) {
                    Answer::Out(o) if o.is_err() => errored += 1,
                    Answer::Undelivered(_) => return Ok(()),
                    // What it answers isn't of interest, only that it didn't fail.
                    _ => ok += 1,
                }
            }
            1 => {
                cx.trace(|| format!("[{}] stats", i));
                reports += 1;
                let got = stats(&hop)?;
                let expect = [errored, ok, ended, started];
                for (name, e) in NAMES.iter().zip(expect) {
                    let g = got.get(*name).copied().unwrap_or(0);
                    ensure!(g == e, "count", "{} is {} instead of {}", name, g, e);
                }
                ok += 1;
            }
            2 => {
                cx.trace(|| format!("[{}] add a session", i));
                let id = sessions.add([i as u8; 32]).id;
                live.push(id);
                started += 1;
            }
            _ => {
                let id = if live.is_empty() || s.pct(30) { s.choice(20) as u32 } else { live[s.below(live.len())] };
                cx.trace(|| format!("[{}] remove session {}", i, id));
                if sessions.remove(id) {
                    ended += 1;
                    cx.class("session ended");
                } else {
                    cx.class("no such session");
                }
                live.retain(|l| *l != id);
            }
        }
        if s.pct(20) {
            let r = hop.metrics();
            for (metric, e) in [
                (Metric::CommandsErrored, errored),
                (Metric::CommandsSuccessful, ok),
                (Metric::SessionsEnded, ended),
                (Metric::SessionsStarted, started),
            ] {
                let g = r.counter(&metric).unwrap_or(0);
                ensure!(g as i64 == e, "metric", "the metric {} is {} instead of {}", metric.name(), g, e);
            }
        }
    }
    let got = stats(&hop)?;
    for (name, e) in NAMES.iter().zip([errored, ok, ended, started]) {
        let g = got.get(*name).copied().unwrap_or(0);
        ensure!(g == e, "count", "at the end {} is {} instead of {}", name, g, e);
    }
    cx.class("sequential");
    cx.nontrivial = ok > 0 && errored > 0 && reports > 0;
    Ok(())
}

fn statistics_threads(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let hop = Hop::new();
    let threads = s.range(2, 4);
    let per = s.range(20, 150) as i64;
    let bad = s.range(2, 7) as i64;
    cx.trace(|| format!("{} threads with {} commands each, every {}th failing", threads, per, bad));
    let start = Arc::new(Barrier::new(threads));
    let results: Vec<_> = (0..threads)
        .map(|t| {
            let (hop, start) = (hop.clone(), start.clone());
            thread::spawn(move || -> Result<(i64, i64, i64), Failure> {
                let (mut ok, mut err, mut ended) = (0, 0, 0);
                let mut sessions = hop.sessions().clone();
                let mut last: BTreeMap<String, i64> = BTreeMap::new();
                start.wait();
                for i in 0..per {
                    let req = if i % bad == 0 {
                        Req::new(11, Some(3), vec![b"missing".to_vec()])
                    } else {
                        Req::new(0, None, vec![format!("k{}", (t as i64 + i) % 3).into_bytes()])
                    };
                    match dispatch(&hop, &req, Route::Builder, &[]) {
                        Answer::Out(o) if o.is_err() => err += 1,
                        _ => ok += 1,
                    }
                    if i % 16 == 3 {
                        let before = ok;
                        let got = stats(&hop)?;
                        ok += 1;
                        for (k, v) in &last {
                            let g = got.get(k).copied().unwrap_or(0);
                            ensure!(g >= *v, "decreased", "{} decreased from {} to {}", k, v, g);
                        }
                        let g = got.get("commands_successful").copied().unwrap_or(0);
                        ensure!(g >= before, "behind", "{} successful commands are reported after {} of this thread", g, before);
                        last = got;
                    }
                    if i % 8 == 5 {
                        let id = sessions.add([t as u8; 32]).id;
                        if i % 16 == 5 && sessions.remove(id) {
                            ended += 1;
                        }
                    }
                }
                Ok((ok, err, ended))
            })
        })
        .collect();
    let (mut ok, mut err, mut ended) = (0, 0, 0);
    for r in results {
        let (a, b, c) = r.join().map_err(|_| fail("panic", "a thread panicked"))??;
        ok += a;
        err += b;
        ended += c;
    }
    let started = threads as i64 * (0..per).filter(|i| i % 8 == 5).count() as i64;
    let got = stats(&hop)?;
    for (name, e) in NAMES.iter().zip([err, ok, ended, started]) {
        let g = got.get(*name).copied().unwrap_or(0);
        ensure!(g == e, "concurrent-count", "after {} threads {} is {} instead of {}", threads, name, g, e);
    }
    cx.class("concurrent");
    cx.nontrivial = true;
    Ok(())
}

/// C24
fn sessions(s: &mut Src, cx: &mut Cx) -> CaseResult {
    if s.pct(12) {
        return sessions_threads(s, cx);
    }
    let hop = new_hop(s);
    let mut managers: Vec<SessionManager> = vec![hop.sessions().clone()];
    let mut live: BTreeMap<u32, [u8; 32]> = BTreeMap::new();
    let mut ever: BTreeSet<u32> = BTreeSet::new();
    let n = gen::count(s, (2, 40), 400);
    let mut removed = 0;
    if s.choice(9999) < 6 {
        // More than fit into two bytes.
        let n = s.range(300, 140_000);
        let keep = s.range(1, 1000);
        cx.trace(|| format!("{} sessions are added, and all but every {}th removed", n, keep));
        cx.class("up to 140000 sessions");
        for i in 0..n {
            let mut token = [i as u8; 32];
            token[..8].copy_from_slice(&(i as u64).to_be_bytes());
            let id = {
                let guard = managers[0].add(token);
                ensure!(guard.client_token == token && *guard.key() == guard.id, "token", "the session {} has another client token", guard.id);
                guard.id
            };
            ensure!(ever.insert(id), "unique", "the identifier {} is given to a second session", id);
            if i % keep == 0 {
                live.insert(id, token);
            } else {
                ensure!(managers[0].remove(id), "remove", "the session {} can't be removed", id);
            }
        }
    }
    for i in 0..n {
        if s.pct(10) {
            let c = managers[s.below(managers.len())].clone();
            managers.push(c);
        }
        let w = s.below(managers.len());
        if s.pct(55) {
            let mut token = [0; 32];
            let fill = s.choice(255) as u8;
            token[s.below(32)] = fill;
            token[0] ^= i as u8;
            let guard = managers[w].add(token);
            let (key, id, got) = (*guard.key(), guard.id, guard.client_token);
            drop(guard);
            cx.trace(|| format!("[{}] add: {}", i, id));
            ensure!(key == id, "identifier", "the session {} is kept as {}", id, key);
            ensure!(got == token, "token", "the session {} has another client token", id);
            ensure!(ever.insert(id), "unique", "the identifier {} is given to a second session", id);
            live.insert(id, token);
        } else {
            let id = match s.below(4) {
                0 => s.choice(30) as u32,
                1 => *s.pick(&[u32::MAX, 0, 1, 1000]),
                2 if !ever.is_empty() => *ever.iter().nth(s.below(ever.len())).unwrap_or(&0),
                _ => match live.len() {
                    0 => 0,
                    l => *live.keys().nth(s.below(l)).unwrap_or(&0),
                },
            };
            let got = managers[w].remove(id);
            let expect = live.remove(&id).is_some();
            cx.trace(|| format!("[{}] remove {}: {}", i, id, got));
            ensure!(got == expect, "remove", "removing {} says {}", id, got);
            if got {
                removed += 1;
            }
            cx.class(if got { "removed" } else { "removed nothing" });
        }
    }
    // Each of the rest can be removed exactly once.
    for id in live.keys() {
        ensure!(managers[0].remove(*id), "remove", "the session {} can't be removed at the end", id);
        ensure!(!managers[0].remove(*id), "remove", "the session {} can be removed twice", id);
    }
    cx.nontrivial = removed > 0 && ever.len() > 2;
    Ok(())
}

fn sessions_threads(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let hop = Hop::new();
    let threads = s.range(2, 4);
    let per = s.range(10, 120);
    let before = s.range(0, 20);
    cx.trace(|| format!("{} threads add {} sessions each", threads, per));
    let mut first = hop.sessions().clone();
    let shared: Vec<u32> = (0..before).map(|_| first.add([0; 32]).id).collect();
    let start = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (mut sessions, start, shared) = (hop.sessions().clone(), start.clone(), shared.clone());
            thread::spawn(move || {
                start.wait();
                let mut ids = Vec::new();
                let mut removed = Vec::new();
                let mut bad = None;
                for i in 0..per {
                    let g = sessions.add([t as u8; 32]);
                    let id = g.id;
                    if g.client_token != [t as u8; 32] {
                        bad = Some(format!("the session {} has another client token", id));
                    }
                    drop(g);
                    ids.push(id);
                    if i % 3 == 0 && !sessions.remove(id) {
                        bad = Some(format!("the session {} can't be removed", id));
                    }
                    if let Some(id) = shared.get(i) {
                        if sessions.remove(*id) {
                            removed.push(*id);
                        }
                    }
                }
                (ids, removed, bad)
            })
        })
        .collect();
    let mut ever: BTreeSet<u32> = shared.iter().copied().collect();
    let mut gone: Vec<u32> = Vec::new();
    ensure!(ever.len() == shared.len(), "unique", "identifiers are given twice");
    for h in handles {
        let (ids, removed, bad) = h.join().map_err(|_| fail("panic", "a thread panicked"))?;
        if let Some(b) = bad {
            return Err(fail("concurrent", b));
        }
        for id in ids {
            ensure!(ever.insert(id), "unique", "the identifier {} is given to two sessions", id);
        }
        gone.extend(removed);
    }
    gone.sort_unstable();
    let expect: BTreeSet<u32> = shared.iter().take(per).copied().collect();
    ensure!(
        gone == expect.iter().copied().collect::<Vec<_>>(),
        "remove", "{} removals of {} sessions succeeded", gone.len(), expect.len()
    );
    cx.class("concurrent");
    cx.nontrivial = true;
    Ok(())
}

fn poll<F: Future>(f: F) -> Poll<F::Output> {
    let mut f = pin!(f);
    f.as_mut().poll(&mut Context::from_waker(Waker::noop()))
}

struct Sub {
    weak: Weak<Subscription>,
}

/// C25
fn subscriptions(s: &mut Src, cx: &mut Cx) -> CaseResult {
    if s.pct(4) {
        return subscriptions_threads(s, cx);
    }
    let hop = new_hop(s);
    let own = PubSubManager::default();
    let managers: Vec<PubSubManager> = if s.bool() {
        vec![hop.pubsub().clone(), hop.pubsub().clone()]
    } else {
        vec![own.clone(), own]
    };
    if s.choice(999) < 3 {
        return many_subscriptions(s, cx, &managers);
    }
    let pool = gen::pool(s, 1, 4);
    let ids: Vec<u32> = {
        let mut v: Vec<u32> = (0..s.range(1, 4)).map(|_| s.choice(5) as u32).collect();
        if s.pct(10) {
            v.push(u32::MAX);
        }
        v
    };
    let mut subs: BTreeMap<(Vec<u8>, u32), Sub> = BTreeMap::new();
    let n = gen::count(s, (3, 40), 200);
    let mut effects = BTreeSet::new();
    for i in 0..n {
        let p = &managers[s.below(2)];
        let key = s.pick(&pool).clone();
        let id = *s.pick(&ids);
        let sid = SessionId::verif_new(id);
        let at = (key.clone(), id);
        match s.weighted(&[45, 20, 25, 10]) {
            0 => {
                let got = p.subscribe(key.clone(), sid);
                cx.trace(|| format!("[{}] subscribe {} by {}: {}", i, show(&key), id, got.is_some()));
                let expect = !subs.contains_key(&at);
                ensure!(got.is_some() == expect, "subscribe", "subscribing to {} by {} {}", show(&key), id, if expect { "fails" } else { "succeeds twice" });
                if let Some(weak) = got {
                    ensure!(weak.upgrade().is_some(), "dead", "the new subscription of {} by {} doesn't exist", show(&key), id);
                    ensure!(
                        subs.values().all(|o| !o.weak.ptr_eq(&weak)),
                        "shared", "the subscription of {} by {} is another one's", show(&key), id
                    );
                    subs.insert(at, Sub { weak });
                    effects.insert("subscribed");
                } else {
                    cx.class("already subscribed");
                }
            }
            1 => {
                let got = p.get(&key, sid);
                cx.trace(|| format!("[{}] get {} of {}: {}", i, show(&key), id, got.is_some()));
                match (subs.get(&at), got) {
                    (None, None) => cx.class("no subscription"),
                    (Some(e), Some(g)) => {
                        ensure!(e.weak.ptr_eq(&g), "other", "the subscription of {} by {} isn't the one that was made", show(&key), id);
                        cx.class("retrieved");
                    }
                    (e, g) => {
                        return Err(fail("get", format!("there's {} subscription of {} by {}, but it {}", if e.is_some() { "a" } else { "no" }, show(&key), id, if g.is_some() { "is found" } else { "isn't found" })))
                    }
                }
            }
            2 => {
                let held = subs.get(&at).and_then(|e| if s.pct(20) { e.weak.upgrade() } else { None });
                let got = p.unsubscribe(&key, sid);
                cx.trace(|| format!("[{}] unsubscribe {} by {}: {}", i, show(&key), id, got));
                let expect = subs.remove(&at);
                ensure!(got == expect.is_some(), "unsubscribe", "unsubscribing from {} by {} says {}", show(&key), id, got);
                if let Some(e) = expect {
                    if held.is_none() {
                        ensure!(e.weak.upgrade().is_none(), "lingers", "the subscription of {} by {} still exists", show(&key), id);
                    }
                    effects.insert("unsubscribed");
                }
            }
            _ => {
                let mine: Vec<(Vec<u8>, u32)> = subs.keys().filter(|k| k.1 == id).cloned().collect();
                let held: Vec<Arc<Subscription>> = mine.iter().filter_map(|k| subs[k].weak.upgrade()).collect();
                ensure!(held.len() == mine.len(), "vanished", "a subscription of the session {} vanished", id);
                let receivers: Vec<_> = held.iter().map(|h| h.receiver()).collect();
                let senders: Vec<_> = held.iter().map(|h| h.sender()).collect();
                // A subscription that someone still has is closed, too.
                let mut held: Option<Vec<Arc<Subscription>>> = Some(held).filter(|_| s.pct(30));
                let got = p.remove_session(sid);
                cx.trace(|| format!("[{}] remove the session {}: {}", i, id, got));
                ensure!(got == !mine.is_empty(), "remove-session", "removing the session {}, with {} subscriptions, says {}", id, mine.len(), got);
                for r in &receivers {
                    ensure!(
                        matches!(poll(r.receive()), Poll::Ready(None)),
                        "open", "a subscription of the removed session {} isn't closed", id
                    );
                }
                for t in &senders {
                    ensure!(
                        matches!(poll(t.send(KeyUpdate::Updated(Value::Integer(1)))), Poll::Ready(Err(_))),
                        "open", "a subscription of the removed session {} can be sent to", id
                    );
                }
                held.take();
                for k in mine {
                    if let Some(sub) = subs.remove(&k) {
                        ensure!(sub.weak.upgrade().is_none(), "lingers", "the subscription of {} by the removed session {} still exists", show(&k.0), id);
                    }
                    effects.insert("removed by session");
                }
            }
        }
        // The others are as they were.
        for ((k, id), sub) in &subs {
            let alive = sub.weak.upgrade();
            ensure!(alive.is_some(), "vanished", "the subscription of {} by {} vanished", show(k), id);
            let alive = alive.unwrap_or_default();
            ensure!(
                matches!(poll(alive.receiver().receive()), Poll::Pending),
                "closed", "the subscription of {} by {} is closed", show(k), id
            );
            match p.get(k, SessionId::verif_new(*id)) {
                Some(g) => ensure!(g.ptr_eq(&sub.weak), "other", "the subscription of {} by {} isn't the one that was made", show(k), id),
                None => return Err(fail("get", format!("the subscription of {} by {} isn't found", show(k), id))),
            }
        }
        for k in &pool {
            for id in &ids {
                if !subs.contains_key(&(k.clone(), *id)) {
                    ensure!(p.get(k, SessionId::verif_new(*id)).is_none(), "get", "there's a subscription of {} by {}", show(k), id);
                }
            }
        }
    }
    for e in &effects {
        cx.class(e);
    }
    cx.nontrivial = effects.len() >= 2;
    Ok(())
}

/// As many subscriptions as a busy server would have.
fn many_subscriptions(s: &mut Src, cx: &mut Cx, managers: &[PubSubManager]) -> CaseResult {
    let (sessions, keys) = match s.below(4) {
        0 => (s.range(1, 3), s.range(300, 3000)),
        1 => (s.range(300, 3000), s.range(1, 3)),
        _ => (s.range(10, 60), s.range(10, 60)),
    };
    let base = *s.pick(&[0u32, 1, 250, 65_500, u32::MAX - 5000]);
    cx.trace(|| format!("{} sessions from {} subscribe to {} keys", sessions, base, keys));
    cx.class("hundreds of subscriptions");
    let id = |i: usize| SessionId::verif_new(base + i as u32);
    let key = |k: usize| format!("key{}", k).into_bytes();
    let p = &managers[0];
    let mut all = Vec::new();
    for i in 0..sessions {
        for k in 0..keys {
            match p.subscribe(key(k), id(i)) {
                Some(w) => all.push(w),
                None => return Err(fail("subscribe", format!("subscribing to {} by {} fails", k, i))),
            }
        }
    }
    // Some are unsubscribed and some sessions are removed.
    let (nth, gone) = (s.range(2, 9), s.range(2, 9));
    let removed = |i: usize| i % gone == 1;
    let off = |i: usize, k: usize| (i + k) % nth == 0;
    for i in 0..sessions {
        for k in (0..keys).filter(|k| off(i, *k)) {
            ensure!(managers[1].unsubscribe(&key(k), id(i)), "unsubscribe", "unsubscribing from {} by {} fails", k, i);
        }
    }
    let held: Vec<_> = all.iter().map(|w| w.upgrade()).collect();
    for i in (0..sessions).filter(|i| removed(*i)) {
        let any = (0..keys).any(|k| !off(i, k));
        ensure!(managers[1].remove_session(id(i)) == any, "remove-session", "removing the session {} says {}", i, !any);
    }
    for i in 0..sessions {
        for k in 0..keys {
            let at = i * keys + k;
            let there = !removed(i) && !off(i, k);
            let found = p.get(&key(k), id(i));
            ensure!(found.is_some() == there, "get", "the subscription of {} by {} is{} found", k, i, if there { "n't" } else { "" });
            ensure!(found.map_or(true, |f| f.ptr_eq(&all[at])), "other", "the subscription of {} by {} isn't the one that was made", k, i);
            ensure!(held[at].is_some() != off(i, k), "lingers", "the subscription of {} by {} exists: {}", k, i, held[at].is_some());
            if let Some(h) = &held[at] {
                let closed = matches!(poll(h.receiver().receive()), Poll::Ready(None));
                ensure!(closed == removed(i), "closed", "the subscription of {} by {} is closed: {}", k, i, closed);
            }
            let again = managers[1].unsubscribe(&key(k), id(i));
            ensure!(again == there, "unsubscribe", "unsubscribing from {} by {} says {} in the end", k, i, again);
        }
    }
    cx.nontrivial = true;
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum SubOp {
    Subscribe(usize, u32),
    Get(usize, u32),
    Unsubscribe(usize, u32),
    Remove(u32),
}

struct SubEvent {
    thread: usize,
    op: SubOp,
    call: u64,
    ret: u64,
    /// Whether it had an effect or found something.
    yes: bool,
    weak: Option<Weak<Subscription>>,
}

/// Whether the operations have an order that explains what they answered, each between its call and its return.
/// The state is which event made the subscription of each pair.
fn subs_explained(events: &[SubEvent], done: u32, state: &BTreeMap<(usize, u32), usize>, seen: &mut BTreeSet<(u32, Vec<((usize, u32), usize)>)>) -> bool {
    if done.count_ones() as usize == events.len() {
        return true;
    }
    if !seen.insert((done, state.iter().map(|(k, v)| (*k, *v)).collect())) {
        return false;
    }
    let first_ret = events.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap_or(0);
    for (i, e) in events.iter().enumerate() {
        if done & (1 << i) != 0 || e.call > first_ret {
            continue;
        }
        let mut next = state.clone();
        let ok = match e.op {
            SubOp::Subscribe(k, id) => {
                let vacant = !next.contains_key(&(k, id));
                if vacant {
                    next.insert((k, id), i);
                }
                e.yes == vacant
            }
            SubOp::Get(k, id) => match (next.get(&(k, id)), &e.weak) {
                (None, None) => true,
                (Some(j), Some(w)) => events[*j].weak.as_ref().is_some_and(|o| o.ptr_eq(w)),
                _ => false,
            },
            SubOp::Unsubscribe(k, id) => e.yes == next.remove(&(k, id)).is_some(),
            SubOp::Remove(id) => {
                let n = next.len();
                next.retain(|at, _| at.1 != id);
                e.yes == (next.len() != n)
            }
        };
        if ok && subs_explained(events, done | 1 << i, &next, seen) {
            return true;
        }
    }
    false
}

/// C25, with several threads: what each operation answers is as if they had run one after the other.
fn subscriptions_threads(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let keys = s.range(1, 2);
    let pool: Vec<Vec<u8>> = (0..keys).map(|i| vec![b'k', i as u8]).collect();
    let sessions = s.range(1, 2) as u32;
    let draw = |s: &mut Src| {
        let (k, id) = (s.below(keys), s.below(sessions as usize) as u32);
        match s.weighted(&[35, 10, 40, 15]) {
            0 => SubOp::Subscribe(k, id),
            1 => SubOp::Get(k, id),
            2 => SubOp::Unsubscribe(k, id),
            _ => SubOp::Remove(id),
        }
    };
    let before: Vec<SubOp> = (0..s.range(0, 2)).map(|_| SubOp::Subscribe(s.below(keys), s.below(sessions as usize) as u32)).collect();
    let threads: Vec<Vec<SubOp>> = (0..s.range(2, 3)).map(|_| (0..s.range(1, 3)).map(|_| draw(s)).collect()).collect();
    let rounds = *s.pick(&[10usize, 40]);
    for (t, ops) in threads.iter().enumerate() {
        cx.trace(|| format!("thread {}: {:?}", t, ops));
    }
    cx.trace(|| format!("before: {:?}; {} rounds", before, rounds));
    let managers: Vec<PubSubManager> = (0..rounds).map(|_| PubSubManager::default()).collect();
    let clock = AtomicU64::new(0);
    let run = |p: &PubSubManager, thread: usize, op: SubOp| -> SubEvent {
        let call = clock.fetch_add(1, Ordering::SeqCst);
        let (yes, weak) = match op {
            SubOp::Subscribe(k, id) => {
                let w = p.subscribe(pool[k].clone(), SessionId::verif_new(id));
                (w.is_some(), w)
            }
            SubOp::Get(k, id) => {
                let w = p.get(&pool[k], SessionId::verif_new(id));
                (w.is_some(), w)
            }
            SubOp::Unsubscribe(k, id) => (p.unsubscribe(&pool[k], SessionId::verif_new(id)), None),
            SubOp::Remove(id) => (p.remove_session(SessionId::verif_new(id)), None),
        };
        let ret = clock.fetch_add(1, Ordering::SeqCst);
        SubEvent { thread, op, call, ret, yes, weak }
    };
    let mut history: Vec<Vec<SubEvent>> = managers.iter().map(|p| before.iter().map(|op| run(p, 9, *op)).collect()).collect();
    let barrier = crate::conc::Barrier::new(threads.len());
    let results: Vec<Vec<Vec<SubEvent>>> = thread::scope(|scope| {
        let handles: Vec<_> = threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let (managers, barrier, run) = (&managers, &barrier, &run);
                scope.spawn(move || {
                    let r = pbt::run::catch(|| {
                        let mut mine = Vec::new();
                        for p in managers {
                            if !barrier.wait() {
                                break;
                            }
                            mine.push(ops.iter().map(|op| run(p, t, *op)).collect::<Vec<SubEvent>>());
                        }
                        Ok(mine)
                    });
                    let r = r.unwrap_or_else(Err);
                    if r.is_err() {
                        barrier.give_up();
                    }
                    r
                })
            })
            .collect();
        let all: Vec<Result<Vec<Vec<SubEvent>>, Failure>> =
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(fail("panic", "a thread panicked")))).collect();
        all.into_iter().collect::<Result<_, _>>()
    })?;
    for r in results {
        for (round, events) in r.into_iter().enumerate() {
            history[round].extend(events);
        }
    }
    for (p, mut events) in managers.iter().zip(history) {
        let mut spans: Vec<(u64, u64)> = events.iter().map(|e| (e.call, e.ret)).collect();
        spans.sort_unstable();
        if spans.windows(2).any(|w| w[1].0 < w[0].1) {
            cx.class("rounds with overlapping operations");
            cx.nontrivial = true;
        }
        // What's left, and what can be removed of it.
        for k in 0..keys {
            for id in 0..sessions {
                let e = run(p, 9, SubOp::Get(k, id));
                if let Some(alive) = e.weak.as_ref() {
                    let alive = alive.upgrade();
                    ensure!(alive.is_some(), "vanished", "the subscription of {} by {} vanished", k, id);
                    let alive = alive.unwrap_or_default();
                    ensure!(
                        matches!(poll(alive.receiver().receive()), Poll::Pending),
                        "closed", "the subscription of {} by {} is closed", k, id
                    );
                }
                events.push(e);
            }
        }
        for k in 0..keys {
            for id in 0..sessions {
                events.push(run(p, 9, SubOp::Unsubscribe(k, id)));
                events.push(run(p, 9, SubOp::Unsubscribe(k, id)));
            }
        }
        for e in &events {
            if let Some(w) = &e.weak {
                ensure!(w.upgrade().is_none(), "lingers", "a subscription exists after everything is unsubscribed");
            }
        }
        if !subs_explained(&events, 0, &BTreeMap::new(), &mut BTreeSet::new()) {
            let all: Vec<String> = events
                .iter()
                .map(|e| format!("[{}-{}] {} {:?}: {}", e.call, e.ret, if e.thread == 9 { "alone".into() } else { format!("thread {}", e.thread) }, e.op, e.yes))
                .collect();
            return Err(fail("concurrent", format!("no order of the operations explains what they answered: {}", all.join("; "))));
        }
    }
    Ok(())
}

struct Instance {
    metrics: Option<Metrics<String>>,
    writers: Vec<Writer<String>>,
    readers: Vec<Reader<String>>,
    counters: BTreeMap<String, u64>,
    gauges: BTreeMap<String, u64>,
}

fn copy_of(m: &hop_engine::dashmap::DashMap<String, u64>) -> BTreeMap<String, u64> {
    m.iter().map(|r| (r.key().clone(), *r.value())).collect()
}

/// C26
fn metrics(s: &mut Src, cx: &mut Cx) -> CaseResult {
    if s.pct(10) {
        return metrics_threads(s, cx);
    }
    let names: Vec<String> = (0..s.range(1, 4))
        .map(|i| {
            let n = s.range(0, 6);
            format!("{}{}", gen::text(s, n), i)
        })
        .collect();
    let mut all: Vec<Instance> = Vec::new();
    let mut snaps: Vec<(Snapshot<String>, BTreeMap<String, u64>, BTreeMap<String, u64>)> = Vec::new();
    for _ in 0..s.range(1, 3) {
        let m = if s.bool() { Metrics::new() } else { Metrics::default() };
        all.push(Instance {
            writers: vec![m.writer()],
            readers: vec![m.reader()],
            metrics: Some(m),
            counters: BTreeMap::new(),
            gauges: BTreeMap::new(),
        });
    }
    let n = gen::count(s, (4, 60), 600);
    let mut writes = 0;
    let mut dead = false;
    for i in 0..n {
        let w = s.below(all.len());
        let inst = &mut all[w];
        let name = s.pick(&names).clone();
        let alive = inst.metrics.is_some();
        match s.weighted(&[40, 20, 6, 6, 8, 2, 12]) {
            0 => {
                let times = match s.choice(9999) {
                    0 => s.range(300, 140_000),
                    1..=300 => s.range(10, 300),
                    _ => 1,
                };
                cx.trace(|| format!("[{}] {} increment {:?} {}x", i, w, name, times));
                for _ in 0..times {
                    let k = s.below(inst.writers.len());
                    let r = inst.writers[k].increment(name.clone());
                    ensure!(r == alive, "increment", "increment says {} when the instance {}", r, if alive { "exists" } else { "doesn't exist" });
                }
                if alive {
                    *inst.counters.entry(name).or_insert(0) += times as u64;
                    writes += 1;
                }
            }
            1 => {
                let v = match s.below(3) {
                    0 => s.choice(10),
                    1 => *s.pick(&[0, u64::MAX, i64::MAX as u64, 1 << 32, 255, 256]),
                    _ => s.choice(u64::MAX),
                };
                cx.trace(|| format!("[{}] {} gauge {:?} = {}", i, w, name, v));
                let k = s.below(inst.writers.len());
                let r = inst.writers[k].gauge(name.clone(), v);
                ensure!(r == alive, "gauge", "gauge says {} when the instance {}", r, if alive { "exists" } else { "doesn't exist" });
                if alive {
                    inst.gauges.insert(name, v);
                    writes += 1;
                }
            }
            2 => {
                let new = match (&inst.metrics, s.bool()) {
                    (Some(m), true) => m.writer(),
                    _ => inst.writers[s.below(inst.writers.len())].clone(),
                };
                inst.writers.push(new);
            }
            3 => {
                let new = match (&inst.metrics, s.bool()) {
                    (Some(m), true) => m.reader(),
                    _ => inst.readers[s.below(inst.readers.len())].clone(),
                };
                inst.readers.push(new);
            }
            4 => {
                if let Some(m) = &inst.metrics {
                    cx.trace(|| format!("[{}] {} snapshot", i, w));
                    let mut snap = m.snapshot();
                    if s.pct(20) {
                        // A copy of a snapshot can be changed without changing anything else.
                        let c = snap.clone();
                        c.counters().insert(name.clone(), 12345);
                        c.gauges().remove(&name);
                    }
                    if s.pct(20) {
                        snap.counters().insert("own".into(), 5);
                        snap.counters().remove("own");
                        snap = snap.clone();
                    }
                    snaps.push((snap, inst.counters.clone(), inst.gauges.clone()));
                    cx.class("snapshot");
                }
            }
            5 => {
                if inst.metrics.take().is_some() {
                    cx.trace(|| format!("[{}] {} dropped", i, w));
                    cx.class("instance dropped");
                    inst.counters.clear();
                    inst.gauges.clear();
                    dead = true;
                }
            }
            _ => {}
        }
        // Every reader of every instance.
        for (w, inst) in all.iter().enumerate() {
            let alive = inst.metrics.is_some();
            for r in inst.readers.iter() {
                ensure!(r.valid() == alive, "valid", "a reader of instance {} says {}", w, r.valid());
                for name in &names {
                    let (c, g) = (r.counter(name), r.gauge(name));
                    ensure!(c == inst.counters.get(name).copied(), "counter", "counter {:?} of instance {} is {:?} instead of {:?}", name, w, c, inst.counters.get(name));
                    ensure!(g == inst.gauges.get(name).copied(), "gauge", "gauge {:?} of instance {} is {:?} instead of {:?}", name, w, g, inst.gauges.get(name));
                }
            }
            for x in &inst.writers {
                ensure!(x.valid() == alive, "valid", "a writer of instance {} says {}", w, x.valid());
            }
        }
    }
    for (snap, c, g) in &snaps {
        ensure!(copy_of(snap.counters()) == *c, "snapshot", "the counters of a snapshot are {:?} instead of {:?}", copy_of(snap.counters()), c);
        ensure!(copy_of(snap.gauges()) == *g, "snapshot", "the gauges of a snapshot are {:?} instead of {:?}", copy_of(snap.gauges()), g);
        for name in &names {
            ensure!(snap.counter(name) == c.get(name).copied(), "snapshot", "the counter {:?} of a snapshot", name);
            ensure!(snap.gauge(name) == g.get(name).copied(), "snapshot", "the gauge {:?} of a snapshot", name);
        }
    }
    cx.nontrivial = writes >= 3 && (dead || !snaps.is_empty() || all.len() > 1);
    Ok(())
}

fn metrics_threads(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let m: Metrics<u8> = Metrics::new();
    let threads = s.range(2, 4);
    let per = s.range(50, 800) as u64;
    let names = s.range(1, 3) as u64;
    cx.trace(|| format!("{} threads increment {} counters {} times each", threads, names, per));
    let start = Arc::new(Barrier::new(threads + 1));
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            let (w, r, start) = (m.writer(), m.reader(), start.clone());
            thread::spawn(move || {
                start.wait();
                let mut last = 0;
                let mut bad = None;
                for i in 0..per {
                    if !w.increment((i % names) as u8) {
                        bad = Some("increment fails".to_string());
                    }
                    let c = r.counter(&0).unwrap_or(0);
                    if c < last || c < 1 {
                        bad = Some(format!("a counter went from {} to {}", last, c));
                    }
                    last = c;
                }
                bad
            })
        })
        .collect();
    start.wait();
    let snap = m.snapshot();
    let seen = copy_of_u8(&snap);
    for h in handles {
        if let Some(b) = h.join().map_err(|_| fail("panic", "a thread panicked"))? {
            return Err(fail("concurrent", b));
        }
    }
    ensure!(copy_of_u8(&snap) == seen, "snapshot", "a snapshot changed from {:?} to {:?}", seen, copy_of_u8(&snap));
    for n in 0..names {
        let e = threads as u64 * (0..per).filter(|i| i % names == n).count() as u64;
        let g = m.reader().counter(&(n as u8)).unwrap_or(0);
        ensure!(g == e, "lost", "a counter is {} after {} increments", g, e);
    }
    cx.class("concurrent");
    cx.nontrivial = true;
    Ok(())
}

fn copy_of_u8(s: &Snapshot<u8>) -> HashMap<u8, u64> {
    s.counters().iter().map(|r| (*r.key(), *r.value())).collect()
}

thread_local! {
    /// Readings of the monotonic clock to serve instead of real ones.
    static CLOCK: RefCell<Option<FakeClock>> = const { RefCell::new(None) };
}

struct FakeClock {
    now: libc::timespec,
    served: Vec<Duration>,
}

/// The clock that the timer reads: libc's function is replaced for the whole process.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        let fake = CLOCK
            .try_with(|c| {
                if let Ok(mut c) = c.try_borrow_mut() {
                    if let Some(f) = c.as_mut() {
                        f.served.push(Duration::new(f.now.tv_sec as u64, f.now.tv_nsec as u32));
                        return Some(f.now);
                    }
                }
                None
            })
            .unwrap_or(None);
        if let Some(now) = fake {
            *ts = now;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

fn set_clock(d: Duration) {
    CLOCK.with(|c| {
        *c.borrow_mut() = Some(FakeClock {
            now: libc::timespec { tv_sec: d.as_secs() as i64, tv_nsec: d.subsec_nanos() as i64 },
            served: Vec::new(),
        })
    });
}

fn readings() -> Vec<Duration> {
    CLOCK.with(|c| c.borrow_mut().take().map(|f| f.served).unwrap_or_default())
}

struct RealClock;

impl Drop for RealClock {
    fn drop(&mut self) {
        CLOCK.with(|c| *c.borrow_mut() = None);
    }
}

/// C27
fn timers(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let _real = RealClock;
    let mut now = match s.below(4) {
        0 => Duration::new(0, 0),
        1 => Duration::new(s.choice(100), s.choice(999_999_999) as u32),
        2 => Duration::new(s.choice(4_000_000_000), 999_999_999),
        _ => Duration::new(i64::MAX as u64 / 4 + s.choice(1 << 40), s.choice(999_999_999) as u32),
    };
    let mut timers: Vec<(Timer, Option<Duration>, Option<Duration>)> = vec![(Timer::new(), None, None), (Timer::default(), None, None)];
    let n = s.range(3, 40);
    let mut measured = 0;
    for i in 0..n {
        // Time passes.
        now += match s.weighted(&[3, 2, 2, 2, 1]) {
            0 => Duration::new(0, s.choice(5) as u32),
            1 => Duration::new(0, *s.pick(&[999_999_999, 500_000_000, 1, 999_999_998, 1_000_000, 1000])),
            2 => Duration::new(s.choice(3), s.choice(999_999_999) as u32),
            3 => Duration::new(0, 0),
            _ => Duration::new(s.choice(1 << 33), s.choice(999_999_999) as u32),
        };
        let w = s.below(timers.len());
        match s.weighted(&[30, 30, 10, 8, 20]) {
            0 => {
                set_clock(now);
                let got = timers[w].0.start();
                let read = readings();
                let (_, start, _) = &mut timers[w];
                cx.trace(|| format!("[{}] timer {} start at {:?}: {}", i, w, now, got));
                ensure!(got == start.is_none(), "start", "start says {} when it {} before", got, if start.is_some() { "was started" } else { "wasn't started" });
                if got {
                    ensure!(!read.is_empty(), "clock", "the clock isn't read when starting");
                    *start = Some(now);
                }
            }
            1 => {
                set_clock(now);
                let got = timers[w].0.stop();
                readings();
                let (_, start, stop) = &mut timers[w];
                cx.trace(|| format!("[{}] timer {} stop at {:?}: {:?}", i, w, now, got));
                let expect = match (*start, *stop) {
                    (Some(a), None) => Some(now - a),
                    _ => None,
                };
                ensure!(got == expect, "stop", "stop gives {:?} instead of {:?}", got, expect);
                if expect.is_some() {
                    *stop = Some(now);
                    measured += 1;
                }
            }
            2 => {
                set_clock(now);
                timers[w].0.reset();
                readings();
                cx.trace(|| format!("[{}] timer {} reset", i, w));
                timers[w].1 = None;
                timers[w].2 = None;
                ensure!(timers[w].0 == Timer::new(), "reset", "a timer that was reset isn't equal to a new one");
                cx.class("reset");
            }
            3 => {
                let c = (timers[w].0.clone(), timers[w].1, timers[w].2);
                ensure!(c.0 == timers[w].0, "clone", "a timer isn't equal to its clone");
                if timers.len() < 6 {
                    timers.push(c);
                }
            }
            _ => {}
        }
        for (k, (t, start, stop)) in timers.iter().enumerate() {
            set_clock(now + Duration::new(7, 7));
            let (running, duration) = (t.is_running(), t.duration());
            readings();
            ensure!(running == (start.is_some() && stop.is_none()), "running", "timer {} says running: {}", k, running);
            let expect = match (start, stop) {
                (Some(a), Some(b)) => Some(*b - *a),
                _ => None,
            };
            ensure!(duration == expect, "duration", "timer {} has the duration {:?} instead of {:?}", k, duration, expect);
        }
        let (a, b) = (s.below(timers.len()), s.below(timers.len()));
        let same = timers[a].1 == timers[b].1 && timers[a].2 == timers[b].2;
        ensure!((timers[a].0 == timers[b].0) == same, "equal", "timers {} and {} are equal: {}", a, b, !same);
    }
    if measured > 0 {
        cx.class("measured");
    }
    cx.nontrivial = measured > 0;
    Ok(())
}

/// C28: a value on its own.
fn value_api(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let kind = s.below(8) as u8;
    let want = if s.pct(20) {
        match kind {
            0 => Val::Bytes(vec![]),
            1 => Val::Bool(false),
            2 => Val::Float(0.0, true),
            3 => Val::Int(0),
            4 => Val::Str(String::new()),
            5 => Val::List(vec![]),
            6 => Val::Map(BTreeMap::new()),
            _ => Val::Set(BTreeSet::new()),
        }
    } else {
        gen::val(s, kind, Size::Small)
    };
    cx.trace(|| want.show());
    let default = to_val(&[
        Value::bytes as fn() -> Value, Value::boolean, Value::float, Value::integer, Value::string, Value::list,
        Value::map, Value::set,
    ][kind as usize]());
    let empty = match kind {
        0 => Val::Bytes(vec![]),
        1 => Val::Bool(false),
        2 => Val::Float(0.0, true),
        3 => Val::Int(0),
        4 => Val::Str(String::new()),
        5 => Val::List(vec![]),
        6 => Val::Map(BTreeMap::new()),
        _ => Val::Set(BTreeSet::new()),
    };
    ensure!(empty.same(&default), "default", "the default is {}", default.show());
    let mut v = match to_value(&want) {
        Value::Boolean(v) => Value::from(v),
        Value::Bytes(v) => Value::from(v),
        Value::Float(v) => Value::from(v),
        Value::Integer(v) => Value::from(v),
        Value::List(v) => Value::from(v),
        Value::Map(v) => Value::from(v),
        Value::Set(v) => Value::from(v),
        Value::String(v) => Value::from(v),
    };
    ensure!(want.same(&to_val(&v)), "from", "{} is converted into {}", want.show(), to_val(&v).show());
    check_accessors(&mut v, &want)?;
    // Change it.
    let mut want = want;
    mutate(s, &mut v, &mut want)?;
    check_accessors(&mut v, &want)?;
    Ok(())
}

fn check_accessors(v: &mut Value, want: &Val) -> CaseResult {
    let kind = want.kind();
    ensure!(v.kind() == key_type(kind), "kind", "{} is of kind {:?}", want.show(), v.kind());
    let is = [
        v.is_bytes(), v.is_boolean(), v.is_float(), v.is_integer(), v.is_string(), v.is_list(), v.is_map(), v.is_set(),
    ];
    let refs = [
        v.as_bytes_ref().map(|b| Val::Bytes(b.to_vec())),
        v.as_boolean_ref().map(|b| Val::Bool(*b)),
        v.as_float_ref().map(|b| Val::Float(*b, true)),
        v.as_integer_ref().map(|b| Val::Int(*b)),
        v.as_string_ref().map(|b| Val::Str(b.to_string())),
        v.as_list_ref().map(|b| Val::List(b.to_vec())),
        v.as_map_ref().map(|m| Val::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect())),
        v.as_set_ref().map(|m| Val::Set(m.iter().map(|r| r.key().clone()).collect())),
    ];
    let muts = [
        v.as_bytes_mut().map(|b| Val::Bytes(b.to_vec())),
        v.as_boolean_mut().map(|b| Val::Bool(*b)),
        v.as_float_mut().map(|b| Val::Float(*b, true)),
        v.as_integer_mut().map(|b| Val::Int(*b)),
        v.as_string_mut().map(|b| Val::Str(b.to_string())),
        v.as_list_mut().map(|b| Val::List(b.to_vec())),
        v.as_map_mut().map(|m| Val::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect())),
        v.as_set_mut().map(|m| Val::Set(m.iter().map(|r| r.key().clone()).collect())),
    ];
    for k in 0..8 {
        let name = codec::KEY_TYPES[k];
        let own = k == kind as usize;
        ensure!(is[k] == own, "is", "{} is a {}: {}", want.show(), name, is[k]);
        for (how, got) in [("shared", &refs[k]), ("mutable", &muts[k])] {
            match got {
                None => ensure!(!own, "accessor", "{} has no {} access as {}", want.show(), how, name),
                Some(g) => {
                    ensure!(own && want.same(g), "accessor", "{} is {} with {} access as {}", want.show(), g.show(), how, name)
                }
            }
        }
    }
    Ok(())
}

/// Change a value through mutable access.
fn mutate(s: &mut Src, v: &mut Value, want: &mut Val) -> CaseResult {
    let lost = || fail("accessor", "there's no mutable access");
    match want {
        Val::Bytes(w) => {
            let b = gen::blob(s, Size::Small);
            v.as_bytes_mut().ok_or_else(lost)?.extend_from_slice(&b);
            w.extend(b);
        }
        Val::Bool(w) => {
            *v.as_boolean_mut().ok_or_else(lost)? ^= true;
            *w ^= true;
        }
        Val::Float(w, _) => {
            let f = gen::float(s);
            *v.as_float_mut().ok_or_else(lost)? = f;
            *w = f;
        }
        Val::Int(w) => {
            let i = gen::int(s);
            *v.as_integer_mut().ok_or_else(lost)? = i;
            *w = i;
        }
        Val::Str(w) => {
            let n = s.range(0, 8);
            let t = gen::text(s, n);
            v.as_string_mut().ok_or_else(lost)?.push_str(&t);
            w.push_str(&t);
        }
        Val::List(w) => {
            let b = gen::blob(s, Size::Small);
            let l = v.as_list_mut().ok_or_else(lost)?;
            if s.bool() && !w.is_empty() {
                l.remove(0);
                w.remove(0);
            }
            l.push(b.clone());
            w.push(b);
        }
        Val::Map(w) => {
            let (a, b) = (gen::blob(s, Size::Small), gen::blob(s, Size::Small));
            v.as_map_mut().ok_or_else(lost)?.insert(a.clone(), b.clone());
            w.insert(a, b);
        }
        Val::Set(w) => {
            let b = gen::blob(s, Size::Small);
            v.as_set_mut().ok_or_else(lost)?.insert(b.clone());
            w.insert(b);
        }
    }
    Ok(())
}

/// C28
fn keyspace(s: &mut Src, cx: &mut Cx) -> CaseResult {
    for _ in 0..s.range(1, 3) {
        value_api(s, cx)?;
    }
    let hop = Hop::new();
    let mut states: Vec<State> = match s.below(3) {
        0 => vec![State::new()],
        1 => vec![State::default()],
        _ => vec![hop.state().clone()],
    };
    let pool = gen::pool(s, 1, 6);
    let mut m: BTreeMap<Vec<u8>, Val> = BTreeMap::new();
    if s.pct(3) {
        return keyspace_threads(s, cx, &states[0]);
    }
    if s.pct(1) {
        let n = s.range(100, 3000);
        cx.trace(|| format!("{} other keys", n));
        cx.class("hundreds of other keys");
        for i in 0..n {
            let (k, v) = (format!("fill{}", i).into_bytes(), Val::Int(i as i64));
            states[0].insert(k.clone(), to_value(&v));
            m.insert(k, v);
        }
    }
    let n = gen::count(s, (4, 40), 400);
    let mut effects = BTreeSet::new();
    for i in 0..n {
        if s.pct(8) {
            let c = states[s.below(states.len())].clone();
            states.push(c);
        }
        let w = s.below(states.len());
        let st = &states[w];
        let k = if s.pct(3) { gen::key(s, Size::Large) } else { s.pick(&pool).clone() };
        match s.weighted(&[25, 15, 10, 15, 25, 10]) {
            0 => {
                let kind = s.below(8) as u8;
                let v = gen::val(s, kind, Size::Small);
                cx.trace(|| format!("[{}] insert {} = {}", i, show(&k), v.show()));
                let old = st.insert(k.clone(), to_value(&v));
                let expect = m.insert(k.clone(), v);
                match (&expect, &old) {
                    (None, None) => {}
                    (Some(e), Some(o)) => {
                        ensure!(same(e, o), "insert", "inserting {} gives back {} instead of {}", show(&k), to_val(o).show(), e.show());
                        effects.insert("replaced");
                    }
                    (e, o) => return Err(fail("insert", format!("inserting {} gives back {:?}, it was {:?}", show(&k), o, e))),
                }
            }
            1 => {
                cx.trace(|| format!("[{}] remove {}", i, show(&k)));
                let got = st.remove(&k);
                match (m.remove(&k), got) {
                    (None, None) => {}
                    (Some(e), Some((gk, gv))) => {
                        ensure!(gk == k, "remove", "removing {} gives the key {}", show(&k), show(&gk));
                        ensure!(same(&e, &gv), "remove", "removing {} gives {} instead of {}", show(&k), to_val(&gv).show(), e.show());
                        effects.insert("removed");
                    }
                    (e, g) => return Err(fail("remove", format!("removing {} gives {:?}, it was {:?}", show(&k), g, e))),
                }
            }
            2 => {
                let got = st.contains_key(&k);
                ensure!(got == m.contains_key(&k), "contains", "{} exists: {}", show(&k), got);
                let got = st.key_type(&k);
                ensure!(got == m.get(&k).map(|v| key_type(v.kind())), "type", "the type of {} is {:?}", show(&k), got);
            }
            3 => {
                cx.trace(|| format!("[{}] change {}", i, show(&k)));
                match (m.get_mut(&k), st.key_mut(&k)) {
                    (None, None) => {}
                    (Some(e), Some(mut g)) => {
                        ensure!(*g.key() == k && same(e, g.value()), "key_mut", "{} is {} instead of {}", show(&k), to_val(g.value()).show(), e.show());
                        if s.pct(80) {
                            mutate(s, g.value_mut(), e)?;
                        } else {
                            let kind = s.below(8) as u8;
                            let v = gen::val(s, kind, Size::Small);
                            *g.value_mut() = to_value(&v);
                            *e = v;
                        }
                        effects.insert("changed");
                    }
                    (e, g) => return Err(fail("key_mut", format!("{} is {:?}, it should be {:?}", show(&k), g.map(|g| to_val(g.value()).show()), e))),
                }
            }
            4 => {
                let kind = s.below(8) as u8;
                let v = gen::val(s, kind, Size::Small);
                cx.trace(|| format!("[{}] lookup {} with the default {}", i, show(&k), v.show()));
                let existed = m.contains_key(&k);
                let e = m.entry(k.clone()).or_insert(v.clone());
                let made = std::cell::Cell::new(0);
                let mut g = st.key_or_insert_with(&k, || {
                    made.set(made.get() + 1);
                    to_value(&v)
                });
                let made = made.get();
                ensure!(
                    (made > 0) != existed,
                    "default", "looking up {}, which {}, made {} defaults", show(&k), if existed { "exists" } else { "doesn't exist" }, made
                );
                ensure!(
                    *g.key() == k && same(e, g.value()),
                    "default", "looking up {}, which {}, gives {} instead of {}", show(&k),
                    if existed { "exists" } else { "doesn't exist" }, to_val(g.value()).show(), e.show()
                );
                if s.pct(40) {
                    mutate(s, g.value_mut(), e)?;
                }
                effects.insert(if existed { "default not used" } else { "default used" });
            }
            _ => match (m.get(&k), st.key_ref(&k)) {
                (None, None) => {}
                (Some(e), Some(g)) => {
                    ensure!(*g.key() == k && same(e, g.value()), "key_ref", "{} is {} instead of {}", show(&k), to_val(g.value()).show(), e.show())
                }
                (e, g) => return Err(fail("key_ref", format!("{} is {:?}, it should be {:?}", show(&k), g.map(|g| to_val(g.value()).show()), e))),
            },
        }
        // Everything is seen through every clone.
        let st = &states[s.below(states.len())];
        for k in &pool {
            match (m.get(k), st.key_ref(k)) {
                (None, None) => {}
                (Some(e), Some(g)) => {
                    ensure!(same(e, g.value()), "content", "{} is {} instead of {}", show(k), to_val(g.value()).show(), e.show())
                }
                (e, g) => return Err(fail("content", format!("{} is {:?}, it should be {:?}", show(k), g.map(|g| to_val(g.value()).show()), e))),
            }
        }
    }
    for (k, e) in &m {
        match states[0].key_ref(k) {
            Some(g) => ensure!(same(e, g.value()), "content", "at the end {} is {} instead of {}", show(k), to_val(g.value()).show(), e.show()),
            None => return Err(fail("content", format!("at the end {} doesn't exist", show(k)))),
        }
    }
    for e in &effects {
        cx.class(e);
    }
    cx.nontrivial = effects.len() >= 3;
    Ok(())
}

/// Lookups with defaults, changes and removals by several threads.
fn keyspace_threads(s: &mut Src, cx: &mut Cx, state: &State) -> CaseResult {
    let threads = s.range(2, 4);
    let per = s.range(5, 60);
    let keys = s.range(1, 30);
    // Whether keys are removed from time to time, in which case what was removed counts.
    let remove = s.bool();
    cx.trace(|| format!("{} threads count {} times in {} keys{}", threads, per, keys, if remove { ", removing some" } else { "" }));
    let start = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (state, start) = (state.clone(), start.clone());
            thread::spawn(move || -> Result<i64, Failure> {
                start.wait();
                let mut taken = 0;
                for i in 0..per {
                    // All threads begin with the same keys at the same time.
                    let k = format!("count{}", (i + t * (i % 3)) % keys).into_bytes();
                    let mut g = state.key_or_insert_with(&k, || Value::Integer(0));
                    ensure!(*g.key() == k, "threads", "looking up {} gives {}", show(&k), show(g.key()));
                    match g.as_integer_mut() {
                        Some(n) => *n += 1,
                        None => return Err(fail("threads", "a counter isn't an integer")),
                    }
                    drop(g);
                    if remove && i % 7 == t {
                        if let Some((gk, v)) = state.remove(&k) {
                            ensure!(gk == k, "threads", "removing {} gives {}", show(&k), show(&gk));
                            taken += v.as_integer_ref().copied().unwrap_or(0);
                        }
                    }
                }
                Ok(taken)
            })
        })
        .collect();
    let mut total = 0;
    for h in handles {
        total += h.join().map_err(|_| fail("panic", "a thread panicked"))??;
    }
    for i in 0..keys {
        let k = format!("count{}", i).into_bytes();
        total += state.key_ref(&k).and_then(|g| g.value().as_integer_ref().copied()).unwrap_or(0);
    }
    ensure!(total == (threads * per) as i64, "threads", "{} changes by {} threads come to {}", threads * per, threads, total);
    cx.class("several threads");
    cx.nontrivial = true;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            rule: "commands that succeed and that fail, and a report in between; or several threads",
            assumptions: &["whether a command succeeded is what its result says"],
            quick: 375_000,
            run: statistics,
            ..Check::default()
        },
        Check {
            id: "C24",
            rule: "more than two sessions, one of which is removed; or several threads",
            assumptions: &["fewer than 2^32 sessions are added"],
            quick: 500_000,
            run: sessions,
            ..Check::default()
        },
        Check {
            id: "C25",
            rule: "at least two kinds of effects among subscribing, unsubscribing and removing a session, or operations of several threads that overlap",
            assumptions: &["session identifiers are made by a verification hook, since nothing else makes any"],
            quick: 500_000,
            run: subscriptions,
            ..Check::default()
        },
        Check {
            id: "C26",
            rule: "at least three writes, and a snapshot, a dropped instance or several instances; or several threads",
            assumptions: &[],
            quick: 375_000,
            run: metrics,
            ..Check::default()
        },
        Check {
            id: "C27",
            rule: "at least one measurement",
            assumptions: &["the monotonic clock is replaced for the process, and never goes backwards"],
            quick: 2_250_000,
            run: timers,
            ..Check::default()
        },
        Check {
            id: "C28",
            rule: "at least three kinds of effects on the keyspace",
            assumptions: &[],
            quick: 500_000,
            run: keyspace,
            ..Check::default()
        },
    ]
}

#[allow(dead_code)]
fn unused(hop: &Hop, m: &Model, b: RequestBuilder) {
    let _ = (check_key(hop, m, b""), b);
}
