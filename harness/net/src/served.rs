//! C20 and C29: the server, over real connections.

use crate::server::{Conn, Server, PATIENCE};
use pbt::{
    codec::{self, Resp},
    ensure, fail,
    gen::{self, Profile, Size},
    model::{Model, Out, Req, Val},
    run::{catch, harness_error},
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    collections::BTreeSet,
    io::{ErrorKind, Read, Write},
    net::Shutdown,
    sync::{Condvar, Mutex},
    thread,
    time::{Duration, Instant},
};

const PROFILE: Profile = Profile { weights: gen::EVEN, wild: 5, size: Size::Large, odd: 5 };
const SMALL: Profile = Profile { weights: gen::EVEN, wild: 5, size: Size::Small, odd: 5 };
/// Only keys of the pool, and nothing that depends on other keys.
const OWN: Profile = Profile { weights: [8, 6, 8, 6, 30, 10, 8, 5, 5, 10, 4, 16, 8, 5, 2, 0], wild: 0, size: Size::Small, odd: 0 };

fn answer(resp: Resp) -> Result<Out, Failure> {
    match resp {
        Resp::Parse(e) => Err(fail("rejected", format!("the server answers a request with the parse error {}", e))),
        r => Ok(r.out().expect("a value or an error")),
    }
}

fn check(i: usize, req: &Req, want: &Out, got: &Out) -> CaseResult {
    ensure!(want.matches(got), "response", "the answer to request {} ({}) is {} but it should be {}", i, req.show(), got.show(), want.show());
    Ok(())
}

/// A request with something of megabytes.
fn huge(s: &mut Src, pool: &[Vec<u8>]) -> Req {
    let n = match s.weighted(&[30, 20, 10, 1]) {
        0 => s.range(65_000, 300_000),
        1 => s.range(1 << 20, (1 << 20) + 3),
        2 => s.range(2_000_000, 5_000_000),
        _ => s.range(17_000_000, 40_000_000),
    };
    let salt = s.below(250) as u8;
    let blob: Vec<u8> = (0..n).map(|i| b'a' + ((i as u32).wrapping_mul(2_654_435_761) >> 24) as u8 % 25 + salt % 2).collect();
    let key = s.pick(pool).clone();
    match s.below(4) {
        0 => Req::new(10, Some(0), vec![key, blob]),
        1 => Req::new(10, Some(4), vec![key, blob]),
        2 => Req::new(100, None, vec![blob]),
        _ => Req::new(20, Some(5), vec![key, blob[..n / 2].to_vec(), blob[n / 2..].to_vec()]),
    }
}

/// Compare everything that can be seen through a new connection with the model.
fn audit(server: &mut Server, m: &mut Model, keys: &BTreeSet<Vec<u8>>, exact: bool) -> CaseResult {
    let mut conn = server.connect()?;
    let mut reqs = Vec::new();
    if exact {
        reqs.push(Req::new(101, None, vec![]));
    }
    for k in keys.iter().chain(m.map.keys().filter(|k| !keys.contains(*k))) {
        reqs.push(Req::new(11, None, vec![k.clone()]));
    }
    for req in reqs {
        conn.send(&codec::encode(&req))?;
        let got = answer(conn.response()?)?;
        let want = m.exec(&req);
        let what = if req.cmd == 101 { "stats" } else { "effect" };
        ensure!(want.matches(&got), what, "afterwards {} gives {} but it should give {}", req.show(), got.show(), want.show());
    }
    conn.finish();
    conn.end()?;
    server.alive()
}

#[derive(Clone, Copy, Debug)]
enum Pause {
    None,
    /// Wait for the answers of all requests that were completely written.
    Sync,
    Sleep(u64),
}

#[derive(Default)]
struct Progress {
    read: usize,
    stop: bool,
}

/// Write the requests in chunks while reading the answers.
fn exchange(conn: &mut Conn, bytes: &[u8], ends: &[usize], chunks: &[(usize, Pause)], mut each: impl FnMut(usize, Out) -> CaseResult) -> CaseResult {
    let state = Mutex::new(Progress::default());
    let changed = Condvar::new();
    let mut out = conn.stream.try_clone().map_err(|e| harness_error(e.to_string()))?;
    thread::scope(|scope| {
        let writer = scope.spawn(|| -> CaseResult {
            let mut at = 0;
            for (to, pause) in chunks {
                if let Err(e) = out.write_all(&bytes[at..*to]) {
                    if state.lock().unwrap().stop {
                        return Ok(());
                    }
                    return Err(fail("write", format!("writing requests to the server fails after {} of {} bytes: {}", at, bytes.len(), e)));
                }
                at = *to;
                match pause {
                    Pause::None => {}
                    Pause::Sleep(ms) => thread::sleep(Duration::from_millis(*ms)),
                    Pause::Sync => {
                        let complete = ends.iter().filter(|e| **e <= at).count();
                        let mut s = state.lock().unwrap();
                        let deadline = Instant::now() + PATIENCE;
                        while s.read < complete && !s.stop && Instant::now() < deadline {
                            s = changed.wait_timeout(s, Duration::from_secs(1)).unwrap().0;
                        }
                        if s.stop {
                            return Ok(());
                        }
                    }
                }
            }
            Ok(())
        });
        let mut result = Ok(());
        for i in 0..ends.len() {
            result = conn.response().and_then(answer).and_then(|out| each(i, out));
            let mut s = state.lock().unwrap();
            s.read += 1;
            s.stop = result.is_err();
            changed.notify_all();
            if s.stop {
                break;
            }
        }
        if result.is_err() {
            let _ = conn.stream.shutdown(Shutdown::Both);
        }
        let written = writer.join().map_err(|_| harness_error("the writer panicked"))?;
        result.and(written)
    })
}

fn chunk(s: &mut Src, bytes: usize, ends: &[usize]) -> Vec<(usize, Pause)> {
    let mut chunks = Vec::new();
    let style = s.weighted(&[3, 3, 3, 2, 1]);
    let mut at = 0;
    while at < bytes {
        let next = ends.iter().copied().find(|e| *e > at).unwrap_or(bytes);
        let to = match style {
            // All of it.
            0 => bytes,
            // A request at a time, or a few.
            1 => {
                let skip = s.below(3);
                ends.iter().copied().filter(|e| *e > at).nth(skip).unwrap_or(bytes)
            }
            // Around the ends of requests.
            2 => match s.below(4) {
                0 => next + 1,
                1 => next + s.below(8),
                2 if next > at + 1 => next - 1,
                _ => at + s.range(1, next - at),
            },
            3 => at + s.range(1, 4000),
            // A few bytes at a time, for a while.
            _ if chunks.len() > 60 => bytes,
            _ => at + s.range(1, 3),
        };
        let to = if chunks.len() > 400 { bytes } else { to.min(bytes) };
        let pause = match s.weighted(&[40, 40, 3]) {
            0 => Pause::None,
            1 => Pause::Sync,
            _ => Pause::Sleep(1),
        };
        chunks.push((to, pause));
        at = to;
    }
    chunks
}

fn pipelined(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let mut m = Model::default();
    let pool = gen::pool(s, 2, 8);
    let n = gen::count(s, (3, 30), 300);
    let large = s.pct(6);
    let mut keys = BTreeSet::new();
    let (mut bytes, mut ends, mut reqs, mut wants) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
    for _ in 0..n {
        let req = if large && s.pct(15) { huge(s, &pool) } else { gen::request(s, &m, &pool, &PROFILE) };
        gen::universe(&mut keys, &req);
        wants.push(m.exec(&req));
        bytes.extend(codec::encode(&req));
        ends.push(bytes.len());
        cx.trace(|| req.show());
        reqs.push(req);
        if bytes.len() > 40_000_000 {
            break;
        }
    }
    let chunks = chunk(s, bytes.len(), &ends);
    cx.trace(|| format!("written up to {:?}", chunks.iter().take(40).collect::<Vec<_>>()));
    // What's written after the last complete request is never answered.
    let rest = if s.pct(15) {
        let req = gen::request(s, &m, &pool, &SMALL);
        gen::universe(&mut keys, &req);
        let all = codec::encode(&req);
        let cut = s.below(all.len());
        cx.class("ends within a request");
        all[..cut].to_vec()
    } else {
        Vec::new()
    };
    let mut conn = server.connect()?;
    exchange(&mut conn, &bytes, &ends, &chunks, |i, got| check(i, &reqs[i], &wants[i], &got))?;
    conn.send(&rest)?;
    conn.finish();
    conn.end()?;
    cx.class("pipelined on one connection");
    if large {
        cx.class("with megabytes");
    }
    if chunks.iter().any(|c| !ends.contains(&c.0)) {
        cx.class("written within requests");
    }
    cx.nontrivial = wants.iter().filter(|w| !w.is_err()).count() >= 3 && wants.iter().any(Out::is_err);
    audit(&mut server, &mut m, &keys, true)
}

fn turns(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let mut m = Model::default();
    let pool = gen::pool(s, 2, 6);
    let k = s.range(2, 5);
    let mut conns: Vec<(Conn, Vec<u8>, Option<Req>)> = Vec::new();
    for _ in 0..k {
        conns.push((server.connect()?, Vec::new(), None));
    }
    let mut keys = BTreeSet::new();
    let n = s.range(4, 40);
    let (mut ok, mut errors) = (0, 0);
    for step in 0..n {
        let at = s.below(conns.len());
        let (conn, rest, half) = &mut conns[at];
        let mut reqs = Vec::new();
        let mut bytes = std::mem::take(rest);
        if let Some(req) = half.take() {
            reqs.push(req);
        }
        for _ in 0..s.range(0, 4) {
            let req = gen::request(s, &m, &pool, &SMALL);
            bytes.extend(codec::encode(&req));
            reqs.push(req);
        }
        conn.send(&bytes)?;
        cx.trace(|| format!("connection {}: {}", at, reqs.iter().map(Req::show).collect::<Vec<_>>().join("; ")));
        for req in &reqs {
            gen::universe(&mut keys, req);
            let got = answer(conn.response()?)?;
            let want = m.exec(req);
            check(step, req, &want, &got)?;
            *if want.is_err() { &mut errors } else { &mut ok } += 1;
        }
        if s.pct(30) {
            // A part of a request, the rest of which comes after requests of other connections.
            let req = gen::request(s, &m, &pool, &SMALL);
            let all = codec::encode(&req);
            let cut = s.below(all.len());
            conn.send(&all[..cut])?;
            *rest = all[cut..].to_vec();
            cx.trace(|| format!("connection {}: the first {} bytes of {}", at, cut, req.show()));
            cx.class("request over several turns");
            *half = Some(req);
        }
        if s.pct(8) {
            // End the connection, perhaps within a request, and make another.
            let (mut old, ..) = std::mem::replace(&mut conns[at], (server.connect()?, Vec::new(), None));
            cx.trace(|| format!("connection {} ends and another takes its place", at));
            cx.class("connection ends");
            old.finish();
            old.end()?;
        }
    }
    for (mut conn, ..) in conns {
        conn.finish();
        conn.end()?;
    }
    cx.class("connections taking turns");
    cx.nontrivial = ok >= 3 && errors >= 1;
    audit(&mut server, &mut m, &keys, true)
}

fn concurrent(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let k = s.range(2, 6);
    let shared = b"shared".to_vec();
    let mut plans = Vec::new();
    let mut total = Model::default();
    let mut keys = BTreeSet::new();
    for c in 0..k {
        let mut m = Model::default();
        let pool: Vec<Vec<u8>> = (0..s.range(1, 4)).map(|i| format!("{}/{}", c, i).into_bytes()).collect();
        let n = s.range(3, 40);
        let (mut bytes, mut ends, mut reqs, mut wants) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
        for _ in 0..n {
            let req = if s.pct(25) {
                // Whatever comes of this isn't known, but each outcome happens once.
                wants.push(None);
                m.ok += 1;
                Req::new(0, None, vec![shared.clone()])
            } else {
                let req = gen::request(s, &m, &pool, &OWN);
                wants.push(Some(m.exec(&req)));
                req
            };
            cx.trace(|| format!("connection {}: {}", c, req.show()));
            bytes.extend(codec::encode(&req));
            ends.push(bytes.len());
            reqs.push(req);
        }
        keys.extend(pool);
        let chunks = chunk(s, bytes.len(), &ends);
        total.ok += m.ok;
        total.errored += m.errored;
        total.map.extend(m.map);
        plans.push((bytes, ends, reqs, wants, chunks));
    }
    let mut conns = Vec::new();
    for _ in 0..k {
        conns.push(server.connect()?);
    }
    let seen: Vec<Result<Vec<i64>, Failure>> = thread::scope(|scope| {
        let handles: Vec<_> = conns
            .iter_mut()
            .zip(&plans)
            .map(|(conn, (bytes, ends, reqs, wants, chunks))| {
                scope.spawn(move || -> Result<Vec<i64>, Failure> {
                    catch(|| {
                        let mut seen = Vec::new();
                        exchange(conn, bytes, ends, chunks, |i, got| match (&wants[i], got) {
                            (Some(want), got) => check(i, &reqs[i], want, &got),
                            (None, Out::Val(Val::Int(n))) => {
                                ensure!(
                                    seen.last().map_or(true, |l| *l < n),
                                    "response",
                                    "incrementing the shared key gives {} after {:?}",
                                    n,
                                    seen
                                );
                                seen.push(n);
                                Ok(())
                            }
                            (None, got) => Err(fail("response", format!("incrementing the shared key gives {}", got.show()))),
                        })?;
                        conn.finish();
                        conn.end()?;
                        Ok(seen)
                    })?
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().map_err(|_| harness_error("a connection's thread panicked")).and_then(|r| r)).collect()
    });
    let mut all = Vec::new();
    for r in seen {
        all.extend(r?);
    }
    all.sort_unstable();
    let want: Vec<i64> = (1..=all.len() as i64).collect();
    ensure!(all == want, "shared", "{} increments of a shared key over {} connections give {:?}", want.len(), k, all);
    if !all.is_empty() {
        total.map.insert(shared, Val::Int(all.len() as i64));
    }
    cx.class("concurrent connections");
    cx.nontrivial = all.len() >= 2;
    audit(&mut server, &mut total, &keys, true)
}

/// How many files a process may have open.
fn files() -> usize {
    let mut l = libc::rlimit { rlim_cur: 256, rlim_max: 256 };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) };
    l.rlim_cur.min(1 << 20) as usize
}

/// Thousands of requests on one connection, or hundreds of connections one after another or at once.
fn bulk(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let mut m = Model::default();
    let pool = gen::pool(s, 1, 4);
    let mut keys: BTreeSet<Vec<u8>> = pool.iter().cloned().collect();
    // A few requests make up all of them, but none that make what's there larger and larger.
    let kinds: Vec<Req> = (0..s.range(1, 6))
        .map(|_| {
            let key = s.pick(&pool).clone();
            match s.below(8) {
                0 => Req::new(100, None, vec![vec![b'e'; s.below(20)]]),
                1 => Req::new(100, None, vec![]),
                2 => Req::new(10, Some(0), vec![key, vec![b'v'; s.below(40)]]),
                3 => Req::new(10, Some(1), vec![key, vec![1; s.below(3)]]),
                4 => Req::new(11, None, vec![key]),
                5 => Req::new(12, None, if s.bool() { vec![] } else { vec![key] }),
                _ => Req::new(0, None, vec![key]),
            }
        })
        .collect();
    let encoded: Vec<Vec<u8>> = kinds.iter().map(codec::encode).collect();
    let apart = s.bool();
    let open = apart && s.bool();
    let n = if open { s.range(550, 1100).min(files() / 12) } else if apart { s.range(270, 700) } else { gen::count(s, (500, 12_000), 12_000).max(2) };
    let stride = s.range(1, 7);
    cx.trace(|| {
        let kinds = kinds.iter().map(Req::show).collect::<Vec<_>>().join("; ");
        format!("{} requests{}, of {} with a stride of {}", n, if open { " on as many connections that remain open" } else if apart { " on as many connections" } else { "" }, kinds, stride)
    });
    let order: Vec<usize> = (0..n).map(|i| (i * stride + i / 97) % kinds.len()).collect();
    let wants: Vec<Out> = order.iter().map(|k| m.exec(&kinds[*k])).collect();
    if apart {
        cx.class(if open { "hundreds of open connections" } else { "hundreds of connections" });
        let mut conns = Vec::new();
        for (i, k) in order.iter().enumerate() {
            let mut conn = server.connect()?;
            conn.send(&encoded[*k])?;
            let got = answer(conn.response()?)?;
            check(i, &kinds[*k], &wants[i], &got)?;
            if open {
                conns.push(conn);
            }
        }
        for (i, mut conn) in conns.into_iter().enumerate() {
            let req = Req::new(100, None, vec![format!("still {}", i).into_bytes()]);
            let want = m.exec(&req);
            conn.send(&codec::encode(&req))?;
            let got = answer(conn.response()?)?;
            check(n + i, &req, &want, &got)?;
        }
    } else {
        cx.class("thousands of requests");
        let (mut bytes, mut ends) = (Vec::new(), Vec::new());
        for k in &order {
            bytes.extend(&encoded[*k]);
            ends.push(bytes.len());
        }
        let mut chunks = vec![(bytes.len(), Pause::None)];
        if s.bool() {
            let pause = if s.bool() { Pause::Sync } else { Pause::None };
            chunks.insert(0, (s.range(1, bytes.len() - 1), pause));
        }
        let mut conn = server.connect()?;
        exchange(&mut conn, &bytes, &ends, &chunks, |i, got| check(i, &kinds[order[i]], &wants[i], &got))?;
        conn.finish();
        conn.end()?;
    }
    cx.nontrivial = true;
    keys.extend(m.map.keys().cloned());
    audit(&mut server, &mut m, &keys, true)
}

/// Connections on which nothing happens for a while, at any point of an exchange.
fn patient(cx: &mut Cx) -> Result<u64, Failure> {
    let pause = Duration::from_secs(if cx.thorough { 65 } else { 11 });
    let mut server = Server::start(None)?;
    let mut m = Model::default();
    let set = |k: &[u8], v: &[u8]| Req::new(10, Some(0), vec![k.to_vec(), v.to_vec()]);
    let ask = |conn: &mut Conn, m: &mut Model, i: usize, req: &Req, from: usize| -> CaseResult {
        let want = m.exec(req);
        conn.send(&codec::encode(req)[from..])?;
        let got = answer(conn.response()?)?;
        check(i, req, &want, &got).map_err(|f| fail(f.sig, format!("after {} s in which nothing happens, {}", pause.as_secs(), f.msg)))
    };
    // Before the first request, between two, and within one.
    let mut idle = server.connect()?;
    let mut between = server.connect()?;
    ask(&mut between, &mut m, 0, &set(b"a", b"1"), 0)?;
    let cut = set(b"b", b"2");
    let n = codec::encode(&cut).len();
    let mut within = Vec::new();
    for at in 1..n {
        let mut conn = server.connect()?;
        conn.send(&codec::encode(&cut)[..at])?;
        within.push((conn, at));
    }
    // More responses than what's read at that time.
    let mut slow = server.connect()?;
    let mut writer = slow.stream.try_clone().map_err(|e| harness_error(e.to_string()))?;
    let _ = writer.set_write_timeout(Some(pause + PATIENCE));
    let large = Req::new(100, None, vec![vec![b'x'; 2_000_000]]);
    let bytes = codec::encode(&large);
    let sender = thread::spawn(move || (0..12).all(|_| writer.write_all(&bytes).is_ok()));
    thread::sleep(pause);
    server.alive()?;
    ask(&mut idle, &mut m, 0, &set(b"c", b"3"), 0)?;
    ask(&mut between, &mut m, 1, &set(b"a", b"4"), 0)?;
    for (conn, at) in &mut within {
        ask(conn, &mut m, 0, &cut, *at)?;
        conn.finish();
        conn.end()?;
    }
    for i in 0..12 {
        let want = m.exec(&large);
        let got = answer(slow.response()?)?;
        check(i, &large, &want, &got)?;
    }
    ensure!(sender.join().unwrap_or(false), "write", "the server stops reading while its responses aren't read");
    slow.finish();
    slow.end()?;
    let keys = [b"a".to_vec(), b"b".to_vec(), b"c".to_vec()].into_iter().collect();
    audit(&mut server, &mut m, &keys, true)?;
    cx.class("long pauses");
    Ok(n as u64 + 2)
}

fn run(s: &mut Src, cx: &mut Cx) -> CaseResult {
    match s.weighted(&[100, 50, 50, 3]) {
        0 => pipelined(s, cx),
        1 => turns(s, cx),
        2 => concurrent(s, cx),
        _ => bulk(s, cx),
    }
}

fn junk_byte(s: &mut Src) -> u8 {
    let all: Vec<u8> = (0..=255).rev().filter(|b| !codec::COMMANDS.iter().any(|c| c.0 == b & 0x7f)).collect();
    *s.pick(&all)
}

/// A connection that is served, with what's been written of a request.
struct Good {
    conn: Conn,
    half: Option<(Req, Vec<u8>)>,
}

struct World {
    server: Server,
    m: Model,
    pool: Vec<Vec<u8>>,
    keys: BTreeSet<Vec<u8>>,
    good: Vec<Good>,
    /// Connections that are kept as they are.
    held: Vec<Conn>,
    /// Whether the number of commands is known.
    exact: bool,
    ok: usize,
}

impl World {
    /// Some requests on a connection that's well-behaved, which are answered no matter what others do.
    fn serve(&mut self, s: &mut Src, cx: &mut Cx, what: &str) -> CaseResult {
        let i = s.below(self.good.len());
        let good = &mut self.good[i];
        let n = s.range(1, 3);
        for _ in 0..n {
            let (req, bytes) = match good.half.take() {
                Some((req, rest)) => (req, rest),
                None => {
                    let mut req = gen::request(s, &self.m, &self.pool, &SMALL);
                    if !self.exact && req.cmd == 101 {
                        req = Req::new(100, None, vec![]);
                    }
                    let bytes = codec::encode(&req);
                    (req, bytes)
                }
            };
            gen::universe(&mut self.keys, &req);
            cx.trace(|| format!("good connection {}: {}", i, req.show()));
            good.conn.send(&bytes)?;
            let got = good
                .conn
                .response()
                .and_then(answer)
                .map_err(|f| Failure { msg: format!("{}: a well-behaved connection isn't served: {}", what, f.msg), ..f })?;
            let want = self.m.exec(&req);
            ensure!(want.matches(&got), "response", "{}: the answer to {} is {} but it should be {}", what, req.show(), got.show(), want.show());
            self.ok += 1;
        }
        if s.pct(15) {
            let req = gen::request(s, &self.m, &self.pool, &SMALL);
            if req.cmd != 101 {
                let all = codec::encode(&req);
                let cut = s.below(all.len());
                good.conn.send(&all[..cut])?;
                cx.trace(|| format!("good connection {}: the first {} bytes of {}", i, cut, req.show()));
                good.half = Some((req, all[cut..].to_vec()));
            }
        }
        Ok(())
    }

    /// Valid requests followed by an invalid one, all of which is answered, and then valid requests again.
    fn invalid(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        let mut conn = self.server.connect()?;
        let rounds = if s.pct(6) {
            cx.class("many invalid requests on a connection");
            s.range(4, 300)
        } else {
            s.range(1, 3)
        };
        for round in 0..rounds {
            let mut bytes = Vec::new();
            let mut wants = Vec::new();
            for _ in 0..s.range(0, 3) {
                let mut req = gen::request(s, &self.m, &self.pool, &SMALL);
                if !self.exact && req.cmd == 101 {
                    req = Req::new(100, None, vec![]);
                }
                gen::universe(&mut self.keys, &req);
                bytes.extend(codec::encode(&req));
                let want = self.m.exec(&req);
                wants.push((req, want));
            }
            let code = if s.bool() {
                bytes.push(junk_byte(s));
                0
            } else {
                let cmd = s.pick(&gen::CMDS);
                bytes.push(0x80 | cmd);
                bytes.push(s.range(8, 255) as u8);
                1
            };
            cx.trace(|| format!("invalid connection: {} requests and then an invalid one ({})", wants.len(), code));
            conn.send(&bytes)?;
            for (i, (req, want)) in wants.iter().enumerate() {
                let got = answer(conn.response()?)?;
                check(i, req, want, &got)?;
            }
            match conn.response()? {
                Resp::Parse(c) if c == code => {}
                other => {
                    return Err(fail(
                        "invalid",
                        format!("the answer to an invalid {} is {:?} (round {})", if code == 0 { "command" } else { "key type" }, other, round),
                    ))
                }
            }
        }
        cx.class("invalid request");
        if s.bool() {
            conn.finish();
            conn.end()?;
        } else {
            // It can be used again.
            self.good.push(Good { conn, half: None });
        }
        Ok(())
    }

    /// Nothing but bytes that don't start a request.
    fn garbage(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        let mut conn = self.server.connect()?;
        let n = match s.weighted(&[5, 3, 1]) {
            0 => s.range(1, 20),
            1 => s.range(20, 500),
            _ => s.range(8000, 40_000),
        };
        let some: Vec<u8> = (0..n.min(64)).map(|_| junk_byte(s)).collect();
        let bytes: Vec<u8> = some.iter().copied().cycle().take(n).collect();
        cx.trace(|| format!("garbage: {} bytes, {}", n, show(&some)));
        cx.class("garbage");
        conn.send(&bytes)?;
        if s.pct(30) {
            conn.reset();
            return Ok(());
        }
        conn.finish();
        let mut all = Vec::new();
        let mut buf = [0; 65536];
        loop {
            match conn.stream.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => all.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(fail("garbage", format!("after {} bytes of garbage, reading the answers fails: {}", n, e))),
            }
        }
        let mut rest = &all[..];
        let mut count = 0;
        while !rest.is_empty() {
            match codec::decode_resp(rest) {
                Some(Ok((Resp::Parse(0), n))) => rest = &rest[n..],
                other => return Err(fail("garbage", format!("garbage is answered with {} which is {:?}", show(rest), other))),
            }
            count += 1;
        }
        ensure!(count >= 1 && count <= n, "garbage", "{} bytes of garbage are answered with {} errors", n, count);
        Ok(())
    }

    /// Parts of requests that never become complete.
    fn partial(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 1,
            1 => s.range(2, 8),
            _ => s.range(9, 40),
        };
        for _ in 0..n {
            let mut conn = self.server.connect()?;
            let bytes = if s.pct(30) {
                // It claims to be longer than anything.
                cx.class("enormous claim");
                let cmd = *s.pick(&[10u8, 20, 11, 100, 13]);
                let mut b = vec![0x80 | cmd, s.below(8) as u8, s.range(1, 255) as u8];
                if s.bool() {
                    let k = s.pick(&self.pool).clone();
                    b.extend((k.len() as u32).to_be_bytes());
                    b.extend(k);
                }
                if b[2] > 1 || b.len() == 3 {
                    b.extend(s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 28]).to_be_bytes());
                }
                b.extend(vec![7; s.below(100)]);
                b
            } else {
                let req = gen::request(s, &self.m, &self.pool, &SMALL);
                gen::universe(&mut self.keys, &req);
                let all = codec::encode(&req);
                // A request that's of one byte has no part.
                let cut = if all.len() > 1 { s.range(1, all.len() - 1) } else { 0 };
                cx.trace(|| format!("partial: the first {} bytes of {}", cut, req.show()));
                all[..cut].to_vec()
            };
            // Whatever it is, it isn't complete.
            if !matches!(codec::decode_req(&bytes), codec::Parsed::More) {
                continue;
            }
            cx.trace(|| format!("partial: {}", show(&bytes)));
            conn.send(&bytes)?;
            match s.below(4) {
                0 => {
                    cx.class("disconnection within a request");
                    conn.finish();
                    conn.end()?;
                }
                1 => {
                    cx.class("reset within a request");
                    conn.reset();
                }
                2 => drop(conn),
                _ => {
                    cx.class("held within a request");
                    self.held.push(conn);
                }
            }
        }
        Ok(())
    }

    /// Requests whose answers are never read.
    fn unread(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        let key = b"unread".to_vec();
        let val = vec![b'x'; s.range(1000, 100_000)];
        let set = Req::new(10, Some(0), vec![key.clone(), val]);
        let mut conn = self.server.connect()?;
        conn.send(&codec::encode(&set))?;
        let got = answer(conn.response()?)?;
        let want = self.m.exec(&set);
        check(0, &set, &want, &got)?;
        self.exact = false;
        let one = codec::encode(&Req::new(11, None, vec![key]));
        let n = s.range(50, 400);
        let all: Vec<u8> = one.iter().copied().cycle().take(one.len() * n).collect();
        // The server may stop reading.
        let _ = conn.stream.set_nonblocking(true);
        let _ = conn.stream.write(&all);
        let _ = conn.stream.set_nonblocking(false);
        cx.trace(|| format!("unread: {} answers", n));
        match s.below(3) {
            0 => {
                cx.class("reset with unread answers");
                conn.reset();
            }
            1 => {
                cx.class("end with unread answers");
                drop(conn);
            }
            _ => {
                cx.class("held with unread answers");
                self.held.push(conn);
            }
        }
        Ok(())
    }

    /// Hundreds of connections, each of which is gone before the next.
    fn churn(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        cx.class("hundreds of short connections");
        let n = s.range(200, 1500);
        let req = Req::new(0, None, vec![self.pool[0].clone(), vec![0; 8]]);
        let part = codec::encode(&req);
        let cut = s.below(part.len());
        let kinds = s.range(1, 4);
        cx.trace(|| format!("churn: {} connections", n));
        for i in 0..n {
            let mut conn = self.server.connect()?;
            match i % kinds {
                0 => {}
                1 => {
                    let _ = conn.send(&[0xff]);
                    if i % 8 == 1 {
                        match conn.response()? {
                            Resp::Parse(0) => {}
                            other => return Err(fail("invalid", format!("the answer to an invalid command is {:?} on connection {}", other, i))),
                        }
                    }
                }
                2 => {
                    let _ = conn.send(&part[..cut]);
                }
                _ => {
                    conn.reset();
                    continue;
                }
            }
        }
        Ok(())
    }

    /// More connections than the server can have.
    fn flood(&mut self, s: &mut Src, cx: &mut Cx) -> CaseResult {
        cx.class("flood");
        let n = s.range(30, 60);
        cx.trace(|| format!("flood: {} connections", n));
        let mut conns = Vec::new();
        for _ in 0..n {
            conns.push(self.server.connect()?);
        }
        // Until the server noticed.
        thread::sleep(Duration::from_millis(s.range(1, 60) as u64));
        self.serve(s, cx, "while there are too many connections")?;
        for c in conns {
            if s.bool() {
                c.reset();
            }
        }
        Ok(())
    }
}

fn misbehave(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let files = if s.pct(15) { Some(s.range(24, 40) as u64) } else { None };
    let mut w = World {
        server: Server::start(files)?,
        m: Model::default(),
        pool: gen::pool(s, 2, 6),
        keys: BTreeSet::new(),
        good: Vec::new(),
        held: Vec::new(),
        exact: true,
        ok: 0,
    };
    for _ in 0..s.range(1, 3) {
        let conn = w.server.connect()?;
        w.good.push(Good { conn, half: None });
    }
    w.serve(s, cx, "at first")?;
    let mut bad = 0;
    for _ in 0..s.range(2, 12) {
        match s.weighted(&[60, 30, 20, 50, 16, if files.is_some() { 24 } else { 0 }, 1]) {
            0 => w.serve(s, cx, "among misbehaving connections")?,
            // Those that are limited can't hold many.
            _ if files.is_some() && w.held.len() + w.good.len() > 3 => {
                w.held.clear();
                w.good.truncate(1);
            }
            1 => {
                w.invalid(s, cx)?;
                bad += 1;
            }
            2 => {
                w.garbage(s, cx)?;
                bad += 1;
            }
            3 if files.is_none() => {
                w.partial(s, cx)?;
                bad += 1;
            }
            4 if files.is_none() => {
                w.unread(s, cx)?;
                bad += 1;
            }
            5 => {
                w.flood(s, cx)?;
                bad += 1;
            }
            6 => {
                w.churn(s, cx)?;
                bad += 1;
            }
            _ => w.serve(s, cx, "among misbehaving connections")?,
        }
        w.server.alive()?;
    }
    w.serve(s, cx, "after misbehaving connections")?;
    cx.nontrivial = bad >= 1 && w.ok >= 2;
    let World { mut server, mut m, keys, good, held, exact, .. } = w;
    // A connection that holds a part of a request doesn't have an effect when it ends.
    drop(held);
    for g in good {
        drop(g.conn);
    }
    audit(&mut server, &mut m, &keys, exact)?;
    server.deserted()
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            rule: "at least three commands succeed and one fails; of concurrent connections, at least two increments of a shared key are made",
            assumptions: &[
                "socket addresses are translated by a preloaded library (see DESIGN.md), as the pinned networking stack can't otherwise bind with this toolchain",
                "chunks that are written at different times may still be received at once; those that wait for answers are received apart",
            ],
            quick: 6_000,
            threads: 8,
            run,
            fixed: Some(patient),
            case_limit: 100,
            ..Check::default()
        },
        Check {
            id: "C29",
            rule: "at least one connection misbehaves and at least two requests of well-behaved connections are answered",
            assumptions: &[
                "socket addresses are translated by a preloaded library (see DESIGN.md)",
                "a server that doesn't answer within 20 s never does",
            ],
            quick: 6_000,
            threads: 8,
            run: misbehave,
            case_limit: 100,
            ..Check::default()
        },
    ]
}
