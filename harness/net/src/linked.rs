//! C21: the client over a connection.

use crate::{
    call::{self, stats_of, AppendArg, By, Call, Form, Got, Want},
    memory,
    server::{address, Server},
};
use hop::{backend::ServerBackend, Client};
use pbt::{
    codec::{self, Parsed, Resp},
    ensure, fail, gen,
    model::{Model, Out, Req, Val},
    run::{catch, harness_error},
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    collections::BTreeSet,
    future::Future,
    io::{ErrorKind, Read, Write},
    net::{Shutdown, SocketAddr, TcpListener, TcpStream},
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::Poll,
    thread,
    time::{Duration, Instant},
};
use tokio::runtime::{Builder, Runtime};

type Link = Client<ServerBackend>;

/// How long a call may take that should take a millisecond.
const SECS: u64 = 20;

pub fn runtime(threads: usize) -> Result<Runtime, Failure> {
    let mut b = Builder::new();
    b.enable_all();
    if threads > 0 {
        b.threaded_scheduler().core_threads(threads);
    } else {
        b.basic_scheduler();
    }
    b.build().map_err(|e| harness_error(e.to_string()))
}

pub fn connect(rt: &mut Runtime, addr: SocketAddr) -> Result<Link, Failure> {
    let got = catch(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(SECS), Client::connect(addr)).await }))?;
    match got {
        Err(_) => Err(fail("hang", format!("connecting takes more than {} s", SECS))),
        Ok(Err(e)) => Err(fail("connect", format!("connecting to a server fails: {:?}", e))),
        Ok(Ok(c)) => Ok(c),
    }
}

async fn timely(client: &Link, c: &Call) -> Result<Got, Failure> {
    match call::perform_timely(client, c, SECS).await {
        Some(g) => Ok(g),
        None => Err(fail("hang", format!("{} takes more than {} s", c.show(), SECS))),
    }
}

pub fn do_call(rt: &mut Runtime, client: &Link, c: &Call) -> Result<Got, Failure> {
    match catch(|| rt.block_on(timely(client, c))) {
        Err(f) => Err(Failure { sig: "panic".into(), msg: format!("{} panics: {}", c.show(), f.msg), harness: f.harness }),
        Ok(r) => r,
    }
}

/// Poll a call a number of times and then drop it.
async fn abandon(client: &Link, c: &Call, polls: usize) -> Option<Got> {
    let mut fut = Box::pin(call::perform(client, c));
    for i in 0..polls {
        let mut once = futures_poll(|cx| Poll::Ready(fut.as_mut().poll(cx)));
        if let Poll::Ready(got) = (&mut once).await {
            return Some(got);
        }
        if i + 1 < polls {
            tokio::time::delay_for(Duration::from_micros(300)).await;
        }
    }
    None
}

fn futures_poll<T, F: FnMut(&mut std::task::Context<'_>) -> Poll<T> + Unpin>(f: F) -> impl Future<Output = T> + Unpin {
    struct PollFn<F>(F);
    impl<T, F: FnMut(&mut std::task::Context<'_>) -> Poll<T> + Unpin> Future for PollFn<F> {
        type Output = T;
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<T> {
            (self.0)(cx)
        }
    }
    PollFn(f)
}

/// A value of a megabyte or so.
fn huge(s: &mut Src, pool: &[Vec<u8>]) -> Call {
    let n = s.range(60_000, 2_500_000);
    let blob: Vec<u8> = (0..n).map(|i| b'a' + ((i as u32).wrapping_mul(2_654_435_761) >> 24) as u8 % 26).collect();
    let key = s.pick(pool).clone();
    match s.below(3) {
        0 => Call::Set { key, val: Val::Bytes(blob), items: vec![], form: Form::Typed },
        1 => Call::Set { key, val: Val::Str(String::from_utf8(blob).expect("letters")), items: vec![], form: Form::Typed },
        _ => Call::Echo { content: blob },
    }
}

/// The same calls on a real server, an in-memory instance and the model.
fn same(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let mut rt = runtime(0)?;
    let links = if s.pct(20) {
        vec![connect(&mut rt, server.addr)?, connect(&mut rt, server.addr)?]
    } else {
        vec![connect(&mut rt, server.addr)?]
    };
    let memory = Client::memory();
    let mut m = Model::default();
    let pool = gen::pool(s, 2, 8);
    let mut keys: BTreeSet<Vec<u8>> = pool.iter().cloned().collect();
    let n = if s.choice(299) == 0 {
        cx.class("hundreds of calls");
        gen::count(s, (300, 3000), 6000)
    } else {
        gen::count(s, (4, 40), 200)
    };
    let (mut ok, mut errors) = (0, 0);
    for step in 0..n {
        let c = if n <= 200 && s.pct(2) { huge(s, &pool) } else { call::generate(s, &m, &pool, &call::PROFILE) };
        memory::mentioned(&c, &mut keys);
        let link = s.pick(&links);
        if s.pct(4) {
            cx.class("call that isn't awaited");
            cx.trace(|| format!("drop {}", c.show()));
            drop(call::perform(link, &c));
            continue;
        }
        let want = c.want(&mut m);
        let got = do_call(&mut rt, link, &c)?;
        cx.trace(|| format!("{} -> {}", c.show(), got.show()));
        ensure!(want.matches(&got), "result", "step {}: {} gives {} but it should be {}", step, c.show(), got.show(), want.show());
        let local = memory::do_call(&memory, &c)?;
        ensure!(
            want.matches(&local),
            "difference",
            "step {}: {} gives {} over a connection but {} in memory",
            step,
            c.show(),
            got.show(),
            local.show()
        );
        match &want {
            Want::Refused(_) => {}
            Want::Out(o) if o.is_err() => errors += 1,
            _ => ok += 1,
        }
    }
    let mut all: Vec<Call> = vec![Call::Stats];
    keys.extend(m.map.keys().cloned());
    all.extend(keys.into_iter().map(|key| Call::Get { key, kt: None, alias: false }));
    for c in all {
        let want = c.want(&mut m);
        let got = do_call(&mut rt, &links[0], &c)?;
        ensure!(want.matches(&got), "effect", "afterwards {} gives {} but it should be {}", c.show(), got.show(), want.show());
    }
    cx.class("on a server and in memory");
    cx.nontrivial = ok >= 3 && errors >= 1;
    server.alive()
}

/// Values that are larger than what any buffer holds.
fn same_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let mut server = Server::start(None)?;
    let mut rt = runtime(0)?;
    let link = connect(&mut rt, server.addr)?;
    let mut m = Model::default();
    let mut calls = Vec::new();
    for (i, n) in [(1 << 22) + 1, (1 << 23) + 3, (1 << 24) - 9, 1 << 24, (1 << 24) + 50, (1 << 25) + 5].iter().enumerate() {
        let blob: Vec<u8> = (0..*n).map(|i| b'a' + ((i as u32).wrapping_mul(2_654_435_761) >> 24) as u8 % 26).collect();
        let key = format!("k{}", i).into_bytes();
        match i % 3 {
            0 => calls.push(Call::Set { key: key.clone(), val: Val::Bytes(blob), items: vec![], form: Form::Typed }),
            1 => calls.push(Call::Set { key: key.clone(), val: Val::Str(String::from_utf8(blob).expect("letters")), items: vec![], form: Form::Typed }),
            _ => calls.push(Call::Echo { content: blob }),
        }
        calls.push(Call::Get { key: key.clone(), kt: None, alias: false });
        calls.push(Call::Exists { keys: vec![key], single: true });
    }
    for c in &calls {
        let want = c.want(&mut m);
        let got = do_call(&mut rt, &link, c)?;
        ensure!(want.matches(&got), "result", "{} gives {} but it should be {}", c.show(), got.show(), want.show());
    }
    // A response that takes long, and a connection on which nothing happens for as long.
    let fake = Fake::start(vec![Plan { fault: Fault::None, cuts: vec![3, 700], wait: 100_000, delay: 11_000_000 }], false)?;
    let late = connect(&mut rt, fake.addr)?;
    let (mut other, c) = (Model::default(), Call::Echo { content: b"late".to_vec() });
    let want = c.want(&mut other);
    let got = do_call(&mut rt, &late, &c)?;
    ensure!(want.matches(&got), "late", "{} gives {} after 11 s but it should be {}", c.show(), got.show(), want.show());
    drop(late);
    fake.end()?;
    for c in [Call::Echo { content: b"again".to_vec() }, Call::Get { key: b"k0".to_vec(), kt: None, alias: false }] {
        let want = c.want(&mut m);
        let got = do_call(&mut rt, &link, &c)?;
        ensure!(want.matches(&got), "idle", "after 11 s in which nothing happens {} gives {} but it should be {}", c.show(), got.show(), want.show());
        calls.push(c);
    }
    server.alive()?;
    cx.class("huge values, and long pauses");
    Ok(calls.len() as u64 + 1)
}

/// What a task does next on a connection that's shared.
#[derive(Clone, Debug)]
enum Step {
    Call(Call, Want),
    /// Something without an effect, which is dropped after it was polled a number of times.
    Abandon(Call, usize),
    /// Increment a key that's shared by all tasks.
    Shared,
    Yield(u64),
}

/// Many tasks on one connection to a real server.
fn shared(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let threads = s.below(5);
    let mut rt = runtime(threads)?;
    let client = Arc::new(connect(&mut rt, server.addr)?);
    let many = s.choice(199) == 0;
    let k = if many {
        cx.class("hundreds of tasks");
        s.range(50, 400)
    } else {
        s.range(2, 8)
    };
    let mut profile = call::PROFILE;
    profile.odd = 0;
    profile.wild = 0;
    profile.weights[15] = 0;
    let mut plans = Vec::new();
    let mut total = Model::default();
    let mut abandoned = 0;
    for t in 0..k {
        let pool: Vec<Vec<u8>> = (0..s.range(1, 3)).map(|i| format!("{}/{}", t, i).into_bytes()).collect();
        let mut m = Model::default();
        let mut steps = Vec::new();
        for _ in 0..s.range(2, if many { 4 } else { 25 }) {
            steps.push(match s.weighted(&[60, 15, 15, 10]) {
                0 => {
                    let c = call::generate(s, &m, &pool, &profile);
                    let want = c.want(&mut m);
                    Step::Call(c, want)
                }
                1 => Step::Shared,
                2 => {
                    abandoned += 1;
                    let c = match s.below(3) {
                        0 => Call::Echo { content: b"abandoned".to_vec() },
                        1 => Call::Get { key: s.pick(&pool).clone(), kt: None, alias: false },
                        _ => Call::Type { key: s.pick(&pool).clone() },
                    };
                    Step::Abandon(c, s.below(3))
                }
                _ => Step::Yield(s.below(300) as u64),
            });
        }
        cx.trace(|| {
            let steps: Vec<String> = steps
                .iter()
                .map(|s| match s {
                    Step::Call(c, _) => c.show(),
                    Step::Abandon(c, n) => format!("{}, dropped after {} polls", c.show(), n),
                    other => format!("{:?}", other),
                })
                .collect();
            format!("task {}: {}", t, steps.join("; "))
        });
        total.map.extend(m.map);
        plans.push(steps);
    }
    let tasks: Vec<_> = plans
        .into_iter()
        .enumerate()
        .map(|(t, steps)| {
            let client = Arc::clone(&client);
            async move {
                let mut seen: Vec<i64> = Vec::new();
                for (i, step) in steps.iter().enumerate() {
                    match step {
                        Step::Call(c, want) => {
                            let got = timely(&client, c).await?;
                            ensure!(
                                want.matches(&got),
                                "result",
                                "step {} of task {}: {} gives {} but it should be {}",
                                i,
                                t,
                                c.show(),
                                got.show(),
                                want.show()
                            );
                        }
                        Step::Abandon(c, polls) => {
                            abandon(&client, c, *polls).await;
                        }
                        Step::Shared => {
                            let c = Call::Add { key: b"shared".to_vec(), down: false, by: By::Untyped };
                            match timely(&client, &c).await? {
                                Got::Val(Val::Int(n)) if seen.last().map_or(true, |l| *l < n) => seen.push(n),
                                got => return Err(fail("result", format!("incrementing the shared key gives {} after {:?}", got.show(), seen))),
                            }
                        }
                        Step::Yield(us) => tokio::time::delay_for(Duration::from_micros(*us)).await,
                    }
                }
                Ok::<_, Failure>(seen)
            }
        })
        .collect();
    let mut all = Vec::new();
    let results = catch(|| {
        rt.block_on(async {
            let mut out = Vec::new();
            if threads > 0 {
                let handles: Vec<_> = tasks.into_iter().map(tokio::spawn).collect();
                for h in handles {
                    out.push(h.await.unwrap_or_else(|e| Err(fail("panic", format!("a task panics: {}", e)))));
                }
            } else {
                out = join_all(tasks).await;
            }
            out
        })
    })?;
    for r in results {
        all.extend(r?);
    }
    all.sort_unstable();
    let want: Vec<i64> = (1..=all.len() as i64).collect();
    ensure!(all == want, "shared", "{} increments of a shared key by {} tasks give {:?}", want.len(), k, all);
    if !all.is_empty() {
        total.map.insert(b"shared".to_vec(), Val::Int(all.len() as i64));
    }
    for (key, _) in total.map.clone() {
        let c = Call::Get { key, kt: None, alias: false };
        let want = c.want(&mut total);
        let got = do_call(&mut rt, &client, &c)?;
        ensure!(want.matches(&got), "effect", "afterwards {} gives {} but it should be {}", c.show(), got.show(), want.show());
    }
    cx.class("tasks sharing a connection");
    if abandoned > 0 {
        cx.class("with calls that are dropped");
    }
    cx.nontrivial = k >= 2 && all.len() >= 2;
    server.alive()
}

/// Run futures concurrently on one task.
async fn join_all<T>(futs: Vec<impl Future<Output = T>>) -> Vec<T> {
    let mut futs: Vec<_> = futs.into_iter().map(|f| (Box::pin(f), None)).collect();
    futures_poll(|cx| {
        let mut pending = false;
        for (f, out) in futs.iter_mut() {
            if out.is_none() {
                match f.as_mut().poll(cx) {
                    Poll::Ready(v) => *out = Some(v),
                    Poll::Pending => pending = true,
                }
            }
        }
        if pending {
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await;
    futs.into_iter().filter_map(|f| f.1).collect()
}

/// What a made-up server does with a response.
#[derive(Clone, Debug)]
enum Fault {
    None,
    /// Another response, which is well-formed.
    Other(Resp),
    /// Bytes that aren't a response.
    Malformed(Vec<u8>),
    /// Only so many thousandths of the response, and then the end.
    Truncate(u64),
    /// The same, with a reset.
    Reset(u64),
}

#[derive(Clone, Debug)]
struct Plan {
    fault: Fault,
    /// Where the response is cut, in thousandths, and the microseconds that pass in between.
    cuts: Vec<u64>,
    wait: u64,
    /// Microseconds before responding at all.
    delay: u64,
}

/// What came of a request at the made-up server.
#[derive(Clone, Debug)]
struct Entry {
    req: Req,
    fault: Fault,
    resp: Resp,
}

struct Fake {
    addr: SocketAddr,
    log: Arc<Mutex<Vec<Entry>>>,
    stop: Arc<AtomicBool>,
    thread: Option<thread::JoinHandle<Result<(), String>>>,
}

impl Fake {
    /// A server that follows a plan, with no faults after it, executing requests on a model.
    fn start(plans: Vec<Plan>, batch: bool) -> Result<Fake, Failure> {
        let mut listener = None;
        for _ in 0..50 {
            let addr = address();
            if let Ok(l) = TcpListener::bind(addr) {
                listener = Some((l, addr));
                break;
            }
        }
        let (listener, addr) = listener.ok_or_else(|| harness_error("there's no address to listen on"))?;
        listener.set_nonblocking(true).map_err(|e| harness_error(e.to_string()))?;
        let log = Arc::new(Mutex::new(Vec::new()));
        let stop = Arc::new(AtomicBool::new(false));
        let thread = {
            let (log, stop) = (Arc::clone(&log), Arc::clone(&stop));
            thread::spawn(move || serve(listener, plans, batch, &log, &stop))
        };
        Ok(Fake { addr, log, stop, thread: Some(thread) })
    }

    fn last(&self) -> Option<Entry> {
        self.log.lock().unwrap().last().cloned()
    }

    fn count(&self) -> usize {
        self.log.lock().unwrap().len()
    }

    fn end(mut self) -> CaseResult {
        self.stop.store(true, Ordering::SeqCst);
        match self.thread.take().map(|t| t.join()) {
            Some(Ok(Ok(()))) => Ok(()),
            Some(Ok(Err(e))) => Err(fail("request", e)),
            _ => Err(harness_error("the made-up server panicked")),
        }
    }
}

impl Drop for Fake {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn serve(listener: TcpListener, plans: Vec<Plan>, batch: bool, log: &Mutex<Vec<Entry>>, stop: &AtomicBool) -> Result<(), String> {
    let mut stream = loop {
        match listener.accept() {
            Ok((s, _)) => break s,
            Err(_) if stop.load(Ordering::SeqCst) => return Ok(()),
            Err(_) => thread::sleep(Duration::from_micros(50)),
        }
    };
    let _ = stream.set_nonblocking(false);
    let _ = stream.set_nodelay(true);
    let mut plans = plans.into_iter();
    let mut m = Model::default();
    let mut input: Vec<u8> = Vec::new();
    let mut buf = [0; 65536];
    let mut held: Vec<u8> = Vec::new();
    loop {
        // Whatever is complete.
        loop {
            let (req, n) = match codec::decode_req(&input) {
                Parsed::Done(req, n) => (req, n),
                Parsed::More => break,
                bad => return Err(format!("the client sends {} which is {:?}", show(&input), bad)),
            };
            input.drain(..n);
            let plan = plans.next().unwrap_or(Plan { fault: Fault::None, cuts: vec![], wait: 0, delay: 0 });
            let resp = match m.exec(&req) {
                Out::Val(v) => Resp::Val(v),
                Out::Unordered(l) => Resp::Val(Val::List(l)),
                Out::Err(e) => Resp::Dispatch(e),
            };
            let resp = match &plan.fault {
                Fault::Other(r) => r.clone(),
                _ => resp,
            };
            let bytes = match &plan.fault {
                Fault::Malformed(b) => b.clone(),
                _ => codec::encode_resp(&resp),
            };
            log.lock().unwrap().push(Entry { req, fault: plan.fault.clone(), resp });
            if plan.delay > 0 {
                thread::sleep(Duration::from_micros(plan.delay));
            }
            match plan.fault {
                Fault::Truncate(part) | Fault::Reset(part) => {
                    let _ = stream.write_all(&held);
                    let _ = stream.write_all(&bytes[..(bytes.len() - 1) * part as usize / 1000]);
                    if let Fault::Reset(_) = plan.fault {
                        crate::server::Conn { stream, buf: vec![] }.reset();
                    } else {
                        let _ = stream.shutdown(Shutdown::Write);
                        // Reading what's left so that this isn't a reset.
                        let _ = stream.set_read_timeout(Some(Duration::from_millis(2)));
                        while !stop.load(Ordering::SeqCst) {
                            match stream.read(&mut buf) {
                                Ok(0) => break,
                                Ok(_) => {}
                                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                                Err(_) => break,
                            }
                        }
                    }
                    return Ok(());
                }
                _ => {}
            }
            if batch && plan.cuts.is_empty() {
                held.extend(bytes);
                continue;
            }
            let _ = stream.write_all(&held);
            held.clear();
            let mut at = 0;
            for cut in plan.cuts.iter().map(|c| bytes.len() * *c as usize / 1000).chain(Some(bytes.len())) {
                if cut > at {
                    let _ = stream.write_all(&bytes[at..cut]);
                    at = cut;
                    if plan.wait > 0 && cut < bytes.len() {
                        thread::sleep(Duration::from_micros(plan.wait));
                    }
                }
            }
        }
        // Answers are held back as long as there are requests.
        let _ = stream.set_read_timeout(Some(Duration::from_millis(if held.is_empty() { 20 } else { 1 })));
        match stream.read(&mut buf) {
            Ok(0) => return Ok(()),
            Ok(n) => input.extend_from_slice(&buf[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {
                if !held.is_empty() {
                    let _ = stream.write_all(&held);
                    held.clear();
                }
                if stop.load(Ordering::SeqCst) {
                    return Ok(());
                }
            }
            Err(_) => return Ok(()),
        }
    }
}

fn resp(s: &mut Src) -> Resp {
    match s.weighted(&[12, 2, 2]) {
        0 => {
            let kind = s.below(8) as u8;
            Resp::Val(match s.weighted(&[4, 1, 1]) {
                // Such numbers as are types or not.
                1 => Val::Int(*s.pick(&[0i64, 3, 7, 8, 255, 256, 257, -1, -253, 1 << 32])),
                2 => match kind {
                    5 => Val::List(vec![]),
                    6 => Val::Map(Default::default()),
                    7 => Val::Set(Default::default()),
                    _ => Val::Bytes(vec![]),
                },
                _ => gen::val(s, kind, gen::Size::Small),
            })
        }
        1 => Resp::Dispatch(s.below(8) as u8),
        _ => Resp::Parse(s.below(2) as u8),
    }
}

fn framed(body: Vec<u8>) -> Vec<u8> {
    let mut b = (body.len() as u32).to_be_bytes().to_vec();
    b.extend(body);
    b
}

/// Bytes that can't be the start of responses.
fn malformed(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        // No such type.
        0 => framed(vec![s.range(10, 255) as u8]),
        1 => framed(vec![s.range(10, 255) as u8, 0, 0, 0, 1, 2]),
        // No such errors.
        2 => framed(vec![8, s.range(2, 255) as u8]),
        3 => framed(vec![9, s.range(8, 255) as u8]),
        // A string that isn't one.
        4 => framed(vec![7, 0, 0, 0, 2, b'a', 0xff]),
        // A message that's shorter than what's in it.
        5 => {
            let b = codec::encode_resp(&Resp::Val(Val::Int(7)));
            let mut b = b[..s.range(5, 12)].to_vec();
            let n = b.len() - 4;
            b[3] = n as u8;
            b
        }
        6 => framed(vec![1, 0, 0, 0, 9, b'a', b'b']),
        // No message.
        _ => vec![0; 4],
    }
}

fn plan(s: &mut Src, faults: bool) -> Plan {
    let fault = if faults && s.pct(12) {
        match s.weighted(&[6, 4, 3, 1]) {
            0 => Fault::Other(resp(s)),
            1 => Fault::Malformed(malformed(s)),
            2 => Fault::Truncate(s.choice(1000)),
            _ => Fault::Reset(s.choice(1000)),
        }
    } else {
        Fault::None
    };
    let mut cuts: Vec<u64> = match s.weighted(&[5, 4, 2]) {
        0 => vec![],
        1 => vec![s.choice(1000)],
        _ => (0..s.range(2, 6)).map(|_| s.choice(1000)).collect(),
    };
    cuts.sort_unstable();
    let wait = *s.pick(&[0, 0, 100, 300]);
    let delay = if s.pct(10) { *s.pick(&[200, 1000, 3000]) } else { 0 };
    Plan { fault, cuts, wait, delay }
}

/// Requests are the same but for the order of what's unordered.
fn same_request(a: &Req, b: &Req) -> bool {
    if a.cmd != b.cmd || a.kt != b.kt || a.args.len() != b.args.len() {
        return false;
    }
    let norm = |r: &Req| -> Vec<Vec<u8>> {
        let mut args = r.args.clone();
        match (r.cmd, r.kt) {
            (10, Some(7)) => args[1..].sort(),
            (10, Some(6)) => {
                let mut pairs: Vec<Vec<Vec<u8>>> = args[1..].chunks(2).map(|c| c.to_vec()).collect();
                pairs.sort();
                args.truncate(1);
                args.extend(pairs.into_iter().flatten());
            }
            _ => {}
        }
        args
    };
    norm(a) == norm(b)
}

/// One call after another, on a server that misbehaves.
fn faulty(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let n = s.range(2, 25);
    let faults = s.pct(75);
    let plans: Vec<Plan> = (0..n).map(|_| plan(s, faults)).collect();
    let fake = Fake::start(plans, false)?;
    let mut rt = runtime(0)?;
    let client = connect(&mut rt, fake.addr)?;
    // Only for making up calls that make sense.
    let mut m = Model::default();
    let pool = gen::pool(s, 2, 5);
    // Whether the connection can't be used any further.
    let mut dead = false;
    let (mut right, mut wrong) = (0, 0);
    for step in 0..n {
        let c = call::generate(s, &m, &pool, &call::PROFILE);
        let spelled = c.spell();
        let _ = c.want(&mut m);
        if s.pct(12) {
            let polls = s.below(4);
            cx.trace(|| format!("{}, dropped after {} polls", c.show(), polls));
            cx.class("dropped call");
            // What came of it, if anything, is checked as for other calls.
            match catch(|| rt.block_on(abandon(&client, &c, polls))) {
                Err(f) => return Err(Failure { msg: format!("{} panics: {}", c.show(), f.msg), ..f }),
                Ok(_) => {}
            }
            // The response to it may kill the connection at any time.
            if fake.log.lock().unwrap().iter().any(|e| matches!(e.fault, Fault::Malformed(_) | Fault::Truncate(_) | Fault::Reset(_))) {
                dead = true;
            }
            continue;
        }
        let before = fake.count();
        let got = do_call(&mut rt, &client, &c)?;
        let after = fake.count();
        let entry = fake.last();
        cx.trace(|| format!("{} -> {} (response: {})", c.show(), got.show(), entry.as_ref().map_or("none".into(), |e| format!("{:?} {}", e.fault, show(&codec::encode_resp(&e.resp))))));
        if let Err(why) = spelled {
            ensure!(matches!(got, Got::Refused(_)), "result", "step {}: {} gives {} but it should be refused, as {}", step, c.show(), got.show(), why);
            continue;
        }
        let spelled = spelled.unwrap();
        // Calls that were dropped may only have reached the server now.
        let killed = fake
            .log
            .lock()
            .unwrap()
            .iter()
            .any(|e| matches!(e.fault, Fault::Malformed(_) | Fault::Truncate(_) | Fault::Reset(_)));
        if let Got::Failed(e) = &got {
            let wrong_type = match &entry {
                Some(Entry { req, resp: Resp::Val(v), .. }) => same_request(req, &spelled) && c.accept(v).is_none(),
                _ => false,
            };
            ensure!(
                dead || killed || wrong_type,
                "fails",
                "step {}: {} fails ({}) though the response is {:?}",
                step,
                c.show(),
                e,
                entry.map(|e| e.resp)
            );
            wrong += 1;
            dead |= killed;
            continue;
        }
        ensure!(
            !matches!(got, Got::Refused(_)),
            "result",
            "step {}: {} gives {} though it can be sent",
            step,
            c.show(),
            got.show()
        );
        let entry = match entry {
            Some(e) if after > before => e,
            _ => {
                return Err(fail("result", format!("step {}: {} gives {} without any response to it", step, c.show(), got.show())));
            }
        };
        ensure!(
            same_request(&entry.req, &spelled),
            "request",
            "step {}: {} sends {} but it should be {}",
            step,
            c.show(),
            entry.req.show(),
            spelled.show()
        );
        ensure!(
            !dead && !matches!(entry.fault, Fault::Malformed(_) | Fault::Truncate(_) | Fault::Reset(_)),
            "result",
            "step {}: {} gives {} after {:?}",
            step,
            c.show(),
            got.show(),
            entry.fault
        );
        let fits = match &entry.resp {
            Resp::Val(v) => match c.accept(v) {
                // Any order of the list.
                Some(w) => w.matches(&got),
                None => false,
            },
            Resp::Dispatch(e) => matches!(got, Got::Err(g) if g == *e),
            Resp::Parse(e) => matches!(got, Got::Rejected(g) if g == *e),
        };
        ensure!(fits, "result", "step {}: {} gives {} though the response is {:?}", step, c.show(), got.show(), entry.resp);
        match entry.fault {
            Fault::Other(_) => wrong += 1,
            _ => right += 1,
        }
    }
    for e in fake.log.lock().unwrap().iter() {
        cx.class(match e.fault {
            Fault::None => continue,
            Fault::Other(Resp::Val(_)) => "response of any type",
            Fault::Other(_) => "error response",
            Fault::Malformed(_) => "malformed response",
            Fault::Truncate(_) => "truncated response",
            Fault::Reset(_) => "reset within a response",
        });
    }
    cx.class("on a misbehaving server");
    cx.nontrivial = right >= 2 && (wrong >= 1 || !faults);
    drop(client);
    drop(rt);
    fake.end()
}

/// Many tasks sharing a connection to a server that misbehaves.
fn scattered(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let k = s.range(2, 8);
    let each = s.range(1, 12);
    let faults = s.pct(60);
    let plans: Vec<Plan> = (0..k * each)
        .map(|_| {
            let mut p = plan(s, false);
            p.wait = p.wait.min(100);
            if faults && s.pct(5) {
                p.fault = match s.below(4) {
                    // No call here can take this for an answer.
                    0 => Fault::Other(Resp::Val(Val::Map(Some((b"k".to_vec(), b"v".to_vec())).into_iter().collect()))),
                    1 => Fault::Malformed(malformed(s)),
                    2 => Fault::Truncate(s.choice(1000)),
                    _ => Fault::Reset(s.choice(1000)),
                };
            }
            p
        })
        .collect();
    let batch = s.bool();
    let fake = Fake::start(plans, batch)?;
    let threads = s.below(4);
    let mut rt = runtime(threads)?;
    let client = Arc::new(connect(&mut rt, fake.addr)?);
    let mut tasks = Vec::new();
    for t in 0..k {
        let steps: Vec<(Call, Option<usize>, u64)> = (0..each)
            .map(|i| {
                let name = format!("{}/{}", t, i);
                let key = name.clone().into_bytes();
                let c = match s.below(5) {
                    0 => Call::Echo { content: name.into_bytes() },
                    1 => Call::Set { key, val: Val::Str(name), items: vec![], form: Form::Typed },
                    2 => Call::Append { key, arg: AppendArg::List(vec![name.clone().into_bytes(), vec![0; s.below(3000)]]), alias: false },
                    3 => Call::Add { key, down: false, by: By::Int(Some((t * 1000 + i) as i64)) },
                    _ => Call::Get { key, kt: Some(4), alias: false },
                };
                let c = match c {
                    Call::Append { key, arg: AppendArg::List(mut l), alias } => {
                        l.retain(|i| !i.is_empty());
                        Call::Append { key, arg: AppendArg::List(l), alias }
                    }
                    c => c,
                };
                let drop_after = if s.pct(15) { Some(s.below(4)) } else { None };
                (c, drop_after, if s.pct(20) { s.below(500) as u64 } else { 0 })
            })
            .collect();
        cx.trace(|| format!("task {}: {}", t, steps.iter().map(|s| format!("{} {:?}", s.0.show(), s.1)).collect::<Vec<_>>().join("; ")));
        let client = Arc::clone(&client);
        tasks.push(async move {
            let (mut right, mut failed) = (0, 0);
            for (c, drop_after, wait) in steps {
                if wait > 0 {
                    tokio::time::delay_for(Duration::from_micros(wait)).await;
                }
                let got = match drop_after {
                    Some(polls) => match abandon(&client, &c, polls).await {
                        Some(got) => got,
                        None => continue,
                    },
                    None => timely(&client, &c).await?,
                };
                // Every key is only used once, so the state doesn't matter.
                let want = c.want(&mut Model::default());
                if let Got::Failed(_) = got {
                    failed += 1;
                } else {
                    ensure!(want.matches(&got), "result", "task {}: {} gives {} but it should be {}", t, c.show(), got.show(), want.show());
                    right += 1;
                }
            }
            Ok::<_, Failure>((right, failed))
        });
    }
    let results = catch(|| {
        rt.block_on(async {
            if threads > 0 {
                let handles: Vec<_> = tasks.into_iter().map(tokio::spawn).collect();
                let mut out = Vec::new();
                for h in handles {
                    out.push(h.await.unwrap_or_else(|e| Err(fail("panic", format!("a task panics: {}", e)))));
                }
                out
            } else {
                join_all(tasks).await
            }
        })
    })?;
    let (mut right, mut failed) = (0, 0);
    for r in results {
        let (a, b) = r?;
        right += a;
        failed += b;
    }
    let (mut others, mut killers) = (0, 0);
    for e in fake.log.lock().unwrap().iter() {
        match e.fault {
            Fault::None => {}
            Fault::Other(_) => others += 1,
            _ => killers += 1,
        }
    }
    ensure!(
        killers > 0 || failed <= others,
        "fails",
        "{} calls fail though only {} responses are of a wrong type and none is malformed",
        failed,
        others
    );
    cx.class("tasks on a misbehaving server");
    cx.nontrivial = right >= 2;
    drop(client);
    drop(rt);
    fake.end()
}

/// Calls that are dropped while their requests, which are large, are being written.
fn interrupted(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let threads = s.below(4);
    let mut rt = runtime(threads)?;
    let client = Arc::new(connect(&mut rt, server.addr)?);
    let k = s.range(1, 5);
    let mut tasks = Vec::new();
    let mut sets: Vec<(Vec<u8>, Val)> = Vec::new();
    let mut large = 0;
    for t in 0..k {
        let mut steps = Vec::new();
        for i in 0..s.range(1, 6) {
            let key = format!("{}/{}", t, i).into_bytes();
            let step = if s.pct(35) {
                large += 1;
                let n = s.range(400_000, 6_000_000);
                let val = match s.below(2) {
                    // What's taken for other requests if it's cut off would be small ones.
                    0 => Val::Bytes(codec::encode(&Req::new(100, None, vec![b"x".to_vec()])).into_iter().cycle().take(n).collect()),
                    _ => Val::Str("a".repeat(n)),
                };
                let polls = if s.pct(15) { None } else { Some(s.range(1, 4)) };
                (Call::Set { key, val, items: vec![], form: Form::Typed }, polls)
            } else {
                let c = match s.below(3) {
                    0 => Call::Echo { content: key },
                    1 => Call::Get { key, kt: None, alias: false },
                    _ => Call::Set { key, val: Val::Int(i as i64), items: vec![], form: Form::Typed },
                };
                (c, if s.pct(10) { Some(s.below(3)) } else { None })
            };
            if let Call::Set { key, val, .. } = &step.0 {
                sets.push((key.clone(), val.clone()));
            }
            steps.push((step.0, step.1, if s.pct(30) { s.below(2000) as u64 } else { 0 }));
        }
        cx.trace(|| format!("task {}: {}", t, steps.iter().map(|s| format!("{} {:?} {}", s.0.show(), s.1, s.2)).collect::<Vec<_>>().join("; ")));
        let client = Arc::clone(&client);
        tasks.push(async move {
            let (mut right, mut failed) = (0, 0);
            for (c, drop_after, wait) in steps {
                if wait > 0 {
                    tokio::time::delay_for(Duration::from_micros(wait)).await;
                }
                let got = match drop_after {
                    Some(polls) => match abandon(&client, &c, polls).await {
                        Some(got) => got,
                        None => continue,
                    },
                    None => timely(&client, &c).await?,
                };
                let want = c.want(&mut Model::default());
                if let Got::Failed(_) = got {
                    failed += 1;
                } else {
                    ensure!(want.matches(&got), "result", "task {}: {} gives {} but it should be {}", t, c.show(), got.show(), want.show());
                    right += 1;
                }
            }
            Ok::<_, Failure>((right, failed))
        });
    }
    let results = catch(|| {
        rt.block_on(async {
            if threads > 0 {
                let handles: Vec<_> = tasks.into_iter().map(tokio::spawn).collect();
                let mut out = Vec::new();
                for h in handles {
                    out.push(h.await.unwrap_or_else(|e| Err(fail("panic", format!("a task panics: {}", e)))));
                }
                out
            } else {
                join_all(tasks).await
            }
        })
    })?;
    let (mut right, mut failed) = (0, 0);
    for r in results {
        let (a, b) = r?;
        right += a;
        failed += b;
    }
    ensure!(large > 0 || failed == 0, "fails", "{} calls fail though no large one was dropped", failed);
    drop(client);
    drop(rt);
    // Nothing was taken for a part of something else.
    let mut rt = runtime(0)?;
    let client = connect(&mut rt, server.addr)?;
    for (key, val) in sets {
        let c = Call::Get { key: key.clone(), kt: None, alias: false };
        let got = do_call(&mut rt, &client, &c)?;
        let fine = match &got {
            Got::Val(_) => {
                let mut m = Model::default();
                m.map.insert(key.clone(), val);
                c.want(&mut m).matches(&got)
            }
            Got::Err(_) => true,
            _ => false,
        };
        ensure!(fine, "effect", "afterwards {} gives {}", c.show(), got.show());
    }
    drop(client);
    drop(rt);
    server.deserted()?;
    if failed > 0 {
        cx.class("calls that are dropped while being written");
    }
    cx.class("large calls that are dropped");
    cx.nontrivial = large > 0 && (right > 0 || failed > 0);
    server.alive()
}

/// Connecting to nothing is an error.
fn refused(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let addr = address();
    let mut rt = runtime(0)?;
    let late = s.bool();
    let got = catch(|| {
        rt.block_on(async {
            let start = Instant::now();
            let r = tokio::time::timeout(Duration::from_secs(SECS), Client::<ServerBackend>::connect(addr)).await;
            (r.map(|r| r.map(|_| ())), start.elapsed())
        })
    })?;
    match got.0 {
        Ok(Err(_)) => {}
        Ok(Ok(())) => return Err(fail("connect", "connecting to nothing succeeds")),
        Err(_) => return Err(fail("hang", format!("connecting to nothing takes more than {} s", SECS))),
    }
    if late {
        // It can be tried again.
        let fake = Fake::start(vec![], false)?;
        let client = connect(&mut rt, fake.addr)?;
        let c = Call::Echo { content: b"x".to_vec() };
        let got = do_call(&mut rt, &client, &c)?;
        ensure!(matches!(got, Got::Val(_)), "result", "{} gives {}", c.show(), got.show());
        drop(client);
        drop(rt);
        fake.end()?;
    }
    cx.class("connection refused");
    let _ = stats_of;
    Ok(())
}

fn run(s: &mut Src, cx: &mut Cx) -> CaseResult {
    match s.weighted(&[28, 20, 33, 14, 4, 1]) {
        0 => same(s, cx),
        1 => shared(s, cx),
        2 => faulty(s, cx),
        3 => scattered(s, cx),
        4 => interrupted(s, cx),
        _ => refused(s, cx),
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        rule: "at least three calls succeed and one gets an error; of tasks, at least two increments of a shared key or calls get their results; of misbehaving servers, at least two calls get right responses and one a wrong one if there are any",
        assumptions: &[
            "socket addresses are translated by a preloaded library (see DESIGN.md)",
            "a call that takes more than 20 s never completes",
            "keys, items and values are at most 2.5 MB, other than in the enumerated calls, which have up to 32 MB; a made-up server that claims a response longer than what it sends closes the connection",
        ],
        quick: 9_000,
        threads: 8,
        run,
        fixed: Some(same_fixed),
        case_limit: 100,
        ..Check::default()
    }]
}
