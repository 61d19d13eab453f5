//! Concurrent use of one engine: C17 and C18.
//!
//! A case is a program: some initial keys and a few commands per thread. It's run both with a scheduler that decides
//! before every operation on the keyspace which thread goes on (so that a failure replays exactly), and freely on
//! real threads, many times over, with delays at the operations and at allocations. The history of calls, returns
//! and answers has to be that of the sequential model for some order of the commands.

use crate::adapt::{self, Answer, Route};
use hop_engine::Hop;
use pbt::{
    codec, ensure, fail, gen,
    model::{Model, Out, Req, Val, NONEXISTENT, PRECONDITION},
    run::harness_error,
    CaseResult, Check, Cx, Failure, Src,
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    thread,
    time::Duration,
};

// ---- Noise: delays at allocations and at operations on the keyspace ----

thread_local! {
    static NOISE: Cell<u64> = const { Cell::new(0) };
    static CTL: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

struct Noisy;

#[global_allocator]
static ALLOC: Noisy = Noisy;

unsafe impl GlobalAlloc for Noisy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        noise(15);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
}

/// Begin, or end with zero, to delay the current thread.
pub(crate) fn set_noise(x: u64) {
    NOISE.with(|n| n.set(x));
}

/// Delay the thread a little, once in a while.
fn noise(mask: u64) {
    let _ = NOISE.try_with(|n| {
        let mut x = n.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        n.set(x);
        if (x >> 20) & mask == 0 {
            if (x >> 40) & 63 == 0 {
                thread::yield_now();
            } else {
                for _ in 0..(x >> 48) & 511 {
                    std::hint::spin_loop();
                }
            }
        }
    });
}

// ---- The scheduler ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Running,
    Waiting,
    Granted,
    Done,
}

struct Sched {
    at: Mutex<Vec<(At, &'static str)>>,
    /// One per thread, and the last for the controller.
    cvs: Vec<Condvar>,
    free: AtomicBool,
}

impl Sched {
    fn new(n: usize) -> Self {
        Sched {
            at: Mutex::new(vec![(At::Running, ""); n]),
            cvs: (0..=n).map(|_| Condvar::new()).collect(),
            free: AtomicBool::new(false),
        }
    }
    fn point(&self, me: usize, what: &'static str) {
        if self.free.load(Ordering::SeqCst) {
            return;
        }
        let mut at = self.at.lock().unwrap();
        at[me] = (At::Waiting, what);
        self.cvs[self.cvs.len() - 1].notify_one();
        while at[me].0 != At::Granted && !self.free.load(Ordering::SeqCst) {
            at = self.cvs[me].wait(at).unwrap();
        }
        at[me].0 = At::Running;
    }
    fn done(&self, me: usize) {
        let mut at = self.at.lock().unwrap();
        at[me] = (At::Done, "");
        self.cvs[self.cvs.len() - 1].notify_one();
    }
    /// Wait until the thread stops at a point or ends, which doesn't happen soon if it waits for another thread's
    /// lock.
    fn settle(&self, who: usize) -> bool {
        let mut at = self.at.lock().unwrap();
        let mut tries = 0;
        while matches!(at[who].0, At::Running | At::Granted) {
            let (g, t) = self.cvs[self.cvs.len() - 1].wait_timeout(at, Duration::from_millis(20)).unwrap();
            at = g;
            if t.timed_out() {
                tries += 1;
                if tries > 0 {
                    return false;
                }
            }
        }
        true
    }
    fn grant(&self, who: usize) {
        let mut at = self.at.lock().unwrap();
        if at[who].0 == At::Waiting {
            at[who].0 = At::Granted;
            self.cvs[who].notify_one();
        }
    }
    fn waiting(&self) -> (Vec<usize>, bool) {
        let at = self.at.lock().unwrap();
        let w = (0..at.len()).filter(|i| at[*i].0 == At::Waiting).collect();
        (w, at.iter().all(|a| a.0 == At::Done))
    }
    fn name(&self, who: usize) -> &'static str {
        self.at.lock().unwrap()[who].1
    }
    fn release(&self) {
        self.free.store(true, Ordering::SeqCst);
        for cv in &self.cvs {
            cv.notify_all();
        }
    }
}

/// Marks the thread as done even when it panics.
struct DoneGuard(Arc<Sched>, usize);
impl Drop for DoneGuard {
    fn drop(&mut self) {
        CTL.with(|c| *c.borrow_mut() = None);
        self.0.done(self.1);
    }
}

fn hook(what: &'static str) {
    let ctl = CTL.with(|c| c.borrow().clone());
    match ctl {
        Some((s, me)) => s.point(me, what),
        None => noise(3),
    }
}

pub fn install() {
    hop_engine::state::verif::set_hook(hook);
}

// ---- Programs and histories ----

#[derive(Clone)]
struct Program {
    init: Vec<Req>,
    threads: Vec<Vec<Req>>,
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    op: usize,
    call: u64,
    ret: u64,
    out: Out,
}

fn perform(hop: &Hop, req: &Req, clock: &AtomicU64) -> Result<(u64, u64, Out), Failure> {
    let mut buf = Vec::with_capacity(64);
    let (call, r, ret) = adapt::with_request(req, Route::Parser, |r| {
        let call = clock.fetch_add(1, Ordering::SeqCst);
        let x = hop.dispatch(r, &mut buf);
        (call, x, clock.fetch_add(1, Ordering::SeqCst))
    })
    .map_err(|e| fail("undelivered", format!("{}: {}", req.show(), e)))?;
    let out = match r {
        Err(e) => {
            ensure!(buf.is_empty(), "answer", "{} fails but writes {}", req.show(), pbt::show(&buf));
            Out::Err(adapt::error_id(e))
        }
        Ok(()) => match codec::decode_resp(&buf) {
            Some(Ok((r, n))) if n == buf.len() => match r.out() {
                Some(o @ Out::Val(_)) => o,
                _ => return Err(fail("answer", format!("{} succeeds but answers an error", req.show()))),
            },
            _ => return Err(fail("answer", format!("{} answers {}", req.show(), pbt::show(&buf)))),
        },
    };
    Ok((call, ret, out))
}

fn prepare(p: &Program) -> Result<(Hop, Model), Failure> {
    let hop = Hop::new();
    let mut m = Model::default();
    for req in &p.init {
        let want = m.exec(req);
        match adapt::dispatch(&hop, req, Route::Parser, &[]) {
            Answer::Out(got) if want.matches(&got) => {}
            Answer::Out(got) => {
                return Err(fail("initial", format!("{}: {} instead of {}", req.show(), got.show(), want.show())))
            }
            Answer::Malformed(e) | Answer::Undelivered(e) => return Err(fail("initial", format!("{}: {}", req.show(), e))),
        }
    }
    Ok((hop, m))
}

fn final_state(hop: &Hop, keys: &[Vec<u8>]) -> BTreeMap<Vec<u8>, Val> {
    let mut m = BTreeMap::new();
    for k in keys {
        if let Some(r) = hop.state().key_ref(k) {
            m.insert(k.clone(), adapt::to_val(r.value()));
        }
    }
    m
}

fn print_val(v: &Val) -> String {
    match v {
        Val::Float(f, _) => format!("f{:016x}", (*f + 0.0).to_bits()),
        // In full: what's shown is abbreviated.
        v => format!("{:?}", v),
    }
}

struct Search<'a> {
    prog: &'a Program,
    ops: &'a [Event],
    last: &'a BTreeMap<Vec<u8>, Val>,
    seen: HashSet<(u64, String)>,
    relaxed: bool,
    deepest: (u32, u64),
}

impl Search<'_> {
    fn overlaps_competitor(&self, i: usize) -> bool {
        let me = &self.ops[i];
        let req = &self.prog.threads[me.thread][me.op];
        self.ops.iter().enumerate().any(|(j, o)| {
            let r = &self.prog.threads[o.thread][o.op];
            j != i && r.cmd == 15 && r.args[0] == req.args[0] && o.call < me.ret && me.call < o.ret
        })
    }

    fn go(&mut self, done: u64, m: &Model) -> bool {
        if done.count_ones() > self.deepest.0 {
            self.deepest = (done.count_ones(), done);
        }
        if done.count_ones() as usize == self.ops.len() {
            return m.map.len() == self.last.len()
                && m.map.iter().all(|(k, v)| self.last.get(k).map_or(false, |g| v.same(g)));
        }
        let key = m.map.iter().map(|(k, v)| format!("{}={};", pbt::hex(k), print_val(v))).collect::<String>();
        if !self.seen.insert((done, key)) {
            return false;
        }
        let limit = self.ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.ret).min().unwrap_or(0);
        for i in 0..self.ops.len() {
            let o = &self.ops[i];
            if done >> i & 1 == 1 || o.call > limit {
                continue;
            }
            let req = &self.prog.threads[o.thread][o.op];
            let mut next = m.clone();
            if next.exec(req).matches(&o.out) && self.go(done | 1 << i, &next) {
                return true;
            }
            // While another rename of the same key is going on the key can appear not to exist, or to have been in
            // time for the other one.
            if self.relaxed
                && req.cmd == 15
                && matches!(o.out, Out::Err(NONEXISTENT) | Out::Err(PRECONDITION))
                && self.overlaps_competitor(i)
                && self.go(done | 1 << i, &m.clone())
            {
                return true;
            }
        }
        false
    }
}

/// What renames may do besides being atomic.
#[derive(Clone, Copy, PartialEq)]
enum Renames {
    Atomic,
    /// They can fail because of another rename of the same key.
    Competing,
    /// They take the value away and put it under its new name later, or back if the name is taken by then.
    Stepwise,
}

/// A rename that has taken a value away.
#[derive(Clone)]
struct Moving {
    op: usize,
    val: Val,
    /// It found its new name taken.
    conflict: bool,
}

/// Whether there's an order of steps that explains a history with stepwise renames.
struct Steps<'a> {
    prog: &'a Program,
    ops: &'a [Event],
    last: &'a BTreeMap<Vec<u8>, Val>,
    seen: HashSet<(u64, String)>,
    /// Whether a value may vanish if it can't be put back as its key was created anew.
    loss: bool,
}

impl Steps<'_> {
    fn go(&mut self, done: u64, moving: &[Moving], m: &Model) -> bool {
        if done.count_ones() as usize == self.ops.len() {
            return m.map.len() == self.last.len() && m.map.iter().all(|(k, v)| self.last.get(k).map_or(false, |g| v.same(g)));
        }
        let mut key = m.map.iter().map(|(k, v)| format!("{}={};", pbt::hex(k), print_val(v))).collect::<String>();
        let mut held: Vec<String> = moving.iter().map(|x| format!("{}:{}:{}", x.op, x.conflict, print_val(&x.val))).collect();
        held.sort();
        key.extend(held);
        if !self.seen.insert((done, key)) {
            return false;
        }
        let limit = self.ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.ret).min().unwrap_or(0);
        for i in 0..self.ops.len() {
            let o = &self.ops[i];
            if done >> i & 1 == 1 || o.call > limit {
                continue;
            }
            let req = &self.prog.threads[o.thread][o.op];
            if req.cmd != 15 {
                let mut next = m.clone();
                if next.exec(req).matches(&o.out) && self.go(done | 1 << i, moving, &next) {
                    return true;
                }
                continue;
            }
            let (from, to) = (&req.args[0], &req.args[1]);
            let conflicts = matches!(o.out, Out::Err(PRECONDITION));
            if let Some(at) = moving.iter().position(|x| x.op == i) {
                let mut rest = moving.to_vec();
                let held = rest.remove(at);
                let taken = m.map.contains_key(if held.conflict { from } else { to });
                let mut next = m.clone();
                if !held.conflict {
                    if !taken && matches!(o.out, Out::Val(_)) {
                        next.map.insert(to.clone(), held.val);
                        if Out::Val(Val::Bytes(to.clone())).matches(&o.out) && self.go(done | 1 << i, &rest, &next) {
                            return true;
                        }
                    } else if taken && conflicts {
                        rest.push(Moving { conflict: true, ..held });
                        if self.go(done, &rest, m) {
                            return true;
                        }
                    }
                } else {
                    if !taken {
                        next.map.insert(from.clone(), held.val);
                    }
                    if (!taken || self.loss) && self.go(done | 1 << i, &rest, &next) {
                        return true;
                    }
                }
                continue;
            }
            // It fails without an effect.
            let fails = match o.out {
                Out::Err(NONEXISTENT) => !m.map.contains_key(from),
                Out::Err(PRECONDITION) => m.map.contains_key(to),
                _ => false,
            };
            if fails && self.go(done | 1 << i, moving, m) {
                return true;
            }
            if (conflicts || matches!(o.out, Out::Val(_))) && m.map.contains_key(from) {
                let mut next = m.clone();
                let val = next.map.remove(from).expect("it's there");
                let mut more = moving.to_vec();
                more.push(Moving { op: i, val, conflict: false });
                if self.go(done, &more, &next) {
                    return true;
                }
            }
        }
        false
    }
}

const LOST: &str = "rename-conflict-with-recreated-source-loses-value";

fn judge(p: &Program, ops: &[Event], start: &Model, last: &BTreeMap<Vec<u8>, Val>, renames: Renames) -> CaseResult {
    let mut sig = "history";
    if renames == Renames::Stepwise {
        let mut s = Steps { prog: p, ops, last, seen: HashSet::new(), loss: false };
        if s.go(0, &[], start) {
            return Ok(());
        }
        s.seen.clear();
        s.loss = true;
        if s.go(0, &[], start) {
            sig = LOST;
        }
    } else {
        let mut s = Search { prog: p, ops, last, seen: HashSet::new(), relaxed: renames == Renames::Competing, deepest: (0, 0) };
        if s.go(0, start) {
            return Ok(());
        }
    }
    let mut lines: Vec<String> = p.init.iter().map(|r| format!("before: {}", r.show())).collect();
    let mut sorted: Vec<&Event> = ops.iter().collect();
    sorted.sort_by_key(|o| o.call);
    for o in sorted {
        lines.push(format!(
            "thread {} {}..{}: {} -> {}",
            o.thread, o.call, o.ret, p.threads[o.thread][o.op].show(), o.out.show()
        ));
    }
    for (k, v) in last {
        lines.push(format!("afterwards: {} holds {}", pbt::show(k), v.show()));
    }
    if last.is_empty() {
        lines.push("afterwards: no keys".into());
    }
    Err(fail(sig, format!("no order of the commands explains this history: {}", lines.join("; "))))
}

fn keys_used(p: &Program) -> Vec<Vec<u8>> {
    let mut keys: Vec<Vec<u8>> = Vec::new();
    for r in p.init.iter().chain(p.threads.iter().flatten()) {
        let n = if r.cmd == 15 { 2 } else { 1 };
        for k in r.args.iter().take(n) {
            if !keys.contains(k) {
                keys.push(k.clone());
            }
        }
    }
    keys
}

/// Run the program once, with the scheduler's choices drawn from the source.
fn scheduled(s: &mut Src, cx: &mut Cx, p: &Program, relaxed: Renames) -> CaseResult {
    let (hop, model) = prepare(p)?;
    let n = p.threads.len();
    let sched = Arc::new(Sched::new(n));
    let clock = AtomicU64::new(0);
    let results: Vec<Mutex<Vec<Event>>> = (0..n).map(|_| Mutex::new(Vec::new())).collect();
    let trouble: Mutex<Option<Failure>> = Mutex::new(None);
    // How long the scheduler tends to stay with a thread.
    let sticky = *s.pick(&[0u64, 40, 75, 90]);
    let mut switches = 0u64;
    let mut steps: Vec<String> = Vec::new();
    let tracing = cx.tracing;
    thread::scope(|scope| {
        for t in 0..n {
            let (sched, hop, clock, results, trouble) = (sched.clone(), &hop, &clock, &results, &trouble);
            scope.spawn(move || {
                let _done = DoneGuard(sched.clone(), t);
                CTL.with(|c| *c.borrow_mut() = Some((sched.clone(), t)));
                let r = pbt::run::catch(|| {
                    for (i, req) in p.threads[t].iter().enumerate() {
                        sched.point(t, "call");
                        let (call, ret, out) = perform(hop, req, clock)?;
                        results[t].lock().unwrap().push(Event { thread: t, op: i, call, ret, out });
                    }
                    Ok(())
                });
                if let Err(f) = r.unwrap_or_else(Err) {
                    trouble.lock().unwrap().get_or_insert(f);
                }
            });
        }
        for t in 0..n {
            sched.settle(t);
        }
        let mut current = 0;
        let mut idle = 0;
        for _ in 0..10_000 {
            let (ready, finished) = sched.waiting();
            if finished {
                break;
            }
            if ready.is_empty() {
                // Those which aren't done wait for each other, or are slow.
                idle += 1;
                if idle > 300 {
                    break;
                }
                thread::sleep(Duration::from_millis(1));
                continue;
            }
            idle = 0;
            let stay = ready.contains(&current) && s.pct(sticky);
            let next = if stay { current } else { ready[s.below(ready.len())] };
            if next != current {
                switches += 1;
            }
            current = next;
            if tracing {
                steps.push(format!("{}:{}", next, sched.name(next)));
            }
            sched.grant(next);
            sched.settle(next);
        }
        sched.release();
    });
    cx.trace(|| format!("schedule: {}", steps.join(" ")));
    if let Some(f) = trouble.into_inner().unwrap() {
        return Err(f);
    }
    let ops: Vec<Event> = results.into_iter().flat_map(|r| r.into_inner().unwrap()).collect();
    let last = final_state(&hop, &keys_used(p));
    if switches >= 2 {
        cx.nontrivial = true;
    }
    cx.class("scheduled runs");
    judge(p, &ops, &model, &last, relaxed)
}

pub(crate) struct Barrier {
    n: usize,
    count: AtomicUsize,
    round: AtomicUsize,
    broken: AtomicBool,
}

impl Barrier {
    pub(crate) fn new(n: usize) -> Self {
        Barrier { n, count: AtomicUsize::new(0), round: AtomicUsize::new(0), broken: AtomicBool::new(false) }
    }
    /// Let everyone go, and tell them that it's over.
    pub(crate) fn give_up(&self) {
        self.broken.store(true, Ordering::SeqCst);
    }
    pub(crate) fn wait(&self) -> bool {
        let r = self.round.load(Ordering::SeqCst);
        if self.count.fetch_add(1, Ordering::SeqCst) + 1 == self.n {
            self.count.store(0, Ordering::SeqCst);
            self.round.store(r + 1, Ordering::SeqCst);
        } else {
            let mut spins = 0;
            while self.round.load(Ordering::SeqCst) == r {
                if self.broken.load(Ordering::SeqCst) {
                    return false;
                }
                spins += 1;
                if spins > 2000 {
                    thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
        !self.broken.load(Ordering::SeqCst)
    }
}

/// Run the program on real threads a number of times.
fn free_running(cx: &mut Cx, p: &Program, rounds: usize, seed: u64, noisy: bool, relaxed: Renames) -> CaseResult {
    let n = p.threads.len();
    let mut hops = Vec::new();
    let mut model = Model::default();
    for _ in 0..rounds {
        let (h, m) = prepare(p)?;
        hops.push(h);
        model = m;
    }
    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(n);
    let trouble: Mutex<Option<Failure>> = Mutex::new(None);
    let results: Vec<Mutex<Vec<Vec<Event>>>> = (0..n).map(|_| Mutex::new(Vec::new())).collect();
    thread::scope(|scope| {
        for t in 0..n {
            let (hops, clock, results, trouble, barrier) = (&hops, &clock, &results, &trouble, &barrier);
            scope.spawn(move || {
                let r = pbt::run::catch(|| {
                    let mut mine = Vec::with_capacity(rounds);
                    for (round, hop) in hops.iter().enumerate() {
                        let mut events = Vec::with_capacity(p.threads[t].len());
                        if !barrier.wait() {
                            break;
                        }
                        if noisy {
                            NOISE.with(|x| x.set(pbt::src::mix(seed, (round * 16 + t) as u64) | 1));
                        }
                        for (i, req) in p.threads[t].iter().enumerate() {
                            let (call, ret, out) = perform(hop, req, clock)?;
                            events.push(Event { thread: t, op: i, call, ret, out });
                        }
                        NOISE.with(|x| x.set(0));
                        mine.push(events);
                    }
                    *results[t].lock().unwrap() = mine;
                    Ok(())
                });
                NOISE.with(|x| x.set(0));
                if let Err(f) = r.unwrap_or_else(Err) {
                    barrier.broken.store(true, Ordering::SeqCst);
                    trouble.lock().unwrap().get_or_insert(f);
                }
            });
        }
    });
    if let Some(f) = trouble.into_inner().unwrap() {
        return Err(f);
    }
    let keys = keys_used(p);
    let results: Vec<Vec<Vec<Event>>> = results.into_iter().map(|r| r.into_inner().unwrap()).collect();
    for (round, hop) in hops.iter().enumerate() {
        let mut ops = Vec::new();
        for r in &results {
            ops.extend(r.get(round).cloned().ok_or_else(|| harness_error("a round is missing"))?);
        }
        let last = final_state(hop, &keys);
        cx.class("free runs");
        let mut events: Vec<(u64, u64)> = ops.iter().map(|o| (o.call, o.ret)).collect();
        events.sort_unstable();
        if events.windows(2).any(|w| w[1].0 < w[0].1) {
            cx.class("free runs with overlapping commands");
            cx.nontrivial = true;
        }
        judge(p, &ops, &model, &last, relaxed)?;
    }
    Ok(())
}

fn trace_program(cx: &mut Cx, p: &Program) {
    for r in &p.init {
        cx.trace(|| format!("before: {}", r.show()));
    }
    for (t, ops) in p.threads.iter().enumerate() {
        for r in ops {
            cx.trace(|| format!("thread {}: {}", t, r.show()));
        }
    }
}

// ---- C17 ----

fn unique_val(s: &mut Src, kind: u8, tag: &mut u64) -> Vec<Vec<u8>> {
    *tag += 1;
    let t = *tag;
    let text = |n: u64| format!("v{}", n).into_bytes();
    match kind {
        1 => vec![vec![(t & 1) as u8]],
        2 => vec![((t * 1000) as f64).to_be_bytes().to_vec()],
        3 => vec![((t * 1000) as i64).to_be_bytes().to_vec()],
        4 | 0 => {
            let mut v = text(t);
            if s.pct(20) {
                let n = s.range(1, 40);
                for _ in 0..n {
                    v.extend(text(t));
                }
            }
            vec![v]
        }
        5 | 7 => {
            let n = s.range(1, 3) as u64;
            (0..n).map(|i| text(t * 10 + i)).collect()
        }
        _ => {
            let n = s.range(1, 2) as u64;
            (0..n).flat_map(|i| vec![text(t * 10 + i), text(t)]).collect()
        }
    }
}

/// A command on one of the keys.
fn single(s: &mut Src, tag: &mut u64, keys: &[Vec<u8>], focus: &[u8]) -> Req {
    let key = s.pick(keys).clone();
    let kind = *s.pick(focus);
    let counter_type = |s: &mut Src| match s.below(3) {
        0 => None,
        1 => Some(if focus.contains(&2) { 2 } else { 3 }),
        _ => Some(3),
    };
    // Commands that change are more interesting.
    let numeric = kind == 2 || kind == 3;
    let appendable = matches!(kind, 0 | 4 | 5);
    match s.weighted(&[if numeric { 8 } else { 1 }, if appendable { 8 } else { 1 }, 4, 4, 3, 1, 1, 1, 2]) {
        0 => {
            let kt = counter_type(s);
            match s.below(4) {
                0 => Req::new(0, kt, vec![key]),
                1 => Req::new(1, kt, vec![key]),
                c => {
                    let amount = if kt == Some(2) || (kt.is_none() && *focus == [2]) {
                        ((s.range(1, 9)) as f64).to_be_bytes()
                    } else {
                        (s.range(1, 9) as i64).to_be_bytes()
                    };
                    Req::new(c as u8, kt, vec![key, amount.to_vec()])
                }
            }
        }
        1 => {
            let kt = if appendable { kind } else { *s.pick(&[0u8, 4, 5]) };
            let mut args = vec![key];
            for _ in 0..s.range(1, 2) {
                *tag += 1;
                args.push(format!("a{},", tag).into_bytes());
            }
            Req::new(20, Some(kt), args)
        }
        2 => {
            let mut args = vec![key];
            args.extend(unique_val(s, kind, tag));
            Req::new(10, Some(kind), args)
        }
        3 => Req::new(12, None, vec![key]),
        4 => Req::new(11, if s.bool() { Some(kind) } else { None }, vec![key]),
        5 => Req::new(13, None, vec![key]),
        6 => Req::new(14, Some(kind), vec![key]),
        7 => Req::new(16, None, vec![key]),
        _ => Req::new(21, Some(kind), vec![key]),
    }
}

fn program17(s: &mut Src) -> Program {
    let mut tag = 0;
    let keys: Vec<Vec<u8>> = if s.pct(25) { vec![b"k".to_vec(), gen::key(s, gen::Size::Small)] } else { vec![b"k".to_vec()] };
    let keys: Vec<Vec<u8>> = keys.into_iter().filter(|k| !k.is_empty() && !pbt::model::reserved(k)).collect();
    // Most programs keep to one kind of value, so that commands mostly succeed.
    let focus: Vec<u8> = match s.below(7) {
        0 => vec![3],
        1 => vec![2],
        2 => vec![5],
        3 => vec![4],
        4 => vec![0],
        5 => vec![6, 7],
        _ => (0..8).collect(),
    };
    let mut init = Vec::new();
    for k in &keys {
        if s.pct(35) {
            let kind = *s.pick(&focus);
            let mut args = vec![k.clone()];
            args.extend(unique_val(s, kind, &mut tag));
            init.push(Req::new(10, Some(kind), args));
        }
    }
    let n = s.range(2, 4);
    // Several threads that do the same find lost updates the soonest.
    let same = s.pct(40);
    let mut threads: Vec<Vec<Req>> = Vec::new();
    let op = |s: &mut Src, tag: &mut u64| single(s, tag, &keys, &focus);
    if same {
        let first: Vec<Req> = (0..s.range(1, 3)).map(|_| op(s, &mut tag)).collect();
        for t in 0..n {
            threads.push(
                first
                    .iter()
                    .map(|r| {
                        let mut r = r.clone();
                        // Except for what's appended or stored, to tell them apart.
                        if r.cmd == 20 {
                            for a in &mut r.args[1..] {
                                a.extend_from_slice(format!("t{}", t).as_bytes());
                            }
                        }
                        r
                    })
                    .collect(),
            );
        }
    } else {
        for _ in 0..n {
            threads.push((0..s.range(1, 3)).map(|_| op(s, &mut tag)).collect());
        }
    }
    Program { init, threads }
}

fn commands(s: &mut Src, cx: &mut Cx) -> CaseResult {
    if s.pct(4) {
        return many(s, cx);
    }
    let p = program17(s);
    trace_program(cx, &p);
    run_program(s, cx, &p, Renames::Atomic)
}

fn run_program(s: &mut Src, cx: &mut Cx, p: &Program, relaxed: Renames) -> CaseResult {
    let seed = s.choice(u64::MAX >> 1) + 1;
    let noisy = s.pct(60);
    for _ in 0..s.range(1, 4) {
        scheduled(s, cx, p, relaxed)?;
    }
    let rounds = *s.pick(&[0usize, 8, 24]);
    free_running(cx, p, rounds, seed, noisy, relaxed)
}

/// Many commands of the same kind from each of several threads.
fn many(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let threads = s.range(2, 4);
    let kind = s.below(4);
    let per = s.range(20, if kind == 3 { 100 } else { 250 });
    let seed = s.choice(u64::MAX >> 1) + 1;
    let noisy = s.bool();
    let kt = [None, Some(2), Some(5), Some(0)][kind];
    let hop = Hop::new();
    cx.trace(|| format!("{} threads with {} {}s each", threads, per, ["increment", "increment:float", "append:list", "append:bytes"][kind]));
    let clock = AtomicU64::new(0);
    let barrier = Barrier::new(threads);
    let all: Mutex<Vec<Result<Vec<Out>, Failure>>> = Mutex::new(Vec::new());
    let item = |t: usize, i: usize| format!("<{}.{}>", t, i).into_bytes();
    thread::scope(|scope| {
        for t in 0..threads {
            let (hop, clock, barrier, all) = (&hop, &clock, &barrier, &all);
            scope.spawn(move || {
                barrier.wait();
                let r = pbt::run::catch(|| {
                    if noisy {
                        NOISE.with(|x| x.set(pbt::src::mix(seed, t as u64) | 1));
                    }
                    let mut outs = Vec::new();
                    for i in 0..per {
                        let req = match kind {
                            0 | 1 => Req::new(0, kt, vec![b"n".to_vec()]),
                            _ => Req::new(20, kt, vec![b"n".to_vec(), item(t, i)]),
                        };
                        outs.push(perform(hop, &req, clock)?.2);
                    }
                    Ok(outs)
                });
                NOISE.with(|x| x.set(0));
                all.lock().unwrap().push(r.unwrap_or_else(Err));
            });
        }
    });
    let mut numbers: Vec<i64> = Vec::new();
    let last = final_state(&hop, &[b"n".to_vec()]).remove(&b"n"[..]);
    let total = (threads * per) as i64;
    let text = |v: &Val| -> Vec<u8> {
        match v {
            Val::Bytes(b) => b.clone(),
            Val::List(l) => l.concat(),
            _ => Vec::new(),
        }
    };
    for outs in all.into_inner().unwrap() {
        for out in outs? {
            match out {
                Out::Val(Val::Int(i)) if kind == 0 => numbers.push(i),
                Out::Val(Val::Float(f, _)) if kind == 1 => numbers.push(f as i64),
                Out::Val(v) if kind >= 2 => {
                    // What an append answers is there from then on.
                    let last = last.as_ref().map(text).unwrap_or_default();
                    let v = text(&v);
                    ensure!(!v.is_empty() && last.starts_with(&v), "lost", "an append answered what isn't a part of the final value");
                    numbers.push(v.iter().filter(|c| **c == b'<').count() as i64);
                }
                o => return Err(fail("answer", format!("the answer of one of many commands is {}", o.show()))),
            }
        }
    }
    numbers.sort_unstable();
    ensure!(
        numbers == (1..=total).collect::<Vec<_>>(),
        "lost", "{} commands of {} threads don't answer with each count from 1 to {} once", total, threads, total
    );
    match last {
        Some(Val::Int(i)) if kind == 0 => ensure!(i == total, "lost", "the counter is {} after {} increments", i, total),
        Some(Val::Float(f, _)) if kind == 1 => ensure!(f == total as f64, "lost", "the counter is {} after {} increments", f, total),
        Some(v) if kind >= 2 => {
            let got = text(&v);
            let mut next = vec![0usize; threads];
            for part in got.split(|c| *c == b'>').filter(|p| !p.is_empty()) {
                let t = (0..threads).find(|t| {
                    let e = item(*t, next[*t]);
                    part == &e[..e.len() - 1]
                });
                match t {
                    Some(t) => next[t] += 1,
                    None => return Err(fail("lost", format!("{} is torn, or in the wrong place", pbt::show(part)))),
                }
            }
            ensure!(next.iter().all(|n| *n == per), "lost", "of {} appended items per thread there are {:?}", per, next);
        }
        v => return Err(fail("lost", format!("afterwards there's {:?}", v.map(|v| v.show())))),
    }
    cx.class("many commands of a kind");
    cx.nontrivial = true;
    Ok(())
}

// ---- C18 ----

fn program18(s: &mut Src) -> Program {
    let mut tag = 0;
    let sources: Vec<Vec<u8>> = (0..s.range(1, 3)).map(|i| format!("from{}", i).into_bytes()).collect();
    let dests: Vec<Vec<u8>> = (0..s.range(1, 2)).map(|i| format!("to{}", i).into_bytes()).collect();
    let mut init = Vec::new();
    let kind = s.choice(7) as u8;
    for k in sources.iter().chain(&dests) {
        let there = if k.starts_with(b"from") { s.pct(90) } else { s.pct(25) };
        if there {
            let mut args = vec![k.clone()];
            args.extend(unique_val(s, kind, &mut tag));
            init.push(Req::new(10, Some(kind), args));
        }
    }
    let n = s.range(2, 4);
    let mut threads = Vec::new();
    for t in 0..n {
        let ops = (0..s.range(1, 3))
            .map(|i| {
                let rename = if t == 0 && i == 0 { true } else { s.pct(50) };
                let to = s.pick(&dests).clone();
                if rename {
                    return Req::new(15, None, vec![s.pick(&sources).clone(), to]);
                }
                match s.below(6) {
                    0 => Req::new(12, None, vec![to]),
                    1 => Req::new(11, None, vec![to]),
                    2 => Req::new(13, None, vec![to]),
                    3 => {
                        let int = s.bool();
                        if int {
                            Req::new(0, None, vec![to])
                        } else {
                            tag += 1;
                            Req::new(20, Some(5), vec![to, format!("a{}", tag).into_bytes()])
                        }
                    }
                    _ => {
                        let kind = s.choice(7) as u8;
                        let mut args = vec![to];
                        args.extend(unique_val(s, kind, &mut tag));
                        Req::new(10, Some(kind), args)
                    }
                }
            })
            .collect();
        threads.push(ops);
    }
    Program { init, threads }
}

/// Renames that are as atomic as any other command: either the new names exist all along, so that each of them fails,
/// or each new name is that of one rename only. What the old names hold is changed by other threads all the time.
fn program18_strict(s: &mut Src) -> Program {
    let mut tag = 0;
    let taken = s.bool();
    let focus: Vec<u8> = match s.below(5) {
        0 => vec![3],
        1 => vec![5],
        2 => vec![4],
        3 => vec![2],
        _ => (0..8).collect(),
    };
    let sources: Vec<Vec<u8>> = (0..s.range(1, 2)).map(|i| format!("from{}", i).into_bytes()).collect();
    let dests: Vec<Vec<u8>> = (0..2).map(|i| format!("to{}", i).into_bytes()).collect();
    let mut init = Vec::new();
    for k in sources.iter().chain(&dests) {
        if if k.starts_with(b"from") { s.pct(80) } else { taken } {
            let kind = *s.pick(&focus);
            let mut args = vec![k.clone()];
            args.extend(unique_val(s, kind, &mut tag));
            init.push(Req::new(10, Some(kind), args));
        }
    }
    let n = s.range(2, 4);
    let mut threads = Vec::new();
    let mut fresh = 0;
    for t in 0..n {
        let mut ops = Vec::new();
        for i in 0..s.range(1, 3) {
            if (t == 0 && i == 0) || s.pct(25) {
                let to = if taken {
                    s.pick(&dests).clone()
                } else {
                    fresh += 1;
                    format!("to{}", fresh).into_bytes()
                };
                ops.push(Req::new(15, None, vec![s.pick(&sources).clone(), to]));
            } else if taken && s.pct(15) {
                let mut req = single(s, &mut tag, &dests, &focus);
                if req.cmd == 12 {
                    req.cmd = 13;
                }
                ops.push(req);
            } else {
                ops.push(single(s, &mut tag, &sources, &focus));
            }
        }
        threads.push(ops);
    }
    Program { init, threads }
}

/// Anything goes: names are renamed back and forth while others create, change and delete all of them.
fn program18_any(s: &mut Src) -> Program {
    let mut tag = 0;
    let names: Vec<Vec<u8>> = (0..s.range(2, 3)).map(|i| format!("name{}", i).into_bytes()).collect();
    let focus: Vec<u8> = match s.below(4) {
        0 => vec![3],
        1 => vec![5],
        2 => vec![4],
        _ => (0..8).collect(),
    };
    let mut init = Vec::new();
    for (i, k) in names.iter().enumerate() {
        if s.pct(if i == 0 { 95 } else { 30 }) {
            let kind = *s.pick(&focus);
            let mut args = vec![k.clone()];
            args.extend(unique_val(s, kind, &mut tag));
            init.push(Req::new(10, Some(kind), args));
        }
    }
    let n = s.range(2, 4);
    let mut threads = Vec::new();
    for t in 0..n {
        let mut ops = Vec::new();
        for i in 0..s.range(1, if n > 2 { 2 } else { 3 }) {
            if (t == 0 && i == 0) || s.pct(35) {
                let from = if t == 0 && i == 0 { 0 } else { s.below(names.len()) };
                let to = (from + s.range(1, names.len() - 1)) % names.len();
                ops.push(Req::new(15, None, vec![names[from].clone(), names[to].clone()]));
            } else {
                ops.push(single(s, &mut tag, &names, &focus));
            }
        }
        threads.push(ops);
    }
    Program { init, threads }
}

fn renames(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let (p, mode) = match s.weighted(&[30, 35, 35]) {
        0 => (program18_any(s), Renames::Stepwise),
        1 => (program18_strict(s), Renames::Atomic),
        _ => (program18(s), Renames::Competing),
    };
    cx.class(match mode {
        Renames::Atomic => "renames that are atomic",
        Renames::Competing => "renames that compete",
        Renames::Stepwise => "renames among changes of all names",
    });
    trace_program(cx, &p);
    run_program(s, cx, &p, mode)
}

/// The recorded history: a rename finds its new name taken after it has removed the key, and meanwhile the key has been
/// created anew, so that there's nowhere to put the value back.
fn lost_value() -> Vec<Failure> {
    let mut found = Vec::new();
    for stop in 1..6 {
        let hop = Hop::new();
        let set = |k: &str, v: i64| Req::new(10, Some(3), vec![k.into(), v.to_be_bytes().to_vec()]);
        let _ = adapt::dispatch(&hop, &set("a", 1000), Route::Parser, &[]);
        let sched = Arc::new(Sched::new(1));
        let mut at = "";
        thread::scope(|scope| {
            let (hop, sched2) = (&hop, sched.clone());
            scope.spawn(move || {
                let _done = DoneGuard(sched2.clone(), 0);
                CTL.with(|c| *c.borrow_mut() = Some((sched2.clone(), 0)));
                let req = Req::new(15, None, vec![b"a".to_vec(), b"b".to_vec()]);
                let _ = pbt::run::catch(|| perform(hop, &req, &AtomicU64::new(0)));
            });
            sched.settle(0);
            for _ in 1..stop {
                sched.grant(0);
                sched.settle(0);
            }
            at = sched.name(0);
            if sched.waiting().0 == [0] {
                // They may have to wait for the rename's locks.
                let (tx, rx) = std::sync::mpsc::channel();
                scope.spawn(move || {
                    let _ = adapt::dispatch(hop, &set("b", 1), Route::Parser, &[]);
                    let _ = adapt::dispatch(hop, &Req::new(0, None, vec![b"a".to_vec()]), Route::Parser, &[]);
                    let _ = tx.send(());
                });
                let _ = rx.recv_timeout(Duration::from_millis(500));
            }
            sched.release();
        });
        let last = final_state(&hop, &[b"a".to_vec(), b"b".to_vec()]);
        if !last.values().any(|v| matches!(v, Val::Int(1000 | 1001))) {
            found.push(fail(
                LOST,
                format!(
                    "a is 1000; one thread renames a to b and is stopped before its {}; others set b to 1 and \
                     increment a; afterwards the 1000 is nowhere: {:?}",
                    at,
                    last.iter().map(|(k, v)| format!("{} = {}", pbt::show(k), v.show())).collect::<Vec<_>>()
                ),
            ));
            break;
        }
    }
    found
}

pub fn checks() -> Vec<Check> {
    install();
    let assumptions = &[
        "the scheduler switches threads at operations on the keyspace only; finer interleavings are left to the free runs",
        "up to 4 threads with up to 3 commands each, except for long runs of one kind of command",
    ];
    vec![
        Check {
            id: "C17",
            rule: "the scheduler switches threads at least twice, or commands of a free run overlap",
            assumptions,
            quick: 14_000,
            threads: 6,
            run: commands,
            ..Default::default()
        },
        Check {
            id: "C18",
            rule: "the scheduler switches threads at least twice, or commands of a free run overlap",
            assumptions: &[
                "the scheduler switches threads at operations on the keyspace only; finer interleavings are left to the free runs",
                "up to 4 threads with up to 3 commands each",
                "histories that only the loss of a value explains, its old name created anew and its new name taken during a rename, are the known finding",
            ],
            quick: 14_000,
            threads: 6,
            run: renames,
            probes: Some(lost_value),
            ..Default::default()
        },
    ]
}
