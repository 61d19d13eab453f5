//! C19: the in-memory client.

use crate::call::{self, stats_of, Call, Got, Want};
use hop::{backend::MemoryBackend, Client};
use pbt::{ensure, fail, model::Model, run::catch, show, CaseResult, Check, Cx, Failure, Src};
use std::{
    collections::BTreeSet,
    future::Future,
    pin::Pin,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

fn noop() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VTABLE)
    }
    fn nothing(_: *const ()) {}
    static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VTABLE)) }
}

/// Run a future which doesn't wait for anything.
pub fn now<T>(fut: impl Future<Output = T>) -> Option<T> {
    let mut fut: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(fut);
    let waker = noop();
    let mut cx = Context::from_waker(&waker);
    for _ in 0..1000 {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Some(v);
        }
        std::thread::yield_now();
    }
    None
}

pub fn do_call(client: &Client<MemoryBackend>, c: &Call) -> Result<Got, Failure> {
    match catch(|| now(call::perform(client, c))) {
        Err(f) => Err(Failure { sig: "panic".into(), msg: format!("{} panics: {}", c.show(), f.msg), harness: f.harness }),
        Ok(None) => Err(fail("pending", format!("{} never completes", c.show()))),
        Ok(Some(g)) => Ok(g),
    }
}

/// The keys that a call mentions.
pub fn mentioned(c: &Call, out: &mut BTreeSet<Vec<u8>>) {
    if let Ok(req) = c.spell() {
        for k in req.args.iter().take(3) {
            if !k.is_empty() && k.len() < 500 {
                out.insert(k.clone());
            }
        }
    }
}

fn run(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let clients = [Client::memory(), Client::memory()];
    let mut models = [Model::default(), Model::default()];
    let pool = pbt::gen::pool(s, 2, 8);
    let two = s.pct(15);
    let n = if s.choice(2999) == 0 {
        cx.class("hundreds of calls");
        pbt::gen::count(s, (300, 3000), 6000)
    } else {
        pbt::gen::count(s, (4, 40), 300)
    };
    let mut keys: BTreeSet<Vec<u8>> = pool.iter().cloned().collect();
    let (mut ok, mut errors) = (0, 0);
    for step in 0..n {
        let i = if two && s.bool() { 1 } else { 0 };
        let c = call::generate(s, &models[i], &pool, &call::PROFILE);
        mentioned(&c, &mut keys);
        if s.pct(4) {
            // A call that isn't awaited does nothing.
            cx.class("call that isn't awaited");
            cx.trace(|| format!("drop {}", c.show()));
            drop(call::perform(&clients[i], &c));
            continue;
        }
        let client = &clients[i];
        let want = c.want(&mut models[i]);
        let got = do_call(client, &c)?;
        cx.trace(|| format!("{}{} -> {}", if two { format!("#{} ", i) } else { String::new() }, c.show(), got.show()));
        ensure!(
            want.matches(&got),
            "result",
            "step {}: {} gives {} but it should be {}",
            step,
            c.show(),
            got.show(),
            want.show()
        );
        cx.class(match (&c, &want) {
            (_, Want::Refused(_)) => "refused call",
            (Call::Set { .. }, _) => "set",
            (Call::Get { kt: Some(_), .. }, _) => "typed get",
            (Call::Get { .. }, _) => "get",
            (Call::Add { .. }, _) => "counter",
            (Call::Append { .. }, _) => "append",
            (Call::Exists { .. }, _) | (Call::Is { .. }, _) => "exists or is",
            (Call::Stats, _) => "stats",
            (Call::Length { .. }, _) | (Call::Keys { .. }, _) => "length or keys",
            _ => "other call",
        });
        match &want {
            Want::Refused(_) => {}
            Want::Out(o) if o.is_err() => errors += 1,
            _ => ok += 1,
        }
    }
    for i in 0..2 {
        audit(&clients[i], &mut models[i], &keys)?;
    }
    cx.nontrivial = ok >= 3 && errors >= 1;
    Ok(())
}

/// Compare everything that can be seen with the model.
pub fn audit(client: &Client<MemoryBackend>, m: &mut Model, keys: &BTreeSet<Vec<u8>>) -> CaseResult {
    let c = Call::Stats;
    let want = Want::Stats(stats_of(m));
    let got = do_call(client, &c)?;
    m.ok += 1;
    ensure!(want.matches(&got), "stats", "afterwards there's {} but it should be {}", got.show(), want.show());
    for k in keys.iter().chain(m.map.keys().cloned().collect::<Vec<_>>().iter()) {
        let c = Call::Get { key: k.clone(), kt: None, alias: false };
        let want = c.want(m);
        let got = do_call(client, &c)?;
        ensure!(
            want.matches(&got),
            "effect",
            "afterwards the key {} holds {} but it should be {}",
            show(k),
            got.show(),
            want.show()
        );
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        rule: "at least three calls succeed and at least one gets an error of its command",
        assumptions: &[
            "keys, items and values are at most 64 KiB; payloads of NaN and signs of zero of arithmetic aren't compared",
        ],
        quick: 375_000,
        threads: 8,
        run,
        ..Check::default()
    }]
}
