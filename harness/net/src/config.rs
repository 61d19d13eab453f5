//! C32: where the server listens.

use crate::server::{can_bind, spawn, Server, PATIENCE};
use pbt::{codec, ensure, fail, gen, model::{Out, Req, Val}, run::harness_error, CaseResult, Check, Cx, Failure, Src};
use std::{
    ffi::OsString,
    fs::File,
    net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream},
    os::unix::ffi::OsStringExt,
    sync::atomic::{AtomicU32, Ordering},
    thread,
    time::{Duration, Instant},
};

const DEFAULT_HOST: Ipv4Addr = Ipv4Addr::new(0, 0, 0, 0);
const DEFAULT_PORT: u16 = 46733;

/// Four numbers of up to 255 with dots in between, none with a leading zero.
fn parse_host(text: &[u8]) -> Option<Ipv4Addr> {
    let parts: Vec<&[u8]> = text.split(|b| *b == b'.').collect();
    let mut octets = [0; 4];
    if parts.len() != 4 {
        return None;
    }
    for (o, p) in octets.iter_mut().zip(parts) {
        if p.is_empty() || p.len() > 3 || !p.iter().all(u8::is_ascii_digit) || (p.len() > 1 && p[0] == b'0') {
            return None;
        }
        let n = p.iter().fold(0u32, |n, b| n * 10 + (b - b'0') as u32);
        *o = if n < 256 { n as u8 } else { return None };
    }
    Some(octets.into())
}

/// A decimal number that a port can be.
fn parse_port(text: &[u8]) -> Option<u16> {
    let digits = text.strip_prefix(b"+").unwrap_or(text);
    if digits.is_empty() || !digits.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let n = digits.iter().fold(0u64, |n, b| (n * 10 + (b - b'0') as u64).min(1 << 20));
    u16::try_from(n).ok()
}

/// An address of this machine that nothing else uses.
fn own() -> Ipv4Addr {
    static COUNTER: AtomicU32 = AtomicU32::new(0);
    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
    Ipv4Addr::new(127, 202 + (std::process::id() % 53) as u8, (n >> 8) as u8, n as u8)
}

fn host(s: &mut Src) -> Option<Vec<u8>> {
    Some(match s.weighted(&[45, 12, 8, 30, 5]) {
        0 => own().to_string().into_bytes(),
        1 => return None,
        2 => b"0.0.0.0".to_vec(),
        3 => {
            // One that's wrong, or nearly.
            let mut h = own().to_string().into_bytes();
            match s.below(9) {
                0 => h.clear(),
                1 => h.insert(0, b' '),
                2 => h.push(*s.pick(b" .\n:/a0\xff")),
                3 => h.extend_from_slice(b":80"),
                4 => {
                    h.truncate(h.iter().rposition(|b| *b == b'.').unwrap_or(1));
                }
                5 => h.extend_from_slice(b".1"),
                6 => h = s.pick(&["localhost", "256.0.0.1", "127.0.0.01", "127.1", "2130706433", "0x7f.0.0.1", "*", "any", "127.0.0.999", "::g"]).as_bytes().to_vec(),
                7 => {
                    let i = s.below(h.len());
                    h[i] = s.choice(254) as u8 + 1;
                }
                _ => h = gen::text(s, 6).into_bytes(),
            }
            h
        }
        // Somewhere else: TEST-NET-1 belongs to nobody.
        _ => b"192.0.2.1".to_vec(),
    })
}

fn port(s: &mut Src) -> Option<Vec<u8>> {
    let n = match s.below(3) {
        0 => s.range(1024, 65_535),
        1 => *s.pick(&[1024, 8080, 9999, 32_767, 32_768, 46_732, 46_734, 65_535]),
        _ => s.range(10_000, 30_000),
    };
    Some(match s.weighted(&[60, 10, 6, 24]) {
        0 => n.to_string().into_bytes(),
        1 => return None,
        2 => match s.below(3) {
            0 => format!("0{}", n),
            1 => format!("+{}", n),
            _ => format!("0000{}", n),
        }
        .into_bytes(),
        _ => match s.below(8) {
            0 => Vec::new(),
            1 => format!(" {}", n).into_bytes(),
            2 => format!("{}\n", n).into_bytes(),
            3 => (65_536 + n).to_string().into_bytes(),
            4 => format!("-{}", n).into_bytes(),
            5 => s.pick(&["65536", "http", "0x1f90", "1e4", "8080.0", "+", "80,80", "99999999999999999999"]).as_bytes().to_vec(),
            6 => format!("{}\u{0}", n).bytes().filter(|b| *b != 0).chain([0xff]).collect(),
            _ => gen::text(s, 4).into_bytes(),
        },
    })
}

fn refused(addr: SocketAddr) -> bool {
    TcpStream::connect_timeout(&addr, PATIENCE).is_err()
}

fn listens(s: &mut Src, cx: &mut Cx) -> CaseResult {
    // The environment can't have zeros.
    let clean = |v: Option<Vec<u8>>| v.map(|v| v.into_iter().filter(|b| *b != 0).collect::<Vec<u8>>());
    let (host, port) = (clean(host(s)), clean(port(s)));
    let ip = host.as_deref().and_then(parse_host);
    let number = port.as_deref().and_then(parse_port);
    // IPv6 can't be had in this environment, and the port zero may be any.
    let v6 = host.as_deref().and_then(|h| std::str::from_utf8(h).ok()).map_or(false, |h| matches!(h.parse(), Ok(IpAddr::V6(_))));
    if v6 || number == Some(0) {
        return Ok(());
    }
    let mut env: Vec<(&str, OsString)> = Vec::new();
    if let Some(h) = &host {
        env.push(("HOST", OsString::from_vec(h.clone())));
    }
    if let Some(p) = &port {
        env.push(("PORT", OsString::from_vec(p.clone())));
    }
    if s.pct(20) {
        // Writing logs, to nowhere, is no reason to do something else.
        let level = s.pick(&["trace", "debug", "warn", "hop_server=debug", "off", "?"]);
        env.push(("RUST_LOG", level.into()));
    }
    let busy = s.pct(8);
    let elsewhere = own();
    let local = own();
    cx.trace(|| format!("{:?}{}", env, if busy { ", where something listens already" } else { "" }));
    let ip = ip.unwrap_or(DEFAULT_HOST);
    let number = number.unwrap_or(DEFAULT_PORT);
    let addr = SocketAddr::new(ip.into(), number);
    // One at a time when it's all addresses, or when it's the port that servers fall back to.
    let path = std::env::temp_dir().join("hop-verif-c32.lock");
    let lock = File::create(&path).map_err(|e| harness_error(format!("{}: {}", path.display(), e)))?;
    let common = ip.is_unspecified() || number == DEFAULT_PORT;
    let locked = if common { lock.lock() } else { lock.lock_shared() };
    locked.map_err(|e| harness_error(e.to_string()))?;
    let foreign = ip == Ipv4Addr::new(192, 0, 2, 1);
    if !foreign && !ip.is_loopback() && !ip.is_unspecified() {
        return Ok(());
    }
    if !foreign && can_bind(addr).is_err() {
        cx.class("skipped: the address is in use");
        return Ok(());
    }
    let listener = if busy && !foreign {
        match TcpListener::bind(addr) {
            Ok(l) => Some(l),
            Err(_) => {
                cx.class("skipped: the address is in use");
                return Ok(());
            }
        }
    } else {
        None
    };
    let reach = SocketAddr::new(if ip.is_unspecified() { local.into() } else { ip.into() }, number);
    let mut server = Server::adopt(spawn(&env, None)?, reach);
    if foreign || listener.is_some() {
        let end = Instant::now() + PATIENCE;
        loop {
            match server.ended() {
                Some(status) => {
                    ensure!(!status.success(), "unavailable", "the server says that it succeeded when it can't listen on {}", addr);
                    break;
                }
                None if Instant::now() > end => return Err(fail("unavailable", format!("the server goes on when it can't listen on {}", addr))),
                None => thread::sleep(Duration::from_millis(1)),
            }
        }
        cx.class("can't listen");
        cx.nontrivial = true;
        return Ok(());
    }
    let end = Instant::now() + PATIENCE;
    let mut wait = 200;
    let stream = loop {
        if let Some(status) = server.ended() {
            return Err(fail("ends", format!("the server ends instead of listening on {}: {}", addr, status)));
        }
        match TcpStream::connect_timeout(&reach, PATIENCE) {
            Ok(c) => break c,
            Err(e) if Instant::now() > end => return Err(fail("absent", format!("the server doesn't listen on {}: {}", addr, e))),
            Err(_) => {}
        }
        thread::sleep(Duration::from_micros(wait));
        wait = (wait * 2).min(20_000);
    };
    drop(stream);
    // It's the server, and it works.
    let mut conn = server.connect()?;
    let word = b"here".to_vec();
    conn.send(&codec::encode(&Req::new(100, None, vec![word.clone()])))?;
    let got = conn.response()?.out();
    ensure!(got.as_ref().map_or(false, |g| Out::Val(Val::List(vec![word])).matches(g)), "answer", "the server answers an echo with {:?}", got.map(|g| g.show()));
    if ip.is_unspecified() {
        ensure!(!refused(SocketAddr::new(elsewhere.into(), number)), "absent", "the server on {} isn't there on {}", addr, elsewhere);
    } else if elsewhere != ip {
        ensure!(refused(SocketAddr::new(elsewhere.into(), number)), "elsewhere", "the server on {} also listens on {}", addr, elsewhere);
    }
    server.alive()?;
    cx.class(match (host.is_some(), parse_host(host.as_deref().unwrap_or(b"")).is_some()) {
        (false, _) => "no host",
        (true, true) => "a host",
        (true, false) => "a malformed host",
    });
    cx.class(match (port.is_some(), parse_port(port.as_deref().unwrap_or(b"")).is_some()) {
        (false, _) => "no port",
        (true, true) => "a port",
        (true, false) => "a malformed port",
    });
    cx.nontrivial = true;
    Ok::<(), Failure>(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C32",
        rule: "the server is started, and is reached or ends as it has to",
        assumptions: &[
            "IPv4 only, as the pinned networking stack can't bind IPv6 addresses with this toolchain",
            "the port 0 and ports below 1024 are left out",
        ],
        quick: 3_000,
        threads: 8,
        run: listens,
        case_limit: 100,
        ..Check::default()
    }]
}
