//! Runs the cases of a check, shrinks failures, and reports.

use crate::{
    dict::Dict,
    src::{hash_str, mix, Src},
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    fs,
    io::Write,
    os::unix::fs::FileExt,
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Failure {
    /// What kind of failure this is: known findings are matched against it, and shrinking preserves it.
    pub sig: String,
    pub msg: String,
    /// Whether this is a fault of the harness or its environment, instead of a violation.
    pub harness: bool,
}

pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Failure {
    Failure { sig: sig.into(), msg: msg.into(), harness: false }
}

pub fn harness_error(msg: impl Into<String>) -> Failure {
    Failure { sig: "harness".into(), msg: msg.into(), harness: true }
}

pub type CaseResult = Result<(), Failure>;

/// The context of one case.
pub struct Cx {
    pub tracing: bool,
    pub trace: Vec<String>,
    pub classes: HashMap<&'static str, u64>,
    pub nontrivial: bool,
    pub thorough: bool,
    /// Index of the worker thread, for resources that are kept per thread.
    pub worker: usize,
    /// Unique number of the case within the process.
    pub serial: u64,
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

impl Cx {
    pub fn new(tracing: bool, worker: usize, thorough: bool) -> Self {
        Cx {
            tracing,
            trace: Vec::new(),
            classes: HashMap::new(),
            nontrivial: false,
            thorough,
            worker,
            serial: SERIAL.fetch_add(1, Ordering::Relaxed),
        }
    }
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
}

#[derive(Clone)]
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Number of cases of the quick tier.
    pub quick: u64,
    pub threads: usize,
    /// Runs one generated case.
    pub run: fn(&mut Src, &mut Cx) -> CaseResult,
    /// Runs a fixed, exhaustively enumerated set of cases, returning how many there were.
    pub fixed: Option<fn(&mut Cx) -> Result<u64, Failure>>,
    /// Probes for known findings: runs the specific failing inputs that are recorded.
    pub probes: Option<fn() -> Vec<Failure>>,
    /// Seconds that a case can take before it is regarded as not terminating.
    pub case_limit: u64,
}

impl Default for Check {
    fn default() -> Self {
        Check {
            id: "",
            rule: "",
            assumptions: &[],
            quick: 1000,
            threads: 8,
            run: |_, _| Ok(()),
            fixed: None,
            probes: None,
            case_limit: 60,
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Where panics of threads that aren't workers end up, so that a case can collect them.
pub static STRAY_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Take the message of the last panic of this thread, as a failure.
pub fn panic_failure() -> Failure {
    let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    let ours = loc.contains("verif/harness/") || loc.starts_with("src/") || loc.contains("pbt/src");
    Failure { sig: "panic".into(), msg: format!("panicked at {}: {}", loc, msg), harness: ours }
}

/// Run something, turning a panic into a failure.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Failure> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| panic_failure())
}

pub fn run_case(check: &Check, src: &mut Src, cx: &mut Cx) -> CaseResult {
    match catch(|| (check.run)(src, cx)) {
        Ok(r) => r,
        Err(f) => Err(f),
    }
}

#[derive(Clone)]
struct Opts {
    check: String,
    tier: String,
    seed: u64,
    repo: String,
    verif: String,
    cases: Option<u64>,
    secs: Option<u64>,
    replay: Option<String>,
    one: Option<u64>,
    state: Option<String>,
}

fn opts() -> Opts {
    let mut o = Opts {
        check: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        repo: "/repo".into(),
        verif: "/verif".into(),
        cases: None,
        secs: None,
        replay: None,
        one: None,
        state: None,
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--check" => o.check = v,
            "--tier" => o.tier = v,
            "--seed" => o.seed = v.parse().unwrap_or(1),
            "--repo" => o.repo = v,
            "--verif" => o.verif = v,
            "--cases" => o.cases = v.parse().ok(),
            "--secs" => o.secs = v.parse().ok(),
            "--replay" => o.replay = Some(v),
            "--one" => o.one = v.parse().ok(),
            "--state" => o.state = Some(v),
            other => {
                eprintln!("unknown option {}", other);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    o
}

pub fn esc(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn list(items: impl Iterator<Item = String>) -> String {
    format!("[{}]", items.collect::<Vec<_>>().join(", "))
}

struct Known {
    sigs: Vec<(String, String)>,
}

fn known(verif: &str, id: &str) -> Known {
    let mut sigs = Vec::new();
    let text = fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)).unwrap_or_default();
    for line in text.lines() {
        // finding: property=<id> sig=<signature> <what fails>
        if let Some(rest) = line.strip_prefix("finding: property=") {
            let mut parts = rest.splitn(3, ' ');
            if parts.next() == Some(id) {
                if let Some(sig) = parts.next().and_then(|s| s.strip_prefix("sig=")) {
                    sigs.push((sig.to_string(), parts.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    Known { sigs }
}

impl Known {
    fn get(&self, sig: &str) -> Option<&str> {
        self.sigs.iter().find(|(s, _)| s == sig).map(|(_, w)| w.as_str())
    }
}

fn case_seed(o: &Opts, idx: u64) -> u64 {
    mix(mix(o.seed, hash_str(&o.check)), idx)
}

fn shrink(check: &Check, dict: &Arc<Dict>, choices: Vec<u64>, sig: &str, budget: Duration) -> (Vec<u64>, u64) {
    let end = Instant::now() + budget;
    let mut best = choices;
    let mut tried = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    // Returns the choices that were made if the failure persists.
    let mut test = |cand: &[u64]| -> Option<Vec<u64>> {
        let h = cand.iter().fold(cand.len() as u64, |h, v| mix(h, *v));
        if !seen.insert(h) {
            return None;
        }
        tried += 1;
        let mut src = Src::replay(cand, dict.clone());
        let mut cx = Cx::new(false, 0, false);
        match run_case(check, &mut src, &mut cx) {
            Err(f) if f.sig == sig && !f.harness => {
                let mut rec = src.record;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    if let Some(r) = test(&best.clone()) {
        best = r;
    }
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < end {
                let mut cand = best.clone();
                let to = (i + size).min(cand.len());
                cand.drain(i..to);
                match test(&cand) {
                    Some(r) if r.len() < best.len() || r < best => best = r,
                    _ => {
                        // Deleting while lowering an earlier count often works when deleting alone doesn't.
                        let mut ok = false;
                        for back in 1..=4usize.min(i) {
                            if best[i - back] > 0 {
                                let mut cand = best.clone();
                                cand[i - back] -= 1;
                                cand.drain(i..to);
                                if let Some(r) = test(&cand) {
                                    if r.len() < best.len() {
                                        best = r;
                                        ok = true;
                                        break;
                                    }
                                }
                            }
                        }
                        if !ok {
                            i += size;
                        }
                    }
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero and lower values.
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            if best[i] > 0 {
                let (mut lo, mut hi) = (0u64, best[i]);
                let mut cand = best.clone();
                cand[i] = 0;
                if let Some(r) = test(&cand) {
                    if r.len() <= best.len() {
                        best = r;
                        i += 1;
                        continue;
                    }
                }
                while lo + 1 < hi && Instant::now() < end {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    if i >= cand.len() {
                        break;
                    }
                    cand[i] = mid;
                    match test(&cand) {
                        Some(r) if r.len() <= best.len() => {
                            best = r;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if best == before || Instant::now() >= end {
            break;
        }
    }
    (best, tried)
}

struct Shared {
    next: AtomicU64,
    done: AtomicU64,
    stop: AtomicBool,
    failure: Mutex<Option<(u64, Vec<u64>, Failure)>>,
    classes: Mutex<BTreeMap<&'static str, u64>>,
    seen: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<(u64, Vec<u64>)>>,
    started: Vec<AtomicU64>,
    known_hits: Mutex<BTreeMap<String, u64>>,
}

/// Entry point: supervises a campaign that is run in a child process.
pub fn main(checks: Vec<Check>) -> ! {
    let o = opts();
    if o.check == "dict" {
        print!("{}", crate::dict::dump(&o.repo));
        std::process::exit(0);
    }
    if o.check == "list" {
        for c in checks {
            println!("{}", c.id);
        }
        std::process::exit(0);
    }
    let check = match checks.into_iter().find(|c| c.id == o.check) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {:?}", o.check);
            std::process::exit(2);
        }
    };
    limit_memory();
    if let Some(path) = &o.replay {
        install_hook();
        std::process::exit(replay(&check, &o, path));
    }
    if let Some(idx) = o.one {
        install_hook();
        let dict = Arc::new(Dict::load(&o.repo, &format!("{}/harness/baseline.dict", o.verif)));
        let mut src = Src::random(case_seed(&o, idx), dict);
        let mut cx = Cx::new(true, 0, o.tier == "thorough");
        let r = run_case(&check, &mut src, &mut cx);
        std::process::exit(r.is_err() as i32);
    }
    if o.state.is_some() {
        install_hook();
        std::process::exit(campaign(&check, &o));
    }
    std::process::exit(supervise(&check, &o));
}

fn limit_memory() {
    #[repr(C)]
    struct RLimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    }
    let l = RLimit { cur: 16 << 30, max: 16 << 30 };
    // RLIMIT_AS
    unsafe {
        setrlimit(9, &l);
    }
}

fn rerun_args(o: &Opts) -> Vec<String> {
    let mut a: Vec<String> = vec![
        "--check".into(), o.check.clone(), "--tier".into(), o.tier.clone(), "--seed".into(), o.seed.to_string(),
        "--repo".into(), o.repo.clone(), "--verif".into(), o.verif.clone(),
    ];
    if let Some(c) = o.cases {
        a.extend(["--cases".into(), c.to_string()]);
    }
    if let Some(s) = o.secs {
        a.extend(["--secs".into(), s.to_string()]);
    }
    a
}

fn supervise(check: &Check, o: &Opts) -> i32 {
    let start = Instant::now();
    let state = format!("{}/harness/.state-{}-{}", o.verif, o.check, std::process::id());
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(&exe);
    cmd.args(rerun_args(o)).arg("--state").arg(&state);
    // What only some schedules of the threads do isn't done again by the case on its own, but by a second campaign.
    for again in [false, true] {
        let status = match cmd.status() {
            Ok(s) => s,
            Err(e) => {
                eprintln!("failed to run the campaign: {}", e);
                return 2;
            }
        };
        let slots = fs::read(&state).unwrap_or_default();
        let mark = fs::read_to_string(mark_path(&state)).ok();
        let _ = fs::remove_file(&state);
        let _ = fs::remove_file(mark_path(&state));
        let (what, sig) = match status.code() {
            Some(0) => return 0,
            Some(1) => return 1,
            Some(3) => ("did not terminate", "hang"),
            Some(c) => {
                eprintln!("campaign of {} exited with {}", o.check, c);
                return 2;
            }
            None => ("ended the process with a signal", "crash"),
        };
        eprintln!("campaign of {}: a case {} ({:?})", o.check, what, status);
        match mark.as_deref().map(|m| m.split_once('\n').unwrap_or((m, ""))) {
            // It was being shrunk.
            Some((path, msg)) if !path.is_empty() => {
                println!("{}", msg);
                println!("VIOLATION property={} replay={}", check.id, path);
                return 1;
            }
            Some(_) if again => {
                let f = fail(sig, format!("one of the enumerated cases or probes {}", what));
                let path = write_replay(o, check, None, None, &f, &[], 0, &Dict::default());
                write_evidence(o, check, start, 1, 0, &BTreeMap::new(), &[], 1, &BTreeMap::new(), 0);
                println!("{}: {}", f.sig, f.msg);
                println!("VIOLATION property={} replay={}", check.id, path);
                return 1;
            }
            Some(_) => continue,
            None => {}
        }
        if let Some(code) = blame(check, o, start, &exe, &slots, if again { Some(sig) } else { None }) {
            return code;
        }
        eprintln!("no case does this on its own");
    }
    2
}

fn mark_path(state: &str) -> String {
    format!("{}.mark", state)
}

/// Note what's to be reported if what follows ends the process or doesn't end in time.
fn risk(o: &Opts, note: &str, limit: Duration) -> Risk {
    let path = o.state.as_deref().map(mark_path);
    if let Some(p) = &path {
        let _ = fs::write(p, note);
    }
    let over = Arc::new(AtomicBool::new(false));
    let o2 = over.clone();
    thread::spawn(move || {
        let end = Instant::now() + limit;
        while Instant::now() < end {
            thread::sleep(Duration::from_millis(100));
            if o2.load(Ordering::SeqCst) {
                return;
            }
        }
        eprintln!("it has been running for more than {:?}", limit);
        std::process::exit(3);
    });
    Risk(path, over)
}

struct Risk(Option<String>, Arc<AtomicBool>);

impl Drop for Risk {
    fn drop(&mut self) {
        self.1.store(true, Ordering::SeqCst);
        if let Some(p) = &self.0 {
            let _ = fs::remove_file(p);
        }
    }
}

/// Find the case that ended the campaign, by running each of those which were being run on their own. If none does it,
/// then the last is blamed in case of a signature that's given.
fn blame(check: &Check, o: &Opts, start: Instant, exe: &Path, slots: &[u8], anyway: Option<&'static str>) -> Option<i32> {
    let mut last = None;
    let mut blamed = None;
    for slot in slots.chunks_exact(8) {
        let idx = u64::from_le_bytes(slot.try_into().unwrap());
        if idx == 0 {
            continue;
        }
        let idx = idx - 1;
        last = Some(idx);
        let mut child = match Command::new(exe)
            .args(rerun_args(o))
            .args(["--one", &idx.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return Some(2),
        };
        let end = Instant::now() + Duration::from_secs(check.case_limit);
        let outcome = loop {
            match child.try_wait() {
                Ok(Some(s)) if s.code().is_none() => break Some("crash"),
                Ok(Some(_)) => break None,
                Ok(None) if Instant::now() > end => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break Some("hang");
                }
                Ok(None) => thread::sleep(Duration::from_millis(20)),
                Err(_) => break None,
            }
        };
        if let Some(sig) = outcome {
            blamed = Some((idx, sig, ""));
            break;
        }
    }
    if let (None, Some(sig), Some(idx)) = (blamed, anyway, last) {
        blamed = Some((idx, sig, ", in two campaigns, if not each time"));
    }
    let (idx, sig, note) = blamed?;
    let f = fail(
        sig,
        if sig == "crash" {
            format!("the case ends the process with a signal (abort, stack overflow or out of memory){}", note)
        } else {
            format!("the case does not terminate within {} s, where cases take milliseconds{}", check.case_limit, note)
        },
    );
    let path = write_replay(o, check, None, Some(idx), &f, &[], 0, &Dict::default());
    write_evidence(o, check, start, 0, 0, &BTreeMap::new(), &[], 1, &BTreeMap::new(), 0);
    println!("{}: {}", f.sig, f.msg);
    println!("VIOLATION property={} replay={}", check.id, path);
    Some(1)
}

fn campaign(check: &Check, o: &Opts) -> i32 {
    let start = Instant::now();
    let dict = Arc::new(Dict::load(&o.repo, &format!("{}/harness/baseline.dict", o.verif)));
    let known = known(&o.verif, check.id);
    let thorough = o.tier == "thorough";
    let total = o.cases.unwrap_or(if thorough { u64::MAX } else { check.quick });
    let deadline = if thorough {
        Some(start + Duration::from_secs(o.secs.unwrap_or(600)))
    } else {
        o.secs.map(|s| start + Duration::from_secs(s))
    };
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();

    // Known findings, by the specific inputs that fail.
    let known_part = risk(o, "", Duration::from_secs(if thorough { 1200 } else { 200 }));
    if let Some(probes) = check.probes {
        for f in probes() {
            if f.harness {
                eprintln!("harness error: {}", f.msg);
                return 2;
            }
            match known.get(&f.sig) {
                Some(_) => *known_hits.entry(f.sig.clone()).or_insert(0) += 1,
                None => {
                    let path = write_replay(o, check, None, None, &f, &[], 0, &dict);
                    write_evidence(o, check, start, 1, 0, &BTreeMap::new(), &[], 1, &known_hits, 0);
                    println!("{}: {}", f.sig, f.msg);
                    println!("VIOLATION property={} replay={}", check.id, path);
                    return 1;
                }
            }
        }
    }

    // Enumerated cases.
    let mut fixed_cases = 0;
    let mut fixed_classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    if let Some(fixed) = check.fixed {
        let mut cx = Cx::new(true, 0, thorough);
        let r = catch(|| fixed(&mut cx)).unwrap_or_else(Err);
        match r {
            Ok(n) => fixed_cases = n,
            Err(f) if f.harness => {
                eprintln!("harness error: {}", f.msg);
                return 2;
            }
            Err(f) => {
                let path = write_replay(o, check, None, None, &f, &cx.trace, 0, &dict);
                write_evidence(o, check, start, 1, 0, &BTreeMap::new(), &[], 1, &known_hits, 0);
                println!("{}: {}", f.sig, f.msg);
                println!("VIOLATION property={} replay={}", check.id, path);
                return 1;
            }
        }
        fixed_classes.extend(cx.classes);
    }
    drop(known_part);

    let threads = check.threads.max(1);
    let sh = Arc::new(Shared {
        next: AtomicU64::new(0),
        done: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        failure: Mutex::new(None),
        classes: Mutex::new(fixed_classes),
        seen: (0..16).map(|_| Mutex::new(HashSet::new())).collect(),
        samples: Mutex::new(Vec::new()),
        started: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        known_hits: Mutex::new(known_hits),
    });
    let state = o.state.as_ref().and_then(|p| {
        fs::OpenOptions::new().create(true).write(true).open(p).ok()
    });
    let state = Arc::new(state);
    let known = Arc::new(known);
    let alive = Arc::new(AtomicUsize::new(threads));
    let mut handles = Vec::new();
    for t in 0..threads {
        let (sh, state, dict, known, alive, check) =
            (sh.clone(), state.clone(), dict.clone(), known.clone(), alive.clone(), check.clone());
        let seed0 = mix(o.seed, hash_str(&o.check));
        let h = thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut classes: HashMap<&'static str, u64> = HashMap::new();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break;
                }
                if let Some(d) = deadline {
                    if Instant::now() >= d {
                        break;
                    }
                }
                let idx = sh.next.fetch_add(1, Ordering::Relaxed);
                if idx >= total {
                    break;
                }
                if let Some(f) = &*state {
                    let _ = f.write_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                }
                sh.started[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                let mut src = Src::random(mix(seed0, idx), dict.clone());
                let mut cx = Cx::new(false, t, thorough);
                let r = run_case(&check, &mut src, &mut cx);
                sh.started[t].store(0, Ordering::Relaxed);
                sh.done.fetch_add(1, Ordering::Relaxed);
                let mut fresh_class = false;
                for (k, n) in cx.classes {
                    let e = classes.entry(k).or_insert(0);
                    fresh_class |= *e == 0;
                    *e += n;
                }
                if cx.nontrivial {
                    let h = src.record.iter().fold(7, |h, v| mix(h, *v));
                    let mut set = sh.seen[(h >> 60) as usize].lock().unwrap();
                    if set.len() < 2_000_000 {
                        set.insert(h);
                    }
                    drop(set);
                    if fresh_class || idx < 100 {
                        let mut s = sh.samples.lock().unwrap();
                        if s.len() < 24 && src.record.len() < 400 || s.len() < 4 {
                            s.push((idx, src.record.clone()));
                        }
                    }
                }
                if let Err(f) = r {
                    if !f.harness && known.get(&f.sig).is_some() {
                        *sh.known_hits.lock().unwrap().entry(f.sig).or_insert(0) += 1;
                        continue;
                    }
                    let mut slot = sh.failure.lock().unwrap();
                    if slot.as_ref().map_or(true, |(i, ..)| idx < *i) {
                        *slot = Some((idx, src.record.clone(), f));
                    }
                    sh.stop.store(true, Ordering::Relaxed);
                }
            }
            let mut all = sh.classes.lock().unwrap();
            for (k, n) in classes {
                *all.entry(k).or_insert(0) += n;
            }
            alive.fetch_sub(1, Ordering::SeqCst);
        });
        handles.push(h.unwrap());
    }
    // Watch over the workers.
    while alive.load(Ordering::SeqCst) > 0 {
        thread::sleep(Duration::from_millis(5));
        let now = start.elapsed().as_millis() as u64;
        for s in &sh.started {
            let s = s.load(Ordering::Relaxed);
            if s != 0 && now > s + check.case_limit * 1000 {
                if sh.failure.lock().unwrap().is_some() {
                    // There's a failure to report anyway: don't wait for the other cases.
                    alive.store(0, Ordering::SeqCst);
                    break;
                }
                eprintln!("a case has been running for more than {} s", check.case_limit);
                return 3;
            }
        }
    }

    let evals = sh.done.load(Ordering::SeqCst) + fixed_cases;
    let distinct: u64 = sh.seen.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    let classes = sh.classes.lock().unwrap().clone();
    let known_hits = sh.known_hits.lock().unwrap().clone();
    for (sig, _) in &known_hits {
        println!("KNOWN-FINDING: property={} {}: {}", check.id, sig, known.get(sig).unwrap_or(""));
    }

    let failure = sh.failure.lock().unwrap().take();
    if let Some((idx, choices, f)) = failure {
        if f.harness {
            eprintln!("harness error in case {}: {}", idx, f.msg);
            return 2;
        }
        let budget = Duration::from_secs(if thorough { 60 } else { 15 });
        let path = write_replay(o, check, Some(&choices), Some(idx), &f, &[], 0, &dict);
        write_evidence(o, check, start, evals, distinct, &classes, &[], 1, &known_hits, fixed_cases);
        let _risk = risk(o, &format!("{}\n{}: {}", path, f.sig, f.msg), budget * 2 + Duration::from_secs(60));
        let (min, tried) = shrink(check, &dict, choices.clone(), &f.sig, budget);
        let mut src = Src::replay(&min, dict.clone());
        let mut cx = Cx::new(true, 0, thorough);
        let r = run_case(check, &mut src, &mut cx);
        let (min, f, trace) = match r {
            Err(f2) if !f2.harness => (min, f2, cx.trace),
            _ => {
                // Not reproduced by itself: report the original.
                let mut src = Src::replay(&choices, dict.clone());
                let mut cx = Cx::new(true, 0, thorough);
                let _ = run_case(check, &mut src, &mut cx);
                (choices, f, cx.trace)
            }
        };
        let path = write_replay(o, check, Some(&min), Some(idx), &f, &trace, tried, &dict);
        write_evidence(o, check, start, evals, distinct, &classes, &[trace.join("; ")], 1, &known_hits, fixed_cases);
        println!("{}: {}", f.sig, f.msg);
        for l in trace.iter().take(60) {
            println!("  {}", l);
        }
        println!("VIOLATION property={} replay={}", check.id, path);
        let _ = std::io::stdout().flush();
        return 1;
    }
    // Samples: run a few of the cases once more, writing down what they are.
    let mut picked = sh.samples.lock().unwrap().clone();
    picked.sort_by_key(|(i, c)| (c.len(), *i));
    let _part = risk(o, "", Duration::from_secs(120));
    let n = picked.len();
    let mut samples = Vec::new();
    for k in [n / 4, n / 2, n.saturating_sub(2)] {
        if let Some((idx, choices)) = picked.get(k) {
            let mut src = Src::replay(choices, dict.clone());
            let mut cx = Cx::new(true, 0, thorough);
            let _ = run_case(check, &mut src, &mut cx);
            let mut text = format!("case {}: {}", idx, cx.trace.join("; "));
            if text.len() > 3000 {
                let mut cut = 3000;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                text.push_str(" ...");
            }
            if !samples.contains(&text) {
                samples.push(text);
            }
        }
    }
    write_evidence(o, check, start, evals, distinct, &classes, &samples, 0, &known_hits, fixed_cases);
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        check.id, evals, distinct, start.elapsed().as_secs_f64()
    );
    0
}

fn replay_dir(o: &Opts) -> PathBuf {
    let d = PathBuf::from(format!("{}/evidence/replays", o.verif));
    let _ = fs::create_dir_all(&d);
    d
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    o: &Opts, check: &Check, choices: Option<&[u64]>, idx: Option<u64>, f: &Failure, trace: &[String], tried: u64,
    dict: &Dict,
) -> String {
    let path = replay_dir(o).join(format!("{}-{}-{}.json", check.id, o.tier, o.seed));
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n \"signature\": {},\n \"message\": {},\n", esc(check.id), esc(&f.sig), esc(&f.msg)));
    s.push_str(&format!(" \"tier\": {}, \"seed\": {},\n", esc(&o.tier), o.seed));
    if let Some(i) = idx {
        s.push_str(&format!(" \"index\": {},\n", i));
    }
    s.push_str(&format!(" \"shrink_attempts\": {},\n", tried));
    s.push_str(&format!(" \"case\": {},\n", list(trace.iter().map(|t| esc(t)))));
    if let Some(c) = choices {
        s.push_str(&format!(" \"choices\": {},\n", list(c.iter().map(|v| v.to_string()))));
        s.push_str(&format!(" \"dict_strs\": {},\n", list(dict.strs.iter().map(|v| esc(&crate::hex(v))))));
        s.push_str(&format!(" \"dict_ints\": {},\n", list(dict.ints.iter().map(|v| v.to_string()))));
        s.push_str(&format!(" \"dict_hot_strs\": {},\n", list(dict.hot_strs.iter().map(|v| esc(&crate::hex(v))))));
        s.push_str(&format!(" \"dict_hot_ints\": {},\n", list(dict.hot_ints.iter().map(|v| v.to_string()))));
    }
    s.push_str(&format!(" \"how\": {}\n}}\n", esc("run bin/check.sh <property> --replay <this file>")));
    let _ = fs::write(&path, s);
    path.display().to_string()
}

fn field<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("\"{}\": ", name);
    let at = text.find(&key)? + key.len();
    let rest = &text[at..];
    let end = if rest.starts_with('[') { rest.find(']')? } else { rest.find(['\n', ','])? };
    Some(rest[..end].trim_start_matches('['))
}

fn replay(check: &Check, o: &Opts, path: &str) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let strs = |n: &str| -> Vec<Vec<u8>> {
        field(&text, n)
            .map(|l| l.split(',').map(|s| s.trim().trim_matches('"')).filter(|s| !s.is_empty()).map(crate::unhex).collect())
            .unwrap_or_default()
    };
    let ints = |n: &str| -> Vec<i128> {
        field(&text, n).map(|l| l.split(',').filter_map(|s| s.trim().parse().ok()).collect()).unwrap_or_default()
    };
    let mut src = match field(&text, "choices") {
        Some(c) => {
            let dict = Dict {
                strs: strs("dict_strs"),
                ints: ints("dict_ints"),
                hot_strs: strs("dict_hot_strs"),
                hot_ints: ints("dict_hot_ints"),
            };
            let choices: Vec<u64> = c.split(',').filter_map(|s| s.trim().parse().ok()).collect();
            Src::replay(&choices, Arc::new(dict))
        }
        None => {
            let idx = field(&text, "index").and_then(|s| s.trim().parse().ok());
            let seed = field(&text, "seed").and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            match idx {
                Some(idx) => {
                    let dict = Arc::new(Dict::load(&o.repo, &format!("{}/harness/baseline.dict", o.verif)));
                    Src::random(mix(mix(seed, hash_str(&o.check)), idx), dict)
                }
                None => {
                    println!("the failure is one of the enumerated cases or probes, which every run of the check repeats");
                    return 2;
                }
            }
        }
    };
    let mut cx = Cx::new(true, 0, false);
    let r = run_case(check, &mut src, &mut cx);
    for l in &cx.trace {
        println!("  {}", l);
    }
    match r {
        Ok(()) => {
            println!("{}: held", check.id);
            0
        }
        Err(f) => {
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", check.id, path);
            1
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    o: &Opts, check: &Check, start: Instant, evals: u64, distinct: u64, classes: &BTreeMap<&'static str, u64>,
    samples: &[String], violations: u64, known: &BTreeMap<String, u64>, fixed: u64,
) {
    let _ = fs::create_dir_all(format!("{}/evidence", o.verif));
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", esc(check.id), esc(if o.tier == "thorough" { "thorough" } else { "quick" }), o.seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"enumerated_cases\": {},\n", evals, distinct, fixed));
    s.push_str(&format!("  \"rule\": {},\n", esc(check.rule)));
    s.push_str(&format!("  \"classes\": {{{}}},\n", classes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"known_finding_hits\": {{{}}},\n", known.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"samples\": {}\n }},\n", list(samples.iter().map(|t| esc(t)))));
    s.push_str(&format!(" \"assumptions\": {},\n", list(check.assumptions.iter().map(|t| esc(t)))));
    s.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", start.elapsed().as_secs_f64(), violations));
    let _ = fs::write(format!("{}/evidence/{}.json", o.verif, check.id), s);
}
