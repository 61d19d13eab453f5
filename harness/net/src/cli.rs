//! C22 and C23: the command line.

use crate::{
    adapt::error_id,
    call::{Call, Want},
    linked, memory,
    server::Server,
};
use hop::{
    backend::{server::Error as ServerError, MemoryBackend, ServerBackend},
    Client,
};
use hop_cli::{ParseError, ProcessError};
use pbt::{
    codec, ensure, fail, gen,
    model::{self, Model, Out, Req, Val},
    run::{catch, harness_error},
    show, CaseResult, Check, Cx, Failure, Src,
};
use std::{
    collections::BTreeSet,
    io::{Read, Write},
    process::{Command, Stdio},
    thread,
    time::{Duration, Instant},
};

const TYPES: [(&str, u8); 11] = [
    ("bytes", 0),
    ("boolean", 1),
    ("bool", 1),
    ("float", 2),
    ("integer", 3),
    ("int", 3),
    ("string", 4),
    ("str", 4),
    ("list", 5),
    ("map", 6),
    ("set", 7),
];

fn short_name(kind: u8) -> &'static str {
    ["bytes", "bool", "float", "int", "str", "list", "map", "set"][kind as usize]
}

/// The errors that a line can have.
#[derive(Debug, PartialEq)]
enum Bad {
    Argument(String, u8),
    Building,
    Command(String),
    KeyUnspecified,
    MapIncomplete(String),
    NoCommand,
}

/// The request that a line spells, or all that's wrong with it.
fn spelled(line: &str) -> Result<Req, Vec<Bad>> {
    let words: Vec<&str> = line.split(' ').collect();
    let name = words[0];
    if name.is_empty() {
        return Err(vec![Bad::NoCommand]);
    }
    let id = |name: &str| codec::COMMANDS.iter().find(|c| c.1 == name).map(|c| c.0);
    let (cmd, kt) = match id(name) {
        Some(cmd) => (cmd, None),
        None => {
            let found = name.rfind(':').and_then(|at| {
                let kt = TYPES.iter().find(|t| t.0 == &name[at + 1..])?.1;
                Some((id(&name[..at])?, Some(kt)))
            });
            match found {
                Some(f) => f,
                None => return Err(vec![Bad::Command(name.into())]),
            }
        }
    };
    let rest = &words[1..];
    let mut bad = Vec::new();
    let keys = match cmd {
        // All are keys.
        13 | 14 => rest.len(),
        15 => 2,
        100 | 101 => 0,
        _ => 1,
    };
    let mut args: Vec<Vec<u8>> = rest.iter().take(keys).map(|k| k.as_bytes().to_vec()).collect();
    if !rest.is_empty() && rest.len() < keys {
        bad.push(Bad::KeyUnspecified);
    }
    let mut rest = rest.iter().skip(keys);
    while let Some(arg) = rest.next() {
        let invalid = Bad::Argument(arg.to_string(), kt.unwrap_or(0));
        match kt {
            Some(1) => match *arg {
                "true" => args.push(vec![1]),
                "false" => args.push(vec![0]),
                _ => bad.push(invalid),
            },
            Some(2) => match arg.parse::<f64>() {
                Ok(f) => args.push(f.to_be_bytes().to_vec()),
                Err(_) => bad.push(invalid),
            },
            Some(3) => match arg.parse::<i64>() {
                Ok(i) => args.push(i.to_be_bytes().to_vec()),
                Err(_) => bad.push(invalid),
            },
            Some(6) => match rest.next() {
                Some(v) => {
                    args.push(arg.as_bytes().to_vec());
                    args.push(v.as_bytes().to_vec());
                }
                None => bad.push(Bad::MapIncomplete(arg.to_string())),
            },
            _ => args.push(arg.as_bytes().to_vec()),
        }
    }
    if args.iter().any(Vec::is_empty) || args.len() > 255 || (cmd == 101 && !args.is_empty()) {
        bad.push(Bad::Building);
    }
    if bad.is_empty() {
        Ok(Req { cmd, kt, args })
    } else {
        Err(bad)
    }
}

fn word(s: &mut Src, keys: &[String]) -> String {
    match s.weighted(&[10, 3, 1, 1]) {
        0 => s.pick(keys).clone(),
        1 => {
            let n = s.range(1, 8);
            gen::text(s, n).replace(' ', "_")
        }
        2 => String::from_utf8_lossy(&gen::odd_key(s)).replace(' ', "_"),
        _ => {
            let n = gen::len(s, gen::Size::Small);
            gen::text(s, n).replace(' ', "-")
        }
    }
}

fn number(s: &mut Src) -> String {
    match s.weighted(&[8, 4, 3, 2]) {
        0 => gen::int(s).to_string(),
        3 => {
            let mut n: String = (0..s.below(4)).map(|_| *s.pick(&["+", "-", "_", "0", "\u{a0}"])).collect();
            n.push_str(&gen::int(s).to_string());
            if s.pct(30) {
                n.push_str(s.pick(&["_", "+", "-", "i64", ".", "\t", "e0", "\0"]));
            }
            n
        }
        1 => s
            .pick(&[
                "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "+5", "-0", "007",
                "0x10", "1_000", "5.0", "1e3", "-", "+", "12345678", "99999999999999999999", "٣", "5 ", "",
            ])
            .to_string(),
        _ => gen::int(s).wrapping_add(1).to_string(),
    }
}

fn decimal(s: &mut Src) -> String {
    match s.weighted(&[8, 5]) {
        0 => {
            let f = gen::float(s);
            match s.below(3) {
                0 => format!("{:e}", f),
                1 => format!("{:?}", f),
                _ => format!("{}", f),
            }
        }
        _ => s
            .pick(&[
                "NaN", "nan", "inf", "-inf", "infinity", "-0", "-0.0", ".5", "5.", ".", "1e400", "1e-400", "1e", "1,5", "0x1p3", "+1.5",
                "--1", "1.5f", "", "1e309", "4.9e-324", "1.7976931348623157e308",
            ])
            .to_string(),
    }
}

fn arg(s: &mut Src, kind: u8, keys: &[String]) -> String {
    match kind {
        1 => match s.weighted(&[10, 10, 4]) {
            0 => "true".into(),
            1 => "false".into(),
            _ => s.pick(&["True", "FALSE", "1", "0", "t", "yes", "truefalse", ""]).to_string(),
        },
        2 if s.pct(92) => decimal(s),
        3 if s.pct(92) => number(s),
        _ => match s.weighted(&[12, 3, 2]) {
            0 => {
                let n = s.range(1, 10);
                gen::text(s, n).replace(' ', "_")
            }
            1 => word(s, keys),
            _ => number(s),
        },
    }
}

/// A command with a type, or nearly.
fn name(s: &mut Src, cmd: u8, kind: Option<u8>) -> String {
    let mut name = codec::cmd_name(cmd).to_string();
    if let Some(kind) = kind {
        let names: Vec<&str> = TYPES.iter().filter(|t| t.1 == kind).map(|t| t.0).collect();
        name.push(':');
        name.push_str(s.pick(&names));
    }
    name
}

fn spoil(s: &mut Src, name: String) -> String {
    match s.below(10) {
        0 => name.to_uppercase(),
        1 => format!("{}:", name),
        2 => format!(":{}", name),
        3 => {
            let suffix = s.pick(&TYPES).0;
            format!("{}:{}", name, suffix)
        }
        4 => format!("{}{}", name, s.pick(&["s", "by", ":by", ":by:int", ":Int", ":ints", "::int", ":null", "\t", "\u{a0}", ":by:by"])),
        5 => name.replace(':', "::"),
        6 => name.chars().skip(1).collect(),
        7 => {
            let n = name.chars().count() - 1;
            name.chars().take(n).collect()
        }
        8 => name.replace(':', " "),
        _ => s.pick(&["by", "int", "set:set:set", "increment:int:by", "decrement:by:", "get:get", "quit", "help", "\u{1F600}"]).to_string(),
    }
}

fn line(s: &mut Src, m: &Model, keys: &[String]) -> String {
    if s.pct(3) {
        let n = s.below(30);
        return gen::text(s, n);
    }
    let cmd = gen::CMDS[s.weighted(&[6, 5, 8, 6, 30, 12, 6, 5, 5, 8, 5, 14, 8, 6, 4, 3])];
    let key = word(s, keys);
    let stored = m.map.get(key.as_bytes()).map(Val::kind);
    let typed = match cmd {
        10 | 2 | 3 | 14 => 75,
        20 | 11 | 21 => 50,
        0 | 1 => 40,
        _ => 6,
    };
    let kind = if s.pct(typed) {
        Some(match cmd {
            0..=3 if s.pct(85) => stored.filter(|k| matches!(k, 2 | 3)).unwrap_or_else(|| s.range(2, 3) as u8),
            20 if s.pct(85) => stored.filter(|k| matches!(k, 0 | 4 | 5)).unwrap_or_else(|| *s.pick(&[0, 4, 5])),
            11 | 14 | 21 if s.pct(70) => stored.unwrap_or_else(|| s.below(8) as u8),
            _ => s.below(8) as u8,
        })
    } else {
        None
    };
    let mut n = name(s, cmd, kind);
    if s.pct(3) {
        n = spoil(s, n);
    }
    let mut words = vec![n];
    let what = kind.or(if matches!(cmd, 2 | 3 | 10 | 20) { stored } else { None }).unwrap_or(0);
    match cmd {
        13 | 14 => {
            let n = if s.pct(2) { *s.pick(&[253usize, 254, 255, 256, 257]) } else { s.weighted(&[2, 40, 30, 15, 5]) };
            for i in 0..n {
                words.push(if n > 100 { format!("k{}", i) } else { word(s, keys) });
            }
        }
        15 => {
            for _ in 0..s.weighted(&[1, 3, 60, 3]) {
                words.push(word(s, keys));
            }
        }
        100 => {
            for _ in 0..s.below(5) {
                words.push(arg(s, what, keys));
            }
        }
        101 => {
            if s.pct(5) {
                words.push(word(s, keys));
            }
        }
        _ => {
            if !s.pct(2) {
                words.push(key);
                let n = match cmd {
                    2 | 3 => s.weighted(&[3, 90, 4]),
                    10 | 20 => match what {
                        5 | 7 => s.weighted(&[3, 30, 30, 20, 10]),
                        6 => [0, 2, 4, 6, 1, 3][s.weighted(&[3, 30, 30, 20, 2, 2])],
                        _ => s.weighted(&[3, 80, 5, 2]),
                    },
                    _ => s.weighted(&[95, 4, 1]),
                };
                let n = if matches!(cmd, 10 | 20) && s.pct(2) { *s.pick(&[252usize, 253, 254, 255, 256]) } else { n };
                for i in 0..n {
                    words.push(if n > 100 && what >= 4 { format!("v{}", i) } else { arg(s, what, keys) });
                }
            }
        }
    }
    let mut line = words.join(" ");
    match s.weighted(&[96, 1, 1, 1, 1]) {
        0 => {}
        1 => line.push(' '),
        2 => line.insert(0, ' '),
        3 => line = line.replacen(' ', "  ", 1),
        _ => line = line.replacen(' ', "\t", 1),
    }
    line
}

fn words(s: &mut Src) -> Vec<String> {
    let mut keys: Vec<String> =
        gen::pool(s, 2, 6).iter().map(|k| String::from_utf8_lossy(k).replace(' ', "_").replace('\n', "/")).collect();
    keys.retain(|k| !k.is_empty());
    keys.push("foo".into());
    keys
}

fn parse(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let keys = words(s);
    // So that there are types to go by.
    let mut m = Model::default();
    let mut good = 0;
    let mut rejected = 0;
    for i in 0..s.range(1, 12) {
        let line = line(s, &m, &keys);
        let want = spelled(&line);
        let got = catch(|| {
            hop_cli::parse(&line).map(|r| (r.as_bytes().to_vec(), r.command_id() as u8, r.key_type().map(|k| k as u8))).map_err(|e| {
                let text = e.to_string();
                (e, text)
            })
        })
        .map_err(|f| Failure { sig: "panic".into(), msg: format!("parsing {:?} panics: {}", line, f.msg), harness: f.harness })?;
        cx.trace(|| format!("{:?} -> {}", line, match &got { Ok(g) => show(&g.0), Err(e) => format!("{:?}", e.0) }));
        match (&want, &got) {
            (Ok(req), Ok((bytes, cmd, kt))) => {
                let want = codec::encode(req);
                ensure!(*cmd == req.cmd && *bytes == want, "request", "line {} ({:?}) becomes {} but it should be {}", i, line, show(bytes), show(&want));
                let _ = kt;
                m.exec(req);
                good += 1;
                cx.class("request");
            }
            (Err(bad), Err((e, text))) => {
                let e = match e {
                    ParseError::ArgumentInvalid { argument, key_type } => Bad::Argument(argument.clone(), kind_of(*key_type)),
                    ParseError::BuildingRequest { .. } => Bad::Building,
                    ParseError::InvalidCommandType { provided_name } => Bad::Command(provided_name.clone()),
                    ParseError::KeyUnspecified => Bad::KeyUnspecified,
                    ParseError::MapIncomplete { key } => Bad::MapIncomplete(key.clone()),
                    ParseError::NoCommandProvided => Bad::NoCommand,
                };
                ensure!(bad.contains(&e), "error", "line {} ({:?}) is rejected with {:?} but it should be {:?}", i, line, e, bad);
                ensure!(!text.is_empty(), "error", "the error {:?} has no message", e);
                rejected += 1;
                cx.class(match e {
                    Bad::Argument(..) => "invalid argument",
                    Bad::Building => "too many or empty arguments",
                    Bad::Command(_) => "invalid command",
                    Bad::KeyUnspecified => "missing key",
                    Bad::MapIncomplete(_) => "incomplete map",
                    Bad::NoCommand => "no command",
                });
            }
            (Ok(req), Err((e, _))) => {
                return Err(fail("rejected", format!("line {} ({:?}) is rejected with {:?} but it spells {}", i, line, e, req.show())))
            }
            (Err(bad), Ok((bytes, ..))) => {
                return Err(fail("accepted", format!("line {} ({:?}) becomes {} but it should be rejected with {:?}", i, line, show(bytes), bad)))
            }
        }
    }
    cx.nontrivial = good >= 1 && (good >= 2 || rejected >= 1);
    Ok(())
}

fn kind_of(k: hop::KeyType) -> u8 {
    (0..8).find(|i| crate::adapt::key_type(*i) == k).unwrap_or(99)
}

/// Every string made of few pieces.
fn parse_fixed(cx: &mut Cx) -> Result<u64, Failure> {
    let mut n = 0;
    let mut check = |line: &str| -> CaseResult {
        n += 1;
        let want = spelled(line);
        let got = catch(|| hop_cli::parse(line).map(|r| r.as_bytes().to_vec()).map_err(|e| format!("{:?}", e)))
            .map_err(|f| Failure { sig: "panic".into(), msg: format!("parsing {:?} panics: {}", line, f.msg), harness: f.harness })?;
        match (&want, &got) {
            (Ok(req), Ok(b)) if codec::encode(req) == *b => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            _ => Err(fail("request", format!("{:?} becomes {:?} but it should be {:?}", line, got.map(|b| show(&b)), want))),
        }
    };
    for (_, cmd) in codec::COMMANDS.iter() {
        for kt in TYPES.iter().map(|t| format!(":{}", t.0)).chain(["", ":", ":x", ":by", ":BOOL"].iter().map(|s| s.to_string())) {
            for args in [
                "", " ", " a", " a b", " a b c", " a b c d", " 1", " a 1", " a 1 2", " a 1.5", " a true", " a true x", " a b c d e",
                "  ", " a ", "  b", " a -1 false", " a NaN",
            ] {
                check(&format!("{}{}{}", cmd, kt, args))?;
            }
        }
    }
    let pieces = ["", " ", ":", "set", "int", "get", "increment", "by", "a", "\t"];
    for a in pieces {
        for b in pieces {
            for c in pieces {
                for d in pieces {
                    for e in pieces {
                        check(&[a, b, c, d, e].concat())?;
                    }
                }
            }
        }
    }
    cx.class("enumerated");
    Ok(n)
}

/// What processing a line comes to.
#[derive(Debug)]
enum Print {
    /// Any of some texts.
    Text(Vec<String>),
    /// A text with its lines in any order.
    Lines(String),
    /// The message of one of some errors.
    Errors(Vec<u8>, Vec<&'static str>),
    /// The line doesn't spell a request.
    Parse,
    Stats,
}

fn messages(e: u8) -> &'static str {
    match e {
        model::ARG => "Too few arguments were provided for this command.",
        model::KEY_UNSPECIFIED => "Specifying a key is required.",
        model::TYPE_DIFFERENT => "The type of the key is different than specified by the command.",
        model::TYPE_UNEXPECTED => "A key type was specified when the command can't be given one.",
        model::PRECONDITION => "A precondition failed, such as the key not existing.",
        model::NONEXISTENT => "The specified key does not exist.",
        model::TYPE_REQUIRED => "A key type was required but one was not specified.",
        _ => "A key type was provided that isn't supported by the command.",
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn printed(v: &Val) -> Print {
    match v {
        Val::Bytes(b) => Print::Text(vec![lossy(b)]),
        Val::Bool(b) => Print::Text(vec![b.to_string()]),
        Val::Float(f, exact) => {
            let mut texts = vec![f.to_string()];
            if !exact && *f == 0.0 {
                texts = vec!["0".into(), "-0".into()];
            }
            Print::Text(texts)
        }
        Val::Int(i) => Print::Text(vec![i.to_string()]),
        Val::Str(s) => Print::Text(vec![s.clone()]),
        Val::List(l) => Print::Text(vec![l.iter().map(|i| lossy(i)).collect::<Vec<_>>().join("\n")]),
        Val::Set(l) => Print::Lines(l.iter().map(|i| lossy(i)).collect::<Vec<_>>().join("\n")),
        Val::Map(m) => Print::Lines(m.iter().map(|(k, v)| format!("{}={}", lossy(k), lossy(v))).collect::<Vec<_>>().join("\n")),
    }
}

/// What a line should print, performing it on the model. Nothing if it isn't specified.
fn expected(m: &mut Model, line: &str) -> Option<Print> {
    let mut req = match spelled(line) {
        Ok(r) => r,
        Err(_) => return Some(Print::Parse),
    };
    match req.cmd {
        100 => {
            let text = lossy(&req.args.join(&b' '));
            return Some(Print::Text(vec![text]));
        }
        101 if req.kt.is_none() => return Some(Print::Stats),
        // A map of no pairs can't be sent.
        10 if req.kt.is_none() && req.args.len() == 2 && m.map.get(&req.args[0]).map_or(false, |v| v.kind() == 6) => return None,
        // A line's text is appended, and not each argument that's a string on its own.
        20 if req.args.len() > 2 => {
            let kind = req.kt.or_else(|| m.map.get(&req.args[0]).map(Val::kind)).unwrap_or(0);
            if kind == 0 || kind == 4 {
                let all = req.args[1..].concat();
                req.args.truncate(1);
                req.args.push(all);
            }
        }
        _ => {}
    }
    let before = m.clone();
    let out = m.exec(&req);
    Some(match out {
        Out::Val(Val::Int(k)) if req.cmd == 16 => Print::Text(vec![short_name(k as u8).into()]),
        Out::Val(v) => printed(&v),
        Out::Unordered(l) => Print::Lines(l.iter().map(|i| lossy(i)).collect::<Vec<_>>().join("\n")),
        Out::Err(e) => {
            let mut errors = vec![e];
            let mut texts = Vec::new();
            // When several things are wrong, any of them is reported.
            if req.args.iter().any(|k| model::reserved(k)) {
                for keys in [1, 2, 255] {
                    let mut other = req.clone();
                    for k in other.args.iter_mut().take(keys).filter(|k| model::reserved(k)) {
                        *k = b"a key that doesn't exist".to_vec();
                    }
                    if let Out::Err(e) = before.clone().exec(&other) {
                        errors.push(e);
                    }
                }
            }
            if req.kt.is_some() {
                // Without the type, or with one that's right, something else may be wrong.
                for kt in [None, Some(0), Some(2), Some(3), Some(6)] {
                    let other = Req { kt, ..req.clone() };
                    if let Out::Err(e) = before.clone().exec(&other) {
                        if matches!(e, model::ARG | model::KEY_UNSPECIFIED | model::NONEXISTENT | model::PRECONDITION) && kt.is_none() {
                            errors.push(e);
                        }
                    }
                }
                if matches!(e, model::TYPE_DIFFERENT | model::TYPE_INVALID | model::TYPE_UNEXPECTED) {
                    let fits = match req.cmd {
                        12 | 13 | 15 | 16 | 101 => vec![model::TYPE_UNEXPECTED],
                        20 | 21 | 22 => vec![model::TYPE_DIFFERENT, model::TYPE_INVALID],
                        _ => vec![],
                    };
                    errors.extend(fits);
                }
            }
            match req.cmd {
                13 | 14 if req.args.is_empty() => {
                    texts.push("A minimum of at least one key or more is required.");
                    errors.push(model::KEY_UNSPECIFIED);
                    errors.push(model::ARG);
                    if req.cmd == 14 && req.kt.is_none() {
                        errors.push(model::TYPE_REQUIRED);
                    }
                }
                15 if req.args.is_empty() => texts.push("The source key name is required."),
                15 if req.args.len() == 1 => texts.push("The destination key name is required."),
                2 | 3 | 10 | 20 if req.args.is_empty() => errors.push(model::KEY_UNSPECIFIED),
                _ => {}
            }
            Print::Errors(errors, texts)
        }
    })
}

fn sorted(text: &str) -> Vec<&str> {
    let mut l: Vec<&str> = text.split('\n').collect();
    l.sort_unstable();
    l
}

fn is_stats(text: &str) -> Option<[i64; 4]> {
    let lines: Vec<&str> = text.split('\n').collect();
    let names = ["Commands successful: ", "Commands errored: ", "Sessions started: ", "Sessions ended: "];
    if lines.len() != 4 {
        return None;
    }
    let mut n = [0; 4];
    for i in 0..4 {
        n[i] = lines[i].strip_prefix(names[i])?.parse().ok()?;
    }
    Some(n)
}

fn fits(want: &Print, got: &str) -> bool {
    match want {
        Print::Text(t) => t.iter().any(|t| t == got),
        Print::Lines(t) => sorted(t) == sorted(got),
        Print::Errors(e, t) => e.iter().any(|e| messages(*e) == got) || t.contains(&got),
        Print::Parse => got.starts_with("failed to parse input: ") && got.len() > 23,
        Print::Stats => is_stats(got).is_some(),
    }
}

fn classify(cx: &mut Cx, want: &Print) {
    cx.class(match want {
        Print::Text(_) => "text",
        Print::Lines(_) => "lines in any order",
        Print::Errors(..) => "error message",
        Print::Parse => "line that's rejected",
        Print::Stats => "stats",
    });
}

/// Lines and what they should print.
fn script(s: &mut Src, m: &mut Model, n: usize, newlines: bool) -> Vec<(String, Print)> {
    let keys = words(s);
    let mut lines = Vec::new();
    for _ in 0..n {
        let mut l = line(s, m, &keys);
        if !newlines {
            l = l.replace('\n', "|").replace('\r', "|").trim_end().to_string();
        }
        if let Some(want) = expected(m, &l) {
            lines.push((l, want));
        }
    }
    lines
}

fn memory_lines(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let client: Client<MemoryBackend> = Client::memory();
    let mut m = Model::default();
    let n = gen::count(s, (3, 25), 100);
    let lines = script(s, &mut m, n, true);
    let (mut ok, mut bad) = (0, 0);
    let mut keys: BTreeSet<Vec<u8>> = BTreeSet::new();
    for (i, (line, want)) in lines.iter().enumerate() {
        if let Ok(req) = spelled(line) {
            keys.extend(req.args.into_iter().take(3).filter(|k| !k.is_empty()));
        }
        let before = match want {
            Print::Stats => match memory::do_call(&client, &Call::Stats)? {
                crate::call::Got::Stats(n) => Some(n),
                other => return Err(fail("stats", other.show())),
            },
            _ => None,
        };
        let got = catch(|| memory::now(hop_cli::process(&client, line)).map(|r| r.map(|t| t.into_owned()).map_err(|e| (matches!(e, ProcessError::ParsingInput { .. }), e.to_string()))))
            .map_err(|f| Failure { sig: "panic".into(), msg: format!("line {} ({:?}) panics: {}", i, line, f.msg), harness: f.harness })?
            .ok_or_else(|| fail("pending", format!("line {} ({:?}) never completes", i, line)))?;
        cx.trace(|| format!("{:?} -> {:?}", line, got));
        let fine = match (&got, want) {
            (Err((true, text)), Print::Parse) => fits(want, text),
            (Ok(_), Print::Parse) | (Err(_), _) => false,
            (Ok(text), _) => fits(want, text),
        };
        ensure!(fine, "printed", "line {} ({:?}) prints {:?} but it should be {:?}", i, line, got, want);
        if let (Some(b), Ok(text)) = (before, &got) {
            let want = [b[1] + 1, b[0], b[3], b[2]];
            ensure!(is_stats(text) == Some(want), "stats", "line {} prints {:?} but the counters are {:?}", i, text, want);
        }
        classify(cx, want);
        match want {
            Print::Errors(..) | Print::Parse => bad += 1,
            _ => ok += 1,
        }
    }
    // The data afterwards.
    keys.extend(m.map.keys().cloned());
    for key in keys {
        let c = Call::Get { key, kt: None, alias: false };
        let want = c.want(&mut m);
        let got = memory::do_call(&client, &c)?;
        ensure!(want.matches(&got), "effect", "after the lines {} gives {} but it should be {}", c.show(), got.show(), want.show());
    }
    cx.nontrivial = ok >= 3 && bad >= 1;
    Ok(())
}

fn server_lines(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let mut server = Server::start(None)?;
    let mut rt = linked::runtime(0)?;
    let client: Client<ServerBackend> = linked::connect(&mut rt, server.addr)?;
    let mut m = Model::default();
    let n = s.range(3, 25);
    let lines = script(s, &mut m, n, true);
    let (mut ok, mut bad) = (0, 0);
    for (i, (line, want)) in lines.iter().enumerate() {
        let got = catch(|| {
            rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), hop_cli::process(&client, line)).await })
        })
        .map_err(|f| Failure { sig: "panic".into(), msg: format!("line {} ({:?}) panics: {}", i, line, f.msg), harness: f.harness })?
        .map_err(|_| fail("pending", format!("line {} ({:?}) takes more than 20 s", i, line)))?;
        cx.trace(|| format!("{:?} -> {:?}", line, got));
        let fine = match (&got, want) {
            (Err(e @ ProcessError::ParsingInput { .. }), Print::Parse) => fits(want, &e.to_string()),
            (Err(ProcessError::Backend { source: ServerError::Dispatching { reason } }), Print::Errors(errors, _)) => errors.contains(&error_id(*reason)),
            (Ok(_), Print::Parse) | (Err(_), _) => false,
            (Ok(text), _) => fits(want, text),
        };
        ensure!(fine, "printed", "line {} ({:?}) on a server prints {:?} but it should be {:?}", i, line, got, want);
        classify(cx, want);
        match want {
            Print::Errors(..) | Print::Parse => bad += 1,
            _ => ok += 1,
        }
    }
    for key in m.map.keys().cloned().collect::<Vec<_>>() {
        let c = Call::Get { key, kt: None, alias: false };
        let want: Want = c.want(&mut m);
        let got = linked::do_call(&mut rt, &client, &c)?;
        ensure!(want.matches(&got), "effect", "after the lines {} gives {} but it should be {}", c.show(), got.show(), want.show());
    }
    cx.class("on a server");
    cx.nontrivial = ok >= 3 && bad >= 1;
    server.alive()
}

/// The program itself, with lines on its input.
fn program(s: &mut Src, cx: &mut Cx) -> CaseResult {
    let exe = std::env::var("HOP_CLI").map_err(|_| harness_error("HOP_CLI isn't set"))?;
    let mut m = Model::default();
    let n = s.range(0, 25);
    let lines = script(s, &mut m, n, false);
    let mut input = String::new();
    let mut ended = true;
    for (i, (l, _)) in lines.iter().enumerate() {
        input.push_str(l);
        cx.trace(|| format!("{:?}", l));
        match s.weighted(&[90, 4, 4, 2]) {
            // The last line needn't end.
            3 if i + 1 == lines.len() => ended = false,
            1 => input.push_str("\r\n"),
            2 => input.push_str("  \n"),
            _ => input.push('\n'),
        }
    }
    // What's written at a time.
    let chunk = match s.below(3) {
        0 => input.len().max(1),
        1 => s.range(1, 200),
        _ => s.range(1, 20),
    };
    // A last line that's nothing isn't a line.
    let mut lines = lines;
    if lines.last().map_or(false, |l| l.0.is_empty()) && !ended {
        lines.pop();
    }
    let mut child = Command::new(exe)
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| harness_error(format!("the command line can't be started: {}", e)))?;
    let mut stdin = child.stdin.take().expect("piped");
    let mut stdout = child.stdout.take().expect("piped");
    let mut stderr = child.stderr.take().expect("piped");
    let reader = thread::spawn(move || {
        let mut out = Vec::new();
        let _ = stdout.read_to_end(&mut out);
        out
    });
    let errors = thread::spawn(move || {
        let mut out = Vec::new();
        let _ = stderr.read_to_end(&mut out);
        out
    });
    for piece in input.as_bytes().chunks(chunk) {
        if stdin.write_all(piece).is_err() {
            break;
        }
    }
    drop(stdin);
    let end = Instant::now() + Duration::from_secs(20);
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            _ if Instant::now() > end => {
                let _ = child.kill();
                let _ = child.wait();
                let out = reader.join().unwrap_or_default();
                return Err(fail("no-end", format!("the program doesn't end after the end of its input; it printed {} bytes: {}", out.len(), show(&out[..out.len().min(300)]))));
            }
            _ => thread::sleep(Duration::from_micros(200)),
        }
    };
    let out = reader.join().map_err(|_| harness_error("reading panicked"))?;
    let err = errors.join().map_err(|_| harness_error("reading panicked"))?;
    let text = String::from_utf8_lossy(&out).into_owned();
    let mut rest = &text[..];
    for (i, (line, want)) in lines.iter().enumerate() {
        let ends = |rest: &str| fail("printed", format!("line {} ({:?}) should print {:?} but what follows is {:?} (exit: {}, {})", i, line, want, rest.chars().take(200).collect::<String>(), status, show(&err)));
        rest = rest.strip_prefix("> ").ok_or_else(|| ends(rest))?;
        // What's printed up to where the next prompt is.
        let found = match want {
            Print::Text(t) => t.iter().map(|t| t.len()).find(|n| rest.get(..*n).map_or(false, |r| fits(want, r)) && rest[*n..].starts_with("\n> ")),
            Print::Lines(t) => Some(t.len()).filter(|n| rest.get(..*n).map_or(false, |r| fits(want, r))),
            _ => rest.find("\n> ").filter(|n| fits(want, &rest[..*n])),
        };
        let n = found.ok_or_else(|| ends(rest))?;
        rest = rest[n..].strip_prefix('\n').ok_or_else(|| ends(rest))?;
        classify(cx, want);
    }
    ensure!(rest == "> ", "printed", "after all lines what follows is {:?} but it should be a prompt", rest);
    ensure!(status.success(), "exit", "the program ends with {}: {}", status, show(&err));
    cx.class("the program");
    cx.nontrivial = lines.len() >= 3;
    Ok(())
}

fn process(s: &mut Src, cx: &mut Cx) -> CaseResult {
    match s.weighted(&[88, 4, 8]) {
        0 => memory_lines(s, cx),
        1 => server_lines(s, cx),
        _ => program(s, cx),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            rule: "a line spells a request, and another one does or is rejected",
            assumptions: &["numbers are what the standard library parses as such"],
            quick: 2_000_000,
            run: parse,
            fixed: Some(parse_fixed),
            ..Check::default()
        },
        Check {
            id: "C23",
            rule: "at least three lines print a result and at least one an error; of the program, at least three lines are given",
            assumptions: &[
                "when a line has several things wrong with it, any of them is reported",
                "lines of maps and sets are printed in any order",
            ],
            quick: 150_000,
            run: process,
            case_limit: 100,
            ..Check::default()
        },
    ]
}
