//! A server process, and connections to it.

use pbt::{
    codec::{self, Resp},
    fail, run::harness_error, Failure,
};
use std::{
    ffi::OsString,
    io::{ErrorKind, Read, Write},
    net::{Ipv4Addr, Shutdown, SocketAddr, TcpStream},
    os::unix::process::CommandExt,
    process::{Child, Command, ExitStatus, Stdio},
    sync::{
        atomic::{AtomicU32, Ordering},
        OnceLock,
    },
    thread,
    time::{Duration, Instant},
};

/// How long anything can take that takes milliseconds.
pub const PATIENCE: Duration = Duration::from_secs(20);

static COUNTER: AtomicU32 = AtomicU32::new(0);

/// An address of the loopback network that nothing else uses.
pub fn address() -> SocketAddr {
    let n = COUNTER.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    let ip = Ipv4Addr::new(127, 2 + (pid >> 16) as u8 % 200, (pid >> 8) as u8, pid as u8);
    SocketAddr::new(ip.into(), (10_000 + n % 20_000) as u16)
}

/// Whether the address is one that can be bound. This doesn't listen there: a process that's being started meanwhile
/// would have the listener until it's executed.
pub fn can_bind(addr: SocketAddr) -> std::io::Result<()> {
    let SocketAddr::V4(addr) = addr else { return Ok(()) };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let one: libc::c_int = 1;
        let size = std::mem::size_of::<libc::c_int>() as libc::socklen_t;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, (&one as *const libc::c_int).cast(), size);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as libc::sa_family_t;
        sa.sin_port = addr.port().to_be();
        sa.sin_addr.s_addr = u32::from_ne_bytes(addr.ip().octets());
        let size = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        let r = libc::bind(fd, (&sa as *const libc::sockaddr_in).cast(), size);
        let e = std::io::Error::last_os_error();
        libc::close(fd);
        if r == 0 {
            Ok(())
        } else {
            Err(e)
        }
    }
}

/// Start the program with nothing but the given environment.
pub fn spawn(env: &[(&str, OsString)], files: Option<u64>) -> Result<Child, Failure> {
    let exe = std::env::var("HOP_SERVER").map_err(|_| harness_error("HOP_SERVER isn't set"))?;
    let mut cmd = Command::new(&exe);
    cmd.env_clear()
        .env("LD_PRELOAD", std::env::var_os("LD_PRELOAD").unwrap_or_default())
        .envs(env.iter().map(|(k, v)| (k, v)))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = files {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            Ok(())
        });
    }
    cmd.spawn().map_err(|e| harness_error(format!("{}: {}", exe, e)))
}

pub struct Server {
    child: Child,
    pub addr: SocketAddr,
}

impl Server {
    /// A server that has been started otherwise.
    pub fn adopt(child: Child, addr: SocketAddr) -> Server {
        Server { child, addr }
    }

    /// Whether and how it has ended.
    pub fn ended(&mut self) -> Option<ExitStatus> {
        self.child.try_wait().ok().flatten()
    }

    /// Start a server, optionally with a limit on the number of open files.
    pub fn start(files: Option<u64>) -> Result<Server, Failure> {
        let mut last = String::new();
        let mut attempts = 0;
        for _ in 0..20 {
            let addr = address();
            // Whatever keeps the server from listening there isn't that it can't be done.
            if let Err(e) = can_bind(addr) {
                last = e.to_string();
                continue;
            }
            attempts += 1;
            if attempts > 3 {
                return Err(fail("start", format!("the server doesn't serve at the address that it's given: {}", last)));
            }
            let env = [("HOST", addr.ip().to_string().into()), ("PORT", addr.port().to_string().into())];
            let mut server = Server { child: spawn(&env, files)?, addr };
            let end = Instant::now() + PATIENCE;
            let mut wait = 200;
            last.clear();
            while Instant::now() < end {
                if let Ok(Some(status)) = server.child.try_wait() {
                    last = format!("the server ends when it's started: {}", status);
                    break;
                }
                match TcpStream::connect_timeout(&addr, PATIENCE) {
                    Ok(_) => return Ok(server),
                    Err(e) => last = e.to_string(),
                }
                thread::sleep(Duration::from_micros(wait));
                wait = (wait * 2).min(20_000);
            }
        }
        Err(harness_error(format!("the server can't be started: {}", last)))
    }

    pub fn alive(&mut self) -> Result<(), Failure> {
        match self.child.try_wait() {
            Ok(Some(status)) => Err(fail("server-ends", format!("the server has ended: {}", status))),
            _ => Ok(()),
        }
    }

    /// How many sockets the server has open.
    fn sockets(&self) -> usize {
        let Ok(dir) = std::fs::read_dir(format!("/proc/{}/fd", self.child.id())) else { return 0 };
        dir.flatten().filter(|f| std::fs::read_link(f.path()).map_or(false, |to| to.to_string_lossy().starts_with("socket:"))).count()
    }

    /// That the server has closed all of the connections, once all clients have.
    pub fn deserted(&mut self) -> Result<(), Failure> {
        static IDLE: OnceLock<usize> = OnceLock::new();
        if IDLE.get().is_none() {
            // What a server has that no one is connected to. The connection it was started with is soon gone.
            let server = Server::start(None)?;
            let mut least = usize::MAX;
            for _ in 0..20 {
                least = least.min(server.sockets());
                thread::sleep(Duration::from_millis(10));
            }
            let _ = IDLE.set(least);
        }
        let idle = IDLE.get().copied().unwrap_or(1);
        let end = Instant::now() + PATIENCE;
        let mut wait = 50;
        loop {
            self.alive()?;
            let n = self.sockets();
            if n <= idle {
                return Ok(());
            }
            if Instant::now() > end {
                return Err(fail("leak", format!("the server still has {} sockets open after all connections have ended", n - idle)));
            }
            thread::sleep(Duration::from_micros(wait));
            wait = (wait * 2).min(20_000);
        }
    }

    pub fn connect(&mut self) -> Result<Conn, Failure> {
        let end = Instant::now() + PATIENCE;
        loop {
            self.alive()?;
            match TcpStream::connect_timeout(&self.addr, PATIENCE) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let _ = s.set_read_timeout(Some(PATIENCE));
                    let _ = s.set_write_timeout(Some(PATIENCE));
                    return Ok(Conn { stream: s, buf: Vec::new() });
                }
                Err(e) if Instant::now() > end => {
                    return Err(fail("refused-connection", format!("connecting to the server fails: {}", e)))
                }
                Err(_) => thread::sleep(Duration::from_millis(5)),
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Conn {
    pub stream: TcpStream,
    pub buf: Vec<u8>,
}

impl Conn {
    pub fn send(&mut self, bytes: &[u8]) -> Result<(), Failure> {
        self.stream.write_all(bytes).map_err(|e| fail("write", format!("writing to the server fails: {}", e)))
    }

    /// The next response.
    pub fn response(&mut self) -> Result<Resp, Failure> {
        loop {
            match codec::decode_resp(&self.buf) {
                Some(Ok((r, n))) => {
                    self.buf.drain(..n);
                    return Ok(r);
                }
                Some(Err(e)) => {
                    return Err(fail("malformed", format!("the server sends {}, which is malformed: {}", pbt::show(&self.buf), e)))
                }
                None => {}
            }
            let mut chunk = [0; 65536];
            match self.stream.read(&mut chunk) {
                Ok(0) => {
                    return Err(fail(
                        "closed",
                        format!("the server closes the connection instead of responding (after {} bytes of a response)", self.buf.len()),
                    ))
                }
                Ok(n) => self.buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {
                    return Err(fail(
                        "no-response",
                        format!("the server doesn't respond within {} s (it sent {} bytes of a response)", PATIENCE.as_secs(), self.buf.len()),
                    ))
                }
                Err(e) => return Err(fail("read", format!("reading from the server fails: {}", e))),
            }
        }
    }

    /// Stop sending.
    pub fn finish(&mut self) {
        let _ = self.stream.shutdown(Shutdown::Write);
    }

    /// That there's nothing but the end.
    pub fn end(&mut self) -> Result<(), Failure> {
        if !self.buf.is_empty() {
            return Err(fail("extra", format!("the server sends {} too many bytes: {}", self.buf.len(), pbt::show(&self.buf))));
        }
        let mut chunk = [0; 256];
        match self.stream.read(&mut chunk) {
            Ok(0) => Ok(()),
            Ok(n) => Err(fail("extra", format!("the server sends more than what was asked for: {}", pbt::show(&chunk[..n])))),
            Err(e) if e.kind() == ErrorKind::ConnectionReset => Ok(()),
            Err(e) => Err(fail("no-end", format!("the server doesn't end the connection after the client stopped sending: {}", e))),
        }
    }

    /// End the connection with a reset.
    pub fn reset(self) {
        use std::os::unix::io::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                self.stream.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }
}
