//! The simulated machine: real burn_fm processes whose every contact with the
//! outside is a request answered here, one at a time, in an order, at a time
//! and with an outcome decided by the seed and the fault list alone.

use crate::prng::{hash_bytes, mix, Rng};
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::Duration;

pub const OPS: [&str; 35] = [
    "hello", "open", "read", "write", "close", "fstat", "stat", "lseek", "ftruncate", "fsync", "rename", "unlink",
    "mkdir", "rmdir", "link", "symlink", "readlink", "access", "getcwd", "chdir", "readdir", "pread", "pwrite",
    "chmod", "truncate", "clock", "random", "getpid", "sleep", "console", "dup", "realpath", "lock", "times", "unsupported",
];
pub mod op {
    pub const HELLO: u8 = 0;
    pub const OPEN: u8 = 1;
    pub const READ: u8 = 2;
    pub const WRITE: u8 = 3;
    pub const CLOSE: u8 = 4;
    pub const FSTAT: u8 = 5;
    pub const STAT: u8 = 6;
    pub const LSEEK: u8 = 7;
    pub const FTRUNCATE: u8 = 8;
    pub const FSYNC: u8 = 9;
    pub const RENAME: u8 = 10;
    pub const UNLINK: u8 = 11;
    pub const MKDIR: u8 = 12;
    pub const RMDIR: u8 = 13;
    pub const LINK: u8 = 14;
    pub const SYMLINK: u8 = 15;
    pub const READLINK: u8 = 16;
    pub const ACCESS: u8 = 17;
    pub const GETCWD: u8 = 18;
    pub const CHDIR: u8 = 19;
    pub const READDIR: u8 = 20;
    pub const PREAD: u8 = 21;
    pub const PWRITE: u8 = 22;
    pub const CHMOD: u8 = 23;
    pub const TRUNCATE: u8 = 24;
    pub const CLOCK: u8 = 25;
    pub const RANDOM: u8 = 26;
    pub const GETPID: u8 = 27;
    pub const SLEEP: u8 = 28;
    pub const CONSOLE: u8 = 29;
    pub const DUP: u8 = 30;
    pub const REALPATH: u8 = 31;
    pub const LOCK: u8 = 32;
    pub const TIMES: u8 = 33;
}

const O_CREAT: i64 = 0o100;
const O_EXCL: i64 = 0o200;
const O_TRUNC: i64 = 0o1000;
const O_APPEND: i64 = 0o2000;
const O_DIRECTORY: i64 = 0o200000;
const O_NOFOLLOW: i64 = 0o400000;
pub const EINTR: i32 = 4;
const EWOULDBLOCK: i32 = 11;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProcSpec {
    pub args: Vec<String>,
}

/// How transfers are split and interrupted, in percent of the requests.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Frag {
    pub short_read: u8,
    pub read_max: u32,
    pub short_write: u8,
    pub write_max: u32,
    pub interrupt: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    /// Decides randomness given to processes, process ids, and which transfers are split.
    pub seed: u64,
    pub clock_s: i64,
    pub tick_ns: i64,
    pub frag: Frag,
    /// Console writes are requests of their own, so that they can fail or be a crash point.
    pub console: bool,
    pub memory_mb: u32,
    /// Content of /etc/localtime: 0 absent, 1 UTC, 2 a zone with an offset, 3 damaged; 4: TZ names a zone.
    pub zone: u8,
}
impl Env {
    pub fn plain(seed: u64) -> Env {
        Env { seed, clock_s: 1_700_000_000, tick_ns: 1000, frag: Frag::default(), console: false, memory_mb: 1024, zone: 1 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub proc: usize,
    /// Number of the request of that process, from 0.
    pub at: u32,
    pub kind: FaultKind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// The request fails with this error number.
    Errno(i32),
    /// At most this many bytes are transferred.
    Short(u32),
    /// The process is killed: before the request takes effect, after it, or after part of it.
    Crash(When),
    /// The machine loses power at this request.
    Power(When, u64),
    /// The wall clock jumps by this many seconds just before the request.
    Jump(i64),
    /// From here on only this many bytes fit on the disk.
    Space(u64),
    /// A file write succeeds from here on only up to this many bytes, then fails with the error.
    WriteBudget(u64, i32),
    /// The process is not scheduled for that many steps of the others.
    Stall(u32),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    Before,
    After,
    Part(u32),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub proc: usize,
    pub at: u32,
    pub op: u8,
    pub path: String,
    pub arg: i64,
    pub ret: i64,
    pub err: i32,
    /// Wall clock after the request, nanoseconds.
    pub clock: i128,
    pub fault: bool,
}

#[derive(Clone, Debug, Default)]
pub struct ProcResult {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// Ended by an injected crash or power loss.
    pub crashed: bool,
    /// Ended by the simulator for exceeding the request or output limit, or the time limit.
    pub runaway: Option<String>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub requests: u32,
}
impl ProcResult {
    pub fn describe(&self) -> String {
        if self.crashed {
            return "crashed (injected)".into();
        }
        if let Some(r) = &self.runaway {
            return format!("runaway: {r}");
        }
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("killed by signal {s}"),
            _ => "unknown".into(),
        }
    }
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
}

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub procs: Vec<ProcResult>,
    pub trace: Vec<Ev>,
    /// Fingerprint of everything that happened, for determinism and for counting distinct executions.
    pub hash: u64,
    /// Order of (process, operation) pairs only.
    pub interleaving: u64,
    pub fired: BTreeMap<String, u64>,
    pub sim_ns: i128,
    /// First broken invariant, with the step at which it broke.
    pub invariant: Option<String>,
    pub power_lost: bool,
    /// (request index in the trace, process, bytes so far) of console output, for ordering against the clock.
    pub console: Vec<(usize, usize, usize)>,
}

struct Fd {
    ino: usize,
    flags: i64,
    path: String,
    open: Rc<Open>,
    /// Names in the directory when the listing began.
    listing: Vec<String>,
}

/// An open file description, shared by duplicated descriptors.
#[derive(Default)]
struct Open {
    off: Cell<usize>,
    /// 0: not locked, 1: shared, 2: exclusive.
    lock: Cell<u8>,
}

struct Proc {
    child: Child,
    sock: UnixStream,
    pending: Option<Req>,
    live: bool,
    fds: BTreeMap<i64, Fd>,
    cwd: String,
    pid: i64,
    n: u32,
    /// Bytes written so far.
    wrote: u64,
    rnd: Rng,
    write_budget: Option<(u64, i32)>,
    stall: u32,
    res: ProcResult,
}

struct Req {
    op: u8,
    a: i64,
    b: i64,
    c: i64,
    payload: Vec<u8>,
}

#[derive(Clone)]
pub struct Machine {
    pub subject: PathBuf,
    pub shim: PathBuf,
    pub empty: PathBuf,
}

pub const WD: &str = "/sim/w";
const MAX_OUT: usize = 8 << 20;
const MAX_REQ: u32 = 20_000;

pub fn base_vfs(env: &Env) -> Vfs {
    let mut v = Vfs::new();
    v.now = (env.clock_s, 0);
    v.add_dir(WD);
    v.add_dir("/tmp");
    v.add_dir("/usr/share/zoneinfo");
    v.add_dir("/dev");
    v.add_device("/dev/urandom", 'r');
    v.add_device("/dev/random", 'r');
    v.add_device("/dev/null", 'n');
    match env.zone {
        1 => v.add_file("/etc/localtime", &tzif(0, "UTC")),
        2 => v.add_file("/etc/localtime", &tzif(19800, "IST")),
        3 => v.add_file("/etc/localtime", b"TZif2 not a zone"),
        _ => v.add_dir("/etc"),
    }
    v
}

/// A time zone file with one fixed offset.
fn tzif(off: i32, name: &str) -> Vec<u8> {
    let mut o = vec![];
    for v2 in [false, true] {
        o.extend_from_slice(b"TZif2");
        o.extend_from_slice(&[0; 15]);
        for n in [0u32, 0, 0, 0, 1, name.len() as u32 + 1] {
            o.extend_from_slice(&n.to_be_bytes());
        }
        o.extend_from_slice(&off.to_be_bytes());
        o.extend_from_slice(&[0, 0]);
        o.extend_from_slice(name.as_bytes());
        o.push(0);
        if v2 {
            o.extend_from_slice(format!("\n<{}>{}\n", name, -off / 3600).as_bytes());
        }
    }
    o
}

/// The same command line, written in another of the ways the option parser
/// allows: options of different kinds in any order, values attached or not.
fn spelled(args: &[String], r: &mut Rng) -> Vec<String> {
    let mut lists: Vec<Vec<Vec<String>>> = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        let item = if a.starts_with("--") {
            vec![a.clone()]
        } else if matches!(a.as_str(), "-c" | "-d" | "-t") && i + 1 < args.len() && !args[i + 1].is_empty() && !args[i + 1].starts_with(['-', '=']) {
            i += 1;
            vec![a.clone(), args[i].clone()]
        } else {
            return args.to_vec();
        };
        i += 1;
        match lists.iter_mut().find(|l| l[0][0] == item[0]) {
            Some(l) => l.push(item),
            None => lists.push(vec![item]),
        }
    }
    if r.chance(1, 2) {
        return args.to_vec();
    }
    let mut out = vec![];
    let detours = r.chance(1, 3);
    while !lists.is_empty() {
        let k = r.below(lists.len());
        let mut item = lists[k].remove(0);
        if detours && item.len() == 2 && r.chance(2, 3) {
            item[1] = detour(&item[1], r);
        }
        if lists[k].is_empty() {
            lists.remove(k);
        }
        match (item.len(), r.below(4)) {
            (2, 0) => out.push(format!("{}{}", item[0], item[1])),
            (2, 1) => out.push(format!("{}={}", item[0], item[1])),
            _ => out.extend(item),
        }
    }
    out
}

/// Another path to the same file.
fn detour(path: &str, r: &mut Rng) -> String {
    let rest = match path.strip_prefix("/sim/w/") {
        Some(p) if !p.starts_with('/') => p,
        _ if path.starts_with('/') || path.starts_with("..") => return path.into(),
        _ => path,
    };
    format!("{}{rest}", r.pick(&["./", "/sim/w/", ".//", "././", "../w/", "/sim/./w/", "//sim/w//", "inspect_output/../"]))
}

pub type Watch<'a> = &'a mut dyn FnMut(&Vfs) -> Option<String>;

impl Machine {
    fn spawn(&self, spec: &ProcSpec, env: &Env, i: usize, bytes: usize) -> Proc {
        let (ours, theirs) = UnixStream::pair().expect("socketpair");
        ours.set_read_timeout(Some(Duration::from_secs(180))).unwrap();
        let mut c = Command::new(&self.subject);
        c.args(spelled(&spec.args, &mut Rng::new(mix(&[env.seed, 23, i as u64]))))
            .env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("SIM_ON", "1")
            .env("SIM_AS_MB", env.memory_mb.to_string())
            /* Time in proportion to what there is to read. */
            .env("SIM_CPU_S", (6 + bytes / 400_000).to_string())
            .current_dir(&self.empty)
            .stdin(Stdio::from(OwnedFd::from(theirs)))
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        if env.console {
            c.env("SIM_CONSOLE", "1");
        }
        if env.zone == 4 {
            c.env("TZ", "IST-5:30");
        }
        c.env("SIM_MACHINE", (mix(&[env.seed, 29, i as u64]) | 2).to_string());
        /* Whose machine it is. Nothing may depend on it. */
        let mut r = Rng::new(mix(&[env.seed, 17]));
        for (name, values) in [
            ("HOME", &["/root", "/home/u", "/sim/w"][..]),
            ("USER", &["root", "Admin", "ü"]),
            ("LOGNAME", &["root", "u"]),
            ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
            ("LC_ALL", &["C", "POSIX", "en_US.UTF-8"]),
            ("TERM", &["xterm", "dumb"]),
            ("PWD", &["/sim/w", "/elsewhere"]),
            ("TMPDIR", &["/tmp", "/sim/w", "/none"]),
            ("PATH", &["/usr/bin", ""]),
            ("HOSTNAME", &["a", "b"]),
            ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
        ] {
            if r.chance(1, 2) {
                c.env(name, *r.pick(values));
            }
        }
        let child = c.spawn().expect("cannot start the program under test");
        Proc {
            child,
            sock: ours,
            pending: None,
            live: true,
            fds: BTreeMap::new(),
            cwd: WD.to_string(),
            pid: 100 + (mix(&[env.seed, 7]) % 10000 * 3 + i as u64) as i64,
            n: 0,
            wrote: 0,
            rnd: Rng::new(mix(&[env.seed, 11, i as u64])),
            write_budget: None,
            stall: 0,
            res: ProcResult::default(),
        }
    }

    /// Reads messages of a process until it waits for an answer or has ended.
    fn advance(&self, p: &mut Proc, console: &mut Vec<(usize, usize, usize)>, at: usize, idx: usize) {
        loop {
            let mut head = [0u8; 32];
            if let Err(e) = p.sock.read_exact(&mut head) {
                let timed_out = matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut);
                if timed_out {
                    p.res.runaway = Some("no progress in 180 s".into());
                    let _ = p.child.kill();
                }
                self.reap(p);
                return;
            }
            let u32at = |i: usize| u32::from_ne_bytes(head[i..i + 4].try_into().unwrap());
            let i64at = |i: usize| i64::from_ne_bytes(head[i..i + 8].try_into().unwrap());
            let (o, len) = (u32at(0), u32at(4) as usize);
            let mut payload = vec![0u8; len];
            if p.sock.read_exact(&mut payload).is_err() {
                let _ = p.child.kill();
                self.reap(p);
                return;
            }
            let req = Req { op: o as u8, a: i64at(8), b: i64at(16), c: i64at(24), payload };
            if req.op == op::CONSOLE && req.c == 0 {
                let out = if req.a == 2 { &mut p.res.stderr } else { &mut p.res.stdout };
                out.extend_from_slice(&req.payload);
                if req.a == 1 {
                    console.push((at, idx, out.len()));
                }
                if p.res.stdout.len() + p.res.stderr.len() > MAX_OUT {
                    p.res.runaway = Some("more than 8 MB of console output".into());
                    let _ = p.child.kill();
                    self.reap(p);
                    return;
                }
                continue;
            }
            p.pending = Some(req);
            return;
        }
    }
    fn reap(&self, p: &mut Proc) {
        p.live = false;
        p.pending = None;
        if let Ok(s) = p.child.wait() {
            p.res.code = s.code();
            p.res.signal = s.signal();
        }
        p.res.requests = p.n;
        p.fds.clear();
    }
    fn kill(&self, p: &mut Proc) {
        if p.live {
            let _ = p.child.kill();
            p.res.crashed = true;
            self.reap(p);
        }
    }

    pub fn run(&self, vfs: &mut Vfs, specs: &[ProcSpec], env: &Env, faults: &[Fault], schedule: &[u8], mut watch: Option<Watch>) -> RunResult {
        let mut r = RunResult::default();
        let start: i128 = env.clock_s as i128 * 1_000_000_000;
        let mut clock = start;
        let mut mono: i128 = 5_000_000_000;
        let bytes: usize = vfs.inodes.iter().map(|i| i.data.len()).sum();
        let mut procs: Vec<Proc> = specs.iter().enumerate().map(|(i, s)| self.spawn(s, env, i, bytes)).collect();
        for i in 0..procs.len() {
            self.advance(&mut procs[i], &mut r.console, 0, i);
        }
        let mut h = 0u64;
        let mut il = 0u64;
        let mut seen = vfs.version;
        let mut step = 0usize;
        let mut by_at: BTreeMap<(usize, u32), Vec<&FaultKind>> = BTreeMap::new();
        for f in faults {
            by_at.entry((f.proc, f.at)).or_default().push(&f.kind);
        }
        loop {
            let ready: Vec<usize> = (0..procs.len()).filter(|i| procs[*i].pending.is_some()).collect();
            if ready.is_empty() {
                break;
            }
            /* A process waiting for a lock takes no step until it can have it. */
            let free: Vec<usize> = ready.iter().copied().filter(|i| procs[*i].pending.as_ref().map_or(true, |q| q.op != op::LOCK || q.b & 4 != 0) || !lock_contended(&procs, *i)).collect();
            let ready = if free.is_empty() { ready } else { free };
            let awake: Vec<usize> = ready.iter().copied().filter(|i| procs[*i].stall == 0).collect();
            for p in procs.iter_mut() {
                p.stall = p.stall.saturating_sub(1);
            }
            let among = if awake.is_empty() { &ready } else { &awake };
            let who = match schedule.get(step) {
                Some(s) => among[*s as usize % among.len()],
                None => among[0],
            };
            step += 1;
            let at = procs[who].n;
            let kinds = by_at.get(&(who, at)).cloned().unwrap_or_default();
            let fired = |name: &str, r: &mut RunResult| *r.fired.entry(name.to_string()).or_insert(0) += 1;
            clock += env.tick_ns as i128;
            mono += env.tick_ns.max(0) as i128;
            if procs[who].pending.as_ref().unwrap().op == op::SLEEP {
                let q = procs[who].pending.as_ref().unwrap();
                let ns = q.a.max(0) as i128 * 1_000_000_000 + q.b.max(0) as i128;
                clock += ns;
                mono += ns;
            }
            let mut errno = None;
            let mut limit = None;
            let mut death: Option<(When, Option<u64>)> = None;
            let o = procs[who].pending.as_ref().unwrap().op;
            let mut injected = false;
            for k in kinds {
                match k {
                    FaultKind::Jump(s) => {
                        clock += *s as i128 * 1_000_000_000;
                        fired(if *s < 0 { "clock_jump_back" } else { "clock_jump_forward" }, &mut r);
                    }
                    FaultKind::Space(n) => {
                        vfs.space = Some(*n);
                        fired("disk_nearly_full", &mut r);
                    }
                    FaultKind::WriteBudget(n, e) => {
                        procs[who].write_budget = Some((*n, *e));
                        fired("write_budget", &mut r);
                    }
                    FaultKind::Stall(n) => {
                        if !procs.iter().enumerate().all(|(i, p)| i == who || !p.live) {
                            procs[who].stall = *n;
                            fired("stall", &mut r);
                        }
                    }
                    FaultKind::Errno(e) => {
                        let dir = o == op::OPEN && procs[who].pending.as_ref().map_or(false, |q| q.a & O_DIRECTORY != 0);
                        if can_fail(o, *e) && !(dir && *e == EINTR) {
                            errno = Some(*e);
                            injected = true;
                            fired(&format!("{}_errno_{}", OPS[o as usize], e), &mut r);
                        }
                    }
                    FaultKind::Short(n) => {
                        if matches!(o, op::READ | op::WRITE | op::PREAD | op::PWRITE | op::CONSOLE) {
                            limit = Some(*n as usize);
                            fired(&format!("short_{}", OPS[o as usize]), &mut r);
                        }
                    }
                    FaultKind::Crash(w) => death = Some((*w, None)),
                    FaultKind::Power(w, c) => death = Some((*w, Some(*c))),
                }
            }
            /* Background splitting and interruption of transfers. */
            let dice = mix(&[env.seed, 23, who as u64, at as u64]);
            if errno.is_none() && limit.is_none() && at < 4000 {
                let f = &env.frag;
                let retried = o != op::OPEN || procs[who].pending.as_ref().map_or(true, |q| q.a & O_DIRECTORY == 0);
                if retried && (dice % 100) < f.interrupt as u64 && matches!(o, op::READ | op::WRITE | op::OPEN | op::FSYNC | op::PREAD | op::PWRITE) {
                    errno = Some(EINTR);
                    fired(&format!("eintr_{}", OPS[o as usize]), &mut r);
                } else if matches!(o, op::READ | op::PREAD) && (dice >> 8) % 100 < f.short_read as u64 {
                    limit = Some(1 + ((dice >> 20) % f.read_max.max(1) as u64) as usize);
                    fired("short_read", &mut r);
                } else if matches!(o, op::WRITE | op::PWRITE | op::CONSOLE) && (dice >> 8) % 100 < f.short_write as u64 {
                    limit = Some(1 + ((dice >> 20) % f.write_max.max(1) as u64) as usize);
                    fired("short_write", &mut r);
                }
            }
            if let Some((w, power)) = death {
                fired(
                    match (w, power.is_some()) {
                        (When::Before, false) => "crash_before",
                        (When::After, false) => "crash_after",
                        (When::Part(_), false) => "crash_torn",
                        (When::Before, true) => "power_before",
                        (When::After, true) => "power_after",
                        (When::Part(_), true) => "power_torn",
                    },
                    &mut r,
                );
                let skip = match w {
                    When::Before => true,
                    When::After => false,
                    When::Part(n) => {
                        limit = Some(n as usize);
                        n == 0 || !matches!(o, op::WRITE | op::PWRITE | op::CONSOLE)
                    }
                };
                if skip {
                    r.trace.push(Ev { proc: who, at, op: o, path: String::new(), arg: 0, ret: 0, err: 0, clock, fault: true });
                    h = mix(&[h, who as u64, o as u64, 0xdead]);
                    if let Some(c) = power {
                        r.power_lost = true;
                        for p in procs.iter_mut() {
                            self.kill(p);
                        }
                        vfs.power_loss(c);
                        break;
                    }
                    self.kill(&mut procs[who]);
                    continue;
                }
            }
            vfs.now = ((clock.div_euclid(1_000_000_000)) as i64, (clock.rem_euclid(1_000_000_000)) as i64);
            let contended = lock_contended(&procs, who);
            let (ret, err, out, path, arg) = {
                let p = &mut procs[who];
                let q = p.pending.take().unwrap();
                serve(vfs, p, &q, env, errno, limit, clock, mono, contended)
            };
            let p = &mut procs[who];
            p.n += 1;
            if ret > 0 && matches!(o, op::WRITE | op::PWRITE | op::CONSOLE) {
                p.wrote += ret as u64;
            }
            h = mix(&[h, who as u64, o as u64, ret as u64, err as u64, hash_bytes(path.as_bytes()), hash_bytes(&out)]);
            il = mix(&[il, who as u64, o as u64]);
            r.trace.push(Ev { proc: who, at, op: o, path, arg, ret, err, clock, fault: injected });
            if o == op::CONSOLE {
                r.console.push((r.trace.len(), who, p.res.stdout.len()));
            }
            if vfs.version != seen {
                seen = vfs.version;
                if r.invariant.is_none() {
                    if let Some(w) = watch.as_mut() {
                        if let Some(m) = w(vfs) {
                            r.invariant = Some(format!("after request {at} ({}) of process {who}: {m}", OPS[o as usize]));
                        }
                    }
                }
            }
            if let Some((_, power)) = death {
                if let Some(c) = power {
                    r.power_lost = true;
                    for p in procs.iter_mut() {
                        self.kill(p);
                    }
                    vfs.power_loss(c);
                    break;
                }
                self.kill(&mut procs[who]);
                continue;
            }
            /* Even byte by byte everything can be read and written in time. */
            let enough = MAX_REQ as u64 + 2 * bytes.min(1 << 20) as u64 + (bytes / 256) as u64 + p.wrote.min(MAX_OUT as u64);
            if p.n as u64 > enough || p.res.stdout.len() > MAX_OUT {
                p.res.runaway = Some("too many requests or too much output".into());
                let _ = p.child.kill();
                self.reap(p);
                continue;
            }
            let mut msg = Vec::with_capacity(16 + out.len());
            msg.extend_from_slice(&ret.to_ne_bytes());
            msg.extend_from_slice(&err.to_ne_bytes());
            msg.extend_from_slice(&(out.len() as u32).to_ne_bytes());
            msg.extend_from_slice(&out);
            if p.sock.write_all(&msg).is_err() {
                self.reap(p);
                continue;
            }
            let tl = r.trace.len();
            self.advance(&mut procs[who], &mut r.console, tl, who);
        }
        r.sim_ns = clock - start;
        for p in procs.iter_mut() {
            self.kill(p);
            h = mix(&[h, p.res.code.unwrap_or(-1) as u64, p.res.signal.unwrap_or(-1) as u64, hash_bytes(&p.res.stdout)]);
            r.procs.push(std::mem::take(&mut p.res));
        }
        for (k, v) in vfs.snapshot() {
            h = mix(&[h, hash_bytes(k.as_bytes()), hash_bytes(&v)]);
        }
        r.hash = h;
        r.interleaving = il;
        r
    }
}

/// Whether another open file holds a lock that the process's pending request conflicts with.
fn lock_contended(procs: &[Proc], who: usize) -> bool {
    let Some(q) = procs[who].pending.as_ref().filter(|q| q.op == op::LOCK) else { return false };
    let Some(mine) = procs[who].fds.get(&q.a) else { return false };
    let want = q.b & 3;
    want != 0
        && procs.iter().filter(|p| p.live).flat_map(|p| p.fds.values()).any(|f| {
            f.ino == mine.ino && !Rc::ptr_eq(&f.open, &mine.open) && (f.open.lock.get() == 2 || f.open.lock.get() == 1 && want == 2)
        })
}

/// Errors that a real kernel can give for an operation.
fn can_fail(o: u8, e: i32) -> bool {
    match o {
        op::READ | op::WRITE | op::OPEN | op::FSYNC | op::PREAD | op::PWRITE | op::CONSOLE => true,
        op::RENAME | op::UNLINK | op::FTRUNCATE | op::MKDIR | op::LINK | op::SYMLINK | op::RMDIR | op::TRUNCATE | op::LSEEK => e != EINTR,
        /* Metadata queries and access checks fail only with I/O or permission errors. */
        op::STAT | op::FSTAT | op::ACCESS | op::REALPATH => e == EIO || e == EACCES,
        op::CLOSE => e == EIO || e == ENOSPC,
        _ => false,
    }
}

fn cstr(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// A path below an open directory, as the shim spells it.
fn via_fd(p: &Proc, path: String) -> String {
    let Some(rest) = path.strip_prefix("/proc/self/fd/") else { return path };
    let (n, tail) = rest.split_once('/').unwrap_or((rest, ""));
    match n.parse::<i64>().ok().and_then(|n| p.fds.get(&n)) {
        Some(f) if tail.is_empty() => f.path.clone(),
        Some(f) => format!("{}/{tail}", f.path.trim_end_matches('/')),
        None => path,
    }
}

#[allow(clippy::too_many_arguments)]
fn serve(v: &mut Vfs, p: &mut Proc, q: &Req, env: &Env, errno: Option<i32>, limit: Option<usize>, clock: i128, mono: i128, contended: bool) -> (i64, i32, Vec<u8>, String, i64) {
    let mut path = String::new();
    let mut arg = q.a;
    if matches!(q.op, op::OPEN | op::STAT | op::UNLINK | op::MKDIR | op::RMDIR | op::ACCESS | op::CHMOD | op::TIMES | op::TRUNCATE | op::READLINK | op::REALPATH | op::CHDIR) {
        path = via_fd(p, cstr(&q.payload));
    } else if matches!(q.op, op::READ | op::WRITE | op::CLOSE | op::FSTAT | op::LSEEK | op::FTRUNCATE | op::FSYNC | op::PREAD | op::PWRITE | op::READDIR | op::DUP) {
        path = p.fds.get(&q.a).map(|f| f.path.clone()).unwrap_or_default();
        arg = q.b;
    }
    let r = serve_inner(v, p, q, env, errno, limit, clock, mono, &mut path, contended);
    match r {
        Ok((ret, out)) => (ret, 0, out, path, arg),
        Err(e) => (-1, e, vec![], path, arg),
    }
}

#[allow(clippy::too_many_arguments)]
fn serve_inner(
    v: &mut Vfs, p: &mut Proc, q: &Req, env: &Env, errno: Option<i32>, limit: Option<usize>, clock: i128, mono: i128, path: &mut String, contended: bool,
) -> Result<(i64, Vec<u8>), i32> {
    if let Some(e) = errno {
        /* Linux releases the descriptor even when close reports an error. */
        if q.op == op::CLOSE {
            p.fds.remove(&q.a);
        }
        return Err(e);
    }
    let none = Ok((0, vec![]));
    match q.op {
        op::HELLO => none,
        op::LOCK => {
            let f = p.fds.get(&q.a).ok_or(EBADF)?;
            if contended {
                return Err(EWOULDBLOCK);
            }
            f.open.lock.set(match q.b & 7 {
                1 => 1,
                2 => 2,
                _ => 0,
            });
            none
        }
        op::OPEN => {
            let flags = q.a;
            let mut abs = v.resolve(&p.cwd, path, flags & O_NOFOLLOW == 0)?;
            if path.ends_with('/') && !v.is_dir(&abs) {
                return Err(if v.get(&abs).is_some() { ENOTDIR } else { ENOENT });
            }
            if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL {
                abs = v.resolve(&p.cwd, path, false)?;
            }
            let ino = match v.get(&abs) {
                Some(i) => {
                    if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL {
                        return Err(EEXIST);
                    }
                    let dir = v.inodes[i].kind == Kind::Dir;
                    if flags & O_DIRECTORY != 0 && !dir {
                        return Err(ENOTDIR);
                    }
                    if dir && flags & 3 != 0 {
                        return Err(EISDIR);
                    }
                    if matches!(v.inodes[i].kind, Kind::Symlink(_)) {
                        return Err(ELOOP);
                    }
                    if flags & 3 != 0 && v.inodes[i].mode & 0o200 == 0 {
                        return Err(EACCES);
                    }
                    if flags & O_TRUNC != 0 && flags & 3 != 0 && v.inodes[i].kind == Kind::File {
                        v.truncate(i, 0);
                    }
                    i
                }
                None => {
                    if flags & O_CREAT == 0 {
                        return Err(ENOENT);
                    }
                    v.create(&abs, Kind::File, 0o100000 | (q.b as u32 & 0o755))?
                }
            };
            let mut n = 1000;
            while p.fds.contains_key(&n) {
                n += 1;
            }
            *path = abs.clone();
            p.fds.insert(n, Fd { ino, flags, path: abs, open: Rc::default(), listing: vec![] });
            Ok((n, vec![]))
        }
        op::CLOSE => {
            p.fds.remove(&q.a).ok_or(EBADF)?;
            none
        }
        op::DUP => {
            let f = p.fds.get(&q.a).ok_or(EBADF)?;
            let g = Fd { ino: f.ino, flags: f.flags, path: f.path.clone(), open: f.open.clone(), listing: vec![] };
            let mut n = 1000;
            while p.fds.contains_key(&n) {
                n += 1;
            }
            p.fds.insert(n, g);
            Ok((n, vec![]))
        }
        op::READ | op::PREAD => {
            let f = p.fds.get_mut(&q.a).ok_or(EBADF)?;
            if f.flags & 3 == 1 {
                return Err(EBADF);
            }
            let mut n = (q.b.max(0) as usize).min(1 << 24);
            if let Some(l) = limit {
                n = n.min(l.max(1));
            }
            match v.inodes[f.ino].kind {
                Kind::Dir => return Err(EISDIR),
                Kind::Device('n') => return none,
                Kind::Device(_) => return Ok((n as i64, (0..n).map(|_| p.rnd.next() as u8).collect())),
                _ => {}
            }
            let d = &v.inodes[f.ino].data;
            let off = if q.op == op::PREAD { q.c.max(0) as usize } else { f.open.off.get() };
            let from = off.min(d.len());
            let to = (from + n).min(d.len());
            let out = d[from..to].to_vec();
            if q.op == op::READ {
                f.open.off.set(to.max(off));
            }
            Ok((out.len() as i64, out))
        }
        op::WRITE | op::PWRITE => {
            let f = p.fds.get_mut(&q.a).ok_or(EBADF)?;
            if f.flags & 3 == 0 {
                return Err(EBADF);
            }
            let mut buf = &q.payload[..];
            if let Some(l) = limit {
                buf = &buf[..buf.len().min(l)];
            }
            if matches!(v.inodes[f.ino].kind, Kind::Device(_)) {
                return Ok((buf.len() as i64, vec![]));
            }
            if let Some((left, e)) = &mut p.write_budget {
                if *left == 0 && !buf.is_empty() {
                    return Err(*e);
                }
                buf = &buf[..buf.len().min(*left as usize)];
                *left -= buf.len() as u64;
            }
            let off = if q.op == op::PWRITE {
                q.c.max(0) as usize
            } else if f.flags & O_APPEND != 0 {
                v.inodes[f.ino].data.len()
            } else {
                f.open.off.get()
            };
            let n = v.write(f.ino, off, buf)?;
            if q.op == op::WRITE {
                f.open.off.set(off + n);
            }
            Ok((n as i64, vec![]))
        }
        op::LSEEK => {
            let f = p.fds.get_mut(&q.a).ok_or(EBADF)?;
            let base = match q.c {
                0 => 0,
                1 => f.open.off.get() as i64,
                2 => v.inodes[f.ino].data.len() as i64,
                _ => return Err(EINVAL),
            };
            if base + q.b < 0 {
                return Err(EINVAL);
            }
            f.open.off.set((base + q.b) as usize);
            Ok((base + q.b, vec![]))
        }
        op::FTRUNCATE => {
            let f = p.fds.get(&q.a).ok_or(EBADF)?;
            if f.flags & 3 == 0 || q.b < 0 || q.b > 1 << 26 {
                return Err(EINVAL);
            }
            v.truncate(f.ino, q.b as usize);
            none
        }
        op::TRUNCATE => {
            let abs = v.resolve(&p.cwd, path, true)?;
            let i = v.get(&abs).ok_or(ENOENT)?;
            if q.a < 0 || q.a > 1 << 26 || v.inodes[i].kind != Kind::File {
                return Err(EINVAL);
            }
            v.truncate(i, q.a as usize);
            none
        }
        op::FSYNC => {
            if q.a == -1 {
                v.sync_all();
                return none;
            }
            let i = p.fds.get(&q.a).ok_or(EBADF)?.ino;
            v.sync_file(i);
            none
        }
        op::FSTAT => {
            let i = p.fds.get(&q.a).ok_or(EBADF)?.ino;
            Ok((0, meta(v, i)))
        }
        op::STAT => {
            let abs = v.resolve(&p.cwd, path, q.a != 0)?;
            let i = v.get(&abs).ok_or(ENOENT)?;
            Ok((0, meta(v, i)))
        }
        op::ACCESS => {
            let abs = v.resolve(&p.cwd, path, true)?;
            let i = v.get(&abs).ok_or(ENOENT)?;
            if q.a & 2 != 0 && v.inodes[i].mode & 0o200 == 0 {
                return Err(EACCES);
            }
            none
        }
        op::CHMOD | op::TIMES => {
            let fd = if q.op == op::CHMOD { q.b } else { q.a };
            let i = if path.is_empty() {
                p.fds.get(&fd).ok_or(EBADF)?.ino
            } else {
                let abs = v.resolve(&p.cwd, path, true)?;
                v.get(&abs).ok_or(ENOENT)?
            };
            if q.op == op::TIMES {
                v.inodes[i].mtime = if q.c < 0 { v.now } else { (q.b, q.c) };
                return none;
            }
            v.inodes[i].mode = (v.inodes[i].mode & !0o7777) | (q.a as u32 & 0o7777);
            none
        }
        op::RENAME | op::LINK | op::SYMLINK => {
            let n = (q.b.max(0) as usize).min(q.payload.len());
            let (a, b) = (via_fd(p, cstr(&q.payload[..n])), via_fd(p, cstr(&q.payload[n..])));
            *path = format!("{a} -> {b}");
            let nb = v.resolve(&p.cwd, &b, false)?;
            if q.op == op::SYMLINK {
                if v.get(&nb).is_some() {
                    return Err(EEXIST);
                }
                v.create(&nb, Kind::Symlink(a), 0o120777)?;
                return none;
            }
            let na = v.resolve(&p.cwd, &a, false)?;
            if q.op == op::LINK {
                let i = v.get(&na).ok_or(ENOENT)?;
                v.link(i, &nb)?;
            } else {
                v.rename(&na, &nb, q.a & 1 != 0)?;
            }
            *path = format!("{na} -> {nb}");
            none
        }
        op::UNLINK => {
            let abs = v.resolve(&p.cwd, path, false)?;
            *path = abs.clone();
            v.unlink(&abs)?;
            none
        }
        op::MKDIR => {
            let abs = v.resolve(&p.cwd, path, false)?;
            if v.get(&abs).is_some() {
                return Err(EEXIST);
            }
            v.create(&abs, Kind::Dir, 0o40755)?;
            none
        }
        op::RMDIR => {
            let abs = v.resolve(&p.cwd, path, false)?;
            v.rmdir(&abs)?;
            none
        }
        op::READLINK => {
            let abs = v.resolve(&p.cwd, path, false)?;
            let i = v.get(&abs).ok_or(ENOENT)?;
            match &v.inodes[i].kind {
                Kind::Symlink(t) => Ok((t.len().min(q.a as usize) as i64, t.as_bytes()[..t.len().min(q.a as usize)].to_vec())),
                _ => Err(EINVAL),
            }
        }
        op::REALPATH => {
            let abs = v.resolve(&p.cwd, path, true)?;
            v.get(&abs).ok_or(ENOENT)?;
            Ok((abs.len() as i64, abs.into_bytes()))
        }
        op::GETCWD => Ok((p.cwd.len() as i64, p.cwd.clone().into_bytes())),
        op::CHDIR => {
            let abs = v.resolve(&p.cwd, path, true)?;
            if !v.is_dir(&abs) {
                return Err(ENOTDIR);
            }
            p.cwd = abs;
            none
        }
        op::READDIR => {
            let f = p.fds.get_mut(&q.a).ok_or(EBADF)?;
            if q.b == 0 {
                f.listing = v.children(&f.path);
                f.listing.sort_by_cached_key(|n| mix(&[env.seed, 19, n.bytes().fold(7, |h: u64, b| h.wrapping_mul(31) ^ b as u64)]));
            }
            match f.listing.get(q.b as usize) {
                Some(n) => Ok((n.len() as i64, n.clone().into_bytes())),
                None => none,
            }
        }
        op::CLOCK => {
            let t = if q.a != 0 { clock } else { mono };
            let (s, ns) = (t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as i64);
            let mut o = s.to_ne_bytes().to_vec();
            o.extend_from_slice(&ns.to_ne_bytes());
            Ok((0, o))
        }
        op::RANDOM => {
            let n = q.a.clamp(0, 256) as usize;
            Ok((n as i64, (0..n).map(|_| p.rnd.next() as u8).collect()))
        }
        op::GETPID => Ok((p.pid, vec![])),
        op::SLEEP => none,
        op::CONSOLE => {
            let n = limit.unwrap_or(usize::MAX).min(q.payload.len());
            p.res.stdout.extend_from_slice(&q.payload[..n]);
            Ok((n as i64, vec![]))
        }
        _ => Err(38),
    }
}

fn meta(v: &Vfs, i: usize) -> Vec<u8> {
    let n = &v.inodes[i];
    let mut o = vec![];
    o.extend_from_slice(&(i as u64 + 1).to_ne_bytes());
    let size = if let Kind::Symlink(t) = &n.kind { t.len() } else { n.data.len() };
    o.extend_from_slice(&(size as u64).to_ne_bytes());
    o.extend_from_slice(&n.mode.to_ne_bytes());
    let links = v.names.values().filter(|x| **x == i).count() as u32;
    o.extend_from_slice(&links.to_ne_bytes());
    o.extend_from_slice(&n.mtime.0.to_ne_bytes());
    o.extend_from_slice(&n.mtime.1.to_ne_bytes());
    o
}
