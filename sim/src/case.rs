//! A case: everything one simulated scenario consists of. It is generated
//! from a seed, checked by executing it, minimised by changing it, and
//! written out as the replay file.

use crate::burn::Source;
use crate::image::Image;
use crate::prng::{mix, Rng};
use crate::vfs::{Kind, Vfs};
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub static BLANK: &[u8] = include_bytes!("../data/blank.fmp12");

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Set(usize, Vec<u8>),
    Flip(usize, u8),
    Truncate(usize),
    Extend(usize, u8),
    /// Block contents: lost (zeros), misdirected (copy of another), or replaced by seeded noise.
    Zero(usize),
    Copy(usize, usize),
    Noise(usize, u64),
    /// Next-block link of a block.
    Link(usize, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Burn(Source),
    Img(Image),
    Text(String),
    Bytes(Vec<u8>),
    /// Seeded noise of a length.
    Noise(usize, u64),
    /// The sample file that comes with the repository.
    Blank,
    Broken(Box<Body>, Vec<Mut>),
    Link(String),
    Dir,
}
impl Body {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Body::Burn(s) => s.text().into_bytes(),
            Body::Img(i) => i.encode(),
            Body::Text(t) => t.clone().into_bytes(),
            Body::Bytes(b) => b.clone(),
            Body::Noise(n, s) => {
                let mut r = Rng::new(*s);
                (0..*n).map(|_| r.next() as u8).collect()
            }
            Body::Blank => BLANK.to_vec(),
            Body::Broken(b, muts) => {
                let mut d = b.bytes();
                for m in muts {
                    apply_mut(&mut d, m);
                }
                d
            }
            Body::Link(_) | Body::Dir => vec![],
        }
    }
}

fn apply_mut(d: &mut Vec<u8>, m: &Mut) {
    const B: usize = 4096;
    let range = |d: &Vec<u8>, b: usize| (b * B).min(d.len())..((b + 1) * B).min(d.len());
    match m {
        Mut::Set(at, v) => {
            for (i, x) in v.iter().enumerate() {
                if at + i < d.len() {
                    d[at + i] = *x;
                }
            }
        }
        Mut::Flip(at, bit) => {
            if *at < d.len() {
                d[*at] ^= 1 << (bit & 7);
            }
        }
        Mut::Truncate(n) => d.truncate(*n),
        Mut::Extend(n, b) => d.extend(std::iter::repeat(*b).take(*n)),
        Mut::Zero(b) => {
            let r = range(d, *b);
            d[r].fill(0);
        }
        Mut::Copy(a, b) => {
            let src = d[range(d, *a)].to_vec();
            let r = range(d, *b);
            for (x, y) in d[r].iter_mut().zip(src) {
                *x = y;
            }
        }
        Mut::Noise(b, s) => {
            let mut g = Rng::new(*s);
            let r = range(d, *b);
            let r = if r.len() > 20 { r.start + 20..r.end } else { r };
            for x in &mut d[r] {
                *x = g.next() as u8;
            }
        }
        Mut::Link(b, n) => {
            let at = b * B + 8;
            if at + 4 <= d.len() {
                d[at..at + 4].copy_from_slice(&n.to_be_bytes());
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileC {
    pub path: String,
    pub body: Body,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// Paths are relative to the working directory unless they start with a slash.
    pub files: Vec<FileC>,
    /// Files that are only there in the disturbed execution.
    pub extra: Vec<FileC>,
    /// No directory for inspection files.
    pub bare: bool,
    pub procs: Vec<ProcSpec>,
    pub env: Env,
    pub faults: Vec<Fault>,
    pub schedule: Vec<u8>,
    /// Further choices; what they mean depends on the property.
    pub param: Vec<u64>,
}

impl Case {
    pub fn new(prop: &str, seed: u64) -> Case {
        Case {
            prop: prop.into(),
            seed,
            files: vec![],
            extra: vec![],
            bare: false,
            procs: vec![],
            env: Env::plain(mix(&[seed, 1])),
            faults: vec![],
            schedule: vec![],
            param: vec![],
        }
    }
    pub fn add(&mut self, path: &str, body: Body) {
        self.files.push(FileC { path: path.into(), body });
    }
    pub fn world(&self, env: &Env, extra: bool) -> Vfs {
        let mut v = base_vfs(env);
        if !self.bare {
            v.add_dir(&abs("inspect_output"));
        }
        for f in self.files.iter().chain(self.extra.iter().filter(|_| extra)) {
            let p = abs(&f.path);
            if v.names.contains_key(&p) {
                continue;
            }
            match &f.body {
                Body::Dir => v.add_dir(&p),
                Body::Link(t) => v.add_symlink(&p, t),
                b => v.add_file(&p, &b.bytes()),
            }
            /* What a path leads through exists. */
            if f.path.contains("..") {
                let at = f.path.split("..").next().unwrap().trim_end_matches('/');
                if !at.is_empty() {
                    v.add_dir(&abs(at));
                }
            }
        }
        /* Files come with any age and permissions. */
        let mut r = Rng::new(mix(&[env.seed, 13]));
        for i in v.inodes.iter_mut().filter(|i| i.kind == Kind::File) {
            i.mtime.0 += *r.pick(&[0, 0, -1, -60, -86_400, -40_000_000, 1, 3600]);
            i.mtime.1 = r.below(1_000_000_000) as i64;
            i.mode = *r.pick(&[0o100644, 0o100644, 0o100600, 0o100664, 0o100755]);
        }
        v.version = 0;
        v
    }
    pub fn sources(&self) -> impl Iterator<Item = (&str, &Source)> {
        self.files.iter().filter_map(|f| if let Body::Burn(s) = &f.body { Some((f.path.as_str(), s)) } else { None })
    }
    pub fn source(&self, path: &str) -> Option<&Source> {
        self.sources().find(|x| x.0 == path).map(|x| x.1)
    }
    pub fn image_at(&self, path: &str) -> Option<&Image> {
        self.files.iter().find_map(|f| match &f.body {
            Body::Img(i) if f.path == path => Some(i),
            _ => None,
        })
    }
    pub fn image(&self) -> Option<&Image> {
        self.files.iter().find_map(|f| if let Body::Img(i) = &f.body { Some(i) } else { None })
    }
}

pub fn abs(p: &str) -> String {
    let whole = if p.starts_with('/') { p.to_string() } else { format!("{WD}/{p}") };
    let mut parts: Vec<&str> = vec![];
    for x in whole.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    format!("/{}", parts.join("/"))
}

/// Options of a command line.
#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub compile: Vec<String>,
    pub decompile: Vec<String>,
    pub tests: Vec<String>,
    pub header: bool,
    pub no_testing: bool,
}
impl Cmd {
    pub fn args(&self) -> ProcSpec {
        let mut a = vec![];
        let mut list = |o: &str, v: &[String]| {
            for x in v {
                a.push(o.to_string());
                a.push(x.clone());
            }
        };
        list("-c", &self.compile);
        list("-d", &self.decompile);
        list("-t", &self.tests);
        if self.header {
            a.push("--print-header".into());
        }
        if self.no_testing {
            a.push("--no-testing".into());
        }
        ProcSpec { args: a }
    }
    pub fn parse(p: &ProcSpec) -> Cmd {
        let mut c = Cmd::default();
        let mut cur = 0;
        for a in &p.args {
            match a.as_str() {
                "-c" => cur = 1,
                "-d" => cur = 2,
                "-t" => cur = 3,
                "--print-header" => c.header = true,
                "--no-testing" => c.no_testing = true,
                x => match cur {
                    1 => c.compile.push(x.into()),
                    2 => c.decompile.push(x.into()),
                    _ => c.tests.push(x.into()),
                },
            }
        }
        c
    }
    /// Files a successful run delivers.
    pub fn outputs(&self) -> Vec<String> {
        let mut o = vec![];
        for c in &self.compile {
            o.push(abs("inspect_output/test_compile"));
            o.push(abs(&format!("{}.fmp12", stem(c))));
        }
        if !self.decompile.is_empty() {
            o.push(abs("inspect_output/test_decompile"));
            if self.header {
                o.push(abs("header.log"));
            }
        }
        o.sort();
        o.dedup();
        o
    }
}
pub fn stem(p: &str) -> &str {
    let f = p.rsplit('/').next().unwrap();
    f.strip_suffix(".burn").unwrap_or(f)
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub runs: u64,
    pub requests: u64,
    pub sim_ns: i128,
    pub hashes: Vec<u64>,
    pub interleavings: Vec<u64>,
    pub fired: BTreeMap<String, u64>,
    /// Rare and interesting situations that were reached.
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// Last execution, for replay files.
    pub last_trace: Vec<Ev>,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn take(&mut self, r: &RunResult) {
        self.runs += 1;
        self.requests += r.trace.len() as u64;
        self.sim_ns += r.sim_ns;
        self.hashes.push(r.hash);
        self.interleavings.push(r.interleaving);
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.requests += o.requests;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn fingerprint(&self) -> u64 {
        mix(&self.hashes)
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    /// The case does not belong to the domain of the property (minimising can lead there).
    Outside,
    Violation { class: String, message: String },
}
pub fn bad(class: &str, message: String) -> Verdict {
    Verdict::Violation { class: class.into(), message }
}

/// Executes runs of a case and keeps count.
pub struct Exec<'a> {
    pub m: &'a Machine,
    pub st: Stats,
}
impl Exec<'_> {
    pub fn run(&mut self, v: &mut Vfs, specs: &[ProcSpec], env: &Env, faults: &[Fault], schedule: &[u8], watch: Option<Watch>) -> RunResult {
        let r = self.m.run(v, specs, env, faults, schedule, watch);
        self.st.take(&r);
        self.st.last_trace = r.trace.clone();
        r
    }
    pub fn solo(&mut self, v: &mut Vfs, spec: &ProcSpec, env: &Env, faults: &[Fault]) -> RunResult {
        self.run(v, std::slice::from_ref(spec), env, faults, &[], None)
    }
}
