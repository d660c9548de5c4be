//! Logical FileMaker schemas, the .fmp12 images that store them in any
//! physical layout, and the schema the decompiler has to report for them.

use crate::prng::{mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

pub const BLOCK: usize = 4096;
const ROOM: usize = BLOCK - 20;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FieldS {
    pub id: u16,
    pub name: String,
    pub ftype: Vec<u8>,
    pub desc: String,
    pub account: String,
    pub user: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TableS {
    pub id: u16,
    pub name: String,
    pub fields: Vec<FieldS>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OccS {
    pub id: u16,
    pub name: String,
    pub table: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RelS {
    pub id: u8,
    pub a: u16,
    pub b: u16,
    pub cmp: u8,
    pub f1: u8,
    pub f2: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LayoutS {
    pub id: u16,
    pub name: String,
    pub occ: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tok {
    Num(u8),
    Str(String),
    Var(String),
    Op(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StepS {
    /// Instruction number as stored.
    pub op: u8,
    /// Position; two-byte positions are stored from 128 up.
    pub index: u16,
    /// Target of a script call.
    pub target: u16,
    pub name: Option<String>,
    pub calc: Option<Vec<Tok>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScriptS {
    pub id: u16,
    pub name: String,
    pub steps: Vec<StepS>,
    /// 0: short form, 1: long form, n > 1: segments of about that many bytes.
    pub form: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SourceS {
    pub id: u16,
    pub name: String,
    pub user: String,
    pub path: String,
    pub file: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Schema {
    pub tables: Vec<TableS>,
    pub occs: Vec<OccS>,
    pub rels: Vec<RelS>,
    pub layouts: Vec<LayoutS>,
    pub scripts: Vec<ScriptS>,
    pub sources: Vec<SourceS>,
}

/// Where the bytes lie.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Phys {
    pub seed: u64,
    /// Unused blocks strewn between the used ones.
    pub unused: u16,
    /// Percent of chunk boundaries at which a new block is started.
    pub split: u8,
    /// Blocks in file order, or permuted.
    pub permute: bool,
    /// Percent of boundaries that get padding, and that get irrelevant chunks.
    pub pad: u8,
    pub decoy: u8,
}
impl Phys {
    pub fn plain() -> Phys {
        Phys { seed: 1, unused: 0, split: 0, permute: false, pad: 0, decoy: 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Image {
    pub schema: Schema,
    pub phys: Phys,
}

// ---------------------------------------------------------------- encoding

/// One unit that is never split: a push, a pop or a chunk.
enum T {
    Push(Vec<u8>),
    Pop,
    Data(Vec<u8>),
    /// Irrelevant material may be inserted here (it must stand inside an object).
    Gap,
}

fn enc(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b ^ 0x5A).collect()
}
fn comp(n: u16) -> Vec<u8> {
    if n < 128 {
        vec![0x20, n as u8]
    } else {
        vec![0x28, 0x80, (n - 128) as u8]
    }
}
/// Key with value in the shortest form the value's length allows, or the general one.
fn kv(key: u8, val: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let fixed = match val.len() {
        1 => Some(1),
        n if n % 2 == 0 && n <= 8 => Some(1 + n / 2),
        _ => None,
    };
    match fixed {
        Some(c) if r.chance(1, 2) => o.extend_from_slice(&[c as u8, key]),
        _ => o.extend_from_slice(&[0x06, key, val.len() as u8]),
    }
    o.extend_from_slice(val);
    o
}
/// The same with a two-byte key (128..=383).
fn kv2(key: u16, val: &[u8], r: &mut Rng) -> Vec<u8> {
    let k = [0x80u8, (key - 128) as u8];
    let fixed = match val.len() {
        1 => Some(9),
        n if n % 2 == 0 && n <= 8 => Some(9 + n / 2),
        _ => None,
    };
    let mut o = vec![];
    match fixed {
        Some(c) if r.chance(1, 2) => {
            o.push(c as u8);
            o.extend_from_slice(&k);
        }
        _ => {
            o.push(0x0E);
            o.extend_from_slice(&k);
            o.push(val.len() as u8);
        }
    }
    o.extend_from_slice(val);
    o
}

fn calc_bytes(c: &[Tok]) -> Vec<u8> {
    let mut o = vec![];
    for t in c {
        match t {
            Tok::Num(n) => {
                o.push(0x10);
                let mut b = [0u8; 19];
                b[8] = *n;
                o.extend_from_slice(&b);
            }
            Tok::Str(s) => {
                o.push(0x13);
                o.push(s.len() as u8);
                o.extend_from_slice(&enc(s));
            }
            Tok::Var(s) => {
                o.push(0x1A);
                o.push(s.len() as u8);
                o.extend_from_slice(&enc(s));
            }
            Tok::Op(s) => match s.as_str() {
                "+" => o.push(0x25),
                "-" => o.push(0x26),
                "*" => o.push(0x27),
                "/" => o.push(0x28),
                "<" => o.push(0x41),
                "<=" => o.push(0x43),
                "==" => o.push(0x44),
                "!=" => o.push(0x46),
                ">=" => o.push(0x47),
                ">" => o.push(0x49),
                "&" => o.push(0x50),
                "(" => o.push(0x04),
                ")" => o.push(0x05),
                "Abs" => o.push(0x2D),
                "Acos" => o.push(0x9D),
                "Get" => o.push(0x9B),
                "CurrentTime" => o.extend_from_slice(&[0x9C, 0x1D]),
                "AccountName" => o.extend_from_slice(&[0x9C, 0x20]),
                "DocumentsPath" => o.extend_from_slice(&[0x9C, 0x49]),
                "DocumentsPathListing" => o.extend_from_slice(&[0x9C, 0x5D]),
                "Char" => o.extend_from_slice(&[0xFB, 0x03]),
                _ => o.push(0x0C),
            },
        }
    }
    o
}
pub fn calc_text(c: &[Tok]) -> String {
    c.iter()
        .map(|t| match t {
            Tok::Num(n) => n.to_string(),
            Tok::Str(s) => format!("\"{s}\""),
            Tok::Var(s) => s.clone(),
            Tok::Op(s) => s.clone(),
        })
        .collect()
}

fn step_bytes(s: &StepS) -> [u8; 28] {
    let mut b = [0u8; 28];
    if s.index >= 128 {
        b[0] = 3;
        b[1] = 2;
        b[2] = 128;
        b[3] = (s.index - 128) as u8;
    } else {
        b[0] = 2;
        b[1] = 1;
        b[2] = s.index as u8;
    }
    b[8] = s.target as u8;
    b[21] = s.op;
    b
}

fn source_blob(s: &SourceS) -> Vec<u8> {
    let mut o = vec![0, 0, 0, 1];
    o.push(4);
    o.extend_from_slice(&enc("file"));
    /* Separators of paths have codes of their own. */
    let mut path = vec![];
    let mut it = s.path.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '/' => path.push(218),
            '.' if it.peek() == Some(&'.') => {
                it.next();
                path.push(219)
            }
            ':' => path.extend_from_slice(&[65, 50]),
            c => path.extend_from_slice(&enc(&c.to_string())),
        }
    }
    o.push(path.len() as u8);
    o.extend_from_slice(&[65, 50]);
    o.extend_from_slice(&path);
    let f = enc(&s.file);
    o.push(f.len() as u8);
    o.extend_from_slice(&f);
    o
}

fn tokens(s: &Schema, r: &mut Rng) -> Vec<T> {
    let mut o = vec![];
    let push = |o: &mut Vec<T>, n: u16| o.push(T::Push(comp(n)));
    /* Tables */
    push(&mut o, 3);
    push(&mut o, 16);
    push(&mut o, 1);
    o.push(T::Gap);
    o.push(T::Pop);
    push(&mut o, 5);
    for t in &s.tables {
        push(&mut o, 128 + t.id);
        o.push(T::Gap);
        o.push(T::Data(kv(16, &enc(&t.name), r)));
        o.push(T::Gap);
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    /* Table occurrences */
    push(&mut o, 17);
    push(&mut o, 5);
    for c in &s.occs {
        o.push(T::Push(vec![0x30, 208, (c.id >> 8) as u8, c.id as u8]));
        o.push(T::Gap);
        let mut d = vec![0u8; 12];
        d[2] = r.next() as u8;
        d[6] = c.table;
        o.push(T::Data(kv(2, &d, r)));
        o.push(T::Gap);
        o.push(T::Data(kv(16, &enc(&c.name), r)));
        o.push(T::Data(kv(216, &[1, 2, 3], r)));
        o.push(T::Data(kv2(129, &enc("Admin"), r)));
        let ends: Vec<(u16, u8)> = s
            .rels
            .iter()
            .flat_map(|l| {
                let mut v = vec![];
                if l.a == c.id {
                    v.push((l.b, l.id));
                }
                if l.b == c.id && l.a != c.id {
                    v.push((l.a, l.id));
                }
                v
            })
            .collect();
        if !ends.is_empty() {
            push(&mut o, 251);
            for (other, id) in ends {
                o.push(T::Data(vec![0x12, 208, (other >> 8) as u8, other as u8, 1, id]));
            }
            o.push(T::Pop);
        }
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    /* Relationship details */
    if !s.rels.is_empty() {
        push(&mut o, 251);
        push(&mut o, 5);
        for l in &s.rels {
            o.push(T::Push(vec![0x20, l.id]));
            o.push(T::Data(kv(2, &[0, 0, 3, 0], r)));
            o.push(T::Gap);
            push(&mut o, 3);
            o.push(T::Data(vec![6, 1, 7, l.cmp, 2, 1, l.f1, 2, 1, l.f2]));
            o.push(T::Pop);
            o.push(T::Pop);
        }
        o.push(T::Pop);
        o.push(T::Pop);
    }
    o.push(T::Pop);
    /* Layouts */
    push(&mut o, 4);
    push(&mut o, 1);
    push(&mut o, 7);
    for l in &s.layouts {
        push(&mut o, l.id);
        o.push(T::Gap);
        o.push(T::Data(kv(2, &[16, 128 + l.occ, 129, 65, 24, 0], r)));
        o.push(T::Data(kv(16, &enc(&l.name), r)));
        o.push(T::Gap);
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    o.push(T::Pop);
    /* Scripts */
    push(&mut o, 17);
    push(&mut o, 1);
    push(&mut o, 7);
    for c in &s.scripts {
        push(&mut o, c.id);
        o.push(T::Data(kv(16, &enc(&c.name), r)));
        o.push(T::Data(kv(216, &[9; 16], r)));
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    push(&mut o, 5);
    for c in &s.scripts {
        push(&mut o, c.id);
        o.push(T::Data(kv(2, &[0, 0, 0, 4], r)));
        let code: Vec<u8> = c.steps.iter().flat_map(step_bytes).collect();
        let short = code.len() <= 252;
        /* Long code needs segments, of which there are at most 256. */
        if c.form > 1 || code.len() > 3000 {
            push(&mut o, 4);
            let least = code.len().div_ceil(256);
            for (i, part) in code.chunks((c.form as usize).clamp(least.max(28), 3000)).enumerate() {
                let mut d = vec![0x07, i as u8];
                d.extend_from_slice(&(part.len() as u16).to_be_bytes());
                d.extend_from_slice(part);
                o.push(T::Data(d));
            }
            o.push(T::Pop);
        } else if short && c.form == 0 {
            let mut d = vec![6, 4, code.len() as u8];
            d.extend_from_slice(&code);
            o.push(T::Data(d));
        } else {
            let mut d = vec![0x07, 4];
            d.extend_from_slice(&(code.len() as u16).to_be_bytes());
            d.extend_from_slice(&code);
            o.push(T::Data(d));
        }
        if c.steps.iter().any(|x| x.name.is_some() || x.calc.is_some()) {
            push(&mut o, 5);
            for x in &c.steps {
                if x.name.is_none() && x.calc.is_none() {
                    continue;
                }
                push(&mut o, x.index);
                if let Some(n) = &x.name {
                    push(&mut o, 128);
                    o.push(T::Data(kv(1, &enc(n), r)));
                    o.push(T::Pop);
                }
                if let Some(k) = &x.calc {
                    /* The result of a script is kept apart from other calculations. */
                    push(&mut o, if x.op == 103 { 128 } else { 129 });
                    push(&mut o, 5);
                    o.push(T::Data(kv(5, &calc_bytes(k), r)));
                    o.push(T::Pop);
                    o.push(T::Pop);
                }
                o.push(T::Pop);
            }
            o.push(T::Pop);
        }
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    /* Data sources */
    push(&mut o, 32);
    push(&mut o, 5);
    for d in &s.sources {
        push(&mut o, d.id);
        o.push(T::Gap);
        o.push(T::Data(kv(16, &enc(&d.name), r)));
        let blob = source_blob(d);
        let mut b = vec![6, 130, blob.len() as u8];
        b.extend_from_slice(&blob);
        o.push(T::Data(b));
        let u = enc(&d.user);
        let mut b = vec![0x0E, 0x80, 2, u.len() as u8];
        b.extend_from_slice(&u);
        o.push(T::Data(b));
        o.push(T::Pop);
    }
    o.push(T::Pop);
    o.push(T::Pop);
    /* Fields */
    for t in &s.tables {
        if t.fields.is_empty() {
            continue;
        }
        push(&mut o, 128 + t.id);
        push(&mut o, 3);
        push(&mut o, 1);
        o.push(T::Gap);
        o.push(T::Pop);
        push(&mut o, 5);
        for f in &t.fields {
            push(&mut o, f.id);
            let mut parts = vec![
                kv(2, &f.ftype, r),
                kv(16, &enc(&f.name), r),
                kv2(129, &enc(&f.account), r),
                kv2(130, &enc(&f.user), r),
            ];
            if !f.desc.is_empty() {
                parts.push(kv(3, &enc(&f.desc), r));
            }
            for p in parts {
                o.push(T::Data(p));
                o.push(T::Gap);
            }
            o.push(T::Pop);
        }
        o.push(T::Pop);
        o.push(T::Pop);
        o.push(T::Pop);
    }
    o
}

const DECOYS: usize = 21;
/// Material without meaning for the schema: every kind of chunk, under keys
/// and directories that hold none of the reported attributes.
fn decoy(r: &mut Rng, favourite: Option<usize>) -> Vec<T> {
    let data = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| r.next() as u8).collect() };
    /* Among them such as share some of their bits with the keys of reported attributes. */
    let key = *r.pick(&[77u8, 99, 250, 250, 80, 66, 48, 34, 20, 6]);
    let key2 = *r.pick(&[90u8, 91, 129, 130, 131, 132, 133, 144, 255]);
    let one = |d: Vec<u8>| vec![T::Data(d)];
    let kind = r.below(DECOYS);
    match favourite.unwrap_or(kind) {
        0 => {
            let mut o = vec![0x00];
            o.extend(data(r, 1));
            one(o)
        }
        1 => {
            let c = r.range(1, 5);
            let n = if c == 1 { 1 } else { 2 * (c - 1) };
            let mut o = vec![c as u8, key];
            o.extend(data(r, n));
            one(o)
        }
        2 => {
            let n = r.below(256);
            let mut o = vec![0x06, key, n as u8];
            o.extend(data(r, n));
            one(o)
        }
        3 => {
            let mut o = vec![0x08];
            o.extend(data(r, 2));
            one(o)
        }
        4 => {
            let c = r.range(9, 13);
            let n = if c == 9 { 1 } else { 2 * (c - 9) };
            let mut o = vec![c as u8, 0x80, key2];
            o.extend(data(r, n));
            one(o)
        }
        5 => {
            let n = r.below(256);
            let mut o = vec![0x0E, 0x80, key2, n as u8];
            o.extend(data(r, n));
            one(o)
        }
        6 => {
            let mut o = vec![0x0E, 0xFF];
            o.extend(data(r, 5));
            one(o)
        }
        7 => {
            let n = r.below(600);
            let mut o = vec![0x0F, 0x80, 9];
            o.extend_from_slice(&(n as u16).to_be_bytes());
            o.extend(data(r, n));
            one(o)
        }
        8 => {
            let mut o = vec![0x10];
            o.extend(data(r, 3));
            one(o)
        }
        9 => {
            let c = r.range(0x11, 0x15);
            let n = 3 + (c == 0x11) as usize + 2 * (c - 0x11);
            let mut o = vec![c as u8];
            o.extend(data(r, n));
            one(o)
        }
        10 => {
            let n = r.below(256);
            let mut o = vec![0x16];
            o.extend(data(r, 3));
            o.push(n as u8);
            o.extend(data(r, n));
            one(o)
        }
        11 => {
            let n = r.range(128, 383);
            let mut o = vec![0x17];
            o.extend(data(r, 3));
            o.extend_from_slice(&[0x80, (n - 128) as u8]);
            o.extend(data(r, n));
            one(o)
        }
        12 => {
            /* Simple data of given length, followed by its fixed tail. */
            let c = *r.pick(&[0x19usize, 0x1A, 0x1B, 0x1C, 0x1D]);
            let n = r.range(1, 200);
            let tail = (c == 0x19) as usize + 2 * (c - 0x19);
            let mut o = vec![c as u8, n as u8];
            o.extend(data(r, n + tail));
            one(o)
        }
        13 => {
            let mut o = vec![0x1B, 0x00, key];
            o.extend(data(r, 4));
            one(o)
        }
        14 => {
            let (k, n) = (r.below(60), r.below(256));
            let mut o = vec![0x1E, k as u8];
            o.extend(data(r, k));
            o.push(n as u8);
            o.extend(data(r, n));
            one(o)
        }
        15 => {
            let (k, n) = (r.below(60), r.below(600));
            let mut o = vec![0x1F, k as u8];
            o.extend(data(r, k));
            o.extend_from_slice(&(n as u16).to_be_bytes());
            o.extend(data(r, n));
            one(o)
        }
        16 => {
            let n = r.below(256);
            let mut o = vec![0x23, n as u8];
            o.extend(data(r, n));
            one(o)
        }
        17 => {
            /* A directory nobody looks into, left by the alternative pop. */
            let mut d = vec![T::Push(vec![0x38, 2, 0x80, 120])];
            let n = r.below(200);
            let mut o = vec![0x06, 16, n as u8];
            o.extend(data(r, n));
            d.push(T::Data(o));
            d.push(T::Data(vec![0x3D]));
            d
        }
        18 => {
            let mut long = vec![0x20, 0xFE];
            long.extend(data(r, 8));
            long[2] = 252;
            let n = r.below(300);
            let mut o = vec![0x07, 11];
            o.extend_from_slice(&(n as u16).to_be_bytes());
            o.extend(data(r, n));
            vec![T::Push(long), T::Data(o), T::Pop]
        }
        19 => {
            /* Directories within directories, with something in each that looks like a name. */
            let depth = r.range(2, 14);
            let mut o = vec![];
            for _ in 0..depth {
                o.push(T::Push(vec![0x20, *r.pick(&[252u8, 3, 5, 16, 1, 120])]));
                let n = r.below(12);
                let mut d = vec![0x06, 16, n as u8];
                d.extend(data(r, n));
                o.push(T::Data(d));
            }
            o[0] = T::Push(vec![0x20, 252]);
            o.extend((0..depth).map(|_| T::Pop));
            o
        }
        _ => {
            /* A chunk that also leaves its directory. */
            let n = r.range(1, 60);
            let mut o = vec![0xC6, key, n as u8];
            o.extend(data(r, n));
            vec![T::Push(vec![0x20, 252]), T::Data(o)]
        }
    }
}

impl Image {
    /// The bytes of the file.
    pub fn encode(&self) -> Vec<u8> {
        let p = &self.phys;
        let mut r = Rng::new(mix(&[p.seed, 1]));
        let toks = tokens(&self.schema, &mut r);
        let mut r = Rng::new(mix(&[p.seed, 2]));
        let mut flat: Vec<T> = vec![];
        /* In some images mostly one kind of it, and in some a swarm of one kind in one place. */
        let mut r2 = Rng::new(mix(&[p.seed, 3]));
        let favourite = r2.chance(1, 5).then(|| r2.below(DECOYS));
        let gaps = toks.iter().filter(|t| matches!(t, T::Gap)).count();
        let swarm = if r2.chance(1, 10) { r2.below(gaps + 1) } else { usize::MAX };
        let mut gap = 0;
        for t in toks {
            match t {
                T::Gap => {
                    if r.below(100) < p.decoy as usize {
                        let f = favourite.filter(|_| r2.chance(3, 4));
                        flat.extend(decoy(&mut r, f));
                    }
                    if p.decoy > 0 && gap == swarm {
                        let kind = r2.below(DECOYS);
                        for _ in 0..r2.range(60, 300) {
                            flat.extend(decoy(&mut r2, Some(kind)));
                        }
                    }
                    gap += 1;
                }
                other => flat.push(other),
            }
        }
        /* Fill blocks; a new block repeats the directory it continues in. */
        let mut blocks: Vec<Vec<u8>> = vec![vec![]];
        let mut path: Vec<Vec<u8>> = vec![];
        for t in flat {
            let bytes = match &t {
                T::Push(c) => c.clone(),
                T::Pop => vec![0x40],
                T::Data(d) => d.clone(),
                T::Gap => vec![],
            };
            let depth: usize = path.iter().map(|c| c.len()).sum();
            let cur = blocks.last().unwrap().len();
            let forced = r.below(100) < p.split as usize && cur > depth && blocks.len() < 1100;
            if forced || cur + bytes.len() > ROOM {
                blocks.push(path.concat());
            }
            if r.below(100) < p.pad as usize {
                let room = ROOM - blocks.last().unwrap().len();
                let n = r.range(1, 9);
                if room > n + bytes.len() {
                    blocks.last_mut().unwrap().extend(std::iter::repeat(0x80).take(n));
                }
            }
            blocks.last_mut().unwrap().extend_from_slice(&bytes);
            match t {
                T::Push(c) => path.push(c),
                T::Pop => {
                    path.pop();
                }
                T::Data(d) if d[0] == 0x3D || d[0] & 0xC0 == 0xC0 => {
                    path.pop();
                }
                _ => {}
            }
        }
        /* Give every block a place. The chain starts in block 2. */
        let used = blocks.len();
        let total = used + p.unused as usize;
        let mut places: Vec<usize> = (2..2 + total).collect();
        if p.permute {
            let mut rest = places[1..].to_vec();
            r.shuffle(&mut rest);
            places.truncate(1);
            places.extend(rest);
        }
        let mut out = vec![0u8; (2 + total) * BLOCK];
        out[..BLOCK].iter_mut().enumerate().for_each(|(i, b)| *b = (i * 7) as u8);
        for b in out[BLOCK..].iter_mut() {
            *b = 0x80;
        }
        for place in &places[used..] {
            /* Unused blocks: deleted, or holding old but well-formed or arbitrary content. */
            let at = place * BLOCK;
            let style = r.below(3);
            for (i, b) in out[at..at + BLOCK].iter_mut().enumerate() {
                *b = match style {
                    0 => 0,
                    1 => r.next() as u8,
                    _ => *blocks[0].get(i.wrapping_sub(20)).unwrap_or(&0x80),
                };
            }
            out[at] = (style != 2) as u8;
        }
        let head = |out: &mut Vec<u8>, at: usize, prev: usize, next: usize| {
            out[at..at + 20].fill(0);
            out[at + 4..at + 8].copy_from_slice(&(prev as u32).to_be_bytes());
            out[at + 8..at + 12].copy_from_slice(&(next as u32).to_be_bytes());
        };
        head(&mut out, BLOCK, 0, 1 + total);
        for (i, b) in blocks.iter().enumerate() {
            let at = places[i] * BLOCK;
            let prev = if i == 0 { 0 } else { places[i - 1] };
            let next = if i + 1 == used { 0 } else { places[i + 1] };
            head(&mut out, at, prev, next);
            out[at + 20..at + 20 + b.len()].copy_from_slice(b);
        }
        out
    }

    /// What the inspection file has to say.
    pub fn expected(&self) -> Value {
        let s = &self.schema;
        let tables: Map<String, Value> = s
            .tables
            .iter()
            .map(|t| {
                let fields: Map<String, Value> = t
                    .fields
                    .iter()
                    .map(|f| {
                        (
                            f.id.to_string(),
                            json!({"data_type": "", "field_description": f.desc, "field_name": f.name,
                                "field_type": decrypt(&f.ftype), "created_by_account": f.account, "created_by_user": f.user}),
                        )
                    })
                    .collect();
                (t.id.to_string(), json!({"table_name": t.name, "created_by_account": "", "create_by_user": "", "fields": fields, "init": false}))
            })
            .collect();
        let occs: Map<String, Value> = s
            .occs
            .iter()
            .map(|c| {
                (
                    c.id.to_string(),
                    json!({"table_occurence_name": c.name, "table_actual": c.table, "table_actual_name": "", "created_by_account": "", "create_by_user": ""}),
                )
            })
            .collect();
        let cmp = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"];
        let rels: Map<String, Value> = s
            .rels
            .iter()
            .map(|l| {
                let pos = |id: u16| s.occs.iter().position(|c| c.id == id).unwrap_or(usize::MAX);
                let (t1, t2) = if pos(l.a) <= pos(l.b) { (l.a, l.b) } else { (l.b, l.a) };
                (
                    l.id.to_string(),
                    json!({"table1": t1, "table1_name": "", "field1": l.f1, "table2": t2, "table2_name": "", "field2": l.f2,
                        "comparison": cmp.get(l.cmp as usize).unwrap_or(&"Equal")}),
                )
            })
            .collect();
        let layouts: Map<String, Value> = s
            .layouts
            .iter()
            .map(|l| (l.id.to_string(), json!({"layout_name": l.name, "table_occurrence": l.occ, "created_by_account": "", "create_by_user": ""})))
            .collect();
        let scripts: Map<String, Value> = s
            .scripts
            .iter()
            .map(|c| {
                let steps: Vec<Value> = c
                    .steps
                    .iter()
                    .filter_map(|x| {
                        let name = opname(x.op)?;
                        let mut sw = vec![];
                        if x.op == 1 {
                            sw.push(s.scripts.iter().find(|y| y.id == x.target).map(|y| format!("\"{}\"", y.name)).unwrap_or_default());
                        }
                        if let (Some(n), 141) = (&x.name, x.op) {
                            sw.push(n.clone());
                        }
                        if let Some(k) = &x.calc {
                            sw.push(calc_text(k));
                        }
                        Some(json!({"opcode": name, "index": x.index, "switches": sw}))
                    })
                    .collect();
                (
                    c.id.to_string(),
                    json!({"script_name": c.name, "created_by_account": "", "create_by_user": "", "arguments": [], "instructions": steps}),
                )
            })
            .collect();
        let sources: Map<String, Value> = s
            .sources
            .iter()
            .map(|d| {
                (
                    d.id.to_string(),
                    json!({"source_name": d.name, "created_by_account": "", "created_by_user": d.user,
                        "source_location": {"source_type": "file", "source_path": d.path, "source_filename": d.file}}),
                )
            })
            .collect();
        json!({"name": "", "tables": tables, "relationships": rels, "layouts": layouts, "value_lists": {}, "scripts": scripts,
            "table_occurrences": occs, "data_sources": sources, "tests": []})
    }
}

fn decrypt(b: &[u8]) -> String {
    String::from_utf8(b.iter().map(|c| c ^ 0x5A).collect()).unwrap_or_else(|_| "value not utf-8.".into())
}

/// Instructions a stored script may contain, with the name they are reported under.
pub const INSTR: &[(u8, &str)] = &[
    (1, "PerformScript"), (3, "SaveACopyAsXml"), (4, "GoToNextField"), (5, "GoToPreviousField"), (6, "GoToLayout"), (7, "NewRecordRequest"),
    (8, "DuplicateRecordRequest"), (9, "DeleteRecordRequest"), (10, "DeleteAllRecords"), (11, "InsertFromIndex"),
    (12, "InsertFromLastVisited"), (13, "InsertCurrentDate"), (14, "InsertCurrentTime"), (16, "GoToRecordRequestPage"), (17, "GoToField"),
    (18, "CheckSelection"), (19, "CheckRecord"), (20, "CheckFoundSet"), (21, "UnsortRecords"), (22, "EnterFindMode"),
    (23, "ShowAllRecords"), (24, "ModifyLastFind"), (25, "OmitRecord"), (26, "OmitMultipleRecords"), (27, "ShowOmmitedOnly"),
    (28, "PerformFind"), (29, "ShowHideToolbars"), (30, "ViewAs"), (31, "AdjustWindow"), (32, "OpenHelp"), (33, "OpenFile"),
    (34, "CloseFile"), (35, "ImportRecords"), (36, "ExportRecords"), (37, "SaveACopyAs"), (38, "OpenManageDatabase"), (39, "SortRecords"),
    (40, "RelookupFieldContents"), (41, "EnterPreviewMode"), (42, "PrintSetup"), (43, "Print"), (44, "ExitApplication"), (45, "UndoRedo"),
    (46, "Cut"), (47, "Copy"), (48, "Paste"), (49, "Clear"), (50, "SelectAll"), (51, "RevertRecordRequest"), (55, "EnterBrowserMode"),
    (56, "InsertPicture"), (57, "SendEvent"), (60, "InsertCurrentUserName"), (61, "InsertText"), (62, "PauseResumeScript"),
    (63, "SendMail"), (64, "SendDdeExecute"), (65, "DialPhone"), (66, "Speak"), (67, "PerformApplescript"), (68, "If"), (69, "Else"),
    (70, "EndIf"), (71, "Loop"), (72, "ExitLoopIf"), (73, "EndLoop"), (74, "GoToRelatedRecord"), (75, "CommitRecordsRequests"),
    (76, "SetField"), (77, "InsertCalculatedResult"), (79, "FreezeWindow"), (80, "RefreshWindow"), (81, "ScrollWindow"), (82, "NewFile"),
    (83, "ChangePassword"), (84, "SetMultiUser"), (85, "AllowUserAbort"), (86, "SetErrorCapture"), (87, "ShowCustomDialog"),
    (88, "OpenScriptWorkspace"), (89, "BlankLineComment"), (90, "HaltScript"), (91, "ReplaceFieldContents"), (92, "ShowHideTextRuler"),
    (93, "Beep"), (94, "SetUseSystemFormats"), (95, "RecoverFile"), (96, "SaveACopyAsAddOnPackage"), (97, "SetZoomLevel"),
    (98, "CopyAllRecordsRequests"), (99, "GoToPortalRow"), (101, "CopyRecordRequest"), (102, "FluchCacheToDisk"), (103, "ExitScript"),
    (104, "DeletePortalRow"), (105, "OpenPreferences"), (106, "CorrectWord"), (107, "SpellingOptions"), (108, "SelectDictionaries"),
    (109, "EditUserDictionary"), (111, "OpenUrl"), (112, "OpenManageValueLists"), (113, "OpenSharing"), (114, "OpenFileOptions"),
    (115, "AllowFormattingBar"), (116, "SetNextSerialValue"), (117, "ExecuteSql"), (118, "OpenHosts"), (119, "MoveResizeWindow"),
    (120, "ArrangeAllWindows"), (121, "CloseWindow"), (122, "NewWindow"), (123, "SelectWindow"), (124, "SetWindowTitle"), (125, "ElseIf"),
    (126, "ConstrainFoundSet"), (127, "ExtendFoundSet"), (128, "PerformFindReplace"), (129, "OpenFindReplace"), (130, "SetSelection"),
    (131, "InsertFile"), (132, "ExportFieldContents"), (133, "OpenRecordRequest"), (134, "AddAccount"), (135, "DeleteAccount"),
    (136, "ResetAccountPassword"), (137, "EnableAccount"), (138, "Relogin"), (139, "ConvertFile"), (140, "OpenManageDataSources"),
    (141, "SetVariable"), (142, "InstallMenuSet"), (143, "SaveRecordsAsExcel"), (144, "SaveRecordsAsPdf"), (145, "GoToObject"),
    (146, "SetWebViewer"), (147, "SetFieldByName"), (148, "InstallOntimerScript"), (149, "OpenEditSavedFinds"), (150, "PerformQuickFind"),
    (151, "OpenManageLayouts"), (152, "SaveRecordsAsSnapshotLink"), (154, "SortRecordsByField"), (155, "FindMatchingRecords"),
    (156, "ManageContainers"), (157, "InstallPluginFile"), (158, "InsertPdf"), (159, "InsertAudioVideo"), (160, "InsertFromUrl"),
    (161, "InsertFromDevice"), (164, "PerformScriptOnServer"), (165, "OpenManageThemes"), (166, "ShowHideMenubar"), (167, "RefreshObject"),
    (168, "SetLayoutObjectAnimation"), (169, "ClosePopover"), (172, "OpenUploadToHost"), (174, "EnableTouchKeyboard"),
    (175, "PerformJavascriptInWebViewer"), (176, "CommentedOut"), (177, "AvplayerPlay"), (178, "AvplayerSetPlaybackState"),
    (179, "AvplayerSetOptions"), (180, "RefreshPortal"), (181, "GetFolderPath"), (182, "TruncateTable"), (183, "OpenFavorites"),
    (185, "ConfigureRegionMonitorScript"), (187, "ConfigureLocalNotification"), (188, "GetFileExists"), (189, "GetFileSize"),
    (190, "CreateDataFile"), (191, "OpenDataFile"), (192, "WriteToDataFile"), (193, "ReadFromDataFile"), (194, "GetDataFilePosition"),
    (195, "SetDataFilePosition"), (196, "CloseDataFile"), (197, "DeleteFile"), (199, "RenameFile"), (200, "SetErrorLogging"),
    (201, "ConfigureNfcReading"), (202, "ConfigureMachineLearningModel"), (203, "ExecuteFilemakerDataApi"), (205, "OpenTransaction"),
    (206, "CommitTransaction"), (207, "RevertTransaction"), (208, "SetSessionIdentifier"), (209, "SetDictionary"),
    (210, "PerformScriptOnServerWithCallback"), (211, "TriggerClarisConnectFlow"),
];
fn opname(op: u8) -> Option<&'static str> {
    INSTR.iter().find(|x| x.0 == op).map(|x| x.1)
}

// -------------------------------------------------------------- generation

const WORDS: &[&str] = &[
    "Customer", "invoice", "line", "Item", "order", "Person", "héllo", "名前", "Straße", "x", "A B", "q-1", "total", "Ünit", "date_of", "id",
    "table", "script", "end", "test", "z9", "Zed", "AZ", "Z", " lead", "A  B ", "tab\t", "a::b", "\"q\"", "\u{1f600}", "C:\\x", "é", "\u{a0}",
];

pub fn name(r: &mut Rng, uniq: usize) -> String {
    let mut s = r.pick(WORDS).to_string();
    if r.chance(1, 20) {
        while s.len() < 90 {
            s.push_str(r.pick(WORDS));
        }
    }
    if r.chance(1, 12) {
        /* Names need not be unique, nor end in a digit. */
        return s;
    }
    s.push_str(&uniq.to_string());
    if r.chance(1, 20) {
        s.push_str(*r.pick(&["Z", " ", "_", "ß", "\n", "x"]));
    }
    s
}

fn ids(r: &mut Rng, n: usize, lo: usize, hi: usize) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    let mut next = lo;
    for left in (0..n).rev() {
        let max = hi - left;
        if next > max {
            break;
        }
        let id = match r.below(4) {
            0 => r.range(next, max.min(next + 40)),
            1 => r.range(next, max),
            _ => next,
        };
        v.push(id as u16);
        next = id + 1;
    }
    v
}

fn calc(r: &mut Rng) -> Vec<Tok> {
    loop {
        /* The chunks they are stored in hold up to 255 bytes. */
        let c = calc_deep(r, 2);
        if calc_bytes(&c).len() < 256 {
            return c;
        }
    }
}
fn calc_deep(r: &mut Rng, depth: usize) -> Vec<Tok> {
    let mut o = vec![];
    let op = |s: &str| Tok::Op(s.into());
    if r.chance(1, 12) {
        o.push(op(" "));
    }
    for i in 0..r.range(1, 4) {
        if i > 0 {
            if r.chance(1, 2) {
                o.push(Tok::Op(" ".into()));
            }
            o.push(Tok::Op((*r.pick(&["+", "-", "*", "/", "<", "<=", "==", "!=", ">=", ">", "&"])).into()));
            if r.chance(1, 2) {
                o.push(Tok::Op(" ".into()));
            }
        }
        if depth > 0 && r.chance(1, 5) {
            match r.below(4) {
                0 => o.push(op("(")),
                1 => {
                    o.extend([op("Get"), op("("), op(*r.pick(&["CurrentTime", "AccountName", "DocumentsPath", "DocumentsPathListing"])), op(")")]);
                    continue;
                }
                _ => o.extend([op(*r.pick(&["Abs", "Acos", "Char"])), op("(")]),
            }
            o.extend(calc_deep(r, depth - 1));
            o.push(op(")"));
            continue;
        }
        o.push(match r.below(3) {
            0 => Tok::Num(r.next() as u8),
            1 => Tok::Str(match r.below(12) {
                0 => "x".repeat(r.range(100, 255)),
                1 => String::new(),
                _ => (*r.pick(&["hello", "a b", "Jeff", "x9", "größe", "名前", "(", "é", " ", "Z", "ZZ top", "tail ", "\n"])).into(),
            }),
            _ if r.chance(1, 12) => Tok::Var(format!("${}", "long_".repeat(r.range(4, 24)))),
            _ => Tok::Var((*r.pick(&["$x", "$total", "$$glob", "i", "$größe", "$名"])).into()),
        });
    }
    if r.chance(1, 12) {
        o.push(op(" "));
    }
    o
}

/// A schema; `size` from 0 (tiny) up.
pub fn gen_schema(r: &mut Rng, size: usize) -> Schema {
    let mut s = Schema::default();
    let scale = |r: &mut Rng, k: usize| r.below(1 + k * (size + 1));
    /* Now and then a great many of one kind. */
    let crowd = if r.chance(1, 40) { r.below(6) } else { usize::MAX };
    let many = crate::burn::crowd_size(r);
    let nt = if crowd == 0 { many } else { 1 + scale(r, 3) };
    let fields_of = if crowd == 1 { r.below(nt) } else { usize::MAX };
    for (k, id) in ids(r, nt, 1, 255).into_iter().enumerate() {
        let nf = match crowd {
            1 if fields_of == k => 2 * many,
            0 => r.below(2),
            _ => scale(r, 4),
        };
        let fields = ids(r, nf, 1, 383)
            .into_iter()
            .enumerate()
            .map(|(j, id)| FieldS {
                id,
                name: name(r, j),
                ftype: { let n = r.range(1, 6); (0..n).map(|_| (r.below(12) as u8) ^ if r.chance(1, 8) { 0x5A } else { 0 }).collect() },
                desc: if r.chance(1, 3) { name(r, 7) } else { String::new() },
                account: (*r.pick(&["Admin", "admin", "rasmus", "Jürgen"])).into(),
                user: (*r.pick(&["Kevin", "root", "DESKTOP-7", "o"])).into(),
            })
            .collect();
        s.tables.push(TableS { id, name: name(r, k), fields });
    }
    let no = if crowd == 2 { many } else { scale(r, 4) };
    let top = *r.pick(&[127, 127, 255, 300, 2000, 65535]).max(&if crowd == 2 { 255 } else { 0 });
    for (k, id) in ids(r, no, 0, top).into_iter().enumerate() {
        let table = r.pick(&s.tables).id as u8;
        s.occs.push(OccS { id, name: name(r, k), table });
    }
    if r.chance(1, 4) && !s.occs.is_empty() {
        /* Occurrences need not be stored in the order of their numbers. */
        r.shuffle(&mut s.occs);
    }
    if !s.occs.is_empty() {
        let nr = if crowd == 3 { many.min(120) } else { scale(r, 2) };
        for id in ids(r, nr, 1, 127) {
            let (a, b) = (r.pick(&s.occs).id, r.pick(&s.occs).id);
            s.rels.push(RelS { id: id as u8, a, b, cmp: r.below(7) as u8, f1: r.range(1, 255) as u8, f2: r.range(1, 255) as u8 });
        }
        /* A layout names its occurrence in one byte. */
        let low: Vec<u16> = s.occs.iter().map(|o| o.id).filter(|i| *i < 128).collect();
        let nl = match low.len() {
            0 => 0,
            _ if crowd == 4 => many,
            _ => scale(r, 3),
        };
        for (k, id) in ids(r, nl, 1, 383).into_iter().enumerate() {
            s.layouts.push(LayoutS { id, name: name(r, k), occ: *r.pick(&low) as u8 });
        }
    }
    let ns = if crowd == 5 { many } else { scale(r, 3) };
    let top = *r.pick(&[255, 255, 383]);
    let sid = ids(r, ns, 1, top);
    let targets: Vec<u16> = sid.iter().copied().filter(|i| *i < 256).collect();
    for (k, id) in sid.iter().enumerate() {
        let n = match r.below(5) {
            0 => 0,
            _ if crowd == 5 => r.range(1, 3),
            1 => r.range(8, 12),
            2 if r.chance(1, 12) => r.range(120, 383),
            2 if size > 0 => r.range(20, 60),
            _ => r.range(1, 6),
        };
        let two = n < 256 && r.chance(1, 2);
        let steps = (0..n)
            .map(|j| {
                let (op, _) = *r.pick(INSTR);
                let op = match r.below(4) {
                    0 => 141,
                    1 => 1,
                    _ => op,
                };
                let op = if op == 1 && targets.is_empty() { 71 } else { op };
                StepS {
                    op,
                    index: if two { 128 + j as u16 } else { j as u16 + 1 },
                    target: if targets.is_empty() { 0 } else { *r.pick(&targets) },
                    name: (op == 141).then(|| (*r.pick(&["$x", "$total", "$$glob", "i"])).to_string()),
                    calc: (matches!(op, 141 | 68 | 72 | 125 | 76 | 103) || r.chance(1, 8)).then(|| calc(r)).filter(|_| op == 141 || r.chance(2, 3)),
                }
            })
            .collect();
        let form = match r.below(4) {
            0 if n < 120 => 1,
            0 | 1 => 28 * r.range(1, 20) as u16 + r.below(2) as u16 * r.below(28) as u16,
            _ if n < 120 => 0,
            _ => 2800,
        };
        s.scripts.push(ScriptS { id: *id, name: name(r, k), steps, form });
    }
    let nd = scale(r, 2);
    for (k, id) in ids(r, nd, 1, 383).into_iter().enumerate() {
        s.sources.push(SourceS {
            id,
            name: name(r, k),
            user: (*r.pick(&["Kevin", "root", "x"])).into(),
            path: {
                let n = if r.chance(1, 8) { r.range(5, 16) } else { r.below(4) };
                let mut p = (0..n).map(|_| *r.pick(&["dir", "Data", "other files", "v2", "..", "hh", "thé"])).collect::<Vec<_>>().join("/");
                if r.chance(1, 4) {
                    p.insert_str(0, *r.pick(&["file:", "h:"]));
                }
                p
            },
            file: (*r.pick(&["Customers", "blank", "Invoice Data", "a", "A copy of the data of all the years before"])).into(),
        });
    }
    s
}

pub fn gen_phys(r: &mut Rng) -> Phys {
    let seed = r.next();
    Phys {
        seed,
        unused: match r.below(200) {
            0 => r.range(1000, 1300) as u16,
            1..=3 => r.range(200, 400) as u16,
            4..=99 => r.below(12) as u16,
            _ => 0,
        },
        split: match r.below(60) {
            0 => 100,
            _ => *r.pick(&[0, 0, 2, 5, 10, if seed % 6 == 0 { 40 } else { 3 }]),
        },
        permute: r.chance(2, 3),
        pad: *r.pick(&[0, 0, 5, 30]),
        decoy: *r.pick(&[0, 10, 40, 80]),
    }
}
