//! The properties: how cases are made for each, and what decides them.

use crate::burn::*;
use crate::case::*;
use crate::image::{self, *};
use crate::prng::{mix, Rng};
use crate::vfs::Vfs;
use crate::asbuilt::{self, Quirks};
use crate::unpack;
use crate::vm;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

// ------------------------------------------------------------- environment

fn frag(r: &mut Rng) -> Frag {
    if r.chance(1, 4) {
        return Frag::default();
    }
    Frag {
        short_read: *r.pick(&[0, 10, 50, 95]),
        read_max: *r.pick(&[1, 2, 7, 100, 3000]),
        short_write: *r.pick(&[0, 10, 50, 95]),
        write_max: *r.pick(&[64, 500, 3000]),
        interrupt: *r.pick(&[0, 0, 5, 30]),
    }
}
fn env(r: &mut Rng) -> Env {
    Env {
        seed: r.next(),
        clock_s: *r.pick(&[0, 1, 86_399, 951_782_400, 1_700_000_000, 2_147_483_647, 4_102_444_800]) + r.below(100_000) as i64,
        tick_ns: *r.pick(&[0, 1, 1000, 50_000_000, 999_999_999, 3_000_000_000]),
        frag: frag(r),
        console: r.chance(1, 3),
        memory_mb: 1024,
        zone: r.below(5) as u8,
    }
}

// ------------------------------------------------------------ test programs

const FIELDS: &[&str] = &["PrimaryKey", "name", "Amount", "f1", "näme", "x"];

/// A schema tests can work on: names that can be written in a calculation.
pub fn data_schema(r: &mut Rng) -> (Schema, DataCtx) {
    let mut s = Schema::default();
    let mut d = DataCtx::default();
    let nt = r.range(1, 3);
    let mut id = 0;
    for k in 0..nt {
        id += 1 + if r.chance(1, 4) { { let k = *r.pick(&[40, 80]); r.below(k) as u16 } } else { 0 };
        let mut fid = 0;
        let mut names: Vec<&str> = FIELDS.to_vec();
        r.shuffle(&mut names);
        let least = if r.chance(1, 10) { 0 } else { 1 };
        let nf = r.range(least, 3);
        let fields = names[..nf]
            .iter()
            .map(|n| {
                fid += 1 + if r.chance(1, 5) { { let k = *r.pick(&[30, 120]); r.below(k) as u16 } } else { 0 };
                FieldS { id: fid, name: n.to_string(), ftype: vec![1, 2], desc: String::new(), account: "Admin".into(), user: "root".into() }
            })
            .collect();
        s.tables.push(TableS { id, name: format!("base_{}", ident(r, k)), fields });
    }
    let no = r.range(1, 5);
    let mut oid = r.below(3) as u16;
    for k in 0..no {
        let t = r.below(nt);
        s.occs.push(OccS { id: oid, name: ident(r, k), table: s.tables[t].id as u8 });
        oid += 1 + if r.chance(1, 4) { { let k = *r.pick(&[15, 30]); r.below(k) as u16 } } else { 0 };
    }
    for k in 0..r.range(1, 6) {
        let o = r.below(no);
        s.layouts.push(LayoutS { id: k as u16 + 1, name: image::name(r, k), occ: s.occs[o].id as u8 });
        d.layouts.push((s.layouts[k].name.clone(), o));
    }
    if no > 1 && r.chance(1, 3) {
        s.rels.push(RelS { id: 1, a: s.occs[0].id, b: s.occs[1].id, cmp: 0, f1: 1, f2: 1 });
    }
    for o in &s.occs {
        let t = s.tables.iter().find(|t| t.id == o.table as u16).unwrap();
        d.occs.push((o.name.clone(), t.fields.iter().map(|f| f.name.clone()).collect()));
    }
    (s, d)
}

/// Stored scripts that the test language could have been written in.
fn to_stored(s: &ScriptD, id: u16, ids: &BTreeMap<String, u16>, r: &mut Rng) -> Option<ScriptS> {
    fn tok(e: &E) -> Option<Vec<Tok>> {
        let sp = Tok::Op(" ".into());
        let two = |a: &E, op: &str, b: &E| -> Option<Vec<Tok>> {
            let mut v = tok(a)?;
            v.extend([sp.clone(), Tok::Op(op.into()), sp.clone()]);
            v.extend(tok(b)?);
            Some(v)
        };
        Some(match e {
            E::Num(n) if *n < 256 => vec![Tok::Num(*n as u8)],
            E::Str(t) if t.is_ascii() && !t.is_empty() => vec![Tok::Str(t.clone())],
            E::Var(v) if v.is_ascii() => vec![Tok::Var(v.clone())],
            E::Arith(a, o, b) => two(a, &o.to_string(), b)?,
            E::Eq(a, b) => two(a, "==", b)?,
            E::Ne(a, b) => two(a, "!=", b)?,
            E::Cat(v) => {
                let mut o = tok(v.first()?)?;
                for x in &v[1..] {
                    o.extend([sp.clone(), Tok::Op("&".into()), sp.clone()]);
                    o.extend(tok(x)?);
                }
                o
            }
            _ => return None,
        })
    }
    type Row = (u8, u16, Option<String>, Option<Vec<Tok>>);
    fn go(b: &[S], ids: &BTreeMap<String, u16>, o: &mut Vec<Row>) -> Option<()> {
        for s in b {
            match s {
                S::Set(v, e) => o.push((141, 0, Some(v.clone()), Some(tok(e)?))),
                S::Show(e) => o.push((87, 0, None, Some(tok(e)?))),
                S::ExitIf(e) => o.push((72, 0, None, Some(tok(e)?))),
                S::New => o.push((7, 0, None, None)),
                S::FindMode => o.push((22, 0, None, None)),
                S::Find => o.push((28, 0, None, None)),
                S::All => o.push((23, 0, None, None)),
                S::Goto(p, None) => o.push((16, 0, None, Some(tok(p)?))),
                S::Loop(b) => {
                    o.push((71, 0, None, None));
                    go(b, ids, o)?;
                    o.push((73, 0, None, None));
                }
                S::If(arms, els) => {
                    for (i, (c, b)) in arms.iter().enumerate() {
                        o.push((if i == 0 { 68 } else { 125 }, 0, None, Some(tok(c)?)));
                        go(b, ids, o)?;
                    }
                    if let Some(b) = els {
                        o.push((69, 0, None, None));
                        go(b, ids, o)?;
                    }
                    o.push((70, 0, None, None));
                }
                S::Call(n) => o.push((1, *ids.get(n)?, None, None)),
                S::Assert(_) | S::Unknown(_) | S::ExitScript(_) => {}
                _ => return None,
            }
        }
        Some(())
    }
    let mut v = vec![];
    go(&s.body, ids, &mut v)?;
    if v.len() > 100 {
        return None;
    }
    let base = if v.len() < 120 && r.chance(1, 2) { 1 } else { 128 };
    let steps = v
        .into_iter()
        .enumerate()
        .map(|(i, (op, target, name, calc))| StepS { op, index: base + i as u16, target, name, calc })
        .collect();
    Some(ScriptS { id, name: s.name.clone(), steps, form: if r.chance(1, 3) { 1 } else { 0 } })
}

/// The reverse, for the model.
fn from_stored(s: &ScriptS, all: &[ScriptS]) -> Option<ScriptD> {
    fn expr(t: &[Tok]) -> Option<E> {
        let t: Vec<&Tok> = t.iter().filter(|x| !matches!(x, Tok::Op(s) if s == " ")).collect();
        let atom = |x: &Tok| {
            Some(match x {
                Tok::Num(n) => E::Num(*n as u32),
                Tok::Str(s) => E::s(s),
                Tok::Var(v) => E::v(v),
                _ => return None,
            })
        };
        if t.len() == 1 {
            return atom(t[0]);
        }
        if t.len() >= 3 && t.len() % 2 == 1 {
            let Tok::Op(op) = t[1] else { return None };
            if op == "&" {
                if !t.iter().skip(1).step_by(2).all(|x| matches!(x, Tok::Op(o) if o == "&")) {
                    return None;
                }
                return Some(E::Cat(t.iter().step_by(2).map(|x| atom(x)).collect::<Option<Vec<_>>>()?));
            }
            if t.len() == 3 {
                let (a, b) = (Box::new(atom(t[0])?), Box::new(atom(t[2])?));
                return Some(match op.as_str() {
                    "+" | "-" | "*" => E::Arith(a, op.chars().next().unwrap(), b),
                    "==" => E::Eq(a, b),
                    "!=" => E::Ne(a, b),
                    _ => return None,
                });
            }
        }
        None
    }
    fn block(st: &[StepS], i: &mut usize, all: &[ScriptS]) -> Option<Vec<S>> {
        let mut o = vec![];
        while *i < st.len() {
            let s = &st[*i];
            let calc = || expr(s.calc.as_ref()?);
            match s.op {
                73 | 70 | 69 | 125 => return Some(o),
                141 => o.push(S::Set(s.name.clone()?, calc()?)),
                87 => o.push(S::Show(calc()?)),
                72 => o.push(S::ExitIf(calc()?)),
                1 => o.push(S::Call(all.iter().find(|x| x.id == s.target)?.name.clone())),
                7 => o.push(S::New),
                22 => o.push(S::FindMode),
                28 => o.push(S::Find),
                23 => o.push(S::All),
                16 => o.push(S::Goto(calc()?, None)),
                71 => {
                    *i += 1;
                    let b = block(st, i, all)?;
                    if st.get(*i)?.op != 73 {
                        return None;
                    }
                    o.push(S::Loop(b));
                }
                68 => {
                    let mut arms = vec![];
                    let mut els = None;
                    loop {
                        let c = st.get(*i)?;
                        *i += 1;
                        match c.op {
                            68 | 125 => arms.push((expr(c.calc.as_ref()?)?, block(st, i, all)?)),
                            69 => els = Some(block(st, i, all)?),
                            _ => return None,
                        }
                        if st.get(*i)?.op == 70 {
                            break;
                        }
                    }
                    o.push(S::If(arms, els));
                }
                _ => return None,
            }
            *i += 1;
        }
        Some(o)
    }
    let mut i = 0;
    let body = block(&s.steps, &mut i, all)?;
    (i == s.steps.len()).then(|| ScriptD { name: s.name.clone(), args: vec![], body })
}

fn profile(prop: &str, r: &mut Rng) -> Profile {
    let p = |data, control, calls, fail, time, depth, len| Profile { data, control, calls, fail, time, depth, len };
    match prop {
        "C08" => p(4, 3, 2, 2, 0, 2, 4),
        "C09" => p(2, 3, 2, 2, 0, 2, 4),
        "C10" => p(if r.chance(1, 4) { 1 } else { 0 }, 2, 8, 0, 0, 2, 4),
        "C11" => p(12, 2, 0, 0, 0, 2, 8),
        "C12" => p(0, 2, 2, 0, 6, 2, 4),
        "C13" => p(if r.chance(1, 4) { 3 } else { 0 }, 9, 1, 0, 0, 4, 4),
        _ => p(if r.chance(1, 3) { 4 } else { 0 }, 4, 3, 1, 0, 2, 4),
    }
}

/// Puts an image or a source with scripts, and test files, into a case, such
/// that the model accepts the programs.
fn gen_testing(c: &mut Case, r: &mut Rng, prop: &str, with_image: bool, max_tests: usize) {
    let p = profile(prop, r);
    let small = Profile { len: 2, depth: 1, ..p.clone() };
    /* Half of the cases may run into recorded defects of the test environment. */
    let wild = matches!(prop, "C08" | "C12") || (matches!(prop, "C09" | "C10" | "C11" | "C13") && r.chance(1, 2));
    for attempt in 0..60 {
        let mut g = r.fork();
        let r = &mut g;
        let p = if attempt > 40 { &small } else { &p };
        c.files.clear();
        c.procs.clear();
        let style = if r.chance(1, 3) { 0 } else { r.next() };
        let crowd = p.calls > 0 && r.chance(1, 40);
        let nlib = match p.calls {
            0 => 0,
            _ if crowd => r.range(12, 45),
            _ => r.range(1, 4),
        };
        let many = max_tests > 4 && r.chance(1, 10);
        let ntests = if many { r.range(10, 24) } else { r.range(1, max_tests) };
        let p = if many || crowd { &small } else { p };
        let mut cmd = Cmd { no_testing: false, ..Cmd::default() };
        let mut data = DataCtx::default();
        let mut callable: Vec<String> = vec![];
        let mut main_decls = vec![];
        if with_image {
            let (mut s, d) = data_schema(r);
            data = d;
            let lp = Profile { data: p.data.min(1), ..p.clone() };
            let lib = gen_library(r, &lp, &DataCtx { occs: vec![], layouts: vec![], initial: usize::MAX }, nlib);
            /* A script calls later ones only, so the last is converted first. */
            let mut ids = BTreeMap::new();
            for (k, l) in lib.iter().enumerate().rev() {
                if let Some(x) = to_stored(l, k as u16 + 1, &ids, r) {
                    callable.insert(0, x.name.clone());
                    ids.insert(x.name.clone(), x.id);
                    s.scripts.insert(0, x);
                }
            }
            let phys = if r.chance(1, 2) { Phys::plain() } else { gen_phys(r) };
            c.add("data.fmp12", Body::Img(Image { schema: s, phys }));
            cmd.decompile.push("data.fmp12".into());
        } else {
            let p0 = Profile { data: 0, ..p.clone() };
            let lib = gen_library(r, &p0, &data, nlib);
            callable = lib.iter().map(|l| l.name.clone()).collect();
            /* The order of declaration means nothing for calls. */
            let mut lib = lib;
            r.shuffle(&mut lib);
            if r.chance(1, 2) {
                main_decls.extend(lib.into_iter().map(|l| D::Scripts(vec![l])));
            } else if !lib.is_empty() {
                main_decls.push(D::Scripts(lib));
            }
        }
        let pt = if with_image { p.clone() } else { Profile { data: 0, ..p.clone() } };
        let mut tests = vec![];
        /* Tests and scripts may share their names. */
        let same = r.chance(1, 5);
        for k in 0..ntests {
            let mut body = gen_test(r, &pt, &data, &callable);
            if r.chance(1, 400) {
                let at = r.below(body.len() + 1);
                body.splice(at..at, gen_long(r));
            }
            let script = match r.below(6) {
                0..=2 => "run".to_string(),
                3 if !callable.is_empty() => r.pick(&callable).clone(),
                _ => format!("script_{k}"),
            };
            let name = match (same, r.below(12)) {
                (true, 0..=8) => "Same".to_string(),
                (true, _) => (*r.pick(&["same", "SAME", "Sam", "Same_"])).to_string(),
                (_, 0) if k < 40 => (*r.pick(&["tests", "running", "Success", "x", "inf", "ending", "A-1"])).to_string() + &"'".repeat(k),
                _ => format!("{}{k}", r.pick(&["Test", "basic_", "größe", "t"])),
            };
            tests.push(D::Test(name, ScriptD { name: script, args: vec![], body }));
        }
        /* Tests are spread over test files and, when compiling, the source itself. */
        let spread = r.chance(1, 12);
        let mut at = 0;
        while at < tests.len() {
            let n = if spread { 1 } else { r.range(1, tests.len() - at) };
            let part = tests[at..at + n].to_vec();
            at += n;
            let last = at == tests.len();
            if !with_image && last && r.chance(1, 2) {
                for t in part {
                    let i = r.below(main_decls.len() + 1);
                    main_decls.insert(i, t);
                }
                break;
            }
            let f = format!("{}{}.burn", r.pick(&["tests", "t/more", "check", "a,b ", "./t/../t-"]), cmd.tests.len());
            let file = Body::Burn(Source { decls: part, style: style ^ (at as u64 & if style == 0 { 0 } else { 0xff }) });
            c.add(&f, file.clone());
            cmd.tests.push(f.clone());
            if prop != "C08" && r.chance(1, 15) {
                /* The same tests once more, from a copy or from the same file. */
                if r.chance(1, 2) {
                    c.add("copy.burn", file);
                    cmd.tests.push("copy.burn".into());
                } else {
                    cmd.tests.push(f);
                }
            }
        }
        if !with_image {
            c.add("main.burn", Body::Burn(Source { decls: main_decls, style }));
            cmd.compile.push("main.burn".into());
        }
        if prop != "C08" && !cmd.tests.is_empty() && r.chance(1, 6) {
            /* A second input: the same tests, scripts of the same names. */
            if with_image {
                let (mut s, _) = data_schema(r);
                if let (true, Some(i)) = (r.chance(1, 2), c.image()) {
                    s = i.schema.clone();
                    if r.chance(1, 2) {
                        s.scripts.clear();
                    }
                }
                c.add("second.fmp12", Body::Img(Image { schema: s, phys: gen_phys(r) }));
                cmd.decompile.push("second.fmp12".into());
            } else {
                let p0 = Profile { data: 0, ..p.clone() };
                let mut lib = gen_library(r, &p0, &DataCtx::default(), nlib);
                for (l, n) in lib.iter_mut().zip(&callable) {
                    if !callable.iter().any(|c| *c == l.name) {
                        l.name = n.clone();
                    }
                }
                let mut d = vec![D::Scripts(lib)];
                if r.chance(1, 3) {
                    d.push(D::Test("own".into(), ScriptD { name: "run".into(), args: vec![], body: gen_test(r, &p0, &DataCtx::default(), &callable) }));
                }
                c.add("second.burn", Body::Burn(Source { decls: d, style: r.next() }));
                cmd.compile.push("second.burn".into());
            }
        }
        c.procs = vec![cmd.args()];
        if model(c, &cmd).is_err() {
            continue;
        }
        use asbuilt::End;
        let ok = match wild {
            true => match as_built(c, &cmd, &Quirks::all(), &[]).map(|s| s.end) {
                Ok(End::Hang) | Err(_) => false,
                Ok(End::Abort) => prop != "C08" && g.chance(1, 6),
                _ => true,
            },
            false => programs(c, &cmd).is_ok_and(|v| v.iter().all(|p| p.with(tame))),
        };
        if ok {
            return;
        }
    }
    c.files.clear();
    c.add("main.burn", Body::Burn(Source { decls: vec![], style: 0 }));
    c.procs = vec![Cmd { compile: vec!["main.burn".into()], ..Cmd::default() }.args()];
}

/// What one input of a command is tested with. Every input is a schema of its own,
/// and the tests of the test files are run against each.
struct Program<'a> {
    schema: Option<&'a Schema>,
    scripts: Vec<std::borrow::Cow<'a, ScriptD>>,
    tests: Vec<(&'a String, &'a ScriptD)>,
}
impl Program<'_> {
    fn with<T>(&self, f: impl FnOnce(Option<&Schema>, &[&ScriptD], &[(&String, &ScriptD)]) -> T) -> T {
        let own: Vec<&ScriptD> = self.scripts.iter().map(|s| s.as_ref()).collect();
        f(self.schema, &own, &self.tests)
    }
}
fn programs<'a>(c: &'a Case, cmd: &Cmd) -> Result<Vec<Program<'a>>, &'static str> {
    use std::borrow::Cow;
    let mut tests: Vec<(&String, &ScriptD)> = vec![];
    for t in &cmd.tests {
        tests.extend(c.source(t).ok_or("no test file")?.tests());
    }
    let mut v = vec![];
    for x in &cmd.compile {
        let s = c.source(x).ok_or("no source")?;
        let mut tests = tests.clone();
        tests.extend(s.tests());
        v.push(Program { schema: None, scripts: s.scripts().into_iter().map(Cow::Borrowed).collect(), tests });
    }
    for x in cmd.decompile.iter().filter(|_| cmd.compile.is_empty()) {
        let img = c.image_at(x).ok_or("no image")?;
        let own = img.schema.scripts.iter().map(|s| from_stored(s, &img.schema.scripts).map(Cow::Owned)).collect::<Option<Vec<_>>>().ok_or("script")?;
        v.push(Program { schema: Some(&img.schema), scripts: own, tests: tests.clone() });
    }
    if v.is_empty() {
        return Err("no input");
    }
    Ok(v)
}

/// What the model says about the tests of a command.
fn model(c: &Case, cmd: &Cmd) -> Result<Vec<vm::Section>, &'static str> {
    let mut v = vec![];
    for p in programs(c, cmd)? {
        v.extend(p.with(vm::run_all)?);
    }
    Ok(v)
}

/// What the tests of a command show when the recorded defects take effect.
fn as_built(c: &Case, cmd: &Cmd, q: &Quirks, notes: &[Vec<String>]) -> Result<asbuilt::Shown, &'static str> {
    let mut all = asbuilt::Shown { lines: vec![], end: asbuilt::End::Success };
    for (k, p) in programs(c, cmd)?.iter().enumerate() {
        all.lines.extend(notes.get(k).into_iter().flatten().cloned());
        let s = p.with(|a, b, t| asbuilt::run_all(q, a, b, t));
        all.lines.extend(s.lines);
        all.end = s.end;
        if all.end != asbuilt::End::Success {
            break;
        }
    }
    Ok(all)
}

/// The same as plain lines.
fn plain_lines(v: &[vm::Section]) -> Vec<String> {
    texts(&vm::expected_lines(v))
}
fn texts(v: &[vm::Line]) -> Vec<String> {
    v.iter()
        .map(|l| match l {
            vm::Line::Text(t) => t.clone(),
            vm::Line::Clock(_) => "\u{1}".into(),
        })
        .collect()
}

/// Whether the recorded defects of the test environment leave these tests alone.
fn tame(schema: Option<&Schema>, scripts: &[&ScriptD], tests: &[(&String, &ScriptD)]) -> bool {
    match vm::run_all(schema, scripts, tests) {
        Ok(w) => {
            let b = asbuilt::run_all(&Quirks::all(), schema, scripts, tests);
            b.end == asbuilt::End::Success && b.lines == plain_lines(&w)
        }
        Err(_) => false,
    }
}

// --------------------------------------------------------------- generation

/// Burn sources as a user writes them, for the properties about compiling.
fn gen_source(r: &mut Rng, size: usize, tests: bool) -> Source {
    let mut decls = gen_decls(r, size);
    let p = Profile { data: 0, control: 3, calls: 2, fail: 1, time: 0, depth: 2, len: 3 };
    let n = r.below(size + 1);
    let lib = gen_library(r, &p, &DataCtx::default(), n);
    let names: Vec<String> = lib.iter().map(|l| l.name.clone()).collect();
    let mut scripts: Vec<D> = vec![];
    if r.chance(1, 2) && !lib.is_empty() {
        scripts.push(D::Scripts(lib));
    } else {
        scripts.extend(lib.into_iter().map(|l| D::Scripts(vec![l])));
    }
    if r.chance(1, 100) {
        /* Sources larger than any buffer on their way. */
        let body = gen_long(r);
        scripts.push(D::Scripts(vec![ScriptD { name: "long".into(), args: vec![], body }]));
    }
    decls.extend(scripts);
    if tests {
        for k in 0..r.below(3) {
            for _ in 0..20 {
                let b = gen_test(r, &p, &DataCtx::default(), &names);
                let s = ScriptD { name: "main".into(), args: vec![], body: b };
                let all: Vec<&ScriptD> = decls.iter().filter_map(|d| if let D::Scripts(v) = d { Some(v.iter()) } else { None }).flatten().collect();
                let n = format!("T{k}");
                if tame(None, &all, &[(&n, &s)]) {
                    decls.push(D::Test(n, s));
                    break;
                }
            }
        }
    }
    if r.chance(1, 40) {
        let kind = r.below(if tests { 7 } else { 6 });
        let n = crowd_size(r);
        let n = match kind {
            0 => n.min(18),
            1 => n.min(40),
            _ => n,
        };
        let all = Source { decls: [decls.clone(), gen_crowd(r, n, kind, ident)].concat(), style: 0 };
        if room(&all) < 2500 {
            decls = all.decls;
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut decls);
    }
    Source { decls, style: if r.chance(1, 3) { 0 } else { r.next() } }
}

/// A source for C14: any declared scripts, whether or not they could run.
fn gen_declared(r: &mut Rng, size: usize) -> Source {
    let name = if r.chance(1, 2) { ident } else { free_ident };
    let mut decls = gen_decls_named(r, size, name);
    let data = DataCtx { occs: vec![("occ".into(), vec!["f".into(), "näme".into()])], layouts: vec![("Main".into(), 0)], initial: 0 };
    let p = Profile { data: 3, control: 4, calls: 2, fail: 1, time: 1, depth: 3, len: 4 };
    let mut k = 0;
    let script = |r: &mut Rng, k: &mut usize| {
        *k += 1;
        let n = if r.chance(1, 15) { r.range(3, 14) } else { r.below(3) };
        let args = (0..n).map(|i| format!("arg{i}")).collect();
        let raw = r.chance(1, 2);
        let mut body = gen_body(r, &p, &data, &["sub1".to_string()], raw);
        if r.chance(1, 120) {
            let at = r.below(body.len() + 1);
            body.splice(at..at, gen_long(r));
        }
        if r.chance(1, 60) {
            let n = crowd_size(r) * r.range(1, 3);
            body.extend((0..n).map(|k| if k % 3 == 0 { S::Show(E::Num(k as u32)) } else { S::Set(format!("v{k}"), E::Num(1)) }));
        }
        let mut name = format!("{}{}", r.pick(&["define_", "s", "loopy", "ändern"]), k);
        if r.chance(1, 5) {
            name = (*r.pick(&["inf", "nan", "elsewhere", "iffy", "lets", "a.b", "x'", "名", "set_variable", "Define", "a_rather_long_name_of_a_script_that_goes_on_and_on_for_no_reason_other_than_to_be_long"])).to_string();
        }
        ScriptD { name, args, body }
    };
    for _ in 0..r.below(size + 1) {
        let n = r.range(1, 3);
        let v = (0..n).map(|_| script(r, &mut k)).collect();
        decls.push(D::Scripts(v));
    }
    for _ in 0..r.below(3) {
        let s = script(r, &mut k);
        decls.push(D::Test(name(r, k), s));
    }
    if r.chance(1, 12) {
        let (n, kind) = (crowd_size(r), r.below(7));
        decls.extend(gen_crowd(r, n, kind, name));
    }
    if r.chance(1, 8) && !decls.is_empty() {
        /* Word for word the same again. */
        for _ in 0..r.range(1, 3) {
            let again = r.pick(&decls).clone();
            decls.push(again);
        }
    }
    if r.chance(3, 4) {
        r.shuffle(&mut decls);
    }
    Source { decls, style: if r.chance(1, 5) { 0 } else { r.next() } }
}

/// Inputs under names of another kind: a source called like an image, an image like a source.
fn misnamed(c: &mut Case, r: &mut Rng) {
    let cmd = Cmd::parse(&c.procs[0]);
    let Some(old) = cmd.compile.first().or(cmd.decompile.first()) else { return };
    let new = match cmd.compile.is_empty() {
        false => *r.pick(&["Invoices.fmp12", "d/Invoices.fmp12", "notes.txt", "burn", "x.BURN", "x.burn.bak", ".burn", "x.burn~", "big.FMP12", "v1.2"]),
        true => *r.pick(&["main.burn", "x.burn", "image", "x.fmp12.bak", ".fmp12", "x.json"]),
    };
    if c.files.iter().any(|f| abs(&f.path) == abs(new)) {
        return;
    }
    for f in &mut c.files {
        if f.path == *old {
            f.path = new.into();
        }
    }
    for a in &mut c.procs[0].args {
        if a == old {
            *a = new.into();
        }
    }
}

fn source_name(r: &mut Rng) -> String {
    if r.chance(1, 20) {
        let n = *r.pick(&[17, 25, 40, 64, 70, 130, 200]);
        let s: String = "A long name of a source, v1.2 größe ".chars().cycle().take(n).collect();
        return format!("{}.burn", s.trim_end());
    }
    (*r.pick(&["main.burn", "Invoices.burn", "src/app.burn", "a b.burn", "v1.2.burn", "x.burn.burn", ".burn.burn", "größe.burn", "deep/er/x.burn", "/other/lib.burn", "./here.burn", "deep/../up.burn", "a,b.burn", "it's $(x)*.burn", "x.fmp12.burn"])).to_string()
}

fn damage(r: &mut Rng, base: &Body, n: usize) -> Vec<Mut> {
    let d = base.bytes();
    let len = d.len().max(1);
    let blocks = len.div_ceil(4096).max(1);
    (0..n)
        .map(|_| {
            let b = r.below(blocks);
            match r.below(14) {
                0 => Mut::Truncate(if r.chance(1, 2) { r.below(len + 1) } else { r.below(blocks + 1) * 4096 + r.below(40) }),
                1 => Mut::Extend(r.range(1, 9000), *r.pick(&[0, 0x80, 0xff, 0x40, 0x20, 1])),
                2 => Mut::Zero(b),
                3 => Mut::Copy(r.below(blocks), b),
                4 => Mut::Noise(b, r.next()),
                5 | 6 => {
                    let any = r.below(blocks + 2) as u32;
                    Mut::Link(b, *r.pick(&[0, 1, 2, 3, blocks as u32, blocks as u32 + 1, 0xffff, 0x7fff_ffff, 0xffff_ffff, any]))
                }
                7 => Mut::Flip(r.below(len), r.below(8) as u8),
                _ => {
                    /* Inside the used part of a block, with telling values. */
                    let mut at = b * 4096 + r.below(4096);
                    if r.chance(2, 3) {
                        let used = (b * 4096..((b + 1) * 4096).min(len)).rev().find(|i| !matches!(d.get(*i), Some(0x80 | 0) | None)).unwrap_or(b * 4096);
                        at = b * 4096 + r.below((used - b * 4096).max(1) + 1);
                    }
                    let v = match r.below(4) {
                        0 => vec![r.next() as u8],
                        1 => vec![*r.pick(&[0xff, 0x00, 0x80, 0xfe, 0x7f, 0x28, 0x30, 0x38, 0x20, 0x40, 0x3d, 0x07, 0x0f, 0x1f, 0x06, 0x0e])],
                        2 => vec![*r.pick(&[0x07, 0x0f, 0x1f, 0x06, 0x1e, 0x16, 0x17, 0x19, 0x1b, 0x23]), r.next() as u8, 0xff, 0xff, 0xff],
                        _ => (0..r.range(1, 8)).map(|_| r.next() as u8).collect(),
                    };
                    Mut::Set(at, v)
                }
            }
        })
        .collect()
}

fn some_image(r: &mut Rng, size: usize) -> Body {
    if r.chance(1, 8) {
        return Body::Blank;
    }
    let schema = gen_schema(r, size);
    let phys = gen_phys(r);
    Body::Img(Image { schema, phys })
}

/// A random command with its files, for the properties about failures.
fn gen_command(c: &mut Case, r: &mut Rng, broken: bool) {
    let tests = r.chance(1, 2);
    let mut cmd = Cmd::default();
    if r.chance(1, 2) {
        let n = source_name(r);
        c.add(&n, Body::Burn(gen_source(r, 3, tests)));
        cmd.compile.push(n);
        if r.chance(1, 8) {
            c.add("second.burn", Body::Burn(gen_source(r, 2, tests)));
            cmd.compile.push("second.burn".into());
        }
    } else if tests {
        gen_testing(c, r, "C08", true, 3);
        cmd = Cmd::parse(&c.procs[0]);
    } else {
        let b = some_image(r, 1);
        let n = *r.pick(&["in.fmp12", "imgs/old.fmp12", "weird name", "/other/x.fmp12", "./imgs/../a,b.fmp12"]);
        c.add(n, b);
        cmd.decompile.push(n.into());
        if r.chance(1, 8) {
            c.add("two.fmp12", some_image(r, 0));
            cmd.decompile.push("two.fmp12".into());
        }
    }
    if broken {
        for f in &mut c.files {
            if matches!(f.body, Body::Img(_) | Body::Blank) {
                let n = r.range(1, 3);
                let muts = damage(r, &f.body, n);
                f.body = Body::Broken(Box::new(f.body.clone()), muts);
            } else if let Body::Burn(s) = &f.body {
                f.body = Body::Text(mutate_text(r, &s.text()));
            }
        }
        cmd.no_testing = r.chance(9, 10);
    }
    if cmd.compile.is_empty() {
        cmd.header = r.chance(1, 2);
    } else if cmd.tests.is_empty() && r.chance(1, 3) {
        let s = Source { decls: gen_source(r, 1, true).decls.into_iter().filter(|d| matches!(d, D::Test(..))).collect(), style: r.next() };
        let names: Vec<_> = c.sources().next().map(|x| x.1.scripts()).unwrap_or_default();
        if !s.decls.is_empty() && tame(None, &names, &s.tests()) {
            c.add("extra_tests.burn", Body::Burn(s));
            cmd.tests.push("extra_tests.burn".into());
        }
    }
    c.procs = vec![cmd.args()];
}

fn mutate_text(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, *r.pick(&['{', '}', '[', ']', '(', ')', ';', ':', '"', ',', '=', '!', ' ', 'x', '9'])),
            2 => v.truncate(i),
            3 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            _ => {
                let n = r.below(30).min(v.len() - i);
                v.drain(i..i + n);
            }
        }
    }
    v.into_iter().collect()
}

/// Names up to the length FileMaker allows.
fn long_name(r: &mut Rng, k: usize) -> String {
    let n = *r.pick(&[1, 3, 8, 15, 16, 30, 63, 64, 90]);
    let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'e', 'k', 'l', 'm', 'o', 'q', 's', 'v', 'x', 'y', 'z', 'Z', 'M', 'A', '_', 'i', 't'])).collect();
    for d in format!("{k:03}").bytes() {
        s.push((b'a' + d - b'0') as char);
    }
    if r.chance(1, 8) {
        s.push_str(*r.pick(&["ü", "9", "É", "-", "€"]));
    }
    s
}

/// Sources that are damaged, unfinished or no sources at all.
fn rough_text(r: &mut Rng, size: usize) -> Body {
    const WORDS: &[&str] = &[
        "table", "end", "relationship", "value_list", "table_occurence", "script", "test", "define", "loop", "if", "elif", "else", "let", "assert",
        "set_variable", "perform_script", "x", "Main", "9", "1.5", "9a", "\"", "\"text\"", "(", ")", "[", "]", "{", "}", ";", ":", ",", "=", "==", "!",
        "!=", "<", ">", "+", "-", "*", "/", "&", "ü", "\u{0}", "\n", "\t", " ", "  ", "end table;", "table t:", "script: [", "define f() {",
        "test t: script: [ define f() {", "loop {", "if(x) {", "assertions", "\r\n", "\u{feff}",
    ];
    let base = if r.chance(1, 2) { gen_source(r, 1 + size, true) } else { gen_declared(r, 1 + size) };
    match r.below(10) {
        0..=3 => {
            let mut t = base.text();
            for _ in 0..*r.pick(&[1, 1, 1, 3, 10, 40]) {
                t = mutate_text(r, &t);
            }
            Body::Text(t)
        }
        4 => {
            let t = base.text();
            let n = t.chars().count();
            let k = r.below(n + 1);
            Body::Text(t.chars().take(k).collect())
        }
        5 | 6 => {
            let n = *r.pick(&[1, 2, 3, 5, 10, 50, 300]);
            let glue = *r.pick(&["", " ", "\n"]);
            let v: Vec<&str> = (0..r.range(1, n)).map(|_| *r.pick(WORDS)).collect();
            Body::Text(v.join(glue))
        }
        7 => {
            let w = *r.pick(WORDS);
            let k = *r.pick(&[10, 1000, 20_000]);
            let (a, b) = match r.below(4) {
                0 => ("", ""),
                1 => ("script: [ define f() { x(", "); } ]"),
                2 => ("table t: ", " end table;"),
                _ => ("test T: script: [ define f() {", "} ] end test;"),
            };
            Body::Text(format!("{a}{}{b}", w.repeat(k)))
        }
        8 => {
            let mut b = base.text().into_bytes();
            for _ in 0..r.range(1, 5) {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.next() as u8;
                }
            }
            Body::Bytes(b)
        }
        _ => match r.below(3) {
            0 => Body::Bytes(vec![]),
            1 => Body::Noise(r.below(30_000), r.next()),
            _ => Body::Blank,
        },
    }
}

const DECOYS: &[&str] = &[
    "notes.txt", "other.fmp12", "other.burn", "header.log.bak", "inspect_output/test_compile.bak", "inspect_output/old", "main.fmp12.bak",
    "sub/main.fmp12", "Main.fmp12", "x.fmp1", ".hidden", "/tmp/scratch", "/other/keep.fmp12", "fmp12", "tmp",
];

fn old_files(c: &mut Case, r: &mut Rng, extra: bool) {
    let cmd = Cmd::parse(&c.procs[0]);
    let mut v = vec![];
    for o in ["inspect_output/test_compile", "inspect_output/test_decompile", "header.log"] {
        if r.chance(1, 2) {
            v.push(FileC { path: o.into(), body: Body::Noise(*r.pick(&[0, 10, 5000, 200_000]), r.next()) });
        }
    }
    for s in &cmd.compile {
        let t = stem(s);
        if r.chance(1, 2) {
            v.push(FileC { path: format!("{t}.fmp12"), body: Body::Noise(*r.pick(&[0, 100, 20_480, 60_000]), r.next()) });
        }
        if r.chance(1, 6) {
            v.push(FileC { path: format!("{t}.fmp12.{}.tmp", r.range(100, 200)), body: Body::Noise(500, r.next()) });
        }
    }
    if extra {
        c.extra.extend(v);
    } else {
        c.files.extend(v);
    }
}

/// Earlier results that look like the new ones: of the same length, the same but for a byte, cut short or longer.
fn near_files(c: &mut Case, r: &mut Rng, x: &mut Exec, extra: bool) {
    let cmd = Cmd::parse(&c.procs[0]);
    let plain = Env::plain(1);
    let mut w = c.world(&plain, false);
    x.solo(&mut w, &c.procs[0], &plain, &[]);
    let mut paths: Vec<String> = ["inspect_output/test_compile", "inspect_output/test_decompile", "header.log"].map(String::from).to_vec();
    paths.extend(cmd.compile.iter().map(|s| format!("{}.fmp12", stem(s))));
    for p in paths {
        let Some(d) = w.content(&abs(&p)) else { continue };
        if d.is_empty() || r.chance(1, 2) || c.files.iter().any(|f| f.path == p && !matches!(f.body, Body::Noise(..))) {
            continue;
        }
        let mut d = d.to_vec();
        let n = d.len();
        let body = match r.below(4) {
            0 => Body::Noise(n, r.next()),
            1 => {
                d.truncate(r.below(n));
                Body::Bytes(d)
            }
            2 => {
                d.extend_from_slice(&[b'}'; 7]);
                Body::Bytes(d)
            }
            _ => {
                let at = if r.chance(1, 2) { n - 1 - r.below(n.min(40)) } else { r.below(n) };
                d[at] ^= 1 << r.below(8);
                Body::Bytes(d)
            }
        };
        let v = if extra { &mut c.extra } else { &mut c.files };
        v.retain(|f| f.path != p);
        v.push(FileC { path: p, body });
    }
}

/// Requests of a process in a trace, by kind.
fn pick_target(r: &mut Rng, t: &[Ev], want: &[u8]) -> Option<u32> {
    let v: Vec<u32> = t.iter().filter(|e| e.proc == 0 && (want.is_empty() || want.contains(&e.op))).map(|e| e.at).collect();
    if v.is_empty() {
        None
    } else {
        Some(*r.pick(&v))
    }
}

const IO_OPS: &[u8] = &[op::OPEN, op::READ, op::WRITE, op::CLOSE, op::FSTAT, op::STAT, op::LSEEK, op::FTRUNCATE, op::FSYNC, op::RENAME, op::UNLINK, op::CONSOLE, op::PREAD, op::PWRITE];

/// One failure, aimed at a request that really happens.
fn gen_fault(r: &mut Rng, t: &[Ev], proc: usize, crash: bool) -> Option<Fault> {
    let of = |at: Option<u32>, kind: FaultKind| at.map(|at| Fault { proc, at, kind });
    if crash {
        let ops = if r.chance(3, 4) { IO_OPS } else { &[] };
        let at = pick_target(r, t, ops);
        let w = match r.below(3) {
            0 => When::Before,
            1 => When::After,
            _ => When::Part(r.below(9000) as u32),
        };
        return of(at, if r.chance(1, 2) { FaultKind::Crash(w) } else { FaultKind::Power(w, r.next()) });
    }
    match r.below(12) {
        0 => of(pick_target(r, t, &[op::READ, op::PREAD]), FaultKind::Errno(*r.pick(&[5, 5, 21, 4]))),
        1 => of(pick_target(r, t, &[op::OPEN]), FaultKind::Errno(*r.pick(&[2, 5, 13, 24, 28, 30]))),
        2 | 3 => of(pick_target(r, t, &[op::WRITE, op::PWRITE]), FaultKind::Errno(*r.pick(&[5, 28, 122, 4, 27]))),
        4 => of(pick_target(r, t, &[op::FSYNC]), FaultKind::Errno(*r.pick(&[5, 28, 122]))),
        5 => of(pick_target(r, t, &[op::RENAME]), FaultKind::Errno(*r.pick(&[5, 13, 28, 30]))),
        6 => of(pick_target(r, t, &[op::CONSOLE]), FaultKind::Errno(*r.pick(&[5, 28, 32]))),
        7 => of(pick_target(r, t, &[op::READ, op::PREAD]), FaultKind::Short(r.range(1, 20) as u32)),
        8 => of(pick_target(r, t, &[op::WRITE, op::CONSOLE]), FaultKind::Short(r.range(1, 2000) as u32)),
        9 => of(pick_target(r, t, &[]), FaultKind::Space(if r.chance(1, 3) { 0 } else { r.below(40_000) as u64 })),
        10 => of(pick_target(r, t, &[]), FaultKind::WriteBudget(r.below(30_000) as u64, *r.pick(&[5, 28, 122]))),
        _ => of(pick_target(r, t, IO_OPS), FaultKind::Errno(*r.pick(&[5, 28, 13]))),
    }
}

pub fn generate(m: &Machine, prop: &str, seed: u64, tier: u64) -> Case {
    let mut root = Rng::new(mix(&[seed, 0xC0FFEE]));
    let r = &mut root;
    let mut c = Case::new(prop, seed);
    let mut x = Exec { m, st: Stats::default() };
    let size = if tier > 0 && r.chance(1, 3) { 3 } else { r.below(3) };
    match prop {
        "C01" => {
            if r.chance(1, 6) {
                gen_testing(&mut c, r, "C10", false, 4);
            } else {
                let n = source_name(r);
                let mut s = gen_source(r, 2 + size, true);
                if r.chance(1, 6) {
                    /* Declarations that share their names. */
                    let d = s.decls.clone();
                    s.decls.extend(d);
                }
                let mut cmd = Cmd { compile: vec![n.clone()], ..Cmd::default() };
                if r.chance(1, 8) {
                    cmd.no_testing = true;
                    c.add(&n, Body::Text(mutate_text(r, &s.text())));
                } else {
                    c.add(&n, Body::Burn(s));
                }
                if r.chance(1, 4) {
                    c.add("more.burn", Body::Burn(gen_source(r, 2, false)));
                    cmd.compile.push("more.burn".into());
                    cmd.no_testing = true;
                }
                c.procs = vec![cmd.args()];
            }
            old_files(&mut c, r, true);
            if r.chance(1, 4) {
                near_files(&mut c, r, &mut x, true);
            }
            c.env = env(r);
        }
        "C02" => {
            gen_testing(&mut c, r, *r.clone().pick(&["C08", "C10", "C11", "C13"]), true, 3);
            let mut cmd = Cmd::parse(&c.procs[0]);
            if r.chance(1, 3) {
                if let Some(FileC { body: Body::Img(i), .. }) = c.files.iter_mut().find(|f| matches!(f.body, Body::Img(_))) {
                    /* Objects that share their names: which one is meant must not change from run to run. */
                    let s = &mut i.schema;
                    if s.layouts.len() > 1 {
                        s.layouts[1].name = s.layouts[0].name.clone();
                    }
                    if s.occs.len() > 1 && r.chance(1, 2) {
                        s.occs[1].name = s.occs[0].name.clone();
                    }
                    if s.scripts.len() > 1 {
                        s.scripts[1].name = s.scripts[0].name.clone();
                    }
                }
            } else if r.chance(1, 2) {
                let b = some_image(r, size);
                c.files = vec![];
                c.add("data.fmp12", b);
                cmd.tests.clear();
            }
            if r.chance(1, 6) {
                c.add("second.fmp12", some_image(r, size));
                cmd.decompile.push("second.fmp12".into());
                cmd.no_testing = true;
            }
            cmd.header = r.chance(1, 4);
            c.procs = vec![cmd.args()];
            old_files(&mut c, r, true);
            if r.chance(1, 4) {
                near_files(&mut c, r, &mut x, true);
            }
            c.env = env(r);
        }
        "C03" => {
            let b = Body::Img(Image { schema: gen_schema(r, size), phys: gen_phys(r) });
            c.add("in.fmp12", b);
            c.procs = vec![Cmd { decompile: vec!["in.fmp12".into()], header: r.chance(1, 5), ..Cmd::default() }.args()];
            if r.chance(1, 20) {
                near_files(&mut c, r, &mut x, false);
            }
            c.env = env(r);
            c.env.console = false;
        }
        "C04" => {
            let base = match r.below(10) {
                0 => Body::Noise(r.below(20_000), r.next()),
                1 => Body::Bytes(vec![]),
                2 | 3 => Body::Blank,
                _ => Body::Img(Image { schema: gen_schema(r, size.min(1)), phys: gen_phys(r) }),
            };
            let n = match r.below(4) {
                0 => 1,
                1 => r.range(10, 60),
                _ => r.range(1, 6),
            };
            let muts = damage(r, &base, n);
            c.add("in.fmp12", Body::Broken(Box::new(base), muts));
            c.procs = vec![Cmd { decompile: vec!["in.fmp12".into()], header: r.chance(1, 6), ..Cmd::default() }.args()];
            c.env = Env::plain(r.next());
            c.env.memory_mb = 160;
            if r.chance(1, 4) {
                c.env.frag = frag(r);
            }
        }
        "C05" => {
            gen_command(&mut c, r, false);
            if r.chance(1, 3) {
                old_files(&mut c, r, false);
            }
            if r.chance(1, 6) {
                near_files(&mut c, r, &mut x, false);
            }
            c.env = Env::plain(r.next());
            c.env.console = r.chance(2, 3);
            if r.chance(1, 20) {
                c.bare = true;
            } else if r.chance(1, 20) && !c.files.is_empty() {
                let i = r.below(c.files.len());
                c.files.remove(i);
            } else {
                let mut w = c.world(&c.env, false);
                let t = x.solo(&mut w, &c.procs[0], &c.env, &[]);
                for _ in 0..r.range(1, 3) {
                    c.faults.extend(gen_fault(r, &t.trace, 0, false));
                }
                if r.chance(1, 3) {
                    c.env.frag = frag(r);
                }
            }
        }
        "C06" => {
            let n = source_name(r);
            let s = gen_source(r, 2 + size, r.clone().chance(1, 4));
            c.add(&n, Body::Burn(s));
            let cmd = Cmd { compile: vec![n.clone()], ..Cmd::default() };
            c.procs = vec![cmd.args()];
            if r.chance(2, 3) {
                c.add(&format!("{}.fmp12", stem(&n)), Body::Noise(*r.pick(&[0, 1, 4096, 20_480, 300_000]), r.next()));
            }
            if r.chance(1, 3) {
                old_files(&mut c, r, false);
            }
            if r.chance(1, 4) {
                near_files(&mut c, r, &mut x, false);
            }
            c.env = Env::plain(r.next());
            if r.chance(1, 2) {
                c.env.frag = frag(r);
                c.env.frag.interrupt = c.env.frag.interrupt.min(5);
            }
            let mut w = c.world(&c.env, false);
            let t = x.solo(&mut w, &c.procs[0], &c.env, &[]);
            if r.chance(1, 4) {
                for _ in 0..r.range(1, 2) {
                    c.faults.extend(gen_fault(r, &t.trace, 0, false));
                }
            }
            if r.chance(4, 5) {
                c.faults.extend(gen_fault(r, &t.trace, 0, true));
            }
            c.param = vec![r.next(), r.next()];
        }
        "C07" => {
            let broken = r.chance(1, 3);
            gen_command(&mut c, r, broken);
            old_files(&mut c, r, false);
            for d in DECOYS {
                if r.chance(1, 2) && !c.files.iter().any(|f| f.path == *d) {
                    c.add(d, Body::Text(format!("keep {d}")));
                }
            }
            if r.chance(1, 6) {
                /* An input reached through a symbolic link. */
                let cmd = Cmd::parse(&c.procs[0]);
                if let Some(d) = cmd.decompile.first() {
                    if let Some(f) = c.files.iter_mut().find(|f| f.path == *d) {
                        f.path = "/real/target".into();
                        let d = d.clone();
                        c.add(&d, Body::Link("/real/target".into()));
                    }
                }
            }
            if r.chance(1, 12) {
                misnamed(&mut c, r);
            }
            if r.chance(1, 8) {
                /* A file named on the command line that is not there. */
                let cmd = Cmd::parse(&c.procs[0]);
                let named: Vec<&String> = cmd.compile.iter().chain(&cmd.decompile).chain(&cmd.tests).collect();
                let gone = (*r.pick(&named)).clone();
                c.files.retain(|f| f.path != gone);
            }
            if r.chance(1, 30) {
                /* A command line nobody means to type. */
                let a = &mut c.procs[0].args;
                match r.below(6) {
                    0 => a.clear(),
                    1 => a.truncate(1),
                    2 => a.retain(|x| !x.starts_with("-c") && !x.starts_with("-d")),
                    3 => a.extend(["-d".to_string(), "other.fmp12".to_string()]),
                    4 => a.insert(r.clone().below(a.len() + 1), (*r.pick(&["--force", "-o", "-x", "--no-test", "--help", "--", "-", "", "-tt"])).to_string()),
                    _ => a.extend(["-c".to_string(), "keep.burn".to_string()]),
                }
            }
            c.env = env(r);
            c.env.memory_mb = 256;
            if r.chance(2, 3) {
                let mut w = c.world(&c.env, false);
                let t = x.solo(&mut w, &c.procs[0], &c.env, &[]);
                let crash = r.chance(1, 3);
                for _ in 0..r.range(1, 2) {
                    c.faults.extend(gen_fault(r, &t.trace, 0, crash));
                }
            }
        }
        "C08" => {
            let img = r.chance(2, 3);
            gen_testing(&mut c, r, "C08", img, 5);
            c.env = env(r);
            c.env.console = false;
            c.param = vec![r.next(), r.next()];
        }
        "C09" | "C10" | "C11" | "C13" => {
            let img = match prop {
                "C11" => true,
                "C10" => r.chance(1, 3),
                _ => r.chance(1, 3),
            };
            gen_testing(&mut c, r, prop, img, if prop == "C09" { 6 } else { 2 });
            c.env = env(r);
        }
        "C12" if r.chance(1, 4) => {
            let broken = r.chance(1, 6);
            gen_command(&mut c, r, broken);
            old_files(&mut c, r, false);
            c.env = env(r);
            c.env.memory_mb = 256;
            c.param = vec![r.next()];
            for _ in 0..r.below(3) {
                c.faults.push(Fault { proc: 0, at: r.below(40) as u32, kind: FaultKind::Jump(*r.pick(&[1, -1, 3600, 86_400 * 400])) });
            }
        }
        "C12" => {
            let img = r.chance(1, 5);
            gen_testing(&mut c, r, "C12", img, 3);
            c.env = env(r);
            c.env.console = true;
            c.env.frag.short_write = 0;
            let mut w = c.world(&c.env, false);
            let t = x.solo(&mut w, &c.procs[0], &c.env, &[]);
            let mut lowest = c.env.clock_s;
            for _ in 0..r.below(6) {
                let want: &[u8] = *r.pick(&[&[op::CLOCK][..], &[op::CONSOLE][..], &[][..]]);
                if let Some(at) = pick_target(r, &t.trace, want) {
                    let j = *r.pick(&[1, -1, 5, -5, 3600, -3600, 86_400 * 400, -86_400 * 400, 59]);
                    /* The clock stays within the range of a system clock. */
                    if lowest + j.min(0) > 1000 {
                        lowest += j.min(0);
                        c.faults.push(Fault { proc: 0, at, kind: FaultKind::Jump(j) });
                    }
                }
            }
        }
        "C14" => {
            let n = source_name(r);
            let mut cmd = Cmd { compile: vec![n.clone()], no_testing: true, ..Cmd::default() };
            let s = gen_declared(r, 2 + size * 2);
            c.add(&n, Body::Burn(s));
            for k in 0..r.below(3) {
                let decls = gen_declared(r, 1).decls.into_iter().filter(|d| matches!(d, D::Test(..)) || k == 1).collect();
                let f = format!("tests{k}.burn");
                let s = Source { decls, style: r.next() };
                c.add(&f, Body::Burn(s));
                cmd.tests.push(f);
            }
            if r.chance(1, 10) && !cmd.tests.is_empty() {
                let again = r.pick(&cmd.tests).clone();
                cmd.tests.insert(r.below(cmd.tests.len() + 1), again);
            }
            if r.chance(1, 6) {
                let s = gen_declared(r, 1);
                c.add("second.burn", Body::Burn(s));
                cmd.compile.insert(r.below(2), "second.burn".into());
            }
            c.procs = vec![cmd.args()];
            if r.chance(1, 8) {
                near_files(&mut c, r, &mut x, false);
            }
            c.env = env(r);
            c.env.console = false;
        }
        "C15" => gen_concurrent(&mut c, r, &mut x),
        "C16" => {
            let n = source_name(r);
            let mut decls = gen_decls(r, 1 + size);
            let k = *r.pick(&[0, 0, 2, 6, 20, 50]);
            if k > 0 {
                for d in 0..r.below(k + 1) {
                    let t = long_name(r, d);
                    if r.chance(1, 2) {
                        decls.push(D::Occ(long_name(r, d + 100), t.clone()));
                    }
                    decls.push(D::Table(t));
                }
            }
            decls.extend(gen_source(r, 1, false).decls.into_iter().filter(|d| matches!(d, D::Scripts(_))));
            if r.chance(1, 10) {
                let (n, kind) = (crowd_size(r), *r.pick(&[0, 1, 4]));
                decls.extend(gen_crowd(r, n, kind, |_, k| format!("t{k}")));
            }
            if r.chance(1, 2) {
                r.shuffle(&mut decls);
            }
            c.add(&n, Body::Burn(Source { decls, style: if r.chance(1, 3) { 0 } else { r.next() } }));
            if r.chance(1, 3) {
                c.add(&format!("{}.fmp12", stem(&n)), Body::Noise(*r.pick(&[0, 1, 20_480, 300_000]), r.next()));
            }
            let mut cmd = Cmd { compile: vec![n.clone()], no_testing: true, ..Cmd::default() };
            if r.chance(1, 5) {
                let d = gen_decls(r, 1 + size);
                c.add("second.burn", Body::Burn(Source { decls: d, style: r.next() }));
                cmd.compile.insert(r.below(2), "second.burn".into());
            }
            c.procs = vec![cmd.args()];
            if r.chance(1, 6) {
                near_files(&mut c, r, &mut x, false);
            }
            c.env = env(r);
            c.env.console = false;
        }
        "C17" => {
            let n = source_name(r);
            let t = rough_text(r, size);
            let mut cmd = Cmd { no_testing: true, ..Cmd::default() };
            match r.below(4) {
                0 => {
                    c.add("t.burn", t);
                    cmd.tests.push("t.burn".into());
                    c.add(&n, Body::Burn(gen_source(r, 1, false)));
                    cmd.compile.push(n.clone());
                }
                1 if r.chance(1, 3) => {
                    c.add("t.burn", t);
                    cmd.tests.push("t.burn".into());
                    c.add("in.fmp12", some_image(r, 0));
                    cmd.decompile.push("in.fmp12".into());
                }
                _ => {
                    c.add(&n, t);
                    cmd.compile.push(n.clone());
                }
            }
            if r.chance(1, 2) {
                c.add(&format!("{}.fmp12", stem(&n)), Body::Noise(*r.pick(&[0, 4096, 20_480]), r.next()));
            }
            c.procs = vec![cmd.args()];
            c.env = Env::plain(r.next());
            c.env.memory_mb = 256;
            if r.chance(1, 4) {
                c.env.frag = frag(r);
            }
        }
        "C18" => {
            gen_testing(&mut c, r, "C18", r.clone().chance(1, 2), 5);
            let cmd = Cmd::parse(&c.procs[0]);
            for f in &mut c.files {
                if let (Body::Burn(s), true) = (&mut f.body, cmd.compile.contains(&f.path)) {
                    s.decls.extend(gen_decls(r, 1 + size));
                    if r.chance(1, 2) {
                        r.shuffle(&mut s.decls);
                    }
                }
            }
            let mut cmd = cmd;
            cmd.header = cmd.compile.is_empty() && r.chance(1, 4);
            c.procs = vec![cmd.args()];
            c.param = vec![r.next()];
            old_files(&mut c, r, false);
            c.env = env(r);
        }
        "C19" => {
            let mut found = false;
            if r.chance(1, 2) {
                for _ in 0..12 {
                    gen_testing(&mut c, r, "C19", r.clone().chance(1, 2), 3);
                    let cmd = Cmd::parse(&c.procs[0]);
                    if cmd.compile.len() + cmd.decompile.len() > 1 {
                        found = true;
                        break;
                    }
                }
            }
            if !found {
                c.files.clear();
                let mut cmd = Cmd { no_testing: r.chance(1, 4), ..Cmd::default() };
                let images = r.chance(1, 2);
                for k in 0..if r.chance(1, 8) { r.range(5, 9) } else { r.range(2, 4) } {
                    if images {
                        let f = format!("{}{k}", r.pick(&["in.fmp12.", "d/x", "a b"]));
                        c.add(&f, some_image(r, size.min(1)));
                        cmd.decompile.push(f);
                    } else {
                        let f = if r.chance(1, 5) { format!("v{k}/same.burn") } else { format!("{}{k}.burn", r.pick(&["s", "d/x", "a b"])) };
                        c.add(&f, Body::Burn(gen_source(r, 1 + size, true)));
                        cmd.compile.push(f);
                    }
                }
                if r.chance(1, 6) {
                    /* The same input once more. */
                    let l = if images { &mut cmd.decompile } else { &mut cmd.compile };
                    let f = r.pick(l).clone();
                    l.push(f);
                }
                cmd.header = images && r.chance(1, 3);
                c.procs = vec![cmd.args()];
            }
            let cmd = Cmd::parse(&c.procs[0]);
            let inputs: Vec<&String> = cmd.compile.iter().chain(&cmd.decompile).collect();
            if r.chance(1, 3) {
                /* One of them is none. */
                let bad = (*r.pick(&inputs)).clone();
                let i = c.files.iter().position(|f| f.path == bad).unwrap();
                match r.below(5) {
                    0 => {
                        c.files.remove(i);
                    }
                    1 => c.files[i].body = Body::Dir,
                    2 => c.files[i].body = Body::Bytes(b"table \xff\xfe;".to_vec()),
                    _ => {
                        c.files[i].body = match &c.files[i].body {
                            Body::Burn(s) => Body::Text(mutate_text(r, &s.text())),
                            b => {
                                let n = r.range(1, 4);
                                Body::Broken(Box::new(b.clone()), damage(r, b, n))
                            }
                        }
                    }
                }
            } else if r.chance(1, 3) {
                let plain = Env::plain(1);
                let mut w = c.world(&plain, false);
                let t = x.solo(&mut w, &c.procs[0], &plain, &[]).trace;
                c.env = Env::plain(r.next());
                let crash = r.chance(1, 3);
                c.faults.extend(gen_fault(r, &t, 0, crash));
            }
            old_files(&mut c, r, false);
            if c.faults.is_empty() {
                c.env = env(r);
            }
        }
        "C20" => gen_history(&mut c, r, &mut x),
        _ => panic!("unknown property {prop}"),
    }
    c
}

/// A sequence of commands, edits and power losses in one directory.
fn gen_history(c: &mut Case, r: &mut Rng, x: &mut Exec) {
    let names: &[&str] = if r.chance(1, 2) { &["a", "b"] } else { &["a"] };
    let mut versions: Vec<Vec<String>> = vec![];
    for n in names {
        let mut v = vec![];
        for k in 0..r.range(1, 3) {
            let f = format!("v{k}/{n}.burn");
            let s = gen_source(r, 1 + r.clone().below(3), true);
            let body = if r.chance(1, 8) { Body::Text(mutate_text(r, &s.text())) } else { Body::Burn(s) };
            c.add(&f, body);
            v.push(f);
        }
        c.procs.push(ProcSpec { args: vec!["cp".into(), v[0].clone(), format!("{n}.burn")] });
        versions.push(v);
    }
    if r.chance(1, 2) {
        c.add("data.fmp12", some_image(r, 1));
    }
    for _ in 0..r.range(2, 7) {
        let k = r.below(names.len());
        match r.below(10) {
            0 | 1 => {
                let mut args = vec!["cp".into(), r.pick(&versions[k]).clone(), format!("{}.burn", names[k])];
                if r.chance(1, 3) {
                    args.push("-p".into());
                }
                c.procs.push(ProcSpec { args });
            }
            2 => c.procs.push(ProcSpec { args: vec!["power".into(), r.below(1 << 30).to_string()] }),
            3..=6 => {
                let mut cmd = Cmd { compile: vec![format!("{}.burn", names[k])], no_testing: r.chance(1, 5), ..Cmd::default() };
                if names.len() > 1 && r.chance(1, 4) {
                    cmd.compile.push(format!("{}.burn", names[1 - k]));
                }
                c.procs.push(cmd.args());
            }
            _ => {
                let mut cmd = Cmd { no_testing: true, header: r.chance(1, 2), ..Cmd::default() };
                cmd.decompile.push(if r.chance(1, 4) { "data.fmp12".into() } else { format!("{}.fmp12", names[k]) });
                if r.chance(1, 6) {
                    cmd.decompile.push(format!("{}.fmp12", r.pick(names)));
                }
                c.procs.push(cmd.args());
            }
        }
    }
    if r.chance(1, 4) {
        /* Every process has the same number, as in a container. */
        c.param = vec![1];
    }
    /* Failures, at requests that happen if nothing else fails before. */
    let plain = Env::plain(1);
    let mut w = c.world(&plain, false);
    let steps = c.procs.clone();
    for (k, step) in steps.iter().enumerate() {
        if let Some(t) = history_step(&mut w, step, x, &plain, &[]) {
            if r.chance(1, 3) {
                let crash = r.chance(2, 3);
                if let Some(f) = gen_fault(r, &t.trace, 0, crash) {
                    c.faults.push(Fault { proc: k, ..f });
                }
            }
        }
    }
    c.env = env(r);
    if r.chance(1, 2) {
        c.env.frag = Frag::default();
    }
}

fn history_step(w: &mut Vfs, step: &ProcSpec, x: &mut Exec, env: &Env, faults: &[Fault]) -> Option<RunResult> {
    match step.args.first().map(|s| s.as_str()) {
        Some("cp") => {
            let d = w.content(&abs(&step.args[1])).unwrap_or_default().to_vec();
            let t = w.get(&abs(&step.args[1])).map(|i| w.inodes[i].mtime);
            w.add_file(&abs(&step.args[2]), &d);
            if step.args.len() > 3 {
                /* An older version brought back with its time. */
                if let (Some(i), Some(t)) = (w.get(&abs(&step.args[2])), t) {
                    w.inodes[i].mtime = t;
                }
            }
            None
        }
        Some("power") => {
            w.power_loss(step.args[1].parse().unwrap_or(0));
            None
        }
        _ => Some(x.solo(w, step, env, faults)),
    }
}

fn gen_concurrent(c: &mut Case, r: &mut Rng, x: &mut Exec) {
    let names: &[&str] = &["x", "shop"];
    let n = r.range(2, 3);
    let mut readers = 0;
    for k in 0..n {
        let name = if r.chance(3, 4) { names[0] } else { names[1] };
        if k > 0 && readers < 2 && r.chance(2, 5) || readers == 0 && k == 0 && r.chance(1, 8) {
            readers += 1;
            let of = if r.chance(3, 4) { names[0] } else { names[1] };
            c.procs.push(Cmd { decompile: vec![format!("{of}.fmp12")], no_testing: true, header: r.chance(1, 3), ..Cmd::default() }.args());
            continue;
        }
        let f = format!("{}/{name}.burn", ["a", "b", "c"][k]);
        let s = gen_source(r, 2, false);
        c.add(&f, Body::Burn(s));
        c.procs.push(Cmd { compile: vec![f], no_testing: true, ..Cmd::default() }.args());
    }
    if r.chance(3, 4) {
        let b = Body::Img(Image { schema: gen_schema(r, 1), phys: gen_phys(r) });
        c.add("x.fmp12", b);
    }
    if r.chance(1, 4) {
        let b = Body::Img(Image { schema: gen_schema(r, 0), phys: gen_phys(r) });
        c.add("shop.fmp12", b);
    }
    c.env = Env::plain(r.next());
    if r.chance(1, 2) {
        c.env.frag = frag(r);
        c.env.frag.interrupt = c.env.frag.interrupt.min(5);
    }
    c.schedule = schedule(r, 500);
    if r.chance(1, 3) {
        let mut w = c.world(&c.env, false);
        let who = r.below(n);
        let t = x.run(&mut w, &c.procs, &c.env, &[], &c.schedule, None);
        let mine: Vec<Ev> = t.trace.iter().filter(|e| e.proc == who).map(|e| Ev { proc: 0, ..e.clone() }).collect();
        let crash = r.chance(1, 2);
        if let Some(mut f) = gen_fault(r, &mine, who, crash) {
            if let FaultKind::Power(w, _) = f.kind {
                f.kind = FaultKind::Crash(w);
            }
            if !matches!(f.kind, FaultKind::Space(_)) {
                c.faults.push(f);
            }
        }
    } else if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            c.faults.push(Fault { proc: r.below(n), at: r.below(60) as u32, kind: FaultKind::Stall(r.range(1, 80) as u32) });
        }
    }
}

/// Sticky or restless schedules: a process keeps running for a while.
fn schedule(r: &mut Rng, n: usize) -> Vec<u8> {
    let switch = *r.pick(&[2, 5, 20, 50, 100]);
    let mut cur = r.below(3) as u8;
    (0..n)
        .map(|_| {
            if r.below(100) < switch {
                cur = r.below(3) as u8;
            }
            cur
        })
        .collect()
}

// ----------------------------------------------------------------- checking

pub fn check(m: &Machine, c: &Case) -> (Verdict, Stats) {
    let mut x = Exec { m, st: Stats::default() };
    let v = match c.prop.as_str() {
        "C01" | "C02" => repeatable(c, &mut x),
        "C03" => stored_schema(c, &mut x),
        "C04" => damaged(c, &mut x),
        "C05" => delivered(c, &mut x),
        "C06" => crash_safe(c, &mut x),
        "C07" => contained(c, &mut x),
        "C08" => isolated(c, &mut x),
        "C12" if !c.param.is_empty() => {
            let mut w = c.world(&c.env, false);
            let r = x.solo(&mut w, &c.procs[0], &c.env, &c.faults);
            x.st.nontrivial = r.procs[0].ok();
            other_clock(c, &mut x, &w, &r, true)
        }
        "C09" | "C10" | "C11" | "C12" | "C13" => modelled(c, &mut x),
        "C14" => declared_schema(c, &mut x),
        "C15" => concurrent(c, &mut x),
        "C16" => compiled_image(c, &mut x),
        "C17" => rough_source(c, &mut x),
        "C18" => observed_only(c, &mut x),
        "C19" => each_its_own(c, &mut x),
        "C20" => history(c, &mut x),
        p => panic!("unknown property {p}"),
    };
    (v, x.st)
}

fn excerpt(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 40).min(v.len())]).into_owned();
    format!("byte {i} of {} and {}: {:?} against {:?}", a.len(), b.len(), show(a), show(b))
}

/// C01, C02: the same inputs under another hash seed, clock, delivery and surroundings.
fn repeatable(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let plain = Env::plain(mix(&[c.seed, 77]));
    let mut w1 = c.world(&plain, false);
    let a = x.solo(&mut w1, &c.procs[0], &plain, &[]);
    let mut w2 = c.world(&c.env, true);
    let b = x.solo(&mut w2, &c.procs[0], &c.env, &[]);
    let (p, q) = (&a.procs[0], &b.procs[0]);
    if p.runaway.is_some() || p.signal.is_some() {
        /* Endless programs are cut at a point that depends on the delivery. */
        x.st.probe("endless_or_killed");
        return Verdict::Ok;
    }
    if p.code != Some(0) {
        x.st.probe("rejected_input");
    } else {
        x.st.nontrivial = true;
    }
    if (p.code, p.signal) != (q.code, q.signal) {
        return bad("exit status", format!("{} once, {} in the other run", p.describe(), q.describe()));
    }
    if p.stdout != q.stdout {
        return bad("console", format!("console output differs at {}", excerpt(&p.stdout, &q.stdout)));
    }
    for o in cmd.outputs() {
        let (f, g) = (w1.content(&o), w2.content(&o));
        if p.code != Some(0) && f.is_none() {
            continue;
        }
        if f != g {
            return bad("output file", format!("{o} differs: {}", excerpt(f.unwrap_or(b""), g.unwrap_or(b""))));
        }
    }
    Verdict::Ok
}

/// Expected attributes must be there with these values; objects of a kind must match exactly.
fn differs(want: &Value, got: &Value, path: &str, exact: bool) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                let p = format!("{path}/{k}");
                match b.get(k) {
                    None => return Some(format!("{p} is missing, expected {}", short(v))),
                    Some(g) => {
                        if let Some(d) = differs(v, g, &p, !exact) {
                            return Some(d);
                        }
                    }
                }
            }
            if exact {
                if let Some(k) = b.keys().find(|k| !a.contains_key(*k)) {
                    return Some(format!("{path}/{k} should not exist: {}", short(&b[k])));
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            for i in 0..a.len().max(b.len()) {
                let p = format!("{path}/{i}");
                match (a.get(i), b.get(i)) {
                    (Some(v), Some(g)) => {
                        if let Some(d) = differs(v, g, &p, false) {
                            return Some(d);
                        }
                    }
                    (Some(v), None) => return Some(format!("{p} is missing, expected {}", short(v))),
                    (None, g) => return Some(format!("{p} should not exist: {}", short(g.unwrap()))),
                }
            }
            None
        }
        _ if want == got => None,
        _ => Some(format!("{path} is {}, expected {}", short(got), short(want))),
    }
}
fn short(v: &Value) -> String {
    let t = v.to_string();
    if t.chars().count() > 160 {
        t.chars().take(160).collect::<String>() + "…"
    } else {
        t
    }
}

/// C03
fn stored_schema(c: &Case, x: &mut Exec) -> Verdict {
    let Some(img) = c.image() else { return Verdict::Outside };
    let mut w = c.world(&c.env, false);
    let r = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let p = &r.procs[0];
    let s = &img.schema;
    x.st.nontrivial = s.tables.len() + s.occs.len() + s.layouts.len() + s.scripts.len() + s.sources.len() > 1;
    if !p.ok() {
        return bad("well-formed image rejected", format!("decompiling a well-formed image: {}\n{}", p.describe(), String::from_utf8_lossy(&p.stderr)));
    }
    let got: Value = match w.content(&abs("inspect_output/test_decompile")).map(serde_json::from_slice) {
        Some(Ok(v)) => v,
        _ => return bad("no report", "no readable inspection file".into()),
    };
    if s.scripts.iter().any(|s| s.steps.len() > 9) {
        x.st.probe("long_script");
    }
    let want = img.expected();
    for k in ["tables", "table_occurrences", "relationships", "layouts", "scripts", "data_sources"] {
        if let Some(d) = differs(&want[k], &got[k], k, true) {
            return bad(k, d);
        }
    }
    Verdict::Ok
}

/// C04
fn damaged(c: &Case, x: &mut Exec) -> Verdict {
    let mut w = c.world(&c.env, false);
    let r = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let p = &r.procs[0];
    x.st.nontrivial = true;
    x.st.probe(match p.code {
        Some(0) => "damage_survived",
        Some(_) => "damage_rejected",
        None => "died",
    });
    if let Some(s) = p.signal {
        let what = match s {
            6 => "abort",
            11 => "segmentation fault",
            24 | 9 => "processor time",
            _ => "signal",
        };
        if p.runaway.is_none() {
            return bad(what, format!("decompiling a damaged image: {} ({what}), after {} requests\n{}", p.describe(), p.requests, tail(&p.stderr)));
        }
    }
    if let Some(t) = &p.runaway {
        return bad("endless", format!("decompiling a damaged image does not end: {t}"));
    }
    Verdict::Ok
}
fn tail(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    t.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect()
}

/// C05
fn delivered(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let plain = Env { frag: Frag::default(), ..c.env.clone() };
    let mut w1 = c.world(&plain, false);
    let a = x.solo(&mut w1, &c.procs[0], &plain, &[]);
    if c.faults.is_empty() && a.procs[0].ok() && (c.bare || cmd_inputs(&cmd).iter().any(|i| w1.content(&abs(i)).is_none())) {
        for o in cmd.outputs() {
            if w1.content(&o).is_none() {
                return bad("success without result", format!("exit status 0 although {o} could not be written"));
            }
        }
        for i in cmd_inputs(&cmd) {
            if w1.content(&abs(&i)).is_none() {
                return bad("success without input", format!("exit status 0 although {i} does not exist"));
            }
        }
    }
    if !a.procs[0].ok() {
        x.st.probe("reference_fails");
        return Verdict::Ok;
    }
    if let (true, Some(d)) = (cmd.header && !c.bare, cmd.decompile.last()) {
        if w1.content(&abs("header.log")) != w1.content(&abs(d)) {
            return bad("header.log", format!("exit status 0, but header.log is not a copy of {d}"));
        }
    }
    let mut w2 = c.world(&c.env, false);
    let b = x.solo(&mut w2, &c.procs[0], &c.env, &c.faults);
    x.st.nontrivial = !b.fired.is_empty();
    if !b.procs[0].ok() {
        x.st.probe("failure_reported");
        return Verdict::Ok;
    }
    x.st.probe("success_despite_faults");
    let fired: Vec<String> = b.fired.keys().cloned().collect();
    if a.procs[0].stdout != b.procs[0].stdout {
        return bad("console", format!("exit status 0 with {fired:?}, but the console differs at {}", excerpt(&a.procs[0].stdout, &b.procs[0].stdout)));
    }
    for o in cmd.outputs() {
        if w1.content(&o) != w2.content(&o) {
            let d = match (w1.content(&o), w2.content(&o)) {
                (_, None) => "it is missing".into(),
                (f, g) => excerpt(f.unwrap_or(b""), g.unwrap_or(b"")),
            };
            return bad("output file", format!("exit status 0 with {fired:?}, but {o} is not the result: {d}"));
        }
    }
    Verdict::Ok
}
fn cmd_inputs(c: &Cmd) -> Vec<String> {
    c.compile.iter().chain(&c.decompile).chain(&c.tests).cloned().collect()
}

/// C06
fn crash_safe(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let target = abs(&format!("{}.fmp12", stem(&cmd.compile[0])));
    let plain = Env::plain(mix(&[c.seed, 78]));
    let mut w0 = c.world(&plain, false);
    let old = w0.content(&target).map(|b| b.to_vec());
    let a = x.solo(&mut w0, &c.procs[0], &plain, &[]);
    if !a.procs[0].ok() {
        return Verdict::Outside;
    }
    let Some(new) = w0.content(&target).map(|b| b.to_vec()) else {
        return bad("no image", "a successful compile left no image".into());
    };
    let name = |b: Option<&[u8]>| match b {
        None => "absent".to_string(),
        Some(b) if b == new => "the new image".into(),
        Some(b) if old.as_deref() == Some(b) => "the old content".into(),
        Some(b) => format!("neither the old content nor the new image ({} bytes; old {:?}, new {})", b.len(), old.as_ref().map(|o| o.len()), new.len()),
    };
    let whole = |b: Option<&[u8]>| b == old.as_deref() || b == Some(&new[..]);
    let mut w = c.world(&c.env, false);
    let mut watch = |v: &Vfs| {
        let b = v.content(&target);
        (!whole(b)).then(|| format!("{target} holds {}", name(b)))
    };
    let r = x.run(&mut w, &c.procs, &c.env, &c.faults, &[], Some(&mut watch));
    x.st.nontrivial = !r.fired.is_empty();
    if let Some(i) = &r.invariant {
        return bad("torn image visible", i.clone());
    }
    let b = w.content(&target);
    if !whole(b) {
        let when = if r.power_lost { "a power loss" } else { "the failure" };
        return bad(if r.power_lost { "torn after power loss" } else { "torn after failure" }, format!("after {when} {target} holds {}", name(b)));
    }
    let p = &r.procs[0];
    if p.crashed {
        x.st.probe(if b == Some(&new[..]) { "crash_with_new_image" } else { "crash_with_old_image" });
    }
    if p.ok() {
        for k in 0..4u64 {
            let mut l = w.clone();
            l.power_loss(mix(&[c.param.first().copied().unwrap_or(0), k]));
            x.st.probe("power_loss_after_success");
            if l.content(&target) != Some(&new[..]) {
                return bad("not durable", format!("after exit status 0 and a power loss {target} holds {}", name(l.content(&target))));
            }
        }
    } else if !p.crashed {
        x.st.probe("error_reported");
        /* The failed run is over; now the power goes. */
        let mut l = w.clone();
        l.power_loss(c.param.first().copied().unwrap_or(0));
        if !whole(l.content(&target)) {
            return bad("torn after power loss", format!("after a failed compile and a power loss {target} holds {}", name(l.content(&target))));
        }
    }
    /* Recovery: the same command again, undisturbed, by a process with a new or the same number. */
    let mut again = c.env.clone();
    again.frag = Frag::default();
    if c.param.get(1).copied().unwrap_or(0) % 2 == 0 {
        again.seed = mix(&[again.seed, 3]);
    }
    w.space = None;
    let q = x.solo(&mut w, &c.procs[0], &again, &[]);
    if !q.procs[0].ok() {
        return bad("no recovery", format!("the same compile, run again: {}\n{}", q.procs[0].describe(), tail(&q.procs[0].stderr)));
    }
    if w.content(&target) != Some(&new[..]) {
        return bad("other image after recovery", format!("after the repeated compile {target} holds {}", name(w.content(&target))));
    }
    Verdict::Ok
}

/// C07
fn contained(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let mut own = cmd.outputs();
    /* "Named after the source" may mean without its extension, whichever that is. */
    own.extend(cmd.compile.iter().filter(|f| !f.ends_with(".burn")).filter_map(|f| Some(abs(&format!("{}.fmp12", stem(f).rsplit_once('.')?.0)))));
    let inputs: Vec<String> = cmd.compile.iter().chain(&cmd.decompile).chain(&cmd.tests).map(|f| abs(f)).collect();
    own.retain(|o| !inputs.contains(o) || o.starts_with(&abs("inspect_output/")) || *o == abs("header.log"));
    let mut w = c.world(&c.env, false);
    let before = w.snapshot();
    let dirs: Vec<String> = w.names.keys().filter(|k| w.is_dir(k)).cloned().collect();
    let links: BTreeMap<String, usize> = w.names.clone();
    let modes: BTreeMap<String, u32> = w.names.iter().map(|(k, i)| (k.clone(), w.inodes[*i].mode)).collect();
    /* Not a working file of the command: nothing may happen to it at any moment. */
    let foreign = |k: &str| !own.iter().any(|o| o == k);
    let mut watch = |v: &Vfs| {
        for (k, d) in &before {
            if foreign(k) && v.content(k) != Some(&d[..]) {
                return Some(format!("{k} was {}", if v.content(k).is_some() { "changed" } else { "removed" }));
            }
        }
        for d in &dirs {
            if !v.is_dir(d) {
                return Some(format!("directory {d} was removed"));
            }
        }
        None
    };
    let r = x.run(&mut w, &c.procs, &c.env, &c.faults, &[], Some(&mut watch));
    let p = &r.procs[0];
    x.st.nontrivial = p.requests > 5;
    if let Some(i) = &r.invariant {
        return bad("foreign file touched", i.clone());
    }
    if r.power_lost {
        x.st.probe("power_loss");
        for (k, d) in &before {
            if foreign(k) && w.content(k) != Some(&d[..]) {
                return bad("foreign file touched", format!("after the power loss {k} is not what it was"));
            }
        }
    }
    let stems: Vec<String> = cmd.compile.iter().map(|s| abs(&format!("{}.fmp12", stem(s)))).collect();
    for (k, i) in &w.names {
        if links.get(k) == Some(i) {
            if modes.get(k) != Some(&w.inodes[*i].mode) {
                return bad("mode changed", format!("the permissions of {k} were changed"));
            }
            continue;
        }
        if !foreign(k) {
            continue;
        }
        if links.contains_key(k) {
            return bad("foreign file touched", format!("{k} was replaced"));
        }
        let sibling = stems.iter().any(|s| k.rsplit('/').next().unwrap().contains(s.rsplit('/').next().unwrap()) && k.starts_with(WD) && !k[WD.len() + 1..].contains('/'));
        if sibling && !p.ok() {
            x.st.probe("temporary_left_by_failure");
            continue;
        }
        return bad("undocumented file", format!("{k} was created ({})", p.describe()));
    }
    for k in links.keys() {
        if !w.names.contains_key(k) && foreign(k) {
            return bad("foreign file touched", format!("{k} was removed"));
        }
    }
    /* A compile does not own the inspection file of decompiling, and the other way round: covered by `own`. */
    if p.ok() {
        x.st.probe("success");
    }
    Verdict::Ok
}

/// Output of each test, by position.
fn sections(stdout: &str) -> Vec<(String, Vec<String>)> {
    let mut o: Vec<(String, Vec<String>)> = vec![];
    for l in vm::test_lines(stdout) {
        if let Some(n) = l.strip_prefix("Running test: ") {
            o.push((n.to_string(), vec![]));
        } else if let Some(s) = o.last_mut() {
            s.1.push(l);
        }
    }
    o
}

/// C08
fn isolated(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let Ok(want) = model(c, &cmd) else { return Verdict::Outside };
    if cmd.compile.len() + cmd.decompile.len() != 1 {
        return Verdict::Outside;
    }
    /* All tests as declarations of their own. */
    let mut tests: Vec<D> = vec![];
    let mut rest = c.clone();
    rest.files.clear();
    for f in &c.files {
        match &f.body {
            Body::Burn(s) if cmd.tests.contains(&f.path) => {
                tests.extend(s.decls.iter().filter(|d| matches!(d, D::Test(..))).cloned());
            }
            Body::Burn(s) => {
                tests.extend(s.decls.iter().filter(|d| matches!(d, D::Test(..))).cloned());
                let decls = s.decls.iter().filter(|d| !matches!(d, D::Test(..))).cloned().collect();
                rest.add(&f.path, Body::Burn(Source { decls, style: s.style }));
            }
            b => rest.add(&f.path, b.clone()),
        }
    }
    if tests.len() != want.len() {
        return Verdict::Outside;
    }
    x.st.nontrivial = tests.len() > 1;
    if want.iter().any(|s| !s.pass) {
        x.st.probe("has_failing_test");
    }
    let go = |x: &mut Exec, list: &[D], k: u64| -> Result<Vec<(String, Vec<String>)>, String> {
        let mut d = rest.clone();
        d.add("suite.burn", Body::Burn(Source { decls: list.to_vec(), style: 0 }));
        let cm = Cmd { tests: vec!["suite.burn".into()], ..cmd.clone() };
        let mut e = c.env.clone();
        e.seed = mix(&[e.seed, k]);
        let mut w = d.world(&e, false);
        let r = x.solo(&mut w, &cm.args(), &e, &[]);
        let p = &r.procs[0];
        if p.ok() {
            Ok(sections(&p.text()))
        } else {
            Err(p.describe())
        }
    };
    /* Tests may share their names, so they are told apart by their place. */
    let mut alone: Vec<Vec<String>> = vec![];
    for (k, t) in tests.iter().enumerate() {
        let D::Test(n, _) = t else { continue };
        match go(x, std::slice::from_ref(t), k as u64) {
            Ok(v) => alone.push(v.into_iter().find(|s| s.0 == *n).map(|s| s.1).unwrap_or_default()),
            Err(_) => return Verdict::Outside,
        }
    }
    let mut orders: Vec<Vec<usize>> = vec![(0..tests.len()).collect(), (0..tests.len()).rev().collect()];
    for p in &c.param {
        let mut r = Rng::new(*p);
        let mut o: Vec<usize> = (0..tests.len()).collect();
        r.shuffle(&mut o);
        /* A test may also occur twice in a row of files. */
        if r.chance(1, 2) && !o.is_empty() {
            let again = *r.pick(&o);
            o.push(again);
        }
        orders.push(o);
    }
    for (k, o) in orders.iter().enumerate() {
        let list: Vec<D> = o.iter().map(|i| tests[*i].clone()).collect();
        let names: Vec<String> = list.iter().map(|d| if let D::Test(n, _) = d { n.clone() } else { String::new() }).collect();
        match go(x, &list, 100 + k as u64) {
            Err(e) => return bad("sequence dies", format!("each test runs alone, but the sequence {names:?}: {e}")),
            Ok(v) => {
                for (i, n) in names.iter().enumerate() {
                    let got = v.get(i);
                    let single = &alone[o[i]];
                    if got.map(|s| &s.0) != Some(n) || got.map(|s| &s.1) != Some(single) {
                        return bad(
                            "result depends on earlier tests",
                            format!("test {n} at position {} of {names:?} prints {:?}, alone {single:?}", i + 1, got.map(|s| &s.1)),
                        );
                    }
                }
            }
        }
    }
    Verdict::Ok
}

/// C09 to C13: the console of a test run is the one of the model.
fn modelled(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let want = match model(c, &cmd) {
        Ok(w) => w,
        Err(_) => return Verdict::Outside,
    };
    let mut w = c.world(&c.env, false);
    let r = x.solo(&mut w, &c.procs[0], &c.env, &c.faults);
    let p = &r.procs[0];
    /* What is printed about the second input and further ones themselves, as without tests. */
    let mut notes = vec![vec![]];
    for f in cmd.decompile.iter().skip(1) {
        let mut w = c.world(&c.env, false);
        let alone = Cmd { decompile: vec![f.clone()], no_testing: true, ..Cmd::default() }.args();
        let r = x.solo(&mut w, &alone, &c.env, &[]);
        notes.push(vm::strip_ansi(&r.procs[0].text()).lines().map(String::from).collect());
    }
    let mut lines = vec![];
    for (k, p) in programs(c, &cmd).unwrap().iter().enumerate() {
        lines.extend(notes.get(k).into_iter().flatten().map(|l| vm::Line::Text(l.clone())));
        lines.extend(p.with(vm::run_all).map(|v| vm::expected_lines(&v)).unwrap_or_default());
    }
    if notes.len() > 1 || cmd.compile.len() > 1 {
        x.st.probe("several_inputs");
    }
    x.st.nontrivial = lines.len() > 2 * want.len();
    if want.iter().any(|s| !s.pass) {
        x.st.probe("failing_test");
    }
    if want.iter().any(|s| s.lines.iter().any(|l| matches!(l, vm::Line::Text(t) if t.starts_with("calling ")))) {
        x.st.probe("script_called");
    }
    let shown = |q: &Quirks| as_built(c, &cmd, q, &notes).unwrap();
    if shown(&Quirks::default()).lines != texts(&lines) {
        x.st.probe("models_disagree");
    }
    let got = vm::test_lines(&p.text());
    let as_asked = if p.ok() { vm::compare(&lines, &got) } else { Some(String::new()) };
    if as_asked.is_some() {
        /* Exactly what the recorded defects make of it? */
        let known = known_quirks();
        let k = shown(known);
        let as_known = got == k.lines && if k.end == asbuilt::End::Abort { p.code == Some(101) } else { p.ok() };
        if as_known {
            for q in &known.0 {
                let mut less = known.clone();
                less.0.remove(q);
                if shown(&less) != k {
                    x.st.probe(&format!("known_finding_{q}"));
                }
            }
            return if c.prop == "C12" { other_clock(c, x, &w, &r, true) } else { Verdict::Ok };
        }
    }
    if !p.ok() {
        return bad("run dies", format!("the test run ends with {} instead of finishing\n{}", p.describe(), tail(&p.stderr)));
    }
    if let Some(d) = as_asked {
        return bad("console", d);
    }
    if c.prop == "C12" {
        let timed = lines.iter().any(|l| matches!(l, vm::Line::Clock(_)));
        return match clock_values(&lines, &r, &mut x.st) {
            Verdict::Ok => other_clock(c, x, &w, &r, !timed),
            v => v,
        };
    }
    Verdict::Ok
}

/// The same run at another time, in another zone: nothing but shown times may differ.
fn other_clock(c: &Case, x: &mut Exec, w1: &Vfs, a: &RunResult, console: bool) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let mut r = Rng::new(mix(&[c.seed, 83]));
    let mut e = c.env.clone();
    e.clock_s = *r.pick(&[1, 86_399, 951_782_400, 1_709_164_800, 1_735_689_599, 2_147_483_647, 4_102_444_800]) + r.below(100_000) as i64;
    e.tick_ns = *r.pick(&[0, 1, 1000, 7_000_000, 1_300_000_000]);
    e.zone = r.below(5) as u8;
    let mut w2 = c.world(&e, false);
    let b = x.solo(&mut w2, &c.procs[0], &e, &[]);
    let (p, q) = (&a.procs[0], &b.procs[0]);
    if p.runaway.is_some() || p.signal.is_some() {
        return Verdict::Ok;
    }
    if (p.code, p.signal) != (q.code, q.signal) {
        return bad("exit status depends on the clock", format!("{} once, {} at another time", p.describe(), q.describe()));
    }
    if console && p.stdout != q.stdout {
        return bad("console depends on the clock", format!("console output differs at {}", excerpt(&p.stdout, &q.stdout)));
    }
    for o in cmd.outputs() {
        let (f, g) = (w1.content(&o), w2.content(&o));
        if f != g {
            return bad("output depends on the clock", format!("{o} differs: {}", excerpt(f.unwrap_or(b""), g.unwrap_or(b""))));
        }
    }
    Verdict::Ok
}

static KNOWN: std::sync::OnceLock<Quirks> = std::sync::OnceLock::new();
/// Recorded defects of the test environment (known-findings.txt).
pub fn set_known_quirks(q: Quirks) {
    let _ = KNOWN.set(q);
}
fn known_quirks() -> &'static Quirks {
    KNOWN.get_or_init(Quirks::default)
}

/// Every time shown must be a second the clock showed between the previous
/// line of the test's own output and this one.
fn clock_values(lines: &[vm::Line], r: &RunResult, st: &mut Stats) -> Verdict {
    let text = r.procs[0].text();
    /* For every raw line: the events since the line before. */
    let mut at = 0usize;
    let mut prev_ev = 0usize;
    let mut k = 0usize;
    let mut started = false;
    for raw in text.split_inclusive('\n') {
        at += raw.len();
        let Some(c) = r.console.iter().find(|c| c.2 >= at) else { break };
        let this_ev = c.0;
        let plain = vm::strip_ansi(raw.trim_end_matches('\n'));
        if plain.starts_with("Running test: ") {
            started = true;
        }
        let counted = started && !(plain.starts_with("RESULT: ") || plain.starts_with("Popping script: ") || plain.starts_with("Ins: ") || plain.starts_with("Pushing "));
        if counted {
            if let Some(vm::Line::Clock(_)) = lines.get(k) {
                let shown: i64 = plain.parse().unwrap_or(i64::MIN);
                let from = prev_ev.saturating_sub(1);
                let ok = r.trace[from..this_ev.min(r.trace.len())].iter().any(|e| e.clock.div_euclid(1_000_000_000) as i64 == shown);
                st.probe("clock_shown");
                if !ok {
                    let seen: Vec<i64> = r.trace[from..this_ev.min(r.trace.len())].iter().map(|e| e.clock.div_euclid(1_000_000_000) as i64).collect();
                    return bad("wrong time", format!("the script shows the time {shown}, while the clock showed {seen:?}"));
                }
            }
            k += 1;
        }
        /* Notes of the interpreter about itself are no mark in time. */
        if counted || !started {
            prev_ev = this_ev;
        }
    }
    Verdict::Ok
}

/// C14
fn declared_schema(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let Some(last) = cmd.compile.last() else { return Verdict::Outside };
    let Some(main) = c.source(last) else { return Verdict::Outside };
    let tests: Vec<&Source> = cmd.tests.iter().filter_map(|t| c.source(t)).collect();
    let mut w = c.world(&c.env, false);
    let r = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let p = &r.procs[0];
    x.st.nontrivial = main.decls.len() > 1;
    if !p.ok() {
        /* The report is written before the image, whose one block may be too small. */
        let full = |f: &String| c.source(f).is_some_and(|s| room(s) >= 2800);
        if cmd.compile.iter().take_while(|f| *f != last).any(full) {
            return Verdict::Ok;
        }
        if !full(last) {
            return bad("source rejected", format!("compiling a correct source: {}\n{}", p.describe(), tail(&p.stderr)));
        }
        x.st.probe("schema_too_large");
    }
    let got: Value = match w.content(&abs("inspect_output/test_compile")).map(serde_json::from_slice) {
        Some(Ok(v)) => v,
        _ => return bad("no report", "no readable inspection file".into()),
    };
    let want = declared(stem(last), &tests, main);
    let got = reported(&got);
    for k in ["name", "tables", "table_occurrences", "value_lists", "relationships", "scripts", "tests"] {
        if let Some(d) = differs(&want[k], &got[k], k, false) {
            return bad(k, d);
        }
    }
    Verdict::Ok
}

/// C16
fn compiled_image(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let mut sources = vec![];
    for f in &cmd.compile {
        let Some(s) = c.source(f) else { return Verdict::Outside };
        sources.push((stem(f), s));
    }
    let mut targets: Vec<&str> = sources.iter().map(|s| s.0).collect();
    targets.sort();
    targets.dedup();
    if sources.is_empty() || targets.len() != sources.len() {
        return Verdict::Outside;
    }
    let need = sources.iter().map(|s| room(s.1)).max().unwrap_or(0);
    let mut w = c.world(&c.env, false);
    let r = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let p = &r.procs[0];
    if !p.ok() {
        if need < 2800 {
            return bad("source rejected", format!("compiling a correct source: {}\n{}", p.describe(), tail(&p.stderr)));
        }
        x.st.probe("schema_too_large");
        return Verdict::Ok;
    }
    if need > 2800 {
        x.st.probe("large_schema");
    }
    if sources.len() > 1 {
        x.st.probe("several_sources");
    }
    /* The numbers of the occurrences are those of the report, whichever those are. */
    let report: Value = w.content(&abs("inspect_output/test_compile")).and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default();
    for (k, (name, s)) in sources.iter().enumerate() {
        let report = if k + 1 == sources.len() { Some(&report) } else { None };
        match one_image(c, x, &mut w, name, s, report) {
            Verdict::Ok => {}
            v => return v,
        }
    }
    Verdict::Ok
}

fn declared_names(s: &Source) -> (Vec<&String>, Vec<&String>) {
    (
        s.decls.iter().filter_map(|d| if let D::Table(n) = d { Some(n) } else { None }).collect(),
        s.decls.iter().filter_map(|d| if let D::Occ(n, _) = d { Some(n) } else { None }).collect(),
    )
}

/// What the one block that a compile fills has room for in any case.
fn room(s: &Source) -> usize {
    let (tables, occs) = declared_names(s);
    tables.iter().map(|n| 2 * n.chars().count() + n.len() + 60).sum::<usize>() + occs.iter().map(|n| 2 * n.chars().count() + 30).sum::<usize>()
}

fn one_image(c: &Case, x: &mut Exec, w: &mut Vfs, name: &str, main: &Source, report: Option<&Value>) -> Verdict {
    let target = abs(&format!("{name}.fmp12"));
    let (tables, occs) = declared_names(main);
    x.st.nontrivial |= tables.len() + occs.len() > 1;
    let Some(img) = w.content(&target).map(|b| b.to_vec()) else { return bad("no image", format!("{target} does not exist")) };
    let items = match unpack::unpack(&img) {
        Ok(v) => v,
        Err(e) => return bad("malformed image", e),
    };
    let record = format!("{name}/\r");
    let at = &img[3082..4088];
    if !at.starts_with(record.as_bytes()) || at[record.len()..].iter().any(|b| *b != b' ') {
        return bad("file name", format!("the header names {:?}, not {name:?}", String::from_utf8_lossy(at).trim_end()));
    }
    let under = |path: &[usize]| -> Vec<&unpack::Item> { items.iter().filter(|i| i.path == path && !i.push).collect() };
    let one = |path: &[usize], k: usize| -> Option<Vec<u8>> {
        let v: Vec<Vec<u8>> = under(path).into_iter().filter(|i| i.key == unpack::Key::Num(k)).map(|i| i.data.clone()).collect();
        if v.len() == 1 {
            v.into_iter().next()
        } else {
            None
        }
    };
    let be = |n: usize| (n as u32).to_be_bytes().to_vec();
    let names = under(&[3, 16, 1, 1]);
    let ids = under(&[3, 16, 1, 3]);
    if names.len() != tables.len() || ids.len() != tables.len() {
        return bad("table catalog", format!("{} names and {} numbers for {} tables", names.len(), ids.len(), tables.len()));
    }
    for (i, t) in tables.iter().enumerate() {
        let ok = matches!(&names[i].key, unpack::Key::Long(k) if unpack::is_sort_key(k, t)) && names[i].data == [2, 128, i as u8 + 1];
        if !ok {
            return bad("table catalog", format!("table {} ({t}) is listed as {:?} with {:?}", i + 1, names[i].key, names[i].data));
        }
        if ids[i].key != unpack::Key::Long(be(i + 1)) || ids[i].data != be(i + 1) {
            return bad("table catalog", format!("number {} is listed as {:?} with {:?}", i + 1, ids[i].key, ids[i].data));
        }
    }
    if one(&[3, 16, 1], 4) != Some(be(tables.len())) {
        return bad("table catalog", format!("the image counts {:?} tables, there are {}", one(&[3, 16, 1], 4), tables.len()));
    }
    let dirs: Vec<usize> = items.iter().filter(|i| i.push && i.path.len() == 4 && i.path[..3] == [3, 16, 5]).map(|i| i.path[3]).collect();
    if dirs != (0..tables.len()).map(|i| 129 + i).collect::<Vec<_>>() {
        return bad("tables", format!("the table directories are {dirs:?} for {} tables", tables.len()));
    }
    let occ_names = under(&[3, 17, 1, 1]);
    let occ_ids = under(&[3, 17, 1, 3]);
    if occ_names.len() != occs.len() || occ_ids.len() != occs.len() {
        return bad("occurrence catalog", format!("{} names and {} numbers for {} occurrences", occ_names.len(), occ_ids.len(), occs.len()));
    }
    for (i, o) in occs.iter().enumerate() {
        if !unpack::is_sort_key(&occ_names[i].data, o) {
            return bad("occurrence catalog", format!("occurrence {o} is listed as {:?}", occ_names[i].data));
        }
    }
    if let Some(report) = report {
        let mut want: Vec<u32> = report["table_occurrences"].as_object().map(|o| o.keys().filter_map(|k| k.parse().ok()).collect()).unwrap_or_default();
        want.sort();
        let got: Vec<u32> = occ_ids.iter().map(|i| i.data.iter().fold(0u32, |a, b| a << 8 | *b as u32)).collect();
        if got != want {
            return bad("occurrence catalog", format!("the occurrences are numbered {got:?}, in the report {want:?}"));
        }
    }
    let scripts = main.scripts().len();
    if one(&[17, 1], 0) != Some(vec![1, scripts as u8]) {
        return bad("script catalog", format!("the image notes {:?} for {scripts} scripts", one(&[17, 1], 0)));
    }
    let back = Cmd { decompile: vec![target.clone()], no_testing: true, ..Cmd::default() }.args();
    let r = x.solo(w, &back, &c.env, &[]);
    let p = &r.procs[0];
    if !p.ok() {
        return bad("own image rejected", format!("decompiling the compiled image: {}\n{}", p.describe(), tail(&p.stderr)));
    }
    if w.content(&target) != Some(&img[..]) {
        return bad("image changed", "decompiling changed the image".into());
    }
    let got: Value = match w.content(&abs("inspect_output/test_decompile")).map(serde_json::from_slice) {
        Some(Ok(v)) => v,
        _ => return bad("no report", "no readable inspection file".into()),
    };
    let want: serde_json::Map<String, Value> = tables.iter().enumerate().map(|(i, t)| ((i + 1).to_string(), json!({"table_name": t, "fields": {}}))).collect();
    if let Some(d) = differs(&Value::Object(want), &got["tables"], "tables", true) {
        return bad("tables", format!("decompiling the compiled image: {d}"));
    }
    Verdict::Ok
}

/// C17
fn rough_source(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let mut w = c.world(&c.env, false);
    let before = w.clone();
    let r = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let p = &r.procs[0];
    x.st.nontrivial = true;
    x.st.probe(match p.code {
        Some(0) => "source_accepted",
        Some(_) => "source_rejected",
        None => "died",
    });
    if let Some(t) = &p.runaway {
        return bad("endless", format!("a run on a damaged source does not end: {t}"));
    }
    if p.signal.is_some() {
        return bad("signal", format!("a run on a damaged source: {}, after {} requests\n{}", p.describe(), p.requests, tail(&p.stderr)));
    }
    for s in &cmd.compile {
        let t = abs(&format!("{}.fmp12", stem(s)));
        if p.code != Some(0) {
            if w.content(&t) != before.content(&t) {
                return bad("image of a rejected source", format!("the run ends with {}, and {t} is changed", p.describe()));
            }
        } else if w.content(&t).is_none_or(|b| b.len() < unpack::BLOCK) {
            return bad("success without image", format!("exit status 0, and {t} holds no image"));
        }
    }
    Verdict::Ok
}

/// C18: the same command without its tests, with others, with them twice.
fn observed_only(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let Ok(progs) = programs(c, &cmd) else { return Verdict::Outside };
    if !progs.iter().all(|p| p.with(tame)) {
        return Verdict::Outside;
    }
    let tests: usize = progs.iter().map(|p| p.tests.len()).sum();
    drop(progs);
    x.st.nontrivial = tests > 0;
    let mut w = c.world(&c.env, false);
    let base = x.solo(&mut w, &c.procs[0], &c.env, &[]);
    let mut others: Vec<(&str, Case, Cmd)> = vec![];
    others.push(("with --no-testing", c.clone(), Cmd { no_testing: true, ..cmd.clone() }));
    let mut none = c.clone();
    for f in &mut none.files {
        if let (Body::Burn(s), true) = (&mut f.body, cmd.compile.contains(&f.path)) {
            s.decls.retain(|d| !matches!(d, D::Test(..)));
        }
    }
    others.push(("without tests", none, Cmd { tests: vec![], ..cmd.clone() }));
    let mut r = Rng::new(c.param.first().copied().unwrap_or(0));
    let mut all = c.clone();
    let mut twice = cmd.clone();
    match r.below(3) {
        0 => twice.tests.extend(cmd.tests.clone()),
        1 => {
            let fails = S::Assert(E::Eq(Box::new(E::Str("a".into())), Box::new(E::Str("b".into()))));
            let t = (0..r.range(1, 40)).map(|k| D::Test(format!("No{k}"), ScriptD { name: "run".into(), args: vec![], body: vec![fails.clone()] })).collect();
            all.add("failing.burn", Body::Burn(Source { decls: t, style: 0 }));
            twice.tests.insert(r.below(cmd.tests.len() + 1), "failing.burn".into());
        }
        _ => twice.tests.reverse(),
    }
    others.push(("with other tests", all, twice));
    let report = |w: &Vfs, compile: bool| -> Option<Value> {
        let p = if compile { "inspect_output/test_compile" } else { "inspect_output/test_decompile" };
        let mut v: Value = serde_json::from_slice(w.content(&abs(p))?).ok()?;
        if compile {
            v.as_object_mut()?.remove("tests");
        }
        Some(v)
    };
    let mut silent: Vec<String> = vec![];
    for (k, (what, c2, cmd2)) in others.iter().enumerate() {
        let mut e = c.env.clone();
        e.seed = mix(&[e.seed, 31 + k as u64]);
        let mut w2 = c2.world(&e, false);
        let o = x.solo(&mut w2, &cmd2.args(), &e, &[]);
        let (p, q) = (&base.procs[0], &o.procs[0]);
        if p.ok() != q.ok() {
            return bad("exit status", format!("the run with its tests: {}; {what}: {}\n{}\n{}", p.describe(), q.describe(), tail(&p.stderr), tail(&q.stderr)));
        }
        if !p.ok() {
            return Verdict::Outside;
        }
        for f in cmd.outputs() {
            if f.ends_with("/test_compile") || f.ends_with("/test_decompile") {
                let (a, b) = (report(&w, !cmd.compile.is_empty()), report(&w2, !cmd.compile.is_empty()));
                if a.is_none() || a != b {
                    return bad("report", format!("the schema reported in a run with its tests and in one {what} differ"));
                }
            } else if w.content(&f).is_none() || w.content(&f) != w2.content(&f) {
                let show = |w: &Vfs| w.content(&f).map(|b| b.to_vec()).unwrap_or_default();
                return bad("output file", format!("{f} of a run with its tests and of one {what} differ: {}", excerpt(&show(&w), &show(&w2))));
            }
        }
        if k < 2 {
            let lines: Vec<String> = q.text().lines().map(String::from).collect();
            if k == 1 && lines != silent {
                return bad("tests run", format!("the console of a run with --no-testing and of one without tests differ: {:?} against {:?}", first_other(&silent, &lines), first_other(&lines, &silent)));
            }
            silent = lines;
        }
    }
    /* What is printed besides the tests is the same, too. */
    let text = base.procs[0].text();
    let mut rest = text.lines();
    for l in &silent {
        if !rest.any(|x| x == l) {
            return bad("console", format!("a run with tests does not show {l:?}, which one without them shows"));
        }
    }
    Verdict::Ok
}

fn first_other<'a>(a: &'a [String], b: &[String]) -> Option<&'a String> {
    a.iter().enumerate().find(|(i, l)| b.get(*i) != Some(l)).map(|x| x.1)
}

/// C19: the inputs of one command against commands of their own.
fn each_its_own(c: &Case, x: &mut Exec) -> Verdict {
    let cmd = Cmd::parse(&c.procs[0]);
    let compile = !cmd.compile.is_empty();
    let inputs = if compile { &cmd.compile } else { &cmd.decompile };
    if inputs.len() < 2 || (compile && !cmd.decompile.is_empty()) {
        return Verdict::Outside;
    }
    let plain = Env::plain(mix(&[c.seed, 5]));
    let mut own: Vec<(Vfs, ProcResult)> = vec![];
    for f in inputs {
        let one = Cmd { compile: if compile { vec![f.clone()] } else { vec![] }, decompile: if compile { vec![] } else { vec![f.clone()] }, ..cmd.clone() };
        let mut w = c.world(&plain, false);
        let r = x.solo(&mut w, &one.args(), &plain, &[]);
        let p = r.procs.into_iter().next().unwrap();
        if p.runaway.is_some() || p.signal.is_some() {
            return Verdict::Outside;
        }
        let last = !p.ok();
        own.push((w, p));
        if last {
            break;
        }
    }
    let all_fine = own.iter().all(|o| o.1.ok());
    let before = c.world(&c.env, false);
    let mut w = before.clone();
    let r = x.solo(&mut w, &c.procs[0], &c.env, &c.faults);
    let p = &r.procs[0];
    x.st.nontrivial = own.len() > 1;
    if !all_fine {
        x.st.probe("rejected_input");
    }
    /* Every image is the one of an input compiled to it, or the old one. */
    if compile {
        let mut targets: Vec<&str> = inputs.iter().map(|f| stem(f)).collect();
        targets.sort();
        targets.dedup();
        for t in targets {
            let f = abs(&format!("{t}.fmp12"));
            let now = w.content(&f);
            let results: Vec<Option<&[u8]>> = own.iter().zip(inputs).filter(|(o, i)| stem(i) == t && o.1.ok()).map(|(o, _)| o.0.content(&f)).collect();
            if c.faults.is_empty() {
                let want = results.last().copied().unwrap_or(before.content(&f));
                /* What comes behind a rejected input may be done or not. */
                let later = !all_fine && inputs[own.len()..].iter().any(|i| stem(i) == t);
                if now != want && !later {
                    let show = |b: Option<&[u8]>| b.map(|b| b.to_vec()).unwrap_or_default();
                    return bad("image", format!("{f} is not the image of its source alone: {}", excerpt(&show(want), &show(now))));
                }
            } else if now != before.content(&f) && !results.contains(&now) && all_fine {
                return bad("image", format!("after {:?}, {f} holds neither its old content nor the image of a source", c.faults));
            }
        }
    }
    if !c.faults.is_empty() {
        return Verdict::Ok;
    }
    if p.ok() != all_fine {
        let o = &own[own.len() - 1].1;
        return bad("exit status", format!("together: {}; alone, input {}: {}\n{}", p.describe(), own.len(), o.describe(), tail(&p.stderr)));
    }
    let text: String = own.iter().map(|o| o.1.text()).collect();
    if (all_fine && p.text() != text) || !p.text().starts_with(&text) {
        return bad("console", format!("together, the inputs print something else than one by one: {}", excerpt(text.as_bytes(), p.text().as_bytes())));
    }
    if all_fine {
        let last = &own[own.len() - 1].0;
        for f in cmd.outputs().iter().filter(|f| !f.ends_with(".fmp12")) {
            if w.content(f) != last.content(f) {
                let show = |w: &Vfs| w.content(f).map(|b| b.to_vec()).unwrap_or_default();
                return bad("output file", format!("{f} is not what the last input alone gives: {}", excerpt(&show(last), &show(&w))));
            }
        }
    }
    Verdict::Ok
}

/// C20: every step of a history against the same command in a fresh directory.
fn history(c: &Case, x: &mut Exec) -> Verdict {
    let mut w = c.world(&c.env, false);
    /* For each image, what a power loss may leave of it. */
    let mut may: BTreeMap<String, Vec<Option<Vec<u8>>>> = BTreeMap::new();
    for step in &c.procs {
        for s in &Cmd::parse(step).compile {
            let t = abs(&format!("{}.fmp12", stem(s)));
            let b = w.content(&t).map(|b| b.to_vec());
            may.insert(t, vec![b]);
        }
    }
    let mut disturbed = false;
    let mut after = 0;
    for (k, step) in c.procs.iter().enumerate() {
        let what = format!("step {} ({})", k + 1, step.args.join(" "));
        let faults: Vec<Fault> = c.faults.iter().filter(|f| f.proc == k).map(|f| Fault { proc: 0, ..f.clone() }).collect();
        if matches!(step.args.first().map(|s| s.as_str()), Some("cp" | "power")) {
            history_step(&mut w, step, x, &c.env, &[]);
            if step.args[0] == "power" {
                disturbed = true;
                x.st.probe("power_loss_between_commands");
                for (t, v) in &mut may {
                    let b = w.content(t).map(|b| b.to_vec());
                    if !v.contains(&b) {
                        return bad("lost image", format!("{what}: {t} holds none of the images it could"));
                    }
                    *v = vec![b];
                }
            }
            continue;
        }
        let cmd = Cmd::parse(step);
        /* The same command where nothing has happened before. */
        let mut fresh = base_vfs(&c.env);
        fresh.add_dir(&abs("inspect_output"));
        for f in cmd_inputs(&cmd) {
            if let Some(b) = w.content(&abs(&f)) {
                let b = b.to_vec();
                if fresh.content(&abs(&f)).is_none() {
                    fresh.add_file(&abs(&f), &b);
                }
            }
        }
        let plain = Env::plain(mix(&[c.seed, 300 + k as u64]));
        let want = x.solo(&mut fresh, step, &plain, &[]);
        let q = &want.procs[0];
        if q.runaway.is_some() || q.signal.is_some() {
            return Verdict::Outside;
        }
        let mut e = c.env.clone();
        if c.param.is_empty() {
            e.seed = mix(&[e.seed, 400 + k as u64]);
        }
        e.clock_s += 3600 * k as i64;
        let before = w.clone();
        w.space = None;
        let r = x.solo(&mut w, step, &e, &faults);
        w.space = None;
        let p = &r.procs[0];
        let targets: Vec<String> = cmd.compile.iter().map(|s| abs(&format!("{}.fmp12", stem(s)))).collect();
        let hit = r.fired.keys().any(|f| !f.starts_with("short") && !f.starts_with("eintr"));
        if !hit || p.ok() {
            if p.code != q.code {
                return bad("exit status", format!("{what}: {}, in a fresh directory: {}\n{}", p.describe(), q.describe(), tail(&p.stderr)));
            }
            if p.ok() && p.text() != q.text() {
                return bad("console", format!("{what} prints something else than in a fresh directory: {}", excerpt(q.text().as_bytes(), p.text().as_bytes())));
            }
            for f in cmd.outputs() {
                let fine = if p.ok() { w.content(&f) == fresh.content(&f) } else { !targets.contains(&f) || fresh.content(&f).is_none() || w.content(&f) == fresh.content(&f) };
                if !fine {
                    let show = |w: &Vfs| w.content(&f).map(|b| b.to_vec()).unwrap_or_default();
                    return bad("output file", format!("{what}: {f} is not what the same command gives in a fresh directory: {}", excerpt(&show(&fresh), &show(&w))));
                }
            }
            if disturbed {
                after += 1;
            }
        }
        disturbed |= hit;
        for (t, v) in &mut may {
            let now = w.content(t).map(|b| b.to_vec());
            if !targets.contains(t) {
                if !r.power_lost && now.as_deref() != before.content(t) {
                    return bad("other image", format!("{what} changed {t}"));
                }
            } else if let Some(new) = fresh.content(t) {
                let new = Some(new.to_vec());
                if p.ok() {
                    *v = vec![new];
                } else if !v.contains(&new) {
                    v.push(new);
                }
            }
            if !v.contains(&now) {
                return bad("image", format!("after {what} {t} holds none of the images it could ({:?})", r.fired));
            }
            if r.power_lost {
                *v = vec![now];
            }
        }
    }
    x.st.nontrivial = after > 0;
    Verdict::Ok
}

/// C15
fn concurrent(c: &Case, x: &mut Exec) -> Verdict {
    let plain = Env::plain(mix(&[c.seed, 79]));
    let cmds: Vec<Cmd> = c.procs.iter().map(Cmd::parse).collect();
    let base = c.world(&plain, false);
    /* What each compile alone produces, and what each reader sees in each complete image. */
    let mut images: BTreeMap<String, Vec<(Option<usize>, Option<Vec<u8>>)>> = BTreeMap::new();
    let target = |m: &Cmd| m.compile.first().map(|s| abs(&format!("{}.fmp12", stem(s))));
    for n in cmds.iter().filter_map(target).chain(cmds.iter().flat_map(|m| m.decompile.iter().map(|d| abs(d)))) {
        images.entry(n.clone()).or_insert_with(|| vec![(None, base.content(&n).map(|b| b.to_vec()))]);
    }
    for (i, m) in cmds.iter().enumerate() {
        if let Some(t) = target(m) {
            let mut w = base.clone();
            let r = x.solo(&mut w, &c.procs[i], &plain, &[]);
            if !r.procs[0].ok() {
                return Verdict::Outside;
            }
            images.get_mut(&t).unwrap().push((Some(i), w.content(&t).map(|b| b.to_vec())));
        }
    }
    let mut seen: BTreeMap<usize, Vec<(Option<i32>, Vec<u8>, Option<Vec<u8>>)>> = BTreeMap::new();
    for (i, m) in cmds.iter().enumerate() {
        let Some(d) = m.decompile.first() else { continue };
        for (_, b) in &images[&abs(d)] {
            let mut w = base.clone();
            if let Some(b) = b {
                if let Some(ino) = w.get(&abs(d)) {
                    w.inodes[ino].data = b.clone();
                } else {
                    w.add_file(&abs(d), b);
                }
            }
            let r = x.solo(&mut w, &c.procs[i], &plain, &[]);
            let out = w.content(&abs("inspect_output/test_decompile")).map(|b| b.to_vec());
            seen.entry(i).or_default().push((r.procs[0].code, r.procs[0].stdout.clone(), out));
        }
    }
    let distinct = images.values().any(|v| {
        let mut k: Vec<&Option<Vec<u8>>> = v.iter().map(|x| &x.1).collect();
        k.sort();
        k.dedup();
        k.len() > 2
    });
    if distinct {
        x.st.probe("different_images_compete");
    }
    let mut w = c.world(&c.env, false);
    let mut watch = |v: &Vfs| {
        for (n, set) in &images {
            let b = v.content(n);
            if !set.iter().any(|s| s.1.as_deref() == b) {
                return Some(format!("{n} is neither an old nor a new image ({:?} bytes)", b.map(|b| b.len())));
            }
        }
        None
    };
    let r = x.run(&mut w, &c.procs, &c.env, &c.faults, &c.schedule, Some(&mut watch));
    x.st.nontrivial = r.procs.iter().all(|p| p.requests > 3);
    if let Some(i) = &r.invariant {
        return bad("mixed image visible", i.clone());
    }
    let hit: Vec<usize> = c.faults.iter().filter(|f| !matches!(f.kind, FaultKind::Stall(_))).map(|f| f.proc).collect();
    for (i, p) in r.procs.iter().enumerate() {
        if cmds[i].compile.is_empty() || hit.contains(&i) {
            continue;
        }
        if !p.ok() {
            return bad("run disturbed", format!("process {i} ({:?}) ends with {} although nothing failed for it\n{}", c.procs[i].args, p.describe(), tail(&p.stderr)));
        }
    }
    for (i, s) in &seen {
        let p = &r.procs[*i];
        if hit.contains(i) {
            continue;
        }
        let out = w.content(&abs("inspect_output/test_decompile")).map(|b| b.to_vec());
        let single = seen.len() == 1;
        if !s.iter().any(|(code, so, o)| *code == p.code && *so == p.stdout && (!single || p.code != Some(0) || *o == out)) {
            return bad("reader saw a mixture", format!("the reader (process {i}) ends with {} and a result that fits none of the complete images", p.describe()));
        }
        if p.code == Some(0) {
            x.st.probe("reader_succeeded");
        }
    }
    for (n, set) in &images {
        let b = w.content(n);
        /* One of the compiles that succeeded, or one that died after it had put its image in place. */
        let done: Vec<usize> = (0..cmds.len()).filter(|i| target(&cmds[*i]).as_ref() == Some(n) && r.procs[*i].ok()).collect();
        let ok = set.iter().any(|(who, img)| {
            img.as_deref() == b
                && match who {
                    Some(i) => r.procs[*i].ok() || hit.contains(i),
                    None => done.is_empty(),
                }
        });
        if !ok {
            return bad("wrong image left", format!("when all are done {n} is not the image of a compile that succeeded"));
        }
    }
    let _ = json!(null);
    Verdict::Ok
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" => "Both executions of the case delivered results.",
        "C03" => "The image stores more than one object.",
        "C04" => "The image was damaged at least once.",
        "C05" | "C06" => "At least one injected fault took effect.",
        "C07" => "The command got as far as handling files.",
        "C08" => "More than one test in the case.",
        "C12" => "The command delivered results, or its tests have output besides their outcomes.",
        "C09" | "C10" | "C11" | "C13" => "The tests have output besides their outcomes.",
        "C14" => "More than one declaration in the source.",
        "C16" => "The image holds more than one table or occurrence.",
        "C20" => "An undisturbed command follows a failure, a crash or a power loss.",
        "C18" => "The command has at least one test.",
        "C19" => "More than one input was processed.",
        "C17" => "Every case: the source is damaged, unfinished or no source.",
        _ => "All processes got as far as handling files.",
    }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "glibc entry points used by the Rust standard library are intercepted; a raw system call would bypass the simulator (none was seen)",
        "the simulated file system stands for ext4-like semantics: data and names become durable by fsync, unsynced writes survive in any subset of pages, unsynced names in any order-respecting state",
    ];
    match prop {
        "C03" | "C04" => v.push("the encoder's notion of a well-formed image follows the reader's format description; no FileMaker-made corpus beyond tests/input/blank.fmp12 is available"),
        "C08" | "C09" | "C10" | "C11" | "C12" | "C13" => v.push("programs stay in the part of the test language whose meaning is settled (DESIGN.md lists what is left out)"),
        "C16" => v.push("names of at most 100 characters, as FileMaker allows, and schemas that fit in the one block a compile fills; larger ones have to be rejected"),
        "C15" => v.push("processes meet only through the file system, one request at a time"),
        _ => {}
    }
    v
}
