//! Reference model of a test run: what the console has to show.

use crate::burn::*;
use crate::image::Schema;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
struct Tbl {
    id: u16,
    fields: Vec<String>,
    rows: Vec<BTreeMap<String, String>>,
}
#[derive(Clone, Debug, Default)]
struct Occ {
    name: String,
    table: usize,
    set: Vec<usize>,
    cur: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Text(String),
    /// A dialog showing the time read by the k-th reading of the clock.
    Clock(usize),
}

#[derive(Debug, PartialEq)]
pub enum Stop {
    /// A false assertion.
    Failed,
    /// The program leaves the part of the language the model speaks about, or does not end.
    Outside(&'static str),
}
enum Flow {
    Next,
    Leave,
}

pub struct Vm<'a> {
    scripts: &'a [&'a ScriptD],
    layouts: BTreeMap<String, usize>,
    tables: Vec<Tbl>,
    occs: Vec<Occ>,
    cur: usize,
    find: bool,
    criteria: Vec<(String, String)>,
    frames: Vec<BTreeMap<String, String>>,
    pub out: Vec<Line>,
    steps: usize,
    clock: usize,
    depth: usize,
    /// Loops around the current step, per active script.
    loops: Vec<usize>,
}

pub const MAX_STEPS: usize = 4000;
const MAX_LINES: usize = 1500;
const CLOCK_MARK: char = '\u{1}';

impl<'a> Vm<'a> {
    pub fn new(schema: Option<&Schema>, scripts: &'a [&'a ScriptD]) -> Vm<'a> {
        let mut v = Vm {
            scripts,
            layouts: BTreeMap::new(),
            tables: vec![],
            occs: vec![],
            cur: 0,
            find: false,
            criteria: vec![],
            frames: vec![],
            out: vec![],
            steps: 0,
            clock: 0,
            depth: 0,
            loops: vec![0],
        };
        if let Some(s) = schema {
            for t in &s.tables {
                v.tables.push(Tbl { id: t.id, fields: t.fields.iter().map(|f| f.name.clone()).collect(), rows: vec![] });
            }
            for o in &s.occs {
                let table = v.tables.iter().position(|t| t.id == o.table as u16).unwrap_or(0);
                v.occs.push(Occ { name: o.name.clone(), table, set: vec![], cur: 0 });
            }
            for l in &s.layouts {
                if let Some(i) = s.occs.iter().position(|o| o.id == l.occ as u16) {
                    v.layouts.insert(l.name.clone(), i);
                }
            }
            v.cur = (0..s.occs.len()).min_by_key(|i| s.occs[*i].id).unwrap_or(0);
        }
        v
    }

    /// Runs one test: the lines between its start and its outcome, and whether it succeeds.
    pub fn test(&mut self, s: &ScriptD) -> Result<bool, &'static str> {
        self.frames = vec![BTreeMap::new()];
        match self.block(&s.body) {
            Ok(_) => Ok(true),
            Err(Stop::Failed) => Ok(false),
            Err(Stop::Outside(w)) => Err(w),
        }
    }

    fn show(&mut self, v: String) {
        match v.strip_prefix(CLOCK_MARK) {
            Some(k) => self.out.push(Line::Clock(k.parse().unwrap())),
            None => self.out.push(Line::Text(v)),
        }
    }

    fn block(&mut self, b: &[S]) -> Result<Flow, Stop> {
        for s in b {
            if let Flow::Leave = self.step(s)? {
                return Ok(Flow::Leave);
            }
        }
        Ok(Flow::Next)
    }

    fn step(&mut self, s: &S) -> Result<Flow, Stop> {
        self.steps += 1;
        if self.steps > MAX_STEPS || self.out.len() > MAX_LINES {
            return Err(Stop::Outside("too long"));
        }
        match s {
            S::Set(v, e) => {
                let x = self.eval(e)?;
                self.frames.last_mut().unwrap().insert(v.clone(), x);
            }
            S::Show(e) => {
                let x = self.eval(e)?;
                self.show(x);
            }
            S::Assert(e) => {
                if self.eval(e)? == "false" {
                    self.out.push(Line::Text(format!("Assertion failed: {}", e.text())));
                    return Err(Stop::Failed);
                }
            }
            S::Call(n) => {
                if let Some(c) = self.scripts.iter().find(|c| c.name == *n).copied() {
                    self.out.push(Line::Text(format!("calling {n}")));
                    self.frames.push(BTreeMap::new());
                    self.depth += 1;
                    if self.depth > 20 {
                        return Err(Stop::Outside("too deep"));
                    }
                    self.loops.push(0);
                    self.block(&c.body)?;
                    self.loops.pop();
                    self.depth -= 1;
                    self.frames.pop();
                }
            }
            S::Layout(n) => {
                if self.find {
                    return Err(Stop::Outside("layout change in find mode"));
                }
                if let Some(i) = self.layouts.get(n) {
                    self.cur = *i;
                }
            }
            S::New => {
                if self.find || self.occs.is_empty() {
                    return Err(Stop::Outside("new record in find mode or without tables"));
                }
                let t = self.occs[self.cur].table;
                let row = self.tables[t].fields.iter().map(|f| (f.clone(), String::new())).collect();
                self.tables[t].rows.push(row);
                let n = self.tables[t].rows.len() - 1;
                for o in self.occs.iter_mut().filter(|o| o.table == t) {
                    o.set.push(n);
                    o.cur = o.set.len() - 1;
                }
            }
            S::Put(o, f, e) => {
                let x = self.eval(e)?;
                if x.starts_with(CLOCK_MARK) {
                    return Err(Stop::Outside("time in a field"));
                }
                if self.find {
                    if self.occs.get(self.cur).map(|c| &c.name) != Some(o) {
                        return Err(Stop::Outside("request for another occurrence"));
                    }
                    self.criteria.push((f.clone(), x));
                } else if let Some(k) = self.occs.iter().position(|c| c.name == *o) {
                    let c = &self.occs[k];
                    if let Some(row) = c.set.get(c.cur) {
                        if let Some(cell) = self.tables[c.table].rows[*row].get_mut(f) {
                            *cell = x;
                        }
                    }
                }
            }
            S::Goto(p, x) => {
                let p = self.eval(p)?;
                let exit = match x {
                    Some(e) => {
                        let v = self.eval(e)?;
                        !matches!(v.trim_matches('"'), "" | "false" | "0")
                    }
                    None => false,
                };
                if p.starts_with(CLOCK_MARK) {
                    return Err(Stop::Outside("time as position"));
                }
                if self.find {
                    return Ok(Flow::Next);
                }
                let moved = match self.occs.get_mut(self.cur) {
                    None => false,
                    Some(c) => {
                        let before = c.cur;
                        let last = c.set.len().saturating_sub(1);
                        if let Ok(n) = p.parse::<usize>() {
                            c.cur = n.min(last);
                        } else {
                            match p.as_str() {
                                "\"first\"" => c.cur = 0,
                                "\"last\"" => c.cur = last,
                                "\"next\"" => c.cur = (c.cur + 1).min(last),
                                "\"previous\"" => c.cur = c.cur.saturating_sub(1),
                                _ => {}
                            }
                        }
                        c.cur != before
                    }
                };
                if exit && !moved && *self.loops.last().unwrap() > 0 {
                    return Ok(Flow::Leave);
                }
            }
            S::FindMode => self.find = true,
            S::Find => {
                if !self.occs.is_empty() {
                    let t = self.occs[self.cur].table;
                    let rows = &self.tables[t].rows;
                    let hit: Vec<usize> =
                        (0..rows.len()).filter(|i| self.criteria.iter().any(|(f, v)| rows[*i].get(f) == Some(v))).collect();
                    let all = (0..rows.len()).collect();
                    let c = &mut self.occs[self.cur];
                    if hit.is_empty() {
                        c.set = all;
                    } else {
                        c.set = hit;
                        c.cur = 0;
                    }
                } else if !self.criteria.is_empty() {
                    return Err(Stop::Outside("find without tables"));
                }
                self.criteria.clear();
                self.find = false;
            }
            S::All => {
                if self.find {
                    return Err(Stop::Outside("show all in find mode"));
                }
                if !self.occs.is_empty() {
                    let n = self.tables[self.occs[self.cur].table].rows.len();
                    self.occs[self.cur].set = (0..n).collect();
                }
            }
            S::Loop(b) => {
                *self.loops.last_mut().unwrap() += 1;
                loop {
                    self.steps += 1;
                    if self.steps > MAX_STEPS {
                        return Err(Stop::Outside("too long"));
                    }
                    if let Flow::Leave = self.block(b)? {
                        break;
                    }
                }
                *self.loops.last_mut().unwrap() -= 1;
            }
            S::ExitIf(e) => {
                if self.eval(e)? == "true" && *self.loops.last().unwrap() > 0 {
                    return Ok(Flow::Leave);
                }
            }
            S::If(arms, els) => {
                for (c, b) in arms {
                    if self.eval(c)? == "true" {
                        return self.block(b);
                    }
                }
                if let Some(b) = els {
                    return self.block(b);
                }
            }
            S::Unknown(_) | S::ExitScript(_) => {}
        }
        Ok(Flow::Next)
    }

    fn eval(&mut self, e: &E) -> Result<String, Stop> {
        let timed = |v: &str| v.starts_with(CLOCK_MARK);
        Ok(match e {
            E::Num(n) => n.to_string(),
            E::Str(s) => format!("\"{s}\""),
            E::Var(v) => self.frames.last().unwrap().get(v).cloned().unwrap_or_default(),
            E::Field(o, f) => {
                let c = match self.occs.get(self.cur) {
                    Some(c) if c.name == *o => c,
                    _ => return Err(Stop::Outside("field of another occurrence")),
                };
                match c.set.get(c.cur) {
                    Some(r) => self.tables[c.table].rows[*r].get(f).cloned().unwrap_or_default(),
                    None => String::new(),
                }
            }
            E::Arith(a, op, b) => {
                let (a, b) = (self.eval(a)?, self.eval(b)?);
                if timed(&a) || timed(&b) {
                    return Err(Stop::Outside("arithmetic on time"));
                }
                match (a.parse::<i64>(), b.parse::<i64>()) {
                    (Ok(a), Ok(b)) => {
                        let v = match op {
                            '+' => a + b,
                            '-' => a - b,
                            _ => a * b,
                        };
                        if !(0..1_000_000_000).contains(&v) {
                            return Err(Stop::Outside("number range"));
                        }
                        v.to_string()
                    }
                    _ => return Err(Stop::Outside("arithmetic on text")),
                }
            }
            E::Eq(a, b) | E::Ne(a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                if timed(&x) || timed(&y) {
                    return Err(Stop::Outside("comparing time"));
                }
                ((x == y) == matches!(e, E::Eq(..))).to_string()
            }
            E::Lt(a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                match (x.parse::<i64>(), y.parse::<i64>()) {
                    (Ok(p), Ok(q)) if x.len() == y.len() && p >= 0 && q >= 0 => (p < q).to_string(),
                    _ => return Err(Stop::Outside("order of unlike values")),
                }
            }
            E::Cat(v) => {
                let mut t = String::new();
                for x in v {
                    let x = self.eval(x)?;
                    if timed(&x) {
                        return Err(Stop::Outside("time in text"));
                    }
                    t.push_str(&x.replace('"', ""));
                    if t.len() > 4000 {
                        return Err(Stop::Outside("too much text"));
                    }
                }
                format!("\"{t}\"")
            }
            E::Time => {
                self.clock += 1;
                format!("{CLOCK_MARK}{}", self.clock - 1)
            }
            E::Account => "\"Admin\"".into(),
            E::Raw(_) => return Err(Stop::Outside("raw calculation")),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Section {
    pub name: String,
    pub lines: Vec<Line>,
    pub pass: bool,
}

/// All tests of a run, in order.
pub fn run_all(schema: Option<&Schema>, scripts: &[&ScriptD], tests: &[(&String, &ScriptD)]) -> Result<Vec<Section>, &'static str> {
    let mut o = vec![];
    for (n, s) in tests {
        let mut vm = Vm::new(schema, scripts);
        let pass = vm.test(s)?;
        o.push(Section { name: n.to_string(), lines: vm.out, pass });
    }
    Ok(o)
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// The lines of the console that belong to tests: from the first start of a test on,
/// without the notes of the interpreter and the assembler about themselves.
pub fn test_lines(stdout: &str) -> Vec<String> {
    let text = strip_ansi(stdout);
    let mut started = false;
    let mut o = vec![];
    for l in text.lines() {
        if l.starts_with("Running test: ") {
            started = true;
        }
        if !started || l.starts_with("RESULT: ") || l.starts_with("Popping script: ") || l.starts_with("Ins: ") || l.starts_with("Pushing ") {
            continue;
        }
        o.push(l.to_string());
    }
    o
}

/// The console the model asks for.
pub fn expected_lines(v: &[Section]) -> Vec<Line> {
    let mut o = vec![];
    for s in v {
        o.push(Line::Text(format!("Running test: {}", s.name)));
        o.extend(s.lines.iter().cloned());
        o.push(Line::Text(format!("Test {} outcome: {}", s.name, if s.pass { "Success" } else { "Fail" })));
    }
    o
}

/// First difference, if any.
pub fn compare(expected: &[Line], got: &[String]) -> Option<String> {
    for i in 0..expected.len().max(got.len()) {
        let ok = match (expected.get(i), got.get(i)) {
            (Some(Line::Text(a)), Some(b)) => a == b,
            (Some(Line::Clock(_)), Some(b)) => b.parse::<i64>().is_ok(),
            _ => false,
        };
        if !ok {
            let show = |e: Option<&Line>| match e {
                Some(Line::Text(t)) => format!("{t:?}"),
                Some(Line::Clock(_)) => "the time".into(),
                None => "the end".into(),
            };
            return Some(format!(
                "line {} of the test output: expected {}, got {}",
                i + 1,
                show(expected.get(i)),
                got.get(i).map(|s| format!("{s:?}")).unwrap_or("the end".into())
            ));
        }
    }
    None
}
