//! The test environment as it is built today, defects included.
//!
//! The reference model in vm.rs says what a test run has to show. Where the
//! interpreter of the program is known to do something else (the findings
//! recorded with `quirk=` in known-findings.txt), this module says exactly
//! what: a flat interpreter of the stored steps in which every known defect is
//! a switch. A run that shows neither what the model asks for nor, to the
//! letter, what the recorded defects explain, is a violation. With all
//! switches off it is a second, independently structured model; generated
//! programs are checked to agree on both (probe `models_disagree`).

use crate::burn::{flat, ScriptD};
use crate::image::Schema;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const QUIRKS: &[&str] = &[
    "frames",
    "unknown-script",
    "loop-exit",
    "if-nesting",
    "exit-option",
    "get-argument",
    "empty-found-set",
    "unquoted-value",
    "empty-literal",
    "set-field",
    "find-field",
];

#[derive(Clone, Debug, Default)]
pub struct Quirks(pub BTreeSet<&'static str>);
impl Quirks {
    pub fn all() -> Quirks {
        Quirks(QUIRKS.iter().copied().collect())
    }
    fn on(&self, k: &str) -> bool {
        debug_assert!(QUIRKS.contains(&k));
        self.0.contains(k)
    }
}

/// How a test ends.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Success,
    Fail,
    /// The whole process dies.
    Abort,
    /// It never ends (or takes longer than any generated program may).
    Hang,
}

/// Why a step does not complete.
#[derive(Debug)]
enum Stop {
    /// The process would panic here.
    Panic,
    /// More text than any accepted program makes.
    TooMuch,
}
use Stop::Panic;
type R<T> = Result<T, Stop>;

// ------------------------------------------------------------ calculations

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tt {
    Open,
    Close,
    Ident,
    Num,
    Str,
    Comma,
    Plus,
    Minus,
    Mul,
    Div,
    Amp,
    Eq,
    Ne,
    Ge,
    Le,
    Gt,
    Lt,
}
#[derive(Clone, Debug)]
struct Token {
    t: Tt,
    v: String,
}

#[derive(Clone, Debug)]
enum Node {
    Binary(Box<Node>, Tt, Box<Node>),
    Concat(Box<Node>, Box<Node>),
    Compare(Box<Node>, Tt, Box<Node>),
    Call(String, Vec<Node>),
    Num(f64),
    Var(String),
    Field(String),
    Str(String),
}

fn lex(q: &Quirks, text: &str) -> R<Vec<Token>> {
    let mut out: Vec<Token> = vec![];
    let mut buf = String::new();
    let word = |buf: &mut String, out: &mut Vec<Token>| -> R<()> {
        if buf.is_empty() {
            return Ok(());
        }
        let b = std::mem::take(buf);
        if let Ok(n) = b.parse::<f64>() {
            out.push(Token { t: Tt::Num, v: n.to_string() });
        } else if !b.as_bytes()[0].is_ascii_digit() {
            out.push(Token { t: Tt::Ident, v: b });
        } else {
            return Err(Panic);
        }
        Ok(())
    };
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() && buf.is_empty() {
            continue;
        }
        let simple = match c {
            '(' => Some(Tt::Open),
            ')' => Some(Tt::Close),
            '+' => Some(Tt::Plus),
            ',' => Some(Tt::Comma),
            '-' => Some(Tt::Minus),
            '*' => Some(Tt::Mul),
            '/' => Some(Tt::Div),
            '&' => Some(Tt::Amp),
            _ => None,
        };
        if let Some(t) = simple {
            word(&mut buf, &mut out)?;
            out.push(Token { t, v: String::new() });
            continue;
        }
        match c {
            ' ' => word(&mut buf, &mut out)?,
            '!' | '=' | '<' | '>' => {
                word(&mut buf, &mut out)?;
                let eq = *it.peek().ok_or(Panic)? == '=';
                let t = match (c, eq) {
                    ('!', true) => {
                        it.next();
                        Some(Tt::Ne)
                    }
                    ('=', true) => Some(Tt::Eq),
                    ('<', true) => Some(Tt::Le),
                    ('<', false) => Some(Tt::Lt),
                    ('>', true) => Some(Tt::Ge),
                    ('>', false) => Some(Tt::Gt),
                    _ => None,
                };
                if let Some(t) = t {
                    out.push(Token { t, v: String::new() });
                }
            }
            '"' => {
                word(&mut buf, &mut out)?;
                buf.push(c);
                for c in it.by_ref() {
                    buf.push(c);
                    if c == '"' {
                        break;
                    }
                }
                if !q.on("empty-literal") || buf.chars().any(char::is_alphanumeric) {
                    out.push(Token { t: Tt::Str, v: buf.clone() });
                }
                buf.clear();
            }
            ':' => {
                buf.push(c);
                if *it.peek().unwrap_or(&'?') != ':' {
                    buf.push(c);
                }
                it.next();
                buf.push(c);
                while let Some(c) = it.next() {
                    buf.push(c);
                    if !it.peek().is_some_and(|c| c.is_alphanumeric()) {
                        break;
                    }
                }
                out.push(Token { t: Tt::Ident, v: std::mem::take(&mut buf) });
            }
            _ => buf.push(c),
        }
    }
    word(&mut buf, &mut out)?;
    Ok(out)
}

struct Parser {
    t: Vec<Token>,
    i: usize,
}
impl Parser {
    fn cur(&self) -> R<&Token> {
        self.t.get(self.i).ok_or(Panic)
    }
    fn next(&mut self) -> R<bool> {
        if self.t.is_empty() {
            return Err(Panic);
        }
        if self.i == self.t.len() - 1 {
            return Ok(false);
        }
        self.i += 1;
        Ok(true)
    }
    fn comparison(&mut self) -> R<Node> {
        let mut l = self.concatenation()?;
        loop {
            let op = self.cur()?.t;
            if !self.next()? {
                return Ok(l);
            }
            match op {
                Tt::Eq | Tt::Ne | Tt::Gt | Tt::Ge | Tt::Lt | Tt::Le => {
                    let r = self.concatenation()?;
                    l = Node::Compare(Box::new(l), op, Box::new(r));
                }
                _ => return Ok(l),
            }
        }
    }
    fn concatenation(&mut self) -> R<Node> {
        let mut l = self.expr()?;
        while self.cur()?.t == Tt::Amp {
            self.next()?;
            let r = self.expr()?;
            l = Node::Concat(Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn expr(&mut self) -> R<Node> {
        let mut l = self.term()?;
        loop {
            let op = self.cur()?.t;
            if !matches!(op, Tt::Plus | Tt::Minus) {
                return Ok(l);
            }
            self.next()?;
            let r = self.term()?;
            l = Node::Binary(Box::new(l), op, Box::new(r));
        }
    }
    fn term(&mut self) -> R<Node> {
        let mut l = self.factor()?;
        loop {
            let op = self.cur()?.t;
            if !matches!(op, Tt::Mul | Tt::Div) {
                return Ok(l);
            }
            self.next()?;
            let r = self.factor()?;
            l = Node::Binary(Box::new(l), op, Box::new(r));
        }
    }
    fn factor(&mut self) -> R<Node> {
        match self.cur()?.t {
            Tt::Num | Tt::Ident | Tt::Str => {
                let e = self.primary();
                self.next()?;
                e
            }
            Tt::Open => {
                self.next()?;
                self.comparison()
            }
            _ => self.primary(),
        }
    }
    fn primary(&mut self) -> R<Node> {
        let c = self.cur()?.clone();
        match c.t {
            Tt::Ident => {
                if c.v.split("::").count() == 2 {
                    Ok(Node::Field(c.v))
                } else if self.t.get(self.i + 1).is_some_and(|t| t.t == Tt::Open) {
                    let mut args = vec![];
                    loop {
                        self.next()?;
                        args.push(self.expr()?);
                        if self.cur()?.t != Tt::Comma {
                            return Ok(Node::Call(c.v, args));
                        }
                    }
                } else {
                    Ok(Node::Var(c.v))
                }
            }
            Tt::Num => Ok(Node::Num(c.v.parse().map_err(|_| Panic)?)),
            Tt::Str => Ok(Node::Str(c.v)),
            _ => Err(Panic),
        }
    }
}

// -------------------------------------------------------------------- data

#[derive(Clone, Default)]
struct Fld {
    name: String,
    rows: Vec<String>,
}
#[derive(Clone, Default)]
struct Occ {
    set: Vec<usize>,
    table: usize,
    cur: usize,
}

struct Step {
    op: String,
    sw: Vec<String>,
}

fn steps(s: &ScriptD) -> Vec<Step> {
    let mut v = vec![];
    flat(&s.body, &mut v);
    v.into_iter()
        .map(|x| Step {
            op: x["opcode"].as_str().unwrap_or("").into(),
            sw: x["switches"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
        })
        .collect()
}

pub struct Run<'a> {
    q: &'a Quirks,
    scripts: BTreeMap<&'a str, Vec<Step>>,
    ip: Vec<(String, usize)>,
    vars: Vec<HashMap<String, String>>,
    loops: Vec<usize>,
    taken: bool,
    find: bool,
    criteria: Vec<(String, String)>,
    tables: Vec<Vec<Fld>>,
    occs: Vec<Occ>,
    names: BTreeMap<String, usize>,
    layouts: BTreeMap<String, usize>,
    cur: usize,
    out: Vec<String>,
}

const MAX_STEPS: usize = 20_000;

impl<'a> Run<'a> {
    fn new(q: &'a Quirks, schema: Option<&Schema>, scripts: &'a [&'a ScriptD]) -> Run<'a> {
        let mut v = Run {
            q,
            scripts: BTreeMap::new(),
            ip: vec![],
            vars: vec![HashMap::new()],
            loops: vec![],
            taken: false,
            find: false,
            criteria: vec![],
            tables: vec![vec![]],
            occs: vec![Occ::default()],
            names: BTreeMap::new(),
            layouts: BTreeMap::new(),
            cur: 0,
            out: vec![],
        };
        for s in scripts {
            v.scripts.entry(&s.name).or_insert_with(|| steps(s));
        }
        if let Some(s) = schema {
            let n = s.tables.iter().map(|t| t.id as usize).max().unwrap_or(0);
            v.tables = vec![vec![]; n + 1];
            for t in &s.tables {
                let m = t.fields.iter().map(|f| f.id as usize).max().unwrap_or(0);
                let mut f = vec![Fld::default(); m + 1];
                for x in &t.fields {
                    f[x.id as usize].name = x.name.clone();
                }
                v.tables[t.id as usize] = f;
            }
            v.cur = s.occs.iter().map(|o| o.id as usize).min().unwrap_or(0);
            let n = s.occs.iter().map(|o| o.id as usize).max().unwrap_or(0);
            v.occs = vec![Occ::default(); n + 1];
            for o in &s.occs {
                v.names.insert(o.name.clone(), o.id as usize);
                v.occs[o.id as usize].table = o.table as usize;
            }
            for l in &s.layouts {
                v.layouts.insert(l.name.clone(), l.occ as usize);
            }
        }
        v
    }

    fn here(&self) -> R<&Occ> {
        self.occs.get(self.cur).ok_or(Panic)
    }
    fn table(&self) -> R<&Vec<Fld>> {
        self.tables.get(self.here()?.table).ok_or(Panic)
    }

    /// A word or a stored value as an operand.
    fn operand(&self, v: &str, depth: usize) -> R<String> {
        if depth > 50 {
            return Err(Panic);
        }
        if v.parse::<f64>().is_ok() || (v.starts_with('"') && v.ends_with('"')) {
            return Ok(v.into());
        }
        let again = |x: &str| if self.q.on("unquoted-value") { self.operand(x, depth + 1) } else { Ok(x.to_string()) };
        let p: Vec<&str> = v.split("::").collect();
        if p.len() == 2 {
            let o = self.here()?;
            let Some(row) = o.set.get(o.cur) else {
                return if self.q.on("empty-found-set") { Err(Panic) } else { Ok(String::new()) };
            };
            let val = match self.table()?.iter().find(|f| f.name == p[1]) {
                Some(f) => f.rows.get(*row).ok_or(Panic)?.clone(),
                None => String::new(),
            };
            return again(&val);
        }
        match self.vars.get(self.ip.len() - 1).ok_or(Panic)?.get(v) {
            Some(x) => again(x),
            None => Ok(String::new()),
        }
    }

    fn evaluate(&self, n: &Node) -> R<String> {
        Ok(match n {
            Node::Binary(l, op, r) => {
                let (l, r) = (self.evaluate(l)?, self.evaluate(r)?);
                let (l, r) = (self.operand(&l, 0)?, self.operand(&r, 0)?);
                match (l.parse::<f64>(), r.parse::<f64>()) {
                    (Ok(a), Ok(b)) => match op {
                        Tt::Plus => a + b,
                        Tt::Minus => a - b,
                        Tt::Mul => a * b,
                        _ => a / b,
                    }
                    .to_string(),
                    _ => "undefined".into(),
                }
            }
            Node::Compare(l, op, r) => {
                let (l, r) = (self.evaluate(l)?, self.evaluate(r)?);
                match op {
                    Tt::Eq => l == r,
                    Tt::Ne => l != r,
                    Tt::Gt => l > r,
                    Tt::Ge => l >= r,
                    Tt::Lt => l < r,
                    _ => l <= r,
                }
                .to_string()
            }
            Node::Concat(l, r) => {
                let t = format!("\"{}{}\"", self.evaluate(l)?.replace('"', ""), self.evaluate(r)?.replace('"', ""));
                if t.len() > 8000 {
                    return Err(Stop::TooMuch);
                }
                t
            }
            Node::Num(n) => n.to_string(),
            Node::Var(v) | Node::Field(v) => self.operand(v, 0)?,
            Node::Str(s) => s.clone(),
            Node::Call(name, args) => match (name.as_str(), args.first()) {
                ("Get", Some(Node::Var(v))) => match v.as_str() {
                    _ if self.q.on("get-argument") => format!("Unknown argument for Get(): Variable({v:?})"),
                    "AccountName" => "\"Admin\"".into(),
                    "CurrentTime" => "\u{1}".into(),
                    _ => return Err(Panic),
                },
                _ => return Err(Panic),
            },
        })
    }

    fn eval(&self, text: &str) -> R<String> {
        let t = lex(self.q, text)?;
        let n = Parser { t, i: 0 }.comparison()?;
        self.evaluate(&n)
    }

    /// Leaves a loop: index of the step to continue with.
    fn leave(&mut self, st: &[Step], at: usize) -> R<Option<usize>> {
        if self.q.on("loop-exit") {
            /* To the first end of a loop from here on, whosever it is, and the scope stays. */
            let e = (at..st.len()).find(|i| st[*i].op == "EndLoop").ok_or(Panic)?;
            return Ok(Some(e + 1));
        }
        let mut depth = 0;
        for (i, s) in st.iter().enumerate().skip(at + 1) {
            match s.op.as_str() {
                "Loop" => depth += 1,
                "EndLoop" if depth == 0 => {
                    self.loops.pop();
                    return Ok(Some(i + 1));
                }
                "EndLoop" => depth -= 1,
                _ => {}
            }
        }
        Ok(None)
    }

    /// Index of the next mark of an if block among `marks`, from `at` on.
    fn mark(&self, st: &[Step], at: usize, marks: &[&str]) -> Option<usize> {
        let nested = !self.q.on("if-nesting");
        let mut depth = 0;
        for (i, s) in st.iter().enumerate().skip(at) {
            let op = s.op.as_str();
            if nested && op == "If" {
                depth += 1;
            } else if depth == 0 && marks.contains(&op) {
                return Some(i);
            } else if nested && op == "EndIf" {
                depth -= 1;
            }
        }
        None
    }

    /// One step; false at the end of the test, Some(false) in the verdict for a false assertion.
    fn step(&mut self, test: &[Step], all: &BTreeMap<&str, Vec<Step>>) -> R<bool> {
        let n = self.ip.len() - 1;
        let (name, at) = self.ip[n].clone();
        let none = vec![];
        let st: &[Step] = if n > 0 { all.get(name.as_str()).unwrap_or(&none) } else { test };
        if at >= st.len() {
            self.ip.pop();
            if !self.q.on("frames") {
                self.vars.pop();
            }
            return Ok(true);
        }
        let s = &st[at];
        let arg = |i: usize| s.sw.get(i).map(|x| x.as_str()).ok_or(Panic);
        let mut to = at + 1;
        match s.op.as_str() {
            "PerformScript" => {
                let v = self.eval(arg(0)?)?;
                let v = v.strip_suffix('"').and_then(|v| v.strip_prefix('"')).ok_or(Panic)?.to_string();
                if all.contains_key(v.as_str()) {
                    self.ip[n].1 = at + 1;
                    self.out.push(format!("calling {v}"));
                    self.ip.push((v, 0));
                    self.vars.push(HashMap::new());
                    return Ok(true);
                }
                if self.q.on("unknown-script") {
                    self.vars.push(HashMap::new());
                    to = at;
                }
            }
            "GoToLayout" => {
                let v = self.eval(arg(0)?)?;
                let v = v.strip_suffix('"').and_then(|v| v.strip_prefix('"')).ok_or(Panic)?;
                if let Some(o) = self.layouts.get(v) {
                    self.cur = *o;
                }
            }
            "GoToRecordRequestPage" => {
                let v = self.eval(arg(0)?)?;
                let mut exit = false;
                if s.sw.len() > 1 {
                    let e = self.eval(arg(1)?)?;
                    exit = self.q.on("exit-option") || !matches!(e.trim_matches('"'), "" | "false" | "0");
                }
                if !self.find {
                    let sets = self.q.on("empty-found-set");
                    let o = self.occs.get_mut(self.cur).ok_or(Panic)?;
                    let before = o.cur;
                    let len = o.set.len();
                    let last = |at: usize| if len == 0 && sets { Err(Panic) } else { Ok(len.saturating_sub(1).max(at)) };
                    if let Ok(k) = v.parse::<usize>() {
                        o.cur = if k >= len { last(0)? } else { k };
                    } else {
                        match v.as_str() {
                            "\"previous\"" => o.cur = o.cur.saturating_sub(1),
                            "\"next\"" => {
                                if len == 0 && sets {
                                    return Err(Panic);
                                }
                                if o.cur + 1 < len {
                                    o.cur += 1;
                                }
                            }
                            "\"first\"" => o.cur = 0,
                            "\"last\"" => o.cur = last(0)?,
                            _ => {}
                        }
                    }
                    if exit && self.occs[self.cur].cur == before {
                        if let Some(e) = self.leave(st, at)? {
                            to = e;
                        }
                    }
                }
            }
            "EnterFindMode" => self.find = true,
            "PerformFind" => {
                let mut hit = BTreeSet::new();
                for (name, v) in &self.criteria {
                    let f = name.split("::").nth(1).ok_or(Panic)?;
                    match self.table()?.iter().find(|x| x.name == f) {
                        Some(f) => hit.extend(f.rows.iter().enumerate().filter(|x| x.1 == v).map(|x| x.0)),
                        None if self.q.on("find-field") => return Err(Panic),
                        None => {}
                    }
                }
                let rows = self.table()?.first().ok_or(Panic)?.rows.len();
                let o = self.occs.get_mut(self.cur).ok_or(Panic)?;
                if hit.is_empty() {
                    o.set = (0..rows).collect();
                } else {
                    o.set = hit.into_iter().collect();
                    o.cur = 0;
                }
                self.find = false;
                self.criteria.clear();
            }
            "ShowAllRecords" => {
                let rows = self.table()?.first().ok_or(Panic)?.rows.len();
                self.occs.get_mut(self.cur).ok_or(Panic)?.set = (0..rows).collect();
            }
            "SetVariable" => {
                let v = self.eval(arg(1)?)?;
                self.vars.get_mut(n).ok_or(Panic)?.insert(arg(0)?.to_string(), v);
            }
            "SetField" => {
                let v = self.eval(arg(1)?)?;
                let name = arg(0)?;
                let p: Vec<&str> = name.split("::").collect();
                if self.find {
                    self.criteria.push((name.into(), v));
                } else {
                    let field = *p.get(1).ok_or(Panic)?;
                    let target = self.names.get(p[0]).and_then(|o| {
                        let o = &self.occs[*o];
                        Some((o.table, *o.set.get(o.cur)?))
                    });
                    let cell = target.and_then(|(t, r)| self.tables.get_mut(t)?.iter_mut().find(|f| f.name == field)?.rows.get_mut(r));
                    match cell {
                        Some(c) => *c = v,
                        None if self.q.on("set-field") => return Err(Panic),
                        None => {}
                    }
                }
            }
            "Loop" => self.loops.push(at),
            "EndLoop" => to = *self.loops.last().ok_or(Panic)? + 1,
            "ExitLoopIf" => {
                if self.eval(arg(0)?)? == "true" {
                    if let Some(e) = self.leave(st, at)? {
                        to = e;
                    }
                }
            }
            _ if !self.q.on("if-nesting") && matches!(s.op.as_str(), "If" | "ElseIf" | "Else" | "EndIf") => match s.op.as_str() {
                /* Else and ElseIf are only met at the end of a branch that was run. */
                "If" => {
                    let mut i = at;
                    loop {
                        if st[i].op == "Else" || self.eval(&st[i].sw[0])? == "true" {
                            to = i + 1;
                            break;
                        }
                        i = self.mark(st, i + 1, &["ElseIf", "Else", "EndIf"]).unwrap_or(st.len());
                        if i >= st.len() || st[i].op == "EndIf" {
                            to = i;
                            break;
                        }
                    }
                }
                "EndIf" => {}
                _ => to = self.mark(st, at + 1, &["EndIf"]).unwrap_or(st.len()),
            },
            "If" => {
                if self.eval(arg(0)?)? == "true" {
                    self.taken = true;
                } else {
                    to = self.mark(st, at, &["EndIf", "Else", "ElseIf"]).unwrap_or(st.len());
                }
            }
            "ElseIf" => {
                let end = self.mark(st, at, &["EndIf"]);
                if self.taken && end.is_some() {
                    self.taken = false;
                    to = end.unwrap();
                } else {
                    if self.taken {
                        return Err(Panic);
                    }
                    if self.eval(arg(0)?)? == "true" {
                        self.taken = true;
                    } else {
                        to = self.mark(st, at + 1, &["EndIf", "Else", "ElseIf"]).unwrap_or(st.len());
                    }
                }
            }
            "Else" => {
                if self.taken {
                    match self.mark(st, at, &["EndIf"]) {
                        Some(e) => {
                            self.taken = false;
                            to = e;
                        }
                        None => to = st.len() + 1,
                    }
                }
            }
            "EndIf" => self.taken = false,
            "NewRecordRequest" => {
                let t = self.here()?.table;
                for f in self.tables.get_mut(t).ok_or(Panic)? {
                    f.rows.push(String::new());
                }
                let k = self.tables[t].first().ok_or(Panic)?.rows.len() - 1;
                for o in self.occs.iter_mut().filter(|o| o.table == t) {
                    o.set.push(k);
                    o.cur = o.set.len() - 1;
                }
            }
            "ShowCustomDialog" => {
                let v = self.eval(arg(0)?)?;
                self.out.push(v);
            }
            "Assert" => {
                if self.eval(arg(0)?)? == "false" {
                    self.out.push(format!("Assertion failed: {}", arg(0)?));
                    return Ok(false);
                }
            }
            _ => {}
        }
        self.ip[n].1 = to;
        Ok(true)
    }

    fn test(&mut self, name: &str, s: &ScriptD) -> End {
        let own = steps(s);
        let all = std::mem::take(&mut self.scripts);
        self.ip.push((name.into(), 0));
        let mut k = 0;
        while !self.ip.is_empty() {
            k += 1;
            if k > MAX_STEPS || self.out.len() > 3000 {
                return End::Hang;
            }
            match self.step(&own, &all) {
                Ok(true) => {}
                Ok(false) => return End::Fail,
                Err(Panic) => return End::Abort,
                Err(Stop::TooMuch) => return End::Hang,
            }
        }
        End::Success
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Shown {
    pub lines: Vec<String>,
    pub end: End,
}

/// The console of a run, as far as it gets, and how the process ends.
pub fn run_all(q: &Quirks, schema: Option<&Schema>, scripts: &[&ScriptD], tests: &[(&String, &ScriptD)]) -> Shown {
    let mut lines = vec![];
    for (n, s) in tests {
        lines.push(format!("Running test: {n}"));
        let mut r = Run::new(q, schema, scripts);
        let end = r.test(&s.name, s);
        lines.extend(r.out);
        match end {
            End::Success => lines.push(format!("Test {n} outcome: Success")),
            End::Fail => lines.push(format!("Test {n} outcome: Fail")),
            e => return Shown { lines, end: e },
        }
    }
    Shown { lines, end: End::Success }
}
