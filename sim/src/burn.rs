//! Burn sources: their syntax tree, the text in which they are written, and
//! what a compile has to report for them.

use crate::prng::{mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    Num(u32),
    Str(String),
    Var(String),
    Field(String, String),
    /// Number arithmetic; op is one of + - *.
    Arith(Box<E>, char, Box<E>),
    Eq(Box<E>, Box<E>),
    Ne(Box<E>, Box<E>),
    Lt(Box<E>, Box<E>),
    Cat(Vec<E>),
    Time,
    Account,
    /// Any other calculation, as text; only for what is declared, never run.
    Raw(String),
}
impl E {
    pub fn s(t: &str) -> E {
        E::Str(t.into())
    }
    pub fn v(t: &str) -> E {
        E::Var(t.into())
    }
    pub fn eq(a: E, b: E) -> E {
        E::Eq(Box::new(a), Box::new(b))
    }
    pub fn ne(a: E, b: E) -> E {
        E::Ne(Box::new(a), Box::new(b))
    }
    pub fn add(a: E, b: E) -> E {
        E::Arith(Box::new(a), '+', Box::new(b))
    }
    pub fn text(&self) -> String {
        match self {
            E::Num(n) => n.to_string(),
            E::Str(s) => format!("\"{s}\""),
            E::Var(v) => v.clone(),
            E::Field(o, f) => format!("{o}::{f}"),
            E::Arith(a, o, b) => format!("{} {o} {}", a.text(), b.text()),
            E::Eq(a, b) => format!("{} == {}", a.text(), b.text()),
            E::Ne(a, b) => format!("{} != {}", a.text(), b.text()),
            E::Lt(a, b) => format!("{} < {}", a.text(), b.text()),
            E::Cat(v) => v.iter().map(|x| x.text()).collect::<Vec<_>>().join(" & "),
            E::Time => "Get(CurrentTime)".into(),
            E::Account => "Get(AccountName)".into(),
            E::Raw(t) => t.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum S {
    Set(String, E),
    Show(E),
    Assert(E),
    Call(String),
    Layout(String),
    New,
    Put(String, String, E),
    Goto(E, Option<E>),
    FindMode,
    Find,
    All,
    Loop(Vec<S>),
    ExitIf(E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    /// A step the language does not know: reported and skipped.
    Unknown(String),
    /// Known but without effect in tests.
    ExitScript(E),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ScriptD {
    pub name: String,
    pub args: Vec<String>,
    pub body: Vec<S>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum D {
    Table(String),
    Occ(String, String),
    List(String),
    Rel(String, String),
    Scripts(Vec<ScriptD>),
    Test(String, ScriptD),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Source {
    pub decls: Vec<D>,
    /// Seed of the spacing; 0: one space or line break everywhere.
    pub style: u64,
}

// ---------------------------------------------------------------- printing

struct P {
    out: String,
    r: Rng,
    plain: bool,
    crlf: bool,
}
impl P {
    /// Optional space.
    fn o(&mut self) {
        if self.plain {
            return;
        }
        for _ in 0..self.r.below(3) {
            self.blank();
        }
    }
    /// One character of space.
    fn blank(&mut self) {
        if self.crlf {
            let c = *self.r.pick(&[" ", "\r\n", "\t", " "]);
            return self.t(c);
        }
        if self.r.chance(1, 200) {
            let c = *self.r.pick(&["\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}"]);
            return self.t(c);
        }
        let c = *self.r.pick(&[' ', '\n', '\t', ' ']);
        self.out.push(c);
    }
    /// Space that must be there.
    fn sp(&mut self) {
        if self.plain {
            self.out.push(' ');
            return;
        }
        self.blank();
        self.o();
    }
    /// Field declarations. No tool output shows them, so they are only there to be passed over.
    fn fields(&mut self) {
        if self.plain {
            return;
        }
        for k in 0..self.r.below(4) {
            let n = format!("{}{k}", self.r.pick(&["primaryKey", "name", "sex", "_id", "größe", "endDate", "tableName", "testing"]));
            self.t(&n);
            self.o();
            let c = *self.r.pick(&[":", ":", "="]);
            self.t(c);
            self.o();
            for _ in 0..self.r.range(1, 4) {
                let o = *self.r.pick(&[
                    "Unique", "Required", "Text", "Number", "Timestamp", "{get(uuid)}", "{a + b * (c - 1)}", "{}", "!{!isEmpty(x)}",
                    "!{x > 1 and [y] == \"z\"}", "\"Used as a key; end table;\"", "\"\"", "!\"not valid (at all)\"", "foundIn[male_female]",
                    "\"table X: test [y] {z\"",
                ]);
                self.t(o);
                self.o();
                self.t(",");
                self.sp();
            }
        }
    }
    fn values(&mut self) {
        if self.plain {
            return;
        }
        let n = self.r.below(4);
        for k in 0..n {
            let o = *self.r.pick(&["\"male\"", "\"\"", "\"end value_list;\"", "\"a, b\"", "\"[x]\"", "\"größer\""]);
            self.t(o);
            if k + 1 < n || self.r.chance(1, 3) {
                self.o();
                self.t(",");
            }
            self.sp();
        }
    }
    fn comparisons(&mut self) {
        if self.plain {
            return;
        }
        for _ in 0..self.r.below(3) {
            self.t("jobid");
            self.sp();
            let o = *self.r.pick(&["==", "<=", ">=", "<", ">", "!=", "O"]);
            self.t(o);
            self.sp();
            self.t("PrimaryKey");
            self.o();
            self.t(",");
            self.sp();
        }
    }
    fn t(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn args(&mut self, a: &[String]) {
        self.t("(");
        for (i, x) in a.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            if self.plain {
                self.t(if i > 0 { " " } else { "" });
                self.t(x);
                continue;
            }
            /* Any space around an argument, and any single space where it has one outside of texts. */
            self.o();
            let mut quoted = false;
            for c in x.chars() {
                quoted ^= c == '"';
                let c = if c == ' ' && !quoted { *self.r.pick(&[' ', ' ', '\n', '\t', ' ', ' ', '\n', '\t', '\r', '\u{a0}']) } else { c };
                self.out.push(c);
            }
            self.o();
        }
        self.t(")");
    }
    fn step(&mut self, name: &str, a: &[String]) {
        self.t(name);
        self.args(a);
        self.o();
        self.t(";");
        self.sp();
    }
    fn body(&mut self, b: &[S]) {
        self.t("{");
        self.sp();
        for s in b {
            match s {
                S::Set(v, e) => self.step("set_variable", &[v.clone(), e.text()]),
                S::Show(e) => self.step("show_custom_dialog", &[e.text()]),
                S::Assert(e) => self.step("assert", &[e.text()]),
                S::Call(n) => self.step("perform_script", &[format!("\"{n}\"")]),
                S::Layout(n) => self.step("go_to_layout", &[format!("\"{n}\"")]),
                S::New => self.step("new_record_request", &[String::new()]),
                S::Put(o, f, e) => self.step("set_field", &[format!("{o}::{f}"), e.text()]),
                S::Goto(p, x) => {
                    let mut a = vec![p.text()];
                    a.extend(x.iter().map(|e| e.text()));
                    let name = if !self.plain && self.r.chance(1, 2) { "go_to_request" } else { "go_to_record" };
                    self.step(name, &a)
                }
                S::FindMode => self.step("enter_find_mode", &[String::new()]),
                S::Find => self.step("perform_find", &[String::new()]),
                S::All => self.step("show_all_records", &[String::new()]),
                S::ExitIf(e) => self.step("exit_loop_if", &[e.text()]),
                S::ExitScript(e) => self.step("exit_script", &[e.text()]),
                S::Unknown(n) => {
                    self.t(n);
                    self.t(";");
                    self.sp();
                }
                S::Loop(b) => {
                    self.t("loop");
                    self.sp();
                    self.body(b);
                }
                S::If(arms, els) => {
                    for (i, (c, b)) in arms.iter().enumerate() {
                        self.t(if i == 0 { "if" } else { "elif" });
                        self.args(&[c.text()]);
                        self.o();
                        self.body(b);
                    }
                    if let Some(b) = els {
                        self.t("else");
                        self.sp();
                        self.body(b);
                    }
                }
            }
        }
        self.t("}");
        self.sp();
    }
    fn script(&mut self, s: &ScriptD) {
        self.t("define");
        self.sp();
        self.t(&s.name.clone());
        let a = if s.args.is_empty() { vec![String::new()] } else { s.args.clone() };
        self.args(&a);
        self.sp();
        self.body(&s.body);
    }
}

impl Source {
    pub fn text(&self) -> String {
        let mut p = P { out: String::new(), r: Rng::new(mix(&[self.style, 5])), plain: self.style == 0, crlf: self.style % 8 == 3 };
        for d in &self.decls {
            p.o();
            match d {
                D::Table(n) => {
                    p.t("table");
                    p.sp();
                    p.t(n);
                    p.o();
                    p.t(":");
                    p.sp();
                    p.fields();
                    p.t("end");
                    p.sp();
                    p.t("table");
                }
                D::Occ(n, t) => {
                    p.t("table_occurence");
                    p.sp();
                    p.t(n);
                    p.o();
                    p.t(":");
                    p.o();
                    p.t("table");
                    p.o();
                    p.t(":");
                    p.o();
                    p.t(t);
                    p.o();
                    if p.plain || p.r.chance(3, 4) {
                        p.t(",");
                    }
                    p.sp();
                    p.t("end");
                    p.sp();
                    p.t("table_occurence");
                }
                D::List(n) => {
                    p.t("value_list");
                    p.sp();
                    p.t(n);
                    p.o();
                    p.t(":");
                    p.sp();
                    p.values();
                    p.t("end");
                    p.sp();
                    p.t("value_list");
                }
                D::Rel(a, b) => {
                    p.t("relationship");
                    p.o();
                    p.t(":");
                    p.o();
                    p.t(a);
                    p.o();
                    p.t(":");
                    p.o();
                    p.t(b);
                    p.o();
                    p.t(",");
                    p.sp();
                    p.comparisons();
                    p.t("end");
                    p.sp();
                    p.t("relationship");
                }
                D::Scripts(v) => {
                    p.t("script");
                    p.o();
                    p.t(":");
                    p.o();
                    p.t("[");
                    p.o();
                    for s in v {
                        p.script(s);
                    }
                    p.t("]");
                    p.sp();
                    continue;
                }
                D::Test(n, s) => {
                    p.t("test");
                    p.sp();
                    p.t(n);
                    p.o();
                    p.t(":");
                    p.o();
                    p.t("script");
                    p.o();
                    p.t(":");
                    p.o();
                    p.t("[");
                    p.o();
                    p.script(s);
                    p.t("]");
                    p.o();
                    if p.plain || p.r.chance(1, 2) {
                        p.t(",");
                    }
                    p.sp();
                    p.t("end");
                    p.sp();
                    p.t("test");
                }
            }
            p.o();
            p.t(";");
            p.sp();
        }
        p.out
    }
    pub fn tests(&self) -> Vec<(&String, &ScriptD)> {
        self.decls.iter().filter_map(|d| if let D::Test(n, s) = d { Some((n, s)) } else { None }).collect()
    }
    pub fn scripts(&self) -> Vec<&ScriptD> {
        self.decls.iter().filter_map(|d| if let D::Scripts(v) = d { Some(v.iter()) } else { None }).flatten().collect()
    }
}

// ------------------------------------------------- what a compile reports

fn step_json(o: &mut Vec<Value>, op: &str, a: &[String]) {
    let a: Vec<&String> = a.iter().filter(|x| !x.is_empty()).collect();
    o.push(json!({"opcode": op, "switches": a}))
}
pub fn flat(b: &[S], o: &mut Vec<Value>) {
    for s in b {
        match s {
            S::Set(v, e) => step_json(o, "SetVariable", &[v.clone(), e.text()]),
            S::Show(e) => step_json(o, "ShowCustomDialog", &[e.text()]),
            S::Assert(e) => step_json(o, "Assert", &[e.text()]),
            S::Call(n) => step_json(o, "PerformScript", &[format!("\"{n}\"")]),
            S::Layout(n) => step_json(o, "GoToLayout", &[format!("\"{n}\"")]),
            S::New => step_json(o, "NewRecordRequest", &[]),
            S::Put(c, f, e) => step_json(o, "SetField", &[format!("{c}::{f}"), e.text()]),
            S::Goto(p, x) => {
                let mut a = vec![p.text()];
                a.extend(x.iter().map(|e| e.text()));
                step_json(o, "GoToRecordRequestPage", &a)
            }
            S::FindMode => step_json(o, "EnterFindMode", &[]),
            S::Find => step_json(o, "PerformFind", &[]),
            S::All => step_json(o, "ShowAllRecords", &[]),
            S::ExitIf(e) => step_json(o, "ExitLoopIf", &[e.text()]),
            S::ExitScript(e) => step_json(o, "ExitScript", &[e.text()]),
            S::Unknown(_) => {}
            S::Loop(b) => {
                step_json(o, "Loop", &[]);
                flat(b, o);
                step_json(o, "EndLoop", &[]);
            }
            S::If(arms, els) => {
                for (i, (c, b)) in arms.iter().enumerate() {
                    step_json(o, if i == 0 { "If" } else { "ElseIf" }, &[c.text()]);
                    flat(b, o);
                }
                if let Some(b) = els {
                    step_json(o, "Else", &[]);
                    flat(b, o);
                }
                step_json(o, "EndIf", &[]);
            }
        }
    }
}
fn script_json(s: &ScriptD) -> Value {
    let mut v = vec![];
    flat(&s.body, &mut v);
    json!({"script_name": s.name, "arguments": s.args, "instructions": v})
}

/// The declared schema, in order: what the inspection file has to report.
pub fn declared(name: &str, test_sources: &[&Source], main: &Source) -> Value {
    let (mut t, mut o, mut l, mut r, mut s, mut x) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    for d in test_sources.iter().flat_map(|t| &t.decls) {
        if let D::Test(n, s) = d {
            x.push(json!({"test_name": n, "script": script_json(s)}));
        }
    }
    for d in &main.decls {
        match d {
            D::Table(n) => t.push(json!({"table_name": n})),
            D::Occ(n, a) => o.push(json!({"table_occurence_name": n, "table_actual_name": a})),
            D::List(n) => l.push(json!({"list_name": n})),
            D::Rel(a, b) => r.push(json!({"table1_name": a, "table2_name": b})),
            D::Scripts(v) => s.extend(v.iter().map(script_json)),
            D::Test(n, s) => x.push(json!({"test_name": n, "script": script_json(s)})),
        }
    }
    json!({"name": name, "tables": t, "table_occurrences": o, "value_lists": l, "relationships": r, "scripts": s, "tests": x})
}

/// The same projection of a reported inspection file.
pub fn reported(v: &Value) -> Value {
    let seq = |key: &str, attrs: &[&str]| -> Vec<Value> {
        let mut items: Vec<(u64, &Value)> = match &v[key] {
            Value::Object(m) => m.iter().map(|(k, x)| (k.parse().unwrap_or(u64::MAX), x)).collect(),
            Value::Array(a) => a.iter().enumerate().map(|(i, x)| (i as u64, x)).collect(),
            _ => vec![],
        };
        items.sort_by_key(|x| x.0);
        items.into_iter().map(|(_, x)| attrs.iter().map(|a| (a.to_string(), tidy(a, &x[*a]))).collect()).collect()
    };
    json!({"name": v["name"], "tables": seq("tables", &["table_name"]),
        "table_occurrences": seq("table_occurrences", &["table_occurence_name", "table_actual_name"]),
        "value_lists": seq("value_lists", &["list_name"]),
        "relationships": seq("relationships", &["table1_name", "table2_name"]),
        "scripts": seq("scripts", &["script_name", "arguments", "instructions"]),
        "tests": seq("tests", &["test_name", "script"])})
}
fn tidy(key: &str, v: &Value) -> Value {
    let full = |v: &Value| -> Value { v.as_array().map(|a| a.iter().filter(|x| **x != json!("")).cloned().collect()).unwrap_or_default() };
    match key {
        "arguments" => full(v),
        "instructions" => v
            .as_array()
            .map(|a| a.iter().map(|x| json!({"opcode": x["opcode"], "switches": full(&x["switches"])})).collect())
            .unwrap_or_default(),
        "script" => json!({"script_name": v["script_name"], "arguments": full(&v["arguments"]), "instructions": tidy("instructions", &v["instructions"])}),
        _ => v.clone(),
    }
}

// -------------------------------------------------------------- generation

/// What a program may do, in weights.
#[derive(Clone, Debug)]
pub struct Profile {
    pub data: usize,
    pub control: usize,
    pub calls: usize,
    pub fail: usize,
    pub time: usize,
    pub depth: usize,
    pub len: usize,
}

/// The data a program can work on.
#[derive(Clone, Debug, Default)]
pub struct DataCtx {
    /// (occurrence, fields of its table)
    pub occs: Vec<(String, Vec<String>)>,
    /// (layout, index of its occurrence)
    pub layouts: Vec<(String, usize)>,
    pub initial: usize,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Profile,
    pub data: &'a DataCtx,
    /// Scripts this one may call.
    pub callable: Vec<String>,
    /// Current occurrence, if known; usize::MAX after a join of paths.
    pub cur: usize,
    pub uid: usize,
    pub in_script: bool,
    /// Calculations may be anything with balanced brackets.
    pub raw: bool,
}

/// A calculation of any shape: balanced brackets, commas within them, texts with anything, single spaces.
fn raw_expr(r: &mut Rng, depth: usize) -> String {
    let one = |r: &mut Rng| -> String {
        match r.below(7) {
            0 if r.chance(1, 4) => format!("\"{}\"", r.pick(&["a\nb]c", "tab\there", "]\n(,", "\n", "{\r\n}", " \u{a0} ", "x;\ny"])),
        0 => format!("\"{}\"", if r.chance(1, 4) { wild(r) } else { r.pick(LITS).to_string() }),
            1 => format!("{}", r.below(100)),
            2 => (*r.pick(&["0.5", "-1", "1e3", "a::b", "!x", "tu"])).to_string(),
            3 => (*r.pick(VARS)).to_string(),
            4 if depth > 0 => format!("({})", raw_expr(r, depth - 1)),
            5 if depth > 0 => {
                let n = r.below(4);
                let a: Vec<String> = (0..n).map(|_| raw_expr(r, depth - 1)).collect();
                format!("{}({})", r.pick(&["Get", "Left", "Substitute", "f", "If"]), a.join(*r.pick(&[",", ", "])))
            }
            _ => (*r.pick(&["x", "total", "größe"])).to_string(),
        }
    };
    let mut o = one(r);
    if depth == 3 && r.chance(1, 40) {
        /* Brackets within brackets. */
        for _ in 0..r.range(5, 40) {
            o = if r.chance(1, 2) { format!("({o})") } else { format!("f({o}{})", r.pick(&["", ", 1", ", \")\""])) };
        }
    }
    if depth == 3 && r.chance(1, 80) {
        /* More arguments, or more operators, than fit a line. */
        let n = r.range(12, 90);
        let list: Vec<String> = (0..n).map(|k| if r.chance(1, 6) { format!("\"t{k}, \"") } else { format!("v{k}") }).collect();
        o = if r.chance(1, 2) { format!("List({})", list.join(*r.pick(&[",", ", "]))) } else { list.join(*r.pick(&[" & ", "+", " + (1) - "])) };
    }
    for _ in 0..r.below(3) {
        let op = *r.pick(&["+", "-", "*", "/", "&", "==", "!=", "<", "<=", ">", ">=", "=", "and", "≠"]);
        let op = if op == "and" || r.chance(2, 3) { format!(" {op} ") } else { op.to_string() };
        o.push_str(&op);
        o.push_str(&one(r));
    }
    o
}

/// Any text a literal can hold.
fn wild(r: &mut Rng) -> String {
    const CHARS: &[&str] = &["a", "Z", "0", " ", "  ", "\t", "\n", "\r", "\r\n", "\u{a0}", "\u{2028}", "\u{feff}", "\u{0}", "\u{1b}", "\u{7f}", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "'", "\\", "\\n", "/", "é", "名", "\u{1f600}", "e\u{301}", "%", "$", "end", "if", "&&"];
    let n = if r.chance(1, 8) { r.range(40, 400) } else { r.range(1, 14) };
    let twice = r.chance(1, 4);
    let mut o = String::new();
    for _ in 0..n {
        let c = r.pick(CHARS);
        o.push_str(c);
        if twice {
            o.push_str(c);
        }
    }
    if r.chance(1, 2) {
        o.insert(0, 'k');
    } else {
        o.push('k');
    }
    o
}

pub const LITS: &[&str] = &["Kevin", "Jeff Keighly", "x", "42", "true", "", "héllo wörld", "名前", "Admin", "a b  c", "  lead", "x: y; z", "7", "!?", "-", "a (b), [c] {d}; e", "(x", "y)", "[z]", "p, q", "} w", "else { z",
    "C:\\dir\\", "\\", "it's", "# 1", "// no", "-- a", "100%s", "\u{1f600} ok", "/* c */", "A & B", "<b>", "a=b", "tab\there", "\u{a0}n\u{a0}"];
const VARS: &[&str] = &["x", "y", "z", "total", "$v", "$$g", "name", "X", "Total", "xy"];

impl G<'_> {
    fn lit(&mut self) -> E {
        if self.r.chance(1, 3) {
            E::Num(*self.r.pick(&[0, 1, 2, 3, 7, 10, 42, 1000]))
        } else {
            /* Recorded finding empty-literal: kept, but rare. */
            if self.r.chance(1, 25) {
                return E::s(&wild(self.r).replace(['\n', '\u{1b}'], ""));
            }
            let l = *self.r.pick(LITS);
            E::s(if l.chars().any(char::is_alphanumeric) || self.r.chance(1, 4) { l } else { "Kevin" })
        }
    }
    fn var(&mut self) -> String {
        (*self.r.pick(VARS)).to_string()
    }
    fn field(&mut self) -> Option<(String, String)> {
        if self.cur == usize::MAX {
            return None;
        }
        let (o, fs) = self.data.occs.get(self.cur)?;
        if fs.is_empty() {
            return None;
        }
        Some((o.clone(), self.r.pick(fs).clone()))
    }
    fn atom(&mut self) -> E {
        match self.r.below(6) {
            0 | 1 => E::Var(self.var()),
            2 if self.p.data > 0 => match self.field() {
                Some((o, f)) => E::Field(o, f),
                None => self.lit(),
            },
            _ => self.lit(),
        }
    }
    fn expr(&mut self) -> E {
        if self.raw && self.r.chance(1, 3) {
            return E::Raw(raw_expr(self.r, 3));
        }
        match self.r.below(9) {
            0 => {
                let a = E::Var(self.var());
                let op = *self.r.pick(&['+', '+', '-', '*']);
                E::Arith(Box::new(a), op, Box::new(E::Num(self.r.below(9) as u32)))
            }
            1 | 2 => {
                let n = self.r.range(2, 3);
                E::Cat((0..n).map(|_| self.atom()).collect())
            }
            3 if self.r.chance(1, 3) => self.cond(),
            4 if self.r.chance(1, 3) => E::Account,
            _ => self.atom(),
        }
    }
    pub fn cond(&mut self) -> E {
        if self.raw && self.r.chance(1, 4) {
            return E::Raw(raw_expr(self.r, 2));
        }
        let a = match self.r.below(3) {
            0 => self.atom(),
            _ => E::Var(self.var()),
        };
        let b = if self.r.chance(3, 4) { self.lit() } else { self.atom() };
        if self.r.chance(1, 2) {
            E::eq(a, b)
        } else {
            E::ne(a, b)
        }
    }
    fn truth(&mut self) -> E {
        if self.r.chance(1, 2) {
            self.cond()
        } else if self.r.chance(1, 2) {
            E::eq(E::Num(1), E::Num(1))
        } else {
            E::eq(E::Num(1), E::Num(2))
        }
    }
    /// A block; `loops`: counters of the loops around it.
    pub fn block(&mut self, depth: usize, loops: &mut Vec<String>, len: usize) -> Vec<S> {
        let mut o = vec![];
        let n = self.r.below(len + 1);
        for _ in 0..n {
            let w = [6 + self.p.time, self.p.data * 2, self.p.control, self.p.calls, self.p.fail];
            let total: usize = w.iter().sum();
            let mut k = self.r.below(total);
            let mut kind = 0;
            while k >= w[kind] {
                k -= w[kind];
                kind += 1;
            }
            match kind {
                0 => self.basic(&mut o),
                1 => self.dataop(&mut o, depth, loops),
                2 => self.control(&mut o, depth, loops),
                3 => {
                    if !self.callable.is_empty() && self.r.chance(29, 30) {
                        let c = self.r.pick(&self.callable).clone();
                        o.push(S::Call(c));
                        if self.p.data > 0 {
                            self.cur = usize::MAX;
                        }
                        if self.r.chance(1, 2) {
                            o.push(S::Show(E::Var(self.var())));
                        }
                    } else if self.r.chance(1, 3) {
                        let n = *self.r.pick(&["nobody", "no such script", "main9"]);
                        o.push(S::Call(n.into()));
                    }
                }
                _ => {
                    let e = if self.r.chance(1, 2) { self.cond() } else { E::eq(E::s("a"), E::s("b")) };
                    o.push(S::Assert(e));
                }
            }
        }
        o
    }
    fn basic(&mut self, o: &mut Vec<S>) {
        if self.p.time > 0 && self.r.chance(self.p.time as u32, 6 + self.p.time as u32) {
            if self.r.chance(1, 2) {
                o.push(S::Show(E::Time));
            } else {
                /* Reading the clock and showing what was read. */
                o.push(S::Set("now".into(), E::Time));
                o.push(S::Show(E::v("now")));
            }
            return;
        }
        match self.r.below(12) {
            0..=4 => {
                let v = self.var();
                let e = self.expr();
                o.push(S::Set(v, e));
            }
            5 if self.r.chance(1, 4) => o.push(S::Unknown((*self.r.pick(&["frobnicate", "delete_all", "pause_script"])).into())),
            6 => {
                let v = self.var();
                o.push(S::Assert(E::eq(E::v(&v), E::v(&v))));
            }
            7 if self.r.chance(1, 4) => o.push(S::ExitScript(E::Num(1))),
            _ => {
                let e = self.expr();
                o.push(S::Show(e));
            }
        }
    }
    fn layout(&mut self, o: &mut Vec<S>) {
        if self.data.layouts.is_empty() {
            return;
        }
        if self.r.chance(1, 12) {
            o.push(S::Layout("no such layout".into()));
            return;
        }
        let (n, i) = self.r.pick(&self.data.layouts).clone();
        o.push(S::Layout(n));
        self.cur = i;
    }
    fn show_all_fields(&mut self, o: &mut Vec<S>) {
        if let Some((occ, fs)) = self.data.occs.get(self.cur) {
            for f in fs.iter().take(2) {
                o.push(S::Show(E::Field(occ.clone(), f.clone())));
            }
        }
    }
    fn value(&mut self) -> E {
        match self.r.below(5) {
            0 => E::Var(self.var()),
            1 => E::Cat(vec![E::s(*self.r.pick(LITS)), E::Var(self.var())]),
            2 => self.atom(),
            _ => E::s(*self.r.pick(&["Kevin", "Jeff Keighly", "x", "42"])),
        }
    }
    fn dataop(&mut self, o: &mut Vec<S>, depth: usize, loops: &mut Vec<String>) {
        if self.data.occs.is_empty() {
            return self.basic(o);
        }
        if self.cur == usize::MAX {
            self.layout(o);
        }
        match self.r.below(16) {
            0 | 1 => self.layout(o),
            2..=4 => {
                o.push(S::New);
                if let Some((c, f)) = self.field() {
                    let e = self.value();
                    o.push(S::Put(c, f, e));
                }
            }
            5 | 6 => {
                let (c, fs) = self.r.pick(&self.data.occs).clone();
                if !fs.is_empty() {
                    let f = self.r.pick(&fs).clone();
                    let e = self.value();
                    o.push(S::Put(c, f, e));
                }
                if self.r.chance(1, 10) {
                    o.push(S::Put("nowhere".into(), "f".into(), E::Num(1)));
                }
            }
            7 | 8 => self.show_all_fields(o),
            9 | 10 => {
                let p = match self.r.below(6) {
                    0 => E::s("first"),
                    1 => E::s("last"),
                    2 => E::s("next"),
                    3 => E::s("previous"),
                    4 => E::Num(self.r.below(5) as u32),
                    _ => E::Var(self.var()),
                };
                o.push(S::Goto(p, None));
                self.show_all_fields(o);
            }
            11 | 12 => {
                let Some((occ, fs)) = self.data.occs.get(self.cur).cloned() else { return };
                o.push(S::FindMode);
                if self.r.chance(1, 8) {
                    o.push(S::Goto(E::s("next"), None));
                }
                for _ in 0..self.r.below(4) {
                    let f = if self.r.chance(1, 15) || fs.is_empty() { "nofield".into() } else { self.r.pick(&fs).clone() };
                    let e = if self.r.chance(3, 4) { E::s(*self.r.pick(&["Kevin", "Jeff Keighly", "x", "42"])) } else { self.value() };
                    o.push(S::Put(occ.clone(), f, e));
                }
                o.push(S::Find);
                self.show_all_fields(o);
            }
            13 => {
                o.push(S::All);
                self.show_all_fields(o);
            }
            _ => {
                if depth == 0 {
                    return;
                }
                /* Walk the found set. */
                let start = *self.r.pick(&["first", "last", ""]);
                if !start.is_empty() {
                    o.push(S::Goto(E::s(start), None));
                }
                let mut b = vec![];
                let cur = self.cur;
                self.show_all_fields(&mut b);
                if self.r.chance(1, 3) {
                    loops.push(String::new());
                    b.extend(self.block(depth - 1, loops, 2));
                    loops.pop();
                    if self.cur != cur {
                        self.cur = usize::MAX;
                    }
                }
                let dir = if start == "last" { "previous" } else { "next" };
                let flag = match self.r.below(6) {
                    0 => E::Num(1),
                    1 => E::s("yes"),
                    2 => E::eq(E::Num(1), E::Num(1)),
                    _ => E::s("true"),
                };
                b.push(S::Goto(E::s(dir), Some(flag)));
                o.push(S::Loop(b));
            }
        }
    }
    fn control(&mut self, o: &mut Vec<S>, depth: usize, loops: &mut Vec<String>) {
        if depth == 0 {
            if !loops.is_empty() && self.r.chance(1, 3) {
                let e = self.cond();
                o.push(S::ExitIf(e));
            } else {
                self.basic(o);
            }
            return;
        }
        let len = self.p.len.min(4);
        match self.r.below(10) {
            0..=3 => {
                let arms = 1 + self.r.below(3);
                let cur = self.cur;
                let mut v = vec![];
                let mut cur2 = cur;
                for _ in 0..arms {
                    self.cur = cur;
                    let c = self.truth();
                    let b = self.block(depth - 1, loops, len);
                    if self.cur != cur {
                        cur2 = usize::MAX;
                    }
                    v.push((c, b));
                }
                let els = if self.r.chance(1, 2) {
                    self.cur = cur;
                    let b = self.block(depth - 1, loops, len);
                    if self.cur != cur {
                        cur2 = usize::MAX;
                    }
                    Some(b)
                } else {
                    None
                };
                self.cur = cur2;
                o.push(S::If(v, els));
            }
            4..=7 => {
                /* Counted loop, with the exit at any place of the body. */
                self.uid += 1;
                let i = format!("i{}", self.uid);
                let k = self.r.below(4) as u32;
                let cur = self.cur;
                self.cur = if self.p.data > 0 { usize::MAX } else { cur };
                loops.push(i.clone());
                let mut b = self.block(depth - 1, loops, len);
                loops.pop();
                self.cur = if self.p.data > 0 { usize::MAX } else { cur };
                let e = if self.r.chance(1, 4) { E::Lt(Box::new(E::Num(k)), Box::new(E::v(&i))) } else { E::eq(E::v(&i), E::Num(k)) };
                let at = self.r.below(b.len() + 1);
                b.insert(at, S::ExitIf(e));
                let at = if self.r.chance(1, 2) { b.len() } else { self.r.below(b.len() + 1) };
                b.insert(at, S::Set(i.clone(), E::add(E::v(&i), E::Num(1))));
                o.push(S::Set(i, E::Num(0)));
                o.push(S::Loop(b));
            }
            8 if !loops.is_empty() => {
                let e = self.cond();
                o.push(S::ExitIf(e));
            }
            _ => {
                /* A loop left by its position: no record, so the cursor cannot move. */
                let mut b = self.block(depth - 1, loops, 2);
                let flag = if self.r.chance(1, 2) { E::s("true") } else { E::Num(1) };
                b.push(S::Goto(E::s("next"), Some(flag)));
                if self.r.chance(1, 2) {
                    b.push(S::Show(E::s("went on")));
                }
                o.push(S::Loop(b));
            }
        }
    }
}

/// Blocks within blocks, deeper than anybody indents.
fn tower(r: &mut Rng) -> Vec<S> {
    let mut b = vec![S::Show(E::s("top"))];
    let loops = r.chance(1, 2);
    let plain = r.chance(1, 3);
    for k in 0..*r.pick(&[5, 8, 12, 20, 30, 40]) {
        let yes = E::eq(E::Num(1), E::Num(1));
        let no = E::eq(E::Num(1), E::Num(2));
        b = match r.below(8) {
            0 if !plain => vec![S::If(vec![(no, vec![S::Show(E::s("no"))])], Some(b))],
            1 if !plain => vec![S::If(vec![(no, vec![]), (yes, b)], None)],
            2 if loops => {
                b.push(S::ExitIf(yes));
                vec![S::Loop(b)]
            }
            3 if loops => vec![S::Set("d".into(), E::Num(0)), S::Loop(vec![S::ExitIf(E::eq(E::v("d"), E::Num(1))), S::If(vec![(yes, b)], None), S::Set("d".into(), E::Num(1))])],
            4 => vec![S::If(vec![(yes, b)], Some(vec![S::Show(E::s("no"))])), S::Show(E::Num(k))],
            _ => vec![S::If(vec![(yes, b)], None)],
        };
    }
    b
}

/// A library of scripts, each calling only later ones.
pub fn gen_library(r: &mut Rng, p: &Profile, data: &DataCtx, n: usize) -> Vec<ScriptD> {
    let mut names: Vec<String> = (0..n).map(|i| format!("{}{i}", r.pick(&["sub", "helper_", "Script", "määr"]))).collect();
    if r.chance(1, 3) {
        /* Names that differ in little only. */
        let mut v = ["sub", "Sub", "SUB", "sub1", "sub10", "sub_1", "_sub", "Sub1", "subs", "süb"];
        r.shuffle(&mut v);
        for (n, v) in names.iter_mut().zip(v) {
            *n = v.into();
        }
    }
    (0..n)
        .map(|i| {
            let callable = names[i + 1..].to_vec();
            let mut g = G { r, p, data, callable, cur: usize::MAX, uid: 100 * (i + 1), in_script: true, raw: false };
            let len = g.p.len;
            let d = g.p.depth.min(2);
            let body = g.block(d, &mut vec![], len);
            ScriptD { name: names[i].clone(), args: vec![], body }
        })
        .collect()
}

/// Steps whose text takes tens to hundreds of kilobytes.
pub fn gen_long(r: &mut Rng) -> Vec<S> {
    let target = *r.pick(&[9_000, 17_000, 40_000, 70_000, 140_000]) + r.below(9_000);
    let mut b = vec![];
    let mut n = 0;
    while n < target {
        let w = *r.pick(&["word ", "größe ", "x", "; } ", "[], (", "名前"]);
        let len = *r.pick(&[20, 300, 3000, 20_000]);
        let t = w.repeat(1 + len.min(target) / w.len());
        n += t.len() + 20;
        b.push(S::Set(format!("long{}", b.len() % 3), E::Str(t)));
    }
    b
}

pub fn gen_test(r: &mut Rng, p: &Profile, data: &DataCtx, callable: &[String]) -> Vec<S> {
    gen_body(r, p, data, callable, false)
}
pub fn gen_body(r: &mut Rng, p: &Profile, data: &DataCtx, callable: &[String], raw: bool) -> Vec<S> {
    let mut g = G { r, p, data, callable: callable.to_vec(), cur: data.initial, uid: 0, in_script: false, raw };
    let (d, len) = (g.p.depth, g.p.len * 2);
    let mut b = vec![];
    if g.r.chance(1, 2) {
        for v in VARS.iter().take(3) {
            let e = g.lit();
            b.push(S::Set(v.to_string(), e));
        }
    }
    if p.control > 5 && g.r.chance(1, 8) || p.control > 3 && g.r.chance(1, 25) {
        let t = tower(g.r);
        b.extend(t);
    } else {
        b.extend(g.block(d, &mut vec![], len));
    }
    if g.r.chance(1, 2) {
        b.push(S::Show(E::v("x")));
    }
    if p.data > 0 && g.r.chance(1, 12) {
        b.push(S::FindMode);
        if let Some((o, f)) = g.field() {
            b.push(S::Put(o, f, E::s("Kevin")));
        }
    }
    b
}

const IDENTS: &[&str] = &["Customers", "invoice", "line_item", "Ördér", "x", "people", "T9", "endless", "tables", "script_log", "test_data", "名簿"];
pub fn ident(r: &mut Rng, k: usize) -> String {
    format!("{}{}", r.pick(IDENTS), k)
}

/// Top-level declarations other than scripts and tests.
pub fn gen_decls(r: &mut Rng, n: usize) -> Vec<D> {
    gen_decls_named(r, n, ident)
}
/// Any name the language has: of any length and letters, equal to others, beginning like keywords or numbers.
pub fn free_ident(r: &mut Rng, k: usize) -> String {
    const PARTS: &[&str] = &["table", "end", "test", "script", "value_list", "relationship", "table_occurence", "define", "loop", "if", "let", "inf", "nan", "infinity", "a", "_", "Z", "é", "ß", "表", "x1", "-", ".", "9", "\u{1f600}", "'", "@", "$", "%", "#", "/", "|", "true"];
    match r.below(8) {
        0 => (*r.pick(&["inf", "nan", "NaN", "Infinity", "e5", "true", "Table", "END", "tests", "in", "define", "loop", "if", "else", "let", "_"])).to_string(),
        1 | 2 => {
            let n = if r.chance(1, 4) { r.range(20, 100) } else { r.range(1, 8) };
            let mut o = (*r.pick(&["a", "_", "Z", "é", "表", "inf", "nan", "table", "end"])).to_string();
            while o.chars().count() < n {
                o.push_str(r.pick(PARTS));
            }
            match o.as_str() {
                "table" | "end" => "ends".into(),
                o if ["test", "script", "value_list", "relationship", "table_occurence"].contains(&o) => "x".into(),
                _ => o,
            }
        }
        3 => (*r.pick(IDENTS)).to_string(),
        _ => ident(r, k),
    }
}
pub fn gen_decls_named(r: &mut Rng, n: usize, ident: fn(&mut Rng, usize) -> String) -> Vec<D> {
    let tables: Vec<String> = (0..1 + r.below(n + 1)).map(|k| ident(r, k)).collect();
    let mut v: Vec<D> = tables.iter().map(|t| D::Table(t.clone())).collect();
    for k in 0..r.below(n + 1) {
        v.push(D::Occ(ident(r, k), r.pick(&tables).clone()));
    }
    for k in 0..r.below(n) {
        v.push(D::List(ident(r, k)));
    }
    for _ in 0..r.below(n) {
        v.push(D::Rel(r.pick(&tables).clone(), r.pick(&tables).clone()));
    }
    match r.below(30) {
        0 => v.clear(),
        1 => v.retain(|d| !matches!(d, D::Table(_) | D::Occ(..))),
        2 => v.retain(|d| !matches!(d, D::Occ(..) | D::Rel(..))),
        3 => v.retain(|d| matches!(d, D::Rel(..))),
        _ => {}
    }
    v
}

/// Many small declarations of one kind: more than anybody lists by hand in a test.
pub fn gen_crowd(r: &mut Rng, n: usize, kind: usize, ident: fn(&mut Rng, usize) -> String) -> Vec<D> {
    let say = |r: &mut Rng, k: usize| vec![S::Show(if r.chance(1, 2) { E::Num(k as u32) } else { E::s(&format!("says {k}")) })];
    let t = ident(r, 200);
    match kind {
        0 => (0..n).map(|k| D::Table(ident(r, k + 200))).collect(),
        1 => std::iter::once(D::Table(t.clone())).chain((0..n).map(|k| D::Occ(ident(r, k + 200), t.clone()))).collect(),
        2 => (0..n).map(|k| D::List(ident(r, k + 200))).collect(),
        3 => (0..n).map(|k| D::Rel(t.clone(), ident(r, k + 200))).collect(),
        4 | 5 => {
            let v: Vec<ScriptD> = (0..n).map(|k| ScriptD { name: format!("crowd_{k}"), args: vec![], body: say(r, k) }).collect();
            if kind == 4 {
                vec![D::Scripts(v)]
            } else {
                v.into_iter().map(|s| D::Scripts(vec![s])).collect()
            }
        }
        _ => (0..n).map(|k| D::Test(format!("Crowd{k}"), ScriptD { name: "run".into(), args: vec![], body: say(r, k) })).collect(),
    }
}
/// How many: mostly a dozen or two, up to a hundred and a half.
pub fn crowd_size(r: &mut Rng) -> usize {
    *r.pick(&[10, 12, 17, 20, 30, 45, 64, 100, 140]) + r.below(10)
}
