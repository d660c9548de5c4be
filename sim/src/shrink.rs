//! Minimising a failing case: smaller cases are tried as long as the same
//! kind of violation remains.

use crate::burn::*;
use crate::case::*;
use crate::image::*;
use crate::props::check;
use crate::world::*;
use std::time::{Duration, Instant};

/// Variants of a list without a part of it, large parts first.
fn without<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![];
    let n = v.len();
    let mut k = n;
    while k > 0 {
        let mut at = 0;
        while at < n {
            let mut w = v[..at].to_vec();
            w.extend_from_slice(&v[(at + k).min(n)..]);
            o.push(w);
            at += k;
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    o
}

fn smaller_block(b: &[S]) -> Vec<Vec<S>> {
    let mut o = without(b);
    for (i, s) in b.iter().enumerate() {
        let mut put = |x: Vec<S>| {
            let mut w = b[..i].to_vec();
            w.extend(x);
            w.extend_from_slice(&b[i + 1..]);
            o.push(w);
        };
        match s {
            S::Loop(x) => {
                put(x.clone());
                for y in smaller_block(x) {
                    put(vec![S::Loop(y)]);
                }
            }
            S::If(arms, els) => {
                for a in arms {
                    put(a.1.clone());
                }
                if let Some(e) = els {
                    put(e.clone());
                    put(vec![S::If(arms.clone(), None)]);
                    for y in smaller_block(e) {
                        put(vec![S::If(arms.clone(), Some(y))]);
                    }
                }
                for k in 0..arms.len() {
                    if arms.len() > 1 {
                        let mut a = arms.clone();
                        a.remove(k);
                        put(vec![S::If(a, els.clone())]);
                    }
                    for y in smaller_block(&arms[k].1) {
                        let mut a = arms.clone();
                        a[k].1 = y;
                        put(vec![S::If(a, els.clone())]);
                    }
                }
            }
            S::Set(v, e) => {
                for x in smaller_expr(e) {
                    put(vec![S::Set(v.clone(), x)]);
                }
            }
            S::Show(e) => {
                for x in smaller_expr(e) {
                    put(vec![S::Show(x)]);
                }
            }
            _ => {}
        }
    }
    o
}
fn smaller_expr(e: &E) -> Vec<E> {
    match e {
        E::Arith(a, _, b) | E::Eq(a, b) | E::Ne(a, b) | E::Lt(a, b) => vec![(**a).clone(), (**b).clone()],
        E::Cat(v) if v.len() > 2 => without(v).into_iter().filter(|w| w.len() >= 2).map(E::Cat).collect(),
        E::Cat(v) => v.clone(),
        E::Str(s) if s != "x" && !s.is_empty() => vec![E::s("x")],
        _ => vec![],
    }
}

fn smaller_source(s: &Source) -> Vec<Source> {
    let mut o: Vec<Source> = without(&s.decls).into_iter().map(|d| Source { decls: d, style: s.style }).collect();
    if s.style != 0 {
        o.push(Source { decls: s.decls.clone(), style: 0 });
    }
    for (i, d) in s.decls.iter().enumerate() {
        let mut put = |x: D| {
            let mut w = s.clone();
            w.decls[i] = x;
            o.push(w);
        };
        match d {
            D::Scripts(v) => {
                for w in without(v) {
                    if !w.is_empty() {
                        put(D::Scripts(w));
                    }
                }
                for (k, x) in v.iter().enumerate() {
                    for b in smaller_block(&x.body) {
                        let mut w = v.clone();
                        w[k].body = b;
                        put(D::Scripts(w));
                    }
                    if !x.args.is_empty() {
                        let mut w = v.clone();
                        w[k].args.clear();
                        put(D::Scripts(w));
                    }
                }
            }
            D::Test(n, x) => {
                for b in smaller_block(&x.body) {
                    put(D::Test(n.clone(), ScriptD { body: b, ..x.clone() }));
                }
            }
            _ => {}
        }
    }
    o
}

/// Drops what refers to objects that are gone.
fn tidy(mut s: Schema) -> Schema {
    s.occs.retain(|o| s.tables.iter().any(|t| t.id == o.table as u16));
    let occs = s.occs.clone();
    let field = |o: u16, f: u8| {
        let t = occs.iter().find(|x| x.id == o).map(|x| x.table);
        s.tables.iter().any(|x| Some(x.id) == t.map(|t| t as u16) && (x.fields.is_empty() || x.fields.iter().any(|y| y.id == f as u16)))
    };
    s.rels.retain(|r| field(r.a, r.f1) && field(r.b, r.f2));
    s.layouts.retain(|l| occs.iter().any(|o| o.id == l.occ as u16));
    let ids: Vec<u16> = s.scripts.iter().map(|x| x.id).collect();
    for x in &mut s.scripts {
        x.steps.retain(|st| st.target == 0 || ids.contains(&st.target));
    }
    s
}

fn smaller_image(i: &Image) -> Vec<Image> {
    let mut o = vec![];
    let p = &i.phys;
    let mut phys = |q: Phys| {
        if q != *p {
            o.push(Image { schema: i.schema.clone(), phys: q });
        }
    };
    phys(Phys::plain());
    phys(Phys { unused: 0, ..p.clone() });
    phys(Phys { permute: false, ..p.clone() });
    phys(Phys { pad: 0, ..p.clone() });
    phys(Phys { decoy: 0, ..p.clone() });
    phys(Phys { split: 0, ..p.clone() });
    let s = &i.schema;
    let mut put = |f: &dyn Fn(&mut Schema)| {
        let mut t = s.clone();
        f(&mut t);
        let t = tidy(t);
        if t != *s {
            o.push(Image { schema: t, phys: p.clone() });
        }
    };
    for w in without(&s.scripts) {
        put(&|t| t.scripts = w.clone());
    }
    for w in without(&s.rels) {
        put(&|t| t.rels = w.clone());
    }
    for w in without(&s.layouts) {
        put(&|t| t.layouts = w.clone());
    }
    for w in without(&s.sources) {
        put(&|t| t.sources = w.clone());
    }
    for w in without(&s.occs) {
        put(&|t| t.occs = w.clone());
    }
    for w in without(&s.tables) {
        put(&|t| t.tables = w.clone());
    }
    for k in 0..s.tables.len() {
        for w in without(&s.tables[k].fields) {
            put(&|t| t.tables[k].fields = w.clone());
        }
    }
    for k in 0..s.scripts.len() {
        for w in without(&s.scripts[k].steps) {
            put(&|t| t.scripts[k].steps = w.clone());
        }
        put(&|t| t.scripts[k].form = 0);
    }
    o
}

fn smaller_body(b: &Body) -> Vec<Body> {
    match b {
        Body::Burn(s) => smaller_source(s).into_iter().map(Body::Burn).collect(),
        Body::Img(i) => smaller_image(i).into_iter().map(Body::Img).collect(),
        Body::Broken(b, m) => {
            let mut o: Vec<Body> = without(m).into_iter().map(|w| Body::Broken(b.clone(), w)).collect();
            o.extend(smaller_body(b).into_iter().map(|x| Body::Broken(Box::new(x), m.clone())));
            o
        }
        Body::Noise(n, s) if *n > 0 => vec![Body::Noise(0, *s), Body::Noise(n / 2, *s)],
        Body::Text(t) => {
            let l: Vec<&str> = t.split_inclusive('\n').collect();
            if l.len() > 1 {
                without(&l).into_iter().map(|w| Body::Text(w.concat())).collect()
            } else {
                vec![]
            }
        }
        _ => vec![],
    }
}

fn candidates(c: &Case) -> Vec<Case> {
    let mut o = vec![];
    let mut put = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            o.push(d);
        }
    };
    for w in without(&c.faults) {
        put(&|d| d.faults = w.clone());
    }
    put(&|d| d.env.frag = Frag::default());
    put(&|d| d.env.console = false);
    put(&|d| d.env.zone = 1);
    put(&|d| d.env.tick_ns = 1000);
    put(&|d| d.env.clock_s = 1_700_000_000);
    put(&|d| d.schedule.clear());
    let n = c.schedule.len();
    for k in [n / 8, n / 4, n / 2, n * 3 / 4] {
        put(&|d| d.schedule.truncate(k));
    }
    /* Fewer switches. */
    if n > 0 && n <= 600 {
        let mut at = 0;
        while at < n {
            let mut end = at + 1;
            while end < n && c.schedule[end] == c.schedule[at] {
                end += 1;
            }
            if at > 0 {
                put(&|d| {
                    let v = d.schedule[at - 1];
                    d.schedule[at..end].fill(v);
                });
            }
            at = end;
        }
    }
    for w in without(&c.extra) {
        put(&|d| d.extra = w.clone());
    }
    if c.procs.len() > 1 {
        for k in (0..c.procs.len()).rev() {
            put(&|d| {
                d.procs.remove(k);
                d.faults.retain(|f| f.proc != k);
                for f in &mut d.faults {
                    if f.proc > k {
                        f.proc -= 1;
                    }
                }
            });
        }
    }
    if c.param.len() > 1 {
        put(&|d| d.param.truncate(1));
    }
    /* Files the command does not name, then those it does not need. */
    for k in 0..c.files.len() {
        let f = &c.files[k].path;
        let named = c.procs.iter().any(|p| p.args.contains(f));
        if !named {
            put(&|d| {
                d.files.remove(k);
            });
        } else {
            put(&|d| {
                d.files.remove(k);
                for p in &mut d.procs {
                    let mut m = Cmd::parse(p);
                    m.compile.retain(|x| x != f);
                    m.decompile.retain(|x| x != f);
                    m.tests.retain(|x| x != f);
                    *p = m.args();
                }
                if d.procs.iter().any(|p| {
                    let m = Cmd::parse(p);
                    m.compile.is_empty() && m.decompile.is_empty()
                }) {
                    *d = c.clone();
                }
            });
        }
    }
    put(&|d| {
        for p in &mut d.procs {
            let mut m = Cmd::parse(p);
            m.header = false;
            *p = m.args();
        }
    });
    for k in 0..c.files.len() {
        for b in smaller_body(&c.files[k].body) {
            put(&|d| d.files[k].body = b.clone());
        }
    }
    /* Faults as early as possible, and simple. */
    for k in 0..c.faults.len() {
        put(&|d| d.faults[k].at /= 2);
        put(&|d| d.faults[k].at = d.faults[k].at.saturating_sub(1));
    }
    o
}

pub fn minimise(m: &Machine, c: &Case, class: &str, limit: Duration) -> (Case, u64) {
    let end = Instant::now() + limit;
    let mut best = c.clone();
    let mut tried = 0;
    'again: loop {
        for d in candidates(&best) {
            if Instant::now() > end || tried > 3000 {
                return (best, tried);
            }
            tried += 1;
            /* A case too far from the domain may not even be checkable. */
            let seen = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(m, &d)));
            if let Ok((Verdict::Violation { class: k, .. }, _)) = seen {
                if k == class {
                    best = d;
                    continue 'again;
                }
            }
        }
        return (best, tried);
    }
}
