// Glue to the real tool: building files, running sessions, reading what was shown.
use super::engine::Ctx;
use super::lang::{Expected, V};
use super::world::Schema;
use crate::compile::compiler::compile_burn;
use crate::component::*;
use crate::file::FmpFile;
use super::sys::{in_child, End};

pub fn comparison(code: u8) -> RelationComparison {
    match code {
        0 => RelationComparison::Equal, 1 => RelationComparison::NotEqual, 2 => RelationComparison::Less,
        3 => RelationComparison::LessEqual, 4 => RelationComparison::Greater, 5 => RelationComparison::GreaterEqual,
        _ => RelationComparison::Cartesian,
    }
}

/// The schema as the tool gets it: stored in a file by the independent writer and decompiled.
pub fn build_file(s: &Schema) -> FmpFile {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static KNOWN: RefCell<HashMap<String, std::rc::Rc<FmpFile>>> = RefCell::new(HashMap::new()); }
    let key = format!("{:?}", s);
    let f = match KNOWN.with(|k| k.borrow().get(&key).cloned()) {
        Some(f) => f,
        None => {
            let f = std::rc::Rc::new(super::props_file::decompile(&{
                // spelled and divided in one of six ways
                let h = super::engine::h64(&key);
                let o = super::fmp::ops(&stored(s), super::fmp::Form((h % 3) as u8));
                let parts = super::fmp::sectors(&o, &super::fmp::full_cuts(&o, if h / 3 % 2 == 0 { 4076 } else { 311 }), h / 6 % 2 == 0).expect("fits");
                &super::fmp::file(&parts, &super::fmp::plain_blocks(parts.len()), parts.len() + 2, 0)
            }));
            KNOWN.with(|k| { let mut k = k.borrow_mut(); if k.len() > 2000 { k.clear(); } k.insert(key, f.clone()); });
            f
        }
    };
    let mut g = FmpFile::new();
    g.tables = f.tables.clone(); g.table_occurrences = f.table_occurrences.clone(); g.layouts = f.layouts.clone(); g.relationships = f.relationships.clone();
    g
}
/// A relationship is stored once, from the occurrence that comes first in the file.
fn stored(s: &Schema) -> super::fmp::Db {
    use super::fmp::*;
    let n = s.occs.len();
    // an order of the occurrences in which each relationship's first one comes first, if any
    fn extend(order: &mut Vec<usize>, n: usize, before: &dyn Fn(usize, usize) -> bool) -> bool {
        if order.len() == n { return true; }
        for i in 0..n {
            if order.contains(&i) || (0..n).any(|j| j != i && !order.contains(&j) && before(j, i)) { continue; }
            order.push(i);
            if extend(order, n, before) { return true; }
            order.pop();
        }
        false
    }
    let mut order = vec![];
    let before = |a: usize, b: usize| s.rels.iter().any(|r| r.0 == s.occs[a].id && r.3 == s.occs[b].id);
    if !extend(&mut order, n, &before) { order = (0..n).collect(); }
    let place = |id: usize| order.iter().position(|i| s.occs[*i].id == id);
    Db {
        tables: s.tables.iter().map(|t| DTable { id: t.id, name: t.name.clone(), fields: t.fields.iter().map(|(i, n)| DField { id: *i as usize, name: n.clone(), kind: "k".into(), desc: "d".into(), user: "u".into(), account: "a".into() }).collect() }).collect(),
        occs: order.iter().map(|i| DOcc { id: s.occs[*i].id, name: s.occs[*i].name.clone(), table: s.occs[*i].table }).collect(),
        rels: s.rels.iter().enumerate().map(|(i, (o1, f1, c, o2, f2))| {
            if place(*o1) <= place(*o2) { DRel { id: i + 1, a: *o1, b: *o2, fa: *f1 as u8, fb: *f2 as u8, cmp: *c } }
            else { DRel { id: i + 1, a: *o2, b: *o1, fa: *f2 as u8, fb: *f1 as u8, cmp: [0, 1, 4, 5, 2, 3, 6][*c as usize] } }
        }).collect(),
        layouts: s.layouts.iter().map(|(i, n, o)| DLayout { id: *i, name: n.clone(), occ: *o }).collect(),
        ..Default::default()
    }
}

pub fn add_burn(f: &mut FmpFile, src: &str) {
    let tmp = compile_burn(src);
    f.tests.extend(tmp.tests);
    let base = f.scripts.len();
    for (i, s) in tmp.scripts { f.scripts.insert(base + i, s); }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Got { pub name: String, pub dialogs: Vec<String>, pub outcome: Option<bool> }

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            while let Some(d) = it.next() { if d.is_ascii_alphabetic() { break; } }
        } else { o.push(c); }
    }
    o
}

/// A line is a dialog if it is a quoted text, a number, a truth value or empty.
pub fn is_dialog(l: &str) -> bool {
    l.is_empty() || l == "true" || l == "false" || (l.len() >= 2 && l.starts_with('"') && l.ends_with('"')) || l.parse::<f64>().is_ok()
}

/// Parse a session's standard output.
pub fn parse_output(raw: &[u8]) -> Vec<Got> {
    let text = String::from_utf8_lossy(raw);
    let mut v: Vec<Got> = vec![];
    for l in text.split('\n') {
        let l2;
        let l = if l.contains('\x1b') { l2 = strip_ansi(l); l2.as_str() } else { l };
        if let Some(n) = l.strip_prefix("Running test: ") {
            v.push(Got { name: n.to_string(), dialogs: vec![], outcome: None });
        } else if l.starts_with("Test ") && l.contains(" outcome: ") {
            let (a, b) = l[5..].split_once(" outcome: ").unwrap();
            let ok = b.trim() == "Success";
            match v.last_mut() {
                Some(g) if g.name == a && g.outcome.is_none() => g.outcome = Some(ok),
                _ => v.push(Got { name: format!("unexpected outcome line: {}", l), dialogs: vec![], outcome: Some(ok) }),
            }
        } else if is_dialog(l) {
            if let Some(g) = v.last_mut() { if g.outcome.is_none() { g.dialogs.push(l.to_string()); } }
        }
    }
    v
}

/// The tool itself, or one of the two stored variants of its src/testing (DESIGN.md).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Variant { Real, Recorded, Repaired }

macro_rules! on_variant {
    ($v:expr, $te:ident, $f:expr, $body:block) => {
        match $v {
            Variant::Real => { let mut $te = crate::testing::test::TestEnvironment::new($f); $body }
            Variant::Recorded => { let mut $te = super::recorded::test::TestEnvironment::new($f); $body }
            Variant::Repaired => { let mut $te = super::repaired::test::TestEnvironment::new($f); $body }
        }
    };
}

/// One session: all tests of the file, then the values of related fields if any are asked for
/// (these need the records, so the session then ends without clearing them).
pub fn session(v: Variant, f: &FmpFile, related: &[(String, String)]) {
    on_variant!(v, te, f, {
        te.generate_test_environment();
        if related.is_empty() { te.run_tests_with_cleanup(); }
        else {
            te.run_tests();
            for (o, n) in related {
                match te.database.get_related_record_field(o, n) {
                    Ok(x) => println!("Related: {}", x),
                    Err(_) => println!("Related error"),
                }
            }
        }
    })
}

#[derive(Clone, Debug)]
pub struct Ran { pub end: End, pub raw: Vec<u8> }

/// Run a computation that writes to standard output; programs that may run forever go in a child,
/// and are said to do so after `cpu_ms` of processor time.
pub fn observe(ctx: &Ctx, may_loop: bool, cpu_ms: i64, f: &mut dyn FnMut()) -> Ran {
    if let Some(c) = &ctx.cap { c.clear(); }
    let end = if may_loop { in_child(cpu_ms, if cpu_ms == SOON { 1 << 16 } else { 1 << 25 }, f) } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) { Ok(()) => End::Done, Err(_) => End::Panicked }
    };
    Ran { end, raw: ctx.out() }
}
const SOON: i64 = 60;
const LATE: i64 = 2500;

fn related_lines(raw: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(raw).lines().filter(|l| l.starts_with("Related")).map(|l| l.to_string()).collect()
}
fn same_run(a: &Ran, b: &Ran) -> bool {
    if a.end != b.end { return false; }
    let (mut x, mut y) = (parse_output(&a.raw), parse_output(&b.raw));
    if a.end == End::Hung {
        // the last line may be incomplete
        for v in [&mut x, &mut y] { if let Some(g) = v.last_mut() { g.dialogs.pop(); } }
        // both were interrupted somewhere
        return x.iter().zip(&y).all(|(g, h)| g.name == h.name && g.dialogs.iter().zip(&h.dialogs).all(|(p, q)| p == q));
    }
    x == y && related_lines(&a.raw) == related_lines(&b.raw)
}

/// Decide a case that is observed through src/testing.  A failure is attributed to the recorded
/// defects of src/testing only if (1) the property has such findings, (2) everything else in the
/// tool is right, i.e. the case succeeds with the repaired src/testing, and (3) the tool behaves
/// exactly as the recorded defective one does.
pub fn judge(ctx: &mut Ctx, may_loop: bool, run: &dyn Fn(Variant), test: &dyn Fn(&Ran) -> Result<(), String>) -> Result<(), String> {
    let go = |ctx: &Ctx, v: Variant, ms: i64| observe(ctx, may_loop, ms, &mut || run(v));
    let mut real = go(ctx, Variant::Real, SOON);
    let finish = |r: &Ran| -> Result<(), String> {
        match r.end {
            End::Done => test(r),
            e => Err(format!("the session ended abnormally ({:?})\n{}", e, String::from_utf8_lossy(&r.raw).chars().take(2000).collect::<String>())),
        }
    };
    if finish(&real).is_ok() { return Ok(()); }
    if ctx.has_sited() {
        let mut fixed = go(ctx, Variant::Repaired, SOON);
        if fixed.end == End::Hung { fixed = go(ctx, Variant::Repaired, LATE); }
        let fixed = finish(&fixed);
        if fixed.is_ok() && same_run(&real, &go(ctx, Variant::Recorded, SOON)) { ctx.attributed = true; return Ok(()); }
        // decide with more time for all
        ctx.count("needed_more_time", 1);
        if real.end == End::Hung { real = go(ctx, Variant::Real, LATE); }
        let Err(e) = finish(&real) else { return Ok(()) };
        if let Err(e2) = fixed { return Err(format!("{}\n(not explained by the known defects of src/testing: with their repairs: {})", e, e2)); }
        if same_run(&real, &go(ctx, Variant::Recorded, LATE)) { ctx.attributed = true; return Ok(()); }
        return Err(format!("{}\n(and the known defects of src/testing give another result)", e));
    }
    if real.end == End::Hung { real = go(ctx, Variant::Real, LATE); }
    finish(&real)
}

pub fn shows(line: &str, v: &V) -> bool {
    match v {
        V::Text(t) => line.len() == t.len() + 2 && line.starts_with('"') && line.ends_with('"') && &line[1..line.len() - 1] == t,
        V::Bool(b) => line == if *b { "true" } else { "false" },
        V::Empty => line.is_empty() || line == "\"\"",
        V::Num(x) => match line.parse::<f64>() {
            Ok(y) => y == *x || (y - x).abs() <= 1e-11 * x.abs().max(1e-300),
            Err(_) => false,
        },
    }
}

pub fn check(got: &[Got], want: &[Expected]) -> Result<(), String> {
    let bad = |why: String| Err(format!("{}\nexpected: {}\n  actual: {}", why,
        want.iter().map(|w| format!("{} {:?} {}", w.name, w.dialogs, if w.pass { "Success" } else { "Fail" })).collect::<Vec<_>>().join(" | "),
        got.iter().map(|g| format!("{} {:?} {:?}", g.name, g.dialogs, g.outcome)).collect::<Vec<_>>().join(" | ")));
    if got.len() != want.len() { return bad(format!("{} tests reported instead of {}", got.len(), want.len())); }
    for (g, w) in got.iter().zip(want) {
        if g.name != w.name { return bad("wrong test reported".into()); }
        if g.dialogs.len() != w.dialogs.len() { return bad(format!("test {}: {} dialogs instead of {}", w.name, g.dialogs.len(), w.dialogs.len())); }
        for (i, (l, v)) in g.dialogs.iter().zip(&w.dialogs).enumerate() {
            if !shows(l, v) { return bad(format!("test {}: dialog {} shows {} instead of {:?}", w.name, i, l, v)); }
        }
        match g.outcome {
            None => return bad(format!("test {}: no outcome reported", w.name)),
            Some(o) if o != w.pass => return bad(format!("test {}: reported {}", w.name, if o { "Success" } else { "Fail" })),
            _ => {}
        }
    }
    Ok(())
}

/// A whole program: a schema, shared scripts and tests.
#[derive(Clone, Default)]
pub struct Program {
    pub schema: Schema,
    pub scripts: Vec<(String, Vec<super::lang::S>)>,
    pub tests: Vec<(String, Vec<super::lang::S>)>,
}

impl Program {
    pub fn source(&self) -> String {
        let mut s = String::new();
        if !self.scripts.is_empty() { s.push_str(&super::lang::scripts_src(&self.scripts)); }
        for (n, b) in &self.tests { s.push_str(&super::lang::test_src(n, b)); }
        s
    }
    /// What each test must show, or None outside of the specified domain.
    pub fn expected(&self, ctx: &mut Ctx) -> Option<Vec<Expected>> {
        let scripts: std::collections::BTreeMap<String, Vec<super::lang::S>> = self.scripts.iter().cloned().collect();
        let schema = std::rc::Rc::new(self.schema.clone());
        let salt = 0;
        let mut v = vec![];
        for (n, b) in &self.tests {
            let mut it = super::lang::Interp::new(&scripts, super::world::World::new(schema.clone()), salt ^ super::engine::h64(&format!("{:?}{:?}", self.scripts, b)));
            let r = it.run_test(n, b);
            ctx.transitions += it.steps;
            for s in it.states { ctx.states.add(s); }
            match r { Ok(e) => v.push(e), Err(_) => { ctx.count("outside_of_domain", 1); return None; } }
        }
        Some(v)
    }
    pub fn may_loop(&self) -> bool {
        fn l(b: &[super::lang::S]) -> bool {
            b.iter().any(|s| match s {
                super::lang::S::Loop(_) | super::lang::S::Call(_) => true,
                super::lang::S::If(a, e) => a.iter().any(|x| l(&x.1)) || e.as_ref().map(|x| l(x)).unwrap_or(false),
                _ => false,
            })
        }
        self.scripts.iter().chain(&self.tests).any(|x| l(&x.1))
    }
    /// The same program with less uniform names and numbers: upper case, digits, `_` and blanks,
    /// ids that are neither consecutive nor small.
    pub fn renamed(&self) -> Program {
        let mut s = self.schema.clone();
        for t in s.tables.iter_mut() { t.id = super::lang::new_table(t.id); t.name = super::lang::new_name(&t.name); for f in t.fields.iter_mut() { f.0 = super::lang::new_field(f.0); f.1 = super::lang::new_name(&f.1); } }
        for o in s.occs.iter_mut() { o.id = super::lang::new_occ(o.id); o.table = super::lang::new_table(o.table); o.name = super::lang::new_name(&o.name); }
        for l in s.layouts.iter_mut() { *l = (super::lang::new_layout(l.0), super::lang::new_name(&l.1), super::lang::new_occ(l.2)); }
        for r in s.rels.iter_mut() { *r = (super::lang::new_occ(r.0), super::lang::new_field(r.1), r.2, super::lang::new_occ(r.3), super::lang::new_field(r.4)); }
        let body = |v: &Vec<(String, Vec<super::lang::S>)>| v.iter().map(|(n, b)| (super::lang::new_name(n), super::lang::renamed(b))).collect();
        Program { schema: s, scripts: body(&self.scripts), tests: body(&self.tests) }
    }
    /// Run on the tool and compare with the reference interpreter, test by test.
    pub fn conform(&self, ctx: &mut Ctx) -> Result<(), String> { self.renamed().conform_as_named(ctx) }
    pub fn conform_as_named(&self, ctx: &mut Ctx) -> Result<(), String> {
        let Some(want) = self.expected(ctx) else { return Ok(()) };
        ctx.nontrivial += 1;
        ctx.traces += want.len() as u64;
        let src = self.source();
        let mut f = build_file(&self.schema);
        add_burn(&mut f, &src);
        judge(ctx, self.may_loop(), &|v| session(v, &f, &[]), &|r| check(&parse_output(&r.raw), &want))
            .map_err(|e| format!("{}\n{}", e, src))
    }
}

pub fn schema_calc() -> Schema {
    use super::world::*;
    Schema {
        tables: vec![Table { id: 1, name: "tab".into(), fields: vec![(1, "fa".into()), (2, "fb".into()), (3, "fc".into()), (4, "fd".into()), (5, "fe".into())] }],
        occs: vec![Occ { id: 1, name: "tab".into(), table: 1 }],
        layouts: vec![(1, "tab".into(), 1)],
        rels: vec![],
    }
}

impl Program {
    /// As `conform`, for texts with line breaks: each dialog is preceded by a marker, and the
    /// raw output between two markers must contain exactly the expected dialog.
    pub fn conform_regions(&self, ctx: &mut Ctx) -> Result<(), String> {
        let mut p = self.renamed();
        let mut marks = 0;
        for (_, b) in p.tests.iter_mut() {
            let mut o = vec![];
            for s in b.drain(..) {
                if let super::lang::S::Show(_) = s { marks += 1; o.push(super::lang::S::Mark(format!("m{}", marks))); }
                o.push(s);
            }
            *b = o;
        }
        let Some(want) = p.expected(ctx) else { return Ok(()) };
        ctx.traces += want.len() as u64;
        let src = p.source();
        let mut f = build_file(&p.schema);
        add_burn(&mut f, &src);
        judge(ctx, p.may_loop(), &|v| session(v, &f, &[]), &|r| regions(&r.raw, &want)).map_err(|e| format!("{}\n{}", e, src))
    }
}

fn regions(raw: &[u8], want: &[Expected]) -> Result<(), String> {
    let out = String::from_utf8_lossy(raw).to_string();
    let mut rest = out.as_str();
    for w in want { for v in &w.dialogs {
        let line = match v { V::Text(t) => format!("\n\"{}\"\n", t), V::Num(n) => format!("\n{}\n", n), V::Bool(b) => format!("\n{}\n", b), V::Empty => "\n\n".to_string() };
        match rest.find(&line) {
            // dialogs share the line break between them
            Some(i) => {
                if let V::Text(t) = v { if !t.starts_with("@m") {
                    if let Some(j) = rest.find("\n\"@m") { if j < i { return Err(format!("dialog {:?} not shown in its place", v)); } }
                } }
                rest = &rest[i + line.len() - 1..];
            }
            None => return Err(format!("dialog {:?} not shown", v)),
        }
    } }
    for w in want {
        let ok = format!("Test {} outcome: ", w.name);
        if strip_ansi(&out).lines().filter(|l| l.starts_with(&ok) && l.ends_with(if w.pass { "Success" } else { "Fail" })).count() != 1 {
            return Err(format!("test {}: wrong outcome", w.name));
        }
    }
    Ok(())
}
