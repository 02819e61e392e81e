// C05, C06, C07, C18: what burn source compiles to.
use super::props_calc::digits;
use super::engine::{h64, Ctx, Prop};
use super::fm::{self, build_file, check, judge, parse_output, session};
use super::lang::{Expected, V};
use crate::compile::compiler::compile_burn;
use crate::component::*;
use crate::file::FmpFile;

/// A compiled script: name, argument names, (step kind, argument texts)
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Scr { pub name: String, pub args: Vec<String>, pub steps: Vec<(String, Vec<String>)> }

fn list(v: &[String], norm: &dyn Fn(&str) -> String) -> Vec<String> {
    // a parameter list without parameters may be reported as one empty parameter
    let v: Vec<String> = v.iter().map(|s| norm(s)).collect();
    if v.len() == 1 && v[0].is_empty() { vec![] } else { v }
}
fn trim(s: &str) -> String { s.trim().to_string() }
/// Without the white space outside of text literals
pub fn squeeze(s: &str) -> String {
    let mut q = false;
    s.chars().filter(|c| { if *c == '"' { q = !q; } q || !c.is_whitespace() }).collect()
}
pub fn scr(s: &FMComponentScript, norm: &dyn Fn(&str) -> String) -> Scr {
    Scr { name: s.script_name.clone(), args: list(&s.arguments, norm),
        steps: s.instructions.iter().map(|i| (format!("{:?}", i.opcode), list(&i.switches, norm))).collect() }
}

/// Everything the property speaks of in a compiled file.
#[derive(Clone, Debug, PartialEq, Hash, Default)]
pub struct Summary {
    pub tables: Vec<(usize, String)>,
    pub occs: Vec<(usize, String, String)>,
    pub rels: Vec<(usize, String, String)>,
    pub lists: Vec<(usize, String)>,
    pub scripts: Vec<(usize, Scr)>,
    pub tests: Vec<(String, Scr)>,
    pub others: usize,
}
pub fn summary(f: &FmpFile, norm: &dyn Fn(&str) -> String) -> Summary {
    Summary {
        tables: f.tables.iter().map(|(i, t)| (*i, t.table_name.clone())).collect(),
        occs: f.table_occurrences.iter().map(|(i, t)| (*i, t.table_occurence_name.clone(), t.table_actual_name.clone())).collect(),
        rels: f.relationships.iter().map(|(i, t)| (*i, t.table1_name.clone(), t.table2_name.clone())).collect(),
        lists: f.value_lists.iter().map(|(i, t)| (*i, t.list_name.clone())).collect(),
        scripts: f.scripts.iter().map(|(i, s)| (*i, scr(s, norm))).collect(),
        tests: f.tests.iter().map(|t| (t.test_name.clone(), scr(&t.script, norm))).collect(),
        others: f.layouts.len() + f.data_sources.len() + f.tests.iter().map(|t| t.assertions.len()).sum::<usize>(),
    }
}
pub fn differ<T: std::fmt::Debug + PartialEq>(got: &T, want: &T, src: &str) -> Result<(), String> {
    if got == want { return Ok(()); }
    Err(format!("expected: {:?}\n  actual: {:?}\n{}", want, got, src))
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug)]
enum Nd { St, If(Vec<Vec<Nd>>, Option<Vec<Nd>>), Lp(Vec<Nd>) }

/// All forests of exactly the given weight: a step weighs 1, a loop and each branch 1 plus its content.
fn forests(w: usize, memo: &mut Vec<Option<Vec<Vec<Nd>>>>) -> Vec<Vec<Nd>> {
    if w == 0 { return vec![vec![]]; }
    if let Some(Some(v)) = memo.get(w) { return v.clone(); }
    let mut out = vec![];
    for first in 1..=w {
        let heads = nodes(first, memo);
        let tails = forests(w - first, memo);
        for h in &heads { for t in &tails { let mut v = vec![h.clone()]; v.extend(t.iter().cloned()); out.push(v); } }
    }
    while memo.len() <= w { memo.push(None); }
    memo[w] = Some(out.clone());
    out
}
fn nodes(w: usize, memo: &mut Vec<Option<Vec<Vec<Nd>>>>) -> Vec<Nd> {
    let mut out = vec![];
    if w == 1 { out.push(Nd::St); }
    for b in forests(w - 1, memo) { out.push(Nd::Lp(b)); }
    // conditionals: branches of total weight w, the last one possibly an else
    for arms in arms(w, memo) {
        out.push(Nd::If(arms.clone(), None));
        if arms.len() > 1 { let mut a = arms; let e = a.pop().unwrap(); out.push(Nd::If(a, Some(e))); }
    }
    out
}
fn arms(w: usize, memo: &mut Vec<Option<Vec<Vec<Nd>>>>) -> Vec<Vec<Vec<Nd>>> {
    let mut out = vec![];
    for first in 1..=w {
        let heads = forests(first - 1, memo);
        if first == w { for h in heads { out.push(vec![h]); } continue; }
        let tails = arms(w - first, memo);
        for h in &heads { for t in &tails { let mut v = vec![h.clone()]; v.extend(t.iter().cloned()); out.push(v); } }
    }
    out
}

/// Numbered rendering: source in the given style, and the steps it must compile to.
struct Ren { n: usize, style: usize, src: String, steps: Vec<(String, Vec<String>)>, kinds: bool }
impl Ren {
    fn nl(&mut self) { self.src.push_str(match self.style { 0 => "\n  ", 1 => "", _ => " " }); }
    fn step(&mut self, op: &str, a: Vec<String>) { self.steps.push((op.to_string(), a)); }
    fn cond(&mut self) -> String {
        self.n += 1;
        match self.n % 3 { 0 => format!("v{} == \"a, b) {{\"", self.n), 1 => format!("(v{} + 1) < Min(2, {})", self.n, self.n), _ => format!("v{} > {}", self.n, self.n) }
    }
    fn forest(&mut self, f: &[Nd]) {
        for x in f {
            match x {
                Nd::St => {
                    self.n += 1;
                    let n = self.n;
                    let (s, op, a): (String, &str, Vec<String>) = if !self.kinds { (format!("set_variable(v{0}, {0})", n), "SetVariable", vec![format!("v{}", n), n.to_string()]) } else {
                        match n % 5 {
                            0 => ("new_record_request()".into(), "NewRecordRequest", vec![]),
                            1 => (format!("exit_loop_if(v == {})", n), "ExitLoopIf", vec![format!("v == {}", n)]),
                            2 => (format!("show_custom_dialog(\"}} {}\")", n), "ShowCustomDialog", vec![format!("\"}} {}\"", n)]),
                            3 => (format!("set_field(t::f{}, 1)", n), "SetField", vec![format!("t::f{}", n), "1".into()]),
                            _ => (format!("perform_script(\"s{}\")", n), "PerformScript", vec![format!("\"s{}\"", n)]),
                        }
                    };
                    self.src.push_str(&s); self.src.push(';'); self.nl();
                    self.step(op, a);
                }
                Nd::Lp(b) => {
                    self.src.push_str(if self.style == 1 { "loop{" } else { "loop {" }); self.nl();
                    self.step("Loop", vec![]);
                    self.forest(b);
                    self.src.push('}'); self.nl();
                    self.step("EndLoop", vec![]);
                }
                Nd::If(arms, els) => {
                    for (i, b) in arms.iter().enumerate() {
                        let c = self.cond();
                        if i == 0 { self.src.push_str(&format!("if({}){{", c)); self.step("If", vec![c]); }
                        else { self.src.push_str(&format!("}}{}elif({}) {{", if self.style == 1 { "" } else { " " }, c)); self.step("ElseIf", vec![c]); }
                        self.nl();
                        self.forest(b);
                    }
                    if let Some(b) = els {
                        self.src.push_str(match self.style { 0 => "} else {", 1 => "}else{", _ => "}\n else\n {" }); self.nl();
                        self.step("Else", vec![]);
                        self.forest(b);
                    }
                    self.src.push('}'); self.nl();
                    self.step("EndIf", vec![]);
                }
            }
        }
    }
}
fn render(f: &[Nd], style: usize, kinds: bool) -> (String, Vec<(String, Vec<String>)>) {
    let mut r = Ren { n: 0, style, src: String::new(), steps: vec![], kinds };
    r.forest(f);
    (r.src, r.steps)
}
/// The compiled scripts must be exactly these.
fn scripts_case(ctx: &mut Ctx, src: &str, scripts: Vec<Scr>, tests: Vec<(String, Scr)>) -> Result<(), String> {
    let got = summary(&compile_burn(src), &trim);
    let want = Summary { scripts: scripts.into_iter().enumerate().map(|(i, s)| (i + 1, s)).collect(), tests, ..Default::default() };
    ctx.states.add(h64(&want));
    ctx.transitions += want.scripts.iter().map(|s| s.1.steps.len() as u64 + 1).sum::<u64>() + want.tests.iter().map(|s| s.1.steps.len() as u64 + 1).sum::<u64>();
    ctx.traces += 1;
    differ(&got, &want, src)
}

const STEPS: [(&str, &str); 14] = [
    ("perform_script", "PerformScript"), ("go_to_layout", "GoToLayout"), ("go_to_record", "GoToRecordRequestPage"), ("go_to_request", "GoToRecordRequestPage"),
    ("enter_find_mode", "EnterFindMode"), ("perform_find", "PerformFind"), ("show_all_records", "ShowAllRecords"), ("set_field", "SetField"),
    ("set_variable", "SetVariable"), ("exit_loop_if", "ExitLoopIf"), ("new_record_request", "NewRecordRequest"), ("exit_script", "ExitScript"),
    ("show_custom_dialog", "ShowCustomDialog"), ("assert", "Assert"),
];
const ARGS: [&str; 22] = [
    "1", "x", "tab::field_one", "\"text\"", "\"\"", "1 + 2 * (3 - x)", "Min(1, 2, Abs(y))", "Get(AccountName)", "\"a, b; c) } ] {\"", "x == \"(\" & \")\"",
    "if", "loop", "else", "define", "set_variable", "end", "\"end script;\"", "3.14", "((x))", "Min(\")\", \"(\") <= 2", "x != y", "\"\u{e9} \u{20ac} \u{1f600}\"",
];
const NAMES: [&str; 24] = ["s", "iffy", "if_x", "loop1", "loops", "define_x", "defined", "elsewhere", "else2", "elif_y", "end_it", "letter", "let2", "script1", "test_a", "table_b",
    "x", "set_variable", "assert", "nan", "inf", "infinity", "e5", "A_long_Name_0123456789"];

/// Sizes around the limits that counters have.
pub const THRESHOLDS: [usize; 28] = [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097, 10001, 65537];

fn c06() -> Prop {
    Prop { id: "C06", level: "model_checking",
        rule: "every forest of steps, loops and if/elif/else blocks up to the weight bound (a step, a loop and a branch weigh 1 each), in three layouts, with uniform and with mixed steps, as a script and as a test's script; every step kind with every list of up to 3 (thorough 4) arguments over 22 argument texts; every pair of conditions over those texts; every sequence of up to 3 scripts over 24 names and several parameter lists, split into blocks in every way; numbers of steps, branches, arguments, parameters, scripts, blocks and nested blocks, and lengths of names and arguments, around 28 limits up to 65,537 (nested blocks: 1,025). States are distinct compiled programs, transitions their steps.",
        assumptions: &["argument texts are compared up to surrounding white space", "an empty parameter list may be reported as one empty parameter"],
        run: |ctx| {
            let maxw = ctx.by(6, 9);
            let mut memo = vec![];
            for w in 0..=maxw {
                let fs = if w < maxw || maxw < 9 { forests(w, &mut memo) } else { vec![] };
                let mut go = |ctx: &mut Ctx, f: &[Nd]| {
                    if !ctx.next_is_mine() { ctx.skip_case(); return; }
                    let f = f.to_vec();
                    ctx.case(|| format!("blocks {}", render(&f, 1, false).0), |ctx| {
                        for style in 0..3 { for kinds in [false, true] {
                            let (b, steps) = render(&f, style, kinds);
                            let s = Scr { name: "main".into(), args: vec![], steps };
                            scripts_case(ctx, &format!("script: [\n define main() {{\n{}}}\n]\n", b), vec![s.clone()], vec![])?;
                            let s2 = Scr { name: "other".into(), args: vec!["p".into()], steps: vec![("Assert".into(), vec!["1 == 1".into()])] };
                            scripts_case(ctx, &format!("test T:\n script: [ define main() {{ {}}} ],\nend test;\nscript: [ define other(p) {{ assert(1 == 1); }}\ndefine main() {{{}}} ]", b, b),
                                vec![s2, s.clone()], vec![("T".into(), s)])?;
                        } }
                        ctx.nontrivial += 1;
                        Ok(())
                    });
                };
                for f in &fs { go(ctx, f); }
                if fs.is_empty() && w > 0 {
                    // the last weight is too large to hold: generate it piecewise
                    for first in 1..=w {
                        let tails = forests(w - first, &mut memo);
                        for h in nodes(first, &mut memo) { for t in &tails {
                            if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                            let mut v = vec![h.clone()]; v.extend(t.iter().cloned());
                            go(ctx, &v);
                        } }
                    }
                }
            }
            // every step kind with every argument list
            let maxa = ctx.by(3, 4);
            for n in 0..=maxa { for k in 0..(ARGS.len() as u64).pow(n as u32) {
                ctx.case(|| format!("{} arguments, number {}", n, k), |ctx| {
                    let a: Vec<String> = super::props_calc::digits(k, ARGS.len() as u64, n).iter().map(|i| ARGS[*i].to_string()).collect();
                    let mut src = String::from("script: [ define s("); src.push_str(&a.join(", ")); src.push_str(") {\n");
                    let mut steps = vec![];
                    for (i, (name, op)) in STEPS.iter().enumerate() {
                        src.push_str(&format!("{}({});{}", name, a.join(if i % 2 == 0 { ", " } else { "," }), if i % 3 == 0 { "\n" } else { "" }));
                        steps.push((op.to_string(), a.clone()));
                    }
                    src.push_str("} ]");
                    let args = a.clone();
                    scripts_case(ctx, &src, vec![Scr { name: "s".into(), args, steps: steps.clone() }], vec![])?;
                    Ok(())
                });
            } }
            // arguments left empty between others
            for n in 2..=4usize { for mask in 1..1u32 << n { for a in ARGS {
                ctx.case(|| format!("{} arguments like {:?}, empty ones {:b}", n, a, mask), |ctx| {
                    let a: Vec<String> = (0..n).map(|i| if mask >> i & 1 == 1 { String::new() } else { a.to_string() }).collect();
                    for sep in [", ", ",", " , "] {
                        let mut src = String::from("script: [ define s() {\n");
                        let mut steps = vec![];
                        for (name, op) in STEPS.iter() { src.push_str(&format!("{}({});", name, a.join(sep))); steps.push((op.to_string(), a.clone())); }
                        src.push_str("} ]");
                        scripts_case(ctx, &src, vec![Scr { name: "s".into(), args: vec![], steps }], vec![])?;
                    }
                    Ok(())
                });
            } } }
            // conditions
            for a in ARGS { for b in ARGS {
                ctx.case(|| format!("conditions {} / {}", a, b), |ctx| {
                    let s = |x: &str| vec![x.to_string()];
                    scripts_case(ctx, &format!("script: [ define s() {{ loop {{ if({a}) {{ exit_loop_if({b}); }} elif({b}) {{ assert({a}); }} elif({a}) {{ }} else {{ if({b}) {{}} }} }} }} ]"),
                        vec![Scr { name: "s".into(), args: vec![], steps: vec![("Loop".into(), vec![]), ("If".into(), s(a)), ("ExitLoopIf".into(), s(b)), ("ElseIf".into(), s(b)), ("Assert".into(), s(a)),
                            ("ElseIf".into(), s(a)), ("Else".into(), vec![]), ("If".into(), s(b)), ("EndIf".into(), vec![]), ("EndIf".into(), vec![]), ("EndLoop".into(), vec![])] }], vec![])
                });
            } }
            // several scripts
            let bodies: [(&str, Vec<(String, Vec<String>)>); 4] = [
                ("", vec![]),
                ("assert(x);", vec![("Assert".into(), vec!["x".into()])]),
                ("if(x) { loop { } }", vec![("If".into(), vec!["x".into()]), ("Loop".into(), vec![]), ("EndLoop".into(), vec![]), ("EndIf".into(), vec![])]),
                ("loop { if(x) { perform_find(); } else { } }", vec![("Loop".into(), vec![]), ("If".into(), vec!["x".into()]), ("PerformFind".into(), vec![]), ("Else".into(), vec![]), ("EndIf".into(), vec![]), ("EndLoop".into(), vec![])]),
            ];
            let params: [&[&str]; 3] = [&[], &["x"], &["first_one", "y", "z"]];
            for n in 1..=3usize { for k in 0..(NAMES.len() as u64).pow(n as u32) { for cut in 0..1u32 << (n - 1) {
                ctx.case(|| format!("{} scripts, names {}, blocks {:b}", n, k, cut), |ctx| {
                    let names = super::props_calc::digits(k, NAMES.len() as u64, n);
                    let combos: Vec<(usize, usize)> = if ctx.quick() { vec![(k as usize % 4, k as usize % 3)] } else { (0..4).flat_map(|b| (0..3).map(move |p| (b, p))).collect() };
                    for (b0, p0) in combos {
                        let mut src = String::from("script: [\n");
                        let mut want = vec![];
                        for i in 0..n {
                            let (b, p) = (&bodies[(b0 + i) % 4], params[(p0 + i) % 3]);
                            src.push_str(&format!("  define {}({}) {{ {} }}\n", NAMES[names[i]], p.join(", "), b.0));
                            want.push(Scr { name: NAMES[names[i]].into(), args: p.iter().map(|s| s.to_string()).collect(), steps: b.1.clone() });
                            if i + 1 < n && cut >> i & 1 == 1 { src.push_str("]\nscript: ["); }
                        }
                        src.push_str("]\n");
                        scripts_case(ctx, &src, want, vec![])?;
                    }
                    Ok(())
                });
            } } }
            // numbers and lengths around every power of two that a counter may have
            for n in THRESHOLDS {
                for kind in 0..9usize {
                    if kind == 8 && n > 1100 { continue; }
                    ctx.case(|| format!("{} {}", n, ["steps", "branches", "arguments", "parameters", "scripts", "characters in an argument", "characters in a name", "blocks in a row", "nested blocks"][kind]), |ctx| {
                        let step = |i: usize| ("SetVariable".to_string(), vec!["v".to_string(), i.to_string()]);
                        let text = |i: usize| format!("set_variable(v, {});", i);
                        let st = |op: &str, a: &[&str]| (op.to_string(), a.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                        let one = |steps| vec![Scr { name: "s".into(), args: vec![], steps }];
                        let (src, want): (String, Vec<Scr>) = match kind {
                            0 => ((0..n).map(text).collect(), one((0..n).map(step).collect())),
                            1 => {
                                let mut v = vec![];
                                for i in 0..n { v.push(st(if i == 0 { "If" } else { "ElseIf" }, &[&format!("x == {}", i)])); v.push(step(i)); }
                                v.push(st("EndIf", &[]));
                                ((0..n).map(|i| format!("{}(x == {}) {{ {} }}", if i == 0 { "if" } else { " elif" }, i, text(i))).collect(), one(v))
                            }
                            2 => {
                                let a: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                                (format!("show_custom_dialog({});", a.join(", ")), one(vec![("ShowCustomDialog".into(), a), ]))
                            }
                            3 => {
                                let a: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
                                let src = format!("script: [define s({}) {{ {} }}]", a.join(", "), text(1));
                                return scripts_case(ctx, &src, vec![Scr { name: "s".into(), args: a, steps: vec![step(1)] }], vec![]);
                            }
                            4 => {
                                let src = format!("script: [{}]", (0..n).map(|i| format!("define s{}(a) {{ {} }}\n", i, text(i))).collect::<String>());
                                return scripts_case(ctx, &src, (0..n).map(|i| Scr { name: format!("s{}", i), args: vec!["a".into()], steps: vec![step(i)] }).collect(), vec![]);
                            }
                            5 => {
                                let t: String = "abcdefghi j".chars().cycle().take(n).collect();
                                (format!("set_variable(v, \"{}\"); set_variable(w, {} + 1); {}", t, "x".repeat(n), text(3)),
                                 one(vec![st("SetVariable", &["v", &format!("\"{}\"", t)]), st("SetVariable", &["w", &format!("{} + 1", "x".repeat(n))]), step(3)]))
                            }
                            6 => {
                                let name = "n".repeat(n);
                                let src = format!("script: [define {}() {{ {} }} define z({}) {{ }}]", name, text(1), name);
                                return scripts_case(ctx, &src, vec![Scr { name: name.clone(), args: vec![], steps: vec![step(1)] }, Scr { name: "z".into(), args: vec![name], steps: vec![] }], vec![]);
                            }
                            7 => {
                                let mut v = vec![];
                                for i in 0..n { v.extend([st("Loop", &[]), step(i), st("EndLoop", &[]), st("If", &["x"]), st("Else", &[]), step(i), st("EndIf", &[])]); }
                                ((0..n).map(|i| format!("loop {{ {} }} if(x) {{ }} else {{ {} }}\n", text(i), text(i))).collect(), one(v))
                            }
                            _ => {
                                let (mut v, mut a) = (vec![], String::new());
                                for i in 0..n {
                                    if i % 3 == 0 { v.push(st("Loop", &[])); a += "loop {"; } else { v.push(st("If", &["x"])); a += "if(x) {"; }
                                    v.push(step(i)); a += &text(i);
                                }
                                for i in (0..n).rev() {
                                    a += &format!("}} {}", text(i));
                                    v.extend([st(if i % 3 == 0 { "EndLoop" } else { "EndIf" }, &[]), step(i)]);
                                }
                                (a, one(v))
                            }
                        };
                        scripts_case(ctx, &format!("script: [define s() {{{}}}]", src), want, vec![])
                    });
                }
            }
            // long and deep programs
            for n in 1..=ctx.by(60usize, 200) {
                ctx.case(|| format!("size {}", n), |ctx| {
                    let mut fs: Vec<Vec<Nd>> = vec![
                        vec![Nd::St; n], vec![Nd::Lp(vec![]); n], vec![Nd::If(vec![vec![Nd::St]; n], None)], vec![Nd::If(vec![vec![]; n], Some(vec![Nd::St]))],
                        vec![Nd::If(vec![vec![Nd::St], vec![]], Some(vec![Nd::St])); n],
                    ];
                    for kind in 0..4 {
                        let mut f = vec![Nd::St];
                        for d in 0..n {
                            f = match (kind, d % 3) {
                                (0, _) | (3, 0) => vec![Nd::Lp(f), Nd::St],
                                (1, _) | (3, 1) => vec![Nd::St, Nd::If(vec![f], None)],
                                _ => vec![Nd::If(vec![vec![Nd::St], f.clone()], Some(if n <= 8 { f } else { vec![Nd::St] }))],
                            };
                        }
                        fs.push(f);
                    }
                    for f in fs {
                        let (b, steps) = render(&f, n % 3, n % 2 == 0);
                        scripts_case(ctx, &format!("script: [define deep() {{{}}}]", b), vec![Scr { name: "deep".into(), args: vec![], steps }], vec![])?;
                    }
                    Ok(())
                });
            }
        } }
}

// ---------------------------------------------------------------- C07

/// Templates with the holes %1 and %2 inside of text literals, and %0 to vary.
const HOLES: [&str; 20] = [
    "script: [ define s() { show_custom_dialog(\"%1\"); assert(1 == 1); } ]",
    "script: [ define s() { set_variable(x, \"%1\"); set_variable(y, 2); } define s2(a, b) { perform_find(); } ]",
    "script: [ define s() { set_field(\"%1\", x); new_record_request(); } ] script: [ define s2() { assert(y); } ]",
    "script: [ define s() { set_variable(x, \"%1\", z); } ]",
    "script: [ define s() { if(x == \"%1\") { assert(1); } elif(y) { assert(2); } else { assert(3); } assert(4); } ]",
    "script: [ define s() { if(x) { assert(1); } elif(\"%1\" == y) { assert(2); } else { assert(3); } assert(4); } ]",
    "script: [ define s() { loop { exit_loop_if(\"%1\" & x == y); assert(1); } assert(2); } ]",
    "script: [ define s() { set_variable(x, Min(Abs(\"%1\"), (2 + y)), 3); assert(1); } ]",
    "script: [ define s() { set_variable(x, (\"%1\")); loop { assert(1); } } ]",
    "test T:\n script: [ define s() { show_custom_dialog(\"%1\"); if(x) { assert(1); } } ],\nend test;\ntest U:\n script: [ define s() { assert(2); } ],\nend test;",
    "table A:\n f: Text, {\"%1\" & x},\n g: Number,\nend table;\ntable B:\n h: Text,\nend table;",
    "table A:\n f: Text, {Min(x, \"%1\")}, !{y != \"%1\"},\n g: Number,\nend table;\ntable_occurence O:\n table: A,\nend table_occurence;",
    "table A:\n f: Unique, Required, Text,\n \"%1\",\n g: Text,\nend table;\nvalue_list V:\n \"x\"\nend value_list;",
    "value_list V:\n \"a\", \"%1\", \"b\"\nend value_list;\ntable A:\n f: Text,\nend table;",
    "value_list V:\n \"%1\"\nend value_list;\nrelationship:\n A:B,\n x == y,\nend relationship;\nscript: [ define s() { assert(1); } ]",
    "script: [ define s() { set_variable(\"%1\", \"%2\"); assert(1); } ]",
    "script: [ define s() { show_custom_dialog(\"%1\" & \"%2\"); assert(1); } ]",
    "script: [ define s() { if(\"%1\" == x) { show_custom_dialog(\"%2\"); } assert(1); } define t() { assert(2); } ]",
    "test T:\n script: [ define s() { show_custom_dialog(\"%1\"); } ],\nend test;\nscript: [ define t() { show_custom_dialog(\"%2\"); } ]\ntable A:\n f: Text,\nend table;",
    "value_list V:\n \"%1\", \"%2\"\nend value_list;\ntable A:\n f: Text, {\"%1\"}, \"%2\",\nend table;\nscript: [ define t(a) { assert(x); } ]",
];
const PUNCT: &str = "[](){},;:=!<>+-*/&.'`$%#@\\|~^?_ a1\n\t\u{e9}\u{1f600}";
const WORDS: [&str; 56] = [
    "end", "script", "test", "table", "end test;", "end table;", "end script;", "end value_list;", "end relationship;", "]", "];", "],", "] ]", "}", "};", "}}", "} else {", "} elif(x) {", ");", "))", ") ;", ")) {",
    "(", "((", "( {", "{", "{{", "[", "[[", "[ define x() {", "define x() { assert(1); }", "loop {", "loop", "if(x) {", "else", "elif", "script: [", "test T:", "table X:", "relationship:", "value_list X:", "table_occurence X:",
    "a, b", ", ", ",,", ";", "; assert(0);", ": A", "::", "==", "!=", "!{x}", "{x}", "foundIn[x]", "// x", "/* x */",
];

fn subst(s: &Summary, f: &dyn Fn(&str) -> String) -> Summary {
    let mut s = s.clone();
    for sc in s.scripts.iter_mut().map(|x| &mut x.1).chain(s.tests.iter_mut().map(|x| &mut x.1)) {
        for st in sc.steps.iter_mut() { for a in st.1.iter_mut() { *a = f(a); } }
    }
    s
}
fn hole_case(ctx: &mut Ctx, t: usize, a: &str, b: &str) -> Result<(), String> {
    let plain = summary(&compile_burn(&HOLES[t].replace("%1", "QONEQ").replace("%2", "QTWOQ")), &trim);
    let n_items = plain.tables.len() + plain.occs.len() + plain.rels.len() + plain.lists.len() + plain.scripts.len() + plain.tests.len();
    if n_items < 1 { return Err("the template itself is not compiled".into()); }
    let put = |s: &str| s.replace("QONEQ", "\u{1}").replace("QTWOQ", "\u{2}").replace('\u{1}', a).replace('\u{2}', b);
    let want = subst(&plain, &put);
    let src = HOLES[t].replace("%1", "\u{1}").replace("%2", "\u{2}").replace('\u{1}', a).replace('\u{2}', b);
    let got = summary(&compile_burn(&src), &trim);
    ctx.states.add(h64(&(t, a, b)));
    ctx.transitions += want.scripts.iter().chain(&vec![]).map(|s| s.1.steps.len() as u64).sum::<u64>() + want.tests.iter().map(|s| s.1.steps.len() as u64).sum::<u64>() + n_items as u64;
    ctx.traces += 1;
    differ(&got, &want, &src)
}

fn c07() -> Prop {
    Prop { id: "C07", level: "model_checking",
        rule: "every text of up to 3 (thorough 4) characters over 39 characters (all punctuation, blank, line break, tab, letters) and every one of 56 keyword and punctuation words, in every literal position of 20 templates (sole, first, middle and last step argument, conditions, nested calls, test scripts, field calculations, validations and descriptions, value lists); every ordered pair of words in the templates with two literals, every word followed or preceded by every character, and texts of every length to 300 and around limits to 65,537, also followed by a text of punctuation; up to 40, and around limits to 4,097, texts of 10 kinds in one argument, one step and one script; every character that resembles ASCII punctuation or a blank (1,900) alone and with others, and every character of Unicode in texts of 1,024 (thorough 32). The compiled file must equal that of the same source with a plain word in the literal. States are distinct (template, text) pairs.",
        assumptions: &["texts do not contain the quotation mark, which has no escape in the language"],
        run: |ctx| {
            let ctx_quick = ctx.quick();
            let ch: Vec<char> = PUNCT.chars().collect();
            let maxl = ctx.by(3, 4);
            for n in 0..=maxl { for k in 0..(ch.len() as u64).pow(n as u32) {
                ctx.case(|| format!("text {:?}", super::props_calc::digits(k, ch.len() as u64, n).iter().map(|i| ch[*i]).collect::<String>()), |ctx| {
                    let s: String = super::props_calc::digits(k, ch.len() as u64, n).iter().map(|i| ch[*i]).collect();
                    for t in 0..HOLES.len() { hole_case(ctx, t, &s, "w")?; if HOLES[t].contains("%2") { hole_case(ctx, t, "w", &s)?; hole_case(ctx, t, &s, &s)?; } }
                    Ok(())
                });
            } }
            for a in WORDS { for b in WORDS {
                ctx.case(|| format!("words {:?} and {:?}", a, b), |ctx| {
                    for t in 0..HOLES.len() { if HOLES[t].contains("%2") { hole_case(ctx, t, a, b)?; } else { hole_case(ctx, t, &format!("{}{}", a, b), "")?; hole_case(ctx, t, &format!("{} {}", a, b), "")?; } }
                    Ok(())
                });
            } }
            for n in (4..=300usize).chain(THRESHOLDS.into_iter().filter(|n| *n > 300)) {
                ctx.case(|| format!("texts of {} characters", n), |ctx| {
                    for unit in ["abcdefg h", "é,", "x)]}", "  ", "😀;"] {
                        let s: String = unit.chars().cycle().take(n).collect();
                        for t in 0..HOLES.len() { hole_case(ctx, t, &s, "w")?; if HOLES[t].contains("%2") { hole_case(ctx, t, "w", &s)?; hole_case(ctx, t, &s, "a), (b}]; c")?; } }
                    }
                    Ok(())
                });
            }
            // many texts in one argument, one step, one script
            for n in (2..=40usize).chain(THRESHOLDS.into_iter().filter(|n| *n > 40 && *n <= 5000)) { for text in ["w", "a, b", ")", "(", "}", "]", "; assert(0);", "{", "\n", ""] {
                ctx.case(|| format!("{} texts {:?}", n, text), |ctx| {
                    let list = |sep: &str| (0..n).map(|_| format!("\"{}\"", text)).collect::<Vec<_>>().join(sep);
                    let srcs = [
                        (format!("script: [ define s() {{ set_variable(x, {}, y); assert(1); }} ]", list(" & ")), vec![vec!["x".to_string(), list(" & "), "y".into()], vec!["1".into()]]),
                        (format!("script: [ define s() {{ set_variable(x, {}, y); assert(1); }} ]", list(", ")), vec![std::iter::once("x".to_string()).chain((0..n).map(|_| format!("\"{}\"", text))).chain(["y".to_string()]).collect(), vec!["1".into()]]),
                        (format!("script: [ define s() {{ {} }} ]", (0..n).map(|i| format!("assert(\"{}\", {});", text, i)).collect::<Vec<_>>().join("\n")), (0..n).map(|i| vec![format!("\"{}\"", text), i.to_string()]).collect()),
                    ];
                    for (src, want) in srcs {
                        let got = summary(&compile_burn(&src), &trim);
                        ctx.states.add(h64(&src));
                        ctx.transitions += want.len() as u64;
                        let have: Vec<Vec<String>> = got.scripts.iter().flat_map(|s| s.1.steps.iter().map(|st| st.1.clone())).collect();
                        let want: Vec<Vec<String>> = want.into_iter().map(|st| st.into_iter().map(|a| trim(&a)).collect()).collect();
                        if got.scripts.len() != 1 || have != want { return Err(format!("a script is compiled as {} scripts with {} steps with other arguments\n{:.500}", got.scripts.len(), have.len(), src)); }
                    }
                    Ok(())
                });
            } }
            use super::props_calc::{every_char, look_alike};
            for c in every_char().filter(|c| look_alike(*c) || (!ctx_quick && (*c as u32) < 0x3000 && *c != '"')) {
                ctx.case(|| format!("character {:?}", c), |ctx| {
                    for s in [c.to_string(), format!("{},b", c), format!("a{}", c), format!("){}]", c)] {
                        for t in 0..HOLES.len() { hole_case(ctx, t, &s, "w")?; if HOLES[t].contains("%2") { hole_case(ctx, t, "w", &s)?; hole_case(ctx, t, &s, &s)?; } }
                    }
                    Ok(())
                });
            }
            let all: Vec<char> = every_char().filter(|c| *c != '"').collect();
            for l in all.chunks(ctx.by(1024, 32)) {
                ctx.case(|| format!("{} characters from {:?}", l.len(), l[0]), |ctx| {
                    let s: String = l.iter().collect();
                    for t in 0..HOLES.len() { hole_case(ctx, t, &s, "w")?; if HOLES[t].contains("%2") { hole_case(ctx, t, "w", &s)?; } }
                    Ok(())
                });
            }
            for a in WORDS { for c in &ch {
                ctx.case(|| format!("word {:?} and character {:?}", a, c), |ctx| {
                    for t in 0..HOLES.len() { hole_case(ctx, t, &format!("{}{}", a, c), a)?; hole_case(ctx, t, &format!("{}{}", c, a), &c.to_string())?; }
                    Ok(())
                });
            } }
        } }
}

// ---------------------------------------------------------------- C05

/// Tokens of a source: text literals, words with their :: and dots, two-character operators, characters.
fn toks(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
    while i < c.len() {
        if c[i].is_whitespace() { i += 1; continue; }
        let mut t = String::new();
        if c[i] == '"' {
            t.push('"'); i += 1;
            while c[i] != '"' { t.push(c[i]); i += 1; }
            t.push('"'); i += 1;
        } else if word(c[i]) {
            while i < c.len() && (word(c[i]) || (c[i] == ':' && i + 1 < c.len() && c[i + 1] == ':') || (c[i] == ':' && c[i - 1] == ':')) { t.push(c[i]); i += 1; }
        } else {
            t.push(c[i]); i += 1;
            if i < c.len() && c[i] == '=' && "=!<>".contains(c[i - 1]) { t.push('='); i += 1; }
        }
        v.push(t);
    }
    v
}
const FILL: [&str; 6] = [" ", "\n", "\t", "  ", " \n\t", "\r\n"];
/// The white space that may stand in the gap before token i (the last two gaps lie at the ends).
fn gap(t: &[String], i: usize) -> Vec<&'static str> {
    let word = |s: Option<char>| s.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let must = i > 0 && i < t.len() && word(t[i - 1].chars().last()) && word(t[i].chars().next());
    let mut v: Vec<&'static str> = if must { vec![] } else { vec![""] };
    v.extend(FILL);
    v
}
fn spaced(t: &[String], g: &[&str]) -> String {
    let mut s = String::new();
    for i in 0..t.len() { s.push_str(g[i]); s.push_str(&t[i]); }
    s.push_str(g[t.len()]);
    s
}

struct Tmpl { src: &'static str, runs: Option<fn() -> Vec<Expected>> }
fn exp(name: &str, d: Vec<V>, pass: bool) -> Expected { Expected { name: name.into(), dialogs: d, pass } }
fn tv(s: &str) -> V { V::Text(s.into()) }
const TMPL: [Tmpl; 7] = [
    Tmpl { src: "table Person: primaryKey: Unique, Required, Text, {get(uuid)}, !{!isEmpty(primaryKey)}, \"Used as { a } key\", firstName: Text, sex: Text, foundIn[male_female], age: Number, {Abs(\"x }\" & 3)}, \"d\" end table; table_occurence Person: table: Person, end table_occurence; table Job: PrimaryKey: Text, end table;", runs: None },
    Tmpl { src: "value_list male_female: \"male\", \"fe male\" end value_list; relationship: Person:Job, jobid == PrimaryKey, end relationship; table_occurence Job2: table: Job end table_occurence; value_list b: \"x\", end value_list; relationship: A:B, x <= y, p != q, z > w, end relationship; table C: end table;", runs: None },
    Tmpl { src: "script: [ define basic(x, y) { set_variable(i, x); loop { exit_loop_if(i == y); set_variable(i, i + 1); if(i < Min(3, \"a b\", 4)) { perform_script(\"o p\"); } elif((i)) { go_to_layout(\"l\"); } else { perform_find(); } } exit_script(i); } define two() { } ] script: [ define three(a) { assert(a); } ]", runs: None },
    Tmpl { src: "test T1: script: [ define t() { set_variable(x, 2); show_custom_dialog(\"a, b\" & x); } ], end test; script: [ define s(q) { show_custom_dialog(q); } ] test T2: script: [ define u() { assert(1 == 1); show_custom_dialog(\"z\"); } ] end test;",
        runs: Some(|| vec![exp("T1", vec![tv("a, b2")], true), exp("T2", vec![tv("z")], true)]) },
    Tmpl { src: "test Calc: script: [ define t() { set_variable(x, 1 + 2 * (3 - 1) / 4); show_custom_dialog(x); show_custom_dialog(x & \" y  z \" & x); show_custom_dialog(Abs(3 - 5)); show_custom_dialog((Acos(4 - 3))); assert(x + 1 == 3); } ], end test;",
        runs: Some(|| vec![exp("Calc", vec![V::Num(2.0), tv("2 y  z 2"), V::Num(2.0), V::Num(0.0)], true)]) },
    Tmpl { src: "test Flow: script: [ define t() { set_variable(i, 0); loop { exit_loop_if(i >= 2); set_variable(i, i + 1); if(i == 1) { show_custom_dialog(\"one\"); } elif(i == 3) { show_custom_dialog(\"three\"); } else { show_custom_dialog(\"else\"); } exit_loop_if(i == 7); } assert(i == 2); } ], end test;",
        runs: Some(|| vec![exp("Flow", vec![tv("one"), tv("else")], true)]) },
    Tmpl { src: "test Rec: script: [ define t() { new_record_request(); set_field(tab::fa, \"p q\"); new_record_request(); set_field(tab::fa, \"r\"); go_to_record(\"first\"); show_custom_dialog(tab::fa); go_to_record(\"next\"); show_custom_dialog(tab::fa & tab::fb); perform_script(\"sub\"); } ], end test; script: [ define sub() { show_custom_dialog(\"in sub\"); } ]",
        runs: Some(|| vec![exp("Rec", vec![tv("p q"), tv("r"), tv("in sub")], true)]) },
];
const SINGLE_RUN: usize = 3; // templates from here on are also run
const LOOPS: usize = 5; // ... but this one only with one gap changed: its loop may become endless

fn white_case(ctx: &mut Ctx, t: usize, base: &Summary, src: &str, run: bool) -> Result<(), String> {
    let f = compile_burn(src);
    ctx.states.add(h64(src));
    ctx.transitions += 1;
    ctx.traces += 1;
    let got = summary(&f, &squeeze);
    differ(&got, base, src)?;
    // argument texts carry no surrounding white space
    for s in f.scripts.values().chain(f.tests.iter().map(|t| &t.script)) { for i in &s.instructions { for w in &i.switches {
        if w.trim() != w { return Err(format!("the argument {:?} keeps its surrounding white space\n{}", w, src)); }
    } } }
    if let (true, Some(want)) = (run, TMPL[t].runs) {
        let mut file = build_file(&fm::schema_calc());
        fm::add_burn(&mut file, src);
        let want = want();
        judge(ctx, true, &|v| session(v, &file, &[]), &|r| check(&parse_output(&r.raw), &want)).map_err(|e| format!("{}\n{}", e, src))?;
    }
    Ok(())
}

fn c05() -> Prop {
    Prop { id: "C05", level: "model_checking",
        rule: "seven sources covering every construct; every gap between two tokens (and both ends) with every one of 7 fillers (none where the tokens need no separation, blank, line break, tab, two blanks, mixture, CR LF), every pair of gaps with every pair of fillers (thorough; quick: with the fillers none, line break and tab), gaps of many blanks, every interval of gaps filled alike, and alternating fillings. The compiled file must be that of the ordinary layout, and the tests (single gaps, intervals at an end) must run alike. States are distinct source texts.",
        assumptions: &["argument texts are compared without the white space outside of text literals", "a field reference a::b is one token"],
        run: |ctx| {
            for (ti, t) in TMPL.iter().enumerate() {
                let tk = toks(t.src);
                let n = tk.len() + 1;
                let base_gaps: Vec<&str> = (0..n).map(|i| if gap(&tk, i)[0] == "" { "" } else { " " }).collect();
                let base = summary(&compile_burn(t.src), &squeeze);
                // in the ordinary layout and without any white space that is not needed
                for i in 0..n { for f in gap(&tk, i) { for wide in [false, true] {
                    if wide { // all other gaps as in the ordinary layout: one blank
                        ctx.case(|| format!("source {} gap {} {:?} among blanks", ti, i, f), |ctx| {
                            let mut g: Vec<&str> = vec![" "; n]; g[i] = f;
                            white_case(ctx, ti, &base, &spaced(&tk, &g), ti >= SINGLE_RUN)
                        });
                    } else {
                        ctx.case(|| format!("source {} gap {} {:?}", ti, i, f), |ctx| {
                            let mut g = base_gaps.clone(); g[i] = f;
                            white_case(ctx, ti, &base, &spaced(&tk, &g), ti >= SINGLE_RUN)
                        });
                    }
                } } }
                for i in 0..n { for j in i + 1..n {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    ctx.case(|| format!("source {} gaps {} and {}", ti, i, j), |ctx| {
                        let (a, b) = (gap(&tk, i), gap(&tk, j));
                        let few = ctx.quick();
                        let pick = |v: &Vec<&'static str>| -> Vec<&'static str> { if few { v.iter().filter(|f| ["", "\n", "\t"].contains(f)).copied().collect() } else { v.clone() } };
                        for f in pick(&a) { for h in pick(&b) { for wide in [false, true] {
                            let mut g = if wide { vec![" "; n] } else { base_gaps.clone() };
                            g[i] = f; g[j] = h;
                            white_case(ctx, ti, &base, &spaced(&tk, &g), false)?;
                        } } }
                        // everything between the two alike
                        for f in FILL.iter().copied().chain([""]) {
                            let mut g: Vec<&str> = vec![" "; n];
                            for x in i..=j { if f != "" || gap(&tk, x)[0] == "" { g[x] = f; } }
                            white_case(ctx, ti, &base, &spaced(&tk, &g), ti >= SINGLE_RUN && ti != LOOPS && (i == 0 || j == n - 1))?;
                        }
                        Ok(())
                    });
                } }
                for i in 0..n {
                    ctx.case(|| format!("source {} gap {} of many blanks", ti, i), |ctx| {
                        let top = ctx.by(600, 5000);
                        for unit in [" ", "\n", "\t", "\r\n"] { for k in (3..=12usize).chain(THRESHOLDS.into_iter().filter(|k| *k < top)) {
                            let long = unit.repeat(k);
                            let mut g: Vec<&str> = base_gaps.clone(); g[i] = &long;
                            white_case(ctx, ti, &base, &spaced(&tk, &g), false)?;
                        } }
                        Ok(())
                    });
                }
                for k in 3..=40usize {
                    ctx.case(|| format!("source {} all gaps of {} blanks", ti, k), |ctx| {
                        for unit in [" ", "\n", "\t", "\r\n"] {
                            let long = unit.repeat(k);
                            white_case(ctx, ti, &base, &spaced(&tk, &vec![long.as_str(); n]), ti >= SINGLE_RUN && ti != LOOPS && unit == " ")?;
                        }
                        Ok(())
                    });
                }
                for a in 0..7usize { for b in 0..7usize { for c in 0..7usize {
                    ctx.case(|| format!("source {} alternating {} {} {}", ti, a, b, c), |ctx| {
                        let g: Vec<&str> = (0..n).map(|x| { let v = gap(&tk, x); let k = [a, b, c][x % 3]; v[k.min(v.len() - 1)] }).collect();
                        white_case(ctx, ti, &base, &spaced(&tk, &g), ti >= SINGLE_RUN && ti != LOOPS)
                    });
                } } }
            }
        } }
}

// ---------------------------------------------------------------- C18

const KINDS: usize = 16;
/// The k-th kind of declaration, as number i, with the given name.
fn decl(k: usize, name: &str, i: usize, w: &mut Summary) -> String {
    let ass = |x: String| Scr { name: x, args: vec![], steps: vec![("Assert".into(), vec![format!("x == {}", i)])] };
    let mut table = |body: String| { w.tables.push((w.tables.len() + 1, name.into())); format!("table {}:\n{}end table;\n", name, body) };
    match k {
        0 => table(String::new()),
        1 => table("  f: Text,\n  g: Number,\n".into()),
        2 => table("  primaryKey: Unique, Required, Text, {get(uuid)},\n  !{!isEmpty(primaryKey) & \"}\"},\n  \"Used as a key; end table\",\n\n  other: Text, foundIn[colours],\n".into()),
        3 => table("  a: Date, !\"failed ( message\",\n  test: Timestamp,\n  script: Container\n".into()),
        4 | 5 => {
            let base = if k == 4 { format!("Base{}", i) } else { name.to_string() };
            w.occs.push((w.occs.len(), name.into(), base.clone()));
            format!("table_occurence {}:\n  table: {}{}\nend table_occurence;\n", name, base, if k == 4 { "," } else { "" })
        }
        6 | 7 => {
            let (a, b) = if k == 6 { (format!("L{}", i), name.to_string()) } else { (name.to_string(), name.to_string()) };
            w.rels.push((w.rels.len() + 1, a.clone(), b.clone()));
            format!("relationship:\n  {}:{},\n  jobid == PrimaryKey,\n{}end relationship;\n", a, b, if k == 6 { "  x >= y,\n  p != q,\n" } else { "" })
        }
        8 | 9 | 10 => {
            w.lists.push((w.lists.len() + 1, name.into()));
            let body = ["  \"male\", \"female\"\n", "  \"one, two\",\n  \"end value_list;\",\n", "  \"[ { (\", \"\", \"a\n] end value_list;\ntable \"\n"][k - 8];
            format!("value_list {}:\n{}end value_list;\n", name, body)
        }
        11 => { let s = ass(name.into()); w.scripts.push((w.scripts.len() + 1, s)); format!("script: [\n  define {}() {{ assert(x == {}); }}\n]\n", name, i) }
        12 => {
            let s = ass(name.into()); w.scripts.push((w.scripts.len() + 1, s));
            w.scripts.push((w.scripts.len() + 1, Scr { name: format!("q{}", i), args: vec!["a".into(), "b".into()], steps: vec![("If".into(), vec!["a == \"]\"".into()]), ("EndIf".into(), vec![])] }));
            format!("script: [\n  define {}() {{ assert(x == {}); }}\n  define q{}(a, b) {{ if(a == \"]\") {{ }} }}\n]\n", name, i, i)
        }
        13 => "script: [\n]\n".into(),
        14 => { w.tests.push((name.into(), ass("t".into()))); format!("test {}:\n  script: [ define t() {{ assert(x == {}); }} ],\nend test;\n", name, i) }
        _ => {
            w.tests.push((name.into(), Scr { name: name.into(), args: vec![], steps: vec![] }));
            format!("test {}:\n  script: [\n define {}() {{ }} ]\nend test;\n", name, name)
        }
    }
}
const DNAMES: [&str; 28] = ["Person", "p", "tables", "table1", "my_table", "Table", "ended", "end2", "END", "endpoint", "testing", "test_1", "scripts", "script_x", "relationship2", "value_lists", "value_list2",
    "table_occurences", "nan", "inf", "infinity", "NaN", "e1", "_x", "foundIn", "Unique", "caf\u{e9}", "\u{540d}\u{524d}"];

fn decl_case(ctx: &mut Ctx, ks: &[(usize, String)], sep: &str) -> Result<(), String> {
    let mut want = Summary::default();
    let mut src = String::new();
    for (i, (k, n)) in ks.iter().enumerate() { src.push_str(&decl(*k, n, i, &mut want)); src.push_str(sep); }
    let f = compile_burn(&src);
    ctx.states.add(h64(&want));
    ctx.transitions += ks.len() as u64;
    ctx.traces += 1;
    let got = summary(&f, &trim);
    differ(&got, &want, &src)?;
    // the same through the description that is written
    let j: serde_json::Value = serde_json::from_str(&serde_json::to_string(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    for (k, n) in [("tables", want.tables.len()), ("table_occurrences", want.occs.len()), ("relationships", want.rels.len()), ("value_lists", want.lists.len()), ("scripts", want.scripts.len())] {
        let got = j[k].as_object().map(|o| o.len()).unwrap_or(usize::MAX);
        if got != n { return Err(format!("the description lists {} {} instead of {}\n{}", got, k, n, src)); }
    }
    if j["tests"].as_array().map(|a| a.len()) != Some(want.tests.len()) { return Err(format!("wrong number of tests in the description\n{}", src)); }
    Ok(())
}

fn c18() -> Prop {
    Prop { id: "C18", level: "model_checking",
        rule: "every sequence of up to 4 (thorough 5) declarations over 16 kinds (tables, table occurrences, relationships, value lists, script blocks and tests with different bodies), distinctly named; every kind with every one of 28 names (keyword prefixes, number-like words, non-ASCII letters), alone and before and after every other kind; every sequence of up to 3 with every assignment of 2 names, so also repeated names; up to 300 declarations of each kind and of kinds in rotation, names of many lengths; names made of each of 17 keywords in 4 spellings with something before or after and of their parts, and of every letter of Unicode; every choice of the empty scripts and tests among up to 5 (thorough 8). States are distinct expected files, transitions declarations.",
        assumptions: &["ids: table occurrences are numbered from 0, other components from 1, in declaration order", "field definitions, value list entries and relationship criteria are not compiled by the tool"],
        run: |ctx| {
            let maxn = ctx.by(4, 5);
            for n in 0..=maxn { for k in 0..(KINDS as u64).pow(n as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("kinds {:?}", super::props_calc::digits(k, KINDS as u64, n)), |ctx| {
                    let ks: Vec<(usize, String)> = super::props_calc::digits(k, KINDS as u64, n).into_iter().enumerate().map(|(i, k)| (k, format!("N{}", i))).collect();
                    decl_case(ctx, &ks, ["", "\n", "\n\n  \t"][n % 3])
                });
            } }
            for name in DNAMES { for k in 0..KINDS {
                ctx.case(|| format!("name {} kind {}", name, k), |ctx| {
                    decl_case(ctx, &[(k, name.to_string())], "")?;
                    for o in 0..KINDS { for n2 in DNAMES {
                        decl_case(ctx, &[(k, name.to_string()), (o, n2.to_string())], "")?;
                        decl_case(ctx, &[(o, "N".into()), (k, name.to_string()), (o, n2.to_string())], "\n")?;
                    } }
                    Ok(())
                });
            } }
            // keywords with something before or after, in every spelling, and letters of every script
            const KEYS: [&str; 17] = ["table", "relationship", "value_list", "table_occurence", "script", "test", "end", "define", "let", "loop", "if", "elif", "else", "foundIn", "found_in", "assertions", "assert"];
            for key in KEYS {
                let cap: String = key.chars().take(1).flat_map(|c| c.to_uppercase()).chain(key.chars().skip(1)).collect();
                let spellings: Vec<String> = [key.to_string(), key.to_uppercase(), cap, key.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<String>()].to_vec();
                let mut names: Vec<String> = vec![];
                for s in &spellings {
                    names.push(s.clone());
                    for x in ["_", "__", "s", "1", "_1", "e", "\u{e9}", "X", "Name", "_name", "."] { names.push(format!("{}{}", s, x)); }
                    for x in ["_", "__", "x", "my_", "\u{e9}", "The", "un"] { names.push(format!("{}{}", x, s)); }
                    for o in KEYS { names.push(format!("{}{}", s, o)); names.push(format!("{}_{}", s, o)); }
                    for i in 1..s.len() { names.push(s[..i].to_string()); names.push(s[i..].to_string()); }
                }
                for (i, n) in names.into_iter().enumerate() {
                    if KEYS.contains(&n.as_str()) || n.starts_with(|c: char| c.is_ascii_digit()) || n.is_empty() { continue; }
                    ctx.case(|| format!("name {}", n), |ctx| {
                        for k in 0..KINDS {
                            decl_case(ctx, &[(k, n.clone())], "")?;
                            decl_case(ctx, &[(k, n.clone()), ((i + k) % KINDS, format!("{}2", n))], "\n")?;
                        }
                        Ok(())
                    });
                }
            }
            let letters: Vec<char> = super::props_calc::every_char().filter(|c| c.is_alphabetic()).collect();
            for l in letters.chunks(ctx.by(512, 32)) {
                ctx.case(|| format!("names with {} letters from {:?}", l.len(), l[0]), |ctx| {
                    for k in 0..KINDS {
                        let s: String = l.iter().collect();
                        decl_case(ctx, &[(k, s.clone()), (0, format!("x{}", s))], "\n")?;
                        if l[0] < '\u{250}' { for c in l { decl_case(ctx, &[(k, c.to_string()), (0, format!("x{}", c)), (k, format!("{}x", c))], "\n")?; } }
                    }
                    Ok(())
                });
            }
            // scripts and tests without steps, everywhere in a block
            for n in 0..=ctx.by(5u32, 8) { for mask in 0..1u32 << n { for extra in 0..=n {
                ctx.case(|| format!("{} scripts, empty ones {:b}, {} arguments", n, mask, extra), |ctx| {
                    let mut want = Summary::default();
                    let mut src = "script: [\n".to_string();
                    for i in 0..n {
                        let args: Vec<String> = (0..(i + extra) % (n + 1)).map(|a| format!("a{}", a)).collect();
                        let empty = mask >> i & 1 == 1;
                        let steps = if empty { vec![] } else { vec![("Assert".to_string(), vec![format!("x == {}", i)])] };
                        src.push_str(&format!("define s{}({}) {{ {} }}\n", i, args.join(", "), if empty { String::new() } else { format!("assert(x == {});", i) }));
                        want.scripts.push((i as usize + 1, Scr { name: format!("s{}", i), args: args, steps }));
                    }
                    src.push_str("]\n");
                    for i in 0..n {
                        let empty = mask >> i & 1 == 1;
                        want.tests.push((format!("t{}", i), Scr { name: "t".into(), args: vec![], steps: if empty { vec![] } else { vec![("Assert".to_string(), vec!["1".to_string()])] } }));
                        src.push_str(&format!("test t{}:\n script: [ define t() {{ {} }} ],\nend test;\n", i, if empty { "" } else { "assert(1);" }));
                    }
                    differ(&summary(&compile_burn(&src), &trim), &want, &src)?;
                    ctx.states.add(h64(&want)); ctx.transitions += n as u64; ctx.traces += 1;
                    Ok(())
                });
            } } }
            for n in 2..=3usize { for k in 0..(2 * KINDS as u64).pow(n as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("kinds and two names {:?}", super::props_calc::digits(k, 2 * KINDS as u64, n)), |ctx| {
                    let ks: Vec<(usize, String)> = super::props_calc::digits(k, 2 * KINDS as u64, n).into_iter().map(|x| (x / 2, if x % 2 == 0 { "same".to_string() } else { "other".to_string() })).collect();
                    decl_case(ctx, &ks, "")
                });
            } }
            for n in (5..=40usize).chain([50]).chain(THRESHOLDS.into_iter().filter(|n| *n > 60 && *n < 5000)) { for k in 0..=KINDS {
                ctx.case(|| format!("{} declarations of kind {}", n, k), |ctx| {
                    let ks: Vec<(usize, String)> = (0..n).map(|i| (if k == KINDS { i * 7 % KINDS } else { k }, format!("N{}", i))).collect();
                    decl_case(ctx, &ks, "\n")
                });
            } }
            for n in (20..=140usize).chain(THRESHOLDS.into_iter().filter(|n| *n > 140)) { for k in 0..KINDS {
                ctx.case(|| format!("names of {} characters, kind {}", n, k), |ctx| {
                    let name: String = "name_12".chars().cycle().take(n).collect();
                    decl_case(ctx, &[(k, name.clone()), ((k + 5) % KINDS, "N".into()), (k, format!("{}z", &name[..n - 1]))], "\n")
                });
            } }
        } }
}

// ---------------------------------------------------------------------------- C30

fn compiles_or_not(ctx: &mut Ctx, src: &str) {
    ctx.alive();
    ctx.states.add(h64(src));
    ctx.transitions += 1;
    let r = std::panic::catch_unwind(|| { compile_burn(src); });
    ctx.count(if r.is_ok() { "compiled" } else { "ended_with_an_error" }, 1);
}
/// Declarations of every kind in one source.
const EVERYTHING: &str = "table T: fields: [ a = { datatype := Text, required := true, calculated_val := { b & \" x\" } }, b = { datatype := Number, unique := true } ], end table; table_occurrence O: T end table_occurrence; table_occurrence P: T end table_occurrence; relation R: O::a = P::b end relation; value_list V: \"one\", \"two\" end value_list; layout L: O end layout; script: [ define s(x, y) { if (x == 1) { show_custom_dialog(\"a\", Min(x, y)); } elif (x >= 2) { exit_script(y); } else { loop { exit_loop_if(x != 3); } } } ] test A: script: [ define t() { assert(1 + (2 * 3) == 7); } ], end test;";

fn c30() -> Prop {
    Prop {
        id: "C30", level: "fault_enumeration",
        rule: "8 well-formed sources with every construct, with every fault of: the source cut off after each character, and begun at each; each character removed, replaced by or preceded by each of 39 characters; every part between two places left out; each token removed, repeated at every place and exchanged with every other; and every sequence of up to 3 (thorough 4) of 40 tokens alone, inside of a table, a field, a script, an argument list and a test.  Each is compiled; using more than 15 s of processor time or 1 GB of memory is a violation. evaluations = sources compiled, distinct_nontrivial = distinct sources.",
        assumptions: &["Ending with a panic counts as reporting an error."],
        run: |ctx: &mut Ctx| {
            super::sys::limit(1 << 30, 1 << 30);
            let sources: Vec<&str> = TMPL.iter().map(|t| t.src).chain([EVERYTHING]).collect();
            const CHARS: &str = "[](){},;:=!<>+-*/&.'\"$%#@\\|_ a1\n\té€\0\u{feff}\u{201c}\u{2260}\u{a0}";
            for (n, src) in sources.iter().enumerate() {
                let c: Vec<char> = src.chars().collect();
                let text = |v: &[char]| v.iter().collect::<String>();
                for i in 0..=c.len() {
                    let c = &c;
                    ctx.case(|| format!("source {} damaged at character {}", n, i), |ctx| {
                        compiles_or_not(ctx, &text(&c[..i]));
                        compiles_or_not(ctx, &text(&c[i..]));
                        for x in CHARS.chars() {
                            compiles_or_not(ctx, &format!("{}{}{}", text(&c[..i]), x, text(&c[i..])));
                            if i < c.len() { compiles_or_not(ctx, &format!("{}{}{}", text(&c[..i]), x, text(&c[i + 1..]))); }
                            compiles_or_not(ctx, &format!("{}{}", text(&c[..i]), x));
                        }
                        for j in i + 1..=c.len() { compiles_or_not(ctx, &format!("{}{}", text(&c[..i]), text(&c[j..]))); }
                        Ok(())
                    });
                }
                let t = toks(src);
                for i in 0..t.len() {
                    let t = &t;
                    ctx.case(|| format!("source {} token {} repeated or exchanged", n, i), |ctx| {
                        for j in 0..t.len() {
                            let mut v = t.clone();
                            v.insert(j, t[i].clone());
                            compiles_or_not(ctx, &v.join(" "));
                            let mut v = t.clone();
                            v.swap(i, j);
                            compiles_or_not(ctx, &v.join(" "));
                            let mut v = t.clone();
                            v[j] = t[i].clone();
                            compiles_or_not(ctx, &v.join(" "));
                        }
                        Ok(())
                    });
                }
            }
            const TOKENS: [&str; 40] = ["table", "fields", "end", "relation", "table_occurrence", "value_list", "layout", "script", "test", "define", "if", "elif", "else", "loop",
                "exit_loop_if", "set_variable", "x", "1", "\"t\"", "\"", "[", "]", "(", ")", "{", "}", ":", ";", ",", "=", "==", ":=", "::", ".", "+", "!", "&", "datatype", "Text", "assert"];
            const AROUND: [(&str, &str); 7] = [("", ""), ("table T: ", " end table;"), ("table T: fields: [ a = {", "} ], end table;"), ("script: [ define s() {", "} ]"), ("script: [ define s() { if (", ") { } } ]"),
                ("script: [ ", " ]"), ("test A: ", " end test;")];
            for l in 1..=ctx.by(3usize, 4) {
                for first in 0..40usize {
                    ctx.case(|| format!("sequences of {} tokens from {}", l, TOKENS[first]), |ctx| {
                        for i in 0..40u64.pow(l as u32 - 1) {
                            let s: Vec<&str> = std::iter::once(first).chain(digits(i, 40, l - 1)).map(|d| TOKENS[d]).collect();
                            for (a, b) in AROUND {
                                compiles_or_not(ctx, &format!("{}{}{}", a, s.join(" "), b));
                                if l < 3 { compiles_or_not(ctx, &format!("{}{}", a, s.join(" "))); compiles_or_not(ctx, &format!("{}{}{}", a, s.join(""), b)); }
                            }
                        }
                        Ok(())
                    });
                }
            }
        },
    }
}

pub fn props() -> Vec<Prop> { vec![c05(), c06(), c07(), c18(), c30(), c31()] }

// ---------------------------------------------------------------------------- C31

/// Faulty declarations: what is wrong, and the text (N: the name).
fn faulty() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    const WORDS: [&str; 7] = ["table", "table_occurence", "relationship", "value_list", "test", "script", "define"];
    for (word, head, bodies) in [
        ("table", "table N:\n", &["", "  f: Text,\n  g: Date,\n", "  k: Unique, Required, Text, {get(uuid)},\n  !{!isEmpty(k) & \"}\"},\n  \"Used as a key; end table;\",\n", "  a: Date, foundIn[colours],\n"][..]),
        ("table_occurence", "table_occurence N:\n", &["  table: Person\n", "  table: N,\n", ""][..]),
        ("relationship", "relationship:\n", &["  N:M,\n  jobid == PrimaryKey,\n", "  A:N,\n  x >= y,\n  p != q,\n", "", "  N:N\n"][..]),
        ("value_list", "value_list N:\n", &["", "  \"male\", \"female\"\n", "  \"one, two\",\n  \"end value_list;\",\n"][..]),
        ("test", "test N:\n", &["  script: [ define t() { assert(1 == 1); } ],\n", "  script: [ define t() { if(a == \"]\") { assert(1 == 1); } } ]\n", ""][..]),
    ] {
        for body in bodies {
            for other in WORDS { if other != word { v.push((format!("{} ended as {}", word, other), format!("{}{}end {};\n", head, body, other))); } }
            for other in ["N", "tables", "", "\"table\"", ":", ",", "12", "1st", "{ N }"] { v.push((format!("{} ended with {:?}", word, other), format!("{}{}end {};\n", head, body, other))); }
            for semi in ["", ",", ":", "]", " N", " end", " 1;"] { v.push((format!("{} ended with {:?} for a semicolon", word, semi), format!("{}{}end {}{}\n", head, body, word, semi))); }
            if word != "relationship" {
                for name in ["", "1st", "12", "table", "end", "script", "test", "relationship", ",", "[", "\"N\"", "=="] {
                    v.push((format!("{} named {:?}", word, name), format!("{}{}end {};\n", head.replace("N", name), body, word)));
                }
            } else {
                for colon in ["", " N", ",", ";", "=="] { v.push((format!("relationship{} for the colon", colon), format!("relationship{}\n{}end relationship;\n", colon, body))); }
            }
        }
    }
    for t in ["table N", "table", "table;", "table: ", "table: ,", "table: end", "table: \"Person\"", "table: table", "table , Person"] { v.push((format!("occurrence of {:?}", t), format!("table_occurence N:\n  {}\nend table_occurence;\n", t))); }
    for block in ["script [ define N() { assert(1 == 1); } ]", "script: define N() { assert(1 == 1); } ]", "script, [ define N() { assert(1 == 1); } ]", "script N: [ define N() { } ]", "script: ( define N() { } ]", "script: { define N() { } }",
        "script: [ define N() { assert(1 == 1) } ]", "script: [ define N() { assert(1 == 1) assert(2 == 2); } ]", "script: [ define N() { set_variable(a, 1), } ]", "script: [ define N() { if(a == 1) assert(1 == 1); } ]",
        "script: [ define N() { if(a == 1) { assert(1 == 1); } elif(a == 2) assert(1 == 1); } ]", "script: [ define N() { if(a == 1); { } } ]", "script: [ define N() { loop { assert(1 == 1) } } ]", "script: [ define N() { loop { if(1) exit_loop_if(1); } } ]"] {
        v.push((format!("block {:?}", block), format!("{}\n", block)));
        if !block.contains("script N") {
            v.push((format!("test with {:?}", block), format!("test T:\n  {},\nend test;\n", block)));
            v.push((format!("test with {:?}", block), format!("test T:\n  {}\nend test;\n", block)));
        }
    }
    for n in 2..=5usize { v.push((format!("a test with {} scripts", n), format!("test N:\n  script: [ {} ],\nend test;\n", (0..n).map(|i| format!("define s{}() {{ assert(1 == 1); }}", i)).collect::<Vec<_>>().join("\n")))); }
    v.push(("a test without a script".into(), "test N:\n  script: [ ],\nend test;\n".into()));
    for t in ["N", "end", "end table;", "N:", ";", ":", ",", "]", "}", "\"N\"", "12", "define N() { }", "tables N:\nend tables;", "fields N;", "N N N", "==", "{ }", "[ ]", "assertion", "Text", "Unique", "( )", "1st", "0x1F", "3%", "1.5.2", "1_000", "-3", "\"\"", "=", "<", ">", "!", "-", "(", ")", "{", "[", "//", "/* N */", "#", "&", "?", "é", "≠", "\u{feff}", "define", "Assertion: N", "1 N"] { v.push((format!("{:?} outside of a declaration", t), format!("{}\n", t))); }
    v
}

fn rejected(ctx: &mut Ctx, src: &str) -> Result<(), String> {
    ctx.alive();
    ctx.states.add(h64(src));
    ctx.transitions += 1;
    match std::panic::catch_unwind(|| compile_burn(src)) {
        Ok(f) => Err(format!("it is compiled, as {} tables, {} occurrences, {} relationships, {} value lists, {} scripts and {} tests:\n{:.2000}", f.tables.len(), f.table_occurrences.len(), f.relationships.len(), f.value_lists.len(), f.scripts.len(), f.tests.len(), src)),
        Err(_) => Ok(()),
    }
}

fn c31() -> Prop {
    Prop { id: "C31", level: "fault_enumeration",
        rule: "16 kinds of declarations with 28 names, cut off after every character, alone and after each other kind; each of 653 faulty declarations (wrong or missing word after end, no semicolon, no or a wrong name, no colon or bracket, a step without its semicolon, a condition without its brace, a test with no or several scripts, something outside of declarations) under 28 names, alone and before, after and between declarations of each kind (thorough: after every two declarations); and the tool run as a process with each of them as its input, as its second input and as its test file. The compiler must end with an error, the tool with a non-zero status and without writing the description or the file. States are distinct sources.",
        assumptions: &["Ending with a panic counts as reporting an error."],
        run: |ctx: &mut Ctx| {
            let faults = faulty();
            // cut off
            for k in 0..KINDS {
                for name in DNAMES {
                    ctx.case(|| format!("kind {} named {} cut off", k, name), |ctx| {
                        let mut w = Summary::default();
                        let whole = decl(k, name, 1, &mut w);
                        let whole = whole.trim_end();
                        for before in std::iter::once(None).chain((0..KINDS).map(Some)) {
                            let head = before.map(|k| decl(k, "First", 2, &mut w)).unwrap_or_default();
                            for (i, _) in whole.char_indices().skip(1) { for tail in ["", "\n", " \t"] {
                                let src = format!("{}{}{}", head, &whole[..i], tail);
                                rejected(ctx, &src)?;
                            } }
                        }
                        Ok(())
                    });
                }
            }
            let befores: Vec<Vec<usize>> = std::iter::once(vec![]).chain((0..KINDS).map(|k| vec![k])).chain(if ctx.quick() { vec![] } else { (0..KINDS * KINDS).map(|k| vec![k / KINDS, k % KINDS]).collect() }).collect();
            for (what, text) in &faults {
                for before in &befores {
                    ctx.case(|| format!("{} after kinds {:?}", what, before), |ctx| {
                        for after in std::iter::once(None).chain((0..KINDS).map(Some)) {
                            for name in DNAMES.iter().take(if before.is_empty() || after.is_none() && before.len() == 1 { DNAMES.len() } else { 2 }) {
                                let mut w = Summary::default();
                                let head: String = before.iter().enumerate().map(|(i, k)| decl(*k, ["First", "Second"][i], i, &mut w)).collect();
                                rejected(ctx, &format!("{}{}{}", head, text.replace('N', name), after.map(|k| decl(k, "Last", 2, &mut w)).unwrap_or_default()))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
            #[cfg(not(burn_no_tool))]
            for (what, text) in &faults {
                ctx.case(|| format!("the tool with {}", what), |ctx| {
                    use super::props_cli::{fresh_dir, run, Scratch};
                    for place in 0..4usize {
                        let dir = fresh_dir();
                        let _gone = Scratch(dir.clone());
                        let mut w = Summary::default();
                        let good: String = [14usize, 1, 4, 6, 8, 11].iter().enumerate().map(|(i, k)| decl(*k, &format!("G{}", i), i, &mut w)).collect();
                        std::fs::write(dir.join("good.burn"), &good).map_err(|e| e.to_string())?;
                        std::fs::write(dir.join("bad.burn"), format!("{}{}", if place == 1 { &good } else { "" }, text.replace('N', "Person"))).map_err(|e| e.to_string())?;
                        let args: &[&str] = [&["-c", "bad.burn"][..], &["-c", "bad.burn", "--no-testing"], &["-c", "good.burn", "-t", "bad.burn"], &["-c", "good.burn", "-c", "bad.burn"]][place];
                        let r = run(&dir, &args.iter().map(|a| a.to_string()).collect::<Vec<_>>())?;
                        ctx.transitions += 1;
                        ctx.traces += 1;
                        if r.code == Some(0) { return Err(format!("burn_fm {} ends as if all was well\n{}", args.join(" "), text)); }
                        if dir.join("bad.fmp12").exists() || (place < 3 && dir.join("inspect_output/test_compile").exists()) { return Err(format!("burn_fm {} writes a file or description\n{}", args.join(" "), text)); }
                    }
                    Ok(())
                });
            }
        } }
}
