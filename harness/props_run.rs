// C08 control flow, C09 script calls, C10 verdicts, C11 isolation: enumerated programs, run by the
// tool and by the reference interpreter of lang.rs.
use super::engine::{Ctx, Prop};
use super::fm::{schema_calc, Program};
use super::lang::*;
use super::props_calc::digits;
use super::world::{Occ, Schema, Table};
use std::rc::Rc;

#[derive(Clone, Debug)]
enum N {
    M,
    /// exit_loop_if
    X(usize),
    /// assert
    A(usize),
    /// perform_script
    C(usize),
    If(Vec<(usize, Rc<Vec<N>>)>, Option<Rc<Vec<N>>>),
    /// the loop's own exit comes first or last
    L(bool, Rc<Vec<N>>),
}
#[derive(Clone, Copy)]
struct Kinds { exits: bool, asserts: bool, calls: usize, conds: [usize; 3] }

/// Every block of the given weight inside of `d` loops.
struct Gen { k: Kinds, memo: std::collections::HashMap<(usize, usize), Rc<Vec<Rc<Vec<N>>>>> }
impl Gen {
    fn new(k: Kinds) -> Gen { Gen { k, memo: Default::default() } }
    fn blocks(&mut self, w: usize, d: usize) -> Rc<Vec<Rc<Vec<N>>>> {
        let d = d.min(2);
        if let Some(v) = self.memo.get(&(w, d)) { return v.clone(); }
        let mut v: Vec<Rc<Vec<N>>> = vec![];
        if w == 0 { v.push(Rc::new(vec![])); }
        for first in 1..=w {
            let rest = self.blocks(w - first, d);
            for n in self.nodes(first, d) {
                for r in rest.iter() { let mut b = vec![n.clone()]; b.extend(r.iter().cloned()); v.push(Rc::new(b)); }
            }
        }
        let v = Rc::new(v);
        self.memo.insert((w, d), v.clone());
        v
    }
    fn nodes(&mut self, w: usize, d: usize) -> Vec<N> {
        let mut v = vec![];
        let nc = self.k.conds[d.min(2)];
        if w == 1 {
            v.push(N::M);
            if self.k.asserts { for c in 0..nc { v.push(N::A(c)); } }
            for c in 0..self.k.calls { v.push(N::C(c)); }
            if self.k.exits && d > 0 { for c in 0..nc { if c != 1 { v.push(N::X(c)); } } }
        }
        for b in self.blocks(w - 1, d + 1).iter() { for first in [false, true] { v.push(N::L(first, b.clone())); } }
        self.arms(w, d, nc, &mut vec![], &mut v);
        v
    }
    /// Branches of total weight `w`, each of weight 1 and its body.
    fn arms(&mut self, w: usize, d: usize, nc: usize, so_far: &mut Vec<(usize, Rc<Vec<N>>)>, out: &mut Vec<N>) {
        for bw in 0..w {
            for b in self.blocks(bw, d).iter() {
                for c in 0..nc {
                    so_far.push((c, b.clone()));
                    let left = w - 1 - bw;
                    if left == 0 { out.push(N::If(so_far.clone(), None)); }
                    else {
                        for e in self.blocks(left - 1, d).iter() { out.push(N::If(so_far.clone(), Some(e.clone()))); }
                        self.arms(left, d, nc, so_far, out);
                    }
                    so_far.pop();
                }
            }
        }
    }
}
fn counter(d: usize) -> String { format!("n{}", d) }
fn cond(c: usize, d: usize) -> E {
    match c { 0 => t(), 1 => f(), 2 => eq(var(&counter(d)), int(2)), 3 => eq(var(&counter(d.saturating_sub(1))), int(1)), _ => eq(var(&counter(d)), int(1)) }
}
fn build(b: &[N], d: usize, style: usize, marks: &mut usize, out: &mut Vec<S>) {
    for n in b {
        match n {
            N::M => { *marks += 1; out.push(mark(&marks.to_string())); }
            N::X(c) => out.push(S::ExitIf(cond(*c, d))),
            N::A(c) => out.push(S::Assert(cond(*c, d))),
            N::C(c) => out.push(S::Call(["pa", "pb", "pc"][*c].into())),
            N::If(arms, e) => {
                let mut sub = |b: &[N]| { let mut o = vec![]; build(b, d, style, marks, &mut o); o };
                let a = arms.iter().map(|(c, b)| (cond(*c, d), sub(b))).collect();
                let e = e.as_ref().map(|b| sub(b));
                out.push(S::If(a, e));
            }
            N::L(first, b) => {
                let n = counter(d + 1);
                let guard = S::ExitIf(bin(Op::Gt, var(&n), int(2)));
                let mut o = vec![inc(&n)];
                if *first { o.push(guard.clone()); }
                build(b, d + 1, style, marks, &mut o);
                if !*first { o.push(guard); }
                if style == 0 { out.push(set(&n, int(0))); }
                out.push(S::Loop(o));
            }
        }
    }
}
fn body_of(b: &[N], style: usize) -> Vec<S> {
    let mut out = vec![set("n0", int(1))];
    if style == 1 { for i in 1..4 { out.push(set(&counter(i), int(0))); } }
    build(b, 0, style, &mut 0, &mut out);
    out.push(mark("end"));
    out
}
fn program(scripts: Vec<(String, Vec<S>)>, tests: Vec<(String, Vec<S>)>) -> Program { Program { schema: schema_calc(), scripts, tests } }

/// One case per program whose first statement is given (so that the last weight is never held in memory).
fn each_block(ctx: &mut Ctx, k: Kinds, maxw: usize, run: &mut dyn FnMut(&mut Ctx, &[N])) {
    let mut g = Gen::new(k);
    for w in 0..=maxw {
        if w == 0 { if ctx.next_is_mine() { run(ctx, &[]); } else { ctx.skip_case(); } continue; }
        for first in 1..=w {
            let rest = g.blocks(w - first, 0);
            for n in g.nodes(first, 0) {
                for r in rest.iter() {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let mut b = vec![n.clone()];
                    b.extend(r.iter().cloned());
                    run(ctx, &b);
                }
            }
        }
    }
}

pub fn c08() -> Prop {
    Prop { id: "C08", level: "model_checking",
        rule: "every program over marker steps, if / elif / else chains (conditions true, false, and on the loops' counters), loops with their own exit first or last, and further exits on every condition, up to weight 4 (thorough 5, with the outer counter's condition in fewer places; each step, branch, else and loop weighs 1), with counters reset before each loop and not; chains and nestings of 8 kinds to 257, every cycle of three of 5 kinds of blocks nested to 257, and loops of up to 1,025 passes.",
        assumptions: &["Conditions are comparisons."],
        run: |ctx| {
            let k = Kinds { exits: true, asserts: false, calls: 0, conds: [2, 3, 4] };
            let maxw = 4;
            let mut one = |ctx: &mut Ctx, b: &[N]| {
                let b0 = body_of(b, 0);
                ctx.case(|| { let mut s = String::new(); put_block(&b0, 0, &mut s); s }, |ctx| {
                    program(vec![], vec![("flow".into(), b0.clone())]).conform(ctx)?;
                    let b1 = body_of(b, 1);
                    if b1 != b0 { program(vec![], vec![("flow".into(), b1)]).conform(ctx)?; }
                    Ok(())
                });
            };
            each_block(ctx, k, maxw, &mut one);
            if !ctx.quick() { each_block(ctx, Kinds { conds: [2, 3, 3], ..k }, 5, &mut one); }
            
            // long and deep
            for n in (1..=ctx.by(12usize, 30)).chain([16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257]) { for kind in 0..8 {
                if n > 30 && kind == 4 { continue; }
                let k = |c: usize| if c % 3 == 2 { 0 } else { 1 };
                let b: Vec<N> = match kind {
                    0 => vec![N::If((0..n).map(|i| (k(i + n), Rc::new(vec![N::M]))).collect(), None)],
                    1 => vec![N::If((0..n).map(|_| (1, Rc::new(vec![N::M]))).collect(), Some(Rc::new(vec![N::M])))],
                    2 => (0..n).map(|i| N::If(vec![(k(i), Rc::new(vec![N::M]))], Some(Rc::new(vec![N::M, N::M])))).collect(),
                    3 => (0..n).map(|i| N::L(i % 2 == 0, Rc::new(vec![N::M]))).collect(),
                    4 => (0..n).fold(vec![N::M], |b, i| vec![N::M, N::If(vec![(i % 2, Rc::new(b.clone()))], Some(Rc::new(if i % 2 == 1 { b } else { vec![] }))), N::M]).into_iter().collect(),
                    5 => (0..n).fold(vec![N::M], |b, _| vec![N::If(vec![(1, Rc::new(vec![])), (0, Rc::new(b)), (0, Rc::new(vec![N::M]))], None), N::M]),
                    6 => (0..n.min(3)).fold(vec![N::M], |b, i| vec![N::L(i % 2 == 1, Rc::new(b)), N::M]),
                    _ => (0..n.min(3)).fold(vec![N::M], |b, i| vec![N::M, N::If(vec![(0, Rc::new(vec![N::L(i % 2 == 1, Rc::new(b))]))], Some(Rc::new(vec![N::M])))]),
                };
                if n > 3 && kind >= 6 { continue; }
                ctx.case(|| format!("size {} kind {}", n, kind), |ctx| program(vec![], vec![("flow".into(), body_of(&b, 0))]).conform(ctx));
            } }
            // every cycle of three kinds of blocks, nested
            for n in (1..=24usize).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) { for i in 0..125u64 {
                ctx.case(|| format!("{} blocks inside one another, cycle {:?}", n, digits(i, 5, 3)), |ctx| {
                    let kinds = digits(i, 5, 3);
                    let mut b = vec![mark("inside")];
                    for j in 0..n {
                        let m = |s: &str| mark(&format!("{}{}", s, j));
                        let mut inner = vec![m("a")];
                        inner.extend(b);
                        b = match kinds[j % 3] {
                            0 => vec![S::If(vec![(t(), inner)], None), m("b")],
                            1 => vec![S::If(vec![(f(), vec![m("no")])], Some(inner)), m("b")],
                            2 => vec![S::If(vec![(f(), vec![m("no")]), (t(), inner)], Some(vec![m("never")])), m("b")],
                            3 => { inner.push(S::ExitIf(t())); vec![S::Loop(inner), m("b")] }
                            _ => { inner.insert(0, S::ExitIf(f())); inner.extend([m("c"), S::ExitIf(t()), m("never")]); vec![S::If(vec![(t(), vec![S::Loop(inner)])], None)] }
                        };
                    }
                    b.push(mark("end"));
                    program(vec![], vec![("nested".into(), b)]).conform(ctx)
                });
            } }
            // many passes, and what is nested deeply in them
            for n in [1usize, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1025] { for kind in 0..3usize {
                ctx.case(|| format!("{} passes, kind {}", n, kind), |ctx| {
                    let last = S::ExitIf(eq(var("n"), int(n as i64)));
                    let every = |k: i64, m: &str| S::If(vec![(eq(var("n"), int(k)), vec![mark(m)])], None);
                    let mut b = vec![set("n", int(0)), set("m", int(0))];
                    b.push(match kind {
                        0 => S::Loop(vec![inc("n"), last]),
                        1 => S::Loop(vec![last, inc("n"), every(1, "first"), every(n as i64 / 2, "half")]),
                        _ => S::Loop(vec![inc("n"), S::If(vec![(eq(var("n"), int(n as i64 - 1)), vec![inc("m")]), (eq(var("n"), int(n as i64)), vec![inc("m"), inc("m")])], Some(vec![])), last]),
                    });
                    b.extend([S::Show(var("n")), S::Show(var("m")), mark("end")]);
                    program(vec![], vec![("passes".into(), b)]).conform(ctx)
                });
            } }
        } }
}

// ---------------------------------------------------------------------------- C09
/// Script bodies around calls of `x`; the last ones call nothing.
fn call_bodies(who: &str, x: &str) -> Vec<Vec<S>> {
    let m = |s: &str| mark(&format!("{}{}", who, s));
    let call = || S::Call(x.into());
    vec![
        vec![m("1"), call(), m("2")],
        vec![set("v", txt(who)), call(), S::Show(var("v"))],
        vec![S::Show(var("v")), call(), set("v", txt("late")), call()],
        vec![S::Set("i".into(), int(0)), S::Loop(vec![inc("i"), m("l"), call(), S::ExitIf(bin(Op::Gt, var("i"), int(1))), m("k")]), m("e")],
        vec![S::If(vec![(f(), vec![call()])], Some(vec![call(), m("x")])), m("e")],
        vec![S::If(vec![(t(), vec![call(), S::If(vec![(t(), vec![m("y"), S::Exit(int(1))])], None)])], None), m("e")],
        vec![call(), S::Loop(vec![call(), S::If(vec![(t(), vec![S::Exit(txt("r"))])], None)])],
        vec![call(), call(), m("e")],
        // no calls
        vec![m("n")],
        vec![S::Show(var("v")), S::Show(var("i")), set("v", int(7)), set("i", int(9))],
        vec![S::Loop(vec![m("p"), S::ExitIf(t())]), S::Exit(int(3)), m("q")],
        vec![S::Set("i".into(), int(0)), S::Loop(vec![inc("i"), S::If(vec![(eq(var("i"), int(2)), vec![S::Exit(int(3))])], Some(vec![m("z")]))])],
        vec![],
    ]
}
pub fn c09() -> Prop {
    Prop { id: "C09", level: "model_checking",
        rule: "every call graph of a test and three scripts, each with one of 13 bodies (8 of them around calls, in every kind of block; variables of the same names everywhere; early exits), for every choice of callees without cycles; thorough: two bodies one after the other in the test; recursion guarded by a field; calls of a script that does not exist in every position; every pair of 17 script names that differ in case, length or one character; up to 300 scripts in chains, in a row and picked from, and up to 300 calls of one; every sequence of up to 4 (thorough 5) of 10 assignments, calls and readings of two variables.",
        assumptions: &[],
        run: |ctx| {
            let n = call_bodies("", "").len();
            let firsts: Vec<Vec<usize>> = { let mut v: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect(); if !ctx.quick() { for i in 0..n { for j in 0..n { v.push(vec![i, j]); } } } v };
            for ms in &firsts { for ma in 0..n { for mb in 0..n { for mc in 8..n { for targets in 0..4usize {
                // a calls b or c; the test calls a, or b in its second part
                if targets & 1 == 1 && ma >= 8 || targets & 2 == 2 && ms.len() == 1 || ms.len() == 2 && (ma + mb + mc) % 3 != 0 { continue; }
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("test {:?}, scripts {} {} {}, callees {}", ms, ma, mb, mc, targets), |ctx| {
                    let mut main = vec![];
                    for (i, m) in ms.iter().enumerate() { main.extend(call_bodies(&format!("t{}", i), if i == 1 && targets & 2 == 2 { "sb" } else { "sa" })[*m].clone()); }
                    let scripts = vec![("sa".to_string(), call_bodies("a", if targets & 1 == 1 { "sc" } else { "sb" })[ma].clone()), ("sb".to_string(), call_bodies("b", "sc")[mb].clone()), ("sc".to_string(), call_bodies("c", "")[mc].clone())];
                    let after: Vec<S> = vec![S::Show(var("v")), mark("after")];
                    program(scripts, vec![("calls".into(), main), ("next".into(), after)]).conform(ctx)
                });
            } } } } }
            // recursion
            for depth in 0..=5i64 { for kind in 0..6usize {
                ctx.case(|| format!("recursion of depth {} kind {}", depth, kind), |ctx| {
                    let tail = |x: &str| S::Call(x.into());
                    let step = setf("tab", "fa", bin(Op::Add, field("tab", "fa"), int(1)));
                    let stop = eq(field("tab", "fa"), int(depth));
                    let body = |x: &str, who: &str| match kind {
                        0 => vec![S::If(vec![(stop.clone(), vec![S::Exit(int(0))])], None), step.clone(), mark(who), tail(x), mark("up")],
                        1 => vec![set("v", field("tab", "fa")), S::If(vec![(bin(Op::Ne, field("tab", "fa"), int(depth)), vec![step.clone(), tail(x)])], None), S::Show(var("v"))],
                        2 => vec![S::Loop(vec![S::ExitIf(stop.clone()), step.clone(), mark(who), tail(x)]), mark("out")],
                        3 => vec![S::If(vec![(stop.clone(), vec![mark("bottom")])], Some(vec![step.clone(), tail(x), tail(x)]))],
                        4 => vec![set("w", int(0)), S::Loop(vec![inc("w"), S::ExitIf(bin(Op::Gt, var("w"), int(2))), S::If(vec![(bin(Op::Ne, field("tab", "fa"), int(depth)), vec![step.clone(), tail(x), mark(who)])], None)]), S::Show(var("w"))],
                        _ => vec![S::If(vec![(stop.clone(), vec![S::Exit(int(0))]), (t(), vec![step.clone(), tail(x), S::Exit(int(1))])], None), mark("never")],
                    };
                    for scripts in [vec![("sa".to_string(), body("sa", "a"))], vec![("sa".to_string(), body("sb", "a")), ("sb".to_string(), body("sa", "b"))]] {
                        program(scripts, vec![("rec".into(), vec![S::New, setf("tab", "fa", int(0)), S::Call("sa".into()), mark("back"), S::Show(field("tab", "fa"))])]).conform(ctx)?;
                    }
                    Ok(())
                });
            } }
            // variables: every sequence of assignments, calls and readings
            {
                let steps: Vec<S> = vec![set("v", int(5)), inc("v"), set("v", bin(Op::Mul, var("v"), int(2))), set("w", var("v")), set("v", bin(Op::Sub, var("w"), var("v"))), set("v", var("v")), inc("w"), S::Call("sa".into()), S::Show(var("v")), set("vw", var("w"))];
                let k = steps.len() as u64;
                for l in 1..=ctx.by(4usize, 5) { for i in 0..k.pow(l as u32) {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    ctx.case(|| format!("variables {:?}", digits(i, k, l)), |ctx| {
                        let mut b = vec![set("v", int(1)), set("w", int(10)), set("vw", int(100))];
                        b.extend(digits(i, k, l).into_iter().map(|d| steps[d].clone()));
                        b.extend([S::Show(var("v")), S::Show(var("w")), S::Show(var("vw"))]);
                        program(vec![("sa".into(), vec![set("v", int(30)), set("v", bin(Op::Mul, var("v"), int(3))), set("w", var("v")), set("w", bin(Op::Add, var("w"), int(1))), S::Show(var("w"))])], vec![("vars".into(), b)]).conform(ctx)
                    });
                } }
            }
            // a script that does not exist
            for (i, b) in call_bodies("t", "nowhere").into_iter().enumerate().take(8) { for inner in [false, true] {
                ctx.case(|| format!("calls of a script that does not exist, body {}{}", i, if inner { ", in a script" } else { "" }), |ctx| {
                    let (scripts, main) = if inner { (vec![("sa".to_string(), b.clone())], vec![mark("x"), S::Call("sa".into()), mark("y")]) } else { (vec![("sa".to_string(), vec![])], b.clone()) };
                    program(scripts, vec![("missing".into(), main)]).conform(ctx)
                });
            } }
            // names that differ only a little
            let names = ["init", "Init", "INIT", "iNIT", "init2", "init_2", "in", "ini", "initx", "_init", "init_", "é", "É", "e", "Ez", "x1y", "x1Y"];
            for a in names { for b in names {
                if a == b || !ctx.next_is_mine() { if a != b { ctx.skip_case(); } continue; }
                ctx.case(|| format!("scripts {} and {}", a, b), |ctx| {
                    let body = |x: &str, o: &str| vec![mark(&format!("in {}", x)), set("v", txt(x)), S::If(vec![(eq(field("tab", "fa"), int(0)), vec![setf("tab", "fa", int(1)), S::Call(o.into())])], None)];
                    let third = names.iter().find(|x| **x != a && **x != b).expect("name").to_string();
                    let main = vec![S::New, setf("tab", "fa", int(0)), S::Call(a.into()), mark("1"), setf("tab", "fa", int(0)), S::Call(b.into()), mark("2"), S::Call(third.clone()), S::Call(a.into())];
                    program(vec![(a.to_string(), body(a, b)), (b.to_string(), body(b, a))], vec![("names".into(), main.clone())]).conform_as_named(ctx)?;
                    program(vec![(b.to_string(), body(b, a)), (third, vec![mark("third")]), (a.to_string(), body(a, b))], vec![("names".into(), main)]).conform_as_named(ctx)
                });
            } }
            // many scripts, names that are alike
            for n in 1..=ctx.by(20usize, 60) {
                ctx.case(|| format!("a chain of {} scripts", n), |ctx| {
                    let mut scripts: Vec<(String, Vec<S>)> = (0..n).map(|i| (format!("s{}", i), vec![mark(&format!("in{}", i)), set("v", int(i as i64)), S::Show(var("v"))])).collect();
                    for i in 0..n.min(30) { if i + 1 < n { scripts[i].1.insert(1, S::Call(format!("s{}", i + 1))); } }
                    let mut main: Vec<S> = (0..n).rev().map(|i| S::Call(format!("s{}", i))).collect();
                    if n > 30 { main.truncate(5); }
                    program(scripts, vec![("chain".into(), main)]).conform(ctx)
                });
            }
            for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] { for kind in 0..3usize {
                ctx.case(|| format!("{} scripts {}", n, ["called one after the other", "calling one another", "before a call of the last, the first and the middle"][kind]), |ctx| {
                    let scripts: Vec<(String, Vec<S>)> = (0..n).map(|i| (format!("s{}", i), {
                        let mut v = vec![mark(&format!("in{}", i))];
                        if kind == 1 && i + 1 < n { v.push(S::Call(format!("s{}", i + 1))); v.push(mark(&format!("out{}", i))); }
                        v
                    })).collect();
                    let call = |i: usize| S::Call(format!("s{}", i));
                    let main = match kind { 0 => (0..n).map(call).collect(), 1 => vec![call(0), mark("end")], _ => vec![call(n - 1), call(0), call(n / 2), mark("end")] };
                    program(scripts, vec![("many".into(), main)]).conform(ctx)
                });
            } }
            // one script called many times
            for n in [10usize, 33, 65, 100, 129, 257, 300] {
                ctx.case(|| format!("{} calls of one script", n), |ctx| {
                    let mut main = vec![S::New, setf("tab", "fa", int(0))];
                    main.extend((0..n).map(|_| S::Call("add".into())));
                    main.push(S::Show(field("tab", "fa")));
                    program(vec![("add".into(), vec![setf("tab", "fa", bin(Op::Add, field("tab", "fa"), int(1)))])], vec![("many".into(), main)]).conform(ctx)
                });
            }
        } }
}

// ---------------------------------------------------------------------------- C10
pub fn c10() -> Prop {
    Prop { id: "C10", level: "model_checking",
        rule: "every program over assertions (true, false, on variables), markers, branches, loops and calls of three scripts (asserting the true, the false, and nothing) up to weight 3 (thorough 5); assertions over fields, variables and calculations; every list of up to 3 of 14 such tests in one file; up to 300 assertions, passes, tests and nested blocks of which one at the ends or in the middle is false.",
        assumptions: &["Assertions are comparisons."],
        run: |ctx| {
            let scripts = || vec![("pa".to_string(), vec![mark("a"), S::Assert(t()), mark("b")]), ("pb".to_string(), vec![S::If(vec![(t(), vec![mark("c"), S::Assert(f()), mark("d")])], None), mark("e")]), ("pc".to_string(), vec![S::Call("pa".into()), S::Loop(vec![S::Call("pb".into()), S::ExitIf(t())]), mark("f")])];
            let k = Kinds { exits: false, asserts: true, calls: 3, conds: [2, 3, 3] };
            each_block(ctx, k, ctx.by(3, 4), &mut |ctx, b| {
                let b0 = body_of(b, 0);
                ctx.case(|| { let mut s = String::new(); put_block(&b0, 0, &mut s); s }, |ctx| program(scripts(), vec![("verdict".into(), b0.clone())]).conform(ctx));
            });
            if !ctx.quick() {
                each_block(ctx, Kinds { calls: 0, conds: [2, 2, 2], ..k }, 5, &mut |ctx, b| {
                    let b0 = body_of(b, 0);
                    ctx.case(|| { let mut s = String::new(); put_block(&b0, 0, &mut s); s }, |ctx| program(vec![], vec![("verdict".into(), b0.clone())]).conform(ctx));
                });
            }
            // what is asserted
            let vals = [int(1), int(2), int(10), txt("a"), txt("b"), var("x"), var("y"), field("tab", "fa"), field("tab", "fb"), bin(Op::Add, var("x"), int(1)), bin(Op::Cat, txt("a"), txt(""))];
            for a in &vals { for b in &vals { for op in [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge] {
                ctx.case(|| format!("assert {}", bin(op, a.clone(), b.clone()).src()), |ctx| {
                    let e = bin(op, a.clone(), b.clone());
                    let pre = vec![S::New, set("x", int(1)), set("y", txt("b")), setf("tab", "fa", int(2)), setf("tab", "fb", txt("a"))];
                    let mut v = vec![];
                    for kind in 0..2 {
                        let mut b = pre.clone();
                        if kind == 0 { b.extend([mark("1"), S::Assert(e.clone()), mark("2")]); } else { b.extend([set("n", int(0)), S::Loop(vec![inc("n"), mark("1"), S::Assert(e.clone()), S::ExitIf(eq(var("n"), int(2)))]), mark("2")]); }
                        v.push(b);
                    }
                    for b in v { program(vec![], vec![("what".into(), b)]).conform(ctx)?; }
                    Ok(())
                });
            } } }
            // lists of tests
            let pool = verdict_pool();
            let k = pool.len() as u64;
            for n in 1..=3usize { for i in 0..k.pow(n as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("tests {:?}", digits(i, k, n)), |ctx| {
                    let tests = digits(i, k, n).iter().enumerate().map(|(j, d)| (format!("t{}", j), pool[*d].clone())).collect();
                    program(scripts(), tests).conform(ctx)
                });
                // tests of the same name
                if n > 1 { ctx.case(|| format!("tests of one name {:?}", digits(i, k, n)), |ctx| {
                    for same in 0..n {
                        let tests = digits(i, k, n).iter().enumerate().map(|(j, d)| (format!("t{}", if j == same { (j + 1) % n } else { j }), pool[*d].clone())).collect();
                        program(scripts(), tests).conform(ctx)?;
                    }
                    let tests = digits(i, k, n).iter().map(|d| ("t".to_string(), pool[*d].clone())).collect();
                    program(scripts(), tests).conform(ctx)
                }); }
            } }
            // many assertions, many passes, many tests, one of them false
            const SIZES: [usize; 20] = [4, 5, 10, 16, 17, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300];
            for n in SIZES { for at in [0usize, 1, n / 2, n - 2, n - 1, n] {
                ctx.case(|| format!("{} assertions, false the {}th", n, at), |ctx| {
                    let list: Vec<S> = (0..n).map(|i| S::Assert(eq(int(i as i64), int(if i == at { 9999 } else { i as i64 })))).collect();
                    program(vec![], vec![("many".into(), list)]).conform(ctx)
                });
                ctx.case(|| format!("{} passes, an assertion false in the {}th", n, at), |ctx| {
                    let b = vec![set("n", int(0)), S::Loop(vec![S::Assert(bin(Op::Ne, var("n"), int(at as i64))), inc("n"), S::ExitIf(eq(var("n"), int(n as i64)))]), mark("end")];
                    program(vec![], vec![("passes".into(), b)]).conform(ctx)
                });
                ctx.case(|| format!("{} tests, false the {}th", n, at), |ctx| {
                    let tests = (0..n).map(|i| (format!("t{}", i), vec![S::Assert(eq(int(1), int(if i == at { 2 } else { 1 })))])).collect();
                    program(vec![], tests).conform(ctx)
                });
                ctx.case(|| format!("{} nested blocks, an assertion in the {}th", n, at), |ctx| {
                    let mut b = vec![mark("in")];
                    for i in (0..n).rev() {
                        if i == at { b.push(S::Assert(f())); }
                        b = vec![S::If(vec![(t(), b)], None), S::Assert(t())];
                    }
                    program(vec![], vec![("nested".into(), b)]).conform(ctx)
                });
            } }
        } }
}
fn verdict_pool() -> Vec<Vec<S>> {
    let a = |c: bool| S::Assert(if c { t() } else { f() });
    let call = |x: &str| S::Call(x.into());
    vec![
        vec![], vec![a(true)], vec![a(false)], vec![mark("1"), a(true), a(false), mark("2")], vec![S::If(vec![(f(), vec![a(false)])], None), mark("3")],
        vec![S::If(vec![(t(), vec![a(false)])], None), mark("4")], vec![call("pa"), mark("5")], vec![call("pb"), mark("6")],
        vec![set("n", int(0)), S::Loop(vec![inc("n"), S::Assert(bin(Op::Lt, var("n"), int(3))), mark("7")])], vec![S::Exit(int(1)), a(false)],
        vec![S::New, setf("tab", "fa", int(1)), S::Assert(eq(field("tab", "fa"), int(1))), mark("8")], vec![S::Assert(eq(field("tab", "fa"), txt(""))), mark("9")],
        vec![S::Loop(vec![call("pc"), S::ExitIf(t())])], vec![set("v", int(1)), S::Assert(eq(var("v"), int(2)))],
    ]
}

// ---------------------------------------------------------------------------- C11
/// Two tables, three occurrences, three layouts.
pub fn schema_data() -> Schema {
    Schema {
        tables: vec![Table { id: 1, name: "people".into(), fields: vec![(1, "k".into()), (2, "a".into()), (3, "b".into())] }, Table { id: 2, name: "jobs".into(), fields: vec![(1, "k".into()), (2, "a".into())] }],
        occs: vec![Occ { id: 1, name: "one".into(), table: 1 }, Occ { id: 2, name: "two".into(), table: 1 }, Occ { id: 3, name: "other".into(), table: 2 }],
        layouts: vec![(1, "lone".into(), 1), (2, "ltwo".into(), 2), (3, "lother".into(), 3)],
        rels: vec![],
    }
}
pub fn rec(o: &str, k: &str, a: &str) -> Vec<S> { vec![S::New, setf(o, "k", txt(k)), setf(o, "a", txt(a))] }
pub fn find(o: &str, f: &str, v: E) -> Vec<S> { vec![S::Find, setf(o, f, v), S::Perform] }
pub fn see() -> Vec<S> { vec![S::Show(field("one", "k")), S::Show(field("two", "k")), S::Show(field("other", "k"))] }

pub fn c11() -> Prop {
    Prop { id: "C11", level: "model_checking",
        rule: "every sequence of up to 3 (thorough 4) of 16 tests, of which some leave each kind of state behind (variables, records, found sets, another layout, find mode and criteria, an unfinished loop, branch or called script, a failed assertion) and some read each kind; each test must behave as it does alone in a fresh session; sessions of up to 257 tests.",
        assumptions: &[],
        run: |ctx| {
            let v = |parts: Vec<Vec<S>>| parts.concat();
            let fail = || vec![S::Assert(f())];
            let pool: Vec<Vec<S>> = vec![
                // leave something behind
                vec![set("x", int(5)), mark("a")],
                v(vec![rec("one", "r1", "x"), rec("one", "r2", "y"), vec![S::Go(Go::First)], see()]),
                v(vec![rec("one", "r1", "x"), rec("one", "r2", "y"), rec("one", "r3", "x"), find("one", "a", txt("x")), vec![S::Go(Go::Next)], see()]),
                v(vec![vec![S::Layout("lother".into())], rec("other", "j1", "x"), rec("other", "j2", "x"), see()]),
                v(vec![rec("one", "r1", "x"), vec![S::Find, setf("one", "a", txt("x"))]]),
                v(vec![vec![set("x", int(1)), S::Loop(vec![mark("l"), S::If(vec![(t(), fail())], None)])]]),
                v(vec![rec("one", "r9", "y"), vec![S::Layout("ltwo".into()), S::Call("bad".into()), mark("no")]]),
                vec![S::Loop(vec![S::If(vec![(t(), vec![set("i", int(3)), S::Exit(int(1))])], None)])],
                vec![set("x", int(7)), S::Call("good".into()), S::Exit(int(0))],
                fail(),
                // read
                vec![S::Show(var("x")), S::Show(var("i")), S::Show(var("y"))],
                see(),
                v(vec![vec![S::New], see(), vec![S::Go(Go::Prev)], see(), vec![S::Show(field("one", "a")), S::Show(field("two", "a"))]]),
                v(vec![rec("one", "n1", "y"), vec![S::Layout("lone".into())], find("one", "a", txt("x")), see(), vec![S::Go(Go::Last)], see()]),
                v(vec![rec("one", "n1", "x"), vec![S::Perform], see(), vec![S::ShowAll, S::Go(Go::First)], see()]),
                vec![S::Call("good".into()), S::If(vec![(f(), vec![mark("b")])], Some(vec![mark("c")])), S::Assert(t()), mark("d")],
            ];
            let scripts = || vec![("good".to_string(), vec![set("y", int(4)), mark("good"), S::Show(var("x"))]), ("bad".to_string(), vec![S::Loop(vec![set("y", int(2)), S::If(vec![(t(), vec![mark("bad"), S::Assert(f())])], None), mark("never")])])];
            let k = pool.len() as u64;
            for n in 1..=ctx.by(3usize, 4) { for i in 0..k.pow(n as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("tests {:?}", digits(i, k, n)), |ctx| {
                    let tests = digits(i, k, n).iter().enumerate().map(|(j, d)| (format!("t{}", j), pool[*d].clone())).collect();
                    Program { schema: schema_data(), scripts: scripts(), tests }.conform(ctx)
                });
            } }
            // long sessions: one test again and again with another at the end, and all of them in rotation
            for n in [9usize, 16, 33, 65, 100, 129, 257] { for i in 0..k { for j in 0..k {
                if (n > 33 && (i + j) % 3 != 0) || (n > 100 && (i + 5 * j) % 15 != 0) { continue; }
                ctx.case(|| format!("test {} {} times, then {}", i, n, j), |ctx| {
                    let tests = (0..=n).map(|x| (format!("t{}", x), pool[if x == n { j } else { i } as usize].clone())).collect();
                    Program { schema: schema_data(), scripts: scripts(), tests }.conform(ctx)
                });
                if i % 2 == 0 { continue; }
                ctx.case(|| format!("{} tests from {}, every {}th", n, j, i), |ctx| {
                    let tests = (0..n).map(|x| (format!("t{}", x), pool[(j as usize + x * i as usize) % k as usize].clone())).collect();
                    Program { schema: schema_data(), scripts: scripts(), tests }.conform(ctx)
                });
            } } }
        } }
}

pub fn props() -> Vec<Prop> { vec![c08(), c09(), c10(), c11()] }
