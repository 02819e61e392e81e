// C01..C04: calculations.
use super::engine::{Ctx, Prop};
use super::fm::{schema_calc, Program};
use super::lang::*;

/// All binary tree shapes with n leaves; nodes carry no operators yet.
#[derive(Clone)]
pub enum Sh { L, N(Box<Sh>, Box<Sh>) }
pub fn shapes(n: usize) -> Vec<Sh> {
    if n == 1 { return vec![Sh::L]; }
    let mut v = vec![];
    for k in 1..n { for a in shapes(k) { for b in shapes(n - k) { v.push(Sh::N(Box::new(a.clone()), Box::new(b.clone()))); } } }
    v
}
pub fn fill(s: &Sh, ops: &mut dyn FnMut() -> Op, leaf: &mut dyn FnMut() -> E) -> E {
    match s {
        Sh::L => leaf(),
        Sh::N(a, b) => { let op = ops(); let x = fill(a, ops, leaf); let y = fill(b, ops, leaf); bin(op, x, y) }
    }
}
pub fn digits(mut n: u64, base: u64, len: usize) -> Vec<usize> {
    (0..len).map(|_| { let d = n % base; n /= base; d as usize }).collect()
}

pub const LIT: [&str; 8] = ["7", "3", "2", "5", "11", "4", "6", "13"];
pub const DEC: [&str; 8] = ["0.5", "1.25", "10.75", "3.1", "0.001", "250", "16777217", "99.9"];

/// The operand at position i as literal (0), decimal literal (1), variable (2) or field (3).
fn operand(i: usize, kind: usize) -> E {
    match kind {
        0 => num(LIT[i % 8]), 1 => num(DEC[i % 8]),
        2 => var(&format!("v{}", i)),
        _ => field("tab", ["fa", "fb", "fc", "fd", "fe"][i % 5]),
    }
}
fn prologue() -> Vec<S> {
    let mut p = vec![S::New];
    for i in 0..5 { p.push(setf("tab", ["fa", "fb", "fc", "fd", "fe"][i], num(DEC[i]))); }
    for i in 0..8 { p.push(set(&format!("v{}", i), num(LIT[i]))); }
    p
}
pub fn show_program(pro: Vec<S>, es: &[E]) -> Program {
    let mut b = pro;
    for e in es { b.push(S::Show(e.clone())); }
    Program { schema: schema_calc(), scripts: vec![], tests: vec![("calc".into(), b)] }
}
fn all_src(es: &[E]) -> String { es.iter().map(|e| e.src()).collect::<Vec<_>>().join(" ; ") }

/// Drop the expressions for which the specification gives no value.
fn defined(pro: &[S], es: Vec<E>) -> Vec<E> {
    let scripts = Default::default();
    es.into_iter().filter(|e| {
        let mut b = pro.to_vec();
        b.push(S::Show(e.clone()));
        let mut it = Interp::new(&scripts, super::world::World::new(std::rc::Rc::new(schema_calc())), 0);
        it.run_test("x", &b).is_ok()
    }).collect()
}
fn check_exprs(ctx: &mut Ctx, pro: Vec<S>, es: Vec<E>) -> Result<(), String> {
    let es = defined(&pro, es);
    if es.is_empty() { ctx.count("outside_of_domain", 1); return Ok(()); }
    ctx.count("expressions", es.len() as u64);
    show_program(pro, &es).conform(ctx)
}

/// Parenthesise node k of the tree (numbering in preorder) for every k in the mask.
fn parens(e: &E, mask: u64, k: &mut u32) -> E {
    let me = *k;
    *k += 1;
    let r = match e { E::Bin(op, a, b) => { let x = parens(a, mask, k); let y = parens(b, mask, k); bin(*op, x, y) } e => e.clone() };
    if mask >> me & 1 == 1 { par(r) } else { r }
}

pub fn c01() -> Prop {
    Prop { id: "C01", level: "model_checking",
        rule: "one case per expression tree over + - * /: every tree shape and operator assignment up to the operand bound; trees of at most 4 operands also with every operand kind (literal, decimal literal, variable, field) and every set of redundant parentheses; operator chains and nestings of every length up to the bound; nestings of up to 300 parentheses; every tree of at most 4 operands compared, in every parenthesised form, with itself in the conditions of if, elif, exit_loop_if and assert. States are reference-interpreter configurations, transitions its steps; a case is non-trivial if it has at least one operator.",
        assumptions: &["division by zero and non-finite results are outside of the property", "displayed numbers are compared to 1e-11 relative precision"],
        run: |ctx| {
            let maxn = ctx.by(7, 8);
            for n in 2..=maxn {
                let sh = shapes(n);
                for s in &sh { for ops in 0..4u64.pow(n as u32 - 1) {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let od = digits(ops, 4, n - 1);
                    let (mut i, mut j) = (0, 0);
                    let e = fill(s, &mut || { i += 1; ARITH[od[i - 1]] }, &mut || { j += 1; num(LIT[j - 1]) });
                    let full = e.full();
                    let es = vec![e, full];
                    let k = es.clone();
                    ctx.case(|| all_src(&k), |ctx| check_exprs(ctx, vec![], es));
                } }
            }
            // operand kinds
            let kn = ctx.by(4, 5);
            for n in 1..=kn { for s in &shapes(n) { for ops in 0..4u64.pow(n as u32 - 1) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let od = digits(ops, 4, n - 1);
                let mut es = vec![];
                for kinds in 0..4u64.pow(n as u32) {
                    let kd = digits(kinds, 4, n);
                    let (mut i, mut j) = (0, 0);
                    es.push(fill(s, &mut || { i += 1; ARITH[od[i - 1]] }, &mut || { j += 1; operand(j - 1, kd[j - 1]) }));
                }
                let k = format!("operand kinds of {}", es[0].src());
                ctx.case(|| k, |ctx| check_exprs(ctx, prologue(), es));
            } } }
            // redundant parentheses
            let pn = ctx.by(4, 5);
            for n in 1..=pn { for s in &shapes(n) { for ops in 0..4u64.pow(n as u32 - 1) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let od = digits(ops, 4, n - 1);
                let (mut i, mut j) = (0, 0);
                let e = fill(s, &mut || { i += 1; ARITH[od[i - 1]] }, &mut || { j += 1; operand(j - 1, (j - 1) % 4) });
                let es: Vec<E> = (0..1u64 << (2 * n - 1)).map(|m| parens(&e, m, &mut 0)).collect();
                ctx.case(|| format!("parentheses of {}", e.src()), |ctx| check_exprs(ctx, prologue(), es));
            } } }
            // in the conditions of branches, exits and assertions
            let un = ctx.by(4, 5);
            for n in 2..=un { for s in &shapes(n) { for ops in 0..4u64.pow(n as u32 - 1) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let od = digits(ops, 4, n - 1);
                let (mut i, mut j) = (0, 0);
                let e = fill(s, &mut || { i += 1; ARITH[od[i - 1]] }, &mut || { j += 1; operand(j - 1, [0, 2, 3][j % 3]) });
                let k = e.src();
                ctx.case(|| format!("conditions on {}", k), |ctx| {
                    let Some(e) = defined(&prologue(), vec![e]).pop() else { ctx.count("outside_of_domain", 1); return Ok(()) };
                    let sides = [e.clone(), e.full(), par(e.clone()), par(par(e.full()))];
                    let (mut body, mut m) = (prologue(), 0);
                    let mut mk = || { m += 1; mark(&format!("u{}", m)) };
                    for a in &sides { for b in &sides {
                        let (yes, no) = (eq(a.clone(), b.clone()), bin(Op::Ne, a.clone(), b.clone()));
                        body.push(S::If(vec![(yes.clone(), vec![mk()])], Some(vec![mk()])));
                        body.push(S::If(vec![(no.clone(), vec![mk()])], None));
                        body.push(S::If(vec![(f(), vec![mk()]), (no.clone(), vec![mk()]), (yes.clone(), vec![mk()])], Some(vec![mk()])));
                        body.push(S::Loop(vec![S::ExitIf(no.clone()), mk(), S::ExitIf(yes.clone()), mk(), S::ExitIf(t())]));
                        body.push(S::Assert(yes));
                    } }
                    body.push(mk());
                    Program { schema: schema_calc(), scripts: vec![], tests: vec![("calc".into(), body)] }.conform(ctx)
                });
            } } }
            // deep parentheses around a whole calculation and around an operand
            for n in [30usize, 64, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300] { for o1 in ARITH { for o2 in ARITH {
                if ctx.quick() && o1 != o2 && n % 2 == 1 { continue; }
                let mut inner = bin(o1, operand(0, 0), operand(1, 2));
                for _ in 0..n { inner = par(inner); }
                let mut grow = operand(2, 0);
                for i in 0..n.min(60) { grow = bin(if i % 2 == 0 { o1 } else { o2 }, operand(i % 7, 0), par(grow)); }
                let es = vec![bin(o2, inner.clone(), operand(2, 3)), bin(o2, operand(3, 1), inner.clone()), bin(o1, inner.clone(), inner.clone()), inner, grow];
                ctx.case(|| format!("{} parentheses with {} {}", n, o1.sym(), o2.sym()), |ctx| check_exprs(ctx, prologue(), es));
            } } }
            // long chains a o1 b o2 c o1 ..., left and right nested, and deep parentheses
            let len = ctx.by(24, 64);
            for o1 in ARITH { for o2 in ARITH { for n in 3..=len {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let leaf = |i: usize| operand(i, i % 3);
                let mut left = leaf(0);
                let mut right = leaf(0);
                for i in 1..n {
                    let op = if i % 2 == 1 { o1 } else { o2 };
                    left = bin(op, left, leaf(i % 5));
                    right = bin(op, leaf(i % 5), right);
                }
                let mut deep = left.clone();
                for _ in 0..n { deep = par(deep); }
                let es = vec![left, right.clone(), right.full(), deep];
                ctx.case(|| format!("chain of {} with {} {}", n, o1.sym(), o2.sym()), |ctx| check_exprs(ctx, prologue(), es));
            } } }
        } }
}

// ---------------------------------------------------------------- C02
fn neg(n: u64) -> E { par(bin(Op::Sub, int(0), int(n as i64))) }

/// A value in each operand position kind: literal, variable, field, computed.
fn forms(e: &E, text: bool, slot: usize) -> Vec<E> {
    let same = if text { bin(Op::Cat, e.clone(), txt("")) } else { bin(Op::Add, e.clone(), int(0)) };
    vec![e.clone(), var(["va", "vb"][slot]), field("tab", ["fa", "fb"][slot]), same.clone(), par(e.clone()), par(par(same))]
}
fn setup(a: &E, b: &E) -> Vec<S> {
    vec![S::New, set("va", a.clone()), set("vb", b.clone()), setf("tab", "fa", a.clone()), setf("tab", "fb", b.clone())]
}
/// Use a condition in every place that takes one.
fn uses(c: &E, n: usize) -> Vec<S> {
    let b = format!("b{}", n);
    vec![
        S::Show(c.clone()),
        S::If(vec![(c.clone(), vec![mark("T")])], Some(vec![mark("F")])),
        S::Loop(vec![S::ExitIf(c.clone()), mark("L"), S::ExitIf(t())]),
        set(&b, c.clone()),
        S::Show(var(&b)),
        S::If(vec![(f(), vec![mark("X")]), (var(&b), vec![mark("T")])], Some(vec![mark("F")])),
        S::Loop(vec![S::ExitIf(var(&b)), mark("L"), S::ExitIf(t())]),
        S::Show(eq(par(c.clone()), par(t()))),
        S::Show(bin(Op::Ne, var(&b), par(f()))),
        S::Show(eq(var(&b), par(c.clone()))),
        setf("tab", "fe", c.clone()),
        S::Show(field("tab", "fe")),
        S::If(vec![(field("tab", "fe"), vec![mark("T")])], Some(vec![mark("F")])),
        set(&format!("c{}", n), var(&b)),
        S::Show(var(&format!("c{}", n))),
    ]
}
pub fn c02() -> Prop {
    Prop { id: "C02", level: "model_checking",
        rule: "one case per operand pair and operator, with both operands in every form (literal, variable, field, computed, parenthesised) and the result used in every place (shown, if, elif, exit_loop_if, assert, stored in a variable and in a field, compared with a truth value); plus every pair of arithmetic / & expressions of bounded size around every operator, and every pair of comparisons compared with each other.",
        assumptions: &["comparing a number with a text is outside of the property", "texts are ordered by their code points"],
        run: |ctx| {
            let mut nums: Vec<E> = ["0", "1", "2", "9", "10", "10.5", "100", "1.50", "1.5", "0.1", "99999999", "100000000"].iter().map(|x| num(x)).collect();
            nums.push(neg(1)); nums.push(neg(2)); nums.push(neg(10));
            let texts: Vec<E> = ["", "a", "b", "ab", "a b", "B", "10", "9", " a", "a!", "é", "z", "true", "false"].iter().map(|x| txt(x)).collect();
            for (text, vals) in [(false, &nums), (true, &texts)] { for a in vals { for b in vals { for op in CMPS {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let (fa, fb) = (forms(a, text, 0), forms(b, text, 1));
                let mut body = setup(a, b);
                let mut n = 0;
                for x in &fa { for y in &fb { body.extend(uses(&bin(op, x.clone(), y.clone()), n % 7)); n += 1; } }
                let mut tests = vec![("all".to_string(), body)];
                for (i, (x, y)) in [(0, 0), (1, 2), (2, 1), (3, 3)].iter().enumerate() {
                    let c = bin(op, fa[*x].clone(), fb[*y].clone());
                    let mut b1 = setup(a, b);
                    b1.extend([S::Assert(c.clone()), mark("after")]);
                    tests.push((format!("direct{}", i), b1));
                    let mut b2 = setup(a, b);
                    b2.extend([set("r", c), S::Assert(var("r")), mark("after")]);
                    tests.push((format!("stored{}", i), b2));
                }
                let p = Program { schema: schema_calc(), scripts: vec![], tests };
                ctx.case(|| format!("{} {} {}", a.src(), op.sym(), b.src()), |ctx| p.conform(ctx));
            } } } }
            // never set variable and never set field
            for op in CMPS { for y in texts.iter() {
                for x in [var("unset"), field("tab", "fd")] {
                    let mut body = vec![S::New];
                    body.extend(uses(&bin(op, x.clone(), y.clone()), 0));
                    body.extend(uses(&bin(op, y.clone(), x.clone()), 1));
                    let p = Program { schema: schema_calc(), scripts: vec![], tests: vec![("empty".into(), body)] };
                    ctx.case(|| format!("{} {} {}", x.src(), op.sym(), y.src()), |ctx| p.conform(ctx));
                }
            } }
            // precedence: every pair of sides up to 2 (3) operators in total
            let five = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Cat];
            let side = |n: usize, code: u64, off: usize| -> Vec<E> {
                let od = digits(code, 5, n.saturating_sub(1));
                shapes(n).iter().map(|s| { let (mut i, mut j) = (0, off); fill(s, &mut || { i += 1; five[od[i - 1]] }, &mut || { j += 1; operand(j - 1, (j - 1) % 3) }) }).collect()
            };
            let m = ctx.by(3, 4);
            for n1 in 1..=m { for n2 in 1..=m { if n1 + n2 <= m + 1 || (n1 <= 3 && n2 <= 3) {
                for c1 in 0..5u64.pow(n1 as u32 - 1) { for c2 in 0..5u64.pow(n2 as u32 - 1) {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let mut es = vec![];
                    for x in side(n1, c1, 0) { for y in side(n2, c2, n1) { for op in CMPS {
                        es.push(bin(op, x.clone(), y.clone()));
                        es.push(bin(op, x.full(), y.clone()));
                    } } }
                    let k = es[0].src();
                    ctx.case(|| format!("precedence of {}", k), |ctx| check_exprs(ctx, prologue(), es));
                } }
            } } }
            // comparisons of comparisons
            for o1 in CMPS { for o2 in CMPS { for o3 in [Op::Eq, Op::Ne] {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let mut es = vec![];
                let vals = [num("9"), num("10"), var("v0"), field("tab", "fc")];
                for a in &vals { for b in &vals { for c in &vals { for d in &vals {
                    es.push(bin(o3, bin(o1, a.clone(), b.clone()), bin(o2, c.clone(), d.clone())));
                } } } }
                ctx.case(|| format!("(a {} b) {} (c {} d)", o1.sym(), o3.sym(), o2.sym()), |ctx| check_exprs(ctx, prologue(), es));
            } } }
        } }
}

// ---------------------------------------------------------------- C03
pub const CHARS: [&str; 32] = ["a", "Z", "0", " ", "(", ")", "[", "]", "{", "}", ",", ";", ":", "+", "-", "*", "/", "&", "=", "<", ">", "!",
    ".", "_", "#", "'", "\\", "é", "漢", "😀", "\t", "\n"];
pub const WORDS: [&str; 26] = ["define", "end test", "end test;", "if(1 == 1) {", "}", "tab::fa", "v0", "true", "false", "12", "-1.5", "1e5", "nan", "inf",
    "script: [", "]", "a, b", "x == y", "loop {", "\\\"x", "::", "Min(1, 2)", "  two  blanks  ", "@", "Ünïcödé", "123 abc"];

/// A text as an expression: literal pieces, with quotation marks spelled as Char(34).
fn text_expr(s: &str) -> E {
    let mut parts: Vec<E> = vec![];
    for (i, p) in s.split('"').enumerate() {
        if i > 0 { parts.push(call("Char", vec![int(34)])); }
        if !p.is_empty() { parts.push(txt(p)); }
    }
    let mut it = parts.into_iter();
    let first = it.next().unwrap_or(txt(""));
    it.fold(first, |a, b| bin(Op::Cat, a, b))
}
fn text_case(ctx: &mut Ctx, s: &str) {
    if !ctx.next_is_mine() { ctx.skip_case(); return; }
    let whole = text_expr(s);
    let cs: Vec<char> = s.chars().collect();
    let cut = |a: usize, b: usize| text_expr(&cs[a..b].iter().collect::<String>());
    let mut body = vec![S::New, set("va", whole.clone()), setf("tab", "fa", whole.clone()), S::Show(whole.clone()), S::Show(var("va")), S::Show(field("tab", "fa"))];
    body.extend([setf("tab", "fb", var("va")), S::Show(field("tab", "fb")), set("vb", field("tab", "fb")), S::Show(var("vb"))]);
    let n = cs.len();
    for i in 0..=n { if n < 12 {
        let (l, r) = (cut(0, i), cut(i, n));
        body.push(S::Show(bin(Op::Cat, l.clone(), r.clone())));
        body.extend([set("l", l.clone()), setf("tab", "fc", r.clone()), S::Show(bin(Op::Cat, var("l"), field("tab", "fc"))), S::Show(bin(Op::Cat, par(l.clone()), par(var("l"))))]);
        for j in i..=n { body.push(S::Show(bin(Op::Cat, bin(Op::Cat, cut(0, i), cut(i, j)), cut(j, n)))); body.push(S::Show(bin(Op::Cat, cut(0, i), par(bin(Op::Cat, cut(i, j), cut(j, n)))))); }
    } }
    body.extend([S::Show(bin(Op::Cat, int(7), whole.clone())), S::Show(bin(Op::Cat, whole.clone(), num("2.50"))), S::Show(bin(Op::Cat, bin(Op::Add, int(2), int(3)), var("va")))]);
    body.extend([S::Show(eq(whole.clone(), var("va"))), S::Show(eq(field("tab", "fa"), whole.clone())), S::Show(eq(bin(Op::Cat, whole.clone(), txt("x")), var("va")))]);
    let p = Program { schema: schema_calc(), scripts: vec![], tests: vec![("text".into(), body)] };
    let name = || if cs.len() < 64 { format!("text {:?}", s) } else { format!("text of {} characters from {:?}", cs.len(), cs[0]) };
    if s.chars().any(|c| c.is_control()) { ctx.case(name, |ctx| p.conform_regions(ctx)); }
    else { ctx.case(name, |ctx| p.conform(ctx)); }
}
pub fn texts_over(alpha: &[&str], len: usize) -> impl Iterator<Item = String> {
    let alpha: Vec<String> = alpha.iter().map(|x| x.to_string()).collect();
    let k = alpha.len() as u64;
    (0..k.pow(len as u32)).map(move |c| digits(c, k, len).iter().map(|d| alpha[*d].as_str()).collect::<String>())
}
pub fn every_char() -> impl Iterator<Item = char> { (0..=0x10FFFFu32).filter_map(char::from_u32) }
/// Symbols, punctuation, blanks and letters beyond ASCII, in the blocks that hold look-alikes of ASCII punctuation.
pub fn look_alike(c: char) -> bool {
    matches!(c as u32, 0x01..=0x1F | 0x7F..=0x17F | 0x2B0..=0x2FF | 0x1680 | 0x180E | 0x2000..=0x22FF | 0x275B..=0x276F | 0x27E6..=0x27EF | 0x2983..=0x2998 | 0x3000..=0x301F | 0xFE10..=0xFE6F | 0xFEFF..=0xFF65 | 0xFFE0..=0xFFFD)
}
pub fn c03() -> Prop {
    Prop { id: "C03", level: "model_checking",
        rule: "one case per text: every text up to the length bound over an alphabet with one character of each class that any lexer treats specially (and quotation marks, which come from Char(34)), every keyword-like word, alone and in pairs, every character that resembles ASCII punctuation or a blank, alone and inside of a text, and every character of Unicode in texts of 4,096 (thorough 512); each is shown as a literal, through a variable, a field and both, as every split into two and three joined parts, joined with numbers, and compared with itself.",
        assumptions: &["a literal cannot contain a quotation mark; those are written with Char(34)"],
        run: |ctx| {
            let mut alpha: Vec<&str> = CHARS.to_vec();
            alpha.push("\"");
            for n in 0..=ctx.by(2, 3) { for s in texts_over(&alpha, n) { text_case(ctx, &s); } }
            if !ctx.quick() {
                for s in texts_over(&["a", "\"", ")", ",", "]", " ", "&"], 4) { text_case(ctx, &s); }
                for s in texts_over(&["a", "\"", "(", " "], 5) { text_case(ctx, &s); }
            } else {
                for s in texts_over(&["a", "\"", ")", ",", " ", "0"], 3) { text_case(ctx, &s); }
            }
            for a in WORDS { text_case(ctx, a); for b in WORDS { text_case(ctx, &format!("{}{}", a, b)); text_case(ctx, &format!("{} {}", a, b)); } }
            for n in [50usize, 255, 256, 1000, 5000] { for c in ["a", ")", "é", " "] { text_case(ctx, &c.repeat(n)); } }
            // every character: the ones that resemble punctuation by themselves, all of them with others
            for c in every_char().filter(|c| look_alike(*c)) { text_case(ctx, &c.to_string()); text_case(ctx, &format!("a{}b", c)); }
            let n = ctx.by(4096, 512);
            let all: Vec<char> = every_char().filter(|c| *c != '"').collect();
            for c in all.chunks(n) { text_case(ctx, &c.iter().collect::<String>()); }
        } }
}

// ---------------------------------------------------------------- C04
/// Every expression with exactly `n` operations out of operators, calls and parentheses.
fn call_trees(n: usize, memo: &mut Vec<Vec<E>>) -> Vec<E> {
    if n < memo.len() { return memo[n].clone(); }
    let mut v = vec![];
    if n == 0 { v.push(E::Var("#".into())); }
    else {
        let one = |e: &E| vec![call("Abs", vec![e.clone()]), call("Min", vec![e.clone()]), par(e.clone())];
        for e in call_trees(n - 1, memo) { v.extend(one(&e)); }
        for i in 0..n {
            for a in call_trees(i, memo) { for b in call_trees(n - 1 - i, memo) {
                for op in [Op::Add, Op::Mul, Op::Sub, Op::Cat] { v.push(bin(op, a.clone(), b.clone())); }
                v.push(call("Min", vec![a.clone(), b.clone()]));
            } }
            for j in 0..n - i { let k = n - 1 - i - j;
                for a in call_trees(i, memo) { for b in call_trees(j, memo) { for c in call_trees(k, memo) {
                    v.push(call("Min", vec![a.clone(), b.clone(), c.clone()]));
                } } }
            }
        }
    }
    if memo.len() == n { memo.push(v.clone()); }
    v
}
/// Number the leaves of a tree, filling in operands.
fn number(e: &E, i: &mut usize, leaf: &dyn Fn(usize) -> E) -> E {
    match e {
        E::Var(v) if v == "#" => { *i += 1; leaf(*i - 1) }
        E::Bin(op, a, b) => { let x = number(a, i, leaf); let y = number(b, i, leaf); bin(*op, x, y) }
        E::Call(f, a) => call(f, a.iter().map(|x| number(x, i, leaf)).collect()),
        E::Par(a) => par(number(a, i, leaf)),
        e => e.clone(),
    }
}
pub fn c04() -> Prop {
    Prop { id: "C04", level: "model_checking",
        rule: "one case per expression tree over operators, parentheses and calls up to the operation bound, with the operands' kinds and order varied; every argument list of Min over a value set up to the length bound (so every order and every position of the minimum); every call in every argument position of every other; every character code of the stated ranges; 8 kinds of calls inside of calls to a depth of 100.",
        assumptions: &["displayed numbers are compared to 1e-11 relative precision", "the account name is the tool's fixed one, Admin"],
        run: |ctx| {
            let mut memo = vec![];
            for n in 0..=ctx.by(3, 4) { for tr in call_trees(n, &mut memo) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let mut es = vec![];
                let down = |i: usize| num(["31", "17.5", "11", "8", "5", "3", "2", "1"][i % 8]);
                let up = |i: usize| if i % 2 == 0 { num(["4", "2.5", "6", "9"][i / 2 % 4]) } else { [var("v0"), field("tab", "fc"), var("m"), field("tab", "fd")][i / 2 % 4].clone() };
                let vs = |i: usize| [var("m"), field("tab", "fb"), num("3")][i % 3].clone();
                es.push(number(&tr, &mut 0, &down));
                es.push(number(&tr, &mut 0, &up));
                es.push(number(&tr, &mut 0, &vs));
                let mut pro = prologue();
                pro.push(set("m", bin(Op::Sub, int(2), int(9))));
                let k = es[0].src();
                ctx.case(|| format!("tree {}", k), |ctx| check_exprs(ctx, pro, es));
            } }
            // Min: every list
            let vals = [num("9"), num("10"), num("2.5"), var("m"), field("tab", "fc"), num("100")];
            let mut pro = prologue();
            pro.push(set("m", bin(Op::Sub, int(2), int(9))));
            for n in 1..=ctx.by(4, 6) { for c in 0..(vals.len() as u64).pow(n as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let a: Vec<E> = digits(c, vals.len() as u64, n).iter().map(|d| vals[*d].clone()).collect();
                let e = call("Min", a);
                let es = vec![e.clone(), bin(Op::Add, e.clone(), int(1)), bin(Op::Mul, int(2), e.clone()), call("Abs", vec![e.clone()])];
                ctx.case(|| e.src(), |ctx| check_exprs(ctx, pro.clone(), es));
            } }
            let tv: Vec<E> = ["b", "a", "ab", "a!", "B"].iter().map(|x| txt(x)).collect();
            for n in 1..=4 { for c in 0..5u64.pow(n) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let a: Vec<E> = digits(c, 5, n as usize).iter().map(|d| tv[*d].clone()).collect();
                let e = call("Min", a);
                ctx.case(|| e.src(), |ctx| check_exprs(ctx, vec![], vec![e.clone(), bin(Op::Cat, txt("<"), e.clone())]));
            } }
            // every call in every position of every other, with text calls
            let leaves = [num("9"), num("0.5"), var("m")];
            let unary = ["Abs", "Acos", "Asin", "Min"];
            let mut calls: Vec<E> = vec![call("Get", vec![var("AccountName")]), call("Char", vec![int(65)]), call("Char", vec![bin(Op::Add, int(60), int(5))])];
            for u in unary { for l in &leaves { calls.push(call(u, vec![l.clone()])); } }
            for a in &leaves { for b in &leaves { calls.push(call("Min", vec![a.clone(), b.clone()])); } }
            for x in calls.clone() { for y in calls.clone() {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let mut es = vec![x.clone()];
                for op in [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Cat, Op::Eq, Op::Lt, Op::Ge] { es.push(bin(op, x.clone(), y.clone())); es.push(par(bin(op, par(x.clone()), y.clone()))); }
                es.push(call("Min", vec![x.clone(), y.clone()]));
                es.push(call("Min", vec![int(1), x.clone(), y.clone(), int(2)]));
                es.push(call("Abs", vec![bin(Op::Sub, x.clone(), y.clone())]));
                es.push(bin(Op::Cat, bin(Op::Cat, x.clone(), txt(", ")), y.clone()));
                ctx.case(|| format!("{} with {}", x.src(), y.src()), |ctx| check_exprs(ctx, pro.clone(), es));
            } }
            // calls inside of calls
            for n in (1..=24usize).chain([31, 32, 33, 40, 48, 63, 64, 65, 100]) { for kind in 0..8usize {
                ctx.case(|| format!("{} calls inside one another, kind {}", n, kind), |ctx| {
                    let mut e = match kind { 6 => var("m"), _ => num("7.5") };
                    for i in 0..n {
                        let k = int((n - i) as i64);
                        e = match kind {
                            0 => call("Min", vec![e, k]), 1 => call("Min", vec![k, e]), 2 => call("Min", vec![int(90), e, k]),
                            3 => call("Abs", vec![e]), 4 => call("Abs", vec![bin(Op::Sub, e, k)]), 5 => call("Min", vec![bin(Op::Add, par(e), int(1)), k]),
                            6 => if i % 2 == 0 { call("Abs", vec![e]) } else { call("Min", vec![par(e), k]) },
                            _ => par(call("Min", vec![call("Abs", vec![par(bin(Op::Sub, int(0), e))]), k])),
                        };
                    }
                    check_exprs(ctx, pro.clone(), vec![e.clone(), bin(Op::Add, e.clone(), int(1)), call("Min", vec![e.clone(), int(3)]), bin(Op::Sub, int(4), e)])
                });
            } }
            // Char: every code
            let top = ctx.by(0x3000u32, 0x110000);
            let mut c = 1u32;
            while c < top {
                let hi = (c + 64).min(top);
                let codes: Vec<u32> = (c..hi).filter(|c| char::from_u32(*c).is_some() && *c != 10 && *c != 27).collect();
                c = hi;
                if codes.is_empty() { continue; }
                let es: Vec<E> = codes.iter().map(|c| call("Char", vec![int(*c as i64)])).collect();
                ctx.case(|| format!("Char({})..", codes[0]), |ctx| check_exprs(ctx, vec![], es));
            }
        } }
}
