// Abstract syntax, source rendering and the reference interpreter for the burn
// script language, written from the documented behaviour, independently of the tool.
use std::collections::{BTreeMap, HashMap};
use super::world::World;

#[derive(Clone, Debug, PartialEq)]
pub enum V { Num(f64), Text(String), Bool(bool), Empty }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Add, Sub, Mul, Div, Cat, Eq, Ne, Lt, Le, Gt, Ge }
pub const ARITH: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
pub const CMPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
impl Op {
    pub fn prec(self) -> u8 { match self { Op::Mul | Op::Div => 4, Op::Add | Op::Sub => 3, Op::Cat => 2, _ => 1 } }
    pub fn sym(self) -> &'static str {
        match self { Op::Add => "+", Op::Sub => "-", Op::Mul => "*", Op::Div => "/", Op::Cat => "&",
            Op::Eq => "==", Op::Ne => "!=", Op::Lt => "<", Op::Le => "<=", Op::Gt => ">", Op::Ge => ">=" }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Num(String),
    Str(String),
    Var(String),
    Field(String, String),
    Bin(Op, Box<E>, Box<E>),
    Call(String, Vec<E>),
    Par(Box<E>),
}
pub fn num(s: &str) -> E { E::Num(s.to_string()) }
pub fn int(i: i64) -> E { E::Num(i.to_string()) }
pub fn txt(s: &str) -> E { E::Str(s.to_string()) }
pub fn var(s: &str) -> E { E::Var(s.to_string()) }
pub fn field(o: &str, f: &str) -> E { E::Field(o.to_string(), f.to_string()) }
pub fn bin(op: Op, a: E, b: E) -> E { E::Bin(op, Box::new(a), Box::new(b)) }
pub fn call(f: &str, a: Vec<E>) -> E { E::Call(f.to_string(), a) }
pub fn par(a: E) -> E { E::Par(Box::new(a)) }
pub fn eq(a: E, b: E) -> E { bin(Op::Eq, a, b) }
pub fn t() -> E { eq(int(1), int(1)) }
pub fn f() -> E { eq(int(1), int(2)) }

impl E {
    fn prec(&self) -> u8 { match self { E::Bin(op, ..) => op.prec(), _ => 9 } }
    /// Source text with the fewest parentheses.
    pub fn src(&self) -> String { let mut s = String::new(); self.put(&mut s); s }
    fn put(&self, s: &mut String) {
        match self {
            E::Num(n) => s.push_str(n),
            E::Str(x) => { s.push('"'); s.push_str(x); s.push('"') }
            E::Var(v) => s.push_str(v),
            E::Field(o, f) => { s.push_str(o); s.push_str("::"); s.push_str(f) }
            E::Par(e) => { s.push('('); e.put(s); s.push(')') }
            E::Call(f, a) => {
                s.push_str(f);
                s.push('(');
                for (i, x) in a.iter().enumerate() { if i > 0 { s.push_str(", "); } x.put(s); }
                s.push(')');
            }
            E::Bin(op, a, b) => {
                let p = op.prec();
                let wrap = |s: &mut String, e: &E, need: bool| {
                    if need { s.push('('); }
                    e.put(s);
                    if need { s.push(')'); }
                };
                // comparisons of comparisons are always written with parentheses
                wrap(s, a, a.prec() < p || (p == 1 && a.prec() == 1));
                s.push(' '); s.push_str(op.sym()); s.push(' ');
                wrap(s, b, b.prec() <= p);
            }
        }
    }
    /// The same expression with every operation in its own parentheses.
    pub fn full(&self) -> E {
        match self {
            E::Bin(op, a, b) => par(bin(*op, a.full(), b.full())),
            E::Par(e) => par(e.full()),
            E::Call(f, a) => call(f, a.iter().map(|x| x.full()).collect()),
            e => e.clone(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            E::Bin(_, a, b) => 1 + a.size() + b.size(),
            E::Par(e) => e.size(),
            E::Call(_, a) => 1 + a.iter().map(|x| x.size()).sum::<u64>(),
            _ => 1,
        }
    }
}

pub fn show_num(x: f64) -> String { format!("{}", x) }

/// None: the expression is outside of the specified domain (division by zero, text in arithmetic, ...).
pub fn eval(e: &E, vars: &HashMap<String, V>, w: &World) -> Option<V> {
    Some(match e {
        E::Num(n) => V::Num(n.parse().ok()?),
        E::Str(s) => V::Text(s.clone()),
        E::Var(v) => vars.get(v).cloned().unwrap_or(V::Empty),
        E::Field(o, f) => w.get(o, f),
        E::Par(e) => eval(e, vars, w)?,
        E::Bin(op, a, b) => {
            let (x, y) = (eval(a, vars, w)?, eval(b, vars, w)?);
            match op {
                Op::Add | Op::Sub | Op::Mul | Op::Div => match (x, y) {
                    (V::Num(x), V::Num(y)) => {
                        if *op == Op::Div && y == 0.0 { return None; }
                        let r = match op { Op::Add => x + y, Op::Sub => x - y, Op::Mul => x * y, _ => x / y };
                        if !r.is_finite() { return None; }
                        V::Num(r)
                    }
                    _ => return None,
                },
                Op::Cat => {
                    let s = |v: V| -> Option<String> { Some(match v { V::Num(n) => show_num(n), V::Text(t) => t, V::Empty => String::new(), V::Bool(_) => return None }) };
                    V::Text(s(x)? + &s(y)?)
                }
                _ => V::Bool(compare(*op, &x, &y)?),
            }
        }
        E::Call(name, args) if name == "Get" => match args.as_slice() {
            [E::Var(v)] if v == "AccountName" => V::Text("Admin".into()),
            _ => return None,
        },
        E::Call(name, args) => {
            let vs: Vec<V> = args.iter().map(|a| eval(a, vars, w)).collect::<Option<_>>()?;
            match (name.as_str(), vs.as_slice()) {
                ("Abs", [V::Num(x)]) => V::Num(x.abs()),
                ("Acos", [V::Num(x)]) if x.abs() <= 1.0 => V::Num(x.acos()),
                ("Asin", [V::Num(x)]) if x.abs() <= 1.0 => V::Num(x.asin()),
                ("Char", [V::Num(x)]) => {
                    if *x < 1.0 || x.fract() != 0.0 { return None; }
                    V::Text(char::from_u32(*x as u32)?.to_string())
                }
                ("Min", vs) if !vs.is_empty() => {
                    let mut best: Option<V> = None;
                    for v in vs {
                        best = Some(match (best, v) {
                            (None, v) => v.clone(),
                            (Some(V::Num(a)), V::Num(b)) => V::Num(if *b < a { *b } else { a }),
                            (Some(V::Text(a)), V::Text(b)) => V::Text(if *b < a { b.clone() } else { a }),
                            _ => return None,
                        });
                    }
                    best?
                }
                _ => return None,
            }
        }
    })
}

pub fn compare(op: Op, x: &V, y: &V) -> Option<bool> {
    use std::cmp::Ordering;
    let tx = |v: &V| -> Option<String> { match v { V::Text(t) => Some(t.clone()), V::Empty => Some(String::new()), _ => None } };
    let o: Ordering = match (x, y) {
        (V::Num(a), V::Num(b)) => a.partial_cmp(b)?,
        (V::Bool(a), V::Bool(b)) => {
            if op != Op::Eq && op != Op::Ne { return None; }
            a.cmp(b)
        }
        _ => tx(x)?.cmp(&tx(y)?),
    };
    Some(match op {
        Op::Eq => o == Ordering::Equal, Op::Ne => o != Ordering::Equal,
        Op::Lt => o == Ordering::Less, Op::Le => o != Ordering::Greater,
        Op::Gt => o == Ordering::Greater, Op::Ge => o != Ordering::Less,
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Go { First, Last, Next, Prev, N(u32) }

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Mark(String),
    Show(E),
    Set(String, E),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    Loop(Vec<S>),
    ExitIf(E),
    Call(String),
    Assert(E),
    Exit(E),
    New,
    SetF(String, String, E),
    Layout(String),
    Go(Go),
    /// go_to_record with the exit option; true / false is the option's value
    GoX(Go, bool),
    Find,
    Perform,
    ShowAll,
}
pub fn mark(s: &str) -> S { S::Mark(s.to_string()) }
pub fn set(v: &str, e: E) -> S { S::Set(v.to_string(), e) }
pub fn setf(o: &str, f: &str, e: E) -> S { S::SetF(o.to_string(), f.to_string(), e) }
pub fn inc(v: &str) -> S { set(v, bin(Op::Add, var(v), int(1))) }

fn go_src(g: &Go) -> String {
    match g { Go::First => "\"first\"".into(), Go::Last => "\"last\"".into(), Go::Next => "\"next\"".into(), Go::Prev => "\"previous\"".into(), Go::N(n) => n.to_string() }
}

thread_local! { static REQUESTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn go_name() -> &'static str { if REQUESTS.get() { "go_to_request" } else { "go_to_record" } }
/// Has navigation written with its other name, go_to_request, while f runs.
pub fn requests<R>(f: impl FnOnce() -> R) -> R {
    REQUESTS.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    REQUESTS.set(false);
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

pub fn put_block(b: &[S], ind: usize, out: &mut String) {
    let pad = "  ".repeat(ind);
    for s in b {
        match s {
            S::If(arms, els) => {
                for (i, (c, body)) in arms.iter().enumerate() {
                    if i == 0 { out.push_str(&format!("{}if({}) {{\n", pad, c.src())); }
                    else { out.push_str(&format!("{}}} elif({}) {{\n", pad, c.src())); }
                    put_block(body, ind + 1, out);
                }
                if let Some(e) = els { out.push_str(&format!("{}}} else {{\n", pad)); put_block(e, ind + 1, out); }
                out.push_str(&format!("{}}}\n", pad));
            }
            S::Loop(body) => {
                out.push_str(&format!("{}loop {{\n", pad));
                put_block(body, ind + 1, out);
                out.push_str(&format!("{}}}\n", pad));
            }
            s => { out.push_str(&pad); out.push_str(&step_src(s)); out.push_str(";\n"); }
        }
    }
}
pub fn step_src(s: &S) -> String {
    match s {
        S::Mark(m) => format!("show_custom_dialog(\"@{}\")", m),
        S::Show(e) => format!("show_custom_dialog({})", e.src()),
        S::Set(v, e) => format!("set_variable({}, {})", v, e.src()),
        S::ExitIf(e) => format!("exit_loop_if({})", e.src()),
        S::Call(n) => format!("perform_script(\"{}\")", n),
        S::Assert(e) => format!("assert({})", e.src()),
        S::Exit(e) => format!("exit_script({})", e.src()),
        S::New => "new_record_request()".into(),
        S::SetF(o, f, e) => format!("set_field({}::{}, {})", o, f, e.src()),
        S::Layout(l) => format!("go_to_layout(\"{}\")", l),
        S::Go(g) => format!("{}({})", go_name(), go_src(g)),
        S::GoX(g, x) => format!("{}({}, \"{}\")", go_name(), go_src(g), x),
        S::Find => "enter_find_mode()".into(),
        S::Perform => "perform_find()".into(),
        S::ShowAll => "show_all_records()".into(),
        S::If(..) | S::Loop(_) => unreachable!(),
    }
}
pub fn script_src(name: &str, b: &[S]) -> String {
    let mut s = format!("define {}() {{\n", name);
    put_block(b, 1, &mut s);
    s.push_str("}\n");
    s
}
pub fn test_src(name: &str, b: &[S]) -> String {
    format!("test {}:\n  script: [\n{}  ],\nend test;\n", name, script_src(name, b))
}
pub fn scripts_src(scripts: &[(String, Vec<S>)]) -> String {
    let mut s = String::from("script: [\n");
    for (n, b) in scripts { s.push_str(&script_src(n, b)); }
    s.push_str("]\n");
    s
}

/// Other names and numbers for a program (`Program::renamed`); all of these are one-to-one.
pub fn new_name(n: &str) -> String {
    match n {
        "two" => "Two2".into(), "other" => "oTHer_3".into(), "ltwo" => "L two".into(), "lother" => "Lay OTHER".into(), "jobs" => "Jobs".into(),
        "a" => "Ab".into(), "b" => "b_C9".into(), "fb" => "fB".into(), "fd" => "FD1".into(), "fe" => "fieldE".into(), "v" => "vV".into(),
        // names that end in an odd digit start in upper case
        n if n.ends_with(['1', '3', '5', '7', '9']) => n[..1].to_uppercase() + &n[1..],
        n => n.into(),
    }
}
pub fn new_table(i: usize) -> usize { match i { 1 => 3, 2 => 127, i => i + 10 } }
pub fn new_occ(i: usize) -> usize { match i { 1 => 2, 2 => 5, 3 => 126, i => i + 20 } }
pub fn new_layout(i: usize) -> usize { match i { 2 => 40, 3 => 200, i => i } }
pub fn new_field(i: u16) -> u16 { match i { 2 => 100, 3 => 7, 4 => 200, i => i } }
fn new_expr(e: &E) -> E {
    match e {
        E::Var(v) => E::Var(if v == "AccountName" { v.clone() } else { new_name(v) }),
        E::Field(o, f) => E::Field(new_name(o), new_name(f)),
        E::Bin(op, a, b) => bin(*op, new_expr(a), new_expr(b)),
        E::Call(f, a) => call(f, a.iter().map(new_expr).collect()),
        E::Par(e) => par(new_expr(e)),
        e => e.clone(),
    }
}
pub fn renamed(b: &[S]) -> Vec<S> {
    b.iter().map(|s| match s {
        S::Show(e) => S::Show(new_expr(e)),
        S::Set(v, e) => S::Set(new_name(v), new_expr(e)),
        S::If(arms, els) => S::If(arms.iter().map(|(c, b)| (new_expr(c), renamed(b))).collect(), els.as_ref().map(|b| renamed(b))),
        S::Loop(b) => S::Loop(renamed(b)),
        S::ExitIf(e) => S::ExitIf(new_expr(e)),
        S::Call(n) => S::Call(new_name(n)),
        S::Assert(e) => S::Assert(new_expr(e)),
        S::Exit(e) => S::Exit(new_expr(e)),
        S::SetF(o, f, e) => S::SetF(new_name(o), new_name(f), new_expr(e)),
        S::Layout(l) => S::Layout(new_name(l)),
        s => s.clone(),
    }).collect()
}

/// What running one test must show.
#[derive(Clone, Debug, PartialEq)]
pub struct Expected { pub name: String, pub dialogs: Vec<V>, pub pass: bool }

#[derive(PartialEq)]
enum Flow { Next, ExitLoop, ExitScript, Failed }

pub struct Interp<'a> {
    pub scripts: &'a BTreeMap<String, Vec<S>>,
    pub world: World,
    pub dialogs: Vec<V>,
    pub steps: u64,
    pub fuel: u64,
    pub states: Vec<u64>,
    salt: u64,
    failed: bool,
}
#[derive(Debug)]
pub struct OutOfDomain;

impl<'a> Interp<'a> {
    pub fn new(scripts: &'a BTreeMap<String, Vec<S>>, world: World, salt: u64) -> Self {
        Interp { scripts, world, dialogs: vec![], steps: 0, fuel: 20000, states: vec![], salt, failed: false }
    }
    pub fn run_test(&mut self, name: &str, body: &[S]) -> Result<Expected, OutOfDomain> {
        self.dialogs.clear();
        self.failed = false;
        let mut vars = HashMap::new();
        self.block(body, &mut vars, 0)?;
        Ok(Expected { name: name.to_string(), dialogs: std::mem::take(&mut self.dialogs), pass: !self.failed })
    }
    fn state(&mut self, at: *const S, vars: &HashMap<String, V>, depth: usize) {
        // reference configuration: position in this program, variables, world, trace length
        let mut v: Vec<(String, String)> = vars.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect();
        v.sort();
        let _ = at;
        self.states.push(super::engine::h64(&(self.salt, self.steps, v, self.world.digest(), self.dialogs.len(), depth)));
    }
    fn val(&mut self, e: &E, vars: &HashMap<String, V>) -> Result<V, OutOfDomain> { eval(e, vars, &self.world).ok_or(OutOfDomain) }
    fn cond(&mut self, e: &E, vars: &HashMap<String, V>) -> Result<bool, OutOfDomain> {
        match self.val(e, vars)? { V::Bool(b) => Ok(b), _ => Err(OutOfDomain) }
    }
    fn block(&mut self, b: &[S], vars: &mut HashMap<String, V>, depth: usize) -> Result<Flow, OutOfDomain> {
        if depth > 400 { return Err(OutOfDomain); }
        for s in b {
            self.steps += 1;
            if self.steps > self.fuel { return Err(OutOfDomain); }
            self.state(s, vars, depth);
            match s {
                S::Mark(m) => self.dialogs.push(V::Text(format!("@{}", m))),
                S::Show(e) => { let v = self.val(e, vars)?; self.dialogs.push(v); }
                S::Set(n, e) => { let v = self.val(e, vars)?; vars.insert(n.clone(), v); }
                S::If(arms, els) => {
                    let mut done = false;
                    for (c, body) in arms {
                        if self.cond(c, vars)? {
                            done = true;
                            let f = self.block(body, vars, depth)?;
                            if f != Flow::Next { return Ok(f); }
                            break;
                        }
                    }
                    if !done { if let Some(body) = els {
                        let f = self.block(body, vars, depth)?;
                        if f != Flow::Next { return Ok(f); }
                    } }
                }
                S::Loop(body) => loop {
                    self.steps += 1;
                    if self.steps > self.fuel { return Err(OutOfDomain); }
                    match self.block(body, vars, depth)? { Flow::Next => {}, Flow::ExitLoop => break, f => return Ok(f) }
                },
                S::ExitIf(e) => if self.cond(e, vars)? { return Ok(Flow::ExitLoop); },
                S::Call(n) => {
                    if let Some(body) = self.scripts.get(n) {
                        let mut inner = HashMap::new();
                        let f = self.block(body, &mut inner, depth + 1)?;
                        if f == Flow::Failed { return Ok(f); }
                    }
                }
                S::Assert(e) => if !self.cond(e, vars)? { self.failed = true; return Ok(Flow::Failed); },
                S::Exit(_) => return Ok(Flow::ExitScript),
                S::New => self.world.new_record(),
                S::SetF(o, f, e) => { let v = self.val(e, vars)?; self.world.set(o, f, v); }
                S::Layout(l) => self.world.layout(l),
                S::Go(g) => { self.world.go(g); }
                S::GoX(g, x) => { if !self.world.go(g) && *x { return Ok(Flow::ExitLoop); } }
                S::Find => self.world.enter_find(),
                S::Perform => self.world.perform_find(),
                S::ShowAll => self.world.show_all(),
            }
        }
        Ok(Flow::Next)
    }
}
