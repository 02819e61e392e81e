// C12 found sets, C13 field values, C14 navigation, C15 finds: histories of database steps.
use super::engine::{h64, Ctx, Prop};
use super::fm::Program;
use super::lang::*;
use super::props_calc::digits;
use super::props_run::{find, rec, schema_data};
use super::world::{Occ, Schema, Table, World};
use std::collections::HashSet;
use std::rc::Rc;

const OCCS: [&str; 3] = ["one", "two", "other"];
const LAYS: [&str; 3] = ["lone", "ltwo", "lother"];

/// Steps of a history, as operations on the current occurrence.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op1 { New(usize), Lay(usize), First, Last, Next, Prev, N(u32), FindA(usize), All, Set(usize, usize), FindB,
    /// a record of which nothing is set; writes that use the field's own value, or another field's; finds without a criterion
    Bare, App(usize, usize), Copy(usize), FindNo, Perform }
const VALS: [&str; 3] = ["x", "y", "z"];

/// The steps of a history; record keys and written values are numbered by their place in it.
fn steps(h: &[Op1]) -> Vec<(Op1, Vec<S>)> {
    let mut cur = 0;
    h.iter().enumerate().map(|(i, op)| {
        let o = OCCS[cur];
        let s = match op {
            Op1::New(v) => rec(o, &format!("r{}", i), VALS[*v]),
            Op1::Lay(l) => { cur = *l; vec![S::Layout(LAYS[*l].into())] }
            Op1::First => vec![S::Go(Go::First)], Op1::Last => vec![S::Go(Go::Last)], Op1::Next => vec![S::Go(Go::Next)], Op1::Prev => vec![S::Go(Go::Prev)],
            Op1::N(n) => vec![S::Go(Go::N(*n))],
            Op1::FindA(v) => find(o, "a", txt(VALS[*v])),
            Op1::FindB => find(o, "k", txt("w0")),
            Op1::All => vec![S::ShowAll],
            Op1::Bare => vec![S::New],
            Op1::App(o, f) => { let f = ["k", "a"][*f]; vec![setf(OCCS[*o], f, bin(Op::Cat, field(OCCS[*o], f), txt(&format!("+{}", i))))] }
            Op1::Copy(o) => vec![setf(OCCS[*o], "k", field(OCCS[*o], "a"))],
            // where an empty result shows all records, the position among them is left open
            Op1::FindNo => vec![S::Find, S::Perform, S::Go(Go::First)],
            Op1::Perform => vec![S::Perform, S::Go(Go::First)],
            Op1::Set(o, f) => vec![setf(OCCS[*o], ["k", "a"][*f], txt(&format!("w{}", i)))],
        };
        (*op, s)
    }).collect()
}
fn show_current(f: &[&str]) -> Vec<S> { OCCS.iter().flat_map(|o| f.iter().map(move |f| S::Show(field(o, f)))).collect() }
/// Walk every occurrence's found set, then all records of each.
/// (Not `wide`: only through the current occurrence, and nothing of tables without records.)
fn walk(n: usize, f: &[&str], all: bool, wide: bool, used: [bool; 2]) -> Vec<S> {
    let mut v = vec![];
    for (i, (o, l)) in OCCS.iter().zip(LAYS).enumerate() {
        if !wide && !used[i / 2] { continue; }
        v.push(S::Layout(l.into()));
        if all { v.push(S::ShowAll); }
        v.push(S::Go(Go::First));
        for f in f { v.push(S::Show(field(o, f))); }
        for _ in 0..n { v.push(S::Go(Go::Next)); for f in f { v.push(S::Show(field(o, f))); } }
        v.push(S::Go(Go::Last));
        v.push(S::Show(field(o, f[0])));
    }
    if wide { v.extend(show_current(&f[..1])); }
    v
}
fn records(h: &[Op1]) -> usize { h.iter().filter(|o| matches!(o, Op1::New(_) | Op1::Bare)).count() }
/// The number of records in each found set, and of all records.
fn counts(used: [bool; 2]) -> Vec<S> {
    let mut v = vec![];
    for (i, l) in LAYS.iter().enumerate() {
        if !used[i / 2] { continue; }
        for all in [false, true] {
            v.push(S::Layout(l.to_string()));
            if all { v.push(S::ShowAll); }
            v.extend([S::Go(Go::First), set("n", int(0)), S::Loop(vec![inc("n"), S::ExitIf(bin(Op::Gt, var("n"), int(20))), S::GoX(Go::Next, true)]), S::Show(var("n"))]);
        }
    }
    v
}

fn one(ctx: &mut Ctx, body: Vec<S>) -> Result<(), String> {
    Program { schema: schema_data(), scripts: vec![], tests: vec![("db".into(), body)] }.conform(ctx)
}

/// The history with everything shown after each step, and the found sets listed at its end.
fn history(h: &[Op1], f: &[&str], all: bool, wide: bool) -> Vec<S> {
    let mut cur = 0;
    let seen = |cur: usize| -> Vec<S> { if wide { show_current(f) } else { f.iter().map(|f| S::Show(field(OCCS[cur], f))).collect() } };
    let mut b = if wide { seen(0) } else { vec![] };
    let mut used = [false; 2];
    for (op, s) in steps(h) {
        b.extend(s);
        if let Op1::Lay(l) = op { cur = l; }
        if let Op1::New(_) = op { used[cur / 2] = true; }
        if wide || used[cur / 2] { b.extend(seen(cur)); }
    }
    b.extend(walk(records(h), f, false, wide, used));
    if all { b.extend(walk(records(h), f, true, wide, used)); }
    b
}
fn sequences(ctx: &mut Ctx, ops: &[Op1], len: usize, f: &[&str], all: bool) {
    let k = ops.len() as u64;
    for l in 0..=len { for i in 0..k.pow(l as u32) {
        let h: Vec<Op1> = digits(i, k, l).iter().map(|d| ops[*d]).collect();
        for wide in [false, true] { ctx.case(|| format!("{}{:?}", if wide { "all of " } else { "" }, h), |ctx| one(ctx, history(&h, f, all, wide))); }
        if l > 1 { ctx.case(|| format!("at the end of {:?}", h), |ctx| one(ctx, quiet(&h, f, all))); }
    } }
}
/// The history with nothing shown before its end.
fn quiet(h: &[Op1], f: &[&str], all: bool) -> Vec<S> {
    let mut cur = 0;
    let mut used = [false; 2];
    let mut b = vec![];
    for (op, s) in steps(h) {
        b.extend(s);
        if let Op1::Lay(l) = op { cur = l; }
        if let Op1::New(_) | Op1::Bare = op { used[cur / 2] = true; }
    }
    if h.contains(&Op1::Bare) { b.extend(counts(used)); return b; }
    if used[cur / 2] { for f in f { b.push(S::Show(field(OCCS[cur], f))); } }
    b.extend(walk(records(h), f, all, false, used));
    b
}
/// The model's state after a history, with records named by their order of creation.
fn after(h: &[Op1]) -> World {
    let scripts = Default::default();
    let mut it = Interp::new(&scripts, World::new(Rc::new(schema_data())), 0);
    let body: Vec<S> = steps(h).into_iter().flat_map(|x| x.1).collect();
    it.run_test("h", &body).expect("history");
    it.world
}
fn shape(w: &World) -> u64 {
    // values other than the keys matter for finds
    let vals: Vec<Vec<String>> = w.recs.iter().map(|t| t.iter().map(|r| format!("{:?}", r[1])).collect()).collect();
    h64(&(vals, &w.found, &w.pos, w.cur))
}
/// Every state the model reaches with up to so many records, by one shortest history each, and
/// from each state every operation.
fn reachable(ctx: &mut Ctx, ops: &[Op1], max_records: usize, max_len: usize, f: &[&str]) {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut level: Vec<Vec<Op1>> = vec![vec![]];
    seen.insert(shape(&after(&[])));
    for len in 0..=max_len {
        let mut next = vec![];
        for h in &level {
            for op in ops {
                if matches!(op, Op1::New(_)) && records(h) >= max_records { continue; }
                let mut g = h.clone();
                g.push(*op);
                for wide in [false, true] { ctx.case(|| format!("{}from the state after {:?}: {:?}", if wide { "all of " } else { "" }, h, op), |ctx| one(ctx, history(&g, f, false, wide))); }
                if len < max_len && seen.insert(shape(&after(&g))) { next.push(g); }
            }
        }
        level = next;
        if level.is_empty() { break; }
    }
    let n = seen.len() as u64;
    if ctx.is_first_worker() { ctx.count("model_states_expanded", n); if level.is_empty() { ctx.count("state_space_closed", 1); } }
}

pub fn c12() -> Prop {
    Prop { id: "C12", level: "model_checking",
        rule: "the reachable states of the model database (two tables, three occurrences, up to 4 records; thorough 5) up to the stated depth, each by a shortest history, with every operation from each of them; and every history of up to 4 (thorough 5) operations out of record creation with two values, layout changes, first / last / next / previous / by number, finds that match and do not, and show-all; all occurrences' current records are shown after every operation, and all found sets listed at the end; each history also with nothing shown before its end; every history of up to 4 (thorough 5) of 12 operations with records of which nothing is set and finds without criteria, the records of all found sets counted at its end.",
        assumptions: &["A find is entering find mode, one criterion on the current occurrence, and performing it."],
        run: |ctx| {
            let ops = [Op1::New(0), Op1::New(1), Op1::Lay(0), Op1::Lay(1), Op1::Lay(2), Op1::First, Op1::Last, Op1::Next, Op1::Prev, Op1::N(1), Op1::FindA(0), Op1::FindA(1), Op1::FindA(2), Op1::All];
            reachable(ctx, &ops, ctx.by(4, 5), ctx.by(7, 12), &["k"]);
            sequences(ctx, &ops, ctx.by(4, 5), &["k"], false);
            // nothing between the steps, and how many records there are in the end
            let ops = [Op1::Bare, Op1::New(0), Op1::New(1), Op1::Lay(0), Op1::Lay(1), Op1::Lay(2), Op1::First, Op1::Prev, Op1::FindA(0), Op1::FindNo, Op1::Perform, Op1::All];
            let k = ops.len() as u64;
            for l in 1..=ctx.by(4usize, 5) { for i in 0..k.pow(l as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let mut h: Vec<Op1> = digits(i, k, l).iter().map(|d| ops[*d]).collect();
                if !h.contains(&Op1::Bare) { h.push(Op1::Bare); }
                ctx.case(|| format!("counted after {:?}", h), |ctx| one(ctx, quiet(&h, &["k"], false)));
            } }
        } }
}

pub fn c13() -> Prop {
    Prop { id: "C13", level: "model_checking",
        rule: "every history of up to 4 (thorough 5) operations, and of 3 (thorough 4) after the creation of three records, out of record creation, setting either of two fields through each of three occurrences, layout changes, navigation, a find and show-all; after every operation both fields of every occurrence's current record are shown, at the end all fields of all records of all found sets and of all tables; each history also with nothing shown before its end; every sequence of up to 4 (thorough 5) of 12 operations with writes that use the field's own or another field's value. All of a field's values and the reading back of 16 values through every occurrence; every pair of 21 field names that differ in case, length, one character or look like something else, under 7 such names of occurrences; up to 120 tables and 126 occurrences numbered in four ways; up to 257 records.",
        assumptions: &["Fields are set outside of find mode."],
        run: |ctx| {
            let ops = [Op1::New(0), Op1::Set(0, 0), Op1::Set(0, 1), Op1::Set(1, 0), Op1::Set(1, 1), Op1::Set(2, 0), Op1::Set(2, 1), Op1::Lay(0), Op1::Lay(1), Op1::Lay(2), Op1::First, Op1::Next, Op1::FindA(0), Op1::All];
            // two records of one table, one of the other, to begin with
            let pre = [Op1::New(0), Op1::New(1), Op1::Lay(2), Op1::New(0), Op1::Lay(0)];
            sequences(ctx, &ops, ctx.by(4, 5), &["k", "a"], true);
            let k = ops.len() as u64;
            let len = ctx.by(3usize, 4);
            for l in 1..=len { for i in 0..k.pow(l as u32) {
                let mut h = pre.to_vec();
                h.extend(digits(i, k, l).iter().map(|d| ops[*d]));
                for wide in [false, true] { ctx.case(|| format!("{}two and one records, then {:?}", if wide { "all of " } else { "" }, &h[pre.len()..]), |ctx| one(ctx, history(&h, &["k", "a"], true, wide))); }
            } }
            // writes that use what is there, with nothing between them
            {
                let ops = [Op1::Set(0, 0), Op1::Set(0, 1), Op1::Set(1, 1), Op1::App(0, 0), Op1::App(0, 1), Op1::App(1, 1), Op1::App(2, 0), Op1::Copy(0), Op1::Copy(2), Op1::Last, Op1::First, Op1::Lay(2)];
                let k = ops.len() as u64;
                for l in 1..=ctx.by(4usize, 5) { for i in 0..k.pow(l as u32) {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let mut h = pre.to_vec();
                    h.extend(digits(i, k, l).iter().map(|d| ops[*d]));
                    ctx.case(|| format!("two and one records, then at once {:?}", &h[pre.len()..]), |ctx| one(ctx, quiet(&h, &["k", "a"], true)));
                } }
            }
            // values
            let vals: Vec<E> = vec![int(0), int(7), bin(Op::Sub, int(2), int(9)), num("2.5"), num("0.125"), int(1000000), txt(""), txt("a"), txt("two words"), txt("é€"), txt("x_1"), txt("10"), txt("1e3"), bin(Op::Cat, txt("a"), int(1)), bin(Op::Mul, int(6), int(7)), var("v")];
            for (i, a) in vals.iter().enumerate() { for (j, b) in vals.iter().enumerate() { for o in 0..3 {
                ctx.case(|| format!("values {} and {} through {}", i, j, OCCS[o]), |ctx| {
                    let mut b1 = vec![set("v", txt("of v")), S::Layout(LAYS[o].into()), S::New, setf(OCCS[o], "a", a.clone()), S::Show(field(OCCS[o], "a")), S::Show(field(OCCS[o], "k")), S::New];
                    b1.extend([setf(OCCS[o], "a", b.clone()), setf(OCCS[o], "k", field(OCCS[o], "a")), S::Show(field(OCCS[o], "k")), S::Go(Go::First), S::Show(field(OCCS[o], "a")), setf(OCCS[o], "a", b.clone()), S::Show(field(OCCS[o], "a"))]);
                    b1.extend(show_current(&["a", "k"]));
                    b1.extend([S::Go(Go::Last), S::Show(field(OCCS[o], "a")), S::Show(field(OCCS[o], "k"))]);
                    one(ctx, b1)
                });
            } } }
            // names that differ only a little, or look like something else
            let fields = ["f", "F", "Name", "name", "NAME", "fB2", "fb2", "my_field", "my", "field", "été", "_x", "x_", "x", "a1b2", "ab", "abc", "aB", "true", "Min", "nan"];
            let occs = ["tab", "Tab", "t_b", "x1", "ta", "Min", "été"];
            for (i, a) in fields.iter().enumerate() { for b in &fields[..i] { for (j, o) in occs.iter().enumerate() {
                if ctx.quick() && (i + b.len() + j) % 3 != 0 { continue; }
                ctx.case(|| format!("fields {} and {} of {}", a, b, o), |ctx| {
                    let p = occs[(j + 1) % occs.len()];
                    let tables = vec![Table { id: 2, name: "people".into(), fields: vec![(1, a.to_string()), (2, b.to_string()), (7, "other".into())] }, Table { id: 9, name: "jobs".into(), fields: vec![(3, b.to_string()), (4, a.to_string())] }];
                    let occ = vec![Occ { id: 3, name: o.to_string(), table: 2 }, Occ { id: 4, name: p.to_string(), table: 9 }];
                    let schema = Schema { tables, occs: occ, layouts: vec![(5, "la".into(), 3), (6, "lb".into(), 4)], rels: vec![] };
                    let mut body = vec![];
                    for (l, o, v) in [("la", *o, 10), ("lb", p, 20)] {
                        body.extend([S::Layout(l.into()), S::New]);
                        let see = [S::Show(field(o, a)), S::Show(field(o, b)), S::Show(bin(Op::Cat, field(o, b), field(o, a)))];
                        body.push(setf(o, a, int(v)));
                        body.extend(see.clone());
                        body.push(setf(o, b, int(v + 1)));
                        body.extend(see.clone());
                        body.push(setf(o, a, bin(Op::Add, field(o, b), int(5))));
                        body.extend(see);
                    }
                    Program { schema, scripts: vec![], tests: vec![("names".into(), body)] }.conform_as_named(ctx)
                });
            } } }
            // many tables, fields and occurrences, numbered in several ways
            for (nt, no) in [(1usize, 2usize), (1, 30), (3, 31), (30, 30), (60, 120), (120, 120), (2, 126)] { for numbers in 0..4usize {
                ctx.case(|| format!("{} tables, {} occurrences, numbering {}", nt, no, numbers), |ctx| {
                    let tid = |i: usize| match numbers { 0 => i + 1, 1 => 255 - i, 2 => if i < 127 { 2 * i + 1 } else { 2 * (i - 126) }, _ => (i * 7) % 251 + 1 };
                    let oid = |i: usize| match numbers { 0 => i + 1, 1 => 127 - i, 2 => if i < 63 { 2 * i + 2 } else { 2 * (i - 63) + 1 }, _ => (i * 5) % 127 + 1 };
                    let fid = |t: usize, k: usize| ((t * 37 + k * 101) % 255 + 1) as u16;
                    let tables = (0..nt).map(|t| Table { id: tid(t), name: format!("t{}", t), fields: (0..3).map(|k| (fid(t, k), ["k", "a", "b"][k].to_string())).collect() }).collect();
                    let occs = (0..no).map(|i| Occ { id: oid(i), name: format!("occ{}", i), table: tid(i % nt) }).collect();
                    let layouts = (0..no).map(|i| (no - i, format!("l{}", i), oid(i))).collect();
                    let mut b = vec![];
                    for i in 0..no { b.extend([S::Layout(format!("l{}", i)), S::New, setf(&format!("occ{}", i), "a", int(i as i64)), setf(&format!("occ{}", i), "k", int(1000 + i as i64))]); }
                    for i in 0..no { b.extend([S::Layout(format!("l{}", i)), S::ShowAll, S::Go(Go::First), S::Show(field(&format!("occ{}", i), "a")), S::Go(Go::Last), S::Show(field(&format!("occ{}", i), "k")), S::Show(field(&format!("occ{}", i), "a"))]); }
                    Program { schema: Schema { tables, occs, layouts, rels: vec![] }, scripts: vec![], tests: vec![("wide".into(), b)] }.conform_as_named(ctx)
                });
            } }
            // many records
            for n in [5usize, 10, 25, 40, 65, 100, 129, 257] {
                ctx.case(|| format!("{} records", n), |ctx| {
                    let mut b = vec![];
                    for i in 0..n { b.extend(rec("one", &format!("k{}", i), &format!("a{}", i % 7))); }
                    for i in 0..n { b.extend([S::Go(Go::N(((i * 7) % n) as u32)), S::Show(field("one", "k")), S::Show(field("two", "k")), setf("one", "a", int(i as i64))]); }
                    b.push(S::Go(Go::First));
                    for _ in 0..n { b.extend([S::Show(field("one", "k")), S::Show(field("one", "a")), S::Go(Go::Next)]); }
                    one(ctx, b)
                });
            }
        } }
}

pub fn c14() -> Prop {
    Prop { id: "C14", level: "model_checking",
        rule: "from the found set of every subset of up to 4 records (and the empty one) of one occurrence: every sequence of up to 3 (thorough 5) navigation steps out of first, last, next, previous and seven record numbers, with the record shown after each and only at the end; visiting loops with next / previous and the exit option true, false and absent, from every start, with the step first or last, nested in loops, branches and calls, over one and two occurrences, with steps after it.",
        assumptions: &[],
        run: |ctx| {
            let gos: Vec<Go> = vec![Go::First, Go::Last, Go::Next, Go::Prev, Go::N(0), Go::N(1), Go::N(2), Go::N(3), Go::N(4), Go::N(9), Go::N(1000)];
            let k = gos.len() as u64;
            let make = |n: usize, mask: u32| -> Vec<S> {
                let mut b = vec![];
                for i in 0..n { b.extend(rec("one", &format!("r{}", i), if mask >> i & 1 == 1 { "x" } else { "y" })); }
                if mask != 0 && mask.count_ones() < n as u32 { b.extend(find("one", "a", txt("x"))); }
                b
            };
            let subsets: Vec<(usize, u32)> = (0..=4usize).flat_map(|n| (0..1u32 << n).map(move |m| (n, m))).collect();
            for l in 0..=ctx.by(3usize, 5) { for i in 0..k.pow(l as u32) { for (n, mask) in &subsets {
                if *mask == 0 && *n > 0 { continue; } // same as all
                if l == 5 && (mask.count_ones() == 1 || *n < 3) { continue; }
                
                let g: Vec<Go> = digits(i, k, l).iter().map(|d| gos[*d].clone()).collect();
                if l > 1 { ctx.case(|| format!("{} records, found {:b}: at the end of {:?}", n, mask, g), |ctx| {
                    let mut b = make(*n, *mask);
                    for x in &g { b.push(S::Go(x.clone())); }
                    b.push(S::Show(field("one", "k")));
                    for x in g.iter().rev() { b.push(S::Go(x.clone())); }
                    b.extend([S::Show(field("one", "k")), S::Go(Go::Next), S::Show(field("one", "k"))]);
                    one(ctx, b)
                }); }
                ctx.case(|| format!("{} records, found {:b}: {:?}", n, mask, g), |ctx| {
                    let mut b = make(*n, *mask);
                    b.push(S::Show(field("one", "k")));
                    for x in &g { b.extend([S::Go(x.clone()), S::Show(field("one", "k"))]); }
                    b.extend([S::Layout("ltwo".into()), S::Show(field("two", "k"))]);
                    if l <= 2 { let b = b.clone(); requests(|| one(ctx, b))?; }
                    one(ctx, b)
                });
            } } }
            // visiting loops
            for (n, mask) in &subsets { for start in 0..4u32 { for dir in [Go::Next, Go::Prev, Go::First, Go::Last, Go::N(1)] { for opt in [None, Some(true), Some(false)] { for shape in 0..7usize {
                if *mask == 0 && *n > 0 || start > *n as u32 { continue; }
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("{} records, found {:b}, from {}: loop {:?} exit {:?} shape {}", n, mask, start, dir, opt, shape), |ctx| {
                    let mut b = make(*n, *mask);
                    b.push(S::Go(Go::N(start)));
                    let step = match opt { None => S::Go(dir.clone()), Some(x) => S::GoX(dir.clone(), x) };
                    let show = || S::Show(field("one", "k"));
                    let guard = vec![inc("n"), S::ExitIf(bin(Op::Gt, var("n"), int(8)))];
                    let z = set("n", int(0));
                    b.push(z.clone());
                    let v = |p: Vec<Vec<S>>| p.concat();
                    match shape {
                        0 => b.push(S::Loop(v(vec![guard, vec![show(), step, mark("again")]]))),
                        1 => b.push(S::Loop(v(vec![guard, vec![step, show()]]))),
                        2 => { b.push(set("m", int(0))); b.push(S::Loop(vec![inc("m"), z, S::Go(Go::N(start)), S::Loop(v(vec![guard, vec![show(), step]])), mark("outer"), S::ExitIf(eq(var("m"), int(2)))])); }
                        3 => b.push(S::Loop(v(vec![guard, vec![S::If(vec![(bin(Op::Gt, var("n"), int(1)), vec![step, mark("in")])], Some(vec![mark("first")])), show()]]))),
                        4 => b.push(S::Loop(v(vec![guard, vec![S::If(vec![(t(), vec![show()])], None), step, S::If(vec![(f(), vec![mark("no")])], Some(vec![mark("yes")]))]]))),
                        5 => { b.push(set("m", int(0))); b.push(S::Loop(vec![inc("m"), S::ExitIf(bin(Op::Gt, var("m"), int(4))), S::Loop(vec![mark("i"), S::ExitIf(t())]), show(), step])); }
                        _ => { b.push(S::If(vec![(t(), vec![S::Loop(v(vec![guard, vec![show(), step]])), mark("then")])], Some(vec![mark("else")]))); b.push(S::If(vec![(f(), vec![])], Some(vec![mark("other")]))); }
                    }
                    b.extend([mark("done"), show(), S::Go(Go::First), show(), S::Layout("ltwo".into()), S::Show(field("two", "k"))]);
                    if start == 1 { let b = b.clone(); requests(|| one(ctx, b))?; }
                    one(ctx, b)
                });
            } } } } }
            // two occurrences
            for n in 0..=3usize { for m in 0..=3usize { for opt in [true, false] {
                ctx.case(|| format!("nested loops over {} and {} records, exit {}", n, m, opt), |ctx| {
                    let mut b = vec![];
                    for i in 0..n { b.extend(rec("one", &format!("p{}", i), "x")); }
                    b.push(S::Layout("lother".into()));
                    for i in 0..m { b.extend(rec("other", &format!("j{}", i), "x")); }
                    b.extend([S::Layout("lone".into()), S::Go(Go::First), set("c", int(0))]);
                    let inner = vec![inc("c"), S::ExitIf(bin(Op::Gt, var("c"), int(20))), S::Show(field("one", "k")), S::Show(field("other", "k")), S::GoX(Go::Next, opt)];
                    b.push(S::Loop(vec![inc("c"), S::ExitIf(bin(Op::Gt, var("c"), int(20))), S::Layout("lother".into()), S::Go(Go::First), S::Loop(inner), S::Layout("lone".into()), S::GoX(Go::Next, true)]));
                    b.extend([mark("done"), S::Show(field("one", "k")), S::Show(field("other", "k"))]);
                    if (n + m) % 2 == 1 { requests(|| one(ctx, b)) } else { one(ctx, b) }
                });
            } } }
            for n in [10usize, 30, 65, 129, 257] { for dir in [Go::Next, Go::Prev] {
                ctx.case(|| format!("{} records visited {:?}", n, dir), |ctx| {
                    let mut b = vec![];
                    for i in 0..n { b.extend(rec("one", &format!("p{}", i), if i % 3 == 0 { "x" } else { "y" })); }
                    b.push(S::Go(if dir == Go::Next { Go::First } else { Go::Last }));
                    b.push(S::Loop(vec![S::Show(field("one", "k")), S::GoX(dir.clone(), true)]));
                    b.extend(find("one", "a", txt("x")));
                    b.push(S::Go(if dir == Go::Next { Go::First } else { Go::Last }));
                    b.push(S::Loop(vec![S::Show(field("one", "k")), S::GoX(dir.clone(), true)]));
                    b.push(mark("end"));
                    one(ctx, b)
                });
            } }
        } }
}

pub fn c15() -> Prop {
    Prop { id: "C15", level: "model_checking",
        rule: "every assignment of up to 3 (thorough 4) records over 6 values (texts of which one starts another, a number, empty, never set) x every find of one or two criteria over two fields, from every layout of the table; every sequence of two finds; finds after a find, a show-all, navigation and record creation; the found set, the other occurrences' and all records are listed afterwards; every sequence of up to 4 (thorough 5) of 12 operations with finds with and without criteria.",
        assumptions: &["Criteria are set through the current occurrence.", "Values are texts, or whole numbers as numbers on both sides."],
        run: |ctx| {
            // the value of a record's field: None leaves it as created
            let vals: [Option<E>; 6] = [Some(txt("x")), Some(txt("xx")), Some(txt("y 1")), Some(int(12)), Some(txt("")), None];
            let crit: [E; 7] = [txt("x"), txt("xx"), txt("y 1"), int(12), txt(""), txt("q"), int(1)];
            let k = vals.len() as u64;
            let wide = false;
            let listing = |n: usize| walk(n, &["k", "a"], false, wide, [n > 0, false]);
            let make = |c: u64, n: usize| -> Vec<S> {
                let mut b = vec![];
                for (i, d) in digits(c, k, n).iter().enumerate() {
                    b.extend([S::New, setf("one", "k", txt(&format!("r{}", i)))]);
                    if let Some(v) = &vals[*d] { b.push(setf("one", "a", v.clone())); }
                    b.push(setf("one", "b", txt(["x", "u", "xx"][i % 3])));
                }
                b
            };
            for n in 0..=ctx.by(3usize, 4) { for c in 0..k.pow(n as u32) {
                for q in 0..(crit.len() + crit.len() * crit.len() * 2) {
                    if n == 4 && q >= crit.len() && (c + q as u64) % 4 != 0 { continue; }
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let (q1, q2, second) = if q < crit.len() { (q, None, "a") } else { let r = q - crit.len(); (r % crit.len(), Some(r / crit.len() % crit.len()), if r / crit.len() / crit.len() == 0 { "a" } else { "b" }) };
                    ctx.case(|| format!("records {:?}, criteria {} {:?} on {}", digits(c, k, n), q1, q2, second), |ctx| {
                        for lay in 0..2 {
                            let mut b = make(c, n);
                            b.extend([S::Layout(LAYS[lay].into()), S::Find, setf(OCCS[lay], "a", crit[q1].clone())]);
                            if let Some(q2) = q2 { b.push(setf(OCCS[lay], second, crit[q2].clone())); }
                            b.push(S::Perform);
                            b.extend([S::Show(field(OCCS[lay], "k")), S::Show(field(OCCS[lay], "a"))]);
                            b.extend(listing(n));
                            one(ctx, b)?;
                            if n > 2 && q2.is_some() && ctx.quick() { break; }
                        }
                        Ok(())
                    });
                }
            } }
            // two finds
            for n in 1..=ctx.by(2usize, 3) { for c in 0..k.pow(n as u32) { for q1 in 0..crit.len() { for q2 in 0..crit.len() { for mid in 0..5usize {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("records {:?}, find {} then {} with {} between", digits(c, k, n), q1, q2, mid), |ctx| {
                    let mut b = make(c, n);
                    b.extend(find("one", "a", crit[q1].clone()));
                    match mid {
                        0 => {}
                        1 => b.push(S::ShowAll),
                        2 => b.extend([S::Go(Go::Last)]),
                        3 => b.extend(rec("one", "new", "x")),
                        _ => b.extend([S::Layout("ltwo".into())]),
                    }
                    b.push(S::Show(field(if mid == 4 { "two" } else { "one" }, "k")));
                    b.extend(find(if mid == 4 { "two" } else { "one" }, "a", crit[q2].clone()));
                    b.push(S::Show(field(if mid == 4 { "two" } else { "one" }, "k")));
                    b.extend(listing(n + 1));
                    b.push(S::ShowAll);
                    b.extend(listing(n + 1));
                    one(ctx, b)
                });
            } } } } }
            // every sequence of finds, with and without criteria, and what may come between
            {
                let ops = [Op1::FindA(0), Op1::FindA(1), Op1::FindA(2), Op1::FindB, Op1::FindNo, Op1::Perform, Op1::All, Op1::Lay(0), Op1::Lay(1), Op1::Lay(2), Op1::Last, Op1::New(0)];
                let pre = [Op1::New(0), Op1::New(1), Op1::New(0), Op1::Lay(2), Op1::New(1), Op1::New(0), Op1::Lay(0)];
                let k = ops.len() as u64;
                for l in 1..=ctx.by(4usize, 5) { for i in 0..k.pow(l as u32) {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    let mut h = pre.to_vec();
                    h.extend(digits(i, k, l).iter().map(|d| ops[*d]));
                    ctx.case(|| format!("three and two records, then {:?}", &h[pre.len()..]), |ctx| one(ctx, quiet(&h, &["k"], false)));
                } }
            }
            // many records
            for n in [10usize, 30, 65, 129, 257] { for m in 1..=5usize {
                ctx.case(|| format!("{} records, every {}th matches", n, m), |ctx| {
                    let mut b = vec![];
                    for i in 0..n { b.extend(rec("one", &format!("r{}", i), if i % m == 0 { "x" } else { "y" })); }
                    b.extend(find("one", "a", txt("x")));
                    b.extend(walk(n, &["k"], false, false, [true, false]));
                    one(ctx, b)
                });
            } }
        } }
}

pub fn props() -> Vec<Prop> { vec![c12(), c13(), c14(), c15()] }
