// C16 relationship paths, C17 related values.
use super::engine::{h64, Ctx, Prop};
use super::fm::{add_burn, build_file, judge, session, Variant};
use super::lang::*;
use super::props_calc::digits;
use super::world::{Occ, Schema, Table};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// The tool's path finder, and the recorded and repaired ones (DESIGN.md).
#[allow(warnings)]
mod real { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/testing/relation_mgr.rs")); }
fn path(v: Variant, rels: &[(usize, usize)], a: usize, b: usize) -> Option<Vec<usize>> {
    macro_rules! go { ($t:ty) => {{ let mut m = <$t>::new(); for (x, y) in rels { m.add_relation(*x, *y); } m.get_path(a, b) }} }
    match v { Variant::Real => go!(real::RelationMgr), Variant::Recorded => go!(super::recorded::relation_mgr::RelationMgr), Variant::Repaired => go!(super::repaired::relation_mgr::RelationMgr) }
}
/// Number of hops of a shortest path.
fn hops(rels: &[(usize, usize)], a: usize, b: usize) -> Option<usize> {
    let mut d: BTreeMap<usize, usize> = BTreeMap::from([(a, 0)]);
    let mut q = VecDeque::from([a]);
    while let Some(x) = q.pop_front() {
        for (p, r) in rels { for (s, t) in [(p, r), (r, p)] { if *s == x && !d.contains_key(t) { let n = d[&x] + 1; d.insert(*t, n); q.push_back(*t); } } }
    }
    d.get(&b).copied()
}
fn right(rels: &[(usize, usize)], a: usize, b: usize, p: &Option<Vec<usize>>) -> Result<(), String> {
    match (hops(rels, a, b), p) {
        (None, None) => Ok(()),
        (None, Some(p)) => Err(format!("{:?}: no path from {} to {} exists, but {:?} is reported", rels, a, b, p)),
        (Some(n), None) => Err(format!("{:?}: the path of {} hops from {} to {} is not reported", rels, n, a, b)),
        (Some(n), Some(p)) => {
            if p.first() != Some(&a) || p.last() != Some(&b) { return Err(format!("{:?}: the path {:?} does not lead from {} to {}", rels, p, a, b)); }
            for w in p.windows(2) { if !rels.contains(&(w[0], w[1])) && !rels.contains(&(w[1], w[0])) { return Err(format!("{:?}: the path {:?} uses an undeclared relationship", rels, p)); } }
            if p.len() != n + 1 { return Err(format!("{:?}: the path {:?} from {} to {} is not one of {} hops", rels, p, a, b, n)); }
            Ok(())
        }
    }
}
/// The paths between different occurrences (`own`: from each to itself).
fn graph(ctx: &mut Ctx, own: bool, rels: &[(usize, usize)], occs: &[usize]) -> Result<(), String> { graph_from(ctx, own, rels, occs, occs) }
fn graph_from(ctx: &mut Ctx, own: bool, rels: &[(usize, usize)], from: &[usize], occs: &[usize]) -> Result<(), String> {
    let mut sorted: Vec<(usize, usize)> = rels.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
    sorted.sort();
    sorted.dedup();
    for a in from { for b in occs {
        if (a == b) != own { continue; }
        ctx.states.add(h64(&(&sorted, a, b)));
        ctx.transitions += 1;
        ctx.traces += 1;
        let got = path(Variant::Real, rels, *a, *b);
        if let Err(e) = right(rels, *a, *b, &got) {
            if !ctx.has_sited() { return Err(e); }
            if let Err(e2) = right(rels, *a, *b, &path(Variant::Repaired, rels, *a, *b)) { return Err(format!("{} (repaired: {})", e, e2)); }
            if got != path(Variant::Recorded, rels, *a, *b) { return Err(format!("{} (and the known defects of src/testing give another result)", e)); }
            ctx.attributed = true;
        }
    } }
    Ok(())
}
fn pairs(n: usize, loops: bool) -> Vec<(usize, usize)> { let mut v = vec![]; for a in 1..=n { for b in a..=n { if a != b || loops { v.push((a, b)); } } } v }

pub fn c16() -> Prop {
    Prop { id: "C16", level: "model_checking",
        rule: "every undirected graph over up to 5 (thorough 6) occurrences, every ordered pair of them and one unknown, with the relationships added in ascending and in descending order and direction and each twice; every sequence of up to 4 (thorough 5) relationships over 4 occurrences in both directions including loops; for every graph over 4 every order of its relationships; chains, rings and grids to 40 occurrences and some to 300; stored graphs of up to 126. states = (graph, pair), transitions = paths asked for.",
        assumptions: &["An occurrence without any relationship reaches only itself."],
        run: |ctx| {
            for own in [false, true] {
            let which = if own { ", each to itself" } else { "" };
            for n in 1..=ctx.by(5usize, 6) {
                let ps = pairs(n, false);
                for m in 0..1u64 << ps.len() {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    ctx.case(|| format!("graph {} over {} occurrences{}", m, n, which), |ctx| {
                        let rels: Vec<(usize, usize)> = ps.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                        let occs: Vec<usize> = (1..=n + 1).collect();
                        graph(ctx, own, &rels, &occs)?;
                        let back: Vec<(usize, usize)> = rels.iter().rev().map(|(a, b)| (*b, *a)).collect();
                        graph(ctx, own, &back, &occs)?;
                        let mut twice = rels.clone();
                        twice.extend(back);
                        graph(ctx, own, &twice, &occs)
                    });
                }
            }
            let ps: Vec<(usize, usize)> = (0..16).map(|i| (1 + i / 4, 1 + i % 4)).collect();
            for l in 1..=ctx.by(4usize, 5) { for i in 0..16u64.pow(l as u32) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                ctx.case(|| format!("relationships {:?}{}", digits(i, 16, l).iter().map(|d| ps[*d]).collect::<Vec<_>>(), which), |ctx| {
                    let rels: Vec<(usize, usize)> = digits(i, 16, l).iter().map(|d| ps[*d]).collect();
                    graph(ctx, own, &rels, &[1, 2, 3, 4])
                });
            } }
            for n in [2usize, 3, 7, 20, 40] { for kind in 0..5 {
                ctx.case(|| format!("size {} kind {}{}", n, kind, which), |ctx| {
                    let id = |i: usize| if kind == 4 { 1000 - 7 * i } else { i + 1 };
                    let mut rels: Vec<(usize, usize)> = (0..n - 1).map(|i| (id(i), id(i + 1))).collect();
                    match kind { 1 => rels.push((id(n - 1), id(0))), 2 => rels = (1..n).map(|i| (id(0), id(i))).collect(), 3 => for i in 0..n { if i + 5 < n { rels.push((id(i), id(i + 5))); } }, _ => {} }
                    graph(ctx, own, &rels, &(0..n).map(id).collect::<Vec<_>>())
                });
            } }
            }
            let ps = pairs(4, false);
            for m in 0..1u32 << 6 {
                let rels: Vec<(usize, usize)> = ps.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                ctx.case(|| format!("orders of {:?}", rels), |ctx| {
                    fn perms(v: &[(usize, usize)], acc: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)]) -> Result<(), String>) -> Result<(), String> {
                        if v.is_empty() { return f(acc); }
                        for i in 0..v.len() { let mut r = v.to_vec(); acc.push(r.remove(i)); perms(&r, acc, f)?; acc.pop(); }
                        Ok(())
                    }
                    perms(&rels, &mut vec![], &mut |p| graph(ctx, false, p, &[1, 2, 3, 4]))
                });
            }
            // the relationships as they come out of a file, and the path as a related value shows it
            for n in 2..=ctx.by(4usize, 5) {
                let ps = pairs(n, false);
                for m in 0..1u64 << ps.len() { for back in [false, true] {
                    if n == 5 && back { continue; }
                    ctx.case(|| format!("file with graph {} over {} occurrences{}", m, n, if back { ", declared downwards" } else { "" }), |ctx| {
                        let mut rels: Vec<(usize, usize)> = ps.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                        if back { rels = rels.iter().rev().map(|(a, b)| (*b, *a)).collect(); }
                        for ids in 0..3 { stored_graph(ctx, n, &rels, ids, &(1..=n).collect::<Vec<_>>())?; }
                        Ok(())
                    });
                } }
            }
            for n in [17usize, 33, 65, 100, 126] { for kind in 0..4 {
                ctx.case(|| format!("file with {} occurrences, kind {}", n, kind), |ctx| {
                    let mut rels: Vec<(usize, usize)> = (1..n).map(|i| if i % 3 == 0 { (i + 1, i) } else { (i, i + 1) }).collect();
                    match kind { 1 => rels.push((n, 1)), 2 => rels = (1..n).map(|i| (i, n)).collect(), 3 => { rels.remove(n / 2); } _ => {} }
                    for ids in 3..5 { stored_graph(ctx, n, &rels, ids, &[1, n / 2, n])?; }
                    Ok(())
                });
            } }
            for n in [65usize, 100, 129, 257, 300] { for kind in 0..4 {
                ctx.case(|| format!("{} occurrences kind {}", n, kind), |ctx| {
                    let mut rels: Vec<(usize, usize)> = (0..n - 1).map(|i| (i + 1, i + 2)).collect();
                    match kind { 1 => rels.push((n, 1)), 2 => rels = (1..n).map(|i| (i, n)).collect(), 3 => { rels.remove(n / 2); } _ => {} }
                    graph_from(ctx, false, &rels, &[1, n / 3, n / 2 + 1, n], &(1..=n).collect::<Vec<_>>())
                });
            } }
        } }
}
/// Every occurrence has one record; all are related to all through the declared relationships, so
/// another occurrence's value can be read exactly if there is a path.
fn stored_graph(ctx: &mut Ctx, n: usize, rels: &[(usize, usize)], ids: usize, starts: &[usize]) -> Result<(), String> {
    // numbers of the occurrences: consecutive, scattered, or up to two bytes (which no layout can refer to)
    let id = |i: usize| if ids == 3 { i } else if ids == 4 { 127 - i } else { [[1, 2, 3, 4, 5], [3, 126, 17, 64, 8], [4, 260, 1028, 129, 16644]][ids][i - 1] };
    let rels: &[(usize, usize)] = &rels.iter().map(|(a, b)| (id(*a), id(*b))).collect::<Vec<_>>();
    let name = |i: usize| format!("occ{}", i);
    let schema = Schema {
        tables: (1..=n).map(|t| Table { id: t, name: format!("t{}", t), fields: vec![(1, "id".into())] }).collect(),
        occs: (1..=n).map(|i| Occ { id: id(i), name: name(i), table: i }).collect(),
        layouts: if ids == 2 { vec![] } else { (1..=n).map(|i| (i, format!("l{}", i), id(i))).collect() },
        rels: rels.iter().map(|(a, b)| (*a, 1, 6, *b, 1)).collect(),
    };
    let mut f = build_file(&schema);
    let mut got: Vec<(usize, usize)> = f.relationships.values().map(|r| (r.table1.min(r.table2) as usize, r.table1.max(r.table2) as usize)).collect();
    let mut want: Vec<(usize, usize)> = rels.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
    got.sort();
    want.sort();
    if got != want { return Err(format!("declared {:?}, but the file has {:?}", want, got)); }
    graph_from(ctx, false, &got, &starts.iter().map(|i| id(*i)).collect::<Vec<_>>(), &(1..=n).map(id).collect::<Vec<_>>())?;
    if ids == 2 { return Ok(()); }
    let mut src = String::new();
    for from in starts.iter().copied() {
        let mut b = vec![];
        for i in 1..=n { b.extend([S::Layout(format!("l{}", i)), S::New, setf(&name(i), "id", int(100 + i as i64))]); }
        b.push(S::Layout(format!("l{}", from)));
        src.clear();
        src.push_str(&test_src("paths", &b));
        f.tests.clear();
        add_burn(&mut f, &src);
        let to: Vec<usize> = (1..=n).filter(|t| *t != from).collect();
        let ask: Vec<(String, String)> = to.iter().map(|t| (name(*t), "id".to_string())).collect();
        let want: Vec<Option<f64>> = to.iter().map(|t| hops(rels, id(from), id(*t)).map(|_| (100 + t) as f64)).collect();
        ctx.transitions += to.len() as u64;
        ctx.traces += 1;
        judge(ctx, false, &|v| session(v, &f, &ask), &|r| related(&r.raw, &want).map_err(|e| format!("{:?} from {}: {}", rels, from, e)))?;
    }
    Ok(())
}
fn related(raw: &[u8], want: &[Option<f64>]) -> Result<(), String> {
    let text = String::from_utf8_lossy(raw);
    let got: Vec<Option<f64>> = text.lines().filter_map(|l| if l == "Related error" { Some(None) } else { l.strip_prefix("Related: ").map(|x| x.parse().ok().or(Some(f64::NAN))) }).collect();
    if got == want { Ok(()) } else { Err(format!("related records {:?} instead of {:?}", got, want)) }
}

// ---------------------------------------------------------------------------- C17
#[derive(Clone, Debug)]
struct Case { ids: Ids, tables: [usize; 3], rels: Vec<(usize, usize, u8, usize, usize)>, recs: Vec<Vec<[E; 2]>> }
const OCC: [&str; 3] = ["oa", "Ob", "oC_3"];
/// Numbers of the tables, of the occurrences and of the key fields.
#[derive(Clone, Copy, Debug)]
struct Ids { t: [usize; 3], o: [usize; 3], f: [u16; 2] }
const PLAIN: Ids = Ids { t: [3, 127, 40], o: [2, 126, 7], f: [200, 130] };
fn value(e: &E) -> V { match e { E::Num(n) => V::Num(n.parse().expect("number")), E::Str(s) => V::Text(s.clone()), _ => unreachable!() } }
fn holds(c: u8, a: &V, b: &V) -> bool {
    use std::cmp::Ordering::*;
    let o = match (a, b) { (V::Num(x), V::Num(y)) => x.partial_cmp(y).expect("numbers"), (V::Text(x), V::Text(y)) => x.cmp(y), _ => panic!("mixed") };
    match c { 0 => o == Equal, 1 => o != Equal, 2 => o == Less, 3 => o != Greater, 4 => o == Greater, 5 => o != Less, _ => true }
}
impl Case {
    /// Index (in its table) of the record of occurrence `to` related to record `at` of occurrence `from`.
    fn related(&self, from: usize, at: usize, to: usize) -> Option<usize> {
        let es: Vec<(usize, usize)> = self.rels.iter().map(|r| (r.0, r.3)).collect();
        let mut best: Option<Vec<usize>> = None;
        // at most three occurrences: the only path, or the direct one
        let cands: Vec<Vec<usize>> = if from == to { vec![vec![from]] } else { let m = 3 - from - to; vec![vec![from, to], vec![from, m, to]] };
        for p in cands { if best.is_none() && p.windows(2).all(|w| es.contains(&(w[0], w[1])) || es.contains(&(w[1], w[0]))) { best = Some(p); } }
        let mut set = vec![at];
        for w in best?.windows(2) {
            let (x, y) = (w[0], w[1]);
            let r = self.rels.iter().find(|r| (r.0, r.3) == (x, y) || (r.0, r.3) == (y, x)).expect("declared");
            let mut next = vec![];
            for a in set { for b in 0..self.recs[self.tables[y]].len() {
                let ok = if r.0 == x { holds(r.2, &value(&self.recs[self.tables[x]][a][r.1]), &value(&self.recs[self.tables[y]][b][r.4])) }
                    else { holds(r.2, &value(&self.recs[self.tables[y]][b][r.1]), &value(&self.recs[self.tables[x]][a][r.4])) };
                if ok && !next.contains(&b) { next.push(b); }
            } }
            set = next;
        }
        set.first().copied()
    }
    fn schema(&self) -> Schema {
        let used: BTreeSet<usize> = self.tables.iter().copied().collect();
        Schema {
            tables: used.iter().map(|t| Table { id: self.ids.t[*t], name: format!("t{}", t), fields: vec![(1, "id".into()), (self.ids.f[0], "Key".into()), (self.ids.f[1], "a_2".into())] }).collect(),
            occs: (0..3).map(|i| Occ { id: self.ids.o[i], name: OCC[i].into(), table: self.ids.t[self.tables[i]] }).collect(),
            layouts: (0..3).map(|i| (i + 1, format!("l{}", OCC[i]), self.ids.o[i])).collect(),
            rels: self.rels.iter().map(|(o, f, c, p, g)| (self.ids.o[*o], self.ids.f[*f], *c, self.ids.o[*p], self.ids.f[*g])).collect(),
        }
    }
    /// The other occurrences' related values (`own`: its own) from every record of `from`.
    fn check(&self, ctx: &mut Ctx, from: usize, own: bool) -> Result<(), String> {
        let schema = self.schema();
        for at in 0..self.recs[self.tables[from]].len() {
            let mut b = vec![];
            let mut made = vec![];
            for o in 0..3 {
                let t = self.tables[o];
                if made.contains(&t) { continue; }
                made.push(t);
                b.push(S::Layout(format!("l{}", OCC[o])));
                for (i, r) in self.recs[t].iter().enumerate() {
                    b.push(S::New);
                    for (f, v) in [("id", int((100 * t + i + 1) as i64)), ("Key", r[0].clone()), ("a_2", r[1].clone())] { b.push(setf(OCC[o], f, v)); }
                }
            }
            b.extend([S::Layout(format!("l{}", OCC[from])), S::Go(Go::N(at as u32)), mark("there")]);
            let mut f = build_file(&schema);
            add_burn(&mut f, &test_src("rel", &b));
            let targets: Vec<usize> = (0..3).filter(|t| (*t == from) == own).collect();
            let ask: Vec<(String, String)> = targets.iter().map(|o| (OCC[*o].to_string(), "id".to_string())).collect();
            let want: Vec<Option<f64>> = targets.iter().map(|o| self.related(from, at, *o).map(|r| (100 * self.tables[*o] + r + 1) as f64)).collect();
            ctx.states.add(h64(&format!("{:?} {} {}", self, from, at)));
            ctx.transitions += want.len() as u64;
            ctx.traces += 1;
            judge(ctx, false, &|v| session(v, &f, &ask), &|r| related(&r.raw, &want).map_err(|e| format!("from record {} of {}: {}", at, OCC[from], e)))?;
        }
        Ok(())
    }
}
pub fn c17() -> Prop {
    Prop { id: "C17", level: "model_checking",
        rule: "every comparison in both directions of declaration x every list of up to 2 (thorough 3) keys on either side over 4 numbers and over 4 texts, between two tables and between two occurrences of one table, from every record, in both directions; every chain of two relationships (quick: 3 comparisons each; thorough: all) x every list of up to 2 records with two keys over 3 values in between and of up to 2 keys at the end; unrelated occurrences; 16 numbers of key fields in pairs, 11 of tables in pairs and 9 of occurrences in triples; up to 257 keys.",
        assumptions: &["One relationship per pair of occurrences; numbers are compared with numbers, texts with texts.", "Among several related records of several intermediate ones, the first intermediate record's come first."],
        run: |ctx| {
            let alphabets: [Vec<E>; 2] = [vec![int(2), int(10), num("2.5"), int(1)], vec![txt("b"), txt("a"), txt("ab"), txt("B")]];
            let lists = |k: usize, max: usize| -> Vec<Vec<usize>> { (0..=max).flat_map(|n| (0..(k as u64).pow(n as u32)).map(move |c| digits(c, k as u64, n))).collect() };
            let ls = lists(4, ctx.by(2, 3));
            for (al, vals) in alphabets.iter().enumerate() { for c in 0..7u8 { for a in &ls { for b in &ls { for same in [false, true] {
                if a.is_empty() && b.is_empty() || same && !b.is_empty() || a.len() == 3 && b.len() == 3 && (a[0] + b[0]) % 2 == 1 { continue; }
                for way in 0..6usize {
                    if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                    ctx.case(|| format!("comparison {} of {:?} with {:?} of alphabet {}{}, {}", c, a, b, al, if same { ", one table" } else { "" }, ["from the first", "from the second", "declared backwards, from the first", "declared backwards, from the second", "the first itself", "from the third"][way]), |ctx| {
                        let list = |l: &Vec<usize>, o: usize| -> Vec<[E; 2]> { l.iter().map(|i| [vals[*i].clone(), vals[(*i + o) % 4].clone()]).collect() };
                        for (f, g) in [(0, 0), (0, 1)] {
                            let (o, p) = if way & 2 == 0 { (0, 1) } else { (1, 0) };
                            let k = Case { ids: PLAIN, tables: if same { [0, 0, 2] } else { [0, 1, 2] }, rels: vec![(o, f, c, p, g)], recs: vec![list(a, 1), if same { vec![] } else { list(b, 1) }, vec![[int(1), int(1)]]] };
                            match way { 4 => k.check(ctx, 0, true)?, 5 => k.check(ctx, 2, false)?, _ => k.check(ctx, way % 2, false)? }
                        }
                        Ok(())
                    });
                }
            } } } } }
            // chains
            let vals = [int(2), int(10), int(1)];
            let cs: Vec<u8> = ctx.by(vec![0, 2, 5], (0..7).collect());
            let ends = lists(3, 2);
            for c1 in &cs { for c2 in &cs { for mid in &lists(9, 2) { for end in &ends { for a in 0..3usize {
                for dirs in 0..4 {
                    if ctx.quick() && dirs % 3 != (a + end.len()) % 2 && dirs != 0 { continue; }
                    for from in 0..3 {
                        if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                        ctx.case(|| format!("chain {} {} of {} over {:?} to {:?}, directions {}, from {}", c1, c2, a, mid, end, dirs, OCC[from]), |ctx| {
                            let r1 = if dirs & 1 == 0 { (0, 0, *c1, 1, 0) } else { (1, 0, *c1, 0, 0) };
                            let r2 = if dirs & 2 == 0 { (1, 1, *c2, 2, 0) } else { (2, 0, *c2, 1, 1) };
                            let k = Case { ids: PLAIN, tables: [0, 1, 2], rels: if dirs == 2 { vec![r2, r1] } else { vec![r1, r2] }, recs: vec![vec![[vals[a].clone(), int(0)]],
                                mid.iter().map(|m| [vals[m / 3].clone(), vals[m % 3].clone()]).collect(), end.iter().map(|e| [vals[*e].clone(), int(0)]).collect()] };
                            k.check(ctx, from, false)
                        });
                    }
                }
            } } } } }
            // numbers of fields, occurrences and tables
            const FS: [u16; 16] = [2, 3, 5, 9, 10, 16, 31, 63, 64, 99, 127, 128, 129, 192, 254, 255];
            const OS: [usize; 9] = [1, 2, 10, 31, 63, 64, 100, 126, 127];
            const TS: [usize; 11] = [1, 2, 10, 63, 64, 100, 127, 128, 129, 254, 255];
            let numbered = |ctx: &mut Ctx, ids: Ids| -> Result<(), String> {
                for (c, back) in [(0u8, false), (2, true), (5, false)] {
                    let (o, p) = if back { (1, 0) } else { (0, 1) };
                    let k = Case { ids, tables: [0, 1, 2], rels: vec![(o, 0, c, p, 1), (1, 0, 0, 2, 0)], recs: vec![vec![[int(2), int(1)], [int(3), int(7)]], vec![[int(1), int(3)], [int(7), int(2)]], vec![[int(7), int(1)], [int(1), int(1)]]] };
                    for from in 0..3 { k.check(ctx, from, false)?; }
                }
                Ok(())
            };
            for a in FS { for b in FS { if a != b { ctx.case(|| format!("key fields {} and {}", a, b), |ctx| numbered(ctx, Ids { f: [a, b], ..PLAIN })); } } }
            for a in OS { for b in OS { for c in OS { if a != b && b != c && a != c { ctx.case(|| format!("occurrences {} {} {}", a, b, c), |ctx| numbered(ctx, Ids { o: [a, b, c], ..PLAIN })); } } } }
            for a in TS { for b in TS { if a != b { ctx.case(|| format!("tables {} and {}", a, b), |ctx| numbered(ctx, Ids { t: [a, b, 40], ..PLAIN })); } } }
            // longer lists of keys
            for n in [5usize, 10, 33, 65, 130, 257] { for c in 0..7u8 {
                ctx.case(|| format!("{} records, comparison {}", n, c), |ctx| {
                    let k = Case { ids: PLAIN, tables: [0, 1, 2], rels: vec![(0, 0, c, 1, 1)], recs: vec![vec![[int(n as i64 / 2), int(0)]], (0..n).map(|i| [int(0), int(((i * 7) % n) as i64)]).collect(), vec![]] };
                    k.check(ctx, 0, false)
                });
            } }
            // all three related to each other, and no relationship at all
            for n in 0..=2usize { for c in [0u8, 6] { for rels in 0..8u32 {
                for from in 0..3 { for own in [false, true] {
                    ctx.case(|| format!("{} records, relationships {:b}, comparison {}, {} {}", n, rels, c, if own { "own values of" } else { "from" }, OCC[from]), |ctx| {
                        let all = [(0, 0, c, 1, 0), (1, 0, c, 2, 0), (2, 1, c, 0, 1)];
                        let recs = |o: usize| (0..n).map(|i| [int((i + o) as i64), int(i as i64)]).collect::<Vec<_>>();
                        let k = Case { ids: PLAIN, tables: [0, 1, 2], rels: all.iter().enumerate().filter(|(i, _)| rels >> i & 1 == 1).map(|x| *x.1).collect(), recs: vec![recs(0), recs(1), recs(0)] };
                        k.check(ctx, from, own)
                    });
                } }
            } } }
        } }
}

pub fn props() -> Vec<Prop> { vec![c16(), c17()] }
