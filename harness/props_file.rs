// C23 schema recovery, C24 damaged input, C27 stored scripts: files written by the independent
// writer (fmp.rs), decompiled by the tool.
use super::engine::{h64, Ctx, Prop};
use super::fmp::*;
use super::props_calc::digits;
use crate::decompile::decompiler::decompile_fmp12_file;
use crate::file::FmpFile;
use std::path::Path;

pub fn decompile(bytes: &[u8]) -> FmpFile {
    thread_local! { static IN: super::sys::MemFile = super::sys::MemFile::new(); }
    IN.with(|f| { f.put(bytes); decompile_fmp12_file(Path::new(&f.name)) })
}

fn lines(got: &[String], want: &[String]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let miss: Vec<&String> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
    let more: Vec<&String> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
    Err(format!("stored but not recovered: {:#?}\nrecovered but not stored: {:#?}", miss, more))
}

fn schema_ok(ctx: &mut Ctx, db: &Db, bytes: &[u8]) -> Result<(), String> {
    ctx.alive();
    ctx.states.add(h64(bytes));
    ctx.transitions += 1;
    lines(&got_schema(&decompile(bytes)), &want_schema(db))
}

fn field(id: usize, name: &str) -> DField {
    DField { id, name: name.into(), kind: "k1".into(), desc: format!("about {}", name), user: "me".into(), account: "Admin".into() }
}
fn table(id: usize, name: &str, fields: &[usize]) -> DTable {
    DTable { id, name: name.into(), fields: fields.iter().map(|f| field(*f, &format!("{}_f{}", name, f))).collect() }
}
fn occ(id: usize, name: &str, table: usize) -> DOcc { DOcc { id, name: name.into(), table } }
fn rel(id: usize, a: usize, b: usize, fa: u8, fb: u8, cmp: u8) -> DRel { DRel { id, a, b, fa, fb, cmp } }
fn layout(id: usize, name: &str, occ: usize) -> DLayout { DLayout { id, name: name.into(), occ } }

/// A file with something of everything.
fn rich() -> Db {
    Db {
        tables: vec![table(1, "Person", &[1, 2]), table(3, "Job", &[1, 130])],
        occs: vec![occ(1, "Person_occ", 1), occ(2, "Job_occ", 3), occ(300, "Other", 1)],
        rels: vec![rel(1, 1, 2, 1, 130, 0), rel(4, 2, 300, 2, 1, 3)],
        layouts: vec![layout(1, "Person_layout", 1), layout(200, "Job_layout", 2)],
        scripts: vec![DScript { id: 1, name: "go".into(), store: Store::Key, steps: vec![step(141, 1, vec![Data::Name("$x".into()), Data::Calc(vec![0x1a, 2, 0x7e, 0x22])])] }],
        ..Db::default()
    }
}
/// A component of each kind under each id.
pub fn uniform(ids: &[usize]) -> Db {
    Db {
        tables: ids.iter().map(|i| table(*i, &format!("t{}", i), &[*i, i + 1])).collect(),
        occs: ids.iter().map(|i| occ(*i, &format!("o{}", i), *i)).collect(),
        rels: ids.windows(2).map(|w| rel(w[0], w[0], w[1], 1, 2, (w[0] % 7) as u8)).collect(),
        layouts: ids.iter().map(|i| layout(*i, &format!("l{}", i), *i)).collect(),
        scripts: ids.iter().map(|i| script(*i, &format!("s{}", i), list(3), if i % 2 == 0 { Store::Key } else { Store::Segments(vec![(1, 28, 84), (0, 0, 28)]) })).collect(),
        ..Db::default()
    }
}
fn step(code: u8, idx: usize, data: Vec<Data>) -> DStep { DStep { code, idx, arg: 0, data } }

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut res = vec![];
    for p in permutations(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); res.push(q); } }
    res
}

fn schemas() -> Vec<Db> {
    let tables: Vec<Vec<DTable>> = vec![vec![], vec![table(1, "T", &[])], vec![table(1, "T", &[1])], vec![table(2, "T", &[1, 2]), table(5, "U", &[])],
        vec![table(1, "T", &[2]), table(2, "U", &[1, 127, 128]), table(3, "V", &[300])], vec![table(127, "T", &[1]), table(128, "U", &[1])],
        vec![table(255, "T", &[1, 2, 3, 4, 5, 6])]];
    let occs: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(1, 0)], vec![(1, 0), (2, 0)], vec![(3, 0), (1, 1)], vec![(2, 1), (127, 0), (128, 2)], vec![(255, 0), (256, 1), (300, 0)], vec![(5, 0), (4, 0), (3, 1), (2, 1)]];
    let rels: Vec<Vec<(usize, usize, usize, u8, u8, u8)>> = vec![vec![], vec![(1, 0, 1, 1, 1, 0)], vec![(1, 1, 0, 1, 2, 1)], vec![(2, 0, 1, 3, 1, 2), (1, 1, 2, 1, 1, 3)],
        vec![(1, 0, 2, 1, 1, 4), (2, 0, 1, 1, 1, 5)], vec![(127, 0, 1, 255, 1, 6), (128, 1, 2, 1, 254, 5)], vec![(300, 0, 0, 1, 2, 0)], vec![(7, 0, 1, 1, 1, 0), (3, 1, 0, 2, 2, 4), (5, 0, 2, 7, 8, 6)]];
    let lays: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(1, 0)], vec![(1, 1), (2, 0)], vec![(130, 0), (3, 1), (2, 0)]];
    let mut v = vec![];
    for t in &tables { for o in &occs { for r in &rels { for l in &lays {
        let os: Vec<DOcc> = o.iter().enumerate().filter_map(|(i, (id, t0))| t.get(*t0).map(|t| occ(*id, &format!("occ{}", i), t.id))).collect();
        let rs: Vec<DRel> = r.iter().filter_map(|(id, a, b, fa, fb, c)| if *a < os.len() && *b < os.len() { Some(rel(*id, os[*a].id, os[*b].id, *fa, *fb, *c)) } else { None }).collect();
        if rs.len() != r.len() || os.len() != o.len() { continue; }
        let ls: Vec<DLayout> = l.iter().enumerate().filter_map(|(i, (id, o0))| os.get(*o0).filter(|o| o.id < 128).map(|o| layout(*id, &format!("lay{}", i), o.id))).collect();
        if ls.len() != l.len() { continue; }
        v.push(Db { tables: t.clone(), occs: os, rels: rs, layouts: ls, ..Db::default() });
    } } } }
    v
}

const NAMECHARS: &[&str] = &["a", "Z", "9", " ", "_", "\"", "é", "€", "😀", ":", "\u{301}", "\0", "Z\n"];

/// Every chunk without a meaning at every place of a file whose directory satisfies `at`.
fn stray_chunks(ctx: &mut Ctx, db: &Db, at: &dyn Fn(&[usize]) -> bool, ok: fn(&mut Ctx, &Db, &[u8]) -> Result<(), String>) {
    let o = ops(db, Form(0));
    for (i, p) in paths(&o).iter().enumerate() {
        if !at(p) { continue; }
        let all: Vec<Vec<Op>> = strays(p).into_iter().map(|b| vec![Op::Put(b)]).chain(stray_dirs(p)).collect();
        for (j, group) in all.chunks(200).enumerate() {
            ctx.case(|| format!("chunks {} without a meaning before operation {} in {:?}", j, i, p), |ctx| {
                for b in group {
                    let mut o = o.clone();
                    o.splice(i..i, b.iter().cloned());
                    let cuts = full_cuts(&o, 4000);
                    ok(ctx, db, &file(&sectors(&o, &cuts, false).expect("fits"), &plain_blocks(cuts.len() + 1), cuts.len() + 3, 0)).map_err(|e| format!("with {:02x?}: {}", b, e))?;
                }
                Ok(())
            });
        }
    }
}

fn with_foreign(db: &Db) -> &'static str { if db.foreign { ", with other keys and indexes" } else { "" } }

pub fn c23() -> Prop {
    Prop {
        id: "C23", level: "model_checking",
        rule: "files written by an independent FMP12 writer: every combination of enumerated table/field, occurrence, relationship and layout lists x 3 chunk spellings x with or without the other keys, directories and name indexes that FileMaker's files have x 4 divisions into sectors; for a file with everything: every single and every pair (thorough: triple) of sector cuts, with directories left open or closed at the cut and the sectors filled to their last byte or not, every cut pair in every order of the sectors in the file, one operation per sector, and every permutation of up to 5 (thorough 6) sectors over blocks with gaps filled with junk; every name of up to 2 (thorough 3) characters over 13 and every length to 255 in each kind of component; every id the format carries (quick: to 1100) and every pair of relationship fields and comparisons; up to 1025 components of one kind and sectors of one file, in three orders, and sectors at block numbers around limits to 4097 (thorough 65,537); every key, segment number, chunk and directory (to two levels) without a meaning at every place of a file with everything. states = distinct files, transitions = files decompiled.",
        assumptions: &["Open directories are entered again at the start of each sector, as FileMaker does; rests of sectors are zero.",
            "Relationship fields are one-byte ids, layouts refer to occurrences by one byte, occurrences to tables by one byte.",
            "A relationship is listed from the occurrence whose directory comes first.",
            "Directories inside of a table occurrence, a layout or a script name are not enumerated: nothing is known of them."],
        run: |ctx: &mut Ctx| {
            for db in schemas() {
                for form in 0..6u8 {
                    let mut db = db.clone();
                    db.foreign = form > 2;
                    let form = form % 3;
                    let db = &db;
                    ctx.case(|| format!("spelling {} of {}{}", form, want_schema(db).join("; "), with_foreign(db)), |ctx| {
                        let o = ops(db, Form(form));
                        schema_ok(ctx, db, &simple(db, Form(form)))?;
                        for room in [300usize, 97] {
                            let s = sectors(&o, &full_cuts(&o, room), room == 97).expect("fits");
                            schema_ok(ctx, db, &file(&s, &plain_blocks(s.len()), s.len() + 2, 0))?;
                            // the same sectors in reverse order of blocks
                            let mut b = plain_blocks(s.len());
                            b[1..].reverse();
                            schema_ok(ctx, db, &file(&s, &b, s.len() + 3, 0x28))?;
                        }
                        Ok(())
                    });
                }
            }
            // cuts
            for form in 0..6u8 {
                let mut db = rich();
                db.foreign = form > 2;
                let form = form % 3;
                let o = ops(&db, Form(form));
                let n = o.len();
                for close in [false, true] {
                    for i in 1..n {
                        let (db, o) = (&db, &o);
                        ctx.case(|| format!("spelling {} cut before operation {}{}{}", form, i, if close { ", directories closed" } else { "" }, with_foreign(db)), |ctx| {
                            let s = sectors(o, &[i], close).expect("fits");
                            schema_ok(ctx, db, &file(&s, &[2, 3], 4, 0))?;
                            schema_ok(ctx, db, &file(&s, &[2, 5], 6, 0xFF))?;
                            let full: Vec<Vec<u8>> = s.iter().map(|p| flush_right(p)).collect();
                            schema_ok(ctx, db, &file(&full, &[2, 3], 4, 0x20))?;
                            for j in i + 1..n {
                                if db.foreign && (ctx.quick() || close) { break; }
                                let s = sectors(o, &[i, j], close).expect("fits");
                                schema_ok(ctx, db, &file(&s, if (i + j) % 2 == 0 { &[2, 3, 4] } else { &[2, 4, 3] }, 5, 0))?;
                                if !ctx.quick() && form == 0 && !db.foreign {
                                    for k in j + 1..n {
                                        let s = sectors(o, &[i, j, k], close).expect("fits");
                                        schema_ok(ctx, db, &file(&s, [[2, 3, 4, 5], [2, 5, 3, 4], [2, 4, 5, 3]][k % 3].as_slice(), 6, 0))?;
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                    let (db, o) = (&db, &o);
                    ctx.case(|| format!("spelling {} one operation per sector{}", form, with_foreign(db)), |ctx| {
                        let s = sectors(o, &(1..n).collect::<Vec<_>>(), close).expect("fits");
                        schema_ok(ctx, db, &file(&s, &plain_blocks(s.len()), s.len() + 2, 0))?;
                        let mut b = plain_blocks(s.len());
                        b[1..].reverse();
                        schema_ok(ctx, db, &file(&s, &b, s.len() + 2, 0))
                    });
                }
            }
            // chunks without a meaning
            stray_chunks(ctx, &rich(), &|p| p.is_empty() || !matches!(p[0], 17 | 32), schema_ok);
            // placements
            for k in 2..=ctx.by(5usize, 6) {
                for perm in permutations(k - 1) {
                    let db = rich();
                    ctx.case(|| format!("sectors placed in the order {:?}", perm), |ctx| {
                        let o = ops(&db, Form(0));
                        let cuts: Vec<usize> = (1..k).map(|i| i * o.len() / k).collect();
                        let s = sectors(&o, &cuts, false).expect("fits");
                        for gap in 0..4usize {
                            for junk in [0u8, 0x20, 0x5A, 0xFF] {
                                let mut b = vec![2];
                                b.extend(perm.iter().map(|p| 3 + p + if *p * 4 >= gap * k { gap } else { 0 }));
                                schema_ok(ctx, &db, &file(&s, &b, 3 + k + gap, junk))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
            // names
            let len = ctx.by(2usize, 3);
            let mut names: Vec<String> = vec![];
            for l in 1..=len {
                for i in 0..(NAMECHARS.len() as u64).pow(l as u32) { names.push(digits(i, NAMECHARS.len() as u64, l).iter().map(|d| NAMECHARS[*d]).collect()); }
            }
            for n in 1..=255usize { names.push("abcdefghij k".chars().cycle().take(n).collect()); }
            for n in names {
                ctx.case(|| format!("everything named {:?}", n), |ctx| {
                    for form in 0..3u8 {
                        let mut db = Db { tables: vec![table(1, &n, &[])], occs: vec![occ(1, &n, 1), occ(2, "b", 1)], rels: vec![rel(1, 1, 2, 1, 1, 0)], layouts: vec![layout(1, &n, 1)], ..Db::default() };
                        db.tables[0].fields.push(field(1, "x"));
                        db.tables[0].fields[0] = DField { id: 1, name: n.clone(), kind: n.clone(), desc: n.clone(), user: n.clone(), account: n.clone() };
                        schema_ok(ctx, &db, &simple(&db, Form(form)))?;
                    }
                    Ok(())
                });
            }
            // empty names, each combination
            for mask in 0..64usize { for fields in 0..3usize { for form in 0..3u8 {
                ctx.case(|| format!("empty names {:06b}, {} fields, spelling {}", mask, fields, form), |ctx| {
                    let n = |i: usize, s: &str| if mask >> i & 1 == 1 { String::new() } else { s.to_string() };
                    let fl: Vec<DField> = (1..=fields).map(|i| DField { id: i, name: n(1, "f"), kind: n(2, "k"), desc: n(2, "d"), user: n(3, "u"), account: n(3, "a") }).collect();
                    let mut db = Db { tables: vec![table(1, &n(0, "T"), &[]), table(2, "U", &[1]), table(3, &n(0, "V"), &[])], occs: vec![occ(1, &n(4, "O"), 1), occ(2, "b", 1), occ(3, &n(4, "P"), 3)], rels: vec![rel(1, 1, 2, 1, 1, 0)],
                        layouts: vec![layout(1, &n(5, "L"), 1), layout(2, "M", 2), layout(3, &n(5, "N"), 3)], ..Db::default() };
                    db.tables[0].fields = fl.clone();
                    db.tables[2].fields = fl;
                    schema_ok(ctx, &db, &simple(&db, Form(form)))
                });
            } } }
            // ids
            let top = ctx.by(1100usize, 31000);
            for id in 1..=top {
                ctx.case(|| format!("everything with id {}", id), |ctx| {
                    let t = if id < 256 { id } else { 9 };
                    let db = Db {
                        tables: { let mut v = vec![table(t, "T", &[id, id + 1])]; if id >= 256 { v.push(table(id, "U", &[1])); } v },
                        occs: vec![occ(id, "A", t), occ(id + 1, "B", t)], rels: vec![rel(id, id, id + 1, 1, 2, 3)],
                        layouts: if id < 127 { vec![layout(id, "L", id)] } else { vec![] }, foreign: id % 2 == 0, ..Db::default() };
                    schema_ok(ctx, &db, &simple(&db, Form((id % 3) as u8)))
                });
            }
            for f1 in 1..=255u8 {
                ctx.case(|| format!("relationships over field {}", f1), |ctx| {
                    let mut rels = vec![];
                    for (i, f2) in [1u8, 2, 127, 128, 200, 254, 255].iter().enumerate() { rels.push(rel(i + 1, 1, 2 + i, f1, *f2, i as u8)); rels.push(rel(i + 20, 1, 2 + i, *f2, f1, (f1 % 7) as u8)); }
                    let db = Db { tables: vec![table(1, "T", &[1])], occs: (1..=9).map(|i| occ(i, &format!("o{}", i), 1)).collect(), rels, ..Db::default() };
                    schema_ok(ctx, &db, &simple(&db, Form(f1 % 3)))
                });
            }
            // the order of the top directories: tables, occurrences, relationships, layouts, scripts, fields
            // (a relationship's directory never comes before the occurrences')
            for perm in permutations(6) {
                if perm.iter().position(|g| *g == 2) < perm.iter().position(|g| *g == 1) { continue; }
                let mut db = rich();
                db.order = perm.iter().flat_map(|g| match g { 4 => vec![4, 5], 5 => vec![7], g => vec![*g] }).collect();
                ctx.case(|| format!("directories in the order {:?}", db.order), |ctx| {
                    let o = ops(&db, Form(0));
                    for i in 0..o.len() {
                        let s = sectors(&o, if i == 0 { vec![] } else { vec![i] }.as_slice(), false).expect("fits");
                        schema_ok(ctx, &db, &file(&s, &plain_blocks(s.len()), s.len() + 2, 0))?;
                    }
                    Ok(())
                });
            }
            // many components
            for n in [10usize, 50, 100, 120] {
                for form in 0..3u8 {
                    ctx.case(|| format!("{} components of each kind, spelling {}", n, form), |ctx| {
                        let db = Db {
                            tables: (1..=n).map(|i| table(i, &format!("table {}", i), &[1, 2, i])).map(|mut t| { if t.id <= 2 { t.fields.truncate(2); } t }).collect(),
                            occs: (1..=n).map(|i| occ(i, &format!("occurrence {}", i), n + 1 - i)).collect(),
                            rels: (1..n).map(|i| rel(n - i, i, i + 1, (i % 250) as u8, 3, (i % 7) as u8)).collect(),
                            layouts: (1..=n).map(|i| layout(i, &format!("layout {}", i), n + 1 - i)).collect(), ..Db::default() };
                        schema_ok(ctx, &db, &simple(&db, Form(form)))
                    });
                }
            }
            // many of one kind
            for n in [4usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025] { for kind in 0..6usize { for form in 0..3u8 {
                ctx.case(|| format!("{} {}, spelling {}", n, ["tables", "fields", "occurrences", "relationships", "layouts", "directories open at a cut"][kind], form), |ctx| {
                    let mut db = Db { tables: vec![table(1, "T", &[1, 2]), table(2, "U", &[3])], occs: vec![occ(1, "A", 1), occ(2, "B", 2)], ..Db::default() };
                    match kind {
                        0 => db.tables.extend((3..3 + n).map(|i| table(i, &format!("table {}", i), &[i]))),
                        1 => db.tables[0] = table(1, "T", &(1..=n).collect::<Vec<_>>()),
                        2 => db.occs.extend((3..3 + n).map(|i| occ(i, &format!("occurrence {}", i), 1 + i % 2))),
                        3 => db.rels.extend((1..=n).map(|i| rel(i, 1, 2, (i % 255) as u8 + 1, (i / 255) as u8 + 1, (i % 7) as u8))),
                        4 => db.layouts.extend((1..=n).map(|i| layout(i, &format!("layout {}", i), 1 + i % 2))),
                        _ => {
                            // cut n times, evenly
                            let db = uniform(&(1..=40).collect::<Vec<_>>());
                            let o = ops(&db, Form(form));
                            let cuts: Vec<usize> = (1..=n).map(|i| i * o.len() / (n + 1)).filter(|c| *c > 0).collect();
                            let mut cuts = cuts;
                            cuts.extend(full_cuts(&o, 4000));
                            cuts.sort();
                            cuts.dedup();
                            let s = sectors(&o, &cuts, n % 2 == 0).expect("fits");
                            // one after the other, backwards, and in strides
                            let m = s.len();
                            for order in 0..3usize {
                                let blocks: Vec<usize> = (0..m).map(|i| if i == 0 { 2 } else { match order { 0 => i + 2, 1 => m + 2 - i, _ => (1..m).map(|j| (1 + (j - 1) % 7, j)).collect::<std::collections::BTreeSet<_>>().into_iter().nth(i - 1).unwrap().1 + 2 } }).collect();
                                schema_ok(ctx, &db, &file(&s, &blocks, m + 2 + n % 3, 0xA7))?;
                            }
                            return Ok(());
                        }
                    }
                    schema_ok(ctx, &db, &simple(&db, Form(form)))
                });
            } } }
            // far apart
            for at in [254usize, 255, 256, 257, 258, 511, 512, 513, 767, 768, 1023, 1024, 1025, 4095, 4096, 4097].into_iter().chain(if ctx.quick() { vec![] } else { vec![65535, 65536, 65537] }) { for more in [1usize, 2, 300] {
                ctx.case(|| format!("sectors in the blocks 2, {} and 3, of {}", at, at + more), |ctx| {
                    let db = rich();
                    let o = ops(&db, Form((at % 3) as u8));
                    let s = sectors(&o, &[o.len() / 3, o.len() / 2], false).expect("fits");
                    schema_ok(ctx, &db, &file(&s, &[2, at, 3], at + more, 0))
                });
            } }
        },
    }
}

// ---------------------------------------------------------------------------- C27

/// Stored calculation elements and how they read.
fn calc_tokens() -> Vec<(Vec<u8>, String)> {
    let mut v: Vec<(Vec<u8>, String)> = vec![];
    for (b, t) in [(0x04u8, "("), (0x05, ")"), (0x2d, "Abs"), (0x9b, "Get"), (0x9d, "Acos"), (0x25, "+"), (0x26, "-"), (0x27, "*"), (0x28, "/"),
        (0x41, "<"), (0x43, "<="), (0x44, "=="), (0x46, "!="), (0x47, ">="), (0x49, ">"), (0x50, "&"), (0x0C, " ")] { v.push((vec![b], t.into())); }
    for (b, t) in [(0x1du8, "CurrentTime"), (0x20, "AccountName"), (0x49, "DocumentsPath"), (0x5d, "DocumentsPathListing")] { v.push((vec![0x9c, b], t.into())); }
    v.push((vec![0xfb, 3], "Char".into()));
    for n in [0u8, 1, 5, 0x13, 100] { v.push(number(n)); }
    for t in ["", "a", "x + y", "\u{5a}\u{4}", "é€😀"] { v.push(literal(t)); }
    for t in ["$x", "$$longer_name", "é"] { v.push(variable(t)); }
    v.push(blanks("  \n"));
    v
}
fn number(n: u8) -> (Vec<u8>, String) {
    let mut b = vec![0x10];
    b.extend((0..19).map(|i| if i == 8 { n } else { [0u8, 0x13, 0x1a, 0x04][i % 4] }));
    (b, n.to_string())
}
fn sized(op: &[u8], t: &str) -> Vec<u8> { let mut b = op.to_vec(); b.push(t.len() as u8); b.extend(xor(t)); b }
fn literal(t: &str) -> (Vec<u8>, String) { (sized(&[0x13], t), format!("\"{}\"", t)) }
fn variable(t: &str) -> (Vec<u8>, String) { (sized(&[0x1a], t), t.into()) }
fn blanks(t: &str) -> (Vec<u8>, String) { (sized(&[0x0c, 0x13], t), t.into()) }
/// A lone blank directly before a text would read as a stored text of blanks.
fn ambiguous(a: &[u8], b: &[u8]) -> bool { a == [0x0c] && b[0] == 0x13 }

/// How the calculation elements of the test read back; texts are decoded in order.
fn render(c: &[u8]) -> String {
    let toks = calc_tokens();
    let (mut i, mut s) = (0, String::new());
    while i < c.len() {
        let tail = &c[i..];
        let un = |n: usize, from: usize| String::from_utf8(tail[from..from + n].iter().map(|b| b ^ 0x5A).collect()).expect("text");
        if tail.starts_with(&[0x0c, 0x13]) { let n = tail[2] as usize; s += &un(n, 3); i += 3 + n; }
        else if tail[0] == 0x13 { let n = tail[1] as usize; s += &format!("\"{}\"", un(n, 2)); i += 2 + n; }
        else if tail[0] == 0x1a { let n = tail[1] as usize; s += &un(n, 2); i += 2 + n; }
        else if tail[0] == 0x10 { s += &tail[9].to_string(); i += 20; }
        else { let (b, t) = toks.iter().find(|(b, _)| tail.starts_with(b)).expect("token"); s += t; i += b.len(); }
    }
    s
}

fn kind_name(code: u8) -> Option<&'static str> { STEPS.iter().find(|x| x.0 == code).map(|x| x.1) }

fn want_scripts(db: &Db) -> Vec<String> {
    let mut v = vec![];
    for s in &db.scripts {
        let mut l = format!("script {} {:?}", s.id, s.name);
        for x in &s.steps {
            let Some(k) = kind_name(x.code) else { continue };
            let mut args: Vec<String> = vec![];
            if x.code == 1 { args.push(db.scripts.iter().find(|s| s.id == x.arg as usize).map(|s| s.name.clone()).unwrap_or_default()); }
            // the directory of names and values comes before the one of calculations
            for d in &x.data {
                match (d, k) {
                    (Data::Name(n), "SetVariable") => args.push(n.clone()),
                    (Data::Value(b), "SetVariable") => args.push(String::from_utf8(b.iter().map(|b| b ^ 0x5A).collect()).expect("text")),
                    (Data::Value(b), "ExitScript") => args.push(render(b)),
                    (Data::Calc(b), _) => args.push(render(b)),
                    _ => {}
                }
            }
            l += &format!("\n  {} {} {:?}", x.idx, k, args);
        }
        v.push(l);
    }
    v.sort();
    v
}
fn got_scripts(f: &FmpFile) -> Vec<String> {
    let mut v = vec![];
    for (id, s) in &f.scripts {
        let mut l = format!("script {} {:?}", id, s.script_name);
        for x in &s.instructions { l += &format!("\n  {} {:?} {:?}", x.index, x.opcode, x.switches); }
        v.push(l);
    }
    v.sort();
    v
}
fn scripts_ok(ctx: &mut Ctx, db: &Db, bytes: &[u8]) -> Result<(), String> {
    ctx.alive();
    ctx.states.add(h64(bytes));
    ctx.transitions += 1;
    lines(&got_scripts(&decompile(bytes)), &want_scripts(db))
}
fn script(id: usize, name: &str, steps: Vec<DStep>, store: Store) -> DScript { DScript { id, name: name.into(), steps, store } }
fn one(steps: Vec<DStep>, store: Store) -> Db { Db { scripts: vec![script(1, "s", steps, store)], ..Db::default() } }
fn list(n: usize) -> Vec<DStep> {
    (0..n).map(|i| {
        let code = [141u8, 68, 6, 70, 71, 72, 73, 7, 125, 69, 2, 103][i % 12];
        let data = match code { 141 => vec![Data::Name(format!("$v{}", i)), Data::Calc(number(i as u8).0)], 68 | 72 | 125 => vec![Data::Calc(variable("$x").0)], 103 if i % 2 == 0 => vec![Data::Value(literal("r").0)], _ => vec![] };
        step(code, i + 1, data)
    }).collect()
}
fn rich_scripts(code_first: bool) -> Db {
    let calc = |parts: &[(Vec<u8>, String)]| Data::Calc(parts.iter().flat_map(|p| p.0.clone()).collect());
    let n = 9;
    Db {
        scripts: vec![
            script(1, "first", vec![step(141, 1, vec![Data::Name("$a".into()), Data::Value(xor("5")), calc(&[number(5), (vec![0x25], "+".into()), variable("$b")])]),
                DStep { code: 1, idx: 2, arg: 200, data: vec![] }, step(68, 3, vec![calc(&[literal("t"), (vec![0x44], "==".into()), variable("$a")])]), step(70, 4, vec![]), DStep { code: 1, idx: 300, arg: 1, data: vec![] },
                step(103, 301, vec![Data::Value(number(7).0)])], Store::Key),
            script(200, "second é", list(n), Store::Segments(vec![(3, 2 * 28, 5 * 28), (1, 0, 2 * 28), (8, 5 * 28, n * 28)])),
            script(300, "third", list(3), Store::Long),
            script(4, "empty", vec![], Store::Key),
        ],
        code_first, ..Db::default()
    }
}

pub fn c27() -> Prop {
    Prop {
        id: "C27", level: "model_checking",
        rule: "files with scripts written by an independent FMP12 writer: every step code alone and in pairs, every sequence of up to 3 (thorough 4) steps over 14 codes in 3 storages; every division of step lists into up to 3 segments (quick: at multiples of 4 bytes; thorough: at every byte) in every order of arrival with 3 index choices, every pair of segment numbers, up to 255 segments, list lengths to 1025, up to 1025 scripts; every sequence of up to 3 (thorough 4) of the 36 calculation elements, pairs of them repeated to 255 bytes, and every text length; every single and pair of sector cuts of a file with four scripts (with the other keys of FileMaker's files: single cuts); every order of names and step lists, every called script id; every key, segment number, chunk and directory (to two levels) without a meaning at every place of a file with four scripts, among the scripts. states = distinct files, transitions = files decompiled.",
        assumptions: &["Step codes unknown to the tool are left out of a decompiled script; codes 254 and 255 are the tool's own.",
            "Numbers of stored calculations are single bytes, as far as the tool decodes them.",
            "Called scripts are referred to by one byte."],
        run: |ctx: &mut Ctx| {
            // every code
            for code in 0..=253u8 {
                ctx.case(|| format!("step code {}", code), |ctx| {
                    for idx in [1usize, 2, 127, 128, 129, 300, 20000] {
                        for (i, store) in [Store::Key, Store::Long, Store::Segments(vec![(0, 0, 28)])].into_iter().enumerate() {
                            let data = vec![Data::Name("$n".into()), Data::Value(number(3).0), Data::Calc(variable("$x").0)];
                            let value = vec![Data::Name("$n".into()), Data::Value(xor("text")), Data::Calc(variable("$x").0)];
                            let mut db = one(vec![step(code, idx, if code == 141 { value } else { data })], store);
                            db.foreign = idx % 2 == 0;
                            scripts_ok(ctx, &db, &simple(&db, Form(i as u8)))?;
                        }
                    }
                    // next to every other code
                    for other in (0..=253u8).step_by(if ctx.quick() { 3 } else { 1 }) {
                        let db = one(vec![step(code, 1, vec![]), step(other, 2, vec![Data::Calc(variable("$y").0)]), step(code, 3, vec![Data::Calc(number(4).0)])], Store::Key);
                        scripts_ok(ctx, &db, &simple(&db, Form(other % 3)))?;
                    }
                    Ok(())
                });
            }
            // sequences
            const CODES: [u8; 14] = [1, 6, 68, 125, 69, 70, 71, 72, 73, 141, 103, 2, 89, 200];
            for l in 0..=ctx.by(3usize, 4) {
                for i in 0..14u64.pow(l as u32) {
                    ctx.case(|| format!("steps {:?}", digits(i, 14, l).iter().map(|d| CODES[*d]).collect::<Vec<_>>()), |ctx| {
                        let steps: Vec<DStep> = digits(i, 14, l).iter().enumerate().map(|(k, d)| DStep { code: CODES[*d], idx: k + 1 + k * k * 60, arg: if CODES[*d] == 1 { [1u8, 2, 9][k % 3] } else { 0 },
                            data: match CODES[*d] { 141 => vec![Data::Name(format!("$v{}", k)), Data::Calc(number(k as u8).0)], 68 | 72 | 125 => vec![Data::Calc(variable("$c").0)], 103 => vec![Data::Value(number(9).0)], _ => vec![] } }).collect();
                        for (f, store) in [Store::Key, Store::Long, Store::Segments((0..l).map(|k| ((l - k) as u8, (l - 1 - k) * 28, (l - k) * 28)).map(|(i, a, b)| (i, a, b)).collect())].into_iter().enumerate() {
                            let db = Db { scripts: vec![script(1, "s", steps.clone(), store), script(2, "t", vec![step(7, 1, vec![])], Store::Key)], code_first: f == 1, ..Db::default() };
                            scripts_ok(ctx, &db, &simple(&db, Form(f as u8)))?;
                        }
                        Ok(())
                    });
                }
            }
            // segments
            let n = 5 * 28;
            let grid = ctx.by(4usize, 1);
            for a in (0..=n).step_by(grid) {
                ctx.case(|| format!("step list of {} bytes in segments, first of {}", n, a), |ctx| {
                    for b in (a..=n).step_by(grid) {
                        for order in permutations(3) {
                            for idx in [[0u8, 1, 2], [1, 2, 3], [4, 200, 255]] {
                                let seg = [(idx[0], 0, a), (idx[1], a, b), (idx[2], b, n)];
                                let db = one(list(5), Store::Segments(order.iter().map(|o| seg[*o]).filter(|s| s.2 > s.1).collect()));
                                if idx[0] != 0 && (a + b) % 8 != 0 && ctx.quick() { continue; }
                                scripts_ok(ctx, &db, &simple(&db, Form((a % 3) as u8)))?;
                            }
                        }
                    }
                    Ok(())
                });
            }
            for i in 0..255usize {
                ctx.case(|| format!("segment {} and every later one", i), |ctx| {
                    for j in i + 1..256 {
                        let at = 28 * (1 + (i + j) % 4);
                        let mut seg = vec![(i as u8, 0, at), (j as u8, at, 140)];
                        if (i + j) % 3 == 0 { seg.reverse(); }
                        let db = one(list(5), Store::Segments(seg));
                        scripts_ok(ctx, &db, &simple(&db, Form((j % 3) as u8)))?;
                    }
                    // a step or two in each of i + 1 segments
                    let mut seg: Vec<(u8, usize, usize)> = vec![];
                    for k in 0..=i { let a = seg.last().map(|s| s.2).unwrap_or(0); seg.push((k as u8, a, a + if k % 9 == 8 { 56 } else { 28 })); }
                    let n = seg[i].2 / 28;
                    if n > 125 { let cut = 125 * 28; seg.retain(|s| s.2 <= cut); }
                    let n = n.min(125);
                    let done = seg.last().map(|s| s.2).unwrap_or(0) / 28;
                    if i % 2 == 1 { seg.reverse(); }
                    let db = one(list(done.min(n)), Store::Segments(seg));
                    scripts_ok(ctx, &db, &simple(&db, Form((i % 3) as u8)))
                });
            }
            for n in 0..=ctx.by(145usize, 145) {
                ctx.case(|| format!("{} steps", n), |ctx| {
                    for (f, store) in [Store::Key, Store::Long].into_iter().enumerate() {
                        let db = one(list(n), store);
                        scripts_ok(ctx, &db, &simple(&db, Form(f as u8)))?;
                    }
                    let m = n * 3;
                    let k = 1 + m / 20;
                    let db = one(list(m), Store::Segments((0..k).rev().map(|i| (i as u8, m * i / k * 28, m * (i + 1) / k * 28)).collect()));
                    scripts_ok(ctx, &db, &simple(&db, Form(0)))
                });
            }
            // calculations
            let toks = calc_tokens();
            let k = toks.len();
            let deep = !ctx.quick();
            for a in 0..k {
                for b in 0..k {
                    let toks = &toks;
                    ctx.case(|| format!("calculations starting with {:?} {:?}", toks[a].1, toks[b].1), |ctx| {
                        let mut calcs: Vec<Vec<usize>> = vec![vec![a], vec![a, b]];
                        for c in 0..k { calcs.push(vec![a, b, c]); if deep { for d in 0..k { calcs.push(vec![a, b, c, d]); } } }
                        calcs.retain(|c| !c.windows(2).any(|w| ambiguous(&toks[w[0]].0, &toks[w[1]].0)));
                        for part in calcs.chunks(45) {
                            let steps: Vec<DStep> = part.iter().enumerate().map(|(i, c)| {
                                let bytes: Vec<u8> = c.iter().flat_map(|t| toks[*t].0.clone()).collect();
                                // what the elements say, from the list rather than from the bytes
                                let text: String = c.iter().map(|t| toks[*t].1.clone()).collect();
                                assert_eq!(render(&bytes), text);
                                match i % 3 { 0 => step(141, i + 1, vec![Data::Name("$n".into()), Data::Calc(bytes)]), 1 => step(68, i + 1, vec![Data::Calc(bytes)]), _ => step(103, i + 1, vec![Data::Value(bytes)]) }
                            }).collect();
                            let db = one(steps, Store::Long);
                            scripts_ok(ctx, &db, &simple(&db, Form((a % 3) as u8)))?;
                            ctx.traces += part.len() as u64;
                        }
                        Ok(())
                    });
                }
            }
            for n in 0..=253usize {
                ctx.case(|| format!("calculation texts of {} bytes, number {}", n, n), |ctx| {
                    let t: String = "ab 5\"+(é$".chars().cycle().scan(0, |l, c| { *l += c.len_utf8(); Some((*l, c)) }).take_while(|(l, _)| *l <= n).map(|x| x.1).collect();
                    let t = format!("{}{}", t, "z".repeat(n - t.len()));
                    let mut steps = vec![];
                    for (i, b) in [literal(&t).0, variable(&t).0, blanks(&t).0, number(n as u8).0].into_iter().enumerate() {
                        if b.len() < 256 { steps.push(step(68, i + 1, vec![Data::Calc(b)])); }
                    }
                    steps.push(step(141, 9, vec![Data::Name(t.clone()), Data::Value(xor(&t))]));
                    let mut db = one(steps, Store::Key);
                    if n > 0 { db.scripts[0].name = t.clone(); }
                    scripts_ok(ctx, &db, &simple(&db, Form((n % 3) as u8)))
                });
            }
            // long calculations: each pair of elements again and again
            for a in 0..k { for b in 0..k {
                if ambiguous(&toks[a].0, &toks[b].0) || ambiguous(&toks[b].0, &toks[a].0) || ambiguous(&toks[a].0, &toks[a].0) { continue; }
                if ctx.quick() && (a + b) % 3 != 0 { continue; }
                let toks = &toks;
                ctx.case(|| format!("long calculations of {:?} and {:?}", toks[a].1, toks[b].1), |ctx| {
                    let mut steps = vec![];
                    for (which, (x, y)) in [(a, a), (a, b)].into_iter().enumerate() {
                        let mut c: Vec<u8> = vec![];
                        let mut i = 0usize;
                        loop {
                            let t = &toks[if i % 2 == 0 { x } else { y }].0;
                            if t.is_empty() || c.len() + t.len() > 255 { break; }
                            c.extend(t);
                            i += 1;
                            if [4, 5, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 254, 255].contains(&i) { steps.push(step([68, 72, 125][i % 3], i + 2000 * which, vec![Data::Calc(c.clone())])); }
                        }
                        steps.push(step(68, 1000 + which, vec![Data::Calc(c)]));
                    }
                    for s in steps.chunks(100) {
                        let db = one(s.to_vec(), Store::Long);
                        scripts_ok(ctx, &db, &simple(&db, Form((b % 3) as u8)))?;
                    }
                    Ok(())
                });
            } }
            // many scripts and steps
            for n in [4usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025] { for kind in 0..3usize { for form in 0..3u8 {
                ctx.case(|| format!("{} {}, spelling {}", n, ["scripts", "steps", "scripts that call one another"][kind], form), |ctx| {
                    let db = match kind {
                        0 => Db { scripts: (1..=n).map(|i| script(i, &format!("script {}", i), vec![step(70, i, vec![]), step(141, i + 1, vec![Data::Name(format!("$v{}", i)), Data::Calc(variable("$x").0)])], [Store::Key, Store::Long][i % 2].clone())).collect(), code_first: form == 1, ..Db::default() },
                        1 => {
                            let k = 1 + n / 7;
                            let mut seg: Vec<(u8, usize, usize)> = (0..k).map(|i| (i as u8, n * i / k * 28, n * (i + 1) / k * 28)).filter(|s| s.2 > s.1).collect();
                            if form == 2 { seg.reverse(); }
                            one(list(n), Store::Segments(seg))
                        }
                        _ => Db { scripts: (1..=n).map(|i| script(i, &format!("script {}", i), vec![DStep { code: 1, idx: 1, arg: ((i % n) % 255 + 1).min(n) as u8, data: vec![] }], Store::Key)).collect(), code_first: form == 1, ..Db::default() },
                    };
                    scripts_ok(ctx, &db, &simple(&db, Form(form)))
                });
            } } }
            // calls and ids
            for id in 1..=255usize {
                ctx.case(|| format!("called script {}", id), |ctx| {
                    for code_first in [false, true] {
                        for (other, arg) in [(if id == 7 { 8 } else { 7 }, id), (id + 256, id), (id + 1, id + 1)] {
                            let call = DStep { code: 1, idx: 1, arg: arg as u8, data: vec![] };
                            let mut scripts = vec![script(id, "called", vec![step(7, 1, vec![])], Store::Key), script(other, "other", vec![call.clone(), step(70, 2, vec![]), call], Store::Key)];
                            if arg > 255 { continue; }
                            if id % 2 == 0 { scripts.reverse(); }
                            let db = Db { scripts, code_first, ..Db::default() };
                            scripts_ok(ctx, &db, &simple(&db, Form((id % 3) as u8)))?;
                        }
                    }
                    Ok(())
                });
            }
            for blk in 0..ctx.by(40usize, 1000) {
                ctx.case(|| format!("script and step ids {}..", 1 + blk * 31), |ctx| {
                    for id in 1 + blk * 31..1 + blk * 31 + 31 {
                        let db = Db { scripts: vec![script(id, "s", vec![step(141, id, vec![Data::Name("$n".into()), Data::Calc(variable("$x").0)]), step(68, id + 1, vec![Data::Calc(variable("$y").0)])], Store::Key)], ..Db::default() };
                        scripts_ok(ctx, &db, &simple(&db, Form((id % 3) as u8)))?;
                    }
                    Ok(())
                });
            }
            for code_first in [false, true] { stray_chunks(ctx, &rich_scripts(code_first), &|p| p.first() == Some(&17), scripts_ok); }
            // sector cuts
            for form in 0..6u8 {
                for code_first in [false, true] {
                    let mut db = rich_scripts(code_first);
                    db.foreign = form > 2;
                    let form = form % 3;
                    let o = ops(&db, Form(form));
                    let n = o.len();
                    for i in 1..n {
                        let (db, o) = (&db, &o);
                        ctx.case(|| format!("scripts, spelling {}, {}cut before operation {}{}", form, if code_first { "step lists first, " } else { "" }, i, with_foreign(db)), |ctx| {
                            for close in [false, true] {
                                let s = sectors(o, &[i], close).expect("fits");
                                scripts_ok(ctx, db, &file(&s, &[2, 3], 4, 0))?;
                                let full: Vec<Vec<u8>> = s.iter().map(|p| flush_right(p)).collect();
                                scripts_ok(ctx, db, &file(&full, &[2, 3], 4, 0x20))?;
                                for j in i + 1..n {
                                    if db.foreign && (ctx.quick() || close) { break; }
                                    if ctx.quick() && (i + j) % 2 == (form % 2) as usize { continue; }
                                    let s = sectors(o, &[i, j], close).expect("fits");
                                    scripts_ok(ctx, db, &file(&s, if (i + j) % 3 == 0 { &[2, 3, 4] } else { &[2, 4, 3] }, 5, 0))?;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        },
    }
}

// ---------------------------------------------------------------------------- C24

/// Decompile whatever this is: a result or a panic will do, as long as it ends (the engine
/// reports cases that use up their time or memory).
fn ends(ctx: &mut Ctx, bytes: &[u8]) {
    ctx.alive();
    ctx.states.add(h64(bytes));
    ctx.transitions += 1;
    let r = std::panic::catch_unwind(|| { decompile(bytes); });
    ctx.count(if r.is_ok() { "read_to_the_end" } else { "ended_with_an_error" }, 1);
    ctx.out();
}
fn fill_up(p: &mut Vec<u8>) {
    let n = 4076 - p.len() - 4;
    p.extend([0x07, 99, (n / 256) as u8, (n % 256) as u8]);
}
/// The damaged files: a schema in four sectors, scripts in three.
fn victims(long: bool) -> Vec<(Vec<Vec<u8>>, Vec<usize>, usize)> {
    let mut v = vec![];
    for (db, k, form) in [(rich(), 4usize, 0u8), (rich_scripts(false), 3, 1)] {
        let o = ops(&db, Form(form));
        let cuts: Vec<usize> = (1..k).map(|i| i * o.len() / k).collect();
        let mut s = sectors(&o, &cuts, false).expect("fits");
        // the rest of the sector as one long chunk rather than as zeros: reads faster
        if long { for p in &mut s { fill_up(p); } }
        let b = if k == 4 { vec![2, 5, 3, 4] } else { plain_blocks(k) };
        v.push((s, b, k + 2));
    }
    v
}

pub fn c24() -> Prop {
    Prop {
        id: "C24", level: "fault_enumeration",
        rule: "two well-formed files (a schema over 4 sectors, scripts over 3), with every fault of: each byte of the headers and payloads (and of 24 bytes of padding) set to each of the other 255 values; each pair of adjacent bytes set to each pair of 14 (thorough 40) special values; the file cut off at every length; each byte of a payload removed, and each of 24 bytes inserted before it; every assignment of all sector links over the sectors in the file, one beyond and extreme values, with every sector count; every assignment of links with one of 3 flags in one of the first 3 header bytes of each subset of the sectors; payloads starting with every pair of bytes under 2 (thorough 3) fillings inside of 12 directories (thorough: also 4 third bytes). Each damaged file is decompiled; using more than 15 s of processor time or 1 GB of memory is a violation. evaluations = damaged files decompiled, distinct_nontrivial = distinct damaged files.",
        assumptions: &["Ending with a panic counts as reporting an error."],
        run: |ctx: &mut Ctx| {
            super::sys::limit(1 << 30, 1 << 30);
            let special: Vec<u8> = if ctx.quick() { vec![0x00, 0x01, 0x07, 0x0E, 0x0F, 0x1B, 0x1F, 0x20, 0x30, 0x38, 0x40, 0x80, 0xC0, 0xFF] }
                else { let mut v: Vec<u8> = (0..0x20).collect(); v.extend([0x20, 0x23, 0x28, 0x30, 0x38, 0x3D, 0x40, 0x7F, 0x80, 0xC0, 0xFE, 0xFF]); v };
            let short = victims(false);
            for (v, (s, b, total)) in victims(true).into_iter().enumerate() {
                let good = file(&s, &b, total, 0);
                // thorough: with the rest of each sector as zeros, too
                let zeros = file(&short[v].0, &b, total, 0);
                let mut places: Vec<usize> = (4096..4096 + 20).collect();
                for (i, p) in s.iter().enumerate() { places.extend(b[i] * 4096..b[i] * 4096 + 20 + p.len() + 24); }
                for at in places {
                    let (good, zeros) = (&good, &zeros);
                    ctx.case(|| format!("file {} with byte {} altered", v, at), |ctx| {
                        for x in 1..=255u8 {
                            let mut f = good.clone(); f[at] ^= x; ends(ctx, &f);
                            if !ctx.quick() { let mut f = zeros.clone(); f[at] ^= x; ends(ctx, &f); }
                        }
                        Ok(())
                    });
                    let special = &special;
                    ctx.case(|| format!("file {} with bytes {} and {} altered", v, at, at + 1), |ctx| {
                        for x in special { for y in special { let mut f = good.clone(); f[at] = *x; f[at + 1] = *y; ends(ctx, &f); } }
                        Ok(())
                    });
                }
                for n in 0..=good.len() / 16 {
                    let good = &good;
                    ctx.case(|| format!("file {} cut off after {}.. bytes", v, n * 16), |ctx| {
                        for k in n * 16..(n * 16 + 16).min(good.len() + 1) { ends(ctx, &good[..k]); }
                        Ok(())
                    });
                }
                for (i, p) in s.iter().enumerate() {
                    for at in 0..p.len() {
                        let (s, b) = (&s, &b);
                        ctx.case(|| format!("file {} with a byte of sector {} lost or inserted at {}", v, i, at), |ctx| {
                            let mut t = s.clone();
                            t[i].remove(at);
                            ends(ctx, &file(&t, b, total, 0));
                            for x in [0u8, 1, 5, 6, 7, 8, 0x0E, 0x0F, 0x11, 0x16, 0x17, 0x19, 0x1B, 0x1D, 0x1E, 0x1F, 0x20, 0x28, 0x38, 0x40, 0x7F, 0x80, 0xC0, 0xFF] {
                                let mut t = s.clone();
                                t[i].insert(at, x);
                                ends(ctx, &file(&t, b, total, 0));
                            }
                            Ok(())
                        });
                    }
                }
                // links
                let mut targets: Vec<usize> = (0..=total + 1).collect();
                targets.extend([1 << 16, 1 << 24, (1 << 31) - 1, 1 << 31, (1usize << 32) - 1]);
                let m = targets.len();
                for first in 0..m {
                    for count in [0usize, 1, 2, 3, total, total + 1, 1 << 20, (1usize << 32) - 1] {
                        let (good, b, targets) = (&good, &b, &targets);
                        ctx.case(|| format!("file {} with {} sectors declared, first linked to {}", v, count, targets[first]), |ctx| {
                            let rest = (m as u64).pow(b.len() as u32 - 1);
                            for i in 0..rest {
                                if ctx.quick() && m > 10 && b.len() == 4 && (i + count as u64) % 3 != 0 { continue; }
                                let mut f = good.clone();
                                f[4096 + 8..4096 + 12].copy_from_slice(&(count as u32).to_be_bytes());
                                for (k, t) in std::iter::once(first).chain(digits(i, m as u64, b.len() - 1)).enumerate() {
                                    let at = b[k] * 4096 + 8;
                                    f[at..at + 4].copy_from_slice(&(targets[t] as u32).to_be_bytes());
                                }
                                ends(ctx, &f);
                            }
                            Ok(())
                        });
                    }
                }
            }
            // links together with the flags of the sectors' headers
            for (v, (s, b, total)) in victims(true).into_iter().enumerate() {
                let good = file(&s, &b, total, 0);
                let targets: Vec<usize> = (0..=total).collect();
                let m = targets.len() as u64;
                for flag in [1u8, 0x80, 0xFF] { for byte in 0..3usize { for mask in 1..1usize << b.len() {
                    let (good, b, targets) = (&good, &b, &targets);
                    ctx.case(|| format!("file {} with {:#x} at {} in the sectors {:b}, every link", v, flag, byte, mask), |ctx| {
                        for i in 0..m.pow(b.len() as u32) {
                            if ctx.quick() && b.len() == 4 && (i + mask as u64 + flag as u64 + byte as u64) % 5 != 0 { continue; }
                            let mut f = good.clone();
                            for (k, t) in digits(i, m, b.len()).into_iter().enumerate() {
                                let at = b[k] * 4096;
                                if mask >> k & 1 == 1 { f[at + byte] = flag; }
                                f[at + 8..at + 12].copy_from_slice(&(targets[t] as u32).to_be_bytes());
                            }
                            ends(ctx, &f);
                        }
                        Ok(())
                    });
                } } }
            }
            // payloads from scratch, inside of the directories the tool looks at
            let dirs: [&[usize]; 12] = [&[], &[3, 16, 5, 129], &[3, 17, 5], &[3, 251, 5, 1, 3], &[4, 1, 7, 1], &[129, 3, 5, 1], &[17, 5, 1], &[17, 5, 1, 4], &[17, 5, 1, 5, 1, 128, 5], &[17, 1, 7, 1], &[32, 5, 1], &[32, 1, 1]];
            for (d, dir) in dirs.iter().enumerate() {
                for a in 0..256usize {
                    ctx.case(|| format!("directory {:?}, payload starting with {:#x}", dir, a), |ctx| {
                        let mut pre = vec![];
                        for n in dir.iter() { let p = path_bytes(*n); pre.push(if p.len() == 1 { 0x20 } else { 0x28 }); pre.extend(p); }
                        if d == 2 { pre.extend([0x30, 0xD0, 0, 1, 0x20, 251]); }
                        for b in 0..256usize {
                            for fill in if ctx.quick() { &[0u8, 0x20][..] } else { &[0u8, 0x20, 0xC0] } {
                                let fill = *fill;
                                let mut p = pre.clone();
                                p.push(a as u8);
                                p.push(b as u8);
                                if ctx.quick() { p.resize(40, fill); fill_up(&mut p); } else {
                                    for c in [0u8, 6, 0x1E, 0xFF] {
                                        let mut q = p.clone();
                                        q.push(c);
                                        q.resize(200, fill);
                                        fill_up(&mut q);
                                        ends(ctx, &file(&[q], &[2], 3, 0));
                                    }
                                    if fill == 0xC0 { p.resize(4076, fill) } else { p.resize(200, fill); fill_up(&mut p) }
                                }
                                ends(ctx, &file(&[p], &[2], 3, 0));
                            }
                        }
                        Ok(())
                    });
                }
            }
        },
    }
}

// ---------------------------------------------------------------------------- C29

fn source(id: usize, name: &str, path: &str, file: &str) -> DSource {
    DSource { id, name: name.into(), kind: "file".into(), path: path.into(), file: file.into(), user: "me".into(), account: "Admin".into() }
}
fn sources(list: Vec<DSource>) -> Db {
    Db { tables: vec![table(1, "T", &[1])], occs: vec![occ(1, "T_occ", 1)], sources: list, ..Db::default() }
}

pub fn c29() -> Prop {
    Prop {
        id: "C29", level: "model_checking",
        rule: "files written by an independent FMP12 writer: every path of up to 4 (thorough 5) parts out of 13, every pair of printable characters and every length to 240, with either code of the colon; the bytes that introduce a path at every place inside of one; file names of every length to 240; every name of up to 2 (thorough 3) characters over 13 and every length to 100, also as file name and user; kinds; every ordered choice of up to 3 (thorough 4) of 10 ids with every order of the names; every id to 1100 (thorough 31000); up to 120 sources; every single and every pair (thorough triple) of sector cuts of a file with three sources, with directories left open or closed; x chunk spellings, and with the other keys of FileMaker's files; every key, segment number, chunk and directory (to two levels) without a meaning at every place of a file with three sources, among the sources. states = distinct files, transitions = files decompiled.",
        assumptions: &["Paths are printable ASCII; a reference to a file is less than 256 bytes long."],
        run: |ctx: &mut Ctx| {
            let all = |ctx: &mut Ctx, db: &Db| {
                for form in 0..3u8 { schema_ok(ctx, db, &simple(db, Form(form)))?; }
                let mut db = db.clone();
                db.foreign = true;
                schema_ok(ctx, &db, &simple(&db, Form(0)))
            };
            // paths
            const PARTS: [&str; 13] = ["..", "/", "h", ":", "a", "A2", ".", " ", "fm_cur", "9", "Macintosh HD", "Z", "-"];
            for l in 0..=ctx.by(4usize, 5) {
                for i in 0..(PARTS.len() as u64).pow(l as u32) {
                    let p: String = digits(i, PARTS.len() as u64, l).iter().map(|d| PARTS[*d]).collect();
                    ctx.case(|| format!("path {:?}", p), |ctx| {
                        let db = sources(vec![source(1, "one", &p, "One"), source(2, "two", "../", "Two")]);
                        schema_ok(ctx, &db, &simple(&db, Form((i % 3) as u8)))
                    });
                }
            }
            for a in 0x20..0x7Fu8 {
                ctx.case(|| format!("paths with {:?}", a as char), |ctx| {
                    for b in 0x20..0x7Fu8 {
                        let db = sources(vec![source(1, "one", &format!("../{}{}/", a as char, b as char), &format!("{}{}", b as char, a as char))]);
                        schema_ok(ctx, &db, &simple(&db, Form(b % 3)))?;
                    }
                    Ok(())
                });
            }
            for n in 1..=240usize {
                ctx.case(|| format!("paths of {} characters", n), |ctx| {
                    let p: String = "../some/where else/".chars().cycle().take(n).collect();
                    for f in ["f", "a longer file name"] { for k in ["file", "filemac", "filewin", "imagemac"] {
                        if 8 + k.len() + n + f.len() > 255 { continue; }
                        let mut db = sources(vec![source(1, "one", &p, f)]);
                        db.sources[0].kind = k.into();
                        all(ctx, &db)?;
                    } }
                    Ok(())
                });
            }
            // what introduces a path, inside of one: every place of it and of the bytes around it
            for n in 0..=12usize { for at in 0..=n { for mark in [":h", "::h", ":hh", ":h:h", "/:h", "h:h:"] {
                ctx.case(|| format!("path of {} characters with {:?} at {}", n, mark, at), |ctx| {
                    let fill: String = "../a b/c.d/e".chars().take(n).collect();
                    let p = format!("{}{}{}", &fill[..at], mark, &fill[at..]);
                    for f in ["f", "\u{1b}h", "a\u{1b}hb", "\u{1b}"] { all(ctx, &sources(vec![source(1, "one", &p, f), source(2, "two", "../x", &p)]))?; }
                    Ok(())
                });
            } } }
            for n in 1..=240usize {
                ctx.case(|| format!("file names of {} characters", n), |ctx| {
                    let f: String = "file name.".chars().cycle().take(n).collect();
                    for p in ["", "../", "../../a"] { if 12 + n + p.len() <= 255 { all(ctx, &sources(vec![source(1, "one", p, &f), source(2, "two", "../", "x")]))?; } }
                    Ok(())
                });
            }
            // names
            let mut names: Vec<String> = vec![];
            for l in 1..=ctx.by(2usize, 3) {
                for i in 0..(NAMECHARS.len() as u64).pow(l as u32) { names.push(digits(i, NAMECHARS.len() as u64, l).iter().map(|d| NAMECHARS[*d]).collect()); }
            }
            for n in 1..=100usize { names.push("abcdefghij k".chars().cycle().take(n).collect()); }
            for n in names {
                ctx.case(|| format!("everything named {:?}", n), |ctx| {
                    let mut db = sources(vec![source(1, "m", "../", "x"), source(2, &n, "../", &n), source(3, "b", "../../", "y")]);
                    db.sources[1].user = n.clone();
                    all(ctx, &db)
                });
            }
            // ids and orders
            const IDS: [usize; 10] = [1, 2, 3, 9, 127, 128, 129, 255, 256, 1000];
            for k in 0..=ctx.by(3usize, 4) {
                for i in 0..10u64.pow(k as u32) {
                    let d = digits(i, 10, k);
                    if (0..k).any(|a| d[..a].contains(&d[a])) { continue; }
                    ctx.case(|| format!("ids {:?}", d.iter().map(|x| IDS[*x]).collect::<Vec<_>>()), |ctx| {
                        for perm in permutations(k) {
                            let list = (0..k).map(|j| {
                                let name = format!("name {}", perm[j]);
                                let mut s = source(IDS[d[j]], &name, &"../".repeat(j + 1), &format!("File{}", IDS[d[j]]));
                                s.user = format!("user{}", j);
                                s
                            }).collect();
                            all(ctx, &sources(list))?;
                        }
                        Ok(())
                    });
                }
            }
            for id in 1..=ctx.by(1100usize, 31000) {
                ctx.case(|| format!("id {}", id), |ctx| all(ctx, &sources(vec![source(id, "one", "../", "One"), source(id + 1, "another", "../a/", "Two")])));
            }
            for n in [4usize, 10, 50, 120, 300] {
                ctx.case(|| format!("{} sources", n), |ctx| {
                    let list: Vec<DSource> = (1..=n).map(|i| source(i, &format!("source {}", n - i), "../there/", &format!("File {}", i))).collect();
                    all(ctx, &sources(list.clone()))?;
                    all(ctx, &sources(list.into_iter().rev().collect()))
                });
            }
            stray_chunks(ctx, &sources(vec![source(1, "mike", "../", "One"), source(2, "alpha", "../../that/", "Two"), source(130, "zulu", "here/", "Three")]), &|p| p.first() == Some(&32), schema_ok);
            // the same names, and sources beside everything else
            ctx.case(|| "equal names".into(), |ctx| all(ctx, &sources(vec![source(1, "one", "../", "x"), source(2, "one", "a/", "y"), source(3, "one", "", "x")])));
            for close in [false, true] {
                for form in 0..4u8 {
                    let mut db = rich();
                    db.foreign = form == 3;
                    let form = form % 3;
                    db.sources = vec![source(1, "mike", "../", "One"), source(2, "alpha", "../../that/", "Two"), source(130, "zulu", "here/", "Three")];
                    let o = ops(&db, Form(form));
                    let n = o.len();
                    for i in 1..n {
                        let (db, o) = (&db, &o);
                        ctx.case(|| format!("spelling {} cut before operation {}{}{}", form, i, if close { ", directories closed" } else { "" }, with_foreign(db)), |ctx| {
                            for j in i + 1..=n {
                                if db.foreign && ctx.quick() && j < n { continue; }
                                let cuts = if j < n { vec![i, j] } else { vec![i] };
                                let s = sectors(o, &cuts, close).expect("fits");
                                schema_ok(ctx, db, &file(&s, &plain_blocks(s.len()), s.len() + 2, 0))?;
                                if j % 7 == 0 || j == n {
                                    let full: Vec<Vec<u8>> = s.iter().map(|p| flush_right(p)).collect();
                                    schema_ok(ctx, db, &file(&full, &plain_blocks(s.len()), s.len() + 2, 0x20))?;
                                }
                                if !ctx.quick() && form == 0 && !db.foreign {
                                    for k in j + 1..n {
                                        let s = sectors(o, &[i, j, k], close).expect("fits");
                                        schema_ok(ctx, db, &file(&s, [[2, 3, 4, 5], [2, 5, 3, 4], [2, 4, 5, 3]][k % 3].as_slice(), 6, 0))?;
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        },
    }
}

pub fn props() -> Vec<Prop> { vec![c23(), c24(), c27(), c29()] }
