// C25 assembled files, C19 determinism.
use super::engine::{h64, Ctx, Prop};
use super::codes::{code_of, path_value, supported};
use super::props_calc::digits;
use crate::compile::assembler::Assembler;
use crate::compile::compiler::compile_burn;
use crate::component::{FMComponentTable, FMComponentTableOccurence};
use crate::file::FmpFile;

/// The file the tool writes for this schema.
pub fn assemble(f: &FmpFile) -> Vec<u8> {
    let name = format!("out{}", std::process::id());
    let mut a = Assembler::new(f);
    a.assemble_fmp12(f);
    a.emit_assembly(&name);
    let p = format!("{}.fmp12", name);
    let b = std::fs::read(&p).expect("the assembled file");
    let _ = std::fs::remove_file(&p);
    b
}

/// Independent chunk reader: (key, data, reference, opened directory, closes, length).
#[derive(Debug, Clone, PartialEq)]
pub struct Dec { pub key: Option<usize>, pub data: Vec<u8>, pub refd: Option<Vec<u8>>, pub push: Option<usize>, pub pop: bool, pub len: usize }

pub fn dec(b: &[u8]) -> Result<Dec, String> {
    let need = |n: usize| if b.len() < n { Err(format!("chunk {:#x} reaches past the end of the sector", b[0])) } else { Ok(()) };
    let mut d = Dec { key: None, data: vec![], refd: None, push: None, pop: false, len: 1 };
    let mut take = |d: &mut Dec, at: usize, n: usize| { need(at + n)?; d.data = b[at..at + n].to_vec(); d.len = at + n; Ok::<(), String>(()) };
    let two = |at: usize| { need(at + 2)?; Ok::<usize, String>(b[at] as usize * 256 + b[at + 1] as usize) };
    need(1)?;
    if b.len() < 2 && ![0x3D, 0x40, 0x80].contains(&b[0]) { need(2)?; }
    const SHORT: [usize; 5] = [1, 2, 4, 6, 8];
    match b[0] {
        0x00 => { d.len = 2; }
        c @ 0x01..=0x05 => { d.key = Some(b[1] as usize); take(&mut d, 2, SHORT[c as usize - 1])?; }
        0x06 => { need(3)?; d.key = Some(b[1] as usize); take(&mut d, 3, b[2] as usize)?; }
        0x07 => { let n = two(2)?; take(&mut d, 4, n)?; }
        0x08 => take(&mut d, 1, 2)?,
        c @ 0x09..=0x0D => { need(3)?; d.key = Some(path_value(b[1], b[2])); take(&mut d, 3, SHORT[c as usize - 9])?; }
        0x0E if b[1] == 0xFF => take(&mut d, 1, 6)?,
        0x0E => { need(4)?; d.key = Some(path_value(b[1], b[2])); take(&mut d, 4, b[3] as usize)?; }
        0x0F if b[1] == 0x80 => { let n = two(3)?; take(&mut d, 5, n)?; }
        0x0F => { let n = two(3)?; d.key = Some(path_value(b[1], b[2])); take(&mut d, 5, n)?; }
        0x10 => take(&mut d, 1, 3)?,
        c @ 0x11..=0x15 => take(&mut d, 1, 3 + SHORT[c as usize - 0x11])?,
        0x16 => { need(5)?; d.refd = Some(b[1..4].to_vec()); take(&mut d, 5, b[4] as usize)?; }
        0x17 => { let n = two(4)?; d.refd = Some(b[1..4].to_vec()); take(&mut d, 6, n)?; }
        0x1B if b[1] == 0 => { need(3)?; d.key = Some(b[2] as usize); take(&mut d, 3, 4)?; }
        c @ (0x19 | 0x1A | 0x1B | 0x1C | 0x1D) => { take(&mut d, 2, b[1] as usize)?; d.len += SHORT[c as usize - 0x19]; need(d.len)?; }
        0x1E => { let r = b[1] as usize; need(3 + r)?; d.refd = Some(b[2..2 + r].to_vec()); take(&mut d, 3 + r, b[2 + r] as usize)?; }
        0x1F => { let r = b[1] as usize; let n = two(2 + r)?; d.refd = Some(b[2..2 + r].to_vec()); take(&mut d, 4 + r, n)?; }
        0x20 if b[1] == 0xFE => { take(&mut d, 2, 8)?; d.push = Some(b[2] as usize); }
        0x20 => { take(&mut d, 1, 1)?; d.push = Some(b[1] as usize); }
        0x23 => take(&mut d, 2, b[1] as usize)?,
        0x28 => { take(&mut d, 1, 2)?; d.push = Some(path_value(b[1], b[2])); }
        0x30 => { take(&mut d, 1, 3)?; d.push = Some(0); }
        0x3D | 0x40 => d.pop = true,
        0x80 => {}
        c => return Err(format!("unknown chunk code {:#x}", c)),
    }
    Ok(d)
}

pub struct Item { pub path: Vec<usize>, pub dec: Dec }

/// Read a whole file: sectors chained from block 2, every chunk with its directory.
pub fn read_file(f: &[u8]) -> Result<Vec<Item>, String> {
    if f.is_empty() || f.len() % 4096 != 0 { return Err(format!("the file has {} bytes, not whole sectors", f.len())); }
    let blocks = f.len() / 4096;
    if blocks < 3 { return Err(format!("the file has {} sectors", blocks)); }
    let link = |b: usize| u32::from_be_bytes(f[b * 4096 + 8..b * 4096 + 12].try_into().unwrap()) as usize;
    if link(1) == 0 || link(1) > blocks { return Err(format!("{} sectors declared, {} in the file", link(1), blocks)); }
    let (mut at, mut seen, mut items) = (2, vec![], vec![]);
    while at != 0 {
        if at < 2 || at >= blocks { return Err(format!("sector {:?} links to {}, the file has {}", seen.last(), at, blocks)); }
        if seen.contains(&at) { return Err(format!("sector {} is linked twice", at)); }
        seen.push(at);
        let s = &f[at * 4096 + 20..(at + 1) * 4096];
        let mut path: Vec<usize> = vec![];
        let mut i = 0;
        while i < s.len() {
            if s[i..].iter().all(|b| *b == 0) { break; }
            let d = dec(&s[i..]).map_err(|e| format!("sector {} byte {}: {}", at, i + 20, e))?;
            i += d.len;
            if let Some(n) = d.push { path.push(n); }
            if d.pop && path.pop().is_none() { return Err(format!("sector {} byte {}: a directory is closed that is not open", at, i + 20)); }
            items.push(Item { path: path.clone(), dec: d });
        }
        if !path.is_empty() { return Err(format!("sector {} ends inside of directory {:?}", at, path)); }
        at = link(at);
    }
    Ok(items)
}

fn code(t: &str) -> Vec<u8> { t.chars().flat_map(|c| { let (h, l) = if supported().contains(&c) { code_of(c) } else { (0, 0) }; [h, l] }).collect() }

/// The catalogues of an assembled file: tables (id, name bytes), ids, directories; occurrences and their ids.
pub fn check_asm(f: &FmpFile, bytes: &[u8]) -> Result<(), String> {
    let items = read_file(bytes)?;
    let at = |p: &[usize]| -> Vec<&Dec> { items.iter().filter(|i| i.path == p && i.dec.push.is_none() && !i.dec.pop && i.dec.len > 1).map(|i| &i.dec).collect() };
    let same = |what: &str, got: Vec<(usize, Vec<u8>)>, want: Vec<(usize, Vec<u8>)>| if got == want { Ok(()) } else { Err(format!("{} lists {:?} instead of {:?}", what, got, want)) };
    let trim = |mut v: Vec<u8>| { while v.len() > 1 && v.ends_with(&[0, 0]) { v.truncate(v.len() - 2); } if v.len() % 2 == 1 && v.last() == Some(&0) { v.pop(); } while v.ends_with(&[0, 0]) { v.truncate(v.len() - 2); } v };
    let num = |v: &[u8]| v.iter().fold(0usize, |a, b| a * 256 + *b as usize);
    let mut tables = vec![];
    for d in at(&[3, 16, 1, 1]) {
        let Some(r) = &d.refd else { return Err(format!("the table catalogue holds {:?}", d)) };
        if d.data.len() != 3 || d.data[0] != 2 || d.data[1] < 128 { return Err(format!("the table catalogue refers to {:?}", d.data)); }
        tables.push((path_value(d.data[1], d.data[2]) - 128, trim(r.clone())));
    }
    same("the table catalogue", tables, f.tables.iter().map(|(i, t)| (*i, trim(code(&t.table_name)))).collect())?;
    let mut ids = vec![];
    for d in at(&[3, 16, 1, 3]) {
        let Some(r) = &d.refd else { return Err(format!("the table ids hold {:?}", d)) };
        if num(r) != num(&d.data) { return Err(format!("table id {:?} refers to {:?}", r, d.data)); }
        ids.push((num(r), vec![]));
    }
    same("the list of table ids", ids, f.tables.keys().map(|i| (*i, vec![])).collect())?;
    let dirs = items.iter().filter(|i| i.dec.push.is_some() && i.path.len() == 4 && i.path[..3] == [3, 16, 5]).map(|i| (i.path[3], vec![])).collect();
    same("the list of table directories", dirs, f.tables.keys().map(|i| (128 + *i, vec![])).collect())?;
    let occs = at(&[17, 1, 1]);
    let occs: Vec<&Dec> = occs.into_iter().chain(at(&[3, 17, 1, 1])).collect();
    same("the occurrence catalogue", occs.iter().map(|d| (0, trim(d.data.clone()))).collect(), f.table_occurrences.values().map(|t| (0, trim(code(&t.table_occurence_name)))).collect())?;
    let ids: Vec<&Dec> = at(&[3, 17, 1, 3]).into_iter().chain(at(&[17, 1, 3])).collect();
    same("the list of occurrence ids", ids.iter().map(|d| (num(&d.data), vec![])).collect(), f.table_occurrences.keys().map(|i| (*i, vec![])).collect())
}

/// Both assembled as built and read through the tool's own decompiler: the file must not crash it.
fn asm_ok(ctx: &mut Ctx, f: &FmpFile) -> Result<(), String> {
    let b = assemble(f);
    ctx.out();
    ctx.states.add(h64(&b));
    ctx.transitions += 1;
    check_asm(f, &b)?;
    if ctx.transitions % 8 == 0 {
        let back = super::props_file::decompile(&b);
        ctx.out();
        ctx.traces += 1;
        let (got, want): (Vec<usize>, Vec<usize>) = (back.tables.keys().copied().collect(), f.tables.keys().copied().collect());
        if got != want { return Err(format!("decompiling the assembled file gives tables {:?} instead of {:?}", got, want)); }
    }
    Ok(())
}

fn direct(tables: &[(usize, String)], occs: &[(usize, String)]) -> FmpFile {
    let mut f = FmpFile::new();
    f.name = "x".into();
    for (i, n) in tables { let mut t = FMComponentTable::new(); t.table_name = n.clone(); f.tables.insert(*i, t); }
    for (i, n) in occs { let mut t = FMComponentTableOccurence::new(); t.table_occurence_name = n.clone(); t.table_actual = 1; f.table_occurrences.insert(*i, t); }
    f
}

const WORDS: [&str; 8] = ["a", "Person", "job_list", "z z", "_", "Quite_a_long_name_of_a_table", "PERSON", "x_y_z"];

fn burn(tables: &[&str], occs: &[(&str, usize)], more: usize) -> String {
    let mut s = String::new();
    for t in tables { s += &format!("table {}:\n id: Number,\n name: Text,\nend table;\n", t); }
    for (o, t) in occs { s += &format!("table_occurence {}:\n table: {},\nend table_occurence;\n", o, tables[*t]); }
    if more & 1 != 0 && !occs.is_empty() { s += &format!("relationship:\n {}:{},\n id == id,\nend relationship;\n", occs[0].0, occs[occs.len() - 1].0); }
    if more & 2 != 0 { s += "script: [\n  define go() {\n    set_variable(x, 1);\n  }\n  define stop() {\n    show_custom_dialog(\"a\");\n  }\n]\n"; }
    if more & 4 != 0 { s += "test t:\n script: [\n  define test() {\n    assert(1 == 1);\n  }\n ],\nend test;\nvalue_list V:\n \"x\"\nend value_list;\n"; }
    s
}

pub fn c25() -> Prop {
    Prop {
        id: "C25", level: "model_checking",
        rule: "every burn file of up to 3 tables and 3 (thorough 4) occurrences over 5 names x relation/script/test declarations, compiled and assembled; built schemas: every set of up to 3 table ids and occurrence ids of 12 (gaps, 255, and 65535 for occurrences), every name of up to 2 (thorough 3) supported characters, every name length to 100, every number of tables and occurrences to 20 and (quick: every sixth number) both to 400, every file name length to 250. The assembled bytes are read by an independent chunk reader (validated against the C22 chunk layouts), every eighth also by the tool's decompiler. states = distinct assembled files, transitions = files assembled, traces = files read back.",
        assumptions: &["Names are over the characters the double-byte encoding supports, and of at most 100 characters (FileMaker's limit)."],
        run: |ctx: &mut Ctx| {
            // from source
            for nt in 0..=3usize {
                for ti in 0..4u64.pow(nt as u32) {
                    let tn: Vec<&str> = digits(ti, 4, nt).iter().map(|d| WORDS[*d]).collect();
                    let tn: Vec<&str> = if tn.iter().any(|n| *n == "z z") { tn.iter().map(|n| if *n == "z z" { "zz" } else { *n }).collect() } else { tn };
                    for no in 0..=if nt == 0 { 0 } else { ctx.by(3usize, 4) } {
                        for oi in 0..3u64.pow(no as u32) {
                            let tn = &tn;
                            ctx.case(|| format!("tables {:?}, {} occurrences ({})", tn, no, oi), |ctx| {
                                let on: Vec<(&str, usize)> = digits(oi, 3, no).iter().enumerate().map(|(i, d)| (["p_occ", "job", "Q"][*d], (d + i) % nt)).collect();
                                for more in 0..8 {
                                    let src = burn(tn, &on, more);
                                    let mut f = compile_burn(&src);
                                    f.name = "made".into();
                                    if f.tables.len() != nt || f.table_occurrences.len() != no { return Err(format!("compiling gives {} tables and {} occurrences:\n{}", f.tables.len(), f.table_occurrences.len(), src)); }
                                    asm_ok(ctx, &f)?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
            // ids
            let tid: [usize; 12] = [1, 2, 3, 4, 16, 127, 128, 255, 256, 300, 1000, 30000];
            let oid: [usize; 12] = [1, 2, 3, 5, 127, 128, 255, 256, 257, 300, 32768, 65535];
            for mask in 0..4096u32 {
                if mask.count_ones() > 3 { continue; }
                ctx.case(|| format!("tables {:?}, occurrences {:?}", (0..12).filter(|i| mask >> i & 1 == 1).map(|i| tid[i]).collect::<Vec<_>>(), (0..12).filter(|i| mask >> i & 1 == 1).map(|i| oid[i]).collect::<Vec<_>>()), |ctx| {
                    let t: Vec<(usize, String)> = (0..12).filter(|i| mask >> i & 1 == 1).map(|i| (tid[i], WORDS[i % 8].to_string())).collect();
                    let o: Vec<(usize, String)> = (0..12).filter(|i| mask >> i & 1 == 1).map(|i| (oid[i], WORDS[(i + 3) % 8].to_string())).collect();
                    asm_ok(ctx, &direct(&t, &o))?;
                    asm_ok(ctx, &direct(&t, &[]))?;
                    asm_ok(ctx, &direct(&t, &o[..o.len() / 2]))
                });
            }
            for id in 0..=255usize {
                ctx.case(|| format!("table {} alone, occurrences {}..", id, id * 257), |ctx| {
                    asm_ok(ctx, &direct(&[(id, "t".into())], &[(id * 257, "o".into())]))?;
                    asm_ok(ctx, &direct(&[(id, "t".into())], &(0..16).map(|i| (id * 256 + i * 16 + 1, "o".into())).collect::<Vec<_>>()))
                });
            }
            // names
            let sup = supported();
            let mut names: Vec<String> = vec![];
            for l in 1..=ctx.by(2usize, 3) { for i in 0..(sup.len() as u64).pow(l as u32) { names.push(digits(i, sup.len() as u64, l).iter().map(|d| sup[*d]).collect()); } }
            for n in 1..=100usize { names.push((0..n).map(|i| sup[(i * 7 + n) % sup.len()]).collect()); }
            for n in names {
                ctx.case(|| format!("everything named {:?}", n), |ctx| {
                    asm_ok(ctx, &direct(&[(1, n.clone()), (2, "b".into())], &[(1, "c".into()), (2, n.clone()), (9, n.clone())]))
                });
            }
            // numbers
            for nt in 0..=20usize {
                for no in 0..=20usize {
                    ctx.case(|| format!("{} tables and {} occurrences", nt, no), |ctx| {
                        asm_ok(ctx, &direct(&(1..=nt).map(|i| (i, format!("t_{}", WORDS[i % 8]))).collect::<Vec<_>>(), &(1..=no).map(|i| (i, format!("o_{}", WORDS[i % 8]))).collect::<Vec<_>>()))
                    });
                }
            }
            for n in 1..=250usize {
                ctx.case(|| format!("file name of {} characters", n), |ctx| {
                    let mut f = direct(&[(1, "t".into())], &[(1, "o".into())]);
                    f.name = "n".repeat(n);
                    asm_ok(ctx, &f)
                });
            }
            for n in (21..=400usize).step_by(ctx.by(6, 1)) {
                ctx.case(|| format!("{} tables and as many occurrences", n), |ctx| {
                    asm_ok(ctx, &direct(&(1..=n).map(|i| (i, format!("table_{}", WORDS[i % 8]))).collect::<Vec<_>>(), &(1..=n).map(|i| (i, format!("occ_{}", WORDS[i % 8]))).collect::<Vec<_>>()))
                });
            }
        },
    }
}

// ---------------------------------------------------------------------------- C19

/// Everything the tool makes of a source: description, assembled file, output of its tests.
fn products(ctx: &mut Ctx, src: &str) -> (String, Vec<u8>, Vec<u8>) {
    let mut f = compile_burn(src);
    f.name = "x".into();
    let json = serde_json::to_string_pretty(&f).expect("json");
    let bytes = assemble(&f);
    ctx.out();
    if !f.tests.is_empty() {
        super::fm::session(super::fm::Variant::Real, &f, &[]);
    }
    (json, bytes, ctx.out())
}
fn ascending(json: &str) -> Result<(), String> {
    // components are objects keyed by id: their keys appear in the order of the numbers
    let mut stack: Vec<Option<u64>> = vec![];
    for l in json.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix('"') {
            if let Some((k, _)) = r.split_once("\": ") {
                if let Ok(n) = k.parse::<u64>() {
                    if let Some(top) = stack.last_mut() {
                        if let Some(p) = *top { if p >= n { return Err(format!("component {} is listed after {}", n, p)); } }
                        *top = Some(n);
                    }
                }
            }
        }
        if t.ends_with('{') || t.ends_with('[') { stack.push(None); }
        if t.starts_with('}') || t.starts_with(']') { stack.pop(); }
    }
    Ok(())
}
fn steady<T: PartialEq>(ctx: &mut Ctx, n: usize, what: &str, f: &mut dyn FnMut(&mut Ctx) -> T) -> Result<T, String> {
    let first = f(ctx);
    for i in 1..n {
        ctx.transitions += 1;
        if f(ctx) != first { return Err(format!("{}: run {} differs from the first", what, i + 1)); }
    }
    Ok(first)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19", level: "model_checking",
        rule: "every file of 0..=4 (thorough 6) components of each of 5 kinds with tests over them, compiled, described, assembled and tested 6 times (hash maps are seeded anew each time), every pair of component numbers to 24; 140 command lines (compile one or two files, decompile, with up to 20 components and tests and up to two -t files), each run 3 (8) times by new processes, everything printed and written compared; the files of C23 with every set of up to 3 of 10 ids per kind, decompiled and described 6 times; ids are checked to be listed in ascending order. Every product must be identical each time. states = distinct inputs, transitions = repetitions compared.",
        assumptions: &["Get(CurrentTime) is not used.", "Repetitions draw new hash seeds in one process."],
        run: |ctx: &mut Ctx| {
            let reps = ctx.by(6usize, 12);
            let top = ctx.by(4usize, 5);
            let base = (top + 1) as u64;
            for i in 0..base.pow(5) {
                let d = digits(i, base, 5);
                ctx.case(|| format!("{} tables, {} occurrences, {} relationships, {} scripts, {} tests", d[0], d[1], d[2], d[3], d[4]), |ctx| {
                    let src = many(d[0], d[1], d[2], d[3], d[4]);
                    ctx.states.add(h64(&src));
                    let p = steady(ctx, reps, "compiling, assembling and testing", &mut |c| products(c, &src))?;
                    ascending(&p.0)
                });
            }
            for n in 1..=24usize {
                for m in 1..=24usize {
                    ctx.case(|| format!("{} and {} components", n, m), |ctx| {
                        let src = many(n.min(12), m.min(12), n.min(m).min(12), n, m);
                        ctx.states.add(h64(&src));
                        let p = steady(ctx, reps, "compiling, assembling and testing", &mut |c| products(c, &src))?;
                        ascending(&p.0)
                    });
                }
            }
            // decompiled files
            let ids: [usize; 10] = [1, 2, 3, 9, 10, 11, 99, 100, 126, 127];
            for mask in 0..1024u32 {
                if mask.count_ones() > ctx.by(4, 10) { continue; }
                ctx.case(|| format!("decompiled file with ids {:?}", (0..10).filter(|i| mask >> i & 1 == 1).map(|i| ids[i]).collect::<Vec<_>>()), |ctx| {
                    let v: Vec<usize> = (0..10).filter(|i| mask >> i & 1 == 1).map(|i| ids[i]).collect();
                    let db = super::props_file::uniform(&v);
                    let bytes = super::fmp::simple(&db, super::fmp::Form(0));
                    ctx.states.add(h64(&bytes));
                    let j = steady(ctx, reps, "decompiling", &mut |c| { let r = serde_json::to_string_pretty(&super::props_file::decompile(&bytes)).expect("json"); c.out(); r })?;
                    ascending(&j)
                });
            }
            // the command line, run again by new processes
            const COUNTS: [usize; 5] = [0, 1, 3, 8, 20];
            for mode in 0..3usize {
                for a in COUNTS { for b in COUNTS { for second in [0usize, 6] {
                    if a + b + second < 2 { continue; }
                    ctx.case(|| format!("command line {}, {} components and tests, -t with {} tests{}", ["-c one", "-c two", "-d"][mode], a, b, if second > 0 { " and another with 6" } else { "" }), |ctx| {
                        ctx.states.add(h64(&(mode, a, b, second)));
                        let p = steady(ctx, ctx.by(3, 8), "the command line", &mut |_| session(mode, a, b, second))?;
                        p.map(|_| ())
                    });
                } } }
            }
        },
    }
}
/// Everything a run of the tool says and writes.
fn session(mode: usize, a: usize, b: usize, second: usize) -> Result<Vec<(String, Vec<u8>)>, String> {
    use super::props_cli::{dbs, fresh_dir, run, Scratch};
    let dir = fresh_dir();
    let _gone = Scratch(dir.clone());
    let put = |n: &str, b: &[u8]| std::fs::write(dir.join(n), b).map_err(|e| e.to_string());
    let mut args: Vec<String> = vec![];
    if mode == 2 {
        put("in.fmp12", &super::fmp::simple(&dbs()[0], super::fmp::Form(0)))?;
        args.extend(["-d".to_string(), "in.fmp12".into()]);
    } else {
        put("in.burn", many(a.min(6), a.min(6), a.min(6), a, a).as_bytes())?;
        args.extend(["-c".to_string(), "in.burn".into()]);
        if mode == 1 { put("more.burn", many(0, 0, 0, 0, 3).replace("test t", "test u").as_bytes())?; args.extend(["-c".to_string(), "more.burn".into()]); }
    }
    if b > 0 { put("t.burn", many(0, 0, 0, 0, b).replace("test t", "test extra").as_bytes())?; args.extend(["-t".to_string(), "t.burn".into()]); }
    if second > 0 { put("t2.burn", many(0, 0, 0, 0, second).replace("test t", "test other").as_bytes())?; args.extend(["-t".to_string(), "t2.burn".into()]); }
    let r = run(&dir, &args)?;
    let mut all = vec![(format!("stdout, status {:?}", r.code), r.out)];
    let mut todo = vec![dir.clone()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
            let p = e.map_err(|e| e.to_string())?.path();
            if p.is_dir() { todo.push(p); } else { all.push((p.strip_prefix(&dir).unwrap().display().to_string(), std::fs::read(&p).map_err(|e| e.to_string())?)); }
        }
    }
    all.sort();
    Ok(all)
}

fn many(nt: usize, no: usize, nr: usize, ns: usize, ntest: usize) -> String {
    let mut s = String::new();
    for i in 0..nt { s += &format!("table T{}:\n id: Number,\n a{}: Text,\n b: Text,\nend table;\n", i, i); }
    if nt > 0 { for i in 0..no { s += &format!("table_occurence o{}:\n table: T{},\nend table_occurence;\n", i, i % nt); } }
    if nt > 0 && no > 1 { for i in 0..nr { s += &format!("relationship:\n o{}:o{},\n id == id,\nend relationship;\n", i % no, (i + 1 + i / no) % no); } }
    if ns > 0 {
        s += "script: [\n";
        for i in 0..ns { s += &format!("  define s{}() {{\n    set_variable(x, {});\n    show_custom_dialog(x);\n  }}\n", i, i); }
        s += "]\n";
    }
    for i in 0..ntest {
        s += &format!("test t{}:\n script: [\n  define test() {{\n", i);
        for k in 0..3 { s += &format!("    set_variable(v{}, {} + {});\n    show_custom_dialog(v{});\n", k, i, k, k); }
        if ns > 0 { s += &format!("    perform_script(\"s{}\");\n", i % ns); }
        s += &format!("    assert({} == {});\n  }}\n ],\nend test;\n", i % 3, if i % 2 == 0 { i % 3 } else { 7 });
    }
    s
}

pub fn props() -> Vec<Prop> { vec![c19(), c25()] }
