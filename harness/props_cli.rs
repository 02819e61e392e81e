// C26 the command line, C28 the JSON descriptions.
use super::engine::{h64, Ctx, Prop};
use super::fm::{parse_output, Got};
use super::fmp::{self, Db, DField, DLayout, DOcc, DRel, DScript, DStep, DTable, Data, Form, Store};
use crate::component::*;
use crate::file::FmpFile;
use serde_json::Value;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ the JSON description

fn obj<'a>(v: &'a Value, k: &str) -> Result<&'a serde_json::Map<String, Value>, String> {
    v.get(k).and_then(|x| x.as_object()).ok_or_else(|| format!("no object {:?} in {}", k, v.to_string().chars().take(200).collect::<String>()))
}
fn list<'a>(v: &'a Value, k: &str) -> Result<&'a Vec<Value>, String> { v.get(k).and_then(|x| x.as_array()).ok_or_else(|| format!("no list {:?}", k)) }
fn txt(v: &Value, k: &str) -> Result<String, String> { v.get(k).and_then(|x| x.as_str()).map(|s| s.to_string()).ok_or_else(|| format!("no text {:?}", k)) }
fn num(v: &Value, k: &str) -> Result<u64, String> { v.get(k).and_then(|x| x.as_u64()).ok_or_else(|| format!("no number {:?}", k)) }
fn texts(v: &Value, k: &str) -> Result<Vec<String>, String> { list(v, k)?.iter().map(|x| x.as_str().map(|s| s.to_string()).ok_or_else(|| format!("{:?} holds {}", k, x))).collect() }

/// One line per component, from the text of a description.
pub fn json_lines(text: &str) -> Result<Vec<String>, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {}", e))?;
    let mut o = vec![format!("name {:?}", txt(&v, "name")?)];
    for (id, t) in obj(&v, "tables")? {
        o.push(format!("table {} {:?} {:?} {:?}", id, txt(t, "table_name")?, txt(t, "created_by_account")?, txt(t, "create_by_user")?));
        for (n, f) in obj(t, "fields")? {
            o.push(format!("field {}.{} {:?} {:?} {:?} {:?} {:?} {:?}", id, n, txt(f, "field_name")?, txt(f, "data_type")?, txt(f, "field_type")?, txt(f, "field_description")?, txt(f, "created_by_account")?, txt(f, "created_by_user")?));
        }
    }
    for (id, t) in obj(&v, "table_occurrences")? { o.push(format!("occurrence {} {:?} of {} {:?} {:?} {:?}", id, txt(t, "table_occurence_name")?, num(t, "table_actual")?, txt(t, "table_actual_name")?, txt(t, "created_by_account")?, txt(t, "create_by_user")?)); }
    for (id, r) in obj(&v, "relationships")? { o.push(format!("relationship {} {} {:?} {} {} {} {:?} {}", id, num(r, "table1")?, txt(r, "table1_name")?, num(r, "field1")?, txt(r, "comparison")?, num(r, "table2")?, txt(r, "table2_name")?, num(r, "field2")?)); }
    for (id, l) in obj(&v, "layouts")? { o.push(format!("layout {} {:?} on {} {:?} {:?}", id, txt(l, "layout_name")?, num(l, "table_occurrence")?, txt(l, "created_by_account")?, txt(l, "create_by_user")?)); }
    for (id, l) in obj(&v, "value_lists")? { o.push(format!("value list {} {:?} {:?} {:?}", id, txt(l, "list_name")?, txt(l, "created_by_account")?, txt(l, "create_by_user")?)); }
    for (id, s) in obj(&v, "data_sources")? {
        let l = s.get("source_location").cloned().unwrap_or(Value::Null);
        o.push(format!("source {} {:?} {:?} {:?} {:?} {:?} {:?}", id, txt(s, "source_name")?, txt(&l, "source_type")?, txt(&l, "source_path")?, txt(&l, "source_filename")?, txt(s, "created_by_account")?, txt(s, "created_by_user")?));
    }
    fn steps(s: &Value) -> Result<String, String> {
        let v: Result<Vec<String>, String> = list(s, "instructions")?.iter().map(|i| Ok(format!("{} #{} {:?}", txt(i, "opcode")?, num(i, "index")?, texts(i, "switches")?))).collect();
        Ok(format!("{:?} {:?} {:?} args {:?}: {}", txt(s, "script_name")?, txt(s, "created_by_account")?, txt(s, "create_by_user")?, texts(s, "arguments")?, v?.join("; ")))
    }
    for (id, s) in obj(&v, "scripts")? { o.push(format!("script {} {}", id, steps(s)?)); }
    o.sort();
    for t in list(&v, "tests")? {
        let s = t.get("script").ok_or("a test without a script")?;
        o.push(format!("test {:?} {:?} {:?} {:?} {}", txt(t, "test_name")?, txt(t, "created_by_account")?, txt(t, "create_by_user")?, texts(t, "assertions")?, steps(s)?));
    }
    Ok(o)
}

const CMP: [&str; 7] = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"];
fn steps_of(s: &FMComponentScript) -> String {
    let v: Vec<String> = s.instructions.iter().map(|i| format!("{:?} #{} {:?}", i.opcode, i.index, i.switches)).collect();
    format!("{:?} {:?} {:?} args {:?}: {}", s.script_name, s.created_by_account, s.create_by_user, s.arguments, v.join("; "))
}
/// The same lines from a file in memory.
pub fn file_lines(f: &FmpFile) -> Vec<String> {
    let mut o = vec![format!("name {:?}", f.name)];
    for (id, t) in &f.tables {
        o.push(format!("table {} {:?} {:?} {:?}", id, t.table_name, t.created_by_account, t.create_by_user));
        for (n, x) in &t.fields { o.push(format!("field {}.{} {:?} {:?} {:?} {:?} {:?} {:?}", id, n, x.field_name, x.data_type, x.field_type, x.field_description, x.created_by_account, x.created_by_user)); }
    }
    for (id, t) in &f.table_occurrences { o.push(format!("occurrence {} {:?} of {} {:?} {:?} {:?}", id, t.table_occurence_name, t.table_actual, t.table_actual_name, t.created_by_account, t.create_by_user)); }
    for (id, r) in &f.relationships {
        let c = match r.comparison { RelationComparison::Equal => 0, RelationComparison::NotEqual => 1, RelationComparison::Less => 2, RelationComparison::LessEqual => 3, RelationComparison::Greater => 4, RelationComparison::GreaterEqual => 5, RelationComparison::Cartesian => 6 };
        o.push(format!("relationship {} {} {:?} {} {} {} {:?} {}", id, r.table1, r.table1_name, r.field1, CMP[c], r.table2, r.table2_name, r.field2));
    }
    for (id, l) in &f.layouts { o.push(format!("layout {} {:?} on {} {:?} {:?}", id, l.layout_name, l.table_occurrence, l.created_by_account, l.create_by_user)); }
    for (id, l) in &f.value_lists { o.push(format!("value list {} {:?} {:?} {:?}", id, l.list_name, l.created_by_account, l.create_by_user)); }
    for (id, s) in &f.data_sources { o.push(format!("source {} {:?} {:?} {:?} {:?} {:?} {:?}", id, s.source_name, s.source_location.source_type, s.source_location.source_path, s.source_location.source_filename, s.created_by_account, s.created_by_user)); }
    for (id, s) in &f.scripts { o.push(format!("script {} {}", id, steps_of(s))); }
    o.sort();
    for t in &f.tests { o.push(format!("test {:?} {:?} {:?} {:?} {}", t.test_name, t.created_by_account, t.create_by_user, t.assertions, steps_of(&t.script))); }
    o
}
fn same(got: &[String], want: &[String]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let miss: Vec<&String> = want.iter().filter(|x| !got.contains(x)).take(4).collect();
    let more: Vec<&String> = got.iter().filter(|x| !want.contains(x)).take(4).collect();
    Err(format!("missing from the description: {:#?}\nonly in the description: {:#?}{}", miss, more, if miss.is_empty() && more.is_empty() { " (other order or number)" } else { "" }))
}

fn json_ok(ctx: &mut Ctx, f: &FmpFile) -> Result<(), String> {
    let want = file_lines(f);
    let text = serde_json::to_string_pretty(f).map_err(|e| format!("no description: {}", e))?;
    ctx.states.add(h64(&text));
    ctx.transitions += 1;
    same(&json_lines(&text)?, &want)?;
    let back: FmpFile = serde_json::from_str(&text).map_err(|e| format!("the description cannot be read back: {}\n{}", e, text.chars().take(400).collect::<String>()))?;
    ctx.traces += 1;
    same(&file_lines(&back), &want).map_err(|e| format!("read back: {}", e))?;
    let init = |f: &FmpFile| f.tables.values().map(|t| t.init).collect::<Vec<_>>();
    if init(&back) != init(f) { return Err("read back: the tables' state of initialisation differs".into()); }
    Ok(())
}

/// The text slots of a file with one component of each kind, and its number slots.
fn slots(f: &mut FmpFile, k: usize, w: &str) -> bool {
    let t = f.tables.values_mut().next().unwrap();
    let x = t.fields.values_mut().next().unwrap();
    let o = f.table_occurrences.values_mut().next().unwrap();
    let r = f.relationships.values_mut().next().unwrap();
    let l = f.layouts.values_mut().next().unwrap();
    let v = f.value_lists.values_mut().next().unwrap();
    let d = f.data_sources.values_mut().next().unwrap();
    let s = f.scripts.values_mut().next().unwrap();
    let (s0, s1) = s.instructions.split_at_mut(1);
    let e = &mut f.tests[0];
    let all: Vec<&mut String> = vec![&mut f.name, &mut t.table_name, &mut t.created_by_account, &mut t.create_by_user,
        &mut x.data_type, &mut x.field_description, &mut x.field_name, &mut x.field_type, &mut x.created_by_account, &mut x.created_by_user,
        &mut o.table_occurence_name, &mut o.table_actual_name, &mut o.created_by_account, &mut o.create_by_user, &mut r.table1_name, &mut r.table2_name,
        &mut l.layout_name, &mut l.created_by_account, &mut l.create_by_user, &mut v.list_name, &mut v.created_by_account, &mut v.create_by_user,
        &mut d.source_name, &mut d.source_location.source_type, &mut d.source_location.source_path, &mut d.source_location.source_filename, &mut d.created_by_account, &mut d.created_by_user,
        &mut s.script_name, &mut s.created_by_account, &mut s.create_by_user, &mut s.arguments[0], &mut s0[0].switches[0], &mut s1[0].switches[1],
        &mut e.test_name, &mut e.created_by_account, &mut e.create_by_user, &mut e.assertions[0], &mut e.script.script_name, &mut e.script.arguments[1], &mut e.script.instructions[0].switches[1]];
    match all.into_iter().nth(k) { Some(p) => { *p = w.to_string(); true } None => false }
}
fn step(op: crate::fm_script_engine::fm_script_engine_instructions::Instruction, index: usize, sw: &[&str]) -> crate::fm_script_engine::fm_script_engine_instructions::ScriptStep {
    crate::fm_script_engine::fm_script_engine_instructions::ScriptStep { opcode: op, index, switches: sw.iter().map(|s| s.to_string()).collect() }
}
fn ops() -> Vec<crate::fm_script_engine::fm_script_engine_instructions::Instruction> {
    fmp::STEPS.iter().map(|s| serde_json::from_value(Value::String(s.1.to_string())).expect("a step kind")).collect()
}
fn one_of_each() -> FmpFile {
    let mut f = FmpFile::new();
    f.name = "file".into();
    let mut t = FMComponentTable::new(); t.table_name = "T".into(); t.fields.insert(3, FMComponentField::new()); f.tables.insert(1, t);
    f.table_occurrences.insert(2, FMComponentTableOccurence::new());
    f.relationships.insert(3, FMComponentRelationship::new());
    f.layouts.insert(4, FMComponentLayout::new());
    f.value_lists.insert(5, FMComponentValueList::new());
    f.data_sources.insert(6, FMComponentDataSource::new());
    let i = ops();
    let mut s = FMComponentScript::new();
    s.script_name = "S".into(); s.arguments = vec!["a".into(), "b".into()];
    s.instructions = vec![step(i[0].clone(), 1, &["x", "y"]), step(i[1].clone(), 2, &["z", "w"])];
    f.scripts.insert(7, s.clone());
    let mut e = FMComponentTest::new(); e.test_name = "t".into(); e.script = s; e.assertions = vec!["1".into()];
    f.tests.push(e);
    f
}

const WORDS: [&str; 34] = ["", " ", "a", "A", "0", "1", "-1", "1.0", "null", "true", "\"", "\\", "\\\"", "\n", "\r\n", "\t", "\0", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "/", "</script>", "é", "e\u{301}", "€", "\u{2028}", "\u{feff}", "😀", "\u{10ffff}", "{", "[],", "\\u0041", "a\"b\\c\nd"];

pub fn c28() -> Prop {
    Prop {
        id: "C28", level: "model_checking",
        rule: "a file with one component of each kind, with each of its 41 text slots (names, accounts, users, descriptions, arguments, step arguments, assertions) holding each of 34 words (quotes, backslashes, control characters, line breaks, number-like words, characters of two, three and four bytes), every pair of slots with 8 (thorough 16) words each, every Unicode scalar value in blocks of 256 characters; every step kind as a step with 0 to 3 arguments; every number slot (ids, indices, referenced tables and fields) at the boundaries of its type; every number of components 0 to 3 of each kind (thorough: 0 to 4), all comparisons. Each description is read by an independent reader of the documented keys and read back by the tool. States are distinct descriptions, transitions files described, traces descriptions read back.",
        assumptions: &["serde_json's parser is trusted to read JSON"],
        run: |ctx| {
            let n = (0..).take_while(|k| slots(&mut one_of_each(), *k, "")).count();
            for k in 0..n {
                for w in WORDS { ctx.case(|| format!("slot {} holds {:?}", k, w), |ctx| { let mut f = one_of_each(); slots(&mut f, k, w); json_ok(ctx, &f) }); }
                for len in [255, 256, 4096, 70000] { ctx.case(|| format!("slot {} holds {} characters", k, len), |ctx| { let mut f = one_of_each(); slots(&mut f, k, &"x\"é".chars().cycle().take(len).collect::<String>()); json_ok(ctx, &f) }); }
            }
            let m = ctx.by(8, 16);
            let words: Vec<&str> = (0..m).map(|i| WORDS[(i * 34 / m + 2) % 34]).collect();
            for a in 0..n { for b in a + 1..n {
                ctx.case(|| format!("slots {} and {} hold every pair of {} words", a, b, words.len()), |ctx| {
                    for x in &words { for y in &words { let mut f = one_of_each(); slots(&mut f, a, x); slots(&mut f, b, y); json_ok(ctx, &f).map_err(|e| format!("{:?} and {:?}: {}", x, y, e))?; } }
                    Ok(())
                });
            } }
            for b in 0..0x1100u32 {
                ctx.case(|| format!("every character from {:#x} on", b * 256), |ctx| {
                    let t: String = (b * 256..(b + 1) * 256).filter_map(char::from_u32).collect();
                    if t.is_empty() { return Ok(()); }
                    let mut f = one_of_each(); for k in [1, 6, 28, 32, 37] { slots(&mut f, k, &t); }
                    json_ok(ctx, &f)
                });
            }
            for (i, op) in ops().iter().enumerate() { for args in 0..=3usize { for index in [0usize, 1, 255, 65536, usize::MAX] {
                ctx.case(|| format!("step {} {:?}, {} arguments, index {}", i, op, args, index), |ctx| {
                    let mut f = one_of_each();
                    let s = step(op.clone(), index, &["a", "\"b\"", ""][..args]);
                    f.scripts.get_mut(&7).unwrap().instructions.push(s.clone());
                    f.tests[0].script.instructions.insert(0, s);
                    json_ok(ctx, &f)
                });
            } } }
            let ids = [0usize, 1, 9, 10, 11, 127, 128, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX];
            for a in ids { for b in ids {
                ctx.case(|| format!("components under ids {} and {}", a, b), |ctx| {
                    let mut f = FmpFile::new();
                    for i in [a, b] {
                        let mut t = FMComponentTable::new(); t.table_name = format!("t{}", i); t.init = i == b;
                        let mut x = FMComponentField::new(); x.field_name = format!("f{}", i); t.fields.insert(i as u16, x); f.tables.insert(i, t);
                        let mut o = FMComponentTableOccurence::new(); o.table_actual = i as u16; f.table_occurrences.insert(i, o);
                        let mut l = FMComponentLayout::new(); l.table_occurrence = i; f.layouts.insert(i, l);
                        let mut v = FMComponentValueList::new(); v.list_name = format!("v{}", i); f.value_lists.insert(i, v);
                        let mut s = FMComponentScript::new(); s.script_name = format!("s{}", i); f.scripts.insert(i, s);
                        let mut d = FMComponentDataSource::new(); d.source_name = format!("d{}", i); f.data_sources.insert(i, d);
                    }
                    json_ok(ctx, &f)
                });
            } }
            let n16 = [0u16, 1, 127, 128, 255, 256, 65535];
            for t1 in n16 { for f1 in n16 { for t2 in n16 { for f2 in n16 { for c in 0..7u8 {
                ctx.case(|| format!("relationship {}.{} {} {}.{}", t1, f1, CMP[c as usize], t2, f2), |ctx| {
                    let mut f = FmpFile::new();
                    let mut r = FMComponentRelationship::new(); r.table1 = t1; r.field1 = f1; r.table2 = t2; r.field2 = f2; r.comparison = super::fm::comparison(c);
                    f.relationships.insert(1, r);
                    json_ok(ctx, &f)
                });
            } } } } }
            let k = ctx.by(4u32, 5);
            for code in 0..k.pow(8) {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let c = |i: u32| (code / k.pow(i) % k) as usize;
                ctx.case(|| format!("{} tables, {} occurrences, {} relationships, {} layouts, {} value lists, {} scripts, {} sources, {} tests", c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7)), |ctx| {
                    let (one, mut f) = (one_of_each(), FmpFile::new());
                    for i in 1..=c(0) { let mut x = one.tables[&1].clone(); x.table_name = format!("t{}", i); f.tables.insert(i * i, x); }
                    for i in 1..=c(1) { let mut x = one.table_occurrences[&2].clone(); x.table_occurence_name = format!("o{}", i); f.table_occurrences.insert(i, x); }
                    for i in 1..=c(2) { let mut x = one.relationships[&3].clone(); x.field1 = i as u16; f.relationships.insert(i, x); }
                    for i in 1..=c(3) { let mut x = one.layouts[&4].clone(); x.layout_name = format!("l{}", i); f.layouts.insert(i, x); }
                    for i in 1..=c(4) { let mut x = one.value_lists[&5].clone(); x.list_name = format!("v{}", i); f.value_lists.insert(i, x); }
                    for i in 1..=c(5) { let mut x = one.scripts[&7].clone(); x.script_name = format!("s{}", i); x.instructions.truncate(i - 1); f.scripts.insert(i * 100, x); }
                    for i in 1..=c(6) { let mut x = one.data_sources[&6].clone(); x.source_name = format!("d{}", i); f.data_sources.insert(i, x); }
                    for i in 1..=c(7) { let mut x = one.tests[0].clone(); x.test_name = format!("e{}", 9 - i); f.tests.push(x); }
                    json_ok(ctx, &f)
                });
            }
        },
    }
}

// ------------------------------------------------------------------ the command line

struct Src { text: &'static str, tests: &'static [(&'static str, bool)], json: &'static [&'static str], tables: &'static [(usize, &'static str)], occs: &'static [(usize, &'static str)] }
const SRCS: [Src; 5] = [
    Src { text: "table Person:\n name: Text,\nend table;\ntable Job:\nend table;\ntable_occurence Job2:\n table: Job\nend table_occurence;\nrelationship:\n Person:Job2,\n a == b,\nend relationship;\nvalue_list v:\n \"a\", \"b\"\nend value_list;\nscript: [ define go(a) { set_variable(x, 1); show_custom_dialog(\"hello\"); } ]\n",
        tests: &[], tables: &[(1, "Person"), (2, "Job")], occs: &[(0, "Job2")],
        json: &["table 1 \"Person\" \"\" \"\"", "table 2 \"Job\" \"\" \"\"", "value list 1 \"v\" \"\" \"\"", "script 1 \"go\" \"\" \"\" args [\"a\"]: SetVariable #0 [\"x\", \"1\"]; ShowCustomDialog #0 [\"\\\"hello\\\"\"]"] },
    Src { text: "test a_ok:\n script: [ define t() { assert(1 + 2 * 3 == 7); } ]\nend test;\ntable T:\nend table;\n",
        tests: &[("a_ok", true)], tables: &[(1, "T")], occs: &[], json: &["table 1 \"T\" \"\" \"\""] },
    Src { text: "table Bad:\nend table;\ntest b_fail:\n script: [ define t() { assert(1 == 2); } ]\nend test;\ntest b_ok:\n script: [ define t() { if(1 == 1) { assert(2 == 2); } else { assert(1 == 2); } } ]\nend test;\ntest b_fail2:\n script: [ define t() { assert(2 > 3); } ]\nend test;\n",
        tests: &[("b_fail", false), ("b_ok", true), ("b_fail2", false)], tables: &[(1, "Bad")], occs: &[], json: &["table 1 \"Bad\" \"\" \"\""] },
    Src { text: "", tests: &[], tables: &[], occs: &[], json: &[] },
    Src { text: "test c_call:\n script: [ define t() { perform_script(\"sub\"); assert(1 == 1); } ]\nend test;\nscript: [ define sub() { show_custom_dialog(\"in sub\"); } ]\n",
        tests: &[("c_call", true)], tables: &[], occs: &[], json: &["script 1 \"sub\" \"\" \"\" args []: ShowCustomDialog #0 [\"\\\"in sub\\\"\"]"] },
];
const TFILES: [Src; 3] = [
    Src { text: "test t_ok:\n script: [ define t() { assert(3 == 3); } ]\nend test;\n", tests: &[("t_ok", true)], tables: &[], occs: &[], json: &[] },
    Src { text: "test t_bad:\n script: [ define t() { assert(3 == 4); } ]\nend test;\ntest t_two:\n script: [ define t() { if(1 == 2) { assert(1 == 2); } else { assert(5 - 3 == 2); } } ]\nend test;\n", tests: &[("t_bad", false), ("t_two", true)], tables: &[], occs: &[], json: &[] },
    Src { text: "table Unused:\nend table;\n", tests: &[], tables: &[], occs: &[], json: &[] },
];

pub fn dbs() -> Vec<Db> {
    let t = |id, name: &str, fs: &[usize]| DTable { id, name: name.into(), fields: fs.iter().map(|i| DField { id: *i, name: format!("f{}", i), ..DField::default() }).collect() };
    let s = DScript { id: 1, name: "go".into(), store: Store::Key, steps: vec![DStep { code: 141, idx: 1, arg: 0, data: vec![Data::Name("$x".into()), Data::Calc(vec![0x1a, 2, 0x7e, 0x22])] }] };
    vec![
        Db { tables: vec![t(1, "Person", &[1, 2]), t(3, "Job", &[1])], occs: vec![DOcc { id: 1, name: "P".into(), table: 1 }, DOcc { id: 2, name: "J".into(), table: 3 }],
            rels: vec![DRel { id: 1, a: 1, b: 2, fa: 1, fb: 1, cmp: 3 }], layouts: vec![DLayout { id: 1, name: "L".into(), occ: 1 }], scripts: vec![s], ..Db::default() },
        Db::default(),
        Db { tables: (1..=60).map(|i| t(i, &format!("Table{}", i), &[1, 2, 3])).collect(), ..Db::default() },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cwd { Fresh, Stale, Other }
const NAMES: [&str; 8] = ["one", "two", "x y.z", "Ünï", "a.burn", "burn.burn", "burn", ".burn.x"];

pub struct Run { pub code: Option<i32>, pub out: Vec<u8> }
pub fn run(dir: &Path, args: &[String]) -> Result<Run, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = dir.join("stdout.txt");
    let mut c = std::process::Command::new(exe);
    for (k, _) in std::env::vars() { if k.starts_with("BURN_VERIF") { c.env_remove(k); } }
    c.env("RUST_BACKTRACE", "0");
    let mut p = c.args(args).current_dir(dir).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null())
        .stdout(std::fs::File::create(&o).map_err(|e| e.to_string())?).spawn().map_err(|e| e.to_string())?;
    let start = std::time::Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().map_err(|e| e.to_string())? { break s; }
        if start.elapsed().as_secs() > 60 || std::fs::metadata(&o).map(|m| m.len() > 50_000_000).unwrap_or(false) { let _ = p.kill(); let _ = p.wait(); return Err("the tool does not finish".into()); }
        std::thread::sleep(std::time::Duration::from_micros(300));
    };
    let out = std::fs::read(&o).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&o);
    Ok(Run { code: st.code(), out })
}

pub fn fresh_dir() -> PathBuf {
    let d = std::env::current_dir().expect("cwd").join(format!("c26.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
pub struct Scratch(pub PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// A recorded defect of src/testing: once a test has failed, the tests after it are reported as failed.
fn tests_ok(ctx: &mut Ctx, got: &[Got], want: &[(&str, bool)], exact: bool) -> Result<(), String> {
    let mut failed = false;
    for g in got {
        if failed && ctx.has_sited() && g.outcome == Some(false) && want.iter().any(|w| *w == (&g.name, true)) { ctx.attributed = true; continue; }
        failed |= g.outcome == Some(false) && want.iter().any(|w| *w == (&g.name, false));
        match want.iter().find(|w| w.0 == g.name) {
            None => return Err(format!("test {:?} is reported, the inputs do not have it (or testing is off)", g.name)),
            Some(w) => if g.outcome != Some(w.1) { return Err(format!("test {:?} is reported as {:?}, its assertions say {}", g.name, g.outcome, w.1)); }
        }
    }
    for w in want {
        let n = got.iter().filter(|g| g.name == w.0).count();
        if n == 0 || exact && n != want.iter().filter(|x| x.0 == w.0).count() { return Err(format!("test {:?} is reported {} times", w.0, n)); }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Conf { decompile: bool, inputs: Vec<usize>, tfiles: Vec<usize>, no_testing: bool, header: bool, cwd: Cwd, tfirst: bool, place: usize }

fn burn_name(n: usize, place: usize) -> (String, String) {
    // (path given, stem)
    let stem = if n < 8 { NAMES[n % NAMES.len()].to_string() } else { format!("input {}", n) };
    (format!("{}{}.burn", ["", "./", "in/deep/"][place % 3], stem), stem)
}

fn check(ctx: &mut Ctx, c: &Conf) -> Result<(), String> {
    let dir = fresh_dir();
    let _gone = Scratch(dir.clone());
    let w = |p: &str, b: &[u8]| { let q = dir.join(p); std::fs::create_dir_all(q.parent().unwrap()).unwrap(); std::fs::write(q, b).unwrap(); };
    let dbs = dbs();
    let mut args: Vec<String> = vec![];
    let mut inputs: Vec<(String, Vec<u8>)> = vec![];
    let mut stems = vec![];
    for (n, i) in c.inputs.iter().enumerate() {
        let (p, stem) = burn_name(n + c.place, c.place);
        let (p, b) = if c.decompile { (p.replace(".burn", ".fmp12"), fmp::simple(&dbs[*i], Form((n % 3) as u8))) } else { (p, SRCS[*i].text.as_bytes().to_vec()) };
        inputs.push((p, b)); stems.push(stem);
    }
    let tnames: Vec<String> = c.tfiles.iter().enumerate().map(|(n, _)| format!("{}t{}.burn", ["", "tests/"][c.place % 2], n)).collect();
    if c.cwd == Cwd::Stale {
        let long = vec![b'#'; 40000];
        for p in ["inspect_output/test_compile", "inspect_output/test_decompile", "header.log"] { w(p, &long); }
        if !c.decompile { for s in &stems { w(&format!("{}.fmp12", s), &long); } }
    }
    if c.cwd == Cwd::Other { for p in ["inspect_output/keep", "keep.fmp12", "burn", "test_compile", "a/b"] { w(p, p.as_bytes()); } }
    for (p, b) in &inputs { w(p, b); }
    for (n, i) in tnames.iter().zip(&c.tfiles) { w(n, TFILES[*i].text.as_bytes()); }
    let abs = |p: &str| if c.place == 3 { dir.join(p).to_str().unwrap().to_string() } else { p.to_string() };
    if c.tfirst { for t in &tnames { args.push("-t".into()); args.push(abs(t)); } }
    for (p, _) in &inputs { args.push(if c.decompile { "-d" } else { "-c" }.into()); args.push(abs(p)); }
    if !c.tfirst { for t in &tnames { args.push("-t".into()); args.push(abs(t)); } }
    if c.header { args.push("--print-header".into()); }
    if c.no_testing { args.push("--no-testing".into()); }
    let r = run(&dir, &args)?;
    ctx.transitions += 1;
    let said = format!("burn_fm {}", args.join(" "));
    let fail = |e: String| format!("{}\n{}", said, e);
    // outcome lines
    let mut want: Vec<(&str, bool)> = vec![];
    for i in &c.tfiles { want.extend(TFILES[*i].tests); }
    if !c.decompile { for i in &c.inputs { want.extend(SRCS[*i].tests); } }
    let single = c.inputs.len() == 1;
    if c.no_testing { want.clear(); }
    let got = parse_output(&r.out);
    tests_ok(ctx, &got, &want, single).map_err(fail)?;
    if want.iter().all(|t| t.1) && r.code != Some(0) { return Err(fail(format!("exit status {:?}", r.code))); }
    if !c.no_testing && !c.decompile && single && c.inputs[0] == 4 && !ctx.attributed {
        let g = got.iter().find(|g| g.name == "c_call").unwrap();
        if g.dialogs != ["\"in sub\""] { return Err(fail(format!("the test's script shows {:?}", g.dialogs))); }
    }
    // the description
    let jp = dir.join("inspect_output").join(if c.decompile { "test_decompile" } else { "test_compile" });
    let text = String::from_utf8(std::fs::read(&jp).map_err(|e| fail(format!("{}: {}", jp.display(), e)))?).map_err(|e| fail(e.to_string()))?;
    let lines = json_lines(&text).map_err(fail)?;
    let last = *c.inputs.last().unwrap();
    if c.decompile {
        // as decompiled in memory from the same bytes, which is checked against the stored database
        let f = super::props_file::decompile(&inputs.last().unwrap().1);
        ctx.out();
        if fmp::got_schema(&f) != fmp::want_schema(&dbs[last]) { return Err(fail("decompiled in memory, the file is not the stored database".into())); }
        let own: Vec<String> = file_lines(&f).into_iter().filter(|l| !l.starts_with("name ")).collect();
        let have: Vec<String> = lines.iter().filter(|l| !l.starts_with("name ")).cloned().collect();
        same(&have, &own).map_err(fail)?;
        if c.header {
            let h = std::fs::read(dir.join("header.log")).map_err(|e| fail(format!("header.log: {}", e)))?;
            if h != inputs.last().unwrap().1 { return Err(fail("header.log is not the file".into())); }
        }
    } else {
        let mut own: Vec<String> = SRCS[last].json.iter().map(|s| s.to_string()).collect();
        own.push(format!("name {:?}", stems.last().unwrap()));
        // a parameter list without parameters may be described as one empty parameter
        let lines: Vec<String> = lines.iter().map(|l| l.replace(" args [\"\"]:", " args []:")).collect();
        for l in &own { if !lines.contains(l) { return Err(fail(format!("the description lacks {}\n{:#?}", l, lines))); } }
        if single {
            let count = |k: &str| lines.iter().filter(|l| l.starts_with(k)).count();
            for (k, n) in [("table ", SRCS[last].tables.len()), ("occurrence ", SRCS[last].occs.len()), ("script ", SRCS[last].json.iter().filter(|l| l.starts_with("script")).count()), ("layout ", 0), ("source ", 0), ("field ", 0),
                ("relationship ", (last == 0) as usize), ("value list ", (last == 0) as usize)] {
                if count(k) != n { return Err(fail(format!("{} lines '{}' in the description, expected {}", count(k), k, n))); }
            }
            let names: Vec<String> = lines.iter().filter_map(|l| l.strip_prefix("test \"").and_then(|l| l.split('"').next()).map(|s| s.to_string())).collect();
            let mut all: Vec<String> = c.tfiles.iter().flat_map(|i| TFILES[*i].tests).chain(SRCS[last].tests).map(|t| t.0.to_string()).collect();
            let mut names2 = names.clone(); names2.sort(); all.sort();
            if names2 != all { return Err(fail(format!("the description has tests {:?}", names))); }
        }
        for (k, i) in c.inputs.iter().enumerate() {
            let p = dir.join(format!("{}.fmp12", stems[k]));
            let b = std::fs::read(&p).map_err(|e| fail(format!("{}: {}", p.display(), e)))?;
            ctx.states.add(h64(&b));
            let mut f = FmpFile::new();
            if single {
                for (i, n) in SRCS[*i].tables { let mut t = FMComponentTable::new(); t.table_name = n.to_string(); f.tables.insert(*i, t); }
                for (i, n) in SRCS[*i].occs { let mut t = FMComponentTableOccurence::new(); t.table_occurence_name = n.to_string(); f.table_occurrences.insert(*i, t); }
                super::props_asm::check_asm(&f, &b).map_err(fail)?;
            } else {
                let back = super::props_file::decompile(&b);
                ctx.out();
                for (i, n) in SRCS[*i].tables { if !back.tables.contains_key(i) { return Err(fail(format!("{} lacks table {} {}", p.display(), i, n))); } }
            }
        }
    }
    // what was there
    for (p, b) in &inputs { if std::fs::read(dir.join(p)).ok().as_ref() != Some(b) { return Err(fail(format!("the input {} was changed", p))); } }
    if c.cwd == Cwd::Other { for p in ["inspect_output/keep", "keep.fmp12", "burn", "test_compile", "a/b"] {
        if std::fs::read(dir.join(p)).ok().as_deref() != Some(p.as_bytes()) { return Err(fail(format!("{} was changed", p))); }
    } }
    ctx.states.add(h64(&(said.as_str(), &lines)));
    ctx.traces += 1;
    Ok(())
}

fn seqs(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max { level = level.into_iter().flat_map(|s| (0..n).map(move |i| { let mut t = s.clone(); t.push(i); t })).collect(); v.extend(level.clone()); }
    v
}

fn refused(ctx: &mut Ctx, args: &[&str]) -> Result<(), String> {
    let dir = fresh_dir();
    let _gone = Scratch(dir.clone());
    std::fs::write(dir.join("a.burn"), SRCS[1].text).unwrap();
    std::fs::write(dir.join("a.fmp12"), fmp::simple(&dbs()[0], Form(0))).unwrap();
    let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let r = run(&dir, &a)?;
    ctx.transitions += 1;
    ctx.states.add(h64(&args));
    if r.code == Some(0) { return Err(format!("burn_fm {} reports success", args.join(" "))); }
    let mut left: Vec<String> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).filter(|n| n != "a.burn" && n != "a.fmp12").collect();
    left.sort();
    if !left.is_empty() { return Err(format!("burn_fm {} fails but writes {:?}", args.join(" "), left)); }
    Ok(())
}

/// Tests that create records, go to layouts and call scripts of the file they are run with.
const USES: [&str; 7] = [
    "assert(1 YES 1);",
    "new_record_request(); set_field(P::f1, \"x\"); assert(P::f1 YES \"x\");",
    "new_record_request(); set_field(P::f1, \"x\"); set_field(P::f2, 5); new_record_request(); set_field(P::f1, \"y\"); set_field(P::f2, 6); go_to_record(\"first\"); assert(P::f2 YES 5);",
    "go_to_layout(\"M\"); new_record_request(); set_field(J::f1, \"x\"); assert(J::f1 YES \"x\");",
    "new_record_request(); set_field(P::f1, \"k\"); go_to_layout(\"M\"); new_record_request(); set_field(J::f1, \"k\"); set_field(J::f2, \"found\"); go_to_layout(\"L\"); assert(P::f1 YES \"k\");",
    "set_variable($x, 1); perform_script(\"go\"); assert($x YES 1);",
    "new_record_request(); set_field(P::f1, \"x\"); new_record_request(); set_field(P::f1, \"y\"); enter_find_mode(); set_field(P::f1, \"x\"); perform_find(); assert(P::f1 YES \"x\");",
];
const NO_DATA: usize = 0;
/// `parts`: 1 relationships, 2 the script, 4 the second table with its occurrence and layout
fn used_db(parts: usize) -> Db {
    let t = |id, name: &str| DTable { id, name: name.into(), fields: (1..=2).map(|i| DField { id: i, name: format!("f{}", i), ..DField::default() }).collect() };
    let s = DScript { id: 1, name: "go".into(), store: Store::Key, steps: vec![DStep { code: 141, idx: 1, arg: 0, data: vec![Data::Name("$y".into()), Data::Calc(vec![0x1a, 2, 0x7e, 0x22])] }] };
    let mut db = Db { tables: vec![t(1, "Person"), t(3, "Job")], occs: vec![DOcc { id: 1, name: "P".into(), table: 1 }, DOcc { id: 2, name: "J".into(), table: 3 }],
        rels: vec![DRel { id: 1, a: 1, b: 2, fa: 1, fb: 1, cmp: 0 }], layouts: vec![DLayout { id: 1, name: "L".into(), occ: 1 }, DLayout { id: 2, name: "M".into(), occ: 2 }], scripts: vec![s], ..Db::default() };
    if parts & 1 == 0 { db.rels.clear(); }
    if parts & 2 == 0 { db.scripts.clear(); }
    if parts & 4 == 0 { db.tables.truncate(1); db.occs.truncate(1); db.layouts.truncate(1); db.rels.clear(); }
    db
}

pub fn c26() -> Prop {
    Prop {
        id: "C26", level: "model_checking",
        rule: "the tool run as a process for every combination of mode (compile, decompile), every sequence of up to 2 (thorough 3) inputs over 5 burn files or 3 databases, every sequence of up to 1 (thorough 2) -t files over 3, --no-testing, --print-header, 3 initial contents of the working directory (empty, longer stale outputs, unrelated files), order of options and 4 placements of the inputs (relative, ./, subdirectory, absolute); every listed command line that cannot be carried out. States are distinct (command line, description) pairs and assembled files, transitions processes run, traces runs compared in full. Up to 33 inputs and -t files, with 8 kinds of names; --print-header for files of 17 sizes x 5 fillings x 5 paddings; 7 tests that use records, layouts, finds and scripts of a decompiled database, made to pass or to fail, after 0 to 2 other test files",
        assumptions: &["with several burn files the tool merges their components under colliding ids; only what the statement says of each input is compared then"],
        run: |ctx| {
            let tseqs = { let mut v = vec![vec![]]; v.extend(seqs(3, ctx.by(1, 2))); v };
            for decompile in [false, true] { for inputs in seqs(if decompile { 3 } else { 5 }, ctx.by(2, 3)) { for tfiles in &tseqs { for no_testing in [false, true] { for header in [false, true] {
                // a script's name is lost to the next input's scripts (see assumptions)
                if inputs.len() > 1 && !decompile && inputs.contains(&4) { continue; }
                if header && !decompile && (!tfiles.is_empty() || inputs.len() > 1) { continue; }
                for (k, cwd) in [Cwd::Fresh, Cwd::Stale, Cwd::Other].into_iter().enumerate() { for place in 0..4 { for tfirst in [false, true] {
                    if tfirst && tfiles.is_empty() { continue; }
                    if ctx.quick() && inputs.len() > 1 && (place + k + inputs[0] + inputs[1]) % 4 != 0 { continue; }
                    let c = Conf { decompile, inputs: inputs.clone(), tfiles: tfiles.clone(), no_testing, header, cwd, tfirst, place };
                    ctx.case(|| format!("{:?}", c), |ctx| check(ctx, &c));
                } } }
            } } } } }
            for (ni, nt) in [(1usize, 3usize), (1, 5), (1, 9), (1, 17), (1, 33), (2, 4), (3, 3), (4, 0), (4, 4), (9, 2), (17, 0), (17, 5), (33, 1)] { for decompile in [false, true] { for from in 0..4usize { for no_testing in [false, true] {
                if ni > 1 && ni <= 8 && !decompile { continue; }
                let c = Conf { decompile, inputs: (0..ni).map(|i| (i * 5 + from) % if decompile { 3 } else { 4 }).collect(), tfiles: (0..nt).map(|i| (i + from) % 3).collect(), no_testing, header: decompile && from == 1, cwd: [Cwd::Fresh, Cwd::Stale, Cwd::Other][from % 3], tfirst: from % 2 == 1, place: if ni > 8 { 8 + from } else { from } };
                ctx.case(|| format!("{:?}", c), |ctx| check(ctx, &c));
            } } } }
            // tests that use what is in the files
            for form in 0..3u8 { for which in 0..USES.len() { for truth in [true, false] { for before in 0..3usize { for tfirst in [false, true] { for two in [false, true] { for parts in [7, 6, 5, 4, 2, 0usize] {
                if (parts & 2 == 0 && which == 5) || (parts & 4 == 0 && (which == 3 || which == 4)) || (ctx.quick() && parts != 7 && before == 2) { continue; }
                ctx.case(|| format!("a test {} (to be {}) with a decompiled database with parts {} in spelling {}, {} other test files, {}, {}", which, truth, parts, form, before, if tfirst { "-t first" } else { "-t last" }, if two { "after another database" } else { "alone" }), |ctx| {
                    let dir = fresh_dir();
                    let _gone = Scratch(dir.clone());
                    std::fs::write(dir.join("db.fmp12"), fmp::simple(&used_db(parts), Form(form))).unwrap();
                    std::fs::write(dir.join("none.fmp12"), fmp::simple(&Db::default(), Form(form))).unwrap();
                    std::fs::write(dir.join("a.burn"), TFILES[0].text).unwrap();
                    let body = USES[which].replace("YES", if truth { "==" } else { "!=" });
                    std::fs::write(dir.join("t.burn"), format!("test use:\n script: [ define t() {{ {} }} ]\nend test;\n", body)).unwrap();
                    let mut a: Vec<String> = vec![];
                    let t: Vec<String> = (0..before).map(|_| "a.burn").chain(["t.burn"]).flat_map(|f| ["-t".to_string(), f.to_string()]).collect();
                    if tfirst { a.extend(t.clone()); }
                    if two { a.extend(["-d".into(), "none.fmp12".into()]); }
                    a.extend(["-d".into(), "db.fmp12".into()]);
                    if !tfirst { a.extend(t); }
                    if two && which != NO_DATA { return Ok(()); }
                    let r = run(&dir, &a)?;
                    ctx.transitions += 1;
                    let want: Vec<(&str, bool)> = (0..before).flat_map(|_| TFILES[0].tests).copied().chain([("use", truth)]).collect();
                    tests_ok(ctx, &parse_output(&r.out), &want, !two).map_err(|e| format!("burn_fm {}: {}\n{}", a.join(" "), body, e))
                });
            } } } } } } }
            // the file's copy, of every kind of length and content
            for total in [3usize, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 257, 1025] { for junk in [0u8, 10, 13, 0x80, 0xFF] { for extra in [0usize, 1, 7, 2048, 4095] {
                ctx.case(|| format!("--print-header of a file of {} sectors and {} bytes filled with {}", total, extra, junk), |ctx| {
                    let dir = fresh_dir();
                    let _gone = Scratch(dir.clone());
                    let db = &dbs()[extra % 3];
                    let o = fmp::ops(db, Form(0));
                    let s = fmp::sectors(&o, &fmp::full_cuts(&o, 4000), false).expect("fits");
                    let mut b = fmp::file(&s, &fmp::plain_blocks(s.len()), total.max(s.len() + 2), junk);
                    b.extend(std::iter::repeat_n(junk, extra));
                    std::fs::write(dir.join("db.fmp12"), &b).unwrap();
                    let r = run(&dir, &["-d".into(), "db.fmp12".into(), "--print-header".into()])?;
                    ctx.transitions += 1;
                    if r.code != Some(0) { return Err(format!("exit status {:?}", r.code)); }
                    if std::fs::read(dir.join("header.log")).map_err(|e| format!("header.log: {}", e))? != b { return Err("header.log is not the file".into()); }
                    if std::fs::read(dir.join("db.fmp12")).map_err(|e| e.to_string())? != b { return Err("the file was altered".into()); }
                    Ok(())
                });
            } } }
            let lines: [&[&str]; 13] = [&[], &["a.burn"], &["-c"], &["-d"], &["-t", "a.burn"], &["--no-testing"], &["-c", "a.burn", "-d", "a.fmp12"], &["-d", "a.fmp12", "-c", "a.burn"], &["-c", "missing.burn"], &["-d", "missing.fmp12"],
                &["-t", "missing.burn", "-c", "a.burn"], &["-t", "missing.burn", "-d", "a.fmp12"], &["--unknown", "-c", "a.burn"]];
            for l in lines { ctx.case(|| format!("refused: {:?}", l), |ctx| refused(ctx, l)); }
        },
    }
}

pub fn props() -> Vec<Prop> { vec![c26(), c28()] }
