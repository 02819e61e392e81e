// A writer of FMP12 files, independent of the tool: a database description, its directory
// operations, and their division among chained 4096-byte sectors.
use super::codes::path_value;
use crate::component::RelationComparison;
use crate::file::FmpFile;

#[derive(Clone, Debug, Default, Hash)]
pub struct DField { pub id: usize, pub name: String, pub kind: String, pub desc: String, pub user: String, pub account: String }
#[derive(Clone, Debug, Default, Hash)]
pub struct DTable { pub id: usize, pub name: String, pub fields: Vec<DField> }
#[derive(Clone, Debug, Default, Hash)]
pub struct DOcc { pub id: usize, pub name: String, pub table: usize }
#[derive(Clone, Debug, Default, Hash)]
pub struct DRel { pub id: usize, pub a: usize, pub b: usize, pub fa: u8, pub fb: u8, pub cmp: u8 }
#[derive(Clone, Debug, Default, Hash)]
pub struct DLayout { pub id: usize, pub name: String, pub occ: usize }
#[derive(Clone, Debug, Hash)]
pub enum Data { Name(String), Value(Vec<u8>), Calc(Vec<u8>) }
#[derive(Clone, Debug, Hash)]
pub struct DStep { pub code: u8, pub idx: usize, pub arg: u8, pub data: Vec<Data> }
#[derive(Clone, Debug, Hash)]
pub enum Store {
    /// whole list under key 4
    Key,
    /// whole list in a segment chunk with index 4
    Long,
    /// (segment index, from, to) in order of arrival
    Segments(Vec<(u8, usize, usize)>),
}
#[derive(Clone, Debug, Hash)]
pub struct DScript { pub id: usize, pub name: String, pub steps: Vec<DStep>, pub store: Store }
#[derive(Clone, Debug, Default, Hash)]
pub struct Db {
    pub tables: Vec<DTable>, pub occs: Vec<DOcc>, pub rels: Vec<DRel>, pub layouts: Vec<DLayout>, pub scripts: Vec<DScript>,
    pub sources: Vec<DSource>,
    /// scripts' step lists before their names
    pub code_first: bool,
    /// the order of the top directories (see `ops`); empty: ascending
    pub order: Vec<usize>,
    /// with the other keys and directories that files made by FileMaker have: GUIDs, counters, indexes
    /// of names, what follows calculations
    pub foreign: bool,
}
#[derive(Clone, Debug, Default, Hash)]
pub struct DSource { pub id: usize, pub name: String, pub kind: String, pub path: String, pub file: String, pub user: String, pub account: String }

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Push(Vec<u8>), Pop(u8), Put(Vec<u8>) }

pub fn xor(s: &str) -> Vec<u8> { s.bytes().map(|b| b ^ 0x5A).collect() }
/// The path of a file reference: ".." and "/" have codes of their own, and ":" may have.
pub fn source_path(s: &str, colon: u8) -> Vec<u8> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"..") { v.push(219); i += 2; } else { v.push(if b[i] == b'/' { 218 } else if b[i] == b':' { colon } else { b[i] ^ 0x5A }); i += 1; }
    }
    v
}
pub fn path_bytes(n: usize) -> Vec<u8> {
    if n < 128 { return vec![n as u8]; }
    let x = n - 128;
    let h = (x / 256) as u8;
    vec![if h < 4 { 0xFC + h } else { 0x80 + h }, (x % 256) as u8]
}

/// How chunks are spelled: 0 plain, 1 short forms, no-ops after pushes, 0x3D pops, 2 long forms.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub struct Form(pub u8);

pub struct Out { pub ops: Vec<Op>, form: Form }
impl Out {
    fn push(&mut self, n: usize) {
        let p = path_bytes(n);
        let mut b = if p.len() == 1 { vec![0x20] } else if self.form.0 == 2 { vec![0x38, 2] } else { vec![0x28] };
        if self.form.0 == 2 && p.len() == 2 && p[0] >= 0xFC { b.push(0x80 + (p[0] - 0xFC)); b.push(p[1]); } else { b.extend(&p); }
        if p.len() == 2 { assert_eq!(path_value(b[b.len() - 2], b[b.len() - 1]), n); }
        self.ops.push(Op::Push(b));
        if self.form.0 == 1 { self.ops.push(Op::Put(vec![0x80])); }
    }
    fn pop(&mut self) { self.ops.push(Op::Pop(if self.form.0 == 1 { 0x3D } else { 0x40 })); }
    fn dir(&mut self, n: usize, f: &mut dyn FnMut(&mut Out)) { self.push(n); f(self); self.pop(); }
    fn dirs(&mut self, p: &[usize], f: &mut dyn FnMut(&mut Out)) {
        for n in p { self.push(*n); }
        f(self);
        for _ in p { self.pop(); }
    }
    fn put(&mut self, b: Vec<u8>) { self.ops.push(Op::Put(b)); }
    pub fn kv(&mut self, key: usize, v: &[u8]) {
        let n = v.len();
        let p = path_bytes(key);
        let mut b = vec![];
        if key < 256 && self.form.0 != 2 && n < 256 {
            let short = match n { 1 => 1, 2 => 2, 4 => 3, 6 => 4, 8 => 5, _ => 0 };
            if self.form.0 == 1 && short != 0 { b.push(short); b.push(key as u8); }
            else { b.push(6); b.push(key as u8); b.push(n as u8); }
        } else if key >= 128 && n < 256 { b.push(0x0E); b.extend(&p); b.push(n as u8); }
        else if key < 256 && n < 256 { b.push(6); b.push(key as u8); b.push(n as u8); }
        else { b.push(0x0F); b.extend(&[if key < 128 { panic!("key") } else { p[0] }, p[1]]); b.push((n / 256) as u8); b.push((n % 256) as u8); }
        b.extend(v);
        self.put(b);
    }
    fn segment(&mut self, idx: u8, v: &[u8]) {
        let mut b = if self.form.0 == 2 { vec![0x0F, 0x80, idx] } else { vec![0x07, idx] };
        b.push((v.len() / 256) as u8);
        b.push((v.len() % 256) as u8);
        b.extend(v);
        self.put(b);
    }
    fn data(&mut self, v: &[u8]) {
        let short = match v.len() { 2 => 0x08, 3 => 0x10, 4 => 0x11, 5 => 0x12, 7 => 0x13, 9 => 0x14, 11 => 0x15, _ => 0 };
        let mut b = vec![];
        if short != 0 && self.form.0 != 2 { b.push(short); } else { b.push(0x23); b.push(v.len() as u8); }
        b.extend(v);
        self.put(b);
    }
}

/// Bytes of one step record.
pub fn record(s: &DStep) -> Vec<u8> {
    let p = path_bytes(s.idx);
    let mut r = vec![p.len() as u8 + 1, p.len() as u8];
    r.extend(&p);
    r.resize(28, 0);
    if s.code != 1 && s.arg == 0 { r[10] = 0x5A; }
    r[8] = s.arg;
    r[21] = s.code;
    r
}

pub fn ops(db: &Db, form: Form) -> Vec<Op> {
    let mut o = Out { ops: vec![], form };
    let foreign = db.foreign;
    let guid = |o: &mut Out| if foreign { o.kv(216, &xor("guid of this one")); o.kv(240, &[0, 0, 0, 1]); o.kv(241, &xor("n")); };
    // an index of names: entries by name, then ids
    let index = |o: &mut Out, names: Vec<(usize, &String)>| if foreign {
        o.dir(1, &mut |o| for (_, n) in &names {
            let mut b = vec![0x23, (n.len() * 2) as u8];
            if n.is_empty() || n.len() > 100 { continue; }
            for c in n.bytes() { b.extend([0x1F, c]); }
            o.put(b);
        });
        o.dir(3, &mut |o| for (i, _) in &names { o.data(&[1, *i as u8]); });
    };
    o.put(vec![0x80]);
    o.dir(2, &mut |o| { o.kv(5, &[4, 184]); o.kv(16, &xor("12")); });
    let tables = |o: &mut Out| o.dir(16, &mut |o| {
        o.dir(1, &mut |o| { o.kv(4, &[0, 0, 0, 9]); index(o, db.tables.iter().map(|t| (t.id, &t.name)).collect()); });
        o.dir(5, &mut |o| for t in &db.tables {
            o.dir(128 + t.id, &mut |o| { o.kv(2, &[1, 2, 3]); o.kv(16, &xor(&t.name)); guid(o); o.kv(252, &[9]); });
        });
    });
    let occs = |o: &mut Out| o.dir(17, &mut |o| {
        o.dir(1, &mut |o| { o.kv(0, &[3, 208, 0, 9]); index(o, db.occs.iter().map(|t| (t.id, &t.name)).collect()); });
        o.dir(5, &mut |o| for t in &db.occs {
            o.ops.push(Op::Push(vec![0x30, 0xD0, (t.id / 256) as u8, (t.id % 256) as u8]));
            o.kv(2, &[3, 0xD0, 0, 1, 2, 0x80, t.table as u8, 1]);
            o.kv(16, &xor(&t.name));
            guid(o);
            if foreign { o.dirs(&[219, 5], &mut |_| {}); }
            let mine: Vec<&DRel> = db.rels.iter().filter(|r| r.a == t.id || r.b == t.id).collect();
            if !mine.is_empty() {
                o.dir(251, &mut |o| for r in &mine {
                    let other = if r.a == t.id { r.b } else { r.a };
                    let p = path_bytes(r.id);
                    let mut d = vec![0xD0, (other / 256) as u8, (other % 256) as u8, p.len() as u8];
                    d.extend(&p);
                    o.data(&d);
                });
            }
            o.pop();
        });
    });
    let rels = |o: &mut Out| o.dirs(&[251, 5], &mut |o| for r in &db.rels {
        o.dir(r.id, &mut |o| {
            o.kv(2, &[7]);
            guid(o);
            o.dir(3, &mut |o| { o.kv(1, &[r.cmp, 2, 1, r.fa, 2, 1, r.fb]); });
        });
    });
    let layouts = |o: &mut Out| o.dirs(&[4], &mut |o| {
        o.dirs(&[1, 7], &mut |o| for l in &db.layouts {
            o.dir(l.id, &mut |o| { o.kv(2, &[2, (128 + l.occ) as u8, 0]); o.kv(16, &xor(&l.name)); if foreign { o.kv(48, &[1]); } o.kv(215, &[3, 3]); guid(o); });
        });
        o.dirs(&[5], &mut |o| for l in &db.layouts { o.dir(l.id, &mut |o| { o.kv(2, &[0, 0]); }); });
    });
    let names = |o: &mut Out| o.dirs(&[17, 1], &mut |o| {
        o.kv(0, &[1, db.scripts.len() as u8]);
        o.dir(7, &mut |o| for s in &db.scripts { o.dir(s.id, &mut |o| { o.kv(2, &[9, 9]); o.kv(16, &xor(&s.name)); guid(o); }); });
    });
    let codes = |o: &mut Out| o.dirs(&[17, 5], &mut |o| for s in &db.scripts {
        let list: Vec<u8> = s.steps.iter().flat_map(|x| record(x)).collect();
        o.dir(s.id, &mut |o| {
            o.kv(3, &[1, 1]);
            if foreign { o.kv(2, &[1]); o.kv(6, &xor("?")); }
            match &s.store {
                Store::Key => if list.len() < 256 { o.kv(4, &list); } else { o.segment(4, &list); },
                Store::Long => o.segment(4, &list),
                Store::Segments(v) => o.dir(4, &mut |o| for (i, a, b) in v { o.segment(*i, &list[*a..*b]); }),
            }
            if s.steps.iter().any(|x| !x.data.is_empty()) {
                o.dir(5, &mut |o| for x in &s.steps {
                    if x.data.is_empty() { continue; }
                    o.dir(x.idx, &mut |o| {
                        let first: Vec<&Data> = x.data.iter().filter(|d| !matches!(d, Data::Calc(_))).collect();
                        if !first.is_empty() {
                            o.dir(128, &mut |o| for d in &first {
                                match d {
                                    Data::Name(n) => o.kv(1, &xor(n)),
                                    Data::Value(v) => o.dir(5, &mut |o| o.kv(5, v)),
                                    _ => {}
                                }
                            });
                        }
                        for d in &x.data { if let Data::Calc(v) = d { o.dirs(&[129, 5], &mut |o| { if foreign { o.kv(4, &xor("4")); } o.kv(5, v); if foreign { o.kv(6, &[0, 16, 1, 2]); } }); } }
                    });
                });
            }
        });
    });
    let sources = |o: &mut Out| if !db.sources.is_empty() {
        o.dir(32, &mut |o| {
            o.dir(1, &mut |o| {
                // an index: in the order of the names
                let mut by_name: Vec<&DSource> = db.sources.iter().collect();
                by_name.sort_by(|a, b| a.name.cmp(&b.name));
                o.dir(1, &mut |o| for s in &by_name {
                    let mut d = vec![];
                    for c in s.name.chars() { let (h, l) = if super::codes::supported().contains(&c) { super::codes::code_of(c) } else { (0x1F, c as u8 | 1) }; d.push(h); d.push(l); }
                    d.extend(&[0, 0, 0]);
                    let mut b = vec![0x23, d.len() as u8];
                    b.extend(&d);
                    o.put(b);
                });
                o.dir(3, &mut |o| for s in &db.sources { o.data(&be4(s.id)); });
            });
            o.dir(5, &mut |o| for s in &db.sources {
                o.dir(s.id, &mut |o| {
                    o.kv(16, &xor(&s.name));
                    let mut d = vec![0, 0, 0, 1, s.kind.len() as u8];
                    d.extend(xor(&s.kind));
                    let p = source_path(&s.path, if o.form.0 == 1 { 96 } else { 65 });
                    d.push(p.len() as u8);
                    d.extend(&[65, 50]);
                    d.extend(&p);
                    d.push(s.file.len() as u8);
                    d.extend(xor(&s.file));
                    let mut b = vec![6, 130, d.len() as u8];
                    b.extend(&d);
                    o.put(b);
                    o.kv(216, &[9; 16]);
                    if foreign { o.kv(240, &[0, 1]); o.kv(131, &xor("when")); }
                    for (k, v) in [(1u8, &s.account), (2, &s.user)] {
                        let mut b = vec![0x0E, 0xFC, k, v.len() as u8];
                        b.extend(xor(v));
                        o.put(b);
                    }
                });
            });
        });
    };
    let fields = |o: &mut Out| for t in &db.tables {
        if t.fields.is_empty() { continue; }
        o.dir(128 + t.id, &mut |o| {
            o.dir(2, &mut |o| o.kv(1, &[5, 5, 5]));
            o.dir(3, &mut |o| {
                o.dir(1, &mut |o| { o.kv(16, &[9]); index(o, t.fields.iter().map(|f| (f.id, &f.name)).collect()); });
                o.dir(5, &mut |o| for f in &t.fields {
                    o.dir(f.id, &mut |o| {
                        o.kv(2, &xor(&f.kind));
                        o.kv(3, &xor(&f.desc));
                        o.kv(8, &[1]);
                        o.kv(16, &xor(&f.name));
                        o.kv(129, &xor(&f.account));
                        o.kv(130, &xor(&f.user));
                        guid(o);
                        if foreign { o.dir(5, &mut |o| { o.kv(5, &[0x10, 1]); o.kv(3, &xor("x")); }); }
                        o.dir(7, &mut |o| o.kv(16, &[2]));
                    });
                });
            });
            o.dir(5, &mut |o| o.dir(1, &mut |o| { o.kv(16, &[1, 1]); o.kv(3, &[4]); }));
        });
    };
    if db.order.is_empty() {
        o.dir(3, &mut |o| { tables(o); occs(o); rels(o); });
        layouts(&mut o);
        if db.code_first { codes(&mut o); names(&mut o); } else { names(&mut o); codes(&mut o); }
        o.dirs(&[23], &mut |o| o.kv(1, &[1]));
        sources(&mut o);
        fields(&mut o);
    } else {
        for g in &db.order {
            match g {
                0 => o.dir(3, &mut |o| tables(o)), 1 => o.dir(3, &mut |o| occs(o)), 2 => o.dir(3, &mut |o| rels(o)),
                3 => layouts(&mut o), 4 => names(&mut o), 5 => codes(&mut o), 6 => sources(&mut o), _ => fields(&mut o),
            }
        }
    }
    o.ops
}

/// The same sector with something of the root directory before it, so that it ends with its last byte.
pub fn flush_right(p: &[u8]) -> Vec<u8> {
    let n = 4076 - p.len();
    let mut v = vec![];
    if n >= 4 { v.extend([0x07, 99, ((n - 4) / 256) as u8, ((n - 4) % 256) as u8]); v.resize(n, 0x20); } else { v.resize(n, 0x80); }
    v.extend(p);
    v
}

fn bytes_of(op: &Op) -> Vec<u8> { match op { Op::Push(b) | Op::Put(b) => b.clone(), Op::Pop(c) => vec![*c] } }

/// Cut the operations before the given indices; None if a sector would overflow.
pub fn sectors(ops: &[Op], cuts: &[usize], close: bool) -> Option<Vec<Vec<u8>>> {
    let mut res = vec![];
    let mut open: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(ops.len());
    for (i, e) in ends.iter().enumerate() {
        let mut s: Vec<u8> = vec![];
        for p in &open { s.extend(p); }
        for op in &ops[at..*e] {
            match op { Op::Push(b) => open.push(b.clone()), Op::Pop(_) => { open.pop(); } _ => {} }
            s.extend(bytes_of(op));
        }
        if close && i + 1 < ends.len() { for _ in &open { s.push(0x40); } }
        if s.len() > 4076 { return None; }
        res.push(s);
        at = *e;
    }
    assert!(open.is_empty());
    Some(res)
}

/// Cuts that fill the sectors one after the other.
pub fn full_cuts(ops: &[Op], room: usize) -> Vec<usize> {
    let mut cuts = vec![];
    let mut open: Vec<usize> = vec![];
    let mut used = 0;
    for (i, op) in ops.iter().enumerate() {
        let n = bytes_of(op).len();
        let depth = open.len();
        if used + n + depth + 1 > room && used > 0 { cuts.push(i); used = open.iter().sum(); }
        used += n;
        match op { Op::Push(b) => open.push(b.len()), Op::Pop(_) => { open.pop(); } _ => {} }
    }
    cuts
}

fn be4(n: usize) -> [u8; 4] { (n as u32).to_be_bytes() }

/// The file with its sectors' payloads at the given blocks (block 0 and 1 are headers, the first payload is block 2).
pub fn file(payloads: &[Vec<u8>], blocks: &[usize], total: usize, junk: u8) -> Vec<u8> {
    let mut f = vec![0u8; total * 4096];
    for (i, b) in f.iter_mut().take(4096).enumerate() { *b = (i % 251) as u8; }
    for b in 2..total { for x in &mut f[b * 4096..(b + 1) * 4096] { *x = junk; } }
    f[4096 + 8..4096 + 12].copy_from_slice(&be4(total));
    assert_eq!(blocks[0], 2);
    for (i, p) in payloads.iter().enumerate() {
        let at = blocks[i] * 4096;
        let s = &mut f[at..at + 4096];
        for x in s.iter_mut() { *x = 0; }
        let prev = if i == 0 { 0 } else { blocks[i - 1] };
        let next = if i + 1 < payloads.len() { blocks[i + 1] } else { 0 };
        s[4..8].copy_from_slice(&be4(prev));
        s[8..12].copy_from_slice(&be4(next));
        s[12..16].copy_from_slice(&be4(p.len()));
        s[20..20 + p.len()].copy_from_slice(p);
    }
    f
}

pub fn plain_blocks(n: usize) -> Vec<usize> { (2..2 + n).collect() }
/// A file in as few sectors as possible.
pub fn simple(db: &Db, form: Form) -> Vec<u8> {
    let o = ops(db, form);
    let s = sectors(&o, &full_cuts(&o, 4076), false).expect("fits");
    file(&s, &plain_blocks(s.len()), s.len() + 2, 0)
}

// ---------------------------------------------------------------------------- what the file says

pub const CMP: [&str; 7] = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"];
fn cmp_name(c: &RelationComparison) -> &'static str {
    match c {
        RelationComparison::Equal => CMP[0], RelationComparison::NotEqual => CMP[1], RelationComparison::Less => CMP[2], RelationComparison::LessEqual => CMP[3],
        RelationComparison::Greater => CMP[4], RelationComparison::GreaterEqual => CMP[5], RelationComparison::Cartesian => CMP[6],
    }
}

include!(concat!(env!("BURN_VERIF_DIR"), "/harness/steps.rs"));

/// One line per component (schema).
pub fn want_schema(db: &Db) -> Vec<String> {
    let mut v = vec![];
    for t in &db.tables {
        v.push(format!("table {} {:?}", t.id, t.name));
        for f in &t.fields { v.push(format!("field {}.{} {:?} {:?} {:?} {:?} {:?}", t.id, f.id, f.name, f.kind, f.desc, f.account, f.user)); }
    }
    for o in &db.occs { v.push(format!("occurrence {} {:?} of {}", o.id, o.name, o.table)); }
    for r in &db.rels {
        // listed from the occurrence whose directory comes first
        let pos = |x: usize| db.occs.iter().position(|o| o.id == x);
        let (a, b) = if pos(r.a) <= pos(r.b) { (r.a, r.b) } else { (r.b, r.a) };
        v.push(format!("relationship {}: {} {} {} {} {}", r.id, a, r.fa, CMP[r.cmp as usize], b, r.fb));
    }
    for l in &db.layouts { v.push(format!("layout {} {:?} on {}", l.id, l.name, l.occ)); }
    for s in &db.sources { v.push(format!("source {} {:?} {:?} {:?} {:?} by {:?}", s.id, s.name, s.kind, s.path, s.file, s.user)); }
    v.sort();
    v
}
pub fn got_schema(f: &FmpFile) -> Vec<String> {
    let mut v = vec![];
    for (id, t) in &f.tables {
        v.push(format!("table {} {:?}", id, t.table_name));
        for (n, x) in &t.fields { v.push(format!("field {}.{} {:?} {:?} {:?} {:?} {:?}", id, n, x.field_name, x.field_type, x.field_description, x.created_by_account, x.created_by_user)); }
    }
    for (id, o) in &f.table_occurrences { v.push(format!("occurrence {} {:?} of {}", id, o.table_occurence_name, o.table_actual)); }
    for (id, r) in &f.relationships { v.push(format!("relationship {}: {} {} {} {} {}", id, r.table1, r.field1, cmp_name(&r.comparison), r.table2, r.field2)); }
    for (id, l) in &f.layouts { v.push(format!("layout {} {:?} on {}", id, l.layout_name, l.table_occurrence)); }
    for (id, s) in &f.data_sources { v.push(format!("source {} {:?} {:?} {:?} {:?} by {:?}", id, s.source_name, s.source_location.source_type, s.source_location.source_path, s.source_location.source_filename, s.created_by_user)); }
    v.sort();
    v
}

/// Directories open before each operation; an occurrence's directory is `OCC`.
pub const OCC: usize = usize::MAX;
pub fn paths(o: &[Op]) -> Vec<Vec<usize>> {
    let mut cur = vec![];
    let mut v = vec![];
    for op in o {
        v.push(cur.clone());
        match op {
            Op::Push(b) => cur.push(match b[0] { 0x20 => b[1] as usize, 0x28 | 0x38 => path_value(b[b.len() - 2], b[b.len() - 1]), _ => OCC }),
            Op::Pop(_) => { cur.pop(); }
            Op::Put(_) => {}
        }
    }
    v
}
/// Keys that mean something in a directory, or could come to; None where nothing is known.
pub fn meaning(p: &[usize]) -> Option<Vec<usize>> {
    let who = |k: &[usize]| Some(k.iter().copied().chain([129, 130, 131]).collect());
    match p {
        [3, 16, 5, _] => who(&[3, 16]),
        [3, 17, 5, OCC] => who(&[2, 16]),
        [3, 251, 5, _] => who(&[]),
        [3, 251, 5, _, 3] => Some(vec![1]),
        [4, 1, 7, _] => who(&[2, 16]),
        [17, 1, 7, _] => who(&[16]),
        [17, 5, _] => Some(vec![4]),
        [17, 5, _, 5, _] => Some(vec![]),
        [17, 5, _, 5, _, 128] => Some(vec![1]),
        [17, 5, _, 5, _, 128 | 129, 5] => Some(vec![5]),
        [32, 5, _] => Some(vec![16, 129, 130]),
        [t, 3, 5, _] if *t >= 128 => Some(vec![2, 3, 16, 129, 130]),
        [] | [3] | [3, 16] | [3, 16, 5] | [3, 17] | [3, 17, 5] | [3, 251] | [3, 251, 5] | [4] | [4, 1] | [4, 1, 7] | [17] | [17, 1] | [17, 1, 7] | [17, 5] | [17, 5, _, 5] | [32] | [32, 5] => Some(vec![]),
        [t] | [t, 3] | [t, 3, 5] if *t >= 128 => Some(vec![]),
        _ => None,
    }
}
/// Chunks with which nothing is said in directory p.
pub fn strays(p: &[usize]) -> Vec<Vec<u8>> {
    let Some(known) = meaning(p) else { return vec![]; };
    let mut v = vec![];
    let text = xor("wrong!!!");
    let short: [&[u8]; 5] = [&[7], &[1, 140], &[3, 2, 1, 131], &[0, 1, 2, 3, 4, 5], &text];
    for key in 0..256usize {
        if known.contains(&key) { continue; }
        for d in [&text[..], &[7][..], &[][..], &[2, 131, 1, 2, 128, 3, 3, 4][..]] { let mut b = vec![6, key as u8, d.len() as u8]; b.extend(d); v.push(b); }
        let i = key % 5;
        let mut b = vec![1 + i as u8, key as u8];
        b.extend(short[i]);
        v.push(b);
    }
    for key in (128..896usize).filter(|k| *k < 300 || k % 64 < 3) {
        if known.contains(&key) { continue; }
        let mut b = vec![0x0E];
        b.extend(path_bytes(key));
        b.push(8);
        b.extend(&text);
        v.push(b);
    }
    for len in 0..12usize { let mut b = vec![0x23, len as u8]; b.extend(text.iter().cycle().take(len)); v.push(b); }
    for (code, n) in [(8u8, 2usize), (0x10, 3), (0x11, 4), (0x12, 5), (0x13, 7), (0x14, 9), (0x15, 11)] { let mut b = vec![code]; b.extend(text.iter().cycle().take(n)); v.push(b); }
    for idx in 0..=255u8 {
        if idx as usize == 4 && matches!(p, [17, 5, _]) { continue; }
        let mut b = vec![7, idx, 0, 8];
        b.extend(&text);
        v.push(b);
    }
    for key in [vec![1u8], vec![0x1F, 65], vec![2, 2, 16, 16]] { let mut b = vec![0x1E, key.len() as u8]; b.extend(&key); b.push(8); b.extend(&text); v.push(b); }
    v
}

/// Directories that do not belong in directory p, with what would mean something elsewhere.
pub fn stray_dirs(p: &[usize]) -> Vec<Vec<Op>> {
    if meaning(p).is_none() || matches!(p, [3, 17, 5, ..] | [4, 1, 7, _] | [17, 1, 7, _]) { return vec![]; }
    let mut v = vec![];
    for n in (0..=140usize).chain([200, 219, 249, 250, 251, 252, 253, 254, 255, 256, 300, 383, 384]) { for m in [None, Some(3usize), Some(5), Some(128)] {
        let mut at = p.to_vec();
        let mut o = Out { ops: vec![], form: Form(0) };
        let mut bad = false;
        for d in std::iter::once(n).chain(m) {
            at.push(d);
            bad |= meaning(&at).is_some_and(|k| !k.is_empty()) || matches!(at[..], [3, 17, 5, ..] | [4, 1, _, _] | [17, 1, _, _] | [17, 5, _, 4]);
            o.push(d);
        }
        if bad { continue; }
        for k in [16usize, 2, 1, 3, 4, 5, 129, 130] { o.kv(k, &xor("wrong!!!")); }
        o.put(vec![7, 1, 0, 1, 1]);
        o.pop();
        if m.is_some() { o.pop(); }
        v.push(o.ops);
    } }
    v
}
