// Reference model of the test database: tables, occurrences with found sets, find mode.
use super::lang::{Go, V};

#[derive(Clone, Debug)]
pub struct Table { pub id: usize, pub name: String, pub fields: Vec<(u16, String)> }
#[derive(Clone, Debug)]
pub struct Occ { pub id: usize, pub name: String, pub table: usize /* table id */ }
#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub tables: Vec<Table>,
    pub occs: Vec<Occ>,
    pub layouts: Vec<(usize, String, usize)>, // id, name, occurrence id
    pub rels: Vec<(usize, u16, u8, usize, u16)>, // occurrence, field, comparison code, occurrence, field
}

#[derive(Clone, Debug)]
pub struct World {
    pub schema: std::rc::Rc<Schema>,
    pub recs: Vec<Vec<Vec<V>>>,        // table index, record, field index
    pub found: Vec<Vec<usize>>,        // occurrence index
    pub pos: Vec<usize>,
    pub cur: usize,                    // current occurrence index
    pub find: bool,
    pub crit: Vec<(String, V)>,
}

pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Empty, V::Text(t)) | (V::Text(t), V::Empty) => t.is_empty(),
        (a, b) => a == b,
    }
}

impl World {
    pub fn new(schema: std::rc::Rc<Schema>) -> World {
        let cur = schema.occs.iter().enumerate().min_by_key(|x| x.1.id).map(|x| x.0).unwrap_or(0);
        World {
            recs: schema.tables.iter().map(|_| vec![]).collect(),
            found: schema.occs.iter().map(|_| vec![]).collect(),
            pos: schema.occs.iter().map(|_| 0).collect(),
            cur, find: false, crit: vec![], schema,
        }
    }
    pub fn empty() -> World { World::new(std::rc::Rc::new(Schema::default())) }
    pub fn digest(&self) -> u64 {
        super::engine::h64(&format!("{:?}{:?}{:?}{:?}{:?}{:?}", self.recs, self.found, self.pos, self.cur, self.find, self.crit))
    }
    pub fn tidx(&self, occ: usize) -> usize { self.schema.tables.iter().position(|t| t.id == self.schema.occs[occ].table).expect("table") }
    fn occ(&self, name: &str) -> Option<usize> { self.schema.occs.iter().position(|o| o.name == name) }
    fn fidx(&self, t: usize, f: &str) -> Option<usize> { self.schema.tables[t].fields.iter().position(|x| x.1 == f) }
    pub fn current(&self, occ: usize) -> Option<usize> { self.found[occ].get(self.pos[occ]).copied() }
    pub fn get(&self, o: &str, f: &str) -> V {
        let Some(o) = self.occ(o) else { return V::Empty };
        let t = self.tidx(o);
        match (self.current(o), self.fidx(t, f)) { (Some(r), Some(f)) => self.recs[t][r][f].clone(), _ => V::Empty }
    }
    pub fn set(&mut self, o: &str, f: &str, v: V) {
        if self.find { self.crit.push((f.to_string(), v)); return; }
        let Some(o) = self.occ(o) else { return };
        let t = self.tidx(o);
        if let (Some(r), Some(f)) = (self.current(o), self.fidx(t, f)) { self.recs[t][r][f] = v; }
    }
    pub fn new_record(&mut self) {
        if self.schema.occs.is_empty() { return; }
        let t = self.tidx(self.cur);
        let n = self.recs[t].len();
        self.recs[t].push(self.schema.tables[t].fields.iter().map(|_| V::Empty).collect());
        for o in 0..self.found.len() {
            if self.tidx(o) == t { self.found[o].push(n); self.pos[o] = self.found[o].len() - 1; }
        }
    }
    pub fn layout(&mut self, name: &str) {
        if let Some((_, _, o)) = self.schema.layouts.iter().find(|l| l.1 == name) {
            if let Some(i) = self.schema.occs.iter().position(|x| x.id == *o) { self.cur = i; }
        }
    }
    /// Returns whether the position changed.
    pub fn go(&mut self, g: &Go) -> bool {
        if self.find || self.schema.occs.is_empty() { return true; }
        let n = self.found[self.cur].len();
        let p = self.pos[self.cur];
        if n == 0 { return false; }
        let q = match g {
            Go::First => 0, Go::Last => n - 1, Go::Next => if p + 1 < n { p + 1 } else { p },
            Go::Prev => p.saturating_sub(1), Go::N(k) => (*k as usize).min(n - 1),
        };
        self.pos[self.cur] = q;
        p != q
    }
    pub fn enter_find(&mut self) { self.find = true; }
    pub fn perform_find(&mut self) {
        let t = self.tidx(self.cur);
        let hits: Vec<usize> = (0..self.recs[t].len()).filter(|r| {
            self.crit.iter().any(|(f, v)| self.fidx(t, f).map(|i| same(&self.recs[t][*r][i], v)).unwrap_or(false))
        }).collect();
        self.find = false;
        self.crit.clear();
        if hits.is_empty() {
            self.show_all();
        } else {
            self.found[self.cur] = hits;
            self.pos[self.cur] = 0;
        }
    }
    pub fn show_all(&mut self) {
        if self.schema.occs.is_empty() { return; }
        let t = self.tidx(self.cur);
        self.found[self.cur] = (0..self.recs[t].len()).collect();
    }
}
