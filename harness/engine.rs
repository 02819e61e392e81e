// Exhaustive-exploration engine.  A property enumerates its bounded space as a
// deterministic sequence of cases; each case is executed by one of n workers.  Workers
// are processes, so hangs and aborts are observed (and attributed to a case) too.
use super::sys::{self, Capture, Shared};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { if self == Tier::Quick { "quick" } else { "thorough" } }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

pub const HANG_CPU_TICKS: u64 = 1500; // 15 s of CPU on a single case
pub const HANG_WALL: Duration = Duration::from_secs(150);
const MEM_LIMIT: u64 = 3 << 30;
pub const SITE: &str = "site=src/testing ";
const FSIZE_LIMIT: u64 = 1 << 30;

#[derive(Default)]
pub struct States { v: Vec<u64>, sorted: usize }
impl States {
    pub fn add(&mut self, h: u64) {
        self.v.push(h);
        if self.v.len() > 2 * self.sorted + (1 << 20) { self.compact(); }
    }
    fn compact(&mut self) { self.v.sort_unstable(); self.v.dedup(); self.sorted = self.v.len(); }
}

#[derive(Clone)]
pub struct Fail { case: u64, key: String, detail: String }

enum Mode { Shard { me: u64, n: u64 }, Only(u64), Describe(u64) }

pub struct Ctx {
    pub tier: Tier,
    pub cap: Option<Capture>,
    prop: &'static str,
    mode: Mode,
    skip: BTreeSet<u64>,
    counter: u64,
    executed: u64,
    pub states: States,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub counts: BTreeMap<String, u64>,
    fails: Vec<Fail>,
    known_hit: Vec<Fail>,
    known: BTreeSet<String>,
    sited: BTreeSet<String>,
    pub attributed: bool,
    samples: Vec<String>,
    shared: Option<Shared>,
    stop_flag: Option<Shared>,
    stopped: bool,
}

thread_local! { static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // fixed keys: state identities are the same in every worker
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Spreads similar cases evenly over the workers.
fn spread(i: u64) -> u64 { (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) ^ i }

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// Choose a bound by tier.
    /// Long cases say now and then that they still make progress.
    pub fn alive(&self) { if let Some(s) = &self.shared { s.set(1, s.get(1) + 1); } }
    pub fn by<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn stopped(&self) -> bool { self.stopped }
    pub fn out(&self) -> Vec<u8> { self.cap.as_ref().map(|c| c.take()).unwrap_or_default() }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n; }

    /// Are there recorded defects of src/testing for this property?
    pub fn has_sited(&self) -> bool { !self.sited.is_empty() }
    /// Is the next case ours?  (lets generators skip expensive construction)
    pub fn next_is_mine(&self) -> bool {
        match self.mode {
            Mode::Shard { me, n } => spread(self.counter) % n == me && !self.stopped,
            Mode::Only(i) | Mode::Describe(i) => self.counter == i,
        }
    }
    /// For figures that are the same in every worker.
    pub fn is_first_worker(&self) -> bool { matches!(self.mode, Mode::Shard { me: 0, .. }) }
    pub fn skip_case(&mut self) { self.counter += 1; }
    /// Skip n cases at once if none of them is ours.
    pub fn pos(&self) -> u64 { self.counter }

    pub fn case<K: FnOnce() -> String, B: FnOnce(&mut Ctx) -> Result<(), String>>(&mut self, key: K, body: B) {
        let mine = self.next_is_mine();
        let idx = self.counter;
        self.counter += 1;
        if !mine || self.skip.contains(&idx) { return; }
        if let Mode::Describe(_) = self.mode {
            self.fails.push(Fail { case: idx, key: key(), detail: String::new() });
            self.stopped = true;
            return;
        }
        if let Some(s) = &self.shared { s.set(0, idx); s.set(1, s.get(1) + 1); }
        if self.executed % 64 == 0 {
            if let Some(f) = &self.stop_flag { if f.get(0) != 0 { self.stopped = true; return; } }
        }
        self.executed += 1;
        let n = self.executed;
        let mut key = Some(key);
        let mut name: Option<String> = None;
        if self.samples.len() < 4 && (n == 1 || n == 7 || n == 101 || n == 1009) {
            let k = (key.take().unwrap())();
            self.samples.push(k.chars().take(700).collect());
            name = Some(k);
        }
        if let Some(c) = &self.cap { c.clear(); }
        self.attributed = false;
        let r = catch_unwind(AssertUnwindSafe(|| body(self)));
        let detail = match r {
            Ok(Ok(())) => {
                if self.attributed {
                    self.count("attributed_to_known_findings", 1);
                    let k = match name { Some(k) => k, None => (key.take().unwrap())() };
                    if std::env::var_os("BURN_VERIF_SHOW").is_some() { self.known_hit.push(Fail { case: idx, key: k, detail: "attributed".into() }); }
                    else if self.sited.contains(&one_line(&k)) {
                        self.known_hit.push(Fail { case: idx, key: k, detail: "attributed".into() });
                    }
                }
                return;
            }
            Ok(Err(e)) => e,
            Err(_) => format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())),
        };
        let k = match name { Some(k) => k, None => (key.take().unwrap())() };
        let f = Fail { case: idx, key: k, detail };
        if self.known.contains(&one_line(&f.key)) { self.known_hit.push(f); return; }
        self.fails.push(f);
        if self.fails.len() >= 3 {
            self.stopped = true;
        }
        if let Some(fl) = &self.stop_flag { fl.set(0, 1); }
    }
}

fn root() -> String { env!("BURN_VERIF_DIR").to_string() }

fn one_line(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t") }

/// Lines "finding property=<id> [site=src/testing] key=<one-line case key> ## <what fails>" of the
/// known-findings file.  Without a site, exactly this case is expected to fail.  With one, the
/// defect lies in that part of the tool: see `fm::judge` for what is attributed to it.
fn known_findings(prop: &str, site: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let pre = format!("finding property={} {}key=", prop, site);
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&pre) {
            let (k, what) = rest.split_once(" ## ").unwrap_or((rest, ""));
            m.insert(k.to_string(), what.to_string());
        }
    }
    m
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info).replace('\n', " ");
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
}

fn make_ctx(prop: &Prop, tier: Tier, mode: Mode) -> Ctx {
    Ctx {
        tier, cap: None, prop: prop.id, mode, skip: BTreeSet::new(), counter: 0, executed: 0,
        states: States::default(), transitions: 0, traces: 0, nontrivial: 0, counts: BTreeMap::new(),
        fails: vec![], known_hit: vec![],
        known: known_findings(prop.id, "").keys().cloned().collect(),
        sited: known_findings(prop.id, SITE).keys().cloned().collect(),
        attributed: false,
        samples: vec![], shared: None, stop_flag: None, stopped: false,
    }
}

fn env(k: &str) -> String { std::env::var(k).unwrap_or_default() }
fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }

pub fn main(props: &[Prop]) {
    let what = env("BURN_VERIF");
    let id = env("BURN_VERIF_PROP");
    let tier = tier_of(&env("BURN_VERIF_TIER"));
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            if what == "list" { for p in props { println!("{}", p.id); } std::process::exit(0); }
            eprintln!("unknown property {:?}", id); std::process::exit(2);
        }
    };
    match what.as_str() {
        "run" => run(prop, tier),
        "worker" => worker(prop, tier),
        "only" => only(prop, tier),
        "describe" => {
            // stdout carries the description; nothing is executed
            let mut c = make_ctx(prop, tier, Mode::Describe(env("BURN_VERIF_CASE").parse().unwrap_or(0)));
            (prop.run)(&mut c);
            print!("{}", c.fails.get(0).map(|f| f.key.clone()).unwrap_or_default());
            std::process::exit(0);
        }
        _ => { eprintln!("bad BURN_VERIF"); std::process::exit(2) }
    }
}

fn only(prop: &Prop, tier: Tier) {
    let i: u64 = env("BURN_VERIF_CASE").parse().expect("case");
    let mut c = make_ctx(prop, tier, Mode::Only(i));
    c.known.clear();
    c.sited.clear();
    install_hook();
    c.cap = Some(Capture::install());
    sys::limit(MEM_LIMIT, FSIZE_LIMIT);
    (prop.run)(&mut c);
    let msg = match c.fails.get(0) {
        Some(f) => format!("FAIL case {}\n--- case ---\n{}\n--- detail ---\n{}\n", f.case, f.key, f.detail),
        None => format!("case {}: {}\n", i, if c.executed == 1 { "holds" } else { "not executed" }),
    };
    let p = env("BURN_VERIF_OUT");
    std::fs::write(&p, &msg).expect("write result");
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}

fn worker(prop: &Prop, tier: Tier) {
    let me: u64 = env("BURN_VERIF_ME").parse().expect("me");
    let n: u64 = env("BURN_VERIF_N").parse().expect("n");
    let dir = env("BURN_VERIF_OUT");
    sys::die_with_parent();
    sys::limit(MEM_LIMIT, FSIZE_LIMIT);
    let mut c = make_ctx(prop, tier, Mode::Shard { me, n });
    c.skip = env("BURN_VERIF_SKIP").split(',').filter_map(|s| s.parse().ok()).collect();
    c.shared = Some(Shared::open(&format!("{}/w{}.shm", dir, me), false));
    c.stop_flag = Some(Shared::open(&format!("{}/stop.shm", dir), false));
    install_hook();
    c.cap = Some(Capture::install());
    (prop.run)(&mut c);
    c.states.compact();
    let mut bytes = Vec::with_capacity(c.states.v.len() * 8);
    for s in &c.states.v { bytes.extend_from_slice(&s.to_le_bytes()); }
    std::fs::write(format!("{}/w{}.states", dir, me), bytes).expect("states");
    let fl = |v: &Vec<Fail>| -> serde_json::Value {
        v.iter().map(|f| serde_json::json!({"case": f.case, "key": f.key, "detail": f.detail})).collect::<Vec<_>>().into()
    };
    let j = serde_json::json!({
        "total": c.counter, "executed": c.executed, "transitions": c.transitions, "traces": c.traces,
        "nontrivial": c.nontrivial, "counts": c.counts, "fails": fl(&c.fails), "known": fl(&c.known_hit),
        "samples": c.samples, "stopped": c.stopped,
    });
    std::fs::write(format!("{}/w{}.json", dir, me), j.to_string()).expect("result");
    std::process::exit(0);
}

struct W { child: Child, me: u64, last: (u64, u64), since: Instant, cpu0: u64, done: bool, skip: Vec<u64> }

fn spawn(prop: &Prop, tier: Tier, dir: &str, me: u64, n: u64, skip: &[u64]) -> Child {
    Command::new(std::env::current_exe().expect("exe"))
        .env("BURN_VERIF", "worker").env("BURN_VERIF_PROP", prop.id).env("BURN_VERIF_TIER", tier.name())
        .env("BURN_VERIF_ME", me.to_string()).env("BURN_VERIF_N", n.to_string()).env("BURN_VERIF_OUT", dir)
        .env("BURN_VERIF_SKIP", skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        .current_dir(dir)
        .stdin(Stdio::null()).spawn().expect("spawn worker")
}

fn describe(prop: &Prop, tier: Tier, case: u64) -> String {
    let o = Command::new(std::env::current_exe().expect("exe"))
        .env("BURN_VERIF", "describe").env("BURN_VERIF_PROP", prop.id).env("BURN_VERIF_TIER", tier.name())
        .env("BURN_VERIF_CASE", case.to_string()).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("describe");
    String::from_utf8_lossy(&o.stdout).to_string()
}

fn run(prop: &Prop, tier: Tier) {
    let t0 = Instant::now();
    let seed: u64 = env("VERIF_SEED").parse().unwrap_or(1);
    let n: u64 = std::env::var("BURN_VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = format!("{}/out/run-{}-{}-{}", root(), prop.id, tier.name(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let stop = Shared::open(&format!("{}/stop.shm", dir), true);
    let shm: Vec<Shared> = (0..n).map(|i| Shared::open(&format!("{}/w{}.shm", dir, i), true)).collect();
    let mut known = known_findings(prop.id, "");
    known.extend(known_findings(prop.id, SITE));
    let exact: HashMap<String, String> = known_findings(prop.id, "").into_iter().collect();
    let mut ws: Vec<W> = (0..n).map(|i| W {
        child: spawn(prop, tier, &dir, i, n, &[]), me: i, last: (0, 0), since: Instant::now(), cpu0: 0, done: false, skip: vec![],
    }).collect();
    let mut fails: Vec<Fail> = vec![];
    let mut known_hit: Vec<Fail> = vec![];
    let mut broken = false;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut() {
            if w.done { continue; }
            let s = &shm[w.me as usize];
            let mut dead: Option<String> = None;
            match w.child.try_wait().expect("wait") {
                Some(st) if st.success() => { w.done = true; continue; }
                Some(st) => dead = Some(format!("the process ended abnormally: {}", st)),
                None => {
                    let cur = (s.get(0), s.get(1));
                    let cpu = sys::cpu_ticks(w.child.id());
                    if cur != w.last || cur.1 == 0 { w.last = cur; w.since = Instant::now(); w.cpu0 = cpu; }
                    else if cpu.saturating_sub(w.cpu0) > HANG_CPU_TICKS || w.since.elapsed() > HANG_WALL {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        dead = Some("does not terminate (no progress within the time limit)".to_string());
                    }
                }
            }
            if let Some(why) = dead {
                if s.get(1) == 0 { eprintln!("worker {} failed before its first case: {}", w.me, why); broken = true; w.done = true; continue; }
                let case = s.get(0);
                let key = one_line(&describe(prop, tier, case));
                let f = Fail { case, key: key.clone(), detail: why };
                if exact.contains_key(&key) { known_hit.push(f); }
                else { fails.push(f); stop.set(0, 1); }
                if fails.is_empty() && w.skip.len() < 64 {
                    w.skip.push(case);
                    s.set(1, 0);
                    w.child = spawn(prop, tier, &dir, w.me, n, &w.skip);
                    w.since = Instant::now();
                    w.last = (0, 0);
                } else { w.done = true; }
            }
        }
    }
    // collect
    let (mut total, mut executed, mut transitions, mut traces, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut states: Vec<u64> = vec![];
    for i in 0..n {
        let t = match std::fs::read_to_string(format!("{}/w{}.json", dir, i)) { Ok(t) => t, Err(_) => { if fails.is_empty() { broken = true; } continue; } };
        let j: serde_json::Value = serde_json::from_str(&t).expect("worker json");
        let u = |k: &str| j[k].as_u64().unwrap_or(0);
        if u("total") > total { total = u("total"); }
        executed += u("executed"); transitions += u("transitions"); traces += u("traces"); nontrivial += u("nontrivial");
        if let Some(m) = j["counts"].as_object() { for (k, v) in m { *counts.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0); } }
        for (k, dst) in [("fails", &mut fails), ("known", &mut known_hit)] {
            for f in j[k].as_array().cloned().unwrap_or_default() {
                dst.push(Fail { case: f["case"].as_u64().unwrap_or(0), key: one_line(f["key"].as_str().unwrap_or("")), detail: f["detail"].as_str().unwrap_or("").to_string() });
            }
        }
        if samples.len() < 8 { for s in j["samples"].as_array().cloned().unwrap_or_default().iter().take(2) { samples.push(s.as_str().unwrap_or("").to_string()); } }
        if let Ok(b) = std::fs::read(format!("{}/w{}.states", dir, i)) {
            for c in b.chunks_exact(8) { states.push(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])); }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    states.sort_unstable();
    states.dedup();
    if broken { eprintln!("check {}: a worker failed outside of any case", prop.id); std::process::exit(2); }
    if executed == 0 && fails.is_empty() { eprintln!("check {}: explored nothing", prop.id); std::process::exit(2); }
    fails.sort_by_key(|f| f.case);
    let complete = executed == total && fails.is_empty();
    let mut cov = serde_json::json!({
        "cases": executed,
        "samples": samples, "rule": prop.rule, "exhaustive": complete,
    });
    if prop.level == "model_checking" {
        cov["states"] = states.len().into();
        cov["transitions"] = transitions.into();
        cov["traces_validated_against_impl"] = traces.into();
    } else {
        cov["evaluations"] = transitions.into();
        cov["distinct_nontrivial"] = states.len().into();
    }
    for (k, v) in &counts { cov[k] = (*v).into(); }
    let ev = serde_json::json!({
        "property": prop.id, "tier": tier.name(), "seed": seed, "level": prop.level,
        "coverage": cov, "assumptions": prop.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0, "violations": fails.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), prop.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    println!("{} {}: {} cases, {} distinct states, {} transitions, {} traces replayed, {:.1} s",
        prop.id, tier.name(), executed, states.len(), transitions, traces, t0.elapsed().as_secs_f64());
    for (k, v) in &counts { println!("  {} = {}", k, v); }
    let mut said = BTreeSet::new();
    for f in &known_hit {
        if said.insert(f.key.clone()) {
            if std::env::var_os("BURN_VERIF_SHOW").is_some() { println!("attributed: case {} [{}]", f.case, f.key); continue; }
            println!("KNOWN-FINDING: property={} {} [{}]", prop.id, known.get(&f.key).cloned().unwrap_or_default(), f.key);
        }
    }
    for (i, f) in fails.iter().enumerate() {
        if i >= 3 { break; }
        let rdir = format!("{}/out/replay", root());
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{}-{}.json", rdir, prop.id, tier.name(), f.case);
        let j = serde_json::json!({"property": prop.id, "tier": tier.name(), "case": f.case, "key": f.key, "detail": f.detail});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").expect("replay");
        let d: String = f.detail.chars().take(3000).collect();
        println!("case {}: {}\n  {}", f.case, f.key.chars().take(1500).collect::<String>(), d.replace('\n', "\n  "));
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
