//! Verdicts, evidence and replay files.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    pub part: String,
    pub case: u64,
    pub sig: String,
    pub detail: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub level: &'static str,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    inconclusive: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    pub stop: AtomicBool,
    out_dir: String,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, only: Option<(String, u64)>, dir: &str) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{dir}/known_findings.txt")) {
            for l in t.lines() {
                // known: property=C18 sig=<signature> <text>
                if let Some(r) = l.strip_prefix("known: ") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                    let s = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                    if p == id { known.push((s, it.next().unwrap_or("").to_string())); }
                }
            }
        }
        Ctx {
            id: id.into(), thorough, seed, only, start: Instant::now(), level: "exploration",
            rule: Mutex::new(String::new()), assumptions: Mutex::new(vec![]),
            evals: AtomicU64::new(0), distinct: Mutex::new(HashSet::new()), counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]), violations: Mutex::new(vec![]), inconclusive: Mutex::new(vec![]),
            known, known_hit: Mutex::new(BTreeMap::new()), stop: AtomicBool::new(false),
            out_dir: format!("{dir}/evidence"),
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn elapsed(&self) -> Duration { self.start.elapsed() }
    pub fn rule(&self, s: &str) { let mut r = self.rule.lock().unwrap(); if !r.is_empty() { r.push_str(" | "); } r.push_str(s); }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn eval(&self) { self.evals.fetch_add(1, SeqCst); }
    pub fn evals(&self) -> u64 { self.evals.load(SeqCst) }
    /// Record a non-trivial case by a digest of what was observed.
    pub fn distinct<T: Hash>(&self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.distinct.lock().unwrap().insert(h.finish());
    }
    pub fn count(&self, k: &str, n: u64) { *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n; }
    pub fn counter(&self, k: &str) -> u64 { *self.counters.lock().unwrap().get(k).unwrap_or(&0) }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 { let mut t = f(); if t.len() > 600 { let mut e = 600; while !t.is_char_boundary(e) { e -= 1; } t.truncate(e); t.push_str("..."); } s.push(t); }
    }
    pub fn inconclusive(&self, s: String) {
        let mut v = self.inconclusive.lock().unwrap();
        eprintln!("inconclusive: {s}");
        v.push(s);
    }
    pub fn violation(&self, part: &str, case: u64, sig: &str, detail: String) {
        if let Some((s, t)) = self.known.iter().find(|(s, _)| s == sig) {
            self.known_hit.lock().unwrap().entry(s.clone()).or_insert(t.clone());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            eprintln!("violation {} {}#{} [{}] {}", self.id, part, case, sig, detail.chars().take(1500).collect::<String>());
        }
        v.push(Violation { part: part.into(), case, sig: sig.into(), detail });
        if v.len() >= std::env::var("VP_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(40) { self.stop.store(true, SeqCst); }
    }
    pub fn n_violations(&self) -> usize { self.violations.lock().unwrap().len() }
    pub fn stopped(&self) -> bool { self.stop.load(SeqCst) }
    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let dir = &self.out_dir;
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let mut replay = String::new();
        if let Some(f) = v.first() {
            replay = format!("{dir}/replay/{}-{}-{}.txt", self.id, self.seed, f.case);
            let mut t = format!("property {}\nseed {}\nrerun: VERIF_SEED={} bash /verif/check.sh {} {} --case {}:{}\n\n", self.id, self.seed, self.seed, self.id, if self.thorough { "thorough" } else { "quick" }, f.part, f.case);
            for x in v.iter().take(std::env::var("VP_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(20)) {
                t.push_str(&format!("== {}#{} [{}]\n{}\n\n", x.part, x.case, x.sig, x.detail));
            }
            let _ = std::fs::write(&replay, t);
        }
        let cnt = self.counters.lock().unwrap();
        let obs = cnt.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        let samples = self.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let ass = self.assumptions.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let inc = self.inconclusive.lock().unwrap();
        let ev = format!("{{\n \"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"{}\", \"observed\": {{{}}}, \"inconclusive\": {}, \"known_findings_seen\": {}, \"samples\": [{}]}},\n \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
            self.id, if self.thorough { "thorough" } else { "quick" }, self.seed, self.level,
            self.evals(), self.distinct.lock().unwrap().len(), esc(&self.rule.lock().unwrap()), obs, inc.len(), self.known_hit.lock().unwrap().len(), samples, ass, self.elapsed().as_secs_f64(), v.len());
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), ev) { eprintln!("evidence: {e}"); return 3; }
        for (_, t) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, t);
        }
        println!("{}: {} evaluations, {} distinct, {} violations, {} inconclusive, {:.1}s", self.id, self.evals(), self.distinct.lock().unwrap().len(), v.len(), inc.len(), self.elapsed().as_secs_f64());
        if !v.is_empty() {
            println!("VIOLATION property={} replay={}", self.id, replay);
            return 1;
        }
        if self.only.is_none() && self.evals() == 0 { eprintln!("nothing was observed"); return 3; }
        if !inc.is_empty() && inc.len() as u64 * 5 > self.evals() { eprintln!("too many inconclusive cases"); return 4; }
        0
    }
}
