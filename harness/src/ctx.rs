//! One run of a suite: sharded trace output, counters, samples, violations
//! seen by the recorder itself (panics, hangs, broken bounds), and a watchdog.

use crate::json;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::fs::{self, File};
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Shared {
    start: Instant,
    /// per worker: (ms since start when the case began, 0 = idle)
    slots: Vec<(AtomicU64, Mutex<String>)>,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub dir: String,
    shards: Vec<(BufWriter<File>, u64, usize)>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    distinct: HashSet<u64>,
    pub shared: Arc<Shared>,
}

pub const WORKERS: usize = 8;

impl Ctx {
    pub fn new(dir: &str, seed: u64, thorough: bool, nshards: usize) -> Self {
        fs::create_dir_all(dir).unwrap();
        let shards = (0..nshards)
            .map(|k| (BufWriter::with_capacity(1 << 20, File::create(format!("{dir}/shard{k}.ndjson")).unwrap()), 0, 0))
            .collect();
        let shared = Arc::new(Shared {
            start: Instant::now(),
            slots: (0..WORKERS).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect(),
        });
        let limit: u64 = std::env::var("RQV_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
        let sh = shared.clone();
        let d = dir.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = sh.start.elapsed().as_millis() as u64;
            for (t, what) in &sh.slots {
                let t0 = t.load(Ordering::SeqCst);
                if t0 != 0 && now > t0 + limit * 1000 {
                    let w = what.lock().map(|g| g.clone()).unwrap_or_default();
                    let _ = fs::write(format!("{d}/hang.json"), &w);
                    eprintln!("HANG {w}");
                    std::process::exit(7);
                }
            }
        });
        Ctx {
            seed,
            thorough,
            dir: dir.to_string(),
            shards,
            counts: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            distinct: HashSet::new(),
            shared,
        }
    }

    /// quick / thorough amount
    pub fn amount(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    /// Append a trace record to the least loaded shard.
    pub fn emit(&mut self, line: &str, cost: u64) {
        let k = (0..self.shards.len()).min_by_key(|&k| self.shards[k].1).unwrap();
        let s = &mut self.shards[k];
        s.0.write_all(line.as_bytes()).unwrap();
        s.0.write_all(b"\n").unwrap();
        s.1 += cost;
        s.2 += 1;
        *self.counts.entry("traces".into()).or_default() += 1;
    }

    /// Keep related records (sharing tables) in the same shard.
    pub fn emit_to(&mut self, shard: usize, line: &str, cost: u64) {
        let n = self.shards.len();
        let s = &mut self.shards[shard % n];
        s.0.write_all(line.as_bytes()).unwrap();
        s.0.write_all(b"\n").unwrap();
        s.1 += cost;
        s.2 += 1;
        *self.counts.entry("traces".into()).or_default() += 1;
    }

    pub fn nshards(&self) -> usize {
        self.shards.len()
    }

    pub fn count(&mut self, key: &str, n: u64) {
        *self.counts.entry(key.into()).or_default() += n;
    }

    /// Count an evaluation; `key` identifies the case, to count distinct ones.
    pub fn eval(&mut self, h: u64) {
        self.count("evaluations", 1);
        self.distinct.insert(h);
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 6 {
            self.samples.push(s);
        }
    }

    /// A violation established by the recorder; `detail` is a JSON object.
    pub fn violation(&mut self, what: &str, detail: String) {
        if self.violations.len() < 50 {
            self.violations.push(format!("{{\"what\":{},\"detail\":{}}}", json::string(what), detail));
        }
    }

    pub fn begin(&self, worker: usize, what: impl FnOnce() -> String) {
        let slot = &self.shared.slots[worker % WORKERS];
        *slot.1.lock().unwrap() = what();
        slot.0.store((self.shared.start.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
    }
    pub fn end(&self, worker: usize) {
        self.shared.slots[worker % WORKERS].0.store(0, Ordering::SeqCst);
    }

    pub fn finish(mut self) {
        let mut per = vec![];
        for s in &mut self.shards {
            s.0.flush().unwrap();
            per.push(s.2.to_string());
        }
        let d = self.distinct.len() as u64;
        if d > 0 {
            self.counts.insert("distinct".into(), d);
        }
        let counts: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", json::string(k), v)).collect();
        let out = format!(
            "{{\"counts\":{{{}}},\"shards\":{},\"samples\":{},\"violations\":{}}}\n",
            counts.join(","),
            json::list(&per),
            json::list(&self.samples),
            json::list(&self.violations)
        );
        fs::write(format!("{}/summary.json", self.dir), out).unwrap();
    }
}

/// Run `f(k)` for k in 0..n on all cores; results in order.
pub fn par<T: Send, F: Fn(usize, usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (next, out, f) = (&next, &out, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= n {
                        break;
                    }
                    let r = f(w, k);
                    out.lock().unwrap().push((k, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    let b: BuildHasherDefault<std::collections::hash_map::DefaultHasher> = Default::default();
    b.hash_one(t)
}
