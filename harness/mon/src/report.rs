//! Collects what the monitors observed; runs cases on several threads.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_VIOLATIONS: usize = 4;
/// Kinds that known-findings.txt lists as open: the stage goes on.
pub const RECORDED: &[&str] = &["rewritten-in-place"];
pub const MAX_INCONCLUSIVE: usize = 6;

#[derive(Default)]
struct Inner {
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    violations: Vec<Value>,
    inconclusive: Vec<String>,
    rules: Vec<String>,
}

pub struct Reporter {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub work: PathBuf,
    pub replay: PathBuf,
    pub start: Instant,
    pub budget: Duration,
    pub threads: usize,
    /// Where the report goes; also written now and then, and after violations.
    pub out: Option<PathBuf>,
    flushed: Mutex<Instant>,
    first_violation: Mutex<Option<Instant>>,
    evals: AtomicU64,
    stop: AtomicBool,
    inner: Mutex<Inner>,
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Reporter {
    pub fn new(prop: &str, seed: u64, thorough: bool, work: PathBuf, replay: PathBuf, budget: u64) -> Reporter {
        std::fs::create_dir_all(&work).unwrap();
        Reporter {
            prop: prop.to_string(),
            seed,
            thorough,
            work,
            replay,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            threads: 8,
            out: None,
            flushed: Mutex::new(Instant::now()),
            first_violation: Mutex::new(None),
            evals: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            inner: Mutex::new(Inner::default()),
        }
    }

    pub fn rule(&self, r: &str) {
        let mut i = self.inner.lock().unwrap();
        if !i.rules.iter().any(|x| x == r) {
            i.rules.push(r.to_string());
        }
    }

    /// One execution was judged. `key` identifies the case; it counts as
    /// distinct and non-trivial only if `nontrivial`.
    pub fn case<T: Hash>(&self, key: &T, nontrivial: bool, sample: impl FnOnce() -> String) {
        let n = self.evals.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let h = hash_of(key);
            let mut i = self.inner.lock().unwrap();
            if i.distinct.insert(h) && (i.samples.len() < 3 || (n % 64 == 0 && i.samples.len() < 8)) {
                i.samples.push(sample());
            }
        }
        let due = self.flushed.try_lock().map_or(false, |t| t.elapsed() > Duration::from_secs(5));
        if due {
            self.flush();
        }
    }

    /// Writes the report as it is now.
    pub fn flush(&self) {
        if let Some(out) = &self.out {
            let mut t = self.flushed.lock().unwrap();
            let tmp = out.with_extension("part");
            if std::fs::write(&tmp, self.to_json().to_string()).is_ok() {
                let _ = std::fs::rename(&tmp, out);
            }
            *t = Instant::now();
        }
    }

    /// Runs the stage and writes the report; the other cases under way get some
    /// time to end after the first violation, but do not hold it up for ever.
    pub fn supervise(&self, stage: impl FnOnce() + Send) {
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            s.spawn(|| {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let late = self.first_violation.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(30));
                    if late {
                        self.flush();
                        std::process::exit(0);
                    }
                }
            });
            let set = Done(&done);
            stage();
            drop(set);
        });
        self.flush();
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }

    /// Counts distinct values seen under a name.
    pub fn see<T: Hash>(&self, name: &str, v: &T) {
        let h = hash_of(v);
        self.inner.lock().unwrap().sets.entry(name.to_string()).or_default().insert(h);
    }

    pub fn inconclusive(&self, what: String) {
        let mut i = self.inner.lock().unwrap();
        i.inconclusive.push(what);
        if i.inconclusive.len() >= MAX_INCONCLUSIVE {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    /// Keeps the files of a run that gave no verdict.
    pub fn keep(&self, detail: &str, files: &[(&str, &[u8])]) {
        let n = self.inner.lock().unwrap().inconclusive.len();
        let dir = self.replay.join(format!("inconclusive-{}", n));
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join("detail.txt"), detail);
        for (name, data) in files {
            let _ = std::fs::write(dir.join(name), data);
        }
    }

    pub fn violation(&self, kind: &str, detail: &str, files: &[(&str, &[u8])]) {
        let mut i = self.inner.lock().unwrap();
        if i.violations.len() >= MAX_VIOLATIONS {
            return;
        }
        let n = i.violations.len();
        let dir = self.replay.join(format!("{}-{}", kind, n));
        let _ = std::fs::create_dir_all(&dir);
        let mut text = format!("property {}\nkind {}\nVERIF_SEED={}\n{}\n", self.prop, kind, self.seed, detail);
        for (name, data) in files {
            if data.len() <= 4 << 20 {
                let _ = std::fs::write(dir.join(name), data);
            } else {
                text.push_str(&format!("({} left out, {} bytes)\n", name, data.len()));
            }
        }
        let _ = std::fs::write(dir.join("violation.txt"), &text);
        i.violations.push(json!({"kind": kind, "detail": detail, "replay": dir.to_string_lossy()}));
        if i.violations.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::SeqCst);
        }
        drop(i);
        if !RECORDED.contains(&kind) {
            self.first_violation.lock().unwrap().get_or_insert_with(Instant::now);
        }
        self.flush();
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }

    pub fn n_violations(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }

    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// Runs case(idx, rng, workdir) for idx in 0..max on all threads until the
    /// share of the time budget is used up.
    pub fn run(&self, stream: &str, max: u64, share: f64, case: impl Fn(u64, &mut Rng, &Path) + Sync) {
        let t0 = Instant::now();
        let limit = self.budget.mul_f64(share);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let next = &next;
                let case = &case;
                let dir = self.work.join(format!("{}-t{}", stream, t));
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= max || self.stopped() || t0.elapsed() > limit {
                            break;
                        }
                        let mut rng = Rng::new(self.seed, &format!("{}/{}", self.prop, stream), idx);
                        let _ = std::fs::remove_dir_all(&dir);
                        std::fs::create_dir_all(&dir).unwrap();
                        case(idx, &mut rng, &dir);
                        let _ = std::fs::remove_dir_all(&dir);
                    })
                    .unwrap();
            }
        });
        self.count(&format!("cases run: {}", stream), next.load(Ordering::Relaxed).min(max));
    }

    pub fn to_json(&self) -> Value {
        let i = self.inner.lock().unwrap();
        let mut counters = Map::new();
        for (k, v) in &i.counters {
            counters.insert(k.clone(), json!(v));
        }
        for (k, v) in &i.sets {
            counters.insert(format!("distinct {}", k), json!(v.len()));
        }
        json!({
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct_nontrivial": i.distinct.len(),
            "rule": i.rules.join(" | "),
            "samples": i.samples,
            "observed": counters,
            "violations": i.violations,
            "inconclusive": i.inconclusive,
        })
    }
}

/// Set even if the stage panics.
struct Done<'a>(&'a AtomicBool);

impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.store(true, Ordering::SeqCst);
    }
}
