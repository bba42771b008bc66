use serde_json::json;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rules: Vec<String>,
    violations: Vec<serde_json::Value>,
    exhaustive: Vec<String>,
    cap: usize,
    start: std::time::Instant,
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03 | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift64*
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What runs at the moment, and since when.
static CURRENT: Mutex<Option<(String, String, Instant)>> = Mutex::new(None);
/// A case that runs longer than this does not end.
const LIMIT: Duration = Duration::from_secs(150);

/// Reports a case that does not end, with its input.
fn watch(prop: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(5));
        if let Some((what, input, since)) = &*CURRENT.lock().unwrap() {
            if since.elapsed() > LIMIT {
                let v = json!({"what": what, "input": input, "observed": format!("does not end within {} s", LIMIT.as_secs())});
                println!("{}", json!({"property": prop, "evaluations": 1, "distinct_nontrivial": 1, "rule": "ended by the watchdog", "exhaustive_over": [],
                    "samples": [format!("{what}: {input}")], "violations": [v], "wall_s": LIMIT.as_secs_f64()}));
                std::process::exit(0);
            }
        }
    });
}

impl Run {
    pub fn new(prop: &str, tier: &str, seed: u64) -> Run {
        watch(prop.to_string());
        Run {
            prop: prop.to_string(),
            thorough: tier == "thorough",
            rng: Rng::new(seed),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            rules: vec![],
            violations: vec![],
            exhaustive: vec![],
            // Several violations are collected to report the shortest inputs.
            cap: 40,
            start: std::time::Instant::now(),
        }
    }

    /// Number of seeded iterations for this tier.
    pub fn iters(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 60
        } else {
            quick * 6
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }

    #[allow(dead_code)]
    pub fn exhausted(&mut self, what: &str) {
        self.exhaustive.push(what.to_string());
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= self.cap
    }

    /// Evaluate one case.  `nontrivial` marks cases counted in distinct_nontrivial.  The closure
    /// returns Err(description) when the property is broken; a panic is a violation, too.
    pub fn case<F>(&mut self, what: &str, input: &str, nontrivial: bool, f: F)
    where
        F: FnOnce() -> Result<(), String>,
    {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            let new = self.distinct.insert(hash_of(&(what, input)));
            if new && self.samples.len() < 12 && self.distinct.len() % 97 == 1 {
                self.samples.push(format!("{what}: {input}"));
            }
        }
        if self.full() {
            return;
        }
        *CURRENT.lock().unwrap() = Some((what.to_string(), input.to_string(), Instant::now()));
        let res = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        let res = match res {
            Ok(r) => r,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err(format!("panicked: {msg}"))
            }
        };
        if let Err(e) = res {
            self.violations
                .push(json!({"what": what, "input": input, "observed": e}));
        }
    }

    pub fn finish(&mut self) {
        self.violations.sort_by_key(|v| v["input"].as_str().map_or(0, str::len));
        let out = json!({
            "property": self.prop,
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rules.join("; "),
            "exhaustive_over": self.exhaustive,
            "samples": self.samples,
            "violations": self.violations.iter().take(40).collect::<Vec<_>>(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        println!("{out}");
    }
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}

/// All strings over `alphabet` with at most `max` characters, shortest first.
pub fn all_strings(alphabet: &[&str], max: usize, f: &mut dyn FnMut(&str)) {
    let mut idx: Vec<usize> = vec![];
    loop {
        let s: String = idx.iter().map(|i| alphabet[*i]).collect();
        f(&s);
        // increment
        let mut k = idx.len();
        loop {
            if k == 0 {
                idx = vec![0; idx.len() + 1];
                break;
            }
            k -= 1;
            if idx[k] + 1 < alphabet.len() {
                idx[k] += 1;
                for x in idx.iter_mut().skip(k + 1) {
                    *x = 0;
                }
                break;
            }
        }
        if idx.len() > max {
            return;
        }
    }
}
