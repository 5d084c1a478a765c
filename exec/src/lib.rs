//! Common driver of the executable-contract harness: every contract is a Boolean
//! over the real code's inputs and outputs; a failed contract is recorded with the
//! concrete input so that it can be replayed.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub rng: Rng,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: BTreeMap<String, (u64, String, String)>,
    per: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn from_env(id: &str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            id: id.into(),
            seed,
            thorough,
            only: args.get(1).cloned(),
            rng: Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ 0x5bd1e995),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fails: BTreeMap::new(),
            per: BTreeMap::new(),
        }
    }
    /// Budget helper: quick / thorough number of random cases.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    /// True when `obligation` was selected on the command line (or nothing was selected).
    pub fn want(&self, obligation: &str) -> bool {
        self.only.as_deref().is_none_or(|o| obligation.starts_with(o))
    }
    fn note(&mut self, obl: &str, input: &str) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (obl, input).hash(&mut h);
        let new = self.distinct.insert(h.finish());
        let c = self.per.entry(obl.to_string()).or_insert(0);
        *c += 1;
        if new && (*c == 1 || *c == 17) && self.samples.len() < 60 {
            self.samples.push(format!("{obl}: {input}"));
        }
    }
    /// Evaluate one contract instance. `f` runs the real code; it returns Err(reason)
    /// when the contract is violated. A panic is a violation too.
    pub fn case(&mut self, obl: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> Result<(), String>) {
        let input = input();
        self.note(obl, &input);
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(format!("panicked: {m}"))
            }
        };
        if let Err(why) = r {
            let e = self.fails.entry(obl.to_string()).or_insert((0, input, why));
            e.0 += 1;
        }
    }
    /// Bulk counting for inner exhaustive loops (counted, not individually hashed).
    pub fn count(&mut self, obl: &str, n: u64) {
        self.evals += n;
        *self.per.entry(obl.to_string()).or_insert(0) += n;
    }
    pub fn finish(self) -> ! {
        let out = serde_json::json!({
            "property": self.id,
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "per_obligation": self.per,
            "samples": self.samples,
            "failures": self.fails.iter().map(|(k,(n,i,w))| serde_json::json!({"obligation":k,"count":n,"input":i,"why":w})).collect::<Vec<_>>(),
        });
        println!("{out}");
        std::process::exit(if self.fails.is_empty() { 0 } else { 3 })
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub mod flow;
pub mod generators;
pub mod graphs;
pub mod keys;
pub mod reference;
