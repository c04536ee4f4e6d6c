//! Executable contracts: deterministic random generation, failure collection, report.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
}

pub struct Run {
    pub rng: Rng,
    pub thorough: bool,
    pub evaluations: u64,
    pub distinct: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String, String)>,
    pub rule: String,
    fail_ids: BTreeSet<String>,
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Run {
    pub fn new(seed: u64, thorough: bool) -> Run {
        Run {
            rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D)),
            thorough,
            evaluations: 0,
            distinct: BTreeSet::new(),
            samples: vec![],
            failures: vec![],
            rule: String::new(),
            fail_ids: BTreeSet::new(),
        }
    }
    pub fn scale(&self, quick: usize) -> usize {
        if self.thorough { quick * 12 } else { quick }
    }
    /// one evaluated case; `nontrivial` cases are counted by distinct description
    pub fn case(&mut self, desc: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let n = self.distinct.len();
            self.distinct.insert(hash(desc));
            if self.distinct.len() > n && self.samples.len() < 5 && (n % 7 == 0) {
                self.samples.push(desc.chars().take(400).collect());
            }
        }
    }
    /// a broken contract: `id` names the clause, `input` the concrete failing input
    pub fn fail(&mut self, id: &str, what: String, input: String) {
        if self.fail_ids.insert(id.to_string()) && self.failures.len() < 40 {
            self.failures.push((id.to_string(), what, input.chars().take(20000).collect()));
        }
    }
    pub fn check(&mut self, id: &str, ok: bool, what: impl FnOnce() -> String, input: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(id, what(), input());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, id: &str, got: T, want: T, input: impl FnOnce() -> String) -> bool {
        if got != want {
            self.fail(id, format!("got {:.600} want {:.600}", format!("{got:?}"), format!("{want:?}")), input());
            false
        } else {
            true
        }
    }
    pub fn report(&self) {
        let v = serde_json::json!({
            "ivh": 1,
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "failures": self.failures.iter().map(|(a, b, c)| serde_json::json!({"id": a, "what": b, "input": c})).collect::<Vec<_>>(),
        });
        // key order: make "ivh" first for the runner
        let mut s = v.to_string();
        if !s.starts_with("{\"ivh\"") {
            s = format!("{{\"ivh\":1,{}", &s[1..]);
        }
        println!("{s}");
    }
}

/// runs code under test; a panic is returned as Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub const CORPUS: &[(&str, &str)] = &[
    ("v4-erc20", include_str!("../corpus/v4__erc20.rs")),
    ("v4-psp22-extension", include_str!("../corpus/v4__psp22-extension.rs")),
    ("v4-enum", include_str!("../corpus/v4__storage_items__complex_non_packed_enum.rs")),
    ("v4-struct", include_str!("../corpus/v4__storage_items__complex_non_packed_struct.rs")),
    ("v4-default-key", include_str!("../corpus/v4__storage_items__default_storage_key_1.rs")),
    ("v4-tuple", include_str!("../corpus/v4__storage_items__non_packed_tuple_struct.rs")),
    ("v4-trait-erc20", include_str!("../corpus/v4__trait-erc20.rs")),
    ("v4-flipper", include_str!("../corpus/v4__workspace-contracts__flipper.rs")),
    ("v4-incrementer", include_str!("../corpus/v4__workspace-contracts__incrementer.rs")),
    ("v5-combined-extension", include_str!("../corpus/v5__combined-extension.rs")),
    ("v5-e2e", include_str!("../corpus/v5__e2e-runtime-only-backend.rs")),
    ("v5-erc20", include_str!("../corpus/v5__erc20.rs")),
    ("v5-events", include_str!("../corpus/v5__events.rs")),
    ("v5-event-def", include_str!("../corpus/v5__events__event-def__src.rs")),
    ("v5-event-def2", include_str!("../corpus/v5__events__event-def2__src.rs")),
    ("v5-psp22-extension", include_str!("../corpus/v5__psp22-extension.rs")),
    ("v5-rand-extension", include_str!("../corpus/v5__rand-extension.rs")),
    ("v5-struct", include_str!("../corpus/v5__storage_items__complex_non_packed_struct.rs")),
    ("v5-trait-erc20", include_str!("../corpus/v5__trait-erc20.rs")),
    ("v5-wildcard", include_str!("../corpus/v5__wildcard-selector.rs")),
    ("v5-flipper", include_str!("../corpus/v5__workspace-contracts__flipper.rs")),
    ("v5-incrementer", include_str!("../corpus/v5__workspace-contracts__incrementer.rs")),
];
