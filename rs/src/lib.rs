//! What every library check shares: seeded proptest runs, counters, evidence and violations.
use proptest::test_runner::{Config, RngAlgorithm, TestError, TestRng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use proptest;
pub use proptest::prelude::*;
use proptest::test_runner::TestRunner;

pub struct Case<'a>(&'a RefCell<State>);

#[derive(Default)]
struct State {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    per_test: BTreeMap<String, u64>,
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Case<'_> {
    /// This case is not trivial, and is told apart from others by `key`.
    pub fn note(&self, key: impl std::fmt::Display) {
        self.0.borrow_mut().nontrivial.insert(hash(&key.to_string()));
    }
    pub fn class(&self, name: &str) {
        *self.0.borrow_mut().classes.entry(name.to_string()).or_insert(0) += 1;
    }
}

pub struct Suite {
    seed: u64,
    thorough: bool,
    only: Option<String>,
    rule: String,
    state: RefCell<State>,
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => { match (&$a, &$b) { (a, b) => if a != b {
        return Err(format!("{}: got {:?}, want {:?}", format!($($t)*), a, b)); } } };
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Runs `f`; a panic becomes Err with its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

impl Suite {
    pub fn new(rule: &str) -> Self {
        let env = |k: &str| std::env::var(k).ok();
        std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
        Suite {
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            only: env("PBT_ONLY"),
            rule: rule.into(),
            state: Default::default(),
        }
    }

    pub fn thorough(&self) -> bool { self.thorough }

    /// Checks `f` on `quick` (or `thorough`) generated values; shrinks the first failure and exits.
    pub fn run<S: Strategy>(&mut self, name: &str, quick: u32, thorough: u32, strategy: S, f: impl Fn(&Case, S::Value) -> Res)
    where S::Value: std::fmt::Debug + Clone {
        if self.only.as_ref().is_some_and(|o| o != name) { return; }
        let cases = if self.thorough { thorough } else { quick };
        self.journal(name);
        let config = Config { cases, failure_persistence: None, max_shrink_iters: 20_000, max_shrink_time: 60_000, max_global_rejects: 1_000_000, max_local_rejects: 1_000_000, ..Config::default() };
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&self.seed.to_le_bytes());
        seed[8..16].copy_from_slice(&hash(name).to_le_bytes());
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let st = &self.state;
        let n = RefCell::new(0u64);
        let last = RefCell::new(String::new());
        let r = runner.run(&strategy, |v| {
            *n.borrow_mut() += 1;
            let k = *n.borrow();
            if k % (cases as u64 / 3 + 1) == 1 {
                let mut d = format!("{v:?}"); 
                if d.len() > 600 { let mut e = 600; while !d.is_char_boundary(e) { e -= 1; } d.truncate(e); d.push('…'); }
                st.borrow_mut().samples.push(serde_json::json!({"test": name, "case": d}));
            }
            st.borrow_mut().evals += 1;
            let c = Case(st);
            match catch_unwind(AssertUnwindSafe(|| f(&c, v))) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => { *last.borrow_mut() = e.clone(); Err(TestCaseError::fail(e)) }
                Err(_) => { let e = PANIC.with(|p| p.borrow().clone()); *last.borrow_mut() = e.clone(); Err(TestCaseError::fail(format!("panic: {e}"))) }
            }
        });
        st.borrow_mut().per_test.insert(name.into(), *n.borrow());
        match r {
            Ok(()) => {}
            Err(TestError::Fail(why, v)) => self.violation(name, &why.to_string(), &format!("{v:?}")),
            Err(TestError::Abort(why)) => { eprintln!("{name}: generation aborted: {why}"); std::process::exit(3) }
        }
    }

    /// Checks that a fixed enumeration holds.
    pub fn all<T: std::fmt::Debug>(&mut self, name: &str, it: impl IntoIterator<Item = T>, f: impl Fn(&Case, &T) -> Res) {
        if self.only.as_ref().is_some_and(|o| o != name) { return; }
        let mut n = 0;
        self.journal(name);
        for v in it {
            n += 1;
            self.state.borrow_mut().evals += 1;
            let r = match catch_unwind(AssertUnwindSafe(|| f(&Case(&self.state), &v))) {
                Ok(r) => r,
                Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
            };
            if let Err(e) = r { self.violation(name, &e, &format!("{v:?}")) }
        }
        self.state.borrow_mut().per_test.insert(name.into(), n);
    }

    /// Leaves behind which test was running, for when the process does not survive it.
    fn journal(&self, name: &str) {
        if let Ok(p) = std::env::var("PBT_JOURNAL") { let _ = std::fs::write(p, serde_json::json!({"test": name}).to_string()); }
    }

    fn out(&self, violation: Option<serde_json::Value>) {
        let st = self.state.borrow();
        let j = serde_json::json!({"evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(), "rule": self.rule,
            "samples": st.samples, "classes": st.classes, "per_test": st.per_test, "violation": violation});
        match std::env::var("PBT_OUT") { Ok(p) => std::fs::write(p, j.to_string()).unwrap(), Err(_) => println!("{j:#}") }
    }

    fn violation(&self, name: &str, why: &str, case: &str) -> ! {
        self.out(Some(serde_json::json!({"test": name, "why": why, "case": case, "seed": self.seed})));
        std::process::exit(1)
    }

    pub fn finish(self) { self.out(None) }
}
