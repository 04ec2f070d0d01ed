//! A small deterministic driver around proptest.
//!
//! * every case is a pure function of (VERIF_SEED, property, case index), so the work can be sharded over
//!   worker processes and a failing case can be regenerated and shrunk by the parent process;
//! * the code under test only ever runs in child processes: a panic, a crash by signal (stack overflow, abort)
//!   a runaway allocation (a deterministic byte budget, see `alloc`) and using up far more processor time than any
//!   case needs are failures of the case, while a worker which waits or is killed is an error of the check (exit 2);
//! * failures are shrunk (each candidate in its own child) and written as a replay file.

pub mod alloc;
pub mod f;
pub mod exact;
pub mod gen;
mod run;

pub use f::F;
pub use run::main;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// What a single case reports besides pass/fail.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    /// Number of sub-checks which were skipped because the case hit a known finding.
    pub excluded: u64,
    /// Set while a known finding is being demonstrated: nothing is excluded then.
    pub demonstrate: bool,
}

impl Ctx {
    pub fn label(&mut self, class: impl Into<String>) {
        *self.classes.entry(class.into()).or_default() += 1;
    }
    pub fn label_if(&mut self, cond: bool, class: &str) {
        if cond {
            self.label(class);
        }
    }
    /// Whether to skip a sub-check because `hit` says that this input is exactly a known finding.
    pub fn exclude(&mut self, hit: bool) -> bool {
        if hit && !self.demonstrate {
            self.excluded += 1;
            self.label("excluded: known finding");
            return true;
        }
        false
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        if cond {
            self.nontrivial = true;
        }
    }
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err(format!($($arg)+));
        }
    };
}

pub trait Tree {
    fn current(&self) -> Value;
    fn simplify(&mut self) -> bool;
    fn complicate(&mut self) -> bool;
}

struct TypedTree<C>(Box<dyn ValueTree<Value = C>>);

impl<C: Serialize + Debug> Tree for TypedTree<C> {
    fn current(&self) -> Value {
        serde_json::to_value(self.0.current()).expect("case serializes")
    }
    fn simplify(&mut self) -> bool {
        self.0.simplify()
    }
    fn complicate(&mut self) -> bool {
        self.0.complicate()
    }
}

pub trait DynCase {
    fn tree(&self, runner: &mut TestRunner) -> Box<dyn Tree>;
    /// Generates a case and evaluates it; the JSON text is only produced when asked for.
    fn generate_and_check(
        &self,
        runner: &mut TestRunner,
        ctx: &mut Ctx,
        before: &mut dyn FnMut(&dyn Fn() -> Value),
    ) -> (CheckResult, String);
    fn check_json(&self, case: &Value, ctx: &mut Ctx) -> CheckResult;
    fn fixed(&self) -> Vec<Value>;
}

struct Typed<C: 'static> {
    strategy: BoxedStrategy<C>,
    check: fn(&C, &mut Ctx) -> CheckResult,
    fixed: Vec<C>,
}

impl<C: Serialize + DeserializeOwned + Debug + 'static> DynCase for Typed<C> {
    fn tree(&self, runner: &mut TestRunner) -> Box<dyn Tree> {
        Box::new(TypedTree(Box::new(
            self.strategy.new_tree(runner).expect("strategy generates"),
        )
            as Box<dyn ValueTree<Value = C>>))
    }

    fn generate_and_check(
        &self,
        runner: &mut TestRunner,
        ctx: &mut Ctx,
        before: &mut dyn FnMut(&dyn Fn() -> Value),
    ) -> (CheckResult, String) {
        let case = self
            .strategy
            .new_tree(runner)
            .expect("strategy generates")
            .current();
        before(&|| serde_json::to_value(&case).expect("case serializes"));
        let res = run::guarded(|| (self.check)(&case, ctx));
        let text = if ctx.nontrivial {
            serde_json::to_string(&case).expect("case serializes")
        } else {
            String::new()
        };
        (res, text)
    }

    fn check_json(&self, case: &Value, ctx: &mut Ctx) -> CheckResult {
        let case: C = serde_json::from_value(case.clone()).expect("case deserializes");
        run::guarded(|| (self.check)(&case, ctx))
    }

    fn fixed(&self) -> Vec<Value> {
        self.fixed
            .iter()
            .map(|c| serde_json::to_value(c).expect("case serializes"))
            .collect()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: Box<dyn DynCase>,
    /// Refuses to report success when fewer than this share of the cases is non-trivial (vacuity guard).
    pub min_nontrivial: f64,
}

impl Prop {
    pub fn new<C, S>(
        id: &'static str,
        quick: u64,
        thorough: u64,
        rule: &'static str,
        strategy: S,
        check: fn(&C, &mut Ctx) -> CheckResult,
    ) -> Self
    where
        C: Serialize + DeserializeOwned + Debug + 'static,
        S: Strategy<Value = C> + 'static,
    {
        Self::with_fixed(id, quick, thorough, rule, strategy, check, Vec::new())
    }

    pub fn with_fixed<C, S>(
        id: &'static str,
        quick: u64,
        thorough: u64,
        rule: &'static str,
        strategy: S,
        check: fn(&C, &mut Ctx) -> CheckResult,
        fixed: Vec<C>,
    ) -> Self
    where
        C: Serialize + DeserializeOwned + Debug + 'static,
        S: Strategy<Value = C> + 'static,
    {
        Prop {
            id,
            quick,
            thorough,
            rule,
            assumptions: &[],
            case: Box::new(Typed {
                strategy: strategy.boxed(),
                check,
                fixed,
            }),
            min_nontrivial: 0.3,
        }
    }

    pub fn assuming(mut self, assumptions: &'static [&'static str]) -> Self {
        self.assumptions = assumptions;
        self
    }

    pub fn min_nontrivial(mut self, share: f64) -> Self {
        self.min_nontrivial = share;
        self
    }
}

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;
