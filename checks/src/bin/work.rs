//! P30: how much work a query is.
use mapping_algorithms::kd_tree::KDTree;
use nalgebra::Point;
use num_traits::{Bounded, Num, One, Zero};
use pbt_checks::*;
use pbt_engine::F;
use proptest::prelude::*;
use rand::{rngs::SmallRng, Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });

fn work() {
    WORK.with(|w| w.set(w.get() + 1));
}

/// A number which counts what is done with it.
#[derive(Clone, Copy, Debug, Default)]
struct Counted(f64);

impl PartialEq for Counted {
    fn eq(&self, other: &Self) -> bool {
        work();
        self.0 == other.0
    }
}

impl PartialOrd for Counted {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        work();
        self.0.partial_cmp(&other.0)
    }
}

macro_rules! counted_op {
    ($($op:ident $f:ident $assign:ident $g:ident),*) => {$(
        impl $op for Counted {
            type Output = Counted;
            fn $f(self, other: Counted) -> Counted {
                work();
                Counted($op::$f(self.0, other.0))
            }
        }
        impl $assign for Counted {
            fn $g(&mut self, other: Counted) {
                *self = $op::$f(*self, other);
            }
        }
    )*};
}
counted_op!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);

impl Neg for Counted {
    type Output = Counted;
    fn neg(self) -> Counted {
        work();
        Counted(-self.0)
    }
}

impl Zero for Counted {
    fn zero() -> Self {
        Counted(0.0)
    }
    fn is_zero(&self) -> bool {
        work();
        self.0 == 0.0
    }
}

impl One for Counted {
    fn one() -> Self {
        Counted(1.0)
    }
}

impl Num for Counted {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, radix).map(Counted)
    }
}

impl Bounded for Counted {
    fn min_value() -> Self {
        Counted(f64::MIN)
    }
    fn max_value() -> Self {
        Counted(f64::MAX)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    dim: usize,
    /// All points and queries are uniform between zero and these.
    sides: Vec<F>,
    offset: F,
    count: usize,
    seed: u64,
    bulk: bool,
    /// Instead of the box, its diagonal.
    #[serde(default)]
    diagonal: bool,
}

const QUERIES: usize = 40;

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    match c.dim {
        1 => queries::<1>(c, ctx),
        2 => queries::<2>(c, ctx),
        _ => queries::<3>(c, ctx),
    }
}

fn queries<const N: usize>(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let mut rng = SmallRng::seed_from_u64(c.seed);
    let mut next = || -> Point<Counted, N> {
        let along = rng.gen_range(0.0..1.0);
        Point::from(std::array::from_fn(|i| {
            let part = if c.diagonal { along } else { rng.gen_range(0.0..1.0) };
            Counted(c.offset.0 + c.sides[i].0 * part)
        }))
    };
    let points: Vec<Point<Counted, N>> = (0..c.count).map(|_| next()).collect();
    let tree = if c.bulk {
        KDTree::from(points.as_slice())
    } else {
        let mut tree = KDTree::default();
        points.iter().for_each(|p| tree.insert(*p));
        tree
    };
    WORK.with(|w| w.set(0));
    for _ in 0..QUERIES {
        ensure!(tree.nearest(&next()).is_some(), "nothing is nearest of {} points", c.count);
    }
    let spent = WORK.with(|w| w.get()) as f64 / QUERIES as f64;
    // A difference, a product and a sum along each axis, and a comparison of each distance
    let linear = (c.count * (3 * N + 1)) as f64;
    ctx.label(format!("dim {N}{}", if c.diagonal { " diagonal" } else { "" }));
    ctx.label_if(c.count < 1000, "fewer than 1,000 points");
    let percent = spent / linear * 100.0;
    ctx.label(match percent {
        p if p < 5.0 => "below 5% of a linear search",
        p if p < 10.0 => "5% to 10% of a linear search",
        p if p < 20.0 => "10% to 20% of a linear search",
        p if p < 30.0 => "20% to 30% of a linear search",
        _ => "above 30% of a linear search",
    });
    ctx.nontrivial = true;
    ensure!(
        percent < 50.0,
        "a query of {} points in {N} dimensions is {spent:.0} operations, a linear search takes {linear}", c.count
    );
    Ok(())
}

fn cases() -> impl Strategy<Value = Case> {
    let few = 300usize..=2000;
    let count = prop_oneof![6 => 2000usize..=4000, 3 => 4000usize..=10_000, 1 => 10_000usize..=30_000];
    let offset = prop_oneof![2 => Just(0.0), 1 => -1e3f64..1e3];
    (1usize..=3, (-20i32..=20), prop::collection::vec(1.0f64..=2.0, 3), offset, count, (any::<u64>(), few), (any::<bool>(), any::<bool>())).prop_map(
        |(dim, scale, sides, offset, count, (seed, few), (bulk, diagonal))| {
            let count = if diagonal { few } else { count };
            let scale = 2f64.powi(scale);
            let sides = sides[..dim].iter().map(|s| F(s * scale)).collect();
            Case { dim, sides, offset: F(offset * scale), count, seed, bulk, diagonal }
        },
    )
}

fn main() {
    pbt_engine::main(vec![Prop::new(
        "P30", 20_000, 600_000,
        "2,000 to 30,000 uniform points in 1 to 3 dimensions, or 300 to 2,000 on the diagonal, inserted one by one or in bulk in random order, and 40 queries from the same distribution; counts the arithmetic operations and comparisons of all queries. Non-trivial: every case",
        cases(), check,
    )]);
}
