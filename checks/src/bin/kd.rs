//! P01 - P03: nearest neighbours.
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::find_nearest_neighbour_naive;
use nalgebra::Point;
use pbt_checks::many::{Or, Random};
use pbt_checks::*;
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

#[cfg(feature = "ints")]
mod coord {
    use super::*;
    use nalgebra::Scalar;
    use num_traits::{Bounded, NumAssign, NumOps, Zero};

    /// What a tree accepts as coordinates.
    pub trait Coord: Bounded + Copy + Default + NumAssign + NumOps + PartialOrd + Scalar + Zero {
        const EPS: f64;
        const TINY: f64;
        const MAX: f64;
        /// Integers are kept within a range where squared distances in 7 dimensions do not overflow.
        fn of(v: f64) -> Self;
        fn f64(self) -> f64;
    }

    macro_rules! float_coord {
        ($($t:ty),*) => {$(
            impl Coord for $t {
                const EPS: f64 = <$t as Fl>::EPS;
                const TINY: f64 = <$t as Fl>::TINY;
                const MAX: f64 = <$t as Fl>::MAX;
                fn of(v: f64) -> Self {
                    v as $t
                }
                fn f64(self) -> f64 {
                    self as f64
                }
            }
        )*};
    }
    float_coord!(f32, f64);

    macro_rules! int_coord {
        ($($t:ty: $most:literal),*) => {$(
            impl Coord for $t {
                // Of the reference
                const EPS: f64 = f64::EPSILON;
                const TINY: f64 = 0.0;
                const MAX: f64 = f64::INFINITY;
                fn of(v: f64) -> Self {
                    v.clamp(-$most, $most).round() as $t
                }
                fn f64(self) -> f64 {
                    self as f64
                }
            }
        )*};
    }
    int_coord!(i32: 8e3, i64: 5e8);
}
#[cfg(feature = "ints")]
use coord::Coord;
#[cfg(not(feature = "ints"))]
use Fl as Coord;

/// Whether multiples of one can be added without any rounding.
fn coarse<T: Coord>(v: T) -> bool {
    (v.f64() * 8.0).fract() == 0.0
}

fn raw<T: Coord, const N: usize>(p: &Point<T, N>) -> [f64; N] {
    std::array::from_fn(|i| p[i].f64())
}

fn raws<T: Coord, const N: usize>(ps: &[Point<T, N>]) -> Vec<[f64; N]> {
    ps.iter().map(raw).collect()
}

fn pt<T: Coord, const N: usize>(p: &[F]) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| T::of(p[i].0)))
}

fn pts<T: Coord, const N: usize>(ps: &[P]) -> Vec<Point<T, N>> {
    ps.iter().map(|p| pt(p)).collect()
}

/// Calls `$f` with the type of the coordinates and the dimension of the case.
macro_rules! by_type {
    ($case:expr, $f:ident $args:tt) => {
        match $case.int {
            #[cfg(feature = "ints")]
            1 => by_type!(i32, $case.dim, [1, 2, 3, 4, 5, 6, 7], $f $args),
            #[cfg(feature = "ints")]
            2 => by_type!(i64, $case.dim, [1, 2, 3, 4, 5, 6, 7], $f $args),
            _ => dispatch!($case.single, $case.dim, [1, 2, 3, 4, 5, 6, 7], $f $args),
        }
    };
    ($t:ty, $dim:expr, [$($n:literal),*], $f:ident $args:tt) => {
        match $dim {
            $($n => $f::<$t, $n> $args,)*
            n => panic!("dimension {n} is not supported"),
        }
    };
}

/// 0: floats, 1: i32, 2: i64.
fn int() -> impl Strategy<Value = u8> {
    prop_oneof![16 => Just(0u8), 1 => Just(1), 1 => Just(2)]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(P),
    /// Inserts a point which is (most likely) already there.
    Again(usize),
    Query(P),
    /// Queries exactly at a stored point.
    QueryAt(usize),
    /// Queries at a mix of the coordinates of two stored points, i.e. on their splitting planes.
    QueryMix(usize, usize),
    /// Moves the whole tree (which keeps the order of the points) using the mutable traversal.
    Shift(i32),
    /// Continues with a clone of the tree, the original is modified and dropped.
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    single: bool,
    #[serde(default)]
    int: u8,
    dim: usize,
    init: Vec<P>,
    ops: Vec<Op>,
    /// Instead of the above: the number of points to insert in sorted order, on a thread with a default stack.
    #[serde(default)]
    sorted: usize,
}

/// Factors for the points of a cloud: seldom so small (or so large) that squares underflow (or overflow), or a mixture.
fn units(single: bool) -> impl Strategy<Value = Vec<f64>> {
    let (tiny, huge) = if single { (2f64.powi(-80), 2f64.powi(60)) } else { (2f64.powi(-600), 2f64.powi(520)) };
    prop_oneof![
        120 => Just(vec![1.0]),
        2 => Just(vec![tiny]),
        2 => Just(vec![huge]),
        2 => vec(prop_oneof![Just(1.0), Just(1.0), Just(tiny), Just(huge)], 1..=12),
        // Squares of all of these can be represented
        2 => (-20i32..=0, -20i32..=10).prop_map(|(low, e)| vec![2f64.powi(low), 2f64.powi(e), 1.0]),
    ]
}

fn scale(points: &mut [P], units: &[f64]) {
    for (point, unit) in points.iter_mut().zip(units.iter().cycle()) {
        point.iter_mut().for_each(|c| c.0 *= unit);
    }
}

fn history() -> impl Strategy<Value = History> {
    let init = prop_oneof![4000 => Just(0usize), 4000 => 1usize..=120, 19 => 121usize..=1000, 1 => 1001usize..=5000];
    ((any::<bool>(), int()), prop_oneof![9 => 1usize..=4, 1 => 5usize..=7], init, 1usize..=60).prop_flat_map(
        |((single, int), dim, init, ops)| {
            (gen::cloud(dim, (if init > 120 { init } else { 1 })..=(init + ops + 1)), vec((0u8..=13, any::<Index>(), any::<Index>(), -4i32..=4), ops), units(single))
                .prop_map(move |(mut pool, ops, units)| {
                    scale(&mut pool, if int == 0 { &units } else { &[16.0] });
                    let round = |v: f64| F(if single { gen::single(v) } else { v });
                    let init: Vec<P> = pool.iter().take(init).cloned().collect();
                    let mut fresh = pool[init.len()..].iter().cloned();
                    let ops = ops
                        .into_iter()
                        .map(|(kind, a, b, k)| match kind {
                            0..=3 => match fresh.next() {
                                Some(p) => Op::Insert(p),
                                None => Op::Again(a.index(1 << 16)),
                            },
                            4 => Op::Again(a.index(1 << 16)),
                            5 => Op::QueryAt(a.index(1 << 16)),
                            6 => Op::QueryMix(a.index(1 << 16), b.index(1 << 16)),
                            7 => Op::Shift(k),
                            8 => Op::Clone,
                            _ => {
                                // Near, between and beyond the pool
                                let (p, q) = (a.get(&pool), b.get(&pool));
                                let t = [-1.0, 0.25, 0.5, 0.75, 0.9, 3.0, 0.0, 1.0, 40.0][(k + 4) as usize];
                                Op::Query(
                                    p.iter()
                                        .zip(q)
                                        .map(|(x, y)| round(x.0 + (y.0 - x.0) * t))
                                        .collect(),
                                )
                            }
                        })
                        .collect();
                    History { single, int, dim, init, ops, sorted: 0 }
                })
        },
    )
}

/// `found` is one of `stored`, at the minimal distance, up to the rounding of the squared distances.
fn check_nearest<T: Coord, const N: usize>(
    what: &str,
    stored: &[Point<T, N>],
    query: &Point<T, N>,
    found: Option<Point<T, N>>,
) -> CheckResult {
    let Some(found) = found else {
        ensure!(stored.is_empty(), "{what}: nothing found near {query:?} among {} points", stored.len());
        return Ok(());
    };
    ensure!(
        stored.contains(&found),
        "{what}: {found:?} found near {query:?} is not a stored point"
    );
    let q = raw(query);
    let best = stored.iter().map(|p| dist2(&raw(p), &q)).fold(f64::INFINITY, f64::min);
    let got = dist2(&raw(&found), &q);
    ensure!(
        // Squares which overflow are all alike
        got <= best * (1.0 + 32.0 * T::EPS) + T::TINY || best >= T::MAX * (1.0 - 32.0 * T::EPS),
        "{what}: {found:?} found near {query:?} has a squared distance of {got}, the minimum is {best}"
    );
    Ok(())
}

fn check_history(case: &History, ctx: &mut Ctx, nearest: bool) -> CheckResult {
    if case.sorted > 0 {
        return check_sorted(case.sorted);
    }
    by_type!(case, run_history(case, ctx, nearest))
}

/// Known finding: the depth of the tree (and so the recursion) is the number of points when inserted in sorted order.
fn check_sorted(count: usize) -> CheckResult {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut tree = KDTree::<f64, 2>::default();
            for i in 0..count {
                tree.insert(Point::from([i as f64, i as f64]));
            }
            let found = tree.nearest(&Point::from([count as f64, 0.0]));
            check_nearest("sorted", &[found.unwrap()], &found.unwrap(), found)
        })
        .expect("spawn")
        .join()
        .map_err(|_| "panicked".to_string())?
}

fn run_history<T: Coord, const N: usize>(case: &History, ctx: &mut Ctx, nearest: bool) -> CheckResult {
    let mut shift = T::zero();
    let mut model: Vec<Point<T, N>> = Vec::new();
    let init = pts::<T, N>(&case.init);
    let mut duplicates = 0;
    let mut known = std::collections::HashSet::new();
    for p in &init {
        // -0.0 is 0.0
        if !known.insert(raw(p).map(|c| (c + 0.0).to_bits())) {
            duplicates += 1;
        } else {
            model.push(*p);
        }
    }
    let mut tree = KDTree::from(init.as_slice());
    let mut queries = 0;
    let mut shifted = false;
    let pick = |model: &[Point<T, N>], i: usize| (!model.is_empty()).then(|| model[i % model.len()]);
    check_contents(&tree, &model, "after From")?;
    for (step, op) in case.ops.iter().enumerate() {
        let at = format!("step {step} {op:?}");
        let query = match op {
            Op::Insert(p) => {
                let p = pt::<T, N>(p).map(|c| c + shift);
                tree.insert(p);
                if model.contains(&p) {
                    duplicates += 1;
                } else {
                    model.push(p);
                }
                None
            }
            Op::Again(i) => {
                if let Some(p) = pick(&model, *i) {
                    tree.insert(p);
                    duplicates += 1;
                }
                None
            }
            Op::Query(p) => Some(pt::<T, N>(p).map(|c| c + shift)),
            Op::QueryAt(i) => pick(&model, *i),
            Op::QueryMix(i, j) => pick(&model, *i).map(|mut p| {
                let q = pick(&model, *j).expect("not empty");
                for axis in (i % 2..N).step_by(2) {
                    p[axis] = q[axis];
                }
                p
            }),
            Op::Shift(k) => {
                // Only where it is exact, otherwise the order of the points might change
                let by = T::of(f64::from(*k) * 16.0);
                if model.iter().all(|p| p.iter().all(|c| *c + by - by == *c && coarse(*c))) {
                    let mut visits = 0;
                    tree.traverse_tree_mut(|p| {
                        visits += 1;
                        for c in p.coords.iter_mut() {
                            *c += by;
                        }
                    });
                    ensure!(visits == model.len(), "{at}: {visits} mutable visits for {} points", model.len());
                    for p in &mut model {
                        for c in p.coords.iter_mut() {
                            *c += by;
                        }
                    }
                    shift += by;
                    shifted = true;
                }
                None
            }
            Op::Clone => {
                let copy = tree.clone();
                // Whatever happens to the original must not matter
                tree.traverse_tree_mut(|p| *p = Point::origin());
                // Whatever a tree consists of, so does its clone
                let mut origins = 0;
                tree.clone().traverse_tree(|p| origins += usize::from(*p == Point::origin()));
                ensure!(
                    tree.len() == model.len() && tree.clone().len() == model.len() && origins == model.len(),
                    "{at}: a tree of {} points, all of which were moved to the origin, has a length of {}, and its clone has {} and {origins} origins",
                    model.len(), tree.len(), tree.clone().len()
                );
                tree.insert(Point::from([T::of(0.5); N]));
                tree = copy;
                None
            }
        };
        match query {
            Some(query) => {
                queries += 1;
                if nearest {
                    check_nearest(&at, &model, &query, tree.nearest(&query))?;
                }
            }
            None if !nearest => check_contents(&tree, &model, &at)?,
            None => {}
        }
    }
    check_contents(&tree, &model, "at the end")?;
    if nearest {
        for (i, p) in model.iter().enumerate().step_by(if model.len() > 6000 { model.len() / 9 } else { 7 }) {
            check_nearest(&format!("stored point {i}"), &model, p, tree.nearest(p))?;
        }
    }
    ctx.label_if(case.int > 0, "integers");
    ctx.label_if(model.len() > 256, "more than 256 points");
    ctx.label(format!("dim {N}"));
    ctx.label_if(duplicates > 0, "with duplicate inserts");
    ctx.label_if(shifted, "with a shift");
    ctx.label_if(case.init.is_empty(), "starting empty");
    ctx.nontrivial_if(if nearest { model.len() >= 4 && queries >= 3 } else { duplicates > 0 && model.len() >= 3 });
    Ok(())
}

fn check_contents<T: Coord, const N: usize>(tree: &KDTree<T, N>, model: &[Point<T, N>], at: &str) -> CheckResult {
    ensure!(tree.len() == model.len(), "{at}: len() is {} for {} distinct points", tree.len(), model.len());
    ensure!(tree.is_empty() == model.is_empty(), "{at}: is_empty() is {}", tree.is_empty());
    let mut seen = Vec::new();
    tree.traverse_tree(|p| seen.push(raw(p)));
    ensure!(
        same_multiset(&seen, &raws(model)),
        "{at}: traversal visits {seen:?} instead of {model:?}"
    );
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Naive {
    single: bool,
    #[serde(default)]
    int: u8,
    dim: usize,
    cloud: Vec<P>,
    query: P,
}

fn naive() -> impl Strategy<Value = Naive> {
    let dim = prop_oneof![9 => 1usize..=4, 1 => 5usize..=7];
    ((any::<bool>(), int()), dim, gen::size(0..=40, 3000, 300)).prop_flat_map(|((single, int), dim, size)| {
        (gen::cloud(dim, size), gen::cloud(dim, 2..=2), any::<Index>(), any::<Index>(), 0u8..=5, units(single)).prop_map(
            move |(mut cloud, mut query, a, b, kind, units)| {
                let round = |v: f64| F(if single { gen::single(v) } else { v });
                scale(&mut cloud, if int == 0 { &units } else { &[16.0] });
                scale(&mut query, if int == 0 { &units[units.len() / 2..] } else { &[16.0] });
                let query = match kind {
                    0 if !cloud.is_empty() => a.get(&cloud).clone(),
                    1 | 2 if !cloud.is_empty() => {
                        // The middle of two points: a tie
                        let (p, q) = (a.get(&cloud), b.get(&cloud));
                        p.iter().zip(q).map(|(x, y)| round((x.0 + y.0) / 2.0)).collect()
                    }
                    3 if !cloud.is_empty() => {
                        a.get(&cloud).iter().zip(&query[0]).map(|(x, y)| round(x.0 + y.0 * 1e-3)).collect()
                    }
                    4 => query[0].iter().map(|c| F(c.0 * 1024.0)).collect(),
                    _ => query[0].clone(),
                };
                Naive { single, int, dim, cloud, query }
            },
        )
    })
}

fn check_naive(case: &Naive, ctx: &mut Ctx) -> CheckResult {
    by_type!(case, run_naive(case, ctx))
}

fn run_naive<T: Coord, const N: usize>(case: &Naive, ctx: &mut Ctx) -> CheckResult {
    let cloud = pts::<T, N>(&case.cloud);
    let query = pt::<T, N>(&case.query);
    let found = find_nearest_neighbour_naive(&query, &cloud);
    check_nearest("naive", &cloud, &query, found)?;
    // ... wherever in the slice the nearest point is
    let mut reversed = cloud.clone();
    reversed.reverse();
    check_nearest("naive, reversed", &reversed, &query, find_nearest_neighbour_naive(&query, &reversed))?;
    let tree = KDTree::from(cloud.as_slice());
    let by_tree = tree.nearest(&query);
    match (found, by_tree) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            let (da, db) = (dist2(&raw(&a), &raw(&query)), dist2(&raw(&b), &raw(&query)));
            ensure!(
                (da - db).abs() <= 32.0 * T::EPS * da.max(db) + T::TINY || da.min(db) >= T::MAX * (1.0 - 32.0 * T::EPS),
                "naive finds {a:?}, the tree finds {b:?}"
            );
        }
        (a, b) => return Err(format!("naive finds {a:?}, the tree finds {b:?}")),
    }
    ctx.label_if(case.int > 0, "integers");
    ctx.label_if(cloud.len() > 256, "more than 256 points");
    ctx.label(format!("dim {N}"));
    ctx.label_if(cloud.is_empty(), "empty cloud");
    ctx.nontrivial_if(cloud.len() >= 3);
    Ok(())
}

/// Points of which one in 40 is a repeated one.
fn many_points(n: usize, random: &mut Random, dim: usize) -> Vec<P> {
    let mut points = random.cloud(n, dim, 1000.0);
    for i in (40..n).step_by(40) {
        points[i] = points[i - random.within(1, 39) as usize].clone();
    }
    points
}

fn many_inserts(n: usize, random: &mut Random) -> History {
    let (single, dim) = (random.flip(), random.within(2, 3) as usize);
    let mut init = many_points(n, random, dim);
    // All at once, or the last few (beyond 65,536, too) one by one
    let last = init.split_off(n - 4);
    let mut ops: Vec<Op> = last.into_iter().map(Op::Insert).collect();
    for i in 0..4 {
        ops.push(Op::Query(random.point(dim, 1200.0)));
        ops.push(Op::QueryAt(n - n / 100 * i - 3));
        ops.push(Op::Again(random.within(0, n as i64) as usize));
    }
    History { single, int: 0, dim, init, ops, sorted: 0 }
}

fn many_naive(n: usize, random: &mut Random) -> Naive {
    let (single, dim) = (random.flip(), random.within(2, 3) as usize);
    let cloud = many_points(n, random, dim);
    // Next to one of the last points
    let mut query = cloud[n - random.within(1, 400) as usize].clone();
    query[0].0 += 0.25;
    Naive { single, int: 0, dim, cloud, query }
}

fn points2(ps: &[[f64; 2]]) -> Vec<P> {
    ps.iter().map(|p| p.iter().copied().map(F).collect()).collect()
}

fn main() {
    let dup = |first: Vec<P>, ops: Vec<Op>| History { single: false, int: 0, dim: 2, init: first, ops, sorted: 0 };
    let fixed = || {
        let mut all = many::fixed(0..6);
        all.extend([
            // 3e7cece: a duplicate of a node with a right child used to be stored again
            dup(points2(&[[0.0, 0.0], [1.0, 1.0], [0.0, 0.0]]), vec![]),
            dup(vec![], vec![
                Op::Insert(vec![F(0.0), F(0.0)]),
                Op::Insert(vec![F(1.0), F(0.0)]),
                Op::Again(0),
                Op::Query(vec![F(0.25), F(0.0)]),
            ]),
        ].map(Or::Usual));
        all
    };
    pbt_engine::main(vec![
        Prop::with_fixed(
            "P01", 1_200_000, 40_000_000,
            "a history of inserts (fresh and repeated), order-preserving in-place shifts, clones and queries (inside, outside, on splitting planes, at stored points) on a KDTree of up to 120 (rarely 5000 or 80,000) points in 1 to 7 dimensions of f32, f64, i32 or i64, some of whose squares overflow or underflow; every query is compared with a linear scan of the model. Non-trivial: at least 4 distinct points and 3 queries",
            many::or_many(history(), 200_000),
            |c, ctx| many::checked(c, ctx, many_inserts, |c, ctx| check_history(c, ctx, true)), fixed(),
        ),
        Prop::with_fixed(
            "P02", 1_200_000, 40_000_000,
            "the same histories, comparing len, is_empty and the (multi)set of traversed points with a set model after every step. Non-trivial: at least one repeated insert and 3 distinct points",
            many::or_many(history(), 200_000),
            |c, ctx| many::checked(c, ctx, many_inserts, |c, ctx| check_history(c, ctx, false)), fixed(),
        ),
        Prop::with_fixed(
            "P03", 1_500_000, 50_000_000,
            "a cloud of up to 40 (rarely 5000 or 80,000) points in 1 to 7 dimensions of f32, f64, i32 or i64 (some of whose squares overflow or underflow), and a query which is random, a member, near a member, far away, or half-way between two members. Non-trivial: at least 3 points",
            many::or_many(naive(), 200_000), |c, ctx| many::checked(c, ctx, many_naive, check_naive), many::fixed(0..6),
        ),
    ]);
}
