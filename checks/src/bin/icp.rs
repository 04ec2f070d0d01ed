//! P20 - P25, P28: registration of point clouds.
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::{AbstractIsometry, IsNan, IsometryAbstractor};
use nalgebra::{Isometry, Point, SMatrix};
use num_traits::{AsPrimitive, Bounded};
use pbt_checks::icp_ref::*;
use pbt_checks::many::{Or, Random};
use pbt_checks::*;
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

fn config<T: Fl>(kd: bool, iters: usize, abs: Option<F>, interval: F) -> ICPConfiguration<T>
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    ICPConfiguration::builder()
        .with_kd_tree(kd)
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs.map(|v| T::of(v.0)))
        .with_mse_interval_threshold(T::of(interval.0))
        .build()
}

fn scene_config<T: Fl>(c: &Scene) -> ICPConfiguration<T>
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    config(c.kd, c.iters, c.abs, c.interval)
}

/// How far the objective of a single alignment may be from its optimum, compared to the spread of the points.
fn objective_tolerance<T: Fl, const N: usize>() -> f64 {
    match (T::SINGLE, N) {
        (true, 2) => 1e-5,
        (false, 2) => 1e-11,
        // The decomposition of 3D covariances gives up some precision
        (true, _) => 2e-2,
        (false, _) => 1e-6,
    }
}

// ---- P20 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Set {
    Kd(bool),
    Iters(usize),
    Abs(Option<F>),
    Interval(F),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Settings {
    single: bool,
    dim: usize,
    sets: Vec<Set>,
    source: Vec<P>,
    target: Vec<P>,
}

fn settings() -> impl Strategy<Value = Settings> {
    fn threshold(single: bool) -> BoxedStrategy<F> {
        let eps = if single { f64::from(f32::EPSILON) } else { f64::EPSILON };
        prop_oneof![
            10 => (-6i32..=3).prop_map(|e| 10f64.powi(e)),
            1 => Just(0.0),
            1 => Just(-0.0),
            1 => Just(-1.0),
            1 => prop_oneof![Just(eps), Just(eps / 2.0), Just(eps * 1.5), Just(f64::MIN_POSITIVE)],
            1 => prop_oneof![Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(1e30)],
            1 => Just(f64::NAN),
        ]
        .prop_map(F)
        .boxed()
    }
    const SPECIAL: [f64; 9] = [
        f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, 3e38, -3e38, 1e-30, f32::MIN_POSITIVE as f64,
    ];
    (any::<bool>(), 2usize..=3)
        .prop_flat_map(|(single, dim)| {
            let set = prop_oneof![
                1 => any::<bool>().prop_map(Set::Kd),
                1 => prop_oneof![1 => Just(0usize), 8 => 1usize..=40].prop_map(Set::Iters),
                1 => prop::option::weighted(0.7, threshold(single)).prop_map(Set::Abs),
                1 => threshold(single).prop_map(Set::Interval),
            ];
            let cloud = || prop_oneof![
                100 => Just(Vec::new()), 1200 => gen::cloud(dim, 1..=12), 1 => gen::cloud(dim, 100..=600)
            ];
            let special = || prop_oneof![2 => Just(Vec::new()), 1 => vec((any::<Index>(), 0..dim, 0usize..SPECIAL.len()), 1..=2)];
            (Just((single, dim)), vec(set, 0..=6), cloud(), cloud(), special(), special())
        })
        .prop_map(|((single, dim), sets, mut source, mut target, in_source, in_target)| {
            let place = |points: &mut Vec<P>, special: Vec<(Index, usize, usize)>, finite: bool| {
                if points.is_empty() {
                    return;
                }
                for (at, axis, which) in special {
                    let which = if finite { which.max(3) } else { which };
                    let at = at.index(points.len());
                    points[at][axis] = F(SPECIAL[which]);
                }
            };
            place(&mut source, in_source, false);
            place(&mut target, in_target, true);
            Settings { single, dim, sets, source, target }
        })
}

fn validation<T: Fl, R: Rot<T, N>, const N: usize>(c: &Settings, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (source, target) = (pts::<T, N>(&c.source), pts::<T, N>(&c.target));
    let default = ICPConfiguration::<T>::builder();
    let mut builder = ICPConfiguration::<T>::builder();
    let (mut kd, mut iters, mut abs, mut interval) = (None, None, None, None);
    for set in &c.sets {
        let before = format!("{builder:?}");
        let next = match set {
            Set::Kd(v) => {
                kd = Some(*v);
                builder.with_kd_tree(*v)
            }
            Set::Iters(v) => {
                iters = Some(*v);
                builder.with_max_iterations(*v)
            }
            Set::Abs(v) => {
                abs = Some(v.map(|v| T::of(v.0)));
                builder.with_absolute_mse_threshold(v.map(|v| T::of(v.0)))
            }
            Set::Interval(v) => {
                interval = Some(T::of(v.0));
                builder.with_mse_interval_threshold(T::of(v.0))
            }
        };
        let built = builder.build();
        ensure!(
            format!("{builder:?}") == before && format!("{built:?}") == format!("{:?}", builder.build()),
            "setting {set:?} or building changed the builder itself: {before} became {builder:?}"
        );
        builder = next;
    }
    // Only the last value of each setting matters, and those never set are the defaults
    let usual = |interval: T| {
        let builder = default.with_kd_tree(false).with_max_iterations(20);
        format!("{:?}", builder.with_absolute_mse_threshold(None).with_mse_interval_threshold(interval).build())
    };
    let defaults = format!("{:?}", default.build());
    ensure!(
        defaults == usual(0.01f32.as_()) || defaults == usual(T::of(0.01)),
        "without any settings: {defaults} instead of {}", usual(T::of(0.01))
    );
    let mut canonical = default;
    if let Some(v) = interval {
        canonical = canonical.with_mse_interval_threshold(v);
    }
    if let Some(v) = abs {
        canonical = canonical.with_absolute_mse_threshold(v);
    }
    if let Some(v) = iters {
        canonical = canonical.with_max_iterations(v);
    }
    if let Some(v) = kd {
        canonical = canonical.with_kd_tree(v);
    }
    let built = builder.build();
    ensure!(
        format!("{built:?}") == format!("{:?}", canonical.build()),
        "after {:?}: built {built:?} instead of {:?}", c.sets, canonical.build()
    );

    let eps = T::default_epsilon();
    let abs = abs.unwrap_or(None);
    let mut wrong: Vec<ICPError<T, N>> = Vec::new();
    if source.is_empty() {
        wrong.push(ICPError::SourcePointCloudEmpty);
    }
    if target.is_empty() {
        wrong.push(ICPError::TargetPointCloudEmpty);
    }
    if iters == Some(0) {
        wrong.push(ICPError::IterationNumIsZero);
    }
    if interval.is_some_and(|v| v <= eps) {
        wrong.push(ICPError::MSEIntervalThreshold);
    }
    if abs.is_some_and(|v| v <= eps || IsNan::is_nan(v)) {
        wrong.push(ICPError::MSEAbsoluteThreshold);
    }
    // Whether an undefined interval is an error is not specified, it only must not be fatal
    let undefined = interval.is_some_and(IsNan::is_nan);

    let got = icp(&source, &target, built.clone());
    if !wrong.is_empty() {
        let ok = match &got {
            Err(e) => wrong.contains(e) || (undefined && *e == ICPError::MSEIntervalThreshold),
            Ok(_) => false,
        };
        ensure!(ok, "{got:?} instead of any of {wrong:?}, for {built:?}, {source:?} and {target:?}");
        ctx.label(format!("{} errors at once", wrong.len()));
        ctx.nontrivial_if(wrong.len() == 1);
        return Ok(());
    }
    let finite = source.iter().all(|p| p.iter().all(|v| v.f64().is_finite()));
    match &got {
        Ok(success) => {
            ensure!(finite, "converged with {success:?} on a source which is not finite: {source:?}");
            ensure!(
                success.iteration_num < iters.unwrap_or(usize::MAX) && success.mse >= T::zero(),
                "{success:?} for {built:?}"
            );
            ctx.label("converged");
        }
        Err(ICPError::AlrogithmDidNotConverge) => ctx.label("did not converge"),
        Err(ICPError::MSEIntervalThreshold) if undefined => (),
        Err(e) => return Err(format!("{e:?} for {built:?}, {source:?} and {target:?}")),
    }
    ctx.label_if(!finite, "source is not finite");
    ctx.nontrivial = true;
    Ok(())
}

// ---- P21 ----

/// Rejects `got` unless it is what a single iteration is documented to do.
#[allow(clippy::too_many_arguments)]
fn single_iteration<T: Fl, R: Rot<T, N>, const N: usize>(
    source: &[Point<T, N>],
    before: &[Point<T, N>],
    target: &[Point<T, N>],
    config: &ICPConfiguration<T>,
    abs: Option<T>,
    interval: T,
    (mse_before, mse_after): (T, T),
    (transform, after): (&Isometry<T, R, N>, &[Point<T, N>]),
    result: &Result<T, ICPError<T, N>>,
    ctx: &mut Ctx,
) -> CheckResult {
    let (a, p, q, r) = (raws(source), raws(before), raws(target), raws(after));
    let n = a.len() as f64;
    let motion = Motion::of(transform);
    ensure!(
        transform.rotation.denormalized() < T::EPS * 64.0,
        "the rotation of {transform:?} is not normalized"
    );
    let size = reach(&[&a]);
    let far = motion.t.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for (i, (a, r)) in a.iter().zip(&r).enumerate() {
        let expected = motion.apply(a);
        ensure!(
            (0..N).all(|k| (r[k] - expected[k]).abs() <= T::EPS * 32.0 * (size + far)),
            "source point {i} {a:?} is transformed to {r:?} instead of {expected:?} by {transform:?}"
        );
    }

    // Where targets are equally near, any of them may be chosen
    let near = nearest(&p, &q, T::EPS * 16.0);
    let (mut least, mut most) = (0.0, 0.0);
    let (mut low, mut high) = ([0.0; N], [0.0; N]);
    for (r, near) in r.iter().zip(&near) {
        let d: Vec<f64> = near.iter().map(|i| dist2(r, &q[*i])).collect();
        least += d.iter().copied().fold(f64::INFINITY, f64::min);
        most += d.iter().copied().fold(0.0, f64::max);
        for k in 0..N {
            low[k] += near.iter().map(|i| q[*i][k]).fold(f64::INFINITY, f64::min) / n;
            high[k] += near.iter().map(|i| q[*i][k]).fold(f64::NEG_INFINITY, f64::max) / n;
        }
    }
    ctx.label_if(near.iter().any(|near| near.len() > 1), "ambiguous neighbours");
    let mse = match result {
        Ok(mse) => *mse,
        Err(_) => mse_after,
    };
    let slack = T::EPS * (n + 8.0);
    let tiny = if T::SINGLE { 1e-36 } else { 1e-300 };
    ensure!(
        mse.f64() >= least * (1.0 - slack) - tiny && mse.f64() <= most * (1.0 + slack) + tiny,
        "the error is {mse} instead of {least} to {most}, from {before:?} to {after:?} with {target:?}"
    );
    let close: T = num_traits::sign::abs(mse_before - mse);
    let converged = abs.is_some_and(|v| mse < v) || close < interval;
    ensure!(
        converged == result.is_ok(),
        "{result:?} with an error of {mse} after {mse_before}, using {config:?}"
    );
    match result {
        Ok(_) => (),
        Err(ICPError::IterationDidNotConverge((mean_a, mean_b))) => {
            let (mean_a, mean_b) = (raw(mean_a), raw(mean_b));
            let exact = mean(&p);
            let size = reach(&[&p, &q]);
            let tolerance = T::EPS * (n + 8.0) * size;
            for k in 0..N {
                ensure!(
                    (mean_a[k] - exact[k]).abs() <= tolerance
                        && mean_b[k] >= low[k] - tolerance
                        && mean_b[k] <= high[k] + tolerance,
                    "means {mean_a:?} and {mean_b:?} instead of {exact:?} and {low:?} to {high:?}"
                );
            }
        }
        Err(e) => return Err(format!("{e:?} from a single iteration of {before:?} with {target:?}")),
    }
    Ok(())
}

/// Known finding KF-c: nalgebra's decomposition of 3D matrices in single precision underflows for pairs of points (almost) on a line.
fn decomposition_fails<T: Fl, R: Rot<T, N>, const N: usize>(
    before: &[Point<T, N>],
    target: &[Point<T, N>],
    transform: &Isometry<T, R, N>,
) -> bool {
    if !T::SINGLE || N != 3 || !transform.translation.vector.iter().any(|v| v.f64().is_nan()) {
        return false;
    }
    let (p, q) = (raws(before), raws(target));
    let matched: Vec<[f64; N]> = nearest(&p, &q, T::EPS * 16.0).iter().map(|near| q[near[0]]).collect();
    align(&p, &matched).gap < 1e-6 || align(&p, &p).gap < 1e-6
}

fn contract<T: Fl, R: Rot<T, N>, const N: usize>(c: &Scene, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (source, target) = (pts::<T, N>(&c.source), pts::<T, N>(&c.target));
    let config = scene_config::<T>(c);
    let (abs, interval) = (c.abs.map(|v| T::of(v.0)), T::of(c.interval.0));
    let tree = c.kd.then(|| KDTree::from(target.as_slice()));

    // An iteration from anywhere
    let mut transform = isometry::<T, R, N>(&c.rotation, &c.translation);
    let mut points = transform_point_cloud(&source, transform);
    let mut mse = T::of(c.interval.0 * 3.0);
    for _ in 0..2 {
        let (before, mse_before) = (points.clone(), mse);
        let got = icp_iteration(&source, &mut points, &target, tree.as_ref(), &mut transform, &mut mse, &config);
        if ctx.exclude(decomposition_fails(&before, &target, &transform)) {
            break;
        }
        single_iteration(
            &source, &before, &target, &config, abs, interval, (mse_before, mse), (&transform, &points), &got, ctx,
        )?;
    }

    // All iterations from the identity
    let mut transform = Isometry::<T, R, N>::identity();
    let mut points = source.clone();
    let mut mse = <T as Bounded>::max_value();
    let mut expected = None;
    for iteration in 0..c.iters {
        let (before, mse_before) = (points.clone(), mse);
        let got = icp_iteration(&source, &mut points, &target, tree.as_ref(), &mut transform, &mut mse, &config);
        if ctx.exclude(decomposition_fails(&before, &target, &transform)) {
            return Ok(());
        }
        single_iteration(
            &source, &before, &target, &config, abs, interval, (mse_before, mse), (&transform, &points), &got, ctx,
        )?;
        if let Ok(mse) = got {
            expected = Some((iteration, mse));
            break;
        }
    }
    let got = icp(&source, &target, config.clone());
    same_outcome(&got, expected, &transform, &points, &source, &config)?;
    // More or less of a budget does not change the result
    if let Some((iteration, _)) = expected {
        const LIMITS: [usize; 6] = [1 << 8, (1 << 8) + 1, 1 << 16, 1 << 32, (1 << 32) + 1, usize::MAX];
        for iters in [iteration + 1, c.iters + 7, LIMITS[(c.iters + iteration) % LIMITS.len()]] {
            let config = self::config::<T>(c.kd, iters, c.abs, c.interval);
            let got = icp(&source, &target, config.clone());
            same_outcome(&got, expected, &transform, &points, &source, &config)?;
        }
        if iteration > 0 {
            let config = self::config::<T>(c.kd, iteration, c.abs, c.interval);
            let got = icp(&source, &target, config.clone());
            same_outcome(&got, None, &transform, &points, &source, &config)?;
        }
        ctx.label(match iteration {
            0 => "converged immediately",
            1 => "converged after one iteration",
            2..=256 => "converged after more iterations",
            _ => "converged after more than 256 iterations",
        });
    } else {
        ctx.label("did not converge");
    }
    ctx.label_if(c.kd, "tree");
    ctx.nontrivial_if(source.len() >= 2 && target.len() >= 2 && expected.map_or(true, |e| e.0 > 0));
    Ok(())
}

fn same_outcome<T: Fl, R: Rot<T, N>, const N: usize>(
    got: &ICPResult<T, R, N>,
    expected: Option<(usize, T)>,
    transform: &Isometry<T, R, N>,
    points: &[Point<T, N>],
    source: &[Point<T, N>],
    config: &ICPConfiguration<T>,
) -> CheckResult {
    match (got, expected) {
        (Ok(got), Some((iteration, mse))) => {
            ensure!(
                got.iteration_num == iteration,
                "{got:?} instead of {iteration} iterations, with {config:?}"
            );
            let scale = mse.f64().abs().max(got.mse.f64().abs());
            let (points, moved) = (raws(points), raws(&transform_point_cloud(source, got.transform)));
            let size = reach(&[&points, &moved, &raws(source)]);
            ensure!(
                (got.mse.f64() - mse.f64()).abs() <= scale * T::EPS * 64.0
                    && points.iter().zip(&moved).all(|(a, b)| dist2(a, b).sqrt() <= size * T::EPS * 64.0),
                "{got:?} instead of an error of {mse} with {transform:?}, with {config:?}"
            );
        }
        (Err(ICPError::AlrogithmDidNotConverge), None) => (),
        (got, expected) => {
            return Err(format!("{got:?} instead of convergence at {expected:?} (iteration, error), with {config:?}"))
        }
    }
    Ok(())
}

// ---- P22 ----

fn optimal<T: Fl, R: Rot<T, N>, const N: usize>(c: &Scene, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (source, target) = (pts::<T, N>(&c.source), pts::<T, N>(&c.target));
    let (a, q) = (raws(&source), raws(&target));
    // Neither threshold can be reached
    let config = config::<T>(c.kd, c.iters, None, F(1e-6));
    let tree = c.kd.then(|| KDTree::from(target.as_slice()));
    let mut transform = isometry::<T, R, N>(&c.rotation, &c.translation);
    let mut points = transform_point_cloud(&source, transform);
    let mut mse = <T as Bounded>::max_value();
    let mut last: Option<f64> = None;
    for iteration in 0..c.iters.min(8) {
        let before = points.clone();
        let p = raws(&before);
        let got = icp_iteration(&source, &mut points, &target, tree.as_ref(), &mut transform, &mut mse, &config);
        if ctx.exclude(decomposition_fails(&before, &target, &transform)) {
            return Ok(());
        }
        let now = match &got {
            Ok(mse) => mse.f64(),
            Err(_) => mse.f64(),
        };
        let r = raws(&points);
        let n = a.len() as f64;
        let near = nearest(&p, &q, T::EPS * 16.0);
        let size = reach(&[&p, &q, &r, &a]);
        let rounding = T::EPS * (32.0 + n) * size;
        let tolerance = |spread: f64| {
            objective_tolerance::<T, N>() * spread + 2.0 * rounding * (n * spread).sqrt() + n * rounding * rounding
        };
        if near.iter().all(|near| near.len() == 1) {
            let matched: Vec<[f64; N]> = near.iter().map(|near| q[near[0]]).collect();
            let best = align(&p, &matched);
            if now > best.residual + tolerance(best.spread) && ctx.exclude(alignment_off(&p, &matched, 1e-4, T::SINGLE)) {
                return Ok(());
            }
            ensure!(
                now <= best.residual + tolerance(best.spread),
                "iteration {iteration} of {source:?} to {target:?} left an error of {now}, the best rigid motion has {}",
                best.residual
            );
            // The result must be that of a rigid motion, whatever the error claims
            let actual: f64 = r.iter().zip(&matched).map(|(r, q)| dist2(r, q)).sum();
            ensure!(
                (actual - now).abs() <= T::EPS * (n + 8.0) * actual + 1e-30,
                "iteration {iteration} claims an error of {now}, which is {actual}"
            );
            ctx.label("optimal");
            ctx.nontrivial_if(best.gap > 0.01 && a.len() >= 3);
            // Neither can the next one be worse
            let spread = best.spread;
            if let Some(last) = last {
                ensure!(
                    now <= last * (1.0 + T::EPS * (n + 8.0)) + tolerance(spread),
                    "iteration {iteration} of {source:?} to {target:?} went from an error of {last} to {now}"
                );
                ctx.label("not worse");
            }
        } else {
            ctx.label("ambiguous neighbours");
        }
        for (i, j) in (0..a.len()).rev().flat_map(|i| (0..i).map(move |j| (i, j))).take(1 << 22) {
            let (d, e) = (dist2(&a[i], &a[j]).sqrt(), dist2(&r[i], &r[j]).sqrt());
            ensure!(
                (d - e).abs() <= rounding * 4.0,
                "iteration {iteration} changed the distance of {:?} and {:?} from {d} to {e}", a[i], a[j]
            );
        }
        last = Some(now);
        if got.is_ok() {
            break;
        }
    }
    Ok(())
}

// ---- P23 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Recovery {
    single: bool,
    dim: usize,
    target: Vec<P>,
    /// The targets which the source is made of, in this order.
    picks: Vec<usize>,
    kd: bool,
    iters: usize,
    /// Axis of the rotation and direction of the translation.
    axis: Vec<F>,
    shift: Vec<F>,
    /// How much of the allowed motion is rotation, and how much of it is used.
    part: F,
    used: F,
}

fn recovery() -> impl Strategy<Value = Recovery> {
    (any::<bool>(), 2usize..=3)
        .prop_flat_map(|(single, dim)| {
            (
                Just((single, dim)),
                // Distinct cells of a lattice, and a position within each cell
                prop_oneof![
                    1000 => (prop_oneof![Just(2i32), Just(4), Just(8)], prop_oneof![Just(6usize), Just(30)]),
                    19 => Just((24, 300)),
                    1 => Just((48, 1200))
                ].prop_flat_map(move |(k, most)| {
                    (proptest::collection::btree_set(vec(-k..=k, dim), 1..=most.min((k as usize + 1).pow(2))), vec(gen::unit(), 30 * dim))
                }),
                (prop_oneof![Just(1.0), Just(8.0), Just(0.5)], 0u8..=2, vec(-2i32..=2, dim)),
                (any::<prop::sample::Selector>(), vec(any::<Index>(), 30), 0usize..30),
                (any::<bool>(), 3usize..=20),
                (vec(gen::unit(), 3), vec(gen::unit(), 3)),
                (gen::frac(), gen::frac()),
            )
        })
        .prop_map(|((single, dim), (cells, jitter), (spacing, rough, offset), (_, order, omit), (kd, iters), (axis, shift), (part, used))| {
            let rough = [0.0, 0.05, 0.2][rough as usize];
            let target: Vec<P> = cells
                .iter()
                .enumerate()
                .map(|(i, cell)| {
                    cell.iter()
                        .enumerate()
                        .map(|(j, k)| {
                            F(gen::single(spacing * (f64::from(*k) + 10.0 * f64::from(offset[j]) + rough * jitter[(i * dim + j) % jitter.len()])))
                        })
                        .collect()
                })
                .collect();
            // Every target but a few, in any order
            let n = target.len();
            let mut picks: Vec<usize> = (0..n).collect();
            for i in 0..n {
                picks.swap(i, order[i % order.len()].index(n));
            }
            picks.truncate(n.saturating_sub(omit / 3).max(1));
            Recovery {
                single,
                dim,
                target,
                picks,
                kd,
                iters,
                axis: axis.into_iter().map(F).collect(),
                shift: shift.into_iter().map(F).collect(),
                part: F(part),
                used: F(used),
            }
        })
}

fn recovers<T: Fl, R: Rot<T, N>, const N: usize>(c: &Recovery, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let target = pts::<T, N>(&c.target);
    let q = raws(&target);
    let size = reach(&[&q]).max(1e-3);
    let picked: Vec<[f64; N]> = c.picks.iter().map(|i| q[*i]).collect();
    let mut apart = f64::INFINITY;
    for i in 0..q.len() {
        for j in 0..i {
            apart = apart.min(dist2(&q[i], &q[j]).sqrt());
        }
    }
    if !apart.is_finite() {
        apart = size;
    }
    // Nobody moves by half of the distance between the two closest targets
    let center = mean(&picked);
    let radius = picked.iter().map(|p| dist2(p, &center).sqrt()).fold(0.0, f64::max);
    let budget = 0.45 * apart * c.used.0;
    let angle = if radius > 0.0 { 2.0 * (budget * c.part.0 / (2.0 * radius)).min(1.0).asin() } else { 0.0 };
    let length = c.shift.iter().take(N).map(|v| v.0 * v.0).sum::<f64>().sqrt().max(1.0);
    let shift: [f64; N] = std::array::from_fn(|i| budget * (1.0 - c.part.0) * c.shift[i].0 / length);
    let (half_sin, half_cos) = (angle / 2.0).sin_cos();
    let components: Vec<F> = if N == 2 {
        vec![F(angle.cos()), F(angle.sin())]
    } else {
        let norm = c.axis.iter().map(|v| v.0 * v.0).sum::<f64>().sqrt();
        let axis = if norm < 1e-3 { [1.0, 0.0, 0.0] } else { [0, 1, 2].map(|i| c.axis[i].0 / norm) };
        vec![F(half_cos), F(axis[0] * half_sin), F(axis[1] * half_sin), F(axis[2] * half_sin)]
    };
    let m = rotation::<N>(&components);
    let source: Vec<Point<T, N>> = picked
        .iter()
        .map(|p| {
            let d: [f64; N] = std::array::from_fn(|i| p[i] - center[i]);
            let r = mul(&m, &d);
            Point::from(std::array::from_fn(|i| T::of(r[i] + center[i] + shift[i])))
        })
        .collect();
    let h = align(&raws(&source), &picked);
    if T::SINGLE && N == 3 && h.gap > 1e-9 && h.gap < 0.1 {
        ctx.label("poorly determined in single precision");
        return Ok(());
    }
    let tolerance = recovery_tolerance::<T, N>() * size * (1.0 + picked.len() as f64 / 100.0);
    // An error within the tolerance must not take further iterations
    let interval = (apart * apart * 0.05).max(1e-6).max(picked.len() as f64 * tolerance * tolerance);
    let config = config::<T>(c.kd, c.iters, None, F(interval));
    let got = icp(&source, &target, config.clone())
        .map_err(|e| format!("{e:?} from {source:?} to {target:?} with {config:?}"))?;
    let moved = raws(&transform_point_cloud(&source, got.transform));
    let aligned = moved.iter().zip(&picked).all(|(r, q)| dist2(r, q).sqrt() <= tolerance);
    if !(aligned && got.iteration_num <= 1)
        && ctx.exclude([&raws(&source), &picked, &moved].into_iter().any(|p| alignment_off(p, &picked, 1e-7, T::SINGLE)))
    {
        return Ok(());
    }
    for (i, (r, q)) in moved.iter().zip(&picked).enumerate() {
        let off = dist2(r, q).sqrt();
        ensure!(
            off <= tolerance,
            "source point {i} {:?} is moved to {r:?}, {off} away from where it came from: {q:?} (from {source:?} to {target:?}, {got:?})",
            source[i]
        );
    }
    let n = picked.len() as f64;
    ensure!(
        got.mse.f64() <= n * tolerance * tolerance && got.iteration_num <= 1,
        "{got:?} from {source:?} to {target:?} with {config:?}"
    );
    ctx.label_if(h.gap > 0.01, "well-determined rotation");
    ctx.label_if(angle > 0.2, "rotated by more than 0.2 radians");
    ctx.label_if(picked.len() < q.len(), "part of the target");
    ctx.nontrivial_if(picked.len() >= 3 && budget > 0.0 && h.gap > 0.01);
    Ok(())
}

fn recovery_tolerance<T: Fl, const N: usize>() -> f64 {
    match (T::SINGLE, N) {
        (true, 2) => 1e-5,
        (false, 2) => 1e-13,
        // See `objective_tolerance`
        (true, _) => 1e-2,
        (false, _) => 1e-7,
    }
}

// ---- P24 ----

fn trees<T: Fl, R: Rot<T, N>, const N: usize>(c: &Scene, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (source, target) = (pts::<T, N>(&c.source), pts::<T, N>(&c.target));
    let q = raws(&target);
    let config = scene_config::<T>(c);
    let mut transform = Isometry::<T, R, N>::identity();
    let mut points = source.clone();
    let mut mse = <T as Bounded>::max_value();
    let mut rounds = 0;
    for _ in 0..c.iters {
        rounds += 1;
        if nearest(&raws(&points), &q, T::EPS * 32.0).iter().any(|near| near.len() > 1) {
            ctx.label("ambiguous neighbours");
            return Ok(());
        }
        if icp_iteration(&source, &mut points, &target, None, &mut transform, &mut mse, &config).is_ok() {
            break;
        }
    }
    let with = icp(&source, &target, self::config::<T>(true, c.iters, c.abs, c.interval));
    let without = icp(&source, &target, self::config::<T>(false, c.iters, c.abs, c.interval));
    match (&with, &without) {
        (Ok(with), Ok(without)) => {
            let (a, b) = (
                raws(&transform_point_cloud(&source, with.transform)),
                raws(&transform_point_cloud(&source, without.transform)),
            );
            let size = reach(&[&a, &b]);
            ensure!(
                with.iteration_num == without.iteration_num
                    && (with.mse.f64() - without.mse.f64()).abs() <= with.mse.f64().abs() * T::EPS * 64.0
                    && a.iter().zip(&b).all(|(a, b)| dist2(a, b).sqrt() <= size * T::EPS * 64.0),
                "{with:?} with a tree, {without:?} without, from {source:?} to {target:?}"
            );
            ctx.label("both converged");
        }
        (Err(with), Err(without)) if with == without => ctx.label("neither converged"),
        _ => return Err(format!("{with:?} with a tree, {without:?} without, from {source:?} to {target:?}")),
    }
    ctx.label_if(rounds > 2, "more than two iterations");
    ctx.nontrivial_if(source.len() >= 2 && target.len() >= 3);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TreeCase {
    Scene(Scene),
    /// Targets which a tree could not handle do not matter without one.
    Unsuited(Unsuited),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unsuited {
    single: bool,
    dim: usize,
    source: Vec<P>,
    target: Vec<P>,
    /// Appends this many targets, in sorted order.
    sorted: usize,
}

fn unsuited() -> impl Strategy<Value = Unsuited> {
    (any::<bool>(), 2usize..=3).prop_flat_map(|(single, dim)| {
        let nan = (gen::cloud(dim, 1..=12), vec((any::<Index>(), 0..dim), 1..=3)).prop_map(|(mut v, at)| {
            for (i, axis) in at {
                let i = i.index(v.len());
                v[i][axis] = F(f64::NAN);
            }
            (v, 0usize)
        });
        let sorted = (gen::cloud(dim, 0..=3), 5_000usize..=20_000);
        (gen::cloud(dim, 1..=4), prop_oneof![20 => nan, 1 => sorted]).prop_map(move |(source, (target, sorted))| Unsuited {
            single,
            dim,
            source,
            target,
            sorted,
        })
    })
}

fn without_tree<T: Fl, R: Rot<T, N>, const N: usize>(c: &Unsuited, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let source = pts::<T, N>(&c.source);
    let mut target = pts::<T, N>(&c.target);
    target.extend((0..c.sorted).map(|i| Point::from([T::of(i as f64); N])));
    let run = move || {
        let got = icp(&source, &target, config::<T>(false, 3, None, F(0.01)));
        match got {
            Ok(_) | Err(ICPError::AlrogithmDidNotConverge) => Ok(()),
            Err(e) => Err(format!("{e:?} from {source:?}")),
        }
    };
    ctx.label(if c.sorted > 0 { "many sorted targets, no tree" } else { "NaN targets, no tree" });
    if c.sorted == 0 {
        return run();
    }
    // Nothing which is as deep as there are targets fits in here
    std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(run)
        .expect("spawn")
        .join()
        .map_err(|_| "panicked".to_string())?
}

// ---- P25 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Update {
    single: bool,
    dim: usize,
    /// Rotation between the point sets, principal directions and extents.
    rotation: Vec<F>,
    axes: Vec<F>,
    extents: [F; 3],
    mirror: bool,
    general: Option<Vec<F>>,
    scale: F,
    mean_a: Vec<F>,
    mean_b: Vec<F>,
    old_rotation: Vec<F>,
    old_translation: Vec<F>,
}

fn update() -> impl Strategy<Value = Update> {
    (any::<bool>(), 2usize..=3)
        .prop_flat_map(|(single, dim)| {
            let extent = || prop_oneof![3 => gen::frac(), 1 => Just(0.0), 2 => Just(1.0), 1 => Just(0.5), 1 => (gen::frac(), -6i32..=0).prop_map(|(f, e)| f * 10f64.powi(e))];
            let entry = prop_oneof![3 => gen::unit(), 1 => (-2i32..=2).prop_map(f64::from)];
            let at = |dim| (vec(gen::unit(), dim), prop_oneof![Just(0.0), Just(1.0), Just(100.0)])
                .prop_map(|(v, s)| v.into_iter().map(|u| F(gen::single(u * s))).collect::<Vec<F>>());
            (
                Just((single, dim)),
                (directions(dim), directions(dim)),
                (extent(), extent(), extent()),
                any::<bool>(),
                prop::option::weighted(0.3, vec(entry.prop_map(F), 9)),
                prop_oneof![3 => Just(1.0), 1 => Just(1e6), 1 => Just(1e-6), 1 => Just(3e3)],
                (at(dim), at(dim), at(dim)),
                directions(dim),
            )
        })
        .prop_map(|((single, dim), (rotation, axes), (x, y, z), mirror, general, scale, (mean_a, mean_b, old_translation), old_rotation)| Update {
            single,
            dim,
            rotation,
            axes,
            extents: [F(x), F(y), F(z)],
            mirror,
            general,
            scale: F(scale),
            mean_a,
            mean_b,
            old_rotation,
            old_translation,
        })
}

fn updates<T: Fl, R: Rot<T, N>, const N: usize>(c: &Update, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    // rotation * axes * extents * axes^T, i.e. the covariance of a rotated point set
    let entries: [[f64; N]; N] = match &c.general {
        Some(v) => std::array::from_fn(|i| std::array::from_fn(|j| v[i * N + j].0)),
        None => {
            let (r, q) = (rotation::<N>(&c.rotation), rotation::<N>(&c.axes));
            let spread = |i: usize, j: usize| -> f64 {
                (0..N)
                    .map(|k| q[i][k] * q[j][k] * c.extents[k].0 * if c.mirror && k == 0 { -1.0 } else { 1.0 })
                    .sum()
            };
            std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| r[i][k] * spread(k, j)).sum()))
        }
    };
    let matrix = SMatrix::<T, N, N>::from_fn(|i, j| T::of(entries[i][j] * c.scale.0));
    let h: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| matrix[(i, j)].f64()));
    let (mean_a, mean_b): (Point<T, N>, Point<T, N>) = (pt(&c.mean_a), pt(&c.mean_b));
    let old = isometry::<T, R, N>(&c.old_rotation, &c.old_translation);
    let new = IsometryAbstractor::<T, N>::update_transform(&old, mean_a, mean_b, &matrix);
    let describe = || format!("updating {old:?} with {matrix:?} from {mean_a:?} to {mean_b:?} gave {new:?}");

    ensure!(new.rotation.denormalized() <= T::EPS * 16.0, "{}: not a rotation", describe());
    // The step which has been composed with the old transform
    let step = Motion::of(&new).after(&Motion::of(&old).inverse());
    let (a, b) = (raw(&mean_a), raw(&mean_b));
    let got = step.apply(&a);
    let size = reach(&[&[a, b, Motion::of(&old).t, Motion::of(&new).t]]);
    for i in 0..N {
        ensure!(
            (got[i] - b[i]).abs() <= T::EPS * 64.0 * size + 1e-30,
            "{}: the centroid {a:?} is moved to {got:?} instead of {b:?}", describe()
        );
    }
    let norm = h.iter().flatten().map(|v| v * v).sum::<f64>().sqrt();
    let trace: f64 = (0..N).map(|i| (0..N).map(|j| step.m[i][j] * h[i][j]).sum::<f64>()).sum();
    let (best, gap) = best_trace(&h);
    if trace < best - objective_tolerance::<T, N>() * norm && ctx.exclude(decomposition_off(&h, 1e-4, T::SINGLE)) {
        return Ok(());
    }
    ensure!(
        trace >= best - objective_tolerance::<T, N>() * norm,
        "{}: aligns {trace} of the covariance, the best rotation aligns {best}", describe()
    );
    ctx.label_if(norm == 0.0, "no covariance");
    ctx.label_if(gap > 0.01 * norm, "well-determined rotation");
    ctx.label_if((0..N).map(|i| step.m[i][i]).sum::<f64>() < N as f64 - 3.99, "half a turn");
    ctx.nontrivial_if(gap > 0.01 * norm);
    Ok(())
}

// ---- P28 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Related {
    scene: Scene,
    /// Swaps, modulo the number of points.
    order: Vec<usize>,
    by: u8,
    rotation: Vec<F>,
    translation: Vec<F>,
    /// A power of two.
    zoom: i8,
}

fn related() -> impl Strategy<Value = Related> {
    scenes(24, 100, 600, 100).prop_flat_map(|scene| {
        let dim = scene.dim;
        let size = span(&scene.target);
        (
            Just(scene),
            vec(0usize..48, 48),
            0u8..=4,
            directions(dim),
            vec(gen::unit().prop_map(move |u| F(gen::single(u * 3.0 * size))), dim),
            -4i8..=4,
        )
            .prop_map(|(scene, order, by, rotation, translation, zoom)| Related {
                scene,
                order,
                by,
                rotation,
                translation,
                zoom,
            })
    })
}

fn relations<T: Fl, R: Rot<T, N>, const N: usize>(c: &Related, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let s = &c.scene;
    let (source, target) = (pts::<T, N>(&s.source), pts::<T, N>(&s.target));
    let q = raws(&target);
    let config = scene_config::<T>(s);

    // Only histories in which no decision is a close call
    let motion = Motion::<N> {
        m: if c.by == 3 { rotation::<N>(&c.rotation) } else { rotation::<N>(&[F(1.0), F(0.0), F(0.0), F(0.0)]) },
        t: std::array::from_fn(|i| if c.by == 2 || c.by == 3 { c.translation[i].0 } else { 0.0 }),
    };
    let size = reach(&[&q, &raws(&source)]) + reach(&[&[motion.t]]);
    let rounds = match calm(&source, &target, &config, (s.abs, s.interval, s.iters), size) {
        Ok(rounds) => rounds,
        Err(label) => {
            ctx.label(label);
            return Ok(());
        }
    };
    let tolerance = match (T::SINGLE, N) {
        (true, 2) => 1e-5,
        (false, 2) => 1e-12,
        // See `objective_tolerance`
        (true, _) => 1e-2,
        (false, _) => 1e-6,
    };

    // The same scene, seen differently
    let shuffle = |points: &[Point<T, N>]| {
        let mut out = points.to_vec();
        for i in 0..out.len() {
            let n = out.len();
            out.swap(i, c.order[i % c.order.len()] % n);
        }
        out
    };
    let move_all = |points: &[Point<T, N>]| -> Vec<Point<T, N>> {
        points.iter().map(|p| Point::from(motion.apply(&raw(p)).map(T::of))).collect()
    };
    let zoom = if c.by == 4 { 2f64.powi(i32::from(c.zoom)) } else { 1.0 };
    let (a, b) = match c.by {
        0 => (shuffle(&source), target.clone()),
        1 => (source.clone(), shuffle(&target)),
        2 | 3 => (move_all(&source), move_all(&target)),
        _ => {
            let z = T::of(zoom);
            (source.iter().map(|p| p * z).collect(), target.iter().map(|p| p * z).collect())
        }
    };
    let square = |v: F| F(v.0 * zoom * zoom);
    if c.by == 4 && [s.abs, Some(s.interval)].into_iter().flatten().any(|v| square(v).0 < 1e-6) {
        ctx.label("threshold is too small to be scaled");
        return Ok(());
    }
    // Known finding KF-d, in any of the iterations
    let off = |source: &[Point<T, N>], target: &[Point<T, N>], limit: f64| {
        let q = raws(target);
        let (mut transform, mut points, mut mse) = (Isometry::<T, R, N>::identity(), source.to_vec(), <T as Bounded>::max_value());
        (0..s.iters).any(|_| {
            let p = raws(&points);
            let matched: Vec<[f64; N]> = nearest(&p, &q, 0.0).iter().map(|near| q[near[0]]).collect();
            let _ = icp_iteration(source, &mut points, target, None, &mut transform, &mut mse, &config);
            alignment_off(&p, &matched, limit, T::SINGLE)
        })
    };
    let what = ["reordering the source", "reordering the target", "translating both", "moving both", "scaling both"][c.by as usize];
    let first = icp(&source, &target, config.clone());
    let second = icp(&a, &b, self::config::<T>(s.kd, s.iters, s.abs.map(square), square(s.interval)));
    let describe = || format!("{what}: {first:?} from {source:?} to {target:?}, {second:?} from {a:?} to {b:?}");
    let same = || match (&first, &second) {
        (Ok(x), Ok(y)) => {
            ensure!(x.iteration_num == y.iteration_num, "{}", describe());
            let tolerance = tolerance * size;
            let error = (x.mse.f64() * zoom * zoom - y.mse.f64()).abs() / (zoom * zoom);
            let n = source.len() as f64;
            ensure!(
                error <= 2.0 * tolerance * (n * x.mse.f64()).sqrt() + n * tolerance * tolerance,
                "different errors, {}", describe()
            );
            // Moving the first result is the second result of what has been moved
            let (f, g) = (Motion::of(&x.transform), Motion::of(&y.transform));
            for p in raws(&source) {
                let expected = motion.apply(&f.apply(&p)).map(|v| v * zoom);
                let got = g.apply(&motion.apply(&p).map(|v| v * zoom));
                ensure!(
                    dist2(&expected, &got).sqrt() <= tolerance * zoom,
                    "{p:?} ends up at {got:?} instead of {expected:?}, {}", describe()
                );
            }
            Ok(())
        }
        (Err(x), Err(y)) if x == y => Ok(()),
        _ => Err(describe()),
    };
    if let Err(e) = same() {
        let (scaled, limit) = (|p: &[Point<T, N>]| p.iter().map(|p| p / T::of(zoom)).collect::<Vec<_>>(), 1e-7);
        if ctx.exclude(off(&source, &target, limit) || off(&scaled(&a), &scaled(&b), limit)) {
            return Ok(());
        }
        return Err(e);
    }
    ctx.label(what);
    ctx.label_if(rounds > 2, "more than two iterations");
    ctx.nontrivial_if(source.len() >= 2 && target.len() >= 2);
    Ok(())
}

// ---- Clouds of tens of thousands of points ----

/// Targets which are at least 8 apart.
fn few_targets(random: &mut Random, dim: usize) -> Vec<P> {
    let count = random.within(4, 20);
    (0..count)
        .map(|i| {
            let cell = [i % 3, i / 3 % 3, i / 9];
            (0..dim).map(|k| F(10.0 * cell[if dim == 2 && k == 1 { 1 + usize::from(i >= 9) } else { k }] as f64
                + if dim == 2 && k == 0 && i >= 9 { 40.0 } else { 0.0 } + random.unit())).collect()
        })
        .collect()
}

/// Very many sources around a few targets, or the other way around.
fn many_scene(n: usize, random: &mut Random) -> Scene {
    let dim = random.within(2, 3) as usize;
    let few = few_targets(random, dim);
    let shift = random.point(dim, 1.5);
    let mut many: Vec<P> = (0..n)
        .map(|_| {
            let p = &few[random.within(0, few.len() as i64 - 1) as usize];
            let noise = random.point(dim, 1.0);
            (0..dim).map(|k| F(p[k].0 + shift[k].0 + noise[k].0)).collect()
        })
        .collect();
    let (source, target) = if random.flip() { (many, few) } else {
        // Only the last few are where the sources are
        let near = many.split_off(n - 400);
        many.iter_mut().for_each(|p| p[0].0 += 1000.0);
        many.extend(near);
        (few, many)
    };
    let mut directions = vec![F(1.0)];
    directions.extend((1..if dim == 2 { 2 } else { 4 }).map(|_| F(random.unit() * 0.01)));
    Scene {
        single: false,
        dim,
        kd: random.flip(),
        iters: random.within(3, 6) as usize,
        abs: None,
        interval: F(if random.flip() { source.len() as f64 * 1e-3 } else { 1e-6 }),
        rotation: directions,
        translation: random.point(dim, 1.0),
        source,
        target,
    }
}

/// A wall of points, which hold on to the targets next to them, and two points which pull them along: this takes
/// hundreds of iterations.
fn slow_scene(kd: bool, dim: usize) -> Scene {
    let mut random = Random(dim as u64);
    let at = |x: f64, y: f64| [x, y, 0.0].into_iter().take(dim).map(F).collect::<P>();
    let mut source: Vec<P> = (0..120).map(|_| at(random.unit().abs(), 0.0)).collect();
    source.extend([at(0.5, 2.0), at(0.5, -2.0)]);
    let mut target: Vec<P> = (-1000..2500).map(|i| at(f64::from(i) * 1e-3, 0.0)).collect();
    target.extend([at(1.5, 2.0), at(1.5, -2.0)]);
    for i in 0..target.len() {
        let j = random.within(0, target.len() as i64 - 1) as usize;
        target.swap(i, j);
    }
    Scene {
        single: false,
        dim,
        kd,
        iters: 1000,
        abs: None,
        interval: F(1e-7),
        rotation: [1.0, 0.0, 0.0, 0.0].into_iter().take(if dim == 2 { 2 } else { 4 }).map(F).collect(),
        translation: vec![F(0.0); dim],
        source,
        target,
    }
}

fn many_to_recover(n: usize, random: &mut Random) -> Recovery {
    let dim = random.within(2, 3) as usize;
    let target = few_targets(random, dim);
    Recovery {
        single: false,
        dim,
        picks: (0..n).map(|_| random.within(0, target.len() as i64 - 1) as usize).collect(),
        target,
        kd: random.flip(),
        iters: 10,
        axis: random.point(3, 1.0),
        shift: random.point(3, 1.0),
        part: F(random.unit().abs()),
        used: F(random.unit().abs()),
    }
}

fn main() {
    pbt_engine::main(vec![
        Prop::new(
            "P20", 2_000_000, 40_000_000,
            "up to 6 settings in any order with zero, negative, tiny, infinite and NaN thresholds, empty clouds, clouds of up to 12, rarely of up to 600 points, sources with NaN and infinities, and huge coordinates; expects one of the applicable errors, or none of them, and never a panic. Non-trivial: valid settings, or exactly one error",
            settings(), |c: &Settings, ctx| space!(c.single, c.dim, validation(c, ctx)),
        ).assuming(&["targets without NaN"]),
        Prop::with_fixed(
            "P21", 400_000, 10_000_000,
            "a source and a target of up to 40 points, rarely of up to 1500 or 80,000 (moved parts, noisy, mirrored or unrelated ones, collinear, flat, symmetric and repeated points) with thresholds relative to their size. Single iterations from anywhere are compared to their definition, whole runs to their iterations. Non-trivial: at least two points each, and not converged immediately",
            many::or_many(scenes(40, 300, 1500, 300), 200_000),
            |c, ctx| many::checked(c, ctx, many_scene, |c, ctx| space!(c.single, c.dim, contract(c, ctx))),
            many::fixed(0..6).into_iter().chain([Or::Usual(slow_scene(true, 2)), Or::Usual(slow_scene(true, 3))]).collect(),
        ),
        Prop::with_fixed(
            "P22", 500_000, 10_000_000,
            "the same scenes, up to 8 iterations from anywhere; each one is compared with the optimal rigid motion for the nearest neighbours (closed form in 2D, eigenvalues of a quaternion matrix in 3D), and with its predecessor. Non-trivial: at least 3 points with a well-determined rotation",
            many::or_many(scenes(40, 300, 1500, 300), 200_000),
            |c, ctx| many::checked(c, ctx, many_scene, |c, ctx| space!(c.single, c.dim, optimal(c, ctx))),
            many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P23", 3_000_000, 15_000_000,
            "up to 30 separated targets, rarely up to 1200, some of which (in any order; rarely 80,000 times) are moved by a rigid motion which keeps each of them within 0.45 of the smallest separation; every point must be recovered. Non-trivial: at least 3 points with a well-determined rotation",
            many::or_many(recovery(), 400_000),
            |c, ctx| many::checked(c, ctx, many_to_recover, |c, ctx| space!(c.single, c.dim, recovers(c, ctx))),
            many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P24", 300_000, 12_000_000,
            "scenes of up to 60 points, rarely of up to 2000 or 80,000, whose neighbours are not ambiguous in any iteration, registered with and without a tree; one in 21 cases has targets which a tree cannot handle (NaN, thousands of sorted ones), registered without one. Non-trivial: at least two source points and three targets",
            many::or_many(
                prop_oneof![20 => scenes(60, 500, 2000, 300).prop_map(TreeCase::Scene), 1 => unsuited().prop_map(TreeCase::Unsuited)],
                200_000,
            ),
            |c, ctx| many::checked(c, ctx, |n, random| TreeCase::Scene(many_scene(n, random)), |c, ctx| match c {
                TreeCase::Scene(c) => space!(c.single, c.dim, trees(c, ctx)),
                TreeCase::Unsuited(c) => space!(c.single, c.dim, without_tree(c, ctx)),
            }),
            many::fixed(0..6),
        ),
        Prop::new(
            "P25", 4_000_000, 80_000_000,
            "covariances of rotated point sets (half turns, mirrored, flat, collinear, isotropic and empty ones included) or any other matrix, centroids and a previous transform; the step must be a proper rotation which is optimal for the covariance, and move one centroid onto the other. Non-trivial: a well-determined rotation",
            update(), |c: &Update, ctx| space!(c.single, c.dim, updates(c, ctx)),
        ),
        Prop::new(
            "P28", 1_000_000, 15_000_000,
            "scenes of up to 24 points, rarely of up to 600, in which no decision is a close call, compared with themselves after reordering the source or the target, after translating or moving both, and after scaling both and the thresholds. Non-trivial: at least two points each",
            related(), |c: &Related, ctx| space!(c.scene.single, c.scene.dim, relations(c, ctx)),
        ),
    ]);
}
