//! P29: every call comes to an end, whatever the magnitudes are.
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use mapping_algorithms::{geo, lines, point_clouds as clouds, polygons};
use nalgebra::{AbstractRotation, Isometry, Point, Point2, SVector, Translation, UnitComplex, UnitQuaternion};
use num_traits::AsPrimitive;
use pbt_checks::*;
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    single: bool,
    dim: usize,
    points: Vec<P>,
    others: Vec<P>,
    call: Call,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Tree,
    Cloud { size: F, shift: P, turn: P },
    Hull { graham: bool, size: Option<F> },
    Inside,
    /// As many steps away from the first point
    Line { steps: Vec<i32> },
    Geo { radius: F },
    Icp { tree: bool, iterations: usize, absolute: Option<F>, interval: F },
}

/// Both inputs, as they are for this precision: an overflow is replaced by the largest number.
fn fit<T: Fl>(v: F) -> T {
    let max = <T as num_traits::Bounded>::max_value();
    T::of(v.0.clamp(-max.f64(), max.f64()))
}

fn fits<T: Fl, const N: usize>(ps: &[P]) -> Vec<Point<T, N>> {
    ps.iter().map(|p| Point::from(std::array::from_fn(|i| fit::<T>(p[i])))).collect()
}

fn flat<T: Fl, const N: usize>(ps: &[Point<T, N>]) -> Vec<T> {
    ps.iter().flat_map(|p| p.iter().copied()).collect()
}

fn check2<T>(c: &Case, ctx: &mut Ctx) -> CheckResult
where
    T: Fl + num_traits::Float + num_traits::FloatConst + AsPrimitive<T>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    let (points, others) = (fits::<T, 2>(&c.points), fits::<T, 2>(&c.others));
    match &c.call {
        Call::Hull { graham, size } => {
            let size = size.map(fit::<T>);
            ctx.label(if *graham { "Graham scan" } else { "Jarvis march" });
            let hull = if *graham {
                polygons::graham_scan::<T, T>(&points, false, size)
            } else {
                polygons::jarvis_march::<T, T>(&points, size)
            };
            ctx.nontrivial_if(hull.is_some());
            ensure!(hull.is_none() || points.len() >= 3, "a hull of {} points", points.len());
            if let Some(hull) = &hull {
                ensure!(hull.len() >= 3 || !graham, "a hull of {} corners", hull.len());
                ensure!(hull.len() <= 2 * points.len(), "{} corners out of {} points", hull.len(), points.len());
                if size.is_none() {
                    for corner in hull {
                        ensure!(points.contains(corner), "{corner:?} is a corner, but no point: {points:?}");
                    }
                }
            }
        }
        Call::Inside => {
            ctx.label("point in polygon");
            let all = polygons::are_multiple_points_in_polygon(&points, &others);
            let each: Vec<bool> = points.iter().map(|p| polygons::is_single_point_in_polygon(p, &others)).collect();
            ctx.nontrivial_if(points.len() > 1 && others.len() > 2);
            if let Some(all) = all {
                ensure!(all.len() == points.len(), "{} answers for {} points", all.len(), points.len());
            }
            let _ = (each, polygons::calculate_polygon_extents(&others));
        }
        Call::Geo { radius } => {
            ctx.label("geography");
            for (a, b) in points.iter().zip(&others) {
                ctx.nontrivial_if(a != b);
                let at = |p: &Point2<T>| Point2::new(p.x, p.y);
                let radius = fit::<T>(*radius).f64();
                let distance = geo::calculate_haversine_distance(at(a), at(b), T::of(radius)).f64();
                let bearing = geo::calculate_sphere_bearing(at(a), at(b)).f64();
                // Numbers of turns do not matter, but further out the difference overflows
                if [a, b].iter().all(|p| p.x.f64().abs() <= 90.0 && p.y.f64().abs() < 1e37) {
                    ctx.label("places on a sphere");
                    let most = 3.1416 * radius * (1.0 + 1e-5);
                    ensure!(distance >= 0.0 && (distance <= most || radius > 1e37), "{distance} from {a:?} to {b:?}, radius {radius}");
                    ensure!((0.0..=6.2832).contains(&bearing), "{bearing} from {a:?} to {b:?}");
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn check_in<T: Fl, R: AbstractRotation<T, N> + Copy + std::fmt::Debug, const N: usize>(c: &Case, rotation: impl Fn(&P) -> R, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    T: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let (points, others) = (fits::<T, N>(&c.points), fits::<T, N>(&c.others));
    match &c.call {
        Call::Tree => {
            ctx.label("tree");
            ctx.nontrivial_if(points.len() > 2 && !others.is_empty());
            let mut tree = KDTree::from(points.as_slice());
            for q in others.iter().chain(&points) {
                for near in [tree.nearest(q), clouds::find_nearest_neighbour_naive(q, &points)] {
                    ensure!(near.is_some() == !points.is_empty(), "{near:?} is next to {q:?}, of {points:?}");
                    ensure!(near.is_none_or(|p| points.contains(&p)), "{near:?} is next to {q:?}, of {points:?}");
                }
            }
            for q in &others {
                tree.insert(*q);
                // Different points can be so near to each other that their distance is zero
                ensure!(
                    tree.nearest(q).is_some_and(|p| (p - q).iter().all(|d| *d * *d == T::zero())),
                    "{q:?} was inserted, but {:?} is nearest",
                    tree.nearest(q)
                );
            }
        }
        Call::Cloud { size, shift, turn } => {
            ctx.label("cloud");
            ctx.nontrivial_if(points.len() > 2);
            let sampled = clouds::downsample_point_cloud_voxel(&points, fit::<T>(*size));
            ensure!(sampled.len() <= points.len(), "{} of {} points", sampled.len(), points.len());
            ensure!(sampled.is_empty() == points.is_empty(), "{} of {} points", sampled.len(), points.len());
            if !points.is_empty() {
                clouds::calculate_point_cloud_center(&points);
            }
            let sorted = clouds::lex_sort(&points);
            let sorted = sorted.ok_or("finite points are not sorted")?;
            ensure!(sorted.len() == points.len(), "{} of {} points", sorted.len(), points.len());
            ensure!(
                sorted.windows(2).all(|w| w[0].coords.iter().partial_cmp(w[1].coords.iter()).is_some_and(|o| o.is_le())),
                "not sorted: {sorted:?}"
            );
            let by = SVector::<T, N>::from(std::array::from_fn(|i| fit::<T>(shift[i])));
            let moved = clouds::transform_point_cloud(&points, Isometry::from_parts(Translation::from(by), rotation(turn)));
            ensure!(moved.len() == points.len(), "{} of {} points", moved.len(), points.len());
            let _ = flat(&moved);
        }
        Call::Line { steps } => {
            ctx.label("line");
            let Some(start) = points.first() else { return Ok(()) };
            let end: Point<T, N> = Point::from(std::array::from_fn(|i| start[i] + T::of(f64::from(steps[i]))));
            if end.iter().any(|v| !v.f64().is_finite()) {
                return Ok(());
            }
            let length = (0..N).map(|i| (end[i].f64() - start[i].f64()).abs()).fold(0.0, f64::max);
            if !(length < 1e5) {
                return Ok(());
            }
            ctx.nontrivial_if(length >= 1.0);
            let line = lines::plot_bresenham_line::<T, f64, N>(*start, end);
            ensure!(line.len() as f64 >= length.floor() && line.len() as f64 <= length + 2.0, "{} points for {length} steps", line.len());
        }
        Call::Icp { tree, iterations, absolute, interval } => {
            let config = clouds::ICPConfiguration::builder()
                .with_kd_tree(*tree)
                .with_max_iterations(*iterations)
                .with_absolute_mse_threshold(absolute.map(fit::<T>))
                .with_mse_interval_threshold(fit::<T>(*interval))
                .build();
            ctx.nontrivial_if(points.len() > 1 && others.len() > 1);
            // A single iteration does not require anything
            let searched = tree.then(|| KDTree::from(others.as_slice()));
            let mut transform = Isometry::<T, R, N>::identity();
            let (mut moved, mut mse) = (points.clone(), T::of(1.0));
            let single = clouds::icp_iteration(&points, &mut moved, &others, searched.as_ref(), &mut transform, &mut mse, &config);
            if others.is_empty() && !points.is_empty() {
                ctx.label("an iteration without a target");
                ensure!(single == Err(clouds::ICPError::NoNearestNeighbour), "{single:?} without a target");
                ensure!(
                    moved == points && mse == T::of(1.0) && transform == Isometry::identity(),
                    "an iteration without a target changed {points:?} into {moved:?}, the transform to {transform:?} or the error to {mse:?}"
                );
            } else if let Ok(error) = single {
                ensure!(error.f64() >= 0.0 && moved.len() == points.len(), "{error:?} and {moved:?} of {points:?}");
            }
            let result = clouds::icp(&points, &others, config);
            ctx.label(match &result {
                Ok(_) => "registered".into(),
                Err(e) => format!("{e:?}"),
            });
            if let Ok(success) = result {
                ensure!(success.iteration_num < *iterations, "{} iterations", success.iteration_num);
                ensure!(success.mse.f64().is_finite() && success.mse.f64() >= 0.0, "an error of {}", success.mse.f64());
                // It did not move any point out of sight, so that it is a motion
                let origin = success.transform.transform_point(&Point::origin());
                ensure!(origin.iter().all(|v| v.f64().is_finite()), "{origin:?} is where the origin goes");
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    ctx.label(if c.single { "single" } else { "double" });
    match (&c.call, c.single, c.dim) {
        (Call::Hull { .. } | Call::Inside | Call::Geo { .. }, true, _) => check2::<f32>(c, ctx),
        (Call::Hull { .. } | Call::Inside | Call::Geo { .. }, false, _) => check2::<f64>(c, ctx),
        (_, true, 2) => check_in::<f32, _, 2>(c, |t| UnitComplex::new(fit(t[0])), ctx),
        (_, false, 2) => check_in::<f64, _, 2>(c, |t| UnitComplex::new(fit(t[0])), ctx),
        (_, true, _) => check_in::<f32, _, 3>(c, |t| UnitQuaternion::from_euler_angles(fit(t[0]), fit(t[1]), fit(t[2])), ctx),
        (_, false, _) => check_in::<f64, _, 3>(c, |t| UnitQuaternion::from_euler_angles(fit(t[0]), fit(t[1]), fit(t[2])), ctx),
    }
}

/// Any magnitude at all.
fn wild() -> BoxedStrategy<f64> {
    let power = (prop_oneof![2 => -150i32..=128, 2 => -1074i32..=1023, 3 => -4i32..=4], any::<bool>(), gen::frac())
        .prop_map(|(e, neg, m)| {
            let v = 2f64.powi(e.max(-1022)) * 2f64.powi((e + 1022).min(0)) * (1.0 + m).min(1.9999999);
            if neg { -v } else { v }
        });
    prop_oneof![
        4 => power,
        2 => (-3i32..=3).prop_map(f64::from),
        1 => prop::sample::select(vec![
            f64::MAX, f64::MIN, f32::MAX as f64, f32::MIN as f64, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, 5e-324, 1.4e-45,
            -0.0, 0.0, 1e19, -1e19, 4294967296.0, f64::EPSILON, 1.0 + f64::EPSILON, 1.8446744073709552e19,
        ]),
    ]
    .boxed()
}

/// Any magnitudes, or one for all of them, or a common offset.
fn cloud(dim: usize) -> BoxedStrategy<Vec<P>> {
    let size = gen::size(0..=8, 60, 20);
    size.prop_flat_map(move |size| {
        prop_oneof![
            3 => gen::points(wild(), dim, size.clone()),
            3 => (wild(), gen::points(prop_oneof![gen::unit().boxed(), (-3i32..=3).prop_map(f64::from).boxed()].boxed(), dim, size.clone()))
                .prop_map(|(s, ps)| ps.into_iter().map(|p| p.into_iter().map(|v| F((v.0 * s).clamp(f64::MIN, f64::MAX))).collect()).collect()),
            2 => (vec(wild(), dim), vec(wild(), dim), gen::points((-3i32..=3).prop_map(f64::from).boxed(), dim, size.clone()))
                .prop_map(|(o, s, ps)| ps
                    .into_iter()
                    .map(|p| (0..p.len()).map(|i| F((o[i] + p[i].0 * s[i]).clamp(f64::MIN, f64::MAX))).collect())
                    .collect()),
            1 => vec(wild(), 1..=3)
                .prop_flat_map(move |palette| gen::points(prop::sample::select(palette).boxed(), dim, size.clone())),
        ]
    })
    .boxed()
}

fn cases() -> impl Strategy<Value = Case> {
    let positive = || wild().prop_map(|v| F(if v == 0.0 { 1.0 } else { v.abs() }));
    (2usize..=3).prop_flat_map(move |dim| {
        let call = prop_oneof![
            2 => Just(Call::Tree),
            2 => (positive(), vec(wild().prop_map(F), dim), vec(wild().prop_map(F), 3))
                .prop_map(|(size, shift, turn)| Call::Cloud { size, shift, turn }),
            3 => (any::<bool>(), prop::option::weighted(0.3, positive())).prop_map(|(graham, size)| Call::Hull { graham, size }),
            1 => Just(Call::Inside),
            1 => vec(-60i32..=60, dim).prop_map(|steps| Call::Line { steps }),
            1 => positive().prop_map(|radius| Call::Geo { radius }),
            4 => (any::<bool>(), 1usize..=20, prop::option::weighted(0.3, positive()), positive())
                .prop_map(|(tree, iterations, absolute, interval)| Call::Icp { tree, iterations, absolute, interval }),
        ];
        (any::<bool>(), cloud(dim), cloud(dim), any::<bool>(), call).prop_map(move |(single, points, others, like, call)| {
            // A slight change of the same cloud
            let others = if like { points.iter().rev().chain(others.first()).cloned().collect() } else { others };
            Case { single, dim, points, others, call }
        })
    })
}

fn main() {
    pbt_engine::main(vec![Prop::new(
        "P29",
        2_500_000,
        60_000_000,
        "a call of any part of the library with finite floating point numbers of any magnitude, from the smallest to the largest; \
         non-trivial if there are several points, a hull, or a line of several points",
        cases(),
        check,
    )
    .assuming(&[
        "lines have at most 60 steps: longer ones just take longer",
        "what is returned when intermediate results overflow is not specified, besides being a stored point, a permutation, or a subset",
    ])]);
}
