//! P26: the pregenerated functions are the generic ones.
use mapping_algorithms::geo;
use mapping_algorithms::lines;
use mapping_algorithms::point_clouds as clouds;
use mapping_algorithms::polygons;
use nalgebra::Point2;
use pbt_checks::calls::*;
use pbt_checks::icp_ref::{scene, Scene};
use pbt_checks::*;
use pbt_engine::exact;
use pbt_engine::F;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Line(Line),
    Hull(Hull),
    Inside(Inside),
    Geo(Places),
    Icp(Scene),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    single: bool,
    call: Call,
}

fn cases() -> impl Strategy<Value = Case> {
    let call = prop_oneof![
        4 => line().prop_map(Call::Line),
        5 => hull().prop_map(Call::Hull),
        1 => inside().prop_map(Call::Inside),
        1 => geo_pair().prop_map(Call::Geo),
        2 => scene(8).prop_map(Call::Icp),
    ];
    (any::<bool>(), call).prop_map(|(single, mut call)| {
        if let Call::Icp(scene) = &mut call {
            scene.single = single;
        }
        Case { single, call }
    })
}

fn same<T: Debug + PartialEq>(what: &str, c: &Case, pregenerated: T, generic: T) -> CheckResult {
    // By value, and by text where the value is undefined
    ensure!(
        pregenerated == generic || format!("{pregenerated:?}") == format!("{generic:?}"),
        "{what} gives {pregenerated:?}, and the generic function {generic:?}, for {c:?}"
    );
    Ok(())
}

macro_rules! lines_of {
    ($module:ident, $prec:ty, $nd:literal, $out:expr, $start:expr, $end:expr, $c:expr, $ctx:expr) => {
        lines_of!(@ $module, $prec, $nd, $out, $start, $end, $c, $ctx, 0 i32, 1 i64, 2 isize, 3 u32, 4 u64, 5 usize, 6 f32, 7 f64)
    };
    (@ $module:ident, $prec:ty, $nd:literal, $out:expr, $start:expr, $end:expr, $c:expr, $ctx:expr, $($k:literal $t:ident),*) => {
        paste::paste! {
            match $out {
                $($k => {
                    let generic = lines::plot_bresenham_line::<$prec, $t, $nd>($start, $end);
                    $ctx.nontrivial_if(generic.len() > 2);
                    same(
                        stringify!([<plot_ $nd d_ $t _bresenham_line>]), $c,
                        lines::$module::[<plot_ $nd d_ $t _bresenham_line>]($start, $end), generic,
                    )
                })*
                _ => unreachable!(),
            }
        }
    };
}

/// The vertices of a hull of integers, without those on its edges, beginning with the smallest one.
fn vertices(hull: &Option<Vec<[f64; 2]>>, unit: f64) -> Option<Vec<(i64, i64)>> {
    let hull: Vec<(i64, i64)> = hull.as_ref()?.iter().map(|p| ((p[0] / unit) as i64, (p[1] / unit) as i64)).collect();
    let n = hull.len();
    let mut out: Vec<(i64, i64)> = (0..n)
        .filter(|i| exact::orient(hull[(i + n - 1) % n], hull[*i], hull[(i + 1) % n]) != 0)
        .map(|i| hull[i])
        .collect();
    let first = (0..out.len()).min_by_key(|i| out[*i])?;
    out.rotate_left(first);
    Some(out)
}

fn same_hull<T: Copy + Debug + PartialEq + nalgebra::Scalar + num_traits::AsPrimitive<f64>>(
    what: &str,
    c: &Case,
    ctx: &mut Ctx,
    (voxel, unit): (bool, f64),
    pregenerated: Option<Vec<Point2<T>>>,
    generic: Option<Vec<Point2<T>>>,
) -> CheckResult {
    ctx.nontrivial_if(generic.is_some());
    if !voxel {
        return same(what, c, pregenerated, generic);
    }
    // Nothing is said about the order in which downsampled points come
    let raw = |hull: &Option<Vec<Point2<T>>>| hull.as_ref().map(|h| h.iter().map(|p| [p.x.as_(), p.y.as_()]).collect());
    let (a, b) = (vertices(&raw(&pregenerated), unit), vertices(&raw(&generic), unit));
    ensure!(a == b, "{what} gives {pregenerated:?}, and the generic function {generic:?}, for {c:?}");
    Ok(())
}

macro_rules! hulls_of {
    ($module:ident, $prec:ty, $c:expr, $ctx:expr, $element:expr, $graham:expr, $sorted:expr, $voxel:expr, $points:expr, $unit:expr) => {
        hulls_of!(@ $module, $prec, $c, $ctx, $element, $graham, $sorted, $voxel, $points, $unit,
            0 u8, 1 u16, 2 u32, 3 u64, 4 usize, 5 i8, 6 i16, 7 i32, 8 i64, 9 isize, 10 f32, 11 f64)
    };
    (@ $module:ident, $prec:ty, $c:expr, $ctx:expr, $element:expr, $graham:expr, $sorted:expr, $voxel:expr, $points:expr, $unit:expr,
        $($k:literal $t:ident),*) => {
        paste::paste! {
            match $element {
                $($k => {
                    let points: Vec<Point2<$t>> = $points.iter().map(|p| Point2::new((p[0].0 * $unit) as $t, (p[1].0 * $unit) as $t)).collect();
                    let voxel: Option<$prec> = $voxel.map(|v: F| (v.0 * $unit) as $prec);
                    if $graham {
                        same_hull(
                            stringify!([<graham_scan_ $t>]), $c, $ctx, (voxel.is_some(), $unit),
                            polygons::$module::[<graham_scan_ $t>](&points, $sorted, voxel),
                            polygons::graham_scan::<$prec, $t>(&points, $sorted, voxel),
                        )
                    } else {
                        same_hull(
                            stringify!([<jarvis_march_ $t>]), $c, $ctx, (voxel.is_some(), $unit),
                            polygons::$module::[<jarvis_march_ $t>](&points, voxel),
                            polygons::jarvis_march::<$prec, $t>(&points, voxel),
                        )
                    }
                })*
                _ => unreachable!(),
            }
        }
    };
}

macro_rules! module {
    ($name:ident, $module:ident, $prec:ty) => {
        fn $name(c: &Case, ctx: &mut Ctx) -> CheckResult {
            match &c.call {
                Call::Line(Line { out, dim: 2, start, end }) => {
                    lines_of!($module, $prec, 2, *out, pt(start), pt(end), c, ctx)
                }
                Call::Line(Line { out, start, end, .. }) => {
                    lines_of!($module, $prec, 3, *out, pt(start), pt(end), c, ctx)
                }
                Call::Hull(Hull { element, graham, assume_sorted, voxel, points, zoom }) => {
                    let unit = 2f64.powi(i32::from(*zoom));
                    hulls_of!($module, $prec, c, ctx, *element, *graham, *assume_sorted, (*voxel), points, unit)
                }
                Call::Inside(Inside { points, polygon }) => {
                    let (points, polygon) = (pts::<$prec, 2>(points), pts::<$prec, 2>(polygon));
                    let generic = polygons::are_multiple_points_in_polygon(&points, &polygon);
                    ctx.nontrivial_if(generic.as_ref().is_some_and(|v| v.contains(&true) && v.contains(&false)));
                    for point in &points {
                        same(
                            "is_single_point_in_polygon", c,
                            polygons::$module::is_single_point_in_polygon(point, &polygon),
                            polygons::is_single_point_in_polygon(point, &polygon),
                        )?;
                    }
                    same(
                        "are_multiple_points_in_polygon", c,
                        polygons::$module::are_multiple_points_in_polygon(&points, &polygon),
                        generic,
                    )
                }
                Call::Geo(Places { a, b, radius }) => {
                    let at = |p: &[F; 2]| Point2::new(p[0].0 as $prec, p[1].0 as $prec);
                    let (a, b, radius) = (at(a), at(b), radius.0 as $prec);
                    ctx.nontrivial_if(a != b);
                    same(
                        "calculate_haversine_distance", c,
                        geo::$module::calculate_haversine_distance(a, b, radius),
                        geo::calculate_haversine_distance(a, b, radius),
                    )?;
                    same(
                        "calculate_sphere_bearing", c,
                        geo::$module::calculate_sphere_bearing(a, b),
                        geo::calculate_sphere_bearing(a, b),
                    )
                }
                Call::Icp(s) => {
                    let config = clouds::ICPConfiguration::<$prec>::builder()
                        .with_kd_tree(s.kd)
                        .with_max_iterations(s.iters)
                        .with_absolute_mse_threshold(s.abs.map(|v| v.0 as $prec))
                        .with_mse_interval_threshold(s.interval.0 as $prec)
                        .build();
                    macro_rules! compare {
                        ($n:literal, $f:ident) => {{
                            let (source, target) = (pts::<$prec, $n>(&s.source), pts::<$prec, $n>(&s.target));
                            let generic = clouds::icp(&source, &target, config.clone());
                            ctx.nontrivial_if(generic.is_ok());
                            let pregenerated = clouds::$module::$f(&source, &target, config.clone());
                            let (a, b) = (format!("{pregenerated:?}"), format!("{generic:?}"));
                            ensure!(a == b, "{} gives {a}, and the generic function {b}, for {c:?}", stringify!($f));
                            Ok(())
                        }};
                    }
                    if s.dim == 2 {
                        compare!(2, icp_2d)
                    } else {
                        compare!(3, icp_3d)
                    }
                }
            }
        }
    };
}
module!(single, single_precision, f32);
module!(double, double_precision, f64);

fn check(c: &Case, ctx: &mut Ctx) -> CheckResult {
    let prec = if c.single { "single" } else { "double" };
    ctx.label(match &c.call {
        Call::Line(Line { out, dim, .. }) => format!("{prec} line {dim}d {}", OUTS[*out as usize]),
        Call::Hull(Hull { element, graham, .. }) => {
            format!("{prec} {} {}", if *graham { "graham" } else { "jarvis" }, ELEMENTS[*element as usize])
        }
        Call::Inside(_) => format!("{prec} point in polygon"),
        Call::Geo(_) => format!("{prec} geography"),
        Call::Icp(s) => format!("{prec} icp {}d", s.dim),
    });
    if let Call::Hull(Hull { assume_sorted, voxel, zoom, .. }) = &c.call {
        ctx.label_if(*zoom < -5, "hull of points close to each other");
        ctx.label_if(*assume_sorted, "hull of sorted points");
        ctx.label_if(voxel.is_some(), "hull of a downsampled cloud");
    }
    if c.single {
        single(c, ctx)
    } else {
        double(c, ctx)
    }
}

fn main() {
    pbt_engine::main(vec![Prop::new(
        "P26",
        2_000_000,
        60_000_000,
        "one of the 92 pregenerated functions (every one of them is a class of its own), on inputs that tell the \
         precisions, the element types and the other arguments apart; non-trivial if the line has more than two points, \
         the hull exists, points lie both inside and outside, the places differ, or the registration converges",
        cases(),
        check,
    )
    .assuming(&["hulls of downsampled clouds are compared without vertices on their edges, as the order of a downsampled cloud is not specified"])]);
}
