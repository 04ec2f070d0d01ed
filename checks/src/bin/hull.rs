//! P04 - P07: convex hulls.
use mapping_algorithms::point_clouds::downsample_point_cloud_voxel;
use mapping_algorithms::polygons::{graham_scan, jarvis_march};
use mapping_algorithms::types::IsNan;
use nalgebra::{Point2, Scalar};
use num_traits::{AsPrimitive, NumAssign};
use pbt_checks::many::{Or, Random};
use pbt_checks::*;
use pbt_engine::exact::{self, Q};
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// Any element type of the hulls.
trait El:
    Scalar + Copy + Debug + IsNan + NumAssign + PartialOrd + AsPrimitive<f32> + AsPrimitive<f64>
{
    /// The lattice coordinates `0..=spread` placed somewhere in the range of the type.
    fn place(k: i64, spread: i64, place: u8, exp: i8) -> Self;
    fn lattice(self, spread: i64, place: u8, exp: i8) -> Option<i64>;
}

macro_rules! int_el {
    ($($t:ty),*) => {$(
        impl El for $t {
            fn place(k: i64, spread: i64, place: u8, _: i8) -> Self {
                (int_base(<$t>::MIN as i128, <$t>::MAX as i128, spread, place) + k as i128) as $t
            }
            fn lattice(self, spread: i64, place: u8, _: i8) -> Option<i64> {
                Some((self as i128 - int_base(<$t>::MIN as i128, <$t>::MAX as i128, spread, place)) as i64)
            }
        }
    )*};
}
int_el!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

/// The smallest coordinate: at either end of the type, around zero, or in between.
fn int_base(min: i128, max: i128, spread: i64, place: u8) -> i128 {
    let top = max - spread as i128;
    match place % 4 {
        0 => min,
        1 => top,
        2 => (-(spread as i128) / 2).clamp(min, top),
        _ => min + (top - min) / 3,
    }
}

macro_rules! float_el {
    ($($t:ty),*) => {$(
        impl El for $t {
            fn place(k: i64, spread: i64, place: u8, exp: i8) -> Self {
                ((k + float_base(spread, place)) as f64 * 2f64.powi(exp as i32)) as $t
            }
            fn lattice(self, spread: i64, place: u8, exp: i8) -> Option<i64> {
                let k = self as f64 / 2f64.powi(exp as i32) - float_base(spread, place) as f64;
                (k.fract() == 0.0).then_some(k as i64)
            }
        }
    )*};
}
float_el!(f32, f64);

fn float_base(spread: i64, place: u8) -> i64 {
    match place % 4 {
        0 => 0,
        1 => -spread,
        2 => -spread / 2,
        _ => spread / 3,
    }
}

const ELEMENTS: [&str; 12] =
    ["i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64"];

fn max_spread(element: &str) -> i64 {
    match element {
        "i8" | "u8" => 255,
        "i16" | "u16" => 65535,
        _ => 1 << 40,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lattice {
    element: String,
    /// The precision of the calculations.
    single: bool,
    /// Coordinates in `0..=spread`.
    points: Vec<Q>,
    spread: i64,
    place: (u8, u8),
    exp: i8,
    presorted: bool,
}

/// Up to this spread, the determinant is computed exactly.
fn exact_spread(single: bool) -> i64 {
    if single {
        1 << 11
    } else {
        1 << 26
    }
}

fn lattice_points(spread: i64, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Q>> {
    let s = spread.min(1 << 26);
    let any_point = move || (0..=s, 0..=s);
    prop_oneof![
        4 => vec(any_point(), size.clone()),
        // Around a circle (or rather, an ellipse): most of the points are vertices
        1 => vec((0u16..=720, prop_oneof![1 => 0..=(s / 16), 1 => Just(0i64)]), size.clone()).prop_map(move |v| {
            v.into_iter()
                .map(|(a, d)| {
                    let (sin, cos) = (f64::from(a) / 2.0).to_radians().sin_cos();
                    let r = (s / 2 - d / 2) as f64;
                    (((s / 2) as f64 + cos * r) as i64, ((s / 2) as f64 + sin * r) as i64)
                })
                .collect()
        }),
        // On a few lines
        2 => (vec((any_point(), any_point()), 1..=3), vec((any::<Index>(), 0i64..=6), size.clone()), Just(()))
            .prop_map(|(lines, members, ())| {
                members
                    .into_iter()
                    .map(|(which, t)| {
                        let (a, b) = *which.get(&lines);
                        // t/6 of the way, rounded to the lattice
                        (a.0 + (b.0 - a.0) * t / 6, a.1 + (b.1 - a.1) * t / 6)
                    })
                    .collect()
            }),
        // Exactly collinear
        1 => (0i64..=3, 0i64..=3, vec(0i64..=5, size)).prop_map(move |(dx, dy, ts)| {
            let f = (s / 20).max(0);
            ts.into_iter().map(|t| ((dx * t * f).min(s * dx.min(1)), dy * t * f)).collect::<Vec<_>>()
        }),
    ]
    .prop_flat_map(|points| (Just(points), any::<bool>(), any::<Index>(), any::<Index>()))
    .prop_map(move |(mut points, repeat, a, b)| {
        if repeat && !points.is_empty() {
            let (p, at) = (*a.get(&points), b.index(points.len()));
            points.insert(at, p);
        }
        points
    })
    .boxed()
}

fn lattice() -> impl Strategy<Value = Lattice> {
    // Powers of two do not change a thing
    let exp = prop_oneof![4 => -8i8..=8, 1 => -40i8..=40];
    (any::<Index>(), any::<bool>(), 0usize..=8, 0u8..=3, 0u8..=3, exp, any::<bool>(), prop_oneof![2000 => Just(0..=8usize), 2000 => Just(0..=24), 1000 => Just(0..=90), 9 => Just(90..=1500), 1 => Just(1500..=5000)])
        .prop_flat_map(|(element, single, spread, px, py, exp, presorted, size)| {
            let element = *element.get(&ELEMENTS);
            let spread = [1i64, 2, 3, 5, 9, 40, 255, 2048, 1 << 26][spread]
                .min(max_spread(element))
                .min(exact_spread(single))
                .min(if element == "f32" { 1 << 20 } else { 1 << 40 });
            lattice_points(spread, size).prop_map(move |points| Lattice {
                element: element.to_string(),
                single,
                points,
                spread,
                place: (px, py),
                exp,
                presorted,
            })
        })
}

macro_rules! by_element {
    ($element:expr, $single:expr, $f:ident $args:tt) => {
        match ($element, $single) {
            ("i8", true) => $f::<f32, i8> $args, ("i8", false) => $f::<f64, i8> $args,
            ("i16", true) => $f::<f32, i16> $args, ("i16", false) => $f::<f64, i16> $args,
            ("i32", true) => $f::<f32, i32> $args, ("i32", false) => $f::<f64, i32> $args,
            ("i64", true) => $f::<f32, i64> $args, ("i64", false) => $f::<f64, i64> $args,
            ("isize", true) => $f::<f32, isize> $args, ("isize", false) => $f::<f64, isize> $args,
            ("u8", true) => $f::<f32, u8> $args, ("u8", false) => $f::<f64, u8> $args,
            ("u16", true) => $f::<f32, u16> $args, ("u16", false) => $f::<f64, u16> $args,
            ("u32", true) => $f::<f32, u32> $args, ("u32", false) => $f::<f64, u32> $args,
            ("u64", true) => $f::<f32, u64> $args, ("u64", false) => $f::<f64, u64> $args,
            ("usize", true) => $f::<f32, usize> $args, ("usize", false) => $f::<f64, usize> $args,
            ("f32", true) => $f::<f32, f32> $args, ("f32", false) => $f::<f64, f32> $args,
            ("f64", true) => $f::<f32, f64> $args, ("f64", false) => $f::<f64, f64> $args,
            (other, _) => panic!("no element type {other}"),
        }
    };
}

trait Out: nalgebra::ComplexField + Copy + PartialOrd + num_traits::real::Real + AsPrimitive<isize> {
    fn out(v: f64) -> Self;
    const EPS: f64;
}
impl Out for f32 {
    fn out(v: f64) -> Self {
        v as f32
    }
    const EPS: f64 = f32::EPSILON as f64;
}
impl Out for f64 {
    fn out(v: f64) -> Self {
        v
    }
    const EPS: f64 = f64::EPSILON;
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Algorithm {
    Graham,
    Jarvis,
}

/// Runs the algorithm, and translates its output back to the lattice.
fn hull_of<O: Out, T: El>(c: &Lattice, algorithm: Algorithm) -> Result<Option<Vec<Q>>, String>
where
    T: AsPrimitive<O>,
    usize: AsPrimitive<T>,
{
    let place = |p: &Q| {
        Point2::new(
            T::place(p.0, c.spread, c.place.0, c.exp),
            T::place(p.1, c.spread, c.place.1, c.exp),
        )
    };
    let mut points: Vec<Point2<T>> = c.points.iter().map(place).collect();
    if c.presorted && algorithm == Algorithm::Graham {
        points.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).expect("no NaN"));
    }
    let before = points.clone();
    let hull = match algorithm {
        Algorithm::Graham => graham_scan::<O, T>(&points, c.presorted, None),
        Algorithm::Jarvis => jarvis_march::<O, T>(&points, None),
    };
    ensure!(points == before, "the input was modified");
    let Some(hull) = hull else { return Ok(None) };
    // (All of them are compared with the exact hull, too)
    for v in hull.iter().take((1 << 24) / before.len()) {
        ensure!(before.contains(v), "{algorithm:?} for {}: vertex {v:?} is not an input point", c.element);
    }
    hull.iter()
        .map(|v| {
            Some((
                v.x.lattice(c.spread, c.place.0, c.exp)?,
                v.y.lattice(c.spread, c.place.1, c.exp)?,
            ))
        })
        .collect::<Option<Vec<Q>>>()
        .ok_or_else(|| "a vertex is off the lattice".to_string())
        .map(Some)
}

fn check_graham(c: &Lattice, ctx: &mut Ctx) -> CheckResult {
    let expected = exact::hull(&c.points);
    let got = by_element!(c.element.as_str(), c.single, hull_of(c, Algorithm::Graham))?;
    ensure!(
        got == expected,
        "graham scan (calculating in {}) of {} points gives {got:?} instead of {expected:?}",
        if c.single { "f32" } else { "f64" },
        c.element
    );
    labels(c, expected.as_deref(), ctx);
    Ok(())
}

fn labels(c: &Lattice, expected: Option<&[Q]>, ctx: &mut Ctx) {
    ctx.label(format!("element {}", c.element));
    ctx.label_if(expected.is_none(), "no hull (collinear or too few)");
    ctx.label_if(c.presorted, "presorted");
    ctx.label_if(c.points.len() > 256, "more than 256 points");
    if let Some(h) = expected {
        let on_edges = c
            .points
            .iter()
            .take((1 << 24) / h.len().pow(2))
            .filter(|p| !h.contains(p) && (0..h.len()).any(|i| exact::on_segment(h[i], h[(i + 1) % h.len()], **p)))
            .count();
        ctx.label_if(on_edges > 0, "points on hull edges");
        ctx.label_if(h.len() >= 6, "at least 6 vertices");
        ctx.label_if(h.len() >= 64, "at least 64 vertices");
    }
    ctx.nontrivial_if(c.points.len() >= 3 && (expected.is_none() || c.points.len() > 3));
}

/// The vertices are in clockwise order from the smallest point, all on the boundary of the hull, without repetition,
/// and include every corner. (Points in the middle of an edge may or may not be included.)
fn validate(got: Option<&[Q]>, points: &[Q]) -> CheckResult {
    let expected = exact::hull(points);
    let (Some(got), Some(expected)) = (got, expected.as_deref()) else {
        ensure!(
            got.is_none() == expected.is_none(),
            "{got:?} is returned, the hull is {expected:?}"
        );
        return Ok(());
    };
    // Walk both boundaries together
    let n = expected.len();
    ensure!(got.first() == expected.first(), "starts at {:?} instead of {:?}", got.first(), expected[0]);
    let mut edge = 0;
    for (i, v) in got.iter().enumerate().skip(1) {
        if edge + 1 < n && *v == expected[edge + 1] {
            edge += 1;
            continue;
        }
        let (a, b) = (expected[edge], expected[(edge + 1) % n]);
        let previous = got[i - 1];
        ensure!(
            *v != b && *v != a && exact::on_segment(a, b, *v) && exact::on_segment(previous, b, *v) && *v != previous,
            "vertex {i} of {got:?} does not continue along the boundary {expected:?}"
        );
    }
    ensure!(edge + 1 == n, "{got:?} does not include all of the corners {expected:?}");
    Ok(())
}

fn check_jarvis(c: &Lattice, ctx: &mut Ctx) -> CheckResult {
    let got = by_element!(c.element.as_str(), c.single, hull_of(c, Algorithm::Jarvis))?;
    validate(got.as_deref(), &c.points)
        .map_err(|e| format!("jarvis march (calculating in {}) of {} points: {e}", if c.single { "f32" } else { "f64" }, c.element))?;
    labels(c, exact::hull(&c.points).as_deref(), ctx);
    Ok(())
}

// ---- general (inexact) floating point input ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    double_points: bool,
    single: bool,
    points: Vec<P>,
}

/// A few bunches of points, which are up to millions of times closer to each other than to the other bunches.
fn bunches(size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    let centers = vec((-1000i32..=1000, -1000i32..=1000), 1..=4);
    let member = (any::<Index>(), -8i32..=8, -8i32..=8);
    (centers, 0i32..=24, vec(member, size))
        .prop_map(|(centers, closer, members)| {
            let unit = 1000.0 / 2f64.powi(closer);
            members
                .into_iter()
                .map(|(at, x, y)| {
                    let c = at.get(&centers);
                    vec![F(f64::from(c.0) + f64::from(x) * unit), F(f64::from(c.1) + f64::from(y) * unit)]
                })
                .collect()
        })
        .boxed()
}

fn real() -> impl Strategy<Value = Real> {
    let cloud = gen::size(0..=60, 600, 400).prop_flat_map(|size| prop_oneof![4 => gen::cloud(2, size.clone()), 1 => bunches(size)]);
    (any::<bool>(), any::<bool>(), cloud, 0i8..=3, any::<bool>()).prop_map(
        |(double_points, single, mut points, rot, shift)| {
            // Lattices and lines become inexact by rotating and shifting them
            let (sin, cos) = (f64::from(rot) * 0.37).sin_cos();
            for p in &mut points {
                let (x, y) = (p[0].0, p[1].0);
                let d = if shift { 7.3 } else { 0.0 };
                if rot > 0 {
                    *p = vec![F(x * cos - y * sin + d), F(x * sin + y * cos - d)];
                }
            }
            Real { double_points, single, points }
        },
    )
}

fn cross(a: &[f64; 2], b: &[f64; 2], p: &[f64; 2]) -> f64 {
    (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
}

fn segment_distance(a: &[f64; 2], b: &[f64; 2], p: &[f64; 2]) -> f64 {
    let (d, v) = ([b[0] - a[0], b[1] - a[1]], [p[0] - a[0], p[1] - a[1]]);
    let t = ((d[0] * v[0] + d[1] * v[1]) / (d[0] * d[0] + d[1] * d[1]).max(f64::MIN_POSITIVE)).clamp(0.0, 1.0);
    (v[0] - d[0] * t).hypot(v[1] - d[1] * t)
}

/// The largest distance of a point outside of the (clockwise) polygon to its boundary, and the height of the
/// triangle at its worst reflex vertex. (Not the distance to the line through an edge: the direction of an edge between
/// two points which are very close to each other is lost in the rounding.)
fn violation(hull: &[[f64; 2]], points: &[[f64; 2]]) -> (f64, f64) {
    let mut reflex: f64 = 0.0;
    let n = hull.len();
    for i in 0..n {
        let (a, b, c) = (&hull[i], &hull[(i + 1) % n], &hull[(i + 2) % n]);
        if cross(a, b, c) > 0.0 {
            let longest = dist2(a, b).max(dist2(b, c)).max(dist2(a, c)).sqrt();
            reflex = reflex.max(cross(a, b, c) / longest.max(f64::MIN_POSITIVE));
        }
    }
    let edges = || (0..n).map(|i| (&hull[i], &hull[(i + 1) % n]));
    let outside = points
        .iter()
        .filter(|p| {
            let crossings = edges().filter(|(a, b)| (a[1] > p[1]) != (b[1] > p[1]) && (cross(a, b, p) > 0.0) == (b[1] > a[1]));
            crossings.count() % 2 == 0
        })
        .map(|p| edges().map(|(a, b)| segment_distance(a, b, p)).fold(f64::INFINITY, f64::min))
        .fold(0.0, f64::max);
    (outside, reflex)
}

fn real_hull<O: Out, T: El>(c: &Real, algorithm: Algorithm, ctx: &mut Ctx) -> CheckResult
where
    T: AsPrimitive<O> + Fl,
    usize: AsPrimitive<T>,
{
    let points = pts::<T, 2>(&c.points);
    let hull = match algorithm {
        Algorithm::Graham => graham_scan::<O, T>(&points, false, None),
        Algorithm::Jarvis => jarvis_march::<O, T>(&points, None),
    };
    if algorithm == Algorithm::Graham && points.len() > 2 {
        // A point which is not a number cannot be sorted
        let mut with_nan = points.clone();
        let (at, axis) = (with_nan.len() * 5 / 7 % with_nan.len(), with_nan.len() % 2);
        with_nan[at].coords[axis] = <T as Fl>::of(f64::NAN);
        let hull = graham_scan::<O, T>(&with_nan, false, None);
        ensure!(hull.is_none(), "the points {with_nan:?} which include NaN have a hull: {hull:?}");
    }
    let exact_points = raws(&points);
    let span = exact_points
        .iter()
        .flat_map(|p| exact_points.iter().map(move |q| dist2(p, q)))
        .fold(0.0, f64::max)
        .sqrt();
    let tolerance = span * if O::EPS.max(<T as Fl>::EPS) > 1e-10 { 2e-3 } else { 1e-9 };
    ctx.label_if(c.single, "calculated in f32");
    ctx.nontrivial_if(points.len() > 3 && span > 0.0);
    match hull {
        None => {
            // Then all the points are within the tolerance of a line
            if let Some(width) = width(&exact_points) {
                ctx.label("no hull");
                ensure!(width <= tolerance, "{algorithm:?} finds no hull of points which are {width} wide (span {span})");
            }
        }
        Some(hull) => {
            // Where the hull is thinner than the rounding, both of its sides may include the same point
            let most = points.len() * if algorithm == Algorithm::Graham { 2 } else { 1 };
            ensure!(hull.len() >= 3 && hull.len() <= most, "{} vertices for {} points", hull.len(), points.len());
            for v in &hull {
                ensure!(points.contains(v), "vertex {v:?} is not an input point");
            }
            let hull = raws(&hull);
            let (outside, reflex) = violation(&hull, &exact_points);
            ensure!(outside <= tolerance, "{algorithm:?}: a point is {outside} outside of the hull {hull:?} (span {span})");
            ensure!(reflex <= tolerance, "{algorithm:?}: the hull {hull:?} is not convex, by {reflex} (span {span})");
            // Walking along the hull covers each direction exactly once
            let area: f64 = (0..hull.len())
                .map(|i| {
                    let (a, b, o) = (hull[i], hull[(i + 1) % hull.len()], hull[0]);
                    ((a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])) / 2.0
                })
                .sum();
            let reference = area_of(&exact_points);
            ensure!(
                (-area - reference).abs() <= tolerance * span * 4.0,
                "{algorithm:?}: the (clockwise) area of the hull {hull:?} is {} instead of {reference}",
                -area
            );
        }
    }
    Ok(())
}

/// A plain monotone chain in f64.
fn float_hull(points: &[[f64; 2]]) -> Vec<[f64; 2]> {
    let mut p = points.to_vec();
    p.sort_by(|a, b| a.partial_cmp(b).expect("no NaN"));
    p.dedup();
    let chain = |it: &mut dyn Iterator<Item = [f64; 2]>| {
        let mut out: Vec<[f64; 2]> = Vec::new();
        for c in it {
            while out.len() > 1 && {
                let (a, b) = (out[out.len() - 2], out[out.len() - 1]);
                (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) >= 0.0
            } {
                out.pop();
            }
            out.push(c);
        }
        out.pop();
        out
    };
    let mut h = chain(&mut p.iter().copied());
    h.extend(chain(&mut p.iter().rev().copied()));
    h
}

fn area_of(points: &[[f64; 2]]) -> f64 {
    let h = float_hull(points);
    if h.len() < 3 {
        return 0.0;
    }
    -(0..h.len())
        .map(|i| {
            let (a, b, o) = (h[i], h[(i + 1) % h.len()], h[0]);
            ((a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])) / 2.0
        })
        .sum::<f64>()
}

/// The distance of the furthest point from the line through the two most distant points.
fn width(points: &[[f64; 2]]) -> Option<f64> {
    if points.len() < 3 {
        return None;
    }
    let (a, b) = points
        .iter()
        .flat_map(|p| points.iter().map(move |q| (p, q)))
        .max_by(|x, y| dist2(x.0, x.1).partial_cmp(&dist2(y.0, y.1)).expect("no NaN"))?;
    let len = dist2(a, b).sqrt();
    if len == 0.0 {
        return None;
    }
    Some(
        points
            .iter()
            .map(|p| (((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / len).abs())
            .fold(0.0, f64::max),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HullCase {
    Exact(Lattice),
    Inexact(Real),
}

fn hull_case() -> impl Strategy<Value = HullCase> {
    prop_oneof![
        5 => lattice().prop_map(HullCase::Exact),
        1 => real().prop_map(HullCase::Inexact),
    ]
}

fn check_real(c: &Real, algorithm: Algorithm, ctx: &mut Ctx) -> CheckResult {
    ctx.label("inexact floats");
    match (c.single, c.double_points) {
        (true, false) => real_hull::<f32, f32>(c, algorithm, ctx),
        (true, true) => real_hull::<f32, f64>(c, algorithm, ctx),
        (false, false) => real_hull::<f64, f32>(c, algorithm, ctx),
        (false, true) => real_hull::<f64, f64>(c, algorithm, ctx),
    }
}

// ---- P06: representation independence ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agree {
    points: Vec<Q>,
    spread: i64,
    order: Vec<usize>,
    swap: bool,
    flip: bool,
}

fn agree() -> impl Strategy<Value = Agree> {
    (prop_oneof![Just(6i64), Just(30), Just(127), Just(255)], prop_oneof![1500 => Just(0..=20usize), 495 => Just(0..=300), 4 => Just(300..=1200), 1 => Just(1200..=5000)])
        .prop_flat_map(|(spread, size)| (lattice_points(spread, size), Just(spread)))
        .prop_flat_map(|(points, spread)| {
            let n = points.len();
            (
                Just(points),
                Just(spread),
                Just((0..n).collect::<Vec<_>>()).prop_shuffle(),
                vec(any::<Index>(), 0..=3),
                any::<bool>(),
                any::<bool>(),
            )
        })
        .prop_map(|(points, spread, mut order, repeats, swap, flip)| {
            if !order.is_empty() {
                for r in repeats {
                    let again = *r.get(&order);
                    order.push(again);
                }
            }
            Agree { points, spread, order, swap, flip }
        })
}

/// Drops the vertices in the middle of edges, and starts with the first corner in lexicographic order: where a hull
/// starts is P04's and P05's.
fn corners(hull: Option<Vec<Q>>) -> Option<Vec<Q>> {
    let h = hull?;
    let n = h.len();
    let mut h: Vec<Q> = (0..n)
        .filter(|&i| exact::orient(h[(i + n - 1) % n], h[i], h[(i + 1) % n]) != 0)
        .map(|i| h[i])
        .collect();
    let first = (0..h.len()).min_by_key(|&i| h[i]).unwrap_or(0);
    h.rotate_left(first);
    Some(h)
}

fn check_agree(c: &Agree, ctx: &mut Ctx) -> CheckResult {
    let base = |element: &str, single: bool, points: &[Q], place: (u8, u8), exp: i8| Lattice {
        element: element.to_string(),
        single,
        points: points.to_vec(),
        spread: c.spread,
        place,
        exp,
        presorted: false,
    };
    let reference = corners(by_element!("f64", false, hull_of(&base("f64", false, &c.points, (0, 0), 0), Algorithm::Graham))?);
    let shuffled: Vec<Q> = c.order.iter().map(|&i| c.points[i]).collect();
    let mut i = 0u8;
    for element in ELEMENTS {
        for single in [true, false] {
            for algorithm in [Algorithm::Graham, Algorithm::Jarvis] {
                i = i.wrapping_add(1);
                let case = base(element, single, &shuffled, (i % 4, (i / 4) % 4), (i % 5) as i8 - 2);
                let got = corners(by_element!(element, single, hull_of(&case, algorithm))?);
                ensure!(
                    got == reference,
                    "{algorithm:?} of the shuffled points as {element} (single precision: {single}, placed {:?}) gives {got:?}, \
                     graham scan of the f64 points gives {reference:?}",
                    case.place
                );
            }
        }
    }
    // Mirroring the points mirrors the hull
    let mirrored: Vec<Q> = c
        .points
        .iter()
        .map(|p| {
            let p = if c.flip { (c.spread - p.0, p.1) } else { *p };
            if c.swap { (p.1, p.0) } else { p }
        })
        .collect();
    let got = hull_of::<f64, f64>(&base("f64", false, &mirrored, (0, 0), 0), Algorithm::Graham)?;
    let as_set = |h: Option<Vec<Q>>, back: bool| {
        h.map(|h| {
            let mut h: Vec<Q> = h
                .into_iter()
                .map(|p| {
                    if !back {
                        return p;
                    }
                    let p = if c.swap { (p.1, p.0) } else { p };
                    if c.flip { (c.spread - p.0, p.1) } else { p }
                })
                .collect();
            h.sort_unstable();
            h
        })
    };
    ensure!(
        as_set(got.clone(), true) == as_set(reference.clone(), false),
        "the hull of the mirrored points is {got:?}, the one of the points is {reference:?}"
    );
    // Neither the hull's own vertices nor midpoints change the hull
    if let Some(h) = &reference {
        let mut more = c.points.clone();
        more.extend(h.iter().copied());
        let n = h.len();
        for i in 0..n {
            let (a, b) = (h[i], h[(i + n / 2) % n]);
            if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
                more.insert(i, ((a.0 + b.0) / 2, (a.1 + b.1) / 2));
            }
        }
        for algorithm in [Algorithm::Graham, Algorithm::Jarvis] {
            let got = corners(hull_of::<f64, f64>(&base("f64", false, &more, (0, 0), 0), algorithm)?);
            ensure!(
                got.as_ref() == Some(h),
                "{algorithm:?} gives {got:?} after adding points inside of the hull {h:?}"
            );
        }
    }
    ctx.label_if(reference.is_none(), "no hull");
    ctx.label_if(c.points.len() > 100, "more than 100 points");
    ctx.nontrivial_if(c.points.len() > 3);
    Ok(())
}

// ---- P07: downsampling ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Voxel {
    element: String,
    single: bool,
    points: Vec<Q>,
    /// Added to each coordinate.
    offset: (i64, i64),
    exp: i8,
    /// In units of the lattice.
    voxel: i64,
    assume_sorted: bool,
    presorted: bool,
}

fn voxel() -> impl Strategy<Value = Voxel> {
    (
        any::<Index>(),
        any::<bool>(),
        prop_oneof![Just(6i64), Just(30), Just(100), Just(255)],
        0usize..=6,
        (-1i64..=1, -1i64..=1),
        -2i8..=3,
        any::<bool>(),
        any::<bool>(),
        prop_oneof![3000 => Just(0..=24usize), 990 => Just(0..=200), 9 => Just(200..=1500), 1 => Just(1500..=5000)],
    )
        .prop_flat_map(|(element, single, spread, voxel, shift, exp, assume_sorted, presorted, size)| {
            let element = *element.get(&ELEMENTS);
            let spread = if element == "i8" { spread.min(127) } else { spread };
            let offset = |s: i64| match element {
                "i8" => [-128, -(spread / 2), 127 - spread][(s + 1) as usize],
                "u8" => [0, 0, 255 - spread][(s + 1) as usize],
                "u16" | "u32" | "u64" | "usize" => [0, 0, 60_000][(s + 1) as usize],
                _ => s * [spread, spread / 2, 900][(s + 1) as usize],
            };
            let (dx, dy) = (offset(shift.0), offset(shift.1));
            lattice_points(spread, size).prop_map(move |points| Voxel {
                element: element.to_string(),
                single,
                points,
                offset: (dx, dy),
                exp: if element.starts_with('f') { exp } else { 0 },
                voxel: [1, 2, 3, 4, 8, 10, 50][voxel],
                assume_sorted,
                presorted,
            })
        })
}

/// Known finding: the sum or the number of the points of a voxel is calculated in the type of the coordinates.
fn overflows(c: &Voxel) -> bool {
    let (min, max) = match c.element.as_str() {
        "i8" => (i8::MIN as i64, i8::MAX as i64),
        "u8" => (0, u8::MAX as i64),
        "i16" => (i16::MIN as i64, i16::MAX as i64),
        "u16" => (0, u16::MAX as i64),
        _ => (-(1 << 31), (1 << 31) - 1),
    };
    let mut cells: std::collections::BTreeMap<(i64, i64), (i64, i64, i64)> = Default::default();
    let mut hit = false;
    for p in &c.points {
        let p = (p.0 + c.offset.0, p.1 + c.offset.1);
        let cell = cells.entry((p.0.div_euclid(c.voxel), p.1.div_euclid(c.voxel))).or_default();
        *cell = (cell.0 + p.0, cell.1 + p.1, cell.2 + 1);
        hit |= !(min..=max).contains(&cell.0) || !(min..=max).contains(&cell.1) || cell.2 > max;
    }
    hit
}

fn check_voxel(c: &Voxel, ctx: &mut Ctx) -> CheckResult {
    if ctx.exclude(overflows(c)) {
        return Ok(());
    }
    by_element!(c.element.as_str(), c.single, run_voxel(c, ctx))
}

fn run_voxel<O: Out, T: El>(c: &Voxel, ctx: &mut Ctx) -> CheckResult
where
    T: AsPrimitive<O>,
    usize: AsPrimitive<T>,
    f64: AsPrimitive<T>,
    i64: AsPrimitive<T>,
{
    let unit = 2f64.powi(i32::from(c.exp));
    let is_float = c.element.starts_with('f');
    let convert = |k: i64| -> T {
        if is_float {
            (k as f64 * unit).as_()
        } else {
            k.as_()
        }
    };
    let mut points: Vec<Point2<T>> = c
        .points
        .iter()
        .map(|p| Point2::new(convert(p.0 + c.offset.0), convert(p.1 + c.offset.1)))
        .collect();
    let sort = |v: &mut Vec<Point2<T>>| v.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).expect("no NaN"));
    if c.presorted || c.assume_sorted {
        sort(&mut points);
    }
    let size = O::out(c.voxel as f64 * unit);
    let enough = points.len() >= 3;
    let mut reduced = downsample_point_cloud_voxel::<T, O, 2>(&points, size);
    sort(&mut reduced);
    let expected = if enough { graham_scan::<O, T>(&reduced, true, None) } else { None };
    for assume_sorted in [c.assume_sorted, false] {
        let got = graham_scan::<O, T>(&points, assume_sorted, Some(size));
        ensure!(
            got == expected,
            "graham scan with downsampling (assuming sorted input: {assume_sorted}) gives {got:?}, \
             the hull of the downsampled points is {expected:?}"
        );
    }
    let got = jarvis_march::<O, T>(&points, Some(size));
    // Up to the collinear vertices, which depend on the order of the downsampled points
    let as_f64 = |h: &Vec<Point2<T>>| -> Vec<[f64; 2]> { h.iter().map(|p| [p.x.as_(), p.y.as_()]).collect() };
    let span = 400.0 * unit.max(1.0) + c.offset.0.abs().max(c.offset.1.abs()) as f64 * unit;
    let tolerance = span * if O::EPS > 1e-10 || c.element == "f32" { 1e-3 } else { 1e-9 };
    let reduced = as_f64(&reduced);
    match (&got, &expected) {
        (None, None) => {}
        (Some(got), _) => {
            for v in as_f64(got) {
                ensure!(
                    reduced.iter().any(|p| dist2(p, &v).sqrt() <= tolerance),
                    "vertex {v:?} of jarvis march with downsampling is not a downsampled point"
                );
            }
            let (outside, reflex) = violation(&as_f64(got), &reduced);
            ensure!(
                outside <= tolerance && reflex <= tolerance,
                "jarvis march with downsampling gives {got:?}, which is not the convex hull of {reduced:?}"
            );
        }
        (None, Some(expected)) => {
            let width = width(&reduced).unwrap_or(0.0);
            ensure!(
                width <= tolerance,
                "jarvis march with downsampling finds no hull, graham scan finds {expected:?}"
            );
        }
    }
    ctx.label(format!("element {}", c.element));
    ctx.label_if(c.assume_sorted, "assuming sorted input");
    ctx.label_if(expected.is_none(), "no hull");
    ctx.nontrivial_if(expected.is_some() && reduced.len() < points.len());
    Ok(())
}

/// Points within a parabola, some of which (or all) are on it, so that they are corners.
fn many_corners(n: usize, random: &mut Random, corners: usize) -> Lattice {
    let spread = 1i64 << 34;
    let reach = (corners as i64 + 1).min(1 << 17);
    let mut points: Vec<Q> = (0..corners as i64).map(|i| (i, i * i)).collect();
    while points.len() < n {
        let (x, y) = (random.within(0, reach - 2), random.within(0, (reach - 2).pow(2)));
        if y > x * x && y * (corners as i64 - 1) < (corners as i64 - 1).pow(2) * x {
            points.push((x, y));
        }
    }
    for i in 0..n {
        points.swap(i, random.within(0, n as i64 - 1) as usize);
    }
    Lattice { element: "f64".into(), single: false, points, spread, place: (0, 0), exp: 0, presorted: random.flip() }
}

fn many_graham(n: usize, random: &mut Random) -> HullCase {
    let corners = if random.flip() { n } else { 300 };
    HullCase::Exact(many_corners(n, random, corners))
}

fn many_jarvis(n: usize, random: &mut Random) -> HullCase {
    HullCase::Exact(many_corners(n, random, 300))
}

fn many_voxel(n: usize, random: &mut Random) -> Voxel {
    Voxel {
        element: if random.flip() { "f64" } else { "i32" }.into(),
        single: false,
        points: (0..n).map(|_| (random.within(0, 1000), random.within(0, 1000))).collect(),
        offset: (0, 0),
        exp: 0,
        // Mostly one point each, or tens of thousands
        voxel: if random.flip() { 1 } else { 900 },
        assume_sorted: random.flip(),
        presorted: false,
    }
}

fn fixed_lattice(element: &str, single: bool, points: &[Q], spread: i64) -> HullCase {
    HullCase::Exact(Lattice {
        element: element.into(),
        single,
        points: points.to_vec(),
        spread,
        place: (0, 0),
        exp: 0,
        presorted: false,
    })
}

fn fixed_hulls() -> Vec<Or<HullCase>> {
    let square = [(0, 0), (0, 1), (1, 0), (1, 1)];
    let mut cases = vec![
        // jarvis march never came back to the start
        fixed_lattice("f64", false, &[(1, 1), (2, 2), (0, 0)], 2),
        // ... or skipped a vertex
        fixed_lattice("f64", false, &[(0, 1), (0, 2), (0, 0), (1, 1)], 2),
        fixed_lattice("i64", false, &[(0, 0), (3, 0), (1, 0), (2, 0)], 3),
    ];
    // Differences overflowed
    for element in ELEMENTS {
        cases.push(fixed_lattice(element, true, &square, 1));
        cases.push(fixed_lattice(element, false, &[(0, 0), (0, 255), (255, 0), (255, 255), (100, 3)], 255));
    }
    let mut all = many::fixed(0..6);
    all.extend(cases.into_iter().map(Or::Usual));
    all
}

fn main() {
    pbt_engine::main(vec![
        Prop::with_fixed(
            "P04", 1_200_000, 30_000_000,
            "up to 90 (rarely 5000 or 80,000) lattice points (random, elliptic, on a few lines, exactly collinear, with duplicates) placed anywhere in one of the 12 element types, calculated in f32 or f64 within the range where that is exact, compared with an exact hull; one in six cases has arbitrary floats, checked for containment, convexity and area up to a tolerance. Non-trivial: more than 3 points, or 3 collinear ones",
            many::or_many(hull_case(), 200_000), |c, ctx| many::checked(c, ctx, many_graham, |c, ctx| match c {
                HullCase::Exact(c) => check_graham(c, ctx),
                HullCase::Inexact(c) => check_real(c, Algorithm::Graham, ctx),
            }), fixed_hulls(),
        ),
        Prop::with_fixed(
            "P05", 1_200_000, 30_000_000,
            "the same cases; the result has to walk once, clockwise, along the exact hull, through all of its corners (points in the middle of an edge may be included). A result which grows without bound exceeds the memory budget of the case. Non-trivial: more than 3 points, or 3 collinear ones",
            many::or_many(hull_case(), 200_000), |c, ctx| many::checked(c, ctx, many_jarvis, |c, ctx| match c {
                HullCase::Exact(c) => check_jarvis(c, ctx),
                HullCase::Inexact(c) => check_real(c, Algorithm::Jarvis, ctx),
            }), fixed_hulls(),
        ),
        Prop::new(
            "P06", 150_000, 4_000_000,
            "up to 300 (rarely 5000) lattice points: both algorithms, 12 element types and both precisions on shuffled points with repetitions, placed anywhere in the type, have to agree with graham scan of the f64 points; so has the hull of mirrored points, and of points with additional points inside. Non-trivial: more than 3 points",
            agree(), check_agree,
        ),
        Prop::with_fixed(
            "P07", 600_000, 15_000_000,
            "up to 200 (rarely 5000 or 80,000) lattice points in one of 12 element types, a voxel size, and whether (sorted) input is declared as sorted: both algorithms with downsampling have to give the hull of the downsampled points. Non-trivial: there is a hull and downsampling merged some points",
            many::or_many(voxel(), 200_000), |c, ctx| many::checked(c, ctx, many_voxel, check_voxel), many::fixed(0..6),
        ).min_nontrivial(0.2),
    ]);
}
