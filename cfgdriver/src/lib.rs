//! What is compared between the configurations of the library: a call, and everything observable about it.
use mapping_algorithms::kd_tree::KDTree;
use mapping_algorithms::types::{AbstractIsometry, IsNan, IsometryAbstractor};
use mapping_algorithms::{geo, lines, point_clouds as clouds, polygons};
use nalgebra::{AbstractRotation, Isometry, Point, Point2, RealField, SVector, Scalar, Translation, UnitComplex, UnitQuaternion};
use num_traits::{AsPrimitive, Bounded, Float, FloatConst, NumAssign};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::iter::Sum;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Cloud {
        dim: usize,
        points: Vec<Vec<f64>>,
        queries: Vec<Vec<f64>>,
        voxel: f64,
        rotation: Vec<f64>,
        shift: Vec<f64>,
    },
    Line {
        dim: usize,
        start: Vec<f64>,
        end: Vec<f64>,
        out: u8,
    },
    /// Whenever there is a voxel size, the calculations are exact.
    Hull {
        element: u8,
        graham: bool,
        sorted: bool,
        voxel: Option<f64>,
        points: Vec<Vec<f64>>,
    },
    Inside {
        points: Vec<Vec<f64>>,
        polygon: Vec<Vec<f64>>,
    },
    Geo {
        a: [f64; 2],
        b: [f64; 2],
        radius: f64,
    },
    Generate {
        dim: usize,
        count: usize,
        ranges: Vec<(f64, f64)>,
    },
    Icp {
        dim: usize,
        source: Vec<Vec<f64>>,
        target: Vec<Vec<f64>>,
        kd: bool,
        iters: usize,
        abs: Option<f64>,
        interval: f64,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub single: bool,
    pub call: Call,
}

/// The observations of a call.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Reply {
    pub panicked: Option<String>,
    /// Values which are the same everywhere, as bits.
    pub exact: Vec<(String, Vec<u64>)>,
    /// Values which depend on elementary functions, and how far these may be off.
    pub approx: Vec<(String, f64, f64)>,
}

impl Reply {
    fn put(&mut self, what: &str, values: impl IntoIterator<Item = f64>) {
        self.exact
            .push((what.to_string(), values.into_iter().map(|v| (v + 0.0).to_bits()).collect()));
    }
    fn near(&mut self, what: &str, value: f64, slack: f64) {
        self.approx.push((what.to_string(), value, slack));
    }
    /// What differs, if anything.
    pub fn difference(&self, other: &Reply) -> Option<String> {
        if self.panicked.is_some() || other.panicked.is_some() {
            return (self.panicked != other.panicked).then(|| format!("panics: {:?} and {:?}", self.panicked, other.panicked));
        }
        let names = |r: &Reply| {
            r.exact
                .iter()
                .map(|e| e.0.clone())
                .chain(r.approx.iter().map(|a| a.0.clone()))
                .collect::<Vec<_>>()
        };
        if names(self) != names(other) {
            return Some(format!("{:?} and {:?}", names(self), names(other)));
        }
        for (a, b) in self.exact.iter().zip(&other.exact) {
            if a.1 != b.1 {
                let show = |v: &[u64]| v.iter().map(|v| f64::from_bits(*v)).collect::<Vec<_>>();
                return Some(format!("{}: {:?} and {:?}", a.0, show(&a.1), show(&b.1)));
            }
        }
        for (a, b) in self.approx.iter().zip(&other.approx) {
            if !((a.1 - b.1).abs() <= a.2.max(b.2) || a.1 == b.1 || (a.1.is_nan() && b.1.is_nan())) {
                return Some(format!("{}: {} and {}, more than {} apart", a.0, a.1, b.1, a.2.max(b.2)));
            }
        }
        None
    }
}

/// The floating point types.
pub trait Fl:
    RealField
    + Float
    + FloatConst
    + Copy
    + Default
    + Bounded
    + NumAssign
    + Sum
    + IsNan
    + AsPrimitive<usize>
    + AsPrimitive<isize>
    + AsPrimitive<f32>
    + AsPrimitive<f64>
    + AsPrimitive<i32>
    + AsPrimitive<u64>
{
    const EPS: f64;
    fn of(v: f64) -> Self;
    fn f64(self) -> f64;
}

impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f64(self) -> f64 {
        self as f64
    }
}

impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    fn of(v: f64) -> Self {
        v
    }
    fn f64(self) -> f64 {
        self
    }
}

fn pt<T: Fl, const N: usize>(p: &[f64]) -> Point<T, N> {
    Point::from(std::array::from_fn(|i| T::of(p[i])))
}

fn pts<T: Fl, const N: usize>(ps: &[Vec<f64>]) -> Vec<Point<T, N>> {
    ps.iter().map(|p| pt(p)).collect()
}

fn flat<T: Scalar + AsPrimitive<f64>, const N: usize>(ps: &[Point<T, N>]) -> Vec<f64> {
    ps.iter()
        .flat_map(|p| p.iter().map(|v| v.as_()).collect::<Vec<_>>())
        .collect()
}

fn sorted<T: Scalar + AsPrimitive<f64>, const N: usize>(ps: &[Point<T, N>]) -> Vec<f64> {
    let mut all: Vec<[f64; N]> = ps.iter().map(|p| std::array::from_fn(|i| p[i].as_() + 0.0)).collect();
    all.sort_by(|a, b| a.partial_cmp(b).expect("comparable"));
    all.concat()
}

pub fn eval(request: &Request) -> Reply {
    if request.single {
        eval_single(&request.call)
    } else {
        eval_double(&request.call)
    }
}

macro_rules! eval_in {
    ($name:ident, $prec:ty) => {
        fn $name(call: &Call) -> Reply {
            type T = $prec;
            let mut out = Reply::default();
            match call {
                Call::Cloud {
                    dim: 2,
                    points,
                    queries,
                    voxel,
                    rotation,
                    shift,
                } => {
                    let r = UnitComplex::new_normalize(nalgebra::Complex::new(T::of(rotation[0]), T::of(rotation[1])));
                    cloud::<T, _, 2>(&mut out, points, queries, *voxel, r, shift);
                    if let Some(extents) = polygons::calculate_polygon_extents(&pts::<T, 2>(points)) {
                        out.put("extents", extents.iter().flat_map(|e| [e.start().f64(), e.end().f64()]));
                    }
                }
                Call::Cloud {
                    points,
                    queries,
                    voxel,
                    rotation,
                    shift,
                    ..
                } => {
                    let q = nalgebra::Quaternion::new(
                        T::of(rotation[0]),
                        T::of(rotation[1]),
                        T::of(rotation[2]),
                        T::of(rotation[3]),
                    );
                    cloud::<T, _, 3>(
                        &mut out,
                        points,
                        queries,
                        *voxel,
                        UnitQuaternion::new_normalize(q),
                        shift,
                    );
                }
                Call::Line {
                    dim: 2,
                    start,
                    end,
                    out: to,
                } => line::<T, 2>(&mut out, start, end, *to),
                Call::Line {
                    start, end, out: to, ..
                } => line::<T, 3>(&mut out, start, end, *to),
                Call::Hull {
                    element,
                    graham,
                    sorted,
                    voxel,
                    points,
                } => {
                    macro_rules! by_element {
                        ($t:ty) => {{
                            let points: Vec<Point2<$t>> = points
                                .iter()
                                .map(|p| Point2::new(p[0] as $t, p[1] as $t))
                                .collect();
                            hull::<T, $t>(&mut out, &points, *graham, *sorted, voxel.map(T::of))
                        }};
                    }
                    match element {
                        0 => by_element!(u8),
                        1 => by_element!(u16),
                        2 => by_element!(u32),
                        3 => by_element!(u64),
                        4 => by_element!(usize),
                        5 => by_element!(i8),
                        6 => by_element!(i16),
                        7 => by_element!(i32),
                        8 => by_element!(i64),
                        9 => by_element!(isize),
                        10 => by_element!(f32),
                        _ => by_element!(f64),
                    }
                }
                Call::Inside { points, polygon } => {
                    let (points, polygon) = (pts::<T, 2>(points), pts::<T, 2>(polygon));
                    let all = polygons::are_multiple_points_in_polygon(&points, &polygon);
                    out.put("exists", [f64::from(all.is_some())]);
                    out.put("inside", all.into_iter().flatten().map(f64::from));
                    out.put(
                        "each inside",
                        points
                            .iter()
                            .map(|p| f64::from(polygons::is_single_point_in_polygon(p, &polygon))),
                    );
                }
                Call::Geo { a, b, radius } => geography::<T>(&mut out, *a, *b, *radius),
                Call::Generate { dim: 2, count, ranges } => {
                    let got = <T as rand_uniform::Uniform>::generate::<2>(*count, ranges);
                    out.put("generated", flat(&got));
                }
                Call::Generate { count, ranges, .. } => {
                    let got = <T as rand_uniform::Uniform>::generate::<3>(*count, ranges);
                    out.put("generated", flat(&got));
                }
                Call::Icp {
                    dim: 2,
                    source,
                    target,
                    kd,
                    iters,
                    abs,
                    interval,
                } => {
                    let (source, target) = (pts::<T, 2>(source), pts::<T, 2>(target));
                    icp::<T, UnitComplex<T>, 2>(&mut out, &source, &target, config(*kd, *iters, *abs, *interval));
                }
                Call::Icp {
                    source,
                    target,
                    kd,
                    iters,
                    abs,
                    interval,
                    ..
                } => {
                    let (source, target) = (pts::<T, 3>(source), pts::<T, 3>(target));
                    icp::<T, UnitQuaternion<T>, 3>(&mut out, &source, &target, config(*kd, *iters, *abs, *interval));
                }
            }
            out
        }
    };
}
eval_in!(eval_single, f32);
eval_in!(eval_double, f64);

/// The generated element types are only bounded by a trait of the `rand` crate, which is easier not to name.
mod rand_uniform {
    use super::*;
    pub trait Uniform: Sized {
        fn generate<const N: usize>(count: usize, ranges: &[(f64, f64)]) -> Vec<Point<Self, N>>
        where
            Self: Scalar;
    }
    macro_rules! uniform {
        ($($t:ty),*) => {$(
            impl Uniform for $t {
                fn generate<const N: usize>(count: usize, ranges: &[(f64, f64)]) -> Vec<Point<$t, N>> {
                    clouds::generate_point_cloud(count, std::array::from_fn(|i| ranges[i].0 as $t..=ranges[i].1 as $t))
                }
            }
        )*};
    }
    uniform!(f32, f64);
}

fn cloud<T: Fl, R: AbstractRotation<T, N>, const N: usize>(
    out: &mut Reply,
    points: &[Vec<f64>],
    queries: &[Vec<f64>],
    voxel: f64,
    rotation: R,
    shift: &[f64],
) where
    T: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let (points, queries) = (pts::<T, N>(points), pts::<T, N>(queries));
    let mut tree = KDTree::default();
    let mut lengths = Vec::new();
    for point in &points {
        tree.insert(*point);
        lengths.push(tree.len() as f64);
    }
    out.put("lengths", lengths);
    let mut seen = Vec::new();
    tree.traverse_tree(|p| seen.push(*p));
    out.put("traversed", sorted(&seen));
    out.put("from", [KDTree::from(points.as_slice()).len() as f64]);
    let reach = points
        .iter()
        .chain(&queries)
        .flat_map(|p| p.iter())
        .fold(0.0, |m, v| f64::max(m, f64::abs(v.f64())));
    for query in &queries {
        let (near, naive) = (tree.nearest(query), clouds::find_nearest_neighbour_naive(query, &points));
        out.put("found", [f64::from(near.is_some()), f64::from(naive.is_some())]);
        // Which of several equally near points is not specified
        for (what, p) in [("nearest", near), ("naive", naive)] {
            if let Some(p) = p {
                out.put(
                    what,
                    [query.iter().zip(p.iter()).map(|(a, b)| (a.f64() - b.f64()).powi(2)).sum()],
                );
            }
        }
    }
    out.put(
        "sorted",
        clouds::lex_sort(&points).iter().flat_map(|v| flat(v)).collect::<Vec<_>>(),
    );
    out.put(
        "sorted references",
        clouds::lex_sort_ref(&points)
            .iter()
            .flat_map(|v| v.iter().flat_map(|p| flat(&[**p])).collect::<Vec<_>>())
            .collect::<Vec<_>>(),
    );
    let mut in_place = points.clone();
    clouds::lex_sort_in_place(&mut in_place);
    out.put("sorted in place", flat(&in_place));
    for v in clouds::calculate_point_cloud_center(&points).iter() {
        out.near("center", v.f64(), reach * T::EPS * 4.0 * (points.len() + 1) as f64);
    }
    let sampled = clouds::downsample_point_cloud_voxel(&points, T::of(voxel));
    out.put("downsampled", sorted(&sampled));
    let iso = Isometry::from_parts(
        Translation::from(SVector::from(std::array::from_fn::<T, N, _>(|i| T::of(shift[i])))),
        rotation,
    );
    let by: f64 = shift.iter().fold(0.0, |m: f64, v| m.max(v.abs()));
    for v in flat(&clouds::transform_point_cloud(&points, iso)) {
        out.near("transformed", v, T::EPS * 64.0 * (reach + by));
    }
}

fn line<T: Fl, const N: usize>(out: &mut Reply, start: &[f64], end: &[f64], to: u8)
where
    usize: AsPrimitive<T>,
    T: AsPrimitive<T>,
{
    let (start, end) = (pt::<T, N>(start), pt::<T, N>(end));
    let points = match to % 4 {
        0 => flat(&lines::plot_bresenham_line::<T, i32, N>(start, end)),
        1 => flat(&lines::plot_bresenham_line::<T, u64, N>(start, end)),
        2 => flat(&lines::plot_bresenham_line::<T, isize, N>(start, end)),
        _ => flat(&lines::plot_bresenham_line::<T, f32, N>(start, end)),
    };
    out.put("line", points);
}

fn hull<O: Fl, E>(out: &mut Reply, points: &[Point2<E>], graham: bool, sorted: bool, voxel: Option<O>)
where
    E: Scalar + Copy + Debug + IsNan + NumAssign + PartialOrd + AsPrimitive<O> + AsPrimitive<f64>,
    usize: AsPrimitive<E>,
{
    let hull = if graham {
        polygons::graham_scan::<O, E>(points, sorted, voxel)
    } else {
        polygons::jarvis_march::<O, E>(points, voxel)
    };
    out.put("exists", [f64::from(hull.is_some())]);
    let Some(hull) = hull else { return };
    if voxel.is_none() {
        out.put("hull", flat(&hull));
        return;
    }
    // The order of the downsampled points is arbitrary, and with it the treatment of those on the edges
    let all: Vec<(i128, i128)> = hull
        .iter()
        .map(|p| (AsPrimitive::<f64>::as_(p.x) as i128, AsPrimitive::<f64>::as_(p.y) as i128))
        .collect();
    let n = all.len();
    let mut corners: Vec<(i128, i128)> = (0..n)
        .filter(|i| {
            let (a, b, c) = (all[(i + n - 1) % n], all[*i], all[(i + 1) % n]);
            (b.0 - a.0) * (c.1 - a.1) != (b.1 - a.1) * (c.0 - a.0)
        })
        .map(|i| all[i])
        .collect();
    if let Some(first) = (0..corners.len()).min_by_key(|i| corners[*i]) {
        corners.rotate_left(first);
    }
    out.put("corners", corners.iter().flat_map(|c| [c.0 as f64, c.1 as f64]));
}

fn geography<T: Fl>(out: &mut Reply, a: [f64; 2], b: [f64; 2], radius: f64) {
    let at = |p: [f64; 2]| Point2::new(T::of(p[0]), T::of(p[1]));
    let distance = geo::calculate_haversine_distance(at(a), at(b), T::of(radius)).f64();
    let (phi_a, phi_b) = (at(a).x.f64().to_radians(), at(b).x.f64().to_radians());
    let delta = at(b) - at(a);
    let dl = delta.y.f64().to_radians();
    let (parallel, turned) = ((delta.x.f64().to_radians() / 2.0).sin().powi(2), (dl / 2.0).sin().powi(2));
    let hav = parallel + phi_a.cos() * phi_b.cos() * turned;
    let noise = 32.0 * T::EPS;
    // How far the haversine may be off. The cosine of a pole is, by as much as rounding.
    let cosine = 4.0 * T::EPS;
    let off = noise * hav.abs()
        + turned * cosine * (phi_a.cos().abs() + phi_b.cos().abs() + cosine)
        + 16.0 * <T as Float>::min_positive_value().f64();
    // Next to the antipode, the angle hardly follows from the haversine
    let slack = 2.0 * off.sqrt().min(off / hav.abs().sqrt()) / (1.0 - hav).max(noise).sqrt();
    let angle = 2.0 * hav.clamp(0.0, 1.0).sqrt().asin();
    out.near("distance", distance, radius * (2.0 * slack + noise * angle));
    let bearing = geo::calculate_sphere_bearing(at(a), at(b)).f64();
    let x = dl.sin() * phi_b.cos();
    let y = phi_a.cos() * phi_b.sin() - phi_a.sin() * phi_b.cos() * dl.cos();
    let slack = noise / x.hypot(y).max(1e-300);
    out.near("sine of the bearing", bearing.sin(), slack);
    out.near("cosine of the bearing", bearing.cos(), slack);
}

fn config<T: Fl>(kd: bool, iters: usize, abs: Option<f64>, interval: f64) -> clouds::ICPConfiguration<T>
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    clouds::ICPConfiguration::builder()
        .with_kd_tree(kd)
        .with_max_iterations(iters)
        .with_absolute_mse_threshold(abs.map(T::of))
        .with_mse_interval_threshold(T::of(interval))
        .build()
}

/// These clouds are only registered in one way, see the generator.
fn icp<T: Fl, R, const N: usize>(
    out: &mut Reply,
    source: &[Point<T, N>],
    target: &[Point<T, N>],
    config: clouds::ICPConfiguration<T>,
) where
    usize: AsPrimitive<T>,
    R: AbstractRotation<T, N>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let reach = source
        .iter()
        .chain(target)
        .flat_map(|p| p.iter())
        .fold(1.0, |m, v| f64::max(m, f64::abs(v.f64())));
    match clouds::icp(source, target, config) {
        Err(error) => out.put(&format!("{error:?}"), []),
        Ok(success) => {
            out.put("iterations", [success.iteration_num as f64]);
            let slack = if T::EPS > 1e-10 { 2e-3 } else { 1e-6 };
            for p in source {
                for v in flat(&[success.transform.transform_point(p)]) {
                    out.near("aligned", v, slack * reach);
                }
            }
            out.near("mse", success.mse.f64(), slack * reach * reach);
        }
    }
}
