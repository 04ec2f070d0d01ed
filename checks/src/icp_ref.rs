//! What the registration properties share: spaces, scenes and an independent reference for a single alignment step.
use crate::{dist2, raws, Fl, P};
use mapping_algorithms::point_clouds::{icp_iteration, ICPConfiguration};
use mapping_algorithms::types::{AbstractIsometry, IsometryAbstractor};
use nalgebra::{AbstractRotation, Complex, Isometry, Point, Quaternion, SVector, Translation, Unit, UnitComplex, UnitQuaternion};
use num_traits::{AsPrimitive, Bounded};
use pbt_engine::{gen, F};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;

/// The rotations of a space, built from and expressed as plain numbers.
pub trait Rot<T: Fl, const N: usize>: AbstractRotation<T, N> + Copy + Debug {
    /// Components are normalized.
    fn build(components: &[F]) -> Self;
    fn matrix(&self) -> [[f64; N]; N];
    /// How far the components are from being normalized.
    fn denormalized(&self) -> f64;
}

fn normalized<const K: usize>(components: &[F]) -> [f64; K] {
    let v: [f64; K] = std::array::from_fn(|i| components[i].0);
    let norm = v.iter().map(|c| c * c).sum::<f64>().sqrt();
    if norm < 1e-3 {
        std::array::from_fn(|i| if i == 0 { 1.0 } else { 0.0 })
    } else {
        v.map(|c| c / norm)
    }
}

impl<T: Fl> Rot<T, 2> for UnitComplex<T> {
    fn build(components: &[F]) -> Self {
        let [re, im] = normalized(components);
        Unit::new_unchecked(Complex::new(T::of(re), T::of(im)))
    }
    fn matrix(&self) -> [[f64; 2]; 2] {
        let (re, im) = (self.re.f64(), self.im.f64());
        [[re, -im], [im, re]]
    }
    fn denormalized(&self) -> f64 {
        (self.re.f64().powi(2) + self.im.f64().powi(2) - 1.0).abs()
    }
}

impl<T: Fl> Rot<T, 3> for UnitQuaternion<T> {
    fn build(components: &[F]) -> Self {
        let [w, x, y, z] = normalized(components).map(T::of);
        Unit::new_unchecked(Quaternion::new(w, x, y, z))
    }
    fn matrix(&self) -> [[f64; 3]; 3] {
        let (w, x, y, z) = (self.w.f64(), self.i.f64(), self.j.f64(), self.k.f64());
        [
            [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
            [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
            [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
        ]
    }
    fn denormalized(&self) -> f64 {
        (self.w.f64().powi(2) + self.i.f64().powi(2) + self.j.f64().powi(2) + self.k.f64().powi(2) - 1.0).abs()
    }
}

pub fn isometry<T: Fl, R: Rot<T, N>, const N: usize>(rotation: &[F], translation: &[F]) -> Isometry<T, R, N> {
    let t: [T; N] = std::array::from_fn(|i| T::of(translation[i].0));
    Isometry::from_parts(Translation::from(SVector::from(t)), R::build(rotation))
}

pub fn mul<const N: usize>(m: &[[f64; N]; N], p: &[f64; N]) -> [f64; N] {
    std::array::from_fn(|i| (0..N).map(|j| m[i][j] * p[j]).sum())
}

/// A rigid motion in f64.
#[derive(Clone, Copy, Debug)]
pub struct Motion<const N: usize> {
    pub m: [[f64; N]; N],
    pub t: [f64; N],
}

impl<const N: usize> Motion<N> {
    pub fn of<T: Fl, R: Rot<T, N>>(iso: &Isometry<T, R, N>) -> Self {
        Motion { m: iso.rotation.matrix(), t: std::array::from_fn(|i| iso.translation.vector[i].f64()) }
    }
    pub fn apply(&self, p: &[f64; N]) -> [f64; N] {
        let r = mul(&self.m, p);
        std::array::from_fn(|i| r[i] + self.t[i])
    }
    pub fn inverse(&self) -> Self {
        let m: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| self.m[j][i]));
        let t = mul(&m, &self.t);
        Motion { m, t: t.map(|v| -v) }
    }
    /// First `other`, then `self`.
    pub fn after(&self, other: &Self) -> Self {
        let m: [[f64; N]; N] =
            std::array::from_fn(|i| std::array::from_fn(|j| (0..N).map(|k| self.m[i][k] * other.m[k][j]).sum()));
        Motion { m, t: self.apply(&other.t) }
    }
}

/// A rotation matrix in f64, from any components.
pub fn rotation<const N: usize>(components: &[F]) -> [[f64; N]; N] {
    let mut out = [[0.0; N]; N];
    if N == 2 {
        let m = <UnitComplex<f64> as Rot<f64, 2>>::build(components).matrix();
        (0..N).for_each(|i| (0..N).for_each(|j| out[i][j] = m[i][j]));
    } else {
        let m = <UnitQuaternion<f64> as Rot<f64, 3>>::build(components).matrix();
        (0..N).for_each(|i| (0..N).for_each(|j| out[i][j] = m[i][j]));
    }
    out
}

/// Eigenvalues of a symmetric matrix using Jacobi rotations, in descending order.
fn eigenvalues(mut a: [[f64; 4]; 4]) -> [f64; 4] {
    for _ in 0..60 {
        let off: f64 = (0..4).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| a[i][j] * a[i][j]).sum();
        let all: f64 = a.iter().flatten().map(|v| v * v).sum();
        if off <= 1e-32 * all {
            break;
        }
        for p in 0..3 {
            for q in p + 1..4 {
                if a[p][q] == 0.0 {
                    continue;
                }
                let theta = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt());
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for row in &mut a {
                    let (x, y) = (row[p], row[q]);
                    row[p] = c * x - s * y;
                    row[q] = s * x + c * y;
                }
                for k in 0..4 {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut e = [a[0][0], a[1][1], a[2][2], a[3][3]];
    e.sort_by(|x, y| y.partial_cmp(x).expect("finite"));
    e
}

/// The largest possible `sum R_ij h_ij` over proper rotations `R`, and how much worse the runner-up direction is:
/// the optimum is unique if that is positive.
pub fn best_trace<const N: usize>(h: &[[f64; N]; N]) -> (f64, f64) {
    if N == 2 {
        let best = (h[0][0] + h[1][1]).hypot(h[1][0] - h[0][1]);
        (best, 2.0 * best)
    } else {
        // Horn's quaternion formulation
        let s = |a: usize, b: usize| h[b][a];
        let e = eigenvalues([
            [s(0, 0) + s(1, 1) + s(2, 2), s(1, 2) - s(2, 1), s(2, 0) - s(0, 2), s(0, 1) - s(1, 0)],
            [s(1, 2) - s(2, 1), s(0, 0) - s(1, 1) - s(2, 2), s(0, 1) + s(1, 0), s(2, 0) + s(0, 2)],
            [s(2, 0) - s(0, 2), s(0, 1) + s(1, 0), -s(0, 0) + s(1, 1) - s(2, 2), s(1, 2) + s(2, 1)],
            [s(0, 1) - s(1, 0), s(2, 0) + s(0, 2), s(1, 2) + s(2, 1), -s(0, 0) - s(1, 1) + s(2, 2)],
        ]);
        (e[0], e[0] - e[1])
    }
}

/// What the optimal alignment of `p` to `q` looks like.
pub struct Alignment<const N: usize> {
    pub mean_p: [f64; N],
    pub mean_q: [f64; N],
    /// `sum |p - mean p|^2 + sum |q - mean q|^2`
    pub spread: f64,
    /// The smallest possible sum of squared distances.
    pub residual: f64,
    /// How unique the optimum is, from 0 to 1.
    pub gap: f64,
}

pub fn mean<const N: usize>(ps: &[[f64; N]]) -> [f64; N] {
    std::array::from_fn(|i| ps.iter().map(|p| p[i]).sum::<f64>() / ps.len() as f64)
}

fn covariance<const N: usize>(p: &[[f64; N]], q: &[[f64; N]], mean_p: &[f64; N], mean_q: &[f64; N]) -> [[f64; N]; N] {
    let mut h = [[0.0; N]; N];
    for (p, q) in p.iter().zip(q) {
        for i in 0..N {
            for j in 0..N {
                h[i][j] += (q[i] - mean_q[i]) * (p[j] - mean_p[j]);
            }
        }
    }
    h
}

fn svd_off<T: Fl>(m: nalgebra::Matrix3<T>, limit: T) -> bool {
    let svd = m.svd(true, true);
    match (svd.u, svd.v_t) {
        (Some(u), Some(v_t)) => (u * nalgebra::Matrix3::from_diagonal(&svd.singular_values) * v_t - m).norm() > limit,
        _ => true,
    }
}

/// Known finding KF-d: whether nalgebra's decomposition of this 3D covariance, or of one which differs by rounding, is off by
/// more than `limit` (compared to its size), in `single` precision by more than at least 0.002.
pub fn decomposition_off<const N: usize>(h: &[[f64; N]; N], limit: f64, single: bool) -> bool {
    let norm = h.iter().flatten().map(|v| v * v).sum::<f64>().sqrt();
    if N != 3 || norm == 0.0 || !norm.is_finite() {
        return false;
    }
    let mut random = crate::many::Random(1);
    if single {
        let limit = limit.max(2e-3) as f32;
        return (0..20_000).any(|variant| {
            let amount = f64::from(f32::EPSILON) * [0.0, 1.0, 4.0, 16.0, 64.0][variant % 5];
            let m = nalgebra::Matrix3::from_fn(|i, j| (h[i][j] / norm + amount * random.unit()) as f32);
            svd_off(m, limit)
        });
    }
    (0..400).any(|variant| {
        let amount = norm * f64::EPSILON * [0.0, 0.25, 1.0, 4.0][variant % 4];
        svd_off(nalgebra::Matrix3::from_fn(|i, j| h[i][j] + amount * random.unit()), limit * norm)
    })
}

/// The same for these pairs of points, or ones which differ from them by rounding (which may be much more for the covariance,
/// if they are far from the origin).
pub fn alignment_off<const N: usize>(p: &[[f64; N]], q: &[[f64; N]], limit: f64, single: bool) -> bool {
    if N != 3 {
        return false;
    }
    let (size, eps) = (reach(&[p, q]), if single { f64::from(f32::EPSILON) } else { f64::EPSILON });
    let mean_q = mean(q);
    let mut random = crate::many::Random(2);
    decomposition_off(&covariance(p, q, &mean(p), &mean_q), limit, single)
        || (0..2000).any(|variant| {
            let amount = size * eps * [0.25, 1.0, 4.0, 16.0][variant % 4];
            let near: Vec<[f64; N]> = p.iter().map(|p| std::array::from_fn(|i| p[i] + amount * random.unit())).collect();
            let h = covariance(&near, q, &mean(&near), &mean_q);
            let norm = h.iter().flatten().map(|v| v * v).sum::<f64>().sqrt();
            let m = nalgebra::Matrix3::from_fn(|i, j| h[i][j] / norm);
            norm > 0.0 && norm.is_finite() && if single { svd_off(m.map(|v| v as f32), limit.max(2e-3) as f32) } else { svd_off(m, limit) }
        })
}

pub fn align<const N: usize>(p: &[[f64; N]], q: &[[f64; N]]) -> Alignment<N> {
    let (mean_p, mean_q) = (mean(p), mean(q));
    let h = covariance(p, q, &mean_p, &mean_q);
    let spread = p.iter().zip(q).map(|(p, q)| dist2(p, &mean_p) + dist2(q, &mean_q)).sum();
    let (trace, gap) = best_trace(&h);
    Alignment {
        mean_p,
        mean_q,
        spread,
        residual: (spread - 2.0 * trace).max(0.0),
        gap: if spread > 0.0 { gap / spread } else { 0.0 },
    }
}

/// The nearest target of each point, and every target which is as near up to `slack` (relative, of squared distances).
pub fn nearest<const N: usize>(points: &[[f64; N]], target: &[[f64; N]], slack: f64) -> Vec<Vec<usize>> {
    points
        .iter()
        .map(|p| {
            let all: Vec<f64> = target.iter().map(|t| dist2(p, t)).collect();
            let least = all.iter().copied().fold(f64::INFINITY, f64::min);
            let mut near: Vec<usize> = (0..all.len()).filter(|i| all[*i] <= least * (1.0 + slack)).collect();
            // The same place twice makes no difference
            near.dedup_by(|a, b| target[*a] == target[*b]);
            let first = near[0];
            if near.iter().all(|i| target[*i] == target[first]) {
                near.truncate(1);
            }
            near
        })
        .collect()
}

/// How far any of the points is from having another nearest target, compared to `reach`.
pub fn margin<const N: usize>(points: &[[f64; N]], target: &[[f64; N]], reach: f64) -> f64 {
    let mut least = f64::INFINITY;
    for p in points {
        let (mut first, mut second, mut at) = (f64::INFINITY, f64::INFINITY, [f64::NAN; N]);
        for t in target {
            let d = dist2(p, t);
            if d < first {
                if *t != at {
                    second = first;
                }
                first = d;
                at = *t;
            } else if d < second && *t != at {
                second = d;
            }
        }
        least = least.min((second.sqrt() - first.sqrt()) / reach.max(f64::MIN_POSITIVE));
    }
    least
}

pub fn reach<const N: usize>(sets: &[&[[f64; N]]]) -> f64 {
    sets.iter().flat_map(|s| s.iter()).flatten().fold(0.0, |m, v| m.max(v.abs()))
}

// ---- scenes ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scene {
    pub single: bool,
    pub dim: usize,
    pub source: Vec<P>,
    pub target: Vec<P>,
    pub kd: bool,
    pub iters: usize,
    pub abs: Option<F>,
    pub interval: F,
    /// A rotation and a translation to start from.
    pub rotation: Vec<F>,
    pub translation: Vec<F>,
}

/// Directions of a rotation: complex numbers or quaternions which are yet to be normalized.
pub fn directions(dim: usize) -> BoxedStrategy<Vec<F>> {
    let k = if dim == 2 { 2 } else { 4 };
    let exact = prop_oneof![Just(0.0), Just(1.0), Just(-1.0)];
    prop_oneof![
        // None, or a small one
        2 => Just(vec![1.0, 0.0, 0.0, 0.0]),
        5 => (vec(gen::unit(), 3), -3i32..=0).prop_map(|(v, e)| {
            let s = 10f64.powi(e);
            vec![1.0, v[0] * s, v[1] * s, v[2] * s]
        }),
        // Any, and those of quarter, third and half turns
        3 => vec(gen::unit(), 4),
        1 => vec(exact, 4),
        1 => vec(gen::unit(), 3).prop_map(|v| vec![0.0, v[0], v[1], v[2]]),
    ]
    .prop_map(move |v| {
        let v: Vec<F> = v.into_iter().take(k).map(F).collect();
        if k == 2 && v[0].0 == 0.0 && v[1].0 == 0.0 {
            vec![F(-1.0), F(0.0)]
        } else {
            v
        }
    })
    .boxed()
}

fn shapes(dim: usize, size: std::ops::RangeInclusive<usize>, extreme: bool) -> BoxedStrategy<Vec<P>> {
    prop_oneof![
        8 => gen::cloud_of(dim, size.clone(), extreme),
        // Flat, symmetric and repeated ones
        1 => (gen::cloud_of(dim, size.clone(), extreme), 0..dim).prop_map(|(mut v, axis)| {
            let at = v[0][axis];
            v.iter_mut().for_each(|p| p[axis] = at);
            v
        }),
        1 => gen::cloud_of(dim, 1..=(*size.end() / 2).max(1), extreme).prop_map(|mut v| {
            let mirrored: Vec<P> = v.iter().map(|p| p.iter().map(|c| F(-c.0)).collect()).collect();
            v.extend(mirrored);
            v
        }),
        1 => (gen::cloud_of(dim, 1..=1, extreme), size).prop_map(|(v, n)| vec![v[0].clone(); n]),
    ]
    .boxed()
}

pub fn span(points: &[P]) -> f64 {
    let n = points.len().max(1) as f64;
    let dim = points.first().map_or(0, Vec::len);
    let mean: Vec<f64> = (0..dim).map(|i| points.iter().map(|p| p[i].0).sum::<f64>() / n).collect();
    let v: f64 = points.iter().map(|p| (0..dim).map(|i| (p[i].0 - mean[i]).powi(2)).sum::<f64>()).sum();
    let span = (v / n).sqrt();
    if span > 0.0 {
        span
    } else {
        1.0
    }
}

/// A scene of at most `most` points each, rarely of up to `large`.
pub fn scenes(most: usize, large: usize, huge: usize, one_in: u32) -> BoxedStrategy<Scene> {
    prop_oneof![40 * (one_in - 1) => scene(most), 39 => scene_of(most, large), 1 => scene_of(large, huge)].boxed()
}

pub fn scene(most: usize) -> BoxedStrategy<Scene> {
    scene_of(1, most)
}

fn scene_of(least: usize, most: usize) -> BoxedStrategy<Scene> {
    (any::<bool>(), 2usize..=3)
        .prop_flat_map(move |(single, dim)| {
            (
                (Just(single), Just(dim)),
                shapes(dim, least..=most, !single),
                // Another cloud, or a moved part of the target
                (0u8..=9, shapes(dim, least..=most, !single), vec(any::<Index>(), least..=most)),
                (directions(dim), vec(gen::unit(), dim), -3i32..=1, prop_oneof![Just(0.0), Just(0.01), Just(0.2)], vec(gen::unit(), most * dim)),
                (any::<bool>(), prop_oneof![4 => 1usize..=8, 2 => 15usize..=30], prop::option::weighted(0.3, -6i32..=1), -6i32..=1),
                (directions(dim), vec(gen::unit(), dim), 0u8..=1),
            )
        })
        .prop_map(|((single, dim), target, (kind, other, picks), (dir, shift, shift_exp, noise, jitter), cfg, start)| {
            let size = span(&target);
            let source: Vec<P> = if kind <= 2 {
                other
            } else {
                let m: Vec<Vec<f64>> = if dim == 2 {
                    rotation::<2>(&dir).iter().map(|r| r.to_vec()).collect()
                } else {
                    rotation::<3>(&dir).iter().map(|r| r.to_vec()).collect()
                };
                let from: Vec<P> = if kind <= 5 {
                    picks.iter().map(|i| i.get(&target).clone()).collect()
                } else {
                    let mut all = target.clone();
                    // Every point, in another order
                    let by = picks[0].index(all.len());
                    all.rotate_left(by);
                    all
                };
                from.iter()
                    .enumerate()
                    .map(|(i, p)| {
                        (0..dim)
                            .map(|r| {
                                let p: Vec<f64> = p
                                    .iter()
                                    .enumerate()
                                    .map(|(j, c)| if kind == 9 && j == 0 { -c.0 } else { c.0 })
                                    .collect();
                                let moved: f64 = (0..dim).map(|j| m[r][j] * p[j]).sum::<f64>()
                                    + size * shift[r] * 10f64.powi(shift_exp)
                                    + size * noise * jitter[(i * dim + r) % jitter.len()];
                                F(gen::single(moved))
                            })
                            .collect()
                    })
                    .collect()
            };
            let (kd, iters, abs, interval) = cfg;
            let threshold = |e: i32| F(gen::single((size * size * 10f64.powi(e)).max(1e-6)));
            Scene {
                single,
                dim,
                source,
                target,
                kd,
                iters,
                abs: abs.map(threshold),
                interval: threshold(interval),
                rotation: start.0,
                translation: start.1.iter().map(|u| F(gen::single(u * size * f64::from(start.2)))).collect(),
            }
        })
        .boxed()
}

/// Registers like `icp` does, as far as no decision is a close call, so that rounding makes no difference to speak of:
/// the number of iterations.
pub fn calm<T: Fl, R: Rot<T, N>, const N: usize>(
    source: &[Point<T, N>],
    target: &[Point<T, N>],
    config: &ICPConfiguration<T>,
    (abs, interval, iters): (Option<F>, F, usize),
    size: f64,
) -> Result<usize, &'static str>
where
    usize: AsPrimitive<T>,
    IsometryAbstractor<T, N>: AbstractIsometry<T, N, RotType = R>,
{
    let q = raws(target);
    // Smallest margin of a neighbour, smallest gap of a rotation, usual noise
    let (least, gap, usual) = match (T::SINGLE, N) {
        (true, 2) => (1e-4, 0.02, 4e-6),
        (false, 2) => (1e-9, 0.02, 1e-13),
        // 3D decompositions are less precise
        (true, _) => (4e-3, 0.1, 1e-3),
        (false, _) => (1e-6, 0.02, 1e-7),
    };
    let mut transform = Isometry::<T, R, N>::identity();
    let mut points = source.to_vec();
    let mut mse = <T as Bounded>::max_value();
    let mut rounds = 0;
    for _ in 0..iters {
        rounds += 1;
        let p = raws(&points);
        if p.iter().flatten().any(|v| !v.is_finite()) {
            // Squares of covariances overflow in single precision
            return Err("overflow");
        }
        let matched: Vec<[f64; N]> = nearest(&p, &q, 0.0).iter().map(|near| q[near[0]]).collect();
        let aligned = align(&p, &matched);
        if margin(&p, &q, size) < least || aligned.gap < gap || aligned.spread < least * size * size {
            return Err("close call");
        }
        let before = mse;
        let got = icp_iteration(source, &mut points, target, None, &mut transform, &mut mse, config);
        let now = match &got {
            Ok(mse) => *mse,
            Err(_) => mse,
        };
        let n = points.len() as f64;
        // The error is at its minimum, so only rounding matters to the first order
        let noise = |mse: f64| {
            8.0 * T::EPS * size * n.sqrt() * mse.sqrt() + n * (usual * size).powi(2) + T::EPS * (n + 16.0) * mse
        };
        let change = (before.f64() - now.f64()).abs();
        if abs.is_some_and(|v| (now.f64() - v.0).abs() <= noise(now.f64()))
            || (change - interval.0).abs() <= noise(now.f64()) + noise(before.f64())
        {
            return Err("close call of a threshold");
        }
        if got.is_ok() {
            break;
        }
    }
    Ok(rounds)
}

/// Calls `$f::<T, Rotation, N>($args)` for the requested precision and dimension.
#[macro_export]
macro_rules! space {
    ($single:expr, $dim:expr, $f:ident $args:tt) => {
        match ($single, $dim) {
            (true, 2) => $f::<f32, nalgebra::UnitComplex<f32>, 2> $args,
            (true, _) => $f::<f32, nalgebra::UnitQuaternion<f32>, 3> $args,
            (false, 2) => $f::<f64, nalgebra::UnitComplex<f64>, 2> $args,
            (false, _) => $f::<f64, nalgebra::UnitQuaternion<f64>, 3> $args,
        }
    };
}
