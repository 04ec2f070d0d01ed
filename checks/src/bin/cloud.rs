//! P15 - P19: voxel downsampling, sorting, centroids, transforms and generation of point clouds.
use mapping_algorithms::point_clouds::*;
use mapping_algorithms::types::IsNan;
use nalgebra::{
    AbstractRotation, Complex, Isometry, Point, Quaternion, Rotation, Rotation2, Rotation3, SMatrix, SVector, Scalar,
    Translation, Unit, UnitComplex, UnitQuaternion,
};
use num_traits::{AsPrimitive, NumAssign};
use pbt_checks::many::Random;
use pbt_checks::*;
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

// ---- P15 ----

const TYPES: [&str; 10] = ["f32", "f64", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Voxels {
    /// An index into `TYPES`.
    t: u8,
    /// Whether the voxel size is an f32.
    single: bool,
    dim: usize,
    size: F,
    /// The voxel of each coordinate, and its position within that voxel: out of 16, or (from `CLOSE` on) ever closer to
    /// the upper edge, or (from `2 * CLOSE` on) to the lower one.
    points: Vec<Vec<(i64, u8)>>,
    /// For integers, these are the coordinates.
    ints: Vec<Vec<i64>>,
}

const CLOSE: u8 = 64;

/// Mostly one to four dimensions.
fn dims() -> BoxedStrategy<usize> {
    prop_oneof![8 => 1usize..=4, 1 => Just(5), 1 => Just(7)].boxed()
}

fn voxels() -> impl Strategy<Value = Voxels> {
    let size = prop_oneof![
        2 => (-4i32..=4).prop_map(|e| 2f64.powi(e)),
        1 => prop_oneof![Just(0.1), Just(0.3), Just(5.0), Just(33.3), Just(1e-3)],
        1 => (1i32..=2000).prop_map(|k| f64::from(k) / 100.0),
    ];
    let int_size = prop_oneof![3 => (1i32..=12).prop_map(f64::from), 1 => (1i32..=9).prop_map(|k| f64::from(k) / 2.0)];
    let float = (0u8..2, any::<bool>(), dims(), size).prop_flat_map(|(t, single, dim, size)| {
        // Beyond 32 bits where that is exact
        let far = if t == 1 && !single { 1i64 << 33 } else { 300 };
        let wrap = if far > 300 { [8u32, 16, 32] } else { [8; 3] };
        let cell = prop_oneof![
            64 => -2i64..=2,
            8 => -300i64..=300,
            2 => -far..=far,
            // Where a narrower type would wrap around
            1 => (-2i64..=2, (0usize..3).prop_map(move |i| wrap[i]), -1i64..=1).prop_map(|(k, bits, m)| k + (m << bits)),
        ];
        let spread = prop_oneof![3 => Just(0u8..=15), 2 => Just(0u8..=0), 2 => Just(7u8..=8), 1 => Just(0..=3 * CLOSE - 1)];
        (spread, gen::size(0..=40, 1000, 400))
            .prop_flat_map(move |(spread, size)| vec(vec((cell.clone(), spread), dim), size))
            .prop_map(move |points| Voxels { t, single, dim, size: F(size), points, ints: Vec::new() })
    });
    let int = (2u8..TYPES.len() as u8, any::<bool>(), dims(), int_size, 0u8..=3).prop_flat_map(
        |(t, single, dim, size, range)| {
            let bounds: (i64, i64) = match t {
                2 => (-128, 127),
                6 => (0, 255),
                3 => (-32768, 32767),
                7 => (0, 65535),
                4 | 5 => (-100_000, 100_000),
                _ => (0, 200_000),
            };
            let small = |k: i64| (bounds.0.max(-k))..=k.min(bounds.1);
            let coord = match range {
                0 | 1 => small(6),
                2 => small(30),
                _ => bounds.0..=bounds.1,
            };
            gen::size(0..=if t == 2 || t == 6 { 12 } else { 40usize }, 1000, 400)
                .prop_flat_map(move |size| vec(vec(coord.clone(), dim), size))
                .prop_map(move |ints| Voxels { t, single, dim, size: F(size), points: Vec::new(), ints })
        },
    );
    prop_oneof![2 => float, 1 => int]
}

fn check_voxels(c: &Voxels, ctx: &mut Ctx) -> CheckResult {
    macro_rules! int {
        ($t:ty, $n:literal) => {
            if c.single { voxel_ints::<$t, f32, $n>(c, ctx) } else { voxel_ints::<$t, f64, $n>(c, ctx) }
        };
    }
    macro_rules! float {
        ($t:ty, $n:literal) => {
            if c.single { voxel_floats::<$t, f32, $n>(c, ctx) } else { voxel_floats::<$t, f64, $n>(c, ctx) }
        };
    }
    macro_rules! by_dim {
        ($m:ident, $t:ty) => {
            match c.dim {
                1 => $m!($t, 1),
                2 => $m!($t, 2),
                3 => $m!($t, 3),
                4 => $m!($t, 4),
                5 => $m!($t, 5),
                _ => $m!($t, 7),
            }
        };
    }
    ctx.label(TYPES[c.t as usize]);
    match c.t {
        0 => by_dim!(float, f32),
        1 => by_dim!(float, f64),
        2 => by_dim!(int, i8),
        3 => by_dim!(int, i16),
        4 => by_dim!(int, i32),
        5 => by_dim!(int, i64),
        6 => by_dim!(int, u8),
        7 => by_dim!(int, u16),
        8 => by_dim!(int, u32),
        _ => by_dim!(int, u64),
    }
}

/// One step of a bipartite matching.
fn assign(cell: usize, fits: &[Vec<usize>], taken: &mut [Option<usize>], tried: &mut [bool]) -> bool {
    for at in &fits[cell] {
        if !std::mem::replace(&mut tried[*at], true) && taken[*at].is_none_or(|other| assign(other, fits, taken, tried)) {
            taken[*at] = Some(cell);
            return true;
        }
    }
    false
}

fn voxel_floats<T: Fl + AsPrimitive<O>, O: Fl, const N: usize>(c: &Voxels, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
{
    let size = O::of(c.size.0);
    // Powers of two divide exactly, so that even the edges of voxels are decidable
    let dyadic = c.size.0.log2().fract() == 0.0;
    let double = !T::SINGLE && !O::SINGLE;
    let place = |(cell, part): (i64, u8)| {
        let low = cell as f64;
        let within = |part: f64| if dyadic { part } else { 0.03 + 0.94 * part };
        let voxels = if part < CLOSE {
            low + within(f64::from(part % 16) / 16.0)
        } else {
            // As close as both types (and the rounding of a division) can tell
            let (edge, sign) = if part < 2 * CLOSE { (low + 1.0, -1.0) } else { (low, 1.0) };
            let exact = |v: f64| {
                if dyadic {
                    v != edge && (edge - v).abs().log2().fract() == 0.0 && (double || f64::from(v as f32) == v)
                } else {
                    (v - edge).abs() >= edge.abs().max(1.0) * if double { f64::EPSILON } else { f64::from(f32::EPSILON) } * 8.0
                }
            };
            (1..=part % CLOSE)
                .rev()
                .map(|j| edge + sign * 0.5f64.powi(i32::from(j)))
                .find(|v| exact(*v))
                .unwrap_or(low + within(0.5))
        };
        T::of(size.f64() * voxels)
    };
    let close = c.points.iter().flatten().any(|p| p.1 >= CLOSE);
    let points: Vec<Point<T, N>> =
        c.points.iter().map(|p| Point::from(std::array::from_fn(|i| place(p[i])))).collect();
    let mut cells: BTreeMap<[i64; N], Vec<[f64; N]>> = BTreeMap::new();
    for (p, cell) in points.iter().zip(&c.points) {
        cells.entry(std::array::from_fn(|i| cell[i].0)).or_default().push(raw(p));
    }
    let got = downsample_point_cloud_voxel(&points, size);
    // A mean might be rounded to the edge, if the points are that close to it
    let again = (!close).then(|| ("downsampled twice", downsample_point_cloud_voxel(&got, size)));
    for (what, got) in [("downsampled", got)].into_iter().chain(again) {
        let got = raws(&got);
        ensure!(
            got.len() == cells.len(),
            "{what}: {} points for {} voxels of size {size} in {points:?}", got.len(), cells.len()
        );
        // On both sides of an edge, means might be so close that either voxel's result would do for the other one
        let mut taken: Vec<Option<usize>> = vec![None; got.len()];
        let mut fits: Vec<Vec<usize>> = Vec::new();
        for (cell, members) in &cells {
            let mean: [f64; N] =
                std::array::from_fn(|i| members.iter().map(|m| m[i]).sum::<f64>() / members.len() as f64);
            let reach = members.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
            let tolerance = T::EPS * 2.0 * (members.len() as f64 + 2.0) * reach;
            let near = |p: &[f64; N]| (0..N).all(|i| (p[i] - mean[i]).abs() <= tolerance);
            fits.push((0..got.len()).filter(|at| near(&got[*at])).collect());
            ensure!(
                assign(fits.len() - 1, &fits, &mut taken, &mut vec![false; got.len()]),
                "{what} with a voxel size of {size}: no {mean:?} for voxel {cell:?} of {points:?}, but {got:?}"
            );
        }
    }
    ctx.label_if(cells.keys().flatten().any(|c| c.abs() > 1 << 31), "voxels beyond 32 bits");
    ctx.label_if(points.len() > 256, "more than 256 points");
    ctx.label_if(close, "next to the edge of a voxel");
    ctx.label(format!("dim {N}"));
    ctx.label_if(dyadic && c.points.iter().flatten().any(|p| p.1 == 0), "on the edge of a voxel");
    ctx.nontrivial_if(cells.len() >= 2 && cells.values().any(|m| m.len() >= 2));
    Ok(())
}

fn voxel_ints<T, O: Fl, const N: usize>(c: &Voxels, ctx: &mut Ctx) -> CheckResult
where
    T: Scalar + AsPrimitive<O> + AsPrimitive<i64> + NumAssign + num_traits::Bounded,
    i64: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let points: Vec<Point<T, N>> =
        c.ints.iter().map(|p| Point::from(std::array::from_fn(|i| p[i].as_()))).collect();
    let mut cells: BTreeMap<[i64; N], Vec<[i64; N]>> = BTreeMap::new();
    let halves = (c.size.0 * 2.0) as i64;
    for p in &c.ints {
        let p: [i64; N] = std::array::from_fn(|i| p[i]);
        cells.entry(p.map(|v| (v * 2).div_euclid(halves))).or_default().push(p);
    }
    let limit = [AsPrimitive::<i64>::as_(T::max_value()), i64::MAX].into_iter().filter(|v| *v > 0).min().unwrap();
    let overflows = cells.values().any(|m| {
        m.len() as i64 > limit
            || (0..N).any(|i| m.iter().map(|p| p[i].abs()).sum::<i64>() > limit)
    });
    if ctx.exclude(overflows) {
        return Ok(());
    }
    let mut expected: Vec<[i64; N]> = cells
        .values()
        .map(|m| std::array::from_fn(|i| m.iter().map(|p| p[i]).sum::<i64>() / m.len() as i64))
        .collect();
    let mut got: Vec<[i64; N]> = downsample_point_cloud_voxel(&points, O::of(c.size.0))
        .iter()
        .map(|p| std::array::from_fn(|i| p[i].as_()))
        .collect();
    expected.sort();
    got.sort();
    ensure!(
        got == expected,
        "downsampling {points:?} with a voxel size of {}: {got:?} instead of {expected:?}", c.size.0
    );
    ctx.label(format!("dim {N}"));
    ctx.nontrivial_if(cells.len() >= 2 && cells.values().any(|m| m.len() >= 2));
    Ok(())
}

// ---- P16 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sort {
    t: u8,
    dim: usize,
    points: Vec<P>,
}

fn sort() -> impl Strategy<Value = Sort> {
    const SPECIAL: [f64; 9] =
        [f64::NAN, -f64::NAN, -0.0, 0.0, f64::INFINITY, f64::NEG_INFINITY, 1e30, -1e30, f32::MIN_POSITIVE as f64 / 2.0];
    let size = prop_oneof![1000 => Just(0usize..=6), 1000 => Just(0..=40), 1000 => Just(20..=120), 9 => Just(120..=3000), 1 => Just(3000..=8000)];
    (0u8..20, prop_oneof![1 => Just(0usize), 8 => 1..=4usize, 1 => 5usize..=6], size).prop_flat_map(|(t, dim, size)| {
        let special = prop_oneof![
            3 => Just(Vec::new()),
            2 => vec((any::<Index>(), 0usize..6, 2usize..SPECIAL.len()), 0..=6),
            1 => vec((any::<Index>(), 0usize..6, 0usize..SPECIAL.len()), 1..=2),
            2 => vec((any::<Index>(), 0usize..6, 0usize..2), 1..=2),
        ];
        // Few values in the leading dimensions, so that the trailing ones decide
        let tied = (vec(vec(-1i32..=1, dim), size.clone()), vec(-30i32..=30, size.clone())).prop_map(|(mut p, last)| {
            for (p, last) in p.iter_mut().zip(last) {
                if let Some(l) = p.last_mut() {
                    *l = last;
                }
            }
            p.into_iter().map(|p| p.into_iter().map(|v| F(f64::from(v))).collect()).collect::<Vec<P>>()
        });
        (prop_oneof![2 => gen::cloud(dim, size), 1 => tied], special).prop_map(move |(mut points, special)| {
            for (at, axis, value) in special {
                if dim > 0 && !points.is_empty() {
                    let at = at.index(points.len());
                    points[at][axis % dim] = F(SPECIAL[value]);
                }
            }
            Sort { t, dim, points }
        })
    })
}

trait Key: Scalar + Copy + PartialOrd + mapping_algorithms::types::IsNan {
    fn from_f(v: f64) -> Self;
    fn bits(self) -> u64;
}
macro_rules! keys {
    ($(($t:ty, $v:ident => $bits:expr)),*) => {$(
        impl Key for $t {
            fn from_f(v: f64) -> Self { v as $t }
            fn bits(self) -> u64 { let $v = self; $bits }
        }
    )*};
}
keys!(
    (f32, v => u64::from(v.to_bits())), (f64, v => v.to_bits()),
    (u8, v => v as u64), (u16, v => v as u64), (u32, v => v as u64), (u64, v => v), (u128, v => v as u64), (usize, v => v as u64),
    (i8, v => v as u64), (i16, v => v as u64), (i32, v => v as u64), (i64, v => v as u64), (i128, v => v as u64), (isize, v => v as u64)
);

fn check_sort(c: &Sort, ctx: &mut Ctx) -> CheckResult {
    macro_rules! by_dim {
        ($t:ty) => {
            match c.dim {
                0 => sorts::<$t, 0>(c, ctx),
                1 => sorts::<$t, 1>(c, ctx),
                2 => sorts::<$t, 2>(c, ctx),
                3 => sorts::<$t, 3>(c, ctx),
                4 => sorts::<$t, 4>(c, ctx),
                5 => sorts::<$t, 5>(c, ctx),
                _ => sorts::<$t, 6>(c, ctx),
            }
        };
    }
    macro_rules! leading {
        ($t:ty) => {
            match c.dim {
                0 => sorts::<$t, 0>(c, ctx),
                1 => sorts::<$t, 1>(c, ctx),
                _ => sorts::<$t, 2>(c, ctx),
            }
        };
    }
    match c.t {
        0 => leading!(i32),
        1 => leading!(u8),
        2 => by_dim!(i64),
        3..=6 => by_dim!(f32),
        7 => leading!(i8),
        8 => leading!(i16),
        9 => leading!(isize),
        10 => leading!(i128),
        11 => leading!(u16),
        12 => leading!(u32),
        13 => leading!(u64),
        14 => leading!(usize),
        15 => leading!(u128),
        _ => by_dim!(f64),
    }
}

fn lex_le<T: PartialOrd + Scalar, const N: usize>(a: &Point<T, N>, b: &Point<T, N>) -> bool {
    for i in 0..N {
        if a[i] < b[i] {
            return true;
        }
        if a[i] > b[i] {
            return false;
        }
    }
    true
}

fn sorts<T: Key, const N: usize>(c: &Sort, ctx: &mut Ctx) -> CheckResult {
    let points: Vec<Point<T, N>> =
        c.points.iter().map(|p| Point::from(std::array::from_fn(|i| T::from_f(p[i].0)))).collect();
    let bits = |v: &[Point<T, N>]| -> Vec<[u64; N]> { v.iter().map(|p| std::array::from_fn(|i| p[i].bits())).collect() };
    #[allow(clippy::eq_op)]
    let nan = points.iter().any(|p| p.iter().any(|v| v != v));
    let valid = N > 0 && !nan;
    #[allow(clippy::eq_op)]
    for v in points.iter().flat_map(|p| p.iter()) {
        ensure!(IsNan::is_nan(*v) == (v != v), "is_nan of {v:?} is {}", IsNan::is_nan(*v));
    }
    ctx.label_if(nan, "NaN");
    ctx.label(format!("dim {N}"));

    let mut in_place = points.clone();
    let in_place_ok = lex_sort_in_place(&mut in_place);
    let copy = lex_sort(&points);
    let refs = lex_sort_ref(&points);
    ensure!(
        in_place_ok == valid && copy.is_some() == valid && refs.is_some() == valid,
        "sorting {points:?}: in place {in_place_ok}, copy {}, references {}, expected {valid}",
        copy.is_some(), refs.is_some()
    );
    let (Some(copy), Some(refs)) = (copy, refs) else {
        ensure!(
            bits(&in_place) == bits(&points),
            "refused to sort {points:?} in place, but changed it to {in_place:?}"
        );
        return Ok(());
    };
    // Every original exactly once
    let range = points.as_ptr_range();
    let mut seen = vec![false; points.len()];
    for r in &refs {
        ensure!(range.contains(&(*r as *const _)), "a reference is not to one of the original points");
        let at = (*r as *const Point<T, N> as usize - range.start as usize) / std::mem::size_of::<Point<T, N>>();
        ensure!(!seen[at], "two references to point {at} of {points:?}");
        seen[at] = true;
    }
    let by_ref: Vec<Point<T, N>> = refs.iter().map(|r| **r).collect();
    for (what, got) in [("in place", &in_place), ("copy", &copy), ("references", &by_ref)] {
        let (mut a, mut b) = (bits(got), bits(&points));
        a.sort();
        b.sort();
        ensure!(a == b, "sorting {points:?} ({what}) gave other points: {got:?}");
        for (i, w) in got.windows(2).enumerate() {
            ensure!(lex_le(&w[0], &w[1]), "sorting {points:?} ({what}): {:?} comes before {:?} at {i}", w[0], w[1]);
        }
    }
    ctx.label_if(points.iter().take(8000).enumerate().any(|(i, p)| points[..i].contains(p)), "equal points");
    ctx.label_if(points.len() > 20, "more than 20 points");
    ctx.label_if(points.len() > 256, "more than 256 points");
    ctx.nontrivial_if(points.len() >= 2 && points.windows(2).any(|w| !lex_le(&w[0], &w[1])));
    Ok(())
}

// ---- P17 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Centroid {
    t: u8,
    dim: usize,
    points: Vec<P>,
}

fn centroid() -> impl Strategy<Value = Centroid> {
    (0u8..6, dims(), prop_oneof![400 => Just(0usize..=2), 400 => Just(3..=40), 400 => Just(40..=400), 9 => Just(400..=4000), 1 => Just(4000..=20_000)], -300.0f64..300.0).prop_flat_map(
        |(t, dim, size, offset)| {
            let far = gen::cloud(dim, size.clone()).prop_map(move |mut v| {
                v.iter_mut().flatten().for_each(|c| c.0 += offset.round() * 1000.0);
                v
            });
            prop_oneof![3 => gen::cloud(dim, size), 1 => far].prop_map(move |points| Centroid { t, dim, points })
        },
    )
}

fn check_centroid(c: &Centroid, ctx: &mut Ctx) -> CheckResult {
    macro_rules! by_dim {
        ($f:ident, $t:ty) => {
            match c.dim {
                1 => $f::<$t, 1>(c, ctx),
                2 => $f::<$t, 2>(c, ctx),
                3 => $f::<$t, 3>(c, ctx),
                4 => $f::<$t, 4>(c, ctx),
                5 => $f::<$t, 5>(c, ctx),
                _ => $f::<$t, 7>(c, ctx),
            }
        };
    }
    match c.t {
        0 | 1 => by_dim!(centroid_float, f32),
        #[cfg(feature = "ints")]
        4 => by_dim!(centroid_int, i32),
        #[cfg(feature = "ints")]
        5 => by_dim!(centroid_int, i64),
        _ => by_dim!(centroid_float, f64),
    }
}

fn centroid_float<T: Fl, const N: usize>(c: &Centroid, ctx: &mut Ctx) -> CheckResult
where
    usize: AsPrimitive<T>,
{
    let points = pts::<T, N>(&c.points);
    let got = raw(&calculate_point_cloud_center(&points));
    let n = points.len();
    let mut shuffled = points.clone();
    shuffled.reverse();
    shuffled.rotate_left(n / 3);
    let other = raw(&calculate_point_cloud_center(&shuffled));
    for i in 0..N {
        let all: Vec<f64> = points.iter().map(|p| p[i].f64()).collect();
        let expected = if n == 0 { 0.0 } else { all.iter().sum::<f64>() / n as f64 };
        let tolerance = T::EPS * 2.0 * all.iter().map(|v| v.abs()).sum::<f64>() * if n > 1 { 1.0 } else { 0.0 };
        for got in [got[i], other[i]] {
            ensure!(
                (got - expected).abs() <= tolerance,
                "the center of {points:?} is {got} along axis {i}, instead of {expected}"
            );
        }
    }
    ctx.label(format!("dim {N}"));
    ctx.label_if(n == 0, "empty");
    ctx.label_if(n >= 100, "at least 100 points");
    ctx.nontrivial_if(n >= 2 && points.iter().any(|p| *p != points[0]));
    Ok(())
}

#[cfg(feature = "ints")]
fn centroid_int<T, const N: usize>(c: &Centroid, ctx: &mut Ctx) -> CheckResult
where
    T: Scalar + Copy + num_traits::Zero + nalgebra::ClosedAddAssign + nalgebra::ClosedDivAssign + AsPrimitive<i64>,
    usize: AsPrimitive<T>,
    i64: AsPrimitive<T>,
{
    // The sum has to be in range
    let limit = if size_of::<T>() == 4 { 300_000.min(i64::from(i32::MAX) / c.points.len().max(1) as i64) } else { 1 << 40 };
    let exact: Vec<[i64; N]> = c.points.iter().map(|p| std::array::from_fn(|i| (p[i].0 as i64).clamp(-limit, limit))).collect();
    let points: Vec<Point<T, N>> = exact.iter().map(|p| Point::from(p.map(|v| v.as_()))).collect();
    let got: [i64; N] = std::array::from_fn({
        let center = calculate_point_cloud_center(&points);
        move |i| center[i].as_()
    });
    let expected: [i64; N] = std::array::from_fn(|i| {
        if exact.is_empty() { 0 } else { exact.iter().map(|p| p[i]).sum::<i64>() / exact.len() as i64 }
    });
    ensure!(got == expected, "the center of {points:?} is {got:?} instead of {expected:?}");
    ctx.label("integers");
    ctx.nontrivial_if(points.len() >= 2 && points.iter().any(|p| *p != points[0]));
    Ok(())
}

// ---- P18 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Transform {
    single: bool,
    /// 0: complex, 1: 2D matrix, 2: quaternion, 3: 3D matrix, 4: 4D signed permutation
    kind: u8,
    /// Direction of the rotation, normalized before it is used.
    rotation: [F; 4],
    translation: [F; 4],
    points: Vec<P>,
}

fn transform() -> impl Strategy<Value = Transform> {
    let exact = || prop_oneof![Just(0.0), Just(1.0), Just(-1.0)];
    let rotation = prop_oneof![
        3 => vec(gen::unit(), 4),
        1 => vec(exact(), 4),
        1 => (vec(gen::unit(), 3), -6i32..=-1).prop_map(|(v, e)| {
            let s = 10f64.powi(e);
            vec![1.0, v[0] * s, v[1] * s, v[2] * s]
        }),
    ];
    // Along which axes nothing is translated
    let still = prop_oneof![6 => Just(0u8), 1 => Just(15), 1 => any::<u8>()];
    // Comparable to the points, or of any size
    let scale = prop_oneof![1 => Just(None), 2 => gen::scale(true).prop_map(Some)];
    (any::<bool>(), 0u8..=4, rotation, vec(gen::unit(), 4), scale, gen::size(0..=24, 1500, 1000), still).prop_flat_map(
        |(single, kind, rotation, translation, scale, size, still)| {
            let dim = [2, 2, 3, 3, 4][kind as usize];
            gen::cloud(dim, size).prop_map(move |points| {
                let reach = points.iter().flatten().fold(0.0, |m, v| f64::max(m, v.0.abs()));
                let scale = scale.unwrap_or(reach);
                Transform {
                    single,
                    kind,
                    rotation: std::array::from_fn(|i| F(rotation[i])),
                    translation: std::array::from_fn(|i| {
                        F(if still >> i & 1 == 1 { 0.0 } else { gen::single(translation[i] * scale) })
                    }),
                    points,
                }
            })
        },
    )
}

fn check_transform(c: &Transform, ctx: &mut Ctx) -> CheckResult {
    if c.single { transforms::<f32>(c, ctx) } else { transforms::<f64>(c, ctx) }
}

fn transforms<T: Fl>(c: &Transform, ctx: &mut Ctx) -> CheckResult {
    let norm = c.rotation.iter().map(|v| v.0 * v.0).sum::<f64>().sqrt();
    let q: [f64; 4] = if norm < 1e-3 { [1.0, 0.0, 0.0, 0.0] } else { c.rotation.map(|v| v.0 / norm) };
    let norm2 = (c.rotation[0].0.powi(2) + c.rotation[1].0.powi(2)).sqrt();
    let z: [f64; 2] = if norm2 < 1e-3 { [1.0, 0.0] } else { [c.rotation[0].0 / norm2, c.rotation[1].0 / norm2] };
    match c.kind {
        0 | 1 => {
            let (re, im) = (T::of(z[0]), T::of(z[1]));
            let m = [[re, -im], [im, re]];
            if c.kind == 0 {
                let r: UnitComplex<T> = Unit::new_unchecked(Complex::new(re, im));
                apply::<T, _, 2>(c, r, m, ctx)
            } else {
                let r = Rotation2::from_matrix_unchecked(SMatrix::from_fn(|i, j| m[i][j]));
                apply::<T, Rotation2<T>, 2>(c, r, m, ctx)
            }
        }
        2 | 3 => {
            let q = q.map(T::of);
            let [w, x, y, z] = q.map(|v| v.f64());
            let m = [
                [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
                [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
                [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
            ]
            .map(|row| row.map(T::of));
            if c.kind == 2 {
                let r: UnitQuaternion<T> = Unit::new_unchecked(Quaternion::new(q[0], q[1], q[2], q[3]));
                apply::<T, _, 3>(c, r, m, ctx)
            } else {
                let r = Rotation3::from_matrix_unchecked(SMatrix::from_fn(|i, j| m[i][j]));
                apply::<T, Rotation3<T>, 3>(c, r, m, ctx)
            }
        }
        _ => {
            // Sort the axes by the direction of the rotation, for a permutation
            let mut order = [0, 1, 2, 3];
            order.sort_by(|a, b| q[*a].partial_cmp(&q[*b]).unwrap());
            let m: [[T; 4]; 4] = std::array::from_fn(|i| {
                std::array::from_fn(|j| T::of(if order[i] == j { if q[j] < 0.0 { -1.0 } else { 1.0 } } else { 0.0 }))
            });
            let r = Rotation::<T, 4>::from_matrix_unchecked(SMatrix::from_fn(|i, j| m[i][j]));
            apply::<T, Rotation<T, 4>, 4>(c, r, m, ctx)
        }
    }
}

fn apply<T: Fl, R: AbstractRotation<T, N> + std::fmt::Debug, const N: usize>(
    c: &Transform,
    rotation: R,
    m: [[T; N]; N],
    ctx: &mut Ctx,
) -> CheckResult {
    let points = pts::<T, N>(&c.points);
    let t: [T; N] = std::array::from_fn(|i| T::of(c.translation[i].0));
    let isometry = Isometry::from_parts(Translation::from(SVector::from(t)), rotation);
    let got = transform_point_cloud(&points, isometry);
    ensure!(got.len() == points.len(), "{} points became {}", points.len(), got.len());
    for (i, (p, got)) in points.iter().zip(&got).enumerate() {
        let (p, got) = (raw(p), raw(got));
        let reach = p.iter().map(|v| v.abs()).sum::<f64>();
        for axis in 0..N {
            let rotated: f64 = (0..N).map(|j| m[axis][j].f64() * p[j]).sum();
            let expected = rotated + t[axis].f64();
            let tolerance = T::EPS * (16.0 * reach + 2.0 * t[axis].f64().abs());
            ensure!(
                (got[axis] - expected).abs() <= tolerance,
                "point {i} {p:?} rotated by {m:?} and translated by {t:?} is {got:?}, axis {axis} should be {expected}"
            );
        }
    }
    let trivial = (0..N).all(|i| t[i].f64() == 0.0) && (0..N).all(|i| m[i][i].f64() == 1.0);
    ctx.label(["complex", "2D matrix", "quaternion", "3D matrix", "4D permutation"][c.kind as usize]);
    ctx.nontrivial_if(!trivial && points.len() >= 2 && points.iter().any(|p| *p != points[0]));
    Ok(())
}

// ---- P19 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Generate {
    t: u8,
    dim: usize,
    count: usize,
    ranges: Vec<(F, F)>,
}

fn generate() -> impl Strategy<Value = Generate> {
    let bound = (gen::unit(), prop_oneof![Just(1.0), Just(15.0), Just(1000.0), Just(1e6), Just(1e30), Just(1e-30)])
        .prop_map(|(u, s)| gen::single(u * s))
        .boxed();
    let range = prop_oneof![
        6 => (bound.clone(), bound.clone()),
        1 => bound.prop_map(|b| (b, b)),
        2 => (-40i32..=40, 0i32..=30).prop_map(|(a, n)| (f64::from(a), f64::from(a + n))),
        // Far away compared to the width
        1 => (1i32..=100, 0u8..=20).prop_map(|(a, n)| (f64::from(a) * 65536.0, f64::from(a) * 65536.0 + f64::from(n))),
    ];
    (0u8..9, dims(), prop_oneof![300 => 0usize..=30, 99 => 200usize..=600, 1 => 600usize..=10_000]).prop_flat_map(move |(t, dim, count)| {
        vec(range.clone(), dim).prop_map(move |ranges| Generate {
            t,
            dim,
            count,
            ranges: ranges.into_iter().map(|(a, b)| (F(a.min(b)), F(a.max(b)))).collect(),
        })
    })
}

fn check_generate(c: &Generate, ctx: &mut Ctx) -> CheckResult {
    macro_rules! by_dim {
        ($t:ty) => {
            match c.dim {
                1 => generates::<$t, 1>(c, |v| v as $t, |v| v as f64, ctx),
                2 => generates::<$t, 2>(c, |v| v as $t, |v| v as f64, ctx),
                3 => generates::<$t, 3>(c, |v| v as $t, |v| v as f64, ctx),
                4 => generates::<$t, 4>(c, |v| v as $t, |v| v as f64, ctx),
                5 => generates::<$t, 5>(c, |v| v as $t, |v| v as f64, ctx),
                _ => generates::<$t, 7>(c, |v| v as $t, |v| v as f64, ctx),
            }
        };
    }
    match c.t {
        0 => by_dim!(f32),
        1 => by_dim!(f64),
        #[cfg(feature = "ints")]
        2 => by_dim!(i32),
        #[cfg(feature = "ints")]
        3 => by_dim!(i64),
        #[cfg(feature = "ints")]
        4 => by_dim!(u8),
        #[cfg(feature = "ints")]
        5 => by_dim!(i16),
        #[cfg(feature = "ints")]
        6 => by_dim!(u32),
        #[cfg(feature = "ints")]
        7 => by_dim!(usize),
        #[cfg(feature = "ints")]
        8 => by_dim!(i8),
        _ => by_dim!(f64),
    }
}

#[cfg(feature = "ints")]
trait Element: Scalar + Copy + PartialOrd + rand::distributions::uniform::SampleUniform {}
#[cfg(feature = "ints")]
impl<T: Scalar + Copy + PartialOrd + rand::distributions::uniform::SampleUniform> Element for T {}
#[cfg(not(feature = "ints"))]
use Fl as Element;

fn generates<T, const N: usize>(c: &Generate, of: fn(f64) -> T, back: fn(T) -> f64, ctx: &mut Ctx) -> CheckResult
where
    T: Element,
{
    let ranges: [std::ops::RangeInclusive<T>; N] =
        std::array::from_fn(|i| of(c.ranges[i].0 .0)..=of(c.ranges[i].1 .0));
    let got = generate_point_cloud(c.count, ranges.clone());
    ensure!(got.len() == c.count, "{} points instead of {}", got.len(), c.count);
    ensure!(
        got == generate_point_cloud(c.count, ranges.clone()),
        "two clouds of {} points within {ranges:?} differ", c.count
    );
    for p in &got {
        for (i, r) in ranges.iter().enumerate() {
            ensure!(p[i] >= *r.start() && p[i] <= *r.end(), "{p:?} is outside of {r:?} along axis {i}");
        }
    }
    if c.count >= 200 {
        for (i, r) in ranges.iter().enumerate() {
            let (low, high) = (back(*r.start()), back(*r.end()));
            let parts: Vec<f64> = got.iter().map(|p| (back(p[i]) - low) / (high - low)).collect();
            if high > low {
                ensure!(
                    parts.iter().any(|v| *v <= 0.25) && parts.iter().any(|v| *v >= 0.75),
                    "{} points do not spread over {r:?} along axis {i}", c.count
                );
            }
        }
        ctx.label("spread over the range");
    }
    ctx.label_if(ranges.iter().any(|r| r.start() == r.end()), "range of a single value");
    ctx.nontrivial_if(c.count >= 2 && ranges.iter().any(|r| r.start() < r.end()));
    Ok(())
}

/// A few voxels of very many points, or very many of a few.
fn many_voxels(n: usize, random: &mut Random) -> Voxels {
    let (single, dim) = (random.flip(), random.within(2, 3) as usize);
    if random.flip() {
        let points = (0..n)
            .map(|i| (0..dim).map(|_| (i64::from(i % 1000 == 0), random.within(0, 15) as u8)).collect())
            .collect();
        Voxels { t: random.within(0, 1) as u8, single, dim, size: F(4.0), points, ints: Vec::new() }
    } else {
        let ints = (0..n).map(|_| (0..dim).map(|_| random.within(-300, 300)).collect()).collect();
        Voxels { t: 4, single, dim, size: F(1.0), points: Vec::new(), ints }
    }
}

fn many_to_sort(n: usize, random: &mut Random) -> Sort {
    let dim = random.within(2, 3) as usize;
    let (t, scale) = (if random.flip() { 3 } else { 19 }, if random.flip() { 20.0 } else { 1000.0 });
    let mut points = random.cloud(n, dim, scale);
    if random.flip() {
        points.iter_mut().for_each(|p| p[0].0 = p[0].0.round());
    }
    Sort { t, dim, points }
}

fn many_to_center(n: usize, random: &mut Random) -> Centroid {
    let dim = random.within(1, 3) as usize;
    Centroid { t: random.within(0, 5) as u8, dim, points: random.cloud(n, dim, 1000.0) }
}

fn many_to_transform(n: usize, random: &mut Random) -> Transform {
    let kind = random.within(0, 3) as u8;
    let direction = |random: &mut Random| std::array::from_fn(|_| F(random.unit()));
    Transform {
        single: random.flip(),
        kind,
        rotation: direction(random),
        translation: direction(random),
        points: random.cloud(n, if kind < 2 { 2 } else { 3 }, 10.0),
    }
}

fn many_to_generate(n: usize, random: &mut Random) -> Generate {
    let dim = random.within(1, 3) as usize;
    Generate { t: random.within(0, 1) as u8, dim, count: n, ranges: vec![(F(-3.0), F(5.0)); dim] }
}

fn main() {
    pbt_engine::main(vec![
        Prop::with_fixed(
            "P15", 1_500_000, 50_000_000,
            "up to 40 (rarely 5000 or 80,000) points of 10 types in 1 to 7 dimensions, constructed inside of known voxels (on the edges too, where the voxel size is a power of two, and as close to them as can be told) and a voxel size in f32 or f64; the result must be the mean of each occupied voxel, once, and not change when downsampled again. Non-trivial: at least 2 voxels, one of them with at least 2 points",
            many::or_many(voxels(), 200_000), |c, ctx| many::checked(c, ctx, many_voxels, check_voxels), many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P16", 1_500_000, 50_000_000,
            "up to 120 (rarely 8000 or 80,000) points of 14 types in 0 to 6 dimensions with many ties, infinities, negative zeros and NaNs; all three sorts must be sorted permutations, or refuse exactly when there is a NaN or no dimension. Non-trivial: sortable, and not sorted yet",
            many::or_many(sort(), 200_000), |c, ctx| many::checked(c, ctx, many_to_sort, check_sort), many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P17", 800_000, 50_000_000,
            "up to 400 (rarely 80,000) points of 4 types in 1 to 7 dimensions, compared with the mean in f64 within the rounding of a sum, in two orders. Non-trivial: at least two different points",
            many::or_many(centroid(), 200_000), |c, ctx| many::checked(c, ctx, many_to_center, check_centroid), many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P18", 2_500_000, 80_000_000,
            "up to 24 (rarely 5000 or 80,000) points and an isometry with one of 5 kinds of rotations in f32 or f64, compared with a rotation matrix in f64. Non-trivial: not the identity, and at least two different points",
            many::or_many(transform(), 300_000), |c, ctx| many::checked(c, ctx, many_to_transform, check_transform), many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P19", 2_000_000, 20_000_000,
            "up to 600 (rarely 80,000) points of 9 types in 1 to 7 dimensions within generated ranges (single values, tiny, huge and far away ones included): count, containment, reproducibility and spread. Non-trivial: at least 2 points and one range of more than one value",
            many::or_many(generate(), 300_000), |c, ctx| many::checked(c, ctx, many_to_generate, check_generate), many::fixed(0..6),
        ),
    ]);
}
