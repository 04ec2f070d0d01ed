//! Generators shared by the properties. Coordinates are always exactly representable as `f32`, unless stated otherwise.
use crate::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

pub type P = Vec<F>;

pub fn single(v: f64) -> f64 {
    v as f32 as f64
}

/// Uniform in [-1, 1], with enough resolution for f64, shrinking towards zero.
pub fn unit() -> impl Strategy<Value = f64> {
    (-(1i64 << 40)..=(1i64 << 40)).prop_map(|k| k as f64 / (1i64 << 40) as f64)
}

/// Uniform in [0, 1].
pub fn frac() -> impl Strategy<Value = f64> {
    (0..=(1i64 << 40)).prop_map(|k| k as f64 / (1i64 << 40) as f64)
}

/// `size` points of `dim` dimensions out of a per-coordinate strategy.
pub fn points(
    coord: BoxedStrategy<f64>,
    dim: usize,
    size: std::ops::RangeInclusive<usize>,
) -> BoxedStrategy<Vec<P>> {
    vec(vec(coord.prop_map(F), dim), size).boxed()
}

/// Extreme scales square to something that `f32` can still represent, but the squares of the squares cannot.
pub fn scale(extreme: bool) -> BoxedStrategy<f64> {
    let rare = u32::from(extreme);
    prop_oneof![
        4 => Just(1.0),
        3 => Just(10.0),
        2 => Just(1000.0),
        2 => Just(0.125),
        1 => Just(1e-3),
        1 => Just(1e6),
        rare => Just(1e15),
        rare => Just(1e-12),
    ]
    .boxed()
}

fn continuous(dim: usize, size: std::ops::RangeInclusive<usize>, extreme: bool) -> BoxedStrategy<Vec<P>> {
    scale(extreme)
        .prop_flat_map(move |s| points(unit().prop_map(move |u| single(u * s)).boxed(), dim, size.clone()))
        .boxed()
}

fn lattice(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    (prop_oneof![1i32..=6, 1i32..=60], prop_oneof![Just(1.0), Just(0.125), Just(64.0)])
        .prop_flat_map(move |(k, s)| {
            points((-k..=k).prop_map(move |v| v as f64 * s).boxed(), dim, size.clone())
        })
        .boxed()
}

fn sorted_line(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    (
        vec(-3i32..=3, dim),
        vec(-10i32..=10, dim),
        vec(0i32..=40, size),
        any::<bool>(),
    )
        .prop_map(|(dir, origin, mut ts, sort)| {
            if sort {
                ts.sort();
            }
            ts.into_iter()
                .map(|t| {
                    dir.iter()
                        .zip(&origin)
                        .map(|(d, o)| F((o + d * t) as f64))
                        .collect()
                })
                .collect()
        })
        .boxed()
}

fn clustered(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    (
        points(unit().prop_map(|u| single(u * 100.0)).boxed(), dim, 1..=4),
        vec((any::<prop::sample::Index>(), vec(unit(), dim)), size),
        prop_oneof![Just(1.0), Just(0.01)],
    )
        .prop_map(|(centers, members, spread)| {
            members
                .into_iter()
                .map(|(which, offset)| {
                    which
                        .get(&centers)
                        .iter()
                        .zip(offset)
                        .map(|(c, o)| F(single(c.0 + o * spread)))
                        .collect()
                })
                .collect()
        })
        .boxed()
}

fn decimal(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    points((-30i32..=30).prop_map(|v| v as f64 * 0.1).boxed(), dim, size)
}

/// Every coordinate increases, decreases or stays: as deep as a tree gets.
fn ramp(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    (vec(-2i32..=2, dim), size, prop_oneof![Just(1.0), Just(0.25), Just(48.0)])
        .prop_map(|(slopes, n, step)| {
            (0..n).map(|i| slopes.iter().map(|s| F(f64::from(*s) * i as f64 * step)).collect()).collect()
        })
        .boxed()
}

/// Small numbers around multiples of powers of two, where narrower types or hashes would make different points alike.
fn wrapping(dim: usize, size: std::ops::RangeInclusive<usize>, extreme: bool) -> BoxedStrategy<Vec<P>> {
    let bits = if extreme { vec![8u32, 16, 20] } else { vec![8] };
    let coord = (-2i32..=2, prop_oneof![3 => Just(0i32), 2 => -1i32..=1], select(bits), prop_oneof![3 => Just(0.0), 1 => Just(0.5)])
        .prop_map(|(k, m, bits, half)| f64::from(k + (m << bits)) + half);
    points(coord.boxed(), dim, size)
}

/// A small cloud far away from the origin, as projected coordinates are.
fn remote(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    let base = (prop_oneof![3 => 8i32..=20, 1 => Just(-10)], any::<bool>(), 0i32..=255).prop_map(|(e, neg, m)| {
        let v = (2f64.powi(e) * (1.0 + f64::from(m) / 256.0) * 4.0).round() / 4.0;
        if neg { -v } else { v }
    });
    (vec(base, dim), vec(vec(-40i32..=40, dim), size))
        .prop_map(|(base, ps)| {
            let at = |p: Vec<i32>| base.iter().zip(p).map(|(b, k)| F(single(b + f64::from(k) * 0.25))).collect();
            ps.into_iter().map(at).collect()
        })
        .boxed()
}

/// Mostly small, sometimes large, seldom huge: behaviour may depend on the size.
pub fn size(
    small: std::ops::RangeInclusive<usize>,
    large: usize,
    one_in: u32,
) -> BoxedStrategy<std::ops::RangeInclusive<usize>> {
    let from = *small.end();
    prop_oneof![
        16 * (one_in - 1) => Just(small),
        15 => Just(from..=large),
        1 => Just(from..=if large >= 500 { large.max(5000) } else { large }),
    ]
    .boxed()
}

/// A point cloud with one of several shapes: continuous at various scales, lattices full of ties and duplicates,
/// (sorted) collinear runs, tight clusters, decimal fractions and small clouds far away.
pub fn cloud(dim: usize, size: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<P>> {
    cloud_of(dim, size, true)
}

/// The same, optionally without extreme scales.
pub fn cloud_of(dim: usize, size: std::ops::RangeInclusive<usize>, extreme: bool) -> BoxedStrategy<Vec<P>> {
    prop_oneof![
        4 => continuous(dim, size.clone(), extreme),
        4 => lattice(dim, size.clone()),
        1 => sorted_line(dim, size.clone()),
        1 => clustered(dim, size.clone()),
        1 => decimal(dim, size.clone()),
        1 => ramp(dim, size.clone()),
        1 => wrapping(dim, size.clone(), extreme),
        1 => remote(dim, size),
    ]
    .boxed()
}
