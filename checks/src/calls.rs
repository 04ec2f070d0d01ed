//! Inputs of the functions which exist in many variants.
use crate::P;
use pbt_engine::{gen, F};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub out: u8,
    pub dim: usize,
    pub start: P,
    pub end: P,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hull {
    pub element: u8,
    pub graham: bool,
    pub assume_sorted: bool,
    pub voxel: Option<F>,
    pub points: Vec<P>,
    /// The power of two by which floating point coordinates (and the size of their voxels) may be scaled.
    pub zoom: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inside {
    pub points: Vec<P>,
    pub polygon: Vec<P>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Places {
    pub a: [F; 2],
    pub b: [F; 2],
    pub radius: F,
}

pub const OUTS: [&str; 8] = ["i32", "i64", "isize", "u32", "u64", "usize", "f32", "f64"];
pub const ELEMENTS: [&str; 12] =
    ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"];

/// The ends of a short line, anywhere: the element types differ in what they do to fractions, signs and large values.
pub fn line() -> BoxedStrategy<Line> {
    let base = prop_oneof![
        4 => (-40i32..=40).prop_map(f64::from),
        3 => gen::unit().prop_map(|u| u * 50.0),
        1 => (4i32..=66, any::<bool>()).prop_map(|(e, neg)| 2f64.powi(e) * if neg { -1.0 } else { 1.0 }),
    ];
    (0u8..8, 2usize..=3)
        .prop_flat_map(move |(out, dim)| {
            let side = prop_oneof![
                3 => (-60i32..=60).prop_map(f64::from),
                2 => gen::unit().prop_map(|u| u * 60.0),
            ];
            (Just((out, dim)), vec(base.clone(), dim), vec(side, dim), vec(prop::bool::weighted(0.1), dim))
        })
        .prop_map(|((out, dim), start, side, still)| {
            let end = (0..dim).map(|i| F(gen::single(start[i] + if still[i] { 0.0 } else { side[i] }))).collect();
            Line { out, dim, start: start.into_iter().map(|v| F(gen::single(v))).collect(), end }
        })
        .boxed()
}

pub fn hull() -> BoxedStrategy<Hull> {
    (0u8..12, any::<bool>(), any::<bool>(), prop::option::weighted(0.4, 1u8..=40))
        .prop_flat_map(|(element, graham, sorted, voxel)| {
            let float = element >= 10;
            let signed = element >= 5;
            let narrow = element == 0 || element == 5;
            // Everything about a downsampled cloud is exact: the sums fit, and the floating point means are integers
            // (multiples of 60, of at most 6 points)
            let (most, unit, reach) = match (voxel.is_some(), float, narrow) {
                (true, true, _) => (6, 60, 15),
                (true, false, true) => (6, 1, if signed { 20 } else { 40 }),
                (true, false, false) => (12, 1, 200),
                (false, true, _) => (14, 1, 1 << 20),
                (false, false, true) => (14, 1, if signed { 127 } else { 255 }),
                (false, false, false) => (14, 1, 30_000),
            };
            let coord = move |reach: i64| if signed { -reach..=reach } else { 0..=reach };
            let points = prop_oneof![
                2 => vec(vec(coord(reach), 2), 0..=most as usize),
                1 => vec(vec(coord(reach.min(4)), 2), 3..=most as usize),
                // Nearly on a line, which is where the precision of the calculations shows
                1 => (vec((coord(reach / 2), -1i64..=1), 3..=most as usize)).prop_map(move |v| {
                    v.into_iter().map(|(x, d)| Vec::from([x, (x / 2 + d).max(if signed { -reach } else { 0 })])).collect::<Vec<_>>()
                }),
            ];
            let zoom = if float { prop_oneof![2 => Just(0i8), 1 => -24i8..=12].boxed() } else { Just(0i8).boxed() };
            (Just((element, graham, sorted, voxel.map(|v| F(f64::from(v) * unit as f64 / 4.0)))), points, Just(unit), zoom)
        })
        .prop_map(|((element, graham, assume_sorted, voxel), mut points, unit, zoom)| {
            if assume_sorted {
                points.sort();
            }
            let points = points.into_iter().map(|p| p.into_iter().map(|v| F((v * unit) as f64)).collect()).collect();
            Hull { element, graham, assume_sorted, voxel, points, zoom }
        })
        .boxed()
}

pub fn inside() -> BoxedStrategy<Inside> {
    (gen::cloud(2, 0..=12), gen::cloud(2, 0..=12), any::<bool>())
        .prop_map(|(points, polygon, same)| {
            let points = if same { polygon.iter().chain(&points).cloned().collect() } else { points };
            Inside { points, polygon }
        })
        .boxed()
}

pub fn geo_pair() -> BoxedStrategy<Places> {
    let lat = || prop_oneof![3 => gen::unit().prop_map(|u| u * 90.0), 1 => (-6i32..=6).prop_map(|k| f64::from(k) * 15.0)];
    let lon = || prop_oneof![3 => gen::unit().prop_map(|u| u * 180.0), 1 => (-12i32..=12).prop_map(|k| f64::from(k) * 15.0)];
    let radius = prop_oneof![
        2 => Just(1.0),
        2 => Just(6371.0),
        2 => gen::frac(),
        1 => (-30i32..=60).prop_map(|e| 2f64.powi(e)),
    ];
    // Some are close to each other
    let near = prop_oneof![3 => Just(None), 1 => (1i32..=40).prop_map(|e| Some(2f64.powi(-e)))];
    ([lat().boxed(), lon().boxed()], [lat().boxed(), lon().boxed()], radius, near)
        .prop_map(|(a, b, radius, near)| {
            let b = match near {
                Some(by) => [(a[0] + b[0] * by).clamp(-90.0, 90.0), (a[1] + b[1] * by).clamp(-180.0, 180.0)],
                None => b,
            };
            Places { a: a.map(F), b: b.map(F), radius: F(radius) }
        })
        .boxed()
}

