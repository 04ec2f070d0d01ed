//! Calls of all parts of the library.
use crate::calls::*;
use crate::{icp_ref, P};
use cfgdriver::{Call, Request};
use pbt_engine::{gen, F};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A case is the text of a request, so that it reads the same in every process.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub single: bool,
    pub call: Input,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Cloud { dim: usize, points: Vec<P>, queries: Vec<P>, voxel: F, rotation: Vec<F>, shift: Vec<F> },
    Line(Line),
    Hull(Hull),
    Inside(Inside),
    Geo(Places),
    Generate { dim: usize, count: usize, ranges: Vec<(F, F)> },
    Icp { dim: usize, source: Vec<P>, target: Vec<P>, kd: bool, iters: usize, abs: Option<F>, interval: F, any: bool },
}

fn numbers(p: &P) -> Vec<f64> {
    p.iter().map(|v| v.0).collect()
}

fn all(ps: &[P]) -> Vec<Vec<f64>> {
    ps.iter().map(numbers).collect()
}

pub fn request(c: &Case) -> Request {
    let call = match c.call.clone() {
        Input::Cloud { dim, points, queries, voxel, rotation, shift } => Call::Cloud {
            dim,
            points: all(&points),
            queries: all(&queries),
            voxel: voxel.0,
            rotation: numbers(&rotation),
            shift: numbers(&shift),
        },
        Input::Line(l) => Call::Line { dim: l.dim, start: numbers(&l.start), end: numbers(&l.end), out: l.out },
        Input::Hull(h) => Call::Hull {
            element: h.element,
            graham: h.graham,
            sorted: h.assume_sorted,
            voxel: h.voxel.map(|v| v.0),
            points: all(&h.points),
        },
        Input::Inside(i) => Call::Inside { points: all(&i.points), polygon: all(&i.polygon) },
        Input::Geo(p) => Call::Geo { a: p.a.map(|v| v.0), b: p.b.map(|v| v.0), radius: p.radius.0 },
        Input::Generate { dim, count, ranges } => {
            Call::Generate { dim, count, ranges: ranges.iter().map(|r| (r.0 .0, r.1 .0)).collect() }
        }
        Input::Icp { dim, source, target, kd, iters, abs, interval, any: _ } => Call::Icp {
            dim,
            source: all(&source),
            target: all(&target),
            kd,
            iters,
            abs: abs.map(|v| v.0),
            interval: interval.0,
        },
    };
    Request { single: c.single, call }
}

/// Points far apart from each other, and a slightly moved copy of some of them: every iteration pairs each point
/// with its original, no matter how it is rounded, and the directions in which they are spread are never degenerate.
fn registration() -> BoxedStrategy<Input> {
    (2usize..=3)
        .prop_flat_map(|dim| {
            (
                Just(dim),
                vec((vec(-3i32..=3, dim), vec(gen::unit(), dim)), 0..=8),
                (vec(gen::unit(), 4), vec(gen::unit(), dim), any::<prop::sample::Index>()),
                (any::<bool>(), 0usize..=6, prop::option::weighted(0.4, 0i32..=3), 0u8..=20),
            )
        })
        .prop_map(|(dim, others, (turn, shift, keep), (kd, iters, abs, broken))| {
            // In units of 10, at most 1.5 off (so no less than 7 apart)
            let mut target: Vec<Vec<f64>> = Vec::new();
            let mut cells: Vec<Vec<i32>> = vec![vec![0; dim]];
            cells.extend((0..dim).map(|axis| {
                let mut cell = vec![0; dim];
                cell[axis] = 2 + axis as i32;
                cell
            }));
            for (i, cell) in cells.clone().into_iter().enumerate() {
                target.push(cell.iter().map(|c| f64::from(*c) * 10.0 + i as f64 * 0.25).collect());
            }
            for (cell, off) in others {
                if !cells.contains(&cell) {
                    target.push(cell.iter().zip(&off).map(|(c, o)| gen::single(f64::from(*c) * 10.0 + o * 1.5)).collect());
                    cells.push(cell);
                }
            }
            let first = dim + 1;
            let kept = first + keep.index(target.len() - first + 1);
            // Up to about 0.02 radians, at a distance of no more than 60
            let (s, z) = (turn[0] * 0.02, turn[1] * 0.02);
            let source: Vec<P> = target[..kept]
                .iter()
                .map(|p| {
                    let mut q = p.clone();
                    (q[0], q[1]) = (p[0] * s.cos() - p[1] * s.sin(), p[0] * s.sin() + p[1] * s.cos());
                    if dim == 3 {
                        (q[1], q[2]) = (q[1] * z.cos() - q[2] * z.sin(), q[1] * z.sin() + q[2] * z.cos());
                    }
                    q.iter().zip(&shift).map(|(v, t)| F(gen::single(v + t * 0.3))).collect()
                })
                .collect();
            let mut source = source;
            let mut target: Vec<P> = target.iter().map(|p| p.iter().copied().map(F).collect()).collect();
            match broken {
                0 => source.clear(),
                1 => target.clear(),
                _ => (),
            }
            let interval = F(if broken == 2 { 0.0 } else { 0.5 });
            Input::Icp { dim, source, target, kd, iters, abs: abs.map(|v| F(f64::from(v))), interval, any: false }
        })
        .boxed()
}

/// Any registration, many of which rounding makes no difference to.
fn any_registration() -> BoxedStrategy<Input> {
    icp_ref::scenes(24, 60, 200, 50)
        .prop_map(|s| Input::Icp {
            dim: s.dim,
            source: s.source,
            target: s.target,
            kd: s.kd,
            iters: s.iters,
            abs: s.abs,
            interval: s.interval,
            any: true,
        })
        .boxed()
}

pub fn cases() -> impl Strategy<Value = Case> {
    let cloud = (2usize..=3).prop_flat_map(|dim| {
        (
            Just(dim),
            gen::cloud(dim, 0..=20),
            gen::cloud(dim, 1..=4),
            prop_oneof![Just(1.0), Just(0.5), Just(10.0), Just(0.3)],
            icp_ref::directions(dim),
            vec(gen::unit().prop_map(F), dim),
        )
            .prop_map(|(dim, points, queries, voxel, rotation, shift)| Input::Cloud {
                dim,
                points,
                queries,
                voxel: F(voxel),
                rotation: if rotation.iter().map(|v| v.0 * v.0).sum::<f64>() > 1e-3 {
                    rotation
                } else {
                    (0..rotation.len()).map(|i| F(if i == 0 { 1.0 } else { 0.0 })).collect()
                },
                shift,
            })
    });
    let generate = (2usize..=3).prop_flat_map(|dim| {
        (Just(dim), 0usize..=20, vec((-100i32..=100, 1i32..=100), dim)).prop_map(|(dim, count, ranges)| Input::Generate {
            dim,
            count,
            ranges: ranges.iter().map(|(a, w)| (F(f64::from(*a)), F(f64::from(a + w)))).collect(),
        })
    });
    let call = prop_oneof![
        3 => cloud,
        2 => line().prop_map(Input::Line),
        3 => hull().prop_map(Input::Hull),
        1 => inside().prop_map(Input::Inside),
        1 => geo_pair().prop_map(Input::Geo),
        1 => generate,
        2 => registration(),
        2 => any_registration(),
    ];
    (any::<bool>(), call).prop_map(|(single, call)| Case { single, call })
}
