//! P11, P12: Bresenham lines.
use mapping_algorithms::lines::plot_bresenham_line;
use nalgebra::Point;
use num_traits::AsPrimitive;
use pbt_checks::*;
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
    single: bool,
    dim: usize,
    start: P,
    end: P,
    /// Which output type is compared, only used by P12.
    out: u8,
}

/// The longest side of a generated line, far below the 2^24 steps up to which f32 can count.
const LONGEST: i64 = 400_000;
/// Lines have up to this many dimensions.
const DIMS: usize = 6;

fn ends(single: bool, dim: usize) -> BoxedStrategy<(P, P)> {
    let grid = |size: i64, unit: f64| {
        (vec(-size..=size, dim), vec(-size..=size, dim)).prop_map(move |(a, b)| {
            let at = |v: Vec<i64>| v.into_iter().map(|k| F(k as f64 * unit)).collect::<P>();
            (at(a), at(b))
        })
    };
    // Around a large base, where a single unit may well be less than the distance between two floats
    let mantissa = if single { 24 } else { 53 };
    let large = (mantissa - 2..=mantissa + 6, any::<bool>(), vec((any::<bool>(), -600i64..=600, -600i64..=600), dim)).prop_map(
        move |(exp, neg, raw)| {
            let base = 2f64.powi(exp) * if neg { -1.0 } else { 1.0 };
            let ulp = 2f64.powi((exp - mantissa + 1).max(0));
            let side = |v: i64, far: bool| if far { base + ulp * (v as f64 / ulp).round() } else { v as f64 };
            (
                raw.iter().map(|(far, a, _)| F(side(*a, *far))).collect::<P>(),
                raw.iter().map(|(far, _, b)| F(side(*b, *far))).collect::<P>(),
            )
        },
    );
    // Axis-aligned, diagonal and degenerate lines
    let shaped = (vec(-40i64..=40, dim), -60i64..=60, vec(-1i64..=1, dim), prop_oneof![Just(1.0), Just(0.25)]).prop_map(
        |(a, len, dir, unit)| {
            (
                a.iter().map(|v| F(*v as f64 * unit)).collect::<P>(),
                a.iter().zip(&dir).map(|(v, d)| F((v + d * len) as f64 * unit)).collect::<P>(),
            )
        },
    );
    let real = (vec(gen::unit(), dim), vec(gen::unit(), dim), prop_oneof![Just(1.0), Just(30.0), Just(300.0)]).prop_map(
        |(a, b, s)| {
            let at = |v: Vec<f64>| v.into_iter().map(|u| F(gen::single(u * s))).collect::<P>();
            (at(a), at(b))
        },
    );
    prop_oneof![
        6 => grid(20, 1.0),
        3 => grid(300, 1.0),
        4 => grid(800, 1.0 / 16.0),
        1 => grid(40, 1.0 / 16.0),
        3 => large,
        2 => shaped,
        2 => real,
    ]
    .boxed()
}

fn dims() -> impl Strategy<Value = usize> {
    prop_oneof![6 => 1usize..=4, 1 => 5..=DIMS]
}

fn line() -> impl Strategy<Value = Line> {
    (any::<bool>(), dims())
        .prop_flat_map(|(single, dim)| (ends(single, dim), Just((single, dim)), 0u8..OUTS))
        .prop_map(|((start, end), (single, dim), out)| Line { single, dim, start, end, out })
}

fn long_line() -> impl Strategy<Value = Line> {
    let size = prop_oneof![30 => Just(2_000), 10 => Just(20_000), 1 => Just(LONGEST)];
    (any::<bool>(), dims(), size, prop_oneof![Just(1i64), Just(8)], 0u8..OUTS).prop_flat_map(|(single, dim, size, unit, out)| {
        let half = size / 2 * unit;
        // The whole length along one axis, anything along the others
        (vec(-half..=half, dim), vec(-half..=half, dim), prop::option::of((0..dim, any::<bool>()))).prop_map(
            move |(mut a, mut b, whole)| {
                if let Some((axis, back)) = whole {
                    a[axis] = if back { half } else { -half };
                    b[axis] = -a[axis];
                }
                let at = |v: Vec<i64>| v.into_iter().map(|k| F(k as f64 / unit as f64)).collect::<P>();
                Line { single, dim, start: at(a), end: at(b), out }
            },
        )
    })
}

fn check_shape(c: &Line, ctx: &mut Ctx) -> CheckResult {
    match (c.single, c.dim) {
        (true, 1) => shape::<f32, 1>(c, ctx),
        (true, 2) => shape::<f32, 2>(c, ctx),
        (true, 3) => shape::<f32, 3>(c, ctx),
        (true, 4) => shape::<f32, 4>(c, ctx),
        (true, 5) => shape::<f32, 5>(c, ctx),
        (true, _) => shape::<f32, 6>(c, ctx),
        (false, 1) => shape::<f64, 1>(c, ctx),
        (false, 2) => shape::<f64, 2>(c, ctx),
        (false, 3) => shape::<f64, 3>(c, ctx),
        (false, 4) => shape::<f64, 4>(c, ctx),
        (false, 5) => shape::<f64, 5>(c, ctx),
        (false, _) => shape::<f64, 6>(c, ctx),
    }
}

fn shape<T: Fl, const N: usize>(c: &Line, ctx: &mut Ctx) -> CheckResult
where
    T: AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let (start, end): (Point<T, N>, Point<T, N>) = (pt(&c.start), pt(&c.end));
    let (from, to) = (raw(&start), raw(&end));
    let got = plot_bresenham_line::<T, T, N>(start, end);
    let describe = || format!("line from {start:?} to {end:?}");

    // The lengths as the type sees them
    let deltas: [f64; N] = std::array::from_fn(|i| {
        let delta: T = end[i] - start[i];
        delta.f64().abs()
    });
    let longest = deltas.iter().copied().fold(0.0, f64::max);
    let steps = longest.floor() as usize;
    ensure!(
        got.len() == steps + 1,
        "{}: {} points for a longest side of {longest}", describe(), got.len()
    );
    ensure!(raw(&got[steps]) == to, "{}: ends at {:?}", describe(), got[steps]);
    if steps > 0 {
        ensure!(raw(&got[0]) == from, "{}: starts at {:?}", describe(), got[0]);
    }

    let lead = 1.0 / (N as f64 + 1.0);
    let mut lateral = false;
    for (i, point) in got.iter().enumerate().take(steps) {
        for axis in 0..N {
            let sign = if to[axis] > from[axis] { 1.0 } else { -1.0 };
            let share = deltas[axis] / longest;
            let ideal = i as f64 * share;
            // Where nothing is rounded, a tie is a tie
            let exact = (N + 1).is_power_of_two() && (share * 1024.0).fract() == 0.0;
            let tolerance = if exact { 0.0 } else { T::EPS * 4.0 * (i as f64 + 4.0) };
            ctx.label_if(exact && N > 1 && (ideal + lead).fract() == 0.0 && share > 0.0, "tie");
            // The coordinate may lead the ideal line by up to `lead`, and lags by less than a whole unit minus that
            let lowest = (ideal + lead - tolerance).floor().max(0.0);
            let highest = (ideal + lead + tolerance).floor();
            let value = point[axis].f64();
            // Multiples of 1/64 add up exactly, anything else may depend on the order of summation
            let slack = if (from[axis] * 64.0).fract() == 0.0 {
                0.0
            } else {
                T::EPS * 2.0 * (from[axis].abs() + longest) * (i as f64 + 1.0)
            };
            let ok = |k: f64| (value - T::of(from[axis] + sign * k).f64()).abs() <= slack;
            ensure!(
                ok(lowest) || ok(highest),
                "{}: point {i} is {point:?}, coordinate {axis} should have moved by {lowest}{} and not to {value}",
                describe(),
                if highest != lowest { format!(" or {highest}") } else { String::new() }
            );
            lateral |= deltas[axis] != longest && lowest > 0.0;
        }
    }
    ctx.label(format!("dim {N}"));
    ctx.label_if(from.iter().chain(&to).any(|v| v.fract() != 0.0), "fractional");
    ctx.label_if(from.iter().chain(&to).any(|v| v.abs() >= 2.0 / T::EPS), "beyond unit resolution");
    ctx.label_if(steps >= 1000, "at least 1000 steps");
    ctx.label_if(steps >= 1 << 16, "at least 65536 steps");
    ctx.label_if(steps == 0, "less than one step");
    ctx.label_if(lateral, "moves along a minor axis");
    ctx.nontrivial_if(steps >= 3 && (lateral || N == 1));
    Ok(())
}

// ---- output types ----

const OUTS: u8 = 12;

/// Everything is compared to the floating point line, and dimensions and signs to their mirrored lines.
fn check_cast(c: &Line, ctx: &mut Ctx) -> CheckResult {
    macro_rules! by_out {
        ($f:ty, $n:literal) => {{
            let (start, end): (Point<$f, $n>, Point<$f, $n>) = (pt(&c.start), pt(&c.end));
            let float = plot_bresenham_line::<$f, $f, $n>(start, end);
            // Neither end depends on how the line gets there
            let mut float = float;
            *float.last_mut().expect("a line is never empty") = end;
            if float.len() > 1 {
                float[0] = start;
            }
            macro_rules! compare {
                ($t:ty) => {{
                    let got = plot_bresenham_line::<$f, $t, $n>(start, end);
                    ensure!(
                        got.len() == float.len(),
                        "from {start:?} to {end:?}: {} points of {}, {} points of {}",
                        got.len(), stringify!($t), float.len(), stringify!($f)
                    );
                    for (i, (got, float)) in got.iter().zip(&float).enumerate() {
                        let expected = float.map(|v| v as $t);
                        ensure!(
                            *got == expected,
                            "from {start:?} to {end:?}: point {i} is {got:?} as {}, while {float:?} should be {expected:?}",
                            stringify!($t)
                        );
                    }
                    ctx.label(format!("{} to {}", stringify!($f), stringify!($t)));
                    let range = (<$t>::MIN as f64, <$t>::MAX as f64);
                    ctx.label_if(
                        float.iter().any(|p| p.iter().any(|v| (*v as f64) < range.0 || (*v as f64) > range.1)),
                        "saturates",
                    );
                    ctx.label_if(
                        float.iter().any(|p| p.iter().any(|v| *v < 0.0 && v.fract() != 0.0)),
                        "negative fractions",
                    );
                    ctx.nontrivial_if(float.len() >= 3);
                }};
            }
            match c.out {
                0 => compare!(i32),
                1 => compare!(i64),
                2 => compare!(isize),
                3 => compare!(u32),
                4 => compare!(u64),
                5 => compare!(usize),
                6 => compare!(f32),
                7 => compare!(f64),
                8 => compare!(i8),
                9 => compare!(u8),
                10 => compare!(i16),
                _ => compare!(u16),
            }
        }};
    }
    match (c.single, c.dim) {
        (true, 1) => by_out!(f32, 1),
        (true, 2) => by_out!(f32, 2),
        (true, 3) => by_out!(f32, 3),
        (true, 4) => by_out!(f32, 4),
        (true, 5) => by_out!(f32, 5),
        (true, _) => by_out!(f32, 6),
        (false, 1) => by_out!(f64, 1),
        (false, 2) => by_out!(f64, 2),
        (false, 3) => by_out!(f64, 3),
        (false, 4) => by_out!(f64, 4),
        (false, 5) => by_out!(f64, 5),
        (false, _) => by_out!(f64, 6),
    }
    Ok(())
}

fn main() {
    pbt_engine::main(vec![
        Prop::new(
            "P11", 2_000_000, 60_000_000,
            "two end points in 1 to 6 dimensions of f32 or f64: integers, fractions, coordinates around and beyond the point where units can be represented, axis-aligned, diagonal and arbitrary floats, up to 400000 steps. Every point of the result is compared with the ideal line. Non-trivial: at least 3 steps, with movement along a minor axis",
            prop_oneof![200 => line(), 1 => long_line()], check_shape,
        ),
        Prop::new(
            "P12", 2_000_000, 60_000_000,
            "the same end points; the line in one of 12 output types is compared point by point with the converted floating-point line. Non-trivial: at least 3 points",
            prop_oneof![400 => line(), 1 => long_line()], check_cast,
        ),
    ]);
}
