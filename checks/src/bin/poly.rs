//! P08 - P10: point in polygon, polygon extents.
use mapping_algorithms::polygons::{
    are_multiple_points_in_polygon, calculate_polygon_extents, is_single_point_in_polygon,
};
use nalgebra::Point2;
use num_traits::AsPrimitive;
use pbt_checks::many::Random;
use pbt_checks::*;
use pbt_engine::exact::{self, Q};
use pbt_engine::F;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    single: bool,
    polygon: Vec<Q>,
    queries: Vec<Q>,
    /// Added to each coordinate.
    offset: (i64, i64),
    exp: i16,
}

fn polygon(s: i64) -> BoxedStrategy<Vec<Q>> {
    let size = prop_oneof![100 => Just(0usize..=3), 600 => Just(3..=12), 100 => Just(3..=40), 1 => Just(300..=900)];
    size.prop_flat_map(move |size| {
        prop_oneof![
            // Any closed polyline, mostly self-intersecting
            3 => vec((0..=s, 0..=s), size.clone()),
            // Star-shaped, i.e. simple
            4 => vec((0u32..3600, 0..=(s / 2)), size.clone()).prop_map(move |mut v| {
                v.sort();
                v.into_iter()
                    .map(|(a, r)| {
                        let (sin, cos) = (f64::from(a) / 10.0).to_radians().sin_cos();
                        (s / 2 + (r as f64 * cos).round() as i64, s / 2 + (r as f64 * sin).round() as i64)
                    })
                    .collect()
            }),
            // Rectilinear: only horizontal and vertical edges
            2 => vec((0..=s, 0..=s), size.clone()).prop_map(|v| {
                let mut out: Vec<Q> = Vec::new();
                for (x, y) in v {
                    if let Some(last) = out.last().copied() {
                        out.push((x, last.1));
                    }
                    out.push((x, y));
                }
                if let (Some(first), Some(last)) = (out.first().copied(), out.last().copied()) {
                    out.push((first.0, last.1));
                }
                out
            }),
            // A comb: the rays cross many edges
            1 => (size, 1..=s.max(1)).prop_map(move |(n, h)| {
                (0..n as i64).map(|i| ((i * s / n.max(1) as i64), if i % 2 == 0 { 0 } else { h })).collect()
            }),
        ]
    })
    .boxed()
}

fn queries(polygon: &[Q], s: i64, raw: Vec<(u8, Index, Index, Q)>) -> Vec<Q> {
    raw.into_iter()
        .map(|(kind, a, b, q)| {
            if polygon.is_empty() {
                return q;
            }
            let (v, w) = (*a.get(polygon), *b.get(polygon));
            let next = polygon[(a.index(polygon.len()) + 1) % polygon.len()];
            match kind {
                0 => v,
                // The ray passes exactly through a vertex
                1 | 2 => (q.0, v.1),
                3 => (v.0, q.1),
                4 => (v.0, w.1),
                // Next to an edge, or on it
                5 | 6 => (((v.0 + next.0) / 2) + q.0 % 3 - 1, (v.1 + next.1) / 2),
                // Outside of the extents
                7 => (q.0 - s - 1, v.1),
                8 => (q.0 + s + 1, w.1),
                9 => (v.0, q.1 + s + 1),
                _ => q,
            }
        })
        .collect()
}

fn case(max_queries: usize) -> impl Strategy<Value = Case> {
    // Powers of two do not change a thing, unless something overflows
    let exp = prop_oneof![4 => -6i16..=6, 1 => -45i16..=45];
    let grow = prop_oneof![3 => Just(1i16), 1 => 1i16..=8];
    (any::<bool>(), 0usize..=4, 0u8..=3, (exp, grow))
        .prop_flat_map(move |(single, spread, place, (exp, grow))| {
            let exp = if single { exp } else { exp * grow };
            let s = [4i64, 10, 60, 256, 1 << 20][if single { spread.min(3) } else { spread }];
            (
                polygon(s),
                gen::size(0..=max_queries, if max_queries > 8 { 1000 } else { max_queries }, 500)
                    .prop_flat_map(move |size| vec((0u8..=14, any::<Index>(), any::<Index>(), (0..=s, 0..=s)), size)),
                Just((single, s, place, exp)),
            )
        })
        .prop_map(|(polygon, raw, (single, s, place, exp))| Case {
            single,
            queries: queries(&polygon, s, raw),
            polygon,
            offset: [(0, 0), (-s / 2, -s / 2), (-s, 0), (0, -s)][place as usize],
            exp,
        })
}

fn build<T: Fl>(c: &Case, p: Q) -> Point2<T> {
    let unit = 2f64.powi(i32::from(c.exp));
    Point2::new(T::of((p.0 + c.offset.0) as f64 * unit), T::of((p.1 + c.offset.1) as f64 * unit))
}

fn on_boundary(polygon: &[Q], p: Q) -> bool {
    (0..polygon.len()).any(|i| exact::on_segment(polygon[i], polygon[(i + 1) % polygon.len()], p))
}

fn run_single<T: Fl>(c: &Case, ctx: &mut Ctx) -> CheckResult
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    let polygon: Vec<Point2<T>> = c.polygon.iter().map(|p| build(c, *p)).collect();
    for &q in &c.queries {
        let boundary = on_boundary(&c.polygon, q);
        ctx.label_if(boundary, "query on the boundary (unspecified)");
        if boundary {
            continue;
        }
        let expected = exact::inside(&c.polygon, q);
        let point = build::<T>(c, q);
        let got = is_single_point_in_polygon(&point, &polygon);
        ensure!(got == expected, "{point:?} in {polygon:?}: {got}, the even-odd rule says {expected}");
        // Whichever vertex comes first, and in both directions
        for shift in [1, 2, polygon.len() / 2] {
            let mut other = polygon.clone();
            if !other.is_empty() {
                let by = shift % other.len();
                other.rotate_left(by);
            }
            if shift == 2 {
                other.reverse();
            }
            ensure!(
                is_single_point_in_polygon(&point, &other) == expected,
                "{point:?} in {other:?}: {}, the even-odd rule says {expected}", !expected
            );
        }
        ctx.label(if expected { "inside" } else { "outside" });
        ctx.label_if(c.polygon.len() > 256, "more than 256 vertices");
        ctx.label_if(c.polygon.iter().any(|v| v.1 == q.1), "at the height of a vertex");
        ctx.nontrivial_if(c.polygon.len() >= 3 && c.polygon.iter().any(|v| v.0 > q.0) && c.polygon.iter().any(|v| v.1 >= q.1));
    }
    Ok(())
}

fn run_bulk<T: Fl>(c: &Case, ctx: &mut Ctx) -> CheckResult
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    let polygon: Vec<Point2<T>> = c.polygon.iter().map(|p| build(c, *p)).collect();
    let points: Vec<Point2<T>> = c.queries.iter().map(|p| build(c, *p)).collect();
    let Some(got) = are_multiple_points_in_polygon(&points, &polygon) else {
        ensure!(polygon.len() < 3, "nothing returned for a polygon of {} vertices", polygon.len());
        return Ok(());
    };
    ensure!(polygon.len() >= 3, "{got:?} returned for a polygon of {} vertices", polygon.len());
    ensure!(got.len() == points.len(), "{} results for {} points", got.len(), points.len());
    for (i, point) in points.iter().enumerate() {
        let alone = is_single_point_in_polygon(point, &polygon);
        ensure!(got[i] == alone, "point {i} {point:?} in {polygon:?}: {} in bulk, {alone} alone", got[i]);
        if !on_boundary(&c.polygon, c.queries[i]) {
            let expected = exact::inside(&c.polygon, c.queries[i]);
            ensure!(got[i] == expected, "point {i} {point:?} in {polygon:?}: {}, the even-odd rule says {expected}", got[i]);
        }
    }
    ctx.label_if(got.len() > 256, "more than 256 points");
    ctx.label_if(got.iter().any(|x| *x) && got.iter().any(|x| !*x), "mixed results");
    ctx.nontrivial_if(points.len() >= 2 && got.iter().any(|x| *x));
    Ok(())
}

fn by_precision(c: &Case, ctx: &mut Ctx, bulk: bool) -> CheckResult {
    match (c.single, bulk) {
        (true, true) => run_bulk::<f32>(c, ctx),
        (false, true) => run_bulk::<f64>(c, ctx),
        (true, false) => run_single::<f32>(c, ctx),
        (false, false) => run_single::<f64>(c, ctx),
    }
}

// Arbitrary floats, away from the boundary

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    single: bool,
    polygon: Vec<P>,
    queries: Vec<P>,
}

fn real() -> impl Strategy<Value = Real> {
    let cloud = gen::size(3..=12, 500, 500).prop_flat_map(|size| gen::cloud(2, size));
    (any::<bool>(), cloud, vec((any::<Index>(), any::<Index>(), gen::unit(), gen::unit()), 1..=6)).prop_map(
        |(single, polygon, raw)| {
            let queries = raw
                .into_iter()
                .map(|(a, b, t, u)| {
                    let (p, q) = (a.get(&polygon), b.get(&polygon));
                    vec![
                        F(gen::single(p[0].0 + (q[0].0 - p[0].0) * t * 1.1)),
                        F(gen::single(q[1].0 + (p[1].0 - q[1].0) * u * 1.1)),
                    ]
                })
                .collect();
            Real { single, polygon, queries }
        },
    )
}

fn segment_distance(a: [f64; 2], b: [f64; 2], p: [f64; 2]) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let len2 = dx * dx + dy * dy;
    let t = if len2 > 0.0 { (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / len2).clamp(0.0, 1.0) } else { 0.0 };
    dist2(&[a[0] + t * dx, a[1] + t * dy], &p).sqrt()
}

fn run_real<T: Fl>(c: &Real, ctx: &mut Ctx) -> CheckResult
where
    f32: AsPrimitive<T>,
    f64: AsPrimitive<T>,
{
    let polygon = pts::<T, 2>(&c.polygon);
    let exact = raws(&polygon);
    let n = exact.len();
    let queries = pts::<T, 2>(&c.queries);
    let span = exact.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let bulk = are_multiple_points_in_polygon(&queries, &polygon).ok_or("no bulk result")?;
    for (i, q) in queries.iter().enumerate() {
        let p = raw(q);
        let near = (0..n).map(|i| segment_distance(exact[i], exact[(i + 1) % n], p)).fold(f64::INFINITY, f64::min);
        if near <= span * T::EPS * 64.0 {
            ctx.label("too close to the boundary");
            continue;
        }
        let mut expected = false;
        for i in 0..n {
            let (a, b) = (exact[i], exact[(i + 1) % n]);
            if (a[1] > p[1]) != (b[1] > p[1]) && p[0] < (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]) + a[0] {
                expected = !expected;
            }
        }
        ensure!(
            is_single_point_in_polygon(q, &polygon) == expected && bulk[i] == expected,
            "{q:?} in {polygon:?}: {} (bulk {}), the even-odd rule says {expected}",
            is_single_point_in_polygon(q, &polygon), bulk[i]
        );
        ctx.nontrivial = true;
        ctx.label(if expected { "inside" } else { "outside" });
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AnyCase {
    Exact(Case),
    Inexact(Real),
}

// ---- extents ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Extents {
    single: bool,
    dim: usize,
    polygon: Vec<P>,
}

fn extents() -> impl Strategy<Value = Extents> {
    const SPECIAL: [f64; 8] =
        [1e30, -1e30, 1e-30, -1e-30, f32::MAX as f64, f32::MIN as f64, 0.0, f32::MIN_POSITIVE as f64];
    let dim = prop_oneof![9 => 1usize..=4, 1 => 5usize..=7];
    (any::<bool>(), dim, 0u8..=3, gen::size(0..=12, 2000, 500)).prop_flat_map(|(single, dim, sign, size)| {
        (gen::cloud(dim, size), vec((any::<Index>(), 0..dim, 0usize..SPECIAL.len()), 0..=3)).prop_map(
            move |(mut polygon, special)| {
                if !polygon.is_empty() {
                    for (v, axis, s) in special {
                        let at = v.index(polygon.len());
                        polygon[at][axis] = F(SPECIAL[s]);
                    }
                }
                for v in &mut polygon {
                    for c in v {
                        // Entirely positive or entirely negative extents
                        *c = match sign {
                            0 => F(c.0.abs()),
                            1 => F(-c.0.abs()),
                            _ => *c,
                        };
                    }
                }
                Extents { single, dim, polygon }
            },
        )
    })
}

fn check_extents(c: &Extents, ctx: &mut Ctx) -> CheckResult {
    dispatch!(c.single, c.dim, [1, 2, 3, 4, 5, 6, 7], run_extents(c, ctx))
}

fn run_extents<T: Fl, const N: usize>(c: &Extents, ctx: &mut Ctx) -> CheckResult {
    let polygon = pts::<T, N>(&c.polygon);
    let Some(got) = calculate_polygon_extents(&polygon) else {
        ensure!(polygon.len() < 3, "nothing returned for {} vertices", polygon.len());
        return Ok(());
    };
    ensure!(polygon.len() >= 3, "{got:?} returned for {} vertices", polygon.len());
    for (axis, range) in got.iter().enumerate() {
        let all: Vec<f64> = polygon.iter().map(|p| p[axis].f64()).collect();
        let min = all.iter().copied().fold(f64::INFINITY, f64::min);
        let max = all.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        ensure!(
            range.start().f64() == min && range.end().f64() == max,
            "extents of axis {axis} of {polygon:?} are {range:?} instead of {min}..={max}"
        );
    }
    ctx.label(format!("dim {N}"));
    ctx.nontrivial = true;
    Ok(())
}

fn many_vertices(n: usize, random: &mut Random) -> AnyCase {
    let s = 1i64 << 20;
    let polygon: Vec<Q> = (0..n as i64).map(|i| (i * s / n as i64, if i % 2 == 0 { 0 } else { s - i % 1000 })).collect();
    let queries = (0..3)
        .map(|_| match polygon[n - random.within(1, 500) as usize] {
            (x, 0) => (x - 1, random.within(1, s / 2)),
            (x, y) => (x, y - random.within(1, s / 2)),
        })
        .collect();
    AnyCase::Exact(Case { single: false, polygon, queries, offset: (0, 0), exp: 0 })
}

fn many_queries(n: usize, random: &mut Random) -> Case {
    let mut at = || (random.within(0, 60), random.within(0, 60));
    let polygon = (0..5).map(|_| at()).collect();
    let queries = (0..n).map(|_| at()).collect();
    Case { single: random.flip(), polygon, queries, offset: (0, 0), exp: 0 }
}

fn many_extents(n: usize, random: &mut Random) -> Extents {
    let dim = random.within(2, 3) as usize;
    let mut polygon = random.cloud(n, dim, 100.0);
    // The extreme one is among the last
    let at = n - random.within(1, 400) as usize;
    polygon[at] = random.point(dim, 1.0).into_iter().map(|c| F(c.0.signum() * 200.0)).collect();
    Extents { single: random.flip(), dim, polygon }
}

fn main() {
    pbt_engine::main(vec![
        Prop::with_fixed(
            "P08", 2_000_000, 60_000_000,
            "a polygon (any polyline, star-shaped, rectilinear or comb) of up to 80, rarely 1800 or 80,000, vertices and up to 8 queries on a lattice in f32 or f64, small enough for the intersections to be decidable, compared with an exact even-odd rule, also for the rotated and reversed polygon; one in five cases has arbitrary floats, skipping queries close to the boundary. Non-trivial: a polygon with vertices to the right of and above a query off its boundary",
            many::or_many(prop_oneof![4 => case(8).prop_map(AnyCase::Exact), 1 => real().prop_map(AnyCase::Inexact)], 300_000),
            |c, ctx| many::checked(c, ctx, many_vertices, |c, ctx| match c {
                AnyCase::Exact(c) => by_precision(c, ctx, false),
                AnyCase::Inexact(c) if c.single => run_real::<f32>(c, ctx),
                AnyCase::Inexact(c) => run_real::<f64>(c, ctx),
            }),
            many::fixed(0..6),
        ),
        Prop::with_fixed(
            "P09", 2_000_000, 60_000_000,
            "the same polygons (including fewer than 3 vertices) and up to 24 (rarely 1000 or 80,000) queries: vertices, points on edges, around and outside of the extents. The bulk result is compared with the single query for each point. Non-trivial: at least two points, one of which is inside",
            many::or_many(case(24), 300_000),
            |c, ctx| many::checked(c, ctx, many_queries, |c, ctx| by_precision(c, ctx, true)),
            many::fixed(0..6),
        ).min_nontrivial(0.2),
        Prop::with_fixed(
            "P10", 2_000_000, 60_000_000,
            "up to 12 (rarely 2000 or 80,000) vertices in 1 to 7 dimensions of f32 or f64, including all-negative, all-positive and huge ones, compared with the componentwise minimum and maximum. Non-trivial: at least 3 vertices",
            many::or_many(extents(), 300_000), |c, ctx| many::checked(c, ctx, many_extents, check_extents), many::fixed(0..6),
        ),
    ]);
}
